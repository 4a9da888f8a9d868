//! C04: raw trees against a structured reference tree.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::{ensure, fail, ok};
use bm::{Dangling, Index, Leak, Owned, Raw, RootStatus, Tree};
use crate::maps::HashMap;
use std::rc::Rc;

pub fn path_of(i: usize) -> Vec<bool> {
	let bits = usize::BITS - 1 - i.leading_zeros();
	(0..bits).rev().map(|b| i >> b & 1 == 1).collect()
}
pub fn index_of(p: &[bool]) -> usize { p.iter().fold(1usize, |a, b| a * 2 + *b as usize) }

/// Everything the model ever put into the backend.
#[derive(Default)]
pub struct Ever(pub HashMap<V, Option<(V, V)>>);
impl Ever {
	pub fn add(&mut self, t: &Rc<T>) { t.collect(&mut self.0); }
	pub fn kids(&self, x: &V) -> Option<(V, V)> { self.0.get(x).cloned().flatten() }
	/// The tree below x as far as it is certainly stored.
	pub fn expand<C: Cons>(&self, x: &V, known: &dyn Fn(&V) -> bool) -> Rc<T> {
		fn go<C: Cons>(e: &Ever, x: &V, known: &dyn Fn(&V) -> bool, memo: &mut HashMap<V, Rc<T>>) -> Rc<T> {
			if let Some(t) = memo.get(x) { return t.clone() }
			let t = match e.kids(x) { Some((l, r)) if known(x) => T::node::<C>(go::<C>(e, &l, known, memo), go::<C>(e, &r, known, memo)), _ => T::leaf(x.clone()) };
			memo.insert(x.clone(), t.clone());
			t
		}
		go::<C>(self, x, known, &mut HashMap::new())
	}
}

pub enum Want { Exactly(Option<V>), MaybeOr(V) }
/// What reading `path` of `t` must give. `known(x)` says whether the content of a leaf with hash x is certainly stored.
pub fn want(t: &Rc<T>, path: &[bool], ever: &Ever, known: &dyn Fn(&V) -> bool) -> Want {
	let mut c = t.clone();
	let mut k = 0;
	while k < path.len() {
		let n = match &c.kids { Some((l, r)) => if path[k] { r.clone() } else { l.clone() }, None => break };
		c = n;
		k += 1;
	}
	let mut x = c.hash.clone();
	let mut sure = true;
	while k < path.len() {
		match ever.kids(&x) {
			Some((l, r)) => { if !known(&x) { sure = false; } x = if path[k] { r } else { l }; k += 1; },
			None => return Want::Exactly(None),
		}
	}
	if sure { Want::Exactly(Some(x)) } else { Want::MaybeOr(x) }
}
/// Model tree ready to be written at `path`, or None if what lies there is not determined.
pub fn writable<C: Cons>(t: &Rc<T>, path: &[bool], ever: &Ever, known: &dyn Fn(&V) -> bool) -> Option<Rc<T>> {
	let mut c = t.clone();
	let mut k = 0;
	while k < path.len() {
		let n = match &c.kids { Some((l, r)) => if path[k] { r.clone() } else { l.clone() }, None => break };
		c = n;
		k += 1;
	}
	if k == path.len() || ever.kids(&c.hash).is_none() { return Some(t.clone()) }
	if !known(&c.hash) { return None }
	// what was expanded may end above the path in its turn
	let below = writable::<C>(&ever.expand::<C>(&c.hash, known), &path[k..], ever, known)?;
	Some(t.set::<C>(&path[..k], below))
}

pub fn gen_index(rng: &mut Rng, recent: &[usize]) -> usize {
	match rng.below(12) {
		0 => 1,
		1 | 2 if !recent.is_empty() => *rng.pick(recent),
		3 if !recent.is_empty() => { let r = *rng.pick(recent); if r > 1 { r / 2 } else { 1 } },
		4 if !recent.is_empty() => { let r = *rng.pick(recent); if r < 1 << (WORD - 6) { r * 2 + rng.us(2) } else { r } },
		5 if !recent.is_empty() => { let r = *rng.pick(recent); if r > 1 { r ^ 1 } else { 1 } },
		6 => { let d = rng.range(20, WORD as u64 - 2); (1usize << d) + (rng.word() & ((1usize << d) - 1)) },
		7 => { let d = rng.range(5, 20); (1usize << d) + (rng.word() & ((1usize << d) - 1)) },
		8 if !recent.is_empty() => { let r = *rng.pick(recent); if r < 1 << (WORD - 14) { (r << 4) + rng.us(16) } else { r } },
		_ => 1 + rng.us(31),
	}
}

struct H<Q: RootStatus, C: Cons> { raw: Raw<Q, C>, t: Rc<T> }

fn history<Q: RootStatus, C: Cons>(ctx: &mut Ctx, db: &mut Dyn<C>, collected: bool) -> R {
	let n = 1 + ctx.rng.us(3);
	let mut hs: Vec<H<Q, C>> = (0..n).map(|_| H { raw: Raw::default(), t: T::leaf(zero()) }).collect();
	let mut ever = Ever::default();
	let mut recent: Vec<usize> = vec![];
	let mut future: Vec<(V, V, V)> = vec![];
	let steps = ctx.rng.range(8, if ctx.thorough { 90 } else { 45 });
	for _ in 0..steps {
		let k = ctx.rng.us(n);
		let live: Option<HashMap<V, Option<(V, V)>>> = if collected { let mut m = HashMap::new(); for h in &hs { h.t.collect(&mut m); } Some(m) } else { None };
		let known = |x: &V| match &live { Some(m) => matches!(m.get(x), Some(Some(_))), None => true };
		let idx = gen_index(&mut ctx.rng, &recent);
		let path = path_of(idx);
		let base = match writable::<C>(&hs[k].t, &path, &ever, &known) { Some(t) => t, None => { ctx.count("undetermined_skipped", 1); continue } };
		// choose what to write
		let (x, sub, what): (V, Rc<T>, &str) = match ctx.rng.below(12) {
			0 => (zero(), T::leaf(zero()), "default"),
			1 | 2 => { // the hash of a live node: its content comes with it
				let h = ctx.rng.us(n);
				let d = ctx.rng.us(4);
				let p: Vec<bool> = (0..d).map(|_| ctx.rng.chance(1, 2)).collect();
				let mut s = hs[h].t.clone();
				for b in p { s = match &s.kids { Some((l, r)) => if b { r.clone() } else { l.clone() }, None => break } }
				let s = if s.kids.is_none() && ever.kids(&s.hash).is_some() { if known(&s.hash) { ever.expand::<C>(&s.hash, &known) } else { continue } } else { s };
				(s.hash.clone(), s, "graft")
			},
			3 => { // the hash of a node that does not exist yet
				let (a, b) = (vs(&ctx.rng.bytes(32)), vs(&ctx.rng.bytes(32)));
				let x = C::h(&a, &b);
				future.push((x.clone(), a, b));
				(x.clone(), T::leaf(x), "unknown hash")
			},
			4 if !future.is_empty() => { // create a node whose hash was already written as a value
				let (x, a, b) = ctx.rng.pick(&future).clone();
				let p = if idx < 1 << (WORD - 4) { idx } else { 1 };
				if p != idx { continue }
				let (l, r) = (p * 2, p * 2 + 1);
				let (mut lp, mut rp) = (path.clone(), path.clone());
				lp.push(false); rp.push(true);
				// make the position itself fresh first
				let f = vs(&ctx.rng.bytes(32));
				ok!(hs[k].raw.set(db, Index::from_one(p).unwrap(), f.clone()), "set");
				let t = base.set::<C>(&path, T::leaf(f));
				ok!(hs[k].raw.set(db, Index::from_one(l).unwrap(), a.clone()), "set");
				let t = t.set::<C>(&lp, T::leaf(a.clone()));
				ever.add(&t);
				ok!(hs[k].raw.set(db, Index::from_one(r).unwrap(), b.clone()), "set");
				let t = t.set::<C>(&rp, T::leaf(b));
				ever.add(&t);
				hs[k].t = t;
				ctx.t(4, p as u64, || format!("tree {}: built {} (already written as a value) at {}", k, hex(&x), p));
				ctx.count("values_becoming_nodes", 1);
				check(ctx, db, &hs, &ever, &recent, collected)?;
				continue
			},
			_ => { let x = vs(&Gen::val(&mut ctx.rng, 32, &[])); if ever.kids(&x).is_some() { continue } (x.clone(), T::leaf(x), "value") },
		};
		recent.push(idx);
		if recent.len() > 10 { recent.remove(0); }
		if let Err(e) = hs[k].raw.set(db, Index::from_one(idx).unwrap(), x.clone()) { fail!("set({}, {}) failed with {:?}", idx, hex(&x), e) }
		hs[k].t = base.set::<C>(&path, sub);
		ever.add(&hs[k].t);
		ctx.count("sets", 1);
		ctx.max("max_depth", path.len() as u64);
		if what == "graft" { ctx.count("grafts", 1); }
		ctx.t(1, idx as u64, || format!("tree {}: set({}, {} {}) -> root {}", k, idx, what, hex(&x), hex(&hs[k].t.hash)));
		ctx.observe(bytes(&hs[k].raw.root()));
		// the written index reads back
		match hs[k].raw.get(db, Index::from_one(idx).unwrap()) { Ok(Some(g)) if g == x => (), g => fail!("set({}, {}) reads back {:?}", idx, hex(&x), g) }
		if ctx.rng.chance(1, 10) {
			let m = hs[k].raw.metadata();
			hs[k].raw = Raw::from_leaked(m);
		}
		check(ctx, db, &hs, &ever, &recent, collected)?;
	}
	ctx.nontrivial = true;
	Ok(())
}
fn check<Q: RootStatus, C: Cons>(ctx: &mut Ctx, db: &mut Dyn<C>, hs: &[H<Q, C>], ever: &Ever, recent: &[usize], collected: bool) -> R {
	let live: Option<HashMap<V, Option<(V, V)>>> = if collected { let mut m = HashMap::new(); for h in hs { h.t.collect(&mut m); } Some(m) } else { None };
	let known = |x: &V| match &live { Some(m) => matches!(m.get(x), Some(Some(_))), None => true };
	for (k, h) in hs.iter().enumerate() {
		ensure!(h.raw.root() == h.t.hash, "tree {}: root is {} instead of {}", k, hex(&h.raw.root()), hex(&h.t.hash));
		let mut idx: Vec<usize> = recent.to_vec();
		idx.push(1);
		for _ in 0..4 { idx.push(gen_index(&mut ctx.rng, recent)); }
		// every index near the written ones: parents and siblings too
		for r in recent.iter().take(4) { let mut p = *r; while p > 1 && idx.len() < 60 { idx.push(p ^ 1); p /= 2; idx.push(p); } }
		for i in idx {
			let got = match h.raw.get(db, Index::from_one(i).unwrap()) { Ok(g) => g, Err(e) => fail!("tree {}: get({}) failed with {:?}", k, i, e) };
			match want(&h.t, &path_of(i), ever, &known) {
				Want::Exactly(w) => ensure!(got == w, "tree {}: get({}) is {:?} instead of {:?}", k, i, got.map(|x| hex(&x)), w.map(|x| hex(&x))),
				Want::MaybeOr(w) => ensure!(got.is_none() || got.as_ref() == Some(&w), "tree {}: get({}) is {:?}, neither nothing nor {}", k, i, got.map(|x| hex(&x)), hex(&w)),
			}
			ctx.count("reads_checked", 1);
		}
	}
	Ok(())
}
fn run<C: Cons>(ctx: &mut Ctx) -> R {
	let which = ctx.rng.below(5);
	let owned = ctx.rng.chance(1, 2);
	// a store that collects: in-memory with owned handles
	let collected = owned && which != 1;
	with_db::<C>(which, ctx, |ctx, db| if owned { history::<Owned, C>(ctx, db, collected) } else { history::<Dangling, C>(ctx, db, collected) })
}
pub fn c04(ctx: &mut Ctx) -> R { match ctx.rng.below(4) { 0 => run::<Unit>(ctx), 1 => run::<Inh512>(ctx), _ => run::<Inh>(ctx) } }
