//! C08, C09, C18: several trees in one reference-counted store.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::p_raw::*;
use crate::types::*;
use crate::{ensure, fail, ok};
use bm::{Index, Leak, Owned, Raw, ReadBackend, Tree, WriteBackend};
use crate::maps::{HashMap, HashSet};
use std::collections::BTreeSet;
use std::rc::Rc;

enum Obj<C: Cons> {
	Raw { h: Raw<Owned, C>, t: Rc<T> },
	Seq(Seq<C>),
	Typed { h: Raw<Owned, C>, ty: usize, val: Box<dyn AnyVal>, nodes: HashMap<V, (V, V)> },
}
impl<C: Cons> Obj<C> {
	fn root(&self) -> V { match self { Obj::Raw { h, .. } => h.root(), Obj::Seq(s) => s.h.root(), Obj::Typed { h, .. } => h.root() } }
	fn tree(&self) -> Option<Rc<T>> { match self { Obj::Raw { t, .. } => Some(t.clone()), Obj::Seq(s) => Some(s.m.tree::<C>()), Obj::Typed { .. } => None } }
	fn name(&self) -> &'static str { match self { Obj::Raw { .. } => "raw", Obj::Seq(_) => "sequence", Obj::Typed { .. } => "typed value" } }
}
type Live = HashMap<V, Option<(V, V)>>;

struct World<C: Cons> { db: Mon<InMem<C>>, objs: Vec<(usize, Obj<C>)>, ever: Ever, next: usize, future: Vec<(V, V, V)>, exact: bool, leaky: bool, excuse: bool, leaked: HashSet<V>,
	/// Populated from proofs, to stay for good; whether this world does so.
	pops: Vec<Rc<T>>, populates: bool }
impl<C: Cons + TyC> World<C> {
	fn live(&self) -> Live { let mut m = HashMap::new(); for t in &self.pops { t.collect(&mut m); } for (_, o) in &self.objs { if let Some(t) = o.tree() { t.collect(&mut m); } if let Obj::Typed { nodes, .. } = o { for (x, k) in nodes { m.insert(x.clone(), Some(k.clone())); } } } m }
	fn learn(&mut self) { for t in &self.pops { self.ever.add(t); } for (_, o) in &self.objs { if let Some(t) = o.tree() { self.ever.add(&t); } } }
	fn check(&mut self, ctx: &mut Ctx, deep: bool) -> R {
		let live = self.live();
		ctx.max("max_live_nodes", live.len() as u64);
		for (x, k) in &live {
			if let Some(k) = k {
				let got = ok!(self.db.inner.get(x), "lookup");
				ensure!(got.as_ref() == Some(k), "node {} of a live tree is looked up as {:?} instead of its children {} {}", hex(x), got.map(|g| (hex(&g.0), hex(&g.1))), hex(&k.0), hex(&k.1));
				ctx.count("live_nodes_checked", 1);
			}
		}
		for (id, o) in &self.objs {
			match o {
				Obj::Raw { h, t } => ensure!(h.root() == t.hash, "raw tree {} has root {} instead of {}", id, hex(&h.root()), hex(&t.hash)),
				Obj::Seq(s) => { s.check_root(ctx)?; if deep { s.check_elems(ctx, &mut self.db)?; } },
				Obj::Typed { h, ty, val, .. } => if deep {
					let x = ok!(C::dec(*ty, &h.root(), &mut self.db), "decoding live value {:?} of {}", val, C::tname(*ty));
					ensure!(val.same(&*x), "live value of {} decodes as {:?} instead of {:?}", C::tname(*ty), x, val);
					ctx.count("live_values_decoded", 1);
				},
			}
		}
		if self.exact {
			// everything stored is reachable from a live root
			let mut allowed: HashSet<V> = live.keys().cloned().collect();
			allowed.insert(zero());
			// announced nodes may become known on the way of an operation
			let future: HashMap<&V, (&V, &V)> = self.future.iter().map(|(x, l, r)| (x, (l, r))).collect();
			let mut todo: Vec<V> = live.iter().filter(|(_, k)| k.is_none()).map(|(x, _)| x.clone()).collect();
			while let Some(x) = todo.pop() {
				if let Some((l, r)) = self.ever.kids(&x).or_else(|| future.get(&x).map(|k| (k.0.clone(), k.1.clone()))) { for y in [l, r] { if allowed.insert(y.clone()) { todo.push(y); } } }
			}
			let excuse = std::mem::replace(&mut self.excuse, false);
			let stored = self.db.inner.as_ref();
			let mut todo: Vec<V> = self.leaked.iter().cloned().collect();
			if excuse { for x in stored.keys() { if !allowed.contains(x) && self.leaked.insert(x.clone()) { todo.push(x.clone()); ctx.count("known_leaked_nodes", 1); } } }
			while let Some(x) = todo.pop() {
				allowed.insert(x.clone());
				if let Some((Some((l, r)), _)) = stored.get(&x) { for y in [l, r] { if allowed.insert(y.clone()) { todo.push(y.clone()); } } }
			}
			for x in stored.keys() {
				ensure!(allowed.contains(x), "node {} is kept although no live tree reaches it ({} stored, {} reachable, {} trees)", hex(x), self.db.inner.as_ref().len(), allowed.len(), self.objs.len());
			}
			ctx.count("stores_compared", 1);
			ctx.count("stored_nodes_checked", self.db.inner.as_ref().len() as u64);
		}
		Ok(())
	}
	fn add(&mut self, o: Obj<C>) -> usize { let id = self.next; self.next += 1; self.objs.push((id, o)); id }
	fn new_obj(&mut self, ctx: &mut Ctx) -> R {
		let r = ctx.rng.below(if self.exact { 8 } else { 10 });
		match r {
			0 | 1 | 2 => {
				// fresh, or a second owner of a tree that is there
				let (h, t) = match (ctx.rng.chance(1, 3), self.objs.is_empty()) {
					(true, false) => {
						let k = ctx.rng.us(self.objs.len());
						match if !self.pops.is_empty() && ctx.rng.chance(1, 2) { Some(ctx.rng.pick(&self.pops).clone()) } else { self.objs[k].1.tree() } {
							Some(t) => { ok!(self.db.rootify(&t.hash).map_err(bm::Error::Backend::<EE>), "rootify"); (Raw::from_leaked(t.hash.clone()), t) },
							None => (Raw::default(), T::leaf(zero())),
						}
					},
					_ => (Raw::default(), T::leaf(zero())),
				};
				let hh = hex(&t.hash);
				let id = self.add(Obj::Raw { h, t });
				ctx.t(1, 0, || format!("new raw tree {} at {}", id, hh));
			},
			3..=7 => {
				let packed = ctx.rng.chance(1, 3);
				let mut kind = gen_kind(&mut ctx.rng, packed);
				if self.exact && !self.leaky { if let Kind::PList(n) = kind { if 32 % n != 0 || C::UNIT { kind = Kind::PVector(n) } } }
				let mut spec = gen_spec::<C>(&mut ctx.rng, kind, true);
				if self.exact && !self.leaky && kind.is_list() && spec.max.is_none() { spec.max = Some(gen_max(&mut ctx.rng, kind.esize())) }
				let id = self.next;
				let mut s = Seq::create(ctx, &mut self.db, spec, id)?;
				s.gen.cap = 24;
				self.add(Obj::Seq(s));
			},
			_ => {
				let ty = ctx.rng.us(C::tcount());
				let val = C::tgen(ty, &mut ctx.rng);
				let (top, all) = crate::p_types::tree_of::<C>(&*val)?;
				for (x, k) in &all { self.ever.0.insert(x.clone(), Some(k.clone())); }
				// only what the root reaches is owned
				let mut nodes = HashMap::new();
				let mut todo = vec![top];
				while let Some(x) = todo.pop() { if let Some(k) = all.get(&x) { if nodes.insert(x, k.clone()).is_none() { todo.push(k.0.clone()); todo.push(k.1.clone()); } } }
				let root = ok!(C::into(&*val, &mut self.db), "merkleizing {:?}", val);
				ok!(self.db.rootify(&root).map_err(bm::Error::Backend::<EE>), "rootify");
				let id = self.add(Obj::Typed { h: Raw::from_leaked(root.clone()), ty, val, nodes });
				ctx.t(2, ty as u64, || format!("new value {} of {} at {}", id, C::tname(ty), hex(&root)));
				ctx.count("typed_values", 1);
			},
		}
		Ok(())
	}
	/// Proof entries go into the store, as if they came from elsewhere.
	fn populate(&mut self, ctx: &mut Ctx) -> R {
		let live = self.live();
		let known = |x: &V| matches!(live.get(x), Some(Some(_)));
		let mut entries: std::collections::BTreeMap<V, (V, V)> = Default::default();
		let what = ctx.rng.below(5);
		match what {
			0 if !self.future.is_empty() => {
				// what is stored as a value becomes known
				for _ in 0..1 + ctx.rng.us(3) { let (x, a, b) = ctx.rng.pick(&self.future).clone(); entries.insert(x, (a, b)); }
			},
			1 | 2 => {
				// some nodes of what is there
				let mut inner: Vec<(V, (V, V))> = live.iter().filter_map(|(x, k)| k.clone().map(|k| (x.clone(), k))).collect();
				inner.sort();
				if inner.is_empty() { return Ok(()) }
				for _ in 0..1 + ctx.rng.us(4) { let (x, k) = ctx.rng.pick(&inner).clone(); entries.insert(x, k); }
			},
			_ => {
				// branches of a tree elsewhere, over new values and nodes that are here
				let mut here: Vec<V> = live.keys().cloned().collect();
				here.sort();
				let n = 1usize << (1 + ctx.rng.us(3));
				let mut level: Vec<V> = (0..n).map(|_| if !here.is_empty() && ctx.rng.chance(1, 2) { ctx.rng.pick(&here).clone() } else { vs(&ctx.rng.bytes(32)) }).collect();
				let all = ctx.rng.chance(1, 2);
				while level.len() > 1 {
					level = level.chunks(2).map(|p| {
						let x = C::h(&p[0], &p[1]);
						if all || ctx.rng.chance(2, 3) { entries.insert(x.clone(), (p[0].clone(), p[1].clone())); } else { 
							// this one may become known on the way of some operation
							self.ever.add(&T::node::<C>(T::leaf(p[0].clone()), T::leaf(p[1].clone())));
							self.future.push((x.clone(), p[0].clone(), p[1].clone()));
						}
						x
					}).collect();
				}
			},
		}
		for (x, (l, r)) in &entries { self.ever.add(&T::node::<C>(T::leaf(l.clone()), T::leaf(r.clone()))); debug_assert!(C::h(l, r) == *x); }
		let known = |x: &V| known(x) || entries.contains_key(x);
		for x in entries.keys() { self.pops.push(self.ever.expand::<C>(x, &known)); }
		self.db.inner.populate(entries.iter().map(|(x, k)| (x.clone(), k.clone())).collect());
		ctx.count("populated_entries", entries.len() as u64);
		ctx.t(8, entries.len() as u64 ^ what << 8, || format!("populated {} entries ({})", entries.len(), what));
		Ok(())
	}
	fn step(&mut self, ctx: &mut Ctx) -> R {
		if self.populates && ctx.rng.chance(1, 10) { return self.populate(ctx) }
		if self.objs.is_empty() || (self.objs.len() < 5 && ctx.rng.chance(1, 8)) { return self.new_obj(ctx) }
		let k = ctx.rng.us(self.objs.len());
		let roots: Vec<V> = self.objs.iter().map(|o| o.1.root()).collect();
		if ctx.rng.chance(1, 14) {
			let (id, o) = self.objs.swap_remove(k);
			let name = o.name();
			match o {
				Obj::Raw { h, .. } | Obj::Typed { h, .. } => ok!(h.drop(&mut self.db), "drop"),
				Obj::Seq(s) => ok!(s.h.release(&mut self.db), "drop"),
			}
			ctx.count("drops", 1);
			ctx.t(3, id as u64, || format!("dropped {} {}", name, id));
			return Ok(())
		}
		let live = self.live();
		let known = |x: &V| matches!(live.get(x), Some(Some(_)));
		let trees: Vec<Rc<T>> = self.objs.iter().filter_map(|o| o.1.tree()).chain(self.pops.iter().cloned()).collect();
		let (id, o) = self.objs.swap_remove(k);
		let o = match o {
			Obj::Seq(mut s) => {
				if ctx.rng.chance(1, 10) { s = s.reopen(ctx, &mut self.db)?; } else {
					let before = s.m.depth();
					s.step(ctx, &mut self.db, &roots)?;
					// known findings: these operations leave intermediate roots behind
					self.excuse = match s.m.spec.kind { Kind::PList(n) => 32 % n != 0 || C::UNIT || s.m.depth() != before, Kind::List => s.m.depth() != before, _ => false };
				}
				Obj::Seq(s)
			},
			Obj::Typed { h, ty, val, nodes } => {
				// leaked and restored
				let m = h.metadata();
				ctx.t(4, ty as u64, || format!("leaked and restored value {}", id));
				Obj::Typed { h: Raw::from_leaked(m), ty, val, nodes }
			},
			Obj::Raw { mut h, mut t } => {
				let idx = if ctx.rng.chance(1, 12) { gen_index(&mut ctx.rng, &[]) } else { 1 + ctx.rng.us(31) };
				let path = path_of(idx);
				match writable::<C>(&t, &path, &self.ever, &known) {
					None => Obj::Raw { h, t },
					Some(base) => {
						let r = ctx.rng.below(10);
						let (sub, what) = match r {
							0 => (T::leaf(zero()), "default"),
							1 | 2 | 3 => {
								let mut s = ctx.rng.pick(&trees).clone();
								for _ in 0..ctx.rng.us(4) { let b = ctx.rng.chance(1, 2); s = match &s.kids { Some((l, r)) => if b { r.clone() } else { l.clone() }, None => break } }
								if s.kids.is_none() && self.ever.kids(&s.hash).is_some() { s = T::leaf(zero()); }
								ctx.count("grafts", 1);
								(s, "graft")
							},
							4 => {
								let (a, b) = (vs(&ctx.rng.bytes(32)), vs(&ctx.rng.bytes(32)));
								let x = C::h(&a, &b);
								self.future.push((x.clone(), a, b));
								(T::leaf(x), "unknown hash")
							},
							5 if !self.future.is_empty() && idx < 1 << (WORD - 4) => {
								// a node whose hash may already be stored as a value becomes known
								let (_, a, b) = ctx.rng.pick(&self.future).clone();
								let f = vs(&ctx.rng.bytes(32));
								ok!(h.set(&mut self.db, Index::from_one(idx).unwrap(), f), "set");
								ok!(h.set(&mut self.db, Index::from_one(idx).unwrap().left(), a.clone()), "set");
								let mid = base.set::<C>(&path, T::node::<C>(T::leaf(a.clone()), T::leaf(zero())));
								self.ever.add(&mid);
								ok!(h.set(&mut self.db, Index::from_one(idx).unwrap().right(), b.clone()), "set");
								t = base.set::<C>(&path, T::node::<C>(T::leaf(a), T::leaf(b)));
								ctx.count("values_becoming_nodes", 1);
								ctx.t(5, idx as u64, || format!("tree {}: built an announced node at {}", id, idx));
								self.objs.push((id, Obj::Raw { h, t }));
								return Ok(())
							},
							_ => { let x = vs(&Gen::val(&mut ctx.rng, 32, &[])); (T::leaf(x), "value") },
						};
						if what == "value" && self.ever.kids(&sub.hash).is_some() { self.objs.push((id, Obj::Raw { h, t })); return Ok(()) }
						ok!(h.set(&mut self.db, Index::from_one(idx).unwrap(), sub.hash.clone()), "set");
						let xh = hex(&sub.hash);
						t = base.set::<C>(&path, sub);
						ctx.count("raw_sets", 1);
						ctx.t(6, idx as u64, || format!("tree {}: set({}, {} {})", id, idx, what, xh));
						Obj::Raw { h, t }
					},
				}
			},
		};
		self.objs.push((id, o));
		Ok(())
	}
}

fn world<C: Cons + TyC>(ctx: &mut Ctx, exact: bool) -> R {
	let mut w = World::<C> { db: Mon::new(InMem::default()), objs: vec![], ever: Ever::default(), next: 0, future: vec![], exact, leaky: exact && ctx.rng.chance(1, 5), excuse: false, leaked: HashSet::new(), pops: vec![], populates: ctx.rng.chance(1, 3) };
	let steps = ctx.rng.range(15, if ctx.thorough { 200 } else { 80 });
	for s in 0..steps {
		w.step(ctx)?;
		w.learn();
		w.check(ctx, s % 7 == 6)?;
	}
	w.check(ctx, true)?;
	// drop everything in random order, the rest staying intact each time
	while !w.objs.is_empty() {
		let k = ctx.rng.us(w.objs.len());
		match w.objs.swap_remove(k).1 {
			Obj::Raw { h, .. } | Obj::Typed { h, .. } => ok!(h.drop(&mut w.db), "drop"),
			Obj::Seq(s) => ok!(s.h.release(&mut w.db), "drop"),
		}
		ctx.count("drops", 1);
		w.check(ctx, true)?;
	}
	if exact && w.leaked.is_empty() && w.pops.is_empty() {
		let keys: BTreeSet<V> = w.db.inner.as_ref().keys().cloned().collect();
		ensure!(keys.len() == 1 && keys.contains(&zero()), "{} nodes are left after all trees were dropped", keys.len());
		ctx.count("emptied", 1);
	}
	ctx.nontrivial = true;
	Ok(())
}
/// A chain of trees, each a child of the next: far deeper than any index reaches.
fn chain<C: Cons + Send>(ctx: &mut Ctx) -> R {
	let n = if ctx.rng.chance(1, 20) { ctx.rng.range(12_000, 40_000) as usize } else { ctx.rng.range(2, 400) as usize };
	let mut db = InMem::<C>::default();
	let mut top = Raw::<Owned, C>::default();
	let mut at: Vec<V> = vec![zero()];
	let mut leaf: Vec<V> = vec![zero()];
	let shared = vs(&ctx.rng.bytes(32));
	let mut second: Vec<usize> = vec![];
	let variety = *ctx.rng.pick(&[8, 8, 5 * n as u64, 1 << 40]);
	for i in 0..n {
		let r = top.root();
		let l = match ctx.rng.below(variety) { 0 => shared.clone(), 1 => r.clone(), 2 => zero(), 3 => ctx.rng.pick(&at).clone(), _ => vlen(i as u64 + 1) };
		let mut next = Raw::<Owned, C>::default();
		let left = ctx.rng.chance(1, 2);
		let (a, b) = if left { (r.clone(), l.clone()) } else { (l.clone(), r.clone()) };
		if ctx.rng.chance(1, 2) {
			ok!(next.set(&mut db, Index::root().left(), a.clone()), "set");
			ok!(next.set(&mut db, Index::root().right(), b.clone()), "set");
		} else {
			ok!(next.set(&mut db, Index::root().right(), b.clone()), "set");
			ok!(next.set(&mut db, Index::root().left(), a.clone()), "set");
		}
		ensure!(next.root() == C::h(&a, &b), "level {}: root {} instead of {}", i, hex(&next.root()), hex(&C::h(&a, &b)));
		ok!(top.drop(&mut db), "drop");
		top = next;
		at.push(top.root());
		leaf.push(l);
		if second.len() < 3 && ctx.rng.chance(1, 1 + n as u64 / 2) { ok!(db.rootify(&at[i + 1]), "rootify"); second.push(i + 1); }
	}
	ctx.t(7, n as u64, || format!("a chain of {} trees, further owners at {:?}", n, second));
	// what is to be there with owners up to a level: everything reached from it
	let deep = at.iter().enumerate().map(|(i, x)| (x.clone(), i)).collect::<HashMap<V, usize>>();
	let expect = |k: usize| -> HashSet<V> {
		let mut s = HashSet::new();
		s.insert(zero());
		let mut todo = vec![k];
		while let Some(i) = todo.pop() {
			if i == 0 || !s.insert(at[i].clone()) { continue }
			todo.push(i - 1);
			match deep.get(&leaf[i]) { Some(j) => todo.push(*j), None => { s.insert(leaf[i].clone()); } }
		}
		s
	};
	let mut owners: Vec<(usize, Raw<Owned, C>)> = second.iter().map(|i| (*i, Raw::from_leaked(at[*i].clone()))).collect();
	owners.push((n, top));
	while !owners.is_empty() {
		let mut want: HashSet<V> = HashSet::new();
		want.insert(zero());
		for (i, _) in &owners { want.extend(expect(*i)); }
		for x in &want {
			ensure!(db.as_ref().contains_key(x), "node {} of a live tree of {} levels is gone", hex(x), n);
			if let Some(i) = deep.get(x) { if *i > 0 {
				let (p, l) = (&at[i - 1], &leaf[*i]);
				let got = ok!(db.get(x), "get");
				ensure!(got == Some((p.clone(), l.clone())) || got == Some((l.clone(), p.clone())), "node {} of a live tree is looked up as {:?}", hex(x), got.map(|g| (hex(&g.0), hex(&g.1))));
			} }
		}
		ensure!(db.as_ref().len() == want.len(), "{} nodes are stored but {} are reachable from the trees in a chain of {}", db.as_ref().len(), want.len(), n);
		ctx.count("chain_nodes_checked", want.len() as u64);
		let k = ctx.rng.us(owners.len());
		let (_, h) = owners.swap_remove(k);
		// on a thread with the stack a thread has by default
		let d = &mut db;
		let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || h.drop(d).map_err(|e| format!("{:?}", e))).expect("thread").join());
		match r { Ok(Ok(())) => (), Ok(Err(e)) => fail!("drop: {}", e), Err(_) => fail!("panic while dropping a chain of {} trees", n) }
		ctx.count("drops", 1);
	}
	ensure!(db.as_ref().len() == 1, "{} nodes are left after all trees were dropped", db.as_ref().len());
	ctx.count("chains", 1);
	ctx.max("max_chain", n as u64);
	ctx.nontrivial = true;
	Ok(())
}
/// One tree with very many owners: parents that hold it, and roots of its own.
fn crowd<C: Cons>(ctx: &mut Ctx) -> R {
	let n = if ctx.rng.chance(1, if ctx.thorough { 60 } else { 15 }) { ctx.rng.range(65_400, 66_500) } else { ctx.rng.range(2, 700) } as usize;
	let mut db = InMem::<C>::default();
	let mut a = Raw::<Owned, C>::default();
	let mut t = T::leaf(zero());
	for _ in 0..1 + ctx.rng.us(6) {
		let i = 1 + ctx.rng.us(15);
		let x = vs(&ctx.rng.bytes(32));
		ok!(a.set(&mut db, Index::from_one(i).unwrap(), x.clone()), "set");
		t = t.set::<C>(&path_of(i), T::leaf(x));
	}
	let mut inside: Live = HashMap::new();
	t.collect(&mut inside);
	inside.insert(zero(), None);
	let roots = ctx.rng.below(3);
	let mut owners: Vec<(Raw<Owned, C>, Option<(V, V)>)> = vec![];
	let mut alone = 0;
	for i in 0..n {
		if roots == 0 || (roots == 1 && ctx.rng.chance(1, 2)) {
			ok!(db.rootify(&t.hash), "rootify");
			owners.push((Raw::from_leaked(t.hash.clone()), None));
		} else {
			let y = vlen((i as u64 + 1) << 8 | 0x5a);
			let mut h = Raw::<Owned, C>::default();
			ok!(h.set(&mut db, Index::root().left(), t.hash.clone()), "set");
			ok!(h.set(&mut db, Index::root().right(), y.clone()), "set");
			ensure!(h.root() == C::h(&t.hash, &y), "owner {}: root {}", i, hex(&h.root()));
			owners.push((h, Some((t.hash.clone(), y))));
			alone += 2;
		}
	}
	ok!(a.drop(&mut db), "drop");
	ctx.t(9, n as u64, || format!("{} owners of one tree of {} nodes", n, inside.len()));
	let check = |ctx: &mut Ctx, db: &mut InMem<C>, owners: &[(Raw<Owned, C>, Option<(V, V)>)], alone: usize| -> R {
		for (x, k) in &inside { ensure!(ok!(db.get(x), "get") == *k, "node {} of a tree with {} of {} owners left is looked up wrongly", hex(x), owners.len(), n); }
		if let Some((h, k)) = owners.last() { if let Some(k) = k { ensure!(ok!(db.get(&h.root()), "get").as_ref() == Some(k), "the last of {} owners is looked up wrongly", owners.len()); } }
		ensure!(db.as_ref().len() == inside.len() + alone, "{} nodes are stored, {} are reachable from {} of {} owners of one tree", db.as_ref().len(), inside.len() + alone, owners.len(), n);
		ctx.count("crowd_nodes_checked", inside.len() as u64);
		Ok(())
	};
	check(ctx, &mut db, &owners, alone)?;
	while owners.len() > 1 {
		let k = ctx.rng.us(owners.len());
		let (h, own) = owners.swap_remove(k);
		ok!(h.drop(&mut db), "drop");
		if own.is_some() { alone -= 2; }
		if owners.len() < 4 || ctx.rng.chance(1, 1 + n as u64 / 30) { check(ctx, &mut db, &owners, alone)?; }
	}
	ok!(owners.pop().unwrap().0.drop(&mut db), "drop");
	ensure!(db.as_ref().len() == 1, "{} nodes are left after all {} owners of one tree were dropped", db.as_ref().len(), n);
	ctx.count("crowds", 1);
	ctx.max("max_owners", n as u64);
	ctx.nontrivial = true;
	Ok(())
}
pub fn c08(ctx: &mut Ctx) -> R { if ctx.rng.chance(1, 60) { return if ctx.rng.chance(1, 2) { crowd::<Inh>(ctx) } else { crowd::<Unit>(ctx) } } match ctx.rng.below(32) { 30 => chain::<Inh>(ctx), 31 => chain::<Unit>(ctx), x => match x % 8 { 0 | 1 => world::<Unit>(ctx, false), 2 => world::<Inh512>(ctx, false), _ => world::<Inh>(ctx, false) } } }
pub fn c09(ctx: &mut Ctx) -> R { if ctx.rng.chance(1, 60) { return if ctx.rng.chance(1, 2) { crowd::<Inh>(ctx) } else { crowd::<Unit>(ctx) } } match ctx.rng.below(32) { 30 => chain::<Inh>(ctx), 31 => chain::<Unit>(ctx), x => match x % 8 { 0 | 1 => world::<Unit>(ctx, true), 2 => world::<Inh512>(ctx, true), _ => world::<Inh>(ctx, true) } } }

pub fn c09_known(ctx: &mut Ctx) -> R {
	use bm::{List, PackedList};
	use generic_array::GenericArray;
	use typenum::{U32, U64};
	let mut m = InMem::<Inh>::default();
	let mut l = List::<Owned, Inh>::create(&mut m, None).unwrap();
	for i in 0..5u64 { l.push(&mut m, vlen(i + 1)).unwrap(); }
	l.drop(&mut m).unwrap();
	if m.as_ref().len() != 1 { ctx.known.push(("unbounded-list-leak".into(), "an owned List without maximum leaves the intermediate roots of a capacity change in the in-memory backend after it is dropped".into())); }
	let mut m = InMem::<Inh>::default();
	let mut l = PackedList::<Owned, Inh, GenericArray<u8, U64>, U32, U64>::create(&mut m, Some(64)).unwrap();
	for i in 0..9u64 { let mut g = GenericArray::default(); g[0] = i as u8 + 1; g[40] = 7; l.push(&mut m, g).unwrap(); }
	while l.pop(&mut m).unwrap().is_some() { }
	l.drop(&mut m).unwrap();
	if m.as_ref().len() != 1 { ctx.known.push(("packed-list-leak".into(), "an owned PackedList whose elements span chunks leaves the intermediate roots of a change of several chunks in the in-memory backend after it is dropped".into())); }
	Ok(())
}

// ---- C18

/// Backend calls in arbitrary order against a graph model.
fn direct<C: Cons>(ctx: &mut Ctx) -> R {
	let mut db = InMem::<C>::default();
	// a universe of nodes over a few leaves
	let mut uni: Vec<(V, Option<(V, V)>)> = (0..4 + ctx.rng.us(5)).map(|i| (if i == 0 { zero() } else { vs(&ctx.rng.bytes(32)) }, None)).collect();
	for _ in 0..ctx.rng.range(3, 25) {
		let (a, b) = (ctx.rng.us(uni.len()), ctx.rng.us(uni.len()));
		let b = if ctx.rng.chance(1, 6) { a } else { b };
		let (l, r) = (uni[a].0.clone(), uni[b].0.clone());
		let x = C::h(&l, &r);
		if !uni.iter().any(|u| u.0 == x) { uni.push((x, Some((l, r)))); }
	}
	let inner: Vec<(V, (V, V))> = uni.iter().filter_map(|(x, k)| k.clone().map(|k| (x.clone(), k))).collect();
	let kids: HashMap<V, (V, V)> = inner.iter().cloned().collect();
	// sure: written, and not freed since; maybe: written, but it may have been freed
	let mut sure: HashSet<V> = HashSet::new();
	let mut maybe: HashSet<V> = HashSet::new();
	let mut roots: HashMap<V, usize> = HashMap::new();
	let reach = |from: Vec<V>, w: &dyn Fn(&V) -> bool| -> HashSet<V> {
		let mut s = HashSet::new();
		let mut todo = from;
		while let Some(x) = todo.pop() { if s.insert(x.clone()) && w(&x) { if let Some((l, r)) = kids.get(&x) { todo.push(l.clone()); todo.push(r.clone()); } } }
		s
	};
	let mut looked: HashMap<V, (V, V)> = HashMap::new();
	// populated from proof entries: these stay, with what they reach
	let mut pinned: HashSet<V> = HashSet::new();
	let populates = !inner.is_empty() && ctx.rng.chance(1, 3);
	for step in 0..ctx.rng.range(10, 120) {
		match ctx.rng.below(10) {
			_ if populates && ((step == 0 && ctx.rng.chance(1, 2)) || ctx.rng.chance(1, 20)) => {
				let n = 1 + ctx.rng.us(5);
				let es: Vec<(V, (V, V))> = (0..n).map(|_| ctx.rng.pick(&inner).clone()).collect();
				for (x, _) in &es { sure.insert(x.clone()); maybe.remove(x); pinned.insert(x.clone()); }
				db.populate(es.into_iter().collect());
				ctx.t(4, n as u64, || format!("populate {} entries", n));
				ctx.count("populates", 1);
			},
			0..=4 => {
				let (x, k) = ctx.rng.pick(&inner).clone();
				ok!(db.insert(x.clone(), k), "insert");
				ctx.count(if sure.contains(&x) { "repeated_inserts" } else { "inserts" }, 1);
				ctx.t(1, bytes(&x)[0] as u64, || format!("insert {}", hex(&x)));
				maybe.remove(&x);
				sure.insert(x);
			},
			5 | 6 => {
				let x = ctx.rng.pick(&uni).0.clone();
				ok!(db.rootify(&x), "rootify");
				*roots.entry(x.clone()).or_insert(0) += 1;
				ctx.t(2, bytes(&x)[0] as u64, || format!("rootify {}", hex(&x)));
				ctx.count("rootifies", 1);
			},
			7 if !roots.is_empty() => {
				let mut ks: Vec<V> = roots.keys().cloned().collect();
				ks.sort();
				let x = ctx.rng.pick(&ks).clone();
				let n = roots.get_mut(&x).unwrap();
				*n -= 1;
				if *n == 0 { roots.remove(&x); }
				ok!(db.unrootify(&x), "unrootify");
				let written = |y: &V| sure.contains(y) || maybe.contains(y);
				let keep = reach(roots.keys().chain(pinned.iter()).cloned().collect(), &|y| sure.contains(y));
				let freed = reach(vec![x.clone()], &written);
				for y in freed.difference(&keep) { if sure.remove(y) { maybe.insert(y.clone()); } }
				ctx.t(3, bytes(&x)[0] as u64, || format!("unrootify {}", hex(&x)));
				ctx.count("unrootifies", 1);
			},
			_ => (),
		}
		for (x, k) in &uni {
			let got = ok!(db.get(x), "lookup");
			ctx.count("lookups", 1);
			match (&got, k) {
				(Some(g), Some(k)) => {
					ensure!(g == k, "node {} is looked up as {} {} instead of {} {}", hex(x), hex(&g.0), hex(&g.1), hex(&k.0), hex(&k.1));
					ensure!(sure.contains(x) || maybe.contains(x), "node {} was never written but has children", hex(x));
				},
				(Some(_), None) => fail!("leaf {} was never written but has children", hex(x)),
				(None, _) => ensure!(!sure.contains(x), "node {} was written and is still needed but its lookup finds nothing", hex(x)),
			}
			if let Some(g) = got { looked.insert(x.clone(), g); }
		}
	}
	ctx.nontrivial = true;
	Ok(())
}
/// Everything the library writes is keyed by its hash.
fn written<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let mut db = Mon::new(InMem::<C>::default());
	db.check_inserts = true;
	let owned = ctx.rng.chance(1, 2);
	let mut seqs = vec![];
	for id in 0..1 + ctx.rng.us(3) {
		let packed = ctx.rng.chance(1, 2);
		let kind = gen_kind(&mut ctx.rng, packed);
		let spec = gen_spec::<C>(&mut ctx.rng, kind, owned);
		seqs.push(Seq::create(ctx, &mut db, spec, id)?);
	}
	// one store, one ownership: releases by owned handles may free what non-owning ones reach
	let mut raw = Raw::<Owned, C>::default();
	let mut view = Raw::<bm::Dangling, C>::default();
	let mut seen: HashMap<V, (V, V)> = HashMap::new();
	for s in 0..ctx.rng.range(10, 60) {
		match ctx.rng.below(6) {
			0 => { let i = gen_index(&mut ctx.rng, &[]); let x = vs(&Gen::val(&mut ctx.rng, 32, &[])); if owned { ok!(raw.set(&mut db, Index::from_one(i).unwrap(), x), "raw set"); } else { ok!(view.set(&mut db, Index::from_one(i).unwrap(), x), "raw set"); } },
			1 => { let ty = ctx.rng.us(C::tcount()); let val = C::tgen(ty, &mut ctx.rng); ok!(C::into(&*val, &mut db), "merkleizing {:?}", val); ctx.count("typed_values", 1); },
			_ => { let k = ctx.rng.us(seqs.len()); seqs[k].step(ctx, &mut db, &[])?; },
		}
		if let Some(b) = &db.bad_insert { fail!("{}", b) }
		if s % 8 == 7 {
			for (x, e) in db.inner.as_ref() {
				if let Some((l, r)) = &e.0 {
					ensure!(C::h(l, r) == *x, "stored node {} has children {} {} that hash to {}", hex(x), hex(l), hex(r), hex(&C::h(l, r)));
					if let Some(o) = seen.get(x) { ensure!(o == &(l.clone(), r.clone()), "children of stored node {} changed", hex(x)); }
					seen.insert(x.clone(), (l.clone(), r.clone()));
				}
			}
			ctx.count("stores_scanned", 1);
		}
	}
	ctx.count("library_inserts", db.inserts);
	ctx.nontrivial = true;
	Ok(())
}
pub fn c18(ctx: &mut Ctx) -> R {
	match ctx.rng.below(8) { 0..=3 => direct::<Inh>(ctx), 4 => direct::<Unit>(ctx), 5 => written::<Unit>(ctx), 6 => written::<Inh512>(ctx), _ => written::<Inh>(ctx) }
}
