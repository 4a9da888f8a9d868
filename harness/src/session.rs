//! Scripts of operations that can be run again over another backend, and backends to run them over.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::p_raw::{gen_index, path_of};
use crate::seq::*;
use crate::types::*;
use crate::ok;
use bm::{Dangling, Index, Leak, Owned, Raw, RootStatus, Tree, WriteBackend};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum RawOp { Get(usize), Sub(usize), Set(usize, V) }
pub enum What { Seq { spec: Spec, len: usize, ops: Vec<Op> }, Raw { owned: bool, ops: Vec<RawOp> }, Typed { ty: usize }, Partial { which: u64, seed: u64, owned: bool } }
pub struct Script { pub root: V, pub what: What, pub drop: bool, pub grafts: bool }
impl Script {
	pub fn len(&self) -> usize { match &self.what { What::Seq { ops, .. } => ops.len(), What::Raw { ops, .. } => ops.len(), What::Typed { .. } | What::Partial { .. } => 1 } }
	pub fn owned(&self) -> bool { match &self.what { What::Seq { spec, .. } => spec.owned, What::Raw { owned, .. } => *owned, What::Typed { .. } => false, What::Partial { owned, .. } => *owned } }
	pub fn name<C: TyC>(&self) -> String {
		match &self.what {
			What::Seq { spec, len, ops } => format!("{:?} of {} elements: {}", spec, len, ops.iter().map(|o| o.short()).collect::<Vec<_>>().join(" ")),
			What::Raw { owned, ops } => format!("{} raw tree: {:?}", if *owned { "owned" } else { "dangling" }, ops.iter().map(|o| match o { RawOp::Get(i) => format!("get({})", i), RawOp::Sub(i) => format!("subtree({})", i), RawOp::Set(i, x) => format!("set({},{})", i, hex(x)) }).collect::<Vec<_>>()),
			What::Typed { ty } => format!("decoding {}", C::tname(*ty)),
			What::Partial { which, seed, owned } => format!("partial view {} of an {} tree (seed {:x})", which, if *owned { "owned" } else { "unowned" }, seed),
		}
	}
}

/// A script being run: between steps the backend may be exchanged.
pub enum Runner<C: Cons> { Start, Seq(Box<dyn SeqT<C>>), Own(Raw<Owned, C>), Dang(Raw<Dangling, C>), Done }
fn raw_op<Q: RootStatus, C: Cons>(raw: &mut Raw<Q, C>, db: &mut Dyn<C>, op: &RawOp) -> String {
	let r = match op {
		RawOp::Get(i) => format!("{:?}", raw.get(db, Index::from_one(*i).unwrap())),
		RawOp::Sub(i) => format!("{:?}", raw.subtree(db, Index::from_one(*i).unwrap()).map(|s| s.root())),
		RawOp::Set(i, x) => format!("{:?}", raw.set(db, Index::from_one(*i).unwrap(), x.clone())),
	};
	format!("{} root {}", r, hex(&raw.root()))
}
impl<C: Cons + TyC> Runner<C> {
	/// Steps: opening, every operation, and the end (dropping).
	pub fn steps(s: &Script) -> usize { s.len() + 2 }
	pub fn step(&mut self, s: &Script, k: usize, db: &mut Dyn<C>) -> String {
		if k == 0 {
			return match &s.what {
				What::Seq { spec, len, .. } => match open::<C>(spec, db, s.root.clone(), *len) {
					Ok(h) => { let r = format!("opened length {} root {}", h.len(), hex(&h.root())); *self = Runner::Seq(h); r },
					Err(e) => { *self = Runner::Done; format!("not opened: {:?}", e) },
				},
				What::Raw { owned: true, .. } => { *self = Runner::Own(Raw::from_leaked(s.root.clone())); "opened".into() },
				What::Raw { owned: false, .. } => { *self = Runner::Dang(Raw::from_leaked(s.root.clone())); "opened".into() },
				What::Typed { .. } | What::Partial { .. } => { *self = Runner::Done; String::new() },
			}
		}
		if k == s.len() + 1 {
			if !s.drop { return String::new() }
			return match std::mem::replace(self, Runner::Done) { Runner::Seq(h) => format!("{:?}", h.release(db)), Runner::Own(r) => format!("{:?}", r.drop(db)), _ => String::new() }
		}
		match (&s.what, self) {
			(What::Seq { ops, .. }, Runner::Seq(h)) => { let o = apply(&mut **h, db, &ops[k - 1]); format!("{:?} length {} root {}", o, h.len(), hex(&h.root())) },
			(What::Raw { ops, .. }, Runner::Own(r)) => raw_op(r, db, &ops[k - 1]),
			(What::Raw { ops, .. }, Runner::Dang(r)) => raw_op(r, db, &ops[k - 1]),
			(What::Typed { ty }, _) => match C::dec(*ty, &s.root, db) { Ok(x) => format!("{:?}", x), Err(e) => format!("error {:?}", e) },
			(What::Partial { which, seed, owned }, _) => crate::p_partial::session_run::<C>(*which, *seed, *owned, &s.root, db),
			_ => String::new(),
		}
	}
}
pub fn run_script<C: Cons + TyC>(s: &Script, db: &mut Dyn<C>) -> Vec<String> {
	let mut r = Runner::<C>::Start;
	(0..Runner::<C>::steps(s)).map(|k| r.step(s, k, db)).collect()
}

/// A store holding some trees, and a script on one of them.
pub fn gen_script<C: Cons + TyC>(ctx: &mut Ctx, grafts: bool) -> R<(InMem<C>, Script)> {
	let mut db = Mon::new(InMem::<C>::default());
	for _ in 0..ctx.rng.us(3) {
		let ty = ctx.rng.us(C::tcount());
		let val = C::tgen(ty, &mut ctx.rng);
		let r = ok!(C::into(&*val, &mut db), "merkleizing {:?}", val);
		ok!(db.rootify(&r).map_err(bm::Error::Backend::<EE>), "rootify");
	}
	let owned = ctx.rng.chance(1, 2);
	let long = if ctx.thorough { 80 } else { 40 };
	let drop = owned && ctx.rng.chance(1, 3);
	let (root, what) = match ctx.rng.below(11) {
		0..=4 => {
			let packed = ctx.rng.chance(1, 2);
			let kind = gen_kind(&mut ctx.rng, packed);
			let spec = gen_spec::<C>(&mut ctx.rng, kind, true);
			let mut s = Seq::<C>::create(ctx, &mut db, spec, 0)?;
			for _ in 0..ctx.rng.range(0, 60) { s.step(ctx, &mut db, &[])?; }
			let mut m = s.m.clone();
			m.spec.owned = owned;
			let len = m.elems.len();
			let spec = m.spec.clone();
			let mut g = Gen::new(&mut ctx.rng);
			let mut ops = vec![];
			for _ in 0..ctx.rng.range(1, long) { let op = g.op(&mut ctx.rng, &m, &[]); expect(&mut m, &op); ops.push(op); }
			(s.h.root(), What::Seq { spec, len, ops })
		},
		5..=8 => {
			let mut raw = Raw::<Owned, C>::default();
			let mut t = T::leaf(zero());
			let mut recent = vec![];
			for _ in 0..ctx.rng.range(0, 30) {
				let i = gen_index(&mut ctx.rng, &recent);
				recent.push(i);
				let (x, sub) = if ctx.rng.chance(1, 5) {
					// a part of the tree once more
					let mut s = t.clone();
					while let Some((l, r)) = &s.kids { if ctx.rng.chance(1, 2) { break } let n = if ctx.rng.chance(1, 2) { l.clone() } else { r.clone() }; s = n; }
					(s.hash.clone(), s)
				} else { let x = vs(&Gen::val(&mut ctx.rng, 32, &[])); (x.clone(), T::leaf(x)) };
				ok!(raw.set(&mut db, Index::from_one(i).unwrap(), x), "raw set");
				t = t.set::<C>(&path_of(i), sub);
			}
			let mut ops = vec![];
			let mut written: Vec<V> = vec![];
			for _ in 0..ctx.rng.range(1, long) {
				let i = gen_index(&mut ctx.rng, &recent);
				ops.push(match ctx.rng.below(10) {
					0..=3 => RawOp::Get(i),
					4 => RawOp::Sub(i),
					_ => {
						recent.push(i);
						let x = if grafts && ctx.rng.chance(1, 4) {
							let mut s: Rc<T> = t.clone();
							while let Some((l, r)) = &s.kids { if ctx.rng.chance(1, 3) { break } let n = if ctx.rng.chance(1, 2) { l.clone() } else { r.clone() }; s = n; }
							s.hash.clone()
						} else if !written.is_empty() && ctx.rng.chance(1, 5) { ctx.rng.pick(&written).clone() }
						else { vs(&Gen::val(&mut ctx.rng, 32, &[])) };
						// what was there before comes back
						if ctx.rng.chance(1, 6) { if let Some(old) = t.at(&path_of(i)) { if old.kids.is_none() { ops.push(RawOp::Set(i, x.clone())); ops.push(RawOp::Set(i, old.hash.clone())); continue } } }
						written.push(x.clone());
						RawOp::Set(i, x)
					},
				});
			}
			let owned = owned && !grafts;
			(raw.root(), What::Raw { owned, ops })
		},
		9 => {
			let (which, seed) = (ctx.rng.next(), ctx.rng.next());
			(crate::p_partial::session_build::<C>(which, seed, &mut db)?, What::Partial { which, seed, owned })
		},
		_ => {
			let ty = ctx.rng.us(C::tcount());
			let val = C::tgen(ty, &mut ctx.rng);
			let r = ok!(C::into(&*val, &mut db), "merkleizing {:?}", val);
			ok!(db.rootify(&r).map_err(bm::Error::Backend::<EE>), "rootify");
			(r, What::Typed { ty })
		},
	};
	Ok((db.inner, Script { root, what, drop, grafts }))
}
