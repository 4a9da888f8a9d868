//! C17: partial views against the whole value.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::p_raw::path_of;
use crate::types::*;
use crate::{ensure, fail, ok};
use bm::{Dangling, Index, Leak, Owned, Raw, RootStatus, Tree};
use bm_le::{CompatibleConstruct, Error, FromTree, IntoTree, PartialIndex, PartialItem, PartialValue, PartialVec, Partialable, ReadBackend, WriteBackend};
use primitive_types::{H256, U256 as Uint};
use std::fmt::Debug;

/// A value with a partial view.
pub trait Pt: Partialable + IntoTree + FromTree + Clone + PartialEq + Debug + Ssz {
	/// Make the same random changes to the value and through the view. Returns how many.
	fn change(&mut self, p: &mut Self::Value, r: &mut Rng) -> u64;
	/// Read some fields through the view.
	fn read<C: Cons, Q: RootStatus>(&self, p: &mut Self::Value, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> R<u64>;
	/// Fetch some fields anew, whatever the view held of them before, and read them.
	fn refetch<C: Cons, Q: RootStatus>(&self, p: &mut Self::Value, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> R<u64>;
	/// Read every field through the view; any outcome but a wrong value is fine, the first failure is returned.
	fn peek<C: Cons, Q: RootStatus>(p: &mut Self::Value, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> Res<u64>;
}
macro_rules! basics { ($($t:ty),*) => { $( impl Pt for $t {
	fn change(&mut self, p: &mut PartialValue<$t>, r: &mut Rng) -> u64 {
		if r.chance(1, 2) { return 0 }
		let x = if r.chance(1, 8) { self.clone() } else { <$t as Ssz>::gen(r, 0) };
		if r.chance(1, 6) { p.set(<$t as Ssz>::gen(r, 0)); }
		p.set(x.clone());
		*self = x;
		1
	}
	fn read<C: Cons, Q: RootStatus>(&self, p: &mut PartialValue<$t>, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> R<u64> {
		if r.chance(1, 3) { return Ok(0) }
		if r.chance(1, 4) { ok!(p.fetch(raw, db), "fetching {:?} through a partial view", self); }
		let got = ok!(p.get(raw, db), "reading {:?} through a partial view", self);
		ensure!(got == self, "a partial view reads {:?} instead of {:?}", got, self);
		Ok(1)
	}
	fn refetch<C: Cons, Q: RootStatus>(&self, p: &mut PartialValue<$t>, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> R<u64> {
		let set = r.chance(1, 3);
		if set { p.set(<$t as Ssz>::gen(r, 0)); }
		ok!(p.fetch(raw, db), "fetching {:?} through a partial view again", self);
		let got = ok!(p.get(raw, db), "reading {:?} through a partial view", self);
		ensure!(got == self, "a partial view reads {:?} instead of {:?} after fetching it {}", got, self, if set { "over a value set before" } else { "again" });
		Ok(1)
	}
	fn peek<C: Cons, Q: RootStatus>(p: &mut PartialValue<$t>, raw: &Raw<Q, C>, db: &mut DbRef<C>, _: &mut Rng) -> Res<u64> { p.get(raw, db)?; Ok(1) }
} )* } }
basics!(u8, u16, u32, u64, u128, Uint, H256);

macro_rules! pst { ($n:ident { $($f:ident : $t:ty),* }) => {
	#[derive(IntoTree, FromTree, Partialable, Debug, PartialEq, Clone)]
	pub struct $n { $(pub $f: $t),* }
	impl Ssz for $n { fn gen(r: &mut Rng, d: usize) -> Self { $n { $($f: <$t>::gen(r, d + 1)),* } } fn sroot(&self, s: Sp) -> V { s.root(&[$(self.$f.sroot(s)),*], None) } }
	impl Pt for $n {
		fn change(&mut self, p: &mut <Self as Partialable>::Value, r: &mut Rng) -> u64 { let mut n = 0; $( n += self.$f.change(&mut p.$f, r); )* n }
		fn read<C: Cons, Q: RootStatus>(&self, p: &mut <Self as Partialable>::Value, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> R<u64> { let mut n = 0; $( n += self.$f.read(&mut p.$f, raw, db, r)?; )* Ok(n) }
		fn refetch<C: Cons, Q: RootStatus>(&self, p: &mut <Self as Partialable>::Value, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> R<u64> { let mut n = 0; $( n += self.$f.refetch(&mut p.$f, raw, db, r)?; )* Ok(n) }
		fn peek<C: Cons, Q: RootStatus>(p: &mut <Self as Partialable>::Value, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> Res<u64> { let mut n = 0; $( n += <$t>::peek(&mut p.$f, raw, db, r)?; )* Ok(n) }
	}
} }
/// A list seen through a partial vector.
#[derive(Debug, PartialEq, Clone)]
pub struct PL<T>(pub Vec<T>);
impl<T: IntoTree> IntoTree for PL<T> where Vec<T>: IntoTree {
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<V, Error<DB::Error>> where DB::Construct: CompatibleConstruct { self.0.into_tree(db) }
}
impl<T: FromTree> FromTree for PL<T> where Vec<T>: FromTree {
	fn from_tree<DB: ReadBackend>(root: &V, db: &mut DB) -> Result<Self, Error<DB::Error>> where DB::Construct: CompatibleConstruct { Ok(PL(Vec::from_tree(root, db)?)) }
}
impl<T: Partialable + IntoTree> Partialable for PL<T> { type Value = PartialVec<T>; }
impl<T: Ssz> Ssz for PL<T> {
	fn gen(r: &mut Rng, d: usize) -> Self { let n = r.len(match d { 0 => 40, 1 => 12, _ => 4 }); PL((0..n).map(|_| T::gen(r, d + 1)).collect()) }
	fn sroot(&self, s: Sp) -> V { s.mix(s.root(&self.0.iter().map(|x| x.sroot(s)).collect::<Vec<_>>(), None), self.0.len() as u64) }
}
impl<T: Pt> Pt for PL<T> where Vec<T>: IntoTree + FromTree {
	fn change(&mut self, p: &mut PartialVec<T>, r: &mut Rng) -> u64 {
		let mut n = 0;
		let len = self.0.len();
		// each element once: what was pushed to an inner list is not there before the flush
		let mut done = vec![];
		if len > 0 { for _ in 0..r.below(4) { let i = match r.below(4) { 0 => 0, 1 => len - 1, _ => r.us(len) }; if done.contains(&i) { continue } done.push(i); n += self.0[i].change(p.at(i), r); } }
		if r.chance(1, 2) { for _ in 0..r.range(1, 4) { let x = T::gen(r, 2); p.push(x.clone()); self.0.push(x); n += 1; } }
		n
	}
	fn read<C: Cons, Q: RootStatus>(&self, p: &mut PartialVec<T>, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> R<u64> {
		let mut n = 0;
		let len = self.0.len();
		if len > 0 { for _ in 0..r.below(6) { let i = r.us(len); n += self.0[i].read(p.at(i), raw, db, r)?; } }
		Ok(n)
	}
	fn refetch<C: Cons, Q: RootStatus>(&self, p: &mut PartialVec<T>, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> R<u64> {
		let mut n = 0;
		let len = self.0.len();
		if len > 0 { for _ in 0..r.below(6) { let i = r.us(len); n += self.0[i].refetch(p.at(i), raw, db, r)?; } }
		Ok(n)
	}
	fn peek<C: Cons, Q: RootStatus>(p: &mut PartialVec<T>, raw: &Raw<Q, C>, db: &mut DbRef<C>, r: &mut Rng) -> Res<u64> { let i = match r.below(3) { 0 => 0, 1 => r.us(6), _ => r.word() }; T::peek(p.at(i), raw, db, r) }
}
pst!(P1 { a: u64 });
pst!(P2 { a: u16, b: Uint });
pst!(P3 { a: u8, b: P2, c: H256 });
pst!(P4 { a: P1, b: u128, c: P3, d: u32 });
pst!(P5 { a: u8, b: u16, c: u32, d: u64, e: u128 });
pst!(P6 { a: PL<u16>, b: u8 });
pst!(P7 { a: u64, b: PL<P3>, c: H256, d: PL<u64>, e: u8, f: P6, g: Uint });
pst!(P8 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8 });
pst!(P9 { a: u8, b: P5, c: u8, d: P1, e: u8, f: u8, g: u8, h: P4, i: PL<PL<u8>> });
pst!(P17 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: P2, o: u8, p: u8, q: PL<P2> });

/// Where the value is inside the tree: an index, and the partial index leading there.
fn place(r: &mut Rng) -> (usize, PartialIndex, Vec<(usize, V)>) {
	let (mut at, mut p, mut lens) = (1usize, PartialIndex::root(), vec![]);
	for _ in 0..r.below(3) {
		let n = r.range(1, 9) as usize;
		let i = r.us(n);
		let d = depth_for(n as u64);
		match r.below(3) {
			0 => { let k = 1 + r.us(12); let (mut kd, mut kk) = (0, k); while kk > 1 { kk /= 2; kd += 1; } p = p.raw(Index::from_one(k).unwrap()); at = (at << kd) + (k - (1 << kd)); },
			1 => { p = p.vector(i, n); at = (at << d) + i; },
			_ => { p = p.list(i); lens.push((2 * at + 1, vlen(n as u64))); at = (2 * at << d) + i; },
		}
	}
	(at, p, lens)
}
fn related(a: usize, b: usize) -> bool { let (pa, pb) = (path_of(a), path_of(b)); let n = pa.len().min(pb.len()); pa[..n] == pb[..n] }

fn views<C: Cons, X: Pt, Q: RootStatus>(ctx: &mut Ctx, db: &mut Dyn<C>) -> R {
	let db = &mut DbRef::<C>(db);
	let s = sp::<C>();
	let (at, pidx, lens) = place(&mut ctx.rng);
	let mut x = X::gen(&mut ctx.rng, 0);
	let mut raw = Raw::<Owned, C>::default();
	let mut t = T::leaf(zero());
	for _ in 0..ctx.rng.below(5) {
		let i = 1 + ctx.rng.us(31);
		if related(i, at) || lens.iter().any(|(l, _)| related(i, *l)) { continue }
		let y = vs(&ctx.rng.bytes(32));
		ok!(raw.set(db, Index::from_one(i).unwrap(), y.clone()), "set");
		t = t.set::<C>(&path_of(i), T::leaf(y));
	}
	for (l, n) in &lens { ok!(raw.set(db, Index::from_one(*l).unwrap(), n.clone()), "set"); t = t.set::<C>(&path_of(*l), T::leaf(n.clone())); }
	let xr = ok!(x.into_tree(db), "merkleizing {:?}", x);
	ok!(raw.set(db, Index::from_one(at).unwrap(), xr.clone()), "set");
	t = t.set::<C>(&path_of(at), T::leaf(xr));
	ctx.t(1, at as u64, || format!("{:?} at index {}", x, at));
	let mut raw = Raw::<Q, C>::from_leaked(raw.metadata());
	let mut p = X::Value::new(pidx.clone());
	for round in 0..ctx.rng.range(1, 4) {
		if ctx.rng.chance(1, 3) { p = X::Value::new(pidx.clone()); }
		let n = x.read(&mut p, &raw, db, &mut ctx.rng)?;
		ctx.count("partial_reads", n);
		let before = raw.root();
		let old = x.clone();
		match ctx.rng.below(8) {
			0 => {
				// nothing set
				ok!(p.flush(&mut raw, db), "flushing a view with nothing set");
				ctx.count("empty_flushes", 1);
				ctx.t(3, n, || "flushed with nothing set".into());
			},
			1 => {
				// a view that was only read from does not bring back what it read
				let mut q = X::Value::new(pidx.clone());
				let c = x.change(&mut q, &mut ctx.rng);
				ok!(q.flush(&mut raw, db), "flushing {} changes", c);
				let mid = raw.root();
				if ctx.rng.chance(1, 2) {
					// what it held is replaced by what is stored now, and nothing of it is written
					let n = x.refetch(&mut p, &raw, db, &mut ctx.rng)?;
					ctx.count("fetched_again", n);
				}
				ok!(p.flush(&mut raw, db), "flushing a view with nothing set");
				ensure!(raw.root() == mid, "flushing a view with nothing set changes the root from {} to {} ({:?}, read before it was changed to {:?})", hex(&mid), hex(&raw.root()), old, x);
				ctx.count("stale_flushes", 1);
				ctx.t(4, c, || format!("changed through another view to {:?}", x));
			},
			_ => {
				let c = x.change(&mut p, &mut ctx.rng);
				match p.flush(&mut raw, db) { Ok(()) => (), Err(e) => fail!("flushing {} changes of {:?} to {:?}: {:?}", c, old, x, e) }
				ctx.count("flushes", 1);
				ctx.count("fields_set", c);
				ctx.t(2, c + 100 * round, || format!("flushed {} changes: {:?}", c, x));
			},
		}
		let whole = x.sroot(s);
		t = t.set::<C>(&path_of(at), T::leaf(whole.clone()));
		let root = raw.root();
		ctx.observe(bytes(&root));
		ensure!(root == t.hash, "after flushing, the root is {} instead of {} ({:?} changed to {:?} at index {}, {})", hex(&root), hex(&t.hash), old, x, at, C::NAME);
		let y = ok!(X::from_tree(&whole, db), "decoding {:?} after a partial update of {:?}", x, old);
		ensure!(y == x, "after a partial update of {:?} the value decodes as {:?} instead of {:?}", old, y, x);
		let mut q = X::Value::new(pidx.clone());
		let n = x.read(&mut q, &raw, db, &mut ctx.rng)?;
		ctx.count("partial_reads", n);
		if !Q::is_owned() && old != x && ctx.rng.chance(1, 3) {
			// the tree before the update is still there
			let o = Raw::<Dangling, C>::from_leaked(before);
			let mut q = X::Value::new(pidx.clone());
			old.read(&mut q, &o, db, &mut ctx.rng)?;
			ctx.count("old_trees_read", 1);
		}
	}
	ctx.nontrivial = true;
	Ok(())
}
fn scenario<C: Cons, X: Pt>(ctx: &mut Ctx) -> R {
	let which = ctx.rng.below(4);
	if ctx.rng.chance(1, 2) { with_db::<C>(which, ctx, |ctx, db| views::<C, X, Owned>(ctx, db)) }
	else { with_db::<C>(1, ctx, |ctx, db| views::<C, X, Dangling>(ctx, db)) }
}
/// Positions beyond the end of a list.
fn beyond<C: Cons>(ctx: &mut Ctx) -> R {
	let mut m = MapDb::<C>::new();
	let mut db = DbRef::<C>(&mut m);
	let x = PL::<u64>::gen(&mut ctx.rng, 0);
	let len = x.0.len();
	let root = ok!(x.into_tree(&mut db), "merkleizing {:?}", x);
	let mut raw = Raw::<Dangling, C>::from_leaked(root.clone());
	let i = len + match ctx.rng.below(4) { 0 => 0, 1 => 1, 2 => ctx.rng.us(60), _ => len.next_power_of_two() - len };
	let mut v = PartialVec::<u64>::new(PartialIndex::root());
	match v.at(i).get(&raw, &mut db) { Err(bm::Error::AccessOverflowed) => (), r => fail!("element {} of a list of {} reads as {:?} through a partial view", i, len, r) }
	v.at(i).set(7);
	match v.flush(&mut raw, &mut db) { Err(bm::Error::AccessOverflowed) => (), r => fail!("setting element {} of a list of {} through a partial view: {:?}", i, len, r) }
	ensure!(raw.root() == root, "setting element {} of a list of {} through a partial view changed the root", i, len);
	let n = ctx.rng.range(1, 9) as usize;
	let mut w = PartialValue::<u64>::new(PartialIndex::root().vector(n + ctx.rng.us(9), n));
	match w.get(&raw, &mut db) { Err(bm::Error::AccessOverflowed) => (), r => fail!("a position beyond a vector of {} reads as {:?} through a partial view", n, r) }
	ctx.t(9, i as u64, || format!("element {} of a list of {}", i, len));
	ctx.count("positions_beyond", 1);
	Ok(())
}
fn all<C: Cons>(ctx: &mut Ctx) -> R {
	match ctx.rng.below(17) {
		0 => scenario::<C, P1>(ctx), 1 => scenario::<C, P2>(ctx), 2 => scenario::<C, P3>(ctx), 3 | 4 => scenario::<C, P4>(ctx), 5 => scenario::<C, P5>(ctx),
		6 => scenario::<C, P6>(ctx), 7 | 8 => scenario::<C, P7>(ctx), 9 => scenario::<C, P8>(ctx), 10 => scenario::<C, P9>(ctx), 11 => scenario::<C, P17>(ctx),
		12 => scenario::<C, PL<u64>>(ctx), 13 => scenario::<C, PL<P3>>(ctx), 14 => scenario::<C, PL<PL<u16>>>(ctx), 15 => scenario::<C, PL<P6>>(ctx), _ => beyond::<C>(ctx),
	}
}
/// A flush that fails keeps what it has not written: flushing again writes it.
fn retried<C: Cons, X: Pt>(ctx: &mut Ctx) -> R {
	let s = sp::<C>();
	let mut db = Mon::new(InMem::<C>::default());
	let x = X::gen(&mut ctx.rng, 0);
	let at = 1 + ctx.rng.us(15);
	let index = Index::from_one(at).unwrap();
	let pidx = PartialIndex::root().raw(index);
	let mut raw = Raw::<Owned, C>::default();
	let root = ok!(x.into_tree(&mut db), "merkleizing {:?}", x);
	ok!(raw.set(&mut db, index, root), "set");
	let m = raw.metadata();
	let base = db.inner.clone();
	let seed = ctx.rng.next();
	let mut y = x.clone();
	let mut p = X::Value::new(pidx.clone());
	let c = y.change(&mut p, &mut Rng::new(seed, 2));
	db.arm(None);
	ok!(p.flush(&mut raw, &mut db), "flushing {} changes of {:?} to {:?}", c, x, y);
	let (n, want) = (db.calls, T::leaf(zero()).set::<C>(&path_of(at), T::leaf(y.sroot(s))).hash.clone());
	ctx.t(8, c, || format!("{:?} at index {} changed to {:?} in {} calls", x, at, y, n));
	if n == 0 { return Ok(()) }
	for _ in 0..ctx.rng.range(1, 6) {
		db.inner = base.clone();
		let mut raw = Raw::<Owned, C>::from_leaked(m.clone());
		let mut p = X::Value::new(pidx.clone());
		let mut z = x.clone();
		z.change(&mut p, &mut Rng::new(seed, 2));
		let mut failed = vec![];
		for _ in 0..ctx.rng.range(1, 3) {
			let k = ctx.rng.below(n);
			db.arm(Some(k));
			let r = p.flush(&mut raw, &mut db);
			db.arm(None);
			match r {
				// what was written before is not written again
				Ok(()) => break,
				Err(bm::Error::Backend(EE::Injected(_))) => failed.push(k),
				Err(e) => fail!("flushing changes of {:?} to {:?} with call {} failing: {:?}", x, y, k, e),
			}
		}
		if failed.is_empty() { continue }
		let what = || format!("{:?} changed to {:?} at index {}, flushed with calls {:?} failing and once more", x, y, at, failed);
		match p.flush(&mut raw, &mut db) { Ok(()) => (), Err(e) => fail!("{}: {:?}", what(), e) }
		ensure!(raw.root() == want, "{}: the root is {} instead of {} ({})", what(), hex(&raw.root()), hex(&want), C::NAME);
		let got = ok!(X::from_tree(&y.sroot(s), &mut db), "{}: decoding", what());
		ensure!(got == y, "{}: decodes as {:?}", what(), got);
		ok!(p.flush(&mut raw, &mut db), "{}: flushing with nothing set", what());
		ensure!(raw.root() == want, "{}: flushing with nothing set changes the root from {} to {}", what(), hex(&want), hex(&raw.root()));
		ctx.count("retried_flushes", 1);
	}
	ctx.observe(bytes(&want));
	ctx.nontrivial = true;
	Ok(())
}
fn retry<C: Cons>(ctx: &mut Ctx) -> R {
	match ctx.rng.below(11) {
		0 => retried::<C, P3>(ctx), 1 => retried::<C, P4>(ctx), 2 => retried::<C, P5>(ctx), 3 => retried::<C, P6>(ctx), 4 => retried::<C, P7>(ctx), 5 => retried::<C, P9>(ctx),
		6 => retried::<C, P17>(ctx), 7 => retried::<C, PL<u64>>(ctx), 8 => retried::<C, PL<P3>>(ctx), 9 => retried::<C, PL<PL<u16>>>(ctx), _ => retried::<C, PL<P6>>(ctx),
	}
}
pub fn c17(ctx: &mut Ctx) -> R {
	if ctx.rng.chance(1, 14) && !cfg!(feature = "toy") { return if ctx.rng.chance(1, 2) { crate::p_far::positions::<Inh>(ctx) } else { crate::p_far::positions::<Inh512>(ctx) } }
	if ctx.rng.chance(1, 10) { return match ctx.rng.below(8) { 0 | 1 => retry::<Unit>(ctx), 2 => retry::<Inh512>(ctx), _ => retry::<Inh>(ctx) } }
	match ctx.rng.below(8) { 0 | 1 => all::<Unit>(ctx), 2 => all::<Inh512>(ctx), _ => all::<Inh>(ctx) }
}

/// C15: reading through a partial view of a tree holding anything.
pub fn peek_any<C: Cons>(which: u64, raw: &Raw<Dangling, C>, db: &mut DbRef<C>, r: &mut Rng) -> Res<u64> {
	let p = match r.below(4) {
		0 => PartialIndex::root().list(r.us(5)), 1 => PartialIndex::root().list(r.us(3)).list(r.word() >> r.below(WORD as u64)), 2 => PartialIndex::root().vector(r.us(3), 3).list(r.us(4)),
		3 if r.chance(1, 3) && !cfg!(feature = "toy") => { let l = r.word() >> r.below(4); PartialIndex::root().vector(if r.chance(1, 2) { r.us(3) } else { r.word() }, l) }, _ => PartialIndex::root(),
	};
	macro_rules! go { ($t:ty) => { <$t>::peek(&mut <$t as Partialable>::Value::new(p), raw, db, r) } }
	match which % 6 { 0 => go!(u64), 1 => go!(P4), 2 => go!(PL<P3>), 3 => go!(P7), 4 => go!(PL<PL<u16>>), _ => go!(P9) }
}

/// A value of one of the types in a tree, for a session that can be run again: everything follows from `seed`.
fn build_one<C: Cons, X: Pt>(seed: u64, db: &mut Dyn<C>) -> R<V> {
	let db = &mut DbRef::<C>(db);
	let (at, _, lens) = place(&mut Rng::new(seed, 1));
	let x = X::gen(&mut Rng::new(seed, 2), 0);
	let mut raw = Raw::<Owned, C>::default();
	let r = &mut Rng::new(seed, 3);
	for _ in 0..r.below(5) {
		let i = 1 + r.us(31);
		if related(i, at) || lens.iter().any(|(l, _)| related(i, *l)) { continue }
		ok!(raw.set(db, Index::from_one(i).unwrap(), vs(&r.bytes(32))), "set");
	}
	for (l, n) in &lens { ok!(raw.set(db, Index::from_one(*l).unwrap(), n.clone()), "set"); }
	let xr = ok!(x.into_tree(db), "merkleizing {:?}", x);
	ok!(raw.set(db, Index::from_one(at).unwrap(), xr), "set");
	Ok(raw.root())
}
fn run_one<C: Cons, X: Pt, Q: RootStatus>(seed: u64, root: &V, db: &mut Dyn<C>) -> String {
	let db = &mut DbRef::<C>(db);
	let (_, pidx, _) = place(&mut Rng::new(seed, 1));
	let mut x = X::gen(&mut Rng::new(seed, 2), 0);
	let r = &mut Rng::new(seed, 4);
	let mut raw = Raw::<Q, C>::from_leaked(root.clone());
	let mut p = X::Value::new(pidx.clone());
	let mut out = String::new();
	for _ in 0..r.range(1, 4) {
		if r.chance(1, 3) { p = X::Value::new(pidx.clone()); }
		out += &format!("read {:?}; ", x.read(&mut p, &raw, db, r));
		if r.chance(1, 4) { out += &format!("fetched {:?}; ", x.refetch(&mut p, &raw, db, r)); p = X::Value::new(pidx.clone()); }
		if r.chance(3, 4) { out += &format!("{} changes, ", x.change(&mut p, r)); }
		out += &format!("flush {:?} root {}; ", p.flush(&mut raw, db), hex(&raw.root()));
	}
	out + &format!("read {:?}", x.read(&mut X::Value::new(pidx), &raw, db, r))
}
macro_rules! which { ($w:expr, $t:ident => $e:expr) => { match $w % 12 {
	0 => { type $t = P2; $e }, 1 => { type $t = P3; $e }, 2 => { type $t = P4; $e }, 3 => { type $t = P5; $e }, 4 => { type $t = P6; $e }, 5 => { type $t = P7; $e },
	6 => { type $t = P9; $e }, 7 => { type $t = P17; $e }, 8 => { type $t = PL<u64>; $e }, 9 => { type $t = PL<P3>; $e }, 10 => { type $t = PL<PL<u16>>; $e }, _ => { type $t = PL<P6>; $e },
} } }
pub fn session_build<C: Cons>(which: u64, seed: u64, db: &mut Dyn<C>) -> R<V> { which!(which, X => build_one::<C, X>(seed, db)) }
pub fn session_run<C: Cons>(which: u64, seed: u64, owned: bool, root: &V, db: &mut Dyn<C>) -> String {
	which!(which, X => if owned { run_one::<C, X, Owned>(seed, root, db) } else { run_one::<C, X, Dangling>(seed, root, db) })
}
