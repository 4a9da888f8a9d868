//! Sequences with their length mixed in, put together from the public pieces: several changes in one call, lengths mixed in
//! twice, vectors created with a length. C05, C06, C07, C13.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::{ensure, fail, ok};
use bm::{Dangling, Leak, LengthMixed, Owned, PackedVector, Raw, RootStatus, Sequence, Tree, Vector};
use generic_array::GenericArray;
use typenum::{U32, U5, U8};

type PV<C, N> = PackedVector<Dangling, C, GenericArray<u8, N>, U32, N>;
type Once<Q, C> = LengthMixed<Q, C, Vector<Dangling, C>>;
type Twice<Q, C> = LengthMixed<Q, C, Once<Dangling, C>>;
type Packed<Q, C, N> = LengthMixed<Q, C, PV<C, N>>;

trait Mx<C: Cons> {
	fn batch(&mut self, db: &mut Dyn<C>, ops: &[Op]) -> Res<Vec<Out>>;
	fn look(&self, db: &mut Dyn<C>, at: &[usize]) -> Res<Vec<Out>>;
	fn root(&self) -> V;
	fn len(&self) -> usize;
	fn reopen(self: Box<Self>, db: &mut Dyn<C>, how: u64, max: Option<u64>) -> Res<Box<dyn Mx<C>>>;
	fn dangling(&self) -> Box<dyn Mx<C>>;
	fn release(self: Box<Self>, db: &mut Dyn<C>) -> Res<()>;
	fn shape(&self, _db: &mut Dyn<C>) -> Res<Option<(Option<u64>, u64, usize)>> { Ok(None) }
}
fn one<C: Cons>(v: &mut Vector<Dangling, C>, db: &mut Dyn<C>, op: &Op) -> Out {
	match op {
		Op::Get(i) => v.get(db, *i).map(|x| Out::Val(bytes(&x).to_vec())),
		Op::Set(i, x) => v.set(db, *i, vs(x)).map(|_| Out::Unit),
		Op::Push(x) => v.push(db, vs(x)).map(|_| Out::Unit),
		Op::Pop => v.pop(db).map(|x| Out::Popped(x.map(|x| bytes(&x).to_vec()))),
	}.unwrap_or_else(Out::Err)
}
macro_rules! packed_one { ($v:expr, $db:expr, $op:expr, $n:ty) => { match $op {
	Op::Get(i) => $v.get($db, *i).map(|x| Out::Val(x.to_vec())),
	Op::Set(i, x) => $v.set($db, *i, GenericArray::clone_from_slice(x)).map(|_| Out::Unit),
	Op::Push(x) => $v.push($db, GenericArray::clone_from_slice(x)).map(|_| Out::Unit),
	Op::Pop => $v.pop($db).map(|x| Out::Popped(x.map(|x| x.to_vec()))),
}.unwrap_or_else(Out::Err) } }

struct A<Q: RootStatus, C: Cons>(Once<Q, C>);
impl<Q: RootStatus + 'static, C: Cons> Mx<C> for A<Q, C> {
	fn batch(&mut self, db: &mut Dyn<C>, ops: &[Op]) -> Res<Vec<Out>> { self.0.with_mut(db, |v, db| Ok(ops.iter().map(|o| one(v, db, o)).collect())) }
	fn look(&self, db: &mut Dyn<C>, at: &[usize]) -> Res<Vec<Out>> { self.0.with(db, |v, db| Ok(at.iter().map(|i| v.get(db, *i).map(|x| Out::Val(bytes(&x).to_vec())).unwrap_or_else(Out::Err)).collect())) }
	fn root(&self) -> V { Tree::root(&self.0) }
	fn len(&self) -> usize { Sequence::len(&self.0) }
	fn reopen(self: Box<Self>, db: &mut Dyn<C>, how: u64, max: Option<u64>) -> Res<Box<dyn Mx<C>>> {
		if how % 3 == 0 { return Ok(Box::new(A(Once::<Q, C>::from_leaked(self.0.metadata())))) }
		let root = if how % 3 == 1 { self.0.deconstruct(db)? } else { self.0.into_raw().root() };
		Ok(Box::new(A(Once::<Q, C>::reconstruct(root, db, |raw, _, len| Ok(Vector::from_raw(raw, len, max)))?)))
	}
	fn dangling(&self) -> Box<dyn Mx<C>> { Box::new(A(Once::<Dangling, C>::from_leaked(self.0.metadata()))) }
	fn shape(&self, db: &mut Dyn<C>) -> Res<Option<(Option<u64>, u64, usize)>> { self.0.with(db, |v, _| Ok(Some((v.max_len(), v.current_max_len(), v.depth())))) }
	fn release(self: Box<Self>, db: &mut Dyn<C>) -> Res<()> { Tree::drop(self.0, db) }
}
struct B<Q: RootStatus, C: Cons>(Twice<Q, C>);
impl<Q: RootStatus + 'static, C: Cons> Mx<C> for B<Q, C> {
	fn batch(&mut self, db: &mut Dyn<C>, ops: &[Op]) -> Res<Vec<Out>> {
		// some of them one by one, some together
		self.0.with_mut(db, |m, db| {
			let mut outs = vec![];
			for part in ops.chunks(3) { outs.extend(m.with_mut(db, |v, db| Ok(part.iter().map(|o| one(v, db, o)).collect::<Vec<_>>()))?); }
			Ok(outs)
		})
	}
	fn look(&self, db: &mut Dyn<C>, at: &[usize]) -> Res<Vec<Out>> { self.0.with(db, |m, db| m.with(db, |v, db| Ok(at.iter().map(|i| v.get(db, *i).map(|x| Out::Val(bytes(&x).to_vec())).unwrap_or_else(Out::Err)).collect()))) }
	fn root(&self) -> V { Tree::root(&self.0) }
	fn len(&self) -> usize { Sequence::len(&self.0) }
	fn reopen(self: Box<Self>, db: &mut Dyn<C>, how: u64, max: Option<u64>) -> Res<Box<dyn Mx<C>>> {
		if how % 3 == 0 { return Ok(Box::new(B(Twice::<Q, C>::from_leaked(self.0.metadata())))) }
		let root = if how % 3 == 1 { self.0.deconstruct(db)? } else { self.0.into_raw().root() };
		Ok(Box::new(B(Twice::<Q, C>::reconstruct(root, db, |raw, db, len| Once::<Dangling, C>::reconstruct(raw.root(), db, |raw, _, inner| {
			if inner != len { return Err(bm::Error::CorruptedDatabase) }
			Ok(Vector::from_raw(raw, len, max))
		}))?)))
	}
	fn dangling(&self) -> Box<dyn Mx<C>> { Box::new(B(Twice::<Dangling, C>::from_leaked(self.0.metadata()))) }
	fn shape(&self, db: &mut Dyn<C>) -> Res<Option<(Option<u64>, u64, usize)>> { self.0.with(db, |m, db| m.with(db, |v, _| Ok(Some((v.max_len(), v.current_max_len(), v.depth()))))) }
	fn release(self: Box<Self>, db: &mut Dyn<C>) -> Res<()> { Tree::drop(self.0, db) }
}
macro_rules! packed { ($t:ident, $n:ty) => {
struct $t<Q: RootStatus, C: Cons>(Packed<Q, C, $n>);
impl<Q: RootStatus + 'static, C: Cons> Mx<C> for $t<Q, C> {
	fn batch(&mut self, db: &mut Dyn<C>, ops: &[Op]) -> Res<Vec<Out>> { self.0.with_mut(db, |v, db| Ok(ops.iter().map(|o| packed_one!(v, db, o, $n)).collect())) }
	fn look(&self, db: &mut Dyn<C>, at: &[usize]) -> Res<Vec<Out>> { self.0.with(db, |v, db| Ok(at.iter().map(|i| v.get(db, *i).map(|x| Out::Val(x.to_vec())).unwrap_or_else(Out::Err)).collect())) }
	fn root(&self) -> V { Tree::root(&self.0) }
	fn len(&self) -> usize { Sequence::len(&self.0) }
	fn reopen(self: Box<Self>, db: &mut Dyn<C>, how: u64, max: Option<u64>) -> Res<Box<dyn Mx<C>>> {
		if how % 3 == 0 { return Ok(Box::new($t(Packed::<Q, C, $n>::from_leaked(self.0.metadata())))) }
		let root = if how % 3 == 1 { self.0.deconstruct(db)? } else { self.0.into_raw().root() };
		Ok(Box::new($t(Packed::<Q, C, $n>::reconstruct(root, db, |raw: Raw<Dangling, C>, _, len| Ok(PackedVector::from_raw(raw, len, max)))?)))
	}
	fn dangling(&self) -> Box<dyn Mx<C>> { Box::new($t(Packed::<Dangling, C, $n>::from_leaked(self.0.metadata()))) }
	fn release(self: Box<Self>, db: &mut Dyn<C>) -> Res<()> { Tree::drop(self.0, db) }
}
} }
packed!(P5, U5);
packed!(P8, U8);

pub fn mixed<C: Cons>(ctx: &mut Ctx, packed: bool, roots: bool, reopen: bool) -> R {
	let which = ctx.rng.below(4);
	with_db::<C>(which, ctx, |ctx, db| {
		let shape = if packed { 2 + ctx.rng.below(2) } else { ctx.rng.below(2) };
		let kind = match shape { 0 | 1 => Kind::List, 2 => Kind::PList(5), _ => Kind::PList(8) };
		let mut spec = gen_spec::<C>(&mut ctx.rng, kind, true);
		if !C::UNIT && ctx.rng.chance(1, 3) { spec.init = ctx.rng.below(30).min(spec.max.unwrap_or(30)) as usize; }
		let (init, max) = (spec.init, spec.max);
		let mut m = Model::new(spec.clone());
		ctx.t(130 + shape, init as u64 ^ max.unwrap_or(0), || format!("length mixed into {:?}{}", spec, if shape == 1 { " twice" } else { "" }));
		let mut h: Box<dyn Mx<C>> = ok!(match shape {
			0 => Once::<Owned, C>::create(db, |db| Vector::<Owned, C>::create(db, init, max)).map(|x| Box::new(A(x)) as Box<dyn Mx<C>>),
			1 => Twice::<Owned, C>::create(db, |db| Once::<Owned, C>::create(db, |db| Vector::<Owned, C>::create(db, init, max))).map(|x| Box::new(B(x)) as _),
			2 => Packed::<Owned, C, U5>::create(db, |db| PackedVector::<Owned, C, GenericArray<u8, U5>, U32, U5>::create(db, init, max)).map(|x| Box::new(P5(x)) as _),
			_ => Packed::<Owned, C, U8>::create(db, |db| PackedVector::<Owned, C, GenericArray<u8, U8>, U32, U8>::create(db, init, max)).map(|x| Box::new(P8(x)) as _),
		}, "creating {:?}", spec);
		let root_of = |m: &Model| { let r = m.tree::<C>().hash.clone(); if shape == 1 { C::h(&r, &vlen(m.elems.len() as u64)) } else { r } };
		let mut gen = Gen::new(&mut ctx.rng);
		gen.cap = 120;
		let mut pool: Vec<V> = vec![];
		for _ in 0..ctx.rng.range(4, 24) {
			let k = 1 + ctx.rng.us(9);
			let (mut ops, mut want) = (vec![], vec![]);
			for _ in 0..k { let o = gen.op(&mut ctx.rng, &m, &pool); want.push(expect(&mut m, &o)); ops.push(o); }
			let got = ok!(h.batch(db, &ops), "{:?}: a batch of {}", spec, k);
			for g in &got { g.obs(ctx); }
			ctx.t(134, k as u64 ^ (m.elems.len() as u64) << 8, || format!("batch [{}]", ops.iter().zip(&got).map(|(o, g)| format!("{} -> {}", o.short(), g.short())).collect::<Vec<_>>().join("; ")));
			ensure!(got == want, "{:?}: the batch {:?} gives {:?} instead of {:?}", spec, ops.iter().map(|o| o.short()).collect::<Vec<_>>(), got.iter().map(|o| o.short()).collect::<Vec<_>>(), want.iter().map(|o| o.short()).collect::<Vec<_>>());
			ensure!(h.len() == m.elems.len(), "{:?}: after a batch the length is {} instead of {}", spec, h.len(), m.elems.len());
			if roots { let want = root_of(&m); ensure!(h.root() == want, "{:?}: after a batch of {} the root of {} elements is {} instead of {}", spec, k, m.elems.len(), hex(&h.root()), hex(&want)); ctx.count("roots_checked", 1); }
			if pool.len() < 8 { pool.push(h.root()); }
			ctx.count("batches", 1);
			if ctx.rng.chance(if reopen { 2 } else { 1 }, 4) {
				let (r, how) = (h.root(), ctx.rng.below(3));
				h = ok!(h.reopen(db, how, max), "{:?}: reopening", spec);
				ensure!(h.root() == r && h.len() == m.elems.len(), "{:?}: reopened with root {} and length {} instead of {} and {}", spec, hex(&h.root()), h.len(), hex(&r), m.elems.len());
				ctx.count("reopens", 1);
			}
			if ctx.rng.chance(1, 3) { whole(ctx, db, &*h, &m, "")?; let d = h.dangling(); whole(ctx, db, &*d, &m, " through a second handle")?; }
		}
		whole(ctx, db, &*h, &m, "")?;
		ok!(h.release(db), "dropping {:?}", spec);
		ctx.nontrivial = true;
		Ok(())
	})
}
fn whole<C: Cons>(ctx: &mut Ctx, db: &mut Dyn<C>, h: &dyn Mx<C>, m: &Model, how: &str) -> R {
	let n = m.elems.len();
	let got = ok!(h.look(db, &(0..n + 1).collect::<Vec<_>>()), "looking at all elements");
	for i in 0..n { ensure!(got[i] == Out::Val(m.elems[i].clone()), "{:?}: element {} of {} reads {} instead of {}{}", m.spec, i, n, got[i].short(), hx(&m.elems[i]), how); }
	ensure!(got[n] == Out::Err(bm::Error::AccessOverflowed), "{:?}: reading at the length {} gives {}{}", m.spec, n, got[n].short(), how);
	if let Some(w) = ok!(h.shape(db), "looking at the shape").and_then(|x| crate::seq::wrong_shape(x, m.spec.max, n)) { fail!("{:?}: {}{}", m.spec, w, how) }
	ctx.count("elements_checked", n as u64);
	Ok(())
}
pub fn any(ctx: &mut Ctx, packed: bool, roots: bool, reopen: bool) -> R {
	match ctx.rng.below(10) { 0..=5 => mixed::<Inh>(ctx, packed, roots, reopen), 6..=8 => mixed::<Unit>(ctx, packed, roots, reopen), _ => mixed::<Inh512>(ctx, packed, roots, reopen) }
}
