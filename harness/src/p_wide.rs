//! Sequences over chunks that are not 32 bytes wide: other digests, and constructs of the user's own.
use crate::infra::*;
use crate::model::depth_for;
use crate::ops::hx;
use crate::{ensure, fail, ok};
use bm::{Construct, Dangling, DanglingVector, InMemoryBackend, InheritedDigestConstruct, Leak, List, Owned, PackedList, PackedVector, RootStatus, Sequence, Tree, UnitDigestConstruct, Vector, WriteBackend};
use generic_array::{ArrayLength, GenericArray};
use crate::digs::{Digest, Sha224, Sha256, Sha384, Sha512};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use typenum::{Unsigned, U1, U100, U20, U28, U32, U48, U64, U7, U8};

pub struct W<N: ArrayLength<u8>>(pub GenericArray<u8, N>);
impl<N: ArrayLength<u8>> Clone for W<N> { fn clone(&self) -> Self { W(self.0.clone()) } }
impl<N: ArrayLength<u8>> Default for W<N> { fn default() -> Self { W(GenericArray::default()) } }
impl<N: ArrayLength<u8>> PartialEq for W<N> { fn eq(&self, o: &Self) -> bool { self.0.as_slice() == o.0.as_slice() } }
impl<N: ArrayLength<u8>> Eq for W<N> {}
impl<N: ArrayLength<u8>> PartialOrd for W<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<N: ArrayLength<u8>> Ord for W<N> { fn cmp(&self, o: &Self) -> Ordering { self.0.as_slice().cmp(o.0.as_slice()) } }
impl<N: ArrayLength<u8>> Hash for W<N> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.as_slice().hash(h) } }
impl<N: ArrayLength<u8>> fmt::Debug for W<N> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&hx(self.0.as_slice())) } }
impl<N: ArrayLength<u8>> AsRef<[u8]> for W<N> { fn as_ref(&self) -> &[u8] { self.0.as_slice() } }
impl<N: ArrayLength<u8>> AsMut<[u8]> for W<N> { fn as_mut(&mut self) -> &mut [u8] { self.0.as_mut_slice() } }
impl<N: ArrayLength<u8>> From<GenericArray<u8, N>> for W<N> { fn from(x: GenericArray<u8, N>) -> Self { W(x) } }
impl<N: ArrayLength<u8>> From<usize> for W<N> { fn from(x: usize) -> Self { ws(&(x as u64).to_le_bytes()) } }
impl<N: ArrayLength<u8>> Into<usize> for W<N> { fn into(self) -> usize { let mut b = [0; 8]; b.copy_from_slice(&self.0[..8]); u64::from_le_bytes(b) as usize } }
fn ws<N: ArrayLength<u8>>(b: &[u8]) -> W<N> { let mut r = W::default(); r.0[..b.len()].copy_from_slice(b); r }

/// A construct as a user may write it: truncated digest, and a salt so that leaves and nodes do not meet.
pub struct Own<N>(PhantomData<N>);
impl<N: ArrayLength<u8>> Construct for Own<N> {
	type Value = W<N>;
	fn intermediate_of(l: &W<N>, r: &W<N>) -> W<N> {
		let mut d = Sha256::new();
		d.input(b"own");
		d.input(l.as_ref());
		d.input(r.as_ref());
		ws(&d.result()[..N::to_usize()])
	}
	fn empty_at<DB: WriteBackend<Construct = Self> + ?Sized>(db: &mut DB, depth: usize) -> Result<W<N>, DB::Error> {
		let mut z = W::default();
		for _ in 0..depth { let k = Self::intermediate_of(&z, &z); db.insert(k.clone(), (z.clone(), z))?; z = k; }
		Ok(z)
	}
}
pub trait Wc: Construct<Value = W<<Self as Wc>::N>> + 'static {
	type N: ArrayLength<u8> + 'static;
	const UNIT: bool;
	fn h(l: &[u8], r: &[u8]) -> Vec<u8>;
}
fn dig<D: Digest>(p: &[&[u8]]) -> Vec<u8> { let mut d = D::new(); for x in p { d.input(x); } d.result().as_slice().to_vec() }
type C64 = InheritedDigestConstruct<Sha512, W<U64>>;
type C48 = UnitDigestConstruct<Sha384, W<U48>>;
type C28 = InheritedDigestConstruct<Sha224, W<U28>>;
impl Wc for C64 { type N = U64; const UNIT: bool = false; fn h(l: &[u8], r: &[u8]) -> Vec<u8> { dig::<Sha512>(&[l, r]) } }
impl Wc for C48 { type N = U48; const UNIT: bool = true; fn h(l: &[u8], r: &[u8]) -> Vec<u8> { dig::<Sha384>(&[l, r]) } }
impl Wc for C28 { type N = U28; const UNIT: bool = false; fn h(l: &[u8], r: &[u8]) -> Vec<u8> { dig::<Sha224>(&[l, r]) } }
impl Wc for Own<U8> { type N = U8; const UNIT: bool = false; fn h(l: &[u8], r: &[u8]) -> Vec<u8> { dig::<Sha256>(&[b"own", l, r])[..8].to_vec() } }
impl Wc for Own<U20> { type N = U20; const UNIT: bool = false; fn h(l: &[u8], r: &[u8]) -> Vec<u8> { dig::<Sha256>(&[b"own", l, r])[..20].to_vec() } }

type Db<C> = InMemoryBackend<C>;
type Res<X> = Result<X, bm::Error<bm::InMemoryBackendError>>;
trait Sq<C: Wc> where Db<C>: WriteBackend<Construct = C> {
	fn len(&self) -> usize;
	fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>>;
	fn set(&mut self, db: &mut Db<C>, i: usize, x: &[u8]) -> Res<()>;
	fn push(&mut self, db: &mut Db<C>, x: &[u8]) -> Res<()>;
	fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>>;
	fn root(&self) -> C::Value;
	fn reopen(self: Box<Self>) -> Box<dyn Sq<C>>;
	fn release(self: Box<Self>, db: &mut Db<C>) -> Res<()>;
}
struct Plain<X>(X);
struct Packed<X, E>(X, PhantomData<E>);
macro_rules! sq { ($ty:ident) => {
	impl<Q: RootStatus + 'static, C: Wc> Sq<C> for Plain<$ty<Q, C>> {
		fn len(&self) -> usize { Sequence::len(&self.0) }
		fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>> { self.0.get(db, i).map(|x| x.as_ref().to_vec()) }
		fn set(&mut self, db: &mut Db<C>, i: usize, x: &[u8]) -> Res<()> { self.0.set(db, i, ws(x)) }
		fn push(&mut self, db: &mut Db<C>, x: &[u8]) -> Res<()> { self.0.push(db, ws(x)) }
		fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>> { self.0.pop(db).map(|o| o.map(|x| x.as_ref().to_vec())) }
		fn root(&self) -> C::Value { self.0.root() }
		fn reopen(self: Box<Self>) -> Box<dyn Sq<C>> { Box::new(Plain($ty::<Q, C>::from_leaked(self.0.metadata()))) }
		fn release(self: Box<Self>, db: &mut Db<C>) -> Res<()> { Tree::drop(self.0, db) }
	}
} }
sq!(Vector);
sq!(List);
macro_rules! psq { ($ty:ident) => {
	impl<Q: RootStatus + 'static, C: Wc, E: ArrayLength<u8> + 'static> Sq<C> for Packed<$ty<Q, C, GenericArray<u8, E>, C::N, E>, E> {
		fn len(&self) -> usize { Sequence::len(&self.0) }
		fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>> { self.0.get(db, i).map(|x| x.as_slice().to_vec()) }
		fn set(&mut self, db: &mut Db<C>, i: usize, x: &[u8]) -> Res<()> { self.0.set(db, i, GenericArray::clone_from_slice(x)) }
		fn push(&mut self, db: &mut Db<C>, x: &[u8]) -> Res<()> { self.0.push(db, GenericArray::clone_from_slice(x)) }
		fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>> { self.0.pop(db).map(|o| o.map(|x| x.as_slice().to_vec())) }
		fn root(&self) -> C::Value { self.0.root() }
		fn reopen(self: Box<Self>) -> Box<dyn Sq<C>> { Box::new(Packed($ty::<Q, C, GenericArray<u8, E>, C::N, E>::from_leaked(self.0.metadata()), PhantomData)) }
		fn release(self: Box<Self>, db: &mut Db<C>) -> Res<()> { Tree::drop(self.0, db) }
	}
} }
psq!(PackedVector);
psq!(PackedList);

fn mroot<C: Wc>(mut cur: Vec<Vec<u8>>, depth: usize) -> Vec<u8> {
	let mut z = vec![0; C::N::to_usize()];
	for _ in 0..depth {
		cur = cur.chunks(2).map(|p| C::h(&p[0], p.get(1).unwrap_or(&z))).collect();
		if !C::UNIT { z = C::h(&z, &z); }
	}
	cur.pop().unwrap_or(z)
}
fn want_root<C: Wc>(elems: &[Vec<u8>], list: bool, packed: bool, es: usize, max: Option<u64>) -> Vec<u8> {
	let w = C::N::to_usize();
	let chunks: Vec<Vec<u8>> = if packed { elems.concat().chunks(w).map(|c| { let mut c = c.to_vec(); c.resize(w, 0); c }).collect() } else { elems.to_vec() };
	let limit = max.map(|m| if packed { ((m as u128 * es as u128 + w as u128 - 1) / w as u128) as u64 } else { m }).unwrap_or(chunks.len() as u64);
	let r = mroot::<C>(chunks, depth_for(limit));
	if list { let mut l = (elems.len() as u64).to_le_bytes().to_vec(); l.resize(w, 0); C::h(&r, &l) } else { r }
}

fn run<C: Wc, E: ArrayLength<u8> + 'static>(ctx: &mut Ctx, packed: bool, roots: bool) -> R where C::Value: Eq + Hash + Ord {
	let mut db = Db::<C>::default();
	let es = if packed { E::to_usize() } else { C::N::to_usize() };
	let list = ctx.rng.chance(1, 2);
	let max = match ctx.rng.below(4) { 0 | 1 => None, 2 => Some(ctx.rng.range(1, 70)), _ => Some(crate::ops::narrow(*ctx.rng.pick(&[1u64, 2, 8, 1 << 20, (1 << 40) + 1]))) };
	// over unit-empty trees a vector created with a length reads only what was written (known finding)
	let init = if list || C::UNIT { 0 } else { (ctx.rng.below(30) as u64).min(max.unwrap_or(99)) as usize };
	let what = format!("{}{} of {}-byte elements over {}-byte chunks, maximum {:?}", if packed { "packed " } else { "" }, if list { "list" } else { "vector" }, es, C::N::to_usize(), max);
	let mut s: Box<dyn Sq<C>> = match (list, packed) {
		(false, false) => Box::new(Plain(ok!(Vector::<Owned, C>::create(&mut db, init, max), "creating {}", what))),
		(true, false) => Box::new(Plain(ok!(List::<Owned, C>::create(&mut db, max), "creating {}", what))),
		(false, true) => Box::new(Packed(ok!(PackedVector::<Owned, C, GenericArray<u8, E>, C::N, E>::create(&mut db, init, max), "creating {}", what), PhantomData)),
		(true, true) => Box::new(Packed(ok!(PackedList::<Owned, C, GenericArray<u8, E>, C::N, E>::create(&mut db, max), "creating {}", what), PhantomData)),
	};
	let mut m = vec![vec![0u8; es]; init];
	ctx.t(60, (es * 1000 + C::N::to_usize()) as u64 ^ max.unwrap_or(0), || format!("{} of length {}", what, init));
	let steps = ctx.rng.range(10, 120);
	for k in 0..steps {
		let len = m.len();
		let x = match ctx.rng.below(6) { 0 => vec![0; es], 1 => vec![0xff; es], 2 => { let mut x = vec![0; es]; x[es - 1] = 1; x }, _ => ctx.rng.bytes(es) };
		let grow = (k / 25) % 3 != 2;
		let over = Err(bm::Error::AccessOverflowed);
		let r = ctx.rng.below(10);
		if r < if grow { 6 } else { 1 } {
			let want = if max.map(|m| len as u64 >= m).unwrap_or(false) { over } else { m.push(x.clone()); Ok(()) };
			let got = s.push(&mut db, &x);
			ensure!(got == want, "{}: pushing to length {} gives {:?} instead of {:?}", what, len, got, want);
			ctx.count("pushes", 1);
		} else if r < 8 && r < if grow { 7 } else { 8 } {
			let want = m.pop();
			let got = ok!(s.pop(&mut db), "{}: popping at length {}", what, len);
			ensure!(got == want, "{}: popping at length {} gives {:?} instead of {:?}", what, len, got, want);
			ctx.count("pops", 1);
		} else {
			let i = ctx.rng.us(len + 2);
			let want = if i < len { m[i] = x.clone(); Ok(()) } else { over };
			let got = s.set(&mut db, i, &x);
			ensure!(got == want, "{}: setting {} at length {} gives {:?} instead of {:?}", what, i, len, got, want);
			ctx.count("sets", 1);
			// its neighbours and itself
			for j in i.saturating_sub(1)..=i + 1 {
				match (s.get(&mut db, j), m.get(j)) {
					(Ok(x), Some(w)) => ensure!(x == *w, "{}: element {} of {} reads {} instead of {}", what, j, len, hx(&x), hx(w)),
					(Err(bm::Error::AccessOverflowed), None) => (),
					(x, w) => fail!("{}: element {} of {} reads {:?} instead of {:?}", what, j, len, x, w),
				}
				ctx.count("gets", 1);
			}
		}
		ctx.t(61, r << 32 | len as u64, || format!("step {} at length {}", r, len));
		ensure!(s.len() == m.len(), "{}: length {} instead of {}", what, s.len(), m.len());
		if roots || ctx.rng.chance(1, 8) {
			let (g, w) = (s.root(), want_root::<C>(&m, list, packed, es, max));
			ensure!(g.as_ref() == &w[..], "{}: root of {} elements is {:?} instead of {}", what, m.len(), g, hx(&w));
			ctx.observe(&w);
			ctx.count("roots_checked", 1);
		}
		if ctx.rng.chance(1, 20) { s = s.reopen(); }
		if ctx.rng.chance(1, 30) || k + 1 == steps {
			for (i, w) in m.iter().enumerate() { let x = ok!(s.get(&mut db, i), "{}: element {} of {}", what, i, m.len()); ensure!(x == *w, "{}: element {} of {} reads {} instead of {}", what, i, m.len(), hx(&x), hx(w)); }
			ensure!(s.get(&mut db, m.len()) == Err(bm::Error::AccessOverflowed), "{}: reading at the length {} is not refused", what, m.len());
		}
	}
	// what was written from outside reads the same through a tree built at once
	if !packed && !m.is_empty() {
		let vals: Vec<C::Value> = m.iter().map(|x| ws(x)).collect();
		let r = ok!(bm::utils::vector_tree(&vals, &mut db, max), "building {} values at once", m.len());
		ensure!(r.as_ref() == &want_root::<C>(&m, false, false, es, max)[..], "{}: building {} values at once gives another root", what, m.len());
		let d = DanglingVector::<C>::from_leaked((r, m.len(), max));
		for (i, w) in m.iter().enumerate() { let x = ok!(d.get(&mut db, i), "element {} of a vector built at once", i); ensure!(x.as_ref() == &w[..], "element {} of {} values built at once reads {:?} instead of {}", i, m.len(), x, hx(w)); }
		ctx.count("built_at_once", 1);
	}
	ok!(s.release(&mut db), "{}: dropping", what);
	ctx.count("wide_sequences", 1);
	ctx.nontrivial = true;
	Ok(())
}
fn elems<C: Wc>(ctx: &mut Ctx, packed: bool, roots: bool) -> R where C::Value: Eq + Hash + Ord {
	if !packed { return run::<C, U1>(ctx, false, roots) }
	match ctx.rng.below(5) {
		0 => run::<C, U1>(ctx, true, roots),
		1 => run::<C, U7>(ctx, true, roots),
		2 => run::<C, U8>(ctx, true, roots),
		3 => run::<C, U32>(ctx, true, roots),
		_ => run::<C, U100>(ctx, true, roots),
	}
}
pub fn wide(ctx: &mut Ctx, packed: bool, roots: bool) -> R {
	match ctx.rng.below(5) {
		0 => elems::<C64>(ctx, packed, roots),
		1 => elems::<C48>(ctx, packed, roots),
		2 => elems::<C28>(ctx, packed, roots),
		3 => elems::<Own<U8>>(ctx, packed, roots),
		_ => elems::<Own<U20>>(ctx, packed, roots),
	}
}
