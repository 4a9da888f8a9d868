//! Registry of supported types: generators, an independent SSZ reference, erased access.
use crate::big_enum::EB;
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use bm_le::{Compact, FromTree, IntoTree, MaxVec, Value};
use generic_array::{ArrayLength, GenericArray};
use primitive_types::{H256, H512};
use std::any::Any;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::marker::PhantomData;
use typenum::*;
use primitive_types::U256 as Uint;
use vecarray::VecArray;

/// Hashing and empty convention of the reference.
#[derive(Clone, Copy)]
pub struct Sp { pub h: HF, pub unit: bool }
pub fn sp<C: Cons>() -> Sp { Sp { h: C::h, unit: C::UNIT } }
impl Sp {
	pub fn root(&self, chunks: &[V], limit: Option<u64>) -> V {
		if !self.unit { return mroot(self.h, chunks, limit) }
		let depth = depth_for(limit.unwrap_or(chunks.len() as u64));
		if chunks.is_empty() { return zero() }
		let mut cur = chunks.to_vec();
		for _ in 0..depth { cur = cur.chunks(2).map(|p| (self.h)(&p[0], p.get(1).unwrap_or(&zero()))).collect(); }
		cur[0].clone()
	}
	pub fn mix(&self, x: V, n: u64) -> V { (self.h)(&x, &vlen(n)) }
}

pub trait Ssz: Sized {
	fn gen(r: &mut Rng, d: usize) -> Self;
	fn sroot(&self, s: Sp) -> V;
}
/// Elements that pack into chunks.
pub trait Packs: Sized { fn pk(xs: &[Self]) -> Vec<V>; fn limit(n: u64) -> u64; }

macro_rules! uints { ($($t:ty),*) => { $(
	impl Ssz for $t {
		fn gen(r: &mut Rng, _: usize) -> Self { match r.below(5) { 0 => 0, 1 => <$t>::max_value(), 2 => 1, _ => ((r.next() as u128) << 64 | r.next() as u128) as $t } }
		fn sroot(&self, _: Sp) -> V { vs(&self.to_le_bytes()) }
	}
	impl Packs for $t {
		fn pk(xs: &[Self]) -> Vec<V> { pack(&xs.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect::<Vec<u8>>()) }
		fn limit(n: u64) -> u64 { ((n as u128 * std::mem::size_of::<$t>() as u128 + 31) / 32) as u64 }
	}
)* } }
uints!(u8, u16, u32, u64, u128);
impl Ssz for bool { fn gen(r: &mut Rng, _: usize) -> Self { r.chance(1, 2) } fn sroot(&self, _: Sp) -> V { vs(&[*self as u8]) } }
impl Packs for bool {
	fn pk(xs: &[Self]) -> Vec<V> {
		let mut b = vec![0u8; (xs.len() + 7) / 8];
		for (i, x) in xs.iter().enumerate() { if *x { b[i / 8] |= 1 << (i % 8) } }
		pack(&b)
	}
	fn limit(n: u64) -> u64 { ((n as u128 + 255) / 256) as u64 }
}
thread_local! { static POOL: std::cell::RefCell<Vec<V>> = std::cell::RefCell::new(vec![]); }
/// Hashes that values are drawn from, for the rest of the case.
pub fn pool(x: Vec<V>) { POOL.with(|p| *p.borrow_mut() = x) }
fn pooled(r: &mut Rng) -> Option<V> { POOL.with(|p| { let p = p.borrow(); if !p.is_empty() && r.chance(1, 3) { Some(r.pick(&p[..]).clone()) } else { None } }) }
fn le(x: &Uint) -> [u8; 32] { let mut b = [0u8; 32]; for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&x.0[i].to_le_bytes()); } b }
impl Ssz for Uint {
	fn gen(r: &mut Rng, _: usize) -> Self { if let Some(x) = pooled(r) { return Uint::from_little_endian(bytes(&x)) } match r.below(4) { 0 => Uint([0; 4]), 1 => Uint([r.below(9), 0, 0, 0]), 2 => Uint([0, 0, 0, r.next()]), _ => Uint([r.next(), r.next(), r.next(), r.next()]) } }
	fn sroot(&self, _: Sp) -> V { v(le(self)) }
}
impl Packs for Uint { fn pk(xs: &[Self]) -> Vec<V> { xs.iter().map(|x| v(le(x))).collect() } fn limit(n: u64) -> u64 { n } }
impl Ssz for Value { fn gen(r: &mut Rng, _: usize) -> Self { if let Some(x) = pooled(r) { return x } if r.chance(1, 5) { zero() } else { vs(&r.bytes(32)) } } fn sroot(&self, _: Sp) -> V { self.clone() } }
impl Ssz for H256 { fn gen(r: &mut Rng, d: usize) -> Self { Value::gen(r, d).0 } fn sroot(&self, _: Sp) -> V { Value(*self) } }
impl Ssz for H512 {
	fn gen(r: &mut Rng, _: usize) -> Self { let mut x = H512::default(); let mut b = r.bytes(64); for h in b.chunks_mut(32) { if let Some(x) = pooled(r) { h.copy_from_slice(bytes(&x)); } } let n = if r.chance(1, 4) { 32 } else { 64 }; x.as_bytes_mut()[..n].copy_from_slice(&b[..n]); x }
	fn sroot(&self, s: Sp) -> V { s.root(&pack(self.as_bytes()), None) }
}
impl Ssz for () { fn gen(_: &mut Rng, _: usize) -> Self {} fn sroot(&self, _: Sp) -> V { zero() } }
impl<T: Ssz> Ssz for Option<T> {
	fn gen(r: &mut Rng, d: usize) -> Self { if r.chance(1, 3) { None } else { Some(T::gen(r, d + 1)) } }
	fn sroot(&self, s: Sp) -> V { match self { None => s.mix(zero(), 0), Some(x) => s.mix(x.sroot(s), 1) } }
}
impl<T: Ssz> Ssz for Box<T> { fn gen(r: &mut Rng, d: usize) -> Self { Box::new(T::gen(r, d)) } fn sroot(&self, s: Sp) -> V { (**self).sroot(s) } }
macro_rules! tup { ($($t:ident . $i:tt),+) => {
	impl<$($t: Ssz),+> Ssz for ($($t,)+) { fn gen(r: &mut Rng, d: usize) -> Self { ($($t::gen(r, d + 1),)+) } fn sroot(&self, s: Sp) -> V { s.root(&[$(self.$i.sroot(s)),+], None) } }
} }
tup!(A.0, B.1); tup!(A.0, B.1, C.2); tup!(A.0, B.1, C.2, D.3); tup!(A.0, B.1, C.2, D.3, E.4); tup!(A.0, B.1, C.2, D.3, E.4, F.5);
tup!(A.0, B.1, C.2, D.3, E.4, F.5, G.6); tup!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7); tup!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8);
fn many<T: Ssz>(r: &mut Rng, d: usize, n: usize) -> Vec<T> {
	// runs of equal elements make equal subtrees
	if n > 0 && r.chance(1, 6) { let mut v: Vec<T> = vec![]; let mut seed = r.clone(); r.next(); for _ in 0..n { let mut q = seed.clone(); v.push(T::gen(&mut q, d + 1)); } seed.next(); return v }
	(0..n).map(|_| T::gen(r, d + 1)).collect()
}
fn vlenr(r: &mut Rng, d: usize) -> usize { r.len(match d { 0 => 70, 1 => 12, _ => 5 }) }
fn roots<T: Ssz>(xs: &[T], s: Sp) -> Vec<V> { xs.iter().map(|x| x.sroot(s)).collect() }
impl<T: Ssz, const N: usize> Ssz for [T; N] {
	fn gen(r: &mut Rng, d: usize) -> Self { match <[T; N]>::try_from(many::<T>(r, d, N)) { Ok(x) => x, Err(_) => unreachable!() } }
	fn sroot(&self, s: Sp) -> V { s.root(&roots(&self[..], s), None) }
}
impl<T: Ssz, N: ArrayLength<T>> Ssz for GenericArray<T, N> {
	fn gen(r: &mut Rng, d: usize) -> Self { GenericArray::from_exact_iter(many::<T>(r, d, N::to_usize())).unwrap() }
	fn sroot(&self, s: Sp) -> V { s.root(&roots(&self[..], s), None) }
}
impl<T: Ssz, N: Unsigned> Ssz for VecArray<T, N> {
	fn gen(r: &mut Rng, d: usize) -> Self { match VecArray::try_from(many::<T>(r, d, N::to_usize())) { Ok(x) => x, Err(_) => unreachable!() } }
	fn sroot(&self, s: Sp) -> V { s.root(&roots(&self[..], s), None) }
}
impl<T: Ssz> Ssz for Vec<T> {
	fn gen(r: &mut Rng, d: usize) -> Self { let n = vlenr(r, d); many(r, d, n) }
	fn sroot(&self, s: Sp) -> V { s.mix(s.root(&roots(self, s), None), self.len() as u64) }
}
fn maxlen(r: &mut Rng, d: usize, m: u64) -> usize { if r.chance(1, 4) { m.min(600) as usize } else { (vlenr(r, d) as u64).min(m) as usize } }
impl<T: Ssz, N: Unsigned> Ssz for MaxVec<T, N> {
	fn gen(r: &mut Rng, d: usize) -> Self { let mut n = maxlen(r, d, N::to_u64()); if d > 0 { n = n.min(12) } MaxVec::from(many(r, d, n)) }
	fn sroot(&self, s: Sp) -> V { s.mix(s.root(&roots(&self.0, s), Some(N::to_u64())), self.0.len() as u64) }
}
impl<T: Packs + Ssz, N: ArrayLength<T>> Ssz for Compact<GenericArray<T, N>> { fn gen(r: &mut Rng, d: usize) -> Self { Compact(GenericArray::gen(r, d)) } fn sroot(&self, s: Sp) -> V { s.root(&T::pk(&self.0[..]), None) } }
impl<T: Packs + Ssz, N: Unsigned> Ssz for Compact<VecArray<T, N>> { fn gen(r: &mut Rng, d: usize) -> Self { Compact(VecArray::gen(r, d)) } fn sroot(&self, s: Sp) -> V { s.root(&T::pk(&self.0[..]), None) } }
impl<T: Packs + Ssz, N: Unsigned> Ssz for Compact<MaxVec<T, N>> {
	fn gen(r: &mut Rng, d: usize) -> Self { let n = maxlen(r, d, N::to_u64()); Compact(MaxVec::from(many(r, d + 1, n))) }
	fn sroot(&self, s: Sp) -> V { s.mix(s.root(&T::pk(&(self.0).0), Some(T::limit(N::to_u64()))), (self.0).0.len() as u64) }
}

// ---- derived types

macro_rules! st { ($n:ident { $($f:ident : $t:ty),* }) => {
	#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
	pub struct $n { $(pub $f: $t),* }
	impl Ssz for $n { fn gen(r: &mut Rng, d: usize) -> Self { $n { $($f: <$t>::gen(r, d + 1)),* } } fn sroot(&self, s: Sp) -> V { s.root(&[$(self.$f.sroot(s)),*], None) } }
} }
st!(S1 { a: u64 });
st!(S2 { a: u16, b: Vec<u8> });
st!(S3 { a: bool, b: Uint, c: Option<u32> });
st!(S4 { z: u8, y: S2, x: (u8, u16), w: Box<S1> });
st!(S5 { a: u8, b: u16, c: u32, d: u64, e: u128 });
st!(S7 { a: Vec<S2>, b: H256, c: [u16; 3], d: (), e: Option<S1>, f: MaxVec<u32, U6>, g: bool });
st!(S8 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8 });
st!(S9 { a: u8, b: u16, c: u8, d: S3, e: u8, f: H512, g: u8, h: u8, i: Vec<Option<u16>> });
st!(S17 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8, p: u8, q: u64 });

#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub struct U0s;
impl Ssz for U0s { fn gen(_: &mut Rng, _: usize) -> Self { U0s } fn sroot(&self, _: Sp) -> V { zero() } }
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub struct T1s(pub Vec<u16>);
impl Ssz for T1s { fn gen(r: &mut Rng, d: usize) -> Self { T1s(Vec::gen(r, d)) } fn sroot(&self, s: Sp) -> V { self.0.sroot(s) } }
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub struct T3s(pub u64, #[bm(compact)] pub MaxVec<u8, U40>, pub S1);
impl Ssz for T3s {
	fn gen(r: &mut Rng, d: usize) -> Self { T3s(u64::gen(r, d), Compact::<MaxVec<u8, U40>>::gen(r, d).0, S1::gen(r, d)) }
	fn sroot(&self, s: Sp) -> V { s.root(&[self.0.sroot(s), Compact(self.1.clone()).sroot(s), self.2.sroot(s)], None) }
}
/// Generic struct, compact and plain fields of the same shape.
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub struct Cont<N: ArrayLength<u64> + ArrayLength<bool>, M: Unsigned> {
	pub a: u32,
	#[bm(compact)] pub b: GenericArray<u64, N>,
	#[bm(compact)] pub c: MaxVec<u16, M>,
	pub d: GenericArray<u64, N>,
	pub e: MaxVec<u16, M>,
	/// Behind another attribute.
	#[bm(compact)] pub f: GenericArray<bool, N>,
	#[bm(compact)] pub g: MaxVec<Uint, M>,
}
impl<N: ArrayLength<u64> + ArrayLength<bool>, M: Unsigned + Clone> Ssz for Cont<N, M> where <N as ArrayLength<u64>>::ArrayType: Clone {
	fn gen(r: &mut Rng, d: usize) -> Self {
		Cont { a: u32::gen(r, d), b: GenericArray::gen(r, d), c: Compact::<MaxVec<u16, M>>::gen(r, d).0, d: GenericArray::gen(r, d), e: MaxVec::gen(r, d), f: GenericArray::gen(r, d), g: Compact::<MaxVec<Uint, M>>::gen(r, d).0 }
	}
	fn sroot(&self, s: Sp) -> V {
		let lst = |p: Vec<V>, lim: u64, n: usize| s.mix(s.root(&p, Some(lim)), n as u64);
		s.root(&[self.a.sroot(s), s.root(&u64::pk(&self.b[..]), None), lst(u16::pk(&self.c.0), u16::limit(M::to_u64()), self.c.len()),
			s.root(&roots(&self.d[..], s), None), self.e.sroot(s), s.root(&bool::pk(&self.f[..]), None), lst(Uint::pk(&self.g.0), M::to_u64(), self.g.len())], None)
	}
}
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub enum E1 { Only(u8) }
impl Ssz for E1 { fn gen(r: &mut Rng, d: usize) -> Self { E1::Only(u8::gen(r, d)) } fn sroot(&self, s: Sp) -> V { let E1::Only(x) = self; s.mix(x.sroot(s), 0) } }
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub enum E5 { A, B(u64), C(u8, Vec<u16>, bool), D { x: Uint, y: Option<u8> }, E(#[bm(compact)] MaxVec<u64, U9>, u8) }
impl Ssz for E5 {
	fn gen(r: &mut Rng, d: usize) -> Self {
		match r.below(5) { 0 => E5::A, 1 => E5::B(u64::gen(r, d)), 2 => E5::C(u8::gen(r, d), Vec::gen(r, d + 1), bool::gen(r, d)), 3 => E5::D { x: Uint::gen(r, d), y: Option::gen(r, d) }, _ => E5::E(Compact::<MaxVec<u64, U9>>::gen(r, d).0, u8::gen(r, d)) }
	}
	fn sroot(&self, s: Sp) -> V {
		match self {
			E5::A => s.mix(zero(), 0), E5::B(x) => s.mix(x.sroot(s), 1), E5::C(x, y, z) => s.mix(s.root(&[x.sroot(s), y.sroot(s), z.sroot(s)], None), 2),
			E5::D { x, y } => s.mix(s.root(&[x.sroot(s), y.sroot(s)], None), 3), E5::E(x, y) => s.mix(s.root(&[Compact(x.clone()).sroot(s), y.sroot(s)], None), 4),
		}
	}
}
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub enum EN { V0, V1, V2(E5), V3 { #[bm(compact)] bits: GenericArray<bool, U9>, n: u8 }, V4, V5, V6(S2, S2, S1), V7, V8, V9 { only: H256 }, V10, V11(u8) }
impl Ssz for EN {
	fn gen(r: &mut Rng, d: usize) -> Self {
		match r.below(12) { 0 => EN::V0, 1 => EN::V1, 2 => EN::V2(E5::gen(r, d)), 3 => EN::V3 { bits: GenericArray::gen(r, d), n: u8::gen(r, d) }, 4 => EN::V4, 5 => EN::V5, 6 => EN::V6(S2::gen(r, d + 1), S2::gen(r, d + 1), S1::gen(r, d)), 7 => EN::V7, 8 => EN::V8, 9 => EN::V9 { only: H256::gen(r, d) }, 10 => EN::V10, _ => EN::V11(u8::gen(r, d)) }
	}
	fn sroot(&self, s: Sp) -> V {
		match self {
			EN::V0 => s.mix(zero(), 0), EN::V1 => s.mix(zero(), 1), EN::V2(x) => s.mix(x.sroot(s), 2), EN::V3 { bits, n } => s.mix(s.root(&[s.root(&bool::pk(&bits[..]), None), n.sroot(s)], None), 3),
			EN::V4 => s.mix(zero(), 4), EN::V5 => s.mix(zero(), 5), EN::V6(a, b, c) => s.mix(s.root(&[a.sroot(s), b.sroot(s), c.sroot(s)], None), 6), EN::V7 => s.mix(zero(), 7), EN::V8 => s.mix(zero(), 8),
			EN::V9 { only } => s.mix(only.sroot(s), 9), EN::V10 => s.mix(zero(), 10), EN::V11(x) => s.mix(x.sroot(s), 11),
		}
	}
}
/// Variants are numbered by position, whatever numbers the language gives them.
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub enum ED { A = 7, B = 2, C = 0, D, E = 900 }
impl Ssz for ED {
	fn gen(r: &mut Rng, _: usize) -> Self { match r.below(5) { 0 => ED::A, 1 => ED::B, 2 => ED::C, 3 => ED::D, _ => ED::E } }
	fn sroot(&self, s: Sp) -> V { s.mix(zero(), match self { ED::A => 0, ED::B => 1, ED::C => 2, ED::D => 3, ED::E => 4 }) }
}
/// A single field which is compact, and its own attributes around it.
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub struct C1 { #[allow(dead_code)] #[bm(compact)] #[doc(hidden)] pub only: MaxVec<u32, U40> }
impl Ssz for C1 {
	fn gen(r: &mut Rng, d: usize) -> Self { C1 { only: Compact::<MaxVec<u32, U40>>::gen(r, d).0 } }
	fn sroot(&self, s: Sp) -> V { Compact(self.only.clone()).sroot(s) }
}
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub enum EG<T> { N, L(T), P { a: T, b: T } }
impl<T: Ssz> Ssz for EG<T> {
	fn gen(r: &mut Rng, d: usize) -> Self { match r.below(3) { 0 => EG::N, 1 => EG::L(T::gen(r, d + 1)), _ => EG::P { a: T::gen(r, d + 1), b: T::gen(r, d + 1) } } }
	fn sroot(&self, s: Sp) -> V { match self { EG::N => s.mix(zero(), 0), EG::L(x) => s.mix(x.sroot(s), 1), EG::P { a, b } => s.mix(s.root(&[a.sroot(s), b.sroot(s)], None), 2) } }
}

// ---- erased access

pub trait AnyVal: Debug {
	fn into_inh(&self, db: &mut Dyn<Inh>) -> Res<V>;
	fn into_512(&self, db: &mut Dyn<Inh512>) -> Res<V>;
	fn into_unit(&self, db: &mut Dyn<Unit>) -> Res<V>;
	fn noop_inh(&self) -> Option<V>;
	fn noop_512(&self) -> Option<V>;
	fn noop_unit(&self) -> Option<V>;
	fn tree_roots(&self) -> (H256, H256);
	fn aroot(&self, s: Sp) -> V;
	fn same(&self, o: &dyn AnyVal) -> bool;
	fn any(&self) -> &dyn Any;
}
impl<T: Ssz + IntoTree + FromTree + Debug + PartialEq + 'static> AnyVal for T {
	fn into_inh(&self, db: &mut Dyn<Inh>) -> Res<V> { self.into_tree(&mut DbRef::<Inh>(db)) }
	fn into_512(&self, db: &mut Dyn<Inh512>) -> Res<V> { self.into_tree(&mut DbRef::<Inh512>(db)) }
	fn into_unit(&self, db: &mut Dyn<Unit>) -> Res<V> { self.into_tree(&mut DbRef::<Unit>(db)) }
	fn noop_inh(&self) -> Option<V> { self.into_tree(&mut bm::NoopBackend::<Inh>::default()).ok() }
	fn noop_512(&self) -> Option<V> { self.into_tree(&mut bm::NoopBackend::<Inh512>::default()).ok() }
	fn noop_unit(&self) -> Option<V> { self.into_tree(&mut bm::NoopBackend::<Unit>::default()).ok() }
	fn tree_roots(&self) -> (H256, H256) { (bm_le::tree_root::<crate::digs::Sha256, _>(self), bm_le::tree_root::<crate::digs::Sha512Trunc256, _>(self)) }
	fn aroot(&self, s: Sp) -> V { self.sroot(s) }
	fn same(&self, o: &dyn AnyVal) -> bool { o.any().downcast_ref::<T>().map(|x| x == self).unwrap_or(false) }
	fn any(&self) -> &dyn Any { self }
}
pub trait TyT: Send + Sync {
	fn name(&self) -> &'static str;
	fn gen(&self, r: &mut Rng) -> Box<dyn AnyVal>;
	fn dec_inh(&self, root: &V, db: &mut Dyn<Inh>) -> Res<Box<dyn AnyVal>>;
	fn dec_512(&self, root: &V, db: &mut Dyn<Inh512>) -> Res<Box<dyn AnyVal>>;
	fn dec_unit(&self, root: &V, db: &mut Dyn<Unit>) -> Res<Box<dyn AnyVal>>;
}
struct TyW<T>(PhantomData<fn() -> T>, &'static str);
impl<T: Ssz + IntoTree + FromTree + Debug + PartialEq + 'static> TyT for TyW<T> {
	fn name(&self) -> &'static str { self.1 }
	fn gen(&self, r: &mut Rng) -> Box<dyn AnyVal> { Box::new(T::gen(r, 0)) }
	fn dec_inh(&self, root: &V, db: &mut Dyn<Inh>) -> Res<Box<dyn AnyVal>> { Ok(Box::new(T::from_tree(root, &mut DbRef::<Inh>(db))?)) }
	fn dec_512(&self, root: &V, db: &mut Dyn<Inh512>) -> Res<Box<dyn AnyVal>> { Ok(Box::new(T::from_tree(root, &mut DbRef::<Inh512>(db))?)) }
	fn dec_unit(&self, root: &V, db: &mut Dyn<Unit>) -> Res<Box<dyn AnyVal>> { Ok(Box::new(T::from_tree(root, &mut DbRef::<Unit>(db))?)) }
}
macro_rules! tys { ($($t:ty;)*) => { vec![$(Box::new(TyW::<$t>(PhantomData, stringify!($t))) as Box<dyn TyT>),*] } }
type K256 = Sum<U256, U1>;
#[cfg(not(feature = "toy"))]
pub type BigMax = typenum::U1099511627776;
#[cfg(feature = "toy")]
pub type BigMax = typenum::U16777216;
pub fn types() -> &'static [Box<dyn TyT>] {
	static T: std::sync::OnceLock<Vec<Box<dyn TyT>>> = std::sync::OnceLock::new();
	T.get_or_init(|| tys![
		bool; u8; u16; u32; u64; u128; Uint; H256; H512; Value; ();
		Option<u64>; Option<H256>; Option<Option<u8>>; Option<Vec<u16>>; Option<()>; Box<u32>; Box<Option<Uint>>; Option<Box<H512>>;
		(u8, u16); (u8, bool, Uint); (u64, (u8, u8), Vec<u8>, ()); (u8, u8, u8, u8, u8); (u16, H256, u8, bool, u64, Option<u8>);
		(u8, u16, u32, u64, u128, Uint, bool); (u8, u8, u8, u8, u8, u8, u8, Vec<u32>); (bool, u8, u16, u32, u64, u128, Uint, H256, H512);
		((u8, u16), (u32, (u64, u128)));
		[u64; 1]; [u16; 2]; [u8; 3]; [bool; 4]; [bool; 5]; [Uint; 6]; [u128; 7]; [H256; 8]; [u8; 9]; [u16; 10]; [u32; 11]; [u64; 12]; [u8; 13]; [u16; 14]; [u32; 15]; [u64; 16];
		[u32; 17]; [u8; 18]; [u16; 19]; [u32; 20]; [u64; 21]; [u8; 22]; [u16; 23]; [u32; 24]; [u64; 25]; [u8; 26]; [u16; 27]; [u32; 28]; [u64; 29]; [u8; 30]; [u128; 31]; [u64; 32];
		[Option<u16>; 3]; [(u8, u64); 5];
		GenericArray<u8, U0>; GenericArray<u64, U3>; GenericArray<Vec<u8>, U5>; GenericArray<H256, U9>; GenericArray<u8, U33>;
		VecArray<u32, U4>; VecArray<Vec<u16>, U3>; VecArray<u8, U65>; VecArray<u8, U1>;
		Vec<u8>; Vec<u16>; Vec<bool>; Vec<Uint>; Vec<Vec<u8>>; Vec<Option<u32>>; Vec<(u8, u64)>; Vec<H256>; Vec<Value>; Vec<H512>; Vec<S2>; Vec<Vec<Vec<u16>>>; Vec<()>;
		MaxVec<u8, U0>; MaxVec<u8, U1>; MaxVec<u16, U5>; MaxVec<u64, U8>; MaxVec<Vec<u8>, U3>; MaxVec<Uint, U33>; MaxVec<u32, U1048576>; MaxVec<u64, BigMax>; MaxVec<MaxVec<u8, U4>, U7>; MaxVec<S3, U100>; MaxVec<bool, U2>;
		Compact<GenericArray<u8, U33>>; Compact<GenericArray<u8, U0>>; Compact<GenericArray<u16, U17>>; Compact<GenericArray<u32, U8>>; Compact<GenericArray<u64, U4>>; Compact<GenericArray<u64, U5>>; Compact<GenericArray<u128, U3>>;
		Compact<GenericArray<bool, U9>>; Compact<GenericArray<bool, U256>>; Compact<GenericArray<Uint, U5>>; Compact<GenericArray<u8, U100>>;
		Compact<VecArray<u32, U20>>; Compact<VecArray<bool, K256>>; Compact<VecArray<u128, U2>>; Compact<VecArray<Uint, U3>>; Compact<VecArray<u16, U16>>; Compact<VecArray<u64, U1>>; Compact<VecArray<u8, U64>>;
		Compact<MaxVec<bool, U10>>; Compact<MaxVec<bool, U256>>; Compact<MaxVec<bool, K256>>; Compact<MaxVec<bool, U1024>>; Compact<MaxVec<bool, BigMax>>; Compact<MaxVec<u8, U5>>; Compact<MaxVec<u8, U32>>; Compact<MaxVec<u8, U33>>;
		Compact<MaxVec<u16, U100>>; Compact<MaxVec<u32, U9>>; Compact<MaxVec<u64, U5>>; Compact<MaxVec<u64, BigMax>>; Compact<MaxVec<u128, U7>>; Compact<MaxVec<Uint, U9>>; Compact<MaxVec<Uint, U1048576>>; Compact<MaxVec<u8, U0>>;
		S1; S2; S3; S4; S5; S7; S8; S9; S17; U0s; T1s; T3s; Cont<U4, U5>; Cont<U1, U64>; E1; ED; C1; Vec<C1>; Option<ED>; E5; EN; EG<u8>; EG<Vec<u32>>; EG<EG<S1>>; Vec<E5>; MaxVec<EN, U20>; Option<E5>; (E1, EN); EB; Vec<EB>;
	])
}


/// Per-construct access to the registry.
pub trait TyC: Cons {
	fn into(x: &dyn AnyVal, db: &mut Dyn<Self>) -> Res<V>;
	fn dec(ty: usize, root: &V, db: &mut Dyn<Self>) -> Res<Box<dyn AnyVal>>;
	fn noop(x: &dyn AnyVal) -> Option<V>;
	fn tcount() -> usize { types().len() }
	fn tname(ty: usize) -> &'static str { types()[ty].name() }
	fn tgen(ty: usize, r: &mut Rng) -> Box<dyn AnyVal> { types()[ty].gen(r) }
}
impl TyC for Inh {
	fn into(x: &dyn AnyVal, db: &mut Dyn<Self>) -> Res<V> { x.into_inh(db) }
	fn dec(ty: usize, root: &V, db: &mut Dyn<Self>) -> Res<Box<dyn AnyVal>> { types()[ty].dec_inh(root, db) }
	fn noop(x: &dyn AnyVal) -> Option<V> { x.noop_inh() }
}
impl TyC for Inh512 {
	fn into(x: &dyn AnyVal, db: &mut Dyn<Self>) -> Res<V> { x.into_512(db) }
	fn dec(ty: usize, root: &V, db: &mut Dyn<Self>) -> Res<Box<dyn AnyVal>> { types()[ty].dec_512(root, db) }
	fn noop(x: &dyn AnyVal) -> Option<V> { x.noop_512() }
}
impl TyC for Unit {
	fn into(x: &dyn AnyVal, db: &mut Dyn<Self>) -> Res<V> { x.into_unit(db) }
	fn dec(ty: usize, root: &V, db: &mut Dyn<Self>) -> Res<Box<dyn AnyVal>> { types()[ty].dec_unit(root, db) }
	fn noop(x: &dyn AnyVal) -> Option<V> { x.noop_unit() }
}
