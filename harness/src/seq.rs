//! One dynamic interface over all sequence kinds of bm.
use crate::db::*;
use crate::model::*;
use bm::{Dangling, Leak, List, Owned, PackedList, PackedVector, Raw, RootStatus, Sequence, Tree, Vector};
use generic_array::{ArrayLength, GenericArray};
use std::marker::PhantomData;
use typenum::U32;

pub trait SeqT<C: Cons> {
	fn len(&self) -> usize;
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Res<Vec<u8>>;
	fn set(&mut self, db: &mut Dyn<C>, i: usize, x: &[u8]) -> Res<()>;
	fn push(&mut self, db: &mut Dyn<C>, x: &[u8]) -> Res<()>;
	fn pop(&mut self, db: &mut Dyn<C>) -> Res<Option<Vec<u8>>>;
	fn root(&self) -> V;
	fn release(self: Box<Self>, db: &mut Dyn<C>) -> Res<()>;
	/// Second handle on the same tree through its metadata.
	fn copy(&self) -> Box<dyn SeqT<C>>;
	/// Save and reopen. Returns None when `how` does not apply to the kind.
	fn reopen(self: Box<Self>, db: &mut Dyn<C>, how: u64, max: Option<u64>) -> Res<(Box<dyn SeqT<C>>, &'static str)>;
	/// Non-owning handle with the same content.
	fn dangling(&self) -> Box<dyn SeqT<C>>;
	/// Maximum, current maximum and depth, where the kind tells.
	fn shape(&self) -> Option<(Option<u64>, u64, usize)> { None }
}

pub struct VecW<Q: RootStatus, C: Cons>(pub Vector<Q, C>);
pub struct ListW<Q: RootStatus, C: Cons>(pub List<Q, C>);
pub struct PVecW<Q: RootStatus, C: Cons, N: ArrayLength<u8>>(pub PackedVector<Q, C, GenericArray<u8, N>, U32, N>);
pub struct PListW<Q: RootStatus, C: Cons, N: ArrayLength<u8>>(pub PackedList<Q, C, GenericArray<u8, N>, U32, N>, PhantomData<N>);

impl<Q: RootStatus + 'static, C: Cons> SeqT<C> for VecW<Q, C> {
	fn len(&self) -> usize { Sequence::len(&self.0) }
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Res<Vec<u8>> { self.0.get(db, i).map(|x| bytes(&x).to_vec()) }
	fn set(&mut self, db: &mut Dyn<C>, i: usize, x: &[u8]) -> Res<()> { self.0.set(db, i, vs(x)) }
	fn push(&mut self, db: &mut Dyn<C>, x: &[u8]) -> Res<()> { self.0.push(db, vs(x)) }
	fn pop(&mut self, db: &mut Dyn<C>) -> Res<Option<Vec<u8>>> { self.0.pop(db).map(|o| o.map(|x| bytes(&x).to_vec())) }
	fn root(&self) -> V { self.0.root() }
	fn release(self: Box<Self>, db: &mut Dyn<C>) -> Res<()> { Tree::drop(self.0, db) }
	fn copy(&self) -> Box<dyn SeqT<C>> { Box::new(VecW(Vector::<Q, C>::from_leaked(self.0.metadata()))) }
	fn reopen(self: Box<Self>, _db: &mut Dyn<C>, how: u64, max: Option<u64>) -> Res<(Box<dyn SeqT<C>>, &'static str)> {
		let len = Sequence::len(&self.0);
		Ok(match how % 4 {
			0 => (Box::new(VecW(Vector::<Q, C>::from_leaked(self.0.metadata()))) as Box<dyn SeqT<C>>, "metadata"),
			1 => (Box::new(VecW(self.0.into_raw().into_vector(len, max))), "into_raw/into_vector"),
			2 => (Box::new(VecW(Vector::from_raw(self.0.into_raw(), len, max))), "into_raw/from_raw"),
			_ => { let m = self.0.into_raw().metadata(); (Box::new(VecW(Raw::<Q, C>::from_leaked(m).into_vector(len, max))), "raw metadata") },
		})
	}
	fn dangling(&self) -> Box<dyn SeqT<C>> { Box::new(VecW(Vector::<Dangling, C>::from_leaked(self.0.metadata()))) }
	fn shape(&self) -> Option<(Option<u64>, u64, usize)> { Some((self.0.max_len(), self.0.current_max_len(), self.0.depth())) }
}
impl<Q: RootStatus + 'static, C: Cons> SeqT<C> for ListW<Q, C> {
	fn len(&self) -> usize { Sequence::len(&self.0) }
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Res<Vec<u8>> { self.0.get(db, i).map(|x| bytes(&x).to_vec()) }
	fn set(&mut self, db: &mut Dyn<C>, i: usize, x: &[u8]) -> Res<()> { self.0.set(db, i, vs(x)) }
	fn push(&mut self, db: &mut Dyn<C>, x: &[u8]) -> Res<()> { self.0.push(db, vs(x)) }
	fn pop(&mut self, db: &mut Dyn<C>) -> Res<Option<Vec<u8>>> { self.0.pop(db).map(|o| o.map(|x| bytes(&x).to_vec())) }
	fn root(&self) -> V { self.0.root() }
	fn release(self: Box<Self>, db: &mut Dyn<C>) -> Res<()> { Tree::drop(self.0, db) }
	fn copy(&self) -> Box<dyn SeqT<C>> { Box::new(ListW(List::<Q, C>::from_leaked(self.0.metadata()))) }
	fn reopen(self: Box<Self>, db: &mut Dyn<C>, how: u64, max: Option<u64>) -> Res<(Box<dyn SeqT<C>>, &'static str)> {
		Ok(match how % 3 {
			0 => (Box::new(ListW(List::<Q, C>::from_leaked(self.0.metadata()))) as Box<dyn SeqT<C>>, "metadata"),
			1 => { let h = self.0.deconstruct(db)?; (Box::new(ListW(List::<Q, C>::reconstruct(h, db, max)?)), "deconstruct/reconstruct") },
			_ => { let h = self.0.into_raw().root(); (Box::new(ListW(List::<Q, C>::reconstruct(h, db, max)?)), "into_raw root/reconstruct") },
		})
	}
	fn dangling(&self) -> Box<dyn SeqT<C>> { Box::new(ListW(List::<Dangling, C>::from_leaked(self.0.metadata()))) }
}
impl<Q: RootStatus + 'static, C: Cons, N: ArrayLength<u8> + 'static> SeqT<C> for PVecW<Q, C, N> {
	fn len(&self) -> usize { Sequence::len(&self.0) }
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Res<Vec<u8>> { self.0.get(db, i).map(|x| x.to_vec()) }
	fn set(&mut self, db: &mut Dyn<C>, i: usize, x: &[u8]) -> Res<()> { self.0.set(db, i, GenericArray::clone_from_slice(x)) }
	fn push(&mut self, db: &mut Dyn<C>, x: &[u8]) -> Res<()> { self.0.push(db, GenericArray::clone_from_slice(x)) }
	fn pop(&mut self, db: &mut Dyn<C>) -> Res<Option<Vec<u8>>> { self.0.pop(db).map(|o| o.map(|x| x.to_vec())) }
	fn root(&self) -> V { self.0.root() }
	fn release(self: Box<Self>, db: &mut Dyn<C>) -> Res<()> { Tree::drop(self.0, db) }
	fn copy(&self) -> Box<dyn SeqT<C>> { Box::new(PVecW::<Q, C, N>(PackedVector::from_leaked(self.0.metadata()))) }
	fn reopen(self: Box<Self>, _db: &mut Dyn<C>, how: u64, max: Option<u64>) -> Res<(Box<dyn SeqT<C>>, &'static str)> {
		let len = Sequence::len(&self.0);
		Ok(match how % 2 {
			0 => (Box::new(PVecW::<Q, C, N>(PackedVector::from_leaked(self.0.metadata()))) as Box<dyn SeqT<C>>, "metadata"),
			_ => (Box::new(PVecW::<Q, C, N>(PackedVector::from_raw(self.0.into_raw(), len, max))), "into_raw/from_raw"),
		})
	}
	fn dangling(&self) -> Box<dyn SeqT<C>> { Box::new(PVecW::<Dangling, C, N>(PackedVector::from_leaked(self.0.metadata()))) }
}
impl<Q: RootStatus + 'static, C: Cons, N: ArrayLength<u8> + 'static> SeqT<C> for PListW<Q, C, N> {
	fn len(&self) -> usize { Sequence::len(&self.0) }
	fn get(&self, db: &mut Dyn<C>, i: usize) -> Res<Vec<u8>> { self.0.get(db, i).map(|x| x.to_vec()) }
	fn set(&mut self, db: &mut Dyn<C>, i: usize, x: &[u8]) -> Res<()> { self.0.set(db, i, GenericArray::clone_from_slice(x)) }
	fn push(&mut self, db: &mut Dyn<C>, x: &[u8]) -> Res<()> { self.0.push(db, GenericArray::clone_from_slice(x)) }
	fn pop(&mut self, db: &mut Dyn<C>) -> Res<Option<Vec<u8>>> { self.0.pop(db).map(|o| o.map(|x| x.to_vec())) }
	fn root(&self) -> V { self.0.root() }
	fn release(self: Box<Self>, db: &mut Dyn<C>) -> Res<()> { Tree::drop(self.0, db) }
	fn copy(&self) -> Box<dyn SeqT<C>> { Box::new(PListW::<Q, C, N>(PackedList::from_leaked(self.0.metadata()), PhantomData)) }
	fn reopen(self: Box<Self>, _db: &mut Dyn<C>, _how: u64, _max: Option<u64>) -> Res<(Box<dyn SeqT<C>>, &'static str)> {
		Ok((Box::new(PListW::<Q, C, N>(PackedList::from_leaked(self.0.metadata()), PhantomData)), "metadata"))
	}
	fn dangling(&self) -> Box<dyn SeqT<C>> { Box::new(PListW::<Dangling, C, N>(PackedList::from_leaked(self.0.metadata()), PhantomData)) }
}

pub const SIZES: [usize; 20] = [1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 24, 31, 32, 33, 40, 48, 64, 65, 96, 100];
macro_rules! by_size {
	($n:expr, $N:ident => $b:expr) => {{
		use typenum::*;
		match $n {
			1 => { type $N = U1; $b }, 2 => { type $N = U2; $b }, 3 => { type $N = U3; $b }, 4 => { type $N = U4; $b },
			5 => { type $N = U5; $b }, 7 => { type $N = U7; $b }, 8 => { type $N = U8; $b }, 12 => { type $N = U12; $b },
			16 => { type $N = U16; $b }, 20 => { type $N = U20; $b }, 24 => { type $N = U24; $b }, 31 => { type $N = U31; $b },
			32 => { type $N = U32; $b }, 33 => { type $N = U33; $b }, 40 => { type $N = U40; $b }, 48 => { type $N = U48; $b },
			64 => { type $N = U64; $b }, 65 => { type $N = U65; $b }, 96 => { type $N = U96; $b }, 100 => { type $N = U100; $b },
			_ => panic!("size"),
		}
	}};
}

/// Create a sequence. A dangling one is a non-owning handle on a freshly created owned one.
pub fn create<C: Cons>(spec: &Spec, db: &mut Dyn<C>) -> Res<Box<dyn SeqT<C>>> {
	let b: Box<dyn SeqT<C>> = match spec.kind {
		Kind::Vector => Box::new(VecW(Vector::<Owned, C>::create(db, spec.init, spec.max)?)),
		Kind::List => Box::new(ListW(List::<Owned, C>::create(db, spec.max)?)),
		Kind::PVector(n) => by_size!(n, NN => Box::new(PVecW::<Owned, C, NN>(PackedVector::create(db, spec.init, spec.max)?))),
		Kind::PList(n) => by_size!(n, NN => Box::new(PListW::<Owned, C, NN>(PackedList::create(db, spec.max)?, PhantomData))),
	};
	Ok(if spec.owned { b } else { b.dangling() })
}
/// Handle on an existing tree.
pub fn open<C: Cons>(spec: &Spec, db: &mut Dyn<C>, root: V, len: usize) -> Res<Box<dyn SeqT<C>>> {
	fn g<C: Cons, Q: RootStatus + 'static>(spec: &Spec, db: &mut Dyn<C>, root: V, len: usize) -> Res<Box<dyn SeqT<C>>> {
		Ok(match spec.kind {
			Kind::Vector => Box::new(VecW(Vector::<Q, C>::from_leaked((root, len, spec.max)))),
			Kind::List => Box::new(ListW(List::<Q, C>::reconstruct(root, db, spec.max)?)),
			Kind::PVector(n) => by_size!(n, NN => Box::new(PVecW::<Q, C, NN>(PackedVector::from_leaked((root, len, spec.max))))),
			Kind::PList(n) => {
				let inner = Raw::<Dangling, C>::from_leaked(root.clone()).get(db, bm::Index::root().left())?.ok_or(bm::Error::CorruptedDatabase)?;
				by_size!(n, NN => Box::new(PListW::<Q, C, NN>(PackedList::from_leaked((root, (inner, len, spec.max))), PhantomData)))
			},
		})
	}
	if spec.owned { g::<C, Owned>(spec, db, root, len) } else { g::<C, Dangling>(spec, db, root, len) }
}

/// What a vector tells of its limits, against what it must.
pub fn wrong_shape(got: (Option<u64>, u64, usize), max: Option<u64>, len: usize) -> Option<String> {
	let cap = max.unwrap_or((len as u64).next_power_of_two());
	let want = (max, cap, depth_for(cap));
	if got == want { None } else { Some(format!("maximum, current maximum and depth at length {} are {:?} instead of {:?}", len, got, want)) }
}
