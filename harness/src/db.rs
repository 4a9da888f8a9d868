//! Monitored backend: event log, online checks, fault injection, call budget.
use crate::model::*;
use bm::{Backend, Construct, ReadBackend, WriteBackend};
use crate::maps::HashMap;

/// Unified backend error.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum EE { Injected(u64), Budget, NotSupported, InMem(String), Erased }
impl From<bm::NoopBackendError> for EE { fn from(_: bm::NoopBackendError) -> Self { EE::NotSupported } }
impl From<bm::InMemoryBackendError> for EE { fn from(e: bm::InMemoryBackendError) -> Self { EE::InMem(format!("{:?}", e)) } }
impl From<()> for EE { fn from(_: ()) -> Self { EE::Erased } }

pub type Dyn<'a, C> = dyn WriteBackend<Construct = C, Error = EE> + 'a;
pub type E = bm::Error<EE>;
pub type Res<X> = Result<X, E>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev { Get(V, Option<(V, V)>), Insert(V, (V, V)), Root(V), Unroot(V), Fault(u64) }

pub struct Mon<B> {
	pub inner: B,
	pub log: Option<Vec<Ev>>,
	pub calls: u64,
	pub fail_at: Option<u64>,
	pub budget: Option<u64>,
	pub gets: u64,
	pub inserts: u64,
	pub roots: u64,
	/// First observed insert whose key is not the hash of its children.
	pub bad_insert: Option<String>,
	pub check_inserts: bool,
}
thread_local! {
	/// When set, a running digest of all calls to monitored backends and their results, and their number.
	pub static CALLS: std::cell::Cell<Option<(u64, u64)>> = std::cell::Cell::new(None);
}
fn call(kind: u64, parts: &[&V]) {
	CALLS.with(|c| if let Some((d, n)) = c.get() {
		let mut d = (d ^ kind).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
		for p in parts { for w in bytes(p).chunks(8) { let mut b = [0; 8]; b.copy_from_slice(w); d = (d ^ u64::from_le_bytes(b)).wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(29); } }
		c.set(Some((d, n + 1)));
	});
}
impl<B> Mon<B> {
	pub fn new(inner: B) -> Self { Mon { inner, log: None, calls: 0, fail_at: None, budget: None, gets: 0, inserts: 0, roots: 0, bad_insert: None, check_inserts: false } }
	fn enter(&mut self) -> Result<(), EE> {
		let n = self.calls;
		crate::infra::work(2);
		self.calls += 1;
		if self.fail_at == Some(n) { if let Some(l) = &mut self.log { l.push(Ev::Fault(n)); } return Err(EE::Injected(n)) }
		if let Some(b) = self.budget { if n >= b { return Err(EE::Budget) } }
		Ok(())
	}
	/// Start counting calls from zero, with an optional failing call.
	pub fn arm(&mut self, fail_at: Option<u64>) { self.calls = 0; self.fail_at = fail_at; }
}
impl<C: Cons, B: Backend<Construct = C>> Backend for Mon<B> { type Construct = C; type Error = EE; }
impl<C: Cons, B: ReadBackend<Construct = C>> ReadBackend for Mon<B> where EE: From<B::Error> {
	fn get(&mut self, key: &V) -> Result<Option<(V, V)>, EE> {
		self.enter()?;
		self.gets += 1;
		let r = self.inner.get(key)?;
		match &r { Some((a, b)) => call(1, &[key, a, b]), None => call(2, &[key]) }
		if let Some(l) = &mut self.log { l.push(Ev::Get(key.clone(), r.clone())); }
		Ok(r)
	}
}
impl<C: Cons, B: WriteBackend<Construct = C>> WriteBackend for Mon<B> where EE: From<B::Error> {
	fn rootify(&mut self, key: &V) -> Result<(), EE> {
		self.enter()?;
		self.roots += 1;
		call(3, &[key]);
		if let Some(l) = &mut self.log { l.push(Ev::Root(key.clone())); }
		Ok(self.inner.rootify(key)?)
	}
	fn unrootify(&mut self, key: &V) -> Result<(), EE> {
		self.enter()?;
		self.roots += 1;
		call(4, &[key]);
		if let Some(l) = &mut self.log { l.push(Ev::Unroot(key.clone())); }
		Ok(self.inner.unrootify(key)?)
	}
	fn insert(&mut self, key: V, value: (V, V)) -> Result<(), EE> {
		self.enter()?;
		self.inserts += 1;
		call(5, &[&key, &value.0, &value.1]);
		if self.check_inserts && C::h(&value.0, &value.1) != key && self.bad_insert.is_none() {
			self.bad_insert = Some(format!("node written under {} but its children {} {} hash to {}", hex(&key), hex(&value.0), hex(&value.1), hex(&C::h(&value.0, &value.1))));
		}
		if let Some(l) = &mut self.log { l.push(Ev::Insert(key.clone(), value.clone())); }
		Ok(self.inner.insert(key, value)?)
	}
}

/// Sized wrapper around a dynamic backend, for functions that need a sized type.
pub struct DbRef<'a, C: Cons>(pub &'a mut Dyn<'a, C>);
impl<'a, C: Cons> Backend for DbRef<'a, C> { type Construct = C; type Error = EE; }
impl<'a, C: Cons> ReadBackend for DbRef<'a, C> {
	fn get(&mut self, key: &V) -> Result<Option<(V, V)>, EE> { self.0.get(key) }
}
impl<'a, C: Cons> WriteBackend for DbRef<'a, C> {
	fn rootify(&mut self, key: &V) -> Result<(), EE> { self.0.rootify(key) }
	fn unrootify(&mut self, key: &V) -> Result<(), EE> { self.0.unrootify(key) }
	fn insert(&mut self, key: V, value: (V, V)) -> Result<(), EE> { self.0.insert(key, value) }
}

/// Gives an error-erasing backend (error type `()`) the unified error type.
pub struct Unify<B>(pub B);
impl<C: Cons, B: Backend<Construct = C>> Backend for Unify<B> { type Construct = C; type Error = EE; }
impl<C: Cons, B: ReadBackend<Construct = C>> ReadBackend for Unify<B> where EE: From<B::Error> {
	fn get(&mut self, key: &V) -> Result<Option<(V, V)>, EE> { Ok(self.0.get(key)?) }
}
impl<C: Cons, B: WriteBackend<Construct = C>> WriteBackend for Unify<B> where EE: From<B::Error> {
	fn rootify(&mut self, key: &V) -> Result<(), EE> { Ok(self.0.rootify(key)?) }
	fn unrootify(&mut self, key: &V) -> Result<(), EE> { Ok(self.0.unrootify(key)?) }
	fn insert(&mut self, key: V, value: (V, V)) -> Result<(), EE> { Ok(self.0.insert(key, value)?) }
}

/// Plain map of nodes with no collection: the harness's own backend.
pub struct MapDb<C> { pub map: HashMap<V, (V, V)>, _c: std::marker::PhantomData<C> }
impl<C> MapDb<C> { pub fn new() -> Self { MapDb { map: HashMap::new(), _c: std::marker::PhantomData } } }
impl<C> Clone for MapDb<C> { fn clone(&self) -> Self { MapDb { map: self.map.clone(), _c: std::marker::PhantomData } } }
impl<C: Construct<Value = V>> Backend for MapDb<C> { type Construct = C; type Error = EE; }
impl<C: Construct<Value = V>> ReadBackend for MapDb<C> { fn get(&mut self, key: &V) -> Result<Option<(V, V)>, EE> { Ok(self.map.get(key).cloned()) } }
impl<C: Construct<Value = V>> WriteBackend for MapDb<C> {
	fn rootify(&mut self, _: &V) -> Result<(), EE> { Ok(()) }
	fn unrootify(&mut self, _: &V) -> Result<(), EE> { Ok(()) }
	fn insert(&mut self, key: V, value: (V, V)) -> Result<(), EE> { self.map.insert(key, value); Ok(()) }
}

pub type InMem<C> = bm::InMemoryBackend<C>;
pub type MemMap = HashMap<V, (Option<(V, V)>, Option<usize>)>;
