//! Independent reference: hashing, structured trees, array models.
use bm_le::Value;
use primitive_types::H256;
use crate::digs::{Digest, Sha256, Sha512Trunc256};
use std::cell::RefCell;
use crate::maps::{HashMap, HashSet};
use std::rc::Rc;

/// Bits of a machine word; what is interpreted for several hosts draws for the smallest of them.
pub const WORD: usize = if cfg!(feature = "toy") { 32 } else { usize::BITS as usize };
/// How many chunks have an index each.
pub const TOPS: u64 = 1 << (WORD - 1);
/// The largest machine word.
pub const TOPW: u64 = u64::MAX >> (64 - WORD);
pub type V = Value;
pub type Inh = bm::InheritedDigestConstruct<Sha256, Value>;
pub type Unit = bm::UnitDigestConstruct<Sha256, Value>;
pub type Inh512 = bm::InheritedDigestConstruct<Sha512Trunc256, Value>;

pub fn v(b: [u8; 32]) -> V { Value(H256::from(b)) }
pub fn vs(b: &[u8]) -> V { let mut r = [0u8; 32]; r[..b.len()].copy_from_slice(b); v(r) }
pub fn vlen(n: u64) -> V { vs(&n.to_le_bytes()) }
pub fn bytes(x: &V) -> &[u8] { x.0.as_ref() }
pub fn zero() -> V { v([0; 32]) }
pub fn hex(x: &V) -> String { bytes(x)[..6].iter().map(|b| format!("{:02x}", b)).collect() }

pub fn hash<D: Digest>(l: &V, r: &V) -> V {
	let mut d = D::new();
	d.input(bytes(l));
	d.input(bytes(r));
	vs(d.result().as_slice())
}
pub type HF = fn(&V, &V) -> V;

pub trait Cons: bm::Construct<Value = Value> + 'static {
	const UNIT: bool;
	const NAME: &'static str;
	fn h(l: &V, r: &V) -> V;
	/// Reference tree of an empty subtree of given depth.
	fn empty(depth: usize) -> Rc<T>;
}
impl Cons for Inh {
	const UNIT: bool = false;
	const NAME: &'static str = "inherited";
	fn h(l: &V, r: &V) -> V { hash::<Sha256>(l, r) }
	fn empty(depth: usize) -> Rc<T> {
		thread_local! { static Z: RefCell<Vec<Rc<T>>> = RefCell::new(vec![T::leaf(zero())]); }
		Z.with(|z| {
			let mut z = z.borrow_mut();
			while z.len() <= depth { let l = z[z.len() - 1].clone(); let n = T::node::<Inh>(l.clone(), l); z.push(n); }
			z[depth].clone()
		})
	}
}
impl Cons for Inh512 {
	const UNIT: bool = false;
	const NAME: &'static str = "inherited512";
	fn h(l: &V, r: &V) -> V { hash::<Sha512Trunc256>(l, r) }
	fn empty(depth: usize) -> Rc<T> {
		let mut c = T::leaf(zero());
		for _ in 0..depth { c = T::node::<Inh512>(c.clone(), c); }
		c
	}
}
impl Cons for Unit {
	const UNIT: bool = true;
	const NAME: &'static str = "unit";
	fn h(l: &V, r: &V) -> V { hash::<Sha256>(l, r) }
	fn empty(_depth: usize) -> Rc<T> { T::leaf(zero()) }
}

/// Structured reference tree.
pub struct T { pub hash: V, pub kids: Option<(Rc<T>, Rc<T>)> }
impl T {
	pub fn leaf(x: V) -> Rc<T> { Rc::new(T { hash: x, kids: None }) }
	pub fn node<C: Cons>(l: Rc<T>, r: Rc<T>) -> Rc<T> { Rc::new(T { hash: C::h(&l.hash, &r.hash), kids: Some((l, r)) }) }
	/// Value at a path (false = left), None when the path leaves the known tree.
	pub fn at(self: &Rc<T>, path: &[bool]) -> Option<Rc<T>> {
		let mut c = self.clone();
		for b in path {
			let n = match &c.kids { Some((l, r)) => if *b { r.clone() } else { l.clone() }, None => return None };
			c = n;
		}
		Some(c)
	}
	/// Functional update; positions never written are default leaves.
	pub fn set<C: Cons>(self: &Rc<T>, path: &[bool], x: Rc<T>) -> Rc<T> {
		if path.is_empty() { return x }
		let (l, r) = match &self.kids { Some((l, r)) => (l.clone(), r.clone()), None => (T::leaf(zero()), T::leaf(zero())) };
		if path[0] { let r2 = r.set::<C>(&path[1..], x); T::node::<C>(l, r2) } else { let l2 = l.set::<C>(&path[1..], x); T::node::<C>(l2, r) }
	}
	/// Collect all nodes: hash -> children (None for leaves, unless seen elsewhere as a node).
	pub fn collect(self: &Rc<T>, out: &mut HashMap<V, Option<(V, V)>>) {
		// by node, not by hash: equal hashes may be expanded in one place and not in another
		fn go(t: &Rc<T>, seen: &mut HashSet<*const T>, out: &mut HashMap<V, Option<(V, V)>>) {
			match &t.kids {
				None => { if !out.contains_key(&t.hash) { out.insert(t.hash.clone(), None); } },
				Some((l, r)) => {
					if !seen.insert(Rc::as_ptr(t)) { return }
					match out.get_mut(&t.hash) { Some(Some(_)) => (), Some(x) => *x = Some((l.hash.clone(), r.hash.clone())), None => { out.insert(t.hash.clone(), Some((l.hash.clone(), r.hash.clone()))); } }
					go(l, seen, out);
					go(r, seen, out);
				},
			}
		}
		go(self, &mut HashSet::new(), out);
	}
}

pub fn depth_for(n: u64) -> usize {
	let mut d = 0;
	while (1u128 << d) < n as u128 { d += 1; }
	d
}
/// Tree over chunks at a depth; absent chunks are empty.
pub fn build<C: Cons>(chunks: &[V], depth: usize) -> Rc<T> {
	if chunks.is_empty() { return C::empty(depth) }
	if depth == 0 { return T::leaf(chunks[0].clone()) }
	let half = if depth - 1 >= WORD - 4 { chunks.len() } else { chunks.len().min(1usize << (depth - 1)) };
	T::node::<C>(build::<C>(&chunks[..half], depth - 1), build::<C>(&chunks[half..], depth - 1))
}
/// Plain merkle root with zero-subtree padding, over any hash.
pub fn mroot(h: HF, chunks: &[V], limit: Option<u64>) -> V {
	let depth = depth_for(limit.unwrap_or(chunks.len() as u64));
	let mut z = zero();
	let mut cur: Vec<V> = chunks.to_vec();
	for _ in 0..depth {
		let mut nx = Vec::with_capacity(cur.len() / 2 + 1);
		for p in cur.chunks(2) { nx.push(h(&p[0], p.get(1).unwrap_or(&z))); }
		cur = nx;
		z = h(&z, &z);
	}
	assert!(cur.len() <= 1, "reference called over limit");
	cur.pop().unwrap_or(z)
}
pub fn pack(b: &[u8]) -> Vec<V> { b.chunks(32).map(vs).collect() }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Vector, List, PVector(usize), PList(usize) }
impl Kind {
	pub fn is_list(&self) -> bool { matches!(self, Kind::List | Kind::PList(_)) }
	pub fn packed(&self) -> bool { matches!(self, Kind::PVector(_) | Kind::PList(_)) }
	pub fn esize(&self) -> usize { match self { Kind::PVector(n) | Kind::PList(n) => *n, _ => 32 } }
}
#[derive(Clone, Debug)]
pub struct Spec { pub kind: Kind, pub owned: bool, pub max: Option<u64>, pub init: usize }

/// Array model of a sequence.
#[derive(Clone)]
pub struct Model { pub spec: Spec, pub elems: Vec<Vec<u8>> }
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Exp<X> { Ok(X), Overflow }
impl Model {
	pub fn new(spec: Spec) -> Self { let e = vec![vec![0u8; spec.kind.esize()]; spec.init]; Model { spec, elems: e } }
	pub fn get(&self, i: usize) -> Exp<Vec<u8>> { self.elems.get(i).map(|x| Exp::Ok(x.clone())).unwrap_or(Exp::Overflow) }
	pub fn set(&mut self, i: usize, x: &[u8]) -> Exp<()> { match self.elems.get_mut(i) { Some(e) => { *e = x.to_vec(); Exp::Ok(()) }, None => Exp::Overflow } }
	pub fn push(&mut self, x: &[u8]) -> Exp<()> {
		if self.spec.max.map(|m| self.elems.len() as u64 >= m).unwrap_or(false) { return Exp::Overflow }
		self.elems.push(x.to_vec());
		Exp::Ok(())
	}
	pub fn pop(&mut self) -> Option<Vec<u8>> { self.elems.pop() }
	pub fn chunks(&self) -> Vec<V> {
		if self.spec.kind.packed() { pack(&self.elems.concat()) } else { self.elems.iter().map(|e| vs(e)).collect() }
	}
	pub fn chunk_limit(&self) -> Option<u64> {
		self.spec.max.map(|m| if self.spec.kind.packed() { ((m as u128 * self.spec.kind.esize() as u128 + 31) / 32) as u64 } else { m })
	}
	pub fn depth(&self) -> usize { depth_for(self.chunk_limit().unwrap_or(self.chunks().len() as u64)) }
	pub fn tree<C: Cons>(&self) -> Rc<T> {
		let items = build::<C>(&self.chunks(), self.depth());
		if self.spec.kind.is_list() { T::node::<C>(items, T::leaf(vlen(self.elems.len() as u64))) } else { items }
	}
}
