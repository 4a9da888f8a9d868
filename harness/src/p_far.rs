//! Sequences of any length up to what indices reach, almost all of it never written: C05, C06, C07, C14.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::seq::*;
use crate::{ensure, fail, ok};
use bm::{Index, Leak, Owned, Raw, Tree};
use std::collections::BTreeMap;

/// How many chunks have an index each.
const TOP: u128 = 1 << (usize::BITS - 1);

/// A length and what of it is not zero.
struct Sparse<C: Cons> { spec: Spec, len: usize, elems: BTreeMap<usize, Vec<u8>>, empty: Vec<V>, _c: std::marker::PhantomData<C> }
impl<C: Cons> Sparse<C> {
	fn new(spec: Spec, len: usize) -> Self {
		let mut empty = vec![zero()];
		for d in 0..64 { let x = C::h(&empty[d], &empty[d]); empty.push(x); }
		Sparse { spec, len, elems: BTreeMap::new(), empty, _c: std::marker::PhantomData }
	}
	fn at(&self, i: usize) -> Vec<u8> { self.elems.get(&i).cloned().unwrap_or_else(|| vec![0; self.spec.kind.esize()]) }
	fn put(&mut self, i: usize, x: &[u8]) { if x.iter().all(|b| *b == 0) { self.elems.remove(&i); } else { self.elems.insert(i, x.to_vec()); } }
	fn count(&self, n: u64) -> u128 { if self.spec.kind.packed() { (n as u128 * self.spec.kind.esize() as u128 + 31) / 32 } else { n as u128 } }
	/// Whether there is room for one more.
	fn room(&self) -> bool {
		if let Some(m) = self.spec.max { return (self.len as u64) < m }
		self.len < usize::MAX && self.count(self.len as u64 + 1) <= TOP
	}
	fn expect(&mut self, op: &Op) -> Out {
		let over = Out::Err(bm::Error::AccessOverflowed);
		match op {
			Op::Get(i) => if *i < self.len { Out::Val(self.at(*i)) } else { over },
			Op::Set(i, x) => if *i < self.len { self.put(*i, x); Out::Unit } else { over },
			Op::Push(x) => if self.room() { let i = self.len; self.len += 1; self.put(i, x); Out::Unit } else { over },
			Op::Pop => if self.len == 0 { Out::Popped(None) } else { self.len -= 1; let x = self.at(self.len); self.elems.remove(&self.len); Out::Popped(Some(x)) },
		}
	}
	fn root(&self) -> V {
		let es = self.spec.kind.esize() as u128;
		let mut chunks: BTreeMap<u128, [u8; 32]> = BTreeMap::new();
		for (i, x) in &self.elems {
			if !self.spec.kind.packed() { let mut b = [0; 32]; b.copy_from_slice(x); chunks.insert(*i as u128, b); continue }
			for (k, b) in x.iter().enumerate() { let a = *i as u128 * es + k as u128; chunks.entry(a / 32).or_insert([0; 32])[(a % 32) as usize] = *b; }
		}
		let limit = self.count(self.spec.max.unwrap_or(self.len as u64));
		let mut depth = 0;
		while (1u128 << depth) < limit { depth += 1; }
		let items = self.range(&chunks, 0, depth);
		if self.spec.kind.is_list() { C::h(&items, &vlen(self.len as u64)) } else { items }
	}
	fn range(&self, chunks: &BTreeMap<u128, [u8; 32]>, lo: u128, depth: usize) -> V {
		if chunks.range(lo..lo + (1 << depth)).next().is_none() { return self.empty[depth].clone() }
		if depth == 0 { return v(chunks[&lo]) }
		C::h(&self.range(chunks, lo, depth - 1), &self.range(chunks, lo + (1 << (depth - 1)), depth - 1))
	}
}

fn near(rng: &mut Rng, n: u128) -> u128 { match rng.below(4) { 0 => n, 1 => n + rng.below(4) as u128, 2 => n.saturating_sub(1 + rng.below(4) as u128), _ => n.saturating_sub(rng.below(200) as u128) } }
fn power(rng: &mut Rng) -> u128 { let p = 1u128 << rng.below(usize::BITS as u64); near(rng, p) }

/// `roots`: the root is compared as well. `limits`: mostly at the very end of what there can be.
pub fn far<C: Cons>(ctx: &mut Ctx, packed: bool, roots: bool, limits: bool) -> R {
	let which = ctx.rng.below(4);
	with_db::<C>(which, ctx, |ctx, db| {
		let kind = gen_kind(&mut ctx.rng, packed);
		let es = kind.esize() as u128;
		// the greatest length that fits
		let edge = if packed { (TOP * 32 / es).min(usize::MAX as u128) } else { TOP };
		let len = if limits && ctx.rng.chance(2, 3) { edge - ctx.rng.below(4) as u128 } else { match ctx.rng.below(4) {
			0 => edge - ctx.rng.below(5) as u128,
			1 => power(&mut ctx.rng),
			2 if packed => { let p = power(&mut ctx.rng); near(&mut ctx.rng, p * 32 / es) },
			_ => (ctx.rng.word() >> ctx.rng.below(30)) as u128,
		} }.min(edge);
		let max = match ctx.rng.below(6) { 0 => Some(edge), 1 => Some(len), 2 => Some(len + ctx.rng.below(4) as u128), 3 => Some(power(&mut ctx.rng)), _ => None }.map(|m| m.max(len).max(1).min(edge) as u64);
		let len = len as usize;
		let spec = Spec { kind, owned: ctx.rng.chance(2, 3), max, init: len };
		let mut m = Sparse::<C>::new(spec.clone(), len);
		ctx.t(70, len as u64 ^ max.unwrap_or(0) ^ (es as u64) << 9, || format!("created {:?}", spec));
		let mut h: Box<dyn SeqT<C>> = if kind.is_list() {
			// as a vector of that length with the length mixed in
			let inner = Spec { kind: match kind { Kind::PList(n) => Kind::PVector(n), _ => Kind::Vector }, owned: true, max, init: len };
			let x = ok!(create::<C>(&inner, db), "creating {:?}", inner);
			let mut r = Raw::<Owned, C>::default();
			ok!(r.set(db, Index::root().left(), x.root()), "setting the items");
			ok!(r.set(db, Index::root().right(), vlen(len as u64)), "setting the length");
			ok!(x.release(db), "dropping {:?}", inner);
			let root = r.root();
			r.metadata();
			ok!(open::<C>(&spec, db, root, len), "opening {:?}", spec)
		} else { ok!(create::<C>(&spec, db), "creating {:?}", spec) };
		ensure!(h.len() == len, "{:?}: created with length {}", spec, h.len());
		let n = ctx.rng.range(8, 40);
		for k in 0..n {
			let len = m.len;
			let i = match ctx.rng.below(10) {
				0 => 0,
				1 => len.saturating_sub(1),
				2 | 3 => (power(&mut ctx.rng) as u64 as usize).min(len.saturating_sub(1)),
				4 if packed => { let p = power(&mut ctx.rng) * 32 / es; (p.min(usize::MAX as u128) as usize).min(len.saturating_sub(1)) },
				5 | 6 if !m.elems.is_empty() => { let j = ctx.rng.us(m.elems.len()); m.elems.keys().nth(j).unwrap().wrapping_add(ctx.rng.us(3)).wrapping_sub(1).min(len.saturating_sub(1)) },
				7 => match ctx.rng.below(4) { 0 => len, 1 => len.saturating_add(1), 2 => usize::MAX, _ => len.saturating_add(ctx.rng.us(300)) },
				_ => ctx.rng.word() % len.max(1),
			};
			let x = Gen::val(&mut ctx.rng, es as usize, &[]);
			let op = match ctx.rng.below(12) { 0..=3 => Op::Set(i, x), 4..=6 => Op::Get(i), 7..=9 => Op::Push(x), _ => Op::Pop };
			let (before, had) = (h.root(), m.len);
			let want = m.expect(&op);
			let got = apply(&mut *h, db, &op);
			got.obs(ctx);
			ctx.t(op.kind(), had as u64, || format!("{} -> {} (len {})", op.short(), got.short(), had));
			ensure!(got == want, "{:?}: {} at length {} returned {} instead of {}", spec, op.short(), had, got.short(), want.short());
			ensure!(h.len() == m.len, "{:?}: after {} at length {} the length is {} instead of {}", spec, op.short(), had, h.len(), m.len);
			if let Some(w) = h.shape().and_then(|x| wrong_shape(x, m.spec.max, m.len)) { fail!("{:?}: {}", spec, w) }
			match op { Op::Get(_) => ctx.count("gets", 1), Op::Set(..) => ctx.count("sets", 1), Op::Push(_) => ctx.count("pushes", 1), Op::Pop => ctx.count("pops", 1) }
			if let Out::Err(_) = want {
				ensure!(h.root() == before, "{:?}: refused {} at length {} changed the root", spec, op.short(), had);
				ctx.count("overflow_refusals", 1);
				if let Op::Push(_) = op { if max.is_none() { ctx.count("pushes_past_indices_refused", 1); } }
			}
			if roots && (k % 4 == 3 || ctx.rng.chance(1, 6)) {
				let (g, w) = (h.root(), m.root());
				ctx.observe(bytes(&w));
				ensure!(g == w, "{:?}: root at length {} is {} instead of {}", spec, m.len, hex(&g), hex(&w));
				ctx.count("roots_checked", 1);
			}
			if ctx.rng.chance(1, 12) {
				let how = ctx.rng.next();
				let (x, name) = ok!(h.reopen(db, how, max), "{:?} reopening at length {}", spec, m.len);
				h = x;
				ctx.t(20, how % 12, || format!("reopened through {}", name));
				ensure!(h.len() == m.len, "{:?}: reopened through {} with length {} instead of {}", spec, name, h.len(), m.len);
				ctx.count("reopens", 1);
			}
			if k + 1 == n || ctx.rng.chance(1, 16) {
				// what was written, what is next to it, and what is past the end
				let second = if ctx.rng.chance(1, 2) { h.dangling() } else { h.copy() };
				let mut places: Vec<usize> = vec![0, m.len.saturating_sub(1), m.len, m.len.saturating_add(1), usize::MAX, m.len / 2];
				for j in m.elems.keys() { places.extend(&[*j, j.wrapping_sub(1), j.wrapping_add(1)]); }
				for j in places {
					let w = m.expect(&Op::Get(j));
					for (h, n) in [(&h, ""), (&second, " through a second handle")] {
						match (h.get(db, j), &w) {
							(Ok(g), Out::Val(w)) => ensure!(g == *w, "{:?}: element {} of {} reads {} instead of {}{}", spec, j, m.len, hx(&g), hx(w), n),
							(Err(bm::Error::AccessOverflowed), Out::Err(_)) => (),
							(g, w) => fail!("{:?}: element {} of {} reads as {:?} instead of {}{}", spec, j, m.len, g.map(|x| hx(&x)), w.short(), n),
						}
						ctx.count("elements_checked", 1);
					}
				}
			}
		}
		if roots { let (g, w) = (h.root(), m.root()); ensure!(g == w, "{:?}: root at length {} is {} instead of {}", spec, m.len, hex(&g), hex(&w)); }
		ctx.max("max_far_length_bits", 64 - (m.len as u64).leading_zeros() as u64);
		ctx.count("far_lengths", 1);
		ctx.nontrivial = true;
		if spec.owned && !kind.is_list() { ok!(h.release(db), "dropping {:?}", spec); }
		Ok(())
	})
}
/// Creating with lengths around what fits.
pub fn creations<C: Cons>(ctx: &mut Ctx) -> R {
	let which = ctx.rng.below(4);
	with_db::<C>(which, ctx, |ctx, db| {
		for _ in 0..4 {
			let packed = ctx.rng.chance(1, 2);
			let kind = match gen_kind(&mut ctx.rng, packed) { Kind::List => Kind::Vector, Kind::PList(n) => Kind::PVector(n), k => k };
			let es = kind.esize() as u128;
			let edge = if packed { TOP * 32 / es } else { TOP };
			let len = match ctx.rng.below(4) { 0 => usize::MAX as u128, 1 => edge + ctx.rng.below(3) as u128, 2 => edge - ctx.rng.below(3) as u128, _ => near(&mut ctx.rng, edge) }.min(usize::MAX as u128);
			let max = match ctx.rng.below(4) { 0 => Some(len as u64), 1 => Some(u64::MAX), _ => None };
			let want = max.map(|m| m as u128).unwrap_or(len) <= edge;
			let spec = Spec { kind, owned: true, max, init: len as usize };
			ctx.t(71, len as u64 ^ (es as u64) << 9, || format!("create {:?} -> expected {}", spec, want));
			match create::<C>(&spec, db) {
				Ok(h) => {
					ensure!(want, "{:?}: more than there are indices for was created", spec);
					ensure!(h.len() == len as usize, "{:?}: created with length {}", spec, h.len());
					let m = Sparse::<C>::new(spec.clone(), spec.init);
					ensure!(h.root() == m.root(), "{:?}: created with root {} instead of {}", spec, hex(&h.root()), hex(&m.root()));
					match h.get(db, spec.init) { Err(bm::Error::AccessOverflowed) => (), r => fail!("{:?}: reading at the length gives {:?}", spec, r.map(|x| hx(&x))) }
					let x = ok!(h.get(db, spec.init - 1), "{:?}: reading the last element", spec);
					ensure!(x.iter().all(|b| *b == 0), "{:?}: the last element reads {}", spec, hx(&x));
				},
				Err(bm::Error::InvalidParameter) => ensure!(!want, "{:?}: creation was refused although it can be addressed", spec),
				Err(e) => fail!("{:?}: creation failed with {:?}", spec, e),
			}
			ctx.count(if want { "far_created" } else { "far_creations_refused" }, 1);
		}
		ctx.nontrivial = true;
		Ok(())
	})
}
pub fn any(ctx: &mut Ctx, packed: bool, roots: bool, limits: bool) -> R {
	if ctx.rng.chance(3, 4) { far::<Inh>(ctx, packed, roots, limits) } else { far::<Inh512>(ctx, packed, roots, limits) }
}

/// C17: positions in lists and vectors of any length through partial views.
pub fn positions<C: Cons>(ctx: &mut Ctx) -> R {
	use bm::Dangling;
	use bm_le::{PartialIndex, PartialItem, PartialValue, PartialVec};
	let mut map = MapDb::<C>::new();
	let list = ctx.rng.chance(1, 2);
	let len = match ctx.rng.below(3) { 0 => TOP - ctx.rng.below(3) as u128, 1 => power(&mut ctx.rng), _ => (ctx.rng.word() >> ctx.rng.below(30)) as u128 }.min(TOP) as usize;
	let kind = if list { Kind::List } else { Kind::Vector };
	let spec = Spec { kind, owned: true, max: None, init: len };
	let mut m = Sparse::<C>::new(spec, len);
	let r0 = ok!(create::<C>(&Spec { kind: Kind::Vector, owned: true, max: None, init: len }, &mut map), "creating a vector of {}", len).root();
	let mut raw = Raw::<Dangling, C>::from_leaked(r0);
	if list {
		let mut r = Raw::<Dangling, C>::default();
		ok!(r.set(&mut map, Index::root().left(), raw.root()), "setting the items");
		ok!(r.set(&mut map, Index::root().right(), vlen(len as u64)), "setting the length");
		raw = r;
	}
	ensure!(raw.root() == m.root(), "a vector of {} was created with another root", len);
	let mut depth = list as u32;
	while 1u128 << (depth - list as u32) < len as u128 { depth += 1; }
	// the position of an element has an index of fewer selections than a word has bits
	let reach = depth < usize::BITS;
	ctx.t(80, len as u64, || format!("{:?} of {}", kind, len));
	let mut db = DbRef::<C>(&mut map);
	let mut view = PartialVec::<u64>::new(PartialIndex::root());
	for _ in 0..ctx.rng.range(3, 20) {
		let i = match ctx.rng.below(6) {
			0 => 0,
			1 => len.saturating_sub(1),
			2 => (power(&mut ctx.rng) as u64 as usize).min(len.saturating_sub(1)),
			3 if !m.elems.is_empty() => { let j = ctx.rng.us(m.elems.len()); *m.elems.keys().nth(j).unwrap() },
			4 => *ctx.rng.pick(&[len, len.saturating_add(1), usize::MAX, len.next_power_of_two()]),
			_ => ctx.rng.word() % len.max(1),
		};
		let x = if ctx.rng.chance(1, 8) { 0 } else { ctx.rng.next() };
		let before = raw.root();
		let fresh = ctx.rng.chance(1, 3);
		if fresh { view = PartialVec::<u64>::new(PartialIndex::root()); }
		let mut one = PartialValue::<u64>::new(if list { PartialIndex::root().list(i) } else { PartialIndex::root().vector(i, len) });
		let set = ctx.rng.chance(1, 2);
		let what = format!("{} element {} of a {} of {} through a partial view", if set { "setting" } else { "reading" }, i, if list { "list" } else { "vector" }, len);
		let got: Res<u64> = if set {
			if list && ctx.rng.chance(1, 2) { view.at(i).set(x); view.flush(&mut raw, &mut db).map(|_| 0) } else { one.set(x); one.flush(&mut raw, &mut db).map(|_| 0) }
		} else if list && ctx.rng.chance(1, 2) { view = PartialVec::new(PartialIndex::root()); view.at(i).get(&raw, &mut db).map(|x| *x) }
		else { one.get(&raw, &mut db).map(|x| *x) };
		ctx.t(81, i as u64, || format!("{} -> {:?}", what, got));
		if list && len as u128 > TOP { fail!("HARNESS length"); }
		// a view keeps what it could not write
		if got.is_err() { view = PartialVec::new(PartialIndex::root()); }
		match got {
			Err(bm::Error::AccessOverflowed) => { ensure!(i >= len, "{} is refused", what); ctx.count("positions_beyond", 1); },
			Err(bm::Error::CorruptedDatabase) => ensure!(i < len && !reach, "{} finds the database corrupted", what),
			Err(e) => fail!("{}: unexpected error {:?}", what, e),
			Ok(g) => {
				ensure!(i < len, "{} succeeds", what);
				ensure!(reach, "{} succeeds although no index reaches it", what);
				if set { m.put(i, bytes(&vlen(x))); }
				else { let mut b = [0; 8]; b.copy_from_slice(&m.at(i)[..8]); ensure!(g == u64::from_le_bytes(b), "{} gives {} instead of {}", what, g, u64::from_le_bytes(b)); }
				ctx.count("far_positions", 1);
			},
		}
		let w = m.root();
		ensure!(raw.root() == w, "{}: the root is {} instead of {} (it was {})", what, hex(&raw.root()), hex(&w), hex(&before));
	}
	// a vector longer than any index reaches has no positions
	let long = (TOP + 1 + if ctx.rng.chance(1, 2) { ctx.rng.us(4) } else { ctx.rng.us(TOP as usize - 1) } as u128).min(usize::MAX as u128) as usize;
	let i = match ctx.rng.below(3) { 0 => 0, 1 => long - 1, _ => ctx.rng.word() };
	let before = raw.root();
	let mut one = PartialValue::<u64>::new(PartialIndex::root().vector(i, long));
	if let Ok(x) = one.get(&raw, &mut db) { fail!("element {} of a vector of {}, past every index, reads {}", i, long, x) }
	one.set(7);
	if let Ok(()) = one.flush(&mut raw, &mut db) { fail!("element {} of a vector of {}, past every index, was set", i, long) }
	ensure!(raw.root() == before, "a refused position changed the root");
	ctx.count("vectors_past_indices", 1);
	ctx.nontrivial = true;
	Ok(())
}
