//! C05, C06, C07, C13, C14: sequences against the array model.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::seq::*;
use crate::{ensure, fail, ok};
use bm::{Dangling, Index, Leak, List, Owned, Raw, Sequence, Tree, Vector};

fn pick_cons(ctx: &mut Ctx, f: fn(&mut Ctx) -> R, g: fn(&mut Ctx) -> R, h: fn(&mut Ctx) -> R) -> R {
	match ctx.rng.below(10) { 0..=5 => f(ctx), 6..=8 => g(ctx), _ => h(ctx) }
}

fn history<C: Cons>(ctx: &mut Ctx, packed: bool, roots: bool) -> R {
	let which = ctx.rng.below(6);
	let owned = ctx.rng.chance(2, 3);
	with_db::<C>(which, ctx, |ctx, db| {
		let n = 1 + ctx.rng.us(if ctx.thorough { 6 } else { 4 });
		let mut seqs: Vec<Seq<C>> = vec![];
		let mut pool: Vec<V> = vec![];
		for id in 0..n {
			let packed = if roots { ctx.rng.chance(1, 2) } else { packed };
			let kind = gen_kind(&mut ctx.rng, packed);
			let mut spec = gen_spec::<C>(&mut ctx.rng, kind, owned);
			// sometimes the same shape as another one, so that they share nodes
			if id > 0 && ctx.rng.chance(1, 3) { spec = seqs[0].m.spec.clone(); }
			seqs.push(Seq::create(ctx, db, spec, id)?);
		}
		let steps = ctx.rng.range(10, if ctx.thorough { 400 } else { 150 });
		let verify = ctx.rng.range(5, 40);
		let mut mods = 0;
		for s in 0..steps {
			let i = ctx.rng.us(seqs.len());
			if pool.len() > 12 { let k = ctx.rng.us(pool.len()); pool.swap_remove(k); }
			if ctx.rng.chance(1, 4) { pool.push(seqs[i].h.root()); if seqs[i].m.elems.len() > 1 { pool.push(vs(&seqs[i].m.elems[0][..seqs[i].m.spec.kind.esize().min(32)])); } }
			let sq = &mut seqs[i];
			if roots && ctx.rng.chance(1, 10) && sq.m.elems.len() < 120 {
				// popping undoes pushing
				let before = sq.h.root();
				let k = 1 + ctx.rng.us(5);
				let mut done = 0;
				for _ in 0..k {
					let x = Gen::val(&mut ctx.rng, sq.m.spec.kind.esize(), &pool);
					if let Out::Unit = sq.run(ctx, db, &Op::Push(x))? { done += 1; }
				}
				for _ in 0..done { sq.run(ctx, db, &Op::Pop)?; }
				ensure!(sq.h.root() == before, "#{} {:?}: {} pushes undone by pops changed the root of {} elements from {} to {}", i, sq.m.spec, done, sq.m.elems.len(), hex(&before), hex(&sq.h.root()));
				ctx.count("push_pop_undone", done);
				continue
			}
			sq.step(ctx, db, &pool)?;
			mods += 1;
			ctx.max("max_length", sq.m.elems.len() as u64);
			if roots { sq.check_root(ctx)?; }
			if s % verify == verify - 1 { for q in &seqs { q.check_elems(ctx, db)?; if ctx.rng.chance(1, 4) { q.check_second(ctx, db)?; } } ctx.count("full_checks", 1); }
			if ctx.rng.chance(1, 60) && seqs.len() > 1 {
				let k = ctx.rng.us(seqs.len());
				let q = seqs.swap_remove(k);
				ok!(q.h.release(db), "dropping #{}", q.id);
				ctx.t(11, 0, || format!("#{} dropped", q.id));
			}
		}
		for q in &seqs { q.check_elems(ctx, db)?; if roots { q.check_root(ctx)?; } }
		ctx.nontrivial = mods >= 5;
		Ok(())
	})
}

/// Lengths around the places where a byte, two bytes or a capacity end.
pub fn gen_large(rng: &mut Rng) -> usize {
	let edge = [255usize, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096];
	if rng.chance(1, 24) { 65536 - 20 + rng.us(41) } else if rng.chance(1, 2) { *rng.pick(&edge) } else { 160 + rng.us(900) }
}
/// Long sequences, opened over a tree that bm had no part in building.
fn large<C: Cons>(ctx: &mut Ctx, packed: bool) -> R {
	let n = gen_large(&mut ctx.rng);
	let kind = gen_kind(&mut ctx.rng, packed);
	let es = kind.esize();
	let max = match ctx.rng.below(5) { 0 => Some(n as u64), 1 => Some(n as u64 + ctx.rng.below(20)), 2 => Some(crate::ops::narrow(1 << 40)), _ => None };
	let mut m = Model::new(Spec { kind, owned: false, max, init: 0 });
	let base = Gen::val(&mut ctx.rng, es, &[]);
	m.elems = (0..n).map(|i| { let mut x = if ctx.rng.chance(1, 2) { base.clone() } else { vec![0; es] }; for (a, b) in x.iter_mut().zip(&(i as u64).to_le_bytes()) { *a ^= *b; } x }).collect();
	let t = m.tree::<C>();
	let mut all = crate::maps::HashMap::new();
	t.collect(&mut all);
	let mut db = MapDb::<C>::new();
	db.map.extend(all.into_iter().filter_map(|(k, x)| x.map(|x| (k, x))));
	let mut z = zero();
	if !C::UNIT { for _ in 0..64 { let y = C::h(&z, &z); db.map.insert(y.clone(), (z.clone(), z)); z = y; } }
	let h = ok!(open::<C>(&m.spec, &mut db, t.hash.clone(), n), "opening {:?} with {} elements", m.spec, n);
	ctx.t(12, n as u64 ^ (es as u64) << 40, || format!("opened {:?} with {} elements", m.spec, n));
	let mut gen = Gen::new(&mut ctx.rng);
	gen.cap = n + 80;
	let mut s = Seq { h, m, gen, id: 0 };
	let steps = ctx.rng.range(10, 120);
	for k in 0..steps {
		s.step(ctx, &mut db, &[])?;
		if k % 30 == 29 { s.check_root(ctx)?; }
		if ctx.rng.chance(1, 40) { s = s.reopen(ctx, &mut db)?; }
	}
	s.check_root(ctx)?;
	s.check_elems(ctx, &mut db)?;
	ctx.max("max_length", s.m.elems.len() as u64);
	ctx.count("long_sequences", 1);
	ctx.nontrivial = true;
	Ok(())
}
fn longs(ctx: &mut Ctx, packed: bool) -> R { if packed { pick_cons(ctx, |c| large::<Inh>(c, true), |c| large::<Unit>(c, true), |c| large::<Inh512>(c, true)) } else { pick_cons(ctx, |c| large::<Inh>(c, false), |c| large::<Unit>(c, false), |c| large::<Inh512>(c, false)) } }

pub fn c05(ctx: &mut Ctx) -> R { if ctx.rng.chance(1, 16) { return crate::p_mixed::any(ctx, false, false, false) } if ctx.rng.chance(1, 12) && !cfg!(feature = "toy") { return crate::p_far::any(ctx, false, false, false) } if ctx.rng.chance(1, 12) { return crate::p_wide::wide(ctx, false, false) } if ctx.rng.chance(1, 40) { return longs(ctx, false) } pick_cons(ctx, |c| history::<Inh>(c, false, false), |c| history::<Unit>(c, false, false), |c| history::<Inh512>(c, false, false)) }
pub fn c06(ctx: &mut Ctx) -> R { if ctx.rng.chance(1, 16) { return crate::p_mixed::any(ctx, true, false, false) } if ctx.rng.chance(1, 10) && !cfg!(feature = "toy") { return crate::p_far::any(ctx, true, false, false) } if ctx.rng.chance(1, 8) { return crate::p_wide::wide(ctx, true, false) } if ctx.rng.chance(1, 40) { return longs(ctx, true) } pick_cons(ctx, |c| history::<Inh>(c, true, false), |c| history::<Unit>(c, true, false), |c| history::<Inh512>(c, true, false)) }

/// Known finding: a unit-empty vector created with a length reads as corrupted.
pub fn c05_known(ctx: &mut Ctx) -> R {
	let mut db = Mon::new(InMem::<Unit>::default());
	let spec = Spec { kind: Kind::Vector, owned: true, max: None, init: 3 };
	let h = ok!(create::<Unit>(&spec, &mut db), "create");
	if let Err(bm::Error::CorruptedDatabase) = h.get(&mut db, 1) {
		ctx.known.push(("unit-vector-created-with-length".into(), "Vector::create with a length over a unit-empty construct: reading an element never written returns CorruptedDatabase instead of the default value".into()));
	}
	Ok(())
}
pub fn c06_known(ctx: &mut Ctx) -> R {
	let mut db = Mon::new(InMem::<Unit>::default());
	let spec = Spec { kind: Kind::PVector(8), owned: true, max: None, init: 9 };
	let h = ok!(create::<Unit>(&spec, &mut db), "create");
	if let Err(bm::Error::CorruptedDatabase) = h.get(&mut db, 1) {
		ctx.known.push(("unit-packed-vector-created-with-length".into(), "PackedVector::create with a length over a unit-empty construct: reading an element never written returns CorruptedDatabase instead of zeros".into()));
	}
	Ok(())
}

// ---- C07

/// Trees merkleized by bm-le and trees built in place open as each other.
fn interchange<C: Cons>(ctx: &mut Ctx) -> R {
	use bm_le::*;
	let mut mem = InMem::<C>::default();
	let n = if ctx.rng.chance(1, 40) { gen_large(&mut ctx.rng) } else { ctx.rng.len(70) };
	// 0: Vec<Value> as List; 1: ElementalFixedVec<Value> with max as Vector; 2: bytes compact list as PackedList; 3: u64s compact vector as PackedVector; 4: ElementalVariableVec with max as bounded list
	let which = ctx.rng.below(5);
	let max = if ctx.rng.chance(1, 2) { Some(n as u64 + ctx.rng.below(50).max(if n == 0 { 1 } else { 0 })) } else { None };
	let es = match which { 2 => 1, 3 => 8, _ => 32 };
	let elems: Vec<Vec<u8>> = (0..n).map(|_| Gen::val(&mut ctx.rng, es, &[])).collect();
	let vals = || elems.iter().map(|e| vs(e)).collect::<Vec<V>>();
	let u64s = |e: &Vec<Vec<u8>>| e.iter().map(|e| { let mut b = [0; 8]; b.copy_from_slice(e); u64::from_le_bytes(b) }).collect::<Vec<u64>>();
	let (kind, max, root) = match which {
		0 => (Kind::List, None, vals().into_tree(&mut mem)),
		1 => (Kind::Vector, max, ElementalFixedVec(vals()).into_composite_vector_tree(&mut mem, max)),
		2 => (Kind::PList(1), max, ElementalVariableVec(elems.concat()).into_compact_list_tree(&mut mem, max)),
		3 => (Kind::PVector(8), max, ElementalFixedVec(u64s(&elems)).into_compact_vector_tree(&mut mem, max)),
		_ => (Kind::List, max, ElementalVariableVec(vals()).into_composite_list_tree(&mut mem, max)),
	};
	let root = ok!(root, "merkleizing {} elements", n);
	ctx.t(30, which, || format!("merkleized {} elements as {:?} max {:?} -> {}", n, kind, max, hex(&root)));
	let owned = ctx.rng.chance(1, 2);
	if owned { bm::WriteBackend::rootify(&mut mem, &root).unwrap(); }
	let mut db = Mon::new(mem);
	let spec = Spec { kind, owned, max, init: 0 };
	let h = ok!(open::<C>(&spec, &mut db, root, n), "opening {:?}", spec);
	let gen = Gen::new(&mut ctx.rng);
	let mut m = Model::new(spec);
	m.elems = elems;
	let mut s = Seq { h, m, gen, id: 0 };
	s.check_root(ctx)?;
	s.check_elems(ctx, &mut db)?;
	ctx.count("opened_typed_as_sequence", 1);
	s.gen.cap = n.max(100) + 60;
	for k in 0..ctx.rng.range(1, 60) { s.step(ctx, &mut db, &[])?; if n < 200 || k % 20 == 19 { s.check_root(ctx)?; } }
	s.check_root(ctx)?;
	s.check_elems(ctx, &mut db)?;
	// and back: decode what was built in place
	let root = s.h.root();
	let mem = &mut db.inner;
	let es = &s.m.elems;
	let vals: Vec<V> = es.iter().map(|e| vs(e)).collect();
	let same = match which {
		0 => ok!(Vec::<Value>::from_tree(&root, mem), "decoding list built in place") == vals,
		1 => ok!(ElementalFixedVec::<Value>::from_composite_vector_tree(&root, mem, es.len(), s.m.spec.max), "decoding vector built in place").0 == vals,
		2 => ok!(ElementalVariableVec::<u8>::from_compact_list_tree(&root, mem, s.m.spec.max), "decoding packed list built in place").0 == es.concat(),
		3 => ok!(ElementalFixedVec::<u64>::from_compact_vector_tree(&root, mem, es.len(), s.m.spec.max), "decoding packed vector built in place").0 == u64s(es),
		_ => ok!(ElementalVariableVec::<Value>::from_composite_list_tree(&root, mem, s.m.spec.max), "decoding bounded list built in place").0 == vals,
	};
	ensure!(same, "decoding a {:?} built in place returned other elements", s.m.spec);
	ctx.count("decoded_sequence_as_typed", 1);
	// the typed root of the final content
	let es = &s.m.elems;
	let max = s.m.spec.max;
	let mut noop = bm::NoopBackend::<C>::default();
	let troot = match which {
		0 => vals.into_tree(&mut noop).map_err(|e| format!("{:?}", e)),
		1 => ElementalFixedVec(vals).into_composite_vector_tree(&mut noop, max).map_err(|e| format!("{:?}", e)),
		2 => ElementalVariableVec(es.concat()).into_compact_list_tree(&mut noop, max).map_err(|e| format!("{:?}", e)),
		3 => ElementalFixedVec(u64s(es)).into_compact_vector_tree(&mut noop, max).map_err(|e| format!("{:?}", e)),
		_ => ElementalVariableVec(vals).into_composite_list_tree(&mut noop, max).map_err(|e| format!("{:?}", e)),
	};
	let troot = ok!(troot, "merkleizing final content");
	ensure!(troot == root, "{:?}: built in place root {} but merkleized from scratch {}", s.m.spec, hex(&root), hex(&troot));
	ctx.nontrivial = true;
	Ok(())
}
/// Two histories with the same final content.
fn two_histories<C: Cons>(ctx: &mut Ctx) -> R {
	let mut db = Mon::new(InMem::<C>::default());
	let packed = ctx.rng.chance(1, 2);
	let kind = gen_kind(&mut ctx.rng, packed);
	let owned = ctx.rng.chance(1, 2);
	let spec = gen_spec::<C>(&mut ctx.rng, kind, owned);
	let mut a = Seq::<C>::create(ctx, &mut db, spec.clone(), 0)?;
	let mut b = Seq::<C>::create(ctx, &mut db, Spec { init: 0, ..spec }, 1)?;
	for _ in 0..ctx.rng.range(5, 80) { a.step(ctx, &mut db, &[])?; }
	for _ in 0..ctx.rng.range(0, 80) { b.step(ctx, &mut db, &[])?; }
	// bring b to a's content
	while b.m.elems.len() > a.m.elems.len() { b.run(ctx, &mut db, &Op::Pop)?; }
	while b.m.elems.len() < a.m.elems.len() { let x = Gen::val(&mut ctx.rng, kind.esize(), &[]); b.run(ctx, &mut db, &Op::Push(x))?; }
	for i in 0..a.m.elems.len() { let x = a.m.elems[i].clone(); if b.m.elems[i] != x { b.run(ctx, &mut db, &Op::Set(i, x))?; } }
	ensure!(a.h.root() == b.h.root(), "{:?}: two histories ending in the same {} elements have roots {} and {}", a.m.spec, a.m.elems.len(), hex(&a.h.root()), hex(&b.h.root()));
	a.check_root(ctx)?;
	ctx.count("history_pairs", 1);
	ctx.nontrivial = true;
	Ok(())
}
pub fn c07(ctx: &mut Ctx) -> R {
	if ctx.rng.chance(1, 16) { let p = ctx.rng.chance(1, 2); return crate::p_mixed::any(ctx, p, true, false) }
	if ctx.rng.chance(1, 12) && !cfg!(feature = "toy") { let p = ctx.rng.chance(1, 2); return crate::p_far::any(ctx, p, true, false) }
	if ctx.rng.chance(1, 12) { let p = ctx.rng.chance(1, 2); return crate::p_wide::wide(ctx, p, true) }
	if ctx.rng.chance(1, 60) { let p = ctx.rng.chance(1, 2); return longs(ctx, p) }
	match ctx.rng.below(4) {
		0 | 1 => pick_cons(ctx, |c| history::<Inh>(c, false, true), |c| history::<Unit>(c, false, true), |c| history::<Inh512>(c, false, true)),
		2 => pick_cons(ctx, interchange::<Inh>, interchange::<Unit>, interchange::<Inh512>),
		_ => pick_cons(ctx, two_histories::<Inh>, two_histories::<Unit>, two_histories::<Inh512>),
	}
}

// ---- C13

fn saved<C: Cons>(ctx: &mut Ctx) -> R {
	let mut db = Mon::new(InMem::<C>::default());
	let owned = ctx.rng.chance(2, 3);
	let n = 1 + ctx.rng.us(3);
	let mut seqs: Vec<Option<Seq<C>>> = vec![];
	for id in 0..n {
		let packed = ctx.rng.chance(1, 2);
		let kind = gen_kind(&mut ctx.rng, packed);
		let spec = gen_spec::<C>(&mut ctx.rng, kind, owned);
		seqs.push(Some(Seq::create(ctx, &mut db, spec, id)?));
	}
	for _ in 0..ctx.rng.range(10, 100) {
		let i = ctx.rng.us(n);
		let mut s = seqs[i].take().unwrap();
		s.step(ctx, &mut db, &[])?;
		if ctx.rng.chance(1, 3) {
			let (root, len) = (s.h.root(), s.h.len());
			let map = snapshot(&db.inner);
			s = s.reopen(ctx, &mut db)?;
			ensure!(s.h.root() == root && s.h.len() == len, "{:?}: reopened tree has root {} and length {} instead of {} and {}", s.m.spec, hex(&s.h.root()), s.h.len(), hex(&root), len);
			s.check_elems(ctx, &mut db)?;
			// nothing is lost or kept: reopening alone changes nothing in the store
			ensure!(snapshot(&db.inner) == map, "{:?}: saving and reopening changed the stored nodes", s.m.spec);
		}
		if ctx.rng.chance(1, 8) {
			let d = s.h.dangling();
			for (k, e) in s.m.elems.iter().enumerate() {
				let x = ok!(d.get(&mut db, k), "{:?}: element {} through a non-owning view", s.m.spec, k);
				ensure!(x == *e, "{:?}: element {} reads {} through a non-owning view instead of {}", s.m.spec, k, hx(&x), hx(e));
			}
			ensure!(d.root() == s.h.root() && d.len() == s.h.len(), "{:?}: non-owning view has other root or length", s.m.spec);
			ok!(d.release(&mut db), "dropping a non-owning view");
			s.check_elems(ctx, &mut db)?;
			ctx.count("views", 1);
		}
		s.check_root(ctx)?;
		seqs[i] = Some(s);
	}
	for s in seqs.iter().flatten() { s.check_elems(ctx, &mut db)?; s.check_root(ctx)?; }
	// ownership was carried over: dropping everything empties the store (kinds without the known leak)
	let leaky = seqs.iter().flatten().any(|s| match s.m.spec.kind { Kind::List => s.m.spec.max.is_none(), Kind::PList(_) => true, _ => false });
	for s in seqs.into_iter().flatten() { ok!(s.h.release(&mut db), "dropping"); }
	if owned && !leaky {
		let left = snapshot(&db.inner);
		ensure!(left.len() == 1, "{} nodes are kept after reopened trees were dropped", left.len() - 1);
		ctx.count("emptied", 1);
	}
	ctx.nontrivial = true;
	Ok(())
}
/// Node -> children, without the bookkeeping.
pub fn snapshot<C: Cons>(m: &InMem<C>) -> std::collections::BTreeMap<V, Option<(V, V)>> {
	m.as_ref().iter().map(|(k, x)| (k.clone(), x.0.clone())).collect()
}
/// Raw trees saved, viewed and opened as subtrees; vectors with every constructor.
fn views<C: Cons>(ctx: &mut Ctx) -> R {
	let mut db = Mon::new(InMem::<C>::default());
	let db: &mut Dyn<C> = &mut db;
	let mut raw = Raw::<Owned, C>::default();
	let depth = 1 + ctx.rng.us(5);
	let n = 1 << depth;
	let mut m: Vec<V> = vec![zero(); n];
	let mut t = T::leaf(zero());
	for _ in 0..ctx.rng.range(1, 40) {
		let i = ctx.rng.us(n);
		let x = vs(&Gen::val(&mut ctx.rng, 32, &[]));
		ok!(raw.set(db, Index::from_depth(i, depth), x.clone()), "raw set");
		m[i] = x.clone();
		let path: Vec<bool> = (0..depth).rev().map(|b| i >> b & 1 == 1).collect();
		t = t.set::<C>(&path, T::leaf(x));
		if ctx.rng.chance(1, 4) { let meta = raw.metadata(); raw = if ctx.rng.chance(1, 2) { Raw::from_leaked(meta) } else { Raw::new(meta) }; ctx.count("raw_reopens", 1); }
		if ctx.rng.chance(1, 4) { raw = raw.into_raw(); }
		ensure!(raw.root() == t.hash, "raw root {} instead of {}", hex(&raw.root()), hex(&t.hash));
		let d = ctx.rng.us(depth + 1);
		let p = ctx.rng.us(1 << d);
		let at = Index::from_depth(p, d);
		let path: Vec<bool> = (0..d).rev().map(|b| p >> b & 1 == 1).collect();
		match (raw.subtree(db, at), t.at(&path)) {
			(Ok(s), Some(w)) => {
				ensure!(s.root() == w.hash, "subtree at {:?} has root {} instead of {}", at, hex(&s.root()), hex(&w.hash));
				for q in 0..1usize << (depth - d) {
					let got = ok!(s.get(db, Index::from_depth(q, depth - d)), "subtree read");
					let whole = ok!(raw.get(db, at.sub(Index::from_depth(q, depth - d))), "raw read");
					let view = ok!(raw.as_dangling().get(db, at.sub(Index::from_depth(q, depth - d))), "view read");
					ensure!(got == whole && got == view, "leaf {} below {:?} reads {:?} in the subtree, {:?} in the tree, {:?} in the view", q, at, got, whole, view);
					if let Some(x) = &got { ensure!(*x == m[(p << (depth - d)) + q], "leaf {} below {:?} reads a wrong value", q, at); }
				}
				ctx.count("subtrees", 1);
			},
			(Err(bm::Error::CorruptedDatabase), None) => (),
			(g, w) => fail!("subtree at {:?}: got {:?}, model has {:?}", at, g.map(|s| hex(&s.root())), w.map(|w| hex(&w.hash))),
		}
		ctx.t(40, i as u64, || format!("raw set leaf {} of depth {}", i, depth));
	}
	// open the raw tree's leaves as vectors of several shapes where every leaf was written
	for i in 0..n { let x = vs(&ctx.rng.bytes(32)); ok!(raw.set(db, Index::from_depth(i, depth), x.clone()), "raw set"); m[i] = x; }
	let len = n / 2 + 1 + ctx.rng.us(n / 2);
	let mut v: Vector<Owned, C> = match ctx.rng.below(3) {
		0 => raw.into_vector(len, None),
		1 => Vector::from_raw(raw, len, Some(n as u64)),
		_ => Vector::from_leaked((raw.metadata(), len, Some(n as u64))),
	};
	for i in 0..len { let x = ok!(v.get(db, i), "vector opened from raw: get {}", i); ensure!(x == m[i], "vector opened from raw reads {} wrongly", i); }
	ensure!(matches!(v.get(db, len), Err(bm::Error::AccessOverflowed)), "vector opened from raw reads past its length");
	let x = vs(&ctx.rng.bytes(32));
	let i = ctx.rng.us(len);
	ok!(v.set(db, i, x.clone()), "vector opened from raw: set");
	m[i] = x;
	let raw = v.into_raw();
	for i in 0..n { let x = ok!(raw.get(db, Index::from_depth(i, depth)), "raw get"); ensure!(x.as_ref() == Some(&m[i]), "raw tree of a vector reads {} wrongly", i); }
	// a list saved as its root
	let max = if ctx.rng.chance(1, 2) { Some(n as u64) } else { None };
	let mut l = ok!(List::<Owned, C>::create(db, max), "list create");
	let k = ctx.rng.us(n + 1);
	for i in 0..k { ok!(l.push(db, m[i].clone()), "list push"); }
	let root = l.root();
	let h = if ctx.rng.chance(1, 2) { ok!(l.deconstruct(db), "deconstruct") } else { l.into_raw().root() };
	ensure!(h == root, "deconstructed list hash {} is not its root {}", hex(&h), hex(&root));
	let mut l = ok!(List::<Owned, C>::reconstruct(h.clone(), db, max), "reconstruct");
	let d = ok!(List::<Dangling, C>::reconstruct(h, db, max), "reconstruct");
	ensure!(l.len() == k && d.len() == k, "reconstructed list has length {} / {} instead of {}", l.len(), d.len(), k);
	for i in 0..k { ensure!(ok!(l.get(db, i), "list get") == m[i] && ok!(d.get(db, i), "list get") == m[i], "reconstructed list reads {} wrongly", i); }
	if k < n { ok!(l.push(db, m[k].clone()), "push to reconstructed list"); ensure!(ok!(l.get(db, k), "get") == m[k], "pushed element reads wrongly"); }
	else if max.is_some() { ensure!(matches!(l.push(db, zero()), Err(bm::Error::AccessOverflowed)), "reconstructed full list accepts a push"); }
	ctx.nontrivial = true;
	Ok(())
}
pub fn c13(ctx: &mut Ctx) -> R {
	if ctx.rng.chance(1, 12) { let p = ctx.rng.chance(1, 2); return crate::p_mixed::any(ctx, p, true, true) }
	if ctx.rng.chance(3, 4) { pick_cons(ctx, saved::<Inh>, saved::<Unit>, saved::<Inh512>) } else { pick_cons(ctx, views::<Inh>, views::<Unit>, views::<Inh512>) }
}
pub fn c13_known(ctx: &mut Ctx) -> R {
	let mut m = InMem::<Inh>::default();
	let mut l = List::<Owned, Inh>::create(&mut m, None).unwrap();
	for i in 0..3u64 { l.push(&mut m, vlen(i + 1)).unwrap(); }
	let l2 = l.into_raw().into_list(3, None);
	if l2.get(&mut m, 1).ok() != Some(vlen(2)) {
		ctx.known.push(("list-from-raw".into(), "List::from_raw / Raw::into_list take the whole raw root as the item root, so a list saved as a raw tree and restored reads wrong elements".into()));
	}
	Ok(())
}

// ---- C14

fn bounds<C: Cons>(ctx: &mut Ctx) -> R {
	let which = ctx.rng.below(4);
	let owned = ctx.rng.chance(2, 3);
	with_db::<C>(which, ctx, |ctx, db| {
		let packed = ctx.rng.chance(1, 2);
		let kind = gen_kind(&mut ctx.rng, packed);
		// creation
		for _ in 0..6 {
			let max = match ctx.rng.below(4) { 0 => None, 1 => Some(0), _ => Some(gen_max(&mut ctx.rng, kind.esize()).min(200)) };
			let init = if kind.is_list() { 0 } else { match max { Some(x) => match ctx.rng.below(5) { 0 => x, 1 => x + 1, 2 => x.saturating_sub(1), 3 => 0, _ => ctx.rng.below(60) }, None => ctx.rng.below(60) } } as usize;
			let spec = Spec { kind, owned, max, init };
			let want = max.map(|m| m > 0 && init as u64 <= m).unwrap_or(true);
			match create::<C>(&spec, db) {
				Ok(h) => { ensure!(want, "{:?}: creation succeeded although the initial length is not within a non-zero maximum", spec); ensure!(h.len() == init, "{:?}: created with length {}", spec, h.len()); },
				Err(bm::Error::InvalidParameter) => ensure!(!want, "{:?}: creation was refused although the initial length is within the maximum", spec),
				Err(e) => fail!("{:?}: creation failed with {:?}", spec, e),
			}
			ctx.t(50, init as u64 * 7 + max.unwrap_or(9999), || format!("create {:?} -> expected {}", spec, want));
			ctx.count(if want { "creations_accepted" } else { "creations_refused" }, 1);
		}
		let mut spec = gen_spec::<C>(&mut ctx.rng, kind, owned);
		if ctx.rng.chance(3, 4) { spec.max = Some(ctx.rng.range(1, 40)); spec.init = spec.init.min(spec.max.unwrap() as usize); }
		let mut s = Seq::<C>::create(ctx, db, spec.clone(), 0)?;
		let other = { let mut sp = spec.clone(); sp.init = 0; Seq::<C>::create(ctx, db, sp, 1)? };
		let limit = spec.max.unwrap_or(90).min(90) as usize;
		let full = spec.max == Some(limit as u64);
		for round in 0..3 {
			// fill, probing everywhere on the way
			let target = if ctx.rng.chance(2, 3) { limit } else { ctx.rng.us(limit + 1) };
			while s.m.elems.len() < target {
				let x = Gen::val(&mut ctx.rng, kind.esize(), &[]);
				s.run(ctx, db, &Op::Push(x))?;
				if ctx.rng.chance(1, 4) { refused(ctx, db, &mut s)?; }
			}
			if full && s.m.elems.len() == limit {
				for _ in 0..2 {
					let (r, x) = (s.h.root(), Gen::val(&mut ctx.rng, kind.esize(), &[]));
					s.run(ctx, db, &Op::Push(x))?;
					ensure!(s.h.root() == r, "{:?}: a refused push changed the root", s.m.spec);
				}
				s.check_elems(ctx, db)?;
				ctx.count("filled_to_max", 1);
			}
			refused(ctx, db, &mut s)?;
			if ctx.rng.chance(1, 2) { s = s.reopen(ctx, db)?; refused(ctx, db, &mut s)?; }
			let down = if round == 1 { 0 } else { ctx.rng.us(s.m.elems.len() + 1) };
			while s.m.elems.len() > down { s.run(ctx, db, &Op::Pop)?; if ctx.rng.chance(1, 4) { refused(ctx, db, &mut s)?; } }
			if down == 0 {
				let r = s.h.root();
				s.run(ctx, db, &Op::Pop)?;
				ensure!(s.h.root() == r, "{:?}: popping an empty sequence changed the root", s.m.spec);
				ctx.count("empty_pops", 1);
				refused(ctx, db, &mut s)?;
			}
		}
		other.check_elems(ctx, db)?;
		ctx.nontrivial = true;
		Ok(())
	})
}
/// Reads and writes at or past the length are refused and change nothing.
fn refused<C: Cons>(ctx: &mut Ctx, db: &mut Dyn<C>, s: &mut Seq<C>) -> R {
	let len = s.m.elems.len();
	let root = s.h.root();
	let es = s.m.spec.kind.esize();
	let per = (32 / es).max(1);
	let cand = [len, len + 1, (len / per + 1) * per, len.next_power_of_two(), s.m.spec.max.unwrap_or(7).min(1 << (WORD - 24)) as usize, len + ctx.rng.us(100), 1 << 20, 1 << (WORD - 24)];
	for k in 0..4 {
		let i = if k == 0 { len } else { *ctx.rng.pick(&cand) };
		if i < len { continue }
		let x = Gen::val(&mut ctx.rng, es, &[]);
		let op = if ctx.rng.chance(1, 2) { Op::Get(i) } else { Op::Set(i, x) };
		s.run(ctx, db, &op)?;
		ensure!(s.h.root() == root, "{:?}: refused {} at length {} changed the root", s.m.spec, op.short(), len);
	}
	s.check_elems(ctx, db)
}
/// Maxima at and past the largest tree whose nodes have an index: 2^63 chunks.
pub fn far<C: Cons>(ctx: &mut Ctx) -> R {
	const TOP: u128 = 1 << (usize::BITS - 1);
	let which = ctx.rng.below(4);
	with_db::<C>(which, ctx, |ctx, db| {
		for round in 0..3 {
			let packed = ctx.rng.chance(1, 2);
			let kind = gen_kind(&mut ctx.rng, packed);
			let es = kind.esize() as u128;
			// the largest maximum that fits
			let edge = if kind.packed() { (TOP * 32 / es).min(u64::max_value() as u128) as u64 } else { TOP as u64 };
			let max = match ctx.rng.below(7) { 0 => edge, 1 => edge.saturating_add(1 + ctx.rng.below(3)), 2 => edge - ctx.rng.below(40), 3 => u64::max_value() - ctx.rng.below(3), 4 => u64::max_value() - ctx.rng.below(1 << 20), 5 => TOP as u64 + ctx.rng.below(70), _ => ctx.rng.next() | 1 << 62 };
			let chunks = if kind.packed() { (max as u128 * es + 31) / 32 } else { max as u128 };
			let init = if kind.is_list() || C::UNIT { 0 } else { ctx.rng.us(3) };
			let spec = Spec { kind, owned: ctx.rng.chance(1, 2), max: Some(max), init };
			let want = chunks <= TOP;
			ctx.t(52, max ^ (es as u64) << 9, || format!("create {:?} -> expected {}", spec, want));
			match create::<C>(&spec, db) {
				Ok(_) => ensure!(want, "{:?}: a sequence of {} chunks, more than there are indices, was created", spec, chunks),
				Err(bm::Error::InvalidParameter) => ensure!(!want, "{:?}: creation was refused although its {} chunks can be addressed", spec, chunks),
				Err(e) => fail!("{:?}: creation failed with {:?}", spec, e),
			}
			if want {
				let mut s = Seq::<C>::create(ctx, db, spec.clone(), round)?;
				s.gen.cap = 12;
				for _ in 0..ctx.rng.us(24) { s.step(ctx, db, &[])?; if ctx.rng.chance(1, 6) { s = s.reopen(ctx, db)?; } }
				s.check_elems(ctx, db)?;
				s.check_root(ctx)?;
				refused(ctx, db, &mut s)?;
				ctx.count("far_maxima", 1);
			} else {
				// a handle on some tree that claims such a maximum cannot reach anything, and says so
				let small = Spec { max: if kind.packed() { Some(40) } else { None }, owned: true, init: 0, kind };
				let mut s = Seq::<C>::create(ctx, db, small.clone(), round)?;
				for _ in 0..3 { let x = Gen::val(&mut ctx.rng, kind.esize(), &[]); s.run(ctx, db, &Op::Push(x))?; }
				let claimed = Spec { max: Some(max), owned: false, ..small };
				match open::<C>(&claimed, db, s.h.root(), 3) {
					Err(_) => (),
					Ok(mut h) => for op in [Op::Get(0), Op::Get(2), Op::Set(1, vec![1; kind.esize()]), Op::Push(vec![1; kind.esize()]), Op::Pop, Op::Get(3)] {
						match apply(&mut *h, db, &op) { Out::Err(bm::Error::Backend(e)) => fail!("{:?}: {} reports {:?}", claimed, op.short(), e), Out::Err(_) => (), o => fail!("{:?}: {} on a tree too deep to address gives {}", claimed, op.short(), o.short()) }
						ensure!(h.root() == s.h.root() && h.len() == 3, "{:?}: refused {} changed the handle", claimed, op.short());
					},
				}
				s.check_elems(ctx, db)?;
				s.check_root(ctx)?;
				ctx.count("too_deep_refused", 1);
			}
		}
		ctx.nontrivial = true;
		Ok(())
	})
}
pub fn c14(ctx: &mut Ctx) -> R {
	if ctx.rng.chance(1, 10) && !cfg!(feature = "toy") {
		if ctx.rng.chance(1, 3) { return if ctx.rng.chance(1, 2) { crate::p_far::creations::<Inh>(ctx) } else { crate::p_far::creations::<Inh512>(ctx) } }
		let p = ctx.rng.chance(1, 2);
		return crate::p_far::any(ctx, p, true, true)
	}
	if ctx.rng.chance(1, 12) && !cfg!(feature = "toy") { return pick_cons(ctx, far::<Inh>, far::<Unit>, far::<Inh512>) }
	if ctx.rng.chance(1, 2) { pick_cons(ctx, bounds::<Inh>, bounds::<Unit>, bounds::<Inh512>) } else { crate::p_types::c14_types(ctx) }
}
