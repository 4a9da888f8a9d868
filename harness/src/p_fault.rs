//! C16: every backend call of every operation fails once.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::p_partial::{Pt, P4, P6, P7, PL};
use crate::p_raw::{gen_index, path_of};
use crate::p_types::tree_of;
use crate::seq::*;
use crate::types::*;
use crate::{ensure, fail, ok};
use bm::{DynBackend, Index, Leak, Owned, ProvingBackend, Raw, Tree, WriteBackend};
use bm_le::{FromTree, IntoTree, PartialIndex, PartialItem, Partialable};
use crate::maps::HashMap;
use std::rc::Rc;

type Nodes = HashMap<V, (V, V)>;
/// Run `f` over the store with call `k` failing, through one of the wrappers. Returns what the failure should look like.
fn failing<C: Cons, X>(db: &mut Mon<InMem<C>>, k: u64, wrap: u64, f: impl FnOnce(&mut Dyn<C>) -> Res<X>) -> (Res<X>, E) {
	db.arm(Some(k));
	let want = EE::Injected(k);
	let r = match wrap {
		0 => { let mut w = ProvingBackend::new(db); (f(&mut w), bm::Error::Backend(want)) },
		1 => { let mut w = Unify(DynBackend(DbRef::<C>(&mut *db))); (f(&mut w), bm::Error::Backend(EE::Erased)) },
		_ => (f(db), bm::Error::Backend(want)),
	};
	db.arm(None);
	r
}
fn calls<C: Cons, X>(db: &mut Mon<InMem<C>>, f: impl FnOnce(&mut Dyn<C>) -> Res<X>) -> (Res<X>, u64) {
	db.arm(None);
	let r = f(db);
	let n = db.calls;
	db.arm(None);
	(r, n)
}
/// Which calls to fail: all of them, or a sample.
fn points(ctx: &mut Ctx, n: u64) -> Vec<u64> {
	let cap = if ctx.thorough { 120 } else { 40 };
	if n <= cap { return (0..n).collect() }
	let mut v: Vec<u64> = (0..8).chain(n - 8..n).collect();
	while (v.len() as u64) < cap { v.push(8 + ctx.rng.below(n - 16)); }
	v
}
struct Others { nodes: Nodes, what: String }
impl Others {
	fn intact<C: Cons>(&self, db: &mut Mon<InMem<C>>, after: &dyn Fn() -> String) -> R {
		for (x, k) in &self.nodes {
			match db.inner.as_ref().get(x) { Some((Some(g), _)) if g == k => (), g => fail!("after {} node {} of another tree ({}) is {:?}", after(), hex(x), self.what, g) }
		}
		Ok(())
	}
}
fn inner_nodes(t: &Rc<T>) -> Nodes { let mut m = HashMap::new(); t.collect(&mut m); m.into_iter().filter_map(|(x, k)| k.map(|k| (x, k))).collect() }
fn failed<X: std::fmt::Debug>(r: Res<X>, want: &E, k: u64, n: u64, what: &dyn Fn() -> String) -> R<()> {
	match r {
		Err(e) if e == *want => Ok(()),
		Err(e) => fail!("{}: call {} of {} failed with {:?}, but {:?} is reported", what(), k, n, want, e),
		Ok(x) => fail!("{}: call {} of {} failed, but it succeeds with {:?}", what(), k, n, x),
	}
}
/// The rest of a history on the store after a failure.
fn seqs<C: Cons + TyC>(ctx: &mut Ctx, db: &mut Mon<InMem<C>>, others: &Others) -> R {
	let packed = ctx.rng.chance(1, 2);
	let kind = gen_kind(&mut ctx.rng, packed);
	let owned = ctx.rng.chance(2, 3);
	let spec = gen_spec::<C>(&mut ctx.rng, kind, owned);
	// creation
	let (base, spec2) = (db.inner.clone(), spec.clone());
	let (r, n) = calls(db, |db| create::<C>(&spec2, db));
	ok!(r, "create {:?}", spec);
	for k in points(ctx, n) {
		db.inner = base.clone();
		let wrap = ctx.rng.below(6);
		let (r, want) = failing(db, k, wrap, |db| create::<C>(&spec, db).map(|_| ()));
		let what = || format!("creating {:?}", spec);
		failed(r, &want, k, n, &what)?;
		others.intact(db, &what)?;
		ctx.count("faults", 1);
	}
	db.inner = base;
	let mut s = Seq::<C>::create(ctx, db, spec, 0)?;
	s.gen.cap = 40;
	for _ in 0..ctx.rng.range(0, 40) { s.step(ctx, db, &[])?; }
	for _ in 0..ctx.rng.range(2, if ctx.thorough { 24 } else { 8 }) {
		let op = s.gen.op(&mut ctx.rng, &s.m, &[]);
		let base = db.inner.clone();
		let len = s.m.elems.len();
		let what = || format!("{} on {:?} of {} elements ({})", op.short(), s.m.spec, len, C::NAME);
		// without a failure there is none
		let mut h = s.h.copy();
		let (r, n) = calls(db, |db| Ok(apply(&mut *h, db, &op)));
		let got = ok!(r, "dry run");
		let want_out = expect(&mut s.m.clone(), &op);
		ensure!(got == want_out, "{} returns {} instead of {}", what(), got.short(), want_out.short());
		let moved = { let mut m = s.m.clone(); expect(&mut m, &op); m.depth() };
		let target = match &op { Op::Set(i, _) => Some(*i), Op::Pop => Some(len.wrapping_sub(1)), _ => None };
		for k in points(ctx, n) {
			db.inner = base.clone();
			let mut h = s.h.copy();
			let wrap = ctx.rng.below(6);
			let (r, want) = failing(db, k, wrap, |db| match apply(&mut *h, db, &op) { Out::Err(e) => Err(e), o => Ok(o) });
			failed(r, &want, k, n, &what)?;
			ctx.count("faults", 1);
			ctx.count(match op { Op::Get(_) => "faults_in_get", Op::Set(..) => "faults_in_set", Op::Push(_) => "faults_in_push", Op::Pop => "faults_in_pop" }, 1);
			let after = || format!("{} with call {} of {} failing", what(), k, n);
			if let Op::Get(_) = op {
				ensure!(*db.inner.as_ref() == *base.as_ref(), "{}: the store changed", after());
				ensure!(h.root() == s.h.root() && h.len() == len, "{}: root or length changed", after());
			}
			let l = h.len();
			let lens: &[usize] = match op { Op::Push(_) => &[len, len + 1], Op::Pop => &[len, len.wrapping_sub(1)], _ => &[len] };
			ensure!(lens.contains(&l), "{}: the length is {} instead of {:?}", after(), l, lens);
			for (i, e) in s.m.elems.iter().enumerate() {
				if Some(i) == target { continue }
				match h.get(db, i) {
					Ok(x) => ensure!(x == *e, "{}: element {} reads {} instead of {}", after(), i, hx(&x), hx(e)),
					Err(x) => fail!("{}: element {} reads as error {:?} instead of {}", after(), i, x, hx(e)),
				}
				ctx.count("elements_checked", 1);
			}
			others.intact(db, &after)?;
			// so is a tree saved and restored now
			// (known findings: not after a failed change of capacity of a packed sequence, nor from the root hash of any list)
			let resized = moved != s.m.depth();
			let from_root = s.m.spec.kind == Kind::List && ctx.rng.chance(1, 2);
			if ctx.rng.chance(1, 3) && !(resized && (s.m.spec.kind.packed() || from_root)) {
				let c = if from_root { ok!(open::<C>(&s.m.spec, db, h.root(), 0), "{}: opening the list from its root", after()) } else { h.copy() };
				if from_root { ctx.count("restored_from_root", 1); }
				for (i, e) in s.m.elems.iter().enumerate() {
					if Some(i) == target { continue }
					match c.get(db, i) {
						Ok(x) => ensure!(x == *e, "{}, saving and restoring: element {} reads {} instead of {}", after(), i, hx(&x), hx(e)),
						Err(x) => fail!("{}, saving and restoring: element {} reads as error {:?} instead of {}", after(), i, x, hx(e)),
					}
				}
				ctx.count("restored", 1);
			}
			// the handle goes on: a set is retried, another element is changed, or the tree is dropped
			match ctx.rng.below(4) {
				0 => if let Op::Set(i, x) = &op {
					ok!(h.set(db, *i, x), "{}: set again", after());
					for (j, e) in s.m.elems.iter().enumerate() {
						let got = ok!(h.get(db, j), "{}: element {} after setting again", after(), j);
						let want = if j == *i { x } else { e };
						ensure!(got == *want, "{}: after setting again, element {} reads {} instead of {}", after(), j, hx(&got), hx(want));
					}
					ctx.count("retries", 1);
				},
				1 => if len > 1 {
					let i = ctx.rng.us(len);
					if Some(i) != target {
						let x = Gen::val(&mut ctx.rng, s.m.spec.kind.esize(), &[]);
						ok!(h.set(db, i, &x), "{}: setting element {} afterwards", after(), i);
						for (j, e) in s.m.elems.iter().enumerate() {
							if Some(j) == target { continue }
							let got = ok!(h.get(db, j), "{}: element {} after setting element {}", after(), j, i);
							let want = if j == i { &x } else { e };
							ensure!(got == *want, "{}: after setting element {}, element {} reads {} instead of {}", after(), i, j, hx(&got), hx(want));
						}
						others.intact(db, &after)?;
						ctx.count("continued", 1);
					}
				},
				2 => {
					ok!(h.release(db), "{}: drop", after());
					others.intact(db, &|| format!("{} and dropping the tree", after()))?;
					ctx.count("drops", 1);
				},
				_ => (),
			}
		}
		db.inner = base;
		s.run(ctx, db, &op)?;
	}
	// opening and dropping
	if !s.m.spec.kind.packed() || !s.m.spec.kind.is_list() {
		let base = db.inner.clone();
		let how = ctx.rng.next();
		let max = s.m.spec.max;
		let what = || format!("reopening {:?}", s.m.spec);
		let h = s.h.copy();
		let (r, n) = calls(db, |db| h.reopen(db, how, max));
		ok!(r, "{}", what());
		for k in points(ctx, n) {
			db.inner = base.clone();
			let h = s.h.copy();
			let wrap = ctx.rng.below(6);
			let (r, want) = failing(db, k, wrap, |db| h.reopen(db, how, max).map(|_| ()));
			failed(r, &want, k, n, &what)?;
			ensure!(*db.inner.as_ref() == *base.as_ref(), "{} with call {} of {} failing: the store changed", what(), k, n);
			ctx.count("faults", 1);
			ctx.count("faults_in_reopen", 1);
		}
		db.inner = base;
	}
	let base = db.inner.clone();
	let h = s.h.copy();
	let (r, n) = calls(db, |db| h.release(db));
	ok!(r, "drop");
	for k in points(ctx, n) {
		db.inner = base.clone();
		let h = s.h.copy();
		let wrap = ctx.rng.below(6);
		let (r, want) = failing(db, k, wrap, |db| h.release(db));
		let what = || format!("dropping {:?}", s.m.spec);
		failed(r, &want, k, n, &what)?;
		others.intact(db, &what)?;
		ctx.count("faults", 1);
		ctx.count("faults_in_drop", 1);
	}
	db.inner = base;
	Ok(())
}
fn raws<C: Cons + TyC>(ctx: &mut Ctx, db: &mut Mon<InMem<C>>, others: &Others) -> R {
	let mut raw = Raw::<Owned, C>::default();
	let mut t = T::leaf(zero());
	let mut recent = vec![];
	for s in 0..ctx.rng.range(3, 24) {
		let i = gen_index(&mut ctx.rng, &recent);
		recent.push(i);
		let idx = Index::from_one(i).unwrap();
		let path = path_of(i);
		let x = vs(&Gen::val(&mut ctx.rng, 32, &[]));
		if s > 2 && ctx.rng.chance(1, 2) {
			let base = db.inner.clone();
			// every position known to the model, by path
			let mut known: Vec<(Vec<bool>, V)> = vec![];
			let mut todo = vec![(vec![], t.clone())];
			while let Some((p, n)) = todo.pop() {
				if known.len() < 200 { known.push((p.clone(), n.hash.clone())); }
				if let Some((l, r)) = &n.kids { let mut a = p.clone(); a.push(false); todo.push((a, l.clone())); let mut a = p; a.push(true); todo.push((a, r.clone())); }
			}
			let m = raw.metadata();
			let read = ctx.rng.chance(1, 3);
			let what = || format!("{}({}) on a raw tree", if read { "get" } else { "set" }, i);
			let go = |h: &mut Raw<Owned, C>, db: &mut Dyn<C>| if read { h.get(db, idx).map(|_| ()) } else { h.set(db, idx, x.clone()) };
			let (r, n) = calls(db, |db| go(&mut Raw::from_leaked(m.clone()), db));
			ok!(r, "{}", what());
			for k in points(ctx, n) {
				db.inner = base.clone();
				let mut h = Raw::<Owned, C>::from_leaked(m.clone());
				let wrap = ctx.rng.below(6);
				let (r, want) = failing(db, k, wrap, |db| go(&mut h, db));
				failed(r, &want, k, n, &what)?;
				let after = || format!("{} with call {} of {} failing", what(), k, n);
				if read { ensure!(*db.inner.as_ref() == *base.as_ref(), "{}: the store changed", after()); ensure!(h.root() == m, "{}: the root changed", after()); }
				for (p, y) in &known {
					let c = p.len().min(path.len());
					if !read && p[..c] == path[..c] { continue }
					let mut j = 1usize;
					for b in p { j = 2 * j + *b as usize; }
					let got = ok!(h.get(db, Index::from_one(j).unwrap()), "{}: reading index {}", after(), j);
					ensure!(got.as_ref() == Some(y), "{}: index {} reads {:?} instead of {}", after(), j, got.map(|g| hex(&g)), hex(y));
				}
				others.intact(db, &after)?;
				if ctx.rng.chance(1, 3) { ok!(h.drop(db), "{}: drop", after()); others.intact(db, &|| format!("{} and dropping the tree", after()))?; ctx.count("drops", 1); }
				ctx.count("faults", 1);
				ctx.count("faults_in_raw", 1);
			}
			db.inner = base;
		}
		ok!(raw.set(db, idx, x.clone()), "set");
		t = t.set::<C>(&path, T::leaf(x));
	}
	Ok(())
}
fn typed<C: Cons + TyC>(ctx: &mut Ctx, db: &mut Mon<InMem<C>>, others: &Others) -> R {
	let ty = ctx.rng.us(C::tcount());
	let val = C::tgen(ty, &mut ctx.rng);
	let base = db.inner.clone();
	let (r, n) = calls(db, |db| C::into(&*val, db));
	let root = ok!(r, "merkleizing {:?}", val);
	let full = db.inner.clone();
	let what = || format!("merkleizing {:?} of {}", val, C::tname(ty));
	for k in points(ctx, n) {
		db.inner = base.clone();
		let wrap = ctx.rng.below(6);
		let (r, want) = failing(db, k, wrap, |db| C::into(&*val, db));
		failed(r, &want, k, n, &what)?;
		others.intact(db, &what)?;
		ctx.count("faults", 1);
		ctx.count("faults_in_merkleizing", 1);
	}
	db.inner = full.clone();
	let (r, n) = calls(db, |db| C::dec(ty, &root, db));
	let x = ok!(r, "decoding {:?}", val);
	ensure!(val.same(&*x), "{:?} decodes as {:?}", val, x);
	let what = || format!("decoding {:?} of {}", val, C::tname(ty));
	for k in points(ctx, n) {
		let wrap = ctx.rng.below(6);
		let (r, want) = failing(db, k, wrap, |db| C::dec(ty, &root, db).map(|_| ()));
		failed(r, &want, k, n, &what)?;
		ctx.count("faults", 1);
		ctx.count("faults_in_decoding", 1);
	}
	ensure!(*db.inner.as_ref() == *full.as_ref(), "decoding {:?} changed the store", val);
	Ok(())
}
fn partial<C: Cons + TyC, X: Pt>(ctx: &mut Ctx, db: &mut Mon<InMem<C>>, others: &Others) -> R {
	let x = X::gen(&mut ctx.rng, 0);
	let mut raw = Raw::<Owned, C>::default();
	let xr = ok!(x.into_tree(db), "merkleizing {:?}", x);
	let at = 1 + ctx.rng.us(7);
	let pidx = PartialIndex::root().raw(Index::from_one(at).unwrap());
	ok!(raw.set(db, Index::from_one(at).unwrap(), xr), "set");
	let m = raw.metadata();
	let base = db.inner.clone();
	let seed = ctx.rng.next();
	let mut y = x.clone();
	// reading
	let read = |db: &mut Dyn<C>| { let raw = Raw::<bm::Dangling, C>::from_leaked(m.clone()); X::peek(&mut X::Value::new(pidx.clone()), &raw, &mut DbRef::<C>(db), &mut Rng::new(seed, 1)) };
	let (r, n) = calls(db, |db| read(db));
	if r.is_ok() {
		for k in points(ctx, n) {
			let wrap = ctx.rng.below(6);
			let (r, want) = failing(db, k, wrap, |db| read(db));
			failed(r, &want, k, n, &|| format!("reading {:?} through a partial view", x))?;
			ctx.count("faults", 1);
			ctx.count("faults_in_partial", 1);
		}
		ensure!(*db.inner.as_ref() == *base.as_ref(), "reading through a partial view changed the store");
	}
	// flushing; several changes are written in an order of their own, so only the report and other trees are judged
	let flush = |db: &mut Dyn<C>, y: &mut X| -> Res<V> {
		let mut raw = Raw::<Owned, C>::from_leaked(m.clone());
		let mut p = X::Value::new(pidx.clone());
		y.change(&mut p, &mut Rng::new(seed, 2));
		p.flush(&mut raw, &mut DbRef::<C>(db))?;
		Ok(raw.root())
	};
	let (r, n) = calls(db, |db| flush(db, &mut y));
	ok!(r, "flushing changes of {:?} to {:?}", x, y);
	for k in points(ctx, n) {
		db.inner = base.clone();
		let wrap = ctx.rng.below(6);
		let (r, want) = failing(db, k, wrap, |db| flush(db, &mut x.clone()));
		// fewer calls than in the dry run can be made when the order differs
		if r.is_ok() && k + 8 >= n { continue }
		let what = || format!("flushing changes of {:?} to {:?}", x, y);
		failed(r, &want, k, n, &what)?;
		others.intact(db, &what)?;
		ctx.count("faults", 1);
		ctx.count("faults_in_partial", 1);
	}
	db.inner = base;
	let _ = X::from_tree::<Mon<InMem<C>>>;
	Ok(())
}
fn faults<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let mut db = Mon::new(InMem::<C>::default());
	// other trees in the same store
	let mut others = Others { nodes: HashMap::new(), what: String::new() };
	for id in 0..ctx.rng.range(1, 2) {
		if ctx.rng.chance(1, 2) {
			let packed = ctx.rng.chance(1, 2);
			let kind = gen_kind(&mut ctx.rng, packed);
			let spec = gen_spec::<C>(&mut ctx.rng, kind, true);
			let mut s = Seq::<C>::create(ctx, &mut db, spec, 100 + id as usize)?;
			s.gen.cap = 16;
			for _ in 0..ctx.rng.range(5, 40) { s.step(ctx, &mut db, &[])?; }
			others.what += &format!("{:?} of {} elements ", s.m.spec, s.m.elems.len());
			others.nodes.extend(inner_nodes(&s.m.tree::<C>()));
		} else {
			let ty = ctx.rng.us(C::tcount());
			let val = C::tgen(ty, &mut ctx.rng);
			let (root, all) = tree_of::<C>(&*val)?;
			ok!(C::into(&*val, &mut db), "merkleizing {:?}", val);
			ok!(db.rootify(&root).map_err(bm::Error::Backend::<EE>), "rootify");
			let mut todo = vec![root];
			while let Some(x) = todo.pop() { if let Some(k) = all.get(&x) { if others.nodes.insert(x, k.clone()).is_none() { todo.push(k.0.clone()); todo.push(k.1.clone()); } } }
			others.what += &format!("{:?} ", val);
		}
	}
	ctx.count("nodes_of_other_trees", others.nodes.len() as u64);
	match ctx.rng.below(10) {
		0..=4 => seqs::<C>(ctx, &mut db, &others)?,
		5 | 6 => raws::<C>(ctx, &mut db, &others)?,
		7 | 8 => typed::<C>(ctx, &mut db, &others)?,
		_ => match ctx.rng.below(4) { 0 => partial::<C, P4>(ctx, &mut db, &others)?, 1 => partial::<C, P6>(ctx, &mut db, &others)?, 2 => partial::<C, P7>(ctx, &mut db, &others)?, _ => partial::<C, PL<u64>>(ctx, &mut db, &others)? },
	}
	ctx.nontrivial = true;
	Ok(())
}
pub fn c16(ctx: &mut Ctx) -> R { match ctx.rng.below(8) { 0 | 1 => faults::<Unit>(ctx), 2 => faults::<Inh512>(ctx), _ => faults::<Inh>(ctx) } }

/// After a failed change of capacity, what is saved does not describe the tree.
pub fn c16_known(ctx: &mut Ctx) -> R {
	use bm::{List, PackedVector};
	use generic_array::GenericArray;
	use typenum::U32;
	let probe = |list: bool| -> Option<u64> {
		for k in 0..200 {
			let mut db = Mon::new(InMem::<Inh>::default());
			if list {
				let mut l = List::<Owned, Inh>::create(&mut db, None).ok()?;
				for i in 0..4 { l.push(&mut db, vlen(i + 1)).ok()?; }
				db.arm(Some(k));
				let r = l.push(&mut db, vlen(5));
				db.arm(None);
				if r.is_ok() { return None }
				let l = List::<Owned, Inh>::reconstruct(l.root(), &mut db, None).ok()?;
				if (0..4).any(|i| l.get(&mut db, i).ok() != Some(vlen(i as u64 + 1))) { return Some(k) }
			} else {
				let mut p = PackedVector::<Owned, Inh, GenericArray<u8, U32>, U32, U32>::create(&mut db, 0, None).ok()?;
				let e = |i: u8| { let mut g = GenericArray::<u8, U32>::default(); g[0] = i + 1; g };
				for i in 0..4 { p.push(&mut db, e(i)).ok()?; }
				db.arm(Some(k));
				let r = p.push(&mut db, e(4));
				db.arm(None);
				if r.is_ok() { return None }
				let p = PackedVector::<Owned, Inh, GenericArray<u8, U32>, U32, U32>::from_leaked(p.metadata());
				if (0..4).any(|i| p.get(&mut db, i).ok() != Some(e(i as u8))) { return Some(k) }
			}
		}
		None
	};
	if let Some(k) = probe(true) { ctx.known.push(("list-root-after-failed-resize".into(), format!("when backend call {} of a push that grows an unbounded List fails, the list reopened from its root hash misreads the elements it had (the handle itself reads them)", k))); }
	if let Some(k) = probe(false) { ctx.known.push(("packed-metadata-after-failed-resize".into(), format!("when backend call {} of a push that grows an unbounded PackedVector fails, the vector restored from its metadata misreads the elements it had (the handle itself reads them)", k))); }
	Ok(())
}
