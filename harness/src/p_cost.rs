//! C23: how many backend calls an operation makes.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::p_raw::path_of;
use crate::seq::*;
use crate::types::*;
use crate::{ensure, fail, ok};
use bm::{Backend, Dangling, Index, Leak, Owned, ProvingBackend, Proofs, Raw, ReadBackend, Tree, WriteBackend};
use bm_le::{ElementalFixedVec, ElementalFixedVecRef, ElementalVariableVec, ElementalVariableVecRef, FromCompactListTree, FromCompactVectorTree, FromCompositeListTree, FromCompositeVectorTree, IntoCompactListTree, IntoCompactVectorTree, IntoCompositeListTree, IntoCompositeVectorTree, FromTree, IntoTree, PartialIndex, PartialItem, PartialVec};

#[derive(Clone, Copy, Debug, Default)]
struct Cost { calls: u64, writes: u64 }
/// Calls made by `f`.
fn cost<C: Cons, B, X>(db: &mut Mon<B>, f: impl FnOnce(&mut Mon<B>) -> X) -> (X, Cost) {
	db.arm(None);
	let w = db.inserts + db.roots;
	let x = f(db);
	let c = Cost { calls: db.calls, writes: db.inserts + db.roots - w };
	db.arm(None);
	(x, c)
}
/// What is allowed for `paths` ways of `depth` steps, each read, written and put together again.
fn allowed(paths: u64, depth: u64) -> u64 { (paths + 1) * (10 * depth + 24) }
fn within(ctx: &mut Ctx, class: &str, c: Cost, paths: u64, depth: u64, what: &dyn Fn() -> String) -> R {
	// merkleizing builds the empty tree anew at each step of the padding
	let most = allowed(paths, depth) + if class.starts_with("comp") { 2 * depth * depth } else { 0 };
	if class != "flush" { ctx.t(9, c.calls << 8 | depth, || format!("{}: {:?}", what(), c)); }
	ensure!(c.calls <= most, "{} makes {} backend calls, for {} path(s) of depth {}", what(), c.calls, paths, depth);
	ctx.count("operations", 1);
	ctx.count("calls", c.calls);
	Ok(())
}
fn log2(n: u128) -> u64 { let mut d = 0; while (1u128 << d) < n { d += 1; } d }

/// Chunks a number of elements take.
fn chunks(spec: &Spec, n: u128) -> u128 { if spec.kind.packed() { (n * spec.kind.esize() as u128 + 31) / 32 } else { n } }
fn depth(spec: &Spec, len: usize) -> u64 { log2(chunks(spec, spec.max.map(|m| m as u128).unwrap_or(len as u128 + 1))) + spec.kind.is_list() as u64 }

fn histories<C: Cons, B>(ctx: &mut Ctx, db: &mut Mon<B>, spec: Spec, mut h: Box<dyn SeqT<C>>, steps: u64) -> R where B: ReadBackend<Construct = C> + WriteBackend<Construct = C>, EE: From<<B as Backend>::Error> {
	let es = spec.kind.esize();
	// chunks one element touches
	let span = if spec.kind.packed() { (es as u64 + 31) / 32 + 1 } else { 1 };
	for _ in 0..steps {
		let len = h.len();
		let i = match ctx.rng.below(5) { 0 => 0, 1 => len.saturating_sub(1), 2 => len / 2, 3 => len.saturating_sub(1 + ctx.rng.us(40)), _ => ctx.rng.word() % len.max(1) };
		let x = ctx.rng.bytes(es);
		let d = depth(&spec, len);
		let what = |op: &str| format!("{} of element {} of a {:?} of {} ({})", op, i, spec, len, C::NAME);
		match ctx.rng.below(8) {
			0 | 1 => {
				let (r, c) = cost::<C, B, _>(db, |db| h.get(db, i));
				within(ctx, "get", c, span, d, &|| what("reading"))?;
				ensure!(c.writes == 0, "{} writes {} times", what("reading"), c.writes);
				if r.is_ok() { ctx.count("gets", 1); }
			},
			2 | 3 => { let (r, c) = cost::<C, B, _>(db, |db| h.set(db, i, &x)); within(ctx, "set", c, span, d, &|| what("replacing"))?; if r.is_ok() { ctx.count("sets", 1); } },
			4 | 5 => { let (r, c) = cost::<C, B, _>(db, |db| h.push(db, &x)); within(ctx, "push", c, span, d, &|| what("appending"))?; if r.is_ok() { ctx.count("pushes", 1); } },
			6 => { let (r, c) = cost::<C, B, _>(db, |db| h.pop(db)); within(ctx, "pop", c, span, d, &|| what("removing the last"))?; if r.is_ok() { ctx.count("pops", 1); } },
			_ => {
				// a recording of some reads has no more entries than their paths have steps
				let k = ctx.rng.range(1, 3);
				let at: Vec<usize> = (0..k).map(|_| if len == 0 { 0 } else { ctx.rng.word() % len }).collect();
				let copy = h.copy();
				let mut p = ProvingBackend::new(&mut *db);
				for i in &at { let _ = copy.get(&mut p, *i); }
				let proofs: Proofs<V> = p.into();
				let entries = proofs.len() as u64;
				ensure!(entries <= k * span * (d + 1), "the proof of {} element(s) of a {:?} of {} has {} entries at depth {}", k, spec, len, entries, d);
				ctx.count("proofs", 1);
				ctx.count("proof_entries", entries);
			},
		}
		if ctx.rng.chance(1, 40) {
			let how = ctx.rng.next();
			let (r, c) = cost::<C, B, _>(db, |db| h.reopen(db, how, spec.max));
			within(ctx, "reopen", c, span, 1, &|| format!("reopening a {:?} of {}", spec, len))?;
			match r { Ok((n, _)) => h = n, Err(_) => return Ok(()) }
		}
	}
	let len = h.len();
	let (_, c) = cost::<C, B, _>(db, |db| h.release(db));
	within(ctx, "drop", c, 1, 1, &|| format!("dropping a {:?} of {}", spec, len))
}
/// Histories of sequences, up to thousands of elements.
fn sequences<C: Cons>(ctx: &mut Ctx) -> R {
	let packed = ctx.rng.chance(1, 2);
	let kind = gen_kind(&mut ctx.rng, packed);
	let owned = ctx.rng.chance(1, 2);
	let spec = gen_spec::<C>(&mut ctx.rng, kind, owned);
	let mut db = Mon::new(InMem::<C>::default());
	let (h, c) = cost::<C, _, _>(&mut db, |db| create::<C>(&spec, db));
	within(ctx, "create", c, 1, depth(&spec, spec.init), &|| format!("creating a {:?}", spec))?;
	let mut h = ok!(h, "creating a {:?}", spec);
	ctx.t(1, spec.init as u64, || format!("{:?}", spec));
	let fill = if ctx.rng.chance(1, 25) { 2000 + ctx.rng.us(3000) } else { ctx.rng.len(300) };
	let es = spec.kind.esize();
	let span = if spec.kind.packed() { (es as u64 + 31) / 32 + 1 } else { 1 };
	for _ in 0..fill {
		let (len, x) = (h.len(), ctx.rng.bytes(es));
		let (r, c) = cost::<C, _, _>(&mut db, |db| h.push(db, &x));
		within(ctx, "push", c, span, depth(&spec, len), &|| format!("appending to a {:?} of {}", spec, len))?;
		if r.is_err() { break }
		ctx.count("pushes", 1);
	}
	ctx.nontrivial = true;
	histories::<C, _>(ctx, &mut db, spec, h, 40)
}
/// Sequences almost all of which was never written.
fn far<C: Cons>(ctx: &mut Ctx) -> R {
	let packed = ctx.rng.chance(1, 2);
	let kind = gen_kind(&mut ctx.rng, packed);
	let top = usize::BITS as u64 - 3;
	let len = ((ctx.rng.word() >> ctx.rng.below(top) >> 2) / kind.esize()).max(1);
	let kind = if kind.is_list() { Kind::Vector } else { kind };
	let max = if ctx.rng.chance(1, 2) { Some(len as u64 + ctx.rng.below(1 + len as u64 / 2)) } else { None };
	let spec = Spec { kind, owned: ctx.rng.chance(1, 2), max, init: len };
	let mut db = Mon::new(MapDb::<C>::new());
	let (h, c) = cost::<C, _, _>(&mut db, |db| create::<C>(&spec, db));
	within(ctx, "create", c, 1, depth(&spec, len), &|| format!("creating a {:?}", spec))?;
	let h = ok!(h, "creating a {:?}", spec);
	ctx.t(2, len as u64, || format!("{:?}", spec));
	ctx.count("far_sequences", 1);
	ctx.nontrivial = true;
	histories::<C, _>(ctx, &mut db, spec, h, 30)
}
/// Raw trees.
fn raws<C: Cons>(ctx: &mut Ctx) -> R {
	let mut db = Mon::new(InMem::<C>::default());
	let mut raw = Raw::<Owned, C>::default();
	for _ in 0..ctx.rng.range(2, 60) {
		let bits = ctx.rng.below(usize::BITS as u64 - 1);
		let at = (1usize << bits) | (ctx.rng.word() & ((1usize << bits) - 1));
		let (index, d) = (Index::from_one(at).unwrap(), path_of(at).len() as u64);
		let x = v({ let mut b = [0; 32]; b.copy_from_slice(&ctx.rng.bytes(32)); b });
		if ctx.rng.chance(1, 2) {
			let (_, c) = cost::<C, _, _>(&mut db, |db| raw.set(db, index, x));
			within(ctx, "raw set", c, 1, d, &|| format!("writing index {} of a raw tree", at))?;
			ctx.count("raw_sets", 1);
		} else {
			let (_, c) = cost::<C, _, _>(&mut db, |db| raw.get(db, index));
			within(ctx, "raw get", c, 1, d, &|| format!("reading index {} of a raw tree", at))?;
			ensure!(c.writes == 0, "reading index {} of a raw tree writes {} times", at, c.writes);
			let (_, c) = cost::<C, _, _>(&mut db, |db| raw.subtree(db, index).map(|r| r.root()));
			within(ctx, "subtree", c, 1, d, &|| format!("the subtree at index {} of a raw tree", at))?;
			ensure!(c.writes == 0, "the subtree at index {} of a raw tree writes {} times", at, c.writes);
			ctx.count("raw_gets", 1);
		}
	}
	let (_, c) = cost::<C, _, _>(&mut db, |db| raw.drop(db));
	within(ctx, "drop", c, 1, 1, &|| "dropping a raw tree".into())?;
	ctx.nontrivial = true;
	Ok(())
}
/// Merkleizing and decoding sequences under maxima of any size.
fn typed<C: Cons>(ctx: &mut Ctx) -> R {
	let n = if ctx.rng.chance(1, 20) { 1000 + ctx.rng.us(3000) } else { ctx.rng.len(200) };
	let xs: Vec<u64> = (0..n).map(|_| ctx.rng.next()).collect();
	let max = match ctx.rng.below(3) { 0 => None, 1 => Some(n.max(1) as u64 + ctx.rng.below(9)), _ => Some((n.max(1) as u64).max(ctx.rng.next() >> 2 >> ctx.rng.below(60))) };
	let mut db = Mon::new(InMem::<C>::default());
	let top = max.unwrap_or(n as u64) as u128;
	let (d, dc) = (log2(top) + 1, log2((top + 3) / 4) + 1);
	let (k, kc) = (n as u64 + 2, n as u64 / 4 + 2);
	let what = |op: &str| format!("{} {} numbers under a maximum of {:?}", op, n, max);
	ctx.t(3, n as u64, || what("merkleizing"));
	macro_rules! go { ($class:expr, $into:ident, $list:ident, $from:ident, $fl:ident, $k:expr, $d:expr) => {
		let (r, c) = cost::<C, _, _>(&mut db, |db| ElementalFixedVecRef(&xs).$into(db, max));
		let r = ok!(r, "{}", what("merkleizing"));
		within(ctx, $class, c, $k, $d, &|| what("merkleizing as a vector"))?;
		let (l, c) = cost::<C, _, _>(&mut db, |db| ElementalVariableVecRef(&xs).$list(db, max));
		let l = ok!(l, "{}", what("merkleizing"));
		within(ctx, $class, c, $k, $d, &|| what("merkleizing as a list"))?;
		let (x, c) = cost::<C, _, _>(&mut db, |db| ElementalFixedVec::<u64>::$from(&r, db, n, max));
		within(ctx, "decode", c, $k, $d, &|| what("decoding a vector of"))?;
		ensure!(c.writes == 0, "{} writes {} times", what("decoding a vector of"), c.writes);
		let x = ok!(x, "{}", what("decoding a vector of"));
		ensure!(x.0 == xs, "{} gives others", what("decoding a vector of"));
		let (x, c) = cost::<C, _, _>(&mut db, |db| ElementalVariableVec::<u64>::$fl(&l, db, max));
		within(ctx, "decode", c, $k, $d, &|| what("decoding a list of"))?;
		ensure!(c.writes == 0, "{} writes {} times", what("decoding a list of"), c.writes);
		let x = ok!(x, "{}", what("decoding a list of"));
		ensure!(x.0 == xs, "{} gives others", what("decoding a list of"));
	} }
	go!("composite", into_composite_vector_tree, into_composite_list_tree, from_composite_vector_tree, from_composite_list_tree, k, d);
	go!("compact", into_compact_vector_tree, into_compact_list_tree, from_compact_vector_tree, from_compact_list_tree, kc, dc);
	ctx.count("typed", 4);
	ctx.nontrivial = true;
	Ok(())
}
/// Partial views of lists.
fn partials<C: Cons>(ctx: &mut Ctx) -> R {
	let n = if ctx.rng.chance(1, 20) { 1000 + ctx.rng.us(3000) } else { 1 + ctx.rng.len(300) };
	let xs: Vec<u64> = (0..n).map(|_| ctx.rng.next()).collect();
	let mut db = Mon::new(InMem::<C>::default());
	let root = ok!(xs.into_tree(&mut db), "merkleizing {} numbers", n);
	let at = 1 + ctx.rng.us(31);
	let index = Index::from_one(at).unwrap();
	let mut raw = Raw::<Owned, C>::default();
	ok!(raw.set(&mut db, index, root), "set");
	let d = path_of(at).len() as u64 + log2(n as u128 + 8) + 1;
	let mut p = PartialVec::<u64>::new(PartialIndex::root().raw(index));
	ctx.t(4, n as u64, || format!("{} numbers at index {}", n, at));
	let mut reads = 0;
	for _ in 0..ctx.rng.range(1, 4) {
		let i = ctx.rng.us(n);
		let (x, c) = cost::<C, _, _>(&mut db, |db| p.at(i).get(&raw, db).map(|x| *x));
		let x = ok!(x, "reading element {} of {} through a partial view", i, n);
		ensure!(x == xs[i], "element {} of {} reads as {}", i, n, x);
		within(ctx, "partial get", c, 1, d, &|| format!("reading element {} of a list of {} at index {} through a partial view", i, n, at))?;
		ensure!(c.writes == 0, "reading through a partial view writes {} times", c.writes);
		reads += 1;
	}
	let (sets, pushes) = (ctx.rng.below(5), ctx.rng.below(6));
	for _ in 0..sets { let i = ctx.rng.us(n); p.at(i).set(ctx.rng.next()); }
	for _ in 0..pushes { p.push(ctx.rng.next()); }
	let (r, c) = cost::<C, _, _>(&mut db, |db| p.flush(&mut raw, db));
	ok!(r, "flushing {} changes and {} new elements", sets, pushes);
	within(ctx, "flush", c, reads + sets + 2 * pushes, d, &|| format!("flushing {} changes and {} new elements of a list of {} at index {}", sets, pushes, n, at))?;
	ctx.count("partial_flushes", 1);
	ctx.nontrivial = true;
	Ok(())
}
fn all<C: Cons>(ctx: &mut Ctx) -> R {
	match ctx.rng.below(12) { 0..=4 => sequences::<C>(ctx), 5 | 6 => far::<C>(ctx), 7 | 8 => raws::<C>(ctx), 9 | 10 => typed::<C>(ctx), _ => partials::<C>(ctx) }
}
pub fn c23(ctx: &mut Ctx) -> R {
	match ctx.rng.below(8) { 0 | 1 => all::<Unit>(ctx), 2 => all::<Inh512>(ctx), _ => all::<Inh>(ctx) }
}
