//! C12: index arithmetic against explicit bit strings.
use crate::model::{TOPW, WORD};
use crate::infra::*;
use crate::p_raw::*;
use crate::{ensure, fail};
use bm::{Index, IndexRoute, IndexSelection};

fn sel(b: bool) -> IndexSelection { if b { IndexSelection::Right } else { IndexSelection::Left } }
fn one(i: usize) -> R<Index> { match Index::from_one(i) { Some(x) => Ok(x), None => fail!("from_one({}) is refused", i) } }

fn check_one(ctx: &mut Ctx, i: usize) -> R {
	let x = one(i)?;
	let p = path_of(i);
	let route = x.route();
	let want = if p.is_empty() { IndexRoute::Root } else { IndexRoute::Select(p.iter().map(|b| sel(*b)).collect()) };
	ensure!(route == want, "route of {} is {:?} instead of {:?}", i, route, want);
	let mut y = Index::root();
	for b in &p { y = if *b { y.right() } else { y.left() }; }
	ensure!(y == x, "following the route of {} leads to {:?}", i, y);
	for d in 0..p.len() + 4 {
		let w = if d == 0 || d > p.len() { None } else { Some(sel(p[d - 1])) };
		ensure!(route.at_depth(d) == w, "selection of {} at depth {} is {:?} instead of {:?}", i, d, route.at_depth(d), w);
	}
	ensure!(route.at_depth(TOPW as usize).is_none(), "selection of {} at a huge depth exists", i);
	match x.parent() {
		None => ensure!(i == 1, "index {} has no parent", i),
		Some(q) => { ensure!(i > 1, "the root has a parent {:?}", q); ensure!(q == one(i / 2)?, "parent of {} is {:?}", i, q); },
	}
	if i < 1 << (WORD - 2) {
		ensure!(x.left() == one(2 * i)? && x.right() == one(2 * i + 1)?, "children of {} are {:?} and {:?}", i, x.left(), x.right());
		ensure!(x.left().parent() == Some(x) && x.right().parent() == Some(x), "parent does not undo a child step at {}", i);
		ensure!(x.has_descendant(&x.left()) && x.has_descendant(&x.right()) && !x.left().has_descendant(&x), "descendants of {} are wrong", i);
	}
	ensure!(!x.has_descendant(&x), "{} is its own descendant", i);
	ensure!(Index::from_zero(i - 1) == x, "from_zero({}) is {:?}", i - 1, Index::from_zero(i - 1));
	ensure!(Index::from_depth(i - (1 << p.len()), p.len()) == x, "from_depth({}, {}) is not {}", i - (1 << p.len()), p.len(), i);
	ctx.count("indices", 1);
	ctx.max("max_depth", p.len() as u64);
	Ok(())
}
fn check_two(ctx: &mut Ctx, i: usize, j: usize) -> R {
	let (a, b) = (one(i)?, one(j)?);
	let (pi, pj) = (path_of(i), path_of(j));
	let want = pj.len() > pi.len() && pj[..pi.len()] == pi[..];
	ensure!(a.has_descendant(&b) == want, "has_descendant({}, {}) is {}", i, j, !want);
	ctx.count(if want { "descendants" } else { "non_descendants" }, 1);
	if pi.len() + pj.len() <= WORD - 2 {
		let mut p = pi.clone();
		p.extend(&pj);
		let s = a.sub(b);
		ensure!(s == one(index_of(&p))?, "{} relative to {} is {:?}", j, i, s);
		ensure!(j == 1 || a.has_descendant(&s), "{:?} is not a descendant of {}", s, i);
		ctx.count("relative", 1);
	}
	ensure!((a == b) == (i == j), "equality of {} and {}", i, j);
	Ok(())
}
pub fn c12(ctx: &mut Ctx) -> R {
	if ctx.case == 0 {
		ensure!(Index::from_one(0).is_none(), "zero is accepted as a one-based index");
		ensure!(Index::root() == one(1)? && Index::root().route() == IndexRoute::Root, "the root is not index 1");
		ctx.count("zero_refused", 1);
		for i in 1..1usize << 13 { check_one(ctx, i)?; }
		for i in 1..160 { for j in 1..160 { check_two(ctx, i, j)?; } }
		for d in 0..WORD - 1 { for k in 0..3usize { for i in [(1usize << d) + k, (1usize << d) - 1, (1usize << d) + ((1usize << d) - 1) - k.min((1 << d) - 1)] { if i > 0 { check_one(ctx, i)?; } } } }
	}
	for _ in 0..60 {
		let gi = |r: &mut Rng| { let d = r.range(0, WORD as u64 - 2); (1usize << d) + (r.word() & ((1usize << d) - 1)) };
		let (i, j) = (gi(&mut ctx.rng), gi(&mut ctx.rng));
		check_one(ctx, i)?;
		check_two(ctx, i, j)?;
		check_two(ctx, i, i)?;
		// related pairs
		let up = i >> ctx.rng.below(64).min(path_of(i).len() as u64);
		check_two(ctx, up, i)?;
		check_two(ctx, i, up)?;
		check_two(ctx, up ^ (if up > 1 { 1 } else { 0 }), i)?;
		let n = 1 + ctx.rng.us(40); check_two(ctx, n, i)?;
		// (position, depth)
		let d = ctx.rng.range(0, WORD as u64 - 2) as usize;
		let p = ctx.rng.word() & ((1usize << d) - 1);
		let x = Index::from_depth(p, d);
		ensure!(x == one((1 << d) + p)?, "from_depth({}, {}) is {:?}", p, d, x);
		ctx.t(1, i as u64 ^ j as u64, || format!("indices {} and {}", i, j));
	}
	ctx.nontrivial = true;
	Ok(())
}
