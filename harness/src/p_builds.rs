//! C21: what two builds are compared on. Nothing is judged here: everything seen goes into the case's digest.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::p_partial::*;
use crate::session::*;
use crate::types::*;
use crate::ok;
use crate::{p_codec, p_fault, p_gc, p_index, p_partial, p_proof, p_raw, p_seq, p_types};
use bm::{Dangling, DynBackend, Leak, Owned, Proofs, ProvingBackend, Raw, RootStatus, Tree};
use bm_le::{IntoTree, PartialIndex, PartialItem, Partialable};
use std::collections::BTreeMap;

fn see(ctx: &mut Ctx, what: &str, s: String) {
	ctx.observe(what.as_bytes());
	ctx.observe(s.as_bytes());
	ctx.t(0, 0, || format!("{}: {}", what, s.chars().take(600).collect::<String>()));
}
fn store<C: Cons>(ctx: &mut Ctx, what: &str, db: &InMem<C>) {
	let m: BTreeMap<V, String> = db.as_ref().iter().map(|(k, x)| (k.clone(), format!("{:?}", (x.0.as_ref().map(|p| (hex(&p.0), hex(&p.1))), x.1)))).collect();
	let s: Vec<String> = m.iter().map(|(k, x)| format!("{} {}", hex(k), x)).collect();
	see(ctx, what, s.join("; "));
	ctx.count("stores_dumped", 1);
}
fn entries<'a>(p: impl Iterator<Item = (&'a V, &'a (V, V))>) -> String {
	let m: BTreeMap<&V, &(V, V)> = p.collect();
	m.iter().map(|(k, x)| format!("{} {} {}", hex(k), hex(&x.0), hex(&x.1))).collect::<Vec<_>>().join("; ")
}
fn session<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let grafts = ctx.rng.chance(1, 5);
	let (base, s) = gen_script::<C>(ctx, grafts)?;
	store(ctx, "store before", &base);
	let mut db = Mon::new(base.clone());
	for (k, r) in run_script::<C>(&s, &mut db).into_iter().enumerate() { see(ctx, &format!("step {}", k), r); }
	store(ctx, "store after", &db.inner);
	let n = db.calls;
	// with a failing call
	for _ in 0..3 {
		let mut db = Mon::new(base.clone());
		let k = ctx.rng.below(n + 1);
		db.arm(Some(k));
		for (k, r) in run_script::<C>(&s, &mut db).into_iter().enumerate() { see(ctx, &format!("step {} with a failing call", k), r); }
		store(ctx, "store after a failing call", &db.inner);
		ctx.count("faults", 1);
	}
	// recorded
	let mut inner = base.clone();
	let st = { let mut db = Unify(ProvingBackend::new(&mut inner)); for r in run_script::<C>(&s, &mut db) { see(ctx, "recorded step", r); } db.0.into_state() };
	store(ctx, "store after recording", &inner);
	see(ctx, "proof", entries(st.proofs.iter()));
	let mut ins: Vec<String> = st.inserts.iter().map(|x| hex(x)).collect();
	ins.sort();
	see(ctx, "inserts", ins.join(" "));
	ctx.count("proofs_dumped", 1);
	let proofs = Proofs::from(st.clone());
	let map: crate::maps::HashMap<V, (V, V)> = proofs.clone().into();
	if !grafts {
		let c = proofs.into_compact(s.root.clone());
		see(ctx, "compact proof", format!("{:?} of length {}", c, c.len()));
		see(ctx, "its root", hex(&c.clone().root::<C>()));
		let mut m = Mon::new(InMem::<C>::default());
		let r = c.into_tree(&mut m);
		see(ctx, "compact proof merkleized", format!("{:?}", r.map(|x| hex(&x))));
		store(ctx, "store of the compact proof", &m.inner);
		let (p, r) = Proofs::from_compact::<C>(c);
		see(ctx, "expanded", format!("root {} {}", hex(&r), entries(p.iter())));
		ctx.count("compact_proofs", 1);
	}
	let mut fresh = InMem::<C>::default();
	fresh.populate(map);
	store(ctx, "populated store", &fresh);
	let mut db = Mon::new(fresh);
	for r in run_script::<C>(&s, &mut db) { see(ctx, "replayed step", r); }
	store(ctx, "store after replay", &db.inner);
	// errors erased
	let mut db = Unify(DynBackend(base));
	for r in run_script::<C>(&s, &mut db) { see(ctx, "step with errors erased", r); }
	ctx.count("own_sessions", 1);
	Ok(())
}
fn partial<C: Cons, X: Pt>(ctx: &mut Ctx) -> R { if ctx.rng.chance(1, 2) { flushes::<C, X, Owned>(ctx) } else { flushes::<C, X, Dangling>(ctx) } }
fn flushes<C: Cons, X: Pt, Q: RootStatus>(ctx: &mut Ctx) -> R {
	let mut x = X::gen(&mut ctx.rng, 0);
	let mut db = Mon::new(InMem::<C>::default());
	let root = match x.into_tree(&mut db) { Ok(r) => r, Err(e) => { see(ctx, "not merkleized", format!("{:?}", e)); return Ok(()) } };
	ok!(bm::WriteBackend::rootify(&mut db, &root), "rootify");
	let fault = ctx.rng.chance(1, 3);
	let mut raw = Raw::<Q, C>::from_leaked(root);
	for _ in 0..ctx.rng.range(1, 4) {
		let mut p = <X as Partialable>::Value::new(PartialIndex::root());
		x.change(&mut p, &mut ctx.rng);
		if fault { let k = ctx.rng.below(60); db.arm(Some(k)); ctx.count("faults", 1); }
		if ctx.rng.chance(1, 8) {
			// some nodes are missing
			let mut all: Vec<(V, (V, V))> = db.inner.as_ref().iter().filter_map(|(k, x)| x.0.clone().map(|x| (k.clone(), x))).collect();
			all.sort();
			for _ in 0..ctx.rng.range(1, 3) { if !all.is_empty() { let k = ctx.rng.us(all.len()); all.remove(k); } }
			db.inner = InMem::<C>::default();
			db.inner.populate(all.into_iter().collect());
			ctx.count("damaged", 1);
		}
		let r = { let mut d = DbRef::<C>(&mut db); p.flush(&mut raw, &mut d) };
		see(ctx, "flush", format!("{:?} root {}", r, hex(&raw.root())));
		store(ctx, "store after a flush", &db.inner);
		ctx.count("partial_flushes", 1);
	}
	Ok(())
}
fn partials<C: Cons>(ctx: &mut Ctx) -> R {
	match ctx.rng.below(8) { 0 => partial::<C, P4>(ctx), 1 => partial::<C, P7>(ctx), 2 => partial::<C, P9>(ctx), 3 => partial::<C, PL<P3>>(ctx), 4 => partial::<C, PL<PL<u16>>>(ctx), 5 => partial::<C, PL<P6>>(ctx), _ => partial::<C, PL<u64>>(ctx) }
}
/// The workloads of the other properties, with every backend call observed.
const OTHERS: &[(&str, fn(&mut Ctx) -> R)] = &[
	("C01", p_types::c01), ("C02", p_types::c02), ("C03", p_types::c03), ("C04", p_raw::c04), ("C05", p_seq::c05), ("C06", p_seq::c06), ("C07", p_seq::c07), ("C08", p_gc::c08), ("C09", p_gc::c09),
	("C10", p_proof::c10), ("C11", p_proof::c11), ("C12", p_index::c12), ("C13", p_seq::c13), ("C14", p_seq::c14), ("C15", p_types::c15), ("C16", p_fault::c16), ("C17", p_partial::c17), ("C18", p_gc::c18), ("C19", p_codec::c19), ("C20", p_proof::c20),
];
/// On hosts: what depends on the width of an index is held against that width, not compared.
pub fn c22(ctx: &mut Ctx) -> R {
	if ctx.rng.chance(1, 16) {
		ctx.label = "edges";
		let d = ctx.digest;
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match ctx.rng.below(3) { 0 => p_seq::far::<Inh>(ctx), 1 => p_seq::far::<Unit>(ctx), _ => p_types::lengths(ctx) }));
		ctx.digest = d;
		let end = match r { Ok(Ok(())) => "held".to_string(), Ok(Err(Fail(m))) => if m.starts_with("HARNESS") { return Err(Fail(m)) } else { format!("failed: {}", m) }, Err(_) => "panicked".into() };
		ctx.nontrivial = true;
		see(ctx, "outcome", format!("edges {}", end));
		if end != "held" { return Err(Fail(end)) }
		return Ok(())
	}
	c21(ctx)
}
pub fn c21(ctx: &mut Ctx) -> R {
	let k = ctx.rng.us(OTHERS.len() * 2);
	CALLS.with(|c| c.set(Some((0, 0))));
	let (f, name): (fn(&mut Ctx) -> R, &str) = match k {
		k if k < OTHERS.len() => (OTHERS[k].1, OTHERS[k].0),
		k if k % 8 == 0 => (session::<Unit>, "session"), k if k % 8 == 1 => (session::<Inh512>, "session"), k if k % 8 == 2 => (partials::<Unit>, "partial"), k if k % 8 < 5 => (partials::<Inh>, "partial"), _ => (session::<Inh>, "session"),
	};
	ctx.label = name;
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx)));
	// whether it held is for the other checks to say: here only that it does the same in both builds
	let end = match r { Ok(Ok(())) => "held".to_string(), Ok(Err(Fail(m))) => if m.starts_with("HARNESS") { return Err(Fail(m)) } else { "failed".into() }, Err(_) => "panicked".into() };
	see(ctx, "outcome", format!("{} {}", name, end));
	let calls = CALLS.with(|c| c.replace(None)).unwrap_or((0, 0));
	see(ctx, "backend calls", format!("{} digest {:016x}", calls.1, calls.0));
	ctx.count("backend_calls", calls.1);
	if k < OTHERS.len() { ctx.count("borrowed_cases", 1); }
	let fp = ctx.fp;
	ctx.observe(&fp.to_le_bytes());
	ctx.nontrivial = true;
	Ok(())
}
