//! C10, C20: proof recording and replay. C11: compact proofs.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::p_raw::{gen_index, path_of};
use crate::session::*;
use crate::types::*;
use crate::{ensure, fail, ok};
use bm::{CompactValue, DynBackend, Index, Proofs, ProvingBackend, ProvingState, WriteBackend};
use bm_le::IntoTree;
use std::cell::RefCell;
use crate::maps::{HashMap, HashSet};
use std::rc::Rc;

type Map = HashMap<V, (V, V)>;
fn same(ctx: &mut Ctx, s: &str, what: &str, a: &[String], b: &[String]) -> R {
	for (k, (x, y)) in a.iter().zip(b).enumerate() { ensure!(x == y, "{}: step {} gives {:.300} in the session but {:.300} {}", s, k, x, y, what); }
	ctx.count("results_compared", a.len() as u64);
	Ok(())
}
/// Leaves of the full expansion of the proof below a root.
pub fn leaves(m: &Map, x: &V, memo: &mut HashMap<V, u64>) -> u64 {
	if let Some(n) = memo.get(x) { return *n }
	let n = match m.get(x) { Some((l, r)) => leaves(m, l, memo).saturating_add(leaves(m, r, memo)), None => 1 };
	memo.insert(x.clone(), n);
	n
}

fn print(s: &str) -> u64 { s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3)) }

// ---- C10

fn replay<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let grafts = ctx.rng.chance(1, 5);
	let (mut base, mut s) = gen_script::<C>(ctx, grafts)?;
	s.drop = false;
	let (first, proofs) = {
		let mut db = Unify(ProvingBackend::new(&mut base));
		let out = run_script::<C>(&s, &mut db);
		(out, Proofs::from(db.0))
	};
	let name = s.name::<C>();
	ctx.t(100, s.len() as u64 ^ proofs.len() as u64 ^ print(&name), || format!("session on {}: {} proof entries", name, proofs.len()));
	ctx.count("sessions", 1);
	ctx.count("proof_entries", proofs.len() as u64);
	let fresh = |m: Map| -> R<Mon<InMem<C>>> {
		let mut mem = InMem::<C>::default();
		mem.populate(m);
		if s.owned() { ok!(mem.rootify(&s.root), "rootify"); }
		Ok(Mon::new(mem))
	};
	let mut db = fresh(proofs.clone().into())?;
	let again = run_script::<C>(&s, &mut db);
	same(ctx, &name, "when replayed from the proof", &first, &again)?;
	ctx.count("replays", 1);
	// the verifier may record in turn: nothing more is needed
	let mut inner = fresh(proofs.clone().into())?.inner;
	let (third, proofs2) = { let mut db = Unify(ProvingBackend::new(&mut inner)); let o = run_script::<C>(&s, &mut db); (o, Proofs::from(db.0)) };
	same(ctx, &name, "when replayed from the proof under a recorder", &first, &third)?;
	for (k, x) in proofs2.iter() { ensure!(proofs.get(k) == Some(x), "{}: replaying from the proof reads node {} that the proof does not have", name, hex(k)); }
	// through the compact form
	let map: Map = proofs.clone().into();
	if !s.grafts {
		let unfolded = leaves(&map, &s.root, &mut HashMap::new());
		let compact = proofs.into_compact(s.root.clone());
		let (p2, root2) = Proofs::from_compact::<C>(compact);
		ensure!(root2 == s.root, "{}: the compact proof has root {} instead of {}", name, hex(&root2), hex(&s.root));
		let mut db = fresh(p2.into())?;
		let again = run_script::<C>(&s, &mut db);
		same(ctx, &name, "when replayed from the compact proof", &first, &again)?;
		ctx.count("compact_replays", 1);
		if unfolded > 1 << 30 { ctx.count("repetitive_compact_replays", 1); }
	}
	if matches!(s.what, What::Typed { .. }) { ctx.count("typed_sessions", 1); }
	if matches!(s.what, What::Partial { .. }) { ctx.count("partial_sessions", 1); }
	for x in &first { ctx.observe(x.as_bytes()); }
	ctx.nontrivial = s.len() > 1 || !map.is_empty();
	Ok(())
}
pub fn c10(ctx: &mut Ctx) -> R { match ctx.rng.below(10) { 0..=5 => replay::<Inh>(ctx), 6..=8 => replay::<Unit>(ctx), _ => replay::<Inh512>(ctx) } }

// ---- C20

fn transparent<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let grafts = ctx.rng.chance(1, 4);
	let (base, s) = gen_script::<C>(ctx, grafts)?;
	let name = s.name::<C>();
	// directly
	let mut direct = Mon::new(base.clone());
	let want = run_script::<C>(&s, &mut direct);
	// recorded, in one go
	let mut wrapped = Mon::new(base.clone());
	wrapped.log = Some(vec![]);
	let (got, state) = { let mut db = Unify(ProvingBackend::new(&mut wrapped)); let o = run_script::<C>(&s, &mut db); (o, db.0.into_state()) };
	same(ctx, &name, "over the recording backend (session run directly first)", &want, &got)?;
	ensure!(wrapped.inner.as_ref() == direct.inner.as_ref(), "{}: the store differs after a recorded session ({} nodes against {} directly)", name, wrapped.inner.as_ref().len(), direct.inner.as_ref().len());
	// exactly the reads
	let mut written: HashSet<V> = HashSet::new();
	let mut expect: Map = HashMap::new();
	let log = wrapped.log.take().unwrap();
	for e in &log {
		match e {
			Ev::Get(k, Some(x)) => { if !written.contains(k) { expect.insert(k.clone(), x.clone()); } ctx.count("reads_recorded", 1); },
			Ev::Insert(k, _) => { written.insert(k.clone()); },
			_ => (),
		}
	}
	for (k, x) in &expect { ensure!(state.proofs.get(k) == Some(x), "{}: node {} was read but the proof has {:?}", name, hex(k), state.proofs.get(k).map(|x| (hex(&x.0), hex(&x.1)))); }
	for k in state.proofs.keys() { ensure!(expect.contains_key(k), "{}: the proof has node {}, which the session {}", name, hex(k), if written.contains(k) { "wrote itself" } else { "did not read" }); }
	ctx.count("proof_entries", expect.len() as u64);
	ctx.max("max_proof", expect.len() as u64);
	// suspended and resumed at several points
	let mut inner = Mon::new(base.clone());
	let mut st: ProvingState<V> = Default::default();
	let mut r = Runner::<C>::Start;
	let n = Runner::<C>::steps(&s);
	let mut out = vec![];
	let mut k = 0;
	while k < n {
		let upto = (k + 1 + ctx.rng.us(6)).min(n);
		let mut db = Unify(ProvingBackend::from_state(st, &mut inner));
		while k < upto { out.push(r.step(&s, k, &mut db)); k += 1; }
		st = db.0.into_state();
		if ctx.rng.chance(1, 2) { st = st.clone(); }
		ctx.count("suspensions", 1);
	}
	same(ctx, &name, "when recording is suspended and resumed", &want, &out)?;
	ensure!(st == state, "{}: suspending and resuming the recorder changes its state ({} proof entries and {} inserts against {} and {})", name, st.proofs.len(), st.inserts.len(), state.proofs.len(), state.inserts.len());
	ensure!(inner.inner.as_ref() == direct.inner.as_ref(), "{}: suspending and resuming the recorder changes the store", name);
	// the proof taken from the backend itself
	let mut inner = base.clone();
	let p = { let mut db = Unify(ProvingBackend::new(&mut inner)); run_script::<C>(&s, &mut db); Proofs::from(db.0) };
	let p: Map = p.into();
	ensure!(p == expect, "{}: the proof taken from the backend differs from its state", name);
	// recorder over recorder, and an error-erasing one
	let mut inner = base.clone();
	let mut outer = ProvingBackend::new(&mut inner);
	let (got, st2) = { let mut db = Unify(ProvingBackend::new(&mut outer)); let o = run_script::<C>(&s, &mut db); (o, db.0.into_state()) };
	let st1 = outer.into_state();
	same(ctx, &name, "over two recorders", &want, &got)?;
	ensure!(st1 == state && st2 == state, "{}: two recorders over each other do not record the same", name);
	let mut db = Unify(DynBackend(base.clone()));
	let got = run_script::<C>(&s, &mut db);
	same(ctx, &name, "over the error-erasing backend", &want, &got)?;
	ensure!((db.0).0.as_ref() == direct.inner.as_ref(), "{}: the store differs after a session over the error-erasing backend", name);
	// a call of the wrapped backend fails: the recorder passes it on, and has recorded what was read and nothing else
	if ctx.rng.chance(1, 2) && !log.is_empty() {
		let at = ctx.rng.below(log.len() as u64);
		let mut direct = Mon::new(base.clone());
		direct.arm(Some(at));
		let want = run_script::<C>(&s, &mut direct);
		let mut wrapped = Mon::new(base.clone());
		wrapped.log = Some(vec![]);
		wrapped.arm(Some(at));
		let (got, st) = { let mut db = Unify(ProvingBackend::new(&mut wrapped)); let o = run_script::<C>(&s, &mut db); (o, db.0.into_state()) };
		same(ctx, &format!("{}, call {} of the backend failing", name, at), "over the recording backend (session run directly first)", &want, &got)?;
		ensure!(wrapped.inner.as_ref() == direct.inner.as_ref(), "{}: with call {} of the backend failing, the store differs after a recorded session", name, at);
		let (mut written, mut read): (HashSet<V>, Map) = Default::default();
		let (mut insert_failed, mut n) = (false, 0);
		for e in wrapped.log.take().unwrap() {
			match e { Ev::Get(k, Some(x)) => { if !written.contains(&k) { read.insert(k, x); } }, Ev::Insert(k, _) => { written.insert(k); }, Ev::Fault(_) => insert_failed = matches!(log.get(n), Some(Ev::Insert(..))), _ => () }
			n += 1;
		}
		for k in st.proofs.keys() { ensure!(read.contains_key(k), "{}: with call {} of the backend failing, the proof has node {}, which the session did not read before writing it", name, at, hex(k)); }
		for (k, x) in &read {
			match st.proofs.get(k) { Some(y) => ensure!(x == y, "{}: with call {} failing, the proof has other children for node {}", name, at, hex(k)), None => fail!("{}: with call {} of the backend failing, node {} was read but the proof does not have it", name, at, hex(k)) }
		}
		// a node that was not written is not the session's own
		ensure!(st.inserts == written.iter().cloned().collect(), "{}: with call {} of the backend failing, {} nodes are recorded as written instead of {}", name, at, st.inserts.len(), written.len());
		if insert_failed { ctx.count("failed_inserts_while_recording", 1); }
		ctx.count("faults_while_recording", 1);
	}
	ctx.count("sessions", 1);
	if matches!(s.what, What::Partial { .. }) { ctx.count("partial_sessions", 1); }
	ctx.t(110, s.len() as u64 ^ (expect.len() as u64) << 20 ^ print(&name), || format!("session on {}: {} calls, {} proof entries", name, log.len(), expect.len()));
	ctx.nontrivial = !log.is_empty();
	Ok(())
}
/// Merkleization and direct calls recorded.
fn direct_calls<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let (base, _) = gen_script::<C>(ctx, false)?;
	let mut keys: Vec<V> = base.as_ref().keys().cloned().collect();
	keys.sort();
	let mut direct = Mon::new(base.clone());
	let mut inner = base;
	let mut rec = ProvingBackend::new(&mut inner);
	let mut read: Map = HashMap::new();
	let mut written: HashSet<V> = HashSet::new();
	let n = ctx.rng.range(5, 80);
	for _ in 0..n {
		use bm::ReadBackend;
		match ctx.rng.below(6) {
			0 | 1 | 2 => {
				let k = if ctx.rng.chance(1, 6) || keys.is_empty() { vs(&ctx.rng.bytes(32)) } else { ctx.rng.pick(&keys).clone() };
				let want = ok!(direct.get(&k), "get");
				let got = ok!(rec.get(&k), "get");
				ensure!(want == got, "get({}) is {:?} recorded and {:?} directly", hex(&k), got.map(|x| hex(&x.0)), want.map(|x| hex(&x.0)));
				if let Some(x) = got { if !written.contains(&k) { read.insert(k, x); } ctx.count("reads_recorded", 1); }
			},
			3 => {
				let (l, r) = (if keys.is_empty() { zero() } else { ctx.rng.pick(&keys).clone() }, vs(&ctx.rng.bytes(1)));
				let k = C::h(&l, &r);
				ok!(direct.insert(k.clone(), (l.clone(), r.clone())), "insert");
				ok!(rec.insert(k.clone(), (l, r)), "insert");
				written.insert(k.clone());
				keys.push(k);
			},
			4 => { let k = if keys.is_empty() { zero() } else { ctx.rng.pick(&keys).clone() }; ok!(direct.rootify(&k), "rootify"); ok!(rec.rootify(&k), "rootify"); },
			_ => {
				let ty = ctx.rng.us(C::tcount());
				let val = C::tgen(ty, &mut ctx.rng);
				direct.log = Some(vec![]);
				let a = ok!(C::into(&*val, &mut direct), "merkleizing {:?}", val);
				for e in direct.log.take().unwrap() { match e { Ev::Insert(k, _) => { written.insert(k); }, Ev::Get(k, Some(x)) if !written.contains(&k) => { read.insert(k, x); }, _ => () } }
				let b = { let mut db = Unify(rec); let b = ok!(C::into(&*val, &mut db), "merkleizing {:?} over a recorder", val); rec = db.0; b };
				ensure!(a == b, "{:?} merkleizes to {} recorded and {} directly", val, hex(&b), hex(&a));
				keys.push(a);
			},
		}
	}
	let st = rec.into_state();
	ensure!(st.proofs == read, "the proof of direct calls has {} entries instead of {}", st.proofs.len(), read.len());
	ensure!(inner.as_ref() == direct.inner.as_ref(), "the store differs after recorded direct calls");
	ctx.count("direct_sessions", 1);
	ctx.t(111, n, || format!("{} direct calls, {} proof entries", n, read.len()));
	ctx.nontrivial = true;
	Ok(())
}
pub fn c20(ctx: &mut Ctx) -> R {
	match ctx.rng.below(12) { 0..=5 => transparent::<Inh>(ctx), 6..=7 => transparent::<Unit>(ctx), 8 => transparent::<Inh512>(ctx), 9..=10 => direct_calls::<Inh>(ctx), _ => direct_calls::<Unit>(ctx) }
}

// ---- C11

pub type CV = CompactValue<V>;
fn pair(l: CV, r: CV) -> CV { CompactValue::Combined(Box::new((l, r))) }
/// A random compact value with its tree.
pub fn gen_compact<C: Cons>(rng: &mut Rng, depth: usize) -> (CV, Rc<T>) {
	if depth == 0 || rng.chance(1, 4) { let x = match rng.below(4) { 0 => zero(), 1 => vlen(rng.below(3)), _ => vs(&rng.bytes(32)) }; return (CompactValue::Single(x.clone()), T::leaf(x)) }
	if rng.chance(1, 6) { let (c, t) = gen_compact::<C>(rng, depth - 1); return (pair(c.clone(), c), T::node::<C>(t.clone(), t)) }
	let (a, s) = gen_compact::<C>(rng, depth - 1);
	let (b, t) = gen_compact::<C>(rng, depth - 1);
	(pair(a, b), T::node::<C>(s, t))
}
fn entries(c: &CV, t: &Rc<T>, m: &mut Map) {
	if let (CompactValue::Combined(b), Some((l, r))) = (c, &t.kids) { m.insert(t.hash.clone(), (l.hash.clone(), r.hash.clone())); entries(&b.0, l, m); entries(&b.1, r, m); }
}
fn count(c: &CV) -> usize { match c { CompactValue::Single(_) => 1, CompactValue::Combined(b) => count(&b.0) + count(&b.1) } }
fn inner(c: &CV) -> usize { match c { CompactValue::Single(_) => 0, CompactValue::Combined(b) => 1 + inner(&b.0) + inner(&b.1) } }
fn show(c: &CV) -> String { match c { CompactValue::Single(x) => hex(x)[..6].into(), CompactValue::Combined(b) => format!("({} {})", show(&b.0), show(&b.1)) } }
/// Change the k-th node (preorder); returns whether the root must change.
fn mutate<C: Cons>(rng: &mut Rng, c: &CV, t: &Rc<T>, k: &mut usize) -> (CV, Option<(bool, &'static str)>) {
	if *k == 0 {
		*k = usize::max_value();
		let y = match rng.below(3) { 0 => zero(), 1 => t.hash.clone(), _ => vs(&rng.bytes(32)) };
		return match (c, &t.kids) {
			(CompactValue::Single(x), _) => match rng.below(4) {
				0 => { let mut b = [0u8; 32]; b.copy_from_slice(bytes(x)); b[rng.us(32)] ^= 1 << rng.us(8); (CompactValue::Single(v(b)), Some((true, "a flipped bit"))) },
				1 => { let ch = y != *x; (CompactValue::Single(y), Some((ch, "a changed value"))) },
				2 => (pair(c.clone(), CompactValue::Single(y)), Some((true, "an added branch"))),
				_ => (pair(CompactValue::Single(y), c.clone()), Some((true, "an added branch"))),
			},
			(CompactValue::Combined(b), Some((l, r))) => match rng.below(5) {
				0 => (pair(b.1.clone(), b.0.clone()), Some((l.hash != r.hash, "swapped sides"))),
				1 => (CompactValue::Single(t.hash.clone()), Some((false, "an abbreviation"))),
				2 => (b.0.clone(), Some((true, "a dropped branch"))),
				3 => (b.1.clone(), Some((true, "a dropped branch"))),
				_ => (pair(c.clone(), CompactValue::Single(y)), Some((true, "an added branch"))),
			},
			_ => unreachable!(),
		}
	}
	*k -= 1;
	if let (CompactValue::Combined(b), Some((l, r))) = (c, &t.kids) {
		let (a, w) = mutate::<C>(rng, &b.0, l, k);
		if w.is_some() { return (pair(a, b.1.clone()), w) }
		let (a, w) = mutate::<C>(rng, &b.1, r, k);
		if w.is_some() { return (pair(b.0.clone(), a), w) }
	}
	(c.clone(), None)
}
fn compact<C: Cons>(ctx: &mut Ctx) -> R {
	let d = ctx.rng.us(9);
	let (c, t) = gen_compact::<C>(&mut ctx.rng, d);
	ctx.t(120, count(&c) as u64, || format!("compact value {}", show(&c)));
	check_compact::<C>(ctx, &c, &t)?;
	// mutations
	let total = count(&c) + inner(&c);
	for _ in 0..10 {
		let mut k = ctx.rng.us(total);
		let (m, w) = mutate::<C>(&mut ctx.rng, &c, &t, &mut k);
		let (must, what) = match w { Some(w) => w, None => continue };
		let root = m.clone().root::<C>();
		ensure!((root != t.hash) == must, "compact value {}: {} gives {} with root {} ({} expected)", show(&c), what, show(&m), hex(&root), if must { "another root" } else { "the same root" });
		ctx.count("mutations", 1);
		if !must {
			let (p, r) = Proofs::from_compact::<C>(m.clone());
			ensure!(r == t.hash, "abbreviated compact value {} expands with root {}", show(&m), hex(&r));
			let mut all = HashMap::new();
			entries(&c, &t, &mut all);
			for (k, x) in p.iter() { ensure!(all.get(k) == Some(x), "abbreviated compact value has an entry {} the full one has not", hex(k)); }
			ctx.count("abbreviations", 1);
		}
	}
	ctx.nontrivial = inner(&c) > 0;
	Ok(())
}
fn check_compact<C: Cons>(ctx: &mut Ctx, c: &CV, t: &Rc<T>) -> R {
	ensure!(c.len() == count(c), "compact value {} has length {}", show(c), c.len());
	let root = c.clone().root::<C>();
	ensure!(root == t.hash, "compact value {} has root {} instead of {}", show(c), hex(&root), hex(&t.hash));
	let mut want = HashMap::new();
	entries(c, t, &mut want);
	let (p, root) = Proofs::from_compact::<C>(c.clone());
	ensure!(root == t.hash, "compact value {} expands with root {} instead of {}", show(c), hex(&root), hex(&t.hash));
	let got: Map = p.clone().into();
	ensure!(got == want, "compact value {} expands to {} entries instead of {}", show(c), got.len(), want.len());
	// fold visits every branch once, children before parents, left and right in place
	let seen: RefCell<Vec<V>> = RefCell::new(vec![]);
	let (n, root) = c.clone().fold::<C, u64, _>(&|k, (a, l), (b, r)| { if C::h(&l, &r) == k { seen.borrow_mut().push(k); } a + b + 1 });
	ensure!(n == inner(c) as u64 && seen.borrow().len() == inner(c) && root == t.hash, "folding {} visits {} branches ({} rightly keyed) instead of {}", show(c), n, seen.borrow().len(), inner(c));
	// as a value
	let mut db = MapDb::<C>::new();
	let r = ok!(c.into_tree(&mut db), "merkleizing a compact value");
	ensure!(r == t.hash, "compact value {} merkleizes to {} instead of {}", show(c), hex(&r), hex(&t.hash));
	ensure!(db.map == want, "merkleizing {} stores {} entries instead of {}", show(c), db.map.len(), want.len());
	// entries back to compact, with unrelated entries around
	let mut st = ProvingState::<V>::default();
	st.proofs = want.clone();
	for _ in 0..ctx.rng.us(4) { let (a, b) = (vs(&ctx.rng.bytes(32)), vs(&ctx.rng.bytes(32))); st.proofs.insert(C::h(&a, &b), (a, b)); }
	// what is expanded once is in the entries, wherever else it is abbreviated
	let p = Proofs::from(st);
	let c2 = p.into_compact(t.hash.clone());
	let (p2, r2) = Proofs::from_compact::<C>(c2.clone());
	ensure!(r2 == t.hash, "compacting and expanding changes the root from {} to {}", hex(&t.hash), hex(&r2));
	let got: Map = p2.into();
	ensure!(got == want, "compacting and expanding {} entries gives {}", want.len(), got.len());
	let full = leaves(&want, &t.hash, &mut HashMap::new());
	ensure!(c2.len() as u64 <= full && c2.len() > want.len() && c2.len() <= 64 * (want.len() + 1), "{} entries from {} compact to {} leaves; unfolded there are {}", want.len(), hex(&t.hash), c2.len(), full);
	// with nothing repeated there is one way only
	if full == count(c) as u64 && full as usize == want.len() + 1 { ensure!(c2 == *c, "compacting the entries of {} gives {}", show(c), show(&c2)); ctx.count("compact_unique", 1); }
	ctx.count("compact_round_trips", 1);
	ctx.count("compact_values", 1);
	Ok(())
}
/// Entries of a real session.
fn recorded<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let (mut base, s) = gen_script::<C>(ctx, false)?;
	let proofs = { let mut db = Unify(ProvingBackend::new(&mut base)); run_script::<C>(&s, &mut db); Proofs::from(db.0) };
	let map: Map = proofs.clone().into();
	let full = leaves(&map, &s.root, &mut HashMap::new());
	let c = proofs.into_compact(s.root.clone());
	let mut want = HashMap::new();
	let mut todo = vec![s.root.clone()];
	while let Some(x) = todo.pop() { if want.contains_key(&x) { continue } if let Some(k) = map.get(&x) { todo.push(k.0.clone()); todo.push(k.1.clone()); want.insert(x, k.clone()); } }
	let (p, r) = Proofs::from_compact::<C>(c.clone());
	ensure!(r == s.root, "compacting a recorded proof changes its root");
	let got: Map = p.into();
	ensure!(got == want, "compacting a recorded proof of {} entries, {} reachable, keeps {}", map.len(), want.len(), got.len());
	ensure!(c.len() as u64 <= full && c.len() > want.len() && c.len() <= 64 * (want.len() + 1), "compact form of a recorded proof of {} entries has {} leaves; unfolded there are {}", want.len(), c.len(), full);
	ensure!(c.clone().root::<C>() == s.root, "compact form of a recorded proof has another root");
	if full > 1 << 30 { ctx.count("repetitive_proofs", 1); }
	ctx.count("recorded_proofs", 1);
	ctx.t(121, full, || format!("recorded proof of {} entries, {} leaves", map.len(), full));
	ctx.nontrivial = !map.is_empty();
	Ok(())
}
fn branches<C: Cons>(ctx: &mut Ctx) -> R {
	for _ in 0..12 {
		let idx = match ctx.rng.below(4) { 0 => 1 + ctx.rng.us(40), _ => gen_index(&mut ctx.rng, &[]) };
		let path = path_of(idx);
		let leaf = vs(&Gen::val(&mut ctx.rng, 32, &[]));
		let sibs: Vec<V> = (0..path.len()).map(|_| vs(&Gen::val(&mut ctx.rng, 32, &[]))).collect();
		let eval = |leaf: &V, sibs: &[V], path: &[bool]| { let mut x = leaf.clone(); for (s, b) in sibs.iter().zip(path.iter().rev()) { x = if *b { C::h(s, &x) } else { C::h(&x, s) }; } x };
		let root = eval(&leaf, &sibs, &path);
		let from = |l: &V, s: &[V], i: usize| CompactValue::from_plain(l.clone(), s.to_vec(), Index::from_one(i).unwrap());
		let c = match from(&leaf, &sibs, idx) { Some(c) => c, None => fail!("a branch of {} siblings at index {} is refused", sibs.len(), idx) };
		ensure!(c.len() == path.len() + 1, "a branch of {} siblings has length {}", sibs.len(), c.len());
		let got = c.root::<C>();
		ensure!(got == root, "the branch at index {} evaluates to {} instead of {}", idx, hex(&got), hex(&root));
		ctx.count("branches", 1);
		// wrong numbers of siblings
		for n in [0, 1, path.len().saturating_sub(1), path.len() + 1, path.len() + 2, path.len() * 2 + 1] {
			if n == path.len() { continue }
			let mut s = sibs.clone();
			s.resize(n, zero());
			ensure!(from(&leaf, &s, idx).is_none(), "a branch of {} siblings is accepted at index {} of depth {}", n, idx, path.len());
			ctx.count("wrong_counts_refused", 1);
		}
		// anything wrong gives another root
		let mut b = [0u8; 32];
		b.copy_from_slice(bytes(&leaf));
		b[ctx.rng.us(32)] ^= 1 << ctx.rng.us(8);
		ensure!(from(&v(b), &sibs, idx).map(|c| c.root::<C>()) != Some(root.clone()), "a wrong leaf evaluates to the same root");
		if !sibs.is_empty() {
			let k = ctx.rng.us(sibs.len());
			let mut s = sibs.clone();
			b.copy_from_slice(bytes(&s[k]));
			b[ctx.rng.us(32)] ^= 1 << ctx.rng.us(8);
			s[k] = v(b);
			ensure!(from(&leaf, &s, idx).map(|c| c.root::<C>()) != Some(root.clone()), "a wrong sibling evaluates to the same root");
			// another index of the same depth
			let flip = idx ^ (1 << ctx.rng.us(path.len()));
			let want = eval(&leaf, &sibs, &path_of(flip));
			ensure!(from(&leaf, &sibs, flip).map(|c| c.root::<C>()) == Some(want), "the branch at index {} evaluates wrongly", flip);
			ctx.count("wrong_branches", 2);
		}
	}
	// the siblings of a real tree
	let mut t = T::leaf(zero());
	for _ in 0..10 { let p = path_of(1 + ctx.rng.us(63)); t = t.set::<C>(&p, T::leaf(vs(&ctx.rng.bytes(32)))); }
	for _ in 0..6 {
		let mut c = t.clone();
		let (mut sibs, mut path) = (vec![], vec![]);
		while let Some((l, r)) = c.kids.as_ref().map(|k| (k.0.clone(), k.1.clone())) { if path.len() > 2 && ctx.rng.chance(1, 6) { break } let b = ctx.rng.chance(1, 2); path.push(b); sibs.insert(0, if b { l.hash.clone() } else { r.hash.clone() }); c = if b { r } else { l }; }
		let i = crate::p_raw::index_of(&path);
		let got = CompactValue::from_plain(c.hash.clone(), sibs, Index::from_one(i).unwrap()).map(|c| c.root::<C>());
		ensure!(got.as_ref() == Some(&t.hash), "the branch of a tree at index {} evaluates to {:?} instead of its root {}", i, got.map(|x| hex(&x)), hex(&t.hash));
		ctx.t(122, i as u64, || format!("branch of a tree at {}", i));
		ctx.count("tree_branches", 1);
	}
	ctx.nontrivial = true;
	Ok(())
}
pub fn c11(ctx: &mut Ctx) -> R {
	match ctx.rng.below(12) { 0..=3 => compact::<Inh>(ctx), 4 => compact::<Unit>(ctx), 5 => compact::<Inh512>(ctx), 6..=7 => recorded::<Inh>(ctx), 8 => recorded::<Unit>(ctx), 9..=10 => branches::<Inh>(ctx), _ => branches::<Inh512>(ctx) }
}
