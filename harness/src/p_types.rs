//! C01, C02, C03, C15 and the typed part of C14: typed values against an independent SSZ reference.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::ops::*;
use crate::p_seq::snapshot;
use crate::seq::*;
use crate::types::*;
use crate::{ensure, fail, ok};
use bm::{Dangling, DynBackend, Index, Leak, List, NoopBackend, Owned, PackedVector, ProvingBackend, Raw, Sequence, Tree, WriteBackend};
use bm_le::*;
use generic_array::GenericArray;
use primitive_types::{H256, H512};
use crate::maps::HashMap;
use std::fmt::Debug;
use typenum::Unsigned;
use vecarray::VecArray;
use primitive_types::U256 as Uint;

fn big<C: TyC>(ctx: &mut Ctx) -> (usize, Box<dyn AnyVal>) {
	// every type is visited in turn, then at random
	let n = C::tcount();
	let ty = if ctx.rng.chance(1, 2) { (ctx.case as usize * 7 + ctx.rng.us(7)) % n } else { ctx.rng.us(n) };
	(ty, C::tgen(ty, &mut ctx.rng))
}
pub fn tree_of<C: TyC>(x: &dyn AnyVal) -> R<(V, HashMap<V, (V, V)>)> {
	let mut m = MapDb::<C>::new();
	let root = ok!(C::into(x, &mut m), "merkleizing {:?}", x);
	Ok((root, m.map))
}

// ---- C01

fn roots<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	for _ in 0..6 {
		let (ty, val) = big::<C>(ctx);
		let want = val.aroot(sp::<C>());
		let which = ctx.rng.below(4);
		with_db::<C>(which, ctx, |ctx, db| {
			let got = ok!(C::into(&*val, db), "merkleizing {:?} of {}", val, C::tname(ty));
			ctx.observe(bytes(&got));
			ensure!(got == want, "{} {:?}: root is {} instead of {} ({})", C::tname(ty), val, hex(&got), hex(&want), C::NAME);
			Ok(())
		})?;
		let noop = C::noop(&*val);
		ensure!(noop.as_ref() == Some(&want), "{} {:?}: root over the discarding backend is {:?} instead of {}", C::tname(ty), val, noop, hex(&want));
		let (a, b) = val.tree_roots();
		ensure!(Value(a) == val.aroot(sp::<Inh>()), "{} {:?}: tree_root (sha256) is {:?} instead of {}", C::tname(ty), val, a, hex(&val.aroot(sp::<Inh>())));
		ensure!(Value(b) == val.aroot(sp::<Inh512>()), "{} {:?}: tree_root (sha512/256) is {:?} instead of {}", C::tname(ty), val, b, hex(&val.aroot(sp::<Inh512>())));
		ctx.count("values", 1);
		ctx.count("roots_compared", 4);
		ctx.t(1, ty as u64, || format!("{} -> {} ({})", C::tname(ty), hex(&want), C::NAME));
	}
	ctx.nontrivial = true;
	Ok(())
}
fn rmax(ctx: &mut Ctx, n: u64, es: u64) -> Option<u64> {
	match ctx.rng.below(6) {
		0 | 1 => None,
		2 => Some(n.max(1)),
		3 => Some(n.max(1) + ctx.rng.below(70)),
		4 => Some(n.max(1) << ctx.rng.below(20)),
		_ => Some(crate::ops::narrow([1u64 << 40, (1 << 50) + 1, 1 << 58, (1 << 57) - 1][ctx.rng.us(4)]) / es.max(1) * es.max(1)),
	}
}
/// Lengths around what this host's words and indices hold.
pub fn lengths(ctx: &mut Ctx) -> R {
	let (top, word) = (1u128 << (usize::BITS - 1), usize::MAX as u128);
	for _ in 0..6 {
		let mut db = MapDb::<Inh>::new();
		let xs: Vec<u64> = (0..ctx.rng.us(5)).map(|_| ctx.rng.next()).collect();
		let items = { let root = ok!(xs.into_tree(&mut db), "list"); db.map[&root].0.clone() };
		let d = ctx.rng.below(5) as u128;
		let n = [top - d, top + 1 + d, word - d, word + 1 + d, (1 << 31) - d, (1 << 31) + d, (1 << 32) - 1 - d, (1 << 32) + d, (1 << 63) + d, (1 << 64) - 1 - d, (1 << 33) + d, 1 << (32 + ctx.rng.us(31))][ctx.rng.us(12)];
		ctx.t(13, n as u64, || format!("length {}", n));
		let wide = |n: u128| { let mut b = [0u8; 32]; b[..16].copy_from_slice(&n.to_le_bytes()); v(b) };
		let r = claim(&mut db, items, wide(n));
		let mut mon = budgeted(&db);
		match Vec::<u64>::from_tree(&r, &mut mon) { Ok(x) => fail!("a list claiming length {} decodes as {:?}", n, x), Err(bm::Error::CorruptedDatabase) => (), Err(e) => ensure!(n <= top, "a list claiming length {} reports {:?}", n, e) }
		match bm_le::utils::decode_with_length::<Ignored, _>(&r, &mut mon) { Ok((_, l)) => ensure!(l as u128 == n, "length {} decodes as {}", n, l), Err(bm::Error::CorruptedDatabase) => ensure!(n > word, "length {} is refused", n), Err(e) => fail!("length {} reports {:?}", n, e) }
		match bm_le::utils::decode_with_type(&r, &mut mon, |_, _, t| Ok(t)) { Ok(l) => ensure!(l as u128 == n, "type {} decodes as {}", n, l), Err(bm::Error::CorruptedDatabase) => ensure!(n > word, "type {} is refused", n), Err(e) => fail!("type {} reports {:?}", n, e) }
		if n <= word {
			let r = ok!(bm_le::utils::mix_in_length(&xs, &mut db, n as usize), "mixing in {}", n);
			ensure!(r == Inh::h(&ok!(xs.into_tree(&mut db), "list"), &vlen(n as u64)), "mixing in {} gives {}", n, hex(&r));
			let (back, l) = ok!(bm_le::utils::decode_with_length::<Vec<u64>, _>(&r, &mut db), "decoding {}", n);
			ensure!(back == xs && l as u128 == n, "mixed in length {} decodes as {}", n, l);
		}
		// element through a partial view: the position is past what is there
		let raw = Raw::<Dangling, Inh>::from_leaked(r);
		let at = [0usize, 1, 1 << 30, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX][ctx.rng.us(6)];
		let mut p = PartialValue::<u64>::new(PartialIndex::root().list(at));
		let got = p.get(&raw, &mut DbRef::<Inh>(&mut budgeted(&db)));
		ensure!(got.is_err() || (at as u128) < n, "element {} of a list claiming {} reads as {:?}", at, n, got);
		ctx.count("host_lengths", 1);
	}
	ctx.nontrivial = true;
	Ok(())
}
/// A length, sometimes around the ends of one and two bytes.
fn long(ctx: &mut Ctx, usual: usize) -> usize {
	let n = if ctx.rng.chance(1, 1000) { 65530 + ctx.rng.us(12) } else if ctx.rng.chance(1, 50) { 250 + ctx.rng.us(800) } else { return ctx.rng.len(usual) };
	ctx.count("long_values", 1);
	n
}
/// The runtime-maximum traits, slices and reference wrappers.
fn parts<C: Cons>(ctx: &mut Ctx) -> R {
	fn compact<C: Cons, T: Ssz + Packs + Clone + Debug + PartialEq>(ctx: &mut Ctx, name: &str) -> R
		where for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree,
			ElementalFixedVec<T>: FromCompactVectorTree {
		let n = long(ctx, 140);
		let xs: Vec<T> = (0..n).map(|_| T::gen(&mut ctx.rng, 1)).collect();
		let max = rmax(ctx, n as u64, 1);
		let s = sp::<C>();
		let items = s.root(&T::pk(&xs), Some(max.map(T::limit).unwrap_or(T::pk(&xs).len() as u64)));
		let list = s.mix(items.clone(), n as u64);
		let mut m = InMem::<C>::default();
		let a = ok!(ElementalFixedVecRef(&xs).into_compact_vector_tree(&mut m, max), "compact vector of {} {}", n, name);
		let b = ok!(ElementalFixedVec(xs.clone()).into_compact_vector_tree(&mut m, max), "compact vector of {} {}", n, name);
		let c = ok!(ElementalVariableVecRef(&xs).into_compact_list_tree(&mut m, max), "compact list of {} {}", n, name);
		let d = ok!(ElementalVariableVec(xs.clone()).into_compact_list_tree(&mut m, max), "compact list of {} {}", n, name);
		ensure!(a == items && b == items, "compact vector of {} {} with maximum {:?}: root {} / {} instead of {}", n, name, max, hex(&a), hex(&b), hex(&items));
		ensure!(c == list && d == list, "compact list of {} {} with maximum {:?}: root {} / {} instead of {}", n, name, max, hex(&c), hex(&d), hex(&list));
		{
			let x = ok!(ElementalFixedVec::<T>::from_compact_vector_tree(&a, &mut m, n, max), "decoding compact vector of {} {} with maximum {:?}", n, name, max);
			let y = ok!(ElementalVariableVec::<T>::from_compact_list_tree(&c, &mut m, max), "decoding compact list of {} {} with maximum {:?}", n, name, max);
			ensure!(x.0 == xs, "compact vector of {} {} decodes to another value", n, name);
			ensure!(y.0 == xs, "compact list of {} {} decodes to another value", n, name);
		}
		ctx.t(10, n as u64 ^ max.unwrap_or(0), || format!("compact {} x{} max {:?}", name, n, max));
		ctx.count("runtime_maximum_values", 1);
		Ok(())
	}
	fn composite<C: Cons, T: Ssz + IntoTree + FromTree + Clone + Debug + PartialEq>(ctx: &mut Ctx, name: &str) -> R {
		let n = if name == "u8" { long(ctx, 60) } else { ctx.rng.len(60) };
		let xs: Vec<T> = (0..n).map(|_| T::gen(&mut ctx.rng, 1)).collect();
		let max = rmax(ctx, n as u64, 1);
		let s = sp::<C>();
		let rs: Vec<V> = xs.iter().map(|x| x.sroot(s)).collect();
		let items = s.root(&rs, max);
		let list = s.mix(items.clone(), n as u64);
		let mut m = InMem::<C>::default();
		let a = ok!(ElementalFixedVecRef(&xs).into_composite_vector_tree(&mut m, max), "composite vector of {} {}", n, name);
		let b = ok!(ElementalFixedVec(xs.clone()).into_composite_vector_tree(&mut m, max), "composite vector of {} {}", n, name);
		let c = ok!(ElementalVariableVecRef(&xs).into_composite_list_tree(&mut m, max), "composite list of {} {}", n, name);
		let d = ok!(ElementalVariableVec(xs.clone()).into_composite_list_tree(&mut m, max), "composite list of {} {}", n, name);
		ensure!(a == items && b == items, "composite vector of {} {} with maximum {:?}: root {} / {} instead of {}", n, name, max, hex(&a), hex(&b), hex(&items));
		ensure!(c == list && d == list, "composite list of {} {} with maximum {:?}: root {} / {} instead of {}", n, name, max, hex(&c), hex(&d), hex(&list));
		let e = ok!(xs[..].into_tree(&mut m), "slice of {} {}", n, name);
		let want = s.mix(s.root(&rs, None), n as u64);
		ensure!(e == want, "slice of {} {}: root {} instead of {}", n, name, hex(&e), hex(&want));
		let x = ok!(ElementalFixedVec::<T>::from_composite_vector_tree(&a, &mut m, n, max), "decoding composite vector of {} {} with maximum {:?}", n, name, max);
		let y = ok!(ElementalVariableVec::<T>::from_composite_list_tree(&c, &mut m, max), "decoding composite list of {} {} with maximum {:?}", n, name, max);
		ensure!(x.0 == xs && y.0 == xs, "composite sequence of {} {} decodes to another value", n, name);
		ctx.t(11, n as u64 ^ max.unwrap_or(0), || format!("composite {} x{} max {:?}", name, n, max));
		ctx.count("runtime_maximum_values", 1);
		Ok(())
	}
	macro_rules! go { ($f:ident: $($t:ty),*; $g:ident: $($u:ty),*) => {{ let mut k = ctx.rng.us(7 + 8) as i32; $( if k == 0 { $f::<C, $t>(ctx, stringify!($t))?; } k -= 1; )* $( if k == 0 { $g::<C, $u>(ctx, stringify!($u))?; } k -= 1; )* let _ = k; }} }
	for _ in 0..4 { go!(compact: bool, u8, u16, u32, u64, u128, Uint; composite: u8, u64, Value, Vec<u8>, Option<u32>, H512, S3, E5); }
	// reference wrappers
	macro_rules! cref { ($t:ty) => {{
		let x = Compact::<$t>::gen(&mut ctx.rng, 0);
		let want = x.sroot(sp::<C>());
		let mut m = InMem::<C>::default();
		let got = ok!(CompactRef(&x.0).into_tree(&mut m), "CompactRef of {}", stringify!($t));
		ensure!(got == want, "CompactRef of {} {:?}: root {} instead of {}", stringify!($t), x, hex(&got), hex(&want));
		let y = ok!(Compact::<$t>::from_tree(&got, &mut m), "decoding CompactRef of {}", stringify!($t));
		ensure!(y == x, "CompactRef of {} decodes to another value", stringify!($t));
		ctx.count("compact_references", 1);
	}} }
	use typenum::*;
	cref!(MaxVec<u8, U40>); cref!(MaxVec<bool, U300>); cref!(GenericArray<u16, U17>); cref!(GenericArray<bool, U33>); cref!(VecArray<u64, U5>); cref!(VecArray<primitive_types::U256, U3>); cref!(MaxVec<u128, U9>);
	// a compact proof merkleizes to the hash of its tree
	let mut c = CompactValue::Single(Value::gen(&mut ctx.rng, 0));
	let mut t = T::leaf(match &c { CompactValue::Single(x) => x.clone(), _ => unreachable!() });
	for _ in 0..ctx.rng.us(9) {
		let o = Value::gen(&mut ctx.rng, 0);
		if ctx.rng.chance(1, 2) { c = CompactValue::Combined(Box::new((c, CompactValue::Single(o.clone())))); t = T::node::<C>(t, T::leaf(o)); }
		else { c = CompactValue::Combined(Box::new((CompactValue::Single(o.clone()), c))); t = T::node::<C>(T::leaf(o), t); }
	}
	let got = ok!(c.into_tree(&mut NoopBackend::<C>::default()), "merkleizing a compact proof");
	ensure!(got == t.hash, "compact proof merkleizes to {} instead of {}", hex(&got), hex(&t.hash));
	ctx.nontrivial = true;
	Ok(())
}
/// The functions of `utils` and the ignored value, called directly.
fn helpers<C: Cons>(ctx: &mut Ctx) -> R {
	use bm_le::utils::*;
	let s = sp::<C>();
	let mut db = MapDb::<C>::new();
	for _ in 0..6 {
		let n = match ctx.rng.below(4) { 0 => ctx.rng.us(4), 1 => 250 + ctx.rng.us(10), 2 => 1usize << ctx.rng.us(WORD - 1), _ => ctx.rng.word() };
		let xs: Vec<u64> = (0..ctx.rng.us(9)).map(|_| ctx.rng.next()).collect();
		let x = (xs, ctx.rng.next() as u32);
		let want = s.mix(x.sroot(s), n as u64);
		for (what, r) in [("type", mix_in_type(&x, &mut db, n)), ("length", mix_in_length(&x, &mut db, n))] {
			let r = ok!(r, "mixing in the {} {}", what, n);
			ensure!(r == want, "mixing in the {} {} gives {} instead of {}", what, n, hex(&r), hex(&want));
		}
		let (y, m) = ok!(decode_with_length::<(Vec<u64>, u32), _>(&want, &mut db), "decoding with the length {}", n);
		ensure!(y == x && m == n, "{:?} with length {} decodes as {:?} with length {}", x, n, y, m);
		let (_, m) = ok!(decode_with_length::<Ignored, _>(&want, &mut db), "decoding with the length {}, ignoring the content", n);
		ensure!(m == n, "length {} decodes as {} where the content is ignored", n, m);
		let (y, m) = ok!(decode_with_type(&want, &mut db, |inner, db, t| Ok((<(Vec<u64>, u32)>::from_tree(inner, db)?, t))), "decoding with the type {}", n);
		ensure!(y == x && m == n, "{:?} with type {} decodes as {:?} with type {}", x, n, y, m);
		// wider than a length can be
		let r = claim(&mut db, x.sroot(s), vwide(&mut ctx.rng));
		corrupted(decode_with_length::<Ignored, _>(&r, &mut db), "a length of more than 64 bits")?;
		corrupted(decode_with_type(&r, &mut db, |_, _, t| Ok(t)), "a type of more than 64 bits")?;
		ctx.t(12, n as u64, || format!("type and length {} mixed in", n));
		// values at once
		let k = if ctx.rng.chance(1, 40) { crate::p_seq::gen_large(&mut ctx.rng).min(5000) } else { ctx.rng.len(80) };
		let vals: Vec<V> = (0..k).map(|_| Value::gen(&mut ctx.rng, 0)).collect();
		let max = rmax(ctx, k as u64, 1);
		let r = ok!(vector_tree(&vals, &mut db, max), "tree of {} values with maximum {:?}", k, max);
		ensure!(r == s.root(&vals, max), "tree of {} values with maximum {:?} has root {} instead of {}", k, max, hex(&r), hex(&s.root(&vals, max)));
		for i in [0, k / 2, k.saturating_sub(1)] {
			if i >= k { continue }
			let d = bm::DanglingVector::<C>::from_leaked((r.clone(), k, max));
			ensure!(ok!(d.get(&mut db, i), "value {} of {}", i, k) == vals[i], "value {} of {} built at once with maximum {:?} reads wrongly", i, k, max);
		}
		if k > 1 {
			let less = ctx.rng.below(k as u64);
			match vector_tree(&vals, &mut db, Some(less)) { Err(bm::Error::InvalidParameter) => (), r => fail!("tree of {} values with maximum {}: {:?}", k, less, r.map(|r| hex(&r))) }
		}
		// depths and host lengths
		let l = match ctx.rng.below(3) { 0 => ctx.rng.below(70), 1 => (1u64 << ctx.rng.below(64)).saturating_add(ctx.rng.below(3)).saturating_sub(1), 2 if ctx.rng.chance(1, 2) => ctx.rng.next(), _ => u64::max_value() - ctx.rng.below(70) };
		ensure!(required_depth(l) == depth_for(l), "depth of {} leaves is {} instead of {}", l, required_depth(l), depth_for(l));
		macro_rules! host { ($h:ty, $v:ty) => {{
			let l = l >> if ctx.rng.chance(1, 2) { 8 } else { 0 };
			let want = ((l as u128 * <$v>::to_u64() as u128 + <$h>::to_u64() as u128 - 1) / <$h>::to_u64() as u128).min(u64::max_value() as u128) as u64;
			ensure!(host_max_len::<$h, $v>(l) == want && (l.max(want) > TOPW || host_len::<$h, $v>(l as usize) == want as usize), "{} elements of {} bytes take {} chunks of {} instead of {}", l, stringify!($v), host_max_len::<$h, $v>(l), stringify!($h), want);
		}} }
		use typenum::*;
		host!(U32, U1); host!(U32, U8); host!(U32, U32); host!(U32, U33); host!(U32, U100); host!(U64, U7); host!(U8, U32); host!(U20, U3);
		ctx.count("helpers", 1);
	}
	ctx.nontrivial = true;
	Ok(())
}
use bm::CompactValue;
pub fn c01(ctx: &mut Ctx) -> R {
	if ctx.rng.chance(1, 20) { return match ctx.rng.below(3) { 0 => helpers::<Inh>(ctx), 1 => helpers::<Unit>(ctx), _ => helpers::<Inh512>(ctx) } }
	match ctx.rng.below(12) { 0..=4 => roots::<Inh>(ctx), 5..=6 => roots::<Unit>(ctx), 7 => roots::<Inh512>(ctx), 8..=9 => parts::<Inh>(ctx), 10 => parts::<Unit>(ctx), _ => parts::<Inh512>(ctx) }
}

// ---- C02

/// Something else in the backend: other values, and data that contains hashes of the value's nodes.
fn other<C: Cons + TyC>(ctx: &mut Ctx, db: &mut Dyn<C>, hashes: &[V], kept: &mut Vec<(usize, Box<dyn AnyVal>, V)>, owned: bool, dropped: &mut bool) -> R {
	match ctx.rng.below(8) {
		0 | 1 | 2 if !hashes.is_empty() => {
			// hashes of nodes as plain data
			let n = 1 + ctx.rng.us(6);
			let xs: Vec<Value> = (0..n).map(|_| ctx.rng.pick(hashes).clone()).collect();
			match ctx.rng.below(4) {
				0 => { ok!(xs.into_tree(&mut DbRef::<C>(db)), "merkleizing hashes"); },
				1 => { ok!(db.rootify(&xs[0]).map_err(bm::Error::Backend::<EE>), "rootify"); },
				2 => {
					let mut raw = Raw::<Dangling, C>::default();
					for (i, x) in xs.iter().enumerate() { ok!(raw.set(db, Index::from_depth(i, 3), x.clone()), "raw set"); }
				},
				_ => { let x = (xs[0].0, Some(xs[n - 1].0)); ok!(x.into_tree(&mut DbRef::<C>(db)), "merkleizing hashes"); },
			}
			ctx.count("hashes_as_data", 1);
			ctx.t(21, n as u64, || format!("merkleized {} node hashes as data", n));
		},
		3 if owned => {
			// an owned tree that comes and goes
			let mut raw = Raw::<Owned, C>::default();
			for _ in 0..ctx.rng.us(6) {
				let x = if !hashes.is_empty() && ctx.rng.chance(1, 2) { ctx.rng.pick(hashes).clone() } else { Value::gen(&mut ctx.rng, 0) };
				ok!(raw.set(db, Index::from_one(1 + ctx.rng.us(15)).unwrap(), x), "raw set");
			}
			if ctx.rng.chance(2, 3) { ok!(raw.drop(db), "drop"); *dropped = true; }
			ctx.count("owned_trees_around", 1);
		},
		_ => {
			let (ty, val) = big::<C>(ctx);
			let root = ok!(C::into(&*val, db), "merkleizing {:?} of {}", val, C::tname(ty));
			if owned { ok!(db.rootify(&root).map_err(bm::Error::Backend::<EE>), "rootify"); }
			ctx.t(22, ty as u64, || format!("other value of {}", C::tname(ty)));
			kept.push((ty, val, root));
		},
	}
	Ok(())
}
fn roundtrip<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let which = ctx.rng.below(5);
	// in a collecting store that sees drops, values are kept by owning their roots
	let owned = ctx.rng.chance(1, 2);
	with_db::<C>(which, ctx, |ctx, db| {
		for _ in 0..if owned { 1 } else { 3 } {
			let (ty, val) = big::<C>(ctx);
			let (want, nodes) = tree_of::<C>(&*val)?;
			let mut hashes: Vec<V> = nodes.keys().cloned().collect();
			hashes.sort();
			// typed values may hold hashes of nodes, too
			if ctx.rng.chance(1, 3) { pool(hashes.clone()); ctx.count("hashes_within_values", 1); }
			let mut kept = vec![];
			let mut dropped = false;
			let before = ctx.rng.us(4);
			for _ in 0..before { other::<C>(ctx, db, &hashes, &mut kept, owned, &mut dropped)?; }
			let root = ok!(C::into(&*val, db), "merkleizing {:?} of {}", val, C::tname(ty));
			ensure!(root == want, "{}: root {} differs from {} in an empty backend", C::tname(ty), hex(&root), hex(&want));
			if owned { ok!(db.rootify(&root).map_err(bm::Error::Backend::<EE>), "rootify"); }
			kept.push((ty, val, root));
			for k in 0..1 + ctx.rng.us(4) {
				if k > 0 { other::<C>(ctx, db, &hashes, &mut kept, owned, &mut dropped)?; }
				for (ty, val, root) in &kept {
					let got = ok!(C::dec(*ty, root, db), "decoding {} {:?} with {} other values stored", C::tname(*ty), val, kept.len() - 1);
					ensure!(val.same(&*got), "{}: {:?} decodes as {:?}", C::tname(*ty), val, got);
					let again = ok!(C::into(&*got, db), "merkleizing the decoded value");
					ensure!(again == *root, "{}: the decoded value has root {} instead of {}", C::tname(*ty), hex(&again), hex(root));
					ctx.count("decoded", 1);
				}
			}
			ctx.t(20, ty as u64, || format!("round trip of {} with {} others before", C::tname(ty), before));
		}
		ctx.nontrivial = true;
		Ok(())
	})
}
pub fn c02(ctx: &mut Ctx) -> R {
	if ctx.rng.chance(1, 30) { return match ctx.rng.below(3) { 0 => helpers::<Inh>(ctx), 1 => helpers::<Unit>(ctx), _ => helpers::<Inh512>(ctx) } }
	match ctx.rng.below(10) { 0..=5 => roundtrip::<Inh>(ctx), 6..=7 => roundtrip::<Unit>(ctx), 8 => roundtrip::<Inh512>(ctx), _ => match ctx.rng.below(3) { 0 => parts::<Unit>(ctx), _ => parts::<Inh>(ctx) } }
}

// ---- C03

fn backends<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let mut full = InMem::<C>::default();
	let mut kept = vec![];
	let mut dropped = false;
	for _ in 0..4 {
		let (ty, val) = big::<C>(ctx);
		let (want, nodes) = tree_of::<C>(&*val)?;
		let mut hashes: Vec<V> = nodes.keys().cloned().collect();
		hashes.sort();
		{
			let mut db = Mon::new(std::mem::take(&mut full));
			for _ in 0..ctx.rng.us(3) { other::<C>(ctx, &mut db, &hashes, &mut kept, true, &mut dropped)?; }
			full = db.inner;
		}
		let name = C::tname(ty);
		let noop = C::noop(&*val);
		ensure!(noop.as_ref() == Some(&want), "{} {:?}: root {:?} over the discarding backend, {} otherwise", name, val, noop, hex(&want));
		let empty_at_start = { let mut db = Mon::new(InMem::<C>::default()); ok!(C::into(&*val, &mut db), "merkleizing over an empty in-memory backend") };
		ensure!(empty_at_start == want, "{}: root {} over an empty in-memory backend, {} otherwise", name, hex(&empty_at_start), hex(&want));
		let proving = {
			let mut base = full.clone();
			let mut db = Unify(ProvingBackend::new(&mut base));
			ok!(C::into(&*val, &mut db), "merkleizing over a proving backend")
		};
		ensure!(proving == want, "{}: root {} over a proof-recording backend, {} otherwise", name, hex(&proving), hex(&want));
		let erased = { let mut db = Unify(DynBackend(full.clone())); ok!(C::into(&*val, &mut db), "merkleizing over an error-erasing backend") };
		ensure!(erased == want, "{}: root {} over an error-erasing backend, {} otherwise", name, hex(&erased), hex(&want));
		let mut db = Mon::new(std::mem::take(&mut full));
		let filled = ok!(C::into(&*val, &mut db), "merkleizing over a filled in-memory backend");
		ensure!(filled == want, "{}: root {} over a filled in-memory backend, {} otherwise", name, hex(&filled), hex(&want));
		let snap = snapshot(&db.inner);
		let again = ok!(C::into(&*val, &mut db), "merkleizing again");
		ensure!(again == want, "{}: root {} when merkleized again, {} first", name, hex(&again), hex(&want));
		ensure!(snapshot(&db.inner) == snap, "{}: merkleizing again changed the stored nodes", name);
		full = db.inner;
		ctx.count("values", 1);
		ctx.count("roots_compared", 6);
		ctx.max("max_stored", full.as_ref().len() as u64);
		ctx.t(30, ty as u64, || format!("{} over six backends -> {}", name, hex(&want)));
	}
	ctx.nontrivial = true;
	Ok(())
}
/// What is merkleized by other means than as a value of a type of its own.
#[derive(Debug)]
enum Piece { Proof(CompactValue<Value>), Items(Vec<(u16, Option<u8>)>), Values(Vec<V>, Option<u64>), Fixed(Vec<u32>, Option<u64>), Listed(Vec<u32>, Option<u64>), Bits(Vec<bool>, Option<u64>, bool), Composite(Vec<(u8, Value)>, Option<u64>, bool), Borrowed(MaxVec<u64, typenum::U1000>), Mixed(Vec<u64>, usize, bool), Elements(Vec<V>, Option<u64>, bool) }
impl Piece {
	fn gen(ctx: &mut Ctx, hashes: &[V]) -> Piece {
		fn proof(r: &mut Rng, hashes: &[V], d: usize) -> CompactValue<Value> {
			if d == 0 || r.chance(1, 6) { return CompactValue::Single(if !hashes.is_empty() && r.chance(1, 3) { r.pick(hashes).clone() } else { Value::gen(r, 0) }) }
			let l = proof(r, hashes, d - 1);
			let r = if r.chance(1, 5) { l.clone() } else { proof(r, hashes, d - 1) };
			CompactValue::Combined(Box::new((l, r)))
		}
		let which = ctx.rng.below(11);
		let n = if ctx.rng.chance(1, 12) { long(ctx, 300) } else { ctx.rng.len(60) };
		let max = rmax(ctx, n as u64, 1);
		let flag = ctx.rng.chance(1, 2);
		let r = &mut ctx.rng;
		fn fill<T: Ssz>(r: &mut Rng, n: usize) -> Vec<T> { (0..n).map(|_| T::gen(r, 1)).collect() }
		match which {
			0 | 1 => { let d = 1 + r.us(6); Piece::Proof(proof(r, hashes, d)) },
			2 => Piece::Items(fill(r, n)),
			3 => Piece::Values(fill(r, n), max),
			4 => Piece::Fixed(fill(r, n), max),
			5 => Piece::Listed(fill(r, n), max),
			6 => Piece::Bits(fill(r, n), max, flag),
			7 => Piece::Composite(fill(r, n.min(60)), max.map(|m| m.max(n as u64)), flag),
			8 => Piece::Borrowed(MaxVec::from(fill(r, n.min(1000)))),
			9 => Piece::Mixed(fill(r, n), r.word(), flag),
			_ => Piece::Elements(fill(r, n.min(40)), max.map(|m| m.max(n as u64)), flag),
		}
	}
	fn put<C: Cons, DB: WriteBackend<Construct = C>>(&self, db: &mut DB) -> Result<V, bm::Error<DB::Error>> {
		use bm_le::utils::*;
		match self {
			Piece::Proof(x) => x.into_tree(db),
			Piece::Items(x) => x[..].into_tree(db),
			Piece::Values(x, m) => vector_tree(x, db, *m),
			Piece::Fixed(x, m) => ElementalFixedVecRef(x).into_compact_vector_tree(db, *m),
			Piece::Listed(x, m) => ElementalVariableVecRef(x).into_compact_list_tree(db, *m),
			Piece::Bits(x, m, false) => ElementalFixedVecRef(x).into_compact_vector_tree(db, *m),
			Piece::Bits(x, m, true) => ElementalVariableVecRef(x).into_compact_list_tree(db, *m),
			Piece::Composite(x, m, false) => ElementalFixedVecRef(x).into_composite_vector_tree(db, *m),
			Piece::Composite(x, m, true) => ElementalVariableVecRef(x).into_composite_list_tree(db, *m),
			Piece::Borrowed(x) => CompactRef(x).into_tree(db),
			Piece::Mixed(x, n, false) => mix_in_type(x, db, *n),
			Piece::Mixed(x, n, true) => mix_in_length(x, db, *n),
			Piece::Elements(x, m, false) => ElementalVariableVec(x.clone()).into_composite_list_tree(db, *m),
			Piece::Elements(x, m, true) => ElementalFixedVec(x.clone()).into_composite_vector_tree(db, *m),
		}
	}
}
fn pieces<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let mut full = InMem::<C>::default();
	let mut hashes: Vec<V> = vec![];
	for _ in 0..6 {
		let x = Piece::gen(ctx, &hashes);
		let mut m = MapDb::<C>::new();
		let want = ok!(x.put(&mut m), "merkleizing {:?}", x);
		hashes.extend(m.map.keys().cloned());
		hashes.sort();
		hashes.dedup();
		ensure!(ok!(x.put(&mut m), "merkleizing {:?} again", x) == want, "{:?}: another root when merkleized again", x);
		let noop = ok!(x.put(&mut Mon::new(NoopBackend::<C>::default())), "merkleizing {:?} over the discarding backend", x);
		ensure!(noop == want, "{:?}: root {} over the discarding backend, {} otherwise", x, hex(&noop), hex(&want));
		let fresh = ok!(x.put(&mut InMem::<C>::default()), "merkleizing over an empty in-memory backend");
		ensure!(fresh == want, "{:?}: root {} over an empty in-memory backend, {} otherwise", x, hex(&fresh), hex(&want));
		let proving = { let mut base = full.clone(); ok!(x.put(&mut Unify(ProvingBackend::new(&mut base))), "merkleizing over a proving backend") };
		ensure!(proving == want, "{:?}: root {} over a proof-recording backend, {} otherwise", x, hex(&proving), hex(&want));
		let silent = { let mut none = NoopBackend::<C>::default(); ok!(x.put(&mut Unify(ProvingBackend::new(&mut none))), "merkleizing {:?} over a proving backend that discards", x) };
		ensure!(silent == want, "{:?}: root {} over a proof-recording backend that discards, {} otherwise", x, hex(&silent), hex(&want));
		let erased = ok!(x.put(&mut Unify(DynBackend(full.clone()))), "merkleizing over an error-erasing backend");
		ensure!(erased == want, "{:?}: root {} over an error-erasing backend, {} otherwise", x, hex(&erased), hex(&want));
		let filled = ok!(x.put(&mut full), "merkleizing over a filled in-memory backend");
		ensure!(filled == want, "{:?}: root {} over a filled in-memory backend, {} otherwise", x, hex(&filled), hex(&want));
		let snap = snapshot(&full);
		let again = ok!(x.put(&mut full), "merkleizing again");
		ensure!(again == want, "{:?}: root {} when merkleized again, {} first", x, hex(&again), hex(&want));
		ensure!(snapshot(&full) == snap, "{:?}: merkleizing again changed the stored nodes", x);
		for (k, v) in &m.map { ensure!(full.as_ref().get(k).and_then(|e| e.0.as_ref()) == Some(v), "{:?}: node {} is in a map of nodes but not in the in-memory backend", x, hex(k)); }
		ctx.count("pieces", 1);
		ctx.count("roots_compared", 8);
		ctx.t(31, m.map.len() as u64, || format!("{:.200} over eight backends -> {}", format!("{:?}", x), hex(&want)));
	}
	ctx.nontrivial = true;
	Ok(())
}
/// The same history in place over several backends at once.
fn in_place<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let packed = ctx.rng.chance(1, 2);
	let kind = gen_kind(&mut ctx.rng, packed);
	let owned = ctx.rng.chance(1, 2);
	let spec = gen_spec::<C>(&mut ctx.rng, kind, owned);
	let mut ops = vec![];
	let mut m = Model::new(spec.clone());
	let mut g = Gen::new(&mut ctx.rng);
	for _ in 0..ctx.rng.range(5, 60) { let op = g.op(&mut ctx.rng, &m, &[]); expect(&mut m, &op); ops.push(op); }
	let raws: Vec<(usize, V)> = (0..ctx.rng.us(20)).map(|_| (crate::p_raw::gen_index(&mut ctx.rng, &[]), Value::gen(&mut ctx.rng, 0))).collect();
	let noise = Rng::new(ctx.rng.next(), 1);
	let mut all: Vec<Vec<V>> = vec![];
	for which in 0..6u64 {
		let (spec, ops, raws, mut noise) = (spec.clone(), &ops, &raws, noise.clone());
		let mut roots = vec![];
		let r = &mut roots;
		with_db::<C>(which.min(3), ctx, |ctx, db| {
			// 4 and 5 start with other content
			if which >= 4 {
				for _ in 0..6 { let ty = noise.us(C::tcount()); let v = C::tgen(ty, &mut noise); let x = ok!(C::into(&*v, db), "merkleizing"); if which == 5 { ok!(db.rootify(&x).map_err(bm::Error::Backend::<EE>), "rootify"); } }
			}
			let mut s = Seq::<C>::create(ctx, db, spec, 0)?;
			r.push(s.h.root());
			let mut tree = if owned { None } else { Some(Raw::<Dangling, C>::default()) };
			let mut otree = if owned { Some(Raw::<Owned, C>::default()) } else { None };
			for (k, op) in ops.iter().enumerate() {
				s.run(ctx, db, op)?;
				r.push(s.h.root());
				if let Some((i, x)) = raws.get(k) {
					let i = Index::from_one(*i).unwrap();
					if let Some(t) = &mut tree { ok!(t.set(db, i, x.clone()), "raw set"); r.push(t.root()); }
					if let Some(t) = &mut otree { ok!(t.set(db, i, x.clone()), "raw set"); r.push(t.root()); }
				}
			}
			Ok(())
		})?;
		all.push(roots);
	}
	for (w, roots) in all.iter().enumerate() {
		if let Some(k) = (0..roots.len()).find(|k| roots[*k] != all[0][*k]) { fail!("{:?}: root {} of the history is {} over backend {} and {} over backend 0", spec, k, hex(&roots[k]), w, hex(&all[0][k])) }
	}
	ctx.count("histories_over_backends", 1);
	ctx.count("roots_compared", all[0].len() as u64 * 6);
	ctx.nontrivial = true;
	Ok(())
}
pub fn c03(ctx: &mut Ctx) -> R {
	match ctx.rng.below(12) { 10 => pieces::<Inh>(ctx), 11 => pieces::<Unit>(ctx), 0..=3 => backends::<Inh>(ctx), 4..=5 => backends::<Unit>(ctx), 6 => backends::<Inh512>(ctx), 7..=8 => in_place::<Inh>(ctx), _ => in_place::<Unit>(ctx) }
}

// ---- C14, typed part

fn corrupted<X: Debug>(r: Res<X>, what: &str) -> R {
	match r { Err(bm::Error::CorruptedDatabase) => Ok(()), Err(e) => fail!("{}: reported as {:?} instead of a corrupted database", what, e), Ok(x) => fail!("{}: decoded as {:.200} instead of being refused", what, format!("{:?}", x)) }
}
/// Store a list tree with a claimed length, sharing the item tree of `items`.
fn claim<C: Cons>(db: &mut MapDb<C>, items: V, len: V) -> V {
	let x = C::h(&items, &len);
	db.map.insert(x.clone(), (items, len));
	x
}
fn vwide(rng: &mut Rng) -> V { let mut b = [0u8; 32]; let i = 8 + rng.us(24); b[i] = 1 + rng.us(255) as u8; b[0] = rng.us(4) as u8; v(b) }
fn limits<C: Cons>(ctx: &mut Ctx) -> R {
	use typenum::*;
	macro_rules! one { ($n:ty, $t:ty, $wrap:expr, $w:ty) => {{
		let max = <$n>::to_u64();
		let extra = match ctx.rng.below(3) { 0 => 1, 1 => 1 + ctx.rng.below(4), _ => 1 + ctx.rng.below(40) };
		let name = stringify!($w);
		// a value over its maximum
		let mut noise = ctx.rng.clone();
		let mut mk = |n: u64| -> $w { let xs: Vec<$t> = (0..n).map(|_| <$t>::gen(&mut noise, 1)).collect(); $wrap(MaxVec::<$t, $n>::from(xs)) };
		if max < 2000 {
			let over = mk(max + extra);
			let mut db = Mon::new(InMem::<C>::default());
			match over.into_tree(&mut db) { Err(bm::Error::Backend(e)) => fail!("{} with {} elements: backend error {:?}", name, max + extra, e), Err(_) => (), Ok(r) => fail!("{} with {} elements merkleizes to {} instead of being refused", name, max + extra, hex(&r)) }
			ensure!(over.into_tree(&mut NoopBackend::<C>::default()).is_err(), "{} with {} elements merkleizes over the discarding backend instead of being refused", name, max + extra);
			ctx.count("over_limit_refused", 1);
		}
		// at the limit and below it is accepted
		for n in [max.min(200), ctx.rng.below(max.min(60) + 1)] {
			let x = mk(n);
			let mut db = MapDb::<C>::new();
			let root = ok!(x.into_tree(&mut db), "{} with {} elements", name, n);
			let y = ok!(<$w>::from_tree(&root, &mut db), "decoding {} with {} elements", name, n);
			ensure!(x == y, "{} with {} elements decodes to another value", name, n);
			// a tree claiming more
			let items = db.map[&root].0.clone();
			for len in [vlen(max + 1), vlen(max + extra), vlen(max.saturating_mul(2).max(max + 1)), vlen(u64::max_value()), vwide(&mut ctx.rng)] {
				let r = claim(&mut db, items.clone(), len.clone());
				let mut mon = Mon::new(db.clone());
				mon.budget = Some(100_000);
				corrupted(<$w>::from_tree(&r, &mut mon), &format!("{} tree claiming length {} over its maximum", name, Uint::from_little_endian(bytes(&len))))?;
				ctx.count("claims_refused", 1);
			}
			ctx.count("within_limit", 1);
		}
		ctx.t(60, max ^ extra << 40, || format!("{} with maximum {}, exceeded by {}", name, max, extra));
	}} }
	fn id<X>(x: X) -> X { x }
	type Big = U1099511627776;
	match ctx.rng.below(16) {
		0 => one!(U0, u8, id, MaxVec<u8, U0>), 1 => one!(U1, u64, id, MaxVec<u64, U1>), 2 => one!(U2, Vec<u8>, id, MaxVec<Vec<u8>, U2>), 3 => one!(U3, u16, id, MaxVec<u16, U3>),
		4 => one!(U8, bool, id, MaxVec<bool, U8>), 5 => one!(U33, Uint, id, MaxVec<Uint, U33>), 6 => one!(U100, Option<u8>, id, MaxVec<Option<u8>, U100>), 7 => one!(Big, u8, id, MaxVec<u8, Big>),
		8 => one!(U5, u8, Compact, Compact<MaxVec<u8, U5>>), 9 => one!(U32, u8, Compact, Compact<MaxVec<u8, U32>>), 10 => one!(U33, u16, Compact, Compact<MaxVec<u16, U33>>), 11 => one!(U4, u64, Compact, Compact<MaxVec<u64, U4>>),
		12 => one!(U10, bool, Compact, Compact<MaxVec<bool, U10>>), 13 => one!(U256, bool, Compact, Compact<MaxVec<bool, U256>>), 14 => one!(U7, u128, Compact, Compact<MaxVec<u128, U7>>), _ => one!(U9, Uint, Compact, Compact<MaxVec<Uint, U9>>),
	}
	// runtime maximum
	let n = 1 + ctx.rng.len(60);
	let max = ctx.rng.below(n as u64);
	let xs: Vec<u64> = (0..n).map(|_| u64::gen(&mut ctx.rng, 1)).collect();
	let mut db = MapDb::<C>::new();
	ensure!(ElementalVariableVecRef(&xs).into_composite_list_tree(&mut db, Some(max)).is_err(), "a composite list of {} elements is merkleized with maximum {}", n, max);
	ensure!(ElementalVariableVecRef(&xs).into_compact_list_tree(&mut db, Some(max)).is_err(), "a compact list of {} elements is merkleized with maximum {}", n, max);
	let a = ok!(ElementalVariableVecRef(&xs).into_composite_list_tree(&mut db, Some(n as u64)), "composite list");
	let b = ok!(ElementalVariableVecRef(&xs).into_compact_list_tree(&mut db, Some(n as u64)), "compact list");
	corrupted(ElementalVariableVec::<u64>::from_composite_list_tree(&a, &mut db, Some(max)), &format!("composite list of {} with maximum {}", n, max))?;
	corrupted(ElementalVariableVec::<u64>::from_compact_list_tree(&b, &mut db, Some(max)), &format!("compact list of {} with maximum {}", n, max))?;
	match List::<Dangling, C>::reconstruct(a, &mut db, Some(max)) { Err(bm::Error::CorruptedDatabase) => (), Err(e) => fail!("opening a list of {} with maximum {} reports {:?}", n, max, e), Ok(l) => fail!("a list claiming {} elements is opened with maximum {} (length {})", n, max, l.len()) }
	ctx.count("runtime_limits", 1);
	// the same types with a maximum at or past what an index can address
	if ctx.rng.chance(1, 2) && !cfg!(feature = "toy") { far::<C>(ctx)? }
	ctx.nontrivial = true;
	Ok(())
}
/// Items `xs` in chunks of `per` with maximum `max`, read back; refused exactly when no index reaches the last chunk.
fn far<C: Cons>(ctx: &mut Ctx) -> R {
	let max = match ctx.rng.below(6) { 0 => u64::max_value() - ctx.rng.below(9), 1 => u64::max_value() - ctx.rng.below(1 << 20), 2 => 1 << 63, 3 => (1 << 63) + 1 + ctx.rng.below(300), 4 => (1 << 63) - ctx.rng.below(300), _ => ctx.rng.next() | 1 << 62 };
	let n = ctx.rng.len(80);
	macro_rules! one { ($t:ty, $bits:expr, $into:ident, $from:ident, $lfrom:ident, $linto:ident, $chunks:expr) => {{
		let xs: Vec<$t> = (0..n).map(|_| <$t>::gen(&mut ctx.rng, 1)).collect();
		let limit = (max as u128 * $bits as u128 + 255) / 256;
		let what = format!("{} {} in {}-bit items with maximum {}", n, stringify!($t), $bits, max);
		let want = limit <= 1 << 63;
		let mut db = MapDb::<C>::new();
		let chunks: Vec<V> = $chunks(&xs, &mut db);
		match ElementalFixedVecRef(&xs).$into(&mut db, Some(max)) {
			Err(bm::Error::InvalidParameter) => ensure!(!want, "{}: refused although {} chunks can be addressed", what, limit),
			Err(e) => fail!("{}: {:?}", what, e),
			Ok(root) => {
				ensure!(want, "{}: merkleized to {} although no index reaches the last of {} chunks", what, hex(&root), limit);
				let model = build::<C>(&chunks, depth_for(limit as u64));
				ensure!(root == model.hash, "{}: root {} instead of {}", what, hex(&root), hex(&model.hash));
				let back = ok!(ElementalFixedVec::<$t>::$from(&root, &mut db, n, Some(max)), "reading {}", what);
				ensure!(back.0 == xs, "{}: read back as {:?}", what, back.0);
				let l = ok!(ElementalVariableVecRef(&xs).$linto(&mut db, Some(max)), "list of {}", what);
				ensure!(l == C::h(&root, &vlen(n as u64)), "list of {}: root {}", what, hex(&l));
				let back = ok!(ElementalVariableVec::<$t>::$lfrom(&l, &mut db, Some(max)), "reading list of {}", what);
				ensure!(back.0 == xs, "list of {}: read back as {:?}", what, back.0);
				ctx.count("far_typed", 1);
			},
		}
		if !want {
			ensure!(ElementalVariableVecRef(&xs).$linto(&mut db, Some(max)).is_err(), "list of {}: merkleized", what);
			// a tree of a smaller maximum, opened with this one
			let root = ok!(ElementalFixedVecRef(&xs).$into(&mut db, None), "{}", what);
			match ElementalFixedVec::<$t>::$from(&root, &mut db, n, Some(max)) { Ok(_) if n > 0 => fail!("{}: read from a tree of {} items", what, n), _ => () }
			ctx.count("far_typed_refused", 1);
		}
	}} }
	match ctx.rng.below(6) {
		0 => one!(u8, 8, into_compact_vector_tree, from_compact_vector_tree, from_compact_list_tree, into_compact_list_tree, |xs: &[u8], _: &mut MapDb<C>| pack(xs)),
		1 => one!(u64, 64, into_compact_vector_tree, from_compact_vector_tree, from_compact_list_tree, into_compact_list_tree, |xs: &[u64], _: &mut MapDb<C>| pack(&xs.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect::<Vec<u8>>())),
		2 => one!(bool, 1, into_compact_vector_tree, from_compact_vector_tree, from_compact_list_tree, into_compact_list_tree, |xs: &[bool], _: &mut MapDb<C>| { let mut b = vec![0u8; (xs.len() + 7) / 8]; for (i, x) in xs.iter().enumerate() { if *x { b[i / 8] |= 1 << (i % 8) } } pack(&b) }),
		3 => one!(Uint, 256, into_compact_vector_tree, from_compact_vector_tree, from_compact_list_tree, into_compact_list_tree, |xs: &[Uint], _: &mut MapDb<C>| xs.iter().map(|x| { let mut b = [0u8; 32]; x.to_little_endian(&mut b); v(b) }).collect::<Vec<V>>()),
		4 => one!(u16, 256, into_composite_vector_tree, from_composite_vector_tree, from_composite_list_tree, into_composite_list_tree, |xs: &[u16], _: &mut MapDb<C>| xs.iter().map(|x| vlen(*x as u64)).collect::<Vec<V>>()),
		_ => one!(Vec<u8>, 256, into_composite_vector_tree, from_composite_vector_tree, from_composite_list_tree, into_composite_list_tree, |xs: &[Vec<u8>], db: &mut MapDb<C>| xs.iter().map(|x| x.into_tree(db).unwrap()).collect::<Vec<V>>()),
	}
	Ok(())
}
pub fn c14_types(ctx: &mut Ctx) -> R { match ctx.rng.below(6) { 0 => limits::<Unit>(ctx), 1 => limits::<Inh512>(ctx), _ => limits::<Inh>(ctx) } }

// ---- C15

const BUDGET: u64 = 30_000;
fn budgeted<C: Cons>(db: &MapDb<C>) -> Mon<MapDb<C>> { let mut m = Mon::new(db.clone()); m.budget = Some(BUDGET); m }

/// Hide what a successful decode read, one node at a time.
fn hide<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let (ty, val) = big::<C>(ctx);
	let mut db = MapDb::<C>::new();
	let root = ok!(C::into(&*val, &mut db), "merkleizing {:?}", val);
	let mut mon = Mon::new(db);
	mon.log = Some(vec![]);
	let got = ok!(C::dec(ty, &root, &mut mon), "decoding {:?} of {}", val, C::tname(ty));
	ensure!(val.same(&*got), "{}: decoded {:?} instead of {:?}", C::tname(ty), got, val);
	let mut read: Vec<V> = mon.log.take().unwrap().into_iter().filter_map(|e| match e { Ev::Get(k, Some(_)) => Some(k), _ => None }).collect();
	read.sort();
	read.dedup();
	let mut mon = budgeted(&mon.inner);
	mon.budget = None;
	while read.len() > 60 { let k = ctx.rng.us(read.len()); read.swap_remove(k); }
	for k in &read {
		let old = mon.inner.map.remove(k).unwrap();
		match C::dec(ty, &root, &mut mon) {
			Err(_) => { ctx.count("missing_node_reported", 1); },
			Ok(x) => ensure!(val.same(&*x), "{}: with node {} missing, {:?} decodes as the invented value {:?}", C::tname(ty), hex(k), val, x),
		}
		mon.inner.map.insert(k.clone(), old);
	}
	// and several at once
	let mut map = mon.inner.map.clone();
	for k in &read { if ctx.rng.chance(1, 3) { map.remove(k); } }
	mon.inner.map = map;
	if let Ok(x) = C::dec(ty, &root, &mut mon) { ensure!(val.same(&*x), "{}: with nodes missing, {:?} decodes as the invented value {:?}", C::tname(ty), val, x); }
	ctx.t(70, ty as u64, || format!("{}: {} nodes hidden", C::tname(ty), read.len()));
	ctx.count("decodes", read.len() as u64);
	ctx.nontrivial = true;
	Ok(())
}
/// Any type from any tree: must return.
fn hostile<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let mut db = MapDb::<C>::new();
	let mut roots = vec![zero(), vs(&ctx.rng.bytes(32)), vlen(1), if cfg!(feature = "toy") { vlen(9) } else { vlen(u64::max_value()) }];
	for _ in 0..2 {
		let (_, val) = big::<C>(ctx);
		let r = ok!(C::into(&*val, &mut db), "merkleizing {:?}", val);
		roots.push(r);
	}
	// nodes that contradict their hash: self loops, long cycles, absurd lengths
	let names: Vec<V> = (0..6).map(|i| vs(&[0xf0 + i as u8, 7])).collect();
	// hosts differ in how deep their indices reach: what is compared between them stays where all do
	let past = |n: u64| vlen(if cfg!(feature = "toy") { 40 + n % 23 } else { n });
	let lens = [vlen(0), vlen(1), vlen(2), vlen(3), vlen(33), past(1 << 20), past(1 << 32), past(TOPS / 2 + 5), past(TOPS), past(TOPS + 1), past(TOPW - 6), past(TOPW), vwide(&mut ctx.rng), vwide(&mut ctx.rng)];
	for n in &names {
		let pick = |ctx: &mut Ctx| match ctx.rng.below(4) { 0 => ctx.rng.pick(&names).clone(), 1 => ctx.rng.pick(&lens).clone(), 2 => ctx.rng.pick(&roots).clone(), _ => n.clone() };
		let (a, b) = (pick(ctx), pick(ctx));
		if ctx.rng.chance(5, 6) { db.map.insert(n.clone(), (a, b)); }
	}
	let mut keys: Vec<V> = db.map.keys().cloned().collect();
	keys.sort();
	// honest trees damaged
	for _ in 0..ctx.rng.us(4) {
		let k = ctx.rng.pick(&keys).clone();
		match ctx.rng.below(4) {
			0 => { db.map.remove(&k); },
			1 => { if let Some(x) = db.map.get_mut(&k) { std::mem::swap(&mut x.0, &mut x.1); } },
			2 => { let n = ctx.rng.pick(&names).clone(); if let Some(x) = db.map.get_mut(&k) { x.0 = n; } },
			_ => { let l = ctx.rng.pick(&lens).clone(); if let Some(x) = db.map.get_mut(&k) { x.1 = l; } },
		}
	}
	// lists of every claimed length over each tree
	for l in &lens { for _ in 0..2 { let i = if ctx.rng.chance(1, 2) { ctx.rng.pick(&names).clone() } else { ctx.rng.pick(&keys).clone() }; let r = claim(&mut db, i, l.clone()); roots.push(r); } }
	roots.extend(names.iter().cloned());
	roots.extend(keys.iter().take(4).cloned());
	let mut mon = budgeted(&db);
	for _ in 0..if ctx.thorough { 30 } else { 12 } {
		let ty = ctx.rng.us(C::tcount());
		let root = ctx.rng.pick(&roots).clone();
		mon.calls = 0;
		let r = C::dec(ty, &root, &mut mon);
		ctx.count(match r { Ok(_) => "decoded_to_a_value", Err(bm::Error::Backend(EE::Budget)) => "cut_by_the_backend", Err(_) => "refused" }, 1);
		ctx.max("max_backend_calls", mon.calls);
		ctx.t(71, ty as u64, || format!("{} from {}: {}", C::tname(ty), hex(&root), match &r { Ok(_) => "value".into(), Err(e) => format!("{:?}", e) }));
	}
	// opening and reading lists
	for _ in 0..8 {
		let root = ctx.rng.pick(&roots).clone();
		// of a wide length only a word is read (known finding), and words differ
		if cfg!(feature = "toy") && db.map.get(&root).map(|x| bytes(&x.1)[1..].iter().any(|b| *b != 0)).unwrap_or(false) { continue }
		let max = match ctx.rng.below(4) { 0 => None, 1 => Some(gen_max(&mut ctx.rng, 32)), 2 => Some(ctx.rng.word() as u64 >> 1), _ => Some(TOPS) };
		mon.calls = 0;
		match List::<Dangling, C>::reconstruct(root.clone(), &mut mon, max) {
			Err(_) => ctx.count("list_refused", 1),
			Ok(l) => {
				let len = l.len();
				if let Some(m) = max { ensure!(len as u64 <= m, "a list of length {} is opened with maximum {}", len, m); }
				for i in [0, 1, len / 2, len.saturating_sub(1), len, len.saturating_add(1), TOPW as usize, ctx.rng.word()] {
					match l.get(&mut mon, i) {
						Err(bm::Error::AccessOverflowed) => ensure!(i >= len, "reading {} of {} reports an overflow", i, len),
						Err(_) => (),
						Ok(_) => ensure!(i < len, "reading {} of a list of length {} succeeds", i, len),
					}
				}
				ctx.count("list_opened", 1);
			},
		}
		// packed views with a length taken from elsewhere
		let len = ctx.rng.pick(&[0usize, 1, 33, 1 << 20, 1 << (WORD - 24)]).clone();
		let p = PackedVector::<Dangling, C, GenericArray<u8, typenum::U8>, typenum::U32, typenum::U8>::from_leaked((root.clone(), len, None));
		let _ = p.get(&mut mon, 0);
		let _ = p.get(&mut mon, len / 2);
		let _ = p.get(&mut mon, len);
		// partial views
		let which = ctx.rng.next();
		let raw = Raw::<Dangling, C>::from_leaked(root.clone());
		let r = crate::p_partial::peek_any::<C>(which, &raw, &mut DbRef::<C>(&mut mon), &mut ctx.rng);
		ctx.count(if r.is_ok() { "partial_reads" } else { "partial_reads_refused" }, 1);
		ctx.t(72, which % 6, || format!("partial view {} of {}: {:?}", which % 6, hex(&root), r));
	}
	ctx.nontrivial = true;
	Ok(())
}
/// What must be called corrupted.
fn named<C: Cons + TyC>(ctx: &mut Ctx) -> R {
	let mut db = MapDb::<C>::new();
	let tys = types();
	for _ in 0..6 {
		let (_, val) = big::<C>(ctx);
		let inner = match ctx.rng.below(3) { 0 => zero(), 1 => vs(&ctx.rng.bytes(32)), _ => ok!(C::into(&*val, &mut db), "merkleizing") };
		// unknown variants
		let e: Vec<(usize, u64)> = tys.iter().enumerate().filter_map(|(i, t)| {
			let n = t.name();
			let c = if n == "EB" { 300 } else if n.starts_with("Option<") { 2 } else if n == "E1" { 1 } else if n == "E5" { 5 } else if n == "EN" { 12 } else if n.starts_with("EG<") { 3 } else { return None };
			Some((i, c))
		}).collect();
		let (ty, c) = *ctx.rng.pick(&e);
		let tag = match ctx.rng.below(5) { 0 => vlen(c), 1 => vlen(c + ctx.rng.below(300)), 2 => vlen(u64::max_value()), 3 => vlen(c + (1 << ctx.rng.below(63))), _ => vwide(&mut ctx.rng) };
		let r = claim(&mut db, inner.clone(), tag.clone());
		corrupted(C::dec(ty, &r, &mut budgeted(&db)), &format!("{} with variant {}", tys[ty].name(), Uint::from_little_endian(bytes(&tag))))?;
		ctx.count("unknown_variants", 1);
		// non-empty units
		let x = if inner == zero() { vlen(1 + ctx.rng.below(9)) } else { inner };
		let us: Vec<usize> = tys.iter().enumerate().filter(|(_, t)| t.name() == "()" || t.name() == "U0s").map(|x| x.0).collect();
		for ty in us { corrupted(C::dec(ty, &x, &mut budgeted(&db)), &format!("{} from {}", tys[ty].name(), hex(&x)))?; }
		for (ty, _) in e.iter().filter(|(i, _)| { let n = tys[*i].name(); n.starts_with("Option<") || n == "E5" || n == "EN" || n.starts_with("EG<") }) {
			let r = claim(&mut db, x.clone(), vlen(0));
			corrupted(C::dec(*ty, &r, &mut budgeted(&db)), &format!("the empty variant of {} with content {}", tys[*ty].name(), hex(&x)))?;
		}
		for t in [1u64, 4, 5, 7, 8, 10] {
			let r = claim(&mut db, x.clone(), vlen(t));
			let ty = tys.iter().position(|t| t.name() == "EN").unwrap();
			corrupted(C::dec(ty, &r, &mut budgeted(&db)), &format!("the empty variant {} of EN with content {}", t, hex(&x)))?;
		}
		ctx.count("non_empty_units", 1);
		// lengths beyond what a list can have
		let ls: Vec<usize> = tys.iter().enumerate().filter(|(_, t)| t.name().starts_with("Vec<") || t.name().starts_with("MaxVec<") || t.name().starts_with("Compact<MaxVec<")).map(|x| x.0).collect();
		let ty = *ctx.rng.pick(&ls);
		let w = vwide(&mut ctx.rng);
		let r = claim(&mut db, x.clone(), w.clone());
		corrupted(C::dec(ty, &r, &mut budgeted(&db)), &format!("{} with length {}", tys[ty].name(), Uint::from_little_endian(bytes(&w))))?;
		// over the declared maximum
		let ms: Vec<(usize, u64)> = tys.iter().enumerate().filter_map(|(i, t)| {
			let n: String = t.name().chars().filter(|c| !c.is_whitespace()).collect();
			let n = n.strip_prefix("Compact<").unwrap_or(&n).to_string();
			if !n.starts_with("MaxVec<") { return None }
			let m = n.trim_end_matches('>').rsplit(',').next()?.to_string();
			let m = if m == "BigMax" { <BigMax as typenum::Unsigned>::to_u64() } else if m == "K256" { 257 } else { m.strip_prefix('U')?.parse().ok()? };
			Some((i, m))
		}).collect();
		let (ty, m) = *ctx.rng.pick(&ms);
		let l = match ctx.rng.below(4) { 0 => m + 1, 1 => m + 1 + ctx.rng.below(1 << 40), 2 => u64::max_value() - ctx.rng.below(9), _ => m + (1 << ctx.rng.range(3, 62)) };
		let r = claim(&mut db, x.clone(), vlen(l));
		corrupted(C::dec(ty, &r, &mut budgeted(&db)), &format!("{} with length {}", tys[ty].name(), l))?;
		ctx.count("over_maximum", 1);
		ctx.t(72, l, || format!("unknown variant of a type, non-empty units, {} with length {}", tys[ty].name(), l));
	}
	ctx.nontrivial = true;
	Ok(())
}
pub fn c15(ctx: &mut Ctx) -> R {
	match ctx.rng.below(12) { 0..=2 => hide::<Inh>(ctx), 3 => hide::<Unit>(ctx), 4..=6 => hostile::<Inh>(ctx), 7 => hostile::<Unit>(ctx), 8 => hostile::<Inh512>(ctx), 9..=10 => named::<Inh>(ctx), _ => named::<Unit>(ctx) }
}
pub fn c15_known(ctx: &mut Ctx) -> R {
	let mut db = MapDb::<Inh>::new();
	let mut wide = [0u8; 32];
	wide[0] = 1; wide[8] = 1;
	let r = claim(&mut db, vlen(7), v(wide));
	if let Ok(l) = List::<Dangling, Inh>::reconstruct(r, &mut db, None) {
		ctx.known.push(("list-reconstruct-wide-length".into(), format!("List::reconstruct reads only the low 8 bytes of the length leaf: a tree claiming 2^64 + 1 elements opens as a list of {}", l.len())));
	}
	Ok(())
}

