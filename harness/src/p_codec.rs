//! C19: serialized forms of nodes, compact proofs and bounded lists.
use crate::bin_format::{from_bytes, to_bytes};
use crate::infra::*;
use crate::model::*;
use crate::p_proof::{gen_compact, CV};
use crate::types::Ssz;
use crate::{ensure, fail};
use bm::CompactValue;
use bm_le::{Compact, MaxVec, Value};
use parity_codec::{Decode, Encode, Input};
use primitive_types::H256;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use typenum::*;
use vecarray::VecArray;

/// Counts what is read, and fails reads past the end.
struct Reader<'a> { bytes: &'a [u8], at: usize }
impl<'a> Input for Reader<'a> {
	fn read(&mut self, into: &mut [u8]) -> usize {
		let n = into.len().min(self.bytes.len() - self.at);
		into[..n].copy_from_slice(&self.bytes[self.at..self.at + n]);
		self.at += n;
		n
	}
}
fn cut(s: String) -> String { s.chars().take(400).collect() }
/// Positions at which an encoding of n bytes is cut.
fn cuts(rng: &mut Rng, n: usize) -> Vec<usize> { if cfg!(feature = "toy") { work(n as u64 / 2); (0..6).filter(|_| n > 0).map(|_| rng.us(n.max(1))).collect() } else if n <= 160 { (0..n).collect() } else { let mut c: Vec<usize> = (0..40).chain(n - 40..n).collect(); c.extend((0..60).map(|_| rng.us(n))); c } }

fn codec<T: Encode + Decode + PartialEq + Debug>(ctx: &mut Ctx, ty: &str, x: &T) -> R {
	let e = x.encode();
	ctx.observe(&e);
	// the encoder's entry points agree
	let mut out = vec![7u8; 3];
	x.encode_to(&mut out);
	ensure!(out[..3] == [7, 7, 7] && out[3..] == e[..], "{} {}: encode_to writes something else than encode", ty, cut(format!("{:?}", x)));
	ensure!(x.using_encoded(|b| b == &e[..]), "{} {}: using_encoded gives something else than encode", ty, cut(format!("{:?}", x)));
	// exactly its own bytes, whatever follows
	let mut long = e.clone();
	let extra = ctx.rng.us(40);
	long.extend(ctx.rng.bytes(extra));
	let mut r = Reader { bytes: &long, at: 0 };
	match T::decode(&mut r) {
		Some(y) => {
			ensure!(y == *x, "{}: {} decodes as {}", ty, cut(format!("{:?}", x)), cut(format!("{:?}", y)));
			ensure!(r.at == e.len(), "{}: decoding {} of {} bytes consumes {}", ty, cut(format!("{:?}", x)), e.len(), r.at);
			ensure!(y.encode() == e, "{}: {} encodes differently after decoding", ty, cut(format!("{:?}", x)));
		},
		None => fail!("{}: the encoding of {} is refused", ty, cut(format!("{:?}", x))),
	}
	ensure!(T::decode(&mut &e[..]).as_ref() == Some(x), "{}: {} does not decode from a slice", ty, cut(format!("{:?}", x)));
	for k in cuts(&mut ctx.rng, e.len()) {
		if let Some(y) = T::decode(&mut &e[..k]) { ensure!(y != *x, "{}: {} bytes of the {} of {} are accepted as it", ty, k, e.len(), cut(format!("{:?}", x))); }
		ctx.count("truncations", 1);
	}
	ctx.count("codec_round_trips", 1);
	Ok(())
}
fn serde<T: Serialize + DeserializeOwned + PartialEq + Debug>(ctx: &mut Ctx, ty: &str, x: &T) -> R {
	let show = || cut(format!("{:?}", x));
	let e = match serde_json::to_vec(x) { Ok(e) => e, Err(er) => fail!("{}: {} does not serialize: {}", ty, show(), er) };
	ctx.observe(&e);
	let v = match serde_json::to_value(x) { Ok(e) => e, Err(er) => fail!("{}: {} does not serialize to a value: {}", ty, show(), er) };
	for (how, got) in [
		("a slice", serde_json::from_slice::<T>(&e)),
		("a reader", serde_json::from_reader::<_, T>(&e[..])),
		("a value", serde_json::from_value::<T>(v)),
		("indented text", serde_json::from_str::<T>(&serde_json::to_string_pretty(x).unwrap_or_default())),
	] {
		match got { Ok(y) => ensure!(y == *x, "{}: {} deserializes from {} as {}", ty, show(), how, cut(format!("{:?}", y))), Err(er) => fail!("{}: {} does not deserialize from {}: {}", ty, show(), how, er) }
	}
	// a binary format that does not describe itself
	let b = match to_bytes(x) { Ok(b) => b, Err(er) => fail!("{}: {} does not serialize to a binary format: {}", ty, show(), er) };
	ctx.observe(&b);
	let mut long = b.clone();
	long.extend(ctx.rng.bytes(9));
	match from_bytes::<T>(&long) { Ok((y, n)) => ensure!(y == *x && n == b.len(), "{}: {} deserializes from a binary format as {}, from {} of {} bytes", ty, show(), cut(format!("{:?}", y)), n, b.len()), Err(er) => fail!("{}: {} does not deserialize from a binary format: {}", ty, show(), er) }
	for k in cuts(&mut ctx.rng, b.len()) {
		if let Ok((y, _)) = from_bytes::<T>(&b[..k]) { ensure!(y != *x, "{}: {} bytes of the {} of {} in a binary format are accepted as it", ty, k, b.len(), show()); }
		ctx.count("truncations", 1);
	}
	ctx.count("binary_serde_round_trips", 1);
	// several in a row
	let mut two = e.clone();
	two.push(b' ');
	two.extend_from_slice(&e);
	let mut st = serde_json::Deserializer::from_slice(&two).into_iter::<T>();
	match st.next() { Some(Ok(y)) => ensure!(y == *x && st.byte_offset() == e.len(), "{}: the first of two {} in a row is read as {} from {} of {} bytes", ty, show(), cut(format!("{:?}", y)), st.byte_offset(), e.len()), o => fail!("{}: the first of two {} in a row is not read: {:?}", ty, show(), o) }
	match st.next() { Some(Ok(y)) => ensure!(y == *x, "{}: the second of two {} in a row is read as {}", ty, show(), cut(format!("{:?}", y))), o => fail!("{}: the second of two {} in a row is not read: {:?}", ty, show(), o) }
	ensure!(st.next().is_none(), "{}: more than two values read from two", ty);
	for k in cuts(&mut ctx.rng, e.len()) {
		if let Ok(y) = serde_json::from_slice::<T>(&e[..k]) { ensure!(y != *x, "{}: {} bytes of the {} of {} are accepted as it", ty, k, e.len(), show()); }
		ctx.count("truncations", 1);
	}
	ctx.count("serde_round_trips", 1);
	Ok(())
}
fn both<T: Encode + Decode + Serialize + DeserializeOwned + PartialEq + Debug>(ctx: &mut Ctx, ty: &str, x: &T) -> R {
	ctx.t(ty.len() as u64, { let mut h = 0u64; for b in x.encode() { h = h.wrapping_mul(31).wrapping_add(b as u64) } h }, || format!("{} {}", ty, cut(format!("{:?}", x))));
	codec(ctx, ty, x)?;
	serde(ctx, ty, x)
}

trait Item: Ssz + Encode + Decode + Serialize + DeserializeOwned + PartialEq + Debug + Clone {}
impl<T: Ssz + Encode + Decode + Serialize + DeserializeOwned + PartialEq + Debug + Clone> Item for T {}

fn bounded<T: Item, N: Unsigned + Debug + PartialEq + Clone>(ctx: &mut Ctx, ty: &str) -> R {
	let max = N::to_u64();
	let n = match ctx.rng.below(4) { 0 => max, 1 => max.saturating_sub(1), _ => ctx.rng.len(90) as u64 }.min(max).min(300) as usize;
	let x = MaxVec::<T, N>::from((0..n).map(|_| T::gen(&mut ctx.rng, 2)).collect::<Vec<T>>());
	both(ctx, ty, &x)?;
	serde(ctx, ty, &Compact(x.clone()))?;
	// inside other things
	let inside = (x.clone(), Some(x.clone()), vec![x.clone(), MaxVec::default()]);
	codec(ctx, ty, &inside)?;
	serde(ctx, ty, &inside)?;
	// too long: refused alone and inside
	if max < 1000 {
		for more in [max + 1, max + 2, max * 2 + 1, max + 1 + ctx.rng.below(300)] {
			let y = MaxVec::<T, N>::from((0..more).map(|_| T::gen(&mut ctx.rng, 3)).collect::<Vec<T>>());
			let e = y.encode();
			ensure!(MaxVec::<T, N>::decode(&mut &e[..]).is_none(), "{}: {} elements are accepted by the codec", ty, more);
			ensure!(<(u16, MaxVec<T, N>)>::decode(&mut &(9u16, y.clone()).encode()[..]).is_none(), "{}: {} elements are accepted by the codec in a tuple", ty, more);
			// also as written by another side, without a limit
			ensure!(MaxVec::<T, N>::decode(&mut &y.0.encode()[..]).is_none(), "{}: {} elements encoded as a vector are accepted by the codec", ty, more);
			if let Ok(b) = to_bytes(&y.0) { ensure!(from_bytes::<MaxVec<T, N>>(&b).is_err() && from_bytes::<Compact<MaxVec<T, N>>>(&b).is_err(), "{}: {} elements are accepted by serde from a binary format", ty, more); }
			let j = match serde_json::to_value(&y) { Ok(j) => j, Err(_) => { ctx.count("not_serialized", 1); continue } };
			let s = j.to_string();
			ensure!(serde_json::from_value::<MaxVec<T, N>>(j).is_err(), "{}: {} elements are accepted by serde from a value", ty, more);
			ensure!(serde_json::from_str::<MaxVec<T, N>>(&s).is_err() && serde_json::from_reader::<_, Compact<MaxVec<T, N>>>(s.as_bytes()).is_err(), "{}: {} elements are accepted by serde", ty, more);
			if let Ok(s) = serde_json::to_string(&y.0) { ensure!(serde_json::from_str::<MaxVec<T, N>>(&s).is_err(), "{}: {} elements serialized as a vector are accepted by serde", ty, more); }
			ctx.count("over_maximum_refused", 1);
		}
	}
	ctx.nontrivial = n > 0;
	ctx.count("bounded_lists", 1);
	Ok(())
}
fn fixed(ctx: &mut Ctx) -> R {
	let r = &mut ctx.rng;
	let a = Compact::<VecArray<u32, U4>>::gen(r, 2);
	let b = Compact::<VecArray<bool, U9>>::gen(r, 2);
	let c = Compact::<VecArray<u8, U65>>::gen(r, 2);
	let d = Compact((Value::gen(r, 0), H256::gen(r, 0), u64::gen(r, 0)));
	let e = Compact(Vec::<u16>::gen(r, 1));
	serde(ctx, "Compact<VecArray<u32, 4>>", &a)?;
	serde(ctx, "Compact<VecArray<bool, 9>>", &b)?;
	serde(ctx, "Compact<VecArray<u8, 65>>", &c)?;
	serde(ctx, "Compact of a tuple", &d)?;
	serde(ctx, "Compact<Vec<u16>>", &e)?;
	fn bytes<N: Unsigned + Debug + PartialEq + Clone>(ctx: &mut Ctx) -> R {
		let max = N::to_usize();
		let n = ctx.rng.us(max + 1);
		let x = MaxVec::<u8, N>::from(ctx.rng.bytes(n));
		serde(ctx, "MaxVec<u8, N>", &x)?;
		serde(ctx, "Compact<MaxVec<u8, N>>", &Compact(x))?;
		for more in [max + 1, max * 2 + 1] {
			let s = serde_json::to_string(&ctx.rng.bytes(more)).unwrap();
			ensure!(serde_json::from_str::<MaxVec<u8, N>>(&s).is_err(), "MaxVec<u8, {}>: {} elements are accepted by serde", max, more);
			ctx.count("over_maximum_refused", 1);
		}
		Ok(())
	}
	bytes::<U0>(ctx)?; bytes::<U1>(ctx)?; bytes::<U32>(ctx)?; bytes::<U100>(ctx)?;
	let w = Compact(Compact(Compact(e.0.clone())));
	serde(ctx, "nested Compact", &w)?;
	ctx.t(201, a.0[0] as u64, || format!("{:?} {:?}", a, d));
	ctx.count("wrappers", 6);
	ctx.nontrivial = true;
	Ok(())
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Packet { proof: CompactValue<Value>, root: Value, list: MaxVec<u16, U7>, bits: Compact<MaxVec<bool, U9>>, more: Option<Box<Packet>> }
#[derive(Encode, Decode, Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Frame { n: u16, proof: CompactValue<Value>, root: Value, list: MaxVec<u16, U7>, other: CompactValue<u16>, end: u64 }

fn small(rng: &mut Rng, d: usize) -> CompactValue<u16> { if d == 0 || rng.chance(1, 3) { CompactValue::Single(rng.next() as u16) } else { CompactValue::Combined(Box::new((small(rng, d - 1), small(rng, d - 1)))) } }
fn lopsided(rng: &mut Rng, n: usize) -> CV {
	let mut c = CompactValue::Single(vs(&rng.bytes(32)));
	for _ in 0..n { let s = CompactValue::Single(vs(&rng.bytes(32))); c = CompactValue::Combined(Box::new(if rng.chance(1, 2) { (c, s) } else { (s, c) })); }
	c
}
fn compacts(ctx: &mut Ctx) -> R {
	let d = ctx.rng.us(7);
	let (c, t) = gen_compact::<Inh>(&mut ctx.rng, d);
	both(ctx, "CompactValue<Value>", &c)?;
	// what arrives proves the same
	if let Some(y) = CV::decode(&mut &c.encode()[..]) { let r = y.root::<Inh>(); ensure!(r == t.hash, "a compact value has root {} after the codec instead of {}", hex(&r), hex(&t.hash)); }
	let deep = ctx.rng.us(60);
	let l = lopsided(&mut ctx.rng, deep);
	both(ctx, "CompactValue<Value>", &l)?;
	let s = small(&mut ctx.rng, 6);
	both(ctx, "CompactValue<u16>", &s)?;
	serde(ctx, "Compact<CompactValue<u16>>", &Compact(s))?;
	let x = Value::gen(&mut ctx.rng, 0);
	both(ctx, "Value", &x)?;
	both(ctx, "Value", &t.hash)?;
	let mut p: Option<Box<Packet>> = None;
	for _ in 0..ctx.rng.range(1, 3) {
		let n = ctx.rng.us(8);
		p = Some(Box::new(Packet { proof: gen_compact::<Inh>(&mut ctx.rng, 3).0, root: Value::gen(&mut ctx.rng, 0), list: MaxVec::from((0..n).map(|_| ctx.rng.next() as u16).collect::<Vec<_>>()),
			bits: Compact::gen(&mut ctx.rng, 2), more: p }));
	}
	serde(ctx, "a packet", &p)?;
	let n = ctx.rng.us(8);
	let f = Frame { n: ctx.rng.next() as u16, proof: gen_compact::<Inh>(&mut ctx.rng, 3).0, root: Value::gen(&mut ctx.rng, 0), list: MaxVec::from((0..n).map(|_| ctx.rng.next() as u16).collect::<Vec<_>>()), other: small(&mut ctx.rng, 3), end: ctx.rng.next() };
	both(ctx, "a frame", &f)?;
	// damaged bytes decode to something else or nothing, without a panic
	let e = c.encode();
	for _ in 0..8 {
		let mut b = e.clone();
		for _ in 0..ctx.rng.range(1, 3) { let k = ctx.rng.us(b.len()); b[k] ^= 1 << ctx.rng.us(8); }
		if let Some(y) = CV::decode(&mut &b[..]) { ensure!(b == e || y != c || y.encode().len() < b.len(), "damaged bytes of {:?} decode to it", cut(format!("{:?}", c))); }
		ctx.count("damaged", 1);
	}
	ctx.count("compact_values", 2);
	ctx.nontrivial = true;
	Ok(())
}
pub fn c19(ctx: &mut Ctx) -> R {
	macro_rules! b { ($($k:pat => $t:ty, $n:ty;)*) => { match ctx.rng.below(28) { $($k => bounded::<$t, $n>(ctx, concat!("MaxVec<", stringify!($t), ", ", stringify!($n), ">")),)* 18 | 19 => fixed(ctx), _ => compacts(ctx) } } }
	b! {
		0 => u16, U0; 1 => u16, U1; 2 => u16, U5; 3 => u16, U33; 4 => u32, U64; 5 => u16, U256; 6 => u64, U5; 7 => u16, U100; 8 => u32, U9; 9 => u64, U8; 10 => u64, U1099511627776; 11 => bool, U10;
		12 => Vec<u8>, U3; 13 => Value, U33; 14 => H256, U7; 15 => MaxVec<u16, U4>, U7; 16 => (u32, Option<u16>), U63; 17 => (), U12;
	}
}
