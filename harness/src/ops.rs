//! Operation histories on sequences: generation, execution, expected outcome.
use crate::db::*;
use crate::infra::*;
use crate::model::*;
use crate::seq::*;
use crate::{ensure, fail, ok};
use bm::{DynBackend, ProvingBackend};

#[derive(Clone, Debug)]
pub enum Op { Get(usize), Set(usize, Vec<u8>), Push(Vec<u8>), Pop }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out { Val(Vec<u8>), Unit, Popped(Option<Vec<u8>>), Err(E) }
impl Out {
	pub fn short(&self) -> String {
		match self {
			Out::Val(x) => format!("={}", hx(x)), Out::Unit => "ok".into(),
			Out::Popped(None) => "none".into(), Out::Popped(Some(x)) => format!("popped {}", hx(x)), Out::Err(e) => format!("{:?}", e),
		}
	}
	pub fn obs(&self, ctx: &mut Ctx) {
		match self {
			Out::Val(x) => ctx.observe(x), Out::Unit => ctx.observe(&[1]), Out::Popped(None) => ctx.observe(&[2]),
			Out::Popped(Some(x)) => ctx.observe(x), Out::Err(e) => { let s = format!("{:?}", e); ctx.observe(s.as_bytes()) },
		}
	}
}
pub fn hx(b: &[u8]) -> String {
	let n = b.iter().rposition(|x| *x != 0).map(|p| p + 1).unwrap_or(0);
	let mut s: String = b[..n.min(8)].iter().map(|b| format!("{:02x}", b)).collect();
	if n > 8 { s.push_str(".."); }
	if n == 0 { s.push('0'); }
	s
}
impl Op {
	pub fn short(&self) -> String {
		match self { Op::Get(i) => format!("get({})", i), Op::Set(i, x) => format!("set({},{})", i, hx(x)), Op::Push(x) => format!("push({})", hx(x)), Op::Pop => "pop()".into() }
	}
	pub fn kind(&self) -> u64 { match self { Op::Get(i) => 1 | (*i as u64).wrapping_mul(8), Op::Set(i, _) => 2 | (*i as u64).wrapping_mul(8), Op::Push(_) => 3, Op::Pop => 4 } }
}

pub fn apply<C: Cons>(h: &mut dyn SeqT<C>, db: &mut Dyn<C>, op: &Op) -> Out {
	match op {
		Op::Get(i) => match h.get(db, *i) { Ok(x) => Out::Val(x), Err(e) => Out::Err(e) },
		Op::Set(i, x) => match h.set(db, *i, x) { Ok(()) => Out::Unit, Err(e) => Out::Err(e) },
		Op::Push(x) => match h.push(db, x) { Ok(()) => Out::Unit, Err(e) => Out::Err(e) },
		Op::Pop => match h.pop(db) { Ok(x) => Out::Popped(x), Err(e) => Out::Err(e) },
	}
}
pub fn expect(m: &mut Model, op: &Op) -> Out {
	fn e<X>(x: Exp<X>, f: impl FnOnce(X) -> Out) -> Out { match x { Exp::Ok(x) => f(x), Exp::Overflow => Out::Err(bm::Error::AccessOverflowed) } }
	match op {
		Op::Get(i) => e(m.get(*i), Out::Val),
		Op::Set(i, x) => e(m.set(*i, x), |_| Out::Unit),
		Op::Push(x) => e(m.push(x), |_| Out::Unit),
		Op::Pop => Out::Popped(m.pop()),
	}
}

/// Chooses operations; alternates growing, shrinking and mixed phases so that capacity boundaries are crossed both ways.
pub struct Gen { phase: u64, left: u64, pub oob: bool, pub cap: usize }
impl Gen {
	pub fn new(rng: &mut Rng) -> Self { Gen { phase: rng.below(2), left: rng.range(1, 40), oob: true, cap: 160 } }
	pub fn val(rng: &mut Rng, es: usize, pool: &[V]) -> Vec<u8> {
		match rng.below(20) {
			0 | 1 => vec![0; es],
			2 => vec![0xff; es],
			3..=6 => { let mut x = vec![0; es]; x[0] = rng.range(1, 4) as u8; x },
			7 => { let mut x = vec![0; es]; x[es - 1] = rng.range(1, 255) as u8; x },
			8 | 9 | 10 if es == 32 && !pool.is_empty() => bytes(rng.pick(pool)).to_vec(),
			_ => rng.bytes(es),
		}
	}
	pub fn index(&self, rng: &mut Rng, len: usize) -> usize {
		if self.oob && (len == 0 || rng.chance(1, 12)) {
			return match rng.below(6) { 0 => len, 1 => len + 1, 2 => len + rng.us(40), 3 => len.next_power_of_two(), 4 => 2 * len + 1, _ => len + rng.us(3) };
		}
		if len == 0 { return 0 }
		match rng.below(6) { 0 => 0, 1 => len - 1, 2 => { let p = 1usize << rng.us(if len > 160 { 18 } else { 8 }); (p - rng.us(2)).min(len - 1) }, _ => rng.us(len) }
	}
	pub fn op(&mut self, rng: &mut Rng, m: &Model, pool: &[V]) -> Op {
		if self.left == 0 { self.phase = rng.below(4); self.left = rng.range(1, 40); }
		self.left -= 1;
		let es = m.spec.kind.esize();
		let len = m.elems.len();
		let r = rng.below(100);
		let (push, pop, set) = match self.phase { 0 | 1 => (65, 70, 85), 2 => (5, 70, 85), _ => (20, 40, 75) };
		let push = if len >= self.cap { 0 } else { push };
		if r < push { Op::Push(Self::val(rng, es, pool)) }
		else if r < pop { Op::Pop }
		else if r < set {
			let i = self.index(rng, len);
			// sometimes a value that is already there, or a neighbour's
			let x = if len > 0 && rng.chance(1, 8) { m.elems[rng.us(len)].clone() } else { Self::val(rng, es, pool) };
			Op::Set(i, x)
		}
		else { Op::Get(self.index(rng, len)) }
	}
}

/// The like of a large number for the smallest word drawn for.
pub fn narrow(m: u64) -> u64 { if WORD == 64 || m < 1 << 21 { m } else { (m >> (64 - WORD)).max(1 << 20) | m & 15 } }
/// A maximum length whose tree has a representable depth.
pub fn gen_max(rng: &mut Rng, es: usize) -> u64 {
	const M: [u64; 26] = [1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 1000, 1 << 20, (1 << 32) + 1, 1 << 40, 1 << 50];
	let m = if rng.chance(1, 30) && es <= 32 { [1u64 << 58, (1 << 57) + 3, 1 << 56][rng.us(3)] }
		else if rng.chance(1, 40) && es == 32 { [1u64 << 62, (1 << 62) - 1, 1u64 << 61][rng.us(3)] }
		else { *rng.pick(&M) };
	narrow(m)
}
pub fn gen_kind(rng: &mut Rng, packed: bool) -> Kind {
	if packed { let n = *rng.pick(&SIZES); if rng.chance(1, 2) { Kind::PVector(n) } else { Kind::PList(n) } }
	else if rng.chance(1, 2) { Kind::Vector } else { Kind::List }
}
/// A specification that can be created.
pub fn gen_spec<C: Cons>(rng: &mut Rng, kind: Kind, owned: bool) -> Spec {
	let max = if rng.chance(1, 2) { Some(gen_max(rng, kind.esize())) } else { None };
	// An owned or dangling Vector over unit-empty trees reads only what was written (known finding), so it starts empty.
	let init = if kind.is_list() || C::UNIT || rng.chance(1, 2) { 0 } else {
		let n = if rng.chance(1, 4) { max.unwrap_or(33) } else { rng.below(40) };
		n.min(max.unwrap_or(80)).min(80) as usize
	};
	Spec { kind, owned, max, init }
}

pub struct Seq<C: Cons> { pub h: Box<dyn SeqT<C>>, pub m: Model, pub gen: Gen, pub id: usize }
impl<C: Cons> Seq<C> {
	pub fn create(ctx: &mut Ctx, db: &mut Dyn<C>, spec: Spec, id: usize) -> R<Self> {
		let h = ok!(create::<C>(&spec, db), "create {:?}", spec);
		let gen = Gen::new(&mut ctx.rng);
		ctx.t(10, spec.init as u64 ^ spec.max.unwrap_or(0) ^ (spec.kind.esize() as u64) << 20, || format!("#{} create {:?}", id, spec));
		Ok(Seq { h, m: Model::new(spec), gen, id })
	}
	/// One operation, compared with the array.
	pub fn step(&mut self, ctx: &mut Ctx, db: &mut Dyn<C>, pool: &[V]) -> R<Out> {
		let op = self.gen.op(&mut ctx.rng, &self.m, pool);
		self.run(ctx, db, &op)
	}
	pub fn run(&mut self, ctx: &mut Ctx, db: &mut Dyn<C>, op: &Op) -> R<Out> {
		let before = self.m.elems.len();
		let want = expect(&mut self.m, op);
		let got = apply(&mut *self.h, db, op);
		got.obs(ctx);
		let id = self.id;
		ctx.t(op.kind(), before as u64, || format!("#{} {} -> {} (len {})", id, op.short(), got.short(), before));
		match op { Op::Get(_) => ctx.count("gets", 1), Op::Set(..) => ctx.count("sets", 1), Op::Push(_) => ctx.count("pushes", 1), Op::Pop => ctx.count("pops", 1) }
		if let Out::Err(_) = want { ctx.count("overflow_refusals", 1); }
		ensure!(got == want, "#{} {:?}: {} at length {} returned {} instead of {}", self.id, self.m.spec, op.short(), before, got.short(), want.short());
		ensure!(self.h.len() == self.m.elems.len(), "#{} {:?}: after {} length is {} instead of {}", self.id, self.m.spec, op.short(), self.h.len(), self.m.elems.len());
		if let Some(w) = self.h.shape().and_then(|x| wrong_shape(x, self.m.spec.max, self.m.elems.len())) { fail!("#{} {:?}: {}", self.id, self.m.spec, w) }
		Ok(got)
	}
	/// All elements and the length.
	pub fn check_elems(&self, ctx: &mut Ctx, db: &mut Dyn<C>) -> R {
		ensure!(self.h.len() == self.m.elems.len(), "#{} {:?}: length is {} instead of {}", self.id, self.m.spec, self.h.len(), self.m.elems.len());
		for (i, e) in self.m.elems.iter().enumerate() {
			match self.h.get(db, i) {
				Ok(x) => ensure!(x == *e, "#{} {:?}: element {} of {} reads {} instead of {}", self.id, self.m.spec, i, self.m.elems.len(), hx(&x), hx(e)),
				Err(x) => fail!("#{} {:?}: element {} of {} reads as error {:?} instead of {}", self.id, self.m.spec, i, self.m.elems.len(), x, hx(e)),
			}
		}
		ctx.count("elements_checked", self.m.elems.len() as u64);
		Ok(())
	}
	/// The same through a second handle, opened from what the first one reports.
	pub fn check_second(&self, ctx: &mut Ctx, db: &mut Dyn<C>) -> R {
		let h = if ctx.rng.chance(1, 2) { self.h.copy() } else { self.h.dangling() };
		ensure!(h.len() == self.m.elems.len(), "#{} {:?}: length through a second handle is {} instead of {}", self.id, self.m.spec, h.len(), self.m.elems.len());
		for (i, e) in self.m.elems.iter().enumerate() {
			match h.get(db, i) {
				Ok(x) => ensure!(x == *e, "#{} {:?}: element {} of {} reads {} instead of {} through a second handle", self.id, self.m.spec, i, self.m.elems.len(), hx(&x), hx(e)),
				Err(x) => fail!("#{} {:?}: element {} of {} reads as error {:?} instead of {} through a second handle", self.id, self.m.spec, i, self.m.elems.len(), x, hx(e)),
			}
		}
		match h.get(db, self.m.elems.len()) { Err(bm::Error::AccessOverflowed) => (), r => fail!("#{} {:?}: reading at the length {} through a second handle gives {:?}", self.id, self.m.spec, self.m.elems.len(), r.map(|x| hx(&x))) }
		ctx.count("second_handles", 1);
		Ok(())
	}
	pub fn check_root(&self, ctx: &mut Ctx) -> R {
		let want = self.m.tree::<C>().hash.clone();
		let got = self.h.root();
		ctx.observe(bytes(&got));
		ctx.count("roots_checked", 1);
		ensure!(got == want, "#{} {:?}: root of content with {} elements is {} instead of {}", self.id, self.m.spec, self.m.elems.len(), hex(&got), hex(&want));
		Ok(())
	}
	/// Save and reopen through one of the ways the kind has.
	pub fn reopen(self, ctx: &mut Ctx, db: &mut Dyn<C>) -> R<Self> {
		let how = ctx.rng.next();
		let Seq { h, m, gen, id } = self;
		let (h, name) = ok!(h.reopen(db, how, m.spec.max), "#{} {:?} reopen", id, m.spec);
		ctx.count("reopens", 1);
		ctx.t(20, how % 12, || format!("#{} reopened through {}", id, name));
		Ok(Seq { h, m, gen, id })
	}
}

/// Run with one of several backend stacks holding the same kind of store.
pub fn with_db<C: Cons>(which: u64, ctx: &mut Ctx, f: impl FnOnce(&mut Ctx, &mut Dyn<C>) -> R) -> R {
	match which {
		0 => { let mut db = Mon::new(InMem::<C>::default()); f(ctx, &mut db) },
		1 => { let mut db = MapDb::<C>::new(); f(ctx, &mut db) },
		2 => { let mut d = InMem::<C>::default(); let mut db = Unify(ProvingBackend::new(&mut d)); f(ctx, &mut db) },
		_ => { let mut db = Unify(DynBackend(InMem::<C>::default())); f(ctx, &mut db) },
	}
}
