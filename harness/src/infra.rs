//! Case runner: deterministic cases, panic classification, CPU watchdog, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
	/// A measure of the work done, the same on every host: draws, hashed words and calls.
	pub static WORK: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
#[inline]
pub fn work(n: u64) { WORK.with(|w| w.set(w.get() + n)); }

/// splitmix64 / xorshift generator, seeded per case.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
	pub fn new(a: u64, b: u64) -> Self {
		let mut r = Rng(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9abc_def1);
		for _ in 0..4 { r.next(); }
		r
	}
	pub fn next(&mut self) -> u64 {
		work(1);
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	/// Uniform in 0..n (n > 0).
	pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
	/// A whole machine word.
	pub fn word(&mut self) -> usize { (self.next() & crate::model::TOPW) as usize }
	pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
	/// Inclusive range.
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
	pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.us(xs.len())] }
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let mut v = Vec::with_capacity(n);
		while v.len() < n { v.extend_from_slice(&self.next().to_le_bytes()); }
		v.truncate(n);
		v
	}
	/// Length biased to small values and powers of two.
	pub fn len(&mut self, max: usize) -> usize {
		let n = match self.below(10) {
			0 => 0,
			1 | 2 => self.us(6),
			3 | 4 => { let p = 1usize << self.us(9); (p + self.us(3)).saturating_sub(1) },
			5 | 6 | 7 => self.us(40),
			_ => self.us(max + 1),
		};
		n.min(max)
	}
}

#[derive(Debug)]
pub struct Fail(pub String);
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err($crate::infra::Fail(format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::infra::Fail(format!($($a)*))) } } }
/// Expect Ok.
#[macro_export]
macro_rules! ok { ($e:expr, $($a:tt)*) => { match $e { Ok(v) => v, Err(e) => return Err($crate::infra::Fail(format!("{}: unexpected error {:?}", format!($($a)*), e))) } } }

pub struct Ctx {
	pub rng: Rng,
	pub case: u64,
	pub thorough: bool,
	pub verbose: bool,
	pub counters: BTreeMap<&'static str, u64>,
	pub fp: u64,
	pub nontrivial: bool,
	pub trace: Vec<String>,
	pub want_sample: bool,
	/// Running digest of all observations (used to compare builds).
	pub digest: u64,
	/// Known-finding signatures observed.
	pub known: Vec<(String, String)>,
	/// Which workload the case is of.
	pub label: &'static str,
}
impl Ctx {
	pub fn count(&mut self, k: &'static str, n: u64) { *self.counters.entry(k).or_insert(0) += n; }
	pub fn max(&mut self, k: &'static str, n: u64) { let e = self.counters.entry(k).or_insert(0); if *e < n { *e = n } }
	/// Record a step: fingerprint always, text only when needed.
	pub fn t<F: FnOnce() -> String>(&mut self, kind: u64, val: u64, f: F) {
		self.fp = (self.fp ^ kind.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ val).rotate_left(13).wrapping_mul(0xff51_afd7_ed55_8ccd).wrapping_add(1);
		if self.verbose || (self.want_sample && self.trace.len() < 40) {
			let s = f();
			if self.verbose && self.trace.len() >= 4000 { self.trace.remove(0); }
			self.trace.push(s);
		}
	}
	pub fn observe(&mut self, bytes: &[u8]) {
		work(bytes.len() as u64 / 16);
		for c in bytes { self.digest = (self.digest ^ *c as u64).wrapping_mul(0x100_0000_01b3); }
		self.digest = self.digest.rotate_left(7) ^ bytes.len() as u64;
	}
}

pub struct Prop {
	pub id: &'static str,
	/// How cases are made, and what makes one non-trivial.
	pub rule: &'static str,
	pub quick: u64,
	pub thorough: u64,
	/// Counters that must be non-zero, or the run observed too little.
	pub required: &'static [&'static str],
	pub run: fn(&mut Ctx) -> R,
	/// Probes for known findings: run once per run; they push to ctx.known.
	pub known: Option<fn(&mut Ctx) -> R>,
	pub assumptions: &'static [&'static str],
}

thread_local! { static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None); }

pub fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
			else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
		LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
	}));
}

pub enum Outcome { Held, Violation(String), Harness(String) }

pub fn run_one(p: &Prop, seed: u64, case: u64, thorough: bool, verbose: bool, want_sample: bool, f: fn(&mut Ctx) -> R) -> (Ctx, Outcome) {
	crate::types::pool(vec![]);
	let mut idh = 0u64; for b in p.id.bytes() { idh = idh * 257 + b as u64; }
	let mut ctx = Ctx {
		rng: Rng::new(seed ^ (idh << 32), case), case, thorough, verbose, counters: BTreeMap::new(), fp: 0,
		nontrivial: false, trace: Vec::new(), want_sample, digest: 0xcbf2_9ce4_8422_2325, known: Vec::new(), label: "",
	};
	let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
	let out = match res {
		Ok(Ok(())) => Outcome::Held,
		Ok(Err(Fail(m))) => if let Some(h) = m.strip_prefix("HARNESS") { Outcome::Harness(h.into()) } else { Outcome::Violation(m) },
		Err(_) => {
			let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
			// A panic in the case runner is an error of the check. Anywhere else the case met something that its
			// bookkeeping rules out whatever the seed (an unwrapped None, an index past an array), so bm misbehaved.
			if loc.contains("src/infra.rs") || loc.contains("src/main.rs") { Outcome::Harness(format!("panic in harness at {}: {}", loc, msg)) }
			else if loc.starts_with("src/") || loc.contains("/verif/") { Outcome::Violation(format!("the monitor met a state that cannot be ({}: {})", loc, msg)) }
			else { Outcome::Violation(format!("panic at {}: {}", loc, msg)) }
		},
	};
	(ctx, out)
}

fn thread_cpu(clock: libc::clockid_t) -> Option<f64> {
	let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
	let r = unsafe { libc::clock_gettime(clock, &mut ts) };
	if r == 0 { Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9) } else { None }
}

pub fn jstr(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); },
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

pub const CASE_CPU_LIMIT_S: f64 = 40.0;

struct Slot { case: AtomicU64, start_cpu_ms: AtomicU64, clock: AtomicU64 }

struct Total { cases: u64, counters: BTreeMap<&'static str, u64>, fps: HashSet<u64>, samples: Vec<(u64, Vec<String>)>,
	violation: Option<(u64, String)>, harness: Option<(u64, String)>, known: Vec<(String, String)>, max_case_ms: u64, digest: u64 }

/// Exit codes: 0 held, 1 violation, 2 harness error / inconclusive, 3 a case ran past its CPU limit.
pub fn run_all(p: &'static Prop, seed: u64, thorough: bool, out: &str, journal: &str, ncases: Option<u64>, digests: Option<&str>) -> i32 {
	install_hook();
	let start = Instant::now();
	let n = ncases.unwrap_or(if thorough { p.thorough } else { p.quick });
	let wall_cap = Duration::from_secs(if thorough { 3000 } else { 420 });
	let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
	let next = AtomicU64::new(0);
	let stop = AtomicBool::new(false);
	let done = AtomicBool::new(false);
	let capped = AtomicBool::new(false);
	let total = Mutex::new(Total { cases: 0, counters: BTreeMap::new(), fps: HashSet::new(), samples: vec![], violation: None,
		harness: None, known: vec![], max_case_ms: 0, digest: 0 });
	let slots: Vec<Slot> = (0..threads).map(|_| Slot { case: AtomicU64::new(u64::MAX), start_cpu_ms: AtomicU64::new(0), clock: AtomicU64::new(u64::MAX) }).collect();
	let jf = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(journal).expect("journal");
	let df = digests.map(|d| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(d).expect("digests"));
	let nsamples = 3u64;
	if let Some(k) = p.known {
		let (ctx, o) = run_one(p, seed, 0, thorough, false, false, k);
		let mut t = total.lock().unwrap();
		match o {
			Outcome::Held => t.known = ctx.known,
			Outcome::Violation(m) => { t.violation = Some((u64::MAX - 1, m)); stop.store(true, SeqCst); },
			Outcome::Harness(m) => { t.harness = Some((u64::MAX - 1, m)); stop.store(true, SeqCst); },
		}
	}
	std::thread::scope(|s| {
		let mut hs = vec![];
		for ti in 0..threads {
			let (next, stop, total, slots, jf, capped, df) = (&next, &stop, &total, &slots, &jf, &capped, &df);
			let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
				let mut clk: libc::clockid_t = 0;
				unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk); }
				slots[ti].clock.store(clk as i64 as u64, SeqCst);
				loop {
					if stop.load(Relaxed) { break }
					let c = next.fetch_add(1, SeqCst);
					if c >= n { break }
					if start.elapsed() > wall_cap { capped.store(true, SeqCst); break }
					let _ = jf.write_at(&(c + 1).to_le_bytes(), ti as u64 * 8);
					let c0 = thread_cpu(clk).unwrap_or(0.0);
					slots[ti].start_cpu_ms.store((c0 * 1e3) as u64, SeqCst);
					slots[ti].case.store(c, SeqCst);
					let want = c % (n / nsamples + 1) == 7 % (n / nsamples + 1);
					let (ctx, o) = run_one(p, seed, c, thorough, false, want, p.run);
					slots[ti].case.store(u64::MAX, SeqCst);
					if let Some(f) = df { let _ = f.write_at(&(ctx.digest | 1).to_le_bytes(), c * 8); }
					let ms = ((thread_cpu(clk).unwrap_or(0.0) - c0) * 1e3) as u64;
					let mut t = total.lock().unwrap();
					t.cases += 1;
					t.max_case_ms = t.max_case_ms.max(ms);
					t.digest = t.digest.wrapping_add(ctx.digest.wrapping_mul(c | 1));
					for (k, v) in &ctx.counters { if k.starts_with("max_") { let e = t.counters.entry(k).or_insert(0); *e = (*e).max(*v) } else { *t.counters.entry(k).or_insert(0) += v } }
					if ctx.nontrivial { t.fps.insert(ctx.fp); }
					if want && ctx.trace.len() > 0 { let tr = ctx.trace.clone(); t.samples.push((c, tr)); }
					match o {
						Outcome::Held => (),
						Outcome::Violation(m) => { if t.violation.as_ref().map(|v| c < v.0).unwrap_or(true) { t.violation = Some((c, m)); } stop.store(true, SeqCst); },
						Outcome::Harness(m) => { t.harness = Some((c, m)); stop.store(true, SeqCst); },
					}
				}
				let _ = jf.write_at(&0u64.to_le_bytes(), ti as u64 * 8);
				slots[ti].clock.store(u64::MAX, SeqCst);
			}).unwrap();
			hs.push(h);
		}
		// CPU watchdog: measured in the case's own thread CPU time, so machine load does not matter.
		let (slots, done) = (&slots, &done);
		let w = s.spawn(move || {
			while !done.load(Relaxed) {
				std::thread::sleep(Duration::from_millis(100));
				for sl in slots {
					let c = sl.case.load(SeqCst);
					let clk = sl.clock.load(SeqCst);
					if c == u64::MAX || clk == u64::MAX { continue }
					let st = sl.start_cpu_ms.load(SeqCst) as f64 * 1e-3;
					if let Some(now) = thread_cpu(clk as i64 as libc::clockid_t) {
						if sl.case.load(SeqCst) == c && now - st > CASE_CPU_LIMIT_S {
							println!("CPULIMIT case={} limit_s={}", c, CASE_CPU_LIMIT_S);
							std::process::exit(3);
						}
					}
				}
			}
		});
		for h in hs { let _ = h.join(); }
		done.store(true, SeqCst);
		let _ = w.join();
	});
	let t = total.into_inner().unwrap();
	for (sig, d) in &t.known { println!("KNOWN sig={} what={}", sig, d); }
	let mut code = 0;
	if let Some((c, m)) = &t.violation { println!("FOUND case={} what={}", c, m.replace('\n', " ")); code = 1; }
	else if let Some((c, m)) = &t.harness { println!("HARNESS case={} what={}", c, m.replace('\n', " ")); code = 2; }
	else {
		let missing: Vec<&str> = p.required.iter().filter(|k| t.counters.get(*k).copied().unwrap_or(0) == 0).copied().collect();
		if !missing.is_empty() { println!("INCONCLUSIVE never observed: {:?}", missing); code = 2; }
		if capped.load(SeqCst) && t.cases < n / 20 { println!("INCONCLUSIVE only {} of {} cases ran within the wall-clock cap", t.cases, n); code = 2; }
	}
	let mut e = String::new();
	let _ = write!(e, "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[",
		jstr(p.id), jstr(if thorough { "thorough" } else { "quick" }), seed, t.cases, t.fps.len(), jstr(p.rule));
	for (i, (c, tr)) in t.samples.iter().enumerate() {
		if i > 0 { e.push(','); }
		let _ = write!(e, "{{\"case\":{},\"steps\":[{}]}}", c, tr.iter().map(|x| jstr(&x.chars().take(300).collect::<String>())).collect::<Vec<_>>().join(","));
	}
	let _ = write!(e, "],\"observed\":{{{}}},\"cases_planned\":{},\"max_case_cpu_ms\":{},\"observation_digest\":\"{:016x}\"}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}",
		t.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","), n, t.max_case_ms, t.digest,
		p.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","), start.elapsed().as_secs_f64(), if code == 1 { 1 } else { 0 });
	std::fs::write(out, e).expect("evidence");
	println!("SUMMARY {} cases={} distinct={} wall={:.1}s maxcase={}ms digest={:016x} {:?}", p.id, t.cases, t.fps.len(), start.elapsed().as_secs_f64(), t.max_case_ms, t.digest, t.counters);
	code
}

/// Replay one case verbosely.
pub fn run_case(p: &'static Prop, seed: u64, thorough: bool, case: u64, trace_tail: usize) -> i32 {
	install_hook();
	std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
		let f = if case == u64::MAX - 1 { p.known.expect("no probes") } else { p.run };
		let (ctx, o) = run_one(p, seed, if case == u64::MAX - 1 { 0 } else { case }, thorough, true, true, f);
		let k = ctx.trace.len().saturating_sub(trace_tail);
		for l in &ctx.trace[k..] { println!("  {}", l); }
		match o {
			Outcome::Held => { println!("HELD case={}", case); 0 },
			Outcome::Violation(m) => { println!("FOUND case={} what={}", case, m.replace('\n', " ")); 1 },
			Outcome::Harness(m) => { println!("HARNESS case={} what={}", case, m); 2 },
		}
	}).unwrap().join().unwrap_or(2)
}

/// Run the listed cases one after another (all up to a number, if none are), one line for each: case, work, digest, workload.
pub fn run_some(p: &'static Prop, seed: u64, list: Vec<u64>, until_s: u64) -> i32 {
	install_hook();
	let start = Instant::now();
	for c in list {
		if start.elapsed().as_secs() >= until_s { break }
		tell(p, seed, c);
	}
	println!("END");
	0
}
fn tell(p: &'static Prop, seed: u64, c: u64) {
	WORK.with(|w| w.set(0));
	println!("BEGIN {}", c);
	let (ctx, o) = run_one(p, seed, c, false, false, true, p.run);
	let o = match o { Outcome::Held => "held".to_string(), Outcome::Violation(m) => format!("failed: {}", m), Outcome::Harness(m) => format!("harness: {}", m) };
	println!("CASE {} {} {:016x} {} {}", c, WORK.with(|w| w.get()), ctx.digest, ctx.label, o.replace('\n', " "));
	for l in ctx.trace.iter().rev().take(2).rev() { println!("SEEN {} {}", c, l.replace('\n', " ")); }
	let counted: Vec<String> = ctx.counters.iter().map(|(k, n)| format!("{}={}", k, n)).collect();
	println!("DONE {} {}", c, counted.join(" "));
}
/// As `run_some`, with the cases read one to a line from the standard input.
pub fn run_fed(p: &'static Prop, seed: u64) -> i32 {
	install_hook();
	println!("READY");
	for l in std::io::stdin().lines() {
		match l.ok().and_then(|l| l.trim().parse().ok()) { Some(c) => tell(p, seed, c), None => break }
	}
	println!("END");
	0
}

/// End the process (by signal) past this much CPU time.
/// A case that runs away with memory is to end itself, not the machine.
pub fn limit_memory() {
	let l = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
	unsafe { libc::setrlimit(libc::RLIMIT_AS, &l); }
}
pub fn limit_cpu(s: u64) {
	let l = libc::rlimit { rlim_cur: s as libc::rlim_t, rlim_max: (s + 5) as libc::rlim_t };
	unsafe { libc::setrlimit(libc::RLIMIT_CPU, &l); }
}
