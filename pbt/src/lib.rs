//! Small self contained property-based testing engine.
//!
//! * Every random decision of a case is drawn from a [`Src`]: a recorded
//!   sequence of bounded integers. A case is therefore a pure function of its
//!   choice sequence, and shrinking/replaying operate on that sequence.
//! * Cases run on worker threads. A monitor recognises a case whose thread
//!   can never make progress again (self deadlock) from its scheduler
//!   counters, never from elapsed time alone.
//! * Everything is a pure function of the seed: case `i` of family `f` always
//!   has the same choices.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

mod proc;

/// Where the choices of the case are streamed to, when this process only
/// exists to run a single case that may abort it
static STREAM: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
/// Where the workers leave the index of the case they are about to run
static PROGRESS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
const PROGRESS_RECORD: usize = 64;

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
	}
	pub fn next_u64(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
}

fn mix(a: u64, b: u64, c: u64) -> u64 {
	let mut r = Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b.rotate_left(17) ^ c.rotate_left(43));
	r.next_u64() ^ r.next_u64().rotate_left(7) ^ b.wrapping_mul(31).wrapping_add(c)
}

fn hash_str(s: &str) -> u64 {
	let mut h: u64 = 0xcbf2_9ce4_8422_2325;
	for b in s.bytes() {
		h ^= b as u64;
		h = h.wrapping_mul(0x100_0000_01b3);
	}
	h
}

// ---------------------------------------------------------------- source of choices

/// Source of every generated decision of a case.
pub struct Src {
	rng: Rng,
	replay: Option<Vec<u64>>,
	pos: usize,
	shared: Arc<SrcShared>,
	/// Scale of the generated histories, larger in the thorough tier.
	pub size: u64,
	/// When set the case should describe itself through `note`.
	pub verbose: bool,
}

#[derive(Default)]
struct SrcShared {
	log: Mutex<Vec<u64>>,
	note: Mutex<String>,
}

impl Src {
	fn new(seed: u64, replay: Option<Vec<u64>>, size: u64, verbose: bool, shared: Arc<SrcShared>) -> Self {
		shared.log.lock().unwrap().clear();
		shared.note.lock().unwrap().clear();
		Src { rng: Rng::new(seed), replay, pos: 0, shared, size, verbose }
	}

	/// An integer in `0..n`. Zero is the simplest choice.
	pub fn below(&mut self, n: u64) -> u64 {
		assert!(n > 0);
		let v = match &self.replay {
			Some(r) => r.get(self.pos).copied().unwrap_or(0) % n,
			None => self.rng.next_u64() % n,
		};
		self.pos += 1;
		self.shared.log.lock().unwrap().push(v);
		if let Some(f) = STREAM.get() {
			// the process may be aborted in the middle of this case
			let _ = (&*f).write_all(format!("{v},").as_bytes());
		}
		v
	}
	pub fn idx(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}
	/// An integer in `lo..=hi`, `lo` being the simplest.
	pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
		lo + self.below((hi - lo + 1) as u64) as i64
	}
	pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
		self.range(lo as i64, hi as i64) as usize
	}
	/// True `num` out of `den` times, false is the simplest.
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) >= den - num
	}
	pub fn weighted(&mut self, weights: &[u64]) -> usize {
		let total: u64 = weights.iter().sum();
		let mut v = self.below(total);
		for (i, w) in weights.iter().enumerate() {
			if v < *w {
				return i;
			}
			v -= w;
		}
		unreachable!()
	}
	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		let i = self.idx(items.len());
		&items[i]
	}
	/// List whose length decisions are interleaved with its elements so that
	/// deleting a slice of choices deletes elements.
	pub fn list<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
		let mut out = Vec::new();
		// Aim for a uniformly distributed length
		let target = if max > min { min + self.idx(max - min + 1) } else { min };
		while out.len() < target {
			out.push(f(self));
		}
		out
	}
	pub fn note(&mut self, f: impl FnOnce() -> String) {
		if self.verbose {
			let s = f();
			if STREAM.get().is_some() {
				eprintln!("{s}");
			}
			let mut n = self.shared.note.lock().unwrap();
			if !n.is_empty() {
				n.push('\n');
			}
			n.push_str(&s);
		}
	}
}

// ---------------------------------------------------------------- results

#[derive(Clone, Debug)]
pub struct Failure {
	/// Stable identification of what went wrong, used to match known findings
	pub sig: String,
	pub message: String,
}

impl Failure {
	pub fn new(sig: impl Into<String>, message: impl Into<String>) -> Self {
		Failure { sig: sig.into(), message: message.into() }
	}
}

#[derive(Clone, Debug, Default)]
pub struct Report {
	pub nontrivial: bool,
	pub labels: Vec<&'static str>,
	/// Number of elementary checks (events compared, states compared..)
	pub checks: u64,
}

impl Report {
	pub fn new(nontrivial: bool) -> Self {
		Report { nontrivial, labels: Vec::new(), checks: 1 }
	}
	pub fn label(mut self, on: bool, l: &'static str) -> Self {
		if on {
			self.labels.push(l);
		}
		self
	}
	pub fn checks(mut self, n: usize) -> Self {
		self.checks = n as u64;
		self
	}
}

pub type CaseResult = Result<Report, Failure>;

#[macro_export]
macro_rules! fail {
	($sig:expr, $($arg:tt)*) => { return Err($crate::Failure::new($sig, format!($($arg)*))) };
}

#[derive(Clone)]
pub struct Family {
	pub name: &'static str,
	pub rule: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub run: fn(&mut Src) -> CaseResult,
	/// The case starts threads of its own, no deadlock inference possible
	pub multi_threaded: bool,
}

impl Family {
	pub const fn new(name: &'static str, rule: &'static str, quick: u64, thorough: u64, run: fn(&mut Src) -> CaseResult) -> Self {
		Family { name, rule, quick, thorough, run, multi_threaded: false }
	}
	pub const fn threaded(mut self) -> Self {
		self.multi_threaded = true;
		self
	}
}

#[derive(Clone)]
pub struct Property {
	pub id: &'static str,
	pub title: &'static str,
	pub families: Vec<Family>,
	pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- panics

thread_local! {
	static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
	static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
static ANY_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn install_panic_hook() {
	let default = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		let msg = info
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| info.payload().downcast_ref::<String>().cloned())
			.unwrap_or_else(|| "<non string panic>".into());
		let loc = info.location().map(|l| format!("{}", l.file().rsplit("crates/").next().unwrap_or(""))).unwrap_or_default();
		let text = format!("{msg} @ {loc}");
		if STREAM.get().is_some() {
			eprintln!("panic: {text}");
		}
		if IN_CASE.with(|c| c.get()) {
			LAST_PANIC.with(|p| {
				let mut p = p.borrow_mut();
				if p.is_none() {
					*p = Some(text);
				}
			});
		} else if std::thread::current().name().is_some_and(|n| n.starts_with("main")) {
			default(info);
		} else {
			*ANY_PANIC.lock().unwrap_or_else(|p| p.into_inner()) = Some(text);
		}
	}));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	let was = IN_CASE.with(|c| c.replace(true));
	LAST_PANIC.with(|p| p.borrow_mut().take());
	let r = catch_unwind(AssertUnwindSafe(f));
	IN_CASE.with(|c| c.set(was));
	match r {
		Ok(r) => Ok(r),
		Err(e) => {
			std::mem::forget(e);
			Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
		}
	}
}

fn run_protected(run: fn(&mut Src) -> CaseResult, src: &mut Src) -> CaseResult {
	match catching(|| run(src)) {
		Ok(r) => r,
		Err(p) => {
			let short: String = p.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
			Err(Failure::new(format!("panic:{short}"), format!("the code under test panicked: {p}")))
		}
	}
}

// ---------------------------------------------------------------- executing one case with deadlock detection

const DEADLOCK_POLL_MS: u64 = 25;
/// Number of polls without any scheduling activity before a case counts as
/// stuck: 40 * 25ms = 1s of a thread that only ever blocks on locks held by
/// itself and was not scheduled once.
/// Processor time after which a case counts as never ending (100 Hz)
const RUNAWAY_CPU_TICKS: u64 = 4000;
const DEADLOCK_POLLS: u32 = 40;

struct OneShot {
	choices: Vec<u64>,
	note: String,
	result: Option<CaseResult>,
}

/// Runs a single case on a fresh thread (used for shrinking and replay).
fn run_one(fam: &Family, choices: Vec<u64>, size: u64, verbose: bool) -> OneShot {
	let shared = Arc::new(SrcShared::default());
	let shared2 = shared.clone();
	let (tx, rx) = std::sync::mpsc::channel();
	let tid = Arc::new(AtomicU64::new(0));
	let tid2 = tid.clone();
	let run = fam.run;
	let h = std::thread::Builder::new()
		.name("case".into())
		.stack_size(64 << 20)
		.spawn(move || {
			tid2.store(proc::gettid(), Ordering::SeqCst);
			let mut src = Src::new(0, Some(choices), size, verbose, shared2);
			let r = run_protected(run, &mut src);
			let _ = tx.send(r);
		})
		.expect("spawn");
	let mut stuck = 0u32;
	let mut last = None;
	let started = Instant::now();
	let result = loop {
		match rx.recv_timeout(std::time::Duration::from_millis(DEADLOCK_POLL_MS)) {
			Ok(r) => break Some(r),
			Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break None,
			Err(_) => {}
		}
		let t = tid.load(Ordering::SeqCst);
		if t != 0 && !fam.multi_threaded {
			let now = proc::sample(t);
			if now.is_some() && now == last && now.as_ref().is_some_and(|s| s.sleeping) {
				stuck += 1;
			} else {
				stuck = 0;
			}
			last = now;
			if stuck >= DEADLOCK_POLLS {
				break Some(Err(deadlock_failure()));
			}
		}
		if started.elapsed().as_secs() > 120 {
			eprintln!("WATCHDOG: a single case ran for 120s without deadlocking, giving up");
			std::process::exit(3);
		}
	};
	if !matches!(&result, Some(Err(f)) if f.sig == "deadlock") {
		let _ = h.join();
	}
	let choices = shared.log.lock().unwrap_or_else(|p| p.into_inner()).clone();
	let note = shared.note.lock().unwrap_or_else(|p| p.into_inner()).clone();
	OneShot { choices, note, result }
}

fn deadlock_failure() -> Failure {
	Failure::new(
		"deadlock",
		"the only thread of the case is blocked forever on a lock it already holds (no scheduling activity, sleeping)",
	)
}

// ---------------------------------------------------------------- shrinking

fn shrink(fam: &Family, size: u64, start: Vec<u64>, sig: &str) -> Vec<u64> {
	shrink_with(start, if sig == "deadlock" { 60 } else { 4000 }, |cand| {
		let r = run_one(fam, cand, size, false);
		matches!(&r.result, Some(Err(f)) if f.sig == sig).then_some(r.choices)
	})
}

/// `fails` runs a candidate and returns the choices it made if it still fails
fn shrink_with(start: Vec<u64>, budget: i64, fails: impl Fn(Vec<u64>) -> Option<Vec<u64>>) -> Vec<u64> {
	let mut best = start;
	let mut budget = budget;
	let try_it = |cand: Vec<u64>, best: &mut Vec<u64>, budget: &mut i64| -> bool {
		if *budget <= 0 {
			return false;
		}
		*budget -= 1;
		if let Some(choices) = fails(cand) {
			let simpler = (choices.len(), &choices) < (best.len(), best);
			if simpler {
				*best = choices;
				return true;
			}
		}
		false
	};
	loop {
		let before = best.clone();
		// delete chunks
		let mut chunk = (best.len() / 2).max(1);
		while chunk >= 1 {
			let mut i = 0;
			while i + chunk <= best.len() {
				let mut c = best.clone();
				c.drain(i..i + chunk);
				if !try_it(c, &mut best, &mut budget) {
					// deleting an element of a counted list: also lower an
					// earlier choice by one
					let mut done = false;
					if chunk <= 8 {
						for back in 1..=10usize {
							if i < back {
								break;
							}
							let j = i - back;
							if best[j] == 0 {
								continue;
							}
							let mut c = best.clone();
							c[j] -= 1;
							c.drain(i..i + chunk);
							if try_it(c, &mut best, &mut budget) {
								done = true;
								break;
							}
							if budget < 500 {
								break;
							}
						}
					}
					if !done {
						i += 1;
					}
				}
				if budget <= 0 {
					return best;
				}
			}
			if chunk == 1 {
				break;
			}
			chunk /= 2;
		}
		// lower values
		for i in 0..best.len() {
			if i >= best.len() || best[i] == 0 {
				continue;
			}
			let mut c = best.clone();
			c[i] = 0;
			if try_it(c, &mut best, &mut budget) {
				continue;
			}
			let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
			while lo + 1 < hi && budget > 0 {
				let mid = lo + (hi - lo) / 2;
				let mut c = best.clone();
				if i >= c.len() {
					break;
				}
				c[i] = mid;
				if try_it(c, &mut best, &mut budget) {
					hi = mid;
				} else {
					lo = mid;
				}
			}
		}
		if best == before || budget <= 0 {
			return best;
		}
	}
}

// ---------------------------------------------------------------- running a family

#[derive(Default)]
struct FamStats {
	evaluations: u64,
	checks: u64,
	nontrivial: u64,
	distinct: HashSet<u64>,
	labels: BTreeMap<&'static str, u64>,
	sample_idx: Vec<u64>,
	known: BTreeMap<String, u64>,
}

struct Found {
	index: u64,
	failure: Failure,
	choices: Vec<u64>,
	size: u64,
}

struct Slot {
	tid: AtomicU64,
	in_case: AtomicBool,
	index: AtomicU64,
	shared: Arc<SrcShared>,
	size: AtomicU64,
}

fn case_params(seed: u64, fam: &Family, index: u64, thorough: bool) -> (u64, u64) {
	let s = mix(seed, hash_str(fam.name), index);
	// sizes cycle so that small and large histories are both well covered
	let size = if thorough { 4 + (index % 24) } else { 4 + (index % 12) };
	(s, size)
}

fn run_family(fam: &Family, n: u64, seed: u64, thorough: bool, known: &[Known]) -> (FamStats, Option<Found>) {
	let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
	let next = Arc::new(AtomicU64::new(0));
	let stop_at = Arc::new(AtomicU64::new(u64::MAX));
	let found: Arc<Mutex<Vec<Found>>> = Default::default();
	let stats: Arc<Mutex<FamStats>> = Default::default();
	let alive = Arc::new(AtomicUsize::new(workers));
	let known: Arc<Vec<Known>> = Arc::new(known.to_vec());
	let mut slots = Vec::new();
	for w in 0..workers {
		let slot = Arc::new(Slot {
			tid: AtomicU64::new(0),
			in_case: AtomicBool::new(false),
			index: AtomicU64::new(0),
			shared: Arc::new(SrcShared::default()),
			size: AtomicU64::new(0),
		});
		slots.push(slot.clone());
		let (next, stop_at, found, stats, alive, fam, known) =
			(next.clone(), stop_at.clone(), found.clone(), stats.clone(), alive.clone(), fam.clone(), known.clone());
		std::thread::Builder::new()
			.name("worker".into())
			.stack_size(64 << 20)
			.spawn(move || {
				slot.tid.store(proc::gettid(), Ordering::SeqCst);
				let mut local = FamStats::default();
				loop {
					let i = next.fetch_add(1, Ordering::SeqCst);
					if i >= n || i > stop_at.load(Ordering::SeqCst) {
						break;
					}
					let (cseed, size) = case_params(seed, &fam, i, thorough);
					slot.index.store(i, Ordering::SeqCst);
					slot.size.store(size, Ordering::SeqCst);
					if let Some(f) = PROGRESS.get() {
						use std::os::unix::fs::FileExt;
						let rec = format!("{:<63}\n", format!("{} {i}", fam.name));
						let _ = f.write_all_at(rec.as_bytes(), (w * PROGRESS_RECORD) as u64);
					}
					let mut src = Src::new(cseed, None, size, false, slot.shared.clone());
					slot.in_case.store(true, Ordering::SeqCst);
					let r = run_protected(fam.run, &mut src);
					slot.in_case.store(false, Ordering::SeqCst);
					local.evaluations += 1;
					match r {
						Ok(rep) => {
							local.checks += rep.checks;
							for l in rep.labels {
								*local.labels.entry(l).or_default() += 1;
							}
							if rep.nontrivial {
								local.nontrivial += 1;
								let mut h = std::collections::hash_map::DefaultHasher::new();
								slot.shared.log.lock().unwrap().hash(&mut h);
								local.distinct.insert(h.finish());
								if local.sample_idx.len() < 3 {
									local.sample_idx.push(i);
								}
							}
						}
						Err(f) => {
							if let Some(k) = known.iter().find(|k| k.sig == f.sig) {
								*local.known.entry(k.sig.clone()).or_default() += 1;
							} else {
								stop_at.fetch_min(i, Ordering::SeqCst);
								let choices = slot.shared.log.lock().unwrap().clone();
								found.lock().unwrap().push(Found { index: i, failure: f, choices, size });
							}
						}
					}
				}
				let mut s = stats.lock().unwrap();
				s.evaluations += local.evaluations;
				s.checks += local.checks;
				s.nontrivial += local.nontrivial;
				s.distinct.extend(local.distinct);
				for (k, v) in local.labels {
					*s.labels.entry(k).or_default() += v;
				}
				for (k, v) in local.known {
					*s.known.entry(k).or_default() += v;
				}
				s.sample_idx.extend(local.sample_idx);
				drop(s);
				alive.fetch_sub(1, Ordering::SeqCst);
			})
			.expect("spawn");
	}
	// monitor
	let mut last: Vec<Option<proc::Sample>> = vec![None; workers];
	let mut lasti: Vec<u64> = vec![u64::MAX; workers];
	let mut stuck = vec![0u32; workers];
	let mut dead = vec![false; workers];
	let mut since: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); workers];
	let mut cpu0: Vec<Option<u64>> = vec![None; workers];
	loop {
		std::thread::sleep(std::time::Duration::from_millis(if alive.load(Ordering::SeqCst) == 0 { 0 } else { DEADLOCK_POLL_MS }));
		let remaining = alive.load(Ordering::SeqCst);
		let dead_n = dead.iter().filter(|d| **d).count();
		if remaining <= dead_n {
			break;
		}
		for w in 0..workers {
			if dead[w] {
				continue;
			}
			let slot = &slots[w];
			let idx = slot.index.load(Ordering::SeqCst);
			let running = slot.in_case.load(Ordering::SeqCst);
			if since[w].0 != idx {
				since[w] = (idx, Instant::now());
				cpu0[w] = None;
			} else if running && since[w].1.elapsed().as_secs() > 240 {
				eprintln!("WATCHDOG: case {idx} of {} ran for 240s without deadlocking, giving up", fam.name);
				std::process::exit(3);
			}
			let t = slot.tid.load(Ordering::SeqCst);
			if t == 0 || !running || fam.multi_threaded {
				stuck[w] = 0;
				continue;
			}
			let now = proc::sample(t);
			let cpu = now.as_ref().map(|s| s.cpu.0 + s.cpu.1).unwrap_or(0);
			let start = *cpu0[w].get_or_insert(cpu);
			if cpu.saturating_sub(start) > RUNAWAY_CPU_TICKS && slot.index.load(Ordering::SeqCst) == idx && slot.in_case.load(Ordering::SeqCst) {
				dead[w] = true;
				let choices = slot.shared.log.lock().unwrap_or_else(|p| p.into_inner()).clone();
				stop_at.fetch_min(idx, Ordering::SeqCst);
				found.lock().unwrap().push(Found {
					index: idx,
					failure: Failure::new(
						"nontermination",
						"a case of bounded size used 40 s of processor time without ending (a normal one takes well below 0.1 s)",
					),
					choices,
					size: slot.size.load(Ordering::SeqCst),
				});
				continue;
			}
			if idx == lasti[w] && now.is_some() && now == last[w] && now.as_ref().is_some_and(|s| s.sleeping) {
				stuck[w] += 1;
			} else {
				stuck[w] = 0;
			}
			lasti[w] = idx;
			last[w] = now;
			if stuck[w] >= DEADLOCK_POLLS && slot.index.load(Ordering::SeqCst) == idx && slot.in_case.load(Ordering::SeqCst) {
				dead[w] = true;
				let choices = slot.shared.log.lock().unwrap_or_else(|p| p.into_inner()).clone();
				stop_at.fetch_min(idx, Ordering::SeqCst);
				found.lock().unwrap().push(Found {
					index: idx,
					failure: deadlock_failure(),
					choices,
					size: slot.size.load(Ordering::SeqCst),
				});
			}
		}
	}
	let mut f = std::mem::take(&mut *found.lock().unwrap());
	f.sort_by_key(|f| f.index);
	let s = std::mem::take(&mut *stats.lock().unwrap());
	(s, f.into_iter().next())
}

// ---------------------------------------------------------------- known findings

#[derive(Clone, Debug)]
pub struct Known {
	pub property: String,
	pub family: String,
	pub sig: String,
	pub what: String,
	pub choices: Option<Vec<u64>>,
	pub size: u64,
}

/// Format, one finding per line:
/// `finding: property=<id> family=<name> sig=<sig> size=<n> choices=<a,b,c> what=<text>`
fn load_known(dir: &str, id: &str) -> Vec<Known> {
	let Ok(text) = std::fs::read_to_string(format!("{dir}/KNOWN_FINDINGS.txt")) else {
		return Vec::new();
	};
	let mut out = Vec::new();
	for line in text.lines() {
		let Some(rest) = line.strip_prefix("finding: ") else { continue };
		let Some((head, what)) = rest.split_once(" what=") else { continue };
		let Some((head, sig)) = head.split_once(" sig=") else { continue };
		let mut k = Known {
			property: String::new(),
			family: String::new(),
			sig: sig.into(),
			what: what.into(),
			choices: None,
			size: 4,
		};
		for part in head.split(' ') {
			match part.split_once('=') {
				Some(("property", v)) => k.property = v.into(),
				Some(("family", v)) => k.family = v.into(),
				Some(("size", v)) => k.size = v.parse().unwrap_or(4),
				Some(("choices", v)) => {
					k.choices = Some(v.split(',').filter_map(|x| x.parse().ok()).collect());
				}
				_ => {}
			}
		}
		if k.property == id {
			out.push(k);
		}
	}
	out
}

// ---------------------------------------------------------------- json

pub fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn json_list(items: &[String]) -> String {
	format!("[{}]", items.join(","))
}

// ---------------------------------------------------------------- entry point

fn usage() -> ! {
	eprintln!("usage: <bin> run <PROPERTY> <quick|thorough> <seed> <verif dir> | replay <file> | list | case <PROPERTY> <family> <tier> <seed> <index>");
	std::process::exit(2);
}

pub fn main(props: Vec<Property>) -> ! {
	install_panic_hook();
	let args: Vec<String> = std::env::args().collect();
	match args.get(1).map(|s| s.as_str()) {
		Some("list") => {
			for p in &props {
				println!("{} {}", p.id, p.title);
				for f in &p.families {
					println!("    {} quick={} thorough={} nontrivial={}", f.name, f.quick, f.thorough, f.rule);
				}
			}
			std::process::exit(0)
		}
		Some("run") => {
			if args.len() < 6 {
				usage();
			}
			let Some(p) = props.iter().find(|p| p.id == args[2]) else { usage() };
			supervise(p, &args[3], args[4].parse().unwrap_or(1), &args[5]);
		}
		Some("run-child") => {
			let Some(p) = props.iter().find(|p| p.id == args[2]) else { usage() };
			let _ = PROGRESS.set(std::fs::File::create(progress_path(&args[5], p.id)).expect("progress file"));
			run_property(p, &args[3], args[4].parse().unwrap_or(1), &args[5]);
		}
		// probe <property> <family> <size> <stream file> <choices | seed:n>
		Some("probe") => {
			let Some(p) = props.iter().find(|p| p.id == args[2]) else { usage() };
			let Some(f) = p.families.iter().find(|f| f.name == args[3]) else { usage() };
			let _ = STREAM.set(std::fs::File::create(&args[5]).expect("stream file"));
			let mut src = match args[6].strip_prefix("seed:") {
				Some(s) => Src::new(s.parse().unwrap(), None, args[4].parse().unwrap(), true, Arc::default()),
				None => Src::new(0, Some(args[6].split(',').filter_map(|c| c.parse().ok()).collect()), args[4].parse().unwrap(), true, Arc::default()),
			};
			let run = f.run;
			let shared = src.shared.clone();
			let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_protected(run, &mut src).is_ok()).unwrap().join();
			drop(shared);
			std::process::exit(if r.unwrap_or(false) { 0 } else { 1 });
		}
		Some("case") => {
			let Some(p) = props.iter().find(|p| p.id == args[2]) else { usage() };
			let Some(f) = p.families.iter().find(|f| f.name == args[3]) else { usage() };
			let (seed, size) = case_params(args[5].parse().unwrap(), f, args[6].parse().unwrap(), args[4] == "thorough");
			let mut src = Src::new(seed, None, size, true, Arc::default());
			let r = run_protected(f.run, &mut src);
			println!("{}\n=> {r:?}", src.shared.note.lock().unwrap());
			std::process::exit(0);
		}
		Some("replay") => {
			let Some(file) = args.get(2) else { usage() };
			replay(&props, file);
		}
		_ => usage(),
	}
}

fn field<'a>(text: &'a str, key: &str) -> Option<&'a str> {
	text.lines().find_map(|l| l.strip_prefix(&format!("{key}: ")))
}

fn replay(props: &[Property], file: &str) -> ! {
	let Ok(text) = std::fs::read_to_string(file) else {
		eprintln!("cannot read {file}");
		std::process::exit(2)
	};
	let (Some(id), Some(fam), Some(choices)) = (field(&text, "property"), field(&text, "family"), field(&text, "choices")) else {
		eprintln!("not a replay file");
		std::process::exit(2)
	};
	let size = field(&text, "size").and_then(|s| s.parse().ok()).unwrap_or(8);
	let Some(f) = props.iter().find(|p| p.id == id).and_then(|p| p.families.iter().find(|f| f.name == fam)) else {
		eprintln!("unknown property or family {id} {fam}");
		std::process::exit(2)
	};
	if field(&text, "signature") == Some("abort") {
		let (died, _, err) = probe(id, f, size, choices);
		println!("{err}\n{}", if died { format!("VIOLATION property={id} replay={file}") } else { "holds".into() });
		std::process::exit(died as i32);
	}
	let r = run_one(f, choices.split(',').filter_map(|c| c.parse().ok()).collect(), size, true);
	println!("{}", r.note);
	match r.result {
		Some(Err(f)) => {
			println!("FAILS: {}: {}", f.sig, f.message);
			println!("VIOLATION property={id} replay={file}");
			std::process::exit(1)
		}
		Some(Ok(_)) => {
			println!("holds");
			std::process::exit(0)
		}
		None => std::process::exit(3),
	}
}

// ---------------------------------------------------------------- surviving aborts

fn progress_path(dir: &str, id: &str) -> String {
	format!("{dir}/evidence/.progress-{id}")
}
fn pending_path(dir: &str, id: &str) -> String {
	format!("{dir}/evidence/.pending-{id}")
}

/// Runs one case in a process of its own. Returns whether it was killed by a
/// signal, the choices it made and what it wrote.
fn probe(id: &str, fam: &Family, size: u64, what: &str) -> (bool, Vec<u64>, String) {
	use std::os::unix::process::ExitStatusExt;
	static N: AtomicU64 = AtomicU64::new(0);
	let stream = std::env::temp_dir().join(format!("verif-probe-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
	let exe = std::env::current_exe().expect("exe");
	let child = std::process::Command::new(exe)
		.args(["probe", id, fam.name, &size.to_string()])
		.arg(&stream)
		.arg(what)
		.stdin(std::process::Stdio::null())
		.stdout(std::process::Stdio::null())
		.stderr(std::process::Stdio::piped())
		.spawn();
	let Ok(mut child) = child else { return (false, vec![], String::new()) };
	let started = Instant::now();
	let status = loop {
		match child.try_wait() {
			Ok(Some(s)) => break Some(s),
			Ok(None) if started.elapsed().as_secs() < 20 => std::thread::sleep(std::time::Duration::from_micros(500)),
			_ => {
				let _ = child.kill();
				let _ = child.wait();
				break None;
			}
		}
	};
	let mut err = String::new();
	if let Some(mut e) = child.stderr.take() {
		use std::io::Read;
		let mut bytes = vec![];
		let _ = e.read_to_end(&mut bytes);
		err = String::from_utf8_lossy(&bytes).chars().take(4000).collect();
	}
	let choices = std::fs::read_to_string(&stream).unwrap_or_default().split(',').filter_map(|c| c.parse().ok()).collect();
	let _ = std::fs::remove_file(&stream);
	(status.is_some_and(|s| is_crash(s.signal())), choices, err)
}

fn is_crash(signal: Option<i32>) -> bool {
	// SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP: raised by the code
	// itself, unlike SIGKILL (out of memory) and SIGTERM
	matches!(signal, Some(6 | 11 | 7 | 4 | 8 | 5))
}

/// Runs the property in a child process, so that a case that aborts the
/// process (a panic while unwinding, a stack overflow) is a finding like any
/// other.
fn supervise(p: &Property, tier: &str, seed: u64, dir: &str) -> ! {
	use std::os::unix::process::ExitStatusExt;
	let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
	let (progress, pending) = (progress_path(dir, p.id), pending_path(dir, p.id));
	let _ = std::fs::remove_file(&pending);
	let exe = std::env::current_exe().expect("exe");
	let status = std::process::Command::new(exe).args(["run-child", p.id, tier, &seed.to_string(), dir]).status();
	let slots = std::fs::read_to_string(&progress).unwrap_or_default();
	let pend = std::fs::read_to_string(&pending).ok();
	let _ = std::fs::remove_file(&progress);
	let _ = std::fs::remove_file(&pending);
	let Ok(status) = status else { std::process::exit(2) };
	if !is_crash(status.signal()) {
		std::process::exit(status.code().unwrap_or(3));
	}
	let thorough = tier == "thorough";
	let (path, what) = if let Some(pend) = pend {
		// died while shrinking a failure that had already been written down
		(pend.trim().to_string(), "see the replay file (the process died while shrinking it)".to_string())
	} else {
		let mut found = None;
		for line in slots.lines() {
			let mut w = line.split_whitespace();
			let (Some(fam), Some(i)) = (w.next(), w.next().and_then(|i| i.parse::<u64>().ok())) else { continue };
			let Some(f) = p.families.iter().find(|f| f.name == fam) else { continue };
			let (cseed, size) = case_params(seed, f, i, thorough);
			let (died, choices, err) = probe(p.id, f, size, &format!("seed:{cseed}"));
			if died {
				found = Some((f, size, choices, err, i));
				break;
			}
		}
		let (fam, size, choices, err, i) = match found {
			Some((f, size, choices, err, i)) => {
				let csv = |c: &[u64]| c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
				let until = Instant::now();
				let min = shrink_with(choices, 600, |c| {
					if until.elapsed().as_secs() > 60 {
						return None;
					}
					let (died, choices, _) = probe(p.id, f, size, &csv(&c));
					died.then_some(choices)
				});
				let (_, _, e2) = probe(p.id, f, size, &csv(&min));
				(f.name, size, csv(&min), if e2.is_empty() { err } else { e2 }, i)
			}
			None => (p.families[0].name, 0, String::new(), format!("the cases in flight were:\n{slots}"), 0),
		};
		let path = format!("{dir}/evidence/replay/{}-{fam}-{tier}.txt", p.id);
		let what = format!("the process was aborted by the code under test (signal {:?})\n{err}", status.signal());
		let body = format!(
			"property: {}\nfamily: {fam}\nsize: {size}\nchoices: {choices}\nsignature: abort\nfound: seed {seed} case {i}\n\n{what}\n",
			p.id
		);
		let _ = std::fs::write(&path, body);
		(path, what)
	};
	println!("---- {} {what}", p.id);
	let evidence = format!(
		"{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"wall_s\":0.0,\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"the run ended with a crash of the process\",\"samples\":[{}]}},\"assumptions\":[],\"violations\":[{{\"signature\":\"abort\",\"message\":{},\"replay\":{}}}]}}\n",
		json_str(p.id),
		json_str(tier),
		seed,
		json_str(&what),
		json_str(&what),
		json_str(&path)
	);
	let _ = std::fs::write(format!("{dir}/evidence/{}.json", p.id), evidence);
	println!("VIOLATION property={} replay={path}", p.id);
	let _ = std::io::stdout().flush();
	std::process::exit(1)
}

fn run_property(p: &Property, tier: &str, seed: u64, dir: &str) -> ! {
	let started = Instant::now();
	let thorough = tier == "thorough";
	let known = load_known(dir, p.id);
	let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
	let mut total = FamStats::default();
	let mut fam_json = Vec::new();
	let mut samples = Vec::new();
	let mut violations = Vec::new();
	let mut violation_lines = Vec::new();
	let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();

	for (ki, k) in known.iter().enumerate() {
		let Some(f) = p.families.iter().find(|f| f.name == k.family) else { continue };
		if let Some(choices) = &k.choices {
			let r = run_one(f, choices.clone(), k.size, true);
			if matches!(&r.result, Some(Err(fl)) if fl.sig == k.sig) {
				known_hits.insert(known[ki].sig.clone(), 1);
			}
		}
	}

	for f in &p.families {
		let t0 = Instant::now();
		let n = (((if thorough { f.thorough } else { f.quick }) as f64) * scale).ceil().max(1.0) as u64;
		let fam_known: Vec<Known> = known.iter().filter(|k| k.family == f.name).cloned().collect();
		let (st, found) = run_family(f, n, seed, thorough, &fam_known);
		for (sig, c) in &st.known {
			*known_hits.entry(sig.clone()).or_default() += c;
		}
		let mut idx = st.sample_idx.clone();
		idx.sort();
		for i in idx.iter().take(3) {
			let (cseed, size) = case_params(seed, f, *i, thorough);
			if f.multi_threaded {
				continue;
			}
			let mut src = Src::new(cseed, None, size, true, Arc::default());
			let _ = run_protected(f.run, &mut src);
			let note = src.shared.note.lock().unwrap_or_else(|p| p.into_inner()).clone();
			let mut note: String = note.chars().take(1200).collect();
			if note.is_empty() {
				note = "(no rendering)".into();
			}
			samples.push(json_str(&format!("[{}#{}] {}", f.name, i, note)));
		}
		let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
		fam_json.push(format!(
			"{{\"family\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"checks\":{},\"rule\":{},\"labels\":{{{}}},\"wall_s\":{:.2}}}",
			json_str(f.name),
			st.evaluations,
			st.nontrivial,
			st.distinct.len(),
			st.checks,
			json_str(f.rule),
			labels.join(","),
			t0.elapsed().as_secs_f64()
		));
		total.evaluations += st.evaluations;
		total.checks += st.checks;
		total.nontrivial += st.distinct.len() as u64;
		println!(
			"{} {}: {} cases, {} distinct non-trivial, {} checks, {:.1}s {:?}",
			p.id,
			f.name,
			st.evaluations,
			st.distinct.len(),
			st.checks,
			t0.elapsed().as_secs_f64(),
			st.labels
		);
		if let Some(found) = found {
			let rdir = format!("{dir}/evidence/replay");
			let _ = std::fs::create_dir_all(&rdir);
			let path = format!("{rdir}/{}-{}-{}.txt", p.id, f.name, tier);
			let render = |choices: &[u64], text: &str| {
				format!(
					"property: {}\nfamily: {}\nsize: {}\nchoices: {}\nsignature: {}\nfound: seed {} case {}\n\n{text}\n",
					p.id,
					f.name,
					found.size,
					choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
					found.failure.sig,
					seed,
					found.index,
				)
			};
			let _ = std::fs::write(&path, render(&found.choices, &found.failure.message));
			let _ = std::fs::write(pending_path(dir, p.id), &path);
			let endless = found.failure.sig == "nontermination";
			let minimal = if endless { found.choices.clone() } else { shrink(f, found.size, found.choices.clone(), &found.failure.sig) };
			let r = if endless {
				OneShot { choices: minimal.clone(), note: String::new(), result: None }
			} else {
				run_one(f, minimal.clone(), found.size, true)
			};
			let msg = match &r.result {
				Some(Err(f)) => f.message.clone(),
				_ => found.failure.message.clone(),
			};
			let _ = std::fs::write(&path, render(&minimal, &format!("{}\n\n{msg}", r.note)));
			println!("---- {} {} sig={}\n{}\n{}", p.id, f.name, found.failure.sig, r.note, msg);
			violations.push(format!(
				"{{\"family\":{},\"signature\":{},\"message\":{},\"replay\":{}}}",
				json_str(f.name),
				json_str(&found.failure.sig),
				json_str(&msg),
				json_str(&path)
			));
			violation_lines.push(format!("VIOLATION property={} replay={}", p.id, path));
			// One counterexample decides the property
			break;
		}
	}

	for k in &known {
		if known_hits.contains_key(&k.sig) {
			println!("KNOWN-FINDING: property={} {}", p.id, k.what);
		}
	}
	let rules: Vec<String> = p.families.iter().map(|f| format!("{}: {}", f.name, f.rule)).collect();
	let known_json: Vec<String> = known_hits.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
	let evidence = format!(
		"{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"wall_s\":{:.2},\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":{},\"elementary_checks\":{},\"families\":{},\"known_finding_hits\":{{{}}}}},\"assumptions\":{},\"violations\":{}}}\n",
		json_str(p.id),
		json_str(tier),
		seed,
		started.elapsed().as_secs_f64(),
		total.evaluations,
		total.nontrivial,
		json_str(&rules.join(" | ")),
		json_list(&samples),
		total.checks,
		json_list(&fam_json),
		known_json.join(","),
		json_list(&p.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>()),
		json_list(&violations),
	);
	let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
	if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", p.id), evidence) {
		eprintln!("cannot write evidence: {e}");
		std::process::exit(2);
	}
	for l in &violation_lines {
		println!("{l}");
	}
	let _ = std::io::stdout().flush();
	std::process::exit(if violation_lines.is_empty() { 0 } else { 1 })
}
