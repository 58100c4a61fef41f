//! Exhaustive explorers: index spaces (par_enum), operation histories (bfs, all_paths), plus the
//! bookkeeping (states, transitions, traces), violations, replay, watchdog.
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

/// small deterministic hasher (FNV-style with avalanche), used for state identity
#[derive(Clone)]
pub struct Fx(u64);
impl Default for Fx { fn default() -> Self { Fx(0xcbf29ce484222325) } }
impl Hasher for Fx {
	fn finish(&self) -> u64 { let mut x = self.0; x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^= x >> 32; x }
	fn write(&mut self, b: &[u8]) { for &c in b { self.0 = (self.0.rotate_left(5) ^ c as u64).wrapping_mul(0x517cc1b727220a95); } }
}
#[derive(Default, Clone)]
pub struct IdH(u64);
impl Hasher for IdH {
	fn finish(&self) -> u64 { self.0 }
	fn write(&mut self, b: &[u8]) { for &c in b { self.0 = (self.0 << 8) | c as u64; } }
	fn write_u64(&mut self, n: u64) { self.0 = n }
	fn write_u128(&mut self, n: u128) { self.0 = n as u64 }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdH>>;
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fx::default(); t.hash(&mut h); h.finish() }
pub fn h128<T: Hash + ?Sized>(t: &T) -> u128 {
	let mut h = Fx::default(); t.hash(&mut h);
	let mut g = Fx(0x9e3779b97f4a7c15); t.hash(&mut g);
	((h.finish() as u128) << 64) | g.finish() as u128
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Violation { pub space: String, pub path: Vec<u64>, pub case: String, pub msg: String }

#[derive(Default)]
pub struct SpaceStat { pub bound: String, pub cases: u64, pub capped: bool, pub secs: f64 }

#[derive(Default)]
pub struct Stats {
	pub evals: u64, pub traces: u64, pub transitions: u64,
	pub states: IdSet,
	pub outcomes: BTreeMap<String, u64>,
	pub samples: Vec<String>,
	pub spaces: BTreeMap<String, SpaceStat>,
	pub max_depth: u64,
}

pub struct Run {
	pub prop: &'static str, pub tier: Tier, pub seed: u64, pub threads: usize,
	pub replay: Option<(String, Vec<u64>)>,
	pub known: Vec<(String, String)>, // (case key, description)
	pub stats: Mutex<Stats>,
	pub viols: Mutex<Vec<Violation>>,
	pub known_hits: Mutex<BTreeMap<String, String>>,
	pub stop: AtomicBool,
	pub slots: Vec<Slot>,
	pub trace: Option<std::fs::File>,
	pub t0: Instant,
	pub replays_run: AtomicU64,
	/// how many worker threads the current space may use
	pub lanes: std::sync::atomic::AtomicUsize,
	/// the time for the whole run is over: what was not explored by then is reported as incomplete
	pub late: AtomicBool,
}
/// what a worker thread is doing right now (for the watchdog and for crash attribution)
pub struct Slot { start_ms: AtomicU64, cur: Mutex<(String, Vec<u64>)> }

thread_local! { static TID: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

pub struct Local<'a> {
	pub run: &'a Run, pub space: &'a str, pub path: Vec<u64>,
	evals: u64, traces: u64, transitions: u64, states: IdSet,
	outcomes: BTreeMap<String, u64>, samples: Vec<String>, failed: Option<Violation>,
}
impl<'a> Local<'a> {
	pub fn new(run: &'a Run, space: &'a str) -> Self {
		Local { run, space, path: vec![], evals: 0, traces: 0, transitions: 0, states: Default::default(), outcomes: Default::default(), samples: vec![], failed: None }
	}
	/// a model state was reached
	pub fn state<T: Hash + ?Sized>(&mut self, t: &T) { self.states.insert(h64(t)); }
	/// n model transitions were taken
	pub fn step(&mut self, n: u64) { self.transitions += n; }
	/// one execution of the real code was compared with the model
	pub fn failed(&self) -> bool { self.failed.is_some() }
	pub fn trace(&mut self) { self.traces += 1; }
	pub fn outcome(&mut self, o: &str) {
		if let Some(c) = self.outcomes.get_mut(o) { *c += 1 } else { self.outcomes.insert(o.to_string(), 1); }
	}
	/// the readable form of a history is only needed when one case is replayed or traced
	pub fn quiet_note(&self) -> bool { note(""); self.run.replay.is_none() }
	pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 2 { self.samples.push(f()) } }
	pub fn fail(&mut self, case: impl Into<String>, msg: impl Into<String>) {
		let case = case.into(); let msg = msg.into();
		if let Some((k, d)) = self.run.known.iter().find(|(k, _)| *k == format!("{}:{}", self.space, one_line(&case))) {
			self.run.known_hits.lock().unwrap().insert(k.clone(), d.clone());
			return;
		}
		if self.failed.is_none() {
			self.failed = Some(Violation { space: self.space.to_string(), path: self.path.clone(), case, msg });
		}
	}
	fn merge(self) {
		let mut s = self.run.stats.lock().unwrap();
		s.evals += self.evals; s.traces += self.traces; s.transitions += self.transitions;
		if s.states.is_empty() { s.states = self.states } else { for x in self.states { s.states.insert(x); } }
		for (k, v) in self.outcomes { *s.outcomes.entry(k).or_default() += v; }
		for x in self.samples { if s.samples.len() < 24 { s.samples.push(x) } }
	}
}
pub fn one_line(s: &str) -> String { s.escape_debug().to_string() }

fn now_ms(run: &Run) -> u64 { run.t0.elapsed().as_millis() as u64 + 1 }

/// run one case with panic capture, watchdog registration and crash tracing
fn guarded<F: FnOnce(&mut Local)>(run: &Run, l: &mut Local, f: F) {
	let tid = TID.with(|t| t.get());
	let slot = &run.slots[tid];
	{ let mut c = slot.cur.lock().unwrap(); if c.0 != l.space { c.0 = l.space.to_string(); } c.1.clear(); c.1.extend_from_slice(&l.path); }
	slot.start_ms.store(now_ms(run), SeqCst);
	if let Some(file) = &run.trace {
		use std::os::unix::fs::FileExt;
		let mut rec = format!("{} {}\n", l.space, l.path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).into_bytes();
		rec.resize(512, b' ');
		let _ = file.write_at(&rec, (tid * 512) as u64);
	}
	l.evals += 1;
	let r = catch_unwind(AssertUnwindSafe(|| f(&mut *l)));
	slot.start_ms.store(0, SeqCst);
	if let Err(p) = r {
		let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
		let case = LAST_CASE.with(|c| c.borrow().clone());
		l.fail(case, format!("panicked: {m}"));
	}
}
thread_local! { static LAST_CASE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// remember the human-readable case, so that a panic can be reported with it
pub fn note(case: &str) { LAST_CASE.with(|c| { let mut c = c.borrow_mut(); c.clear(); c.push_str(case) }) }

/// enumerate every index 0..n; `f` decides one case
pub fn par_enum<F>(run: &Run, space: &str, bound: &str, n: u64, f: F) where F: Fn(u64, &mut Local) + Sync {
	if let Some((sp, path)) = &run.replay {
		if sp == space && path.len() == 1 {
			run.replays_run.fetch_add(1, SeqCst);
			let mut l = Local::new(run, space); l.path = path.clone();
			guarded(run, &mut l, |l| f(path[0], l));
			if let Some(v) = l.failed.take() { run.viols.lock().unwrap().push(v); }
			l.merge();
		}
		return;
	}
	if run.stop.load(SeqCst) { return; }
	assert!(n > 0, "empty space {space}");
	let t0 = Instant::now();
	let next = AtomicU64::new(0);
	let done = AtomicU64::new(0);
	let chunk = (n / (run.threads as u64 * 64)).clamp(1, 4096);
	let nchunks = n.div_ceil(chunk);
	let rot = run.seed % nchunks;
	workers(run, |_| {
		let mut l = Local::new(run, space);
		loop {
			let c = next.fetch_add(1, SeqCst);
			if c >= nchunks || run.over() { break; }
			let c = (c + rot) % nchunks;
			for i in c * chunk..((c + 1) * chunk).min(n) {
				l.path.clear(); l.path.push(i);
				guarded(run, &mut l, |l| f(i, l));
				if let Some(v) = l.failed.take() { run.viols.lock().unwrap().push(v); run.stop.store(true, SeqCst); break; }
				done.fetch_add(1, Relaxed);
				if run.late.load(Relaxed) { break; }
			}
		}
		l.merge();
	});
	let mut s = run.stats.lock().unwrap();
	let e = s.spaces.entry(space.to_string()).or_default();
	e.secs += t0.elapsed().as_secs_f64();
	e.bound = bound.to_string(); e.cases += done.load(SeqCst); e.capped |= done.load(SeqCst) != n;
}

/// as par_enum, with nothing else running meanwhile
pub fn serial<F>(run: &Run, space: &str, bound: &str, n: u64, f: F) where F: Fn(u64, &mut Local) + Sync {
	run.lanes.store(1, SeqCst); par_enum(run, space, bound, n, f); run.lanes.store(usize::MAX, SeqCst);
}

/// breadth-first search over operation histories. `f(path)` rebuilds the real object and the model by
/// replaying `path`, compares them, and returns the canonical state reached (None: do not extend).
/// With `dedupe`, histories reaching an already seen canonical state are not extended - except short ones:
/// what the implementation keeps beyond the canonical state may differ, so as many of the first levels as
/// the budget allows are explored as histories.
pub fn bfs<F>(run: &Run, space: &str, bound: &str, nops: usize, depth: usize, dedupe: bool, f: F) where F: Fn(&[u64], &mut Local) -> Option<u128> + Sync {
	if let Some((sp, path)) = &run.replay {
		if sp == space {
			run.replays_run.fetch_add(1, SeqCst);
			let mut l = Local::new(run, space); l.path = path.clone();
			guarded(run, &mut l, |l| { f(path, l); });
			if let Some(v) = l.failed.take() { run.viols.lock().unwrap().push(v); }
			l.merge();
		}
		return;
	}
	if run.stop.load(SeqCst) { return; }
	let t0 = Instant::now();
	let shards: Vec<Mutex<HashSet<u128, BuildHasherDefault<IdH>>>> = (0..256).map(|_| Mutex::new(Default::default())).collect();
	let mut frontier: Vec<Vec<u64>> = vec![vec![]];
	let mut total = 0u64;
	let budget = run.t(if run.prop == "C05" { 400_000u64 } else { 1_500_000 }, 12_000_000);
	let mut keep = 0; while (nops as u64).saturating_pow(keep as u32 + 2) <= budget { keep += 1; }
	for d in 0..=depth {
		// d == 0 evaluates the initial state itself
		let new: Mutex<Vec<Vec<u64>>> = Mutex::new(vec![]);
		let next = AtomicU64::new(0);
		let fan = if d == 0 { 1 } else { nops as u64 };
		let n = frontier.len() as u64 * fan;
		let chunk = (n / (run.threads as u64 * 32)).clamp(1, 1024);
		let frontier_ref = &frontier;
		let done = AtomicU64::new(0);
		workers(run, |_| {
			let mut l = Local::new(run, space);
			let mut mine = vec![];
			loop {
				let c = next.fetch_add(1, SeqCst);
				if c * chunk >= n || run.over() { break; }
				for i in c * chunk..((c + 1) * chunk).min(n) {
					let mut p = frontier_ref[(i / fan) as usize].clone();
					if d > 0 { p.push(i % fan); }
					l.path.clear(); l.path.extend_from_slice(&p);
					let mut res = None;
					guarded(run, &mut l, |l| { res = f(&p, l); });
					done.fetch_add(1, Relaxed);
					if d > 0 { l.transitions += 1; }
					if let Some(v) = l.failed.take() { run.viols.lock().unwrap().push(v); run.stop.store(true, SeqCst); break; }
					if let Some(h) = res {
						l.states.insert(h as u64);
						let fresh = shards[(h >> 120) as usize].lock().unwrap().insert(h) || !dedupe || d <= keep;
						if fresh && d < depth { mine.push(p); }
					}
					if run.late.load(Relaxed) { break; }
				}
			}
			new.lock().unwrap().append(&mut mine);
			l.merge();
		});
		total += done.load(SeqCst);
		frontier = new.into_inner().unwrap();
		frontier.sort();
		if run.over() || frontier.is_empty() { break; }
	}
	let stopped = run.over();
	let mut s = run.stats.lock().unwrap();
	let e = s.spaces.entry(space.to_string()).or_default();
	e.secs += t0.elapsed().as_secs_f64();
	e.bound = if dedupe { format!("{bound}; equal states merged from length {} on", keep + 1) } else { bound.to_string() }; e.cases += total; e.capped |= stopped;
	s.max_depth = s.max_depth.max(depth as u64);
}

fn workers<F: Fn(usize) + Sync>(run: &Run, f: F) {
	std::thread::scope(|s| {
		for t in 0..run.threads.min(run.lanes.load(SeqCst)) {
			let f = &f;
			std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || { TID.with(|x| x.set(t)); f(t) }).unwrap();
		}
	});
}

impl Run {
	pub fn new(prop: &'static str, tier: Tier, seed: u64, replay: Option<(String, Vec<u64>)>, known: Vec<(String, String)>, trace: Option<std::fs::File>) -> Run {
		let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
		Run {
			prop, tier, seed, threads, replay, known, stats: Default::default(), viols: Default::default(), known_hits: Default::default(),
			stop: AtomicBool::new(false), lanes: usize::MAX.into(), late: AtomicBool::new(false), trace, t0: Instant::now(), replays_run: AtomicU64::new(0),
			slots: (0..threads).map(|_| Slot { start_ms: AtomicU64::new(0), cur: Mutex::new(Default::default()) }).collect(),
		}
	}
	pub fn over(&self) -> bool { self.stop.load(Relaxed) || self.late.load(Relaxed) }
	pub fn quick(&self) -> bool { self.tier == Tier::Quick }
	/// pick by tier
	pub fn t<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }
	/// the case that has been running longest, and for how long (ms)
	pub fn longest(&self) -> Option<(u64, String, Vec<u64>)> {
		let now = now_ms(self);
		self.slots.iter().filter_map(|s| {
			let st = s.start_ms.load(SeqCst);
			if st == 0 { return None; }
			let c = s.cur.lock().unwrap();
			Some((now.saturating_sub(st), c.0.clone(), c.1.clone()))
		}).max_by_key(|x| x.0)
	}
}

thread_local! { static CACHE: std::cell::RefCell<std::collections::HashMap<&'static str, std::rc::Rc<dyn std::any::Any>>> = Default::default(); }
/// objects of the code under test are not shared between threads: each worker thread makes its own, once
/// (worker threads live for one space)
pub fn per_thread<T: 'static>(key: &'static str, make: impl FnOnce() -> T) -> std::rc::Rc<T> {
	if let Some(x) = CACHE.with(|c| c.borrow().get(key).cloned()) { return x.downcast::<T>().unwrap() }
	let x = std::rc::Rc::new(make());
	CACHE.with(|c| c.borrow_mut().insert(key, x.clone()));
	x
}

/// mixed-radix decoding helper
pub struct Dec(pub u64);
impl Dec {
	pub fn take(&mut self, n: usize) -> usize { let r = (self.0 % n as u64) as usize; self.0 /= n as u64; r }
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.take(xs.len())] }
	pub fn flag(&mut self) -> bool { self.take(2) == 1 }
}

/// number of strings of exactly/at most k symbols over n symbols
pub fn strings_upto(n: usize, k: usize) -> u64 { (0..=k).map(|i| (n as u64).pow(i as u32)).sum() }
/// the i-th token sequence of length <= k (shortest first)
pub fn nth_string<'a, T>(alpha: &'a [T], mut i: u64) -> Vec<&'a T> {
	let n = alpha.len() as u64;
	let mut len = 0u32;
	while i >= n.pow(len) { i -= n.pow(len); len += 1; }
	let mut v = Vec::with_capacity(len as usize);
	for _ in 0..len { v.push(&alpha[(i % n) as usize]); i /= n; }
	v.reverse();
	v
}
pub fn nth_concat(alpha: &[&str], i: u64) -> String { nth_string(alpha, i).into_iter().copied().collect() }

pub const SCALARS: u64 = 0x110000 - 0x800;
/// the i-th Unicode scalar value
pub fn scalar(i: u64) -> char { let c = if i >= 0xD800 { i + 0x800 } else { i } as u32; char::from_u32(c).unwrap() }
