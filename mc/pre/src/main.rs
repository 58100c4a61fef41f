//! kxpre: two calls on two threads, preempted inside of the library.
//! The library and the tasks are compiled with a call to this program at every edge between basic blocks and at
//! every access to static memory (see rustc.sh). One thread runs at a time; it is stopped at a chosen one of these
//! points, the other one runs, and so on.
//!   kxpre one A B ALL      task A stopped once, at each point; B runs from its start to its end meanwhile
//!   kxpre two A B ALL      A stopped around each access to static memory, then B likewise, then A to its end, then B
//!   kxpre fresh A B ALL    like one, each time in a process that has not used the library before
//! ALL=0: each place in the code the first time it is reached; ALL=1: every time
use kxtasks::tasks::{outcome, TASKS};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ points
const NOBODY: usize = usize::MAX;
thread_local! {
	static ME: Cell<usize> = const { Cell::new(NOBODY) };
	static COUNT: Cell<u64> = const { Cell::new(0) };
	static TARGET: Cell<u64> = const { Cell::new(u64::MAX) };
	static REC: RefCell<Option<Vec<u64>>> = const { RefCell::new(None) };
}
fn hit(id: u64) {
	let me = ME.get();
	if me == NOBODY { return }
	let k = COUNT.get(); COUNT.set(k + 1);
	if TARGET.get() == k { switch(me) }
	REC.with(|r| if let Ok(mut r) = r.try_borrow_mut() { if let Some(r) = r.as_mut() { r.push(id) } });
}
#[no_mangle] extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) { hit(unsafe { *g } as u64) }
#[no_mangle] unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
	use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
	static N: AtomicU32 = AtomicU32::new(0);
	if a == b || *a != 0 { return }
	while a < b { *a = N.fetch_add(1, Relaxed) + 1; a = a.add(1); }
}
unsafe extern "C" { static __data_start: u8; static _end: u8; fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn pipe(f: *mut i32) -> i32; fn close(f: i32) -> i32; fn gettid() -> i32; fn sched_getcpu() -> i32; fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32; fn _exit(c: i32) -> !; fn kill(p: i32, s: i32) -> i32; }
fn memory(p: usize) { let (a, b) = (&raw const __data_start as usize, &raw const _end as usize); if p >= a && p < b { hit(1 << 40 | p as u64) } }
macro_rules! mem { ($($n:ident)*) => { $(#[no_mangle] extern "C" fn $n(p: *const u8) { memory(p as usize) })* } }
mem!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ------------------------------------------------------------------ who runs
struct St { turn: usize, done: [bool; 2], tid: [i32; 2], out: [Option<String>; 2], rec: [Vec<u64>; 2], switched: [bool; 2], blocked: u64 }
static ST: Mutex<St> = Mutex::new(St { turn: 0, done: [true; 2], tid: [0; 2], out: [None, None], rec: [vec![], vec![]], switched: [false; 2], blocked: 0 });
static CV: Condvar = Condvar::new();
fn switch(me: usize) {
	let mut s = ST.lock().unwrap();
	s.switched[me] = true;
	if s.done[1 - me] { return }
	s.turn = 1 - me; CV.notify_all(); drop(s);
	wait(me)
}
/// the thread sleeps although it is its turn: it waits for something that the other one holds
fn asleep(tid: i32) -> bool {
	std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok().and_then(|s| s.rsplit(") ").next().map(|r| r.starts_with('S'))).unwrap_or(false)
}
fn wait(me: usize) {
	let mut s = ST.lock().unwrap(); let mut strikes = 0;
	while s.turn != me {
		let (g, t) = CV.wait_timeout(s, Duration::from_millis(1)).unwrap(); s = g;
		if t.timed_out() && s.turn != me && s.tid[1 - me] != 0 {
			strikes = if asleep(s.tid[1 - me]) { strikes + 1 } else { 0 };
			if strikes >= 2 { s.turn = me; s.blocked += 1; CV.notify_all(); }
		}
	}
}
type Job = Box<dyn FnOnce() + Send>;
fn worker() -> Sender<Job> {
	let (tx, rx) = channel::<Job>();
	std::thread::Builder::new().stack_size(4 << 20).spawn(move || while let Ok(j) = rx.recv() { j() }).expect("MODEL ERROR: thread");
	tx
}
const SLICES: usize = 2;
struct Seen { out: [Option<String>; 2], rec: [Vec<u64>; 2], switched: [bool; 2], blocked: u64, hung: bool }
/// run the tasks that are given, the first one first, each stopped once at its target
fn execute(w: &[Sender<Job>; 2], tasks: [Option<usize>; 2], target: [u64; 2], rec: bool) -> Seen {
	{ let mut s = ST.lock().unwrap(); *s = St { turn: if tasks[0].is_some() { 0 } else { 1 }, done: [tasks[0].is_none(), tasks[1].is_none()], tid: [0; 2], out: [None, None], rec: [vec![], vec![]], switched: [false; 2], blocked: 0 }; }
	for me in 0..2 { if let Some(t) = tasks[me] {
		w[me].send(Box::new(move || {
			ST.lock().unwrap().tid[me] = unsafe { gettid() };
			wait(me);
			if rec { REC.set(Some(Vec::with_capacity(1 << 16))) }
			COUNT.set(0); TARGET.set(target[me]); ME.set(me);
			let o = outcome(t, SLICES);
			ME.set(NOBODY);
			let r = REC.take().unwrap_or_default();
			let mut s = ST.lock().unwrap();
			s.out[me] = Some(o); s.rec[me] = r; s.done[me] = true;
			if s.turn == me { s.turn = 1 - me }
			CV.notify_all();
		})).expect("MODEL ERROR: worker");
	} }
	let t0 = Instant::now();
	let mut s = ST.lock().unwrap();
	while s.done != [true; 2] && t0.elapsed() < Duration::from_secs(25) { s = CV.wait_timeout(s, Duration::from_secs(1)).unwrap().0 }
	Seen { out: std::mem::take(&mut s.out), rec: std::mem::take(&mut s.rec), switched: s.switched, blocked: s.blocked, hung: s.done != [true; 2] }
}
/// which of the points to stop at
fn chosen(rec: &[u64], times: u64) -> Vec<u64> {
	let mut total: HashMap<u64, u64> = HashMap::new(); for &r in rec { *total.entry(r).or_default() += 1 }
	let mut n: HashMap<u64, u64> = HashMap::new();
	rec.iter().enumerate().filter(|(_, r)| { let k = n.entry(**r).or_default(); *k += 1; *k <= times || (times > 1 && *k == total[*r]) }).map(|(i, _)| i as u64).collect()
}
/// the points around accesses to static memory (the unchanged library has none: what is shared between calls would be there)
fn shared(rec: &[u64], times: u64) -> Vec<u64> {
	let mut n: HashMap<u64, u64> = HashMap::new(); let mut out = vec![];
	for (i, r) in rec.iter().enumerate() { if r >> 40 == 1 {
		let k = n.entry(*r).or_default(); *k += 1;
		if *k <= times { for j in i.saturating_sub(1)..(i + 3).min(rec.len()) { out.push(j as u64) } }
	} }
	out.sort(); out.dedup(); out
}
/// all threads on one CPU, so that control passes from one to the other without delay: the CPU this process is on
fn stay_on_one_cpu() {
	let tasks: Vec<i32> = std::fs::read_dir("/proc/self/task").map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect()).unwrap_or_default();
	let set = |mask: &[u64; 16]| for t in &tasks { unsafe { sched_setaffinity(*t, 128, mask.as_ptr()); } };
	set(&[u64::MAX; 16]);
	std::thread::sleep(Duration::from_millis(1));
	let mut mask = [0u64; 16];
	let c = unsafe { sched_getcpu() }.max(0) as usize % 1024; mask[c / 64] |= 1 << (c % 64); set(&mask);
}
fn differs(s: &Seen, want: &[String; 2], names: [&str; 2]) -> Option<String> {
	for i in 0..2 { match &s.out[i] {
		None => return Some(format!("{:?} never finished", names[i])),
		Some(o) if *o != want[i] => return Some(format!("{:?} saw {o:?}, alone it sees {:?}", names[i], want[i])),
		_ => {}
	} }
	None
}
/// what `f` writes, from a process of its own
fn elsewhere(f: impl FnOnce() -> String) -> Option<String> {
	use std::os::fd::FromRawFd;
	let mut p = [0i32; 2];
	unsafe {
		if pipe(p.as_mut_ptr()) != 0 { return None }
		let c = fork();
		if c < 0 { return None }
		if c == 0 { close(p[0]); let o = f(); let mut w = std::fs::File::from_raw_fd(p[1]); let ok = w.write_all(o.as_bytes()).is_ok(); _exit(if ok { 0 } else { 1 }) }
		close(p[1]);
		let mut o = String::new(); let r = std::fs::File::from_raw_fd(p[0]).read_to_string(&mut o);
		let mut st = 0; waitpid(c, &mut st, 0); let _ = kill;
		if st != 0 { return Some(format!("died: status {st}\n")) }
		r.ok().map(|_| o)
	}
}
fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let a: Vec<String> = std::env::args().collect();
	if a.len() < 5 { println!("{}", TASKS.len()); return }
	let (x, y, all) = (a[2].parse::<usize>().unwrap(), a[3].parse::<usize>().unwrap(), a[4] == "1");
	let names = [TASKS[x].0, TASKS[y].0];
	stay_on_one_cpu();
	let times = |n: u64| if all { u64::MAX } else { n };
	let (mut execs, mut reached, mut blocked, mut cut) = (0u64, 0u64, 0u64, 0u64);
	let start = Instant::now(); let mut since = start;
	let viol = |at: String, m: String| println!("VIOL\t{:?}\t{:?}", format!("{:?} and {:?} {at}", names[0], names[1]), m);
	if a[1] == "fresh" {
		let first = elsewhere(|| { let w = [worker(), worker()]; let s = execute(&w, [Some(x), None], [u64::MAX; 2], true); let mut o = String::new(); for p in chosen(&s.rec[0], times(1)) { o += &format!("{p} ") } o + "\n" + &s.out[0].clone().unwrap_or_default() }).expect("MODEL ERROR: fork");
		let second = elsewhere(|| { let w = [worker(), worker()]; execute(&w, [None, Some(y)], [u64::MAX; 2], false).out[1].clone().unwrap_or_default() }).expect("MODEL ERROR: fork");
		let (ps, want) = first.split_once('\n').expect("MODEL ERROR: recording");
		let want = [want.to_string(), second];
		for p in ps.split_whitespace().filter_map(|p| p.parse::<u64>().ok()) {
			let r = elsewhere(|| { let w = [worker(), worker()]; let s = execute(&w, [Some(x), Some(y)], [p, u64::MAX], false); format!("{} {} {}", s.switched[0] as u8, s.blocked, differs(&s, &want, names).unwrap_or_default()) }).expect("MODEL ERROR: fork");
			execs += 1;
			if start.elapsed() > Duration::from_secs(90) { cut = 1; break }
			let mut q = r.splitn(3, ' '); reached += (q.next() == Some("1")) as u64; let b = q.next().and_then(|b| b.parse().ok()).unwrap_or(0); blocked += b;
			let m = if r.starts_with("died") { r.as_str() } else { q.next().unwrap_or("") };
			if !m.is_empty() { viol(format!("in a new process, the first stopped at its point {p}"), m.to_string()); break }
		}
	} else {
		let w = [worker(), worker()];
		// once to warm up, once to see
		let mut want: [String; 2] = Default::default(); let mut rec: [Vec<u64>; 2] = Default::default();
		for i in 0..2 {
			let t = [if i == 0 { Some(x) } else { None }, if i == 1 { Some(y) } else { None }];
			let one = execute(&w, t, [u64::MAX; 2], false); let two = execute(&w, t, [u64::MAX; 2], true);
			if one.hung || one.out[i] != two.out[i] { viol("alone".into(), format!("{:?} and then {:?}", one.out[i], two.out[i])); println!("STAT {execs} {reached} {blocked} {cut}"); return }
			want[i] = one.out[i].clone().unwrap_or_default(); rec[i] = two.rec[i].clone();
		}
		let two = a[1] == "two";
		let (ps, qs) = if two {
			let few = |t| (shared(&rec[0], t), shared(&rec[1], t));
			[if all { 8 } else { 3 }, 2, 1].into_iter().map(few).find(|(p, q)| p.len() * q.len() <= 40_000).unwrap_or_else(|| { let (mut p, mut q) = few(1); p.truncate(200); q.truncate(200); (p, q) })
		} else {
			let mut p = chosen(&rec[0], times(1)); p.extend(shared(&rec[0], if all { 2000 } else { 200 })); p.sort(); p.dedup();
			(p, vec![u64::MAX])
		};
		'all: for &p in &ps { for &q in &qs {
			let s = execute(&w, [Some(x), Some(y)], [p, q], false);
			execs += 1; reached += s.switched[0] as u64 + s.switched[1] as u64; blocked += s.blocked;
			// a CPU that others want too: look for another one
			if execs % 64 == 0 { if since.elapsed() > Duration::from_millis(400) { stay_on_one_cpu() } since = Instant::now() }
			if start.elapsed() > Duration::from_secs(90) { cut = 1; break 'all }
			if let Some(m) = differs(&s, &want, names) { viol(format!("the first stopped at its point {p}, the second at {}", if q == u64::MAX { "none".into() } else { q.to_string() }), m); break 'all }
			if s.hung || blocked > 2000 { break 'all }
		} }
	}
	println!("STAT {execs} {reached} {blocked} {cut}");
	let _ = std::io::stdout().flush();
	unsafe { _exit(0) }
}
