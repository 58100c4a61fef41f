//! C31: calls running at the same time, or inside of each other's callbacks, do not disturb each other.
//! A controlled scheduler hands control from thread to thread at the points where the library calls back
//! into its user: readers, writers, predicates, conversions into strings, and between steps of iterators.
use crate::engine::*;
use crate::tasks::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

// ------------------------------------------------------------------ the scheduler
/// only one thread runs at a time: keep them all on one processor, where handing over is cheap
fn stay_on_one_cpu() {
	unsafe extern "C" { fn sched_getcpu() -> i32; fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32; }
	thread_local! { static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
	if DONE.with(|d| d.replace(true)) { return }
	let mut mask = [0u64; 16];
	unsafe { let c = sched_getcpu().max(0) as usize % 1024; mask[c / 64] |= 1 << (c % 64); sched_setaffinity(0, std::mem::size_of_val(&mask), mask.as_ptr()); } // a refusal only costs time
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum At { New, Ready, Runs, Blocked, Done }
struct St { turn: Option<usize>, at: Vec<At>, out: Vec<Option<String>> }
struct Sched { st: Mutex<St>, cv: Condvar }
impl Sched {
	/// give up control and wait to be chosen again
	fn pause(&self, me: usize) {
		let mut s = self.st.lock().unwrap();
		if s.turn == Some(me) { s.turn = None }
		s.at[me] = At::Ready; self.cv.notify_all();
		while s.turn != Some(me) { s = self.cv.wait(s).unwrap() }
		s.at[me] = At::Runs;
	}
}
type Job = Box<dyn FnOnce() + Send>;
/// the threads that run tasks live as long as the worker thread that drives them
fn on_thread(i: usize, job: Job) {
	thread_local! { static POOL: RefCell<Vec<std::sync::mpsc::Sender<Job>>> = const { RefCell::new(vec![]) }; }
	POOL.with(|p| {
		let mut p = p.borrow_mut();
		while p.len() <= i {
			let (tx, rx) = std::sync::mpsc::channel::<Job>();
			std::thread::Builder::new().stack_size(2 << 20).spawn(move || while let Ok(j) = rx.recv() { j() }).expect("MODEL ERROR: thread");
			p.push(tx);
		}
		p[i].send(job).expect("MODEL ERROR: task thread");
	})
}
/// One execution: tasks on threads of their own, one at a time; at every point the schedule says who goes on.
/// Returns what was seen, and for every decision (choice, who could go on, whether the last one could).
struct Exec { out: Vec<Option<String>>, decisions: Vec<(usize, usize)>, blocked: u64 }
fn execute(tasks: &[usize], n: usize, prefix: &[usize], patience: Duration) -> Exec {
	let k = tasks.len();
	let s = Arc::new(Sched { st: Mutex::new(St { turn: None, at: vec![At::New; k], out: vec![None; k] }), cv: Condvar::new() });
	for (me, &t) in tasks.iter().enumerate() {
		let s = s.clone();
		on_thread(me, Box::new(move || {
			s.pause(me);
			let p = s.clone();
			let out = with_point(Some(Rc::new(move || p.pause(me))), || outcome(t, n));
			let mut st = s.st.lock().unwrap();
			st.at[me] = At::Done; st.out[me] = Some(out); if st.turn == Some(me) { st.turn = None } s.cv.notify_all();
		}))
	}
	let mut x = Exec { out: vec![], decisions: vec![], blocked: 0 };
	let mut last = usize::MAX;
	let mut st = s.st.lock().unwrap();
	while st.at.contains(&At::New) { st = s.cv.wait(st).unwrap() }
	loop {
		// canonical order: the one that ran last first, then the others
		let mut can: Vec<usize> = (0..k).filter(|&i| st.at[i] == At::Ready).collect();
		can.sort_by_key(|&i| (i != last, i));
		if can.is_empty() {
			if st.at.iter().all(|a| *a == At::Done) { break }
			// someone holds what the others wait for
			let (g, t) = s.cv.wait_timeout(st, Duration::from_secs(20)).unwrap(); st = g;
			if t.timed_out() && !st.at.contains(&At::Ready) && !st.at.iter().all(|a| *a == At::Done) { x.out = st.out.clone(); return x } // the threads are lost
			continue
		}
		let d = x.decisions.len();
		let c = prefix.get(d).copied().unwrap_or(0).min(can.len() - 1);
		x.decisions.push((c, can.len() + if can[0] == last { 0 } else { 100 }));
		last = can[c]; st.turn = Some(last); s.cv.notify_all();
		while st.turn == Some(last) {
			let (g, t) = s.cv.wait_timeout(st, patience).unwrap(); st = g;
			if t.timed_out() && st.turn == Some(last) && st.at[last] == At::Runs { st.at[last] = At::Blocked; st.turn = None; x.blocked += 1; }
		}
	}
	x.out = st.out.clone();
	x
}
/// all schedules with at most `pre` preemptions; the first that makes a difference is reported
fn all_schedules(tasks: &[usize], n: usize, pre: usize, want: &[Vec<String>], l: &mut Local) {
	let names: Vec<&str> = tasks.iter().map(|&t| TASKS[t].0).collect();
	stay_on_one_cpu();
	let mut stack: Vec<Vec<usize>> = vec![vec![]];
	let mut blocked = 0;
	while let Some(prefix) = stack.pop() {
		let x = execute(tasks, n, &prefix, Duration::from_millis(400));
		l.trace(); l.step(x.decisions.len() as u64);
		let choices: Vec<usize> = x.decisions.iter().map(|d| d.0).collect();
		l.state(&(tasks, &choices));
		for (i, &t) in tasks.iter().enumerate() {
			let say = match &x.out[i] { None => "never finished".to_string(), Some(o) if *o != want[t][n] => format!("saw {o:?}, alone it sees {:?}", want[t][n]), _ => continue };
			return l.fail(format!("{names:?}, schedule {choices:?}"), format!("task {i} ({}) {say}", names[i]))
		}
		blocked += x.blocked;
		if blocked > 30 { l.outcome("left: the tasks lock each other out"); return }
		l.outcome("all as if alone");
		// every alternative after the prefix, within the bound of preemptions
		let cost = |upto: usize| x.decisions[..upto].iter().filter(|d| d.1 < 100 && d.0 > 0).count();
		for d in prefix.len()..x.decisions.len() {
			let (_, m) = x.decisions[d]; let can = m % 100;
			if cost(d) + (m < 100) as usize > pre { continue }
			for alt in 1..can { let mut p = choices[..d].to_vec(); p.push(alt); stack.push(p); }
		}
	}
}

pub fn c31(run: &Run) {
	let nt = TASKS.len() as u64;
	let want: Vec<Vec<String>> = (0..TASKS.len()).map(|t| (0..7).map(|n| if n < 2 { String::new() } else { alone(t, n) }).collect()).collect();
	for (t, w) in want.iter().enumerate() { for (n, s) in w.iter().enumerate().skip(2) {
		if s.starts_with("panicked") { return par_enum(run, "alone", "every task alone", 1, |_, l| l.fail(TASKS[t].0, format!("(slices {n}) {s}"))) }
		if s != w.last().unwrap() && !TASKS[t].0.contains("broken") { par_enum(run, "alone", "every task alone", 1, |_, l| l.fail(TASKS[t].0, format!("cut into {n} gives {s:?}, into 6 {:?}", w.last().unwrap()))) }
	} }
	preempted(run);
	// one call inside of another's callback, on the same thread
	par_enum(run, "nested", "every task inside of every point of every task, and in all of its points", nt * nt * 13, |i, l| {
		let mut x = Dec(i); let (a, b) = (x.take(TASKS.len()), x.take(TASKS.len())); let at = x.0 as usize; let n = 6;
		let case = format!("{:?} inside of {:?} at {}", TASKS[b].0, TASKS[a].0, if at == 12 { "every point".to_string() } else { format!("point {at}") });
		note(&case); l.state(&i);
		let seen = Rc::new(std::cell::Cell::new(0usize)); let inner: Rc<RefCell<Vec<String>>> = Default::default();
		let p = { let (seen, inner) = (seen.clone(), inner.clone()); move || { let k = seen.get(); seen.set(k + 1); if at == 12 || k == at { let o = with_point(None, || outcome(b, n)); inner.borrow_mut().push(o) } } };
		let outer = with_point(Some(Rc::new(p)), || outcome(a, n));
		l.trace(); l.step(seen.get() as u64 + 1); l.outcome(if inner.borrow().is_empty() { "no such point" } else { "all as if alone" });
		if outer != want[a][n] { return l.fail(case, format!("the outer one saw {outer:?}, alone it sees {:?}", want[a][n])) }
		for o in inner.borrow().iter() { if *o != want[b][n] { return l.fail(case, format!("the inner one saw {o:?}, alone it sees {:?}", want[b][n])) } }
	});
	par_enum(run, "nested-twice", "every task inside of the first points of every task that itself is inside of a point of every task", nt * nt * nt * 9, |i, l| {
		let mut x = Dec(i); let (a, b, c) = (x.take(TASKS.len()), x.take(TASKS.len()), x.take(TASKS.len())); let (pa, pb) = (x.take(3), x.take(3)); let n = 3;
		let case = format!("{:?} at point {pb} of {:?} at point {pa} of {:?}", TASKS[c].0, TASKS[b].0, TASKS[a].0);
		note(&case); l.state(&i);
		let out: Rc<RefCell<Vec<(usize, String)>>> = Default::default();
		let at = |k: usize, then: Rc<dyn Fn()>| -> Rc<dyn Fn()> { let s = std::cell::Cell::new(0); Rc::new(move || { let j = s.get(); s.set(j + 1); if j == k { then() } }) };
		let o = out.clone(); let third: Rc<dyn Fn()> = Rc::new(move || { let r = with_point(None, || outcome(c, n)); o.borrow_mut().push((c, r)) });
		let o = out.clone(); let inner_point = at(pb, third);
		let second: Rc<dyn Fn()> = Rc::new(move || { let r = with_point(Some(inner_point.clone()), || outcome(b, n)); o.borrow_mut().push((b, r)) });
		let outer = with_point(Some(at(pa, second)), || outcome(a, n));
		out.borrow_mut().push((a, outer));
		l.trace(); l.step(3); l.outcome(if out.borrow().len() == 3 { "all as if alone" } else { "no such point" });
		for (t, g) in out.borrow().iter() { if *g != want[*t][n] { return l.fail(case, format!("{:?} saw {g:?}, alone it sees {:?}", TASKS[*t].0, want[*t][n])) } }
	});
	// on threads: every interleaving within the bound, nothing else running meanwhile
	let (n, pre) = run.t((4, 2), (6, 3));
	let pairs: Vec<(usize, usize)> = (0..TASKS.len()).flat_map(|a| (a..TASKS.len()).map(move |b| (a, b))).collect();
	serial(run, "pairs", &format!("every pair of tasks cut into at most {n} slices, on two threads, every schedule with at most {pre} preemptions"), pairs.len() as u64, |i, l| {
		let (a, b) = pairs[i as usize]; note(&format!("{:?} and {:?}", TASKS[a].0, TASKS[b].0));
		all_schedules(&[a, b], n, pre, &want, l);
	});
	let (n, pre) = run.t((2, 1), (3, 2));
	let nt = run.t(20, TASKS.len()); let mut triples = vec![]; for a in 0..nt { for b in a..nt { for c in b..nt { triples.push([a, b, c]) } } }
	serial(run, "triples", &format!("every three of {nt} tasks cut into at most {n} slices, on three threads, every schedule with at most {pre} preemptions"), triples.len() as u64, |i, l| {
		let t = triples[i as usize]; note(&format!("{:?}", t.map(|t| TASKS[t].0)));
		all_schedules(&t, n, pre, &want, l);
	});
}

/// Threads stopped inside of the library, wherever it is: done by kxpre, where the library is compiled with a call
/// at every basic block. Each pair has processes of its own, so what is shared between threads is shared within it.
fn preempted(run: &Run) {
	let exe = std::env::var_os("KX_ROOT").map(std::path::PathBuf::from).unwrap_or_else(|| ".".into()).join("target/pre/release/kxpre");
	let nt = TASKS.len();
	let all = run.t("0", "1");
	let go = |mode: &str, a: usize, b: usize, l: &mut Local| {
		note(&format!("{:?} stopped within, {:?} meanwhile", TASKS[a].0, TASKS[b].0));
		let o = match std::process::Command::new(&exe).args([mode, &a.to_string(), &b.to_string(), all]).output() { Ok(o) => o, Err(e) => panic!("MODEL ERROR: {exe:?}: {e}") };
		let text = String::from_utf8_lossy(&o.stdout).to_string();
		let mut told = false;
		for line in text.lines() {
			if let Some(v) = line.strip_prefix("VIOL\t") { let (c, m) = v.split_once('\t').unwrap_or((v, "")); return l.fail(c, m) }
			if let Some(v) = line.strip_prefix("STAT ") {
				let n: Vec<u64> = v.split(' ').filter_map(|x| x.parse().ok()).collect(); told = true;
				for k in 0..n[0] { l.trace(); l.state(&(mode, a, b, k)); }
				l.step(n[1] + n[0]); if n[0] > 0 { l.outcome("all as if alone") } if n[2] > 0 { l.outcome("one waited for the other") } if n[3] > 0 { l.outcome("cut short: the machine is too slow") }
			}
		}
		if !told { l.fail(format!("{:?} stopped within, {:?} meanwhile ({mode})", TASKS[a].0, TASKS[b].0), format!("the process died: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or(""))) }
	};
	let how = run.t("each place in the library the first time it is reached", "every point of the library, every time it is reached");
	par_enum(run, "stopped-within", &format!("every ordered pair of tasks on two threads: the first stopped at {how} (every edge between basic blocks and every access to static memory), the second run meanwhile"), (nt * nt) as u64, |i, l| { let mut x = Dec(i); let (a, b) = (x.take(nt), x.take(nt)); go("one", a, b, l) });
	par_enum(run, "stopped-both", "every ordered pair of tasks: the first stopped around each access to static memory, then the second likewise, then the first to its end", (nt * nt) as u64, |i, l| { let mut x = Dec(i); let (a, b) = (x.take(nt), x.take(nt)); go("two", a, b, l) });
	let pairs: Vec<(usize, usize)> = (0..nt).flat_map(|a| (0..nt).map(move |b| (a, b))).filter(|(a, b)| a == b || run.t(false, true)).collect();
	par_enum(run, "first-use", &format!("{} of tasks, each time in a process that has not used the library before: the first stopped at {how}", run.t("every task against itself", "every ordered pair")), pairs.len() as u64, |i, l| { let (a, b) = pairs[i as usize]; go("fresh", a, b, l) });
}
