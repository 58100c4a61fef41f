//! kxmc: explicit-state model checker for kiss-xml.
//!   kxmc check ID      explore the bounded spaces of one property (supervised)
//!   kxmc replay FILE   run one recorded case again
//!   kxmc list          the properties
mod checks_api;
mod checks_big;
mod checks_conc;
mod checks_deep;
mod checks_io;
mod checks_more;
mod checks_iter;
mod checks_order;
mod checks_parse;
mod checks_tree;
mod engine;
mod model;
mod ops;
mod refparse;
mod tasks;
mod texts;

use engine::*;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

type Check = fn(&Run);
/// the spaces of large trees, where a property has them
const BIG: &[(&str, Check)] = &[("C02", checks_big::c02), ("C05", checks_big::c05), ("C08", checks_big::c08), ("C09", checks_big::c09), ("C10", checks_big::c10), ("C11", checks_big::c11), ("C12", checks_big::c12), ("C13", checks_big::c13), ("C14", checks_big::c14), ("C15", checks_big::c15), ("C16", checks_big::c16), ("C17", checks_big::c17), ("C19", checks_big::c19), ("C23", checks_big::c23), ("C24", checks_big::c24), ("C25", checks_big::c25)];
const CHECKS: &[(&str, Check)] = &[
	("C01", checks_parse::c01), ("C02", checks_parse::c02), ("C03", checks_parse::c03), ("C04", checks_parse::c04), ("C05", checks_tree::c05),
	("C06", checks_parse::c06), ("C07", checks_parse::c07), ("C08", checks_parse::c08), ("C09", checks_tree::c09), ("C10", checks_tree::c10),
	("C11", checks_tree::c11), ("C12", checks_tree::c12), ("C13", checks_tree::c13), ("C14", checks_tree::c14), ("C15", checks_tree::c15),
	("C16", checks_tree::c16), ("C17", checks_tree::c17), ("C18", checks_parse::c18), ("C19", checks_tree::c19), ("C20", checks_parse::c20),
	("C21", checks_io::c21), ("C22", checks_io::c22), ("C23", checks_tree::c23), ("C24", checks_tree::c24), ("C25", checks_parse::c25),
	("C26", checks_more::c26), ("C27", checks_more::c27), ("C28", checks_more::c28), ("C29", checks_api::c29), ("C30", checks_api::c30), ("C31", checks_conc::c31), ("C32", checks_order::c32), ("C33", checks_iter::c33),
];

fn root_dir() -> PathBuf { std::env::var_os("KX_ROOT").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap()) }
fn tier() -> Tier { if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick } }
fn tier_name(t: Tier) -> &'static str { if t == Tier::Quick { "quick" } else { "thorough" } }
fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }

fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
	}
	o.push('"'); o
}
fn clip(s: &str, n: usize) -> String { if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" } }

fn write_replay(prop: &str, t: Tier, v: &Violation) -> PathBuf {
	let dir = root_dir().join("replays");
	let _ = std::fs::create_dir_all(&dir);
	let path: Vec<String> = v.path.iter().map(|x| x.to_string()).collect();
	let p = dir.join(format!("{prop}-{:016x}.txt", h64(&(v.space.as_str(), &v.path))));
	let _ = std::fs::write(&p, format!("property: {prop}\ntier: {}\nspace: {}\npath: {}\ncase: {}\nmessage: {}\n", tier_name(t), v.space, path.join(","), one_line(&v.case), one_line(&v.msg)));
	p
}
fn report(prop: &str, t: Tier, v: &Violation) {
	let p = write_replay(prop, t, v);
	println!("VIOLATION property={prop} replay={}", p.display());
	println!("  space   {} {:?}", v.space, v.path);
	println!("  case    {}", clip(&one_line(&v.case), 600));
	println!("  message {}", clip(&one_line(&v.msg), 1200));
}

fn load_known(prop: &str) -> Vec<(String, String)> {
	// finding: property=C01 case=<space>:<escaped case> -- <description>
	let Ok(s) = std::fs::read_to_string(root_dir().join("known-findings.txt")) else { return vec![] };
	s.lines().filter_map(|l| {
		let r = l.strip_prefix("finding: property=")?;
		let (id, r) = r.split_once(" case=")?;
		let (case, d) = r.split_once(" -- ")?;
		if id == prop { Some((case.to_string(), d.to_string())) } else { None }
	}).collect()
}

fn evidence(run: &Run, wall: f64, violations: usize) {
	let s = run.stats.lock().unwrap();
	let spaces: Vec<String> = s.spaces.iter().map(|(k, v)| format!("      {}: {{\"bound\": {}, \"cases\": {}, \"complete\": {}}}", js(k), js(&v.bound), v.cases, !v.capped)).collect();
	let outcomes: Vec<String> = s.outcomes.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
	let samples: Vec<String> = s.samples.iter().map(|x| js(&clip(x, 300))).collect();
	let exhaustive = violations == 0 && s.spaces.values().all(|v| !v.capped);
	let json = format!("{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"evaluations\": {},\n    \"exhaustive\": {exhaustive},\n    \"samples\": [{}],\n    \"outcomes\": {{{}}},\n    \"spaces\": {{\n{}\n    }}\n  }},\n  \"assumptions\": [\"bounds as listed under spaces\", \"the reference model in mc/src/model.rs and mc/src/refparse.rs states the property\", \"kiss_xml compiled from /repo, with the regex crate replaced by a wrapper that caches compiled patterns\"],\n  \"wall_s\": {wall:.3}, \"violations\": {violations}\n}}\n",
		js(run.prop), js(tier_name(run.tier)), run.seed, s.states.len(), s.transitions, s.traces, s.evals, samples.join(", "), outcomes.join(", "), spaces.join(",\n"));
	let dir = root_dir().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	std::fs::write(dir.join(format!("{}.json", run.prop)), json).expect("write evidence");
}

fn rss_mb() -> u64 {
	std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 >> 20
}

/// seconds after which no new case is begun (far more than the spaces need)
fn time_limit() -> u64 { std::env::var("KX_TIME").ok().and_then(|s| s.parse().ok()).unwrap_or(740) }
/// explore in this process; exit code 0 / 1 / 2
fn worker(id: &str, replay: Option<(String, Vec<u64>)>, trace: Option<PathBuf>) -> i32 {
	let Some((prop, f)) = CHECKS.iter().find(|c| c.0 == id) else { println!("unknown property {id}"); return 2 };
	std::panic::set_hook(Box::new(|_| {}));
	let trace = trace.map(|p| std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(p).expect("trace file"));
	let is_replay = replay.is_some();
	let run = Arc::new(Run::new(prop, tier(), seed(), replay, load_known(id), trace));
	let limit_ms = 120_000;
	{
		let run = run.clone();
		std::thread::spawn(move || loop {
			std::thread::sleep(std::time::Duration::from_millis(500));
			let mb = rss_mb();
			if run.t0.elapsed().as_secs() > time_limit() { run.late.store(true, SeqCst); }
			if let Some((ms, space, path)) = run.longest() {
				if ms > limit_ms || (mb > 14_000 && ms > 3_000) {
					let v = Violation { space, path, case: "see space and path".into(), msg: format!("still running after {} s with {mb} MB in use: does not terminate, or blows up", ms / 1000) };
					evidence_try(&run, 1);
					report(run.prop, run.tier, &v);
					std::process::exit(1);
				}
			}
			if mb > 22_000 { println!("ERROR: out of memory budget ({mb} MB)"); std::process::exit(2); }
		});
	}
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { f(&run); if let Some(b) = BIG.iter().find(|b| b.0 == id) { b.1(&run) } checks_deep::deep(&run) }));
	if let Err(p) = r {
		let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
		println!("ERROR: the checker itself failed: {m}");
		return 2;
	}
	let viols = run.viols.lock().unwrap();
	// a failure of the harness is an error of the check, never a verdict
	if let Some(v) = viols.iter().find(|v| v.msg.contains("MODEL ERROR")) { println!("ERROR: {} ({})", v.msg, one_line(&v.case)); return 2; }
	for (k, d) in run.known_hits.lock().unwrap().iter() { println!("KNOWN-FINDING: property={id} {d} ({k})"); }
	if is_replay {
		if run.replays_run.load(SeqCst) == 0 { println!("ERROR: nothing to replay: no such space"); return 2; }
		match viols.first() { Some(v) => { report(id, run.tier, v); return 1 } None => { println!("replayed: property={id} held"); return 0 } }
	}
	evidence(&run, run.t0.elapsed().as_secs_f64(), viols.len());
	let s = run.stats.lock().unwrap();
	println!("{id} {}: {} cases, {} states, {} transitions, {} traces validated against the implementation, {:.1} s", tier_name(run.tier), s.evals, s.states.len(), s.transitions, s.traces, run.t0.elapsed().as_secs_f64());
	for (k, _) in s.spaces.iter().filter(|x| x.1.capped && viols.is_empty()) { println!("NOTE: out of time, space {k} was not explored completely"); }
	if std::env::var_os("KX_VERBOSE").is_some() { for (k, v) in &s.spaces { println!("  {k}: {} cases, {:.1} s{}", v.cases, v.secs, if v.capped { " (stopped)" } else { "" }); } for (k, v) in &s.outcomes { println!("    {k}: {v}"); } }
	// report the simplest of the violations found
	if let Some(v) = viols.iter().min_by_key(|v| (v.path.len(), v.case.len())) { report(id, run.tier, v); return 1; }
	0
}
fn evidence_try(run: &Run, v: usize) { evidence(run, run.t0.elapsed().as_secs_f64(), v); }

fn me(args: &[&str]) -> Command {
	let mut c = Command::new(std::env::current_exe().unwrap());
	c.args(args).stdin(Stdio::null()).stderr(Stdio::null()).env("KX_ROOT", root_dir());
	c
}

fn supervise(id: &str) -> i32 {
	if !CHECKS.iter().any(|c| c.0 == id) { println!("unknown property {id}"); return 2; }
	let t0 = std::time::Instant::now();
	let st = me(&["worker", id]).status().expect("spawn worker");
	if let Some(c) = st.code() { return c; }
	let sig = st.signal().unwrap_or(0);
	// the process died (stack overflow, abort, out of memory): find the case that kills it
	println!("worker was killed by signal {sig}; looking for the case that does it");
	let _ = std::io::stdout().flush();
	let dir = std::env::temp_dir().join(format!("kxmc-{}", std::process::id()));
	std::fs::create_dir_all(&dir).expect("scratch");
	let tf = dir.join("trace");
	let st2 = me(&["worker", id, "--trace", tf.to_str().unwrap()]).stdout(Stdio::null()).status().expect("spawn worker");
	let mut code = 2;
	if st2.signal().is_some() {
		let bytes = std::fs::read(&tf).unwrap_or_default();
		for rec in bytes.chunks(512) {
			let s = String::from_utf8_lossy(rec);
			let Some((space, path)) = s.trim_matches(|c: char| c.is_whitespace() || c == '\0').split_once(' ') else { continue };
			let st3 = me(&["worker", id, "--replay", space, path.trim()]).stdout(Stdio::null()).status().expect("spawn replay");
			if let Some(sig) = st3.signal() {
				let v = Violation { space: space.into(), path: path.trim().split(',').filter_map(|x| x.parse().ok()).collect(), case: "see space and path".into(), msg: format!("the process is killed by signal {sig} (stack overflow, abort or out of memory)") };
				report(id, tier(), &v);
				code = 1;
				let run = Run::new(CHECKS.iter().find(|c| c.0 == id).unwrap().0, tier(), seed(), None, vec![], None);
				{ let mut s = run.stats.lock().unwrap(); s.samples.push(format!("{space} {path}")); }
				evidence(&run, t0.elapsed().as_secs_f64(), 1);
				break;
			}
		}
	}
	let _ = std::fs::remove_dir_all(&dir);
	if code == 2 { println!("ERROR: worker killed by signal {sig}, not reproduced"); }
	code
}

fn replay(file: &Path) -> i32 {
	let s = std::fs::read_to_string(file).expect("replay file");
	let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(": "))).unwrap_or("").to_string();
	let (id, space, path) = (get("property"), get("space"), get("path"));
	let mut c = me(&["worker", &id, "--replay", &space, &path]);
	c.env("VERIF_TIER", get("tier"));
	let st = c.status().expect("spawn");
	match st.code() { Some(c) => c, None => { println!("VIOLATION property={id} replay={}", file.display()); println!("  killed by signal {}", st.signal().unwrap_or(0)); 1 } }
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
	let path = |s: &str| s.split(',').filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
	let code = match &a[1..] {
		["check", id] => supervise(id),
		["worker", id] => worker(id, None, None),
		["worker", id, "--trace", f] => worker(id, None, Some(PathBuf::from(f))),
		["worker", id, "--replay", space, p] => worker(id, Some((space.to_string(), path(p))), None),
		["worker", id, "--replay", space] => worker(id, Some((space.to_string(), vec![])), None),
		["replay", f] => replay(Path::new(f)),
		["list"] => { for c in CHECKS { println!("{}", c.0) } 0 }
		_ => { println!("usage: kxmc check ID | replay FILE | list"); 2 }
	};
	std::process::exit(code);
}
