//! C21, C22: the environment (reader, sink, file system) is driven through every bounded script of answers.
use crate::checks_parse::*;
use crate::engine::*;
use crate::model::*;
use crate::texts::*;
use kiss_xml::dom::Document;
use kiss_xml::errors::KissXmlError;
use std::io::{ErrorKind, Read, Write};
use std::path::{Path, PathBuf};

/// every stable kind a reader or writer may report, except Interrupted (which asks for a retry)
const KINDS: [ErrorKind; 20] = [
	ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::InvalidData, ErrorKind::WriteZero,
	ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::PermissionDenied, ErrorKind::NotFound, ErrorKind::AlreadyExists,
	ErrorKind::InvalidInput, ErrorKind::AddrInUse, ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::StorageFull, ErrorKind::IsADirectory, ErrorKind::Deadlock,
];

/// a scratch directory, removed when dropped
struct Scratch(PathBuf);
impl Scratch {
	fn new(tag: &str) -> Scratch {
		let p = std::env::temp_dir().join(format!("kxmc-{tag}-{}", std::process::id()));
		let _ = std::fs::remove_dir_all(&p);
		std::fs::create_dir_all(&p).expect("MODEL ERROR: scratch");
		Scratch(p.canonicalize().expect("MODEL ERROR: scratch"))
	}
	fn file(&self, name: &str) -> PathBuf { self.0.join(name) }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

// ------------------------------------------------------------------ C21
/// what the reader does before it hands out the byte at a position (position len = end of data)
#[derive(Clone, Debug, PartialEq)]
enum Ev { Split, Interrupt(u32), Fail(ErrorKind), FailForever(ErrorKind) }
/// A reader over `data` that never lets one read cross a position carrying an event.
struct Script<'a> { data: &'a [u8], pos: usize, ev: Vec<(usize, Ev)>, chunk: usize, k: usize, failed: bool, rounds: u64 }
impl<'a> Script<'a> {
	fn new(data: &'a [u8], chunk: usize, ev: Vec<(usize, Ev)>) -> Self { Script { data, pos: 0, ev, chunk, k: 0, failed: false, rounds: 0 } }
}
impl Read for Script<'_> {
	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
		self.rounds += 1;
		assert!(self.rounds < 4_000_000, "the reader is asked over and over again");
		while let Some((p, e)) = self.ev.get_mut(self.k) {
			if *p != self.pos { break }
			match e {
				Ev::Split => self.k += 1,
				Ev::Interrupt(0) => self.k += 1,
				Ev::Interrupt(n) => { *n -= 1; return Err(ErrorKind::Interrupted.into()) }
				Ev::Fail(kind) => { self.k += 1; self.failed = true; return Err((*kind).into()) }
				Ev::FailForever(kind) => { self.failed = true; return Err((*kind).into()) }
			}
		}
		let end = self.ev.get(self.k).map(|e| e.0).unwrap_or(self.data.len()).min(self.data.len());
		let n = buf.len().min(end - self.pos).min(self.chunk);
		buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
		self.pos += n;
		Ok(n)
	}
}
type Got = Result<Document, KissXmlError>;
/// the required result for these bytes
enum Want { Tree(Doc), Err(String), Io }
fn want(bytes: &[u8]) -> Want {
	match std::str::from_utf8(bytes) {
		Err(_) => Want::Io,
		Ok(s) => match parse(s) { Ok(d) => Want::Tree(observe_doc(&d)), Err(e) => Want::Err(e.to_string()) },
	}
}
fn agrees(got: &Got, want: &Want) -> Result<(), String> {
	match (got, want) {
		(Ok(d), Want::Tree(w)) => { let g = observe_doc(d); if g == *w { Ok(()) } else { Err(diff(w, &g)) } }
		(Err(KissXmlError::IOError(_)), Want::Io) => Ok(()),
		(Err(e), Want::Err(w)) if e.to_string() == *w => Ok(()),
		(Ok(d), Want::Err(w)) => Err(format!("got {d}, but parsing the whole text says {w}")),
		(Ok(d), Want::Io) => Err(format!("got {d} where an I/O error is due")),
		(Err(e), Want::Tree(_)) => Err(format!("refused ({e}), but parsing the whole text accepts it")),
		(Err(e), Want::Err(w)) => Err(format!("says {e}, but parsing the whole text says {w}")),
		(Err(e), Want::Io) => Err(format!("says {e} where an I/O error is due")),
	}
}
fn show_bytes(b: &[u8]) -> String { let s: String = b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect(); if s.len() > 400 { format!("{}… ({} bytes)", &s[..400], b.len()) } else { s } }

const SHORT: [&str; 10] = ["<a>é😀</a>", "<é😀/>", "<a k='€'/>", "<a/>", "<a/>é", "é<a/>", "<a>\u{feff}x</a>", "", "<a>é</b>", "\u{feff}<a/>"];
/// a document of exactly `n` bytes whose multi-byte characters are shifted by `shift` bytes
fn filled(n: usize, shift: usize, ch: &str) -> String {
	let mut s = String::from("<r k='"); for _ in 0..shift { s.push('x'); } s.push_str("'>");
	while s.len() + 4 + ch.len() <= n { s.push_str(ch); }
	while s.len() + 4 < n { s.push('y'); }
	s.push_str("</r>"); s
}

fn clip(s: String) -> String { s.chars().take(300).collect() }
/// file names nobody should have to avoid: every byte in seven places, dots, blanks, length limits
fn names() -> Vec<Vec<u8>> {
	let mut out: Vec<Vec<u8>> = vec![];
	for b in (1..=255u8).filter(|b| *b != b'/') {
		for n in [&b"@"[..], b"@x", b"x@", b"x@y.xml", b".@", b"@@@", b"x.@"] { out.push(n.iter().map(|c| if *c == b'@' { b } else { *c }).collect()); }
	}
	for n in ["...", ".. ", "%2e%2e", "~", "~root", "$HOME", "a\\b", "NUL", "CON", "x.xml.gz", "\u{feff}x", "é\u{301}", "file:x", "-", "--", "x.xml?q#f", "\u{202e}"] { out.push(n.as_bytes().to_vec()); }
	for k in [2usize, 8, 16, 64, 127, 128, 200, 254, 255] { out.push(vec![b'n'; k]); out.push("é".repeat(k / 2).into_bytes()); }
	out.retain(|n| n != b"." && n != b".."); out.sort(); out.dedup(); out
}
fn os(n: &[u8]) -> PathBuf { use std::os::unix::ffi::OsStrExt; PathBuf::from(std::ffi::OsStr::from_bytes(n)) }
pub fn c21(run: &Run) {
	let scratch = Scratch::new("c21");
	// every way to join / split / interrupt between neighbouring bytes
	for (d, doc) in SHORT.iter().enumerate() {
		let b = doc.as_bytes(); let w = want(b);
		let gaps = b.len().saturating_sub(1) as u32;
		let menu = if gaps <= run.t(11, 15) { 3u64 } else { 2 };
		par_enum(run, &format!("splits/{d}"), &format!("every pattern of {} between the {} bytes of {doc:?}", if menu == 3 { "join, split, interruption" } else { "join, split" }, b.len()), menu.pow(gaps), |i, l| {
			let mut x = Dec(i); let mut ev = vec![];
			for p in 1..b.len() { match x.take(menu as usize) { 0 => {} 1 => ev.push((p, Ev::Split)), _ => ev.push((p, Ev::Interrupt(1))) } }
			if l.run.replay.is_some() { note(&format!("{doc:?} read with {ev:?}")); }
			l.step(ev.len() as u64 + 1); l.trace(); l.state(&(d, i)); l.outcome("whole text delivered");
			if let Err(e) = agrees(&kiss_xml::parse_stream(Script::new(b, usize::MAX, ev.clone())), &w) { l.fail(format!("{doc:?} read with {ev:?}"), e) }
		});
	}
	// longer documents: every pair and, thorough, triple of cut positions; with an interruption at one of them
	for (d, doc) in rich().iter().enumerate() {
		let b = doc.as_bytes(); let w = want(b); let n = b.len() as u64 + 1;
		par_enum(run, &format!("cuts/{d}"), "every pair of cut positions of a rich document, plain and interrupted", n * n * 2, |i, l| {
			let (p, q, intr) = ((i / 2 / n) as usize, (i / 2 % n) as usize, i % 2 == 1);
			if p > q { return }
			let ev = vec![(p, if intr { Ev::Interrupt(2) } else { Ev::Split }), (q, Ev::Split)];
			l.step(2); l.trace(); l.state(&(d, i)); l.outcome("whole text delivered");
			if let Err(e) = agrees(&kiss_xml::parse_stream(Script::new(b, usize::MAX, ev)), &w) { l.fail(format!("{doc:?} cut at {p} and {q}"), e) }
		});
		// an error at every position, transient and lasting, whatever the chunking
		let k = KINDS.len() as u64; let chunks = [1usize, 2, 3, 7, 32, usize::MAX];
		par_enum(run, &format!("errors/{d}"), "an error of every kind at every position (end of data included), once and for good, x 6 chunk sizes", n * k * 2 * chunks.len() as u64, |i, l| {
			let mut x = Dec(i); let kind = *x.pick(&KINDS); let once = x.flag(); let chunk = *x.pick(&chunks); let p = x.0 as usize;
			let mut s = Script::new(b, chunk, vec![(p, if once { Ev::Fail(kind) } else { Ev::FailForever(kind) })]);
			let got = kiss_xml::parse_stream(&mut s);
			l.step(1); l.trace(); l.state(&(d, i));
			if !s.failed { return l.outcome("error never met") } // cannot happen while the reader is read to its end
			l.outcome("read error");
			if let Err(e) = agrees(&got, &Want::Io) { l.fail(format!("{doc:?}: {kind:?} at byte {p}, chunks of {chunk}"), e) }
		});
	}
	// short documents: an error at every position of every chunking
	for (d, doc) in SHORT.iter().enumerate().take(4) {
		let b = doc.as_bytes(); let gaps = b.len() - 1;
		par_enum(run, &format!("split-errors/{d}"), "an error at every position of every chunking of a short document, interrupted or not before", (1u64 << gaps) * (b.len() as u64 + 1) * 2, |i, l| {
			let mut x = Dec(i); let at = x.take(b.len() + 1); let intr = x.flag(); let mut ev = vec![];
			for p in 0..=b.len() {
				let cut = p > 0 && p < b.len() && x.flag();
				if p == at { if intr { ev.push((p, Ev::Interrupt(1))); } ev.push((p, Ev::Fail(ErrorKind::Other))); } else if cut { ev.push((p, Ev::Split)); }
			}
			l.step(1); l.trace(); l.state(&(d, i)); l.outcome("read error");
			if let Err(e) = agrees(&kiss_xml::parse_stream(Script::new(b, usize::MAX, ev.clone())), &Want::Io) { l.fail(format!("{doc:?} read with {ev:?}"), e) }
		});
	}
	// many interruptions in a row, at each position
	let b = SHORT[0].as_bytes(); let w = want(b);
	let counts = [1u32, 2, 3, 4, 5, 8, 10, 16, 32, 64, 100, 128, 256, 1000, 5000, 70_000];
	par_enum(run, "interruptions", "up to 70000 interruptions in a row at every position", (b.len() as u64 + 1) * 16 * 3, |i, l| {
		let mut x = Dec(i); let n = *x.pick(&counts); let chunk = [1usize, 3, usize::MAX][x.take(3)]; let p = x.0 as usize;
		l.step(n as u64); l.trace(); l.state(&("i", i)); l.outcome("whole text delivered");
		if let Err(e) = agrees(&kiss_xml::parse_stream(Script::new(b, chunk, vec![(p, Ev::Interrupt(n))])), &w) { l.fail(format!("{n} interruptions at byte {p}, chunks of {chunk}"), e) }
	});
	// sizes around every buffer boundary, multi-byte characters at every alignment, by stream, file and pipe
	let mut sizes: Vec<usize> = vec![]; for p in 5..=run.t(15, 17) { for o in -9i64..=9 { sizes.push(((1i64 << p) + o) as usize); } } for n in [3 << 12, 10_000, 100_000, 131_072] { for o in 0..5 { sizes.push(n + o); } }
	let chars = ["é", "€", "😀", "z"]; let chunks = [1usize, 3, 31, 1000, 1024, 4095, 4096, 8191, 8192, 65536, usize::MAX];
	par_enum(run, "sizes", &format!("documents of sizes around every power of two up to 2^{} with characters of 1 to 4 bytes at every alignment, x {} chunk sizes, from stream and file", run.t(15, 17), chunks.len()), sizes.len() as u64 * 16, |i, l| {
		let mut x = Dec(i); let ch = *x.pick(&chars); let shift = x.take(4); let n = sizes[x.0 as usize];
		let s = filled(n, shift, ch); let case = format!("{n} bytes of {ch:?} shifted by {shift}"); note(&case); l.state(&(n, ch, shift));
		let w = want(s.as_bytes()); if !matches!(w, Want::Tree(_)) { return l.fail(case, "refused as a whole") }
		for (k, chunk) in chunks.iter().enumerate() {
			if *chunk < 31 && n > 5000 && !(n == sizes[0] || k == i as usize % 2) { continue }
			l.step(1); l.trace(); l.outcome("whole text delivered");
			if let Err(e) = agrees(&kiss_xml::parse_stream(Script::new(s.as_bytes(), *chunk, vec![])), &w) { return l.fail(format!("{case}, chunks of {chunk}"), e) }
		}
		let f = scratch.file(&format!("s{i}.xml")); std::fs::write(&f, &s).expect("MODEL ERROR: write");
		let got = kiss_xml::parse_filepath(&f); let _ = std::fs::remove_file(&f);
		l.step(1); l.trace(); l.outcome("file");
		if let Err(e) = agrees(&got, &w) { return l.fail(format!("{case}, from a file"), e) }
		if n <= 60_000 {
			// a pipe has no size to trust; everything is in it, and its writer is gone
			use std::os::fd::AsRawFd;
			let (r, mut wr) = std::io::pipe().expect("MODEL ERROR: pipe");
			wr.write_all(s.as_bytes()).expect("MODEL ERROR: pipe"); drop(wr);
			let got = kiss_xml::parse_filepath(format!("/proc/self/fd/{}", r.as_raw_fd()));
			l.step(1); l.trace(); l.outcome("pipe");
			if let Err(e) = agrees(&got, &w) { l.fail(format!("{case}, from a pipe"), e) }
		}
	});
	// megabytes: a limit on what is read would cut the text
	let mut sizes: Vec<usize> = (17..=run.t(23, 26)).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1]).collect(); sizes.extend([1_000_000, 1_000_001, 10_000_000, 10_000_001]);
	if run.quick() { sizes.extend([(1 << 24) + 1, (1 << 25) + 1, (1 << 26) + 1]) } else { sizes.extend([100_000_001, (1 << 27) + 1, (1 << 28) + 1]) }
	par_enum(run, "megabytes", &format!("documents of sizes around 2^17 to 2^{} and 10^6, 10^7, and of 2^24 to 2^26 (thorough 2^28) + 1, from stream (3 chunk sizes), file and pipe", run.t(23, 26)), sizes.len() as u64 * 2, |i, l| {
		let mut x = Dec(i); let ch = ["z", "€"][x.take(2)]; let n = sizes[x.0 as usize];
		let s = filled(n, 1, ch); let case = format!("{n} bytes of {ch:?}"); note(&case); l.state(&(n, ch));
		let w = want(s.as_bytes()); if !matches!(w, Want::Tree(_)) { return l.fail(case, "refused as a whole") }
		for chunk in [8192, 65536, usize::MAX] {
			l.step(1); l.trace(); l.outcome("whole text delivered");
			if let Err(e) = agrees(&kiss_xml::parse_stream(Script::new(s.as_bytes(), chunk, vec![])), &w) { return l.fail(format!("{case}, chunks of {chunk}"), clip(e)) }
		}
		let f = scratch.file(&format!("m{i}.xml")); std::fs::write(&f, &s).expect("MODEL ERROR: write");
		let got = kiss_xml::parse_filepath(&f); let _ = std::fs::remove_file(&f);
		l.step(1); l.trace(); l.outcome("file");
		if let Err(e) = agrees(&got, &w) { return l.fail(format!("{case}, from a file"), clip(e)) }
		use std::os::fd::AsRawFd;
		let (r, mut wr) = std::io::pipe().expect("MODEL ERROR: pipe");
		std::thread::scope(|t| {
			t.spawn(|| { let _ = wr.write_all(s.as_bytes()); drop(wr); });
			let got = kiss_xml::parse_filepath(format!("/proc/self/fd/{}", r.as_raw_fd())); drop(r);
			l.step(1); l.trace(); l.outcome("pipe");
			if let Err(e) = agrees(&got, &w) { l.fail(format!("{case}, from a pipe"), clip(e)) }
		});
	});
	// every byte at every position: whatever is not UTF-8 is an I/O error, whatever is parses as text does
	let subjects: Vec<Vec<u8>> = SHORT.iter().map(|s| s.as_bytes().to_vec()).chain(rich().into_iter().take(run.t(3, 99)).map(String::into_bytes)).collect();
	for (d, b) in subjects.iter().enumerate() {
		let n = b.len() as u64 + 1;
		let bad: [&[u8]; 12] = [b"\x80", b"\xC3", b"\xE2\x82", b"\xF0\x9F\x98", b"\xC0\x80", b"\xE0\x80\xAF", b"\xED\xA0\x80", b"\xF4\x90\x80\x80", b"\xFF", b"\xFE\xFF", b"\xF8\x88\x80\x80\x80", b"\xEF\xBF"];
		par_enum(run, &format!("bytes/{d}"), "every byte value replacing, and 12 bad sequences inserted at, every position; every truncation; from stream (2 chunkings) and file", n * (256 + 13), |i, l| {
			let mut x = Dec(i); let o = x.take(256 + 13); let p = x.0 as usize;
			let mut v = b.clone();
			if o < 256 { if p >= v.len() { return } v[p] = o as u8 } else if o < 268 { v.splice(p..p, bad[o - 256].iter().copied()); } else { v.truncate(p) }
			let case = show_bytes(&v); note(&case); l.step(1); l.state(&v);
			let w = want(&v); l.outcome(if matches!(w, Want::Io) { "not UTF-8" } else { "UTF-8" });
			for chunk in [usize::MAX, 1] {
				l.trace();
				if let Err(e) = agrees(&kiss_xml::parse_stream(Script::new(&v, chunk, vec![])), &w) { return l.fail(format!("{case}, chunks of {chunk}"), e) }
			}
			{
				let f = scratch.file(&format!("b{i}.xml")); std::fs::write(&f, &v).expect("MODEL ERROR: write");
				let got = kiss_xml::parse_filepath(&f); let _ = std::fs::remove_file(&f); l.trace();
				if let Err(e) = agrees(&got, &w) { l.fail(format!("{case}, from a file"), e) }
			}
		});
	}
	// bad bytes deep inside of large input, at and around buffer boundaries
	par_enum(run, "bad-deep", "a bad byte at every offset around 2^k, k <= 16, from stream (5 chunk sizes) and file", 12 * 9 * 4, |i, l| {
		let mut x = Dec(i); let kind = x.take(4); let off = x.take(9) as i64 - 4; let p = ((1i64 << (x.0 + 5)) + off) as usize;
		let mut v = filled(p + 40, 1, "é").into_bytes();
		match kind { 0 => v[p] = 0xFF, 1 => v[p] = 0x80, 2 => v.truncate(p), _ => v[p] = 0xE2 }
		let case = format!("kind {kind} at byte {p}"); note(&case); let w = want(&v); l.state(&i);
		for chunk in [1usize, 1000, 4096, 8192, usize::MAX] { l.step(1); l.trace(); if let Err(e) = agrees(&kiss_xml::parse_stream(Script::new(&v, chunk, vec![])), &w) { return l.fail(format!("{case}, chunks of {chunk}"), e) } }
		let f = scratch.file(&format!("d{i}.xml")); std::fs::write(&f, &v).expect("MODEL ERROR: write");
		let got = kiss_xml::parse_filepath(&f); let _ = std::fs::remove_file(&f); l.trace();
		if let Err(e) = agrees(&got, &w) { l.fail(format!("{case}, from a file"), e) }
	});
	// files: content, and paths that cannot be read
	let all: Vec<String> = rich().into_iter().chain(SHORT.iter().map(|s| s.to_string())).collect();
	par_enum(run, "files", "rich and short documents read from a file by every kind of path, and with CRLF, a BOM or blank lines around", all.len() as u64 * 6, |i, l| {
		let mut x = Dec(i); let v = x.take(6); let s = &all[x.0 as usize];
		let s = match v { 0 => s.clone(), 1 => s.replace('\n', "\r\n"), 2 => format!("\u{feff}{s}"), 3 => format!("\n\n{s}\n\n"), 4 => format!("{s}\0"), _ => format!("{s}{s}") };
		note(&s); let w = want(s.as_bytes()); l.state(&s); l.step(1); l.outcome("file");
		let f = scratch.file(&format!("f é {i}.txt")); std::fs::write(&f, &s).expect("MODEL ERROR: write");
		let link = scratch.file(&format!("l{i}")); std::os::unix::fs::symlink(&f, &link).expect("MODEL ERROR: link");
		let got = [kiss_xml::parse_filepath(&f), kiss_xml::parse_filepath(f.to_str().unwrap()), kiss_xml::parse_filepath(&link), std::fs::File::open(&f).map_err(KissXmlError::from).and_then(kiss_xml::parse_stream), kiss_xml::parse_stream(s.as_bytes())];
		let _ = std::fs::remove_file(&f); let _ = std::fs::remove_file(&link);
		for (how, g) in ["path", "str", "symbolic link", "open file", "slice"].iter().zip(&got) { l.trace(); if let Err(e) = agrees(g, &w) { return l.fail(format!("{s:?} by {how}"), e) } }
	});
	// what surrounds the text is the text's own business: nothing may be taken off or put on
	let mut odd: Vec<char> = (0..run.t(0x300u32, 0x1_0000)).chain([0x2028, 0x2029, 0x200B, 0x2060, 0x3000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x1_0000, 0x10_FFFF]).filter_map(char::from_u32).collect(); odd.sort(); odd.dedup();
	let bases = ["<a/>", "<a>x</a>", "<?xml version=\"1.0\"?>\n<a>\n</a>\n", "<a>é</a><!--c-->", "x", ""];
	par_enum(run, "edges", "every character up to U+02FF (thorough: U+FFFF) before, after, on both sides and inside of 6 texts, once to 3 times, from stream, file and (every fourth) pipe", odd.len() as u64 * 6 * 12, |i, l| {
		let mut x = Dec(i); let b = *x.pick(&bases); let at = x.take(4); let k = x.take(3) + 1; let c = odd[x.0 as usize].to_string().repeat(k);
		let s = match at { 0 => format!("{c}{b}"), 1 => format!("{b}{c}"), 2 => format!("{c}{b}{c}"), _ => b.replace('>', &format!(">{c}")) };
		note(&s); let w = want(s.as_bytes()); l.state(&s); l.step(1); l.outcome("edge");
		l.trace(); if let Err(e) = agrees(&kiss_xml::parse_stream(Script::new(s.as_bytes(), usize::MAX, vec![])), &w) { return l.fail(format!("{s:?} from a stream"), e) }
		let f = scratch.file(&format!("e{i}.xml")); std::fs::write(&f, &s).expect("MODEL ERROR: write");
		let got = kiss_xml::parse_filepath(&f); let _ = std::fs::remove_file(&f);
		l.trace(); if let Err(e) = agrees(&got, &w) { return l.fail(format!("{s:?} from a file"), e) }
		if i % 4 == 1 {
			use std::os::fd::AsRawFd;
			let (r, mut wr) = std::io::pipe().expect("MODEL ERROR: pipe");
			wr.write_all(s.as_bytes()).expect("MODEL ERROR: pipe"); drop(wr);
			let got = kiss_xml::parse_filepath(format!("/proc/self/fd/{}", r.as_raw_fd()));
			l.trace(); if let Err(e) = agrees(&got, &w) { l.fail(format!("{s:?} from a pipe"), e) }
		}
	});
	let names = names();
	par_enum(run, "names", "every file name of a menu (every byte in seven places, dots, length limits), as the file and as its directory, next to files of similar names", names.len() as u64 * 2, |i, l| {
		let mut x = Dec(i); let below = x.flag(); let n = &names[x.0 as usize]; let dir = scratch.file(&format!("n{i}"));
		let p = if below { dir.join(os(n)).join("x.xml") } else { dir.join(os(n)) }; std::fs::create_dir_all(p.parent().unwrap()).expect("MODEL ERROR: dir");
		let case = format!("{p:?}"); note(&case); l.step(1); l.trace(); l.state(&i); l.outcome("file");
		let text = "<a>right</a>"; std::fs::write(&p, text).expect("MODEL ERROR: write");
		for other in ["x", "y", "x.xml", "é", "_", "\u{fffd}"] { if dir.join(other) != p && !dir.join(other).exists() { std::fs::write(dir.join(other), "<a>wrong</a>").expect("MODEL ERROR: write") } }
		let got = kiss_xml::parse_filepath(&p); std::fs::remove_file(&p).expect("MODEL ERROR: remove"); let gone = kiss_xml::parse_filepath(&p);
		let _ = std::fs::remove_dir_all(&dir);
		if let Err(e) = agrees(&got, &want(text.as_bytes())) { return l.fail(case, e) }
		if let Err(e) = agrees(&gone, &Want::Io) { l.fail(format!("{case}, removed"), e) }
	});
	par_enum(run, "unreadable", "paths that cannot be read", 9, |i, l| {
		let dir = scratch.file(&format!("u{i}")); std::fs::create_dir_all(&dir).expect("MODEL ERROR: dir");
		let p = match i {
			0 => dir.join("missing.xml"), 1 => dir.clone(), 2 => dir.join("no/such/dir.xml"), 3 => PathBuf::from(""),
			4 => { std::fs::write(dir.join("f"), "<a/>").unwrap(); dir.join("f/g") } 5 => dir.join("a\0b"), 6 => dir.join("x".repeat(300)),
			7 => { std::os::unix::fs::symlink(dir.join("loop"), dir.join("loop")).unwrap(); dir.join("loop") }
			_ => { std::os::unix::fs::symlink(dir.join("gone"), dir.join("dangling")).unwrap(); dir.join("dangling") }
		};
		let case = format!("{p:?}"); note(&case); l.step(1); l.trace(); l.state(&i); l.outcome("unreadable");
		if let Err(e) = agrees(&kiss_xml::parse_filepath(&p), &Want::Io) { l.fail(case, e) }
	});
}

// ------------------------------------------------------------------ C22
#[derive(Clone, Copy, Debug, PartialEq)]
enum W { All, N(usize), Half, AllBut1, Interrupt, Zero, Err(ErrorKind) }
/// a sink that answers its first calls by script, then `rest` for ever
struct Sink<'a> { script: &'a [W], rest: W, k: usize, got: Vec<u8>, failed: bool, flush_err: bool, calls: u64 }
impl<'a> Sink<'a> { fn new(script: &'a [W], rest: W) -> Self { Sink { script, rest, k: 0, got: vec![], failed: false, flush_err: false, calls: 0 } } }
impl Write for Sink<'_> {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
		self.calls += 1;
		assert!(self.calls < 4_000_000, "the sink is written to over and over again");
		if b.is_empty() { return Ok(0) }
		let w = self.script.get(self.k).copied().unwrap_or(self.rest); self.k += 1;
		let n = match w {
			W::All => b.len(), W::N(n) => n.min(b.len()), W::Half => b.len().div_ceil(2), W::AllBut1 => (b.len() - 1).max(1),
			W::Interrupt => return Err(ErrorKind::Interrupted.into()),
			W::Zero => { self.failed = true; return Ok(0) }
			W::Err(k) => { self.failed = true; return Err(k.into()) }
		};
		self.got.extend_from_slice(&b[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> std::io::Result<()> { if self.flush_err { self.failed = true; Err(ErrorKind::Other.into()) } else { Ok(()) } }
}
fn delivered(s: &Sink, r: std::io::Result<()>, text: &str) -> Result<(), String> {
	if !text.as_bytes().starts_with(&s.got) { return Err(format!("the sink received {:?}, which is not the beginning of {text:?}", show_bytes(&s.got))) }
	match r {
		Ok(()) if s.got.len() != text.len() => Err(format!("reported success after {} of {} bytes", s.got.len(), text.len())),
		Ok(()) if s.failed => Err("reported success although the sink failed".into()),
		Err(e) if !s.failed => Err(format!("reported {e} although the sink took everything offered")),
		_ => Ok(()),
	}
}
fn docs() -> Vec<Document> {
	let big = |n: usize, ch: &str| format!("<r><a k=\"{0}\">{0}</a>{0}<b/></r>", ch.repeat(n));
	let wide: String = format!("<r>{}</r>", (0..400).map(|i| format!("<e{i}><f>é{i}</f></e{i}>")).collect::<String>());
	["<a/>", "<a>é😀</a>", "<?xml version='1.0'?><!DOCTYPE a><a k='&lt;'>\n<b><c/></b><!--x--></a>"].iter().map(|s| s.to_string())
		.chain(rich().into_iter().filter(|s| parse(s).is_ok())).chain([big(300, "é"), big(1500, "€"), big(5000, "z"), big(30_000, "😀"), wide])
		.map(|s| parse(&s).unwrap_or_else(|e| panic!("MODEL ERROR: {s:?} refused: {e}"))).collect()
}
fn own() -> std::rc::Rc<Vec<Document>> { per_thread("c22", docs) }
const INDENTS: [&str; 7] = ["  ", "\t", "", " ", "    ", "x", "\t\t"];
/// names that a careless writer might use for itself
const NEIGHBOURS: [&str; 7] = ["out.xml.tmp", "out.tmp", "out.xml~", "out", "out.xml.bak", ".out.xml", "out.xml.part"];
/// everything below a directory: the content of files, links by their target (None: a directory)
fn contents(dir: &Path) -> std::collections::BTreeMap<PathBuf, Option<Vec<u8>>> {
	let mut out = std::collections::BTreeMap::new();
	let Ok(es) = std::fs::read_dir(dir) else { return out };
	for e in es.flatten() {
		let (p, t) = (e.path(), e.file_type().expect("MODEL ERROR: type"));
		if t.is_dir() { out.extend(contents(&p)); out.insert(p, None); }
		else if t.is_symlink() { out.insert(p.clone(), Some(format!("-> {}", std::fs::read_link(&p).expect("MODEL ERROR: link").display()).into_bytes())); }
		else { let c = std::fs::read(&p).expect("MODEL ERROR: read"); out.insert(p, Some(c)); }
	}
	out
}
/// no file of this process may grow beyond this (None: as before); a write that would fails with an error
fn limit_file_size(n: Option<u64>) {
	extern "C" { fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32; fn getrlimit(resource: i32, limit: *mut [u64; 2]) -> i32; fn signal(signal: i32, handler: usize) -> usize; }
	const FSIZE: i32 = 1; const XFSZ: i32 = 25; const IGNORE: usize = 1;
	unsafe { let mut now = [0u64; 2]; assert_eq!(getrlimit(FSIZE, &mut now), 0); signal(XFSZ, IGNORE); now[0] = n.unwrap_or(now[1]); assert_eq!(setrlimit(FSIZE, &now), 0, "MODEL ERROR: setrlimit"); }
}
pub fn c22(run: &Run) {
	let scratch = Scratch::new("c22");
	let texts: Vec<Vec<String>> = docs().iter().map(|d| INDENTS.iter().map(|i| d.to_string_with_indent(*i)).collect()).collect();
	let nd = texts.len();
	// every script of answers
	let menu = [W::All, W::N(1), W::N(2), W::Half, W::AllBut1, W::Interrupt, W::Zero, W::Err(ErrorKind::Other)];
	let len = run.t(5, 6);
	for d in 0..4.min(nd) {
		par_enum(run, &format!("scripts/{d}"), &format!("every script of at most {len} of 8 answers, then byte by byte, in full or interrupted once more; default and given indents"), strings_upto(menu.len(), len) * 4, |i, l| {
			let mut x = Dec(i); let rest = [W::All, W::N(1), W::N(3), W::Half][x.take(4)];
			let script: Vec<W> = nth_string(&menu, x.0).into_iter().copied().collect();
			let ind = (i / 4 % INDENTS.len() as u64) as usize;
			let mut s = Sink::new(&script, rest);
			let r = if ind == 0 { own()[d].write_to_file(&mut s) } else { own()[d].write_to_file_with_indent(&mut s, INDENTS[ind]) };
			l.step(s.calls); l.trace(); l.state(&(d, i, ind)); l.outcome(if s.failed { "sink failed" } else { "sink took everything" });
			if let Err(e) = delivered(&s, r, &texts[d][ind]) { l.fail(format!("document {d}, indent {:?}, script {script:?} then {rest:?}", INDENTS[ind]), e) }
		});
	}
	// a failure at every byte
	for d in 0..nd {
		let n = texts[d][0].len() as u64 + 1;
		let stride = (n / run.t(3000, 30_000)).max(1);
		let pts: Vec<u64> = (0..n).filter(|p| p % stride == 0 || (p & (p + 1)).count_ones() == 0 || p.is_power_of_two() || *p + 3 >= n).collect();
		let kinds = KINDS.len() as u64 + 1;
		par_enum(run, &format!("fail-at/{d}"), &format!("a failure after {} byte counts (stride {stride}), of every kind in turn, with short writes before it or not; flush failures", if stride == 1 { "all" } else { "a grid of and all power-of-two" }), pts.len() as u64 * 4, |i, l| {
			let mut x = Dec(i); let v = x.take(4); let p = pts[x.0 as usize] as usize;
			let err = match i % kinds { 0 => W::Zero, k => W::Err(KINDS[k as usize - 1]) };
			let n = texts[d][0].len();
			struct At<'a> { inner: Sink<'a>, at: usize, err: W, piece: usize, then_ok: bool }
			impl Write for At<'_> {
				fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
					let left = self.at.saturating_sub(self.inner.got.len());
					if left == 0 && !b.is_empty() && !(self.then_ok && self.inner.failed) { self.inner.rest = self.err; return self.inner.write(b) }
					self.inner.rest = W::All;
					let left = if left == 0 { b.len() } else { left };
					let k = b.len().min(left).min(self.piece); self.inner.write(&b[..k])
				}
				fn flush(&mut self) -> std::io::Result<()> { self.inner.flush() }
			}
			let mut s = At { inner: Sink::new(&[], W::All), at: p, err, piece: if v & 1 == 0 { usize::MAX } else { (n / 50).max(1) }, then_ok: v & 2 == 2 };
			if p + 1 > n { s.inner.flush_err = v & 1 == 1; }
			let r = own()[d].write_to_file(&mut s);
			l.step(s.inner.calls); l.trace(); l.state(&(d, i)); l.outcome(if s.inner.failed { "sink failed" } else { "sink took everything" });
			if let Err(e) = delivered(&s.inner, r, &texts[d][0]) { l.fail(format!("document {d}, {err:?} after {p} of {n} bytes, variant {v}"), e) }
		});
	}
	// constant answers: every small piece size, and interruptions before every write
	par_enum(run, "pieces", "every constant piece size up to 200, with 0 to 3 interruptions between pieces", nd as u64 * 200 * 4, |i, l| {
		let mut x = Dec(i); let intr = x.take(4); let k = x.take(200) + 1; let d = x.0 as usize; let n = texts[d][0].len();
		if n / k > 3000 { return }
		let ind = i as usize % INDENTS.len(); let n = texts[d][ind].len().max(n);
		let mut script = vec![]; for _ in 0..n / k + 1 { for _ in 0..intr { script.push(W::Interrupt); } script.push(W::N(k)); }
		let mut s = Sink::new(&script, W::N(k));
		let r = own()[d].write_to_file_with_indent(&mut s, INDENTS[ind]);
		l.step(s.calls); l.trace(); l.state(&(d, k, intr)); l.outcome("sink took everything");
		if let Err(e) = delivered(&s, r, &texts[d][ind]) { l.fail(format!("document {d}, pieces of {k}, {intr} interruptions each, indent {:?}", INDENTS[ind]), e) }
	});
	// trees whose serialized text has a chosen length: buffer boundaries
	let hi = run.t(13, 16);
	par_enum(run, "sizes", &format!("serialized sizes around every power of two up to 2^{hi}, to a sink and to a file over longer and shorter content"), (hi as u64 - 4) * 21 * 3, |i, l| {
		let mut x = Dec(i); let ch = ["y", "é", "😀"][x.take(3)]; let o = x.take(21) as i64 - 10; let n = ((1i64 << (x.0 + 5)) + o) as usize;
		let mut root = kiss_xml::dom::Element::new_from_name("r").unwrap(); let fixed = Document::new(root.clone()).to_string().len() + 4;
		let mut t = String::new(); while t.len() + fixed + ch.len() <= n { t.push_str(ch); } while t.len() + fixed < n { t.push('x'); }
		root.set_text(t.as_str()); let doc = Document::new(root); let text = doc.to_string();
		let case = format!("{n} bytes of {ch:?}"); note(&case); l.state(&(n, ch));
		for w in [W::All, W::N(1000), W::Half, W::AllBut1] {
			let mut s = Sink::new(&[W::Interrupt], w); let r = doc.write_to_file(&mut s); l.step(s.calls); l.trace(); l.outcome("sink took everything");
			if let Err(e) = delivered(&s, r, &text) { return l.fail(case, e) }
		}
		for old in [0usize, n - 1, n, n + 1, 3 * n] {
			let f = scratch.file(&format!("z{i}")); std::fs::write(&f, vec![b'#'; old]).expect("MODEL ERROR: write");
			let r = doc.write_to_filepath(&f); let got = std::fs::read(&f).expect("MODEL ERROR: read"); let _ = std::fs::remove_file(&f);
			l.step(1); l.trace(); l.outcome("file");
			if r.is_err() || got != text.as_bytes() { return l.fail(format!("{case} over {old} bytes"), format!("{r:?}, the file has {}", show_bytes(&got))) }
		}
	});
	// large ones, in a directory of their own
	let hi = run.t(20, 23);
	par_enum(run, "large", &format!("serialized sizes around every power of two from 2^14 to 2^{hi}, and 2^24 + 1, to a sink in 3 ways and to a new, a shorter and a longer file in a directory with neighbours"), (hi as u64 - 13) * 3 * 2 + 2, |i, l| {
		let mut x = Dec(i); let ch = ["y", "é"][x.take(2)]; let o = x.take(3) as i64 - 1; let n = if x.0 + 14 > hi as u64 { (1 << 24) + 1 } else { ((1i64 << (x.0 + 14)) + o) as usize };
		let mut root = kiss_xml::dom::Element::new_from_name("r").unwrap(); let fixed = Document::new(root.clone()).to_string().len() + 4;
		let mut t = ch.repeat((n - fixed) / ch.len()); while t.len() + fixed < n { t.push('x'); }
		root.set_text(t.as_str()); let doc = Document::new(root); let text = doc.to_string();
		let case = format!("{n} bytes of {ch:?}"); note(&case); l.state(&(n, ch));
		for w in [W::All, W::N(4099), W::AllBut1] {
			let mut s = Sink::new(&[W::Interrupt], w); let r = doc.write_to_file(&mut s); l.step(s.calls); l.trace(); l.outcome("sink took everything");
			if let Err(e) = delivered(&s, r, &text) { return l.fail(case, e) }
		}
		let dir = scratch.file(&format!("large{i}")); let f = dir.join("out.xml");
		for old in [None, Some(n / 2), Some(2 * n)] {
			std::fs::create_dir_all(&dir).expect("MODEL ERROR: dir"); for n in NEIGHBOURS { std::fs::write(dir.join(n), n).expect("MODEL ERROR: neighbour") }
			if let Some(k) = old { std::fs::write(&f, vec![b'#'; k]).expect("MODEL ERROR: write") }
			let mut want = contents(&dir);
			let r = doc.write_to_filepath_with_indent(&f, "  "); let mut got = contents(&dir); want.remove(&f); let new = got.remove(&f).flatten();
			let _ = std::fs::remove_dir_all(&dir); l.step(1); l.trace(); l.outcome("file");
			if r.is_err() || new.as_deref() != Some(text.as_bytes()) { return l.fail(format!("{case} over {old:?} bytes"), format!("{r:?}, the file has {}", show_bytes(&new.unwrap_or_default()))) }
			if got != want { return l.fail(format!("{case} over {old:?} bytes"), format!("the directory now holds {:?}", got.keys().collect::<Vec<_>>())) }
		}
	});
	// paths
	let states = 12u64; let parents = 12u64;
	std::env::set_current_dir(&scratch.0).expect("MODEL ERROR: chdir");
	par_enum(run, "paths", "every state of the target x every state of its parents x absolute or relative x documents x indents", nd as u64 * states * parents * 2 * INDENTS.len() as u64, |i, l| {
		let mut x = Dec(i); let target = x.take(states as usize); let parent = x.take(parents as usize); let relative = x.flag(); let ind = x.take(INDENTS.len()); let d = x.0 as usize;
		let text = texts[d][ind].as_bytes();
		let id = format!("p{i}"); let base = if relative { PathBuf::from(&id) } else { scratch.file(&id) };
		let case = format!("document {d}, indent {:?}, target state {target}, parent state {parent}, relative {relative}", INDENTS[ind]); note(&case); l.step(1); l.trace(); l.state(&i);
		std::fs::create_dir(&base).expect("MODEL ERROR: dir");
		let (dir, fails) = match parent {
			0 => (base.clone(), false), 1 => (base.join("new"), false), 2 => (base.join("a/b é/c.d/e"), false), 3 => { std::fs::write(base.join("file"), "keep").unwrap(); (base.join("file"), true) }
			4 => { std::fs::create_dir_all(base.join("deep/er")).unwrap(); (base.join("deep/er"), false) }
			// something else in the way: an empty file, one above a missing directory, links to a directory, to an empty file, to nothing, in a circle
			6 => { std::fs::write(base.join("file"), "").unwrap(); (base.join("file"), true) } 7 => { std::fs::write(base.join("file"), "").unwrap(); (base.join("file/sub/dir"), true) }
			8 => { std::fs::create_dir(base.join("real")).unwrap(); std::os::unix::fs::symlink("real", base.join("link")).unwrap(); (base.join("link"), false) } 9 => { std::fs::write(base.join("aside"), "").unwrap(); std::os::unix::fs::symlink("aside", base.join("link")).unwrap(); (base.join("link"), true) }
			10 => { std::os::unix::fs::symlink("nowhere", base.join("link")).unwrap(); (base.join("link"), true) } 11 => { std::os::unix::fs::symlink("link", base.join("link")).unwrap(); (base.join("link/sub"), true) }
			_ => { std::fs::create_dir(base.join("half")).unwrap(); (base.join("half/../half/new/./x"), false) }
		};
		let p = dir.join("out.xml");
		let exists = dir.is_dir();
		let mut fails = fails;
		let mut special = None;
		if target > 0 && exists {
			match target {
				1 => std::fs::write(&p, "").unwrap(), 2 => std::fs::write(&p, "short").unwrap(), 3 => std::fs::write(&p, [text, text].concat()).unwrap(), 4 => std::fs::write(&p, [text, b"x"].concat()).unwrap(),
				5 => std::fs::write(&p, text).unwrap(), 6 => { std::fs::create_dir(&p).unwrap(); fails = true } 7 => { std::fs::create_dir(&p).unwrap(); std::fs::write(p.join("x"), "y").unwrap(); fails = true }
				8 => { std::fs::write(base.join("aim"), [text, b"rest"].concat()).unwrap(); std::os::unix::fs::symlink(std::fs::canonicalize(&base).unwrap().join("aim"), &p).unwrap() }
				9 => std::os::unix::fs::symlink(std::fs::canonicalize(&base).unwrap().join("fresh"), &p).unwrap(),
				// a full disk: every write to it fails
				10 => { std::os::unix::fs::symlink("/dev/full", &p).unwrap(); special = Some("/dev/full") }
				_ => { std::os::unix::fs::symlink(&p, &p).unwrap(); fails = true }
			}
		}
		// neighbours that have nothing to do with it
		if exists { for n in NEIGHBOURS { std::fs::write(dir.join(n), n).expect("MODEL ERROR: neighbour") } }
		let before = contents(&base);
		let r = if ind == 0 && target % 2 == 0 { own()[d].write_to_filepath(&p) } else { own()[d].write_to_filepath_with_indent(&p, INDENTS[ind]) };
		l.outcome(if fails { "cannot be written" } else if special.is_some() { "disk full" } else { "file" });
		let plain = std::fs::symlink_metadata(&p).map(|m| m.is_file()).unwrap_or(false);
		let bad = if fails {
			if r.is_ok() && !(plain && std::fs::read(&p).unwrap() == text) { Some("reported success for a path that cannot be written".to_string()) }
			else if parent == 3 && std::fs::read(base.join("file")).unwrap() != b"keep" { Some("destroyed the file that stands in the way".into()) } else { None }
		} else if special.is_some() {
			if r.is_ok() && !(plain && std::fs::read(&p).unwrap() == text) { Some("reported success although the disk is full".to_string()) } else { None }
		} else {
			match r { Err(e) => Some(format!("failed: {e}")), Ok(()) => match std::fs::read(&p) { Err(e) => Some(format!("no file was written: {e}")), Ok(g) if g != text => Some(format!("the file has {}, expected {}", show_bytes(&g), show_bytes(text))), _ => None } }
		};
		// nothing else was touched: only the file itself (or what it links to) and its missing parents are new
		let after = contents(&base); let aim = match target { 8 => Some(base.join("aim")), 9 => Some(base.join("fresh")), _ => None };
		let home = std::fs::canonicalize(&dir).ok();
		let itself = |q: &Path| q.file_name() == p.file_name() && q.parent().and_then(|d| std::fs::canonicalize(d).ok()) == home;
		let own_file = |q: &Path| itself(q) || aim.as_deref() == Some(q);
		let may_change = |q: &Path| aim.as_deref() == Some(q) || itself(q) && aim.is_none() && (!fails && special.is_none() || plain);
		let other = before.iter().find(|(q, c)| !may_change(q) && after.get(*q) != Some(*c)).map(|(q, _)| format!("{} is another than before", q.display()))
			.or_else(|| after.iter().find(|(q, c)| !before.contains_key(*q) && !own_file(q) && c.is_some()).map(|(q, _)| format!("{} was left behind", q.display())));
		let _ = std::fs::remove_dir_all(&base);
		if let Some(b) = bad.or(other) { l.fail(case, b) }
	});
	// a disk that is full after so many bytes of a file: the system refuses to make any file longer (RLIMIT_FSIZE)
	if run.trace.is_none() {
		let mut lims: Vec<u64> = (0..run.t(90, 400)).collect(); for p in 7..=17 { for o in -1i64..=1 { lims.push(((1i64 << p) + o) as u64); } } for t in texts.iter().map(|t| &t[0]) { lims.extend([t.len() as u64, t.len() as u64 - 1, t.len() as u64 + 1, t.len() as u64 / 2]); } lims.sort(); lims.dedup();
		let nl = lims.len();
		for lim in lims {
			let olds = [None, Some(0usize), Some(1), Some(2)];
			limit_file_size(Some(lim));
			par_enum(run, &format!("limits/{lim}"), &format!("files limited to {lim} bytes (one of {nl} limits): documents x indents x earlier content of the target (none, empty, short, long)"), nd as u64 * INDENTS.len() as u64 * 4, |i, l| {
				let mut x = Dec(i); let old = *x.pick(&olds); let ind = x.take(INDENTS.len()); let d = x.0 as usize; let text = texts[d][ind].as_bytes();
				let dir = scratch.file(&format!("lim{i}")); std::fs::create_dir_all(&dir).expect("MODEL ERROR: dir"); let f = dir.join("out.xml");
				if let Some(k) = old { std::fs::write(&f, vec![b'#'; (k as u64 * lim / 2) as usize]).expect("MODEL ERROR: write") }
				let case = format!("document {d}, indent {:?}, at most {lim} of {} bytes, earlier content {old:?}", INDENTS[ind], text.len()); note(&case); l.step(1); l.trace(); l.state(&(lim, i));
				let r = if ind == 0 { own()[d].write_to_filepath(&f) } else { own()[d].write_to_filepath_with_indent(&f, INDENTS[ind]) };
				let got = std::fs::read(&f).ok(); let _ = std::fs::remove_dir_all(&dir);
				let fits = text.len() as u64 <= lim; l.outcome(if fits { "file" } else { "file too large" });
				let whole = got.as_deref() == Some(text);
				if r.is_ok() && !whole { return l.fail(case, format!("reported success, but the file has {}", got.map_or("nothing".into(), |g| show_bytes(&g)))) }
				if fits && (r.is_err() || !whole) { l.fail(case, format!("{r:?} although there was room")) }
			});
			limit_file_size(None);
		}
	}
	// histories: several documents written to the same path one after the other
	let hist = run.t(3, 4);
	par_enum(run, "rewrites", &format!("every sequence of {hist} writes of the documents to one path"), (nd as u64).pow(hist as u32), |i, l| {
		let mut x = Dec(i); let f = scratch.file(&format!("h{i}/x.xml")); l.state(&("h", i));
		let mut bad = None;
		for k in 0..hist {
			let d = x.take(nd); l.step(1); l.trace(); l.outcome("file");
			let r = own()[d].write_to_filepath(&f);
			if r.is_err() || std::fs::read(&f).ok().as_deref() != Some(texts[d][0].as_bytes()) { bad = Some(format!("write {k} of document {d}: {r:?}, or other content in the file")); break }
		}
		let _ = std::fs::remove_dir_all(scratch.file(&format!("h{i}")));
		if let Some(b) = bad { l.fail(format!("history {i}"), b) }
	});
	let names = names();
	par_enum(run, "names", "every file name of a menu (every byte in seven places, dots, length limits), as the file and as a directory to create: exactly that file comes to be", names.len() as u64 * 3, |i, l| {
		let mut x = Dec(i); let how = x.take(3); let n = &names[x.0 as usize]; let dir = scratch.file(&format!("n{i}")); std::fs::create_dir_all(&dir).expect("MODEL ERROR: dir");
		let p = match how { 0 => dir.join(os(n)), 1 => dir.join(os(n)).join("x.xml"), _ => dir.join("y").join(os(n)).join(os(n)) };
		let case = format!("{p:?}"); note(&case); l.step(1); l.trace(); l.state(&i); l.outcome("file"); let d = i as usize % nd;
		let r = own()[d].write_to_filepath(&p); let got = contents(&dir); let _ = std::fs::remove_dir_all(&dir);
		let files: Vec<_> = got.iter().filter(|(_, c)| c.is_some()).collect();
		if r.is_err() || files.len() != 1 || *files[0].0 != p || files[0].1.as_deref() != Some(texts[d][0].as_bytes()) { l.fail(case, format!("{r:?}; there are {:?}, expected just that file with the text", got.keys().collect::<Vec<_>>())) }
	});
	// a bare file name has no parent to create
	par_enum(run, "bare-names", "bare file names in the current directory", 40, |i, l| {
		let name = format!("{}{i}", ["bare", "é ü", ".hidden", "x.xml", "-dash"][i as usize % 5]); let d = i as usize % nd; l.step(1); l.trace(); l.state(&name); l.outcome("file");
		let r = own()[d].write_to_filepath(&name); let got = std::fs::read(scratch.file(&name)); let _ = std::fs::remove_file(scratch.file(&name));
		if r.is_err() || got.ok().as_deref() != Some(texts[d][0].as_bytes()) { l.fail(name, format!("{r:?}, or other content")) }
	});
	std::env::set_current_dir("/").expect("MODEL ERROR: chdir");
}
