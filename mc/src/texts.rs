//! Bounded spaces of input texts, enumerated completely.
use crate::engine::*;
use crate::model::*;

pub struct TokSpace { pub name: &'static str, pub pre: &'static str, pub post: &'static str, pub alpha: &'static [&'static str], pub q: usize, pub t: usize }
macro_rules! sp { ($n:expr, $pre:expr, $post:expr, $q:expr, $t:expr, [$($a:expr),* $(,)?]) => { TokSpace { name: $n, pre: $pre, post: $post, alpha: &[$($a),*], q: $q, t: $t } } }

pub const TOKENS: &[TokSpace] = &[
	sp!("tokens/content", "<r>", "</r>", 5, 7, ["<a>", "</a>", "<b>", "</b>", "<a/>", "x", " ", "<!--c-->", "<![CDATA[d]]>", "&amp;", "<b k=\"v\">"]),
	sp!("tokens/document", "", "", 5, 6, ["<a>", "</a>", "<a/>", "<b/>", " ", "x", "<!--c-->", "<?xml version=\"1.0\"?>", "<!DOCTYPE a>", "<![CDATA[d]]>", "\n", "</b>"]),
	sp!("tokens/attrs", "<r", "/>", 4, 5, [" a=\"1\"", " b='2'", " a = \"3\"", " c", "=", "\"x\"", " ", "\n", " d=\">\"", " e='\"'", "/", " f=\"'\"", "\t=\r\n'=y='", " g=\"a b = c\"", ">"]),
	sp!("tokens/ns", "<r xmlns=\"u\" xmlns:p=\"v\">", "</r>", 5, 6, ["<a>", "</a>", "<p:a>", "</p:a>", "<p:a/>", "<q:b xmlns:q=\"w\">", "</q:b>", "<a xmlns=\"\">", "x", "<p:b xmlns:p=\"z\" xmlns=\"y\">", "</p:b>"]),
	sp!("tokens/refs", "<r k=\"", "\"/>", 4, 5, ["&amp;", "&lt;", "&#65;", "&#x41;", "&", ";", "#", "x", "☼", "&apos;", "&quot;", "&gt;", "&amp", "lt;", "&#x263c;", " "]),
	sp!("tokens/prolog", "", "<r/>", 5, 6, ["<?xml version=\"1.0\"?>", "<?xml version='1.1' encoding=\"UTF-8\" standalone='yes' ?>", "<!DOCTYPE r>", "<!DOCTYPE r [<!ENTITY e \"<>\">]>", "<!-- a < b -->", " ", "\n", "<!DOCTYPE r SYSTEM 'a>b'>", "<!---->", "z"]),
	sp!("tokens/epilog", "<r>t</r>", "", 5, 6, ["<!--c-->", " ", "\n", "<!-- <a> -->", "x", "<a/>", "<a>", "</a>", "</r>", "<![CDATA[d]]>", "<!DOCTYPE r>", "<!---->", "&#32;", "\u{a0}"]),
	sp!("chars/content", "<a>", "</a>", 5, 6, ["<", ">", "/", "a", "!", "-", "[", "]", " ", "&", ";", "\""]),
	sp!("chars/tag", "<a", "/>", 5, 6, [" ", "b", "=", "\"", "'", "/", ">", "<", "\n", "c", "&", "-"]),
	sp!("chars/opentag", "<a", "></a>", 5, 6, [" ", "b", "=", "\"", "'", "/", ">", "<", "\t", "é"]),
	sp!("chars/comment", "<r><!", "</r>", 7, 9, ["-", ">", "a", "<", "!"]),
	sp!("chars/comment2", "<r><!--", "--></r>", 6, 8, ["-", ">", "a", "<", "é", "&lt;"]),
	sp!("chars/cdata", "<r><![CDATA[", "</r>", 6, 8, ["]", ">", "a", "[", "<", "&lt;"]),
	sp!("chars/closing", "<a><b></", "></a>", 5, 6, ["a", " ", "/", "<", ">", "b", "\"", "=", "\n"]),
	sp!("chars/raw", "", "", 6, 8, ["<", "a", "/", ">", " ", "!", "?", "-"]),
	sp!("chars/decl", "<?", "?><a/>", 4, 6, ["xml", " ", "version", "=", "\"1.0\"", "'1.0'", "?", ">", "a", "\n", "encoding=\"x\""]),
	sp!("chars/dtd", "<!", "<a/>", 6, 7, ["DOCTYPE", " a", "<", ">", "[", "]", "\"", "'", "<!--", "-->"]),
];

pub fn tokens<F>(run: &Run, name: &str, extra_len: isize, f: F) where F: Fn(&str, &mut Local) + Sync {
	let s = TOKENS.iter().find(|s| s.name == name).unwrap_or_else(|| panic!("no space {name}"));
	let k = (run.t(s.q, s.t) as isize + extra_len).max(1) as usize;
	let n = strings_upto(s.alpha.len(), k);
	par_enum(run, name, &format!("{:?} + every sequence of at most {k} of {} tokens + {:?}", s.pre, s.alpha.len(), s.post), n, |i, l| {
		let toks = nth_string(s.alpha, i);
		l.step(toks.len() as u64);
		let mut x = String::with_capacity(64);
		x.push_str(s.pre); for t in toks { x.push_str(t) } x.push_str(s.post);
		note(&x);
		f(&x, l);
	});
}

/// values made of what references are made of, as attribute value and as text at once
pub const REFISH: &[&str] = &["&amp;", "&lt;", "&quot;", "&#38;", "amp;", "lt;", "#65;", "#x41;", ";", "&", "x", " ", "apos;", "gt;"];
pub fn refish<F>(run: &Run, f: F) where F: Fn(&str, &mut Local) + Sync {
	let k = run.t(4, 5);
	par_enum(run, "refish", &format!("all sequences of at most {k} of {} pieces of references, as attribute value and text", REFISH.len()), strings_upto(REFISH.len(), k), |i, l| {
		let v = nth_concat(REFISH, i); let s = format!("<r k=\"{v}\" l='{v}'>{v}<e/>{v}</r>"); l.step(1); note(&s); f(&s, l)
	});
}

/// rich documents whose neighbourhoods (edits) are explored
pub fn rich() -> Vec<String> {
	vec![
		"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE cfg [<!ENTITY e \"v>\">]>\n<!-- top -->\n<cfg a=\"1\" b='two &lt; \"3\"'>\n  <x/>\n  <p>one &amp; <b>two</b> three</p>\n  <!-- c -->\n  <![CDATA[<raw> & ]]]]>\n</cfg>\n".to_string(),
		"<r xmlns=\"u:1\" xmlns:p=\"u:2\"><p:a p:k=\"v\"><c xmlns=\"\"/><p:d xmlns:p=\"u:3\"/></p:a><e>t&#9788;&#x263C;</e></r>".to_string(),
		"<a><b><c><d e='f'>g</d>h</c><!--i--><j/></b>k<![CDATA[l]]></a>".to_string(),
		"<sol>\n\t<pl id=\"1\" nm = \"Mërkür\" />\n\t<pl id='2' nm='V&apos;s'></pl>\n\t<pl>\u{1F30D}\u{4e16}界</pl>\n</sol>".to_string(),
		"<m>a<i>b</i> <i>c</i>\n<u> </u>d&lt;&gt;&quot;</m>".to_string(),
	]
}
const SUBST: &[&str] = &["", "<", ">", "/", "\"", "'", "=", "&", ";", " ", "\n", "a", "-", "]", "[", "!", "?", ":", "#", "é", "\u{a0}", "0"];
fn bounds(s: &str) -> Vec<usize> { s.char_indices().map(|x| x.0).chain([s.len()]).collect() }
/// every replacement of one character, insertion, deletion, duplication of a span, truncation, and pair swap
pub fn edits<F>(run: &Run, doubles: bool, f: F) where F: Fn(&str, &mut Local) + Sync {
	let docs = rich();
	for (d, doc) in docs.iter().enumerate() {
		let b = bounds(doc);
		let n = b.len() as u64; // positions 0..n
		let k = SUBST.len() as u64;
		let apply = |doc: &str, b: &[usize], pos: usize, op: u64| -> Option<String> {
			// op < k: replace the char at pos; op < 2k: insert before pos; 2k: truncate here; 2k+1: drop everything before; 2k+2: swap with next
			let mut s = doc[..b[pos]].to_string();
			if op < k { if pos + 1 >= b.len() { return None } s.push_str(SUBST[op as usize]); s.push_str(&doc[b[pos + 1]..]); }
			else if op < 2 * k { s.push_str(SUBST[(op - k) as usize]); s.push_str(&doc[b[pos]..]); }
			else if op == 2 * k { }
			else if op == 2 * k + 1 { s = doc[b[pos]..].to_string(); }
			else { if pos + 2 >= b.len() { return None } s.push_str(&doc[b[pos + 1]..b[pos + 2]]); s.push_str(&doc[b[pos]..b[pos + 1]]); s.push_str(&doc[b[pos + 2]..]); }
			Some(s)
		};
		let ops = 2 * k + 3;
		par_enum(run, &format!("edits/doc{d}"), "every one-character edit, truncation and swap of a rich document", n * ops, |i, l| {
			let Some(s) = apply(doc, &b, (i / ops) as usize, i % ops) else { return };
			l.step(1); note(&s); f(&s, l);
		});
		// every span moved or removed: (from, to)
		par_enum(run, &format!("spans/doc{d}"), "every span of a rich document removed or repeated", n * n * 2, |i, l| {
			let (a, z, dup) = ((i / 2 / n) as usize, (i / 2 % n) as usize, i % 2 == 1);
			if a >= z { return }
			let s = if dup { format!("{}{}", &doc[..b[z]], &doc[b[a]..]) } else { format!("{}{}", &doc[..b[a]], &doc[b[z]..]) };
			l.step(1); note(&s); f(&s, l);
		});
		if doubles {
			// two single-character replacements/insertions with markup characters, at most 24 characters apart
			let m = 11u64; let w = 24u64;
			par_enum(run, &format!("edits2/doc{d}"), "every pair of replacements with a markup character at most 24 characters apart", n * w * m * m, |i, l| {
				let mut x = Dec(i);
				let p = x.take(n as usize); let q = p + 1 + x.take(w as usize); let o1 = x.take(m as usize) as u64; let o2 = x.take(m as usize) as u64;
				if q >= b.len() { return }
				let Some(s1) = apply(doc, &b, q, o2) else { return };
				let Some(s) = apply(&s1, &b[..q + 1], p, o1) else { return };
				l.step(2); note(&s); f(&s, l);
			});
		}
	}
}

/// contexts in which each Unicode scalar value is placed (`@` is replaced)
pub const SCALAR_CTX: &[&str] = &[
	"<r>@</r>", "<r k=\"@\"/>", "<@/>", "<r@/>", "<r @='1'/>", "<r a@='1'/>", "<r>x@y</r>", "<r><!--@--></r>", "<r><![CDATA[@]]></r>",
	"<r@k='v'/>", "<r k@='v'/>", "<r k='v'@/>", "<r></r@>", "@<r/>", "<r/>@", "<r>a<b/>@<c/></r>", "<r><b/>@<c/></r>", "<!--@--><r/>", "<r k='a@b'>@</r>",
	"<r>&#@;</r>", "<r>&@;&lt;@</r>", "<!DOCTYPE r [<!ENTITY e '@'>]><r>@</r>", "<a>@&amp;</a>", "<a@><b/></a@>",
];
pub fn scalars<F>(run: &Run, full: bool, f: F) where F: Fn(&str, &mut Local) + Sync {
	// quick: every scalar below U+3100, and around every boundary of the XML name and character classes
	let quick: Vec<u64> = if full { vec![] } else { quick_scalars() };
	let n = if full { SCALARS } else { quick.len() as u64 };
	let c = SCALAR_CTX.len() as u64;
	par_enum(run, "scalars", &format!("{} in each of {c} contexts", if full { "every Unicode scalar value" } else { "every Unicode scalar value below U+2100 and at every class boundary" }), n * c, |i, l| {
		let ch = scalar(if full { i / c } else { quick[(i / c) as usize] });
		let s = SCALAR_CTX[(i % c) as usize].replace('@', &ch.to_string());
		l.step(1); note(&s); f(&s, l);
	});
}
pub fn quick_scalars() -> Vec<u64> {
	let mut v: Vec<u32> = (0..0x2100).collect();
	for b in [0x218F, 0x2C00, 0x2FEF, 0x3000, 0x3001, 0xD7FF, 0xE000, 0xF8FF, 0xF900, 0xFDCF, 0xFDD0, 0xFDF0, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0xEFFFF, 0xF0000, 0x10FFFF] {
		for d in -3i64..=3 { let x = b as i64 + d; if (0x2100..=0x10FFFF).contains(&x) && !(0xD800..0xE000).contains(&x) { v.push(x as u32) } }
	}
	v.sort(); v.dedup();
	v.into_iter().map(|c| if c >= 0xE000 { c as u64 - 0x800 } else { c as u64 }).collect()
}

/// documents growing along one dimension; (label, text)
pub const SIZE_KINDS: &[&str] = &["depth", "width", "text", "attrs", "attrlen", "comment", "cdata", "mixed", "texts", "refs", "name", "ns-depth", "ns-width", "prolog", "tree2", "comments", "pretty", "decl", "closing-ws", "emoji"];
pub fn sized(kind: &str, n: usize) -> String {
	match kind {
		"depth" => format!("{}x{}", "<a>".repeat(n), "</a>".repeat(n)),
		"width" => format!("<r>{}</r>", (0..n).map(|i| format!("<c{i}/>")).collect::<String>()),
		"text" => format!("<r>{}</r>", "abcdefghi ".repeat(n / 10 + 1)[..n].to_string() + "."),
		"attrs" => format!("<r{}/>", (0..n).map(|i| format!(" a{i}=\"{i}\"")).collect::<String>()),
		"attrlen" => format!("<r k=\"{}\"/>", "v'w = /> ".repeat(n / 9 + 1)),
		"comment" => format!("<r><!--{}--></r>", "- >".repeat(n)),
		"cdata" => format!("<r><![CDATA[{}]]></r>", "]>]".repeat(n)),
		"mixed" => format!("<r>{}z</r>", "t<b/> <i>u</i>".repeat(n)),
		"texts" => format!("<r>{}</r>", (0..n).map(|i| format!("t{i}<!--{i}-->")).collect::<String>()),
		"refs" => format!("<r k=\"{0}\">{0}</r>", "&amp;lt;&#65;".repeat(n)),
		"name" => format!("<{0}><b {0}=\"1\"/></{0}>", "n".repeat(n)),
		"ns-depth" => format!("{}{}", (0..n).map(|i| format!("<p{0}:a xmlns:p{0}=\"u{0}\"{1}>", i, if i % 3 == 0 { format!(" xmlns=\"d{i}\"") } else { String::new() })).collect::<String>() + "<leaf/><p0:leaf/>", (0..n).rev().map(|i| format!("</p{i}:a>")).collect::<String>()),
		"ns-width" => format!("<r xmlns=\"d\" xmlns:p=\"e\">{}</r>", (0..n).map(|i| match i % 4 { 0 => "<a xmlns=\"\"><b/></a>".to_string(), 1 => format!("<p:a xmlns:p=\"f{i}\"><p:b/></p:a>"), 2 => "<p:a><c/></p:a>".to_string(), _ => "<a/>".to_string() }).collect::<String>()),
		"prolog" => format!("<?xml version=\"1.0\"?>{}<r/>", (0..n).map(|i| format!("<!DOCTYPE r{i} [<!ENTITY e \"{i}\">]><!--{i}-->")).collect::<String>()),
		"tree2" => { fn go(d: usize) -> String { if d == 0 { "<l k='1'>t</l>".into() } else { let s = go(d - 1); format!("<n>{s}<!--{d}-->{s}</n>") } } let mut d = 0; while (1 << d) < n { d += 1 } go(d.min(10)) }
		"comments" => format!("<r>{}</r>", (0..n).map(|i| format!("<!--{i}--><![CDATA[{i}]]>")).collect::<String>()),
		"pretty" => format!("<r>{}\n</r>", (0..n).map(|i| format!("\n  <c id='{i}'>\n    <d/>\n    <e>v{i}</e>\n  </c>")).collect::<String>()),
		"decl" => format!("<?xml version=\"1.0\"{}?><r/>", " ".repeat(n)),
		"closing-ws" => format!("<r{0}k{0}={0}'v'{0}>x</r{0}>", " ".repeat(n + 1)),
		"emoji" => format!("<r k='{0}'>{0}&amp;{0}</r>", "\u{1F600}é".repeat(n)),
		_ => unreachable!(),
	}
}
/// small sizes one by one, then around the usual limits (powers of two and round numbers)
pub fn size_points(run: &Run) -> Vec<usize> {
	let mut v: Vec<usize> = (0..=run.t(40, 140)).collect();
	for b in [64usize, 100, 127, 128, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4096, 4097] { v.push(b) }
	if !run.quick() { for b in [150usize, 192, 199, 201, 300, 384, 400, 499, 501, 600, 700, 768, 800, 900, 999, 1001, 1500, 1536, 2000, 2047, 3000, 4095, 5000, 8191, 8192, 8193, 10000, 16384, 16385] { v.push(b) } }
	v.sort(); v.dedup(); v
}
/// sizes beyond 8, 12, 14, 15 and 16 bit counters
pub fn large_points(run: &Run) -> Vec<usize> { if run.quick() { vec![10_001, 16_385, 32_769, 65_535, 65_537, 70_001] } else { vec![9_999, 10_001, 16_383, 16_385, 20_001, 32_767, 32_769, 50_001, 65_534, 65_535, 65_536, 65_537, 70_001, 100_001, 131_073, 262_145] } }
pub fn size_cap(kind: &str) -> usize {
	match kind { "depth" => 600, "ns-depth" => 200, "ns-width" | "prolog" | "name" => 16_385, "refs" => 2049, "pretty" => 8193, "attrs" | "closing-ws" | "decl" => 70_001, "tree2" => 4097, _ => usize::MAX }
}
pub fn sizes<F>(run: &Run, f: F) where F: Fn(&str, &mut Local) + Sync {
	let pts = size_points(run); let large = large_points(run);
	let k = SIZE_KINDS.len() as u64;
	let both: Vec<usize> = large.iter().rev().chain(pts.iter()).copied().collect();
	par_enum(run, "sizes", &format!("{} kinds of growth, each at {} sizes up to {}", k, both.len(), large.last().unwrap()), k * both.len() as u64, |i, l| {
		let kind = SIZE_KINDS[(i % k) as usize];
		let mut n = both[(i / k) as usize];
		if n > size_cap(kind) { if large.contains(&n) { return } n = size_cap(kind) }
		if n == 0 && kind == "name" { n = 1 }
		let s = sized(kind, n);
		l.step(1);
		note(&format!("{kind} of size {n}"));
		f(&s, l);
	});
}
/// every small feature (good and bad) behind every amount of every kind of padding
pub const FEATURES: &[&str] = &[
	"", "x", " ", "\n", "&lt;", "&#65;", "& ", "&x;", "<b/>", "<b></b>", "<b k='1'/>", "<b k=\"a'b\" j='&quot;>'>t</b>", "<!--c-->", "<!---->", "<![CDATA[d]]>", "<![CDATA[]]>", " <b/> ", "x<b/> <b/>y", "<p:b/>", "<b xmlns='v'><c/></b>", "<p:b xmlns:p='w'/>",
	"<1/>", "<b>", "</b>", "<b k/>", "<b k='1' k='1'/>", "<!-- ", "<![CDATA[", "<!X>", "&#0000000000000065;", "&#x00000041;", "<b k =\r\n '1'/>", "<b><c></b></c>", "<", "<b k=1/>", "</r><r>", "</r>x<r>", "</r>", "<b k='1'j='2'/>", "]]>", ">", "<?p?>",
];
pub const PADS: &[&str] = &["text", "wide", "blank", "elements", "comment", "comments", "cdata", "value", "attrs", "deep", "mixed", "prolog", "dtd", "lines", "names"];
pub fn padded(pad: &str, n: usize, x: &str) -> String {
	match pad {
		"text" => format!("<r xmlns:p='u'>{}{x}</r>", "abc def ".repeat(n / 8 + 1)[..n].to_string()),
		"wide" => format!("<r xmlns:p='u'>{}{x}</r>", "\u{e9}\u{1F600}\u{20ac}".repeat(n / 3 + 1).chars().take(n).collect::<String>()),
		"blank" => format!("<r xmlns:p='u'>{}{x}</r>", " \n\t".repeat(n / 3 + 1)[..n].to_string()),
		"elements" => format!("<r xmlns:p='u'>{}{x}</r>", "<a/>".repeat(n)),
		"comment" => format!("<r xmlns:p='u'><!--{}-->{x}</r>", "c".repeat(n)),
		"comments" => format!("<r xmlns:p='u'>{}{x}</r>", "<!-->-->".repeat(n)),
		"cdata" => format!("<r xmlns:p='u'><![CDATA[{}]]>{x}</r>", "]> <".repeat(n / 4 + 1)[..n].to_string()),
		"value" => format!("<r xmlns:p='u' k=\"{}\">{x}</r>", "v'> /".repeat(n / 5 + 1)[..n].to_string()),
		"attrs" => format!("<r xmlns:p='u'{}>{x}</r>", (0..n).map(|i| format!(" a{i}='{i}'")).collect::<String>()),
		"deep" => format!("<r xmlns:p='u'>{}{x}{}</r>", "<a>".repeat(n), "</a>".repeat(n)),
		"mixed" => format!("<r xmlns:p='u'>{}{x}</r>", "t<a/>".repeat(n)),
		"prolog" => format!("<!--{}--><r xmlns:p='u'>{x}</r>", "c\u{e9}".repeat(n / 2)),
		"dtd" => format!("<!DOCTYPE r [{}]><r xmlns:p='u'>{x}</r>", "<!ENTITY e \">\">".repeat(n / 8)),
		"lines" => format!("<r xmlns:p='u'>{}{x}</r>", "<a>\n</a>\n".repeat(n / 2)),
		_ => format!("<{0} xmlns:p='u'><b{0}/><r>{x}</r></{0}>", "q".repeat(n.max(1))),
	}
}
pub fn far<F>(run: &Run, f: F) where F: Fn(&str, &mut Local) + Sync {
	let pts: Vec<usize> = { let mut v: Vec<usize> = vec![1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097]; if !run.quick() { v = size_points(run); } v };
	let k = PADS.len() as u64; let m = FEATURES.len() as u64;
	par_enum(run, "far", &format!("{m} well- and ill-formed pieces behind {} amounts (up to {}) of {k} kinds of other content", pts.len(), pts.last().unwrap()), k * m * pts.len() as u64, |i, l| {
		let mut x = Dec(i); let pad = *x.pick(PADS); let feature = *x.pick(FEATURES); let n = pts[pts.len() - 1 - x.0 as usize];
		if pad == "deep" && n > 600 { return }
		let s = padded(pad, n, feature); l.step(2); note(&format!("{feature:?} behind {n} {pad}")); f(&s, l);
	});
}

/// what contents are made of
pub const CONTENT: &[&str] = &["\r", "\n", " ", "\t", "x", "]", "-", ">", "&", "\u{e9}", "\u{a0}", "\""];
/// every short content of a text, comment, CDATA section and value, alone and beside others
pub fn content_texts<F>(run: &Run, f: F) where F: Fn(&str, &mut Local) + Sync {
	let k = run.t(3, 4);
	let ctx: &[&str] = &["<r>@</r>", "<r>x@<b/></r>", "<r><a>@</a>@@</r>", "<r><a/>@</r>", "<r><a/><b>@</b></r>", "<r><a>t<b>@</b></a></r>"];
	let m = ctx.len() as u64 * 4 + 1;
	par_enum(run, "contents", &format!("all contents of at most {k} of {} tokens as text (raw and escaped), comment and CDATA section in {} places, and as value", CONTENT.len(), ctx.len()), strings_upto(CONTENT.len(), k) * m, |i, l| {
		let s = nth_concat(CONTENT, i / m); let w = i % m;
		let x = if w + 1 == m { format!("<r k=\"{}\" l='{}'/>", s.replace('"', "&quot;"), s) } else {
			let n = match w % 4 { 0 => s.clone(), 1 => esc_full(&s), 2 => format!("<!--{s}-->"), _ => format!("<![CDATA[{s}]]>") };
			ctx[(w / 4) as usize].replace('@', &n) };
		l.step(1); note(&x); f(&x, l);
	});
}

/// all small trees in all styles of a style list
pub fn leaf4(v: usize, id: usize) -> M {
	match v {
		0 => M::E(ela(["a", "b"][id % 2], &[], vec![])),
		1 => M::T(["x", "y & z", " w "][id % 3].into()),
		2 => M::C([" c ", "-", "<&lt;>"][id % 3].into()),
		3 => M::D(["d", "]]", "&amp;<a>"][id % 3].into()),
		4 => M::E(ela("e", &[("k", "v"), ("a", "<\"'>&=/ \n")], vec![])),
		_ => M::T("\n".into()),
	}
}
pub fn inner2(v: usize, id: usize, kids: Vec<M>) -> M {
	match v { 0 => M::E(ela(["n", "m"][id % 2], &[], kids)), _ => M::E(ela("o", &[("z", "1"), ("b", "it's")], kids)) }
}
/// does rendering this tree and reading it back give the tree itself? (no adjacent or insignificant text)
pub fn stable(e: &El) -> bool { let mut x = e.clone(); normalize(&mut x); x == *e }
pub fn trees<F>(run: &Run, space: &str, hi: usize, styles: &[Style], f: F) where F: Fn(&El, &Style, &mut Local) + Sync {
	let sp = ForestSpace::new(0, hi, 6, 2);
	let k = styles.len() as u64;
	par_enum(run, space, &format!("all trees of at most {hi} nodes below the root over 6 leaf and 2 inner kinds, in {k} spellings"), sp.total * k, |i, l| {
		let root = ela("r", &[("id", "0")], sp.get(i / k, &leaf4, &inner2));
		if !stable(&root) { return }
		l.step(root.count() as u64);
		f(&root, &styles[(i % k) as usize], l);
	});
}
