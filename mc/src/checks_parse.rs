//! Properties of reading: C01-C04, C06-C08, C18, C20, C25.
use crate::engine::*;
use crate::model::*;
use crate::refparse::*;
use crate::texts::*;
use kiss_xml::dom::*;

pub const ALL_TOK: &[&str] = &["tokens/content", "tokens/document", "tokens/attrs", "tokens/ns", "tokens/refs", "tokens/prolog", "tokens/epilog",
	"chars/content", "chars/tag", "chars/opentag", "chars/comment", "chars/comment2", "chars/cdata", "chars/closing", "chars/raw", "chars/decl", "chars/dtd"];

/// the text spaces shared by C01..C04
pub fn all_texts<F>(run: &Run, full_scalars: bool, f: F) where F: Fn(&str, &mut Local) + Sync {
	for s in ALL_TOK { tokens(run, s, 0, &f); }
	refish(run, &f);
	edits(run, !run.quick(), &f);
	scalars(run, full_scalars, &f);
	sizes(run, &f);
	far(run, &f);
	content_texts(run, &f);
	tree_tokens(run, &f);
	tag_values(run, &f);
}

/// three attributes with values that look like markup, in all spellings of the tag
fn tag_values<F>(run: &Run, f: F) where F: Fn(&str, &mut Local) + Sync {
	let vals = ["", "v", "=", "a='", "b=\"", ">", "/", "/>", " ", "\n", "é", "&", "x:y", "--", "<"];
	let n = vals.len() as u64;
	let styles = 3 * 6 * 5 * 5 * 2u64;
	par_enum(run, "tag-values", &format!("all pairs of {n} attribute values in {styles} spellings of a tag"), n * n * styles, |i, l| {
		let mut x = Dec(i); let (a, b) = (*x.pick(&vals), *x.pick(&vals));
		let st = Style { quote: x.take(3) as u8, eq: x.take(6) as u8, gap: x.take(5) as u8, tail: x.take(5) as u8, pair: x.flag(), esc: 3, order: 0, layout: 0 };
		let s = rendered(&ela("r", &[("a", a), ("b", b), ("c", "")], vec![M::E(ela("e", &[("k", b), ("l", a)], vec![]))]), &st);
		l.step(1); note(&s); f(&s, l)
	});
}

/// split a rendered document into tags and texts
fn lex(s: &str) -> Vec<String> {
	let mut v = vec![]; let mut cur = String::new();
	for c in s.chars() {
		if c == '<' && !cur.is_empty() { v.push(std::mem::take(&mut cur)); }
		cur.push(c);
		if c == '>' { v.push(std::mem::take(&mut cur)); }
	}
	if !cur.is_empty() { v.push(cur) }
	v
}
/// every deletion, duplication, swap, move of a tag or text of every small document
fn tree_tokens<F>(run: &Run, f: F) where F: Fn(&str, &mut Local) + Sync {
	let hi = run.t(3, 4);
	let sp = ForestSpace::new(1, hi, 3, 2);
	let leaf = |v: usize, id: usize| match v { 0 => M::E(ela(["a", "b", "c"][id % 3], &[], vec![])), 1 => M::T(format!("t{id}")), _ => M::C("c".into()) };
	let inner = |v: usize, id: usize, k: Vec<M>| M::E(ela(["n", "a"][v], &[("k", ["1", "2"][id % 2])], k));
	par_enum(run, "tree-tokens", &format!("every removal, repetition and exchange of tags and texts in every document of at most {hi} nodes below the root"), sp.total, |i, l| {
		let root = el("r", sp.get(i, &leaf, &inner));
		if !stable(&root) { return }
		for pair in [false, true] {
			let toks = lex(&rendered(&root, &Style { pair, ..PLAIN }));
			let n = toks.len();
			let go = |v: Vec<&str>, l: &mut Local| { let s = v.concat(); l.step(1); note(&s); f(&s, l) };
			for a in 0..n {
				go(toks.iter().enumerate().filter(|(i, _)| *i != a).map(|x| x.1.as_str()).collect(), l);
				for b in 0..=n { let mut v: Vec<&str> = toks.iter().map(|x| x.as_str()).collect(); v.insert(b, &toks[a]); go(v, l); }
				for b in a + 1..n { let mut v: Vec<&str> = toks.iter().map(|x| x.as_str()).collect(); v.swap(a, b); go(v, l); }
			}
		}
	});
}

fn verdict(s: &str, l: &mut Local) -> R {
	let r = recognise(s);
	match &r {
		R::Doc(d) => { l.state(d); l.outcome("well-formed"); l.sample(|| s.chars().take(300).collect()) }
		R::Bad(m) => { l.state(m); l.outcome(&format!("malformed: {m}")) }
		R::Unspec(m) => { l.state(m); l.outcome(&format!("outside the subset: {m}")) }
	}
	r
}

pub fn diff(a: &Doc, b: &Doc) -> String {
	if a.decl != b.decl { return format!("declaration: expected {:?}, got {:?}", a.decl, b.decl) }
	if a.dtds != b.dtds { return format!("DTDs: expected {:?}, got {:?}", a.dtds, b.dtds) }
	format!("expected {}, got {}", show(&a.root), show(&b.root))
}
pub fn show(e: &El) -> String {
	let mut s = String::new();
	fn go(e: &El, s: &mut String) {
		s.push_str(&format!("({}{}{}", e.tag(), e.ns.as_ref().map(|n| format!("{{{n}}}")).unwrap_or_default(), e.attrs.iter().map(|(k, v)| format!(" {k}={v:?}")).collect::<String>()));
		for k in &e.kids { s.push(' '); match k { M::E(c) => go(c, s), M::T(x) => s.push_str(&format!("{x:?}")), M::C(x) => s.push_str(&format!("!{x:?}")), M::D(x) => s.push_str(&format!("[{x:?}]")) } if s.len() > 1500 { s.push('…'); return } }
		s.push(')');
	}
	go(e, &mut s); s
}

// ------------------------------------------------------------------ C01
pub fn c01(run: &Run) {
	let whole = |s: &str, l: &mut Local| {
		l.trace();
		match parse(s) {
			Err(e) => { let a = format!("{e}"); let b = format!("{e:?}"); l.outcome("error"); if a.is_empty() || b.is_empty() { l.fail(s, "the error displays as nothing") } }
			Ok(d) => {
				l.outcome("document"); l.state(s); l.sample(|| s.chars().take(200).collect());
				let x = d.to_string(); let _ = d.to_string_with_indent("\t"); let _ = format!("{d}{d:?}");
				let c = d.root_element().clone();
				if c != *d.root_element() { l.fail(s, "a clone of the root differs from the root") }
				let _ = c.text().len() + c.all_children().count();
				if parse(&x).is_ok_and(|e| e != d) { l.fail(s, "the printed document is read back as another one") }
			}
		}
	};
	all_texts(run, true, whole);
	// depth: reading, and dropping what was read, must not recurse without bound
	let depths: &[usize] = run.t(&[1000, 20_000, 150_000], &[1000, 20_000, 150_000, 600_000]);
	let kinds = ["closed", "unclosed", "mismatch", "trailing", "twice", "attrs", "comments", "texts", "ns", "siblings"];
	par_enum(run, "deep", &format!("{} ways of nesting to depth {:?}", kinds.len(), depths), (kinds.len() * depths.len()) as u64, |i, l| {
		let k = kinds[i as usize % kinds.len()]; let n = depths[i as usize / kinds.len()];
		note(&format!("{k} nested {n} deep"));
		let s = match k {
			"closed" => format!("{}{}", "<a>".repeat(n), "</a>".repeat(n)),
			"unclosed" => "<a>".repeat(n),
			"mismatch" => format!("{}{}</b>", "<a>".repeat(n), "</a>".repeat(n - 1)),
			"trailing" => format!("{}{}x", "<a>".repeat(n), "</a>".repeat(n)),
			"twice" => format!("{0}{1}{0}{1}", "<a>".repeat(n), "</a>".repeat(n)),
			"attrs" => format!("{}{}", "<a k='v'>".repeat(n), "</a>".repeat(n)),
			"comments" => format!("{}{}", "<a><!--c-->".repeat(n), "</a>".repeat(n)),
			"texts" => format!("{}{}", "<a>t".repeat(n), "u</a>".repeat(n)),
			"ns" => format!("<p:r xmlns:p='u' xmlns='v'>{}{}</p:r>", "<p:a>".repeat(n), "</p:a>".repeat(n)),
			_ => format!("{}{}", "<a><b/>".repeat(n), "<c/></a>".repeat(n)),
		};
		l.step(n as u64); l.trace();
		let r = parse(&s);
		let ok = matches!(k, "closed" | "attrs" | "comments" | "texts" | "ns" | "siblings");
		if r.is_ok() != ok { l.fail(format!("{k} nested {n} deep"), if ok { "refused" } else { "accepted" }) }
		l.state(&(k, n, ok));
		match r { Ok(d) => { l.outcome("deep document"); drop(d) } Err(e) => { l.outcome("deep error"); let _ = format!("{e}{e:?}"); } }
	});
	// long runs of one symbol in every context
	let n = run.t(6000usize, 20_000);
	let syms = ["<", ">", "&", ";", "\"", "'", "=", " ", "/", "!", "-", "?", "[", "]", "a", "é", "<!--", "-->", "<![CDATA[", "]]>", "<a>", "</a>", "<a/>", "<?", "?>", "<!", "&#", "&amp;", "a=\"b\" ", "\n", "\u{1F600}", "<a", "<!DOCTYPE ", "a b ", "=\"", "\u{0}", "x:", "\u{a0}"];
	let ctx = ["@", "<r>@</r>", "<r @/>", "<r k=\"@\"/>", "<r k='@'>@</r>", "<@/>", "<!--@--><r/>", "<?xml @?><r/>", "<!DOCTYPE @><r/>", "<r/>@", "<r><![CDATA[@]]></r>", "<r></@>", "<r><!@</r>"];
	par_enum(run, "runs", &format!("{} symbols repeated {n} times in {} contexts", syms.len(), ctx.len()), (syms.len() * ctx.len()) as u64, |i, l| {
		let (a, b) = (syms[i as usize % syms.len()], ctx[i as usize / syms.len()]);
		note(&format!("{n} times {a:?} in {b:?}"));
		let s = b.replace('@', &a.repeat(n)); l.step(n as u64); l.trace(); l.state(&(a, b));
		match parse(&s) { Err(e) => { let _ = format!("{e}{e:?}"); l.outcome("error") } Ok(d) => { let _ = d.to_string(); l.outcome("document") } }
	});
	// messages quote the offending text: every length and character width around the abbreviation limits
	let wide = ["a", "é", "€", "\u{1F600}", " ", "-"];
	let mctx = ["<!--@--><r/>", "<r><!X@></r>", "<r/><!--@-->", "<!X@><r/>", "<r @></r>", "<r></r@>", "<r k=@/>", "@<r/>", "<r/>@", "<r><!--@</r>", "<?xml @?><?xml @?><r/>", "<q:r@/>"];
	let lens = run.t(80u64, 300);
	par_enum(run, "messages", &format!("{} contexts, lengths up to {lens}, all pairs of 6 characters of 1-4 bytes", mctx.len()), mctx.len() as u64 * lens * 36, |i, l| {
		let mut x = Dec(i); let c = *x.pick(&mctx); let (a, b) = (*x.pick(&wide), *x.pick(&wide)); let n = x.0 as usize;
		let fill: String = (0..n).map(|k| if k % 2 == 0 { a } else { b }).collect();
		let s = c.replace('@', &fill); note(&s); l.step(1); whole(&s, l);
	});
}

// ------------------------------------------------------------------ C02
pub fn c02(run: &Run) {
	let f = |s: &str, l: &mut Local| {
		let R::Doc(want) = verdict(s, l) else { return };
		l.trace();
		match parse(s) {
			Err(e) => l.fail(s, format!("well-formed document refused: {e}")),
			Ok(d) => { let got = observe_doc(&d); if got != want { l.fail(s, diff(&want, &got)) } }
		}
	};
	// generated trees: the generator knows the tree, so the recogniser is checked against it as well
	let styles: Vec<Style> = (0..run.t(8u64, 40)).map(|i| style(i * 7919 % STYLES)).collect();
	trees(run, "trees", run.t(4, 5), &styles, |tree, st, l| {
		let s = rendered(tree, st); note(&s);
		let want = Doc { decl: None, dtds: vec![], root: annotated(tree.clone()) };
		match recognise(&s) { R::Doc(d) if d == want => {}, r => panic!("MODEL ERROR: recogniser disagrees with the generator on {s:?}: {r:?}") }
		f(&s, l);
	});
	all_texts(run, !run.quick(), &f);
	tokens(run, "tokens/content", 1, &f);
}

// ------------------------------------------------------------------ C03
pub fn c03(run: &Run) {
	let f = |s: &str, l: &mut Local| {
		let R::Bad(why) = verdict(s, l) else { return };
		l.trace(); l.sample(|| s.chars().take(200).collect());
		if let Ok(d) = parse(s) { l.fail(s, format!("accepted although not well-formed ({why}); read as {}", show(&observe(d.root_element())))) }
	};
	all_texts(run, !run.quick(), &f);
	// one malformation of every kind at every node of every small tree
	let sp = ForestSpace::new(0, run.t(3, 4), 4, 2);
	let faults: &[(&str, &(dyn Fn(&str) -> Option<String> + Sync))] = &[
		("no closing tag", &|t| t.rfind("</").map(|i| t[..i].to_string())),
		("other closing tag", &|t| t.rfind("</").map(|i| format!("{}</zz>", &t[..i]))),
		("longer closing tag", &|t| t.rfind('>').filter(|_| t.contains("</")).map(|i| format!("{}x>", &t[..i]))),
		("closing tag in capitals", &|t| t.rfind("</").map(|i| format!("{}{}", &t[..i], t[i..].to_uppercase()))),
		("closed twice", &|t| t.rfind("</").map(|i| format!("{t}{}", &t[i..]))),
		("closing tag first", &|t| t.rfind("</").map(|i| format!("{}{t}", &t[i..]))),
		("self-closed and closed", &|t| t.find("/>").map(|_| format!("{t}</r>{t}"))),
		("unquoted attribute", &|t| t.find(|c| c == '/' || c == '>').map(|i| format!("{} u=1{}", &t[..i], &t[i..]))),
		("attribute without value", &|t| t.find(|c| c == '/' || c == '>').map(|i| format!("{} u{}", &t[..i], &t[i..]))),
		("attribute with = only", &|t| t.find(|c| c == '/' || c == '>').map(|i| format!("{} u={}", &t[..i], &t[i..]))),
		("repeated attribute", &|t| t.find(|c| c == '/' || c == '>').map(|i| format!("{} u='1' w='2' u='1'{}", &t[..i], &t[i..]))),
		("attributes not separated", &|t| t.find(|c| c == '/' || c == '>').map(|i| format!("{} u='1'w='2'{}", &t[..i], &t[i..]))),
		("mixed quotes", &|t| t.find(|c| c == '/' || c == '>').map(|i| format!("{} u='1\"{}", &t[..i], &t[i..]))),
		("attribute name with digit", &|t| t.find(|c| c == '/' || c == '>').map(|i| format!("{} 1u='1'{}", &t[..i], &t[i..]))),
		("name with digit", &|t| Some(t.replacen('<', "<1", 1))),
		("space before name", &|t| Some(t.replacen('<', "< ", 1))),
		("space after </", &|t| t.rfind("</").map(|i| format!("{}</ {}", &t[..i], &t[i + 2..]))),
		("attribute in closing tag", &|t| t.rfind('>').filter(|_| t.contains("</")).map(|i| format!("{} k='v'>", &t[..i]))),
		("slash in closing tag", &|t| t.rfind('>').filter(|_| t.contains("</")).map(|i| format!("{}/>", &t[..i]))),
		("tag in tag", &|t| t.find(|c| c == '/' || c == '>').map(|i| format!("{} <b/>{}", &t[..i], &t[i..]))),
		("double slash", &|t| t.find("/>").map(|i| format!("{}//>", &t[..i]))),
		("space in />", &|t| t.find("/>").map(|i| format!("{}/ >{}", &t[..i], &t[i + 2..]))),
		("unterminated tag", &|t| t.find('>').map(|i| format!("{}{}", &t[..i], &t[i + 1..]))),
		("unterminated comment", &|t| Some(format!("{t}<!-- c"))),
		("unterminated comment --", &|t| Some(format!("{t}<!-- c --"))),
		("unterminated comment <!-->", &|t| Some(format!("{t}<!-->"))),
		("unterminated CDATA", &|t| Some(format!("{t}<![CDATA[ c ]]"))),
		("DOCTYPE inside", &|t| Some(format!("{t}<!DOCTYPE r>"))),
		("ELEMENT inside", &|t| Some(format!("<!ELEMENT r ANY>{t}"))),
		("empty tag", &|t| Some(format!("{t}<>"))),
		("empty closing tag", &|t| Some(format!("{t}</>"))),
		("stray <", &|t| Some(format!("{t}< "))),
		("lower case cdata", &|t| Some(format!("{t}<![cdata[x]]>"))),
	];
	par_enum(run, "faults", &format!("{} malformations at every element of every tree of at most {} nodes", faults.len(), run.t(3, 4)), sp.total, |i, l| {
		let root = ela("r", &[], sp.get(i, &|v, id| match v { 3 => M::D("d".into()), v => leaf4(v, id) }, &inner2));
		if !stable(&root) { return }
		let n = 1 + { let mut b = vec![]; root.below(&mut b); b.iter().filter(|m| matches!(m, M::E(_))).count() };
		for pair in [false, true] { for node in 0..n { for (name, fault) in faults {
			// render with the fault applied to the node-th element's own text
			fn go(e: &El, k: &mut isize, pair: bool, fault: &(dyn Fn(&str) -> Option<String> + Sync), hit: &mut bool) -> String {
				let me = *k; *k -= 1;
				let mut shell = e.clone(); shell.kids = vec![];
				if e.kids.is_empty() {
					let s = rendered(&shell, &Style { pair, ..PLAIN });
					if me == 0 { if let Some(x) = fault(&s) { *hit = true; return x } }
					return s;
				}
				let mut inner = String::new();
				for c in &e.kids { match c { M::E(c) => inner.push_str(&go(c, k, pair, fault, hit)), M::T(s) => inner.push_str(&esc_text(s)), c => inner.push_str(&leaf(c)) } }
				let s = rendered(&shell, &Style { pair: true, ..PLAIN });
				let cut = s.rfind("</").unwrap();
				if me == 0 {
					// the fault acts on "<open></close>" ; put the children between
					if let Some(x) = fault(&s) { *hit = true; return match x.rfind("</") { Some(i) if x.matches("</").count() == 1 => format!("{}{inner}{}", &x[..i], &x[i..]), _ => format!("{x}{inner}") } }
				}
				format!("{}{inner}{}", &s[..cut], &s[cut..])
			}
			let (mut k, mut hit) = (node as isize, false);
			let s = go(&root, &mut k, pair, fault, &mut hit);
			if !hit { continue }
			note(&s); l.step(1);
			l.outcome(&format!("fault: {name}"));
			f(&s, l);
		} } }
	});
	// one thing wrong in a tag of many attributes, or of a long value
	let sizes: Vec<usize> = size_points(run).into_iter().filter(|n| *n <= run.t(1025, 4097)).rev().collect();
	let wrong = [" u=1", " u", " u=", " a0='x'", " a@='x'", " a#=\"\"", "'", " 'u'", " u='1'w='2'", " =", " u ='", " 1u='1'", " u='1' u='1'", " <", " /", " u='<' &='1'", " xmlns:a0='x' xmlns:a0='y'", " u==''", " \u{d7}='1'", " u='1\"", " u:='1'", " A0='x'", " u='x'", " xmlns:a0='x'", "\u{a0}u='1'"];
	par_enum(run, "crowded-tags", &format!("{} additions to a tag with {} numbers of attributes (up to {}) or lengths of a value, at three places, of four elements", wrong.len(), sizes.len(), sizes[0]), (sizes.len() * wrong.len() * 3 * 4 * 2) as u64, |i, l| {
		let mut x = Dec(i); let w = *x.pick(&wrong); let at = x.take(3); let ctx = x.take(4); let long = x.flag(); let n = sizes[x.0 as usize];
		let w = w.replace('@', &(n / 2).to_string()).replace('#', &n.saturating_sub(1).to_string());
		let atts: Vec<String> = if long { vec![" a0='0'".into(), format!(" b='{}'", "v \u{e9}&lt;".chars().cycle().take(n).collect::<String>()), " c='c'".into()] } else { (0..n).map(|k| format!(" a{k}='{k}'")).collect() };
		let cut = match at { 0 => 0, 1 => atts.len() / 2, _ => atts.len() };
		let tag = format!("{}{w}{}", atts[..cut].concat(), atts[cut..].concat());
		let s = match ctx { 0 => format!("<r{tag}/>"), 1 => format!("<r{tag}>t</r>"), 2 => format!("<r><a{tag}/></r>"), _ => format!("<r>t<p:a xmlns:p='u'{tag}><b/></p:a></r>") };
		note(&format!("{w} at place {at} of {n} ({}), element {ctx}", if long { "characters" } else { "attributes" })); l.step(1);
		match verdict(&s, l) {
			R::Bad(why) => { l.trace(); if parse(&s).is_ok() { l.fail(s.chars().take(3000).collect::<String>(), format!("{w} at place {at} of {n}: accepted although not well-formed ({why})")) } }
			R::Doc(_) => { l.trace(); if let Err(e) = parse(&s) { l.fail(s.chars().take(3000).collect::<String>(), format!("{w} at place {at} of {n}: refused although well-formed: {}", e.to_string().chars().take(200).collect::<String>())) } }
			_ => {}
		}
	});
	// long names that differ in one place only, in opening and closing tags and as repeated attributes
	let lens: Vec<usize> = { let mut v: Vec<usize> = size_points(run).into_iter().chain([16_385, 65_537]).filter(|n| *n > 0).collect(); v.reverse(); v };
	par_enum(run, "twins", &format!("names of {} lengths up to {} closed by (or repeated as) a name that differs in one place or in length: every place around a power of two, the ends and the middle, x 9 surroundings", lens.len(), lens.iter().max().unwrap()), lens.len() as u64 * 4, |i, l| {
		let unit = ["n", "n.a-m_e1", "aB", "p0_"][(i % 4) as usize]; let n = lens[(i / 4) as usize];
		let base: String = unit.chars().cycle().take(n).collect();
		let all = crate::checks_big::twins(&base);
		let some: Vec<String> = all.into_iter().chain([base.to_uppercase(), format!("{base}n"), format!("{base}{base}")]).collect();
		for other in &some { for ctx in 0..9 {
			let b = &base;
			let (s, good) = match ctx {
				0 => (format!("<{b}></{other}>"), b == other), 1 => (format!("<r><{b}>t<a/></{other}></r>"), b == other), 2 => (format!("<p:{b} xmlns:p='u'></p:{other}>"), b == other), 3 => (format!("<{b}:r xmlns:{b}='u' xmlns:{other}='u'></{other}:r>").replace(&format!("='u' xmlns:{b}='u'"), "='u'"), b == other),
				4 => (format!("<r {b}='1' {other}='2'/>"), b != other), 5 => (format!("<r {b}='1' k='2' {other}=\"1\"></r>"), b != other), 6 => (format!("<r><a xmlns:{b}='1' xmlns:{other}='1'/></r>"), b != other), 7 => (format!("<{b}><{other}></{b}></{other}>"), b == other && b.is_empty() || b == other), _ => (format!("<r><{b}><{b}></{other}></{b}></r>"), b == other),
			};
			l.step(1); l.trace();
			let case = || format!("{n} characters of {unit:?}, surroundings {ctx}, other name {}", if *other == base { "equal".into() } else { format!("differing first at {:?}", base.bytes().zip(other.bytes()).position(|(a, b)| a != b)) });
			if !l.quiet_note() { note(&case()); }
			match (parse(&s), good) { (Ok(_), false) => return l.fail(case(), "accepted although not well-formed"), (Err(e), true) => return l.fail(case(), format!("refused: {}", e.to_string().chars().take(200).collect::<String>())), _ => {} }
		} }
		l.state(&i);
	});
}

// ------------------------------------------------------------------ C04
const INDENTS: [&str; 6] = ["  ", "\t", "", " ", "    ", "       "];
fn fixpoint(s: &str, d: &Document, indent: &str, l: &mut Local) {
	let s1 = d.to_string_with_indent(indent);
	match parse(&s1) {
		Err(e) => l.fail(s, format!("indent {indent:?}: own output {s1:?} refused: {e}")),
		Ok(d2) => {
			let (a, b) = (observe_doc(d), observe_doc(&d2));
			if a != b { return l.fail(s, format!("indent {indent:?}: output {s1:?}: {}", diff(&a, &b))) }
			if *d != d2 { return l.fail(s, format!("indent {indent:?}: not equal (==) after {s1:?}")) }
			let s2 = d2.to_string_with_indent(indent);
			if s1 != s2 { l.fail(s, format!("indent {indent:?}: printed as {s1:?}, after reading that as {s2:?}")) }
		}
	}
}
pub fn c04(run: &Run) {
	let f = |s: &str, l: &mut Local| {
		let Ok(d) = parse(s) else { l.outcome("refused"); return };
		l.trace(); l.outcome("accepted"); l.state(&observe_doc(&d)); l.sample(|| s.chars().take(200).collect());
		let k = h64(s) as usize % 5;
		fixpoint(s, &d, INDENTS[0], l);
		fixpoint(s, &d, INDENTS[1 + k], l);
	};
	let styles: Vec<Style> = (0..run.t(4u64, 16)).map(|i| style(i * 7919 % STYLES)).collect();
	trees(run, "trees", run.t(4, 5), &styles, |tree, st, l| {
		let s = rendered(tree, st); note(&s);
		match parse(&s) { Ok(d) => { l.trace(); l.state(tree); for i in INDENTS { fixpoint(&s, &d, i, l) } } Err(e) => l.fail(s, format!("refused: {e}")) }
	});
	all_texts(run, !run.quick(), &f);
	tokens_space(run, &f);
}

// ------------------------------------------------------------------ C06
pub fn c06(run: &Run) {
	let check = |s: &str, l: &mut Local| {
		l.trace(); l.state(s);
		let (t, a, e) = (kiss_xml::text_escape(s), kiss_xml::attribute_escape(s), kiss_xml::escape(s));
		if t != esc_text(s) { return l.fail(s, format!("text_escape gives {t:?}")) }
		if a != esc_full(s) { return l.fail(s, format!("attribute_escape gives {a:?}")) }
		if e != esc_full(s) { return l.fail(s, format!("escape gives {e:?}")) }
		for (n, x) in [("text_escape", t), ("escape", e)] {
			let u = kiss_xml::unescape(x.as_str());
			if u != s { return l.fail(s, format!("unescape({n}(..)) = unescape({x:?}) = {u:?}")) }
		}
	};
	let alpha = ["&", "<", ">", "\"", "'", ";", "#", "a", "m", "p", "l", "t", "x", "6", "é", "☼", "\u{1F600}", " "];
	let k = run.t(5, 6);
	par_enum(run, "chars", &format!("all strings of at most {k} of {} characters", alpha.len()), strings_upto(alpha.len(), k), |i, l| {
		let s = nth_concat(&alpha, i); l.step(s.chars().count() as u64); note(&s); l.sample(|| s.clone()); check(&s, l) });
	let toks = ["&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&#65;", "&#x41;", "&#263c;", "&", "<", ">", "\"", "'", ";", "amp", "☼", "]]>", "#38;"];
	let k = run.t(4, 5);
	par_enum(run, "tokens", &format!("all sequences of at most {k} of {} entity-like tokens", toks.len()), strings_upto(toks.len(), k), |i, l| {
		let s = nth_concat(&toks, i); l.step(1); note(&s); check(&s, l) });
	par_enum(run, "scalars", "every Unicode scalar value, alone and beside reserved characters", SCALARS, |i, l| {
		let c = scalar(i);
		for s in [c.to_string(), format!("&{c};"), format!("<{c}&{c}>"), format!("&#{c};"), format!("&amp{c};&{c}lt;")] { note(&s); l.step(1); check(&s, l) }
	});
	let pat = ["&", "<", "a", "é&", "\"'", "&amp;", "&#", "\u{1F600}<"];
	par_enum(run, "lengths", "8 patterns repeated 0..=1100 times", 8 * 1101, |i, l| { let s = pat[(i % 8) as usize].repeat((i / 8) as usize); note(&s); l.step(1); check(&s, l) });
	c06_sizes(run, &check);
}

fn c06_sizes<F>(run: &Run, check: F) where F: Fn(&str, &mut Local) + Sync {
	let pts = { let mut v: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).collect(); v.reverse(); v };
	let (pads, ends) = (["x", "\u{e9}\u{1F600}", "&", "<x>", "\"' ", "&amp;", "&#65"], ["", "&", "<", ">", "\"", "'", ";", "&lt;", "]]>", "\u{1F600}&"]);
	par_enum(run, "far", &format!("10 endings behind {} amounts (up to {}) of 7 kinds of text", pts.len(), pts.iter().max().unwrap()), pts.len() as u64 * 70, |i, l| {
		let mut x = Dec(i); let p = *x.pick(&pads); let e = *x.pick(&ends); let k = pts[x.0 as usize]; if k > 16_385 && p.len() > 2 { return }
		note(&format!("{k} times {p:?}, then {e:?}")); l.step(1); check(&format!("{}{e}", p.repeat(k)), l); check(&format!("{e}{}", p.repeat(k)), l) });
}

// ------------------------------------------------------------------ C07
/// hexadecimal digits in alternating case
fn alternate(i: u64, k: usize) -> String { format!("{i:x}").chars().enumerate().map(|(j, c)| if (j + k) % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect() }
pub fn c07(run: &Run) {
	let check = |s: &str, l: &mut Local| {
		let Some(want) = decode_pub(s) else { l.outcome("outside the subset"); return };
		l.trace(); l.state(&want);
		let u = kiss_xml::unescape(s);
		if u != want { return l.fail(s, format!("unescape gives {u:?}, expected {want:?}")) }
		// the same text in every place it can stand
		let doc = format!("<r a=\"{0}\" b='{0}'>{0}<!--{0}--><![CDATA[{0}]]><e>{0}</e></r>", s);
		if s.contains(['<', '"', '\'']) || s.contains("]]>") || s.contains("-->") { return }
		let d = match parse(&doc) { Ok(d) => d, Err(e) => return l.fail(s, format!("{doc} refused: {e}")) };
		let mut root = ela("r", &[("a", &want), ("b", &want)], vec![t(&want), M::C(s.into()), M::D(s.into()), M::E(el("e", vec![t(&want)]))]);
		normalize(&mut root);
		let got = observe(d.root_element());
		if got != root { l.fail(s, format!("in {doc}: expected {}, got {}", show(&root), show(&got))) }
	};
	let toks = ["&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&#65;", "&#x41;", "&#9788;", "&#x263C;", "&#x263c;", "&", "amp;", "#", "x", ";", "☼", "a", "&unknown;", "&#;", "&#x;", "&#xG;",
		"&#99999999999;", "&#xD800;", "&AMP;", "&#+65;", "&#x+41;", " ", "&#0065;", "&#x1F600;", "&#128512;", "&#X41;", "&lt ;", "&#38;", "lt;", "&#x110000;", "é"];
	let k = run.t(4, 5);
	par_enum(run, "tokens", &format!("all sequences of at most {k} of {} references and near-references, in text, attributes, comments, CDATA", toks.len()), strings_upto(toks.len(), k), |i, l| {
		let s = nth_concat(&toks, i); l.step(1); note(&s); l.sample(|| s.clone()); check(&s, l) });
	let alpha = ["&", "#", "x", ";", "6", "5", "a", "l", "t", "m", "p", "g", "☼", "\u{1F600}", "F", "0"];
	let k = run.t(5, 6);
	par_enum(run, "chars", &format!("all strings of at most {k} of {} characters", alpha.len()), strings_upto(alpha.len(), k), |i, l| { let s = nth_concat(&alpha, i); l.step(1); note(&s); check(&s, l) });
	par_enum(run, "codepoints", "every code point up to 0x120000 as decimal and hexadecimal reference, alone and beside others", 0x120000, |i, l| {
		for s in [format!("&#{i};"), format!("&#x{i:x};"), format!("a&#x{i:X};&#x{i:06x};é&#{i:08};z"), format!("&#x{};&#x{};", alternate(i, 0), alternate(i, 1))] { note(&s); l.step(1); check(&s, l) }
	});
	par_enum(run, "scalars", "every Unicode scalar value beside references", SCALARS, |i, l| {
		let c = scalar(i); if !xml_char(c) { return }
		let s = format!("{c}&amp;{c}lt;&{c};&lt;{c}&#65;{c}"); note(&s); l.step(1); check(&s, l) });
	// everything one character away from a reference (quick), and two characters away
	let refs = ["&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&#65;", "&#x41;", "&#9788;", "&#x263C;", "&#x1F600;"];
	let chars: Vec<char> = (9..=10).chain(32..127).map(|c| c as u8 as char).chain(['é', '☼', '\u{a0}', '\u{1F600}', '\u{661}', '\u{ff11}']).collect();
	let edit = |s: &str, e: usize| -> Option<String> {
		// e < n: transpose/delete at; else replace or insert
		let v: Vec<char> = s.chars().collect(); let n = v.len();
		let mut v = v; let c = chars.len();
		if e < n { v.remove(e); } else if e < 2 * n { let p = e - n; if p + 1 >= n { return None } v.swap(p, p + 1); }
		else if e < 2 * n + n * c { let k = e - 2 * n; v[k / c] = chars[k % c]; } else if e < 2 * n + n * c + (n + 1) * c { let k = e - 2 * n - n * c; v.insert(k / c, chars[k % c]); }
		else if e < 2 * n + n * c + (n + 1) * c + n { let p = e - (2 * n + n * c + (n + 1) * c); v[p] = if v[p].is_ascii_lowercase() { v[p].to_ascii_uppercase() } else { v[p].to_ascii_lowercase() }; }
		else { return None }
		Some(v.into_iter().collect())
	};
	let m = 2000u64;
	par_enum(run, "near", "every deletion, transposition, replacement, insertion and change of case of one character in 10 references, alone and beside references", refs.len() as u64 * m, |i, l| {
		let Some(x) = edit(refs[(i / m) as usize], (i % m) as usize) else { return };
		for s in [x.clone(), format!("a{x}é"), format!("&lt;{x}&gt;"), format!("{x}{x}"), format!("&{x};"), format!("{x};&amp;{}", refs[(i / m) as usize])] { note(&s); l.step(1); check(&s, l) }
	});
	let m = if run.quick() { 400u64 } else { 2200 };
	par_enum(run, "near2", "two one-character edits (quick: the first a deletion, transposition or one of the first 380 replacements) of 10 references", refs.len() as u64 * m * 2000, |i, l| {
		let r = refs[(i / 2000 / m) as usize]; if run.quick() && r.len() > 6 { return }
		let Some(x) = edit(r, (i / 2000 % m) as usize) else { return };
		let Some(s) = edit(&x, (i % 2000) as usize) else { return };
		note(&s); l.step(1); check(&s, l)
	});
	// digits: leading zeros in any number, and long numbers
	let pts = { let mut v: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).collect(); v.reverse(); v };
	let nums = ["65", "9788", "128512", "38", "x41", "x263c", "x1F600", "x26", "0", "x0", "55296", "xD800", "1114112", "x110000", "4294967361", "x100000041", "18446744073709551681", "x10000000000000041", "6a", "xg", ""];
	par_enum(run, "zeros", &format!("21 numbers with {} amounts of zeros (up to {}) or other digits before them, alone and beside others", pts.len(), pts.iter().max().unwrap()), pts.len() as u64 * nums.len() as u64 * 2, |i, l| {
		let mut x = Dec(i); let n = *x.pick(&nums); let other = x.flag(); let k = pts[x.0 as usize];
		let z = if other { "1" } else { "0" }.repeat(k);
		let r = match n.strip_prefix('x') { Some(h) => format!("&#x{z}{h};"), None => format!("&#{z}{n};") };
		note(&format!("{k} {}, then {n}", if other { "ones" } else { "zeros" }));
		for s in [r.clone(), format!("a{r}&lt;"), format!("&{r};{r}")] { l.step(1); check(&s, l) }
	});
	par_enum(run, "far", &format!("12 references and near-references behind {} amounts (up to {}) of 5 kinds of text", pts.len(), pts.iter().max().unwrap()), pts.len() as u64 * 12 * 5, |i, l| {
		let mut x = Dec(i); let r = *x.pick(&["&amp;", "&lt;x", "&quot;&apos;", "&#65;", "&#x1F600;", "&amp;lt;", "&", "&x;", "&#;", "&amp", "&lt;&gt;", ";&amp"]); let pad = *x.pick(&["x", "\u{e9}\u{1F600}", "&amp;", "& ;", "lt;#"]); let k = pts[x.0 as usize]; if k > 16_385 && pad.len() > 2 { return }
		let s = format!("{}{r}{}", pad.repeat(k), pad.repeat(k % 3)); note(&format!("{k} times {pad:?}, then {r:?}")); l.step(1); check(&s, l) });
	let names = ["amp", "lt", "gt", "apos", "quot", "#65", "#x41", "#9788", "#x1F600"];
	par_enum(run, "lengths", "9 references repeated and spread, up to 600 times", 9 * 600 * 2, |i, l| {
		let mut x = Dec(i); let n = *x.pick(&names); let pad = x.flag(); let k = x.0 as usize;
		let s = if pad { format!("{}&{n};{}", "é ".repeat(k), "☼".repeat(k)) } else { format!("&{n};").repeat(k) };
		note(&s); l.step(1); check(&s, l) });
}

// ------------------------------------------------------------------ C08
pub const DECLS: [&[(&str, &str)]; 12] = [&[], &[("xmlns", "u")], &[("xmlns", "w")], &[("xmlns", "")], &[("xmlns:p", "u")], &[("xmlns:p", "v")], &[("xmlns:p", "v"), ("xmlns:q", "w")],
	&[("xmlns", "u"), ("xmlns:p", "v")], &[("xmlns", "w"), ("xmlns:q", "u")], &[("xmlns", ""), ("xmlns:p", "u")], &[("xmlns:q", "q")], &[("xmlns", "u"), ("xmlns:p", "w"), ("xmlns:q", "v")]];
pub const PREFIXES: [&str; 3] = ["", "p", "q"];
pub fn bound_all(e: &El) -> bool {
	fn go(e: &El, sc: &mut Vec<std::collections::BTreeSet<String>>) -> bool {
		sc.push(own_prefixes(e).into_keys().collect());
		let ok = (e.prefix.is_empty() || sc.iter().any(|s| s.contains(&e.prefix))) && e.els().all(|c| go(c, sc));
		sc.pop(); ok
	}
	go(e, &mut vec![])
}
/// everything an element says about namespaces
pub fn ns_view(e: &Element, m: &El, path: &str) -> Result<(), String> {
	let err = |what: &str, got: String, want: String| Err(format!("{path}/{}: {what} is {got}, expected {want}", m.tag()));
	if e.namespace() != m.ns { return err("namespace()", format!("{:?}", e.namespace()), format!("{:?}", m.ns)) }
	let p = if m.prefix.is_empty() { None } else { Some(m.prefix.clone()) };
	if e.namespace_prefix() != p { return err("namespace_prefix()", format!("{:?}", e.namespace_prefix()), format!("{p:?}")) }
	if e.name() != m.name || e.tag_name() != m.tag() { return err("name", format!("{} {}", e.name(), e.tag_name()), m.tag()) }
	if m.prefix.is_empty() && e.default_namespace() != m.ns { return err("default_namespace()", format!("{:?}", e.default_namespace()), format!("{:?}", m.ns)) }
	let own = own_prefixes(m);
	let got: std::collections::BTreeMap<String, String> = e.namespace_prefixes().unwrap_or_default().into_iter().collect();
	if got != own { return err("namespace_prefixes()", format!("{got:?}"), format!("{own:?}")) }
	let a: Vec<&Element> = e.child_elements().collect(); let b: Vec<&El> = m.els().collect();
	if a.len() != b.len() { return err("number of child elements", a.len().to_string(), b.len().to_string()) }
	for (x, y) in a.into_iter().zip(b) { ns_view(x, y, &format!("{path}/{}", m.tag()))?; }
	Ok(())
}
/// adds nodes and attributes that have nothing to do with namespaces
fn c08_noise(e: &mut El, noise: usize, depth: usize) {
	let leaf = e.els().next().is_none();
	match noise {
		1 => { e.attrs.insert("k".into(), "v".into()); }
		2 => if leaf { e.attrs.insert("z".into(), "v".into()); },
		3 => { e.kids.insert(0, M::T("x".into())); e.kids.push(M::C("<a xmlns='no'>".into())); }
		4 => if !leaf { e.attrs.insert("xml:lang".into(), "xmlns='no'".into()); e.kids.push(M::D("<a xmlns='no'>".into())); },
		_ => if depth % 2 == 1 { e.attrs.insert("a:xmlns".into(), "no".into()); e.attrs.insert("Xmlns".into(), "no".into()); e.kids.push(M::T("y".into())); },
	}
	for k in &mut e.kids { if let M::E(c) = k { c08_noise(c, noise, depth + 1) } }
}
pub fn c08(run: &Run) {
	let mk = |v: usize, kids: Vec<M>| { let mut e = ela("e", DECLS[v / 3], kids); e.prefix = PREFIXES[v % 3].into(); e };
	// what surrounds the elements must not matter: other attributes, text, comments, spelling of the tags
	let styles = [PLAIN, Style { order: 1, quote: 1, gap: 2, pair: true, ..PLAIN }, Style { quote: 1, tail: 1, ..PLAIN }, Style { quote: 2, eq: 3, order: 2, layout: 2, ..PLAIN }];
	let noises = run.t(4usize, 6);
	let check = |root: El, sp: &str, l: &mut Local| {
		if !bound_all(&root) { l.outcome("unbound prefix (skipped)"); return }
		let root = annotated(root);
		l.state(&root);
		for noise in 0..noises {
			let mut r = root.clone();
			if noise > 0 { c08_noise(&mut r, noise, 0); }
			for st in &styles {
				let s = rendered(&r, st); note(&s); l.trace(); l.sample(|| s.clone());
				match parse(&s) {
					Err(e) => return l.fail(s, format!("refused: {e}")),
					Ok(d) => if let Err(m) = ns_view(d.root_element(), &r, "") { return l.fail(s, format!("{sp}: {m}")) }
				}
			}
		}
	};
	let n = 36usize;
	let depth = run.t(3u32, 4);
	par_enum(run, "chains", &format!("all chains of {depth} nested elements with 12 declaration sets and 3 prefixes each"), (n as u64).pow(depth), |i, l| {
		let mut x = Dec(i); let mut kids = vec![];
		for _ in 0..depth { kids = vec![M::E(mk(x.take(n), kids))]; }
		let M::E(root) = kids.pop().unwrap() else { unreachable!() };
		l.step(depth as u64); check(root, "chain", l);
	});
	let sp = ForestSpace::new(1, run.t(3, 4), run.t(18, 18), run.t(18, 18));
	// 6 declaration sets x 3 prefixes on every node of every shape
	let few = [0usize, 1, 3, 5, 6, 11];
	let mk6 = |v: usize, kids: Vec<M>| mk(few[v / 3] * 3 + v % 3, kids);
	par_enum(run, "trees", &format!("all trees of at most {} elements below 3 roots, 6 declaration sets and 3 prefixes per element", run.t(3, 4)), sp.total * 3, |i, l| {
		let kids = sp.get(i / 3, &|v, _| M::E(mk6(v, vec![])), &|v, _, k| M::E(mk6(v, k)));
		let mut root = ela("r", DECLS[[0, 7, 11][(i % 3) as usize]], kids);
		root.name = "r".into();
		l.step(root.count() as u64); check(root, "tree", l);
	});
	// long chains: the binding in force must come from the right ancestor whatever the distance
	let mut gaps: Vec<usize> = (0..run.t(20, 140)).collect(); for n in run.t(vec![24usize, 31, 32, 33, 48, 63, 64, 65, 100, 129], vec![199, 200, 201, 255, 256, 257, 300]) { gaps.push(n) }
	par_enum(run, "distance", &format!("declaration, shadowing and use up to {} levels apart, through prefixed and unprefixed elements", gaps.last().unwrap()), gaps.len() as u64 * 2 * 12 * 12, |i, l| {
		let mut x = Dec(i); let pre = x.flag(); let d1 = x.take(12); let d2 = x.take(12); let n = gaps[gaps.len() - 1 - x.0 as usize];
		if n > 70 && (d1 % 3 != 0 || d2 % 3 != 0) { return }
		let leaf = |p: &str| M::E(El { prefix: p.into(), name: "leaf".into(), ..Default::default() });
		let mut kids = vec![leaf(""), leaf("p"), leaf("q")];
		let filler = |k: Vec<M>| vec![M::E(El { prefix: if pre { "z".into() } else { String::new() }, name: "f".into(), kids: k, ..Default::default() }), leaf("p")];
		for _ in 0..n / 2 { kids = filler(kids); }
		kids = vec![leaf("q"), M::E(ela("m", DECLS[d2], kids)), leaf("")];
		for _ in 0..n - n / 2 { kids = filler(kids); }
		let mut root = ela("r", DECLS[d1], kids);
		root.attrs.insert("xmlns:z".into(), "zz".into());
		if !root.attrs.contains_key("xmlns:p") { root.attrs.insert("xmlns:p".into(), "pp".into()); }
		if !root.attrs.contains_key("xmlns:q") { root.attrs.insert("xmlns:q".into(), "qq".into()); }
		l.step(n as u64); check(root, "distance", l);
	});
	// prefix and URI spellings
	let names = ["p", "P", "pp", "xmlnsx", "ns-1", "a.b", "_", "é", "default", "x"];
	let uris = ["u", "http://a/b?c=d&e=f#g", "U", " ", "urn:x:y", "é☼", "<>\"'", "xmlns"];
	par_enum(run, "spellings", "all pairs of 10 prefixes with 8 URIs each", 100 * 64, |i, l| {
		let mut x = Dec(i); let (a, b) = (*x.pick(&names), *x.pick(&names)); let (u, v) = (*x.pick(&uris), *x.pick(&uris));
		let mk = |p: &str, k: Vec<M>| M::E(El { prefix: p.into(), name: "e".into(), kids: k, ..Default::default() });
		let mut root = ela("r", &[(&format!("xmlns:{a}"), u)], vec![mk(a, vec![]), mk("", vec![])]);
		let mut inner = ela("i", &[(&format!("xmlns:{b}"), v), ("xmlns", u)], vec![mk(a, vec![mk(b, vec![]), mk("", vec![])]), mk(b, vec![])]);
		inner.prefix = b.into();
		root.kids.push(M::E(inner)); root.kids.push(mk(a, vec![]));
		l.step(1); check(root, "spelling", l);
	});
	// namespace names of every form: as default, by prefix, inherited and overridden
	let toks = ["a", "&", "<", ">", "\"", "'", "A", " ", "/", "%20", "\u{e9}", "amp;", "\t", "\n"];
	let k = run.t(3, 4);
	par_enum(run, "values", &format!("all namespace names of at most {k} of {} tokens, as default, by prefix, inherited and overridden", toks.len()), strings_upto(toks.len(), k), |i, l| {
		let u = nth_concat(&toks, i); if u.is_empty() { return }
		let p = |n: &str, k: Vec<M>| M::E(El { prefix: "p".into(), name: n.into(), kids: k, ..Default::default() });
		let both = [("xmlns", u.as_str()), ("xmlns:p", u.as_str())];
		l.step(3);
		check(ela("r", &both, vec![p("a", vec![M::E(el("b", vec![])), p("c", vec![])]), M::E(ela("d", &[("xmlns", "u"), ("k", &u)], vec![p("e", vec![])]))]), "value", l);
		check(ela("r", &[("xmlns", "u"), ("xmlns:p", "v")], vec![M::E(El { prefix: "p".into(), ..ela("a", &both, vec![M::E(el("b", vec![]))]) }), p("z", vec![])]), "value", l);
	});
	// how many declarations are in scope
	let pts: Vec<usize> = (1..run.t(40, 130)).chain(size_points(run).into_iter().filter(|n| (1..=run.t(300, 1100)).contains(n))).collect();
	par_enum(run, "many", &format!("up to {} declarations in scope, on one element or spread over ancestors, all in use", pts.iter().max().unwrap()), pts.len() as u64 * 4, |i, l| {
		let mut x = Dec(i); let way = x.take(4); let n = pts[pts.len() - 1 - x.0 as usize];
		let name = |k: usize| format!("q{k}"); let uri = |k: usize| format!("u{}", k / 2);
		let uses: Vec<M> = (0..n).map(|k| M::E(El { prefix: name(k), name: "e".into(), ..Default::default() })).chain([M::E(el("e", vec![]))]).collect();
		let decl = |e: &mut El, ks: std::ops::Range<usize>| for k in ks { e.attrs.insert(format!("xmlns:{}", name(k)), uri(k)); };
		let mut root = el("r", uses);
		if n <= 300 || way == 0 { match way {
			0 => decl(&mut root, 0..n),
			1 => { decl(&mut root, 0..n / 2); let mut o = el("o", vec![]); decl(&mut o, n / 2..n); o.attrs.insert("xmlns".into(), "d".into()); o.kids.push(M::E(root)); root = o; }
			2 => for k in 0..n { if k % 3 == 0 { let mut o = el("o", vec![]); o.kids.push(M::E(root)); root = o; } decl(&mut root, k..k + 1); },
			_ => { decl(&mut root, 0..n); let mut o = el("o", vec![]); for k in 0..n { o.attrs.insert(format!("xmlns:{}", name(k)), "outer".into()); } o.kids = vec![M::E(root), M::E(El { prefix: name(n - 1), name: "e".into(), ..Default::default() })]; root = o; }
		} } else { return }
		l.step(n as u64); check(root, "many", l);
	});
	// prefixes of every form, with every kind of URI, declared by the first to the tenth attribute
	let chars = ["a", "_", "-", ".", "1", "\u{e9}", "x", "xmlns", "xml", "A"];
	let k = run.t(3, 4);
	let prefixes: Vec<String> = (0..strings_upto(chars.len(), k)).map(|i| nth_concat(&chars, i)).filter(|s| is_ncname(s) && !s.to_lowercase().starts_with("xml")).chain(size_points(run).into_iter().filter(|n| *n > 3 && *n <= 4097).flat_map(|n| ["n", "p-_."].iter().map(move |u| u.chars().cycle().take(n).collect::<String>()).collect::<Vec<_>>())).rev().collect();
	let uris = ["u", "w", "http://example.org/a?b=c&d", " ", "\u{e9}", "xmlns"];
	par_enum(run, "prefixes", &format!("{} prefixes (all of at most {k} of 10 tokens, and {} lengths) x 6 URIs, declared as first to tenth attribute", prefixes.len(), size_points(run).len()), prefixes.len() as u64 * 6 * 10, |i, l| {
		let mut x = Dec(i); let u = *x.pick(&uris); let at = x.take(10); let p = prefixes[x.0 as usize].as_str();
		if p.len() > 100 && at > 1 { return }
		let esc = esc_full(u); let others = |from: usize, n: usize| (from..from + n).map(|k| match k % 4 { 0 => format!(" a{k}='v'"), 1 => format!(" xmlns:n{k}=\"z{k}\""), 2 => format!(" {p}{k}='{k}'"), _ => format!(" n{k}:b='>'") }).collect::<String>();
		let s = format!("<r xmlns:{p}='other' xmlns:n3='x' xmlns:n7='y'><{p}:e{} xmlns:{p}=\"{esc}\"{} {p}:k='1'><{p}:f/><g><{p}:h xmlns='{esc}'><i/></{p}:h></g></{p}:e><{p}:j/></r>", others(0, at), others(at, 9 - at));
		note(&s); l.step(1); l.trace(); l.state(&(p, u, at));
		let r = recognise(&s); let R::Doc(want) = r else { panic!("MODEL ERROR: {s}: {r:?}") };
		match parse(&s) { Err(e) => l.fail(s, format!("refused: {e}")), Ok(d) => if let Err(m) = ns_view(d.root_element(), &want.root, "") { l.fail(s, m) } }
	});
	tokens(run, "tokens/ns", 0, |s, l| {
		let R::Doc(want) = verdict(s, l) else { return };
		l.trace();
		match parse(s) { Err(e) => l.fail(s, format!("refused: {e}")), Ok(d) => if let Err(m) = ns_view(d.root_element(), &want.root, "") { l.fail(s, m) } }
	});
}

// ------------------------------------------------------------------ C18
fn tokens_space<F>(run: &Run, f: F) where F: Fn(&str, &mut Local) + Sync {
	let toks = [" ", "\n", "\t", "\r", "x", " y ", "\u{a0}", "&#32;", "<b/>", "<c> </c>", "<c>\n z</c>", "<!--c-->", "<![CDATA[ ]]>", "\u{2003}", "<c> <d/> </c>"];
	let ctx = [("<r>", "</r>"), ("<r>t <m>", "</m></r>"), ("<r>\n<m>", "</m>\n</r>")];
	let k = run.t(4, 5);
	let n = strings_upto(toks.len(), k);
	par_enum(run, "space", &format!("all sequences of at most {k} of {} pieces of content in 3 surroundings", toks.len()), n * 3, |i, l| {
		let (a, b) = ctx[(i % 3) as usize];
		let s = format!("{a}{}{b}", nth_concat(&toks, i / 3)); l.step(1); note(&s); f(&s, l)
	});
}
pub fn c18(run: &Run) {
	let f = |s: &str, l: &mut Local| {
		let R::Doc(want) = verdict(s, l) else { return };
		l.trace();
		match parse(s) {
			Err(e) => l.fail(s, format!("refused: {e}")),
			Ok(d) => { let got = observe(d.root_element()); if got != want.root { l.fail(s, format!("expected {}, got {}", show(&want.root), show(&got))) } }
		}
	};
	tokens_space(run, &f);
	tokens(run, "tokens/content", 0, &f);
	par_enum(run, "scalars", "every Unicode scalar value as whole content, at the edges of content, between tags with and without other text", SCALARS, |i, l| {
		let c = scalar(i); if !xml_char(c) || c == '<' || c == '&' { return }
		for s in [format!("<r>{c}</r>"), format!("<r>{c}x{c}</r>"), format!("<r><b/>{c}<b/></r>"), format!("<r>x<b/>{c}<b>{c}</b>{c}</r>")] { note(&s); l.step(1); f(&s, l) }
	});
	let ws = [" ", "\n", "\t", "\r", "\r\n", "\n  ", "\n\t\t"];
	par_enum(run, "runs", "7 kinds of space repeated up to 300 times around and between text and tags", 7 * 301 * 5, |i, l| {
		let mut x = Dec(i); let w = *x.pick(&ws); let k = x.take(5); let w = w.repeat(x.0 as usize);
		let s = match k { 0 => format!("<r>{w}<b/>{w}</r>"), 1 => format!("<r>{w}t{w}<b>{w}</b>{w}</r>"), 2 => format!("<r>t<b/>{w}<b/>{w}</r>"), 3 => format!("{w}<r>{w}</r>{w}"), _ => format!("<r><b/>{w}&amp;{w}<c>{w}<d/>{w}</c></r>") };
		note(&s); l.step(1); f(&s, l)
	});
	content_texts(run, &f);
	let pts = { let mut v: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).collect(); v.reverse(); v };
	par_enum(run, "far", &format!("blank and other text at the ends and in the middle of {} amounts (up to {}) of 6 kinds of content", pts.len(), pts.iter().max().unwrap()), pts.len() as u64 * 6 * 8 * 3, |i, l| {
		let mut x = Dec(i); let pad = *x.pick(&[" ", "\n\t", " <b/>", "<c> </c>\n", "<!--c--> ", "<![CDATA[d]]>\r\n"]); let s = *x.pick(&["t", " ", "\u{a0}", "&#32;", "&amp;", "\r", " t ", "\u{2003}\n"]); let at = x.take(3); let n = pts[x.0 as usize];
		if n > 16_385 && pad.len() > 2 { return }
		let a = match at { 0 => 0, 1 => n / 2, _ => n };
		let s = format!("<r>{}{s}{}</r>", pad.repeat(a), pad.repeat(n - a)); note(&format!("{n} {pad:?}, {at}")); l.step(1); f(&s, l)
	});
	// many siblings, text at one position only
	let n = run.t(60u64, 300);
	par_enum(run, "position", &format!("one text among up to {n} children separated by space, at every position"), n * n, |i, l| {
		let (k, at) = (i / n, i % n); if at > k { return }
		let s = format!("<r>{}</r>", (0..k).map(|j| format!(" {}<b/>", if j == at { "t" } else { "" })).collect::<String>());
		note(&s); l.step(1); f(&s, l)
	});
}

// ------------------------------------------------------------------ C20
pub fn c20(run: &Run) {
	let decls = ["<?xml version=\"1.0\"?>", "<?xml version='1.1' encoding='UTF-8' standalone=\"yes\" ?>", "<?xml\tversion = \"1.0\"\n?>"];
	let dtds = ["<!DOCTYPE r>", "<!DOCTYPE note SYSTEM \"a>b.dtd\">", "<!DOCTYPE r [\n<!ENTITY a \"<b>\">\n<!ELEMENT r (#PCDATA)>\n]>", "<!DOCTYPE r [<!-- don't > \"stop\" --><!ATTLIST r k CDATA 'x>y'>]>", "<!DOCTYPE r PUBLIC '-//é//\"☼' 'u'  >",
		"<!DOCTYPE\nr [\n<!NOTATION n SYSTEM 'a'>\t]\n>", "<!DOCTYPE r [<![INCLUDE[<!ELEMENT a ANY>]]>]>"];
	let junk = ["<!-- c -->", "<!---->", "<!-- <r> > -- ' -->", "\n", " ", "<!ELEMENT r ANY>", "<?xml-stylesheet href=\"a.css\"?>", "<?pi x?>"];
	let mut items: Vec<&str> = vec![]; items.extend(decls); items.extend(dtds); items.extend(junk);
	let after = ["", "\n", "<!-- after -->", " <!-- a --><!-- \" --> \n", "<?pi?>"];
	let k = run.t(4, 5);
	let n = strings_upto(items.len(), k);
	par_enum(run, "prologs", &format!("all sequences of at most {k} of {} prolog items, with {} endings", items.len(), after.len()), n * after.len() as u64, |i, l| {
		let seq = nth_string(&items, i / after.len() as u64); let end = after[(i % after.len() as u64) as usize];
		let s = format!("{}<r k='v'><e/></r>{end}", seq.iter().map(|x| **x).collect::<String>());
		note(&s); l.step(seq.len() as u64);
		// must it be accepted? (only what the properties support)
		let plain = format!("{}<r k='v'><e/></r>{end}", seq.iter().map(|x| if x.starts_with("<?p") || x.starts_with("<?xml-") { "<!---->" } else { **x }).collect::<String>());
		let must = matches!(recognise(&plain), R::Doc(_));
		// what it must then contain: a declaration counts only as the very first thing
		let decl = seq.first().filter(|x| decls.contains(x)).map(|x| x.to_string());
		let later_decl = seq.iter().skip(1).any(|x| decls.contains(x));
		let want = Doc { decl, dtds: seq.iter().filter(|x| dtds.contains(x)).map(|x| x.to_string()).collect(), root: ela("r", &[("k", "v")], vec![M::E(el("e", vec![]))]) };
		l.state(&want); l.sample(|| s.clone());
		match parse(&s) {
			Err(e) => { l.outcome("refused"); if must { l.fail(s, format!("refused: {e}")) } }
			Ok(d) => {
				l.trace(); l.outcome("accepted");
				let mut got = observe_doc(&d);
				if later_decl && seq.iter().take_while(|x| !decls.contains(x)).all(|x| x.trim().is_empty()) && want.decl.is_none() { got.decl = None } // space before the declaration is not specified
				if got != want { return l.fail(s, diff(&want, &got)) }
				let head: String = want.decl.iter().chain(&want.dtds).map(|x| format!("{x}\n")).collect();
				let out = d.to_string();
				if d.declaration().is_some() == want.decl.is_some() && !out.starts_with(&format!("{head}<r ")) { return l.fail(s, format!("written as {out:?}")) }
				match parse(&out) { Ok(d2) if d2 == d && observe_doc(&d2) == observe_doc(&d) => {}, Ok(d2) => l.fail(s, format!("read back: {}", diff(&observe_doc(&d), &observe_doc(&d2)))), Err(e) => l.fail(s, format!("own output {out:?} refused: {e}")) }
			}
		}
	});
	// many DTDs, the same again or different ones, read and set
	let sizes: Vec<usize> = size_points(run).into_iter().filter(|n| *n <= run.t(1025, 4097)).rev().collect();
	par_enum(run, "many", &format!("{} numbers of DTDs (up to {}) in 6 patterns of repetition, with 3 kinds of separation, read and set", sizes.len(), sizes[0]), (sizes.len() * 6 * 3) as u64, |i, l| {
		let mut x = Dec(i); let pat = x.take(6); let sep = x.take(3); let n = sizes[x.0 as usize];
		let all: Vec<String> = (0..n).map(|k| match pat { 0 => dtds[2].to_string(), 1 => dtds[k % 2].to_string(), 2 => format!("<!DOCTYPE d{k}>"), 3 => if k + 1 == n { "<!DOCTYPE d0>".into() } else { format!("<!DOCTYPE d{k}>") }, 4 => if k < n / 2 { dtds[3].into() } else { format!("<!DOCTYPE d{k} [ <!-- > --> ]>") }, _ => format!("<!DOCTYPE d{} SYSTEM '{}'>", k % 7, k % 5) }).collect();
		let s = format!("<?xml version='1.1'?>{}<r k='v'/>", all.iter().enumerate().map(|(k, d)| match sep { 0 => d.clone(), 1 => format!("\n{d}"), _ => format!("{d}{}", ["<!-- c -->", " \n", ""][k % 3]) }).collect::<String>());
		let case = format!("{n} DTDs, pattern {pat}, separation {sep}"); note(&case); l.step(1); l.trace(); l.state(&i); l.outcome("accepted");
		let want = Doc { decl: Some("<?xml version='1.1'?>".into()), dtds: all.clone(), root: ela("r", &[("k", "v")], vec![]) };
		let differ = |g: &Doc| format!("{} DTDs, first other one at {:?}", g.dtds.len(), g.dtds.iter().zip(&all).position(|(a, b)| a != b));
		let read = match parse(&s) { Err(e) => return l.fail(case, format!("refused: {e}")), Ok(d) => { let g = observe_doc(&d); if g != want { return l.fail(case, format!("read: {}", differ(&g))) } d } };
		let v: Vec<DTD> = all.iter().map(|t| DTD::from_string(t.as_str()).unwrap()).collect(); let de = || Some(Declaration::from_str("<?xml version='1.1'?>").unwrap());
		let made = Document::new_with_decl_dtd(build(&want.root), de(), Some(&v)); let mut set = Document::new(build(&want.root)); set.set_declaration(de()); set.set_doctype_defs(Some(&v));
		for (what, d) in [("read", &read), ("made", &made), ("set", &set)] {
			let g = observe_doc(d); if g != want { return l.fail(case, format!("{what}: {}", differ(&g))) }
			if *d != read { return l.fail(case, format!("{what}: not equal to the one that was read")) }
			let out = d.to_string(); if out != print_doc(&want, "  ") { return l.fail(case, format!("{what}: written differently")) }
			if !parse(&out).is_ok_and(|x| x == *d) { return l.fail(case, format!("{what}: not read back")) }
		}
	});
	// text inside declarations and DTDs, by token
	let toks = [" ", "\"", "'", "<", ">", "[", "]", "<!--", "-->", "x", "é", "<!ENTITY e '>'>", "&amp;", "-", "\n", "--"];
	let k = run.t(4, 5);
	par_enum(run, "dtd-text", &format!("all DTDs of at most {k} of {} tokens", toks.len()), strings_upto(toks.len(), k) * 2, |i, l| {
		let body = nth_concat(&toks, i / 2);
		let s = if i % 2 == 0 { format!("<!DOCTYPE r {body}><r/>") } else { format!("<?xml version=\"1.0\"?>\n<!DOCTYPE a><!DOCTYPE r [{body}]>\n<r/>") };
		note(&s); l.step(1);
		let R::Doc(want) = verdict(&s, l) else { return };
		l.trace();
		match parse(&s) {
			Err(e) => l.fail(s, format!("refused: {e}")),
			Ok(d) => {
				let got = observe_doc(&d); if got != want { return l.fail(s, diff(&want, &got)) }
				let out = d.to_string();
				if out != print_doc(&want, "  ") { return l.fail(s, format!("written as {out:?}")) }
				if !parse(&out).is_ok_and(|x| x == d) { l.fail(s, format!("own output {out:?} not read back")) }
			}
		}
	});
	tokens(run, "tokens/prolog", 0, |s, l| { let R::Doc(want) = verdict(s, l) else { return }; l.trace(); match parse(s) { Err(e) => l.fail(s, format!("refused: {e}")), Ok(d) => { let g = observe_doc(&d); if g != want { l.fail(s, diff(&want, &g)) } } } });
	tokens(run, "tokens/epilog", 0, |s, l| { let R::Doc(want) = verdict(s, l) else { return }; l.trace(); match parse(s) { Err(e) => l.fail(s, format!("refused: {e}")), Ok(d) => { let g = observe_doc(&d); if g != want { l.fail(s, diff(&want, &g)) } } } });
	// setting and clearing through the API, as operation histories
	let mut ops: Vec<(u8, Option<usize>, Vec<usize>)> = vec![(0, None, vec![])];
	for d in 0..decls.len() { ops.push((0, Some(d), vec![])) }
	ops.push((1, None, vec![]));
	for a in 0..dtds.len() { ops.push((2, None, vec![a])) }
	for a in 0..3 { for b in 0..3 { ops.push((2, None, vec![a, b])) } }
	ops.push((2, None, vec![])); ops.push((2, None, vec![6, 5, 4, 3]));
	ops.push((3, None, vec![])); ops.push((4, None, vec![1])); ops.push((4, Some(0), vec![4])); ops.push((4, Some(1), vec![0])); ops.push((5, None, vec![]));
	// reading and writing in between, and making the document anew from its parts
	ops.push((6, None, vec![])); ops.push((7, None, vec![]));
	let depth = run.t(4, 5);
	for start in 0..4u64 {
		bfs(run, &format!("set/{start}"), &format!("all histories of at most {depth} calls that set, replace, edit or clear the declaration or DTDs or edit the root"), ops.len(), depth, true, |path, l| {
			let mut m = Doc { decl: None, dtds: vec![], root: el("r", vec![]) };
			let mut d = match start {
				0 => { m.decl = Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()); Document::new(build(&m.root)) }
				1 => Document::new_with_decl_dtd(build(&m.root), None, None),
				2 => { m.decl = Some(decls[1].into()); m.dtds = vec![dtds[2].into(), dtds[3].into()]; Document::new_with_decl_dtd(build(&m.root), Some(Declaration::from_str(decls[1]).unwrap()), Some(&[DTD::from_string(dtds[2]).unwrap(), DTD::from_string(dtds[3]).unwrap()])) }
				_ => { m.decl = Some(decls[0].into()); m.dtds = vec![dtds[1].into()]; parse(&format!("{}\n{}<r/>", decls[0], dtds[1])).expect("start document") }
			};
			for &o in path {
				let (k, de, dt) = &ops[o as usize];
				match k {
					0 => { m.decl = de.map(|i| decls[i].to_string()); d.set_declaration(de.map(|i| Declaration::from_str(decls[i]).unwrap())); }
					1 => { m.dtds.clear(); d.set_doctype_defs(None); }
					2 => { m.dtds = dt.iter().map(|i| dtds[*i].to_string()).collect(); let v: Vec<DTD> = dt.iter().map(|i| DTD::from_string(dtds[*i]).unwrap()).collect(); d.set_doctype_defs(Some(&v)); }
					3 => { m.root.kids.push(M::E(el("n", vec![]))); d.root_element_mut().append(Element::new_from_name("n").unwrap()); }
					4 => { for (x, y) in d.doctype_defs_mut().zip(m.dtds.iter_mut()).enumerate().filter(|x| de.is_none() || *de == Some(x.0)).map(|x| x.1) { *x = DTD::from_string(dtds[dt[0]]).unwrap(); *y = dtds[dt[0]].into(); } }
					6 => { let _ = (d.to_string(), d.to_string_with_indent("\t"), d.declaration().is_some(), d.doctype_defs().count(), d == d); }
					7 => { d = Document::new_with_decl_dtd(d.root_element().clone(), d.declaration().clone(), Some(&d.doctype_defs().cloned().collect::<Vec<_>>())); }
					_ => { m.root.attrs.insert("k".into(), "v".into()); d.root_element_mut().set_attr("k", "v").unwrap(); }
				}
			}
			l.trace();
			let case = format!("start {start}, calls {path:?}");
			note(&case);
			let got = observe_doc(&d);
			if got != m { l.fail(case, diff(&m, &got)); return None }
			let listed: Vec<String> = d.doctype_defs_mut().map(|x| x.to_string()).collect();
			if listed != m.dtds { l.fail(case, format!("doctype_defs_mut() lists {listed:?}, expected {:?}", m.dtds)); return None }
			let out = d.to_string();
			if out != print_doc(&m, "  ") { l.fail(case, format!("written as {out:?}")); return None }
			match parse(&out) { Ok(x) if x == d && observe_doc(&x) == m => {}, Ok(x) => { l.fail(case, format!("read back: {}", diff(&m, &observe_doc(&x)))); return None } Err(e) => { l.fail(case, format!("own output {out:?} refused: {e}")); return None } }
			Some(h128(&m))
		});
	}
	// the constructors take any text: what they accept is kept as it is and can be read again, the rest is refused
	let held = |s: &str, l: &mut Local| {
		note(s); l.step(1); l.state(s);
		let prologs = [(Declaration::from_str(s).ok(), None), (None, DTD::from_string(s).ok())];
		for (k, (de, dt)) in prologs.into_iter().enumerate() {
			let what = ["declaration", "DTD"][k];
			let kept = de.as_ref().map(|x| x.to_string()).or(dt.as_ref().map(|x| x.to_string()));
			// what the reference parser takes for one declaration or DTD must be accepted
			let must = match recognise(&format!("{s}<r/>")) { R::Doc(d) => (k == 0 && d.decl.as_deref() == Some(s) && d.dtds.is_empty()) || (k == 1 && d.decl.is_none() && d.dtds == [s.to_string()]), _ => false };
			let Some(kept) = kept else { l.outcome("refused"); if must { return l.fail(s, format!("refused as a {what}")) } continue };
			l.outcome("accepted"); l.trace();
			if kept != s.trim() && kept != s.trim_matches([' ', '\t', '\r', '\n']) { return l.fail(s, format!("accepted as a {what}, kept as {kept:?}")) }
			for front in [false, true] {
				let mut want = Doc { decl: None, dtds: vec![], root: ela("r", &[], vec![]) };
				let (mut dd, mut tt) = (de.clone(), dt.clone().into_iter().collect::<Vec<_>>());
				if front { dd = dd.or(Some(Declaration::new())); tt.push(DTD::from_string("<!DOCTYPE z [\n]>").unwrap()); }
				want.decl = dd.as_ref().map(|x| x.to_string()); want.dtds = tt.iter().map(|x| x.to_string()).collect();
				let doc = Document::new_with_decl_dtd(build(&want.root), dd, Some(&tt));
				let out = doc.to_string();
				if out != print_doc(&want, "  ") { return l.fail(s, format!("a document with this {what} is written as {out:?}")) }
				match parse(&out) { Ok(x) if observe_doc(&x) == want && x == doc => {}, Ok(x) => return l.fail(s, format!("accepted as a {what}, {out:?} is read as another document: {}", diff(&want, &observe_doc(&x)))), Err(e) => return l.fail(s, format!("accepted as a {what}, but {out:?} is refused: {e}")) }
			}
		}
	};
	let toks = ["<?xml", "?>", "<!DOCTYPE", " r", ">", "<", "\"", "'", " ", "[", "]", "<!--", "-->", " version=\"1.0\"", "?", "x", "\n", "<r/>", "\u{a0}", "é", "!", "</r>"];
	let k = run.t(4, 5);
	par_enum(run, "constructor-text", &format!("all texts of at most {k} of {} tokens, given to the constructors of declarations and DTDs", toks.len()), strings_upto(toks.len(), k), |i, l| held(&nth_concat(&toks, i), l));
	let k2 = run.t(4, 6);
	let toks = ["<", ">", "\"", "'", "<!--", "-->", "[", "]", "-", " ", "?>", "<?"];
	par_enum(run, "constructor-inner", &format!("the same, for at most {k2} of {} tokens inside of a declaration or DTD", toks.len()), strings_upto(toks.len(), k2) * 2, |i, l| { let x = nth_concat(&toks, i / 2); held(&if i % 2 == 0 { format!("<?xml {x}?>") } else { format!("<!DOCTYPE r {x}>") }, l) });
	let wraps = ["<?xml@?>", "<?xml @?>", "<?xm@?>", "<!DOCTYPE@>", "<!DOCTYPE @>", "@<!DOCTYPE r>", "<?xml a?>@", "<!DOCTYPE '@'>", "@"];
	par_enum(run, "constructor-scalars", "every Unicode scalar value in 9 places of a declaration or DTD", SCALARS * 9, |i, l| held(&wraps[(i % 9) as usize].replace('@', &scalar(i / 9).to_string()), l));
	sizes_only(run, &["prolog", "decl"], |s, l| { let R::Doc(want) = verdict(s, l) else { return }; l.trace(); match parse(s) { Err(e) => l.fail(&s[..s.len().min(200)], format!("refused: {e}")), Ok(d) => { let g = observe_doc(&d); if g != want { l.fail(&s[..s.len().min(200)], diff(&want, &g)) } } } });
}
pub fn sizes_only<F>(run: &Run, kinds: &[&str], f: F) where F: Fn(&str, &mut Local) + Sync {
	let pts: Vec<usize> = large_points(run).into_iter().rev().chain(size_points(run)).collect();
	let k = kinds.len() as u64;
	par_enum(run, "sizes", &format!("{kinds:?} at {} sizes up to {}", pts.len(), pts[0]), k * pts.len() as u64, |i, l| {
		let (kind, n) = (kinds[(i % k) as usize], pts[(i / k) as usize]);
		if n > size_cap(kind) { return }
		let s = sized(kind, n); l.step(1); note(&format!("{kind} of size {n}")); f(&s, l) });
}

// ------------------------------------------------------------------ C25
pub fn c25(run: &Run) {
	let vals = ["v", "", "a'b", "a\"b", "x = y", "/>", "<&>", " s p ", "=", "a=\"b\"", "a='b'", "\n\t", ">", "é☼", "/", "k=", "'\"'", "&amp;"];
	// every style on documents with one or two attributes over all pairs of values
	let nv = vals.len() as u64;
	let k = run.t(STYLES / 9, STYLES);
	let stride = run.t(9u64, 1);
	par_enum(run, "styles", &format!("{} spellings (quotes, space around =, between and after attributes, order, references, empty-element form, layout) of {} rich documents", k, 3 * nv), k * nv, |i, l| {
		let v = (i % nv) as usize;
		let st = style((i / nv) * stride % STYLES + if stride > 1 { (i / nv) % stride } else { 0 });
		for shape in 0..3usize {
			let (a, b) = (vals[v], vals[(v + shape * 5 + 1) % vals.len()]);
			let root = match shape {
				0 => ela("r", &[("k", a), ("m", b), ("a-b", "1")], vec![]),
				1 => ela("r", &[("b", a)], vec![M::E(ela("e", &[("x", b), ("y", a)], vec![])), M::E(el("f", vec![])), M::C(" c ".into())]),
				_ => ela("r", &[("xmlns", "u"), ("xmlns:p", "v"), ("p:k", a)], vec![t("t"), M::E(ela("e", &[("q", b)], vec![t(" z ")])), M::E(el("g", vec![]))]),
			};
			let root = annotated(root);
			let s = rendered(&root, &st); note(&s); l.trace(); l.step(1); l.state(&(shape, v)); l.sample(|| s.clone());
			let plain = rendered(&root, &PLAIN);
			match (parse(&s), parse(&plain)) {
				(Ok(x), Ok(y)) => { if observe(x.root_element()) != root { return l.fail(s, format!("expected {}, got {}", show(&root), show(&observe(x.root_element())))) } if x != y { return l.fail(s, format!("not equal to {plain:?}")) } }
				(Err(e), _) => return l.fail(s, format!("refused: {e}")),
				(_, Err(e)) => return l.fail(plain, format!("refused: {e}")),
			}
		}
	});
	// all pairs of values x quotes x spacing
	par_enum(run, "values", "all pairs of 18 attribute values in all quote, = and gap spellings", nv * nv * 3 * 6 * 5 * 5, |i, l| {
		let mut x = Dec(i); let (a, b) = (*x.pick(&vals), *x.pick(&vals));
		let st = Style { quote: x.take(3) as u8, eq: x.take(6) as u8, gap: x.take(5) as u8, tail: x.take(5) as u8, ..PLAIN };
		let root = ela("r", &[("k", a), ("l", b)], vec![]);
		for pair in [false, true] { for esc in [0, 3] {
			let s = rendered(&root, &Style { pair, esc, ..st }); note(&s); l.trace(); l.step(1);
			match parse(&s) { Ok(d) if observe(d.root_element()) == root => {}, Ok(d) => return l.fail(s, format!("got {}", show(&observe(d.root_element())))), Err(e) => return l.fail(s, format!("refused: {e}")) }
		} }
	});
	// values by character: every string up to length 4 over the awkward characters, both quotes
	let alpha = ["'", "\"", "=", "/", ">", " ", "a", "\n", "&gt;", "é", "?", "!", "-"];
	let k = run.t(4, 5);
	par_enum(run, "value-chars", &format!("all attribute values of at most {k} of {} tokens, in both quotes, before and after another attribute", alpha.len()), strings_upto(alpha.len(), k), |i, l| {
		let v = nth_concat(&alpha, i);
		let want = decode_pub(&v).unwrap();
		for q in ['"', '\''] {
			if v.contains(q) { continue }
			for s in [format!("<r k={q}{v}{q}/>"), format!("<r a='1' k = {q}{v}{q} ></r>"), format!("<r\nk={q}{v}{q}\nz=\"=\"/>"), format!("<r ><e k ={q}{v}{q} z='>'/></r >")] {
				note(&s); l.trace(); l.step(1); l.state(&v);
				match parse(&s) {
					Err(e) => return l.fail(s, format!("refused: {e}")),
					Ok(d) => { let e = d.root_element(); let e = e.child_elements().next().unwrap_or(e); if e.get_attr("k") != Some(&want) || (s.contains("z=") && e.attributes().len() != 2) { return l.fail(s.clone(), format!("attributes {:?}, expected {want:?}", e.attributes())) } }
				}
			}
		}
	});
	let hi = run.t(3, 4);
	let sts: Vec<Style> = (0..run.t(60u64, 300)).map(|i| style(i * 104_729 % STYLES)).collect();
	trees(run, "trees", hi, &sts, |tree, st, l| {
		let s = rendered(tree, st); note(&s); l.trace();
		let plain = rendered(tree, &PLAIN);
		match (parse(&s), parse(&plain)) { (Ok(a), Ok(b)) => if a != b || observe(a.root_element()) != observe(b.root_element()) { l.fail(s, format!("not equal to {plain:?}")) }, (Err(e), _) => l.fail(s, format!("refused: {e}")), (_, Err(e)) => l.fail(plain, format!("refused: {e}")) }
	});
	// every short run of white space at every place inside of tags
	let ws = [" ", "\t", "\n", "\r"];
	let k = run.t(4, 5); let n = strings_upto(4, k);
	par_enum(run, "white-space", &format!("all runs of white space of at most {k} characters at every one of 9 places inside of tags, alone, at all places, and beside another kind at every other place"), n * 11 * 5, |i, l| {
		let mut x = Dec(i); let place = x.take(11); let other = *x.pick(&["", " ", "\n", "\t", "\r\n"]); let w = nth_concat(&ws, x.0);
		// places: 0 before the first attribute, 1 before =, 2 after =, 3 between, 4 before = (2nd), 5 after = (2nd), 6 before >, 7 in the closing tag, 8 before />
		let g = |k: usize| -> String { let s = if place == k || place == 9 || (place == 10 && k % 2 == 0) { w.clone() } else { other.to_string() }; if (k == 0 || k == 3) && s.is_empty() { " ".into() } else { s } };
		let src = format!("<r{}k{}={}'v'{}l{}={}\"w=\"{}><e{}a{}={}'/'{}/><f{}></f{}></r{}>", g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(0), g(1), g(2), g(8), if g(6) == "" { "".into() } else { g(6) }, g(7), g(7));
		let want = ela("r", &[("k", "v"), ("l", "w=")], vec![M::E(ela("e", &[("a", "/")], vec![])), M::E(el("f", vec![]))]);
		note(&src); l.step(1); l.trace(); l.state(&i);
		match parse(&src) { Ok(d) => { let g = observe(d.root_element()); if g != want { l.fail(src, format!("expected {}, got {}", show(&want), show(&g))) } } Err(e) => l.fail(src, format!("refused: {e}")) }
	});
	let pts = { let mut v: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).collect(); v.reverse(); v };
	let units = [" ", "\n", "\t ", "\r\n", " \n\t\r"]; let vals2 = ["x", "'", "= ", "/>", ">", "\n", "&lt;", "\u{e9}\u{1F600}"];
	par_enum(run, "long", &format!("5 kinds of white space at every place, and 8 patterns of values, at {} lengths up to {}", pts.len(), pts.iter().max().unwrap()), pts.len() as u64 * (5 * 7 + 8), |i, l| {
		let mut x = Dec(i); let v = x.take(43); let n = pts[x.0 as usize];
		let (w, place, val) = if v < 35 { (units[v % 5].chars().cycle().take(n).collect::<String>(), v / 5, "v".to_string()) } else { (String::new(), 9, vals2[v - 35].repeat(n)) };
		let g = |k: usize, d: &str| if k == place && !w.is_empty() { w.clone() } else { d.to_string() };
		let s = format!("<r{}k{}={}\"{val}\"{}l='w'{}><e/></r{}><!--{}-->", g(0, " "), g(1, ""), g(2, " "), g(3, "\n"), g(4, ""), g(5, ""), g(6, ""));
		note(&format!("{n}, variant {v}")); l.step(1); l.trace(); l.state(&i);
		let want = ela("r", &[("k", &decode_pub(&val).unwrap()), ("l", "w")], vec![M::E(el("e", vec![]))]);
		match parse(&s) { Ok(d) => if observe(d.root_element()) != want { l.fail(format!("{n}, variant {v}"), "read as something else") }, Err(e) => l.fail(format!("{n}, variant {v}"), format!("refused: {}", e.to_string().chars().take(200).collect::<String>())) }
	});
	// many attributes, long gaps
	par_enum(run, "many", "1..=300 attributes in 3 orders; gaps of up to 300 spaces", 300 * 3, |i, l| {
		let (n, o) = (1 + i / 3, (i % 3) as u8);
		let at: Vec<(String, String)> = (0..n).map(|k| (format!("a{k}"), format!("v{k}'"))).collect();
		let root = ela("r", &at.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect::<Vec<_>>(), vec![]);
		let s = rendered(&root, &Style { order: o, quote: 2, gap: 4, ..PLAIN }); note(&s); l.trace(); l.step(n);
		let w = " \n\t\r".repeat(n as usize);
		let s2 = format!("<r{w}k{w}={w}'v'{w}l{w}={w}\"w\"{w}></r{w}>");
		match parse(&s) { Ok(d) if observe(d.root_element()) == root => {}, Ok(_) => return l.fail(s, "wrong attributes"), Err(e) => return l.fail(s, format!("refused: {e}")) }
		if !parse(&s2).is_ok_and(|d| observe(d.root_element()) == ela("r", &[("k", "v"), ("l", "w")], vec![])) { l.fail(s2, "wrong attributes") }
	});
}
