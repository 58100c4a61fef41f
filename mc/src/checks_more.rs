//! Properties that cut across reading, editing and writing: C26-C28.
use crate::checks_parse::{all_texts, diff, show, ALL_TOK};
use crate::checks_tree::{describe, from_model, from_raw, from_text, history, Pair};
use crate::engine::*;
use crate::model::*;
use crate::ops::{model, real, Op};
use crate::refparse::*;
use crate::texts::*;
use kiss_xml::dom::*;
use std::collections::HashMap;

fn e(name: &str) -> M { M::E(el(name, vec![])) }
fn ek(name: &str, kids: Vec<M>) -> M { M::E(el(name, kids)) }
fn ea(name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { M::E(ela(name, attrs, kids)) }
fn pe(prefix: &str, name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { let mut x = ela(name, attrs, kids); x.prefix = prefix.into(); M::E(x) }
fn c(s: &str) -> M { M::C(s.into()) }
fn d(s: &str) -> M { M::D(s.into()) }

// ------------------------------------------------------------------ C26
/// the last "line N, column M" of a message
fn named_position(msg: &str) -> Option<(usize, usize)> {
	let i = msg.rfind("line ")?;
	let digits = |s: &str| -> Option<(usize, usize)> { let n = s.bytes().take_while(|b| b.is_ascii_digit()).count(); Some((s[..n].parse().ok()?, n)) };
	let (line, n) = digits(&msg[i + 5..])?;
	let rest = msg[i + 5 + n..].strip_prefix(", column ")?;
	Some((line, digits(rest)?.0))
}
fn position(s: &str, at: usize) -> (usize, usize) {
	let before = &s[..at];
	(1 + before.matches('\n').count(), 1 + before.rsplit('\n').next().unwrap().chars().count())
}
pub fn c26(run: &Run) {
	let f = |s: &str, l: &mut Local| {
		let Some((why, gap, item)) = where_bad(s) else { return };
		l.state(&(why, item)); l.outcome(why);
		let Err(err) = parse(s) else { return };
		// nothing in the text is wrong, something is missing at its end
		if matches!(why, "no root" | "unclosed element") || (why == "text outside the root" && !s[item..].contains('<')) { return }
		l.trace(); l.sample(|| s.chars().take(200).collect());
		let Some(got) = named_position(&err.to_string()) else { return l.fail(s, format!("{why}: the error names no position: {err}")) };
		let mut ok = vec![position(s, item)];
		if !s[item..].starts_with('<') {
			// text: from the end of what comes before to its first visible character
			ok = vec![position(s, gap)];
			for c in s[gap..item].chars() { let (line, col) = ok[ok.len() - 1]; ok.push(if c == '\n' { (line + 1, 1) } else { (line, col + 1) }); }
			// or the tag behind it, if that is wrong as well
			if let Some(k) = s[item..].find('<') {
				let t = item + k;
				let rest = format!("{}{}", &s[..gap], &s[t..]);
				if matches!(where_bad(&rest), Some((_, _, i)) if i == gap) || matches!(recognise(&rest), R::Unspec(_)) { ok.push(position(s, t)); }
			}
		}
		if !ok.contains(&got) { l.fail(s, format!("{why} at line {}, column {}, but the error says: {err}", ok[0].0, ok[0].1)) }
	};
	// one defect among lines and characters of all kinds
	let fill = ["x", "\n", "\r\n", "é", "\u{1F600}", "<a/>", "<b>\n</b>", "<!--\n☼-->", "<![CDATA[\n\n]]>", "\t", "<a\nb='\n'/>", "&amp;", "\u{2028}", "<p:q\txmlns:p=\"é\">\r</p:q>", "\u{85}"];
	let defects = ["<1/>", "</zz>", "<a b/>", "<a b=1/>", "<a b='1' b='2'/>", "<!ELEMENT x ANY>", "<!-- c", "<![CDATA[x", "< ", "<a b='", "<>", "</r x>", "<a\nb=\n/>", "</r></r>", "</r>text", "</r><s/>", "</r>\n\ntext<!-- c -->", "</r> é\n <!-- c -->\n<s/>", "<a//>", "<a", "</r>\n</r>", "</r><!---->\n x"];
	let k = run.t(3, 4);
	let n = strings_upto(fill.len(), k);
	par_enum(run, "defects", &format!("{} defects behind every sequence of at most {k} of {} lines and nodes, in 3 surroundings", defects.len(), fill.len()), n * defects.len() as u64 * 3, |i, l| {
		let mut x = Dec(i); let def = *x.pick(&defects); let way = x.take(3);
		let pre = nth_concat(&fill, x.0);
		let s = match way { 0 => format!("<r>{pre}{def}</r>"), 1 => format!("<?xml version=\"1.0\"?>\n<!DOCTYPE é [\n<!ENTITY a '>'>\n]>\n<!-- ☼ --><r\n k='é'>{pre}{def}\n</r>\n"), _ => format!("<r><s>\n{pre}{def}") };
		l.step(1); note(&s); f(&s, l);
	});
	// defects before and in the root tag
	let fill = ["\n", "\r\n", " ", "<!--é\n-->", "<!DOCTYPE r>", "<!DOCTYPE r [\n<!ENTITY e \"\n>\">]>", "\t", "<!---->"];
	let defects = ["text<r/>", "é", "</r>", "<r", "<r k/>", "<1r/>", "<r k='1' k='1'/>", "<!--", "x\n<!-- c --><r/>", "<r/>x", "<r/>\nx<!---->", "<r></s>", "<!DOCTYPE", "<r>\n<a>\n</b></r>", "\u{a0}<r/>", "<r/>\u{a0}", "<r/><r/>", "<>", "<r x=y/>"];
	let k = run.t(4, 5);
	let n = strings_upto(fill.len(), k);
	par_enum(run, "prolog-defects", &format!("{} defects behind every sequence of at most {k} of {} prolog items, with and without a declaration", defects.len(), fill.len()), n * defects.len() as u64 * 2, |i, l| {
		let mut x = Dec(i); let def = *x.pick(&defects); let decl = x.flag();
		let s = format!("{}{}{def}", if decl { "<?xml version=\"1.0\"\n?>" } else { "" }, nth_concat(&fill, x.0));
		l.step(1); note(&s); f(&s, l);
	});
	all_texts(run, !run.quick(), &f);
	par_enum(run, "behind", "every Unicode scalar value before a defect, on its line and on the line before, in content, values, comments and names", SCALARS, |i, l| {
		let c = scalar(i);
		for s in [format!("<r>{c}{c}</q>"), format!("<r>{c}\n{c}<1/></r>"), format!("<r k='{c}'>x<s k=1/></r>"), format!("<!--{c}-->x<r/>"), format!("<r><![CDATA[{c}]]><a{c}/></b></r>")] { l.step(1); note(&s); f(&s, l) }
	});
	// far into a text
	let pts: Vec<usize> = large_points(run).into_iter().rev().chain(size_points(run)).collect();
	let ways = 12u64;
	par_enum(run, "far-off", &format!("a defect behind up to {} lines, columns, elements or wide characters", pts[0]), pts.len() as u64 * ways, |i, l| {
		let n = pts[(i / ways) as usize];
		let s = match i % ways {
			0 => format!("<r>{}</q>", "\n".repeat(n)), 1 => format!("<r>{}</q>", "é".repeat(n)), 2 => format!("<r>{}</q>", "<a>\n</a>".repeat(n)), 3 => format!("<r>{}\n{}</q>", "x\n".repeat(n), "\u{1F600}".repeat(n)),
			4 => format!("<r>{}<1/></r>", "<a>".repeat(n)), 5 => format!("{}x<r/>", "<!--\n-->".repeat(n)), 6 => format!("<r/>{}x", "\r\n".repeat(n)),
			7 => format!("<r k='{}'><s k='1' k='2'/></r>", "\n\u{1F600}".repeat(n)), 8 => format!("<r><!--{}--><!X></r>", " \t".repeat(n)), 9 => format!("<!DOCTYPE r [{}]><r><s></r>", "\n\t".repeat(n)), 10 => format!("<r>{}</r><r/>", "<a b='é'/>".repeat(n)), _ => format!("<r>{}<b {}='1' c/></r>", "\t".repeat(n), "k".repeat(n + 1)),
		};
		l.step(n as u64); note(&format!("far-off way {} size {n}", i % ways)); f(&s, l);
	});
}

// ------------------------------------------------------------------ C27
const GOOD: [&str; 6] = [
	"<r/>",
	"<?xml version=\"1.0\"?><!DOCTYPE r><r xmlns=\"u\" xmlns:p=\"v\"><p:a k=\"1\"/><b>t</b></r>",
	"<p:r xmlns:p=\"w\"><p:a/>x<p:b p:k=\"&amp;\"/></p:r>",
	"<r><a xmlns=\"i\"><b/></a><!--c--><![CDATA[d]]></r>",
	"<!DOCTYPE s [<!ENTITY e '>'>]><s a='1'>one <i>two</i> three</s>",
	"<!-- x --><r>&#65;<a/>é</r><!-- y -->",
];
const BAD: [&str; 6] = ["", "<r", "<r xmlns=\"u\"><a></r>", "<?xml version=\"1.0\"?><!DOCTYPE x><p:r xmlns:p=\"z\"><p:a>t</p:a>", "<r/><r/>", "<r><!-- </r>"];
#[derive(Clone, Debug)]
enum HOp { Parse(usize, usize), Refuse(usize), CloneRoot(usize, usize), Edit(usize, Op), Move(usize, usize), Copy(usize, usize), New(usize), Print(usize), Head(usize, usize), SwapRoots(usize, usize) }
pub fn c27(run: &Run) {
	let edits = [Op::Append(vec![], pe("p", "n", &[], vec![])), Op::SetAttr(vec![], "xmlns:p".into(), "new".into()), Op::SetText(vec![0], "T".into()), Op::Remove(vec![], 0), Op::SetAttr(vec![], "xmlns".into(), "dflt".into()), Op::Append(vec![0], M::T("&".into()))];
	for slots in [2usize, 3] {
		let mut ops = vec![];
		for a in 0..slots {
			for t in 0..GOOD.len() { ops.push(HOp::Parse(a, t)); }
			for o in &edits { ops.push(HOp::Edit(a, o.clone())); }
			ops.push(HOp::New(a)); ops.push(HOp::Print(a));
			for b in 0..slots { if a != b { ops.push(HOp::CloneRoot(a, b)); ops.push(HOp::Move(a, b)); ops.push(HOp::Copy(a, b)); ops.push(HOp::Head(a, b)); if a < b { ops.push(HOp::SwapRoots(a, b)); } } }
		}
		for t in 0..BAD.len() { ops.push(HOp::Refuse(t)); }
		let depth = if slots == 2 { run.t(5, 6) } else { run.t(4, 5) };
		bfs(run, &format!("slots/{slots}"), &format!("all histories of at most {depth} of {} steps over {slots} documents: reading into one (or failing to), editing, cloning, moving and copying nodes between them, replacing, printing", ops.len()), ops.len(), depth, true, |path, l| {
			let start = || -> Pair { (Document::new(Element::new_from_name("r").unwrap()), Doc { decl: Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()), dtds: vec![], root: el("r", vec![]) }) };
			let told = || path.iter().map(|i| format!("{:?}", ops[*i as usize])).collect::<Vec<_>>().join("; ");
			if !l.quiet_note() { note(&told()); }
			let mut real_docs = vec![]; let mut models = vec![];
			for _ in 0..slots { let (d, m) = start(); real_docs.push(d); models.push(m); }
			for &i in path {
				match &ops[i as usize] {
					HOp::Parse(a, t) => {
						models[*a] = match recognise(GOOD[*t]) { R::Doc(d) => d, r => panic!("MODEL ERROR: {r:?}") };
						match parse(GOOD[*t]) { Ok(d) => real_docs[*a] = d, Err(e) => { l.fail(told(), format!("{:?} refused: {e}", GOOD[*t])); return None } }
					}
					HOp::Refuse(t) => if parse(BAD[*t]).is_ok() { l.fail(told(), format!("{:?} accepted", BAD[*t])); return None },
					HOp::CloneRoot(a, b) => { let x = real_docs[*a].root_element().clone(); *real_docs[*b].root_element_mut() = x; models[*b].root = models[*a].root.clone(); }
					HOp::Edit(a, o) => { model(&mut models[*a].root, o)?; real(real_docs[*a].root_element_mut(), o); }
					HOp::Move(a, b) => {
						if models[*a].root.kids.is_empty() { return None }
						let k = models[*a].root.kids.remove(0); models[*b].root.kids.push(k);
						for x in [*a, *b] { annotate(&mut models[x].root, &Scope::new()); }
						norm_kids(&mut models[*b].root.kids);
						let k = match real_docs[*a].root_element_mut().remove(0) { Ok(k) => k, Err(e) => { l.fail(told(), format!("remove: {e}")); return None } };
						real_docs[*b].root_element_mut().append_boxed(k);
					}
					HOp::Copy(a, b) => {
						let k = models[*a].root.kids.last()?.clone(); models[*b].root.kids.insert(0, k);
						norm_kids(&mut models[*b].root.kids); annotate(&mut models[*b].root, &Scope::new());
						let k = clone_node(real_docs[*a].root_element().children().last().expect("a child the model has is missing"));
						let r = match k.node_type() { DomNodeType::ElementNode => real_docs[*b].root_element_mut().insert(0, k.as_element().unwrap().clone()), DomNodeType::TextNode => real_docs[*b].root_element_mut().insert(0, k.as_text().unwrap().clone()), DomNodeType::CommentNode => real_docs[*b].root_element_mut().insert(0, k.as_comment().unwrap().clone()), DomNodeType::CDataNode => real_docs[*b].root_element_mut().insert(0, k.as_cdata().unwrap().clone()) };
						if let Err(e) = r { l.fail(told(), format!("insert: {e}")); return None }
					}
					HOp::New(a) => { let (d, m) = start(); real_docs[*a] = d; models[*a] = m; }
					HOp::Print(a) => { let x = real_docs[*a].to_string(); let _ = real_docs[*a].to_string_with_indent("\t"); if x != real_docs[*a].to_string() { l.fail(told(), "printed differently the second time"); return None } }
					HOp::Head(a, b) => {
						models[*b].decl = models[*a].decl.clone(); models[*b].dtds = models[*a].dtds.clone();
						let x = real_docs[*a].declaration().clone(); let y: Vec<DTD> = real_docs[*a].doctype_defs().cloned().collect();
						real_docs[*b].set_declaration(x); real_docs[*b].set_doctype_defs(Some(&y));
					}
					HOp::SwapRoots(a, b) => {
						let (x, y) = real_docs.split_at_mut(*b);
						std::mem::swap(x[*a].root_element_mut(), y[0].root_element_mut());
						let x = models[*a].root.clone(); models[*a].root = std::mem::replace(&mut models[*b].root, x);
					}
				}
			}
			l.trace();
			l.sample(told);
			for k in 0..slots {
				let got = observe_doc(&real_docs[k]);
				if got != models[k] { l.fail(told(), format!("document {k}: {}", diff(&models[k], &got))); return None }
				if real_docs[k].to_string() != print_doc(&models[k], "  ") { l.fail(told(), format!("document {k} is printed as {:?}", real_docs[k].to_string())); return None }
			}
			Some(h128(&models))
		});
	}
	// what is read depends on the text alone, whatever was read, refused, printed or looked at before
	let mut texts: Vec<String> = rich();
	texts.extend(GOOD.iter().chain(&BAD).map(|s| s.to_string()));
	texts.extend(["<a>&lt;&amp;lt;</a>", "<a xmlns=\"x\"/>", "<q:a/>", "<p:a xmlns:p=\"1\"><q:b/></p:a>", "<a b='1' b='2'/>", "<a><!DOCTYPE x></a>", "<!-- --><a/>", "<?xml version=\"1.0\"?><a>x<!-- --></a>", "text", "<a>\u{1F600}</b>", "<a/>x", "<r:r xmlns:r='r'><r:r xmlns:r='s'/></r:r>", "<a>  </a>", "<a> x <b/> </a>"].iter().map(|s| s.to_string()));
	let told = |s: &str| match parse(s) { Ok(d) => { let o = observe_doc(&d); Ok((d.to_string(), h128(&o), o.root.text())) } Err(e) => Err(format!("{e} {e:?}")) };
	let alone: Vec<_> = if run.replay.is_some() || !run.stop.load(std::sync::atomic::Ordering::SeqCst) { texts.iter().map(|s| std::panic::catch_unwind(|| told(s)).unwrap_or(Err("panicked".into()))).collect() } else { return };
	let k = run.t(3, 4);
	par_enum(run, "sequences", &format!("all sequences of at most {k} of {} texts, read one after the other", texts.len()), strings_upto(texts.len(), k), |i, l| {
		let idx: Vec<usize> = (0..texts.len()).collect();
		let seq = nth_string(&idx, i);
		note(&format!("reading {seq:?}")); l.step(seq.len() as u64); l.trace(); l.state(&seq.last());
		for t in &seq { if told(&texts[**t]) != alone[**t] { return l.fail(format!("{:?}", seq.iter().map(|t| &texts[**t]).collect::<Vec<_>>()), format!("{:?} is read as {:?}, before that as {:?}", texts[**t], told(&texts[**t]), alone[**t])) } }
	});
	// nothing is used up: a text read (or refused) over and over on one thread, then every text as if it were the first
	let mut often = texts.clone();
	often.extend(["<a>".repeat(100), format!("<a>{}</b>", "<a>".repeat(99)), format!("{}{}", "<a>".repeat(64), "</a>".repeat(64)), format!("<a>{}", "<!-- -->".repeat(100)), format!("<a>{}</a>", "<b>&lt;</b>".repeat(100)), format!("<a {}/>", (0..100).map(|i| format!("a{i}='{i}'")).collect::<Vec<_>>().join(" ")), format!("<!DOCTYPE {}><a/>", "[".repeat(100)), format!("<a {}/>", (0..100).map(|i| format!("xmlns:a{i}='{i}'")).collect::<Vec<_>>().join(" ")), format!("<a>{}<", "<![CDATA[x]]>".repeat(100)), "<a".repeat(100), "\n".repeat(100)]);
	let times = run.t(2000, 50_000);
	par_enum(run, "exhaustion", &format!("each of {} texts read {times} times on one fresh thread, written, cloned and searched every time, then every other text", often.len()), often.len() as u64, |i, l| {
		let s = &often[i as usize];
		note(&format!("reading {times} times {:?}", s.chars().take(60).collect::<String>()));
		let bad = std::thread::scope(|sc| sc.spawn(|| -> Option<String> {
			let first = told(s);
			for k in 1..times {
				if told(s) != first { return Some(format!("read otherwise at time {k}: {:?}, at first {first:?}", told(s))) }
				if let Ok(d) = parse(s) { if k % 16 == 0 { let c = d.root_element().clone(); let _ = (c == *d.root_element(), d.root_element().search(|_| true).count(), d.to_string_with_indent(" ").len()); } }
			}
			for (t, a) in texts.iter().zip(&alone) { if told(t) != *a { return Some(format!("then {t:?} is read as {:?}, before as {a:?}", told(t))) } }
			None
		}).join().unwrap_or_else(|_| Some("panicked".into())));
		l.step(times as u64); l.trace(); l.state(s);
		if let Some(b) = bad { l.fail(format!("{times} times {:?} ({} bytes)", s.chars().take(60).collect::<String>(), s.len()), b) }
	});
	// texts and documents that look alike, read and written in turn
	let mut bases: Vec<String> = rich();
	for n in [10usize, 40, 300, 5000] { bases.push(format!("<r a='{0}'><b>{0}</b><c/><!--{0}--></r>", "x".repeat(n))); bases.push(format!("<r>{}</r>", "<e k='v'/>".repeat(n / 10 + 1))); }
	const LIKE: [&str; 8] = ["y", "<", "'", "&", " ", "/", "=", "0"];
	let spots: Vec<(usize, usize)> = bases.iter().enumerate().flat_map(|(b, s)| { let v: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_ascii()).map(|x| x.0).collect(); let step = v.len() / run.t(400, 5000) + 1; let k = v.len(); v.into_iter().enumerate().filter(move |(j, _)| j % step == 0 || *j + 40 > k).map(move |(_, p)| (b, p)) }).collect();
	par_enum(run, "lookalikes", &format!("{} texts and each of them with one character replaced by one of {} others (in steps where long), read and written in turn", bases.len(), LIKE.len()), (spots.len() * LIKE.len()) as u64, |i, l| {
		let (b, p) = spots[i as usize / LIKE.len()]; let x = &bases[b];
		let mut y = x.clone(); y.replace_range(p..p + 1, LIKE[i as usize % LIKE.len()]);
		let case = || format!("text {b} ({:?}…) with {:?} at {p}", x.chars().take(40).collect::<String>(), LIKE[i as usize % LIKE.len()]);
		note(&case()); l.state(&y); l.step(4);
		let told = |s: &str, indent: &str, l: &mut Local| -> bool {
			l.trace();
			match (parse(s), recognise(s)) {
				(Ok(d), R::Doc(m)) => { let got = observe_doc(&d); if got != m { l.fail(case(), diff(&m, &got)); return false } if d.to_string_with_indent(indent) != print_doc(&m, indent) { l.fail(case(), "printed otherwise"); return false } }
				(Err(e), R::Doc(_)) => { l.fail(case(), format!("refused: {e}")); return false }
				(Ok(_), R::Bad(m)) => { l.fail(case(), format!("accepted, although {m}")); return false }
				_ => {}
			}
			true
		};
		let _ = told(x, "  ", l) && told(&y, "  ", l) && told(x, "\t", l) && told(&y, "\t", l);
	});
}

// ------------------------------------------------------------------ C28
/// nothing in the document that XML cannot express: legal characters, comments without `--`, declared prefixes
fn conforming(doc: &Doc) -> bool {
	fn chars(s: &str) -> bool { s.chars().all(xml_char) }
	fn go(e: &El, scope: &Scope) -> bool {
		let mut sc = scope.clone();
		for (k, v) in own_prefixes(e) { if v.is_empty() || k == "xml" || k == "xmlns" { return false } sc.insert(k, v); }
		let bound = |p: &str| sc.contains_key(p) && p != "xml" && p != "xmlns";
		let nc = |k: &str| match k.split_once(':') { None => is_ncname(k), Some((p, n)) => is_ncname(p) && is_ncname(n) };
		if !nc(&e.tag()) || !e.attrs.iter().all(|(k, v)| nc(k) && chars(v)) { return false }
		if !e.prefix.is_empty() && !bound(&e.prefix) { return false }
		if !e.attrs.keys().all(|k| match k.split_once(':') { Some((p, _)) => p == "xmlns" || p == "xml" || bound(p), None => true }) { return false }
		e.kids.iter().all(|k| match k { M::E(c) => go(c, &sc), M::T(s) => chars(s), M::C(s) => chars(s) && !s.contains("--") && !s.ends_with('-'), M::D(s) => chars(s) && !s.contains("]]>") })
	}
	if !go(&doc.root, &Scope::new()) { return false }
	(doc.decl.is_none() && doc.dtds.is_empty()) || matches!(recognise_strict(&format!("{}{}<r/>", doc.decl.as_deref().unwrap_or(""), doc.dtds.concat())), R::Doc(_))
}
pub fn standard(doc: &Document, indents: &[&str], case: &dyn Fn() -> String, l: &mut Local) -> bool {
	let mut want = observe_doc(doc);
	if !conforming(&want) { l.outcome("not expressible in XML"); return true }
	l.outcome("written"); l.trace();
	normalize(&mut want.root); annotate(&mut want.root, &Scope::new());
	for i in indents {
		let s = doc.to_string_with_indent(*i);
		match recognise_strict(&s) {
			R::Doc(got) => if got != want { l.fail(case(), format!("written (indent {i:?}) as {s:?}, which means another document: {}", diff(&want, &got))); return false },
			R::Bad(m) | R::Unspec(m) => { l.fail(case(), format!("written (indent {i:?}) as {s:?}, which is not XML: {m}")); return false }
		}
	}
	true
}
pub fn c28(run: &Run) {
	// what is read and written again
	for s in ALL_TOK { tokens(run, s, 0, |s, l| { let Ok(doc) = parse(s) else { return }; l.state(s); standard(&doc, &["  "], &|| s.to_string(), l); }); }
	refish(run, |s, l| { let Ok(doc) = parse(s) else { return }; l.state(s); standard(&doc, &["  "], &|| s.to_string(), l); });
	edits(run, !run.quick(), |s, l| { let Ok(doc) = parse(s) else { return }; l.state(s); standard(&doc, &["  ", "\t"], &|| s.to_string(), l); });
	scalars(run, !run.quick(), |s, l| { let Ok(doc) = parse(s) else { return }; l.state(s); standard(&doc, &["  "], &|| s.to_string(), l); });
	content_texts(run, |s, l| { let Ok(doc) = parse(s) else { return }; l.state(s); standard(&doc, &["  ", ""], &|| s.to_string(), l); });
	crate::checks_big::big(run, run.t(1025, 16_385), |m, case, l| { standard(&Document::new(build(&m)), &["  "], &|| case.to_string(), l); });
	// what is built: every small tree of awkward nodes
	let leaf = |v: usize, id: usize| match v {
		0 => e(["a", "b"][id % 2]), 1 => M::T(["x", "&<>]]>\"'", "&amp;", " y "][id % 4].into()), 2 => M::T(["", " ", "\n"][id % 3].into()),
		3 => c(["x", " <&> ", "&amp;-x", ""][id % 4]), 4 => d(["", "]]", "<a>&lt;", "]]&gt;"][id % 4]), 5 => pe("p", "q", &[("p:k", "<"), ("xmlns:q", "w")], vec![pe("q", "z", &[], vec![])]),
		_ => ea("q", &[("v", "\"<>&'"), ("w", "&lt;"), ("xmlns", ["", "d&"][id % 2])], vec![e("y")]),
	};
	let hi = run.t(4, 5);
	let sp = ForestSpace::new(0, hi, 7, 2);
	par_enum(run, "built", &format!("all trees of at most {hi} nodes below the root over 7 leaf and 2 inner kinds, built as documents, written with 3 indents"), sp.total, |i, l| {
		let root = ela("r", &[("xmlns:p", "u<\"'>"), ("xmlns", "o")], sp.get(i, &leaf, &inner2));
		note(&show(&root)); l.state(&root); l.step(root.count() as u64);
		if !standard(&Document::new(build(&root)), &["  ", "\t", ""], &|| show(&root), l) { return }
		if let Some(raw) = build_raw(&root) { standard(&Document::new_with_decl_dtd(raw, None, None), &["", " "], &|| format!("unnormalised {}", show(&root)), l); }
	});
	// values through every entry
	let value = |s: &str, l: &mut Local| {
		note(s); l.state(s); l.step(1);
		let mut x = Element::new_with_attributes_and_text("r", HashMap::from([("k", s), ("z", "1")]), s).expect("constructor refused");
		let mut y = Element::new_from_name("e").unwrap(); y.set_attr("k", s).unwrap(); y.set_text(s);
		x.append(y); x.append(Text::new(s));
		if let Ok(n) = Comment::new(s) { x.append(n); }
		if let Ok(n) = CData::new(s) { x.append(n); }
		if let Ok(n) = Element::new("n", Some(s.to_string()), None::<HashMap<String, String>>, Some(s.to_string()), Some("p".into()), None) { if !s.is_empty() { x.append(n); } }
		let doc = Document::new(x);
		if !conforming(&observe_doc(&doc)) {
			// the comment is to blame: without it the rest must do
			let mut doc = doc; doc.root_element_mut().remove_by(&|n: &Box<dyn Node>| n.is_comment());
			standard(&doc, &["  "], &|| s.to_string(), l);
			return;
		}
		standard(&doc, &["  "], &|| s.to_string(), l);
	};
	let toks = ["&", "<", ">", "\"", "'", "&amp;", "&#65;", "]]", "]]>", "--", "-", "]", " ", "\n", "a", "é", "\u{1F600}", "&lt", ";", "\t", "<!--", "<![CDATA[", "?>", "#"];
	let k = run.t(4, 5);
	par_enum(run, "values", &format!("all values of at most {k} of {} tokens as text, attribute, namespace, comment and CDATA", toks.len()), strings_upto(toks.len(), k), |i, l| value(&nth_concat(&toks, i), l));
	// the same far into long ones
	let pts: Vec<usize> = { let mut v: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).filter(|n| *n <= run.t(17_000, 140_000)).collect(); v.sort(); v.reverse(); v.dedup(); v };
	let (pads, cores) = (["x", " y", "é\u{1F600}", "]", "&", ">", "\n", "-"], ["]]>", "<", "&", ">", "\"", "'", "]]", "-", "&amp;", "&#1", ";"]);
	par_enum(run, "long-values", &format!("11 awkward tokens before, behind and amid {} amounts (up to {}) of 8 kinds of padding", pts.len(), pts.iter().max().unwrap()), (pts.len() * 88) as u64 * 3, |i, l| {
		let mut x = Dec(i); let (p, c, at) = (*x.pick(&pads), *x.pick(&cores), x.take(3)); let k = pts[x.0 as usize]; if k * p.len() > run.t(17_000, 140_000) { return }
		value(&match at { 0 => format!("{}{c}", p.repeat(k)), 1 => format!("{c}{}", p.repeat(k)), _ => format!("{}{c}{}", p.repeat(k), p.repeat(k / 2 + 1)) }, l)
	});
	par_enum(run, "value-scalars", "every Unicode scalar value alone and inside a value", SCALARS, |i, l| { let ch = scalar(i); value(&ch.to_string(), l); value(&format!("a{ch}]]{ch}>&{ch}"), l) });
	par_enum(run, "names", "every Unicode scalar value in names of elements, attributes and prefixes that are accepted", SCALARS, |i, l| {
		let ch = scalar(i); l.step(1);
		for n in [ch.to_string(), format!("a{ch}"), format!("a{ch}b")] {
			note(&n);
			if let Ok(mut x) = Element::new_from_name(&n) { let _ = x.set_attr(n.clone(), "v"); l.state(&n); if !standard(&Document::new(x), &["  "], &|| n.clone(), l) { return } }
			if let Ok(x) = Element::new("n", None, Some(HashMap::from([(n.clone(), "v")])), Some("u".to_string()), Some(n.clone()), None) { if !standard(&Document::new(x), &["  "], &|| n.clone(), l) { return } }
		}
	});
	// namespaces through the constructor, two levels
	let ns = [None, Some("u"), Some("<\"&'>")]; let px = [None, Some("p"), Some("q")];
	let at: [&[(&str, &str)]; 7] = [&[], &[("xmlns", "a")], &[("xmlns:p", "b")], &[("xmlns:q", "c"), ("xmlns:p", "d")], &[("p:k", "e"), ("xmlns:p", "f")], &[("xmlns", "")], &[("k", "<"), ("xml:lang", "en")]];
	let n = (3 * 3 * 7u64).pow(2) * 3;
	par_enum(run, "constructors", "all combinations of 3 namespaces, 3 prefixes, 7 attribute sets of an element and of its child, under 3 roots", n, |i, l| {
		let mut x = Dec(i); l.step(2); note(&format!("constructors {i}"));
		let mk = |x: &mut Dec, kids: Vec<Box<dyn Node>>| { let (u, p, a) = (*x.pick(&ns), *x.pick(&px), *x.pick(&at)); Element::new("n", None, Some(a.iter().copied().collect::<HashMap<&str, &str>>()), u.map(|s| s.to_string()), p.map(|s| s.to_string()), Some(kids)).expect("constructor refused") };
		let inner = mk(&mut x, vec![]); let outer = mk(&mut x, vec![inner.boxed()]);
		let doc = match x.take(3) { 0 => Document::new(outer), 1 => { let (mut d, _) = from_text("<r xmlns=\"z\" xmlns:p=\"y\"/>"); d.root_element_mut().append(outer); d } _ => { let (mut d, _) = from_text("<p:r xmlns:q=\"z\" xmlns:p=\"y\"><a/></p:r>"); d.root_element_mut().insert(0, outer).unwrap(); d } };
		l.state(&observe_doc(&doc));
		standard(&doc, &["  ", ""], &|| format!("constructors {i}: {}", show(&observe(doc.root_element()))), l);
	});
	// edit histories
	let mut ops = vec![];
	for at in [vec![], vec![0], vec![1]] {
		for m in [M::T("]]>&<".into()), M::T(" ".into()), c("<&>"), d("]]"), ea("x", &[("k", "<\"'>&"), ("xmlns", "n")], vec![M::T("&".into()), e("y")]), pe("p", "f", &[("p:z", "1")], vec![ek("g", vec![M::T(">".into())])])] { ops.push(Op::Append(at.clone(), m.clone())); ops.push(Op::Insert(at.clone(), 0, m)); }
		for (k, v) in [("k", "'\"<"), ("xmlns", "u&"), ("xmlns", ""), ("xmlns:p", "v>"), ("xmlns:p", "w"), ("p:a", "]]>")] { ops.push(Op::SetAttr(at.clone(), k.into(), v.into())); }
		for k in ["xmlns", "xmlns:p", "k"] { ops.push(Op::RemoveAttr(at.clone(), k.into())); }
		ops.push(Op::Remove(at.clone(), 0)); ops.push(Op::SetText(at.clone(), "]]>".into())); ops.push(Op::EditLeaf(at.clone(), 0, "]]&>".into())); ops.push(Op::EditLeaf(at.clone(), 1, "<".into())); ops.push(Op::SwapKids(at.clone())); ops.push(Op::ClearAttrs(at));
	}
	ops.extend([Op::MoveLast(vec![0], 0, vec![]), Op::MoveFirst(vec![], 0, vec![1]), Op::CopyLast(vec![], 0, vec![1]), Op::RemoveByName(vec![], "x".into())]);
	let starts: Vec<Box<dyn Fn() -> Pair + Sync>> = vec![
		Box::new(|| from_text("<r xmlns:p=\"u\"><a>t &lt; u<p:b/></a><p:c p:k='v'/><!-- c --></r>")),
		Box::new(|| from_model(as_el(pe("p", "r", &[("xmlns:p", "o"), ("xmlns", "i")], vec![ek("x", vec![M::T("m".into()), e("y"), M::T("n".into())]), pe("p", "z", &[], vec![d("]")])])))),
		Box::new(|| from_raw(ela("r", &[("xmlns:p", "q")], vec![M::T("]]".into()), M::T(">".into()), ek("x", vec![M::T("".into()), M::T("]".into()), M::T("]>".into())]), d("]"), d("]>"), e("y")]))),
	];
	let depth = run.t(3, 4);
	for (k, st) in starts.iter().enumerate() {
		bfs(run, &format!("edited/{k}"), &format!("all histories of at most {depth} of {} edits", ops.len()), ops.len(), depth, true, |path, l| {
			if !l.quiet_note() { note(&describe(&ops, path)); }
			let (doc, m) = history(st.as_ref(), &ops, path, l)?;
			let i = ["  ", "\t", ""][path.last().copied().unwrap_or(0) as usize % 3];
			if !standard(&doc, &[i], &|| describe(&ops, path), l) { return None }
			Some(h128(&m))
		});
	}
}
fn as_el(m: M) -> El { if let M::E(e) = m { e } else { unreachable!() } }
