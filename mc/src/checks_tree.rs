//! Properties of trees in memory and of writing them: C05, C09-C17, C19, C23, C24.
use crate::checks_parse::*;
use crate::engine::*;
use crate::model::*;
use crate::ops::*;
use crate::refparse::*;
use crate::texts::*;
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub const INDENTS: [&str; 6] = ["  ", "\t", "", " ", "    ", "       "];
fn e(name: &str) -> M { M::E(el(name, vec![])) }
fn ek(name: &str, kids: Vec<M>) -> M { M::E(el(name, kids)) }
fn ea(name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { M::E(ela(name, attrs, kids)) }
fn pe(prefix: &str, name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { let mut x = ela(name, attrs, kids); x.prefix = prefix.into(); M::E(x) }
fn c(s: &str) -> M { M::C(s.into()) }
fn d(s: &str) -> M { M::D(s.into()) }
/// the tree with exactly these texts, if it can be brought about
pub fn made(m: &El, l: &mut Local) -> Option<Element> {
	if stable(m) { return Some(build(m)) }
	let x = build_raw(m); l.outcome(if x.is_some() { "texts as edits leave them" } else { "texts that do not stay apart" }); x
}
fn as_el(m: M) -> El { if let M::E(e) = m { e } else { unreachable!() } }

/// a document and its model
pub type Pair = (Document, Doc);
pub fn from_text(s: &str) -> Pair {
	let R::Doc(m) = recognise(s) else { panic!("MODEL ERROR: start document {s:?}") };
	(parse(s).expect("start document refused"), m)
}
pub fn from_model(root: El) -> Pair {
	let m = Doc { decl: Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()), dtds: vec![], root: annotated(normalized(root.clone())) };
	(Document::new(build(&root)), m)
}
/// a start with neighbouring, blank and empty texts, as removals and edits in place leave them
pub fn from_raw(root: El) -> Pair {
	let x = build_raw_any(&root);
	let m = Doc { decl: Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()), dtds: vec![], root: observe(&x) };
	(Document::new(x), m)
}
pub fn ret_ok(want: &Ret, got: &Ret) -> bool {
	// an index that does not fit into the error's isize cannot be carried by it
	match (want, got) { (Ret::Oob(i), Ret::Oob(_)) if *i < 0 => true, _ => want == got }
}
/// replay a history on both sides; None: it does not apply, or a difference was reported
pub fn history(start: &(dyn Fn() -> Pair + Sync), ops: &[Op], path: &[u64], l: &mut Local) -> Option<Pair> { history_ret(start, ops, path, l).map(|x| (x.0, x.1)) }
/// also tells what the last operation returned
pub fn history_ret(start: &(dyn Fn() -> Pair + Sync), ops: &[Op], path: &[u64], l: &mut Local) -> Option<(Document, Doc, Option<Ret>)> {
	let (mut doc, mut m) = start();
	let mut want = None;
	for (k, &i) in path.iter().enumerate() {
		let op = &ops[i as usize];
		let before = if k + 1 == path.len() { Some(m.root.clone()) } else { None };
		let w = model(&mut m.root, op)?;
		let g = real(doc.root_element_mut(), op);
		if !ret_ok(&w, &g) { l.fail(describe(ops, path), format!("{op:?} returned {g:?}, expected {w:?}")); return None }
		if let (Some(b), Ret::Oob(_) | Ret::Refused) = (before, &w) { if b != m.root { panic!("MODEL ERROR: refused operation changed the model") } }
		want = Some(w);
	}
	l.trace();
	if let Some(w) = &want { l.outcome(match w { Ret::Unit => "done", Ret::Node(_) => "node returned", Ret::Oob(_) => "out of bounds", Ret::Opt(_) => "attribute removal", Ret::Count(_) => "count", Ret::Refused => "refused" }); }
	let got = observe_doc(&doc);
	if got != m { l.fail(describe(ops, path), diff(&m, &got)); return None }
	Some((doc, m, want))
}
pub fn describe(ops: &[Op], path: &[u64]) -> String { path.iter().map(|i| format!("{:?}", ops[*i as usize])).collect::<Vec<_>>().join("; ") }

/// save with the given indents, load, compare
pub fn saved(doc: &Document, m: &Doc, indents: &[&str]) -> Result<(), String> {
	let mut want = m.clone();
	normalize(&mut want.root);
	annotate(&mut want.root, &Scope::new());
	for i in indents {
		let s = doc.to_string_with_indent(*i);
		match parse(&s) {
			Err(e) => return Err(format!("saved (indent {i:?}) as {s:?}, which is refused: {e}")),
			Ok(x) => { let got = observe_doc(&x); if got != want { return Err(format!("saved (indent {i:?}) as {s:?}, loaded: {}", diff(&want, &got))) } }
		}
	}
	Ok(())
}

// ------------------------------------------------------------------ C05
fn ops_c05_structure() -> Vec<Op> {
	let x = ea("x", &[("k", "<\"'>&")], vec![t("a & b"), e("y"), t(" "), c(" - ")]);
	let mut v = vec![];
	for at in [vec![], vec![0], vec![0, 0]] {
		for m in [e("e"), x.clone(), t("z"), t(" "), t(""), c("--c-"), d("]]<&>")] { v.push(Op::Append(at.clone(), m.clone())); v.push(Op::Insert(at.clone(), 0, m)); }
		v.push(Op::Insert(at.clone(), 1, t("<i>"))); v.push(Op::Insert(at.clone(), 1, e("n")));
		v.push(Op::AppendAll(at.clone(), vec![t("p"), e("q"), t("\n"), t("r"), c("")]));
		for i in 0..3 { v.push(Op::Remove(at.clone(), i)); }
		v.push(Op::RemoveElement(at.clone(), 0)); v.push(Op::Clear(at.clone()));
		v.push(Op::SetText(at.clone(), "T\n&#65;".into())); v.push(Op::SetText(at.clone(), "".into()));
		v.push(Op::EditLeaf(at.clone(), 0, "]]".into())); v.push(Op::EditLeaf(at.clone(), 0, "".into())); v.push(Op::EditLeaf(at.clone(), 1, " ".into()));
		v.push(Op::SetAttr(at.clone(), "a".into(), "'\">\n<".into()));
		v.push(Op::SwapKids(at));
	}
	v.extend([Op::MoveLast(vec![], 0, vec![0]), Op::MoveFirst(vec![], 1, vec![]), Op::CopyLast(vec![], 0, vec![0]), Op::CopyFirst(vec![0], 0, vec![]), Op::RemoveByName(vec![], "x".into())]);
	v
}
fn ops_c05_names() -> Vec<Op> {
	let mut v = vec![];
	for at in [vec![], vec![0], vec![0, 0]] {
		for (k, w) in [("a", "1"), ("a", ""), ("b:c", "\"&quot;"), ("xmlns", "u"), ("xmlns", ""), ("xmlns:b", "v<>"), ("xmlns:b", "w"), ("é", "\t\r\n"), ("z", "'")] { v.push(Op::SetAttr(at.clone(), k.into(), w.into())); }
		for k in ["a", "xmlns", "xmlns:b"] { v.push(Op::RemoveAttr(at.clone(), k.into())); }
		v.push(Op::ClearAttrs(at.clone()));
		for m in [e("e"), pe("b", "f", &[], vec![e("g")]), pe("b", "h", &[("xmlns:b", "x")], vec![pe("b", "i", &[], vec![])]), ea("j", &[("xmlns", "y")], vec![e("k"), t("t")])] { v.push(Op::Append(at.clone(), m.clone())); v.push(Op::Insert(at.clone(), 0, m)); }
		v.push(Op::RemoveElement(at, 0));
	}
	v.extend([Op::MoveLast(vec![0], 0, vec![]), Op::MoveLast(vec![], 0, vec![0]), Op::CopyFirst(vec![0], 0, vec![])]);
	v
}
const START_TEXT: [&str; 3] = [
	"<?xml version=\"1.0\"?><!DOCTYPE r [<!ENTITY a \"b\">]><r a='1'><x>one<y/> two</x> three <!--c--><z k=\"&lt;\"/></r>",
	"<r xmlns=\"u\" xmlns:b=\"v\">\n <b:x><y xmlns=\"\"/></b:x>\n <z/>\n</r>",
	"<r>t<![CDATA[d]]><x> <y/>\n</x></r>",
];
pub fn c05(run: &Run) {
	let starts: Vec<Box<dyn Fn() -> Pair + Sync>> = vec![
		Box::new(|| from_text(START_TEXT[0])), Box::new(|| from_text(START_TEXT[1])), Box::new(|| from_text(START_TEXT[2])),
		Box::new(|| from_model(el("r", vec![]))),
		Box::new(|| from_model(ela("r", &[("xmlns:b", "q")], vec![ek("x", vec![t("m"), e("y"), t("n")]), e("z"), t("")]))),
		Box::new(|| from_raw(ela("r", &[("xmlns:b", "q")], vec![t(""), ek("x", vec![t(" "), t(""), e("y"), t("\n")]), t("a"), t("b"), t(" "), c("c")]))),
	];
	for (set, ops, depth) in [("structure", ops_c05_structure(), run.t(3, 4)), ("names", ops_c05_names(), run.t(3, 4))] {
		for (k, st) in starts.iter().enumerate() {
			bfs(run, &format!("{set}/{k}"), &format!("all histories of at most {depth} of {} edits", ops.len()), ops.len(), depth, true, |path, l| {
				if !l.quiet_note() { note(&describe(&ops, path)); }
				let (doc, m) = history(st.as_ref(), &ops, path, l)?;
				l.sample(|| describe(&ops, path));
				if bound_all(&m.root) {
					l.outcome("saved and loaded");
					let k = path.last().copied().unwrap_or(0) as usize % 5;
					if let Err(e) = saved(&doc, &m, &[INDENTS[0], INDENTS[1 + k]]) { l.fail(describe(&ops, path), e); return None }
				} else { l.outcome("undeclared prefix: not saved") }
				Some(h128(&m))
			});
		}
	}
	// constructors: every small tree, blank and empty text included, built bottom-up and top-down
	let leaf = |v: usize, id: usize| match v {
		0 => e(["a", "b"][id % 2]), 1 => t(["x", "&<>\"'"][id % 2]), 2 => t([" ", "\n\t"][id % 2]), 3 => t(""), 4 => c(["-", " <&amp;> "][id % 2]), 5 => d(["]", "<a>&lt;"][id % 2]),
		_ => ea("q", &[("v", "\"<>&'\n"), ("w", "")], vec![]),
	};
	let hi = run.t(4, 5);
	let sp = ForestSpace::new(0, hi, 7, 2);
	par_enum(run, "built", &format!("all trees of at most {hi} nodes below the root over 7 leaf and 2 inner kinds, built bottom-up and top-down, saved with 6 indents"), sp.total, |i, l| {
		let root = ela("r", &[("id", "'")], sp.get(i, &leaf, &inner2));
		let case = show(&root); note(&case); l.step(root.count() as u64);
		let m = normalized(root.clone()); l.state(&m);
		let top_down = { fn go(e: &El) -> El { let mut x = El { kids: vec![], ..e.clone() }; for k in &e.kids { x.kids.push(if let M::E(c) = k { M::E(go(c)) } else { k.clone() }); norm_kids(&mut x.kids); } x } go(&root) };
		for (how, elem, m) in [("bottom-up", build(&root), m), ("top-down", build_incremental(&root), top_down)] {
			l.trace();
			let got = observe(&elem);
			if got != m { return l.fail(case, format!("{how}: expected {}, built {}", show(&m), show(&got))) }
			let doc = Document::new(elem);
			let dm = Doc { decl: Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()), dtds: vec![], root: m };
			if let Err(x) = saved(&doc, &dm, &INDENTS) { return l.fail(case, format!("{how}: {x}")) }
		}
	});
	// the same values through every entry: constructor text, set_text, attribute, comment, CDATA, edits in place
	let value = |s: &str, l: &mut Local| {
		note(s); l.state(s);
		let attrs = HashMap::from([("k", s), ("l", "x")]);
		let mut m = ela("r", &[("k", s), ("l", "x")], vec![ek("a", vec![t(s)]), ek("b", vec![t("o"), e("c"), t(s)]), ea("d", &[("k", s)], vec![])]);
		let mut elem = Element::new_with_attributes("r", attrs).unwrap();
		elem.append(Element::new_with_text("a", s).unwrap());
		elem.append(Element::new_with_children("b", vec![Text::new("old").boxed(), Element::new_from_name("c").unwrap().boxed(), Text::new("x").boxed()]).unwrap());
		{ let b = elem.child_elements_mut().nth(1).unwrap(); for (n, x) in b.children_mut().filter(|n| n.is_text()).zip(["o", s]) { n.as_text_mut().unwrap().content = x.into(); } }
		let mut q = Element::new_from_name("d").unwrap(); q.set_attr("k", "y").unwrap(); q.set_attr("k", s).unwrap();
		elem.append(q);
		if !s.contains("-->") { m.kids.push(c(s)); let mut x = Comment::new("old").unwrap(); x.set_content(s).unwrap(); elem.append(x); }
		if !s.contains("]]>") { m.kids.push(d(s)); let mut x = CData::new("old").unwrap(); x.set_text(s).unwrap(); elem.append(x); }
		let mut f = Element::new_with_text("f", "old").unwrap(); f.set_text(s); elem.append(f);
		m.kids.push(ek("f", vec![t(s)]));
		l.trace(); l.step(1);
		let doc = Document::new_with_decl_dtd(elem, None, None);
		if let Err(x) = saved(&doc, &Doc { decl: None, dtds: vec![], root: m }, &["  ", "\t"]) { l.fail(s, x) }
	};
	let toks = ["&", "<", ">", "\"", "'", "&amp;", "&#65;", "]]", "--", "-", "]", " ", "\n", "a", "é", "\u{1F600}", "=", "/", "\t", "\r", "\u{a0}", "!", "?", "\\", "$1"];
	let k = run.t(3, 4);
	par_enum(run, "values", &format!("all values of at most {k} of {} tokens as text, attribute, comment and CDATA", toks.len()), strings_upto(toks.len(), k), |i, l| value(&nth_concat(&toks, i), l));
	let q = if run.quick() { quick_scalars() } else { (0..SCALARS).collect() };
	par_enum(run, "value-scalars", "Unicode scalar values (quick: below U+2100 and class boundaries; thorough: all), alone and inside", q.len() as u64, |i, l| { let ch = scalar(q[i as usize]); value(&ch.to_string(), l); value(&format!("a{ch}b{ch}"), l) });
	par_enum(run, "value-lengths", "6 patterns repeated up to 600 times", 6 * 601, |i, l| value(&["a ", "&", "<>", "é\"", "]]", "\n"][(i % 6) as usize].repeat((i / 6) as usize), l));
	// breadth and depth of built documents
	let hi = run.t(120u64, 400);
	par_enum(run, "growth", &format!("built documents of width and depth up to {hi}"), hi * 3, |i, l| {
		let n = (i / 3) as usize; note(&format!("growth {} {n}", i % 3)); l.step(n as u64); l.trace();
		let root = match i % 3 {
			0 => el("r", (0..n).map(|k| ea("c", &[("n", &k.to_string())], vec![])).collect()),
			1 => { let mut x = el("leaf", vec![t("z")]); for k in 0..n { x = ela(&format!("n{k}"), &[("k", "v")], vec![M::E(x), c("c")]); } el("r", vec![M::E(x)]) }
			_ => el("r", (0..n).flat_map(|k| [t(&format!(" t{k} ")), e("x"), d("]]")]).collect()),
		};
		let (doc, m) = from_model(root);
		if let Err(x) = saved(&doc, &m, &["  ", "\t"]) { l.fail(format!("growth {} {n}", i % 3), x) }
	});
}

// ------------------------------------------------------------------ C09
fn ops_c09(full: bool) -> Vec<Op> {
	let ms = [e("a"), pe("p", "b", &[], vec![]), ea("c", &[("xmlns", "w")], vec![e("d"), pe("p", "e", &[], vec![e("f")])]),
		pe("p", "g", &[("xmlns:p", "x")], vec![e("h"), pe("p", "i", &[], vec![])]), ek("j", vec![ea("k", &[("xmlns", "")], vec![e("l")]), t("t")])];
	let mut v = vec![];
	let ats: Vec<At> = if full { vec![vec![], vec![0], vec![1], vec![0, 0]] } else { vec![vec![], vec![0], vec![0, 0]] };
	for at in ats {
		for m in &ms {
			v.push(Op::Append(at.clone(), m.clone()));
			v.push(Op::Insert(at.clone(), 0, m.clone()));
			if full { v.push(Op::AppendBoxed(at.clone(), m.clone())); v.push(Op::Insert(at.clone(), 1, m.clone())); }
		}
		v.push(Op::AppendAll(at.clone(), vec![ms[1].clone(), c("c"), ms[2].clone(), ms[0].clone()]));
		for (k, w) in [("xmlns", "u"), ("xmlns", ""), ("xmlns:p", "v"), ("xmlns:p", "z")] { v.push(Op::SetAttr(at.clone(), k.into(), w.into())); }
		if full { v.push(Op::SetAttr(at.clone(), "xmlns".into(), "w".into())); v.push(Op::SetAttr(at.clone(), "xmlns:q".into(), "v".into())); v.push(Op::SetAttr(at.clone(), "p".into(), "n".into())); }
		v.push(Op::RemoveAttr(at.clone(), "xmlns".into())); v.push(Op::RemoveAttr(at.clone(), "xmlns:p".into()));
		v.push(Op::ClearAttrs(at));
	}
	v.extend([Op::MoveLast(vec![], 0, vec![0]), Op::MoveLast(vec![0], 0, vec![]), Op::MoveFirst(vec![], 1, vec![0]), Op::MoveFirst(vec![0], 0, vec![]), Op::CopyLast(vec![0], 0, vec![]), Op::CopyFirst(vec![], 0, vec![0]), Op::CopyFirst(vec![0], 0, vec![0, 0]), Op::Remove(vec![], 0)]);
	v
}
pub fn c09(run: &Run) {
	let starts: Vec<(&str, Box<dyn Fn() -> Pair + Sync>)> = vec![
		("empty", Box::new(|| from_model(el("r", vec![])))),
		("default", Box::new(|| from_text("<r xmlns=\"u\" xmlns:p=\"v\"><s/></r>"))),
		("prefixed", Box::new(|| from_text("<p:r xmlns:p=\"v\" xmlns=\"o\"><p:s><t xmlns=\"\"/></p:s><u xmlns:p=\"y\"/></p:r>"))),
		("built", Box::new(|| from_model(as_el(pe("p", "r", &[("xmlns:p", "v")], vec![ea("s", &[("xmlns", "u")], vec![pe("p", "t", &[], vec![]), e("m")]), e("n")]))))),
	];
	for (set, ops, depth) in [("all", ops_c09(true), run.t(2, 3)), ("core", ops_c09(false), run.t(3, 4))] {
		for (name, st) in &starts {
			// without merging of equal states: what an element remembers of its former place must not show
			bfs(run, &format!("{set}/{name}"), &format!("all histories of at most {depth} of {} edits (equal states not merged)", ops.len()), ops.len(), depth, false, |path, l| {
				if !l.quiet_note() { note(&describe(&ops, path)); }
				let (doc, m) = history(st.as_ref(), &ops, path, l)?;
				l.sample(|| describe(&ops, path));
				if let Err(e) = ns_view(doc.root_element(), &m.root, "") { l.fail(describe(&ops, path), e); return None }
				if bound_all(&m.root) {
					l.outcome("saved and loaded");
					if let Err(e) = saved(&doc, &m, &["  "]) { l.fail(describe(&ops, path), e); return None }
				}
				// a part of the tree made the root of another document
				for (k, sub) in doc.root_element().child_elements().zip(m.root.els()) {
					let part = annotated(sub.clone());
					let other = Document::new(k.clone());
					if let Err(e) = ns_view(other.root_element(), &part, "") { l.fail(describe(&ops, path), format!("child {} as a root: {e}", sub.tag())); return None }
				}
				Some(h128(&m))
			});
		}
	}
	// constructors: namespace, prefix, attributes, text, children
	let ns = [None, Some("u"), Some("v&\"<"), Some("é")];
	let px = [None, Some("p"), Some("q"), Some("x-1")];
	let kids = [vec![], vec![e("a")], vec![pe("p", "b", &[], vec![e("c"), pe("q", "d", &[], vec![])]), t("t")], vec![ea("e", &[("xmlns", "i")], vec![e("f")]), ea("g", &[("xmlns", "")], vec![e("h")])], vec![pe("p", "k", &[("xmlns:p", "j")], vec![pe("p", "l", &[], vec![])])]];
	let texts = [None, Some("x"), Some(""), Some(" ")];
	let n = ns.len() * px.len() * kids.len();
	par_enum(run, "constructors", "all combinations of 4 namespaces, 4 prefixes, 12 declaration attributes, 4 texts and 5 child lists, nested two levels, as document and attached", (n * n * DECLS.len() * 2 * texts.len()) as u64, |i, l| {
		let mut x = Dec(i);
		let mk = |x: &mut Dec, inner: Option<(Element, El)>, outer: bool| -> (Element, El) {
			let (u, p) = (*x.pick(&ns), *x.pick(&px));
			let at = if outer { *x.pick(&DECLS) } else { &[] };
			let ks = x.pick(&kids);
			let front = if outer { x.flag() } else { false };
			let mut tx = if outer { *x.pick(&texts) } else { None };
			// (whether blank text is normalised before or after the children are added is not specified)
			if tx == Some(" ") && ks.iter().any(|k| matches!(k, M::T(_))) { tx = None }
			let mut m = as_el(pe(p.unwrap_or(""), "n", at, ks.clone()));
			if let Some(u) = u { m.attrs.insert(p.map(|p| format!("xmlns:{p}")).unwrap_or("xmlns".into()), u.into()); }
			let mut kv: Vec<Box<dyn Node>> = ks.iter().map(build_node).collect();
			if let Some((re, me)) = inner { if front { kv.insert(0, re.boxed()); m.kids.insert(0, M::E(me)); } else { kv.push(re.boxed()); m.kids.push(M::E(me)); } }
			if let Some(s) = tx { m.kids.insert(0, t(s)); }
			norm_kids(&mut m.kids);
			let a: HashMap<&str, &str> = at.iter().copied().collect();
			let e = Element::new("n", tx.map(|s| s.to_string()), if at.is_empty() { None } else { Some(a) }, u.map(|s| s.to_string()), p.map(|s| s.to_string()), Some(kv)).expect("constructor refused");
			(e, m)
		};
		let inner = mk(&mut x, None, false);
		let (elem, m) = mk(&mut x, Some(inner), true);
		let m = annotated(m);
		let case = show(&m); note(&case); l.trace(); l.step(2); l.state(&m); l.sample(|| case.clone());
		if let Err(s) = ns_view(&elem, &m, "") { return l.fail(case, format!("constructed: {s}")) }
		let doc = Document::new(elem.clone());
		if bound_all(&m) { if let Err(s) = saved(&doc, &Doc { decl: Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()), dtds: vec![], root: m.clone() }, &["  "]) { return l.fail(case, s) } }
		let (mut up, um) = from_text("<o xmlns=\"out\" xmlns:p=\"outp\" xmlns:x-1=\"one\"/>");
		up.root_element_mut().append(elem);
		let mut um = um.root; um.kids.push(M::E(m)); let um = annotated(um);
		if let Err(s) = ns_view(up.root_element(), &um, "") { l.fail(case, format!("attached: {s}")) }
	});
	// deep subtrees attached below declarations
	let hi = run.t(60u64, 200);
	par_enum(run, "deep-attach", &format!("chains of up to {hi} elements attached in one piece at every depth of a chain"), hi * 6, |i, l| {
		let n = (i / 6) as usize; let kind = i % 6; note(&format!("deep-attach {kind} {n}")); l.step(n as u64); l.trace();
		let mut sub = as_el(pe("p", "leaf", &[], vec![e("x")]));
		for k in 0..n { sub = if k % 3 == 0 { as_el(pe("p", "s", &[], vec![M::E(sub)])) } else { el("s", vec![M::E(sub), e("y")]) }; }
		if kind % 2 == 1 { sub.attrs.insert("xmlns".into(), "mine".into()); }
		let mut root = ela("r", &[("xmlns", "u"), ("xmlns:p", "v")], vec![]);
		for _ in 0..n { root = ela("w", &[], vec![M::E(root)]); }
		root.attrs.insert("xmlns".into(), "top".into());
		let (mut doc, mut m) = from_model(root);
		let at: At = vec![0; n];
		let op = match kind / 2 { 0 => Op::Append(at, M::E(sub)), 1 => Op::Insert(at, 0, M::E(sub)), _ => Op::AppendAll(at, vec![e("z"), M::E(sub)]) };
		model(&mut m.root, &op).expect("MODEL ERROR"); real(doc.root_element_mut(), &op);
		if let Err(s) = ns_view(doc.root_element(), &m.root, "") { return l.fail(format!("{kind} {n}"), s) }
		let op = Op::SetAttr(vec![], "xmlns:p".into(), "new".into());
		model(&mut m.root, &op).expect("MODEL ERROR"); real(doc.root_element_mut(), &op);
		let op = Op::RemoveAttr(vec![0; n], "xmlns:p".into());
		model(&mut m.root, &op).expect("MODEL ERROR"); real(doc.root_element_mut(), &op);
		if let Err(s) = ns_view(doc.root_element(), &m.root, "") { return l.fail(format!("{kind} {n}"), format!("after editing declarations: {s}")) }
	});
}

// ------------------------------------------------------------------ C10
pub fn c10(run: &Run) {
	let nodes = [e("x"), ek("y", vec![t("v"), e("w")]), t("a"), t(" "), t(""), c("c"), d("d")];
	let mut ops = vec![];
	for m in &nodes { ops.push(Op::Append(vec![], m.clone())); ops.push(Op::AppendBoxed(vec![], m.clone())); for i in [0, 1, 2, 3, 5] { ops.push(Op::Insert(vec![], i, m.clone())); } }
	ops.push(Op::Insert(vec![], usize::MAX, e("x"))); ops.push(Op::Insert(vec![], isize::MAX as usize, t("a")));
	for i in [0, 1, 2, 3, 4, 6, isize::MAX as usize, usize::MAX] { ops.push(Op::Remove(vec![], i)); ops.push(Op::RemoveElement(vec![], i)); }
	ops.push(Op::Clear(vec![]));
	for s in ["", " ", "t", " <&> "] { ops.push(Op::SetText(vec![], s.into())); }
	for v in [vec![], vec![e("p"), t("q")], vec![t("f"), t("g"), e("h")], vec![c("i"), e("j"), e("k"), d("l")], vec![t(""), t(" ")]] { ops.push(Op::AppendAll(vec![], v)); }
	ops.push(Op::SwapKids(vec![]));
	// edits in place between them
	for (i, s) in [(0, ""), (0, "T"), (1, ""), (1, " ")] { ops.push(Op::EditLeaf(vec![], i, s.into())); }
	let mut nested = ops.clone();
	for op in nested.iter_mut() { match op { Op::Append(a, _) | Op::AppendBoxed(a, _) | Op::AppendAll(a, _) | Op::Insert(a, _, _) | Op::Remove(a, _) | Op::RemoveElement(a, _) | Op::Clear(a) | Op::SetText(a, _) | Op::EditLeaf(a, _, _) | Op::SwapKids(a) => a.push(1), _ => {} } }
	let starts: Vec<(&str, usize, &Vec<Op>, Box<dyn Fn() -> Pair + Sync>)> = vec![
		("empty", run.t(3, 4), &ops, Box::new(|| from_model(el("r", vec![])))),
		("parsed", run.t(3, 4), &ops, Box::new(|| from_text("<r><a/>one<b>two</b><!--c--><e/></r>"))),
		("edited", run.t(3, 4), &ops, Box::new(|| from_raw(el("r", vec![t("a"), t(""), e("x"), t(" "), t("b"), t("c")])))),
		("blanks", run.t(3, 4), &ops, Box::new(|| from_raw(el("r", vec![t(" "), t(" "), e("x"), t(""), c("c"), t("\n")])))),
		("nested", run.t(3, 4), &nested, Box::new(|| from_text("<r><a><aa/>x</a>t<b><ba/><bb/>y<!--z--></b><c><ca/></c></r>"))),
		("known", run.t(2, 3), &ops, Box::new(|| from_model(ela("html", &[("xml:space", "preserve"), ("xml:lang", "en"), ("xml:id", "i"), ("xmlns", "u"), ("id", "1"), ("class", "c"), ("style", "s"), ("version", "1.0")], vec![d("x")])))),
	];
	for (name, depth, ops, st) in &starts {
		bfs(run, name, &format!("all histories of at most {depth} of {} child-list operations", ops.len()), ops.len(), *depth, true, |path, l| {
			if !l.quiet_note() { note(&describe(ops, path)); }
			let (doc, m) = history(st.as_ref(), ops, path, l)?;
			l.sample(|| describe(ops, path));
			// counts and both kinds of listing agree
			let r = doc.root_element();
			if r.children().count() != m.root.kids.len() || r.child_elements().count() != m.root.els().count() { l.fail(describe(ops, path), "listings disagree"); return None }
			Some(h128(&m))
		});
	}
	// longer lists: every position
	let hi = run.t(40usize, 120);
	par_enum(run, "positions", &format!("insert, remove, remove_element at every index of lists of up to {hi} children in 4 mixtures"), (hi as u64 + 1) * 4 * (hi as u64 + 3) * 3, |i, l| {
		let mut x = Dec(i); let n = x.take(hi + 1); let mix = x.take(4); let at = x.take(hi + 3); let k = x.take(3);
		if at > n + 2 { return }
		let kids = (0..n).map(|j| match (mix, j % 4) { (0, _) => ea("e", &[("i", &j.to_string())], vec![]), (1, 0) | (2, 1) => t(&format!("t{j}")), (1, _) | (3, 0) => ea("e", &[("i", &j.to_string())], vec![t("k")]), (2, 3) => d(&j.to_string()), _ => c(&j.to_string()) }).collect();
		let (mut doc, mut m) = from_model(el("r", kids));
		let op = match k { 0 => Op::Insert(vec![], at, e("new")), 1 => Op::Remove(vec![], at), _ => Op::RemoveElement(vec![], at) };
		let case = format!("{op:?} on {n} children, mixture {mix}"); note(&case); l.step(1); l.trace(); l.state(&(n, mix, at, k));
		let w = model(&mut m.root, &op).expect("MODEL ERROR"); let g = real(doc.root_element_mut(), &op);
		if !ret_ok(&w, &g) { return l.fail(case, format!("returned {g:?}, expected {w:?}")) }
		let got = observe_doc(&doc); if got != m { l.fail(case, diff(&m, &got)) }
	});
}

// ------------------------------------------------------------------ C11
pub fn remove_if(e: &mut El, deep: bool, hit: &dyn Fn(&M) -> bool) -> usize {
	let a = e.kids.len();
	e.kids.retain(|k| !hit(k));
	let mut n = a - e.kids.len();
	if deep { for k in &mut e.kids { if let M::E(c) = k { n += remove_if(c, true, hit) } } }
	n
}
/// a label carried by every node, so that predicates can name nodes
fn label_m(m: &M) -> Option<usize> { match m { M::E(e) => e.attrs.get("id").and_then(|s| s.parse().ok()), M::T(s) | M::C(s) | M::D(s) => s.trim_matches(|c: char| !c.is_ascii_digit()).parse().ok() } }
fn label_r(n: &Box<dyn Node>) -> Option<usize> {
	match n.node_type() { DomNodeType::ElementNode => label_e(n.as_element().unwrap()), DomNodeType::TextNode => n.as_text().unwrap().content.trim_matches(|c: char| !c.is_ascii_digit()).parse().ok(), DomNodeType::CommentNode => n.as_comment().unwrap().get_content().parse().ok(), DomNodeType::CDataNode => n.as_cdata().unwrap().get_content().parse().ok() }
}
fn label_e(e: &Element) -> Option<usize> { e.get_attr("id").and_then(|s| s.parse().ok()) }
fn labelled(v: usize, id: usize) -> M { match v { 0 => ea(["a", "b"][id % 2], &[("id", &id.to_string())], vec![]), 1 => t(&format!("t{id}")), 2 => c(&id.to_string()), 3 => d(&id.to_string()), 4 => t(""), 5 => t(" "), _ => ea("a", &[("id", &id.to_string())], vec![]) } }
fn labelled_inner(v: usize, id: usize, k: Vec<M>) -> M { ea([["a", "b"], ["b", "a"]][v][id % 2], &[("id", &id.to_string())], k) }

pub fn c11(run: &Run) {
	let check = |name: &str, hi: usize, leaf_n: usize, inner_n: usize| {
		let sp = ForestSpace::new(0, hi, leaf_n, inner_n);
		par_enum(run, name, &format!("all trees of at most {hi} nodes over {leaf_n} leaf and {inner_n} inner kinds x all sets of nodes as predicate x 5 operations"), sp.total, |i, l| {
			let root = el("r", sp.get(i, &labelled, &labelled_inner));
			let n = root.count() - 1;
			let Some(src) = made(&root, l) else { return }; l.state(&root);
			let go = |what: String, real: &dyn Fn(&mut Element) -> usize, deep: bool, hit: &dyn Fn(&M) -> bool, l: &mut Local| {
				let mut e = src.clone(); let mut m = root.clone();
				note(&format!("{what} on {}", show(&root)));
				let g = real(&mut e); let w = remove_if(&mut m, deep, hit);
				l.trace(); l.step(1); l.outcome(if w == 0 { "nothing removed" } else if w == n { "all removed" } else { "some removed" });
				let got = observe(&e);
				if got != m || g != w { l.fail(format!("{what} on {}", show(&root)), format!("expected {w} removed leaving {}, got {g} and {}", show(&m), show(&got))) }
			};
			for set in 0..1u32 << n {
				let in_m = |m: &M| label_m(m).map(|k| k < 32 && set >> k & 1 == 1).unwrap_or(false);
				let in_r = |r: &Box<dyn Node>| label_r(r).map(|k| k < 32 && set >> k & 1 == 1).unwrap_or(false);
				let in_e = |r: &Element| label_e(r).map(|k| k < 32 && set >> k & 1 == 1).unwrap_or(false);
				let in_me = |m: &M| matches!(m, M::E(_)) && in_m(m);
				go(format!("remove_by set {set:b}"), &|e| e.remove_by(&in_r), false, &in_m, l);
				go(format!("remove_all set {set:b}"), &|e| e.remove_all(&in_r), true, &in_m, l);
				go(format!("remove_elements set {set:b}"), &|e| e.remove_elements(in_e), false, &in_me, l);
				go(format!("remove_all_elements set {set:b}"), &|e| e.remove_all_elements(in_e), true, &in_me, l);
			}
			for nm in ["a", "b", "", "zz", "r"] { go(format!("remove_elements_by_name {nm:?}"), &|e| e.remove_elements_by_name(nm), false, &|m| matches!(m, M::E(e) if e.name == nm), l); }
			// predicates on content
			fn txt(m: &M) -> String { match m { M::E(e) => e.text(), M::T(s) | M::C(s) | M::D(s) => s.clone() } }
			for part in ["t", "1", "2", ""] {
				go(format!("remove_all text contains {part:?}"), &|e| e.remove_all(&|n: &Box<dyn Node>| n.text().contains(part)), true, &|m| txt(m).contains(part), l);
				go(format!("remove_by text contains {part:?}"), &|e| e.remove_by(&|n: &Box<dyn Node>| n.text().contains(part)), false, &|m| txt(m).contains(part), l);
				go(format!("remove_all_elements text contains {part:?}"), &|e| e.remove_all_elements(|n: &Element| n.text().contains(part)), true, &|m| matches!(m, M::E(_)) && txt(m).contains(part), l);
			}
			go("remove_all comments".into(), &|e| e.remove_all(&|n: &Box<dyn Node>| n.is_comment()), true, &|m| matches!(m, M::C(_)), l);
			go("remove_all text".into(), &|e| e.remove_all(&|n: &Box<dyn Node>| n.is_text()), true, &|m| matches!(m, M::T(_)), l);
			go("remove_all CDATA".into(), &|e| e.remove_all(&|n: &Box<dyn Node>| n.is_cdata()), true, &|m| matches!(m, M::D(_)), l);
			go("remove_all childless elements".into(), &|e| e.remove_all_elements(|n| n.children().count() == 0), true, &|m| matches!(m, M::E(e) if e.kids.is_empty()), l);
		});
	};
	check("kinds", run.t(4, 5), 7, 1);
	check("elements", run.t(6, 7), 1, 1);
	// wide and deep: one match at every position, runs of matches, every other
	let hi = run.t(60u64, 200);
	par_enum(run, "patterns", &format!("flat and nested lists of up to {hi} children with single, periodic and block matches"), hi * 40 * 3, |i, l| {
		let mut x = Dec(i); let shape = x.take(3); let pat = x.take(40); let n = x.0 as usize + 1;
		let hit = |k: usize| match pat { 0..=15 => k % (pat + 1) == 0, 16..=27 => k >= (pat - 16) * n / 12 && k < (pat - 13) * n / 12, 28..=38 => k == (pat - 28) * n / 11, _ => true };
		let mk = |k: usize| if shape == 2 && k % 3 == 1 { c(&k.to_string()) } else { ea("e", &[("id", &k.to_string())], vec![]) };
		let root = if shape == 1 { let mut cur = el("q", vec![]); for k in (0..n).rev() { let mut v = std::mem::take(&mut cur.kids); v.insert(0, mk(k)); if k % 2 == 0 { cur.kids = vec![ea("w", &[("id", "100000")], v)]; } else { cur.kids = v; } } El { name: "r".into(), ..cur } } else { el("r", (0..n).map(mk).collect()) };
		let case = format!("shape {shape}, pattern {pat}, {n} nodes"); note(&case); l.step(1); l.trace(); l.state(&(shape, pat, n));
		let in_m = |m: &M| label_m(m).map(|k| k < 100000 && hit(k)).unwrap_or(false);
		let in_r = |r: &Box<dyn Node>| label_r(r).map(|k| k < 100000 && hit(k)).unwrap_or(false);
		for deep in [false, true] {
			let (mut a, mut m) = (build(&root), root.clone());
			let g = if deep { a.remove_all(&in_r) } else { a.remove_by(&in_r) }; let w = remove_if(&mut m, deep, &in_m);
			if g != w || observe(&a) != m { return l.fail(case, format!("deep {deep}: removed {g}, expected {w}")) }
		}
	});
}

// ------------------------------------------------------------------ C12
pub fn c12(run: &Run) {
	let nodes = [t("a"), t(" b "), t(" "), t("\n"), t(""), t("\u{a0}"), e("x"), c("c"), d("d"), ek("y", vec![t(" k "), e("z")])];
	let mut ops = vec![];
	for m in &nodes { ops.push(Op::Append(vec![], m.clone())); for i in 0..3 { ops.push(Op::Insert(vec![], i, m.clone())); } }
	for m in &nodes[..5] { ops.push(Op::AppendBoxed(vec![], m.clone())); }
	for a in [0, 2, 4, 6, 7] { for b in [0, 3, 4, 6] { ops.push(Op::AppendAll(vec![], vec![nodes[a].clone(), nodes[b].clone()])); } }
	ops.push(Op::AppendAll(vec![], vec![t(""), t(" "), t("m"), t(""), t("\t"), e("x"), t("\r"), t(""), c("c"), t(""), d("d"), t(" ")]));
	ops.push(Op::AppendAll(vec![], vec![]));
	// removals bring texts together, which the next addition must join
	for i in 0..3 { ops.push(Op::Remove(vec![], i)); }
	ops.push(Op::EditLeaf(vec![], 0, "".into())); ops.push(Op::EditLeaf(vec![], 1, " ".into()));
	for s in ["", " ", "q"] { ops.push(Op::SetText(vec![], s.into())); }
	let adds = |op: &Op| matches!(op, Op::Append(..) | Op::AppendBoxed(..) | Op::AppendAll(..) | Op::Insert(..) | Op::SetText(..));
	let starts: Vec<(&str, Box<dyn Fn() -> Pair + Sync>)> = vec![
		("empty", Box::new(|| from_model(el("r", vec![])))),
		("parsed", Box::new(|| from_text("<r> <a/>x <b/> <!--c-->y</r>"))),
		("elements", Box::new(|| from_text("<r>\n <a/>\n <b/>\n <c/></r>"))),
		("edited", Box::new(|| from_raw(el("r", vec![t("a"), t(""), e("x"), t(" "), t("b"), t("c")])))),
		("blanks", Box::new(|| from_raw(el("r", vec![t(" "), t(""), e("x"), t(""), e("y"), t("\n"), t(" ")])))),
	];
	let depth = run.t(3, 4);
	for (name, st) in &starts {
		bfs(run, name, &format!("all histories of at most {depth} of {} additions and removals", ops.len()), ops.len(), depth, true, |path, l| {
			if !l.quiet_note() { note(&describe(&ops, path)); }
			let (doc, m, ret) = history_ret(st.as_ref(), &ops, path, l)?;
			l.sample(|| describe(&ops, path));
			if path.last().map(|o| adds(&ops[*o as usize])).unwrap_or(false) && ret == Some(Ret::Unit) {
				if let Some(why) = text_rule(doc.root_element()) { l.fail(describe(&ops, path), why); return None }
			}
			Some(h128(&m))
		});
	}
	// all lists of texts and separators given to the constructor and to append_all at once
	let items = [t("a"), t(" "), t(""), t("\n\t"), t("é "), e("x"), c("c"), d("d")];
	let k = run.t(6, 7);
	par_enum(run, "lists", &format!("all child lists of at most {k} of 8 nodes, by constructor, append_all and one by one"), strings_upto(items.len(), k), |i, l| {
		let kids: Vec<M> = nth_string(&items, i).into_iter().cloned().collect();
		let m = normalized(el("r", kids.clone()));
		let boxes = || -> Vec<Box<dyn Node>> { kids.iter().map(build_node).collect() };
		let case = show(&el("r", kids.clone())); note(&case); l.step(1); l.state(&m);
		let a = Element::new_with_children("r", boxes()).unwrap();
		let mut b = Element::new_from_name("r").unwrap(); b.append_all(boxes());
		let mut cc = Element::new_from_name("r").unwrap(); let mut cm = el("r", vec![]);
		for (x, y) in boxes().into_iter().zip(&kids) { cc.append_boxed(x); cm.kids.push(y.clone()); norm_kids(&mut cm.kids); }
		let mut f = Element::new_from_name("r").unwrap(); let mut fm = el("r", vec![]);
		for y in kids.iter().rev() { insert_front(&mut f, y); fm.kids.insert(0, y.clone()); norm_kids(&mut fm.kids); }
		for (how, x, m) in [("constructor", a, &m), ("append_all", b, &m), ("append_boxed", cc, &cm), ("insert at the front", f, &fm)] {
			l.trace();
			if let Some(why) = text_rule(&x) { return l.fail(case, format!("{how}: {why}")) }
			let got = observe(&x);
			if got != *m { return l.fail(case, format!("{how}: expected {}, got {}", show(m), show(&got))) }
		}
	});
	let q = if run.quick() { quick_scalars() } else { (0..SCALARS).collect() };
	par_enum(run, "scalars", "Unicode scalar values as whole texts among elements and beside other text", q.len() as u64, |i, l| {
		let ch = scalar(q[i as usize]).to_string(); note(&ch); l.step(1); l.trace(); l.state(&ch);
		for kids in [vec![e("a"), t(&ch), e("b")], vec![t(&ch), t("x"), e("a"), t(&ch), t(&ch)], vec![t(&ch)]] {
			let root = el("r", kids); let m = normalized(root.clone());
			let x = build(&root); let got = observe(&x);
			if got != m { return l.fail(ch, format!("expected {}, got {}", show(&m), show(&got))) }
		}
	});
}
pub fn insert_front(x: &mut Element, m: &M) {
	match m { M::E(y) => x.insert(0, build(y)), M::T(s) => x.insert(0, Text::new(s.as_str())), M::C(s) => x.insert(0, Comment::new(s.as_str()).unwrap()), M::D(s) => x.insert(0, CData::new(s.as_str()).unwrap()) }.expect("insert at 0 refused");
}
/// the rule itself, on the real element
pub fn text_rule(e: &Element) -> Option<String> {
	let k: Vec<&Box<dyn Node>> = e.children().collect();
	let txt = |n: &Box<dyn Node>| n.as_text().ok().map(|t| t.content.clone());
	for w in k.windows(2) { if w[0].is_text() && w[1].is_text() { return Some(format!("adjacent texts in {e}")) } }
	let texts: Vec<String> = k.iter().filter_map(|n| txt(n)).collect();
	if texts.iter().any(|t| t.is_empty()) { return Some(format!("empty text in {e}")) }
	if texts.iter().any(|t| blank(t)) && !texts.iter().any(|t| !blank(t)) { return Some(format!("only blank text in {e}")) }
	None
}

// ------------------------------------------------------------------ C13
pub fn c13(run: &Run) {
	let items = [e("a"), ek("b", vec![ek("a", vec![e("a")]), t("t")]), pe("p", "a", &[], vec![]), pe("p", "b", &[], vec![e("b")]), ea("a", &[("xmlns", "v")], vec![pe("p", "a", &[], vec![])]), ea("c", &[("xmlns", "")], vec![]), t("a"), c("a"), d("a"), pe("q", "a", &[("xmlns:q", "u"), ("name", "b")], vec![]), ea("a", &[("xmlns", "u")], vec![]), t(""), t(" ")];
	let roots: [&[(&str, &str)]; 2] = [&[("xmlns:p", "u")], &[("xmlns:p", "v"), ("xmlns", "u")]];
	let k = run.t(4, 5);
	let names = ["a", "b", "c", "zz", "", "p:a", "A"];
	let spaces = [None, Some("u"), Some("v"), Some(""), Some("p"), Some("zz")];
	let prefixes = [None, Some("p"), Some("q"), Some(""), Some("u"), Some("zz")];
	par_enum(run, "lists", &format!("all child lists of at most {k} of {} nodes under 2 roots x all queries, immutable and mutable", items.len()), strings_upto(items.len(), k) * 2, |i, l| {
		let kids: Vec<M> = nth_string(&items, i / 2).into_iter().cloned().collect();
		let root = ela("r", roots[(i % 2) as usize], kids);
		let m = annotated(root.clone());
		let Some(mut x) = made(&root, l) else { return };
		let case = show(&m); note(&case); l.step(1); l.state(&m); l.sample(|| case.clone());
		queries(&mut x, &m, &names, &spaces, &prefixes, &case, l);
	});
	// what is asked for and what is there, by every pair of similar strings
	let alike = ["u", "u/", "/u", "U", "u ", " u", "\"u\"", "u#", "uu", "u\n", "\u{fc}", "u\u{308}", "u%2F", "http://u", "http://u/", "HTTP://u", "https://u", "u?", "u:", "x:u", "u.", "*", "None", "xmlns", "xml", "u&amp;", "u&", "{u}", "ns", "http://www.w3.org/2000/xmlns/"];
	let named = ["a", "A", "aa", "ab", "ba", "a.", "a-", "_a", "a1", "\u{e1}", "a\u{301}", "b", "p", "xmlns", "a\u{b7}", "xml", "*", "p:a", "a ", " a", ":a", "a:", "<a>", "", "a/b", "node", "a\n"];
	let n = alike.len().max(named.len()); let n2 = (n * n) as u64;
	par_enum(run, "alike", &format!("all pairs of {} namespace names and all pairs of {} names and prefixes, there and asked for", alike.len(), named.len()), n2 * 2, |i, l| {
		let mut x = Dec(i); let k = x.flag(); let (a, b) = (x.take(n), x.take(n)); l.step(1); l.state(&i);
		let (root, names, spaces, prefixes): (El, Vec<&str>, Vec<Option<&str>>, Vec<Option<&str>>) = if k {
			if a >= alike.len() || b >= alike.len() { return }
			(ela("r", &[("xmlns:p", alike[a]), ("xmlns:q", alike[b])], vec![pe("p", "a", &[], vec![]), t("x"), ea("b", &[("xmlns", alike[b])], vec![]), e("a"), ea("c", &[("xmlns", alike[a])], vec![]), pe("q", "a", &[], vec![]), pe("p", "d", &[], vec![])]), vec!["a"], vec![None, Some(alike[a]), Some(alike[b])], vec![None, Some("p")])
		} else {
			if a >= named.len() || b >= named.len() || !is_ncname(named[a]) { return }
			let decl = [(format!("xmlns:{}", named[a]), "u"), ("xmlns:o".to_string(), "v")];
			let decl: Vec<(&str, &str)> = if named[a].starts_with("xml") { vec![("xmlns:o", "v")] } else { decl.iter().map(|d| (d.0.as_str(), d.1)).collect() };
			let p = if named[a].starts_with("xml") { "o" } else { named[a] };
			(ela("r", &decl, vec![e("o"), e(named[a]), pe(p, "c", &[], vec![]), pe("o", named[a], &[], vec![]), t(named[a]), pe(p, named[a], &[], vec![e(named[a])]), e(named[a])]), vec![named[a], named[b]], vec![None, Some("u")], vec![None, Some(p), Some(named[b])])
		};
		let m = annotated(root.clone()); let case = format!("{:?} and {:?} in {}", names, spaces, show(&m)); note(&case);
		queries(&mut build(&root), &m, &names, &spaces, &prefixes, &case, l);
	});
	let hi = run.t(80usize, 300);
	par_enum(run, "long", &format!("lists of up to {hi} children with periodic names"), hi as u64 * 12, |i, l| {
		let mut x = Dec(i); let p = x.take(12) + 1; let n = x.0 as usize;
		let root = ela("r", &[("xmlns:p", "u")], (0..n).map(|k| if k % p == 0 { e("b") } else if k % 5 == 3 { c("c") } else if k % 7 == 2 { pe("p", "a", &[], vec![]) } else { ek("a", vec![e("b")]) }).collect());
		let m = annotated(root.clone()); let case = format!("{n} children, period {p}"); note(&case); l.step(1); l.state(&(n, p));
		queries(&mut build(&root), &m, &["a", "b", "zz"], &[None, Some("u")], &[None, Some("p")], &case, l);
	});
	let sp = ForestSpace::new(0, run.t(5, 6), 3, 2);
	par_enum(run, "trees", "queries on every element of all small trees", sp.total, |i, l| {
		let root = el("r", sp.get(i, &|v, id| match v { 0 => e(["a", "b"][id % 2]), 1 => t(["a", ""][id % 2]), _ => c("b") }, &|v, _, k| ek(["a", "b"][v], k)));
		let Some(mut x) = made(&root, l) else { return }; let case = show(&root); note(&case); l.step(1); l.state(&root);
		fn go(x: &mut Element, m: &El, case: &str, l: &mut Local) {
			queries(x, m, &["a", "b", "r"], &[None, Some("u")], &[None, Some("p")], case, l);
			let ms: Vec<&El> = m.els().collect();
			for (c, m) in x.child_elements_mut().zip(ms) { go(c, m, case, l) }
		}
		go(&mut x, &root, &case, l);
	});
}
pub fn queries(x: &mut Element, m: &El, names: &[&str], spaces: &[Option<&str>], prefixes: &[Option<&str>], case: &str, l: &mut Local) {
	let addr = |e: &Element| e as *const Element as usize;
	// addresses of the children, from the plain listing
	let all: Vec<Option<usize>> = x.children().map(|n| n.as_element().ok().map(addr)).collect();
	if all.len() != m.kids.len() || all.iter().zip(&m.kids).any(|(a, b)| a.is_some() != matches!(b, M::E(_))) { return l.fail(case, "children() lists other nodes") }
	for (n, k) in x.children().zip(&m.kids) { if observe_node(n) != *k { return l.fail(case, format!("children(): expected {k:?}, got {:?}", observe_node(n))) } }
	if x.children_mut().map(|n| n.as_element().ok().map(addr)).collect::<Vec<_>>() != all { return l.fail(case, "children_mut() lists other nodes") }
	let want = |f: &dyn Fn(&El) -> bool| -> Vec<usize> { all.iter().zip(&m.kids).filter_map(|(a, k)| match k { M::E(e) if f(e) => *a, _ => None }).collect() };
	let cmp = |what: String, got: Vec<usize>, want: Vec<usize>, l: &mut Local| {
		l.trace(); l.outcome(match want.len() { 0 => "no match", 1 => "one match", _ => "several matches" });
		if got != want { l.fail(case, format!("{what}: selected {:?}, expected {:?} (positions among the children)", got.iter().map(|g| all.iter().position(|a| *a == Some(*g))).collect::<Vec<_>>(), want.iter().map(|g| all.iter().position(|a| *a == Some(*g)).unwrap()).collect::<Vec<_>>())) }
	};
	cmp("child_elements".into(), x.child_elements().map(addr).collect(), want(&|_| true), l);
	cmp("child_elements_mut".into(), x.child_elements_mut().map(|e| addr(e)).collect(), want(&|_| true), l);
	for n in names {
		let w = want(&|e| e.name == *n);
		cmp(format!("elements_by_name({n:?})"), x.elements_by_name(*n).map(addr).collect(), w.clone(), l);
		cmp(format!("elements_by_name_mut({n:?})"), x.elements_by_name_mut(*n).map(|e| addr(e)).collect(), w.clone(), l);
		let f = w.first().copied();
		if x.first_element_by_name(*n).ok().map(addr) != f { return l.fail(case, format!("first_element_by_name({n:?})")) }
		if x.first_element_by_name_mut(*n).ok().map(|e| addr(e)) != f { return l.fail(case, format!("first_element_by_name_mut({n:?})")) }
	}
	for s in spaces {
		let w = want(&|e| e.ns.as_deref() == *s);
		cmp(format!("elements_by_namespace({s:?})"), x.elements_by_namespace(*s).map(addr).collect(), w.clone(), l);
		cmp(format!("elements_by_namespace_mut({s:?})"), x.elements_by_namespace_mut(*s).map(|e| addr(e)).collect(), w, l);
	}
	for p in prefixes {
		let w = want(&|e| if e.prefix.is_empty() { p.is_none() } else { *p == Some(e.prefix.as_str()) });
		cmp(format!("elements_by_namespace_prefix({p:?})"), x.elements_by_namespace_prefix(*p).map(addr).collect(), w.clone(), l);
		cmp(format!("elements_by_namespace_prefix_mut({p:?})"), x.elements_by_namespace_prefix_mut(*p).map(|e| addr(e)).collect(), w, l);
	}
	// changes through the mutable variants show in the tree, and only there
	let mut y = x.clone(); let mut ym = m.clone();
	let name = names[0];
	for e in y.elements_by_name_mut(name) { e.set_attr("hit", "1").unwrap(); }
	for k in &mut ym.kids { if let M::E(e) = k { if e.name == name { e.attrs.insert("hit".into(), "1".into()); } } }
	for e in y.elements_by_namespace_mut(spaces[1]) { e.set_text("ns"); }
	for k in &mut ym.kids { if let M::E(e) = k { if e.ns.as_deref() == spaces[1] { e.kids = vec![t("ns")]; } } }
	for e in y.elements_by_namespace_prefix_mut(prefixes[1]) { e.append(Comment::new("px").unwrap()); }
	for k in &mut ym.kids { if let M::E(e) = k { if Some(e.prefix.as_str()) == prefixes[1] { e.kids.push(c("px")); } } }
	if let Ok(e) = y.first_element_by_name_mut(name) { e.set_attr("first", "1").unwrap(); }
	if let Some(e) = ym.kids.iter_mut().find_map(|k| match k { M::E(e) if e.name == name => Some(e), _ => None }) { e.attrs.insert("first".into(), "1".into()); }
	for n in y.child_elements_mut() { n.set_attr("all", "1").unwrap(); }
	for k in &mut ym.kids { if let M::E(e) = k { e.attrs.insert("all".into(), "1".into()); } }
	for n in y.children_mut() { if let Ok(x) = n.as_comment_mut() { x.set_content("changed").unwrap(); } }
	for k in &mut ym.kids { if let M::C(s) = k { *s = "changed".into(); } }
	let got = observe(&y);
	if got != ym { l.fail(case, format!("after changes through the mutable queries: expected {}, got {}", show(&ym), show(&got))) }
}

// ------------------------------------------------------------------ C14
pub fn c14(run: &Run) {
	let forest = |name: &str, hi: usize, leaf_n: usize, inner_n: usize| {
		let sp = ForestSpace::new(0, hi, leaf_n, inner_n);
		par_enum(run, name, &format!("all trees of at most {hi} nodes over {leaf_n} leaf and {inner_n} inner kinds, all searches from every element"), sp.total, |i, l| {
			let root = el("r", sp.get(i, &labelled, &labelled_inner));
			let Some(x) = made(&root, l) else { return }; let case = show(&root); note(&case); l.step(root.count() as u64); l.state(&root); l.sample(|| case.clone());
			fn go(x: &Element, m: &El, case: &str, l: &mut Local) { searches(x, m, case, l); for (a, b) in x.child_elements().zip(m.els()) { go(a, b, case, l) } }
			go(&x, &root, &case, l);
		});
	};
	forest("kinds", run.t(4, 5), 7, 2);
	forest("few-kinds", run.t(5, 6), 4, 1);
	forest("elements", run.t(8, 9), 1, 1);
	// nothing to tell the nodes apart by
	for (name, hi, leaf_n) in [("alike", run.t(11, 12), 1), ("alike-kinds", run.t(7, 8), 4)] {
		let sp = ForestSpace::new(0, hi, leaf_n, 1);
		par_enum(run, name, &format!("all trees of at most {hi} nodes over {leaf_n} leaf kinds, all of the same content; all searches from the root"), sp.total, |i, l| {
			let root = el("r", sp.get(i, &|v, _| match v { 0 => e("a"), 1 => c("t"), 2 => d("t"), _ => t("t") }, &|_, _, k| ek("a", k)));
			let Some(x) = made(&root, l) else { return }; let case = show(&root); note(&case); l.step(root.count() as u64); l.state(&root);
			searches(&x, &root, &case, l);
		});
	}
	let hi = run.t(150u64, 400);
	par_enum(run, "sweeps", &format!("chains, lists, combs and bushes of up to {hi} nodes"), hi * 5, |i, l| {
		let n = (i / 5) as usize; let kind = i % 5; let id = |k: usize| k.to_string();
		let root = match kind {
			0 => { let mut v = vec![]; for k in (0..n).rev() { v = vec![ea("a", &[("id", &id(k))], v)]; } el("r", v) }
			1 => el("r", (0..n).map(|k| labelled(if k % 2 == 1 { 2 } else { k % 4 }, k)).collect()),
			2 => { let mut v = vec![]; for k in (0..n).rev() { v = vec![t(&format!("t{k}")), ea("b", &[("id", &id(k))], v), c(&id(k)), t(&format!("z{k}"))]; } el("r", v) }
			3 => el("r", (0..n).map(|k| ea("b", &[("id", &id(k))], vec![labelled(k % 4, k + 100_000)])).collect()),
			_ => el("r", (0..n / 10 + 1).map(|k| ea("a", &[("id", &id(k))], (0..10).map(|j| ea("b", &[("id", &id(1000 + k * 10 + j))], vec![t(&format!("t{j}"))])).collect())).collect()),
		};
		let case = format!("sweep {kind} of {n}"); note(&case); l.step(1); l.state(&(kind, n));
		searches(&build(&root), &root, &case, l);
	});
}
/// `sum` is sensitive to multiplicity: compare sorted lists of node identities
pub fn searches(x: &Element, m: &El, case: &str, l: &mut Local) {
	l.trace();
	let mut below = vec![]; m.below(&mut below);
	let mut addr_of: Vec<(usize, &M)> = vec![];
	fn walk<'a>(x: &Element, m: &'a El, out: &mut Vec<(usize, &'a M)>) { for (n, k) in x.children().zip(&m.kids) { out.push((&**n as *const dyn Node as *const u8 as usize, k)); if let M::E(c) = k { walk(n.as_element().unwrap(), c, out) } } }
	walk(x, m, &mut addr_of);
	if addr_of.len() != below.len() { return l.fail(case, "children() lists other nodes") }
	let na = |n: &Box<dyn Node>| &**n as *const dyn Node as *const u8 as usize;
	let want = |f: &dyn Fn(&M) -> bool| { let mut v: Vec<usize> = addr_of.iter().filter(|a| f(a.1)).map(|a| a.0).collect(); v.sort(); v };
	fn sorted(i: impl Iterator<Item = usize>) -> Vec<usize> { let mut v: Vec<usize> = i.collect(); v.sort(); v }
	let mut bad = None;
	let mut cmp = |what: &str, got: Vec<usize>, want: Vec<usize>| if got != want && bad.is_none() { bad = Some(format!("{what} from {}: {} nodes ({} distinct), expected {}", m.name, got.len(), got.iter().collect::<BTreeSet<_>>().len(), want.len())) };
	cmp("all_children", sorted(x.all_children().map(na)), want(&|_| true));
	cmp("children_recursive", sorted(x.children_recursive().map(na)), want(&|_| true));
	cmp("search(all)", sorted(x.search(|_| true).map(na)), want(&|_| true));
	cmp("search(none)", sorted(x.search(|_| false).map(na)), vec![]);
	cmp("search(text)", sorted(x.search(|n| n.is_text()).map(na)), want(&|m| m.kind() == 1));
	cmp("search(comment)", sorted(x.search(|n| n.is_comment()).map(na)), want(&|m| m.kind() == 2));
	cmp("search(CDATA)", sorted(x.search(|n| n.is_cdata()).map(na)), want(&|m| m.kind() == 3));
	cmp("search_elements(all)", sorted(x.search_elements(|_| true).map(|e| e as *const Element as usize)), want(&|m| m.kind() == 0));
	for n in if below.len() > 20 { crate::checks_big::names_of(m) } else { vec!["a", "b", "zz"] } { cmp(&format!("search_elements_by_name({n:?})"), sorted(x.search_elements_by_name(n).map(|e| e as *const Element as usize)), want(&|m| matches!(m, M::E(e) if e.name == n))); }
	cmp("search_elements(by name a)", sorted(x.search_elements(|e| e.name() == "a").map(|e| e as *const Element as usize)), want(&|m| matches!(m, M::E(e) if e.name == "a")));
	cmp("search_text(all)", sorted(x.search_text(|_| true).map(|e| e as *const Text as usize)), want(&|m| m.kind() == 1));
	cmp("search_comments(all)", sorted(x.search_comments(|_| true).map(|e| e as *const Comment as usize)), want(&|m| m.kind() == 2));
	let n = below.len();
	if n <= 6 {
		// every set of labels as predicate
		for set in 0..1u32 << n {
			let keep = |m: &M| label_m(m).map(|k| k < 32 && set >> k & 1 == 1).unwrap_or(false);
			cmp("search(set)", sorted(x.search(|r| label_r(r).map(|k| k < 32 && set >> k & 1 == 1).unwrap_or(false)).map(na)), want(&keep));
			cmp("search_elements(set)", sorted(x.search_elements(|r| label_e(r).map(|k| k < 32 && set >> k & 1 == 1).unwrap_or(false)).map(|e| e as *const Element as usize)), want(&|m| m.kind() == 0 && keep(m)));
		}
		for k in 0..n {
			let s = format!("t{k}");
			cmp("search_text(one)", sorted(x.search_text(|t| t.content == s).map(|e| e as *const Text as usize)), want(&|m| matches!(m, M::T(x) if *x == s)));
			let s = k.to_string();
			cmp("search_comments(one)", sorted(x.search_comments(|t| t.get_content() == s).map(|e| e as *const Comment as usize)), want(&|m| matches!(m, M::C(x) if *x == s)));
		}
	}
	if let Some(b) = bad { return l.fail(case, b) }
	if x.text() != m.text() { l.fail(case, format!("text() of {} is {:?}, expected {:?}", m.name, x.text(), m.text())) }
}

// ------------------------------------------------------------------ C15
pub fn c15(run: &Run) {
	let names = ["a", "b", "xmlns", "xmlns:p", "B", "z:y", "y:z"];
	let vals = ["", "1", "<\"'>&", "é\n"];
	let mut ops = vec![];
	for n in names { for v in vals { if n.starts_with("xmlns") && v.is_empty() { continue } ops.push(Op::SetAttr(vec![], n.into(), v.into())); } ops.push(Op::RemoveAttr(vec![], n.into())); }
	ops.push(Op::RemoveAttr(vec![], "zz".into())); ops.push(Op::RemoveAttr(vec![], "".into())); ops.push(Op::ClearAttrs(vec![]));
	let starts: Vec<(&str, Box<dyn Fn() -> Pair + Sync>)> = vec![("empty", Box::new(|| from_model(el("r", vec![])))), ("parsed", Box::new(|| from_text("<r b='x' a=\"y\" xmlns:p='z' c='&quot;'/>")))];
	let check = |x: &Element, m: &El| -> Option<String> {
		for n in names.iter().chain(&["zz", "c", "", "A"]) { if x.get_attr(*n) != m.attrs.get(*n) { return Some(format!("get_attr({n:?}) is {:?}, expected {:?}", x.get_attr(*n), m.attrs.get(*n))) } }
		let got: BTreeMap<String, String> = x.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
		if got != m.attrs { return Some(format!("attributes() is {got:?}, expected {:?}", m.attrs)) }
		let (s, w) = (Node::to_string_with_indent(x, "  "), print(m, "  "));
		if s != w { return Some(format!("written as {s:?}, expected {w:?}")) }
		None
	};
	let depth = run.t(4, 5);
	for (name, st) in &starts {
		bfs(run, name, &format!("all histories of at most {depth} of {} attribute operations", ops.len()), ops.len(), depth, true, |path, l| {
			if !l.quiet_note() { note(&describe(&ops, path)); }
			let (doc, m) = history(st.as_ref(), &ops, path, l)?;
			l.sample(|| describe(&ops, path));
			if let Some(why) = check(doc.root_element(), &m.root) { l.fail(describe(&ops, path), why); return None }
			Some(h128(&m))
		});
	}
	// a pool of names: every subset, set in several orders, and all internal orders of up to 4 attributes
	let pool = ["xmlns", "xmlns:b", "xmlns:a", "xmlns:B", "a", "A", "b", "a:b", "b:b", "c:a", "é", "_", "a-b", "ab", "aa", "y", "z", "w1", "w10", "w2"];
	let n = run.t(13usize, 18);
	par_enum(run, "subsets", &format!("all subsets of {n} names in 4 insertion orders, by set_attr and constructor"), 1 << n, |i, l| {
		let sel: Vec<&str> = (0..n).filter(|k| i >> k & 1 == 1).map(|k| pool[k]).collect();
		let m = ela("r", &sel.iter().map(|s| (*s, *s)).collect::<Vec<_>>(), vec![]);
		let w = print(&m, "  "); note(&w); l.step(1); l.state(&m);
		for o in 0..4 {
			let mut s = sel.clone();
			match o { 0 => {} 1 => s.reverse(), 2 => { let h = s.len() / 2; s.rotate_left(h) } _ => { s.sort_by_key(|x| h64(*x)) } }
			let mut x = Element::new_from_name("r").unwrap();
			for k in &s { x.set_attr(*k, "old").unwrap(); } for k in s.iter().rev() { x.set_attr(*k, *k).unwrap(); }
			l.trace();
			if x.to_string() != w { return l.fail(w.clone(), format!("order {o}: written as {}", x.to_string())) }
			let y = Element::new_with_attributes("r", s.iter().map(|k| (*k, *k)).collect::<HashMap<_, _>>()).unwrap();
			if y.to_string() != w { return l.fail(w.clone(), format!("constructed, order {o}: written as {}", y.to_string())) }
		}
	});
	let quads: Vec<Vec<&str>> = { let p = ["xmlns", "xmlns:a", "a", "b:d", "c:d", "é"]; let mut v = vec![]; for s in 0u32..64 { if (1..=4).contains(&s.count_ones()) { v.push((0..6).filter(|k| s >> k & 1 == 1).map(|k| p[k]).collect()); } } v };
	par_enum(run, "hash-orders", "every iteration order of the internal map for every set of up to 4 of 6 names", quads.len() as u64, |i, l| {
		let q = &quads[i as usize]; let fact: usize = (1..=q.len()).product();
		let m = ela("r", &q.iter().map(|s| (*s, *s)).collect::<Vec<_>>(), vec![]); let w = print(&m, "  ");
		let mut seen: HashSet<Vec<String>> = HashSet::new();
		let mut tries = 0;
		while seen.len() < fact && tries < 20_000 {
			tries += 1;
			let x = Element::new_with_attributes("r", q.iter().map(|k| (*k, *k)).collect::<HashMap<_, _>>()).unwrap();
			let order: Vec<String> = x.attributes().keys().cloned().collect();
			if !seen.insert(order.clone()) { continue }
			l.trace(); l.step(1); l.state(&order);
			if x.to_string() != w { return l.fail(format!("{order:?}"), format!("written as {}, expected {w}", x.to_string())) }
		}
		l.outcome(if seen.len() == fact { "all internal orders seen" } else { "not all internal orders seen" });
	});
	// names that contain one another
	let rel = ["xmlns", "xmlns:k", "k", "p:k", "k:p", "xmlnsk", "xml:k", "kk"];
	let mut ops = vec![]; for n in rel { ops.push(Op::SetAttr(vec![], n.into(), "1".into())); ops.push(Op::RemoveAttr(vec![], n.into())); ops.push(Op::RemoveAttr(vec![], format!("{n}:"))); }
	let asked: Vec<String> = rel.iter().flat_map(|n| { let (p, k) = n.split_once(':').unwrap_or(("", n)); vec![n.to_string(), format!("xml:{n}"), format!("p:{n}"), format!("xmlns:{n}"), format!(":{n}"), format!(" {n}"), format!("{n} "), n.to_uppercase(), k.to_string(), p.to_string(), format!("p:{k}"), format!("{k}:{p}"), format!("{{{p}}}{k}"), format!("'{n}'"), format!("@{n}"), format!("{n}=\"1\"")] }).collect();
	let depth = run.t(3, 5);
	for full in [false, true] {
		let st = move || from_model(ela("r", &if full { rel.iter().map(|k| (*k, "0")).collect::<Vec<_>>() } else { vec![] }, vec![]));
		bfs(run, if full { "related/full" } else { "related/empty" }, &format!("all histories of at most {depth} of {} operations on names that contain one another", ops.len()), ops.len(), depth, true, |path, l| {
			if !l.quiet_note() { note(&describe(&ops, path)); }
			let (doc, m) = history(&st, &ops, path, l)?;
			let (x, m) = (doc.root_element(), &m.root);
			for n in &asked { if x.get_attr(n.as_str()) != m.attrs.get(n) { l.fail(describe(&ops, path), format!("get_attr({n:?}) is {:?}, expected {:?}", x.get_attr(n.as_str()), m.attrs.get(n))); return None } }
			let got: BTreeMap<String, String> = x.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
			let (s, w) = (Node::to_string_with_indent(x, "  "), print(m, "  "));
			if got != m.attrs || s != w { l.fail(describe(&ops, path), format!("attributes() is {got:?}, expected {:?}; written as {s:?}, expected {w:?}", m.attrs)); return None }
			Some(h128(m))
		});
	}
	// values: anything
	let value = |s: &str, l: &mut Local| {
		note(s); l.step(1); l.trace(); l.state(s);
		let mut x = Element::new_from_name("r").unwrap();
		x.set_attr("k", "old").unwrap(); x.set_attr("a", "1").unwrap(); x.set_attr("k", s).unwrap();
		let m = ela("r", &[("a", "1"), ("k", s)], vec![]);
		if let Some(w) = check(&x, &m) { return l.fail(s, w) }
		if x.get_attr("k").map(|v| v.as_str()) != Some(s) { return l.fail(s, "get_attr gives another value") }
		match parse(&x.to_string()) { Ok(d) if d.root_element().get_attr("k").map(|v| v.as_str()) == Some(s) && d.root_element().attributes().len() == 2 => {}, _ => return l.fail(s, format!("written as {}, not read back", x.to_string())) }
		if x.remove_attr("k").as_deref() != Some(s) || x.get_attr("k").is_some() || x.attributes().len() != 1 { l.fail(s, "remove_attr does not give the value back") }
	};
	let toks = ["\"", "'", "<", ">", "&", "&amp;", " ", "\n", "\t", "=", "/", "a", "é", "\u{1F600}", "]]>", "-->", "\u{0}", "k=\"v\"", "\r"];
	let k = run.t(3, 4);
	par_enum(run, "values", &format!("all values of at most {k} of {} tokens", toks.len()), strings_upto(toks.len(), k), |i, l| value(&nth_concat(&toks, i), l));
	let q = if run.quick() { quick_scalars() } else { (0..SCALARS).collect() };
	par_enum(run, "value-scalars", "Unicode scalar values as and inside values", q.len() as u64, |i, l| { let ch = scalar(q[i as usize]); value(&ch.to_string(), l); value(&format!("<{ch}\"{ch}"), l) });
	let hi = run.t(200u64, 600);
	par_enum(run, "many", &format!("up to {hi} attributes set, overwritten, half removed"), hi, |i, l| {
		let n = i as usize; note(&format!("{n} attributes")); l.step(n as u64); l.trace();
		let mut x = Element::new_from_name("r").unwrap(); let mut m = el("r", vec![]);
		for k in 0..n { let name = format!("n{}", (k * 37) % 1009); x.set_attr(name.as_str(), k.to_string()).unwrap(); m.attrs.insert(name, k.to_string()); }
		for k in 0..n / 2 { let name = format!("n{}", (k * 37) % 1009); let (a, b) = (x.remove_attr(name.as_str()), m.attrs.remove(&name)); if a != b { return l.fail(format!("{n} attributes"), "remove_attr gives another value") } }
		if let Some(w) = check(&x, &m) { l.fail(format!("{n} attributes"), w) }
	});
}

// ------------------------------------------------------------------ C16
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum NameClass { Ordinary, Colon, NotAName }
pub fn classify(s: &str) -> NameClass {
	if is_ncname(s) { return NameClass::Ordinary }
	let start = s.chars().next().map(|c| name_start(c) || c == ':').unwrap_or(false);
	if start && s.chars().all(|c| name_char(c) || c == ':') { NameClass::Colon } else { NameClass::NotAName }
}
pub fn c16(run: &Run) {
	type NoAttr = Option<HashMap<String, String>>;
	let check = |s: &str, l: &mut Local| {
		let cl = classify(s);
		note(s); l.step(1); l.state(s); l.outcome(match cl { NameClass::Ordinary => "name", NameClass::Colon => "name with colon", NameClass::NotAName => "not a name" });
		let bad_elem = |e: &KissXmlError| matches!(e, KissXmlError::InvalidElementName(_));
		let bad_attr = |e: &KissXmlError| matches!(e, KissXmlError::InvalidAttributeName(_));
		let judge = |what: &str, ok: bool, right: bool, l: &mut Local| {
			l.trace();
			match cl {
				NameClass::Ordinary if !ok => l.fail(s, format!("{what}: refused although an ordinary name")),
				NameClass::NotAName if ok => l.fail(s, format!("{what}: accepted although not a name")),
				_ => if !ok && !right { l.fail(s, format!("{what}: refused with the wrong kind of error")) }
			}
		};
		// element names
		let a = Element::new(s, None, NoAttr::None, None, None, None);
		let b = Element::new_from_name(s);
		let c2 = Element::new_with_text(s, "t");
		let d2 = Element::new_with_children(s, vec![]);
		let e2 = Element::new_with_attributes(s, HashMap::from([("k", "v")]));
		let f2 = Element::new_with_attributes_and_text(s, HashMap::from([("k", "v")]), "t");
		let g2 = Element::new_with_attributes_and_children(s, HashMap::from([("k", "v")]), vec![]);
		for (what, r) in [("Element::new", a), ("new_from_name", b), ("new_with_text", c2), ("new_with_children", d2), ("new_with_attributes", e2), ("new_with_attributes_and_text", f2), ("new_with_attributes_and_children", g2)] {
			judge(what, r.is_ok(), r.as_ref().err().map(bad_elem).unwrap_or(true), l);
			if let Ok(x) = r {
				if what != "Element::new" && what != "new_from_name" { continue }
				if x.name() != s { l.fail(s, format!("{what}: name() is {:?}", x.name())) }
				let mut outer = Element::new_from_name("o").unwrap(); outer.append(x.clone()); outer.append(Element::new_with_children(s, vec![x.clone().boxed()]).unwrap());
				let text = Document::new(x).to_string();
				match parse(&text) { Ok(d) if d.root_element().tag_name() == s && d.root_element().children().count() == 0 => {}, r => l.fail(s, format!("{what}: written as {text:?}, read as {r:?}")) }
				let text = outer.to_string();
				match parse(&text) { Ok(d) if d.root_element().child_elements().all(|c| c.tag_name() == s) && d.root_element().search(|_| true).count() == 3 => {}, r => l.fail(s, format!("{what}: written as {text:?}, read as {r:?}")) }
			}
		}
		// prefixes (xml and xmlns are reserved)
		if s != "xml" && s != "xmlns" {
			let r = Element::new("n", None, NoAttr::None, Some("u".into()), Some(s.into()), None);
			judge("prefix", r.is_ok(), r.as_ref().err().map(bad_elem).unwrap_or(true), l);
			if let Ok(x) = r {
				let text = Document::new(x).to_string();
				match parse(&text) { Ok(d) if d.root_element().namespace_prefix().as_deref() == Some(s) && d.root_element().name() == "n" && d.root_element().namespace().as_deref() == Some("u") => {}, r => l.fail(s, format!("prefix: written as {text:?}, read as {r:?}")) }
			}
			let r = Element::new("n", None, NoAttr::None, None, Some(s.into()), None);
			judge("prefix without namespace", r.is_ok(), r.as_ref().err().map(bad_elem).unwrap_or(true), l);
		}
		// attribute names; a prefixed name is an ordinary one too
		let cl = match s.split_once(':') { Some((p, n)) if is_ncname(p) && is_ncname(n) => NameClass::Ordinary, _ => cl };
		let judge = |what: &str, ok: bool, right: bool, l: &mut Local| {
			l.trace();
			match cl {
				NameClass::Ordinary if !ok => l.fail(s, format!("{what}: refused although an ordinary name")),
				NameClass::NotAName if ok => l.fail(s, format!("{what}: accepted although not a name")),
				_ => if !ok && !right { l.fail(s, format!("{what}: refused with the wrong kind of error")) }
			}
		};
		let mut x = Element::new_with_attributes("r", HashMap::from([("k", "v")])).unwrap(); x.set_text("t");
		let before = observe(&x);
		let r = x.set_attr(s, "new");
		judge("set_attr", r.is_ok(), true, l);
		if r.is_err() { if observe(&x) != before { l.fail(s, "set_attr: refused, but the element changed") } }
		else {
			let mut m = before.clone(); m.attrs.insert(s.into(), "new".into()); annotate(&mut m, &Scope::new());
			if observe(&x) != m { l.fail(s, format!("set_attr: expected {}, got {}", show(&m), show(&observe(&x)))) }
			let text = Document::new(x).to_string();
			match parse(&text) { Ok(d) if observe(d.root_element()) == m => {}, r => l.fail(s, format!("set_attr: written as {text:?}, read as {r:?}")) }
		}
		for (what, r) in [("attribute of Element::new", Element::new("r", None, Some(HashMap::from([(s, "v")])), None, None, None)), ("attribute of new_with_attributes", Element::new_with_attributes("r", HashMap::from([(s, "v"), ("zzz", "w")]))),
			("attribute of new_with_attributes_and_text", Element::new_with_attributes_and_text("r", HashMap::from([(s, "v")]), "t")), ("attribute of new_with_attributes_and_children", Element::new_with_attributes_and_children("r", HashMap::from([(s, "v")]), vec![]))] {
			judge(what, r.is_ok(), r.as_ref().err().map(bad_attr).unwrap_or(true), l);
			if let Ok(x) = r { if x.get_attr(s).map(|v| v.as_str()) != Some("v") { l.fail(s, format!("{what}: lost")) } }
		}
		// the parser agrees with the constructors about what an element name is
		if cl == NameClass::Ordinary && !s.contains(':') { match parse(&format!("<{s}><{s} {s}='1' /></{s}>")) { Ok(d) if d.root_element().name() == s && d.root_element().first_element_by_name(s).is_ok_and(|e| e.get_attr(s).is_some()) => {}, r => l.fail(s, format!("parsed as {r:?}")) } }
	};
	let alpha = ["a", "Z", "_", "1", "-", ".", ":", " ", "<", ">", "/", "=", "\"", "'", "&", "\n", "\t", "é", "\u{b7}", "\u{0}", ";", "!", "?", "$", "\u{a0}", "\u{2028}", "\u{1F600}", "\u{d7}", "\\", "%", "#", "@", "(", "*"];
	let k = run.t(3, 4);
	par_enum(run, "strings", &format!("all strings of at most {k} of {} characters, at every entry point", alpha.len()), strings_upto(alpha.len(), k), |i, l| check(&nth_concat(&alpha, i), l));
	let toks = ["xmlns", "xml", "a", "<b/>", " k=\"v\"", "&amp;", "-->", "]]>", "a b", ":", "p:n", "\r\n", "é", "0"];
	par_enum(run, "tokens", "all sequences of at most 3 of 14 tokens", strings_upto(toks.len(), 3), |i, l| check(&nth_concat(&toks, i), l));
	let q = if run.quick() { quick_scalars() } else { (0..SCALARS).collect() };
	par_enum(run, "scalars", "Unicode scalar values (quick: below U+2100 and class boundaries; thorough: all) alone, first, last and in the middle", q.len() as u64, |i, l| { let ch = scalar(q[i as usize]); for s in [ch.to_string(), format!("{ch}a"), format!("a{ch}"), format!("a{ch}b")] { check(&s, l) } });
	par_enum(run, "lengths", "names of up to 400 characters of 4 kinds, with one foreign character at each end and in the middle", 400 * 4 * 4, |i, l| {
		let mut x = Dec(i); let u = *x.pick(&["a", "é", "-", "\u{10000}"]); let wh = x.take(4); let n = x.0 as usize;
		let mut s = format!("a{}", u.repeat(n)); match wh { 0 => {} 1 => s.insert(0, '1'), 2 => s.push(' '), _ => { let mid = s.char_indices().nth(n / 2).map(|x| x.0).unwrap_or(0); s.insert(mid, '/') } }
		check(&s, l) });
	// the name check does not depend on what else the constructor is given
	let kidsets: Vec<Vec<M>> = vec![vec![], vec![t("x")], vec![t("x"), e("b")], vec![e("a"), e("b"), e("c")], vec![c("c"), d("d")], vec![t(""), t(" ")], (0..20).map(|_| e("k")).collect()];
	let bads = ["1a", "a b", "", "<", "a\"", "-x", "a/", " a", "a\n", "é é", "a=", "&amp;", "\u{b7}", "x>"];
	let goods = ["a", "_", "é-1.b", "xmlns-like", "A\u{b7}", "b1"];
	let attsets: [&[(&str, &str)]; 6] = [&[], &[("k", "v")], &[("k", "v"), ("l", "w"), ("m", "x")], &[("xmlns", "u")], &[("xmlns:p", "u"), ("p:k", "")], &[("a", ""), ("b", "<"), ("c", "\""), ("d", "1"), ("e", "2"), ("f", "3"), ("g", "4"), ("h", "5")]];
	let which = ["name", "prefix", "attribute", "none"];
	let (nk, na, tx, nu) = (kidsets.len(), attsets.len(), [None, Some(""), Some("t")], [None, Some("u"), Some("")]);
	par_enum(run, "constructors", "14 bad and 6 good names as element name, prefix or attribute name x 6 attribute sets x 7 child lists x 3 texts x 3 namespaces x prefix or not, at every constructor", (20 * 4 * na * nk * 3 * 3 * 2) as u64, |i, l| {
		let mut x = Dec(i); let w = x.take(4); let si = x.take(20); let at = attsets[x.take(na)]; let ks = &kidsets[x.take(nk)]; let text = *x.pick(&tx); let u = *x.pick(&nu); let px = x.flag();
		if u == Some("") && px { return } // prefixes cannot be bound to nothing
		let good = si >= 14; let s = if good { goods[si - 14] } else { bads[si] };
		let ok = good || w == 3;
		let name = if w == 0 { s } else { "n" };
		let prefix = if w == 1 { Some(s.to_string()) } else if px { Some("p".to_string()) } else { None };
		if w == 1 && s.is_empty() { return } // no prefix
		if w == 1 && u == Some("") { return }
		let mut attrs: HashMap<&str, &str> = at.iter().copied().collect(); if w == 2 { attrs.insert(s, "v"); }
		let boxes = || -> Vec<Box<dyn Node>> { ks.iter().map(build_node).collect() };
		let case = format!("{} {s:?}, prefix {prefix:?}, attributes {at:?}, {} children, text {text:?}, namespace {u:?}", which[w], ks.len()); note(&case); l.step(1); l.state(&i);
		let mut rs: Vec<(&str, Result<Element, KissXmlError>)> = vec![("new", Element::new(name, text.map(|t| t.to_string()), if attrs.is_empty() && i % 2 == 0 { None } else { Some(attrs.clone()) }, u.map(|u| u.to_string()), prefix.clone(), if ks.is_empty() && i % 3 == 0 { None } else { Some(boxes()) }))];
		if prefix.is_none() && u.is_none() {
			if text.is_none() { rs.push(("new_with_attributes_and_children", Element::new_with_attributes_and_children(name, attrs.clone(), boxes()))); if ks.is_empty() { rs.push(("new_with_attributes", Element::new_with_attributes(name, attrs.clone()))) } }
			if attrs.is_empty() && text.is_none() { rs.push(("new_with_children", Element::new_with_children(name, boxes()))) }
			if let (Some(t), true) = (text, ks.is_empty()) { rs.push(("new_with_attributes_and_text", Element::new_with_attributes_and_text(name, attrs.clone(), t))); if attrs.is_empty() { rs.push(("new_with_text", Element::new_with_text(name, t))) } }
		}
		for (what, r) in rs {
			l.trace(); l.outcome(if r.is_ok() { "constructed" } else { "refused" });
			if ok != r.is_ok() { return l.fail(case, format!("{what}: {}", if ok { format!("refused an ordinary name: {}", r.err().unwrap()) } else { "accepted what is not a name".to_string() })) }
			match r {
				Err(KissXmlError::InvalidElementName(_)) if w != 2 => {} Err(KissXmlError::InvalidAttributeName(_)) if w == 2 => {}
				Err(e) => return l.fail(case, format!("{what}: wrong kind of error: {e:?}")),
				Ok(e) => if e.name() != name || e.namespace_prefix() != prefix || attrs.iter().any(|(k, v)| !(*k == "xmlns" && prefix.is_none() && u.is_some()) && !(u.is_some() && prefix.as_ref().is_some_and(|p| *k == format!("xmlns:{p}"))) && e.get_attr(*k).map(|x| x.as_str()) != Some(*v)) { return l.fail(case, format!("{what}: built {e}")) }
			}
		}
	});
	// every ASCII pair and triple around a letter
	par_enum(run, "ascii", "all pairs of ASCII characters, with a letter before, between or after", 128 * 128, |i, l| { let (a, b) = ((i / 128) as u8 as char, (i % 128) as u8 as char); for s in [format!("{a}{b}"), format!("x{a}{b}"), format!("{a}x{b}"), format!("x{a}y{b}")] { check(&s, l) } });
}

// ------------------------------------------------------------------ C17
pub fn c17(run: &Run) {
	let check = |s: &str, l: &mut Local| {
		note(s); l.step(1); l.state(s); l.sample(|| s.to_string());
		// ordinary: content XML itself allows must be accepted
		for kind in 0..2 {
			let (bad, plain) = if kind == 0 { (s.contains("-->"), !s.contains("--") && !s.ends_with('-')) } else { (s.contains("]]>"), !s.contains("]]>")) };
			let what = ["comment", "CDATA"][kind];
			let made: Result<Box<dyn Node>, bool> = if kind == 0 { Comment::new(s).map(|x| x.boxed()).map_err(|e| matches!(KissXmlError::from(e), KissXmlError::InvalidContent(_))) } else { CData::new(s).map(|x| x.boxed()).map_err(|e| matches!(KissXmlError::from(e), KissXmlError::InvalidContent(_))) };
			// the setter decides alike, and leaves the old content if it refuses
			let (set, now) = if kind == 0 { let mut x = Comment::new("old").unwrap(); let r = x.set_content(s).is_ok(); (r, x.get_content().to_string()) } else { let mut x = CData::new("old").unwrap(); let r = x.set_text(s).is_ok(); (r, x.get_content().to_string()) };
			l.trace(); l.outcome(if made.is_ok() { "accepted" } else { "refused" });
			if bad && made.is_ok() { return l.fail(s, format!("{what}: accepted although it contains the closing delimiter")) }
			if plain && made.is_err() { return l.fail(s, format!("{what}: harmless content refused")) }
			if set != made.is_ok() { return l.fail(s, format!("{what}: constructor and setter disagree")) }
			if now != if set { s } else { "old" } { return l.fail(s, format!("{what}: after the setter the content is {now:?}")) }
			let Ok(node) = made else { continue };
			let (mk, lit) = if kind == 0 { (M::C(s.into()), format!("<!--{s}-->")) } else { (M::D(s.into()), format!("<![CDATA[{s}]]>")) };
			if observe_node(&node) != mk || node.text() != s { return l.fail(s, format!("{what}: stored as {:?}", observe_node(&node))) }
			if node.to_string() != lit || Node::to_string_with_indent(node.as_node(), "\t") != lit { return l.fail(s, format!("{what}: written as {:?}", node.to_string())) }
			// in every position
			for kids in [vec![mk.clone()], vec![mk.clone(), e("a")], vec![e("a"), mk.clone()], vec![t("x"), mk.clone(), t(" y ")], vec![mk.clone(), mk.clone()], vec![c("-"), mk.clone(), d("]"), ek("b", vec![t("t"), mk.clone()])]] {
				let root = el("r", kids);
				let (doc, m) = from_model(root.clone());
				if let Err(x) = saved(&doc, &m, &["  "]) { return l.fail(s, format!("{what}: {x}")) }
				// and straight from source text
				let src = rendered(&root, &PLAIN);
				if !src.contains(&lit) { panic!("MODEL ERROR: {src}") }
				match parse(&src) { Ok(d) if observe(d.root_element()) == root => {}, Ok(d) => return l.fail(s, format!("{what}: {src:?} read as {}", show(&observe(d.root_element())))), Err(x) => return l.fail(s, format!("{what}: {src:?} refused: {x}")) }
			}
		}
	};
	let a1 = ["-", ">", "a", "!", "<", " "];
	let k = run.t(6, 8);
	par_enum(run, "comment-chars", &format!("all strings of at most {k} of {} characters", a1.len()), strings_upto(a1.len(), k), |i, l| check(&nth_concat(&a1, i), l));
	let a2 = ["]", ">", "[", "a", "<", "&"];
	par_enum(run, "cdata-chars", &format!("all strings of at most {k} of {} characters", a2.len()), strings_upto(a2.len(), k), |i, l| check(&nth_concat(&a2, i), l));
	let a3 = ["&amp;", "&#65;", "<!--", "--", "->", "]]", "]>", "<![CDATA[", "<a>", "</r>", "\"", "'", "\n", "\r\n", "é", "\u{1F600}", "?>", "<?", " ", "-", "=", "/>"];
	let k = run.t(3, 4);
	par_enum(run, "tokens", &format!("all sequences of at most {k} of {} tokens", a3.len()), strings_upto(a3.len(), k), |i, l| check(&nth_concat(&a3, i), l));
	let q = if run.quick() { quick_scalars() } else { (0..SCALARS).collect() };
	par_enum(run, "scalars", "Unicode scalar values (quick: below U+2100 and class boundaries; thorough: all) alone and between delimiters", q.len() as u64, |i, l| { let ch = scalar(q[i as usize]); check(&ch.to_string(), l); check(&format!("-{ch}-]{ch}]"), l) });
	par_enum(run, "lengths", "7 patterns repeated up to 700 times", 7 * 701, |i, l| check(&["-", "]", "a", "- >", "] ]>", "é<", "&amp;"][(i % 7) as usize].repeat((i / 7) as usize), l));
	// From<&str>, From<String>
	par_enum(run, "from", "conversions from text agree with the constructors", strings_upto(a1.len(), 4), |i, l| {
		let s = nth_concat(&a1, i); note(&s); l.step(1); l.trace();
		if !s.contains("-->") && Comment::new(s.as_str()).is_ok() { if Comment::from(s.as_str()).get_content() != s || Comment::from(s.clone()).get_content() != s { l.fail(s.as_str(), "Comment::from changes the content") } }
		if !s.contains("]]>") { if CData::from(s.as_str()).get_content() != s || CData::from(s.clone()).get_content() != s { l.fail(s.as_str(), "CData::from changes the content") } }
		if Text::from(s.as_str()).content != s || Text::from(s.clone()).content != s { l.fail(s, "Text::from changes the content") }
	});
	// a setter call inside of a tree
	let vals = ["", "x", "-", "-->", "a-->b", "]]>", "a]]>b", "--", "]]", "<&>"];
	par_enum(run, "in-tree", "sequences of 4 updates of a comment and a CDATA section inside of a parsed tree", 10u64.pow(4), |i, l| {
		let mut x = Dec(i); let mut doc = parse("<r>t<!--c0--><a><![CDATA[d0]]></a></r>").unwrap(); let (mut cm, mut dm) = ("c0".to_string(), "d0".to_string());
		let mut log = vec![];
		for _ in 0..4 {
			let v = *x.pick(&vals); log.push(v);
			let n = doc.root_element_mut().children_mut().nth(1).unwrap(); let ok = n.as_comment_mut().unwrap().set_content(v).is_ok(); if ok { cm = v.into(); }
			if ok && v.contains("-->") { return l.fail(format!("{log:?}"), "accepted the closing delimiter") }
			let n = doc.root_element_mut().first_element_by_name_mut("a").unwrap().children_mut().next().unwrap(); let ok = n.as_cdata_mut().unwrap().set_text(v).is_ok(); if ok { dm = v.into(); }
			if ok == v.contains("]]>") { return l.fail(format!("{log:?}"), "CDATA setter decides wrongly") }
		}
		note(&format!("{log:?}")); l.step(8); l.trace();
		let m = el("r", vec![t("t"), M::C(cm), ek("a", vec![M::D(dm)])]);
		if observe(doc.root_element()) != m { return l.fail(format!("{log:?}"), format!("expected {}, got {}", show(&m), show(&observe(doc.root_element())))) }
		if let Err(e) = saved(&doc, &Doc { decl: None, dtds: vec![], root: m }, &["  "]) { l.fail(format!("{log:?}"), e) }
	});
}

// ------------------------------------------------------------------ C19
pub fn c19(run: &Run) {
	let valid: Vec<String> = ["\t".to_string()].into_iter().chain((0..10).map(|n| " ".repeat(n))).chain([" ".repeat(40)]).collect();
	let invalid = ["\t\t", " \t", "\t ", "x", "\n", "\u{a0}", "\u{2003}", "  x", "--", "\r", "\u{0}", "é", "\t\n", "  \t  ", " \n"];
	let leaf = |v: usize, id: usize| match v { 0 => e(["a", "b"][id % 2]), 1 => t(["x", "&<>\"'"][id % 2]), 2 => c(["c", " <&> \n"][id % 2]), 3 => d(["d", "&<]]"][id % 2]), 4 => pe("p", "f", &[("z", "<\"'>&"), ("xmlns:p", "u"), ("a", "1")], vec![]), 5 => t([" \n", "\u{a0}"][id % 2]), _ => t("") };
	let go = |name: &str, hi: usize, leaf_n: usize, inner_n: usize, every: bool| {
		let sp = ForestSpace::new(0, hi, leaf_n, inner_n);
		par_enum(run, name, &format!("all trees of at most {hi} nodes over {leaf_n} leaf and {inner_n} inner kinds x {} valid and {} invalid indents", valid.len(), invalid.len()), sp.total, |i, l| {
			let root = sp.get(i, &leaf, &inner2);
			let m = ela("r", &[("k", "'")], root);
			let Some(x) = made(&m, l) else { return };
			let m = annotated(m);
			let case = show(&m); note(&case); l.step(m.count() as u64); l.state(&m);
			let indents: Vec<&str> = if every { valid.iter().map(|s| s.as_str()).collect() } else { vec!["  ", "\t", &valid[(i % valid.len() as u64) as usize]] };
			let doc = Document::new(x);
			let dm = Doc { decl: Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()), dtds: vec![], root: m };
			layout(&doc, &dm, &indents, if every { &invalid } else { &invalid[..1] }, &case, l);
		});
	};
	go("kinds", run.t(4, 5), 7, 2, false);
	go("indents", 3, 7, 2, true);
	go("shapes", run.t(7, 8), 2, 1, false);
	// every short string as indent
	let mixed = el("r", vec![ek("a", vec![e("b"), ek("c", vec![t("x"), e("d"), ek("e", vec![e("f"), c("g")])])]), c("h"), ek("i", vec![d("j")])]);
	let alpha = [" ", "\t", "x", "\n", "\u{a0}", "\u{3000}", "\r"];
	par_enum(run, "indent-strings", "all indents of at most 6 of 7 characters on a nested document", strings_upto(alpha.len(), 6), |i, l| {
		let ind = nth_concat(&alpha, i); note(&ind); l.step(1); l.trace(); l.state(&ind);
		let ok = ind == "\t" || ind.chars().all(|c| c == ' '); l.outcome(if ok { "valid indent" } else { "invalid indent" });
		let w = print(&mixed, if ok { &ind } else { "  " });
		let x = build(&mixed);
		if Node::to_string_with_indent(&x, &ind) != w { return l.fail(ind.clone(), format!("element written as {:?}, expected {w:?}", Node::to_string_with_indent(&x, &ind))) }
		let doc = Document::new_with_decl_dtd(x, None, None);
		if doc.to_string_with_indent(ind.as_str()) != format!("{w}\n") { return l.fail(ind.clone(), format!("document written as {:?}, expected {w:?}", doc.to_string_with_indent(ind.as_str()))) }
		let mut buf = vec![]; doc.write_to_file_with_indent(&mut buf, ind.as_str()).unwrap();
		if buf != format!("{w}\n").into_bytes() { l.fail(ind, "written to a stream differently") }
	});
	let lens: Vec<usize> = (0..=run.t(300, 1100)).chain((9..17).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1])).rev().collect();
	par_enum(run, "indent-lengths", "indents of up to 65537 spaces, also with a foreign character at the front, in the middle and at the end", lens.len() as u64 * 7, |i, l| {
		let n = lens[(i / 7) as usize]; let mut ind = " ".repeat(n);
		match i % 7 { 0 => {} 1 => ind.insert(0, '\t'), 2 => ind.insert(n / 2, '\t'), 3 => ind.push('\t'), 4 => ind.insert(0, 'x'), 5 => ind.insert(n / 2, '\u{a0}'), _ => ind.push('\n') }
		let case = format!("indent of {n} spaces, variant {}", i % 7); note(&case); l.step(1); l.trace(); l.state(&i);
		let ok = ind == "\t" || ind.chars().all(|c| c == ' ');
		let w = print(&mixed, if ok { &ind } else { "  " }); let x = build(&mixed);
		if Node::to_string_with_indent(&x, &ind) != w { return l.fail(case, "element written differently") }
		let doc = Document::new_with_decl_dtd(x, None, None);
		if doc.to_string_with_indent(ind.as_str()) != format!("{w}\n") { return l.fail(case, "document written differently") }
		let mut buf = vec![]; doc.write_to_file_with_indent(&mut buf, ind.as_str()).unwrap();
		if buf != format!("{w}\n").into_bytes() { l.fail(case, "written to a stream differently") }
	});
	let q = if run.quick() { quick_scalars() } else { (0..SCALARS).collect() };
	par_enum(run, "indent-scalars", "Unicode scalar values as indents, and after spaces", q.len() as u64, |i, l| {
		let ch = scalar(q[i as usize]); note(&ch.to_string()); l.step(1); l.trace(); l.state(&ch);
		for ind in [ch.to_string(), format!("  {ch}"), format!("{ch}\t")] {
			let ok = ind == "\t" || ind.chars().all(|c| c == ' ');
			let w = print(&mixed, if ok { &ind } else { "  " });
			let g = Node::to_string_with_indent(&build(&mixed), &ind); if g != w { return l.fail(ind, format!("written as {g:?}")) }
		}
	});
	let hi = run.t(80u64, 300);
	par_enum(run, "growth", &format!("depth and width up to {hi}, text at every level of a chain"), hi * 4, |i, l| {
		let n = (i / 4) as usize; let kind = i % 4; let case = format!("growth {kind} {n}"); note(&case); l.step(n as u64);
		let root = match kind {
			0 => { let mut v = vec![]; for k in 0..n { v = vec![ek("n", v)]; if k % 3 == 0 { v.push(c("c")) } } el("r", v) }
			1 => el("r", (0..n).map(|k| if k % 4 == 0 { d("d") } else { ek("e", vec![c("c")]) }).collect()),
			2 => { let mut v = vec![e("x"), e("y")]; for k in 0..40 { v = vec![ek("n", v), e("z")]; if k == n % 40 { v.insert(n % 3, t("T")) } } el("r", v) }
			_ => { let mut v = vec![t("deep")]; for _ in 0..n { v = vec![e("s"), ek("n", v)]; } el("r", v) }
		};
		let (doc, m) = from_model(root);
		layout(&doc, &m, &["  ", "\t", " "], &["x"], &case, l);
	});
}
pub fn layout(doc: &Document, m: &Doc, valid: &[&str], invalid: &[&str], case: &str, l: &mut Local) {
	for i in valid.iter().copied().chain(invalid.iter().copied()) {
		l.trace();
		let ind = if valid.contains(&i) { i } else { "  " };
		let (g, w) = (doc.to_string_with_indent(i), print_doc(m, ind));
		if g != w { return l.fail(case, format!("indent {i:?}: written as {g:?}, expected {w:?}")) }
		let (g, w) = (Node::to_string_with_indent(doc.root_element(), i), print(&m.root, ind));
		if g != w { return l.fail(case, format!("root element, indent {i:?}: written as {g:?}, expected {w:?}")) }
	}
	// inner nodes on their own, and the formatting traits
	let (g, w) = (format!("{doc}|{doc:?}|{}", doc.to_string()), print_doc(m, "  "));
	if g != format!("{w}|{w}|{w}") { return l.fail(case, format!("Display, Debug, to_string of the document: {g:?}")) }
	let nodes: Vec<&Box<dyn Node>> = doc.root_element().children().collect();
	for (n, k) in nodes.into_iter().zip(&m.root.kids) {
		let w = match k { M::E(e) => print(e, "  "), k => leaf(k) };
		let g = format!("{n}|{n:?}|{}", n.to_string());
		if g != format!("{w}|{w}|{w}") { return l.fail(case, format!("a child formatted as {g:?}, expected {w:?}")) }
		let ind = valid[valid.len() - 1];
		let w = match k { M::E(e) => print(e, ind), k => leaf(k) };
		if n.to_string_with_indent(ind) != w { return l.fail(case, format!("a child, indent {ind:?}: {:?}, expected {w:?}", n.to_string_with_indent(ind))) }
	}
}

// ------------------------------------------------------------------ C23
pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn real_hash(n: &Box<dyn Node>) -> u64 { match n.node_type() { DomNodeType::ElementNode => hash_of(n.as_element().unwrap()), DomNodeType::TextNode => hash_of(n.as_text().unwrap()), DomNodeType::CommentNode => hash_of(n.as_comment().unwrap()), DomNodeType::CDataNode => hash_of(n.as_cdata().unwrap()) } }
pub fn c23(run: &Run) {
	// nodes differing in one or two respects
	let mut pool: Vec<M> = vec![];
	for s in ["", "a", "b", " ", "A", "é"] { pool.push(t(s)); pool.push(c(s)); pool.push(d(s)); }
	let attrs: [&[(&str, &str)]; 9] = [&[], &[("k", "v")], &[("k", "w")], &[("l", "v")], &[("k", "v"), ("l", "w")], &[("k", "w"), ("l", "v")], &[("k", "")], &[("xmlns", "u")], &[("xmlns:p", "u")]];
	let kids: Vec<Vec<M>> = vec![vec![], vec![t("a")], vec![c("a")], vec![d("a")], vec![e("a")], vec![e("b")], vec![t("a"), e("a")], vec![e("a"), t("a")], vec![e("a"), e("b")], vec![e("b"), e("a")], vec![e("a"), e("a")], vec![ek("a", vec![t("x")])], vec![ek("a", vec![e("a")])], vec![ea("a", &[("k", "v")], vec![])], vec![pe("p", "a", &[], vec![])], vec![ek("a", vec![ek("a", vec![t("y")])])]];
	for n in ["a", "b"] { for p in ["", "p", "q"] { for a in attrs { for k in &kids { let mut x = ela(n, a, k.clone()); x.prefix = p.into(); pool.push(M::E(x)); } } } }
	pool.truncate(run.t(900, 2000));
	// the same element in surroundings that give it another namespace
	let outs: [&[(&str, &str)]; 3] = [&[], &[("xmlns", "u"), ("xmlns:p", "u")], &[("xmlns", "v"), ("xmlns:p", "u"), ("xmlns:q", "u")]];
	let mut entries: Vec<(M, Box<dyn Fn() -> (Element, usize) + Sync>)> = vec![];
	for m in &pool {
		for (oi, o) in outs.iter().enumerate() {
			if oi > 0 && !matches!(m, M::E(x) if x.kids.len() < 2 && x.attrs.len() < 2) { continue }
			let outer = ela("o", o, vec![e("before"), m.clone(), c("z")]);
			if oi == 0 && matches!(m, M::T(s) if blank(s)) { continue }
			let ann = annotated(outer.clone());
			entries.push((ann.kids[1].clone(), Box::new(move || (build(&outer), 1))));
		}
	}
	let n = entries.len() as u64;
	par_enum(run, "pairs", &format!("all ordered pairs of {n} nodes: equality, symmetry, hashes"), n * n, |i, l| {
		let (a, b) = ((i / n) as usize, (i % n) as usize);
		let held = per_thread("c23", || entries.iter().map(|x| x.1().0).collect::<Vec<Element>>());
		let nth = |i: usize| held[i].children().nth(1).expect("MODEL ERROR: pool");
		let (x, y) = (nth(a), nth(b));
		let (mx, my) = (&entries[a].0, &entries[b].0);
		let want = mx == my; l.step(1); l.trace(); l.outcome(if want { "equal" } else { "different" });
		if a == b { l.state(mx); note(&format!("{mx:?}")); if observe_node(x) != *mx { return l.fail(format!("{mx:?}"), format!("MODEL ERROR? built as {:?}", observe_node(x))) } }
		let fail = |l: &mut Local, what: &str| l.fail(format!("{mx:?} and {my:?}"), what.to_string());
		if node_eq(x, y) != want { return fail(l, &format!("node_eq says {}", !want)) }
		if node_eq(y, x) != want { return fail(l, &format!("node_eq, swapped, says {}", !want)) }
		let direct = match (x.node_type(), y.node_type()) { (DomNodeType::ElementNode, DomNodeType::ElementNode) => Some(x.as_element().unwrap() == y.as_element().unwrap()), (DomNodeType::TextNode, DomNodeType::TextNode) => Some(x.as_text().unwrap() == y.as_text().unwrap()), (DomNodeType::CommentNode, DomNodeType::CommentNode) => Some(x.as_comment().unwrap() == y.as_comment().unwrap()), (DomNodeType::CDataNode, DomNodeType::CDataNode) => Some(x.as_cdata().unwrap() == y.as_cdata().unwrap()), _ => None };
		if direct.is_some_and(|d| d != want) { return fail(l, &format!("== says {}", !want)) }
		if want && real_hash(x) != real_hash(y) { return fail(l, "equal but hashed differently") }
		if want { let z = clone_node(x); if !node_eq(&z, y) || !node_eq(y, &z) || real_hash(&z) != real_hash(y) { return fail(l, "clone_node is not equal") } }
	});
	// all maps of five attributes to four values, and all short contents
	let names = ["k", "l", "p:k", "xmlns", "xmlns:p"]; let vals = [None, Some(""), Some("u"), Some("U")];
	let map = |i: usize| { let mut x = Dec(i as u64); let mut v = vec![]; for n in names { if let Some(w) = vals[x.take(4)] { v.push((n, w)); } } annotated(ela("a", &v, vec![])) };
	par_enum(run, "attribute-pairs", "all ordered pairs of elements with 4^5 maps of attributes", 1 << 20, |i, l| {
		let held = per_thread("c23-attrs", || (0..1024).map(|i| { let m = map(i); (build(&m), m) }).collect::<Vec<(Element, El)>>());
		let ((x, mx), (y, my)) = (&held[i as usize >> 10], &held[i as usize & 1023]);
		l.step(1); l.trace(); let want = mx == my;
		if i >> 10 == i & 1023 { l.state(mx); note(&format!("{mx:?}")); if observe(x) != *mx { return l.fail(format!("{mx:?}"), format!("built as {:?}", observe(x))) } }
		if (x == y) != want { return l.fail(format!("{mx:?} and {my:?}"), format!("== says {}", !want)) }
		if want && hash_of(x) != hash_of(y) { l.fail(format!("{mx:?}"), "equal but hashed differently") }
	});
	const PARTS: [&str; 8] = ["a", "A", " ", "\n", "\r", "\u{e9}", "e\u{301}", "\0"];
	let texts: Vec<String> = (0..strings_upto(PARTS.len(), run.t(3, 4))).map(|i| nth_concat(&PARTS, i)).collect(); let nt = texts.len() as u64;
	par_enum(run, "content-pairs", &format!("all ordered pairs of {nt} contents, as text, comment, CDATA, declaration, DTD and attribute value"), nt * nt, |i, l| {
		let (a, b) = (&texts[(i / nt) as usize], &texts[(i % nt) as usize]); l.step(6); l.trace(); let want = a == b;
		if want { note(&format!("{a:?}")); l.state(a); }
		let bad = |what: &str, l: &mut Local| l.fail(format!("{what} of {a:?} and {b:?}"), format!("== says {}", !want));
		let (x, y) = (Text::new(a.as_str()), Text::new(b.as_str())); if (x == y) != want { return bad("texts", l) } if want && hash_of(&x) != hash_of(&y) { return bad("hashes of texts", l) }
		let (x, y) = (Comment::new(a.as_str()).expect("refused"), Comment::new(b.as_str()).expect("refused")); if (x == y) != want { return bad("comments", l) } if want && hash_of(&x) != hash_of(&y) { return bad("hashes of comments", l) }
		let (x, y) = (CData::new(a.as_str()).expect("refused"), CData::new(b.as_str()).expect("refused")); if (x == y) != want { return bad("CDATA sections", l) } if want && hash_of(&x) != hash_of(&y) { return bad("hashes of CDATA sections", l) }
		if nt < 1000 || i % 7 == 0 { let el = |s: &str| { let mut e = Element::new_from_name("e").unwrap(); e.set_attr("k", s).unwrap(); e }; let (x, y) = (el(a), el(b)); if (x == y) != want || (want && hash_of(&x) != hash_of(&y)) { return bad("elements with attribute values", l) } }
		let q = |s: &str| format!("<!DOCTYPE r \"{s}\">"); let (x, y) = (DTD::from_string(q(a)), DTD::from_string(q(b)));
		if let (Ok(x), Ok(y)) = (x, y) { if (x == y) != want { return bad("DTDs", l) } }
	});
	// documents
	let decls = [None, Some("<?xml version=\"1.0\"?>"), Some("<?xml version=\"1.1\"?>")];
	let dts: [&[&str]; 6] = [&[], &["<!DOCTYPE a>"], &["<!DOCTYPE b>"], &["<!DOCTYPE a>", "<!DOCTYPE b>"], &["<!DOCTYPE b>", "<!DOCTYPE a>"], &["<!DOCTYPE a>", "<!DOCTYPE a>"]];
	let roots = [el("r", vec![]), el("s", vec![]), ela("r", &[("k", "v")], vec![]), el("r", vec![t("x")]), el("r", vec![e("a")]), ela("r", &[("xmlns", "u")], vec![]), el("r", vec![ek("a", vec![ek("b", vec![c("deep")])])]), el("r", vec![ek("a", vec![ek("b", vec![c("deeper")])])])];
	let nd = (3 * 6 * 8) as u64;
	let mk = |i: u64| { let mut x = Dec(i); let (de, dt, r) = (x.take(3), x.take(6), x.take(8)); let v: Vec<DTD> = dts[dt].iter().map(|s| DTD::from_string(*s).unwrap()).collect(); Document::new_with_decl_dtd(build(&roots[r]), decls[de].map(|s| Declaration::from_str(s).unwrap()), Some(&v)) };
	par_enum(run, "documents", "all ordered pairs of 144 documents", nd * nd, |i, l| {
		let (a, b) = (i / nd, i % nd); note(&format!("documents {a} {b}")); l.step(1); l.trace(); l.state(&(a, b));
		let (x, y) = (mk(a), mk(b)); if (x == y) != (a == b) || (y == x) != (a == b) { l.fail(format!("{x} and {y}"), format!("== says {}", x == y)) } });
	// independence: every edit at every place of a clone or of its original
	let ops = {
		let mut v = vec![];
		for at in [vec![], vec![0], vec![0, 0], vec![1]] {
			for m in [e("n"), t("T"), c("C"), d("D")] { v.push(Op::Append(at.clone(), m.clone())); v.push(Op::Insert(at.clone(), 0, m)); }
			v.push(Op::AppendAll(at.clone(), vec![e("n"), t("T")]));
			for i in 0..3 { v.push(Op::Remove(at.clone(), i)); v.push(Op::EditLeaf(at.clone(), i, "edited".into())); }
			v.push(Op::RemoveElement(at.clone(), 0)); v.push(Op::Clear(at.clone())); v.push(Op::SetText(at.clone(), "S".into()));
			v.push(Op::SetAttr(at.clone(), "k".into(), "K".into())); v.push(Op::SetAttr(at.clone(), "xmlns".into(), "X".into())); v.push(Op::RemoveAttr(at.clone(), "id".into())); v.push(Op::ClearAttrs(at.clone()));
			v.push(Op::RemoveByName(at.clone(), "a".into())); v.push(Op::SwapKids(at));
		}
		v
	};
	let sp = ForestSpace::new(0, run.t(4, 5), 6, 2);
	let k = ops.len() as u64;
	par_enum(run, "clones", &format!("all trees of at most {} nodes x {k} edits, on the clone and on the original", run.t(4, 5)), sp.total, |i, l| {
		let root = ela("r", &[("id", "9"), ("xmlns:p", "u")], sp.get(i, &labelled, &labelled_inner));
		let Some(base) = made(&root, l) else { return };
		let m = annotated(root.clone()); l.state(&m); l.step(k);
		let text = base.to_string();
		for op in &ops {
			let mut after = m.clone();
			if model(&mut after, op).is_none() { continue }
			note(&format!("{op:?} on {}", show(&m)));
			for way in 0..3 {
				let mut orig = base.clone();
				let (changed, kept): (Element, Element) = match way {
					0 => { let mut cl = orig.clone(); if cl != orig || observe(&cl) != m { return l.fail(show(&m), "a clone differs from its original") } real(&mut cl, op); (cl, orig) }
					1 => { let cl = orig.clone(); real(&mut orig, op); (orig, cl) }
					_ => { let b = orig.clone().boxed(); let mut nb = clone_node(&b); real(nb.as_element_mut().unwrap(), op); (nb.as_element().unwrap().clone(), b.as_element().unwrap().clone()) }
				};
				l.trace();
				let what = || format!("{op:?} ({}) on {}", ["on the clone", "on the original", "on clone_node"][way], show(&m));
				if observe(&kept) != m || kept.to_string() != text { return l.fail(what(), format!("the other one changed to {}", show(&observe(&kept)))) }
				if observe(&changed) != after { return l.fail(what(), format!("expected {}, got {}", show(&after), show(&observe(&changed)))) }
				if (changed == kept) != (after == m) { return l.fail(what(), "equality after the edit is wrong") }
			}
		}
	});
	// the same attributes put in in every order: each element has a hash order of its own
	let names = ["a", "b", "xmlns:p", "k", "p:k", "é", "xmlns"];
	let most = run.t(6usize, 7);
	let fact: u64 = (1..=most as u64).product();
	par_enum(run, "orders", &format!("elements with up to {most} attributes, put in in every order in 4 ways, on 3 levels: equality and hashes"), fact * most as u64 * 3, |i, l| {
		let mut x = Dec(i); let n = 1 + x.take(most); let level = x.take(3);
		let mut left: Vec<usize> = (0..n).collect(); let mut order = vec![];
		while !left.is_empty() { let k = x.take(left.len()); order.push(left.remove(k)); }
		if x.0 != 0 { return }
		let at: Vec<(&str, &str)> = order.iter().map(|k| (names[*k], ["1", "2", "u", "", "v", "w", "x"][*k])).collect();
		note(&format!("{at:?} on level {level}")); l.step(n as u64); l.state(&(order.clone(), level));
		let wrap = |e: Element| -> Element { let mut e = e; for k in 0..level { let mut o = Element::new_from_name("o").unwrap(); if k == 1 { o.append(Text::new("t")); } o.append(e); e = o; } e };
		let mut made: Vec<Element> = vec![];
		{ let mut e = Element::new_from_name("n").unwrap(); for (k, v) in &at { e.set_attr(*k, *v).unwrap(); } made.push(wrap(e)); }
		made.push(wrap(Element::new_with_attributes("n", at.iter().copied().collect::<HashMap<&str, &str>>()).unwrap()));
		{ let mut e = Element::new_from_name("n").unwrap(); e.set_attr("gone", "x").unwrap(); for (k, v) in at.iter().rev() { e.set_attr(*k, "old").unwrap(); e.set_attr(*k, *v).unwrap(); } e.remove_attr("gone"); made.push(wrap(e)); }
		let s = at.iter().map(|(k, v)| format!(" {k}='{v}'")).collect::<String>();
		if let Ok(d) = parse(&format!("{}<n{s}/>{}", ["", "<o>", "<o>t<o>"][level], ["", "</o>", "</o></o>"][level])) { made.push(d.root_element().clone()); }
		for a in &made { for b in &made { l.trace();
			if a != b || !node_eq(&a.clone().boxed(), &b.clone().boxed()) { return l.fail(format!("{at:?} on level {level}"), format!("not equal: {a} and {b}")) }
			if hash_of(a) != hash_of(b) { return l.fail(format!("{at:?} on level {level}"), format!("equal, but hashed differently: {a} and {b}")) }
		} }
		// one attribute more, less or other
		for k in 0..n { let mut w = made[0].clone(); { let mut e = &mut w; for _ in 0..level { e = e.child_elements_mut().next().unwrap(); } match k % 3 { 0 => { e.remove_attr(at[k].0); } 1 => { e.set_attr(at[k].0, "other").unwrap(); } _ => { e.set_attr("more", "").unwrap(); } } } if w == made[1] || made[0] == w { return l.fail(format!("{at:?} on level {level}"), format!("equal to {w}")) } }
	});
	// deep and wide
	let hi = run.t(150u64, 400);
	par_enum(run, "growth", &format!("equality and clones of chains and lists up to {hi}, with one difference at every level"), hi * 2, |i, l| {
		let n = (i / 2) as usize; note(&format!("growth {i}")); l.step(1);
		let mk = |mark: usize| if i % 2 == 0 { let mut v = vec![]; for k in 0..=n { v = vec![ea("a", &[("k", if k == mark { "x" } else { "y" })], v)]; } el("r", v) } else { el("r", (0..=n).map(|k| ea("a", &[("k", if k == mark { "x" } else { "y" })], vec![])).collect()) };
		let none = build(&mk(usize::MAX)); let cl = none.clone(); l.trace();
		if cl != none || hash_of(&cl) != hash_of(&none) { return l.fail(format!("growth {i}"), "clone not equal") }
		for mark in [0, n / 2, n] { let x = build(&mk(mark)); if x == none || none == x { return l.fail(format!("growth {i}"), format!("a difference at {mark} of {n} is not seen")) } if x != build(&mk(mark)) { return l.fail(format!("growth {i}"), "equal trees differ") } }
	});
}


// ------------------------------------------------------------------ C24
pub fn kinds(n: &dyn Node, kind: u8) -> Result<(), String> {
	let want = ["ElementNode", "TextNode", "CommentNode", "CDataNode"][kind as usize];
	let is = [n.is_element(), n.is_text(), n.is_comment(), n.is_cdata()];
	for (k, b) in is.iter().enumerate() { if *b != (k == kind as usize) { return Err(format!("is_{} is {b} for a {want}", ["element", "text", "comment", "cdata"][k])) } }
	if format!("{:?}", n.node_type()) != want { return Err(format!("node_type is {:?} for a {want}", n.node_type())) }
	let a = n as *const dyn Node as *const u8 as usize;
	let casts = [n.as_element().ok().map(|x| x as *const Element as usize), n.as_text().ok().map(|x| x as *const Text as usize), n.as_comment().ok().map(|x| x as *const Comment as usize), n.as_cdata().ok().map(|x| x as *const CData as usize)];
	for (k, c) in casts.iter().enumerate() { if *c != if k == kind as usize { Some(a) } else { None } { return Err(format!("cast {k} of a {want} gives {}", if c.is_some() { "a node" } else { "an error" })) } }
	let any = n.as_any();
	let anys = [any.downcast_ref::<Element>().is_some(), any.downcast_ref::<Text>().is_some(), any.downcast_ref::<Comment>().is_some(), any.downcast_ref::<CData>().is_some()];
	for (k, c) in anys.iter().enumerate() { if *c != (k == kind as usize) { return Err(format!("as_any of a {want} downcasts to kind {k}: {c}")) } }
	if n.as_node() as *const dyn Node as *const u8 as usize != a { return Err("as_node gives another node".into()) }
	// the errors are type-cast errors, and can be shown
	for r in [n.as_element().err(), n.as_text().err(), n.as_comment().err(), n.as_cdata().err()].into_iter().flatten() { if !matches!(KissXmlError::from(r.clone()), KissXmlError::TypeCastError(_)) || format!("{r}{r:?}").is_empty() { return Err("wrong error".into()) } }
	Ok(())
}
fn kinds_mut(n: &mut dyn Node, kind: u8) -> Result<(), String> {
	let a = n as *const dyn Node as *const u8 as usize;
	let casts = [n.as_element_mut().ok().map(|x| x as *const Element as usize), n.as_text_mut().ok().map(|x| x as *const Text as usize), n.as_comment_mut().ok().map(|x| x as *const Comment as usize), n.as_cdata_mut().ok().map(|x| x as *const CData as usize)];
	for (k, c) in casts.iter().enumerate() { if *c != if k == kind as usize { Some(a) } else { None } { return Err(format!("mutable cast {k} of kind {kind} gives {}", if c.is_some() { "a node" } else { "an error" })) } }
	if n.as_node_mut() as *mut dyn Node as *const u8 as usize != a { return Err("as_node_mut gives another node".into()) }
	let anys = [n.as_any_mut().downcast_mut::<Element>().is_some(), n.as_any_mut().downcast_mut::<Text>().is_some(), n.as_any_mut().downcast_mut::<Comment>().is_some(), n.as_any_mut().downcast_mut::<CData>().is_some()];
	for (k, c) in anys.iter().enumerate() { if *c != (k == kind as usize) { return Err(format!("as_any_mut of kind {kind} downcasts to kind {k}: {c}")) } }
	Ok(())
}
/// check a node and everything below it
pub fn kinds_deep(n: &Box<dyn Node>, m: &M) -> Result<(), String> {
	kinds(&**n, m.kind())?;
	if DomNodeType::from(clone_node(n)) != n.node_type() { return Err("DomNodeType::from disagrees".into()) }
	kinds(&*clone_node(n), m.kind())?;
	if let M::E(e) = m { let k: Vec<&Box<dyn Node>> = n.as_element().unwrap().children().collect(); if k.len() != e.kids.len() { return Err("number of children".into()) } for (a, b) in k.into_iter().zip(&e.kids) { kinds_deep(a, b)? } }
	Ok(())
}
pub fn kinds_deep_mut(n: &mut Box<dyn Node>, m: &M) -> Result<(), String> {
	kinds_mut(&mut **n, m.kind())?;
	// a change through the cast is a change of the node
	match m {
		M::E(e) => { let x = n.as_element_mut().map_err(|e| e.to_string())?; x.set_attr("mark", "1").unwrap(); for (a, b) in x.children_mut().zip(&e.kids) { kinds_deep_mut(a, b)? } if n.as_element().unwrap().get_attr("mark").is_none() { return Err("a change through as_element_mut is lost".into()) } }
		M::T(s) => { n.as_text_mut().map_err(|e| e.to_string())?.content = format!("{s}+"); if n.text() != format!("{s}+") { return Err("a change through as_text_mut is lost".into()) } }
		M::C(_) => { n.as_comment_mut().map_err(|e| e.to_string())?.set_content("new").unwrap(); if n.text() != "new" { return Err("a change through as_comment_mut is lost".into()) } }
		M::D(_) => { n.as_cdata_mut().map_err(|e| e.to_string())?.set_text("new").unwrap(); if n.text() != "new" { return Err("a change through as_cdata_mut is lost".into()) } }
	}
	kinds(&**n, m.kind())
}
pub fn c24(run: &Run) {
	let hi = run.t(4, 5);
	let sp = ForestSpace::new(0, hi, 6, 2);
	par_enum(run, "trees", &format!("all trees of at most {hi} nodes: every node, every cast, built, boxed, stored, cloned, retrieved, removed and parsed"), sp.total * 3, |i, l| {
		let root = ela("r", &[("id", "0")], sp.get(i / 3, &leaf4, &inner2));
		let raw = !stable(&root);
		if raw && i % 3 != 0 { return }
		let case = show(&root); note(&case); l.step(root.count() as u64); l.state(&root); l.trace();
		let elem = match i % 3 { 0 => match made(&root, l) { Some(x) => x, None => return }, 1 => { let mut x = Element::new_from_name("r").unwrap(); x.set_attr("id", "0").unwrap(); x.append_all(root.kids.iter().map(build_node).collect()); x }
			_ => parse(&rendered(&root, &PLAIN)).expect("refused").root_element().clone() };
		let m = M::E(root.clone());
		if let Err(e) = kinds(&elem, 0) { return l.fail(case, e) }
		let mut b = elem.boxed();
		if let Err(e) = kinds_deep(&b, &m) { return l.fail(case, e) }
		if observe_node(&b) != m { return l.fail(case, format!("became {}", show(&observe(b.as_element().unwrap())))) }
		// removed nodes keep kind and content
		let mut x = b.as_element().unwrap().clone();
		for k in root.kids.iter().rev() { let n = x.remove(x.children().count() - 1).unwrap(); if let Err(e) = kinds_deep(&n, k) { return l.fail(case, format!("removed: {e}")) } if observe_node(&n) != *k { return l.fail(case, format!("removed as {:?}", observe_node(&n))) } }
		if let Err(e) = kinds_deep_mut(&mut b, &m) { l.fail(case, e) }
	});
	let strs = ["", "a", " ", "-", "]", "<a/>", "&amp;", "é", "<!--", "\n", "x y"];
	par_enum(run, "leaves", "11 contents x 3 leaf kinds x all ways of holding them", 33, |i, l| {
		let s = strs[(i / 3) as usize]; note(s); l.step(1); l.trace(); l.state(&i);
		let m = match i % 3 { 0 => t(s), 1 => c(s), _ => d(s) };
		let r = match i % 3 { 0 => { let mut x = Text::new(s); kinds(&x, 1).and(kinds_mut(&mut x, 1)) } 1 => { let mut x = Comment::new(s).unwrap(); kinds(&x, 2).and(kinds_mut(&mut x, 2)) } _ => { let mut x = CData::new(s).unwrap(); kinds(&x, 3).and(kinds_mut(&mut x, 3)) } };
		if let Err(e) = r { return l.fail(format!("{m:?}"), e) }
		let mut b = build_node(&m);
		if let Err(e) = kinds_deep(&b, &m) { return l.fail(format!("{m:?}"), format!("boxed: {e}")) }
		if observe_node(&b) != m { return l.fail(format!("{m:?}"), "content changed by boxing") }
		let k2 = dyn_like_clone(&b); if observe_node(&k2) != m { return l.fail(format!("{m:?}"), "content changed by cloning") }
		if let Err(e) = kinds_deep_mut(&mut b, &m) { return l.fail(format!("{m:?}"), e) }
		let names = ["Text", "Comment", "CDATA"];
		if format!("{}", b.node_type()) != names[(i % 3) as usize] { l.outcome("display name differs") }
	});
	// all pairs of leaves side by side, inside and outside of text, after parsing
	let srcs = ["t", "<!--c-->", "<![CDATA[d]]>", "<e/>", "<f>x</f>", "<!---->", "<![CDATA[]]>", "<g><!--h--></g>"];
	par_enum(run, "parsed", "all sequences of at most 4 of 8 kinds of content, parsed", strings_upto(srcs.len(), run.t(4, 5)), |i, l| {
		let s = format!("<r>{}</r>", nth_concat(&srcs, i)); note(&s); l.step(1);
		let R::Doc(m) = recognise(&s) else { panic!("MODEL ERROR: {s}") };
		l.state(&m); l.trace();
		match parse(&s) { Err(e) => l.fail(s, format!("refused: {e}")), Ok(d) => { let mut b = d.root_element().clone().boxed(); let m = M::E(m.root); if let Err(e) = kinds_deep(&b, &m).and_then(|_| if observe_node(&b) == m { Ok(()) } else { Err("other content".into()) }).and_then(|_| kinds_deep_mut(&mut b, &m)) { l.fail(s, e) } } }
	});
}
fn dyn_like_clone(b: &Box<dyn Node>) -> Box<dyn Node> { clone_node(b) }
