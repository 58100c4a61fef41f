//! The same properties where trees, names, values and lists are large: every kind of growth at every
//! size of a list of sizes, with the operations of the property at the first, middle and last place.
use crate::checks_parse::*;
use crate::checks_tree::*;
use crate::engine::*;
use crate::model::*;
use crate::ops::*;
use crate::texts::*;
use kiss_xml::dom::*;
use std::collections::HashMap;

fn e(name: &str) -> M { M::E(el(name, vec![])) }
fn ek(name: &str, kids: Vec<M>) -> M { M::E(el(name, kids)) }
fn ea(name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { M::E(ela(name, attrs, kids)) }
fn pe(prefix: &str, name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { let mut x = ela(name, attrs, kids); x.prefix = prefix.into(); M::E(x) }
fn c(s: &str) -> M { M::C(s.into()) }
fn d(s: &str) -> M { M::D(s.into()) }

pub const GROWTHS: &[&str] = &["elements", "mixed", "leaves", "deep", "text", "wide-text", "value", "attrs", "name", "comment", "cdata", "ns", "grand", "same", "blank", "subtrees", "decls", "deep-ns", "path", "twins", "late-text", "late-element", "late-leaf", "late-deep", "blocks", "indent", "spaces", "known", "alike"];
pub fn grown(kind: &str, n: usize) -> El {
	let root = |kids: Vec<M>| ela("r", &[("xmlns:p", "u"), ("id", "0")], kids);
	let long = |unit: &str| -> String { unit.chars().cycle().take(n).collect() };
	match kind {
		"elements" => root((0..n).map(|k| ea(["a", "b"][k % 2], &[("i", &k.to_string())], vec![])).collect()),
		"mixed" => root((0..n).map(|k| if k % 2 == 0 { t(&format!("t{k}")) } else { ek("a", vec![t("x")]) }).collect()),
		"leaves" => root((0..n).map(|k| if k % 2 == 0 { c(&k.to_string()) } else { d(&k.to_string()) }).collect()),
		"deep" => { let mut x = el("a", vec![t("leaf")]); for k in 0..n { x = el(["a", "b"][k % 2], if k % 3 == 0 { vec![c("c"), M::E(x)] } else { vec![M::E(x), e("b")] }); } root(vec![M::E(x)]) }
		"text" => root(vec![e("a"), t(&format!("{}.", long("ab <&>\"' c]]>"))), e("b")]),
		"wide-text" => root(vec![t(&format!("{}.", long("\u{e9}\u{1F600}x\u{20ac}\r\n")))]),
		"value" => ela("r", &[("k", &long("v'w = /> \"&<")), ("z", "1")], vec![ea("a", &[("k", &long("\u{e9}<"))], vec![])]),
		"attrs" => { let mut x = root(vec![e("a")]); for k in 0..n { x.attrs.insert(format!("n{k}"), k.to_string()); } x }
		"name" => { let nm = format!("n{}", long("am-e.\u{e9}1")); root(vec![ea(&nm, &[(&format!("k{nm}"), "v")], vec![e("a")]), e(&format!("{nm}x"))]) }
		"comment" => root(vec![c(&long("- >&lt;<a>")), e("a")]),
		"cdata" => root(vec![d(&long("]> &lt;<a>")), e("a")]),
		"ns" => root((0..n).map(|k| match k % 4 { 0 => pe("p", "a", &[], vec![e("b")]), 1 => ea("a", &[("xmlns", "v")], vec![e("b"), pe("p", "c", &[], vec![])]), 2 => pe("p", "a", &[("xmlns:p", &format!("w{}", k % 7))], vec![pe("p", "b", &[], vec![])]), _ => e("a") }).collect()),
		"grand" => root((0..n / 3).map(|k| ek(["a", "b"][k % 2], vec![e("a"), t("t"), c("c")])).collect()),
		"same" => root((0..n).map(|_| ek("a", vec![t("x")])).collect()),
		"blank" => root(vec![t(&format!("x{}", long(" \n\t"))), e("a"), t(&long("\n  ")), e("b"), t("y")]),
		"subtrees" => { let q = n / 3; let wide = |nm: &str| ek(nm, (0..q).map(|k| match k % 4 { 0 => e("a"), 1 => t("t"), 2 => c("c"), _ => ek("b", vec![d("d")]) }).collect()); let mut at = el("at", vec![wide("in")]); for k in 0..q.min(4000) { at.attrs.insert(format!("z{k}"), k.to_string()); } root(vec![wide("a"), t("t"), ek("b", vec![e("x"), wide("a")]), M::E(at), ea("e", &[("xmlns", "v")], (0..q).map(|_| e("a")).collect())]) }
		"decls" => { let mut x = root(vec![]); for k in 0..n { x.attrs.insert(format!("xmlns:q{k}"), format!("u{}", k % 5)); } x.kids = (0..n.min(700)).map(|k| { let p = format!("q{}", k * n / n.min(700)); M::E(El { prefix: p.clone(), kids: vec![pe(&p, "b", &[], vec![])], ..ela("a", &[], vec![]) }) }).collect(); x }
		"deep-ns" => { let mut x = el("leaf", vec![pe("p", "z", &[], vec![])]); for k in 0..n { x = match k % 5 { 0 => ela("a", &[("xmlns", "v")], vec![M::E(x)]), 1 => El { prefix: "p".into(), ..ela("b", &[], vec![t("t"), M::E(x)]) }, 2 => ela("c", &[("xmlns:p", &format!("w{k}"))], vec![M::E(x), pe("p", "s", &[], vec![])]), 3 => ela("d", &[("xmlns", "")], vec![e("f"), M::E(x)]), _ => el("g", vec![M::E(x)]) } } root(vec![M::E(x)]) }
		"twins" => {
			// long things of every kind that differ in one place only
			let base = long("n.a-m_e1"); let all = twins(&base);
			let mut x = root(vec![]);
			for (k, nm) in all.iter().enumerate() {
				x.attrs.insert(format!("xmlns:{nm}"), format!("urn:{}", all[(k + 1) % all.len()])); x.attrs.insert(nm.clone(), all[(k + 2) % all.len()].clone());
				x.kids.push(ea(nm, &[(&format!("z{nm}"), nm)], vec![t(nm)])); x.kids.push(pe(nm, "a", &[], vec![ek(nm, vec![])]));
				x.kids.push(c(nm)); x.kids.push(d(nm)); if k % 2 == 0 { x.kids.push(ea("b", &[("xmlns", &format!("urn:{nm}"))], vec![e("a")])); }
			}
			x
		}
		// one node of another kind behind many, and more behind it
		"late-text" => root((0..n).map(|k| e(["a", "b"][k % 2])).chain([t("late"), e("c")]).collect()),
		"late-element" => root((0..n).map(|k| if k % 2 == 0 { c("c") } else { d("d") }).chain([ek("a", vec![t("t"), e("b")]), c("end")]).collect()),
		"late-leaf" => root((0..n).map(|_| e("a")).chain([if n % 2 == 0 { c("late") } else { d("late") }]).chain((0..n / 2).map(|_| e("b"))).collect()),
		"late-deep" => root((0..n).map(|_| e("a")).chain([ek("b", vec![ek("a", vec![ek("b", (0..n.min(3000)).map(|_| e("a")).chain([ek("c", vec![t("late")])]).collect())]), pe("p", "q", &[], vec![])])]).collect()),
		// white space that is not blank in XML
		"spaces" => { let w = long("\u{a0}\u{2003}\u{3000}\u{85}\u{2028}"); ela("r", &[("k", &w), ("xmlns:p", &w)], vec![ek("a", vec![t(&w)]), e("b"), t(&w), pe("p", "b", &[("k", &w)], vec![t(&w), e("a"), c(&w), t(&w)]), c(&w), d(&w), ek("a", vec![d(&w)])]) }
		// attributes with a meaning elsewhere, and text of which blanks matter
		"known" => { let att: [(&str, &str); 12] = [("xml:space", "preserve"), ("xml:lang", "en"), ("xml:id", "x"), ("xml:base", "u"), ("id", "1"), ("class", "a b"), ("style", "x:y;"), ("href", "#a"), ("type", "t"), ("version", "1.0"), ("encoding", "latin1"), ("standalone", "no")]; let w = long(" \n\t");
			ela("r", &att, vec![t(&format!(" x{w}")), ea("pre", &att, vec![t(&format!("{w}y "))]), t(&w), ea("a", &att[..1], vec![d(&w)]), ea("b", &[("xml:space", "default")], vec![c(&w), t(&format!("{w}z{w}"))]), ea("script", &att[1..], vec![e("br"), t(&format!("{w}<&>"))]), t(&w)]) }
		// the same again and again
		"alike" => root((0..n / 5 + 1).flat_map(|k| { let x = ek("a", vec![e("b"), t("t"), c("c"), ek("b", vec![e("a"), e("a"), d("d"), e("a")])]); if k % 7 == 6 { vec![x, c("c"), c("c"), d("d"), d("d")] } else { vec![x] } }).collect()),
		// few of one kind, far apart
		"blocks" => root([ea("a", &[("i", "1")], vec![t("x")])].into_iter().chain((0..n).map(|_| e("b"))).chain([ek("a", vec![e("a")]), pe("p", "c", &[], vec![])]).chain((0..n / 2).map(|_| c("c"))).chain([t("far"), e("a")]).chain((0..n / 3).map(|_| e("x"))).chain([e("b"), ek("a", vec![]), d("d")]).collect()),
		// blank text between all the nodes of mixed content
		"indent" => root([t("x")].into_iter().chain((0..n).flat_map(|k| [ match k % 9 { 7 => c("c"), 8 => d("d"), _ => ea(["a", "a", "b"][k % 3], &[("i", &k.to_string())], vec![]) }, t(["\n  ", " ", "\t"][k % 3]) ])).collect()),
		"path" => { let mut x = el("x", vec![t("end")]); for k in 0..n { x = ela(["x", "a", "b"][k % 3], if k % 7 == 3 { &[("k", "v")] } else { &[] }, vec![M::E(x)]); } root(vec![M::E(x)]) }
		_ => unreachable!(),
	}
}
/// the places of a long string to change: the ends, the middle, and around every power of two
pub fn places(n: usize) -> Vec<usize> {
	let mut v = vec![0, 1, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)];
	for k in 2..17 { let p = 1usize << k; if n > 600 && k < 5 { continue } v.extend([p - 1, p]); }
	v.retain(|p| *p < n); v.sort(); v.dedup(); v
}
/// the string itself, and with another character at each of those places, and without the last one (ASCII, starting with a letter)
pub fn twins(base: &str) -> Vec<String> {
	let mut v = vec![base.to_string()];
	for p in places(base.len()) { let mut s = base.to_string(); s.replace_range(p..p + 1, "x"); v.push(s); }
	if base.len() > 1 { v.push(base[..base.len() - 1].to_string()); }
	v.retain(|s| !s.is_empty()); v.sort(); v.dedup(); v
}
/// names to look for in a tree: some fixed ones, and those of children that are long
pub fn names_of<'a>(m: &'a El) -> Vec<&'a str> {
	let mut v = vec!["a", "b", "zz"]; let mut more: Vec<&str> = m.els().map(|c| c.name.as_str()).filter(|n| n.len() > 8).collect(); more.sort(); more.dedup();
	let step = more.len() / 24 + 1; v.extend(more.into_iter().step_by(step)); v
}
fn cap(kind: &str, per: usize) -> usize { match kind { "deep" | "deep-ns" | "path" => 400.min(per), "decls" => 300.min(per), "name" => 16_385.min(per), "twins" => 1025.min(per), "attrs" => 16_385.min(per), _ => per } }
/// a tree of every kind of growth at every size
pub fn big<F>(run: &Run, per: usize, f: F) where F: Fn(El, &str, &mut Local) + Sync { big_sized(run, per, &f); big_wide(run, &f) }
/// (without the widest, for what needs the square of the size)
pub fn big_sized<F>(run: &Run, per: usize, f: F) where F: Fn(El, &str, &mut Local) + Sync {
	let pts: Vec<usize> = { let mut v: Vec<usize> = large_points(run).into_iter().chain(size_points(run)).filter(|n| *n <= per).collect(); v.sort(); v.reverse(); v };
	let k = GROWTHS.len() as u64;
	par_enum(run, "big", &format!("{k} kinds of growth, each at {} sizes up to {}", pts.len(), pts[0]), k * pts.len() as u64, |i, l| {
		let kind = GROWTHS[(i % k) as usize]; let n = pts[(i / k) as usize];
		if n > cap(kind, per) { return }
		let mut m = grown(kind, n); norm_all(&mut m);
		let case = format!("{kind} of size {n}"); note(&case); l.step(1); l.trace(); l.state(&(kind, n));
		f(annotated(m), &case, l);
	});
}
/// beyond what 16 bits can count
pub fn big_wide<F>(run: &Run, f: F) where F: Fn(El, &str, &mut Local) + Sync {
	let wide = [("late-text", 65_537), ("elements", 65_535), ("alike", 65_536 * 5 / 4), ("attrs", 65_537)];
	par_enum(run, "wide", &format!("{wide:?}"), wide.len() as u64, |i, l| {
		let (kind, n) = wide[i as usize];
		let mut m = grown(kind, n); norm_all(&mut m);
		let case = format!("{kind} of size {n}"); note(&case); l.step(1); l.trace(); l.state(&(kind, n));
		f(annotated(m), &case, l);
	});
}
fn norm_all(e: &mut El) { normalize(e) }
fn brief(s: &str) -> String { if s.chars().count() < 300 { s.to_string() } else { format!("{} … {}", s.chars().take(150).collect::<String>(), s.chars().rev().take(100).collect::<Vec<_>>().into_iter().rev().collect::<String>()) } }
/// where two trees differ first
pub fn differ(a: &El, b: &El) -> String {
	if a.tag() != b.tag() { return format!("expected an element {}, got {}", brief(&a.tag()), brief(&b.tag())) }
	if a.ns != b.ns { return format!("<{}>: namespace {:?}, got {:?}", brief(&a.tag()), a.ns, b.ns) }
	if a.attrs != b.attrs { return format!("<{}>: attributes: expected {} {}, got {} {}", brief(&a.tag()), a.attrs.len(), brief(&format!("{:?}", a.attrs)), b.attrs.len(), brief(&format!("{:?}", b.attrs))) }
	for (k, (x, y)) in a.kids.iter().zip(&b.kids).enumerate() { if x != y { return match (x, y) { (M::E(x), M::E(y)) => format!("child {k} of <{}>: {}", brief(&a.tag()), differ(x, y)), _ => format!("child {k} of <{}>: expected {}, got {}", brief(&a.tag()), brief(&format!("{x:?}")), brief(&format!("{y:?}"))) } } }
	format!("<{}>: expected {} children, got {}", brief(&a.tag()), a.kids.len(), b.kids.len())
}
fn doc_of(e: Element, m: &El) -> Pair { (Document::new(e), Doc { decl: Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()), dtds: vec![], root: m.clone() }) }
/// builds it, and says if it is not what was to be built
fn built(m: &El, case: &str, l: &mut Local) -> Option<Element> {
	let x = build(m); let g = observe(&x);
	if g != *m { l.fail(case, format!("built: {}", differ(m, &g))); return None }
	Some(x)
}
fn reload(doc: &Document, m: &El, indents: &[&str]) -> Result<(), String> {
	let mut want = m.clone(); normalize(&mut want); annotate(&mut want, &Scope::new());
	for i in indents {
		let s = doc.to_string_with_indent(*i);
		match parse(&s) { Err(e) => return Err(format!("saved (indent {i:?}), refused: {}", brief(&e.to_string()))), Ok(x) => { let g = observe(x.root_element()); if g != want { return Err(format!("saved (indent {i:?}), loaded: {}", differ(&want, &g))) } } }
	}
	Ok(())
}
/// operations at the first, middle and last places of the root's children
fn edits_at(m: &El) -> Vec<Op> {
	let n = m.kids.len(); let ne = m.els().count();
	let mut v = vec![];
	for i in [0, 1, n / 2, n.saturating_sub(1), n, n + 1] { v.push(Op::Insert(vec![], i, t("T"))); v.push(Op::Insert(vec![], i, pe("p", "x", &[], vec![e("y")]))); v.push(Op::Remove(vec![], i)); }
	for i in [0, ne / 2, ne.saturating_sub(1), ne] { v.push(Op::RemoveElement(vec![], i)); }
	v.push(Op::Append(vec![], t(" &"))); v.push(Op::Append(vec![], ea("z", &[("xmlns", "w")], vec![e("y")]))); v.push(Op::AppendBoxed(vec![], c("c")));
	v.push(Op::AppendAll(vec![], vec![t(""), t("1"), e("q"), t("2"), t(" "), d("3")]));
	v.push(Op::Clear(vec![])); v.push(Op::SetText(vec![], "S".into())); v.push(Op::RemoveByName(vec![], "a".into())); v.push(Op::SwapKids(vec![]));
	v.push(Op::SetAttr(vec![], "xmlns".into(), "new".into())); v.push(Op::SetAttr(vec![], "xmlns:p".into(), "newp".into())); v.push(Op::SetAttr(vec![], "k".into(), "<&\"'>".into())); v.push(Op::RemoveAttr(vec![], "id".into())); v.push(Op::ClearAttrs(vec![]));
	v
}
/// every such edit on a clone of the tree; `then` looks at the result
fn edited<F>(m: &El, case: &str, l: &mut Local, keep: &dyn Fn(&Op) -> bool, then: F) where F: Fn(&Element, &El, &str, &mut Local) {
	let Some(base) = built(m, case, l) else { return };
	for op in edits_at(m) {
		if !keep(&op) { continue }
		let case = format!("{op:?} on {case}"); note(&case);
		let mut mm = m.clone(); let Some(w) = model(&mut mm, &op) else { continue };
		let mut x = base.clone(); let g = real(&mut x, &op); l.trace(); l.step(1);
		if !ret_ok(&w, &g) { return l.fail(case, brief(&format!("returned {g:?}, expected {w:?}"))) }
		let got = observe(&x);
		if got != mm { return l.fail(case, differ(&mm, &got)) }
		then(&x, &mm, &case, l);
		if l.failed() { return }
	}
}

// ------------------------------------------------------------------ C05
pub fn c05(run: &Run) {
	// edits that make neighbours equal
	let nodes = [c("c"), e("e"), d("d"), t("t"), ek("f", vec![c("c")])];
	let mut ops = vec![];
	for m in &nodes { ops.push(Op::Append(vec![], m.clone())); for i in 0..3 { ops.push(Op::Insert(vec![], i, m.clone())); } ops.push(Op::AppendAll(vec![], vec![m.clone(), m.clone()])); ops.push(Op::Append(vec![0], m.clone())); ops.push(Op::Insert(vec![0], 0, m.clone())); }
	ops.extend([Op::Remove(vec![], 0), Op::Remove(vec![], 1), Op::CopyLast(vec![], 0, vec![]), Op::CopyFirst(vec![], 0, vec![0]), Op::SwapKids(vec![]), Op::EditLeaf(vec![], 1, "c".into())]);
	let depth = run.t(3, 4);
	for (name, st) in [("empty", Box::new(|| from_model(el("r", vec![]))) as Box<dyn Fn() -> Pair + Sync>), ("doubles", Box::new(|| from_text("<r><e/><e/><!--c--><!--c-->t<![CDATA[d]]><![CDATA[d]]></r>")))] {
		bfs(run, &format!("equal/{name}"), &format!("all histories of at most {depth} of {} edits with few kinds of nodes, so that equal nodes come to stand beside each other", ops.len()), ops.len(), depth, true, |path, l| {
			if !l.quiet_note() { note(&describe(&ops, path)); }
			let (doc, m) = history(st.as_ref(), &ops, path, l)?;
			if let Err(e) = saved(&doc, &m, &["  ", "\t"]) { l.fail(describe(&ops, path), e); return None }
			Some(h128(&m))
		});
	}
	big(run, run.t(4097, 70_001), |m, case, l| {
		let Some(x) = built(&m, case, l) else { return };
		let doc = Document::new(x);
		if let Err(e) = reload(&doc, &m, &["  ", "\t"]) { return l.fail(case, e) }
		let n = m.kids.len();
		if n > 1100 { return }
		edited(&m, case, l, &|op| !matches!(op, Op::ClearAttrs(..)), |x, mm, case, l| { if !bound_all(mm) { return } if let Err(e) = reload(&Document::new(x.clone()), mm, &[" "]) { l.fail(case, e) } });
	});
	// all small contents of every kind of node, alone and beside others, through constructor and setter
	contents(run, |kind, s, l| {
		let m = match kind { 0 => t(s), 1 => c(s), _ => d(s) };
		for kids in [vec![m.clone()], vec![ek("a", vec![m.clone()]), m.clone(), m.clone()], vec![t("x"), m.clone(), e("b")]] {
			let root = ela("r", &[("k", s)], kids); let mm = normalized(root.clone());
			let Some(x) = built_norm(&root, &mm, s, l) else { return };
			let (doc, dm) = doc_of(x, &mm);
			if let Err(e) = saved(&doc, &dm, &["  ", ""]) { return l.fail(s, e) }
		}
	});
}
fn built_norm(root: &El, want: &El, case: &str, l: &mut Local) -> Option<Element> { let x = build(root); let g = observe(&x); if g != *want { l.fail(case, format!("built: {}", differ(want, &g))); return None } Some(x) }
/// (kind, content): every short string that may be content of a text, comment or CDATA node
pub fn contents<F>(run: &Run, f: F) where F: Fn(u64, &str, &mut Local) + Sync {
	let k = run.t(3, 4);
	par_enum(run, "contents", &format!("all texts, comments and CDATA sections of at most {k} of {} tokens", CONTENT.len()), strings_upto(CONTENT.len(), k) * 3, |i, l| {
		let s = nth_concat(CONTENT, i / 3);
		if (i % 3 == 1 && s.contains("-->")) || (i % 3 == 2 && s.contains("]]>")) { return }
		note(&format!("{s:?} as kind {}", i % 3)); l.step(1); l.trace(); l.state(&(i % 3, &s));
		f(i % 3, &s, l);
	});
}

// ------------------------------------------------------------------ C02, C25
pub fn c02(run: &Run) {
	big(run, run.t(4097, 70_001), |m, case, l| for st in [PLAIN, Style { quote: 1, gap: 2, pair: true, ..PLAIN }, Style { quote: 2, eq: 3, tail: 1, layout: 2, ..PLAIN }] {
		l.trace();
		match parse(&rendered(&m, &st)) { Err(e) => return l.fail(case, format!("refused: {e}")), Ok(d) => { let g = observe(d.root_element()); if g != m { return l.fail(case, differ(&m, &g)) } } }
	});
}
pub fn c25(run: &Run) {
	big(run, run.t(1025, 16_385), |m, case, l| {
		let mut first: Option<Document> = None;
		let n = if m.count() > 400 || case.len() > 40 { 11 } else { 61 };
		for k in 0..n { l.trace(); match parse(&rendered(&m, &style(k * 443 % STYLES))) { Err(e) => return l.fail(case, format!("style {k}: refused: {e}")), Ok(d) => match &first { None => first = Some(d), Some(f) => if d.root_element() != f.root_element() { return l.fail(case, format!("style {k}: {}", differ(&observe(f.root_element()), &observe(d.root_element())))) } } } }
	});
}
// ------------------------------------------------------------------ C08
pub fn c08(run: &Run) {
	big(run, run.t(1025, 16_385), |m, case, l| for s in [rendered(&m, &PLAIN), print(&m, "\t")] {
		match parse(&s) { Err(e) => return l.fail(case, format!("refused: {e}")), Ok(d) => if let Err(e) = ns_view(d.root_element(), &m, "") { return l.fail(case, e) } }
	});
}
// ------------------------------------------------------------------ C09
pub fn c09(run: &Run) {
	let items = [t("x"), t(" "), t(""), e("a"), pe("p", "b", &[], vec![e("m")]), ea("c", &[("xmlns", "w")], vec![pe("p", "n", &[], vec![])]), c("c")];
	let roots = ["<r xmlns=\"u\" xmlns:p=\"v\"><s/></r>", "<r xmlns:p='v' xmlns='u'>t<s/>t</r>", "<p:r xmlns:p='v'/>"];
	let k = run.t(5, 6);
	par_enum(run, "lists", &format!("all lists of at most {k} of {} nodes added by append_all, one by one, at the front, in the constructor, under {} roots", items.len(), roots.len()), strings_upto(items.len(), k) * roots.len() as u64, |i, l| {
		let kids: Vec<M> = nth_string(&items, i / roots.len() as u64).into_iter().cloned().collect();
		let src = roots[(i % roots.len() as u64) as usize];
		let case = format!("{} added to {src}", show(&el("list", kids.clone()))); note(&case); l.step(4); l.state(&i);
		for way in 0..4 {
			let (mut doc, mut m) = from_text(src); l.trace();
			let ops: Vec<Op> = match way { 0 => vec![Op::AppendAll(vec![], kids.clone())], 1 => kids.iter().map(|k| Op::AppendBoxed(vec![], k.clone())).collect(), 2 => kids.iter().map(|k| Op::Insert(vec![], 0, k.clone())).collect(), _ => vec![Op::Append(vec![], ek("inner", kids.clone()))] };
			for op in &ops { let op = if let (3, Op::Append(a, M::E(x))) = (way, op) { Op::Append(a.clone(), M::E(normalized(x.clone()))) } else { op.clone() }; model(&mut m.root, &op).expect("MODEL ERROR"); real(doc.root_element_mut(), &op); }
			if let Err(s) = ns_view(doc.root_element(), &m.root, "") { return l.fail(case, format!("way {way}: {s}")) }
			let g = observe(doc.root_element()); if g != m.root { return l.fail(case, format!("way {way}: {}", differ(&m.root, &g))) }
		}
	});
	let sizes: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).filter(|n| *n <= 70_001).chain([65_537]).rev().collect();
	par_enum(run, "many", &format!("{} numbers of elements (up to {}) handed over at once, in 3 ways below declarations; then every declaration changed", sizes.len(), sizes.iter().max().unwrap()), sizes.len() as u64 * 3, |i, l| {
		let way = i % 3; let n = sizes[(i / 3) as usize]; let case = format!("{n} elements, way {way}"); note(&case); l.step(n as u64); l.trace(); l.state(&i);
		let kids = || -> Vec<Box<dyn Node>> { (0..n).map(|k| build_node(&match k % 3 { 0 => e("a"), 1 => pe("p", "b", &[], vec![]), _ => if k % 2 == 0 { t("t") } else { c("c") } })).collect() };
		let at = HashMap::from([("xmlns", "u"), ("xmlns:p", "v")]);
		let mut x = match way { 0 => { let mut x = Element::new_with_attributes("r", at).unwrap(); x.append_all(kids()); x } 1 => Element::new_with_attributes_and_children("r", at, kids()).unwrap(), _ => { let mut o = Element::new_with_attributes("o", at).unwrap(); o.append(Element::new_with_children("r", kids()).unwrap()); o.remove_element(0).unwrap() } };
		if way == 2 { let mut o = Element::new_with_attributes("o", HashMap::from([("xmlns", "u"), ("xmlns:p", "v")])).unwrap(); o.append_boxed(x.boxed()); x = o; }
		let look = |x: &Element, a: Option<&str>, b: Option<&str>| { let x = if way == 2 { x.child_elements().next().unwrap() } else { x }; x.child_elements().position(|k| k.namespace().as_deref() != if k.name() == "a" { a } else { b }) };
		for (k, v, a, b) in [("", "", Some("u"), Some("v")), ("xmlns", "w", Some("w"), Some("v")), ("xmlns:p", "q", Some("w"), Some("q")), ("xmlns", "", None, Some("q"))] {
			if !k.is_empty() { x.set_attr(k, v).unwrap(); }
			if let Some(at) = look(&x, a, b) { return l.fail(case, format!("{k}={v:?}: element {at} is not in its namespace")) }
		}
	});
	big(run, run.t(4097, 16_385), |m, case, l| {
		// attached as a whole below declarations, and edited there
		let Some(x) = built(&m, case, l) else { return };
		let (mut doc, mut om) = from_text("<o xmlns='out' xmlns:p='outp'><i/></o>");
		doc.root_element_mut().append(x);
		om.root.kids.push(M::E(m.clone())); annotate(&mut om.root, &Scope::new());
		if let Err(s) = ns_view(doc.root_element(), &om.root, "") { return l.fail(case, format!("attached: {s}")) }
		for (k, v) in [("xmlns:p", Some("q")), ("xmlns", Some("new")), ("xmlns", Some("")), ("xmlns:p", None), ("xmlns", None)] {
			let op = match v { Some(v) => Op::SetAttr(vec![1], k.into(), v.into()), None => Op::RemoveAttr(vec![1], k.into()) };
			model(&mut om.root, &op).expect("MODEL ERROR"); real(doc.root_element_mut(), &op);
			if let Err(s) = ns_view(doc.root_element(), &om.root, "") { return l.fail(case, format!("after {op:?}: {s}")) }
		}
		if m.kids.len() > 600 { return }
		edited(&m, case, l, &|_| true, |x, mm, case, l| if let Err(s) = ns_view(x, mm, "") { l.fail(case, s) });
	});
}
// ------------------------------------------------------------------ C10, C12
pub fn c10(run: &Run) { big(run, run.t(4097, 70_001), |m, case, l| edited(&m, case, l, &|op| !matches!(op, Op::SetAttr(..) | Op::RemoveAttr(..) | Op::ClearAttrs(..)) && (m.kids.len() <= 1100 || !matches!(op, Op::RemoveByName(..) | Op::SwapKids(..))), |_, _, _, _| {})); }
pub fn c12(run: &Run) {
	big(run, run.t(4097, 70_001), |m, case, l| edited(&m, case, l, &|op| matches!(op, Op::Append(..) | Op::AppendBoxed(..) | Op::AppendAll(..) | Op::Insert(..) | Op::SetText(..)), |x, _, case, l| if let Some(why) = text_rule(x) { l.fail(case, brief(&why)) }));
	// many texts and blanks in one go
	let pts: Vec<usize> = size_points(run).into_iter().rev().collect();
	par_enum(run, "runs", &format!("lists of up to {} texts and separators in 12 periodic patterns, added at once or one by one", pts[0]), pts.len() as u64 * 12 * 2, |i, l| {
		let mut x = Dec(i); let pat = x.take(12); let one = x.flag(); let n = pts[x.0 as usize];
		if one && n > 520 { return }
		let kids: Vec<M> = (0..n).map(|k| match (pat, k % 5) {
			(0, _) => t("a"), (1, _) => t(" "), (2, _) => t(""), (3, 4) => e("x"), (3, _) => t(&k.to_string()), (4, 2) => c("c"), (4, _) => t("\n"), (5, 0) => t("w"), (5, 1) => t(" "), (5, 2) => e("x"), (5, _) => t(""),
			(6, _) if k + 1 == n => t("last"), (6, 0) => e("x"), (6, _) => t(" "), (7, _) if k == 0 => t("first"), (7, 3) => d("d"), (7, _) => t("\t"), (8, 0) => c(""), (8, 1) => t("\u{a0}"), (8, _) => t(" "), (9, 1) => t(""), (9, _) => e("x"), (10, _) if k == n / 2 => t("mid"), (10, 4) => e("y"), (10, _) => t("\r"), (_, 0) => d(" "), (_, _) => t(if k % 2 == 0 { " " } else { "q" }) }).collect();
		let case = format!("pattern {pat}, {n} nodes, {}", if one { "one by one" } else { "at once" }); note(&case); l.step(n as u64); l.trace(); l.state(&(pat, one, n));
		let mut m = el("r", vec![]); let mut x = Element::new_from_name("r").unwrap();
		for op in if one { kids.iter().map(|k| Op::AppendBoxed(vec![], k.clone())).collect() } else { vec![Op::AppendAll(vec![], kids)] } { model(&mut m, &op).expect("MODEL ERROR"); real(&mut x, &op); }
		let g = observe(&x); if g != m { return l.fail(case, differ(&m, &g)) }
		if let Some(why) = text_rule(&x) { l.fail(case, brief(&why)) }
	});
}
// ------------------------------------------------------------------ C11
/// trees without labels: the predicate is a set of classes of nodes (kind, name, number of children)
fn plain(run: &Run) {
	let hi = run.t(5, 6);
	let sp = ForestSpace::new(0, hi, 4, 2);
	const NAMES: [[&str; 2]; 4] = [["a", "x"], ["p:a", "a"], ["r", "item"], ["name", "node"]];
	let prefixed = |n: &str, kids: Vec<M>| match n.split_once(':') { Some((p, n)) => pe(p, n, &[], kids), None => ek(n, kids) };
	par_enum(run, "plain", &format!("all trees of at most {hi} nodes without attributes, named from 4 pairs of names, x all sets of 7 classes of nodes x 4 operations, and removal by name"), sp.total * 4, |i, l| {
		let nm = NAMES[(i % 4) as usize];
		let root = annotated(ela("r", &[("xmlns:p", "u")], sp.get(i / 4, &|v, _| match v { 0 => prefixed(nm[0], vec![]), 1 => prefixed(nm[1], vec![]), 2 => t("t"), _ => c("c") }, &|v, _, k| prefixed(nm[v], k))));
		let Some(src) = made(&root, l) else { return }; l.state(&root);
		let tag0 = nm[0].to_string();
		let class_m = |m: &M| match m { M::T(_) => 0, M::E(e) => 1 + 3 * (e.tag() != tag0) as usize + e.kids.len().min(2), _ => 7 };
		let class_e = |e: &Element| 1 + 3 * (e.tag_name() != tag0) as usize + e.children().count().min(2);
		let class_r = |n: &Box<dyn Node>| if n.is_text() { 0 } else if n.is_element() { class_e(n.as_element().unwrap()) } else { 7 };
		let go = |what: &str, real: &dyn Fn(&mut Element) -> usize, deep: bool, hit: &dyn Fn(&M) -> bool, l: &mut Local| {
			let mut e = src.clone(); let mut m = root.clone();
			let g = real(&mut e); let w = remove_if(&mut m, deep, hit); l.trace(); l.step(1);
			let got = observe(&e);
			if got != m || g != w { l.fail(format!("{what} on {}", show(&root)), format!("expected {w} removed leaving {}, got {g} and {}", show(&m), show(&got))) }
		};
		for set in 0u32..256 {
			if set & 129 == 0 || set & 126 == 0 {} else if set % 3 != 0 && run.quick() { continue }
			let is_e = |m: &M| matches!(m, M::E(_)) && set >> class_m(m) & 1 == 1;
			go(&format!("remove_by classes {set:b}"), &|e| e.remove_by(&|n: &Box<dyn Node>| set >> class_r(n) & 1 == 1), false, &|m| set >> class_m(m) & 1 == 1, l);
			go(&format!("remove_all classes {set:b}"), &|e| e.remove_all(&|n: &Box<dyn Node>| set >> class_r(n) & 1 == 1), true, &|m| set >> class_m(m) & 1 == 1, l);
			if set & 129 == 0 {
				go(&format!("remove_elements classes {set:b}"), &|e| e.remove_elements(|n| set >> class_e(n) & 1 == 1), false, &is_e, l);
				go(&format!("remove_all_elements classes {set:b}"), &|e| e.remove_all_elements(|n| set >> class_e(n) & 1 == 1), true, &is_e, l);
			}
			if l.failed() { return }
		}
		for n in ["a", "p:a", "x", "r", "item", "name", "node", "p"] { go(&format!("remove_elements_by_name {n:?}"), &|e| e.remove_elements_by_name(n), false, &|m| matches!(m, M::E(e) if e.name == n), l); }
	});
}
pub fn c11(run: &Run) {
	plain(run);
	fn txt(m: &M) -> String { match m { M::E(e) => e.text(), M::T(s) | M::C(s) | M::D(s) => s.clone() } }
	big(run, run.t(4097, 70_001), |m, case, l| {
		let Some(base) = built(&m, case, l) else { return };
		let go = |what: &str, real: &dyn Fn(&mut Element) -> usize, deep: bool, hit: &dyn Fn(&M) -> bool, l: &mut Local| {
			let mut x = base.clone(); let mut mm = m.clone(); note(&format!("{what} on {case}"));
			let (g, w) = (real(&mut x), remove_if(&mut mm, deep, hit)); l.trace(); l.step(1);
			if g != w { return l.fail(format!("{what} on {case}"), format!("{g} removed, expected {w}")) }
			let got = observe(&x); if got != mm { l.fail(format!("{what} on {case}"), differ(&mm, &got)) }
		};
		let is_el = |m: &M, n: &str| matches!(m, M::E(e) if e.name == n);
		for n in ["a", "b", "x"] { go(&format!("remove_elements_by_name({n})"), &|e| e.remove_elements_by_name(n), false, &|m| is_el(m, n), l); go(&format!("remove_all_elements({n})"), &|e| e.remove_all_elements(|x| x.name() == n), true, &|m| is_el(m, n), l); go(&format!("remove_elements({n})"), &|e| e.remove_elements(|x| x.name() == n), false, &|m| is_el(m, n), l); }
		for n in names_of(&m).into_iter().skip(3) { go("remove_elements_by_name", &|e| e.remove_elements_by_name(n), false, &|m| matches!(m, M::E(e) if e.name == n), l); go("remove_all_elements by name", &|e| e.remove_all_elements(|x| x.name() == n), true, &|m| matches!(m, M::E(e) if e.name == n), l); if l.failed() { return } }
		go("remove_by text", &|e| e.remove_by(&|n: &Box<dyn Node>| n.is_text()), false, &|m| matches!(m, M::T(_)), l);
		go("remove_all text", &|e| e.remove_all(&|n: &Box<dyn Node>| n.is_text()), true, &|m| matches!(m, M::T(_)), l);
		go("remove_all comments", &|e| e.remove_all(&|n: &Box<dyn Node>| n.is_comment()), true, &|m| matches!(m, M::C(_)), l);
		go("remove_by CDATA", &|e| e.remove_by(&|n: &Box<dyn Node>| n.is_cdata()), false, &|m| matches!(m, M::D(_)), l);
		go("remove_all nothing", &|e| e.remove_all(&|_: &Box<dyn Node>| false), true, &|_| false, l);
		go("remove_by everything", &|e| e.remove_by(&|_: &Box<dyn Node>| true), false, &|_| true, l);
		go("remove_all everything", &|e| e.remove_all(&|_: &Box<dyn Node>| true), true, &|_| true, l);
		if m.count() > 2200 { return }
		go("remove_all by text", &|e| e.remove_all(&|n: &Box<dyn Node>| n.text().contains('1')), true, &|m| txt(m).contains('1'), l);
		go("remove_all_elements by attribute", &|e| e.remove_all_elements(|n| n.get_attr("i").map(|v| v.ends_with('7')).unwrap_or(false)), true, &|m| matches!(m, M::E(e) if e.attrs.get("i").map(|v| v.ends_with('7')).unwrap_or(false)), l);
	});
}
// ------------------------------------------------------------------ C13, C14
pub fn c13(run: &Run) { big(run, run.t(2049, 10_001), |m, case, l| { let Some(mut x) = built(&m, case, l) else { return }; 
	let names = names_of(&m);
	let mut ns: Vec<Option<&str>> = vec![None, Some("u"), Some("v")]; let mut px = vec![None, Some("p")];
	let twins = case.starts_with("twins");
	if twins { for c in m.els() { if let Some(n) = &c.ns { if !ns.contains(&Some(n)) { ns.push(Some(n)) } } if !c.prefix.is_empty() && !px.contains(&Some(&c.prefix)) { px.push(Some(&c.prefix)) } } }
	queries(&mut x, &m, &names, &ns, &px, case, l) }); }
pub fn c14(run: &Run) { big(run, run.t(4097, 70_001), |m, case, l| { let Some(x) = built(&m, case, l) else { return }; searches(&x, &m, case, l); if let (Some(a), Some(b)) = (x.child_elements().last(), m.els().last()) { searches(a, b, case, l) } }); }
// ------------------------------------------------------------------ C15
pub fn c15(run: &Run) {
	big(run, run.t(4097, 16_385), |m, case, l| {
		let Some(mut x) = built(&m, case, l) else { return }; let mut m = El { kids: vec![], ..m };
		x.clear_children();
		let look = |x: &Element, m: &El, what: &str, l: &mut Local| { let (g, w) = (x.to_string(), print(m, "  ")); if g != w { return l.fail(case, format!("{what}: written as {}, expected {}", brief(&g), brief(&w))) } let got: std::collections::BTreeMap<String, String> = x.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect(); if got != m.attrs { l.fail(case, format!("{what}: {} attributes, expected {}", got.len(), m.attrs.len())) } };
		look(&x, &m, "at first", l);
		let keys: Vec<String> = m.attrs.keys().cloned().collect();
		for k in [keys.first(), keys.get(keys.len() / 2), keys.last()].into_iter().flatten() { let w = m.attrs.remove(k); if x.remove_attr(k.as_str()) != w { return l.fail(case, "remove_attr gives another value") } }
		look(&x, &m, "after removals", l);
		for k in ["xmlns", "xmlns:zz", "A", "zzz", "n5", "id"] { x.set_attr(k, "set <&>\"'").unwrap(); m.attrs.insert(k.into(), "set <&>\"'".into()); }
		look(&x, &m, "after settings", l);
		x.clear_attributes(); m.attrs.clear(); look(&x, &m, "after clearing", l);
	});
	// long names in the order they are written in: a first difference at either end, the lengths the other way round
	let lens: Vec<usize> = size_points(run).into_iter().filter(|n| *n <= run.t(513, 2049)).rev().collect();
	par_enum(run, "long-keys", &format!("all pairs of {} lengths of names up to {}, with 8 ways to differ, and two short names", lens.len(), lens[0]), (lens.len() * lens.len() * 8) as u64, |i, l| {
		let mut x = Dec(i); let way = x.take(8); let (n, k) = (*x.pick(&lens), lens[x.0 as usize]);
		let (a, b) = match way { 0 => (format!("a{}", "x".repeat(n)), format!("b{}", "x".repeat(k))), 1 => (format!("{}a", "x".repeat(n)), format!("{}b", "x".repeat(n.max(1)))), 2 => (format!("x{}", "x".repeat(n)), format!("x{}", "x".repeat(k))), 3 => (format!("xmlns:{}", "z".repeat(n + 1)), format!("a{}", "b".repeat(k))), 4 => (format!("xmlns:{}", "z".repeat(n + 1)), format!("xmlns:y{}", "z".repeat(k))), 5 => (format!("z{}", "B".repeat(n)), format!("z{}", "a".repeat(k))), 6 => (format!("q{}\u{e9}", "e".repeat(n)), format!("q{}", "f".repeat(k))), _ => (format!("p:{}", "m".repeat(n + 1)), format!("p{}", "-".repeat(k))) };
		let case = format!("lengths {n} and {k}, way {way}"); note(&case); l.step(1); l.trace(); l.state(&i);
		let mut m = ela("r", &[("m", "1"), ("xm", "2")], vec![]); let mut x = build(&m);
		for (k, v) in [(&a, "3"), (&b, "4")] { x.set_attr(k.as_str(), v).unwrap(); m.attrs.insert(k.clone(), v.into()); }
		if x.to_string() != print(&m, "  ") { l.fail(case, format!("written as {}", brief(&x.to_string()))) }
	});
	let pts: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).rev().collect();
	let units = ["v", "\"", "<a k='", "&amp;", "\u{e9}\u{1F600}", " \n"];
	par_enum(run, "value-sizes", &format!("6 patterns at {} lengths up to {}", pts.len(), pts[0].max(pts[pts.len() - 1])), pts.len() as u64 * 6, |i, l| {
		let n = pts[(i / 6) as usize]; let v: String = units[(i % 6) as usize].chars().cycle().take(n).collect(); let case = format!("{n} characters of {:?}", units[(i % 6) as usize]); note(&case); l.step(1); l.trace(); l.state(&i);
		let mut x = Element::new_from_name("r").unwrap(); x.set_attr("k", v.as_str()).unwrap(); x.set_attr("b", "1").unwrap();
		if x.get_attr("k") != Some(&v) { return l.fail(case, "get_attr gives another value") }
		if x.to_string() != print(&ela("r", &[("k", &v), ("b", "1")], vec![]), "  ") { return l.fail(case, "written differently") }
		if x.remove_attr("k") != Some(v) { l.fail(case, "remove_attr gives another value") }
	});
}
// ------------------------------------------------------------------ C16, C17
pub fn c16(run: &Run) {
	// a name among many other things
	let sizes: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).filter(|n| *n <= run.t(4097, 16_385)).rev().collect();
	let bads = ["1a", "a b", "", "<", "a\"", "-x", "a/", "a\n", "a=", "&amp;", "\u{b7}", "x>", "\u{d7}"]; let goods = ["z", "_", "\u{e9}-1.b", "xmlns-like", "q1"];
	par_enum(run, "crowded", &format!("13 bad and 5 good names as element name, prefix, attribute name of a constructor or of set_attr x 6 kinds of other content at {} sizes up to {}", sizes.len(), sizes.iter().max().unwrap()), sizes.len() as u64 * 18 * 4 * 6, |i, l| {
		let mut x = Dec(i); let si = x.take(18); let wh = x.take(4); let with = x.take(6); let n = sizes[x.0 as usize];
		let ok = si >= 13; let s = if ok { goods[si - 13] } else { bads[si] }; if wh == 1 && s.is_empty() { return }
		let long = "v \u{e9}<".chars().cycle().take(n).collect::<String>();
		let mut attrs: HashMap<String, String> = HashMap::new();
		match with { 0 => attrs.extend((0..n).map(|k| (format!("a{k}"), k.to_string()))), 1 => { attrs.insert("a".into(), long.clone()); } 2 => attrs.extend((0..n).map(|k| (format!("xmlns:p{k}"), "u".to_string()))), _ => {} }
		let text = (with == 3).then(|| long.clone()); let kids: Option<Vec<Box<dyn Node>>> = (with == 4).then(|| (0..n).map(|_| build_node(&e("k"))).collect()); let ns = if with == 5 { Some(format!("urn:{long}")) } else if wh == 1 { Some("u".into()) } else { None };
		let case = format!("{s:?} as {}, among {n} of kind {with}", ["name", "prefix", "attribute", "set attribute"][wh]); note(&case); l.step(1); l.trace(); l.state(&i); l.outcome(if ok { "name" } else { "not a name" });
		let name = if wh == 0 { s } else { "n" }; let prefix = if wh == 1 { Some(s.to_string()) } else { None }; if wh == 2 { attrs.insert(s.into(), "new".into()); }
		let had = attrs.len();
		match (Element::new(name, text, Some(attrs), ns, prefix, kids), wh) {
			(Err(_), 3) => l.fail(case, "could not be built"),
			(Ok(mut x), 3) => { let r = x.set_attr(s, "new"); let now = x.attributes().len() - usize::from(with == 5); if r.is_ok() != ok || now != had + usize::from(ok) || ok && x.get_attr(s).map(|v| v.as_str()) != Some("new") { l.fail(case, format!("{r:?}, {now} attributes where there were {had}")) } }
			(Ok(x), _) => if !ok { l.fail(case, "accepted although not a name") } else { match parse(&x.to_string()) { Ok(d) if *d.root_element() == x && x.name() == name && (wh != 1 || x.namespace_prefix().as_deref() == Some(s)) && (wh != 2 || x.get_attr(s).is_some()) => {}, _ => l.fail(case, "not the same when it is read again") } }
			(Err(e), _) => if ok { l.fail(case, format!("refused: {e}")) } else { match e { kiss_xml::errors::KissXmlError::InvalidElementName(_) if wh < 2 => {}, kiss_xml::errors::KissXmlError::InvalidAttributeName(_) if wh == 2 => {}, e => l.fail(case, format!("wrong kind of error: {e:?}")) } }
		}
	});
	let pts: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).filter(|n| *n > 0 && *n <= run.t(16_385, 32_769)).rev().collect();
	let units = ["n", "n.-1", "\u{e9}", "a_\u{b7}", "x1\u{10000}"]; let bads = [' ', '<', '=', '/', '"', '&', '\u{d7}', '\n', '\u{0}', '!'];
	par_enum(run, "long-names", &format!("names of {} lengths up to {} as element, prefix and attribute name; and with one of 10 characters at the end, before it, and in the middle", pts.len(), pts.iter().max().unwrap()), pts.len() as u64 * 5 * 31, |i, l| {
		let mut x = Dec(i); let u = *x.pick(&units); let bad = x.take(31); let n = pts[x.0 as usize];
		if bad > 0 && n > 4097 { return }
		let mut v: Vec<char> = u.chars().cycle().take(n).collect();
		if bad > 0 { let (b, at) = (bads[(bad - 1) / 3], (bad - 1) % 3); let at = match at { 0 => n, 1 => n - 1, _ => n / 2 }; v.insert(at, b); }
		let s: String = v.into_iter().collect();
		let case = format!("{n} characters of {u:?}, variant {bad}"); note(&case); l.step(1); l.trace(); l.state(&i);
		let ok = bad == 0;
		let a = Element::new_from_name(s.as_str()); let b = Element::new("r", None, None::<HashMap<String, String>>, Some("u".into()), Some(s.clone()), None);
		let mut y = Element::new_from_name("r").unwrap(); let set = y.set_attr(s.as_str(), "v"); let at = Element::new_with_attributes("r", HashMap::from([(s.as_str(), "v")]));
		for (what, good) in [("name", a.is_ok()), ("prefix", b.is_ok()), ("set_attr", set.is_ok()), ("attribute", at.is_ok())] { if good != ok { return l.fail(case, format!("{what} {}", if good { "accepted" } else { "refused" })) } }
		if !ok { if !y.attributes().is_empty() { l.fail(case, "refused attribute is there") } return }
		let mut x = b.unwrap(); x.append(a.unwrap()); x.append(y);
		let m = annotated({ let mut m = ela("r", &[(&format!("xmlns:{s}"), "u")], vec![M::E(el(&s, vec![])), ea("r", &[(&s, "v")], vec![])]); m.prefix = s.clone(); m });
		let g = observe(&x); if g != m { return l.fail(case, differ(&m, &g)) }
		if let Err(e) = reload(&Document::new(x), &m, &["  "]) { l.fail(case, e) }
	});
}
pub fn c17(run: &Run) {
	let pts: Vec<usize> = size_points(run).into_iter().chain(large_points(run)).rev().collect();
	let units = ["x", "- >", "] ]>", "<a>&lt;", "\u{1F600}\u{e9}", "\r\n ", "->", "]>"];
	par_enum(run, "long", &format!("8 patterns at {} lengths up to {}, with and without the closing delimiter at the front, at the end and in the middle", pts.len(), pts.iter().max().unwrap()), pts.len() as u64 * 8 * 4, |i, l| {
		let mut x = Dec(i); let u = *x.pick(&units); let bad = x.take(4); let n = pts[x.0 as usize];
		let v: String = u.chars().cycle().take(n).collect(); let mid = v.char_indices().nth(n / 2).map(|x| x.0).unwrap_or(0);
		let case = format!("{n} characters of {u:?}, variant {bad}"); note(&case); l.step(2); l.trace(); l.state(&i);
		for (kind, delim) in [(0, "-->"), (1, "]]>")] {
			let s = match bad { 0 => v.clone(), 1 => format!("{delim}{v}"), 2 => format!("{v}{delim}"), _ => format!("{}{delim}{}", &v[..mid], &v[mid..]) };
			let (made, set, now) = if kind == 0 { let mut y = Comment::new("old").unwrap(); let r = y.set_content(s.as_str()).is_ok(); (Comment::new(s.as_str()).ok().map(|x| x.boxed()), r, y.get_content().to_string()) } else { let mut y = CData::new("old").unwrap(); let r = y.set_text(s.as_str()).is_ok(); (CData::new(s.as_str()).ok().map(|x| x.boxed()), r, y.get_content().to_string()) };
			let want = if kind == 1 || bad > 0 { bad == 0 } else { made.is_some() };
			if made.is_some() != want || set != want { return l.fail(case, format!("{delim}: {}", if want { "refused" } else { "accepted" })) }
			if kind == 0 && bad == 0 && !s.contains("--") && !s.ends_with('-') && made.is_none() { return l.fail(case, "harmless comment refused") }
			if now != if want { s.as_str() } else { "old" } { return l.fail(case, "the setter leaves other content") }
			let Some(node) = made else { continue };
			let m = if kind == 0 { M::C(s.clone()) } else { M::D(s.clone()) };
			if observe_node(&node) != m { return l.fail(case, "stored differently") }
			let root = el("r", vec![m.clone(), e("a"), m]); let x = build(&root);
			if let Err(e) = reload(&Document::new(x), &root, &["  "]) { return l.fail(case, e) }
		}
	});
	contents(run, |kind, s, l| {
		if kind == 0 { return }
		let m = if kind == 1 { c(s) } else { d(s) };
		let made = if kind == 1 { Comment::new(s).map(|x| x.boxed()).ok() } else { CData::new(s).map(|x| x.boxed()).ok() };
		let Some(node) = made else { if kind == 2 || (!s.contains("--") && !s.ends_with('-')) { l.fail(s, "refused") } return };
		if observe_node(&node) != m { return l.fail(s, "stored differently") }
		for kids in [vec![m.clone()], vec![m.clone(), m.clone()], vec![t("x"), m.clone(), e("b")]] { let root = el("r", kids); let x = build(&root); if let Err(e) = reload(&Document::new(x), &root, &["  ", ""]) { return l.fail(s, e) } }
	});
}
// ------------------------------------------------------------------ C19
pub fn c19(run: &Run) {
	big(run, run.t(4097, 70_001), |m, case, l| {
		let Some(x) = built(&m, case, l) else { return };
		for i in ["  ", "\t", "", "      "] {
			l.trace(); let (g, w) = (x.to_string_with_indent(i), print(&m, i));
			if g != w { let at = g.bytes().zip(w.bytes()).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len())); return l.fail(case, format!("indent {i:?}: other text from byte {at} of {} (expected {})", g.len(), w.len())) }
		}
	});
	contents(run, |kind, s, l| {
		let m = match kind { 0 => t(s), 1 => c(s), _ => d(s) };
		for kids in [vec![m.clone()], vec![ek("a", vec![m.clone(), e("b")]), m.clone()], vec![e("b"), ek("a", vec![m.clone()])]] {
			let root = normalized(ela("r", &[("k", s)], kids)); let x = build(&root);
			for i in ["  ", ""] { let (g, w) = (x.to_string_with_indent(i), print(&root, i)); if g != w { return l.fail(s, format!("indent {i:?}: written as {g:?}, expected {w:?}")) } }
		}
	});
}
// ------------------------------------------------------------------ C23
/// trees that differ from this one in one respect
fn variants(m: &El) -> Vec<(&'static str, El)> {
	let mut v = vec![];
	let n = m.kids.len();
	let touch = |k: &mut M| match k { M::E(x) => { x.attrs.insert("mark".into(), "1".into()); } M::T(s) | M::C(s) | M::D(s) => { let last = s.pop(); s.push(if last == Some('y') { 'z' } else { 'y' }); } };
	{ let mut x = m.clone(); x.kids.push(c("more")); v.push(("one child more", x)); }
	if n > 0 {
		{ let mut x = m.clone(); x.kids.pop(); v.push(("one child less", x)); }
		{ let mut x = m.clone(); x.kids.remove(0); v.push(("no first child", x)); }
		for (what, at) in [("first child changed", 0), ("middle child changed", n / 2), ("last child changed", n - 1)] { let mut x = m.clone(); touch(&mut x.kids[at]); v.push((what, x)); }
		{ let mut x = m.clone(); let mut e = &mut x; loop { let Some(p) = e.kids.iter().rposition(|k| matches!(k, M::E(c) if !c.kids.is_empty())) else { break }; if let M::E(c) = &mut e.kids[p] { e = c } else { unreachable!() } } if let Some(k) = e.kids.last_mut() { touch(k) } v.push(("deepest change", x)); }
		if n > 1 && m.kids[0] != m.kids[n - 1] { let mut x = m.clone(); x.kids.swap(0, n - 1); v.push(("children swapped", x)); }
	}
	if let Some(k) = m.attrs.keys().last().cloned() { let mut x = m.clone(); x.attrs.get_mut(&k).unwrap().push('y'); v.push(("value longer", x)); let mut x = m.clone(); x.attrs.remove(&k); v.push(("attribute less", x)); let mut x = m.clone(); let w = x.attrs.remove(&k).unwrap(); x.attrs.insert(format!("{k}y"), w); v.push(("attribute renamed", x)); }
	{ let mut x = m.clone(); x.name.push('y'); v.push(("name longer", x)); }
	// one character changed in something long
	let flip = |s: &str| -> Vec<String> { if s.len() < 16 || !s.is_ascii() { return vec![] } places(s.len()).into_iter().map(|p| { let mut x = s.to_string(); let by = if &s[p..p + 1] == "x" { "y" } else { "x" }; x.replace_range(p..p + 1, by); x }).collect() };
	for w in flip(&m.name) { let mut x = m.clone(); x.name = w; v.push(("name changed", x)); }
	if let Some((k, w)) = m.attrs.iter().filter(|a| a.1.len() >= 16).last() { for w in flip(w) { let mut x = m.clone(); x.attrs.insert(k.clone(), w); v.push(("value changed", x)); } }
	if let Some((k, w)) = m.attrs.iter().filter(|a| a.0.len() >= 16 && !a.0.starts_with("xmlns")).last() { for f in flip(k) { let mut x = m.clone(); x.attrs.remove(k); x.attrs.insert(f, w.clone()); v.push(("attribute name changed", x)); } }
	for kind in 1..4 {
		let long = |c: &M| c.kind() == kind && matches!(c, M::T(s) | M::C(s) | M::D(s) if s.len() >= 16);
		let Some(at) = m.kids.iter().position(long) else { continue };
		if let M::T(s) | M::C(s) | M::D(s) = &m.kids[at] { for f in flip(s) { let mut x = m.clone(); if let M::T(s) | M::C(s) | M::D(s) = &mut x.kids[at] { *s = f } v.push(("content changed", x)); } }
	}
	if let Some(at) = m.kids.iter().rposition(|c| matches!(c, M::E(c) if c.name.len() >= 16)) { if let M::E(c) = &m.kids[at] { for f in flip(&c.name) { let mut x = m.clone(); if let M::E(c) = &mut x.kids[at] { c.name = f } v.push(("name of a child changed", x)); } } }
	for (_, x) in &mut v { normalize(x); annotate(x, &Scope::new()); }
	v.retain(|x| x.1 != *m);
	v
}
pub fn c23(run: &Run) {
	big(run, run.t(4097, 70_001), |m, case, l| {
		let Some(x) = built(&m, case, l) else { return };
		let mut cl = x.clone();
		if observe(&cl) != m { return l.fail(case, format!("clone: {}", differ(&m, &observe(&cl)))) }
		if cl != x || x != cl || hash_of(&cl) != hash_of(&x) { return l.fail(case, "a clone is not equal or hashed differently") }
		let b = x.clone().boxed(); let nb = clone_node(&b);
		if observe_node(&nb) != M::E(m.clone()) || !node_eq(&b, &nb) { return l.fail(case, "clone_node gives another node") }
		let again = build(&m); if again != x || hash_of(&again) != hash_of(&x) { return l.fail(case, "built twice: not equal or hashed differently") }
		let (d1, d2) = (Document::new(x.clone()), Document::new(x.clone())); if d1 != d2 || observe(d1.root_element()) != m { return l.fail(case, "two documents with clones of an element differ") }
		for (what, v) in variants(&m) { l.trace(); let y = build(&v); if observe(&y) != v { return l.fail(case, format!("{what}: built {}", differ(&v, &observe(&y)))) } if x == y || y == x { return l.fail(case, format!("{what}: equal")) } }
		// independence
		for n in cl.children_mut() { match n.node_type() { DomNodeType::ElementNode => n.as_element_mut().unwrap().set_text("changed"), DomNodeType::TextNode => n.as_text_mut().unwrap().content = "changed".into(), DomNodeType::CommentNode => n.as_comment_mut().unwrap().set_content("changed").unwrap(), DomNodeType::CDataNode => n.as_cdata_mut().unwrap().set_text("changed").unwrap() } }
		cl.clear_attributes();
		if observe(&x) != m || again != x { return l.fail(case, "changing the clone changes the original") }
		let mut y = x.clone(); let z = y.clone(); y.clear_children(); y.clear_attributes(); if observe(&z) != m { l.fail(case, "changing the original changes the clone") }
	});
}
// ------------------------------------------------------------------ C24
pub fn c24(run: &Run) {
	big(run, run.t(1025, 10_001), |m, case, l| {
		let Some(x) = built(&m, case, l) else { return };
		let mut b = x.boxed(); let mm = M::E(m);
		if let Err(e) = kinds_deep(&b, &mm) { return l.fail(case, e) }
		if observe_node(&b) != mm { return l.fail(case, "changed by boxing") }
		if let Err(e) = kinds_deep_mut(&mut b, &mm) { l.fail(case, e) }
	});
	contents(run, |kind, s, l| {
		let m = match kind { 0 => t(s), 1 => c(s), _ => d(s) };
		let mut b = build_node(&m);
		if observe_node(&b) != m { return l.fail(s, "content changed by boxing") }
		if let Err(e) = kinds_deep(&b, &m) { return l.fail(s, e) }
		let mut r = Element::new_from_name("r").unwrap(); r.append(Element::new_from_name("a").unwrap()); r.append_boxed(build_node(&m));
		if kind != 0 || !blank(s) { let n = r.remove(1).unwrap(); if observe_node(&n) != m { return l.fail(s, "content changed in a tree") } if let Err(e) = kinds_deep(&n, &m) { return l.fail(s, e) } }
		if let Err(e) = kinds_deep_mut(&mut b, &m) { l.fail(s, e) }
	});
}
