//! C32: the order of nodes.
use crate::checks_parse::show;
use crate::checks_tree::hash_of;
use crate::engine::*;
use crate::model::*;
use crate::ops::{model, real, Op};
use kiss_xml::dom::*;
fn e(name: &str) -> M { M::E(el(name, vec![])) }
fn ek(name: &str, kids: Vec<M>) -> M { M::E(el(name, kids)) }
fn c(s: &str) -> M { M::C(s.into()) }
fn d(s: &str) -> M { M::D(s.into()) }
// ------------------------------------------------------------------ C32
use std::cmp::Ordering;
/// every way to compare two values of a kind says the same
fn compared<T: PartialOrd>(x: &T, y: &T, want: Option<Ordering>) -> Result<(), String> {
	let got = x.partial_cmp(y);
	if got != want { return Err(format!("partial_cmp says {got:?}, expected {want:?}")) }
	if y.partial_cmp(x) != want.map(Ordering::reverse) { return Err(format!("partial_cmp, swapped, says {:?}, expected the reverse of {want:?}", y.partial_cmp(x))) }
	let ways = (x < y, x <= y, x > y, x >= y, x == y);
	let w = |o: &[Ordering]| want.is_some_and(|x| o.contains(&x));
	let wants = (w(&[Ordering::Less]), w(&[Ordering::Less, Ordering::Equal]), w(&[Ordering::Greater]), w(&[Ordering::Greater, Ordering::Equal]), w(&[Ordering::Equal]));
	if ways != wants { return Err(format!("<, <=, >, >=, == say {ways:?}, expected {wants:?}")) }
	Ok(())
}
fn nodes_compared(x: &Box<dyn Node>, y: &Box<dyn Node>, want: Option<Ordering>) -> Option<Result<(), String>> {
	Some(match (x.node_type(), y.node_type()) {
		(DomNodeType::ElementNode, DomNodeType::ElementNode) => compared(x.as_element().unwrap(), y.as_element().unwrap(), want),
		(DomNodeType::TextNode, DomNodeType::TextNode) => compared(x.as_text().unwrap(), y.as_text().unwrap(), want),
		(DomNodeType::CommentNode, DomNodeType::CommentNode) => compared(x.as_comment().unwrap(), y.as_comment().unwrap(), want),
		(DomNodeType::CDataNode, DomNodeType::CDataNode) => compared(x.as_cdata().unwrap(), y.as_cdata().unwrap(), want),
		_ => return None,
	})
}
/// the order of the model: contents as strings, elements by name, equal only if equal
fn order(x: &M, y: &M) -> Option<Ordering> {
	match (x, y) {
		(M::T(a), M::T(b)) | (M::C(a), M::C(b)) | (M::D(a), M::D(b)) => Some(a.as_bytes().cmp(b.as_bytes())),
		(M::E(a), M::E(b)) => match a.name.as_bytes().cmp(b.name.as_bytes()) { Ordering::Equal if a != b => None, o => Some(o) },
		_ => None,
	}
}
/// total order of things that are compared by their text
fn total<T: Ord + std::hash::Hash>(x: &T, y: &T, same: bool) -> Result<Ordering, String> {
	let o = x.cmp(y);
	if x.partial_cmp(y) != Some(o) || y.cmp(x) != o.reverse() { return Err(format!("cmp says {o:?}, partial_cmp {:?}, swapped {:?}", x.partial_cmp(y), y.cmp(x))) }
	if (o == Ordering::Equal) != same || (x == y) != same { return Err(format!("cmp says {o:?} and == says {}, but the texts are {}", x == y, if same { "the same" } else { "different" })) }
	if same && hash_of(x) != hash_of(y) { return Err("equal but hashed differently".into()) }
	compared(x, y, Some(o))?;
	Ok(o)
}
pub fn c32(run: &Run) {
	// elements that differ in one or two respects, on their own and in surroundings that give them a namespace
	let names = ["a", "b", "aa", "A", "_", "é", "a.b", "a-b", "a1", "z"];
	let attrs: [&[(&str, &str)]; 6] = [&[], &[("k", "v")], &[("k", "w")], &[("l", "v")], &[("xmlns", "u")], &[("xmlns:p", "u"), ("k", "v")]];
	let kids: Vec<Vec<M>> = vec![vec![], vec![t("a")], vec![t("b")], vec![c("a")], vec![d("a")], vec![e("a")], vec![e("b")], vec![e("a"), e("b")], vec![e("b"), e("a")], vec![ek("a", vec![ek("b", vec![t("x")])])], vec![ek("a", vec![ek("b", vec![t("y")])])]];
	let mut pool: Vec<M> = vec![];
	for n in names { for p in ["", "p", "z"] { for a in attrs { for k in &kids { if k.len() + a.len() > run.t(1, 9) && n.len() > 1 { continue } let mut x = ela(n, a, k.clone()); x.prefix = p.into(); pool.push(M::E(x)); } } } }
	let outs: [&[(&str, &str)]; 2] = [&[], &[("xmlns", "v"), ("xmlns:p", "u"), ("xmlns:z", "u")]];
	let mut entries: Vec<(M, El)> = vec![];
	for m in &pool { for (oi, o) in outs.iter().enumerate() { if oi > 0 && !matches!(m, M::E(x) if x.kids.is_empty() && x.attrs.len() < 2) { continue } let outer = ela("o", o, vec![m.clone()]); entries.push((annotated(outer.clone()).kids[0].clone(), outer)); } }
	let n = entries.len() as u64;
	par_enum(run, "elements", &format!("all ordered pairs of {n} elements: every comparison, and its reverse"), n * n, |i, l| {
		let held = per_thread("c32", || entries.iter().map(|x| build(&x.1)).collect::<Vec<Element>>());
		let (a, b) = ((i / n) as usize, (i % n) as usize); let nth = |k: usize| held[k].children().next().expect("MODEL ERROR: pool");
		let want = order(&entries[a].0, &entries[b].0); l.step(1); l.trace(); l.outcome(match want { None => "not ordered", Some(Ordering::Equal) => "equal", _ => "ordered" });
		if a == b { l.state(&entries[a].0); note(&format!("{:?}", entries[a].0)); }
		if let Some(Err(e)) = nodes_compared(nth(a), nth(b), want) { l.fail(format!("{:?} and {:?}", entries[a].0, entries[b].0), e) }
	});
	// three at a time, on the real nodes alone: the order is transitive
	let step = (n / run.t(220, 440)).max(1); let few: Vec<usize> = (0..n as usize).step_by(step as usize).collect(); let k = few.len() as u64;
	par_enum(run, "triples", &format!("all triples of {k} of the elements: transitivity"), k * k, |i, l| {
		let held = per_thread("c32t", || few.iter().map(|x| build(&entries[*x].1)).collect::<Vec<Element>>());
		let nth = |k: usize| held[k].child_elements().next().expect("MODEL ERROR: pool");
		let (a, b) = ((i / k) as usize, (i % k) as usize); let (x, y) = (nth(a), nth(b)); l.step(k); l.trace(); l.state(&("t", i));
		for z in 0..k as usize { let w = nth(z); let le = |p: &Element, q: &Element| p.partial_cmp(q).is_some_and(|o| o.is_le()); if le(x, y) && le(y, w) && !le(x, w) { return l.fail(format!("{x} <= {y} <= {w}"), "but the first is not <= the last".to_string()) } }
	});
	// all short contents, as every kind of leaf and as names
	const PARTS: [&str; 12] = ["a", "b", "A", " ", "\n", "\0", "\u{7f}", "\u{80}", "\u{7ff}", "\u{fffd}", "\u{10000}", "\u{10ffff}"];
	let texts: Vec<String> = (0..strings_upto(PARTS.len(), run.t(3, 3))).map(|i| nth_concat(&PARTS, i)).collect(); let nt = texts.len() as u64;
	par_enum(run, "contents", &format!("all ordered pairs of {nt} contents, as text, comment and CDATA, made in 3 ways; declarations and DTDs with them"), nt * nt, |i, l| {
		let (a, b) = (&texts[(i / nt) as usize], &texts[(i % nt) as usize]); let want = Some(a.as_bytes().cmp(b.as_bytes())); l.step(6); l.trace();
		if a == b { note(&format!("{a:?}")); l.state(a); }
		let bad = |what: &str, e: String, l: &mut Local| l.fail(format!("{what} of {a:?} and {b:?}"), e);
		if let Err(e) = compared(&Text::new(a.as_str()), &Text::from(b.clone()), want) { return bad("texts", e, l) }
		{ let mut x = Text::new("old"); x.content = a.clone(); if let Err(e) = compared(&x, &Text::new(b.as_str()), want) { return bad("changed texts", e, l) } }
		if let Err(e) = compared(&Comment::new(a.as_str()).unwrap(), &Comment::from(b.clone()), want) { return bad("comments", e, l) }
		{ let mut x = Comment::new("old").unwrap(); x.set_content(a.as_str()).unwrap(); if let Err(e) = compared(&x, &Comment::new(b.as_str()).unwrap(), want) { return bad("changed comments", e, l) } }
		if let Err(e) = compared(&CData::new(a.as_str()).unwrap(), &CData::from(b.clone()), want) { return bad("CDATA sections", e, l) }
		{ let mut x = CData::new("old").unwrap(); x.set_text(a.as_str()).unwrap(); if let Err(e) = compared(&x, &CData::new(b.as_str()).unwrap(), want) { return bad("changed CDATA sections", e, l) } }
		let q = |s: &str| DTD::from_string(format!("<!DOCTYPE r \"{s}\">")).expect("refused");
		if let Err(e) = total(&q(a), &q(b), a == b) { return bad("DTDs", e, l) }
		let q = |s: &str| Declaration::from_str(&format!("<?xml version=\"1.0\" x=\"{s}\"?>")).expect("refused");
		if let Err(e) = total(&q(a), &q(b), a == b) { return bad("declarations", e, l) }
	});
	const NAMES: [&str; 9] = ["a", "b", "A", "_", "-", "9", "é", "\u{fffd}", "\u{10000}"];
	let short: Vec<String> = (0..strings_upto(NAMES.len(), run.t(3, 4))).map(|i| nth_concat(&NAMES, i)).filter(|s| crate::refparse::is_ncname(s)).collect(); let nn = short.len() as u64;
	par_enum(run, "names", &format!("all ordered pairs of {nn} names: elements in ascending order of names"), nn * nn, |i, l| {
		let held = per_thread("c32n", || short.iter().map(|s| Element::new_from_name(s).expect("refused")).collect::<Vec<_>>());
		let (a, b) = ((i / nn) as usize, (i % nn) as usize); l.step(1); l.trace(); if a == b { note(&short[a]); l.state(&short[a]); }
		if let Err(e) = compared(&held[a], &held[b], Some(short[a].as_bytes().cmp(short[b].as_bytes()))) { l.fail(format!("{:?} and {:?}", short[a], short[b]), e) }
	});
	// long ones that differ in one place, or in length alone
	let mut lens: Vec<usize> = (0..run.t(15, 17)).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1]).collect(); lens.extend([10, 50, 100, 200, 1000, 10_000]); lens.sort(); lens.dedup();
	par_enum(run, "long", "contents and names of lengths around every power of two that differ in one character at the front, at the end or in between, or in length, or in both", lens.len() as u64 * 2, |i, l| {
		let mut x = Dec(i); let u = ["a", "é"][x.take(2)]; let n = lens[x.0 as usize].max(1); let base = u.repeat(n); let case = format!("{n} times {u:?}"); note(&case); l.state(&i);
		let mut ps: Vec<usize> = crate::checks_big::places(n).into_iter().filter(|p| *p < n).collect(); ps.sort(); ps.dedup();
		let mut others: Vec<String> = vec![base.clone(), format!("{base}{u}"), format!("{base}A"), u.repeat(n - 1), format!("{base}A{base}")];
		for p in ps { for by in ["A", "z"] { for rest in [n - 1 - p, (n - 1 - p) / 2, n - p, n - p + 7] { others.push(format!("{}{by}{}", u.repeat(p), u.repeat(rest))); } } }
		for o in others {
			let want = Some(base.as_bytes().cmp(o.as_bytes())); l.step(4); l.trace();
			let r = compared(&Text::new(base.as_str()), &Text::new(o.as_str()), want).map_err(|e| format!("texts: {e}"))
				.and_then(|_| compared(&Comment::new(base.as_str()).unwrap(), &Comment::new(o.as_str()).unwrap(), want).map_err(|e| format!("comments: {e}")))
				.and_then(|_| compared(&CData::new(base.as_str()).unwrap(), &CData::new(o.as_str()).unwrap(), want).map_err(|e| format!("CDATA: {e}")))
				.and_then(|_| { let q = |s: &str| DTD::from_string(format!("<!DOCTYPE {s}>")).expect("refused"); total(&q(&base), &q(&o), base == o).map(|_| ()).map_err(|e| format!("DTDs: {e}")) })
				.and_then(|_| if o.is_empty() { Ok(()) } else { compared(&Element::new_from_name(&base).unwrap(), &Element::new_from_name(&o).unwrap(), want).map_err(|e| format!("elements: {e}")) });
			if let Err(e) = r { return l.fail(case, format!("other of {} bytes: {e}", o.len())) }
		}
	});
	// every history of edits: two elements that start equal compare by what they are now
	let edits: Vec<Op> = vec![Op::Append(vec![], t("x")), Op::Append(vec![], e("n")), Op::Insert(vec![], 0, c("C")), Op::Clear(vec![]), Op::SetAttr(vec![], "k".into(), "v".into()), Op::SetAttr(vec![], "xmlns".into(), "u".into()), Op::RemoveAttr(vec![], "xmlns".into()), Op::ClearAttrs(vec![]), Op::Remove(vec![], 0), Op::SetText(vec![], "x".into())];
	let depth = run.t(3, 4); let ways = strings_upto(edits.len(), depth);
	let states: Vec<El> = (0..ways).filter_map(|i| { let mut m = annotated(el("a", vec![])); for op in nth_string(&edits, i) { model(&mut m, op)?; } Some(m) }).collect();
	let paths: Vec<u64> = (0..ways).filter(|i| { let mut m = annotated(el("a", vec![])); nth_string(&edits, *i).iter().all(|op| model(&mut m, op).is_some()) }).collect();
	let np = paths.len() as u64;
	par_enum(run, "histories", &format!("all ordered pairs of the elements made by {np} histories of at most {depth} edits"), np * np, |i, l| {
		let held = per_thread("c32h", || paths.iter().map(|p| { let mut x = Element::new_from_name("a").unwrap(); for op in nth_string(&edits, *p) { real(&mut x, op); } x }).collect::<Vec<Element>>());
		let (a, b) = ((i / np) as usize, (i % np) as usize); if a > b { return }
		let want = if states[a] == states[b] { Some(Ordering::Equal) } else { None }; l.step(1); l.trace(); if a == b { l.state(&states[a]); note(&format!("{:?}", nth_string(&edits, paths[a]))); }
		if let Err(e) = compared(&held[a], &held[b], want) { l.fail(format!("{} and {}", show(&states[a]), show(&states[b])), e) }
	});
}
