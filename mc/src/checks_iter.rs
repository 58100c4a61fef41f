//! C33: the iterators the library returns, consumed in every way.
use crate::checks_parse::show;
use crate::engine::*;
use crate::model::*;
use kiss_xml::dom::*;
use std::cell::RefCell;

fn e(name: &str) -> M { M::E(el(name, vec![])) }
fn pe(p: &str, name: &str, kids: Vec<M>) -> M { let mut x = el(name, kids); x.prefix = p.into(); M::E(x) }
fn na(n: &Box<dyn Node>) -> usize { &**n as *const dyn Node as *const u8 as usize }
fn nam(n: &mut Box<dyn Node>) -> usize { na(n) }
fn ea(x: &Element) -> usize { x as *const Element as usize }
fn eam(x: &mut Element) -> usize { ea(x) }
fn ta(x: &Text) -> usize { x as *const Text as usize }
fn ca(x: &Comment) -> usize { x as *const Comment as usize }
fn da(x: &DTD) -> usize { x as *const DTD as usize }
fn dam(x: &mut DTD) -> usize { da(x) }

// ------------------------------------------------------------------ how an iterator is consumed
#[derive(Clone, Copy, Debug)]
enum Step { Next, Nth(usize), Take(usize), Skip(usize), AnyStops(usize), FindNone(usize) }
#[derive(Clone, Copy, Debug)]
enum End { Drop, Plain, Collect, Count, Last, Fold, ForEach, StepBy(usize), Skip(usize), Peek, Fuse, Chain, Partition }
const STEPS: [Step; 9] = [Step::Next, Step::Nth(0), Step::Nth(1), Step::Nth(2), Step::Take(1), Step::Take(3), Step::Skip(1), Step::AnyStops(1), Step::FindNone(2)];
const ENDS: [End; 14] = [End::Drop, End::Plain, End::Collect, End::Count, End::Last, End::Fold, End::ForEach, End::StepBy(1), End::StepBy(2), End::Skip(1), End::Peek, End::Fuse, End::Chain, End::Partition];
fn hint<I: Iterator>(it: &I, left: usize) -> Result<(), String> {
	let (lo, hi) = it.size_hint();
	if lo > left || hi.is_some_and(|h| h < left) { return Err(format!("size hint ({lo}, {hi:?}) with {left} left")) }
	Ok(())
}
fn same(what: &str, got: &[usize], want: &[usize], all: &[usize]) -> Result<(), String> {
	if got == want { return Ok(()) }
	let name = |v: &[usize]| v.iter().map(|x| all.iter().position(|y| y == x).map(|p| p.to_string()).unwrap_or("?".into())).collect::<Vec<_>>().join(" ");
	Err(format!("{what} delivers the items [{}], expected [{}] of the {} that plain iteration delivers", name(got), name(want), all.len()))
}
/// consume `it` that way; `want` is what plain iteration gives
fn consume<I: Iterator>(mut it: I, key: fn(I::Item) -> usize, steps: &[Step], end: End, want: &[usize]) -> Result<(), String> {
	let n = want.len(); let mut p = 0;
	hint(&it, n)?;
	for s in steps {
		match *s {
			Step::Next => { let g: Vec<usize> = it.next().map(key).into_iter().collect(); let w = want.get(p).copied().into_iter().collect::<Vec<_>>(); same("next", &g, &w, want)?; p = (p + 1).min(n) }
			Step::Nth(k) => { let g: Vec<usize> = it.nth(k).map(key).into_iter().collect(); let w = want.get(p + k).copied().into_iter().collect::<Vec<_>>(); same(&format!("nth({k})"), &g, &w, want)?; p = (p + k + 1).min(n) }
			Step::Take(k) => { let q = (p + k).min(n); let g: Vec<usize> = it.by_ref().take(k).map(key).collect(); same(&format!("take({k})"), &g, &want[p..q], want)?; p = q }
			Step::Skip(k) => { let g: Vec<usize> = it.by_ref().skip(k).next().map(key).into_iter().collect(); let w = want.get(p + k).copied().into_iter().collect::<Vec<_>>(); same(&format!("skip({k})"), &g, &w, want)?; p = (p + k + 1).min(n) }
			Step::AnyStops(k) => { let mut seen = vec![]; let r = it.any(|x| { seen.push(key(x)); seen.len() > k }); let q = (p + k + 1).min(n); same("any", &seen, &want[p..q], want)?; if r != (p + k < n) { return Err(format!("any says {r}")) } p = q }
			Step::FindNone(k) => { let mut seen = 0; let r = it.by_ref().map(key).position(|_| { seen += 1; seen > k }); if r != if p + k < n { Some(k) } else { None } { return Err(format!("position says {r:?}")) } p = (p + k + 1).min(n) }
		}
		hint(&it, n - p)?;
	}
	let rest = &want[p..];
	match end {
		End::Drop => Ok(()),
		End::Plain => { let mut g = vec![]; while let Some(x) = it.next() { g.push(key(x)); hint(&it, rest.len().saturating_sub(g.len()))?; if g.len() > n { break } } same("next", &g, rest, want)?; for _ in 0..3 { if it.next().is_some() { return Err("an item after the end".into()) } hint(&it, 0)? } if it.nth(2).is_some() { return Err("an item after the end".into()) } Ok(()) }
		End::Collect => { let g: Vec<usize> = it.collect::<Vec<_>>().into_iter().map(key).collect(); same("collect", &g, rest, want) }
		End::Count => { let c = it.count(); if c == rest.len() { Ok(()) } else { Err(format!("count says {c}, {} are left", rest.len())) } }
		End::Last => { let g: Vec<usize> = it.last().map(key).into_iter().collect(); same("last", &g, &rest[rest.len().saturating_sub(1)..], want) }
		End::Fold => { let g = it.fold(vec![], |mut v, x| { v.push(key(x)); v }); same("fold", &g, rest, want) }
		End::ForEach => { let mut g = vec![]; it.for_each(|x| g.push(key(x))); same("for_each", &g, rest, want) }
		End::StepBy(k) => { let g: Vec<usize> = it.step_by(k).map(key).collect(); same(&format!("step_by({k})"), &g, &rest.iter().step_by(k).copied().collect::<Vec<_>>(), want) }
		End::Skip(k) => { let g: Vec<usize> = it.skip(k).map(key).collect(); same(&format!("skip({k})"), &g, &rest[k.min(rest.len())..], want) }
		End::Peek => { let mut q = it.peekable(); if q.peek().is_some() != !rest.is_empty() { return Err("peek".into()) } hint(&q, rest.len())?; let g: Vec<usize> = q.map(key).collect(); same("peekable", &g, rest, want) }
		End::Fuse => { let mut q = it.fuse(); let g: Vec<usize> = q.by_ref().map(key).collect(); same("fuse", &g, rest, want)?; if q.next().is_some() { return Err("an item after the end".into()) } Ok(()) }
		End::Chain => { let g: Vec<usize> = it.map(key).chain(rest.iter().copied()).collect(); same("chain", &g, &[rest, rest].concat(), want) }
		End::Partition => { let (a, b): (Vec<usize>, Vec<usize>) = it.map(key).partition(|x| x % 32 == 0); let (c, d): (Vec<usize>, Vec<usize>) = rest.iter().partition(|x| **x % 32 == 0); same("partition", &a, &c, want)?; same("partition", &b, &d, want) }
	}
}
/// calls $do!(name, iterator, key) for every iterator of a document that lends nodes
macro_rules! lending { ($x:ident, $d:ident, $do:ident) => {
	$do!("children", $x.children(), na); $do!("all_children", $x.all_children(), na); $do!("children_recursive", $x.children_recursive(), na); $do!("child_elements", $x.child_elements(), ea);
	$do!("elements_by_name(a)", $x.elements_by_name("a"), ea); $do!("elements_by_namespace(u)", $x.elements_by_namespace(Some("u")), ea); $do!("elements_by_namespace(None)", $x.elements_by_namespace(None), ea);
	$do!("elements_by_namespace_prefix(p)", $x.elements_by_namespace_prefix(Some("p")), ea); $do!("elements_by_namespace_prefix(None)", $x.elements_by_namespace_prefix(None), ea);
	$do!("search", $x.search(|n| !n.is_comment()), na); $do!("search_elements", $x.search_elements(|e| e.name() != "b"), ea); $do!("search_elements_by_name(a)", $x.search_elements_by_name("a"), ea);
	$do!("search_text", $x.search_text(|t| t.content != "t1"), ta); $do!("search_comments", $x.search_comments(|c| c.get_content() != "c1"), ca); $do!("doctype_defs", $d.doctype_defs(), da);
} }
macro_rules! changing { ($x:ident, $d:ident, $do:ident) => {
	$do!("children_mut", $x.children_mut(), nam); $do!("child_elements_mut", $x.child_elements_mut(), eam); $do!("elements_by_name_mut(a)", $x.elements_by_name_mut("a"), eam);
	$do!("elements_by_namespace_mut(u)", $x.elements_by_namespace_mut(Some("u")), eam); $do!("elements_by_namespace_mut(None)", $x.elements_by_namespace_mut(None), eam);
	$do!("elements_by_namespace_prefix_mut(p)", $x.elements_by_namespace_prefix_mut(Some("p")), eam); $do!("elements_by_namespace_prefix_mut(None)", $x.elements_by_namespace_prefix_mut(None), eam);
	$do!("doctype_defs_mut", $d.doctype_defs_mut(), dam);
} }
fn ways(k: usize) -> Vec<(Vec<Step>, End)> {
	let mut v = vec![];
	for i in 0..strings_upto(STEPS.len(), k) { let s: Vec<Step> = nth_string(&STEPS, i).into_iter().copied().collect(); for f in ENDS { v.push((s.clone(), f)) } }
	v
}
fn document(root: &El, dtds: usize) -> Document {
	let d: Vec<DTD> = (0..dtds).map(|i| DTD::from_string(format!("<!DOCTYPE r{i}>")).unwrap()).collect();
	let mut doc = Document::new(build(root)); doc.set_doctype_defs(Some(&d)); doc
}
fn every_way(doc: &mut Document, m: &El, ways: &[(Vec<Step>, End)], l: &mut Local) -> Result<(), String> {
	let kids = doc.root_element().children().count(); if kids != m.kids.len() { return Err(format!("{kids} children, expected {}", m.kids.len())) }
	let before = observe_doc(doc);
	{
		let x = doc.root_element(); let d = &*doc;
		let mut below = vec![]; m.below(&mut below);
		if x.children_recursive().count() != below.len() { return Err(format!("{} nodes below, expected {}", x.children_recursive().count(), below.len())) }
		macro_rules! go { ($n:expr, $it:expr, $k:expr) => {{
			let mut want = vec![]; { let mut it = $it; while let Some(i) = it.next() { want.push($k(i)) } }
			for (s, f) in ways { l.step(s.len() as u64 + 1); l.trace(); consume($it, $k, s, *f, &want).map_err(|m| format!("{} consumed by {s:?} and {f:?}: {m}", $n))?; }
		}} }
		lending!(x, d, go);
	}
	macro_rules! go { ($n:expr, $it:expr, $k:expr) => {{
		let mut want = vec![]; { let mut it = $it; while let Some(i) = it.next() { want.push($k(i)) } }
		for (s, f) in ways { l.step(s.len() as u64 + 1); l.trace(); consume($it, $k, s, *f, &want).map_err(|m| format!("{} consumed by {s:?} and {f:?}: {m}", $n))?; }
	}} }
	{ let x = doc.root_element_mut(); struct No; impl No { fn doctype_defs_mut(&self) -> std::iter::Empty<&mut DTD> { std::iter::empty() } } let d = No; changing!(x, d, go); }
	go!("doctype_defs_mut", doc.doctype_defs_mut(), dam);
	if observe_doc(doc) != before { return Err("iterating changed the document".into()) }
	Ok(())
}
fn leaf(v: usize, id: usize) -> M { match v { 0 => e("a"), 1 => t(&format!("t{id}")), 2 => pe("p", "a", vec![]), 3 => M::C(format!("c{id}")), 4 => e("b"), _ => M::D(format!("d{id}")) } }
fn inner(v: usize, _: usize, k: Vec<M>) -> M { if v == 0 { M::E(el("a", k)) } else { pe("p", "b", k) } }
fn root(kids: Vec<M>) -> El { normalized(annotated(ela("r", &[("xmlns:p", "u")], kids))) }

/// every iterator that lends, behind one type
fn lent<'a>(x: &'a Element, d: &'a Document) -> Vec<(&'static str, Box<dyn Iterator<Item = usize> + 'a>)> {
	let mut v: Vec<(&'static str, Box<dyn Iterator<Item = usize> + 'a>)> = vec![];
	macro_rules! go { ($n:expr, $it:expr, $k:expr) => { v.push(($n, Box::new($it.map($k)))) } }
	lending!(x, d, go);
	v
}

pub fn c33(run: &Run) {
	let steps = run.t(2, 3); let all = ways(steps);
	let sp = ForestSpace::new(0, run.t(3, 4), 6, 2);
	par_enum(run, "consumed", &format!("all trees of at most {} nodes over 6 leaf and 2 inner kinds, with 0 to 2 DTDs x 23 iterators x all ways to consume one: at most {steps} of {} steps, then one of {} ends", run.t(3, 4), STEPS.len(), ENDS.len()), sp.total, |i, l| {
		let m = root(sp.get(i, &leaf, &inner)); let case = show(&m); note(&case); l.state(&m); l.sample(|| case.clone());
		let mut doc = document(&m, (i % 3) as usize);
		if let Err(w) = every_way(&mut doc, &m, &all, l) { l.fail(case, w) }
	});
	// longer ones
	let hi = run.t(60u64, 300); let few = ways(1);
	let far: Vec<(Vec<Step>, End)> = [3usize, 7, 8, 15, 16, 31, 32, 63, 64, 100, 255, 256, 1000].into_iter().flat_map(|k| [(vec![Step::Nth(k)], End::Collect), (vec![Step::Take(k)], End::Count), (vec![Step::Skip(k)], End::Last), (vec![Step::AnyStops(k)], End::Fold), (vec![Step::Next, Step::Nth(k), Step::Nth(k)], End::Plain), (vec![], End::StepBy(k)), (vec![], End::Skip(k)), (vec![Step::FindNone(k)], End::StepBy(k))]).collect();
	let wide = |kind: usize, n: usize| -> El {
		let one = |k: usize| leaf([0, 1, 2, 3, 4, 5][k * 7 % 6], k);
		root(match kind { 0 => (0..n).map(one).collect(), 1 => (0..n).map(|_| e("a")).collect(), 2 => { let mut v = vec![]; for k in (0..n).rev() { v = vec![M::E(el("a", v)), M::C(k.to_string())]; } v } 3 => (0..n).map(|k| M::E(el("a", vec![one(k), M::C(format!("x{k}"))]))).collect(), _ => (0..n).map(|k| if k + 1 == n { e("a") } else { M::C(k.to_string()) }).collect() })
	};
	par_enum(run, "longer", &format!("lists, chains and bushes of every size up to {hi} x all ways of one step and ways that go far"), (hi + 1) * 5, |i, l| {
		let (kind, n) = ((i % 5) as usize, (i / 5) as usize); let m = wide(kind, n); let case = format!("{n} nodes of kind {kind}"); note(&case); l.state(&i);
		let mut doc = document(&m, n % 40);
		if let Err(w) = every_way(&mut doc, &m, &few, l).and_then(|_| every_way(&mut doc, &m, &far, l)) { l.fail(case, w) }
	});
	let sizes: Vec<usize> = [255usize, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097].into_iter().chain(run.t(vec![], vec![16384, 65535, 65536, 65537])).collect();
	par_enum(run, "longest", "lists and bushes of up to thousands of nodes x ways that go far", sizes.len() as u64 * 4, |i, l| {
		let (kind, n) = ([0, 1, 3, 4][i as usize % 4], sizes[i as usize / 4]); let m = wide(kind, n); let case = format!("{n} nodes of kind {kind}"); note(&case); l.state(&i);
		let mut doc = document(&m, if n < 2000 { n } else { 3 });
		if let Err(w) = every_way(&mut doc, &m, &far, l) { l.fail(case, w) }
	});
	// what predicates are asked: each pattern of answers
	let sp = ForestSpace::new(0, run.t(5, 6), 4, 2);
	par_enum(run, "predicates", &format!("all trees of at most {} nodes x every pattern of answers of the predicate of each search, in full and abandoned at every point", run.t(5, 6)), sp.total, |i, l| {
		let m = root(sp.get(i, &leaf, &inner)); let case = show(&m); note(&case); l.state(&m);
		let x = build(&m);
		let nodes: Vec<usize> = x.children_recursive().map(na).collect();
		let elems: Vec<usize> = x.children_recursive().filter_map(|n| n.as_element().ok()).map(ea).collect();
		let texts: Vec<usize> = x.children_recursive().filter_map(|n| n.as_text().ok()).map(ta).collect();
		let comments: Vec<usize> = x.children_recursive().filter_map(|n| n.as_comment().ok()).map(ca).collect();
		let judge = |what: &str, cands: &[usize], pattern: u32, stop: usize, got: Vec<usize>, asked: Vec<usize>| -> Result<(), String> {
			let mut a = asked.clone(); a.sort(); let before = a.len(); a.dedup();
			if a.len() != before { return Err(format!("{what}: the predicate is asked twice about one node")) }
			if a.iter().any(|x| !cands.contains(x)) { return Err(format!("{what}: the predicate is asked about what is not a candidate")) }
			let yes: Vec<usize> = asked.iter().enumerate().filter(|(k, _)| pattern >> k & 1 == 1).map(|x| *x.1).collect();
			if stop == usize::MAX { if a.len() != cands.len() { return Err(format!("{what}: the predicate is asked about {} of {} candidates", a.len(), cands.len())) } if got != yes { return Err(format!("{what}: {} delivered, the predicate said yes {} times, or to others", got.len(), yes.len())) } }
			else if !yes.starts_with(&got) || got.len() > stop || (got.len() < stop && (yes.len() != got.len() || a.len() != cands.len())) { return Err(format!("{what}, abandoned after {stop}: {} delivered", got.len())) }
			Ok(())
		};
		macro_rules! go { ($n:expr, $c:expr, $k:expr, $call:ident) => {
			for pattern in 0..1u32 << $c.len() { for stop in (0..=$c.len()).chain([usize::MAX]) {
				let asked = RefCell::new(vec![]); l.step(1); l.trace();
				let got: Vec<usize> = x.$call(|n| { let mut a = asked.borrow_mut(); a.push($k(*n)); pattern >> (a.len() - 1) & 1 == 1 }).take(stop).map($k).collect();
				if let Err(w) = judge($n, &$c, pattern, stop, got, asked.into_inner()) { return l.fail(format!("{case}, answers {pattern:b}"), w) }
			} }
		} }
		go!("search", nodes, na, search); go!("search_elements", elems, ea, search_elements); go!("search_text", texts, ta, search_text); go!("search_comments", comments, ca, search_comments);
	});
	// two at once: every interleaving
	let sp = ForestSpace::new(0, run.t(3, 4), 6, 2);
	let n = run.t(3usize, 4);
	par_enum(run, "two-at-once", &format!("all trees of at most {} nodes x all pairs of the 15 lending iterators x all interleavings of {n} + {n} steps", run.t(3, 4)), sp.total, |i, l| {
		let m = root(sp.get(i, &leaf, &inner)); let case = show(&m); note(&case); l.state(&m);
		let doc = document(&m, 2); let x = doc.root_element();
		let alone: Vec<Vec<usize>> = lent(x, &doc).into_iter().map(|(_, i)| i.collect()).collect();
		for order in (0..1u32 << (2 * n)).filter(|o| o.count_ones() as usize == n) { for a in 0..alone.len() { for b in 0..alone.len() {
			let mut p = lent(x, &doc).swap_remove(a); let mut q = lent(x, &doc).swap_remove(b); let (mut g, mut h) = (vec![], vec![]); l.step(2 * n as u64); l.trace();
			for k in 0..2 * n { if order >> k & 1 == 1 { g.extend(p.1.next()) } else { h.extend(q.1.next()) } }
			if g != alone[a][..n.min(alone[a].len())] || h != alone[b][..n.min(alone[b].len())] { return l.fail(case, format!("{} and {} side by side, order {order:b}, deliver other items than alone", p.0, q.0)) }
		} } }
	});
	// all items of a mutable iterator held at once, each set of them changed
	let items = [e("a"), pe("p", "a", vec![e("a")]), e("b"), t("x"), M::C("c".into()), M::D("d".into()), M::E(el("a", vec![e("a"), t("y")]))];
	let k = run.t(4, 5);
	par_enum(run, "held", &format!("all child lists of at most {k} of {} nodes x 7 mutable iterators x every set of their items, all held at once, changed from the last to the first", items.len()), strings_upto(items.len(), k), |i, l| {
		let m = root(nth_string(&items, i).into_iter().cloned().collect()); let case = show(&m); note(&case); l.state(&m);
		let is = |w: usize, x: &M| match x { M::E(e) => match w { 2 => e.name == "a", 3 => e.ns.as_deref() == Some("u"), 4 => e.ns.is_none(), 5 => e.prefix == "p", 6 => e.prefix.is_empty(), _ => true }, _ => w == 0 };
		for w in 0..7 {
			let at: Vec<usize> = m.kids.iter().enumerate().filter(|x| is(w, x.1)).map(|x| x.0).collect();
			for set in 0..1u32 << at.len() {
				let mut x = build(&m); let mut want = m.clone(); l.step(1); l.trace();
				for (k, p) in at.iter().enumerate() { if set >> k & 1 == 1 { match &mut want.kids[*p] { M::E(e) => { e.attrs.insert("hit".into(), k.to_string()); } M::T(s) | M::C(s) | M::D(s) => *s = format!("hit{k}") } } }
				fn hit(e: &mut Element, k: usize) { e.set_attr("hit", k.to_string()).unwrap() }
				macro_rules! elems { ($it:expr) => {{ let mut v: Vec<&mut Element> = $it.collect(); for k in (0..v.len()).rev() { if set >> k & 1 == 1 { hit(v[k], k) } } v.len() }} }
				let n = match w {
					0 => { let mut v: Vec<&mut Box<dyn Node>> = x.children_mut().collect(); for k in (0..v.len()).rev() { if set >> k & 1 == 1 { let s = format!("hit{k}"); match v[k].node_type() { DomNodeType::ElementNode => hit(v[k].as_element_mut().unwrap(), k), DomNodeType::TextNode => v[k].as_text_mut().unwrap().content = s, DomNodeType::CommentNode => v[k].as_comment_mut().unwrap().set_content(s).unwrap(), DomNodeType::CDataNode => v[k].as_cdata_mut().unwrap().set_text(s).unwrap() } } } v.len() }
					1 => elems!(x.child_elements_mut()), 2 => elems!(x.elements_by_name_mut("a")), 3 => elems!(x.elements_by_namespace_mut(Some("u"))), 4 => elems!(x.elements_by_namespace_mut(None)), 5 => elems!(x.elements_by_namespace_prefix_mut(Some("p"))), _ => elems!(x.elements_by_namespace_prefix_mut(None)),
				};
				let got = observe(&x);
				if n != at.len() || got != want { return l.fail(format!("{case}, iterator {w}, items {set:b}"), format!("{n} items, expected {}; {}", at.len(), diff_el(&want, &got))) }
			}
		}
	});
}
fn diff_el(a: &El, b: &El) -> String { if a == b { "the changes are as expected".into() } else { format!("expected {}, got {}", show(a), show(b)) } }
