//! Long histories of few operations, without merging of equal states, for the properties of trees that are edited:
//! what a tree remembers of six or more earlier operations must not show.
use crate::checks_api::*;
use crate::checks_more::standard;
use crate::checks_parse::*;
use crate::checks_tree::*;
use crate::engine::*;
use crate::model::*;
use crate::ops::*;
use kiss_xml::dom::*;

fn e(name: &str) -> M { M::E(el(name, vec![])) }
fn ek(name: &str, kids: Vec<M>) -> M { M::E(el(name, kids)) }
fn ea(name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { M::E(ela(name, attrs, kids)) }
fn pe(prefix: &str, name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { let mut x = ela(name, attrs, kids); x.prefix = prefix.into(); M::E(x) }
fn c(s: &str) -> M { M::C(s.into()) }
fn d(s: &str) -> M { M::D(s.into()) }
fn r() -> At { vec![] }
fn app(at: &[usize], m: M) -> Op { Op::Append(at.to_vec(), m) }
fn ins(at: &[usize], i: usize, m: M) -> Op { Op::Insert(at.to_vec(), i, m) }
fn attr(at: &[usize], k: &str, v: &str) -> Op { Op::SetAttr(at.to_vec(), k.into(), v.into()) }
fn unset(at: &[usize], k: &str) -> Op { Op::RemoveAttr(at.to_vec(), k.into()) }
fn edit(at: &[usize], i: usize, s: &str) -> Op { Op::EditLeaf(at.to_vec(), i, s.into()) }
fn text(at: &[usize], s: &str) -> Op { Op::SetText(at.to_vec(), s.into()) }
fn all(at: &[usize], v: Vec<M>) -> Op { Op::AppendAll(at.to_vec(), v) }

type Start = Box<dyn Fn() -> Pair + Sync>;
/// the sets of operations: name, properties, start, operations
fn sets() -> Vec<(&'static str, &'static [&'static str], Start, Vec<Op>)> {
	let small = || -> Start { Box::new(|| from_text("<r xmlns=\"u\" xmlns:p=\"v\"><s/></r>")) };
	let plain = || -> Start { Box::new(|| from_text("<r><a>x<b/></a><!--c-->t</r>")) };
	vec![
		// namespaces: declared and withdrawn above what is attached before and after
		("scopes", &["C09", "C05", "C13", "C28", "C30"], small(), vec![app(&[0], e("a")), app(&[0], pe("p", "b", &[], vec![])), attr(&[], "xmlns", "w"), unset(&[], "xmlns"), attr(&[0], "xmlns", ""), unset(&[0], "xmlns"), Op::MoveLast(r(), 0, r()), Op::Look]),
		("prefixes", &["C09", "C05", "C13", "C23", "C28"], small(), vec![attr(&[], "xmlns:p", "v"), attr(&[], "xmlns:p", "z"), unset(&[], "xmlns:p"), Op::ClearAttrs(vec![0]), app(&[], pe("p", "x", &[("xmlns:p", "i")], vec![pe("p", "y", &[], vec![])])), Op::MoveLast(r(), 1, vec![0]), Op::MoveFirst(vec![0], 0, r()), Op::CopyFirst(r(), 0, vec![0])]),
		("subtrees", &["C09", "C10", "C24"], small(), vec![all(&[], vec![c("c"), ek("e", vec![pe("p", "f", &[], vec![])])]), ins(&[0], 0, pe("p", "g", &[], vec![])), Op::MoveFirst(r(), 0, vec![0]), Op::RemoveElement(vec![0], 0), attr(&[0, 0], "xmlns", "x"), attr(&[0], "xmlns", "y"), Op::ClearAttrs(r()), Op::Look]),
		("twice", &["C09", "C27"], small(), vec![attr(&[], "xmlns", "a"), attr(&[], "xmlns", "b"), attr(&[0], "xmlns", "a"), unset(&[0], "xmlns"), app(&[0], ea("k", &[("xmlns", "c")], vec![e("l")])), unset(&[0, 0], "xmlns"), Op::CopyLast(vec![0], 0, r()), Op::Remove(r(), 0)]),
		// child lists
		("list", &["C10", "C05", "C13", "C23", "C24"], plain(), vec![app(&[], e("e")), app(&[], t("t")), ins(&[], 0, t("u")), ins(&[], 1, ek("f", vec![c("g")])), Op::Remove(r(), 0), Op::Remove(r(), 1), Op::RemoveElement(r(), 1), Op::Look]),
		("list2", &["C10", "C14", "C19"], plain(), vec![all(&[], vec![e("e"), t("t")]), Op::Clear(r()), text(&[], "T"), ins(&[], 2, d("d")), Op::Remove(r(), 2), Op::RemoveElement(r(), 0), Op::SwapKids(r()), app(&[0], t("z"))]),
		("nested", &["C10", "C05", "C11", "C14", "C24", "C30"], plain(), vec![app(&[0], t("n")), ins(&[0], 0, c("c")), Op::MoveLast(r(), 0, vec![0]), Op::RemoveElement(vec![0], 0), Op::Clear(vec![0]), all(&[], vec![e("x"), ek("y", vec![e("w")])]), Op::SwapKids(r()), Op::CopyLast(r(), 0, vec![0])]),
		("pop-push", &["C10"], plain(), vec![app(&[], t("a")), app(&[], c("b")), app(&[], e("c")), Op::Remove(r(), 0), ins(&[], 0, e("d")), ins(&[], 1, t(" "))]),
		// texts
		("texts", &["C12", "C05", "C19", "C14", "C28"], plain(), vec![app(&[], t("a")), app(&[], t(" ")), ins(&[], 0, t("")), ins(&[], 1, e("x")), Op::Remove(r(), 1), text(&[], "s"), edit(&[], 0, ""), edit(&[], 1, "\n")]),
		("texts2", &["C12", "C18", "C30"], plain(), vec![all(&[], vec![t(" "), t("b"), c("k")]), app(&[], t("")), Op::Remove(r(), 0), Op::Remove(r(), 1), edit(&[], 0, " "), edit(&[], 1, ""), ins(&[], 0, t("\t")), Op::AppendBoxed(r(), e("q"))]),
		("marked", &["C05", "C28", "C17", "C19"], plain(), vec![app(&[], c("-")), app(&[], d("]")), edit(&[], 0, "]]"), edit(&[], 1, "-->"), edit(&[], 1, "x"), edit(&[], 0, "]]>"), ins(&[], 0, t(">")), Op::Remove(r(), 0)]),
		// attributes
		("attributes", &["C15", "C05", "C23", "C30"], plain(), vec![attr(&[], "a", "1"), attr(&[], "a", "2"), attr(&[], "b", "<"), attr(&[], "xmlns:p", "u"), unset(&[], "a"), unset(&[], "b"), Op::ClearAttrs(r()), Op::Look]),
		("attributes2", &["C15", "C28"], plain(), vec![attr(&[0], "k", ""), attr(&[0], "k", "&"), unset(&[0], "k"), attr(&[0], "l", "m"), Op::CopyFirst(r(), 0, r()), Op::RemoveElement(r(), 1), attr(&[], "k", "r"), Op::MoveFirst(r(), 1, r())]),
		// bulk removals between edits
		("bulk", &["C11", "C10", "C14", "C13"], Box::new(|| from_text("<r><a><a/>x</a><b><a/><!--y--></b></r>")), vec![app(&[], ek("a", vec![c("k")])), ins(&[0], 0, e("a")), app(&[0], e("b")), Op::RemoveByName(r(), "a".into()), Op::RemoveByName(vec![0], "a".into()), Op::RemoveAllNamed(r(), "b".into()), Op::MoveLast(r(), 0, vec![0]), Op::Look]),
		("bulk2", &["C11", "C12", "C24"], Box::new(|| from_text("<r>t<a>u<!--c-->v<a/></a><!--d-->w</r>")), vec![app(&[], t("n")), ins(&[0], 1, c("k")), Op::RemoveAllComments(r()), Op::RemoveAllNamed(vec![0], "a".into()), app(&[0], ek("a", vec![t("q")])), Op::RemoveByName(r(), "a".into()), Op::CopyFirst(r(), 0, r()), Op::Remove(r(), 0)]),
	]
}
pub fn deep(run: &Run) {
	let prop = run.prop;
	for (name, props, start, ops) in sets() {
		if !(props.contains(&prop) || (prop == "C29" && matches!(name, "nested" | "attributes" | "texts2"))) { continue }
		let depth = match prop { "C29" | "C30" | "C24" => run.t(5, 6), "C10" | "C11" | "C12" | "C05" | "C09" | "C28" | "C13" | "C14" | "C23" => run.t(6, 7), _ => run.t(7, 8) } + if ops.len() < 7 { 1 } else { 0 };
		bfs(run, &format!("long/{name}"), &format!("all histories of at most {depth} of {} operations (equal states not merged)", ops.len()), ops.len(), depth, false, |path, l| {
			if !l.quiet_note() { note(&describe(&ops, path)); }
			let (mut doc, m, ret) = history_ret(start.as_ref(), &ops, path, l)?;
			l.sample(|| describe(&ops, path));
			let case = || describe(&ops, path);
			let bad = |why: String, l: &mut Local| l.fail(describe(&ops, path), why);
			let out: Result<(), String> = match prop {
				"C05" | "C17" => if bound_all(&m.root) { saved(&doc, &m, &["  ", ["\t", "", " "][path.len() % 3]]) } else { Ok(()) },
				"C09" => ns_view(doc.root_element(), &m.root, "").and_then(|_| if bound_all(&m.root) { saved(&doc, &m, &["\t"]) } else { Ok(()) }),
				"C10" => { let x = doc.root_element(); if x.children().count() != m.root.kids.len() || x.child_elements().count() != m.root.els().count() { Err("listings disagree".into()) } else { Ok(()) } }
				"C11" => { let x = doc.root_element(); let mut y = x.clone(); let mut w = m.root.clone(); let k = y.remove_all(&|n: &Box<dyn Node>| n.is_text()); let n = remove_if(&mut w, true, &|k| matches!(k, M::T(_))); if k != n || observe(&y) != w { Err(format!("removing all text removes {k}, leaving {}; expected {n}, leaving {}", show(&observe(&y)), show(&w))) } else { Ok(()) } }
				"C12" => match path.last().map(|o| &ops[*o as usize]) { Some(Op::Append(at, _) | Op::AppendBoxed(at, _) | Op::AppendAll(at, _) | Op::Insert(at, _, _) | Op::SetText(at, _)) if ret == Some(Ret::Unit) => match text_rule(r_at(doc.root_element_mut(), at).expect("an element the model has is missing")) { Some(w) => Err(w), None => Ok(()) }, _ => Ok(()) },
				"C13" => { let case = case(); queries(doc.root_element_mut(), &m.root, &["a", "b", "zz"], &[None, Some("u"), Some("v"), Some("w")], &[None, Some("p")], &case, l); Ok(()) }
				"C14" => { let case = case(); searches(doc.root_element(), &m.root, &case, l); Ok(()) }
				"C15" | "C18" => { let (g, w) = (doc.to_string(), print_doc(&m, "  ")); if g != w { Err(format!("written as {g:?}, expected {w:?}")) } else { Ok(()) } }
				"C19" => { let case = case(); layout(&doc, &m, &["  ", "\t"], &["x"], &case, l); Ok(()) }
				"C23" | "C27" => {
					// a clone is equal and stays as it is, whatever happens to the original, and the other way round
					let dup = |d: &Document| Document::new_with_decl_dtd(d.root_element().clone(), d.declaration().clone(), Some(&d.doctype_defs().cloned().collect::<Vec<_>>()));
					let (a, b) = (dup(&doc), doc.root_element().clone());
					let text = doc.to_string();
					if a != doc || b != *doc.root_element() || a.to_string() != text || hash_of(&b) != hash_of(doc.root_element()) { return { bad("a clone is not equal to its original".into(), l); None } }
					let fresh = build_raw_any(&m.root);
					if observe(&fresh) == m.root && (fresh != b || hash_of(&fresh) != hash_of(&b)) { return { bad("not equal to the same tree made afresh".into(), l); None } }
					for op in &ops { let mut w = m.clone(); let mut x = dup(&a); if model(&mut w.root, op).is_none() { continue } real(x.root_element_mut(), op); if (x == doc) != (w == m) { return { bad(format!("after {op:?} on a clone, == says {}", x == doc), l); None } } }
					if observe_doc(&a) != m || doc.to_string() != text || observe_doc(&doc) != m { Err("changed by edits of clones".into()) } else { Ok(()) }
				}
				"C24" => { let b = doc.root_element().clone().boxed(); let mm = M::E(m.root.clone()); kinds_deep(&b, &mm).and_then(|_| { let mut b = b; kinds_deep_mut(&mut b, &mm) }) }
				"C28" => { standard(&doc, &[["  ", "\t", ""][path.len() % 3]], &case, l); Ok(()) }
				"C29" => refuse_doc(&mut doc, path.len()).and_then(|n| { l.step(n); let g = observe_doc(&doc); if g != m { Err(diff(&m, &g)) } else { Ok(()) } }),
				"C30" => prints(doc.root_element()).and_then(|_| lists(doc.root_element_mut(), &["a", "x"])).and_then(|_| if path.len() < depth { removals(doc.root_element(), &observe(doc.root_element()), &["a", "x"]) } else { Ok(()) }),
				_ => unreachable!(),
			};
			if let Err(w) = out { bad(w, l); return None }
			Some(h128(&m))
		});
	}
}
