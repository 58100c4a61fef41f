//! Edit operations, applied to the model and, through the public API, to the real element.
use crate::model::*;
use kiss_xml::dom::*;

/// path of child-element positions from the root
pub type At = Vec<usize>;
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
	Append(At, M),
	AppendBoxed(At, M),
	AppendAll(At, Vec<M>),
	Insert(At, usize, M),
	Remove(At, usize),
	RemoveElement(At, usize),
	Clear(At),
	SetText(At, String),
	SetAttr(At, String, String),
	RemoveAttr(At, String),
	ClearAttrs(At),
	RemoveByName(At, String),
	/// elements of that name at every depth
	RemoveAllNamed(At, String),
	/// comments at every depth
	RemoveAllComments(At),
	/// replace the content of the n-th child, if it is text, comment or CDATA
	EditLeaf(At, usize, String),
	/// take the n-th child out (remove) and append it to the element at the second path (looked up afterwards)
	MoveLast(At, usize, At),
	/// take the n-th child element out (remove_element) and insert it at the front of the second
	MoveFirst(At, usize, At),
	/// append a clone of the n-th child to the second
	CopyLast(At, usize, At),
	/// insert a clone of the n-th child element at the front of the second
	CopyFirst(At, usize, At),
	/// replace content through children_mut: swap the first and the last child
	SwapKids(At),
	/// read everything there is to read, at every node, in every way, and write it
	Look,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ret { Unit, Node(M), Oob(isize), Opt(Option<String>), Count(usize), Refused }

pub fn m_at<'a>(e: &'a mut El, at: &[usize]) -> Option<&'a mut El> {
	let mut e = e;
	for &i in at { e = e.kids.iter_mut().filter_map(|k| if let M::E(e) = k { Some(e) } else { None }).nth(i)?; }
	Some(e)
}
pub fn r_at<'a>(e: &'a mut Element, at: &[usize]) -> Option<&'a mut Element> {
	let mut e = e;
	for &i in at { e = e.child_elements_mut().nth(i)?; }
	Some(e)
}
fn el_pos(e: &El, n: usize) -> Option<usize> { e.kids.iter().enumerate().filter(|k| matches!(k.1, M::E(_))).map(|k| k.0).nth(n) }
fn gone(mut m: M) -> Ret { strip_ns(&mut m); Ret::Node(m) }

/// None: the operation does not apply here (no such target)
pub fn model(root: &mut El, op: &Op) -> Option<Ret> {
	let r = match op {
		Op::Look => return Some(Ret::Unit),
		Op::Append(at, m) | Op::AppendBoxed(at, m) => { let e = m_at(root, at)?; e.kids.push(m.clone()); norm_kids(&mut e.kids); Ret::Unit }
		Op::AppendAll(at, ms) => { let e = m_at(root, at)?; e.kids.extend(ms.iter().cloned()); norm_kids(&mut e.kids); Ret::Unit }
		Op::Insert(at, i, m) => { let e = m_at(root, at)?; if *i > e.kids.len() { return Some(Ret::Oob(*i as isize)) } e.kids.insert(*i, m.clone()); norm_kids(&mut e.kids); Ret::Unit }
		Op::Remove(at, i) => { let e = m_at(root, at)?; if *i >= e.kids.len() { return Some(Ret::Oob(*i as isize)) } gone(e.kids.remove(*i)) }
		Op::RemoveElement(at, i) => { let e = m_at(root, at)?; match el_pos(e, *i) { None => return Some(Ret::Oob(*i as isize)), Some(p) => gone(e.kids.remove(p)) } }
		Op::Clear(at) => { m_at(root, at)?.kids.clear(); Ret::Unit }
		Op::SetText(at, s) => { let e = m_at(root, at)?; e.kids = vec![M::T(s.clone())]; norm_kids(&mut e.kids); Ret::Unit }
		Op::SetAttr(at, k, v) => { m_at(root, at)?.attrs.insert(k.clone(), v.clone()); Ret::Unit }
		Op::RemoveAttr(at, k) => Ret::Opt(m_at(root, at)?.attrs.remove(k)),
		Op::ClearAttrs(at) => { m_at(root, at)?.attrs.clear(); Ret::Unit }
		Op::RemoveByName(at, n) => { let e = m_at(root, at)?; let a = e.kids.len(); e.kids.retain(|k| !matches!(k, M::E(c) if c.name == *n)); Ret::Count(a - e.kids.len()) }
		Op::RemoveAllNamed(at, n) => Ret::Count(crate::checks_tree::remove_if(m_at(root, at)?, true, &|k| matches!(k, M::E(c) if c.name == *n))),
		Op::RemoveAllComments(at) => Ret::Count(crate::checks_tree::remove_if(m_at(root, at)?, true, &|k| matches!(k, M::C(_)))),
		Op::EditLeaf(at, i, s) => match m_at(root, at)?.kids.get_mut(*i)? { M::E(_) => return None, M::T(x) => { *x = s.clone(); Ret::Unit } M::C(x) => if s.contains("-->") { Ret::Refused } else { *x = s.clone(); Ret::Unit }, M::D(x) => if s.contains("]]>") { Ret::Refused } else { *x = s.clone(); Ret::Unit } },
		Op::MoveLast(a, i, b) => {
			let mut trial = root.clone();
			let e = m_at(&mut trial, a)?; if *i >= e.kids.len() { return None }
			let m = e.kids.remove(*i); let r = gone(m.clone());
			let t = m_at(&mut trial, b)?; t.kids.push(m); norm_kids(&mut t.kids);
			*root = trial; r
		}
		Op::MoveFirst(a, i, b) => {
			let mut trial = root.clone();
			let e = m_at(&mut trial, a)?; let p = el_pos(e, *i)?;
			let m = e.kids.remove(p); let r = gone(m.clone());
			let t = m_at(&mut trial, b)?; t.kids.insert(0, m); norm_kids(&mut t.kids);
			*root = trial; r
		}
		Op::CopyLast(a, i, b) => { let m = m_at(root, a)?.kids.get(*i)?.clone(); let t = m_at(root, b)?; t.kids.push(m); norm_kids(&mut t.kids); Ret::Unit }
		Op::CopyFirst(a, i, b) => { let e = m_at(root, a)?; let p = el_pos(e, *i)?; let m = e.kids[p].clone(); let t = m_at(root, b)?; t.kids.insert(0, m); norm_kids(&mut t.kids); Ret::Unit }
		Op::SwapKids(at) => { let e = m_at(root, at)?; let n = e.kids.len(); if n < 2 { return None } e.kids.swap(0, n - 1); Ret::Unit }
	};
	annotate(root, &Scope::new());
	Some(r)
}

fn append(e: &mut Element, m: &M) {
	match m {
		M::E(x) => e.append(build(x)),
		M::T(s) => e.append(Text::new(s.as_str())),
		M::C(s) => e.append(Comment::new(s.as_str()).expect("comment refused")),
		M::D(s) => e.append(CData::new(s.as_str()).expect("cdata refused")),
	}
}
fn insert(e: &mut Element, i: usize, m: &M) -> Result<(), kiss_xml::errors::IndexOutOfBounds> {
	match m {
		M::E(x) => e.insert(i, build(x)),
		M::T(s) => e.insert(i, Text::new(s.as_str())),
		M::C(s) => e.insert(i, Comment::new(s.as_str()).expect("comment refused")),
		M::D(s) => e.insert(i, CData::new(s.as_str()).expect("cdata refused")),
	}
}
fn out(n: &Box<dyn Node>) -> Ret { gone(observe_node(n)) }

/// must only be called if the model says the operation applies
pub fn real(root: &mut Element, op: &Op) -> Ret {
	const GONE: &str = "an element the model has is missing";
	match op {
		Op::Look => { look(root); Ret::Unit }
		Op::Append(at, m) => { append(r_at(root, at).expect(GONE), m); Ret::Unit }
		Op::AppendBoxed(at, m) => { r_at(root, at).expect(GONE).append_boxed(build_node(m)); Ret::Unit }
		Op::AppendAll(at, ms) => { r_at(root, at).expect(GONE).append_all(ms.iter().map(build_node).collect()); Ret::Unit }
		Op::Insert(at, i, m) => match insert(r_at(root, at).expect(GONE), *i, m) { Ok(()) => Ret::Unit, Err(e) => Ret::Oob(e.index) },
		Op::Remove(at, i) => match r_at(root, at).expect(GONE).remove(*i) { Ok(n) => out(&n), Err(e) => Ret::Oob(e.index) },
		Op::RemoveElement(at, i) => match r_at(root, at).expect(GONE).remove_element(*i) { Ok(n) => out(&n.boxed()), Err(e) => Ret::Oob(e.index) },
		Op::Clear(at) => { r_at(root, at).expect(GONE).clear_children(); Ret::Unit }
		Op::SetText(at, s) => { r_at(root, at).expect(GONE).set_text(s.as_str()); Ret::Unit }
		Op::SetAttr(at, k, v) => match r_at(root, at).expect(GONE).set_attr(k.as_str(), v.as_str()) { Ok(()) => Ret::Unit, Err(_) => Ret::Refused },
		Op::RemoveAttr(at, k) => Ret::Opt(r_at(root, at).expect(GONE).remove_attr(k.as_str())),
		Op::ClearAttrs(at) => { r_at(root, at).expect(GONE).clear_attributes(); Ret::Unit }
		Op::RemoveByName(at, n) => Ret::Count(r_at(root, at).expect(GONE).remove_elements_by_name(n.as_str())),
		Op::RemoveAllNamed(at, n) => Ret::Count(r_at(root, at).expect(GONE).remove_all_elements(|e| e.name() == *n)),
		Op::RemoveAllComments(at) => Ret::Count(r_at(root, at).expect(GONE).remove_all(&|x: &Box<dyn Node>| x.is_comment())),
		Op::EditLeaf(at, i, s) => {
			let n = r_at(root, at).expect(GONE).children_mut().nth(*i).expect(GONE);
			match n.node_type() {
				DomNodeType::TextNode => { n.as_text_mut().expect("cast").content = s.clone(); Ret::Unit }
				DomNodeType::CommentNode => if n.as_comment_mut().expect("cast").set_content(s.as_str()).is_ok() { Ret::Unit } else { Ret::Refused },
				DomNodeType::CDataNode => if n.as_cdata_mut().expect("cast").set_text(s.as_str()).is_ok() { Ret::Unit } else { Ret::Refused },
				DomNodeType::ElementNode => panic!("expected a leaf"),
			}
		}
		Op::MoveLast(a, i, b) => { let n = r_at(root, a).expect(GONE).remove(*i).expect("remove refused"); let r = out(&n); r_at(root, b).expect(GONE).append_boxed(n); r }
		Op::MoveFirst(a, i, b) => { let n = r_at(root, a).expect(GONE).remove_element(*i).expect("remove_element refused"); let r = gone(M::E(observe(&n))); r_at(root, b).expect(GONE).insert(0, n).expect("insert refused"); r }
		Op::CopyLast(a, i, b) => { let n = clone_node(r_at(root, a).expect(GONE).children().nth(*i).expect(GONE)); r_at(root, b).expect(GONE).append_all(vec![n]); Ret::Unit }
		Op::CopyFirst(a, i, b) => { let n = r_at(root, a).expect(GONE).child_elements().nth(*i).expect(GONE).clone(); r_at(root, b).expect(GONE).insert(0, n).expect("insert refused"); Ret::Unit }
		Op::SwapKids(at) => {
			let e = r_at(root, at).expect(GONE);
			let mut v: Vec<&mut Box<dyn Node>> = e.children_mut().collect();
			let n = v.len(); let (a, b) = v.split_at_mut(n - 1);
			std::mem::swap(&mut *a[0], &mut *b[0]); Ret::Unit
		}
	}
}

fn look(e: &mut Element) {
	let _ = (e.to_string(), e.to_string_with_indent("\t"), e.text(), e.namespace(), e.default_namespace(), e.namespace_prefixes().map(|p| p.len()), e.get_attr("xmlns").cloned(), e.attributes().len());
	let _ = (e.children_recursive().count(), e.search_elements_by_name("a").count(), e.first_element_by_name("a").map(|x| x.name()), e.elements_by_namespace(Some("u")).count(), e.elements_by_namespace_prefix(Some("p")).count(), e.search_text(|_| true).count());
	let copy = e.clone();
	let _ = (copy == *e, crate::checks_tree::hash_of(&copy));
	drop(copy);
	for n in e.children_mut() { if let Ok(c) = n.as_element_mut() { look(c) } else { let _ = n.to_string(); } }
	for c in e.child_elements_mut() { let _ = c.name(); }
}
