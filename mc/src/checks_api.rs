//! Properties of the interface as a whole: C29 (refused calls), C30 (ways of saying the same).
use crate::checks_big::{big, big_sized, differ};
use crate::checks_parse::{diff, show};
use crate::checks_tree::{describe, from_model, from_raw, from_text, hash_of, made, remove_if, ret_ok, Pair};
use crate::engine::*;
use crate::model::*;
use crate::ops::{model, real, Op, Ret};
use crate::texts::*;
use kiss_xml::dom::*;
use kiss_xml::errors::*;
use std::collections::HashMap;

fn e(name: &str) -> M { M::E(el(name, vec![])) }
fn ek(name: &str, kids: Vec<M>) -> M { M::E(el(name, kids)) }
fn ea(name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { M::E(ela(name, attrs, kids)) }
fn pe(prefix: &str, name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M { let mut x = ela(name, attrs, kids); x.prefix = prefix.into(); M::E(x) }
fn c(s: &str) -> M { M::C(s.into()) }
fn d(s: &str) -> M { M::D(s.into()) }

// ------------------------------------------------------------------ C29
/// how an error shows itself, directly and as the general error of the crate
fn told<E: Into<KissXmlError> + Clone + std::error::Error + 'static>(e: &E, is: fn(&KissXmlError) -> bool, holds: &[&str]) -> Result<(), String> {
	let s = e.to_string();
	let k: KissXmlError = e.clone().into();
	if !is(&k) { return Err(format!("{e:?} becomes {k:?}")) }
	if k.to_string() != s { return Err(format!("{s:?} is told as {:?} once it is a KissXmlError", k.to_string())) }
	for h in holds { if !s.contains(h) { return Err(format!("the message {s:?} does not tell {h:?}")) } }
	if format!("{e:?}").is_empty() || format!("{k:?}").is_empty() { return Err("an error without debug output".into()) }
	let b: Box<dyn std::error::Error> = Box::new(k);
	if b.to_string() != s { return Err("boxed, the message is another one".into()) }
	Ok(())
}
fn out_of_bounds(e: &IndexOutOfBounds, index: usize, n: usize) -> Result<(), String> {
	if index <= isize::MAX as usize && e.index != index as isize { return Err(format!("the error names index {}, not {index}", e.index)) }
	if e.bounds.is_some_and(|b| b != (0, n as isize)) { return Err(format!("the error names the bounds {:?}, there are {n}", e.bounds)) }
	if index > isize::MAX as usize { return Ok(()) }
	told(e, |k| matches!(k, KissXmlError::IndexOutOfBounds(_)), &[&index.to_string()])
}
struct Broken(usize);
impl std::io::Write for Broken {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 == 0 { return Err(std::io::Error::other("broken")) } let n = b.len().min(self.0); self.0 -= n; Ok(n) }
	fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
const BAD_NAMES: [&str; 25] = ["", "1a", "a b", "a=", "<", "a>", "\"", "a/", "-x", ".x", "a&b", "\n", "a\t", "'", ":", ":k", "k:", "xmlns:", "xmlns::p", "xmlns:p:q", "xmlns:p ", " xmlns", "xmlns=", "p:1", "xmlns:\u{301}"];
/// every refused call there is on this element; each must say why. Returns how many there were
pub fn refuse(x: &mut Element, at: usize) -> Result<u64, String> {
	let n = x.children().count(); let ne = x.child_elements().count(); let mut k = 0;
	for i in [n + 1, n + 2, n + 100, isize::MAX as usize, usize::MAX] {
		let r = match i.wrapping_add(at) % 4 { 0 => x.insert(i, Text::new("t")), 1 => x.insert(i, Element::new_with_text("p", "q").unwrap()), 2 => x.insert(i, Comment::new("c").unwrap()), _ => x.insert(i, CData::new("d").unwrap()) };
		match r { Ok(()) => return Err(format!("insert({i}) among {n} children succeeds")), Err(e) => out_of_bounds(&e, i, n).map_err(|m| format!("insert({i}): {m}"))? } k += 1;
	}
	for i in [n, n + 1, n + 100, isize::MAX as usize, usize::MAX] { match x.remove(i) { Ok(_) => return Err(format!("remove({i}) of {n} children succeeds")), Err(e) => out_of_bounds(&e, i, n).map_err(|m| format!("remove({i}): {m}"))? } k += 1; }
	for i in [ne, ne + 1, n.max(ne), isize::MAX as usize, usize::MAX] { match x.remove_element(i) { Ok(_) => return Err(format!("remove_element({i}) of {ne} elements succeeds")), Err(e) => out_of_bounds(&e, i, ne).map_err(|m| format!("remove_element({i}): {m}"))? } k += 1; }
	for b in BAD_NAMES {
		for v in ["", "v"] { match x.set_attr(b, v) { Ok(()) => return Err(format!("set_attr({b:?}) succeeds")), Err(e) => told(&e, |k| matches!(k, KissXmlError::InvalidAttributeName(_)), &[]).map_err(|m| format!("set_attr({b:?}): {m}"))? } k += 1; }
		if x.remove_attr(b).is_some() || x.get_attr(b).is_some() { return Err(format!("there is an attribute {b:?}")) }
	}
	let missing = "no-such-element";
	match x.first_element_by_name(missing) { Ok(_) => return Err("an element that is not there is found".into()), Err(e) => told(&e, |k| matches!(k, KissXmlError::DoesNotExistError(_)), &[])? }
	match x.first_element_by_name_mut(missing) { Ok(_) => return Err("an element that is not there is found".into()), Err(e) => told(&e, |k| matches!(k, KissXmlError::DoesNotExistError(_)), &[])? }
	if x.remove_elements_by_name(missing) + x.remove_elements(|_| false) + x.remove_all_elements(|_| false) + x.remove_by(&|_| false) + x.remove_all(&|_| false) != 0 { return Err("something was removed".into()) }
	k += 7;
	let cast = |r: Option<TypeCastError>, what: &str| -> Result<(), String> { match r { None => Err(format!("{what} succeeds on another kind")), Some(e) => told(&e, |k| matches!(k, KissXmlError::TypeCastError(_)), &[]) } };
	let content = |r: Result<(), InvalidContent>, what: &str| -> Result<(), String> { match r { Ok(()) => Err(format!("{what} takes the closing delimiter")), Err(e) => told(&e, |k| matches!(k, KissXmlError::InvalidContent(_)), &[]) } };
	for n in x.children_mut() {
		let kind = n.node_type();
		if kind != DomNodeType::ElementNode { cast(n.as_element().err(), "as_element")?; cast(n.as_element_mut().err(), "as_element_mut")?; }
		if kind != DomNodeType::TextNode { cast(n.as_text().err(), "as_text")?; cast(n.as_text_mut().err(), "as_text_mut")?; }
		if kind != DomNodeType::CommentNode { cast(n.as_comment().err(), "as_comment")?; cast(n.as_comment_mut().err(), "as_comment_mut")?; }
		if kind != DomNodeType::CDataNode { cast(n.as_cdata().err(), "as_cdata")?; cast(n.as_cdata_mut().err(), "as_cdata_mut")?; }
		k += 6;
		if let Ok(y) = n.as_comment_mut() { for s in ["-->", "a-->b", "--->", "-->-->"] { content(y.set_content(s), "set_content")?; k += 1; } }
		if let Ok(y) = n.as_cdata_mut() { for s in ["]]>", "a]]>b", "]]]>", "]]>]]>"] { content(y.set_text(s), "set_text")?; k += 1; } }
		if let Ok(y) = n.as_element_mut() { k += refuse(y, at + 1)?; }
	}
	Ok(k)
}
/// refused calls on a document: none has an effect
pub fn refuse_doc(doc: &mut Document, at: usize) -> Result<u64, String> {
	let (s, o, h) = (doc.to_string(), observe_doc(doc), hash_of(doc.root_element()));
	let before = doc.root_element().clone();
	let mut k = refuse(doc.root_element_mut(), at)?;
	for n in [0, 1, s.len() / 2, s.len() - 1] { if doc.write_to_file(&mut Broken(n)).is_ok() { return Err(format!("writing to a sink that fails after {n} bytes succeeds")) } k += 1; }
	if doc.write_to_filepath("/dev/null/nowhere/file.xml").is_ok() { return Err("writing below a file succeeds".into()) }
	k += 1;
	if doc.to_string() != s { return Err(format!("after refused calls written as {}, before as {s}", doc.to_string())) }
	let g = observe_doc(doc); if g != o { return Err(format!("refused calls changed the document: {}", diff(&o, &g))) }
	if *doc.root_element() != before || hash_of(doc.root_element()) != h { return Err("refused calls changed the root (by == or hash)".into()) }
	Ok(k)
}
pub fn c29(run: &Run) {
	let x = pe("p", "x", &[("k", "v")], vec![t("t"), e("y")]);
	let mut ops = vec![];
	for at in [vec![], vec![0]] {
		for m in [e("e"), x.clone(), t("z"), t(""), c("c"), d("d")] { ops.push(Op::Append(at.clone(), m.clone())); ops.push(Op::Insert(at.clone(), 1, m)); }
		ops.push(Op::Remove(at.clone(), 0)); ops.push(Op::RemoveElement(at.clone(), 1)); ops.push(Op::SetAttr(at.clone(), "k".into(), "<&>".into())); ops.push(Op::SetAttr(at.clone(), "xmlns:p".into(), "v".into()));
		ops.push(Op::RemoveAttr(at.clone(), "k".into())); ops.push(Op::SetText(at.clone(), "T".into())); ops.push(Op::Clear(at.clone())); ops.push(Op::EditLeaf(at.clone(), 0, "".into())); ops.push(Op::AppendAll(at, vec![t("1"), t("2"), c("3")]));
	}
	ops.push(Op::MoveLast(vec![], 0, vec![0])); ops.push(Op::CopyFirst(vec![], 0, vec![0]));
	let starts: Vec<(&str, Box<dyn Fn() -> Pair + Sync>)> = vec![
		("parsed", Box::new(|| from_text("<!DOCTYPE r><r xmlns:p=\"u\" k=\"1\"><p:a><b>t</b></p:a>x<!--c--><![CDATA[d]]></r>"))),
		("built", Box::new(|| from_model(ela("r", &[("xmlns", "u"), ("xmlns:p", "w")], vec![e("a")])))),
		("edited", Box::new(|| from_raw(ela("r", &[("xmlns:p", "w")], vec![ek("a", vec![t(""), t(" ")]), t("a"), t(""), t("b")])))),
	];
	let depth = run.t(3, 4);
	for (name, st) in &starts {
		bfs(run, name, &format!("all histories of at most {depth} of {} edits, with every refused call on every node before, between and after them", ops.len()), ops.len(), depth, true, |path, l| {
			if !l.quiet_note() { note(&describe(&ops, path)); }
			let (mut doc, mut m) = st();
			let fail = |why: String, l: &mut Local| { l.fail(describe(&ops, path), why); None };
			for (k, &i) in path.iter().enumerate() {
				match refuse(doc.root_element_mut(), k) { Err(w) => return fail(w, l), Ok(n) => l.step(n) }
				let op = &ops[i as usize];
				let w = model(&mut m.root, op)?; let g = real(doc.root_element_mut(), op);
				if !ret_ok(&w, &g) { return fail(format!("after refused calls, {op:?} returned {g:?}, expected {w:?}"), l) }
			}
			match refuse_doc(&mut doc, path.len()) { Err(w) => return fail(w, l), Ok(n) => { l.step(n); l.outcome("refused calls without effect"); } }
			l.trace(); l.sample(|| describe(&ops, path));
			let got = observe_doc(&doc);
			if got != m { return fail(diff(&m, &got), l) }
			Some(h128(&m))
		});
	}
	// lists of every length: the bounds in the error
	big(run, run.t(2049, 16_385), |m, case, l| {
		let mut x = build(&m); let before = observe(&x); let (n, ne) = (m.kids.len(), m.els().count());
		let mut go = || -> Result<(), String> {
			for i in [n + 1, n * 2 + 1, isize::MAX as usize] { match x.insert(i, Text::new("t")) { Ok(()) => return Err(format!("insert({i}) succeeds")), Err(e) => out_of_bounds(&e, i, n)? } }
			for i in [n, n * 2 + 1] { match x.remove(i) { Ok(_) => return Err(format!("remove({i}) succeeds")), Err(e) => out_of_bounds(&e, i, n)? } }
			for i in [ne, ne * 2 + 1] { match x.remove_element(i) { Ok(_) => return Err(format!("remove_element({i}) succeeds")), Err(e) => out_of_bounds(&e, i, ne)? } }
			for b in BAD_NAMES { if x.set_attr(b, "v").is_ok() { return Err(format!("set_attr({b:?}) succeeds")) } }
			if x.first_element_by_name("no-such").is_ok() || x.first_element_by_name_mut("no-such").is_ok() { return Err("an element that is not there is found".into()) }
			Ok(())
		};
		if let Err(w) = go() { return l.fail(case, w) }
		let got = observe(&x); if got != before { l.fail(case, differ(&before, &got)) }
	});
	// the errors themselves: nothing of what they say is lost, whatever they become
	let words = ["a", "ParsingError: ", ": ", "é", "\n", "{}", "\"", "", "InvalidContent: "];
	par_enum(run, "messages", "every kind of error with every message of at most 4 of 9 fragments, as itself, as the general error, and boxed", strings_upto(words.len(), 4), |i, l| {
		let s = nth_concat(&words, i); note(&s); l.state(&s); l.step(8); l.trace(); l.outcome("said in full");
		// a parsing error does not repeat that it is one
		let body = { let mut b = s.as_str(); while let Some(r) = b.strip_prefix("ParsingError: ") { b = r } b };
		let check = || -> Result<(), String> {
			let e = ParsingError::new(s.as_str()); if e.msg != s && e.msg != body { return Err(format!("message kept as {:?}", e.msg)) } told(&e, |k| matches!(k, KissXmlError::ParsingError(_)), &[body])?;
			macro_rules! kinds { ($($k:ident),*) => { $( let e = $k::new(s.as_str()); if e.msg != s { return Err(format!("{}: message kept as {:?}", stringify!($k), e.msg)) } told(&e, |k| matches!(k, KissXmlError::$k(_)), &[s.as_str()])?; match KissXmlError::from(e.clone()) { KissXmlError::$k(x) if x.msg == s => {} x => return Err(format!("{e:?} becomes {x:?}")) } )* } }
			kinds!(TypeCastError, DoesNotExistError, InvalidAttributeName, InvalidElementName, InvalidContent, NotSupportedError);
			let io = std::io::Error::new(std::io::ErrorKind::NotFound, s.clone()); let shown = io.to_string();
			match KissXmlError::from(io) { KissXmlError::IOError(x) if x.kind() == std::io::ErrorKind::NotFound && x.to_string() == shown => {} x => return Err(format!("an I/O error becomes {x:?}")) }
			if KissXmlError::from(std::io::Error::other(s.clone())).to_string() != s { return Err("an I/O error says something else as general error".into()) }
			Ok(())
		};
		if let Err(w) = check() { l.fail(s.clone(), w) }
	});
	let nums: Vec<isize> = vec![0, 1, 2, 9, 10, 255, 256, 65_536, 1 << 40, isize::MAX, -1, isize::MIN];
	par_enum(run, "index-errors", "every index and bounds out of 12 numbers", nums.len().pow(3) as u64, |i, l| {
		let mut x = Dec(i); let (a, b, c) = (*x.pick(&nums), *x.pick(&nums), *x.pick(&nums)); let case = format!("{a} in {b} to {c}"); note(&case); l.state(&i); l.step(2); l.trace(); l.outcome("said in full");
		let is: fn(&KissXmlError) -> bool = |k| matches!(k, KissXmlError::IndexOutOfBounds(_));
		for (e, says) in [(IndexOutOfBounds::new(a, Some((b, c))), vec![a, b, c]), (IndexOutOfBounds::new(a, None), vec![a])] {
			let says: Vec<String> = says.iter().map(|n| n.to_string()).collect(); let says: Vec<&str> = says.iter().map(|s| s.as_str()).collect();
			if let Err(w) = told(&e, is, &says) { return l.fail(case, w) }
			match KissXmlError::from(e.clone()) { KissXmlError::IndexOutOfBounds(y) if y.index == a && y.bounds == e.bounds => {} y => return l.fail(case, format!("becomes {y:?}")) }
		}
	});
	// constructors that refuse: their arguments are not to blame for anything later
	let toks = ["a", "1", " ", "-", "<", ">", "&", "/", "=", "\"", ":", "é", "\n", ".", "]]>", "-->"];
	let k = run.t(3, 4);
	par_enum(run, "constructors", &format!("all texts of at most {k} of {} tokens as names and contents of every constructor: each result is the documented one, each error is told", toks.len()), strings_upto(toks.len(), k), |i, l| {
		let s = nth_concat(&toks, i); note(&s); l.step(1); l.trace(); l.state(&s);
		let go = |l: &mut Local| -> Result<(), String> {
			let elem = |r: Result<Element, KissXmlError>, what: &str| match r { Err(e @ KissXmlError::InvalidElementName(_)) => { let KissXmlError::InvalidElementName(i) = &e else { unreachable!() }; told(i, |k| matches!(k, KissXmlError::InvalidElementName(_)), &[])?; if e.to_string() != i.to_string() { return Err(format!("{what}: told otherwise")) } Ok(false) } Err(e) => Err(format!("{what}({s:?}): {e:?}")), Ok(_) => Ok(true) };
			let attr = |r: Result<Element, KissXmlError>, what: &str| match r { Err(KissXmlError::InvalidAttributeName(i)) => { told(&i, |k| matches!(k, KissXmlError::InvalidAttributeName(_)), &[])?; Ok(false) } Err(e) => Err(format!("{what}({s:?} as attribute): {e:?}")), Ok(_) => Ok(true) };
			let at = || HashMap::from([(s.clone(), "v".to_string()), ("ok".to_string(), "w".to_string())]);
			let kids = || vec![Text::new("t").boxed(), Element::new_from_name("k").unwrap().boxed()];
			let good = || HashMap::from([("ok", "w")]);
			let names = [elem(Element::new_from_name(&s), "new_from_name")?, elem(Element::new_with_text(&s, "t"), "new_with_text")?, elem(Element::new_with_children(&s, kids()), "new_with_children")?, elem(Element::new_with_attributes(&s, good()), "new_with_attributes")?,
				elem(Element::new_with_attributes_and_text(&s, good(), "t"), "new_with_attributes_and_text")?, elem(Element::new_with_attributes_and_children(&s, good(), kids()), "new_with_attributes_and_children")?, elem(Element::new(s.as_str(), Some("t".into()), Some(good()), None, None, Some(kids())), "new")?];
			if names.iter().any(|b| *b != names[0]) { return Err(format!("the constructors do not agree about the name {s:?}: {names:?}")) }
			let mut probe = Element::new_from_name("r").unwrap();
			let attrs = [attr(Element::new_with_attributes("r", at()), "new_with_attributes")?, attr(Element::new_with_attributes_and_text("r", at(), "t"), "new_with_attributes_and_text")?, attr(Element::new_with_attributes_and_children("r", at(), kids()), "new_with_attributes_and_children")?, attr(Element::new("r", None, Some(at()), None, None, Some(kids())), "new")?, probe.set_attr(s.as_str(), "v").is_ok()];
			if attrs.iter().any(|b| *b != attrs[0]) { return Err(format!("constructors and set_attr do not agree about the attribute {s:?}: {attrs:?}")) }
			l.outcome(match (names[0], attrs[0]) { (true, true) => "a name", (false, false) => "no name", _ => "an attribute name only" });
			let prefix = elem(Element::new("n", None, None::<HashMap<String, String>>, Some("u".into()), Some(s.clone()), None), "prefix")?;
			if prefix && !names[0] { return Err(format!("{s:?} is taken as prefix, not as name")) }
			let mut cm = Comment::new("old").unwrap(); let mut cd = CData::new("old").unwrap();
			for (r, has, what) in [(Comment::new(s.as_str()).map(|_| ()), s.contains("-->"), "Comment::new"), (cm.set_content(s.as_str()), s.contains("-->"), "set_content"), (CData::new(s.as_str()).map(|_| ()), s.contains("]]>"), "CData::new"), (cd.set_text(s.as_str()), s.contains("]]>"), "set_text")] {
				match r { Ok(()) if has => return Err(format!("{what}({s:?}) succeeds")), Err(e) => { told(&e, |k| matches!(k, KissXmlError::InvalidContent(_)), &[])?; if !has && !s.contains("--") && !s.starts_with(['-', '>']) && !s.ends_with('-') { return Err(format!("{what}({s:?}) is refused")) } } _ => {} }
			}
			if s.contains("-->") && cm.get_content() != "old" || s.contains("]]>") && cd.get_content() != "old" { return Err(format!("a refused update to {s:?} changed the content")) }
			for r in [Declaration::from_str(&s).map(|_| ()), DTD::from_string(s.as_str()).map(|_| ())] { if let Err(e) = r { if !matches!(e, KissXmlError::ParsingError(_)) || !format!("{e}").contains("ParsingError") { return Err(format!("a declaration or DTD {s:?} is refused with {e:?}")) } } }
			Ok(())
		};
		if let Err(w) = go(l) { l.fail(s.clone(), w) }
	});
	// errors of every kind with every message
	let toks = ["ParsingError: ", "TypeCastError: ", "msg", "é\n", "{}", " ", ":", "Error"];
	let k = run.t(4, 5);
	par_enum(run, "errors", &format!("every kind of error with all messages of at most {k} of {} tokens; all indexes and bounds of a list", toks.len()), strings_upto(toks.len(), k), |i, l| {
		let s = nth_concat(&toks, i); note(&s); l.step(9); l.trace(); l.state(&s);
		let go = || -> Result<(), String> {
			told(&TypeCastError::new(s.as_str()), |k| matches!(k, KissXmlError::TypeCastError(_)), &[&s, "TypeCastError"])?;
			told(&DoesNotExistError::new(s.as_str()), |k| matches!(k, KissXmlError::DoesNotExistError(_)), &[&s, "DoesNotExistError"])?;
			told(&InvalidAttributeName::new(s.as_str()), |k| matches!(k, KissXmlError::InvalidAttributeName(_)), &[&s, "InvalidAttributeName"])?;
			told(&InvalidElementName::new(s.as_str()), |k| matches!(k, KissXmlError::InvalidElementName(_)), &[&s, "InvalidElementName"])?;
			told(&InvalidContent::new(s.as_str()), |k| matches!(k, KissXmlError::InvalidContent(_)), &[&s, "InvalidContent"])?;
			told(&NotSupportedError::new(s.as_str()), |k| matches!(k, KissXmlError::NotSupportedError(_)), &[&s, "NotSupportedError"])?;
			told(&ParsingError::new(s.as_str()), |k| matches!(k, KissXmlError::ParsingError(_)), &[s.trim_start_matches("ParsingError: "), "ParsingError"])?;
			if TypeCastError::new(s.as_str()).msg != s || InvalidContent::new(s.as_str()).msg != s || InvalidElementName::new(s.as_str()).msg != s || InvalidAttributeName::new(s.as_str()).msg != s || DoesNotExistError::new(s.as_str()).msg != s || NotSupportedError::new(s.as_str()).msg != s { return Err("another message is kept".into()) }
			let io = KissXmlError::from(std::io::Error::other(s.clone()));
			if !matches!(&io, KissXmlError::IOError(e) if e.to_string() == s) || !io.to_string().contains(&s) { return Err(format!("an I/O error {s:?} becomes {io:?}")) }
			let (a, b, c) = ((i % 7) as isize - 3, (i / 7 % 11) as isize, (i / 77 % 13) as isize * 1000);
			for bounds in [None, Some((a, b)), Some((b, c))] { for ix in [a, b, c, isize::MAX, isize::MIN] {
				let e = IndexOutOfBounds::new(ix, bounds);
				if e.index != ix || e.bounds != bounds { return Err("another index or bounds kept".into()) }
				let mut holds = vec![ix.to_string()]; if let Some((x, y)) = bounds { holds.push(x.to_string()); holds.push(y.to_string()); }
				told(&e, |k| matches!(k, KissXmlError::IndexOutOfBounds(_)), &holds.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
			} }
			Ok(())
		};
		if let Err(w) = go() { l.fail(s.clone(), w) }
	});
}

// ------------------------------------------------------------------ C30
/// everything that prints a node or document prints the same
pub fn prints(x: &Element) -> Result<(), String> {
	let s = Node::to_string_with_indent(x, "  ");
	let b = x.clone().boxed();
	let doc = Document::new(x.clone());
	let text = doc.to_string();
	let mut sink = vec![]; doc.write_to_file(&mut sink).map_err(|e| e.to_string())?;
	let mut sink2 = vec![]; doc.write_to_file_with_indent(&mut sink2, "  ").map_err(|e| e.to_string())?;
	let ways: Vec<(&str, String)> = vec![("Display", format!("{x}")), ("to_string", x.to_string()), ("Debug", format!("{x:?}")), ("alternate Display", format!("{x:#}")), ("alternate Debug", format!("{x:#?}")), ("boxed Display", format!("{b}")), ("boxed to_string_with_indent", b.to_string_with_indent("  ")), ("as_node", x.as_node().to_string_with_indent("  ")),
		("Document::to_string", text.strip_prefix(&format!("{}\n", Declaration::new())).unwrap_or("?").trim_end_matches('\n').to_string()), ("boxed Debug", format!("{b:?}"))];
	for (w, g) in ways { if g != s { return Err(format!("{w} gives {g:?}, to_string_with_indent {s:?}")) } }
	for (w, g) in [("Display of the document", format!("{doc}")), ("Debug of the document", format!("{doc:?}")), ("alternate Display of the document", format!("{doc:#}")), ("alternate Debug of the document", format!("{doc:#?}")), ("to_string_with_indent of the document", doc.to_string_with_indent("  ")), ("ToString", ToString::to_string(&doc)), ("write_to_file", String::from_utf8_lossy(&sink).into_owned()), ("write_to_file_with_indent", String::from_utf8_lossy(&sink2).into_owned())] { if g != text { return Err(format!("{w} gives {g:?}, to_string {text:?}")) } }
	for i in ["", " ", "\t", "    ", "x", "\n", "\u{3000}"] {
		let w = doc.to_string_with_indent(i); let mut sink = vec![]; let mut sink2 = vec![];
		doc.write_to_file_with_indent(&mut sink, i).map_err(|e| e.to_string())?; doc.write_to_file_with_indent(&mut sink2, i.to_string()).map_err(|e| e.to_string())?;
		if x.as_node().to_string_with_indent(i) != b.to_string_with_indent(i) || w != doc.to_string_with_indent(i.to_string()) || w.as_bytes() != sink || w.as_bytes() != sink2 { return Err(format!("prints disagree with indent {i:?}")) }
	}
	Ok(())
}
/// every listing and search against the ones that say the same
pub fn lists(x: &mut Element, names: &[&str]) -> Result<(), String> {
	let p = |n: &Box<dyn Node>| &**n as *const dyn Node as *const u8 as usize;
	let pe = |n: &Element| n as *const Element as usize;
	let a: Vec<usize> = x.children().map(p).collect();
	if x.children_mut().map(|n| p(n)).collect::<Vec<_>>() != a { return Err("children_mut".into()) }
	let ce: Vec<usize> = x.child_elements().map(pe).collect();
	if x.children().filter_map(|n| n.as_element().ok()).map(pe).collect::<Vec<_>>() != ce || x.child_elements_mut().map(|n| pe(n)).collect::<Vec<_>>() != ce { return Err("child_elements and child_elements_mut".into()) }
	// in which order the recursive ones list is nobody's business
	let some = |mut v: Vec<usize>| { v.sort_unstable(); v };
	let all = some(x.all_children().map(p).collect());
	if some(x.children_recursive().map(p).collect()) != all { return Err("all_children and children_recursive".into()) }
	if some(x.search(|_| true).map(p).collect()) != all { return Err("search for anything and all_children".into()) }
	let els: Vec<usize> = some(x.search(|n| n.is_element()).map(p).collect());
	if some(x.search_elements(|_| true).map(pe).collect()) != els { return Err("search_elements and search".into()) }
	if some(x.search_text(|_| true).map(|t| t as *const Text as usize).collect()) != some(x.search(|n| n.is_text()).map(p).collect()) { return Err("search_text and search".into()) }
	if some(x.search_comments(|_| true).map(|t| t as *const Comment as usize).collect()) != some(x.search(|n| n.is_comment()).map(p).collect()) { return Err("search_comments and search".into()) }
	fn texts(x: &Element, out: &mut String) { for n in x.children() { if let Ok(t) = n.as_text() { out.push_str(&t.content) } else if let Ok(e) = n.as_element() { texts(e, out) } } }
	let mut t = String::new(); texts(x, &mut t);
	if t != x.text() || t != x.as_node().text() { return Err("text() and the text nodes in document order".into()) }
	for n in names {
		let q: Vec<usize> = x.child_elements().filter(|c| c.name() == *n).map(pe).collect();
		if x.elements_by_name(*n).map(pe).collect::<Vec<_>>() != q || x.elements_by_name_mut(n.to_string()).map(|c| pe(c)).collect::<Vec<_>>() != q { return Err(format!("elements_by_name({n:?})")) }
		if x.first_element_by_name(*n).ok().map(pe) != q.first().copied() || x.first_element_by_name_mut(*n).ok().map(|c| pe(c)) != q.first().copied() { return Err(format!("first_element_by_name({n:?})")) }
		if some(x.search_elements_by_name(*n).map(pe).collect()) != some(x.search_elements(|c| c.name() == *n).map(pe).collect()) { return Err(format!("search_elements_by_name({n:?})")) }
	}
	let spaces: Vec<Option<String>> = x.child_elements().map(|c| c.namespace()).chain([None]).collect();
	for s in spaces { let w: Vec<usize> = x.child_elements().filter(|c| c.namespace() == s).map(pe).collect(); if x.elements_by_namespace(s.as_deref()).map(pe).collect::<Vec<_>>() != w || x.elements_by_namespace_mut(s.as_deref()).map(|c| pe(c)).collect::<Vec<_>>() != w { return Err(format!("elements_by_namespace({s:?})")) } }
	let prefixes: Vec<Option<String>> = x.child_elements().map(|c| c.namespace_prefix()).chain([None]).collect();
	for s in prefixes { let w: Vec<usize> = x.child_elements().filter(|c| c.namespace_prefix() == s).map(pe).collect(); if x.elements_by_namespace_prefix(s.as_deref()).map(pe).collect::<Vec<_>>() != w || x.elements_by_namespace_prefix_mut(s.as_deref()).map(|c| pe(c)).collect::<Vec<_>>() != w { return Err(format!("elements_by_namespace_prefix({s:?})")) } }
	for k in x.attributes().keys() { if x.get_attr(k) != x.attributes().get(k) { return Err(format!("get_attr({k:?})")) } }
	if x.tag_name() != x.namespace_prefix().map(|p| format!("{p}:")).unwrap_or_default() + &x.name() { return Err("tag_name()".into()) }
	for c in x.child_elements_mut() { lists(c, names)? }
	Ok(())
}
/// every way of removing against the one it stands for
pub fn removals(x: &Element, m: &El, names: &[&str]) -> Result<(), String> {
	let check = |what: String, deep: bool, hit: &dyn Fn(&M) -> bool, ways: Vec<(&str, Box<dyn Fn(&mut Element) -> usize + '_>)>| -> Result<(), String> {
		let mut w = m.clone(); let n = remove_if(&mut w, deep, hit);
		let mut first: Option<Element> = None;
		for (by, go) in ways {
			let mut y = x.clone(); let k = go(&mut y);
			if k != n { return Err(format!("{what} by {by}: {k} removed, expected {n}")) }
			let g = observe(&y); if g != w { return Err(format!("{what} by {by}: {}", differ(&w, &g))) }
			match &first { None => first = Some(y), Some(f) => if *f != y || f.to_string() != y.to_string() { return Err(format!("{what} by {by}: another element")) } }
		}
		Ok(())
	};
	for n in names {
		let hit = |k: &M| matches!(k, M::E(e) if e.name == *n);
		let p = |b: &Box<dyn Node>| b.as_element().is_ok_and(|e| e.name() == *n);
		check(format!("<{n}> here"), false, &hit, vec![("remove_elements_by_name", Box::new(|e| e.remove_elements_by_name(*n))), ("remove_elements", Box::new(|e| e.remove_elements(|c| c.name() == *n))), ("remove_by", Box::new(|e| e.remove_by(&p))),
			("remove_element", Box::new(|e| { let ix: Vec<usize> = e.child_elements().enumerate().filter(|c| c.1.name() == *n).map(|c| c.0).collect(); for i in ix.iter().rev() { e.remove_element(*i).unwrap(); } ix.len() })),
			("remove", Box::new(|e| { let ix: Vec<usize> = e.children().enumerate().filter(|c| p(c.1)).map(|c| c.0).collect(); for i in ix.iter().rev() { e.remove(*i).unwrap(); } ix.len() }))])?;
		check(format!("<{n}> everywhere"), true, &hit, vec![("remove_all_elements", Box::new(|e| e.remove_all_elements(|c| c.name() == *n))), ("remove_all", Box::new(|e| e.remove_all(&p)))])?;
	}
	check("elements".into(), false, &|k| k.kind() == 0, vec![("remove_elements", Box::new(|e| e.remove_elements(|_| true))), ("remove_by", Box::new(|e| e.remove_by(&|b| b.is_element())))])?;
	check("elements everywhere".into(), true, &|k| k.kind() == 0, vec![("remove_all_elements", Box::new(|e| e.remove_all_elements(|_| true))), ("remove_all", Box::new(|e| e.remove_all(&|b| b.is_element())))])?;
	check("everything".into(), false, &|_| true, vec![("clear_children", Box::new(|e| { let n = e.children().count(); e.clear_children(); n })), ("remove_by", Box::new(|e| e.remove_by(&|_| true))), ("remove_all", Box::new(|e| e.remove_all(&|_| true))), ("remove", Box::new(|e| { let mut n = 0; while e.remove(0).is_ok() { n += 1; } n }))])
}
fn put(x: &mut Element, m: &M, way: usize) {
	let n = x.children().count();
	match way {
		0 => match m { M::E(e) => x.append(build(e)), M::T(s) => x.append(Text::new(s.as_str())), M::C(s) => x.append(Comment::new(s.as_str()).unwrap()), M::D(s) => x.append(CData::new(s.as_str()).unwrap()) },
		1 => x.append_boxed(build_node(m)),
		2 => x.append_all(vec![build_node(m)]),
		3 => match m { M::E(e) => x.insert(n, build_incremental(e)).unwrap(), M::T(s) => x.insert(n, Text::from(s.as_str())).unwrap(), M::C(s) => x.insert(n, Comment::from(s.clone())).unwrap(), M::D(s) => x.insert(n, CData::from(s.as_str())).unwrap() },
		_ => match m { M::E(e) => x.append_boxed(clone_node(&build(e).boxed())), M::T(s) => x.append(Text::from(s.clone())), M::C(s) => x.append(Comment::from(s.as_str())), M::D(s) => x.append(CData::from(s.clone())) },
	}
}
const WAYS: [&str; 5] = ["append", "append_boxed", "append_all", "insert at the end", "append of a clone"];

pub fn c30(run: &Run) {
	let names = ["a", "n", "zz"];
	let hi = run.t(4, 5);
	let sp = ForestSpace::new(0, hi, 6, 2);
	par_enum(run, "trees", &format!("all trees of at most {hi} nodes: every way of printing, listing, searching, asking and removing"), sp.total, |i, l| {
		let root = ela("r", &[("xmlns:p", "u")], sp.get(i, &|v, id| match v { 0 => M::E(El { prefix: ["", "p"][id % 2].into(), ..ela("a", &[], vec![]) }), 4 => M::E(El { prefix: ["p", ""][id % 2].into(), ..ela("b", &[("k", "v<"), ("xmlns", "w")], vec![]) }), _ => leaf4(v, id) }, &inner2));
		let Some(mut x) = made(&root, l) else { return };
		let m = observe(&x); let case = show(&m); note(&case); l.step(1); l.trace(); l.state(&m); l.sample(|| case.clone());
		if let Err(w) = prints(&x).and_then(|_| lists(&mut x, &names)).and_then(|_| removals(&x, &m, &names)) { l.fail(case, w) }
	});
	// the same edits, each done in another way
	let items = [e("e"), pe("p", "x", &[("k", "v")], vec![t("t"), e("y")]), t("z"), t(" "), t(""), c("c"), d("d"), ea("w", &[("xmlns:p", "i")], vec![pe("p", "q", &[], vec![])])];
	let mut ops: Vec<Op> = items.iter().map(|m| Op::Append(vec![], m.clone())).collect();
	ops.extend(items.iter().take(3).map(|m| Op::Append(vec![0], m.clone())));
	ops.extend([Op::Remove(vec![], 0), Op::RemoveElement(vec![], 0), Op::SetText(vec![], "S".into()), Op::SetAttr(vec![], "xmlns:p".into(), "v".into()), Op::SetAttr(vec![], "a".into(), "1".into()), Op::RemoveAttr(vec![], "xmlns:p".into()), Op::Clear(vec![]), Op::SwapKids(vec![])]);
	let depth = run.t(4, 5);
	for (name, st) in [("ways/parsed", 0), ("ways/built", 1)] {
		bfs(run, name, &format!("all histories of at most {depth} of {} edits, carried out in {} ways side by side", ops.len(), WAYS.len()), ops.len(), depth, true, |path, l| {
			if !l.quiet_note() { note(&describe(&ops, path)); }
			let start = || -> Pair { if st == 0 { from_text("<r xmlns:p=\"u\"><p:a>x</p:a><!--c-->t</r>") } else { from_model(ela("r", &[("xmlns:p", "u")], vec![])) } };
			let mut docs: Vec<Document> = (0..WAYS.len()).map(|_| start().0).collect(); let mut m = start().1;
			for &i in path {
				let op = &ops[i as usize];
				let w = model(&mut m.root, op)?;
				for (k, doc) in docs.iter_mut().enumerate() {
					let root = doc.root_element_mut();
					let g = match op {
						Op::Append(at, n) => { let at = crate::ops::r_at(root, at); match at { Some(x) => { put(x, n, k); Ret::Unit } None => { l.fail(describe(&ops, path), "an element is missing"); return None } } }
						Op::Clear(_) => { match k { 0 => root.clear_children(), 1 => { root.remove_by(&|_| true); } 2 => { root.remove_all(&|_| true); } 3 => while root.remove(0).is_ok() {}, _ => root.set_text("") } Ret::Unit }
						Op::SetText(_, s) => { match k { 0 => root.set_text(s.as_str()), 1 => root.set_text(s.clone()), _ => { root.clear_children(); put(root, &t(s), k) } } Ret::Unit }
						Op::Remove(_, 0) if k > 1 && m_kids(root) > 0 => { let n = root.remove(0).unwrap(); let mut x = observe_node(&n); strip_ns(&mut x); Ret::Node(x) }
						Op::SetAttr(_, a, v) => { match k { 0 => root.set_attr(a.as_str(), v.as_str()).unwrap(), 1 => root.set_attr(a.clone(), v.clone()).unwrap(), 2 => { root.set_attr(a.as_str(), "other").unwrap(); root.set_attr(a.as_str(), v.as_str()).unwrap() } 3 => { root.remove_attr(a.as_str()); root.set_attr(a.as_str(), v.as_str()).unwrap() } _ => { let v2: Box<str> = v.as_str().into(); root.set_attr(a.as_str(), v2).unwrap() } } Ret::Unit }
						op => real(root, op),
					};
					if !ret_ok(&w, &g) { l.fail(describe(&ops, path), format!("{op:?}, way {k}, returned {g:?}, expected {w:?}")); return None }
				}
			}
			l.trace(); l.sample(|| describe(&ops, path)); l.step(WAYS.len() as u64);
			let text = docs[0].to_string();
			for (k, doc) in docs.iter().enumerate() {
				let g = observe_doc(doc);
				if g != m { l.fail(describe(&ops, path), format!("by {}: {}", WAYS[k], diff(&m, &g))); return None }
				if doc.to_string() != text || *doc != docs[0] || hash_of(doc.root_element()) != hash_of(docs[0].root_element()) { l.fail(describe(&ops, path), format!("by {}: another document", WAYS[k])); return None }
			}
			Some(h128(&m))
		});
	}
	// constructors
	let tags = ["r", "é", "a-b"];
	let attrs: Vec<Vec<(&str, &str)>> = vec![vec![], vec![("k", "v")], vec![("xmlns", "u")], vec![("xmlns:p", "u"), ("k", "<&\"'>")], vec![("b", ""), ("a", " "), ("p:c", "é"), ("xmlns:p", "x"), ("xmlns", "y")]];
	let kids = [e("a"), t("t"), t(""), t(" "), c("c"), d("d"), pe("p", "e", &[], vec![e("f")]), ea("g", &[("xmlns", "")], vec![e("h")])];
	let texts = ["", " ", "t", "<&>", "\n x"];
	let k = run.t(4, 5);
	par_enum(run, "constructors", &format!("every constructor against the general one and against setting and appending afterwards: {} names x {} attribute sets x {} texts, all child lists of at most {k} of {} nodes", tags.len(), attrs.len(), texts.len(), kids.len()), strings_upto(kids.len(), k) * (tags.len() * attrs.len()) as u64, |i, l| {
		let mut x = Dec(i); let tag = *x.pick(&tags); let at = x.pick(&attrs); let ks: Vec<M> = nth_string(&kids, x.0).into_iter().cloned().collect();
		let m = annotated(normalized(ela(tag, at, ks.clone()))); let case = show(&ela(tag, at, ks.clone())); note(&case); l.step(1); l.trace(); l.state(&(tag, at, &ks));
		let map = || at.iter().copied().collect::<HashMap<&str, &str>>();
		let owned = || at.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<HashMap<String, String>>();
		let boxes = || ks.iter().map(build_node).collect::<Vec<_>>();
		let set = |mut x: Element| { for (k, v) in at { x.set_attr(*k, *v).unwrap(); } x };
		let mut made: Vec<(&str, Element)> = vec![
			("new", Element::new(tag, None, Some(map()), None, None, Some(boxes())).unwrap()), ("new, owned", Element::new(tag, None, Some(owned()), None, None, Some(boxes())).unwrap()),
			("new_with_attributes_and_children", Element::new_with_attributes_and_children(tag, owned(), boxes()).unwrap()),
			("new_with_attributes, then append_all", { let mut x = Element::new_with_attributes(tag, map()).unwrap(); x.append_all(boxes()); x }),
			("new_with_children, then set_attr", set(Element::new_with_children(tag, boxes()).unwrap())),
			("new_from_name, then set_attr and append_all", { let mut x = set(Element::new_from_name(tag).unwrap()); x.append_all(boxes()); x }),
			("new_from_name, then append_all and set_attr", { let mut x = Element::new_from_name(tag).unwrap(); x.append_all(boxes()); set(x) }),
		];
		if at.is_empty() { made.push(("new_with_children", Element::new_with_children(tag, boxes()).unwrap())); made.push(("new, no attributes", Element::new(tag, None, None::<HashMap<&str, &str>>, None, None, Some(boxes())).unwrap())); }
		if ks.is_empty() { made.push(("new_with_attributes", Element::new_with_attributes(tag, map()).unwrap())); made.push(("new, no children", Element::new(tag, None, Some(map()), None, None, None).unwrap())); }
		if let [M::T(s)] = &ks[..] {
			made.push(("new_with_attributes_and_text", Element::new_with_attributes_and_text(tag, map(), s.as_str()).unwrap()));
			made.push(("new with text", Element::new(tag, Some(s.to_string()), Some(map()), None, None, None).unwrap()));
			made.push(("new_with_text, then set_attr", set(Element::new_with_text(tag, s.as_str()).unwrap())));
			made.push(("set_text", { let mut x = set(Element::new_from_name(tag).unwrap()); x.set_text(s.as_str()); x }));
		}
		if let [M::T(s), rest @ ..] = &ks[..] { if s.trim() != "" {
			let rest = || rest.iter().map(build_node).collect::<Vec<_>>();
			made.push(("new with text and children", Element::new(tag, Some(s.clone()), Some(map()), None, None, Some(rest())).unwrap()));
			made.push(("new_with_attributes_and_text, then append_all", { let mut x = Element::new_with_attributes_and_text(tag, map(), s.as_str()).unwrap(); x.append_all(rest()); x }));
			made.push(("new_with_text, then append one by one", { let mut x = set(Element::new_with_text(tag, s.as_str()).unwrap()); for n in rest() { x.append_boxed(n) } x }));
		} }
		let text = print(&m, "  ");
		for (by, x) in &made {
			let g = observe(x); if g != m { return l.fail(case, format!("{by}: {}", differ(&m, &g))) }
			if *x != made[0].1 || hash_of(x) != hash_of(&made[0].1) { return l.fail(case, format!("{by}: not equal to what Element::new makes")) }
			if x.to_string() != text { return l.fail(case, format!("{by}: written as {x}, expected {text}")) }
			let (a, b) = (x.namespace_prefixes().unwrap_or_default(), made[0].1.namespace_prefixes().unwrap_or_default());
			if a != b || x.default_namespace() != made[0].1.default_namespace() { return l.fail(case, format!("{by}: prefixes {a:?}, by Element::new {b:?}; default namespace {:?} and {:?}", x.default_namespace(), made[0].1.default_namespace())) }
		}
	});
	// texts
	let toks = ["a", "\n", " ", "\r", "\t", "<", "é", "&amp;"];
	let k = run.t(5, 6);
	par_enum(run, "texts", &format!("elements with every text of at most {k} of {} tokens, by every constructor, setter and appending", toks.len()), strings_upto(toks.len(), k), |i, l| {
		let s = nth_concat(&toks, i); note(&s); l.step(1); l.trace(); l.state(&s);
		let none = || None::<HashMap<&str, &str>>; let bare = || Element::new_from_name("r").unwrap(); let made = |f: &dyn Fn(&mut Element)| { let mut x = bare(); f(&mut x); x };
		let all = [
			("new_with_text", Element::new_with_text("r", s.as_str()).unwrap()), ("new_with_text, owned", Element::new_with_text("r", s.clone()).unwrap()),
			("new_with_attributes_and_text", Element::new_with_attributes_and_text("r", HashMap::<&str, &str>::new(), s.as_str()).unwrap()),
			("new", Element::new("r", Some(s.clone()), none(), None, None, None).unwrap()),
			("new_with_children", Element::new_with_children("r", vec![Text::new(s.as_str()).boxed()]).unwrap()),
			("set_text", made(&|x| x.set_text(s.as_str()))), ("set_text over another", made(&|x| { x.set_text("old"); x.set_text(s.clone()) })),
			("append", made(&|x| x.append(Text::new(s.as_str())))), ("append_all", made(&|x| x.append_all(vec![Text::new(s.as_str()).boxed()]))), ("append_boxed", made(&|x| x.append_boxed(Text::from(s.as_str()).boxed()))),
			("insert", made(&|x| x.insert(0, Text::new(s.clone())).unwrap())), ("by character", made(&|x| { if s.trim_matches([' ', '\t', '\r', '\n']).is_empty() { x.set_text(s.as_str()) } else { let mut lead = String::new(); for c in s.chars() { lead.push(c); if !lead.trim_matches([' ', '\t', '\r', '\n']).is_empty() { x.append(Text::new(std::mem::take(&mut lead))) } else if x.children().count() > 0 { x.append(Text::new(std::mem::take(&mut lead))) } } } })),
		];
		let blank = s.trim_matches([' ', '\t', '\r', '\n']).is_empty(); let want = if blank { vec![] } else { vec![M::T(s.clone())] };
		for (by, x) in &all {
			let g = observe(x); if g.kids != want { return l.fail(s.clone(), format!("by {by}: {}", show(&g))) }
			if x.text() != (if blank { "" } else { s.as_str() }) || *x != all[0].1 || hash_of(x) != hash_of(&all[0].1) || x.to_string() != all[0].1.to_string() { return l.fail(s.clone(), format!("by {by}: another element: {x}")) }
		}
		let mut o = all[0].1.clone(); o.clear_children(); if !o.children().next().is_none() || o.text() != "" { l.fail(s, "clearing leaves something") }
	});
	// leaves
	let toks = ["a", "b", "", " ", "<", "&amp;", "é", "-", "]", "\n", "A", "\u{1F600}"];
	let k = run.t(3, 4);
	let n = strings_upto(toks.len(), k);
	par_enum(run, "leaves", &format!("text, comments and CDATA of all contents of at most {k} of {} tokens, by every constructor, conversion and setter; all pairs of contents of up to 2 tokens compared, ordered and joined", toks.len()), n, |i, l| {
		let s = nth_concat(&toks, i); note(&s); l.step(1); l.trace(); l.state(&s);
		let go = || -> Result<(), String> {
			let ts = [Text::new(s.as_str()), Text::new(s.clone()), Text::from(s.as_str()), Text::from(s.clone()), { let mut x = Text::new("old"); x.content = s.clone(); x }, Text::new("").concat(&Text::new(s.as_str())), Text::new(s.as_str()).concat(&Text::from(""))];
			for x in &ts { if x.content != s || *x != ts[0] || hash_of(x) != hash_of(&ts[0]) || x.text() != s || format!("{x}") != ts[0].to_string_with_indent("\t") || format!("{x:#}") != format!("{x}") || format!("{x:#?}") != format!("{x:?}") || format!("{x}") != ts[0].clone().boxed().to_string() { return Err(format!("text {s:?}: {:?}", x.content)) } }
			if format!("{}", ts[0]) != esc_text(&s) { return Err(format!("text {s:?} printed as {}", ts[0])) }
			let cs = [Comment::new(s.as_str()).map_err(|e| e.to_string())?, Comment::from(s.as_str()), Comment::from(s.clone()), { let mut x = Comment::new("old").unwrap(); x.set_content(s.as_str()).map_err(|e| e.to_string())?; x }];
			for x in &cs { if x.get_content() != s || *x != cs[0] || hash_of(x) != hash_of(&cs[0]) || x.text() != s || format!("{x}") != format!("<!--{s}-->") || format!("{x:#}{x:#?}") != format!("<!--{s}--><!--{s}-->") || x.to_string_with_indent("\t") != format!("{x}") || x.clone().boxed().to_string() != format!("{x}") { return Err(format!("comment {s:?}: {x}")) } }
			let ds = [CData::new(s.as_str()).map_err(|e| e.to_string())?, CData::from(s.as_str()), CData::from(s.clone()), { let mut x = CData::new("old").unwrap(); x.set_text(s.as_str()).map_err(|e| e.to_string())?; x }];
			for x in &ds { if x.get_content() != s || *x != ds[0] || hash_of(x) != hash_of(&ds[0]) || x.text() != s || format!("{x}") != format!("<![CDATA[{s}]]>") || format!("{x:#}{x:#?}") != format!("<![CDATA[{s}]]><![CDATA[{s}]]>") || x.to_string_with_indent("\t") != format!("{x}") || x.clone().boxed().to_string() != format!("{x}") { return Err(format!("CDATA {s:?}: {x}")) } }
			for j in 0..strings_upto(toks.len(), 2) {
				let o = nth_concat(&toks, j); let want = s.partial_cmp(&o);
				if ts[0].partial_cmp(&Text::new(o.as_str())) != want || cs[0].partial_cmp(&Comment::from(o.as_str())) != want || ds[0].partial_cmp(&CData::from(o.as_str())) != want { return Err(format!("{s:?} and {o:?} are ordered otherwise than their contents")) }
				if ts[0].concat(&Text::new(o.as_str())).content != format!("{s}{o}") { return Err(format!("{s:?} and {o:?} joined")) }
				if (ts[0] == Text::new(o.as_str())) != (s == o) || (cs[0] == Comment::from(o.as_str())) != (s == o) || (ds[0] == CData::from(o.as_str())) != (s == o) { return Err(format!("{s:?} and {o:?} compared")) }
				if node_eq(&ts[0].clone().boxed(), &Text::new(o.as_str()).boxed()) != (s == o) || node_eq(&ts[0].clone().boxed(), &ds[0].clone().boxed()) || node_eq(&cs[0].clone().boxed(), &ds[0].clone().boxed()) { return Err(format!("{s:?} and {o:?} compared as nodes")) }
			}
			Ok(())
		};
		if let Err(w) = go() { l.fail(s.clone(), w) }
	});
	// the order of parts: documents built at once and piece by piece
	let decls = ["<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.1'?>"]; let dtds = ["<!DOCTYPE r>", "<!DOCTYPE r [<!ENTITY e '>'>]>"];
	par_enum(run, "documents", "documents with every declaration and sequence of at most 3 DTDs, by constructor, by setters and by reading", (decls.len() as u64 + 1) * strings_upto(dtds.len(), 3), |i, l| {
		let mut x = Dec(i); let dk = x.take(decls.len() + 1); let ds: Vec<DTD> = nth_string(&dtds, x.0).into_iter().map(|s| DTD::from_string(*s).unwrap()).collect();
		let decl = || decls.get(dk).map(|s| Declaration::from_str(s).unwrap()); l.step(1); l.trace(); l.state(&i);
		let root = || Element::new_with_text("r", "t").unwrap();
		let some = if ds.is_empty() { None } else { Some(&ds[..]) };
		let a = Document::new_with_decl_dtd(root(), decl(), some);
		let mut b = Document::new(root()); b.set_declaration(decl()); b.set_doctype_defs(Some(&ds)); 
		let mut c = Document::new_with_decl_dtd(root(), Some(Declaration::default()), Some(&[DTD::from_string("<!DOCTYPE other>").unwrap()])); c.set_doctype_defs(None); c.set_doctype_defs(some); c.set_declaration(None); c.set_declaration(decl()); *c.root_element_mut() = root();
		let text = a.to_string(); note(&text);
		let want: String = decl().iter().map(|d| format!("{d}\n")).chain(ds.iter().map(|d| format!("{d}\n"))).collect::<String>() + "<r>t</r>";
		if text.trim_end_matches('\n') != want { return l.fail(text.clone(), format!("written otherwise than {want:?}")) }
		let p = match parse(&text) { Ok(p) => p, Err(e) => return l.fail(text.clone(), format!("refused: {e}")) };
		for (by, d) in [("setters", &b), ("clearing and setting", &c), ("reading", &p)] { if *d != a || d.to_string() != text || observe_doc(d) != observe_doc(&a) { return l.fail(text.clone(), format!("by {by}: {d}")) } }
		if Declaration::new() != Declaration::default() || format!("{}", Declaration::new()) != decls[0] || format!("{:?}", Declaration::new()) != decls[0] || format!("{:#}{:#?}", Declaration::new(), Declaration::new()) != format!("{}{}", decls[0], decls[0]) || Document::new(root()).to_string().trim_end_matches('\n') != format!("{}\n<r>t</r>", decls[0]) { l.fail(text, "the default declaration") }
	});
	// large ones
	big_sized(run, run.t(1025, 10_001), |m, case, l| {
		let mut x = build(&m);
		if let Err(w) = prints(&x).and_then(|_| lists(&mut x, &["a", "zz"])).and_then(|_| removals(&x, &m, &["a"])) { l.fail(case, w) }
	});
}
fn m_kids(x: &Element) -> usize { x.children().count() }
