//! C31: what the threads do: calls of the library that call back into their user at many points
use crate::model::*;
use kiss_xml::dom::*;
use kiss_xml::errors::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::io::{Error, Read, Write};
use std::rc::Rc;

thread_local! { static POINT: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) }; }
/// control is with the user of the library: others may run now
fn point() { let p = POINT.with(|p| p.borrow().clone()); if let Some(p) = p { p() } }
/// run `f` with `p` called at each point
pub fn with_point<T>(p: Option<Rc<dyn Fn()>>, f: impl FnOnce() -> T) -> T {
	struct Back(Option<Rc<dyn Fn()>>);
	impl Drop for Back { fn drop(&mut self) { POINT.with(|p| *p.borrow_mut() = self.0.take()) } }
	let _back = Back(POINT.with(|q| std::mem::replace(&mut *q.borrow_mut(), p)));
	f()
}

// ------------------------------------------------------------------ what the library calls back
/// a string whose conversion is a point
#[derive(Clone)]
struct Say(&'static str);
impl From<Say> for String { fn from(s: Say) -> String { point(); s.0.to_string() } }
impl PartialEq for Say { fn eq(&self, o: &Say) -> bool { self.0 == o.0 } }
impl Eq for Say {}
impl Hash for Say { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
/// a reader that hands out its pieces, with a point before each
struct Pieces(Vec<Vec<u8>>, usize, bool);
impl Pieces {
	fn new(s: &str, n: usize) -> Pieces { Pieces(s.as_bytes().chunks(s.len().div_ceil(n)).map(|c| c.to_vec()).collect(), 0, false) }
}
impl Read for Pieces {
	fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
		if self.1 >= self.0.len() { if self.2 { point(); return Err(Error::other("broken reader")) } return Ok(0) }
		if !self.0[self.1].is_empty() && b.is_empty() { return Ok(0) }
		point();
		let p = &mut self.0[self.1]; let n = p.len().min(b.len()); b[..n].copy_from_slice(&p[..n]); p.drain(..n); if p.is_empty() { self.1 += 1; }
		Ok(n)
	}
}
/// a sink that takes `step` bytes at a time, with a point before each, and breaks after `room` bytes
struct Slow { got: Vec<u8>, step: usize, room: usize }
impl Write for Slow {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
		point();
		let n = b.len().min(self.step).min(self.room - self.got.len()); self.got.extend_from_slice(&b[..n]);
		if n == 0 && !b.is_empty() { Err(Error::other("broken sink")) } else { Ok(n) }
	}
	fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// what panics when it is used
struct Boom;
impl From<Boom> for String { fn from(_: Boom) -> String { point(); panic!("conversion") } }
struct Bomb(usize);
impl Read for Bomb { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { point(); if self.0 == 0 { panic!("reader") } self.0 -= 1; b[0] = b'<'; Ok(1) } }
impl Write for Bomb {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { point(); if self.0 == 0 { panic!("sink") } self.0 -= 1; Ok(b.len().min(1)) }
	fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

// ------------------------------------------------------------------ the tasks
const ONE: &str = "<?xml version=\"1.0\"?><!DOCTYPE a><a xmlns=\"u\" xmlns:p=\"v\" k=\"&lt;1&#x26;\"><p:b>x &amp; y</p:b><!-- c --><c p:d='\"'/></a>";
const TWO: &str = "<q:r xmlns:q='w'>\n  <![CDATA[<d>]]>\n  <q:a i=\"1\"><b/></q:a>\n  <q:a i=\"2\">t</q:a>\n</q:r>";
const BAD: &str = "<r>\n<é>\n  <a></b></é></r>";
fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn told(r: Result<Document, KissXmlError>) -> String { match r { Ok(d) => format!("{:?}\n{d}", observe_doc(&d)), Err(e) => format!("{e:?}: {e}") } }
fn seen(e: &Element) -> String { format!("{:?}\n{e}", observe(e)) }
fn doc(s: &str) -> Document { kiss_xml::parse_str(s).expect("MODEL ERROR: task document") }
pub type Task = (&'static str, fn(usize) -> String);
/// `n` is how finely callbacks are sliced
pub const TASKS: [Task; 28] = [
	("read", |n| told(kiss_xml::parse_stream(Pieces::new(ONE, n)))),
	("read another", |n| told(kiss_xml::parse_stream(Pieces::new(TWO, n)))),
	("read malformed text", |n| told(kiss_xml::parse_stream(Pieces::new(BAD, n)))),
	("read from a broken reader", |n| told(kiss_xml::parse_stream({ let mut p = Pieces::new(TWO, n - 1); p.2 = true; p }))),
	("write", |n| { let d = doc(ONE); let len = d.to_string().len(); let mut s = Slow { got: vec![], step: len.div_ceil(n), room: usize::MAX }; let r = d.write_to_file(&mut s); format!("{:?} {}", r.map_err(|e| e.to_string()), String::from_utf8_lossy(&s.got)) }),
	("write to a broken sink", |n| { let d = doc(TWO); let len = d.to_string_with_indent("\t").len(); let mut s = Slow { got: vec![], step: len.div_ceil(n), room: len / 2 }; let r = d.write_to_file_with_indent(&mut s, "\t"); format!("{:?} {}\n{d}", r.map_err(|e| e.to_string()), String::from_utf8_lossy(&s.got)) }),
	("search", |n| { let d = doc(ONE); let mut k = 0; let v: Vec<String> = d.root_element().search(|x| { k += 1; if k <= n { point(); } x.is_element() || x.is_comment() }).map(|x| x.to_string()).collect(); format!("{v:?}") }),
	("search step by step", |n| {
		let d = doc(TWO); let r = d.root_element(); let mut out = vec![]; let mut left = n;
		let mut p = || if left > 0 { left -= 1; point() };
		let (mut a, mut b, mut c) = (r.search_elements(|e| e.name() != "b"), r.search_text(|_| true), r.all_children());
		loop { p(); let x = a.next().map(|e| e.to_string()); let y = b.next().map(|e| e.to_string()); p(); let z = c.next().map(|e| e.to_string()); if x.is_none() && y.is_none() && z.is_none() { break } out.push((x, y, z)); }
		format!("{out:?}")
	}),
	("remove by predicate", |n| { let mut d = doc(ONE); let k = std::cell::Cell::new(0); let r = d.root_element_mut().remove_all(&|x| { k.set(k.get() + 1); if k.get() <= n { point(); } x.is_text() || x.is_comment() }); format!("{r} {d}") }),
	("remove elements", |n| { let mut d = doc(TWO); let k = std::cell::Cell::new(0); let go = |e: &Element| { k.set(k.get() + 1); if k.get() <= n { point(); } e.name() == "b" }; let r = d.root_element_mut().remove_all_elements(go); let s = d.root_element_mut().remove_elements(|e| e.get_attr(Say("i")) == Some(&"2".to_string())); format!("{r} {s} {d}") }),
	("attributes", |_| { let mut d = doc(ONE); let r = d.root_element_mut(); let mut out = vec![format!("{:?}", r.set_attr(Say("k"), Say("<'\">")))]; out.push(format!("{:?}", r.set_attr(Say("1 2"), "v").is_err())); out.push(format!("{:?}", r.remove_attr(Say("p:x")))); out.push(format!("{:?} {}", r.get_attr("k"), seen(r))); out.join("\n") }),
	("construct", |_| match Element::new_with_attributes_and_children("e", HashMap::from([(Say("xmlns:p"), Say("u")), (Say("k"), Say("&"))]), vec![Text::new(Say("<t>")).boxed(), Element::new_from_name("p:x").map(|e| e.boxed()).unwrap_or_else(|_| Text::new("no").boxed())]) { Ok(e) => seen(&e), Err(e) => e.to_string() }),
	("construct in vain", |_| match Element::new_with_attributes("e", HashMap::from([(Say("a b"), Say("u"))])) { Ok(e) => seen(&e), Err(e) => format!("{e} {:?}", Comment::new(Say("a-->b")).map(|c| c.to_string()).map_err(|e| e.to_string())) }),
	("escape", |_| [kiss_xml::text_escape(Say("<&>\"'")), kiss_xml::attribute_escape(Say("<&>\"'")), kiss_xml::escape(Say("<&>\"'")), kiss_xml::unescape(Say("&lt;&#65;&amp;lt;&bogus;"))].join("\n")),
	("parse texts", |_| { let a = kiss_xml::parse_str(Say(ONE)); let b = kiss_xml::parse_str(Say(BAD)); let c = kiss_xml::parse_str(Say(TWO)); [told(a), told(b), told(c)].join("\n") }),
	("edit while iterating", |_| {
		let mut d = doc(TWO);
		for (i, x) in d.root_element_mut().child_elements_mut().enumerate() { point(); x.set_text(Say("new & old")); x.append(Element::new_with_text("z", format!("{i}")).unwrap()); }
		for x in d.root_element_mut().children_mut() { if let Ok(c) = x.as_cdata_mut() { point(); let _ = c.set_text("d2"); } }
		format!("{d}\n{:?}", observe_doc(&d))
	}),
	("leaves", |_| { let mut c = Comment::new(Say(" c ")).unwrap(); let a = c.set_content(Say("-->")).is_err(); let mut d = CData::new(Say("<d>")).unwrap(); let b = d.set_text(Say("]]>")).is_err(); format!("{a} {b} {c} {d} {:?}", DTD::from_string("<!DOCTYPE r [<!ENTITY e 'v'>]>").map(|d| d.to_string()).map_err(|e| e.to_string())) }),
	("queries", |_| {
		let mut d = doc(TWO); let r = d.root_element_mut();
		let a: Vec<String> = r.elements_by_name(Say("a")).map(|e| { e.to_string() }).collect();
		let b = r.first_element_by_name(Say("zz")).map(|e| e.to_string()).map_err(|e| e.to_string());
		let c: Vec<String> = r.search_elements_by_name(Say("b")).map(|e| e.to_string()).collect();
		let n = r.remove_elements_by_name(Say("a"));
		format!("{a:?} {b:?} {c:?} {n} {d}")
	}),
	("clone and compare", |_| {
		let d = doc(ONE); let mut e = d.root_element().clone(); point();
		let same = e == *d.root_element(); let h = hash_of(&e) == hash_of(d.root_element()); point();
		e.insert(1, Text::new("more")).unwrap(); point();
		format!("{same} {h} {} {} {}", e == *d.root_element(), e, d)
	}),
	("build", |_| {
		let mut r = Element::new_with_attributes("r", HashMap::from([("xmlns:p", "u"), ("xmlns", "v")])).unwrap(); point();
		let mut m = Element::new("m", None, None::<HashMap<&str, &str>>, None, Some("p".to_string()), None).unwrap(); m.append(Text::new("a")); point();
		m.append(Text::new("b")); r.append(m); r.append(Element::new_from_name("n").unwrap()); point();
		let d = Document::new(r); format!("{d}\n{:?}", observe_doc(&d))
	}),
	// the same calls with other arguments
	("other attributes", |_| { let mut e = Element::new_from_name("b").unwrap(); let mut out = vec![]; for (k, v) in [("other", "w"), ("xmlns:q", "y"), ("third", "&")] { out.push(format!("{:?}", e.set_attr(Say(k), Say(v)))); } out.push(format!("{:?} {:?} {:?} {:?}", e.remove_attr(Say("third")), e.remove_attr(Say("none")), e.get_attr(Say("other")).cloned(), e.set_attr(Say("<"), Say("x")).map_err(|e| e.to_string()))); out.join("\n") + &seen(&e) }),
	("construct another", |_| match Element::new("f", Some("t".into()), Some(HashMap::from([(Say("xmlns"), Say("i")), (Say("m"), Say("\"")), (Say("xmlns:h"), Say("j"))])), Some("g".into()), Some("n".into()), Some(vec![Comment::new(Say("x")).unwrap().boxed(), CData::new(Say("y")).unwrap().boxed(), Text::new(Say("z")).boxed()])) { Ok(e) => format!("{} {}", seen(&e), match Element::new_with_text("7", Say("t")) { Ok(e) => e.to_string(), Err(e) => e.to_string() }), Err(e) => e.to_string() }),
	("escape another", |_| [kiss_xml::text_escape(Say("é > &amp; longer than the other \u{1F600} <<<<<<")), kiss_xml::attribute_escape(Say("no special characters")), kiss_xml::escape(Say("&&")), kiss_xml::unescape(Say("&#x1F600;&gt;&gt;&#0;&quot;&apos;& &;"))].join("\n")),
	("other leaves", |_| { let mut c = Comment::new(Say("other")).unwrap(); let a = c.set_content(Say("third")).is_err(); let mut d = CData::new(Say("fourth")).unwrap(); let b = d.set_text(Say("fifth")).is_err(); let e = Comment::from("sixth"); format!("{a} {b} {c} {d} {e} {:?} {:?}", Declaration::from_str("<?xml version='1.1'?>").map(|d| d.to_string()).map_err(|e| e.to_string()), DTD::from_string(Say("<!DOCTYPE >>")).map(|d| d.to_string()).map_err(|e| e.to_string())) }),
	("other queries", |_| {
		let mut d = doc(ONE); let r = d.root_element_mut();
		let a: Vec<String> = r.elements_by_name(Say("b")).map(|e| { e.to_string() }).collect();
		let b = r.first_element_by_name_mut(Say("c")).map(|e| e.to_string()).map_err(|e| e.to_string());
		let c: Vec<String> = r.search_elements_by_name(Say("c")).map(|e| e.to_string()).collect();
		let m: Vec<String> = r.elements_by_name_mut(Say("c")).map(|e| { point(); e.name() }).collect();
		let n = r.remove_elements_by_name(Say("b"));
		format!("{a:?} {b:?} {c:?} {m:?} {n} {d}")
	}),
	("edit another", |n| {
		let mut d = doc(ONE); let k = std::cell::Cell::new(0);
		let r = d.root_element_mut().remove_by(&|x| { point(); x.is_comment() }); d.root_element_mut().insert(1, Text::new(Say("in & between"))).unwrap(); point();
		let out: Vec<String> = d.root_element().search_comments(|_| { k.set(k.get() + 1); if k.get() <= n { point(); } true }).map(|c| c.to_string()).collect();
		d.root_element_mut().append_all(vec![Element::new_from_name("p").unwrap().boxed(), Text::new(Say("1")).boxed(), Text::new(Say("2")).boxed()]); point();
		let x = d.root_element_mut().remove(0).map(|x| { point(); x.to_string() }).map_err(|e| e.to_string()); let y = d.root_element_mut().remove_element(7).map(|x| x.to_string()).map_err(|e| e.to_string());
		format!("{r} {out:?} {x:?} {y:?} {d}\n{:?}", observe_doc(&d))
	}),
	("write another", |n| { let d = doc(TWO); let mut out = vec![]; for i in ["", " ", "\t"] { let len = d.to_string_with_indent(Say(i)).len(); let mut s = Slow { got: vec![], step: len.div_ceil(n), room: usize::MAX }; let r = d.write_to_file_with_indent(&mut s, Say(if i.is_empty() { "    " } else { i })); out.push(format!("{:?} {}", r.map_err(|e| e.to_string()), String::from_utf8_lossy(&s.got))); } out.join("\n") }),
	("callbacks that panic", |_| {
		use std::panic::{catch_unwind, AssertUnwindSafe};
		let stop = |f: &mut dyn FnMut()| catch_unwind(AssertUnwindSafe(f)).is_err();
		let mut d = doc(ONE); let k = std::cell::Cell::new(0);
		let at = |m: usize| { point(); k.set(k.get() + 1); if k.get() >= m { panic!("callback") } };
		let mut out = vec![];
		out.push(stop(&mut || { d.root_element_mut().remove_all(&|x| { at(2); x.is_text() }); })); k.set(0);
		out.push(stop(&mut || { d.root_element_mut().remove_elements(|_| { at(2); true }); })); k.set(0);
		out.push(stop(&mut || { d.root_element().search(|_| { at(2); true }).count(); }));
		out.push(stop(&mut || { let _ = kiss_xml::parse_stream(Bomb(2)); }));
		out.push(stop(&mut || { let _ = d.write_to_file(&mut Bomb(1)); }));
		out.push(stop(&mut || { let _ = d.root_element_mut().set_attr("z", Boom); }));
		out.push(stop(&mut || { let _ = kiss_xml::parse_str(Boom); }));
		out.push(stop(&mut || { let _ = kiss_xml::unescape(Boom); }));
		out.push(stop(&mut || { let _ = kiss_xml::escape(Boom); }));
		out.push(stop(&mut || { d.root_element_mut().set_text(Boom); }));
		format!("{out:?} {d}")
	}),
];
pub fn alone(t: usize, n: usize) -> String { with_point(None, || outcome(t, n)) }
pub fn outcome(t: usize, n: usize) -> String {
	match std::panic::catch_unwind(|| TASKS[t].1(n)) { Ok(s) => s, Err(p) => format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) }
}

