//! The reference model of a document: plain trees, XML namespace scoping, the text normalisation rule,
//! the canonical printer, a source renderer with spelling choices, and the bridge to the real objects
//! (build: model -> kiss_xml, observe: kiss_xml -> model, through the public API only).
use kiss_xml::dom::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum M { E(El), T(String), C(String), D(String) }
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Default)]
pub struct El { pub prefix: String, pub name: String, pub ns: Option<String>, pub attrs: BTreeMap<String, String>, pub kids: Vec<M> }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Doc { pub decl: Option<String>, pub dtds: Vec<String>, pub root: El }

pub fn el(name: &str, kids: Vec<M>) -> El { El { name: name.into(), kids, ..Default::default() } }
pub fn ela(name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> El {
	El { name: name.into(), attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), kids, ..Default::default() }
}
pub fn t(s: &str) -> M { M::T(s.into()) }
impl El {
	pub fn tag(&self) -> String { if self.prefix.is_empty() { self.name.clone() } else { format!("{}:{}", self.prefix, self.name) } }
	pub fn els(&self) -> impl Iterator<Item = &El> { self.kids.iter().filter_map(|k| if let M::E(e) = k { Some(e) } else { None }) }
	pub fn count(&self) -> usize { 1 + self.kids.iter().map(|k| if let M::E(e) = k { e.count() } else { 1 }).sum::<usize>() }
	pub fn text(&self) -> String {
		let mut s = String::new();
		for k in &self.kids { match k { M::T(x) => s.push_str(x), M::E(e) => s.push_str(&e.text()), _ => {} } }
		s
	}
	/// all nodes strictly below, in document order
	pub fn below<'a>(&'a self, out: &mut Vec<&'a M>) {
		for k in &self.kids { out.push(k); if let M::E(e) = k { e.below(out) } }
	}
}
impl M {
	pub fn kind(&self) -> u8 { match self { M::E(_) => 0, M::T(_) => 1, M::C(_) => 2, M::D(_) => 3 } }
}

// ---------------------------------------------------------------- namespaces
pub type Scope = BTreeMap<String, String>;
/// assign every element the namespace its prefix is bound to by the nearest declaration
pub fn annotate(e: &mut El, scope: &Scope) {
	let mut own = None;
	if e.attrs.keys().any(|k| k == "xmlns" || k.starts_with("xmlns:")) {
		let mut s = scope.clone();
		for (k, v) in &e.attrs {
			if k == "xmlns" { s.insert(String::new(), v.clone()); }
			else if let Some(p) = k.strip_prefix("xmlns:") { s.insert(p.to_string(), v.clone()); }
		}
		own = Some(s);
	}
	let sc = own.as_ref().unwrap_or(scope);
	e.ns = sc.get(&e.prefix).filter(|u| !u.is_empty()).cloned();
	for k in &mut e.kids { if let M::E(c) = k { annotate(c, sc) } }
}
pub fn annotated(mut e: El) -> El { annotate(&mut e, &Scope::new()); e }
pub fn own_prefixes(e: &El) -> BTreeMap<String, String> {
	e.attrs.iter().filter_map(|(k, v)| k.strip_prefix("xmlns:").map(|p| (p.to_string(), v.clone()))).collect()
}

// ---------------------------------------------------------------- text normalisation
pub fn is_ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\r' | '\n') }
pub fn blank(s: &str) -> bool { s.chars().all(is_ws) }
/// adjacent text joined, empty text dropped, blank text kept only next to real text
pub fn norm_kids(kids: &mut Vec<M>) {
	let mut out: Vec<M> = Vec::with_capacity(kids.len());
	for k in kids.drain(..) {
		match (out.last_mut(), k) {
			(Some(M::T(a)), M::T(b)) => a.push_str(&b),
			(_, k) => out.push(k),
		}
	}
	let real = out.iter().any(|k| matches!(k, M::T(s) if !blank(s)));
	out.retain(|k| match k { M::T(s) => !s.is_empty() && (real || !blank(s)), _ => true });
	*kids = out;
}
pub fn normalize(e: &mut El) {
	norm_kids(&mut e.kids);
	for k in &mut e.kids { if let M::E(c) = k { normalize(c) } }
}
pub fn normalized(mut e: El) -> El { normalize(&mut e); e }

// ---------------------------------------------------------------- canonical printer
pub fn esc_text(s: &str) -> String {
	let mut o = String::with_capacity(s.len());
	for c in s.chars() { match c { '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), c => o.push(c) } }
	o
}
pub fn esc_full(s: &str) -> String {
	let mut o = String::with_capacity(s.len());
	for c in s.chars() { match c { '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), '\'' => o.push_str("&apos;"), '"' => o.push_str("&quot;"), c => o.push(c) } }
	o
}
pub fn leaf(k: &M) -> String {
	match k { M::T(s) => esc_text(s), M::C(s) => format!("<!--{s}-->"), M::D(s) => format!("<![CDATA[{s}]]>"), M::E(_) => unreachable!() }
}
fn open_tag(e: &El, o: &mut String) {
	o.push('<'); o.push_str(&e.tag());
	let (x, y): (Vec<_>, Vec<_>) = e.attrs.iter().partition(|(k, _)| k.starts_with("xmlns"));
	for (k, v) in x.into_iter().chain(y) { o.push_str(&format!(" {k}=\"{}\"", esc_full(v))); }
}
fn print_el(e: &El, indent: &str, depth: usize, inline: bool, o: &mut String) {
	let pad = |o: &mut String, d: usize| for _ in 0..d { o.push_str(indent) };
	if !inline { pad(o, depth) }
	open_tag(e, o);
	if e.kids.is_empty() { o.push_str("/>"); return; }
	o.push('>');
	if e.kids.len() == 1 && !matches!(e.kids[0], M::E(_)) {
		o.push_str(&leaf(&e.kids[0]));
	} else {
		let inl = inline || e.kids.iter().any(|k| matches!(k, M::T(_)));
		if !inl { o.push('\n') }
		for k in &e.kids {
			match k {
				M::E(c) => print_el(c, indent, depth + 1, inl, o),
				k => { if !inl { pad(o, depth + 1) } o.push_str(&leaf(k)); }
			}
			if !inl { o.push('\n') }
		}
		if !inl { pad(o, depth) }
	}
	o.push_str("</"); o.push_str(&e.tag()); o.push('>');
}
pub fn print(e: &El, indent: &str) -> String { let mut o = String::new(); print_el(e, indent, 0, false, &mut o); o }
pub fn print_doc(d: &Doc, indent: &str) -> String {
	let mut o = String::new();
	if let Some(x) = &d.decl { o.push_str(x); o.push('\n'); }
	for x in &d.dtds { o.push_str(x); o.push('\n'); }
	o.push_str(&print(&d.root, indent)); o.push('\n');
	o
}

// ---------------------------------------------------------------- source renderer (spelling choices)
#[derive(Clone, Copy, Debug)]
pub struct Style {
	pub quote: u8,    // 0: ", 1: ', 2: alternate
	pub eq: u8,       // whitespace around =
	pub gap: u8,      // whitespace between attributes
	pub tail: u8,     // whitespace before > and />
	pub pair: bool,   // empty element as open/close pair
	pub esc: u8,      // 0 canonical, 1 decimal references, 2 hex references, 3 minimal
	pub order: u8,    // attribute order rotation
	pub layout: u8,   // 0 none, 1.. whitespace between the children of element-only elements
}
pub const PLAIN: Style = Style { quote: 0, eq: 0, gap: 0, tail: 0, pair: false, esc: 0, order: 0, layout: 0 };
pub const EQS: [&str; 6] = ["=", " =", "= ", " = ", "\n=\t", "\r\n= "];
pub const GAPS: [&str; 5] = [" ", "  ", "\n", "\t", " \r\n\t "];
pub const TAILS: [&str; 5] = ["", " ", "\n", "\t\t", "\r\n "];
pub const LAYOUTS: [&str; 5] = ["", "\n", " ", "\n\t\t", "\r\n  "];
pub fn style(mut i: u64) -> Style {
	let mut take = |n: u64| { let r = i % n; i /= n; r as u8 };
	Style { quote: take(3), eq: take(6), gap: take(5), tail: take(5), pair: take(2) == 1, esc: take(4), order: take(3), layout: take(5) }
}
pub const STYLES: u64 = 3 * 6 * 5 * 5 * 2 * 4 * 3 * 5;
fn render_chars(s: &str, st: &Style, q: Option<char>, o: &mut String) {
	for c in s.chars() {
		let special = match c { '&' | '<' => true, '>' => q.is_none() || st.esc != 3, '"' | '\'' => q == Some(c) || (q.is_some() && st.esc == 0), _ => false };
		if !special { o.push(c); continue; }
		match st.esc {
			1 => o.push_str(&format!("&#{};", c as u32)),
			2 => o.push_str(&format!("&#x{:x};", c as u32)),
			_ => o.push_str(match c { '&' => "&amp;", '<' => "&lt;", '>' => "&gt;", '"' => "&quot;", _ => "&apos;" }),
		}
	}
}
pub fn render(e: &El, st: &Style, depth: usize, o: &mut String) {
	o.push('<'); o.push_str(&e.tag());
	let mut at: Vec<_> = e.attrs.iter().collect();
	match st.order { 1 => at.reverse(), 2 => { let n = at.len(); if n > 0 { at.rotate_left(1 % n) } } _ => {} }
	for (i, (k, v)) in at.into_iter().enumerate() {
		o.push_str(GAPS[st.gap as usize]);
		o.push_str(k); o.push_str(EQS[st.eq as usize]);
		let q = match st.quote { 0 => '"', 1 => '\'', _ => if (i + depth) % 2 == 0 { '\'' } else { '"' } };
		o.push(q); render_chars(v, st, Some(q), o); o.push(q);
	}
	o.push_str(TAILS[st.tail as usize]);
	if e.kids.is_empty() && !st.pair { o.push_str("/>"); return; }
	o.push('>');
	let mixed = e.kids.iter().any(|k| matches!(k, M::T(_)));
	let lay = if mixed { "" } else { LAYOUTS[st.layout as usize] };
	for k in &e.kids {
		o.push_str(lay);
		match k { M::E(c) => render(c, st, depth + 1, o), M::T(s) => render_chars(s, st, None, o), k => o.push_str(&leaf(k)) }
	}
	o.push_str(lay);
	o.push_str("</"); o.push_str(&e.tag()); o.push_str(TAILS[st.tail as usize]); o.push('>');
}
pub fn rendered(e: &El, st: &Style) -> String { let mut o = String::new(); render(e, st, 0, &mut o); o }

// ---------------------------------------------------------------- bridge
pub fn observe_node(n: &Box<dyn Node>) -> M {
	match n.node_type() {
		DomNodeType::ElementNode => M::E(observe(n.as_element().expect("cast to element"))),
		DomNodeType::TextNode => M::T(n.as_text().expect("cast to text").content.clone()),
		DomNodeType::CommentNode => M::C(n.as_comment().expect("cast to comment").get_content().to_string()),
		DomNodeType::CDataNode => M::D(n.as_cdata().expect("cast to cdata").get_content().to_string()),
	}
}
pub fn observe(e: &Element) -> El {
	El {
		prefix: e.namespace_prefix().unwrap_or_default(), name: e.name(), ns: e.namespace(),
		attrs: e.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
		kids: e.children().map(observe_node).collect(),
	}
}
pub fn observe_doc(d: &Document) -> Doc {
	Doc { decl: d.declaration().as_ref().map(|x| x.to_string()), dtds: d.doctype_defs().map(|x| x.to_string()).collect(), root: observe(d.root_element()) }
}
/// build through the constructors (Element::new), attributes in map form, children appended by the constructor
pub fn build(e: &El) -> Element {
	let attrs: HashMap<String, String> = e.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
	let kids: Vec<Box<dyn Node>> = e.kids.iter().map(build_node).collect();
	Element::new(e.name.as_str(), None, Some(attrs), None, if e.prefix.is_empty() { None } else { Some(e.prefix.clone()) }, Some(kids)).expect("constructor refused a valid element")
}
pub fn build_node(m: &M) -> Box<dyn Node> {
	match m {
		M::E(e) => build(e).boxed(),
		M::T(s) => Text::new(s.as_str()).boxed(),
		M::C(s) => Comment::new(s.as_str()).expect("comment refused").boxed(),
		M::D(s) => CData::new(s.as_str()).expect("cdata refused").boxed(),
	}
}
/// build top-down: parent first, then append children one by one, and attributes by set_attr.
/// (a different route through the API to the same tree; blank text is only kept if real text came before,
/// so callers compare against the observed tree, or use it without blank text)
pub fn build_incremental(e: &El) -> Element {
	let mut x = if e.prefix.is_empty() { Element::new_from_name(&e.name).expect("name") } else {
		Element::new(e.name.as_str(), None, None::<HashMap<String, String>>, None, Some(e.prefix.clone()), None).expect("name")
	};
	for (k, v) in &e.attrs { x.set_attr(k.as_str(), v.as_str()).expect("set_attr"); }
	for k in &e.kids {
		match k {
			M::E(c) => x.append(build_incremental(c)),
			M::T(s) => x.append(Text::new(s.as_str())),
			M::C(s) => x.append(Comment::new(s.as_str()).unwrap()),
			M::D(s) => x.append(CData::new(s.as_str()).unwrap()),
		}
	}
	x
}
/// build a tree with its texts exactly as given: neighbouring, blank and empty texts, as edits leave them
/// (texts are placed apart, set in place, and what separates them is removed). None: they do not stay so.
pub fn build_raw(e: &El) -> Option<Element> { let x = build_raw_any(e); if observe(&x).without_ns() == e.without_ns() { Some(x) } else { None } }
pub fn build_raw_any(e: &El) -> Element { let mut x = bare(e); fill_raw(&mut x, e); x }
fn bare(e: &El) -> Element { build(&El { kids: vec![], ..e.clone() }) }
fn fill_raw(x: &mut Element, e: &El) {
	// element children come with their own content; separators are comments between neighbouring texts
	let mut seps = vec![]; let mut kids: Vec<Box<dyn Node>> = vec![];
	for k in &e.kids {
		if let (M::T(_), Some(true)) = (k, kids.last().map(|n| n.is_text())) { seps.push(kids.len()); kids.push(Comment::new("separator").unwrap().boxed()); }
		kids.push(match k { M::T(_) => Text::new("placeholder").boxed(), M::E(c) => { let mut y = bare(c); fill_raw(&mut y, c); y.boxed() } k => build_node(k) });
	}
	if !kids.is_empty() { x.append_all(kids); }
	for s in seps.into_iter().rev() { let _ = x.remove(s); }
	let texts: Vec<&String> = e.kids.iter().filter_map(|k| if let M::T(s) = k { Some(s) } else { None }).collect();
	for (n, s) in x.children_mut().filter(|n| n.is_text()).zip(texts) { if let Ok(n) = n.as_text_mut() { n.content = s.clone(); } }
}
impl El { pub fn without_ns(&self) -> El { let mut e = self.clone(); strip_el(&mut e); e } }
pub fn parse(s: &str) -> Result<Document, kiss_xml::errors::KissXmlError> { kiss_xml::parse_str(s) }

// ---------------------------------------------------------------- shapes: all ordered forests by node count
/// all ordered forests with exactly n nodes; inner nodes are given by their child forests
#[derive(Clone, Debug)]
pub struct Shape(pub Vec<Shape>);
pub fn forests(n: usize) -> Vec<Vec<Shape>> {
	if n == 0 { return vec![vec![]]; }
	let mut out = vec![];
	for first in 1..=n {
		let heads = forests(first - 1); let tails = forests(n - first);
		for h in &heads { for tl in &tails {
			let mut v = vec![Shape(h.clone())]; v.extend(tl.iter().cloned()); out.push(v);
		} }
	}
	out
}
/// all models with exactly `n` nodes below the root where leaves range over `leaf_n` variants and inner
/// elements over `inner_n` variants. `mk_leaf(variant, serial)`, `mk_inner(variant, serial, kids)`.
pub struct Forest { shape: Vec<Shape>, pub count: u64 }
pub struct ForestSpace { items: Vec<Forest>, pub total: u64, leaf_n: u64, inner_n: u64 }
fn shape_count(s: &[Shape], l: u64, i: u64) -> u64 { s.iter().map(|x| if x.0.is_empty() { l } else { i * shape_count(&x.0, l, i) }).product() }
impl ForestSpace {
	/// all forests with lo..=hi nodes
	pub fn new(lo: usize, hi: usize, leaf_n: usize, inner_n: usize) -> Self {
		let mut items = vec![]; let mut total = 0;
		for n in lo..=hi { for f in forests(n) {
			let c = shape_count(&f, leaf_n as u64, inner_n as u64);
			total += c; items.push(Forest { shape: f, count: c });
		} }
		ForestSpace { items, total, leaf_n: leaf_n as u64, inner_n: inner_n as u64 }
	}
	pub fn get(&self, mut i: u64, leaf: &dyn Fn(usize, usize) -> M, inner: &dyn Fn(usize, usize, Vec<M>) -> M) -> Vec<M> {
		for f in &self.items {
			if i < f.count {
				let mut serial = 0;
				return Self::fill(&f.shape, &mut i, self.leaf_n, self.inner_n, &mut serial, leaf, inner);
			}
			i -= f.count;
		}
		unreachable!()
	}
	fn fill(s: &[Shape], i: &mut u64, ln: u64, inn: u64, serial: &mut usize, leaf: &dyn Fn(usize, usize) -> M, inner: &dyn Fn(usize, usize, Vec<M>) -> M) -> Vec<M> {
		s.iter().map(|x| {
			let id = *serial; *serial += 1;
			if x.0.is_empty() { let v = (*i % ln) as usize; *i /= ln; leaf(v, id) }
			else { let v = (*i % inn) as usize; *i /= inn; let kids = Self::fill(&x.0, i, ln, inn, serial, leaf, inner); inner(v, id, kids) }
		}).collect()
	}
}
/// removed nodes are compared without namespaces: what those of a detached node are is not specified
pub fn strip_ns(m: &mut M) { if let M::E(e) = m { strip_el(e) } }
pub fn strip_el(e: &mut El) { e.ns = None; for k in &mut e.kids { strip_ns(k) } }
