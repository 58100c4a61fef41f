//! An independent three-valued recogniser for the supported XML subset. `Doc`: well-formed and in the
//! subset, with the tree it denotes; `Bad`: not well-formed in one of the ways the crate promises to
//! reject; `Unspec`: uses something the properties say nothing about (processing instructions, colons in
//! odd places, unbound prefixes, raw `<` in attribute values, `]]>` in text, characters XML forbids, ...).
use crate::model::*;
use std::collections::BTreeMap;

#[derive(Debug)]
pub enum R { Doc(Doc), Bad(&'static str), Unspec(&'static str) }

pub fn name_start(c: char) -> bool {
	matches!(c as u32, 0x41..=0x5A | 0x5F | 0x61..=0x7A | 0xC0..=0xD6 | 0xD8..=0xF6 | 0xF8..=0x2FF | 0x370..=0x37D | 0x37F..=0x1FFF
		| 0x200C..=0x200D | 0x2070..=0x218F | 0x2C00..=0x2FEF | 0x3001..=0xD7FF | 0xF900..=0xFDCF | 0xFDF0..=0xFFFD | 0x10000..=0xEFFFF)
}
pub fn name_char(c: char) -> bool {
	name_start(c) || matches!(c as u32, 0x2D | 0x2E | 0x30..=0x39 | 0xB7 | 0x300..=0x36F | 0x203F..=0x2040)
}
/// a name without colon
pub fn is_ncname(s: &str) -> bool { s.chars().next().map(name_start).unwrap_or(false) && s.chars().all(name_char) }
pub fn xml_char(c: char) -> bool { matches!(c as u32, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF) }

enum Stop { Bad(&'static str), Unspec(&'static str) }
use Stop::*;
type Res<T> = Result<T, Stop>;

/// `gap`: where the text before the current item starts, `item`: where the item itself starts;
/// `strict`: what every XML processor refuses is refused (bare ampersands, `--` in comments)
struct P<'a> { s: &'a str, i: usize, gap: usize, item: usize, odd: bool, strict: bool }
impl<'a> P<'a> {
	fn new(s: &'a str, strict: bool) -> Self { P { s, i: 0, gap: 0, item: 0, odd: false, strict } }
	fn rest(&self) -> &'a str { &self.s[self.i..] }
	fn peek(&self) -> Option<char> { self.rest().chars().next() }
	fn at(&self, p: &str) -> bool { self.rest().starts_with(p) }
	fn ws(&mut self) -> bool { let a = self.i; while self.peek().map(is_ws).unwrap_or(false) { self.i += 1 } self.i > a }
	fn until(&mut self, from: usize, p: &str) -> Option<&'a str> {
		let start = self.i + from;
		let k = self.s[start..].find(p)?;
		self.i = start + k + p.len();
		Some(&self.s[start..start + k])
	}
	/// a possibly prefixed name
	fn name(&mut self) -> Res<(String, String)> {
		match self.peek() { Some(c) if name_start(c) => {}, Some(':') => return Err(Unspec("colon")), _ => return Err(Bad("name expected")) }
		let a = self.i;
		while let Some(c) = self.peek() { if name_char(c) || c == ':' { self.i += c.len_utf8() } else { break } }
		let n = &self.s[a..self.i];
		match n.split_once(':') {
			None => Ok((String::new(), n.to_string())),
			Some((p, l)) => if is_ncname(l) { Ok((p.to_string(), l.to_string())) } else { Err(Unspec("colon")) },
		}
	}
	fn comment(&mut self) -> Res<&'a str> {
		let c = self.until(4, "-->").ok_or(Bad("unterminated comment"))?;
		if self.strict && (c.contains("--") || c.ends_with('-')) { return Err(Bad("-- in a comment")) }
		Ok(c)
	}
	fn decl(&mut self) -> Res<String> {
		let a = self.i;
		self.until(2, "?>").ok_or(Bad("unterminated declaration"))?;
		let d = &self.s[a..self.i];
		// version, optional encoding and standalone, in this order, quoted either way
		let mut p = P::new(&d[5..d.len() - 2], false);
		let mut seen = 0;
		while !p.rest().is_empty() {
			let w = p.ws();
			if p.rest().is_empty() { break }
			if !w { return Err(Unspec("odd declaration")) }
			let Ok((_, n)) = p.name() else { return Err(Unspec("odd declaration")) };
			let k = match n.as_str() { "version" => 1, "encoding" => 2, "standalone" => 3, _ => return Err(Unspec("odd declaration")) };
			if (seen == 0) != (k == 1) || k <= seen { return Err(Unspec("odd declaration")) }
			seen = k;
			p.ws(); if !p.at("=") { return Err(Unspec("odd declaration")) } p.i += 1; p.ws();
			let q = if p.at("\"") { "\"" } else if p.at("'") { "'" } else { return Err(Unspec("odd declaration")) };
			match p.until(1, q) { Some(v) if v.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c)) => {}, _ => return Err(Unspec("odd declaration")) }
		}
		if seen == 0 { return Err(Unspec("odd declaration")) }
		Ok(d.to_string())
	}
	fn doctype(&mut self) -> Res<String> {
		let a = self.i;
		self.i += 9;
		let mut depth = 0;
		let head = self.i;
		loop {
			if self.at("<?") { return Err(Unspec("processing instruction")) }
			if self.at("<!--") { self.comment().map_err(|_| Bad("unterminated DTD"))?; continue; }
			match self.peek() {
				None => return Err(Bad("unterminated DTD")),
				Some(q @ ('"' | '\'')) => { let q = q.to_string(); self.until(1, &q).ok_or(Bad("unterminated DTD"))?; continue; }
				Some('<') => depth += 1,
				Some('>') => { if depth == 0 { self.i += 1; break } depth -= 1 }
				_ => {}
			}
			self.i += self.peek().unwrap().len_utf8();
		}
		let mut p = P::new(&self.s[head..self.i - 1], false);
		if !p.ws() || p.name().is_err() { return Err(Unspec("odd DTD")) }
		Ok(self.s[a..self.i].to_string())
	}
	/// start tag; returns the element and whether it is self-closing
	fn start_tag(&mut self) -> Res<(El, bool)> {
		self.i += 1;
		let (prefix, name) = self.name()?;
		let mut e = El { prefix, name, ..Default::default() };
		let mut later: Option<Stop> = None;
		loop {
			let w = self.ws();
			if self.at(">") { self.i += 1; return later.map(Err).unwrap_or(Ok((e, false))); }
			if self.at("/>") { self.i += 2; return later.map(Err).unwrap_or(Ok((e, true))); }
			if self.rest().is_empty() { return Err(Bad("unterminated tag")) }
			if !w { return Err(Bad("junk in tag")) }
			let (p, n) = self.name()?;
			self.ws();
			if !self.at("=") { return Err(Bad("attribute without value")) }
			self.i += 1; self.ws();
			let q = if self.at("\"") { "\"" } else if self.at("'") { "'" } else { return Err(Bad("unquoted attribute")) };
			let raw = self.until(1, q).ok_or(Bad("unterminated attribute"))?;
			if raw.contains('<') { later = later.or(Some(Unspec("< in attribute"))); }
			let v = decode(raw, self.strict)?;
			let key = if p.is_empty() { n.clone() } else { format!("{p}:{n}") };
			if p == "xmlns" && (v.is_empty() || n == "xml" || n == "xmlns") { later = later.or(Some(Unspec("odd declaration attribute"))); }
			if e.attrs.insert(key, v).is_some() { return Err(Bad("duplicate attribute")) }
		}
	}
}
pub fn decode_pub(s: &str) -> Option<String> { decode(s, false).ok() }
/// replace every reference exactly once
fn decode(s: &str, strict: bool) -> Res<String> {
	let mut o = String::with_capacity(s.len());
	let mut r = s;
	'next: while let Some(c) = r.chars().next() {
		if c == '&' {
			for (k, v) in [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&apos;", '\''), ("&quot;", '"')] {
				if let Some(x) = r.strip_prefix(k) { o.push(v); r = x; continue 'next; }
			}
			if let Some(b) = r.strip_prefix("&#") {
				if let Some(k) = b.find(';') {
					let d = &b[..k];
					let cp = if let Some(h) = d.strip_prefix('x') {
						if !h.is_empty() && h.bytes().all(|c| c.is_ascii_hexdigit()) { Some(fold(h, 16)) } else { None }
					} else if !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit()) { Some(fold(d, 10)) }
					else if !d.is_empty() && d.bytes().all(|c| c.is_ascii_hexdigit()) { return Err(Unspec("hex digits without x")) }
					else { None };
					if let Some(ch) = cp.and_then(|x| char::from_u32(x)) {
						if !xml_char(ch) { return Err(Unspec("reference to a non-XML character")) }
						o.push(ch); r = &b[k + 1..]; continue 'next;
					}
				}
			}
		}
		if c == '&' && strict { return Err(Bad("ampersand without reference")) }
		o.push(c); r = &r[c.len_utf8()..];
	}
	Ok(o)
}
fn fold(d: &str, radix: u64) -> u32 { d.chars().fold(0u64, |a, c| (a * radix + c.to_digit(radix as u32).unwrap() as u64).min(1 << 40)).min(u32::MAX as u64) as u32 }

fn unbound(e: &El, scope: &[&El]) -> bool {
	let bound = |p: &str| p.is_empty() || scope.iter().any(|x| x.attrs.contains_key(&format!("xmlns:{p}")));
	if e.prefix == "xml" || e.prefix == "xmlns" || !bound(&e.prefix) { return true }
	for k in e.attrs.keys() { if let Some((p, _)) = k.split_once(':') { if p != "xmlns" && p != "xml" && !bound(p) { return true } } }
	false
}

fn verdict(r: Res<Doc>) -> R { match r { Ok(d) => R::Doc(d), Err(Bad(m)) => R::Bad(m), Err(Unspec(m)) => R::Unspec(m) } }
pub fn recognise(s: &str) -> R { verdict(run(&mut P::new(s, false))) }
/// as any XML processor sees it
pub fn recognise_strict(s: &str) -> R { verdict(run(&mut P::new(s, true))) }
/// a malformed text: what is wrong, and where the offending item begins: the start of the text before it and
/// its own start. None: not malformed, or something unspecified comes before.
pub fn where_bad(s: &str) -> Option<(&'static str, usize, usize)> {
	let mut p = P::new(s, false);
	match run(&mut p) { Err(Bad(m)) if !p.odd => Some((m, p.gap, p.item)), _ => None }
}
fn run(p: &mut P) -> Res<Doc> {
	let s = p.s;
	if s.starts_with('\u{feff}') { return Err(Unspec("byte order mark")) }
	if s.chars().any(|c| !xml_char(c)) { return Err(Unspec("non-XML character")) }
	let mut decl = None;
	let mut dtds = vec![];
	let mut first = true;
	// prolog
	let (root, selfclosed) = loop {
		p.gap = p.i;
		p.ws();
		p.item = p.i;
		if p.rest().is_empty() { return Err(Bad("no root")) }
		if !p.at("<") { return Err(Bad("text outside the root")) }
		if p.at("<?") {
			if !first || !p.at("<?xml") || !p.s[p.i + 5..].starts_with(|c| is_ws(c) || c == '?') { return Err(Unspec("processing instruction")) }
			if p.i != 0 { return Err(Unspec("space before declaration")) }
			decl = Some(p.decl()?);
		} else if p.at("<!--") { p.comment()?; }
		else if p.at("<!DOCTYPE") { dtds.push(p.doctype()?); }
		else if p.at("<!") { return Err(Unspec("other markup declaration in prolog")) }
		else if p.at("</") { return Err(Bad("closing tag first")) }
		else { break p.start_tag()? }
		first = false;
	};
	let mut odd: Option<Stop> = if unbound(&root, &[&root]) { Some(Unspec("prefix")) } else { None };
	// content
	let mut stack: Vec<El> = vec![root];
	let mut done: Option<El> = None;
	if selfclosed { done = stack.pop(); }
	while done.is_none() {
		p.odd |= odd.is_some();
		p.gap = p.i;
		p.item = p.s.len();
		let n = p.rest().find('<').ok_or(Bad("unclosed element"))?;
		let raw = &p.rest()[..n];
		if raw.contains("]]>") { odd = odd.or(Some(Unspec("]]> in text"))); }
		let txt = match decode(raw, p.strict) { Ok(x) => x, Err(e) => { odd = odd.or(Some(e)); String::new() } };
		p.odd |= odd.is_some();
		if !txt.is_empty() { stack.last_mut().unwrap().kids.push(M::T(txt)); }
		p.i += n;
		p.item = p.i;
		if p.at("<!--") { let c = p.comment()?.to_string(); stack.last_mut().unwrap().kids.push(M::C(c)); }
		else if p.at("<![CDATA[") { let c = p.until(9, "]]>").ok_or(Bad("unterminated CDATA"))?.to_string(); stack.last_mut().unwrap().kids.push(M::D(c)); }
		else if p.at("<!") { return Err(Bad("markup declaration in content")) }
		else if p.at("<?") { return Err(Unspec("processing instruction")) }
		else if p.at("</") {
			p.i += 2;
			let (pre, name) = p.name()?;
			p.ws();
			if !p.at(">") { return Err(Bad("malformed closing tag")) }
			p.i += 1;
			let e = stack.pop().unwrap();
			if e.prefix != pre || e.name != name { return Err(Bad("mismatched closing tag")) }
			match stack.last_mut() { None => done = Some(e), Some(up) => up.kids.push(M::E(e)) }
		} else {
			let (e, sc) = p.start_tag()?;
			{ let mut sc: Vec<&El> = stack.iter().collect(); sc.push(&e); if unbound(&e, &sc) { odd = odd.or(Some(Unspec("prefix"))); } }
			if sc { stack.last_mut().unwrap().kids.push(M::E(e)) } else { stack.push(e) }
		}
	}
	// epilog
	p.odd |= odd.is_some();
	loop {
		p.gap = p.i;
		p.ws();
		p.item = p.i;
		if p.rest().is_empty() { break }
		if p.at("<!--") { p.comment()?; continue; }
		if p.at("<?") { return Err(Unspec("processing instruction")) }
		return Err(Bad("content after the root"));
	}
	if let Some(o) = odd { return Err(o) }
	let mut root = done.unwrap();
	normalize(&mut root);
	annotate(&mut root, &BTreeMap::new());
	Ok(Doc { decl, dtds, root })
}
