import re
R='/tmp/refac/repo/src/'
def sub(f, pairs):
    s=open(R+f).read()
    for a,b in pairs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(R+f,'w').write(s)
def cut(f, start, end, new):
    s=open(R+f).read()
    assert s.count(start)==1,(start,s.count(start))
    i=s.index(start); j=s.index(end,i)
    s=s[:i]+new+s[j:]
    open(R+f,'w').write(s)
# ---- lib.rs
sub('lib.rs',[('''	let buffer: String = text.into();
	buffer.replace("&", "&amp;")
		.replace("<", "&lt;")
		.replace(">", "&gt;")
}''','''	escape_with(text.into(), false)
}
fn escape_with(text: String, quotes: bool) -> String {
	let mut out = String::with_capacity(text.len());
	for c in text.chars() {
		match c {
			'&' => out.push_str("&amp;"),
			'<' => out.push_str("&lt;"),
			'>' => out.push_str("&gt;"),
			'\\'' if quotes => out.push_str("&apos;"),
			'"' if quotes => out.push_str("&quot;"),
			other => out.push(other)
		}
	}
	out
}'''),('''	let buffer: String = text.into();
	buffer.replace("&", "&amp;")
		.replace("<", "&lt;")
		.replace(">", "&gt;")
		.replace("'", "&apos;")
		.replace("\\"", "&quot;")
}''','''	escape_with(text.into(), true)
}'''),
('''	let content = fs::read_to_string(path_ref)?;
	parse_str(content)''','''	let mut file = fs::File::open(path_ref)?;
	let mut content = String::new();
	file.read_to_string(&mut content)?;
	parse_str(content)'''),
('''	let mut buffer = String::new();
	reader.read_to_string(&mut buffer)?;
	parse_str(buffer)''','''	let mut bytes: Vec<u8> = Vec::with_capacity(1024);
	reader.read_to_end(&mut bytes)?;
	let text = String::from_utf8(bytes).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;
	parse_str(text)'''),
])
cut('lib.rs','pub fn unescape(text','/// decodes the digits','''pub fn unescape(text: impl Into<String>) -> String {
	let text: String = text.into();
	let mut out = String::with_capacity(text.len());
	let mut rest = text.as_str();
	while let Some(at) = rest.find('&') {
		out.push_str(&rest[..at]);
		rest = &rest[at..];
		let replacement = match rest.find(';') {
			None => break,
			Some(end) => (end, match &rest[1..end] {
				"amp" => Some('&'),
				"lt" => Some('<'),
				"gt" => Some('>'),
				"apos" => Some('\\''),
				"quot" => Some('"'),
				other => other.strip_prefix('#').and_then(decode_char_ref)
			})
		};
		match replacement {
			(end, Some(c)) => {out.push(c); rest = &rest[end + 1..];}
			(_, None) => {out.push('&'); rest = &rest[1..];}
		}
	}
	out.push_str(rest);
	out
}

''')
cut('lib.rs','/// replaces indices (a, b)','/** Reads the file','')
cut('lib.rs','	let a = kv_tup1.0.as_str();','/** Reads the file','''	let key = |kv: &(&String, &String)| (!kv.0.starts_with("xmlns"), kv.0.clone(), kv.1.clone());
	key(kv_tup1).cmp(&key(kv_tup2))
}

''')
cut('lib.rs','/// finds next <> enclosed thing','/// only these characters','''/// finds next <> enclosed thing (or None if EoF is reached)
fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
	let start = match buffer[from..].find('<') {
		None => return (None, None),
		Some(i) => i + from
	};
	let sub = &buffer[start..];
	let length = if let Some(body) = sub.strip_prefix("<!--") {
		body.find("-->").map(|i| i + 7)
	} else if sub.starts_with("<?") {
		quote_aware_find(sub, "?>", 2).map(|i| i + 2)
	} else if sub.starts_with("<![CDATA[") {
		sub.find("]]>").map(|i| i + 3)
	} else if sub.starts_with("<!") {
		nested_quote_aware_find_close(sub, 2).map(|i| i + 1)
	} else {
		quote_aware_find(sub, ">", 1).map(|i| i + 1)
	};
	(Some(start), length.map(|n| start + n))
}

''')
cut('lib.rs','/// like `String.find()` but','/// like `quote_aware_find()`','''/// like `String.find()` but skipping quoted content
fn quote_aware_find(text: &str, pattern: &str, from: usize) -> Option<usize> {
	let bytes = text.as_bytes();
	let mut quote: Option<u8> = None;
	let mut i = from;
	while i < bytes.len() {
		let b = bytes[i];
		match quote {
			Some(q) => if b == q {quote = None;},
			None => if b == b'"' || b == b'\\'' {quote = Some(b);}
				else if bytes[i..].starts_with(pattern.as_bytes()) {return Some(i);}
		}
		i += 1;
	}
	None
}

''')
cut('lib.rs','	// check for empty string\n','	// extract actual text','''	if text.chars().all(is_xml_whitespace) {
		return None;
	}
''')
cut('lib.rs','/// singleton regex matcher\nconst IS_BLANK','/// extracts the actual','')
cut('lib.rs','fn line_and_column(','/// returns Ok result if','''fn line_and_column(text: &String, pos: usize) -> (usize, usize){
	let before = &text[..pos];
	let line = before.matches('\\n').count() + 1;
	let begin = before.rfind('\\n').map(|i| i + 1).unwrap_or(0);
	(line, before[begin..].chars().count() + 1)
}
''')
cut('lib.rs','	if indent == "\\t" {return','}\n','''	match indent == "\\t" || indent.chars().all(|c| c == ' ') {
		true => Ok(()),
		false => Err(())
	}
''') if False else None
sub('lib.rs',[('''	if indent == "\\t" {return Ok(());}
	for c in indent.chars() {
		if c != ' ' {
			return Err(());
		}
	}
	Ok(())''','''	match indent == "\\t" || indent.chars().all(|c| c == ' ') {
		true => Ok(()),
		false => Err(())
	}'''),
('''	if tag.ends_with(">") {tag = &tag[..tag.len().saturating_sub(1)];}
	if tag.ends_with("/") {tag = &tag[..tag.len().saturating_sub(1)];}''','''	tag = tag.strip_suffix('>').unwrap_or(tag);
	tag = tag.strip_suffix('/').unwrap_or(tag);'''),
])
cut('lib.rs','/// splits by whitespace, respecting','/// like `String.find()`','''/// splits by whitespace, respecting quotes
fn quote_aware_split(text: &str) -> Vec<String> {
	let mut parts: Vec<String> = Vec::new();
	let mut open: Option<char> = None;
	let mut fresh = true;
	for c in text.chars() {
		if open.is_none() && is_xml_whitespace(c) {
			fresh = true;
			continue;
		}
		if fresh {parts.push(String::new()); fresh = false;}
		parts.last_mut().unwrap().push(c);
		open = match open {
			Some(q) if q == c => None,
			None if c == '"' || c == '\\'' => Some(c),
			same => same
		};
	}
	parts
}
''')
# ---- parsing.rs
cut('parsing.rs','/** special tree data structure','/** nodes in the parser tree */','''/** stack of open elements (arena) */
#[derive(Debug, Default)]
pub struct ParseTree{
	data: Vec<Option<ParseTreeNode>>,
	pos: Option<usize>
}

impl ParseTree {
	/// new parser tree
	pub fn new() -> Self {
		Self::default()
	}
	/// true if nothing is open
	pub fn empty_stack(&self) -> bool {
		self.pos.is_none()
	}
	fn add(&mut self, value: Box<dyn Node>) -> usize {
		let id = self.data.len();
		self.data.push(Some(ParseTreeNode{id, value, parent_id: self.pos}));
		id
	}
	/// open
	pub fn push(&mut self, new_element: Element) {
		let id = self.add(new_element.boxed());
		self.pos = Some(id);
	}
	/// close
	pub fn pop(&mut self) -> Result<(), KissXmlError> {
		match self.pos {
			None => Err(ParsingError::new("closing tag without corresponding open tag").into()),
			Some(pos) => {
				self.pos = self.data[pos].as_ref().expect("logic error").parent_id;
				Ok(())
			}
		}
	}
	/// add
	pub fn append(&mut self, n: impl Node + 'static) -> Result<(), KissXmlError> {
		if self.empty_stack() {
			return Err(ParsingError::new("no root element").into());
		}
		self.add(n.boxed());
		Ok(())
	}
	/// top
	pub fn top_element(&self) -> Option<&Element> {
		self.pos.map(|pos| self.data[pos].as_ref().expect("logic error").value.as_element().expect("logic error"))
	}
	/// dom
	pub fn to_dom(mut self) -> Result<Element, KissXmlError> {
		while self.data.len() > 1 {
			let mut node = self.data.pop().flatten().expect("logic error");
			if let Ok(element) = node.value.as_element_mut() {
				element.reverse_children();
			}
			let parent = node.parent_id.expect("logic error");
			self.data[parent].as_mut().expect("logic error").value.as_element_mut().expect("logic error").push_child(node.value);
		}
		match self.data.pop().flatten() {
			None => Err(ParsingError::new("no root element").into()),
			Some(node) => {
				let mut value = node.destruct();
				let root = value.as_element_mut().expect("logic error");
				root.reverse_children();
				Ok(std::mem::take(root))
			}
		}
	}
}

''')
sub('parsing.rs',[('''	parent_id: Option<usize>,
	/// children of this DOM element
	child_ids: Vec<usize>
''','''	parent_id: Option<usize>
'''),('use std::collections::HashMap;\n','')])
# ---- dom.rs
sub('dom.rs',[('''		write!(out, "{}", self.to_string_with_indent(indent))
	}

	/**
	Returns the root element of this DOM as an imm''','''		let text = self.to_string_with_indent(indent);
		out.write_all(text.as_bytes())
	}

	/**
	Returns the root element of this DOM as an imm'''),
('''		match path.as_ref().parent(){
			None => {}
			Some(dir) => fs::create_dir_all(dir)?
		};
		// write to file
		fs::write(path, self.to_string_with_indent(indent))''','''		use std::io::Write;
		let path = path.as_ref();
		if let Some(dir) = path.parent() {
			fs::create_dir_all(dir)?;
		}
		let text = self.to_string_with_indent(indent);
		let mut file = fs::File::create(path)?;
		file.write_all(text.as_bytes())'''),
('''		for dtd in &self.dtds {
			builder.push_str(dtd.to_string().as_str());
			builder.push_str("\\n");
		}''','''		self.dtds.iter().for_each(|dtd| {
			builder += &format!("{dtd}\\n");
		});'''),
('''		let t1 = n1.node_type();
	let t2''','''		let t1 = n1.node_type();
	let t2''') if False else ('''			self.child_nodes.iter()
			.chain(
				self.child_elements().map(|e| e.children_recursive()
				).flatten()
			)''','''			self.child_nodes.iter().flat_map(|n| {
				let inner: Box<dyn Iterator<Item = &Box<dyn Node>> + '_> = match n.as_element() {
					Ok(e) => e.children_recursive(),
					Err(_) => Box::new(std::iter::empty())
				};
				std::iter::once(n).chain(inner)
			})'''),
('''		self.clear_children();
		self.append(Text::new(text));''','''		let text = Text::new(text);
		self.child_nodes.clear();
		if !text.is_whitespace() {
			self.child_nodes.push(text.boxed());
		}'''),
('''		Self::apply_xmlns_context_to_child_node(self.get_namespace_context(), &mut node);
		self.child_nodes.push(node);
		// clean-up text nodes
		self.cleanup_text_nodes();''','''		if let Ok(element) = node.as_element_mut() {
			element.set_namespace_context(self.get_namespace_context());
		}
		self.child_nodes.push(node);
		self.cleanup_text_nodes();'''),
('''		self.child_nodes.insert(index, node.boxed());
		Self::apply_xmlns_context_to_child_node(
			self.get_namespace_context(),
			&mut self.child_nodes[index]
		);''','''		let mut node = node.boxed();
		Self::apply_xmlns_context_to_child_node(self.get_namespace_context(), &mut node);
		self.child_nodes.insert(index, node);'''),
('''		// first add every node, keeping a record of which ones were elements
		let mut elem_indices: Vec<usize> = Vec::with_capacity(children.len());
		let mut i = self.child_nodes.len();
		for child in children {
			if child.is_element() {
				elem_indices.push(i);
			}
			self.child_nodes.push(child);
			i += 1;
		}
		// then apply the xmlns context to the elements
		for i in elem_indices {
			Self::apply_xmlns_context_to_child_node(
				self.get_namespace_context(),
			&mut self.child_nodes[i]
			);
		}''','''		let context = self.get_namespace_context();
		for mut child in children {
			Self::apply_xmlns_context_to_child_node(context.clone(), &mut child);
			self.child_nodes.push(child);
		}'''),
('''		let mut rm_indices: Vec<usize> = Vec::new();
		for i in (0..self.child_nodes.len()).rev() {
			if predicate(&self.child_nodes[i]) {
				rm_indices.push(i);
			}
		}
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;''','''		let before = self.child_nodes.len();
		self.child_nodes.retain(|n| !predicate(n));
		before - self.child_nodes.len()'''),
('''		let mut rm_indices: Vec<usize> = Vec::new();
		for i in (0..self.child_nodes.len()).rev() {
			if self.child_nodes[i].is_element() {
				if predicate(
					self.child_nodes[i].as_element().expect("logic error")
				) {
					rm_indices.push(i);
				}
			}
		}
		let count =  rm_indices.len();
		for i in rm_indices {
			self.child_nodes.remove(i);
		}
		return count;''','''		self.remove_by(&|n: &Box<dyn Node>| n.as_element().map(|e| predicate(e)).unwrap_or(false))'''),
('''		let mut count =  self.remove_by(&new_pred);
		for e in self.child_elements_mut() {
			count += e.remove_all(&new_pred);
		}
		return count;''','''		self.remove_all(&new_pred)'''),
('''		let mut elems: Vec<usize> = Vec::new();
		for i in 0..self.child_nodes.len() {
			if self.child_nodes[i].is_element(){ elems.push(i); }
		}
		// now remove the requested element
		if index >= elems.len() {
			return Err(IndexOutOfBounds::new(index as isize, Some((0, elems.len() as isize))));
		}
		let removed = self.child_nodes.remove(elems[index]);
		Ok(removed.as_element().expect("logic error").clone())''','''		let found = self.child_nodes.iter().enumerate().filter(|(_, n)| n.is_element()).nth(index).map(|(i, _)| i);
		match found {
			None => Err(IndexOutOfBounds::new(index as isize, Some((0, self.child_elements().count() as isize)))),
			Some(i) => {
				let mut removed = self.child_nodes.remove(i);
				Ok(std::mem::take(removed.as_element_mut().expect("logic error")))
			}
		}'''),
('''		let mut builder = String::new();
		for c in &self.child_nodes {
			if c.is_text() || c.is_element() {
				builder.push_str(c.text().as_str())
			}
		}
		builder''','''		self.child_nodes.iter()
			.filter(|c| !c.is_comment() && !c.is_cdata())
			.map(|c| c.text())
			.collect()'''),
('''			for i in 0..self.child_nodes.len() {
				if !node_eq(&self.child_nodes[i], &other.child_nodes[i]) {
					return false;
				}
			}
			return true;
		}
		return false;''','''			return self.child_nodes.iter().zip(other.child_nodes.iter()).all(|(a, b)| node_eq(a, b));
		}
		false'''),
('''		let n: String = name.into();
		for e in self.child_elements() {
			if e.name() == n {
				return Ok(e);
			}
		}
		Err(DoesNotExistError::default())''','''		let found = self.elements_by_name(name).next();
		found.ok_or_else(DoesNotExistError::default)'''),
('''		let n: String = name.into();
		for e in self.child_elements_mut() {
			if e.name() == n {
				return Ok(e);
			}
		}
		Err(DoesNotExistError::default())''','''		self.elements_by_name_mut(name).next().ok_or(DoesNotExistError::default())'''),
('''		let singleton = WSP_MATCHER_SINGLETON;
		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^[ \\t\\r\\n]*$"#).unwrap());
		wsp_matcher.is_match(self.content.as_str())''','''		self.content.trim_start_matches([' ', '\\t', '\\r', '\\n']).is_empty()'''),
('''/// singleton regex matcher
const WSP_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
''',''),('use std::cell::OnceCell;\n',''),('use regex::Regex;\n',''),
('''		if self.xmlns_context != parent_context {
			self.xmlns_context = parent_context;
			self.update_namespaces();
		}''','''		self.xmlns_context = parent_context;
		self.update_namespaces();'''),
])
cut('dom.rs','		// check if there are children\n','		// Done.','''		let old = std::mem::take(&mut self.child_nodes);
		let mut merged: Vec<Box<dyn Node>> = Vec::with_capacity(old.len());
		for node in old {
			match (merged.last_mut().and_then(|n| n.as_text_mut().ok()), node.as_text()) {
				(Some(front), Ok(back)) => front.content.push_str(&back.content),
				_ => merged.push(node)
			}
		}
		let mixed = merged.iter().filter_map(|n| n.as_text().ok()).any(|t| !t.is_whitespace());
		merged.retain(|n| match n.as_text() {
			Err(_) => true,
			Ok(t) => !t.content.is_empty() && (mixed || !t.is_whitespace())
		});
		self.child_nodes = merged;
''')
