From ffd84b4b98c1c5cd93a3e307effd8b3da59803cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 01/22] fix: unescape() skipped references and could panic when
 a later character was multi-byte

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1649a13..0ee00e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,7 +289,6 @@ pub fn unescape(text: impl Into<String>) -> String {
 				let slice = (&buffer[i..]).to_string();
 				let mut char_size: usize = 1;
 				for (j, k) in slice.char_indices() {
-					char_size = k.len_utf8();
 					if k == ';' {
 						let end = i + j + 1;
 						let slice = &slice[..j];
@@ -324,6 +323,8 @@ pub fn unescape(text: impl Into<String>) -> String {
 								Err(_) => { /* do nothing */ }
 							}
 						}
+						// a reference ends at the first ;
+						break;
 					}
 				}
 				last_i = i+char_size;
-- 
2.43.0


From 9a223c5d28a8e71d5802a96f66918b7fc99c3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 02/22] fix: numeric character references were all decoded as
 hexadecimal and &#x..; was not decoded

---
 src/lib.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ee00e2..80f3545 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -309,18 +309,13 @@ pub fn unescape(text: impl Into<String>) -> String {
 							string_insert(&mut buffer, (start, end), "\"");
 						}
 						if slice.starts_with("&#") {
-							match u32::from_str_radix(&slice[2..], 16) {
-								Ok(codepoint) => {
-									match char::from_u32(codepoint) {
-										Some(unicode) => {
-											let unicode_str = unicode.to_string();
-											string_insert(&mut buffer, (start, end), unicode_str.as_str());
-											char_size = unicode.len_utf8();
-										},
-										None => { /* do nothing */ }
-									}
-								}
-								Err(_) => { /* do nothing */ }
+							match decode_char_ref(&slice[2..]) {
+								Some(unicode) => {
+									let unicode_str = unicode.to_string();
+									string_insert(&mut buffer, (start, end), unicode_str.as_str());
+									char_size = unicode.len_utf8();
+								},
+								None => { /* do nothing */ }
 							}
 						}
 						// a reference ends at the first ;
@@ -334,6 +329,21 @@ pub fn unescape(text: impl Into<String>) -> String {
 	buffer
 }
 
+/// decodes the digits of a numeric character reference (the part between "&#" and ";"):
+/// hexadecimal after an x, otherwise decimal (hexadecimal digits without the x are tolerated)
+fn decode_char_ref(digits: &str) -> Option<char> {
+	let (digits, radix) = match digits.strip_prefix("x") {
+		Some(hex) => (hex, 16),
+		None => match digits.chars().all(|c| c.is_ascii_digit()) {
+			true => (digits, 10),
+			false => (digits, 16)
+		}
+	};
+	// note: from_str_radix(...) would accept a leading +
+	if !digits.chars().all(|c| c.is_ascii_hexdigit()) { return None; }
+	u32::from_str_radix(digits, radix).ok().and_then(char::from_u32)
+}
+
 /// comparator for ordering attributes
 pub(crate) fn attribute_order(kv_tup1: &(&String, &String), kv_tup2: &(&String, &String)) -> Ordering {
 	// sort xmlns before rest
-- 
2.43.0


From 20e8d76e3579a5383a50a95a0e08995b7dcb5634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 03/22] fix: abbreviate() panicked when cutting through a
 multi-byte character

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 80f3545..1fa8f64 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -614,12 +614,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 
 /// abbreviates long strings with ...
 fn abbreviate(text: &str, limit: usize) -> String {
-	if limit < 4 || text.len() <= limit {
+	let char_count = text.chars().count(); // note: byte offsets may not be char boundaries
+	if limit < 4 || char_count <= limit {
 		text.to_string()
 	} else {
-		let mut buffer = (&text[0..(limit / 2 - 1)]).to_string();
+		let mut buffer: String = text.chars().take(limit / 2 - 1).collect();
 		buffer.push_str("…");
-		buffer.push_str(&text[(text.len() - limit / 2)..]);
+		buffer.extend(text.chars().skip(char_count - limit / 2));
 		buffer
 	}
 }
-- 
2.43.0


From 3beab37de10b455a82a5428da01fdf9a0cd138c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 04/22] fix: DTDs were written without their <!DOCTYPE ...>
 markup

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 62c623d..c05c87b 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2089,6 +2089,6 @@ impl DTD {
 
 impl std::fmt::Display for DTD {
 	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-		write!(f, "{}", self.dtd_str)
+		write!(f, "<!DOCTYPE{}>", self.dtd_str)
 	}
 }
-- 
2.43.0


From 291d40a90c93453d7f8599a1ad3af3199a3a3c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 05/22] fix: a second root element or text after the root
 element was accepted, a comment there rejected

---
 src/lib.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1fa8f64..78d69a6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -480,8 +480,9 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		} else {
 			// next tag
-			if selfclosing_root {
-				// next tag not allowed
+			let next_slice = &buffer[next_span.0.unwrap() .. next_span.1.unwrap()];
+			if parse_stack.empty_stack() && !next_slice.starts_with("</") && !next_slice.starts_with("<!--") {
+				// root already closed, next tag not allowed
 				let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
 				return Err(errors::ParsingError::new(format!(
 					"only 1 root element is allowed (syntax error on line {line}, column {col})"
@@ -508,7 +509,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		};
 		// parse span
 		let slice = &buffer[tag_span.0 .. tag_span.1];
-		if slice.starts_with("<!--") && slice.ends_with("-->") {
+		if slice.starts_with("<!--") && parse_stack.empty_stack() {
+			// comments outside root element not supported
+			if no_comment_warn == 0 {
+				eprintln!("WARNING: Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32));
+			}
+			no_comment_warn += 1;
+		} else if slice.starts_with("<!--") && slice.ends_with("-->") {
 			// comment
 			let begin = 4;
 			let end = slice.len().saturating_sub(3);
@@ -604,6 +611,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			"root element not closed"
 		)).into());
 	}
+	// check that nothing but whitespace is left
+	if real_text(&buffer[tag_span.1..]).is_some() {
+		let (line, col) = line_and_column(&buffer, tag_span.1);
+		return Err(errors::ParsingError::new(format!(
+			"Text outside the root element is not supported (syntax error on line {line}, column {col})"
+		)).into());
+	}
 	// return a DOM document
 	Ok(dom::Document::new_with_decl_dtd(
 		parse_stack.to_dom()?,
-- 
2.43.0


From 6c1e0829686915c1aa1b2035b557dd6619ff07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 06/22] fix: comments starting with > or -> were cut off

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 78d69a6..1cd40e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -782,7 +782,8 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	let sub_buffer = &buffer[start_index..];
 	if sub_buffer.starts_with("<!--") {
 		// comment
-		return (start, sub_buffer.find("-->").map(|i|i+start_index+3));
+		// (the end is not looked for in the opening <!-- itself)
+		return (start, sub_buffer[4..].find("-->").map(|i|i+4+start_index+3));
 	} else if sub_buffer.starts_with("<?") {
 		// declaration, look for ?> but handle quoting
 		return (start, quote_aware_find(sub_buffer, "?>", 2).map(|i|i+start_index+2))
-- 
2.43.0


From a58fbaf957ed5fab7312b226d883fc2f194b7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 07/22] fix: junk inside tags was accepted and whitespace
 around = in attributes rejected

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1cd40e4..f48004e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -759,7 +759,9 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*=(".*?"|'.*?'))*\s*/?>"#);
+		let ws = r#"[ \t\r\n]"#;
+		let attr = format!(r#"{ws}+{name_start_char}{name_char}*{ws}*={ws}*("[^"]*"|'[^']*')"#);
+		let pattern = format!(r#"^<({name_start_char}{name_char}*({attr})*{ws}*/?|/{name_start_char}{name_char}*{ws}*)>$"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
-- 
2.43.0


From b1b967db2e8694606c397d73e03dfd6a0c7cc57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 08/22] fix: <?xml-stylesheet ... ?> or a second <?xml ... ?>
 replaced the XML declaration

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f48004e..d455aca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -418,8 +418,8 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		}
 		let slice = &buffer[tag_start..tag_end];
-		if slice.starts_with("<?xml") {
-			if tag_span.0 != 0 {
+		if is_declaration(slice) {
+			if tag_span.1 != 0 {
 				let (line, col) = line_and_column(&buffer, tag_start);
 				return Err(errors::ParsingError::new(format!(
 					"<?xml ...?> declaration must at start of XML (syntax error on line {line}, column {col})"
@@ -436,7 +436,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			// DTD
 			let dtd = dom::DTD::from_string(slice)?;
 			dtds.push(dtd);
-		} else if slice.starts_with("<!"){
+		} else if slice.starts_with("<!") || slice.starts_with("<?"){
 			// some other XML mallarky
 			eprintln!("WARNING: Ignoring {slice} (not supported outside root element)");
 		} else if slice.starts_with("</") {
@@ -626,6 +626,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 	))
 }
 
+/// checks if a tag is the XML declaration (as opposed to processing instructions like
+/// `<?xml-stylesheet ... ?>`)
+fn is_declaration(tag: &str) -> bool {
+	tag.starts_with("<?xml") && tag[5..].starts_with(|c: char| c == '?' || c.is_whitespace())
+}
+
 /// abbreviates long strings with ...
 fn abbreviate(text: &str, limit: usize) -> String {
 	let char_count = text.chars().count(); // note: byte offsets may not be char boundaries
-- 
2.43.0


From 03e34561455e613f9095f1cc86d296e3b413e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 09/22] fix: names that cannot be written as XML were accepted,
 names starting with a non-ASCII letter refused

---
 src/dom.rs | 21 +++++++--------------
 src/lib.rs | 13 +++++++++++++
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index c05c87b..84c192a 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -442,6 +442,9 @@ impl Element {
 		// sanity check
 		let name = name.into();
 		Element::check_elem_name(name.as_str())?;
+		if let Some(prefix) = &xmlns_prefix {
+			Element::check_elem_name(prefix.as_str())?;
+		}
 		// first, convert attributes to <String,String> map
 		let mut attrs: HashMap<String, String> = HashMap::new();
 		match attributes {
@@ -976,29 +979,19 @@ impl Element {
 	}
 
 
-	/// singleton regex matcher
-	const ATTR_NAME_CHECKER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 	/// Checks if an attribute name is valid
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
-		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
-		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
-		);
-		if checker.is_match(name) {
+		// may have a namespace prefix
+		let (prefix, local_name) = name.split_once(":").unwrap_or(("_", name));
+		if crate::is_name(prefix) && crate::is_name(local_name) {
 			Ok(())
 		} else {
 			Err(InvalidAttributeName::new(format!("'{}' is not a valid attribute name", name)))
 		}
 	}
-	/// singleton regex matcher
-	const NAME_CHECKER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 	/// Checks if an attribute name is valid
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
-		let singleton = Element::NAME_CHECKER_SINGLETON;
-		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
-		);
-		if checker.is_match(name) {
+		if crate::is_name(name) {
 			Ok(())
 		} else {
 			Err(InvalidElementName::new(format!("'{}' is not a valid name", name)))
diff --git a/src/lib.rs b/src/lib.rs
index d455aca..aac2ecf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -756,6 +756,19 @@ fn strip_tag(tag: &str) -> String {
 }
 
 
+/// checks if the text is a name without namespace prefix
+pub(crate) fn is_name(text: &str) -> bool {
+	// see https://www.w3.org/TR/xml-names/#NT-NCName and https://www.w3.org/TR/REC-xml/#sec-common-syn
+	let is_start_char = |c: char| matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}'
+		| '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}'
+		| '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}'
+		| '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
+		| '\u{10000}'..='\u{EFFFF}');
+	let is_name_char = |c: char| is_start_char(c) || matches!(c, '.' | '-' | '0'..='9' | '\u{B7}'
+		| '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}');
+	text.starts_with(is_start_char) && text.chars().all(is_name_char)
+}
+
 /// singleton regex matcher
 const ELEM_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 /// checks if a tag has valid syntax for an element (does not parse)
-- 
2.43.0


From 8ebaf399cbdb5380485aecf1143a84d65318ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 10/22] fix: repeated attributes in a tag were accepted, all
 but the last being lost

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index aac2ecf..6fe1b94 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -685,7 +685,12 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 			)).into());
 		}
 		v = &v[1..(v.len()-1)]; // remove quotes
-		attrs.insert(k.to_string(), unescape(v.to_string()));
+		if attrs.insert(k.to_string(), unescape(v.to_string())).is_some() {
+			let (line, col) = line_and_column(&buffer, tag_span.0);
+			return Err(errors::ParsingError::new(format!(
+				"invalid XML syntax on line {line}, column {col}: duplicate attribute '{k}'"
+			)).into());
+		}
 	}
 	// parse name and namespace
 	let mut name = components[0].as_str();
-- 
2.43.0


From a9ded29d0871ebe12541c06237c59fe0d7f24c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 11/22] fix: whitespace next to tags was lost in elements with
 text, other Unicode space and empty text mishandled

---
 src/dom.rs     |  18 ++-
 src/lib.rs     |  10 +-
 src/parsing.rs | 338 ++++++++++++++++++++++++-------------------------
 3 files changed, 189 insertions(+), 177 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 84c192a..5a6d55a 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -839,9 +839,14 @@ impl Element {
 			};
 		}
 	}
-	/** flips the order of child nodes (non-recursive) */
+	/** adds a child node as-is, without applying the namespace context or cleaning up text nodes */
+	pub(crate) fn push_child(&mut self, node: Box<dyn Node>) {
+		self.child_nodes.push(node);
+	}
+	/** flips the order of child nodes (non-recursive) and cleans up the text nodes */
 	pub(crate) fn reverse_children(&mut self) {
 		self.child_nodes.reverse();
+		self.cleanup_text_nodes();
 	}
 	/** Returns a list of al child elements as an iterator */
 	pub fn child_elements(&self) ->  impl Iterator<Item = &Element>{
@@ -1181,7 +1186,7 @@ impl Element {
 			Some(xmlns_context)
 		);
 	}
-	/** Discards merges sequential text nodes and then whitespace-only text nodes */
+	/** Merges sequential text nodes and then discards empty text nodes and, unless there is other text, whitespace-only text nodes */
 	fn cleanup_text_nodes(&mut self) {
 		// check if there are children
 		if self.child_nodes.len() == 0 {return;}
@@ -1198,13 +1203,16 @@ impl Element {
 			}
 			index -= 1;
 		}
-		// remove text nodes that are whitespace
+		// remove text nodes that are whitespace (it is significant if the element contains actual text)
+		let mixed = self.child_nodes.iter()
+			.any(|n| n.is_text() && !n.as_text().expect("logic error").is_whitespace());
 		assert!(self.child_nodes.len() > 0, "logic error: self.child_nodes should never be empty here!");
 		let mut index = self.child_nodes.len() - 1;
 		loop {
 			if self.child_nodes[index].is_text()
 				&& self.child_nodes[index]
-				.as_text().expect("logic error").is_whitespace() {
+				.as_text().expect("logic error").is_whitespace()
+				&& !(mixed && !self.child_nodes[index].text().is_empty()) {
 				self.child_nodes.remove(index);
 			}
 			if index == 0 {break;}
@@ -1649,7 +1657,7 @@ impl Text {
 	/// checks if this Text node contains only whitespace
 	fn is_whitespace(&self) -> bool {
 		let singleton = WSP_MATCHER_SINGLETON;
-		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^\s+$"#).unwrap());
+		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^[ \t\r\n]*$"#).unwrap());
 		wsp_matcher.is_match(self.content.as_str())
 	}
 }
diff --git a/src/lib.rs b/src/lib.rs
index 6fe1b94..5032210 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -494,8 +494,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		// get text since last tag
 		let text = &buffer[last_span.1 .. tag_span.0];
 
-		// if text is not empty, add text node
-		match real_text(text) {
+		// if text is not empty, add text node (inside of the root, even whitespace may be significant)
+		let content = match parse_stack.empty_stack() {
+			true => real_text(text),
+			false => Some(unescape(text)).filter(|t| !t.is_empty())
+		};
+		match content {
 			None => {},
 			Some(content) => {
 				parse_stack.append(dom::Text::new(content))
@@ -922,7 +926,7 @@ const IS_BLANK_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 fn real_text(text: &str) -> Option<String> {
 	// check for empty string
 	let singleton = IS_BLANK_MATCHER_SINGLETON;
-	let matcher = singleton.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
+	let matcher = singleton.get_or_init(|| Regex::new(r#"^[ \t\r\n]*$"#).unwrap());
 	if matcher.is_match(text) {
 		return None;
 	}
diff --git a/src/parsing.rs b/src/parsing.rs
index 737ddb7..f7199b1 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,170 +1,170 @@
-/*!
- this module contains utilities exclusive to parsing
- */
-use std::cmp::Ordering;
-use std::collections::HashMap;
-use std::hash::Hasher;
-
-use crate::dom::*;
-use crate::errors::*;
-
-/** special tree data structure for parsing which uses ID's as keys in a HashMap to work around limitations in Rust's lifetime syntax. It is used like a stack, though internally it uses a HashMap based data arena */
-#[derive(Debug, Default)]
-pub struct ParseTree{
-	/** hold data in a non-tree format because Rust's lifetime syntax doesn't let you retrieve the lifetime from the parent of a node at runtime (lifetimes exist only at compile time, and even then there is no syntax for separately disentanlging reference-lifetimes from data-lifetimes) */
-	data: HashMap<usize, ParseTreeNode>,
-	/// current tip of the parsing tree, pointing to the "top" of the stack
-	pos: Option<usize>
-}
-
-impl ParseTree {
-	/// new parser tree
-	pub fn new() -> Self {
-		Self::default()
-	}
-	/// returns true if the simulated "stack" is empty, false otherwise. This can still return true
-	/// even if the internal HashMap is not empty
-	pub fn empty_stack(&self) -> bool {
-		match self.pos {
-			None => true,
-			Some(_) => false
-		}
-	}
-	/// push a new element to the stack
-	pub fn push(&mut self, new_element: Element) {
-		if self.pos.is_none() {
-			self.data.insert(0, ParseTreeNode{
-				id: 0,
-				value: Box::new(new_element),
-				parent_id: None,
-				child_ids: Vec::new(),
-			});
-			self.pos = Some(0);
-		} else {
-			let old_pos = self.pos.unwrap();
-			let new_pos = self.data.len();
-			self.data.get_mut(&old_pos).expect("logic error")
-				.child_ids.push(new_pos);
-			self.data.insert(new_pos, ParseTreeNode{
-				id: new_pos,
-				value: Box::new(new_element),
-				parent_id: Some(old_pos),
-				child_ids: Vec::new(),
-			});
-			self.pos = Some(new_pos);
-		}
-	}
-	/// pop the top element from the stack
-	pub fn pop(&mut self) -> Result<(), KissXmlError> {
-		if self.pos.is_none() {
-			return Err(ParsingError::new("closing tag without corresponding open tag").into());
-		}
-		let pos = self.pos.unwrap();
-		let new_pos = self.data
-			.get(&pos).expect("logic error").parent_id;
-		self.pos = new_pos;
-		Ok(())
-	}
-	/// append a node to the top element on the stack (without adding the new node to the stack)
-	pub fn append(&mut self, n: impl Node + 'static) -> Result<(), KissXmlError> {
-		if self.pos.is_none() {
-			return Err(ParsingError::new("no root element").into());
-		}
-		let pos = self.pos.unwrap();
-		let new_id = self.data.len();
-		self.data.get_mut(&pos).expect("logic error")
-			.child_ids.push(new_id);
-		self.data.insert(new_id, ParseTreeNode{
-			id: new_id,
-			value: Box::new(n),
-			parent_id: Some(pos),
-			child_ids: Vec::new(),
-		});
-		Ok(())
-	}
-	/// reference to the current element on top of the stack
-	pub fn top_element(&self) -> Option<&Element> {
-		match self.pos {
-			None => None,
-			Some(pos) => Some(
-				self.data.get(&pos).expect("logic error")
-					.value.as_element().expect("logic error")
-			)
-		}
-	}
-	/// converts the whole parse tree to a DOM, returning the root element
-	pub fn to_dom(mut self) -> Result<Element, KissXmlError> {
-		if self.data.is_empty() {
-			return Err(ParsingError::new("no root element").into());
-		}
-		// depth-first DOM construction
-		// the stack-based API ensures children always have higher ID number
-		// than their parents
-		// the challenge is that reverse index iteration will add children
-		// in opposite order
-		// solution is to flip the children when removing from the map
-		// (index 0 is root, so not included in loop)
-		for i in (1..self.data.len()).rev() {
-			let mut node = self.data.remove(&i).expect("logic error: missing index");
-			if node.value.is_element() {
-				// flip the children of element
-				node.value.as_element_mut().unwrap().reverse_children()
-			}
-			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
-			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
-				.value.as_element_mut().expect("logic error: parent is not an Element")
-				.append_boxed(node.value);
-		}
-		let root_node = self.data.remove(&0).expect("logic error: no root element");
-		let mut root = root_node.destruct();
-		// let mut e = **(root.as_any()
-		// 	.downcast_ref::<Box<Element>>()
-		// 	.expect("logic error: root is not an element"));
-		let e = root.as_element_mut().expect("logic error: root is not an element");
-		// flip children because they were added in reverse order
-		e.reverse_children();
-		// done
-		// use mem::take to do a "DerefMove" operation
-		return Ok(std::mem::take(e));
-	}
-}
-
-/** nodes in the parser tree */
-#[derive(Debug)]
-pub struct ParseTreeNode{
-	/// unique ID
-	id: usize,
-	/// DOM node
-	value: Box<dyn Node>,
-	/// parent element of this DOM node
-	parent_id: Option<usize>,
-	/// children of this DOM element
-	child_ids: Vec<usize>
-}
-
-impl ParseTreeNode {
-	/// used to move the value out of the struct
-	fn destruct(self) -> Box<dyn Node>{self.value}
-}
-
-impl PartialEq for ParseTreeNode {
-	fn eq(&self, other: &Self) -> bool {
-		self.id == other.id
-	}
-}
-impl Eq for ParseTreeNode{}
-impl std::hash::Hash for ParseTreeNode {
-	fn hash<H: Hasher>(&self, state: &mut H) {
-		self.id.hash(state)
-	}
-}
-impl PartialOrd for ParseTreeNode {
-	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-		Some(self.id.cmp(&other.id))
-	}
-}
-impl Ord for ParseTreeNode{
-	fn cmp(&self, other: &Self) -> Ordering {
-		self.partial_cmp(other).unwrap()
-	}
+/*!
+ this module contains utilities exclusive to parsing
+ */
+use std::cmp::Ordering;
+use std::collections::HashMap;
+use std::hash::Hasher;
+
+use crate::dom::*;
+use crate::errors::*;
+
+/** special tree data structure for parsing which uses ID's as keys in a HashMap to work around limitations in Rust's lifetime syntax. It is used like a stack, though internally it uses a HashMap based data arena */
+#[derive(Debug, Default)]
+pub struct ParseTree{
+	/** hold data in a non-tree format because Rust's lifetime syntax doesn't let you retrieve the lifetime from the parent of a node at runtime (lifetimes exist only at compile time, and even then there is no syntax for separately disentanlging reference-lifetimes from data-lifetimes) */
+	data: HashMap<usize, ParseTreeNode>,
+	/// current tip of the parsing tree, pointing to the "top" of the stack
+	pos: Option<usize>
+}
+
+impl ParseTree {
+	/// new parser tree
+	pub fn new() -> Self {
+		Self::default()
+	}
+	/// returns true if the simulated "stack" is empty, false otherwise. This can still return true
+	/// even if the internal HashMap is not empty
+	pub fn empty_stack(&self) -> bool {
+		match self.pos {
+			None => true,
+			Some(_) => false
+		}
+	}
+	/// push a new element to the stack
+	pub fn push(&mut self, new_element: Element) {
+		if self.pos.is_none() {
+			self.data.insert(0, ParseTreeNode{
+				id: 0,
+				value: Box::new(new_element),
+				parent_id: None,
+				child_ids: Vec::new(),
+			});
+			self.pos = Some(0);
+		} else {
+			let old_pos = self.pos.unwrap();
+			let new_pos = self.data.len();
+			self.data.get_mut(&old_pos).expect("logic error")
+				.child_ids.push(new_pos);
+			self.data.insert(new_pos, ParseTreeNode{
+				id: new_pos,
+				value: Box::new(new_element),
+				parent_id: Some(old_pos),
+				child_ids: Vec::new(),
+			});
+			self.pos = Some(new_pos);
+		}
+	}
+	/// pop the top element from the stack
+	pub fn pop(&mut self) -> Result<(), KissXmlError> {
+		if self.pos.is_none() {
+			return Err(ParsingError::new("closing tag without corresponding open tag").into());
+		}
+		let pos = self.pos.unwrap();
+		let new_pos = self.data
+			.get(&pos).expect("logic error").parent_id;
+		self.pos = new_pos;
+		Ok(())
+	}
+	/// append a node to the top element on the stack (without adding the new node to the stack)
+	pub fn append(&mut self, n: impl Node + 'static) -> Result<(), KissXmlError> {
+		if self.pos.is_none() {
+			return Err(ParsingError::new("no root element").into());
+		}
+		let pos = self.pos.unwrap();
+		let new_id = self.data.len();
+		self.data.get_mut(&pos).expect("logic error")
+			.child_ids.push(new_id);
+		self.data.insert(new_id, ParseTreeNode{
+			id: new_id,
+			value: Box::new(n),
+			parent_id: Some(pos),
+			child_ids: Vec::new(),
+		});
+		Ok(())
+	}
+	/// reference to the current element on top of the stack
+	pub fn top_element(&self) -> Option<&Element> {
+		match self.pos {
+			None => None,
+			Some(pos) => Some(
+				self.data.get(&pos).expect("logic error")
+					.value.as_element().expect("logic error")
+			)
+		}
+	}
+	/// converts the whole parse tree to a DOM, returning the root element
+	pub fn to_dom(mut self) -> Result<Element, KissXmlError> {
+		if self.data.is_empty() {
+			return Err(ParsingError::new("no root element").into());
+		}
+		// depth-first DOM construction
+		// the stack-based API ensures children always have higher ID number
+		// than their parents
+		// the challenge is that reverse index iteration will add children
+		// in opposite order
+		// solution is to flip the children when removing from the map
+		// (index 0 is root, so not included in loop)
+		for i in (1..self.data.len()).rev() {
+			let mut node = self.data.remove(&i).expect("logic error: missing index");
+			if node.value.is_element() {
+				// flip the children of element
+				node.value.as_element_mut().unwrap().reverse_children()
+			}
+			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
+			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
+				.value.as_element_mut().expect("logic error: parent is not an Element")
+				.push_child(node.value);
+		}
+		let root_node = self.data.remove(&0).expect("logic error: no root element");
+		let mut root = root_node.destruct();
+		// let mut e = **(root.as_any()
+		// 	.downcast_ref::<Box<Element>>()
+		// 	.expect("logic error: root is not an element"));
+		let e = root.as_element_mut().expect("logic error: root is not an element");
+		// flip children because they were added in reverse order
+		e.reverse_children();
+		// done
+		// use mem::take to do a "DerefMove" operation
+		return Ok(std::mem::take(e));
+	}
+}
+
+/** nodes in the parser tree */
+#[derive(Debug)]
+pub struct ParseTreeNode{
+	/// unique ID
+	id: usize,
+	/// DOM node
+	value: Box<dyn Node>,
+	/// parent element of this DOM node
+	parent_id: Option<usize>,
+	/// children of this DOM element
+	child_ids: Vec<usize>
+}
+
+impl ParseTreeNode {
+	/// used to move the value out of the struct
+	fn destruct(self) -> Box<dyn Node>{self.value}
+}
+
+impl PartialEq for ParseTreeNode {
+	fn eq(&self, other: &Self) -> bool {
+		self.id == other.id
+	}
+}
+impl Eq for ParseTreeNode{}
+impl std::hash::Hash for ParseTreeNode {
+	fn hash<H: Hasher>(&self, state: &mut H) {
+		self.id.hash(state)
+	}
+}
+impl PartialOrd for ParseTreeNode {
+	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+		Some(self.id.cmp(&other.id))
+	}
+}
+impl Ord for ParseTreeNode{
+	fn cmp(&self, other: &Self) -> Ordering {
+		self.partial_cmp(other).unwrap()
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 51ee577535ae9f1d06c5f88e49a860de7f291c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 12/22] fix: insert() applied the namespaces to the last child
 instead of the inserted one

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 5a6d55a..cb3bbdf 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1279,7 +1279,7 @@ impl Element {
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
 			self.default_namespace(), self.xmlns_context.clone(),
-			self.child_nodes.last_mut().unwrap()
+			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
-- 
2.43.0


From 717df56f78879e4cab12f9466baa31332fe43df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 13/22] fix: a namespace passed to Element::new() was not
 written to the XML

---
 src/dom.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index cb3bbdf..365b5fe 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -477,6 +477,14 @@ impl Element {
 				}
 			};
 		}
+		// if the namespace was not given as attribute, declare it
+		if let Some(ns) = &xmlns {
+			let declaration = match &xmlns_prefix {
+				None => "xmlns".to_string(),
+				Some(prefix) => format!("xmlns:{prefix}")
+			};
+			attrs.insert(declaration, ns.to_string());
+		}
 		// set the XML NS from the attributes and provided args
 		let mut elem = Self {
 			name: name,
-- 
2.43.0


From bad1e075327bcf7f9ae919adfb7f6a3e873af2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 14/22] fix: namespaces did not follow XML scoping (default
 namespace below prefixed elements, xmlns="", subtrees, edited declarations)

---
 src/dom.rs | 98 ++++++++++++++++++++++++------------------------------
 src/lib.rs |  9 ++---
 2 files changed, 46 insertions(+), 61 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 365b5fe..bf15609 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -67,7 +67,9 @@ Constructs a new Document with the given root element and default declaration
 	/**
 Full constructor with required root element and optional XML declaration and optional list of one or more document type definition (DTD) items.
 	 */
-	pub fn new_with_decl_dtd(root: Element, declaration: Option<Declaration>, dtd: Option<&[DTD]>) -> Self {
+	pub fn new_with_decl_dtd(mut root: Element, declaration: Option<Declaration>, dtd: Option<&[DTD]>) -> Self {
+		// the root element has no parent to inherit namespaces from
+		root.set_namespace_context(HashMap::new());
 		Self{
 			declaration: declaration,
 			dtds: match dtd{
@@ -417,7 +419,7 @@ pub struct Element {
 	xmlns: Option<String>,
 	/// optional xmlns (if xmlns_prefix is None then the xmlns is default namespace)
 	xmlns_prefix: Option<String>,
-	/// xmlns definitions for this element, if any
+	/// xmlns definitions inherited from the parent elements, if any (default namespace saved as prefix "")
 	xmlns_context: HashMap<String, String>
 }
 
@@ -489,9 +491,9 @@ impl Element {
 		let mut elem = Self {
 			name: name,
 			child_nodes: Vec::new(),
-			xmlns_context: Element::xmlns_context_from_attributes(&attrs),
+			xmlns_context: HashMap::new(),
 			attributes: attrs,
-			xmlns: xmlns.map(|s| s.to_string()),
+			xmlns: xmlns.filter(|s| !s.is_empty()),
 			xmlns_prefix: xmlns_prefix.map(|s| s.to_string())
 		};
 		// finally, add children
@@ -624,6 +626,8 @@ impl Element {
 				let prefix = split[1].to_string();
 				let ns = v.clone();
 				prefixes.insert(prefix, ns);
+			} else if key == "xmlns" {
+				prefixes.insert(String::new(), v.clone());
 			}
 		}
 		return prefixes;
@@ -804,7 +808,8 @@ impl Element {
 	}
 	/** Gets any and all xmlns prefixes defined in this element (does not include prefix-less default namespace, nor prefixes inherited from a parent element) */
 	pub fn namespace_prefixes(&self) -> Option<HashMap<String, String>> {
-		let prefixes = Self::xmlns_context_from_attributes(&self.attributes);
+		let mut prefixes = Self::xmlns_context_from_attributes(&self.attributes);
+		prefixes.remove("");
 		if prefixes.is_empty() {
 			None
 		} else {
@@ -812,39 +817,26 @@ impl Element {
 		}
 	}
 	/** Gets any and all xmlns prefixes relevant to this element. This includes both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
-	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {self.xmlns_context.clone()}
-	/** Sets any and all xmlns prefixes this element should inherit. This must include both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
-	pub(crate) fn set_namespace_context(&mut self, parent_default_namespace: Option<String>, parent_prefixes: Option<HashMap<String, String>>) {
-		// inherit default namespace unless this element also defines one
-		match self.xmlns_prefix {
-			None => {
-				match self.default_namespace() {
-					None => self.xmlns = parent_default_namespace,
-					Some(_) => {/* do nothing */}
-				}
-			}
-			Some(_) => {/* do nothing */}
-		}
-		// add prefixed namespaces (except where already defined locally)
-		match parent_prefixes {
-			None => {}
-			Some(prefixes) => {
-				for (prefix, ns) in prefixes {
-					if ! self.xmlns_context.contains_key(prefix.as_str()) {
-						let _ = &self.xmlns_context.insert(prefix, ns);
-					}
-				}
-			}
+	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {
+		let mut context = self.xmlns_context.clone();
+		context.extend(Self::xmlns_context_from_attributes(&self.attributes));
+		context
+	}
+	/** Sets any and all xmlns prefixes this element should inherit from its parent (see `get_namespace_context()`). */
+	pub(crate) fn set_namespace_context(&mut self, parent_context: HashMap<String, String>) {
+		if self.xmlns_context != parent_context {
+			self.xmlns_context = parent_context;
+			self.update_namespaces();
 		}
-		// set this namespace if a prefix was specified without xmlns def attribute
-		if self.xmlns.is_none() {
-			match &self.xmlns_prefix {
-				None => {}
-				Some(prefix) => {
-					// get prefix namespace from context
-					self.xmlns = self.xmlns_context.get(prefix).map(String::clone);
-				}
-			};
+	}
+	/** Looks up the namespace of this element in its context and passes the context on to its children */
+	fn update_namespaces(&mut self) {
+		let context = self.get_namespace_context();
+		let prefix = self.xmlns_prefix.as_deref().unwrap_or("");
+		// note: xmlns="" means no namespace
+		self.xmlns = context.get(prefix).filter(|ns| !ns.is_empty()).cloned();
+		for child in self.child_elements_mut() {
+			child.set_namespace_context(context.clone());
 		}
 	}
 	/** adds a child node as-is, without applying the namespace context or cleaning up text nodes */
@@ -987,7 +979,9 @@ impl Element {
 		let n: String = attr_name.into();
 		Element::check_attr_name(n.as_str())?;
 		let v: String = value.into();
+		let is_xmlns = n.starts_with("xmlns");
 		self.attributes.insert(n, v);
+		if is_xmlns {self.update_namespaces();}
 		Ok(())
 	}
 
@@ -1013,11 +1007,14 @@ impl Element {
 	/** Deletes an attribute from this element */
 	pub fn remove_attr(&mut self, attr_name: impl Into<String>) -> Option<String> {
 		let n: String = attr_name.into();
-		self.attributes.remove(&n)
+		let removed = self.attributes.remove(&n);
+		if n.starts_with("xmlns") {self.update_namespaces();}
+		removed
 	}
 	/** Deletes all attributes from this element */
 	pub fn clear_attributes(&mut self) {
-		self.attributes.clear()
+		self.attributes.clear();
+		self.update_namespaces();
 	}
 	/**
 	Performs a recursive search of all child nodes of this element (and all children of child elements, etc), returning an iterator of all nodes matching the given predicate.
@@ -1171,29 +1168,20 @@ impl Element {
 	}
 	/** same as [append(...)](Element::append()) but for a Box&lt;dyn Node&gt; */
 	pub fn append_boxed(&mut self, mut node: Box<dyn Node>) {
-		Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut node);
+		Self::apply_xmlns_context_to_child_node(self.get_namespace_context(), &mut node);
 		self.child_nodes.push(node);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
 	}
 	/** Applies this element's context to the given child */
-	fn apply_xmlns_context_to_child_node(df_xmlns: Option<String>, xmlns_context: HashMap<String, String>, node: &mut Box<dyn Node>) {
+	fn apply_xmlns_context_to_child_node(xmlns_context: HashMap<String, String>, node: &mut Box<dyn Node>) {
 		let is_element = node.is_element();
 		if is_element {
-			Self::apply_xmlns_context_to_child_element(
-				df_xmlns, xmlns_context,
-				node.as_element_mut().expect("logic error")
-			);
+			// update xmlns prefix context if we just added an element
+			node.as_element_mut().expect("logic error")
+				.set_namespace_context(xmlns_context);
 		}
 	}
-	/** Applies the default xmlns and prefixed xmlns context to the given child */
-	fn apply_xmlns_context_to_child_element(df_xmlns: Option<String>, xmlns_context: HashMap<String, String>, child: &mut Element) {
-		// update xmlns prefix context if we just added an element
-		child.set_namespace_context(
-			df_xmlns,
-			Some(xmlns_context)
-		);
-	}
 	/** Merges sequential text nodes and then discards empty text nodes and, unless there is other text, whitespace-only text nodes */
 	fn cleanup_text_nodes(&mut self) {
 		// check if there are children
@@ -1269,7 +1257,7 @@ impl Element {
 		// then apply the xmlns context to the elements
 		for i in elem_indices {
 			Self::apply_xmlns_context_to_child_node(
-				self.default_namespace(), self.xmlns_context.clone(),
+				self.get_namespace_context(),
 			&mut self.child_nodes[i]
 			);
 		}
@@ -1286,7 +1274,7 @@ impl Element {
 		// Note: if this is an element, set the namespace context
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
-			self.default_namespace(), self.xmlns_context.clone(),
+			self.get_namespace_context(),
 			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
diff --git a/src/lib.rs b/src/lib.rs
index 5032210..69939f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -701,10 +701,7 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 	let mut xmlns: Option<String> = None;
 	let mut xmlns_prefix: Option<String> = None;
 	// check parent for inherited namespaces
-	let (inherited_default_namespace, inherited_xmlns_context) = match parent {
-		None => (None, None),
-		Some(parent) => (parent.default_namespace(), Some(parent.get_namespace_context()))
-	};
+	let inherited_xmlns_context = parent.map(|parent| parent.get_namespace_context());
 	if name.contains(":"){
 		let (a, b) = name.split_once(":").unwrap();
 		name = b;
@@ -720,14 +717,14 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 						"invalid XML syntax on line {line}, column {col}: XML namespace prefix '{a}' has no defined namespace (missing 'xmlns:{a}=\"...\"')"
 					)).into());
 				}
-				Some(ctx) => {ctx.get(prefix_key.as_str()).map(String::clone)}
+				Some(_) => None // inherited, see below
 			}
 		};
 	}
 	let mut new_element = dom::Element::new(
 		name, None, Some(attrs), xmlns, xmlns_prefix, None
 	)?;
-	new_element.set_namespace_context(inherited_default_namespace, inherited_xmlns_context);
+	new_element.set_namespace_context(inherited_xmlns_context.unwrap_or_default());
 	Ok(new_element)
 }
 
-- 
2.43.0


From 17a44962cd0dd571e7b37972ade33238a46416c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 15/22] fix: dropping a deeply nested document overflowed the
 stack

---
 src/dom.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index bf15609..8737049 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -512,10 +512,9 @@ impl Element {
 	pub fn new_from_name(name: &str) -> Result<Self, KissXmlError> {
 		// sanity check
 		Element::check_elem_name(name)?;
-		Ok(Self {
-			name: name.to_string(),
-			..Default::default()
-		})
+		let mut elem = Self::default();
+		elem.name = name.to_string();
+		Ok(elem)
 	}
 	/** Creates a new Element with the specified name and attributes.
 	# Example
@@ -1582,6 +1581,18 @@ impl Default for Element {
 	}
 }
 
+impl Drop for Element {
+	fn drop(&mut self) {
+		// not recursive, so that dropping a deeply nested element does not overflow the stack
+		let mut nodes = std::mem::take(&mut self.child_nodes);
+		while let Some(mut node) = nodes.pop() {
+			if node.is_element() {
+				nodes.append(&mut node.as_element_mut().expect("logic error").child_nodes);
+			}
+		}
+	}
+}
+
 impl PartialOrd for Element {
 	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
 		self.name.partial_cmp(&other.name)
-- 
2.43.0


From 571c803cce3b23b4016d59d146f3959a72567e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 16/22] fix: quotes and brackets in comments inside of a DTD
 were taken for markup

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 69939f0..67b671d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -885,13 +885,16 @@ fn quote_aware_find(text: &str, pattern: &str, from: usize) -> Option<usize> {
 	None
 }
 
-/// like `quote_aware_find()` above, but the pattern is '>' and it skips both quoted content and nested <tags>
+/// like `quote_aware_find()` above, but the pattern is '>' and it skips quoted content, comments and nested <tags>
 fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 	let mut depth: i32 = 0;
 	let mut in_quote = false;
 	let mut quote_char = '\0';
+	let mut comment_end = 0;
 	for (i, c) in text[from..].char_indices() {
-		if in_quote {
+		if from + i < comment_end {
+			// inside of a comment, quotes and tags have no meaning here
+		} else if in_quote {
 			if c == quote_char { // end of quoted field
 				in_quote = false;
 			}
@@ -902,6 +905,8 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 			} else if c == '\'' { // start of single-quoted field
 				quote_char = '\'';
 				in_quote = true;
+			} else if text[(from + i)..].starts_with("<!--") {
+				comment_end = from + i + 4 + text[(from + i + 4)..].find("-->")? + 3;
 			} else if c == '<' {
 				depth += 1;
 			} else if c == '>' {
-- 
2.43.0


From 5ba237623d12e3d8662f10bb2910a7fe4f8879f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 17/22] fix: names containing the name character U+1680 were
 split or trimmed as whitespace

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67b671d..9256578 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -758,7 +758,7 @@ fn strip_tag(tag: &str) -> String {
 	if tag.starts_with("/") {tag = &tag[1..];}
 	if tag.ends_with(">") {tag = &tag[..tag.len().saturating_sub(1)];}
 	if tag.ends_with("/") {tag = &tag[..tag.len().saturating_sub(1)];}
-	tag.trim().to_string()
+	tag.trim_matches(is_xml_whitespace).to_string()
 }
 
 
@@ -826,6 +826,11 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	}
 }
 
+/// only these characters are whitespace in XML (eg the letter-like U+1680 may be part of a name)
+fn is_xml_whitespace(c: char) -> bool {
+	matches!(c, ' ' | '\t' | '\r' | '\n')
+}
+
 /// splits by whitespace, respecting quotes
 fn quote_aware_split(text: &str) -> Vec<String> {
 	let mut builder = String::new();
@@ -845,7 +850,7 @@ fn quote_aware_split(text: &str) -> Vec<String> {
 				// end of quoted text
 				in_quote = false;
 			}
-		} else if c.is_whitespace() {
+		} else if is_xml_whitespace(c) {
 			// break on whitespace
 			if builder.len() > 0 {
 				vec.push(builder);
-- 
2.43.0


From 8572a24b0fe54d668714ed271b1fffb76ac28934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 18/22] fix: the column of a syntax error was one too high, and
 its line if it stood at a line break

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9256578..cdf825e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -946,12 +946,12 @@ fn line_and_column(text: &String, pos: usize) -> (usize, usize){
 	let mut line = 1;
 	let mut col = 1;
 	for (i, c) in text.char_indices(){
+		if i >= pos {break;}
 		col += 1;
 		if c == '\n' {
 			line += 1;
 			col = 1;
 		}
-		if i >= pos {break;}
 	}
 	(line, col)
 }
-- 
2.43.0


From 618467bff7e5c6136f55e3e075ecdf64c9ee8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 19/22] fix: Declaration::from_str and DTD::from_string
 accepted text that cannot be read again, and from_str("<?>") panicked

---
 src/dom.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 8737049..8f185aa 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2044,7 +2044,8 @@ impl Declaration {
 	pub fn from_str(decl: &str) -> Result<Self, KissXmlError> {
 		// parsing XML declarations is beyond the scope of the kiss_xml crate
 		let buffer: String = decl.trim().to_string();
-		if buffer.starts_with("<?") && buffer.ends_with("?>"){
+		// (but it must be one declaration and nothing else, or the document could not be read again)
+		if crate::is_declaration(&buffer) && crate::next_tag(&buffer, 0) == (Some(0), Some(buffer.len())) {
 			Ok(Self{decl_str: buffer.strip_prefix("<?").unwrap().strip_suffix("?>").unwrap().to_string()})
 		} else {
 			Err(ParsingError::new("Invalid XML declaration syntax").into())
@@ -2087,7 +2088,8 @@ impl DTD {
 	pub fn from_string(text: impl Into<String>) -> Result<DTD, KissXmlError> {
 		// parsing DTDs is beyond the scope of the kiss_xml crate
 		let buffer: String = text.into().trim().to_string();
-		if buffer.starts_with("<!DOCTYPE") && buffer.ends_with(">"){
+		// (but it must be one DTD and nothing else, or the document could not be read again)
+		if buffer.starts_with("<!DOCTYPE") && crate::next_tag(&buffer, 0) == (Some(0), Some(buffer.len())) {
 			Ok(Self{dtd_str: buffer.strip_prefix("<!DOCTYPE").unwrap().strip_suffix(">").unwrap().to_string()})
 		} else {
 			Err(ParsingError::new("Invalid DTD syntax").into())
-- 
2.43.0


From 7a9fe4b1cd18b131d1ec5288e3a52dd51d7ebb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 20/22] fix: text outside of the root before a comment was
 reported at the position of the comment

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cdf825e..079097d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -504,7 +504,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			Some(content) => {
 				parse_stack.append(dom::Text::new(content))
 					.map_err(|e|{
-						let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
+						let (line, col) = line_and_column(&buffer, last_span.1);
 						errors::ParsingError::new(format!(
 							"{} (syntax error on line {line}, column {col})", e
 						))
-- 
2.43.0


From 7b62e17970c5757507a22c6e64db88de6d3e2b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 21/22] fix: elements of the same name that differ no longer
 compare as equal

PartialOrd for Element said Some(Equal) for elements that == calls different,
against the contract of PartialOrd.
---
 src/dom.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 8f185aa..d93cd77 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1595,7 +1595,11 @@ impl Drop for Element {
 
 impl PartialOrd for Element {
 	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-		self.name.partial_cmp(&other.name)
+		match self.name.partial_cmp(&other.name) {
+			// different elements of the same name are not ordered (Equal would contradict ==)
+			Some(Ordering::Equal) if self != other => None,
+			ordering => ordering
+		}
 	}
 }
 
-- 
2.43.0


From 97a1ebd0329417b71c791f00cecc5b5924439075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 22/22] fix: keep the line ends of parsing.rs as they were (an
 earlier fix had changed them)

---
 src/parsing.rs | 338 ++++++++++++++++++++++++-------------------------
 1 file changed, 169 insertions(+), 169 deletions(-)

diff --git a/src/parsing.rs b/src/parsing.rs
index f7199b1..df2f682 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,170 +1,170 @@
-/*!
- this module contains utilities exclusive to parsing
- */
-use std::cmp::Ordering;
-use std::collections::HashMap;
-use std::hash::Hasher;
-
-use crate::dom::*;
-use crate::errors::*;
-
-/** special tree data structure for parsing which uses ID's as keys in a HashMap to work around limitations in Rust's lifetime syntax. It is used like a stack, though internally it uses a HashMap based data arena */
-#[derive(Debug, Default)]
-pub struct ParseTree{
-	/** hold data in a non-tree format because Rust's lifetime syntax doesn't let you retrieve the lifetime from the parent of a node at runtime (lifetimes exist only at compile time, and even then there is no syntax for separately disentanlging reference-lifetimes from data-lifetimes) */
-	data: HashMap<usize, ParseTreeNode>,
-	/// current tip of the parsing tree, pointing to the "top" of the stack
-	pos: Option<usize>
-}
-
-impl ParseTree {
-	/// new parser tree
-	pub fn new() -> Self {
-		Self::default()
-	}
-	/// returns true if the simulated "stack" is empty, false otherwise. This can still return true
-	/// even if the internal HashMap is not empty
-	pub fn empty_stack(&self) -> bool {
-		match self.pos {
-			None => true,
-			Some(_) => false
-		}
-	}
-	/// push a new element to the stack
-	pub fn push(&mut self, new_element: Element) {
-		if self.pos.is_none() {
-			self.data.insert(0, ParseTreeNode{
-				id: 0,
-				value: Box::new(new_element),
-				parent_id: None,
-				child_ids: Vec::new(),
-			});
-			self.pos = Some(0);
-		} else {
-			let old_pos = self.pos.unwrap();
-			let new_pos = self.data.len();
-			self.data.get_mut(&old_pos).expect("logic error")
-				.child_ids.push(new_pos);
-			self.data.insert(new_pos, ParseTreeNode{
-				id: new_pos,
-				value: Box::new(new_element),
-				parent_id: Some(old_pos),
-				child_ids: Vec::new(),
-			});
-			self.pos = Some(new_pos);
-		}
-	}
-	/// pop the top element from the stack
-	pub fn pop(&mut self) -> Result<(), KissXmlError> {
-		if self.pos.is_none() {
-			return Err(ParsingError::new("closing tag without corresponding open tag").into());
-		}
-		let pos = self.pos.unwrap();
-		let new_pos = self.data
-			.get(&pos).expect("logic error").parent_id;
-		self.pos = new_pos;
-		Ok(())
-	}
-	/// append a node to the top element on the stack (without adding the new node to the stack)
-	pub fn append(&mut self, n: impl Node + 'static) -> Result<(), KissXmlError> {
-		if self.pos.is_none() {
-			return Err(ParsingError::new("no root element").into());
-		}
-		let pos = self.pos.unwrap();
-		let new_id = self.data.len();
-		self.data.get_mut(&pos).expect("logic error")
-			.child_ids.push(new_id);
-		self.data.insert(new_id, ParseTreeNode{
-			id: new_id,
-			value: Box::new(n),
-			parent_id: Some(pos),
-			child_ids: Vec::new(),
-		});
-		Ok(())
-	}
-	/// reference to the current element on top of the stack
-	pub fn top_element(&self) -> Option<&Element> {
-		match self.pos {
-			None => None,
-			Some(pos) => Some(
-				self.data.get(&pos).expect("logic error")
-					.value.as_element().expect("logic error")
-			)
-		}
-	}
-	/// converts the whole parse tree to a DOM, returning the root element
-	pub fn to_dom(mut self) -> Result<Element, KissXmlError> {
-		if self.data.is_empty() {
-			return Err(ParsingError::new("no root element").into());
-		}
-		// depth-first DOM construction
-		// the stack-based API ensures children always have higher ID number
-		// than their parents
-		// the challenge is that reverse index iteration will add children
-		// in opposite order
-		// solution is to flip the children when removing from the map
-		// (index 0 is root, so not included in loop)
-		for i in (1..self.data.len()).rev() {
-			let mut node = self.data.remove(&i).expect("logic error: missing index");
-			if node.value.is_element() {
-				// flip the children of element
-				node.value.as_element_mut().unwrap().reverse_children()
-			}
-			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
-			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
-				.value.as_element_mut().expect("logic error: parent is not an Element")
-				.push_child(node.value);
-		}
-		let root_node = self.data.remove(&0).expect("logic error: no root element");
-		let mut root = root_node.destruct();
-		// let mut e = **(root.as_any()
-		// 	.downcast_ref::<Box<Element>>()
-		// 	.expect("logic error: root is not an element"));
-		let e = root.as_element_mut().expect("logic error: root is not an element");
-		// flip children because they were added in reverse order
-		e.reverse_children();
-		// done
-		// use mem::take to do a "DerefMove" operation
-		return Ok(std::mem::take(e));
-	}
-}
-
-/** nodes in the parser tree */
-#[derive(Debug)]
-pub struct ParseTreeNode{
-	/// unique ID
-	id: usize,
-	/// DOM node
-	value: Box<dyn Node>,
-	/// parent element of this DOM node
-	parent_id: Option<usize>,
-	/// children of this DOM element
-	child_ids: Vec<usize>
-}
-
-impl ParseTreeNode {
-	/// used to move the value out of the struct
-	fn destruct(self) -> Box<dyn Node>{self.value}
-}
-
-impl PartialEq for ParseTreeNode {
-	fn eq(&self, other: &Self) -> bool {
-		self.id == other.id
-	}
-}
-impl Eq for ParseTreeNode{}
-impl std::hash::Hash for ParseTreeNode {
-	fn hash<H: Hasher>(&self, state: &mut H) {
-		self.id.hash(state)
-	}
-}
-impl PartialOrd for ParseTreeNode {
-	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-		Some(self.id.cmp(&other.id))
-	}
-}
-impl Ord for ParseTreeNode{
-	fn cmp(&self, other: &Self) -> Ordering {
-		self.partial_cmp(other).unwrap()
-	}
+/*!
+ this module contains utilities exclusive to parsing
+ */
+use std::cmp::Ordering;
+use std::collections::HashMap;
+use std::hash::Hasher;
+
+use crate::dom::*;
+use crate::errors::*;
+
+/** special tree data structure for parsing which uses ID's as keys in a HashMap to work around limitations in Rust's lifetime syntax. It is used like a stack, though internally it uses a HashMap based data arena */
+#[derive(Debug, Default)]
+pub struct ParseTree{
+	/** hold data in a non-tree format because Rust's lifetime syntax doesn't let you retrieve the lifetime from the parent of a node at runtime (lifetimes exist only at compile time, and even then there is no syntax for separately disentanlging reference-lifetimes from data-lifetimes) */
+	data: HashMap<usize, ParseTreeNode>,
+	/// current tip of the parsing tree, pointing to the "top" of the stack
+	pos: Option<usize>
+}
+
+impl ParseTree {
+	/// new parser tree
+	pub fn new() -> Self {
+		Self::default()
+	}
+	/// returns true if the simulated "stack" is empty, false otherwise. This can still return true
+	/// even if the internal HashMap is not empty
+	pub fn empty_stack(&self) -> bool {
+		match self.pos {
+			None => true,
+			Some(_) => false
+		}
+	}
+	/// push a new element to the stack
+	pub fn push(&mut self, new_element: Element) {
+		if self.pos.is_none() {
+			self.data.insert(0, ParseTreeNode{
+				id: 0,
+				value: Box::new(new_element),
+				parent_id: None,
+				child_ids: Vec::new(),
+			});
+			self.pos = Some(0);
+		} else {
+			let old_pos = self.pos.unwrap();
+			let new_pos = self.data.len();
+			self.data.get_mut(&old_pos).expect("logic error")
+				.child_ids.push(new_pos);
+			self.data.insert(new_pos, ParseTreeNode{
+				id: new_pos,
+				value: Box::new(new_element),
+				parent_id: Some(old_pos),
+				child_ids: Vec::new(),
+			});
+			self.pos = Some(new_pos);
+		}
+	}
+	/// pop the top element from the stack
+	pub fn pop(&mut self) -> Result<(), KissXmlError> {
+		if self.pos.is_none() {
+			return Err(ParsingError::new("closing tag without corresponding open tag").into());
+		}
+		let pos = self.pos.unwrap();
+		let new_pos = self.data
+			.get(&pos).expect("logic error").parent_id;
+		self.pos = new_pos;
+		Ok(())
+	}
+	/// append a node to the top element on the stack (without adding the new node to the stack)
+	pub fn append(&mut self, n: impl Node + 'static) -> Result<(), KissXmlError> {
+		if self.pos.is_none() {
+			return Err(ParsingError::new("no root element").into());
+		}
+		let pos = self.pos.unwrap();
+		let new_id = self.data.len();
+		self.data.get_mut(&pos).expect("logic error")
+			.child_ids.push(new_id);
+		self.data.insert(new_id, ParseTreeNode{
+			id: new_id,
+			value: Box::new(n),
+			parent_id: Some(pos),
+			child_ids: Vec::new(),
+		});
+		Ok(())
+	}
+	/// reference to the current element on top of the stack
+	pub fn top_element(&self) -> Option<&Element> {
+		match self.pos {
+			None => None,
+			Some(pos) => Some(
+				self.data.get(&pos).expect("logic error")
+					.value.as_element().expect("logic error")
+			)
+		}
+	}
+	/// converts the whole parse tree to a DOM, returning the root element
+	pub fn to_dom(mut self) -> Result<Element, KissXmlError> {
+		if self.data.is_empty() {
+			return Err(ParsingError::new("no root element").into());
+		}
+		// depth-first DOM construction
+		// the stack-based API ensures children always have higher ID number
+		// than their parents
+		// the challenge is that reverse index iteration will add children
+		// in opposite order
+		// solution is to flip the children when removing from the map
+		// (index 0 is root, so not included in loop)
+		for i in (1..self.data.len()).rev() {
+			let mut node = self.data.remove(&i).expect("logic error: missing index");
+			if node.value.is_element() {
+				// flip the children of element
+				node.value.as_element_mut().unwrap().reverse_children()
+			}
+			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
+			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
+				.value.as_element_mut().expect("logic error: parent is not an Element")
+				.push_child(node.value);
+		}
+		let root_node = self.data.remove(&0).expect("logic error: no root element");
+		let mut root = root_node.destruct();
+		// let mut e = **(root.as_any()
+		// 	.downcast_ref::<Box<Element>>()
+		// 	.expect("logic error: root is not an element"));
+		let e = root.as_element_mut().expect("logic error: root is not an element");
+		// flip children because they were added in reverse order
+		e.reverse_children();
+		// done
+		// use mem::take to do a "DerefMove" operation
+		return Ok(std::mem::take(e));
+	}
+}
+
+/** nodes in the parser tree */
+#[derive(Debug)]
+pub struct ParseTreeNode{
+	/// unique ID
+	id: usize,
+	/// DOM node
+	value: Box<dyn Node>,
+	/// parent element of this DOM node
+	parent_id: Option<usize>,
+	/// children of this DOM element
+	child_ids: Vec<usize>
+}
+
+impl ParseTreeNode {
+	/// used to move the value out of the struct
+	fn destruct(self) -> Box<dyn Node>{self.value}
+}
+
+impl PartialEq for ParseTreeNode {
+	fn eq(&self, other: &Self) -> bool {
+		self.id == other.id
+	}
+}
+impl Eq for ParseTreeNode{}
+impl std::hash::Hash for ParseTreeNode {
+	fn hash<H: Hasher>(&self, state: &mut H) {
+		self.id.hash(state)
+	}
+}
+impl PartialOrd for ParseTreeNode {
+	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+		Some(self.id.cmp(&other.id))
+	}
+}
+impl Ord for ParseTreeNode{
+	fn cmp(&self, other: &Self) -> Ordering {
+		self.partial_cmp(other).unwrap()
+	}
 }
\ No newline at end of file
-- 
2.43.0

