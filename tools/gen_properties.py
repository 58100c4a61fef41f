#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). The prose lives here."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
LIB, DOM, PAR, ERR = "src/lib.rs", "src/dom.rs", "src/parsing.rs", "src/errors.rs"

prop("C01", "Parsing is total: any text yields a document or an error, never a crash",
 "For every text string whatsoever (malformed, truncated, deeply nested, any Unicode), parsing it as XML terminates and returns either a document or an error value; it never panics, overflows, or loops. The same holds for displaying the returned error, for dropping a returned document, and for printing, cloning and comparing one of ordinary nesting depth.",
 ["inputs"], "every string; explored: every token string up to a length over an alphabet of all markup delimiters and 1-4 byte characters, in every syntactic context, every Unicode scalar in every context, every one- and two-edit neighbour of feature-rich documents, length and depth sweeps",
 "The tests feed truncations and single deletions of one ASCII document; byte-offset slicing with multi-byte characters, and the 5-token permutation test, is never run (ignored as too slow).",
 [LIB, PAR, ERR], [("index arithmetic of the scanner", "src/lib.rs next_tag, quote_aware_find, strip_tag, abbreviate, unescape"), ("stack guard", "src/parsing.rs ParseTree")], observe=["kiss_xml::parse_str", "Display of errors"])

prop("C02", "A well-formed document is parsed into exactly the tree it denotes",
 "For every well-formed document within the supported subset (elements, attributes, text, comments, CDATA), parsing succeeds and the resulting tree has exactly the source's elements, attributes, text, comments and CDATA sections, with the same nesting and order and the same names and values. Nothing is dropped, duplicated, merged, reordered or attached to the wrong parent, whatever the depth, breadth or size, apart from insignificant whitespace.",
 ["inputs"], "every well-formed document in the subset; explored: every tree up to a node bound over a label alphabet, each printed by an independent printer, plus depth/breadth/length sweeps",
 "Tests parse about ten fixed documents and look at a few counts; arena indexing, sibling order reversal and stack pops only go wrong for particular shapes.",
 [LIB, PAR, DOM], [("arena-backed element stack and its reverse-order conversion to a tree", "src/parsing.rs ParseTree::{push,pop,append,to_dom}"), ("tag scanner", "src/lib.rs next_tag, parse_new_element")],
 state=[("arena", "node id -> node, parent id", "src/parsing.rs ParseTree.data"), ("top", "currently open element", "src/parsing.rs ParseTree.pos")], observe=["parse_str", "Element::children"])

prop("C03", "Documents that are not well-formed are rejected",
 "Parsing returns an error, never a document, when tags are unclosed, crossed, mismatched or closed twice; when there is no root or more than one root element; when there is text outside the root; when an attribute is unquoted, has no value, or is repeated in one tag; when a tag, comment or CDATA section is unterminated; or when a tag is not of the form XML prescribes (illegal name, junk inside a tag, markup declarations inside the root).",
 ["inputs"], "every string outside the XML grammar in the listed ways; explored: every token string up to a length classified by an independent recogniser, and every structural damage to every small document",
 "One test (unclosed root) plus a handful of panic regressions check rejection.",
 [LIB, PAR], [("tag syntax check", "src/lib.rs check_element_tag"), ("open/close matching", "src/lib.rs parse_str"), ("root closed check", "src/lib.rs parse_str, src/parsing.rs")], observe=["parse_str result is Err"])

prop("C04", "Parse, serialize, parse again: nothing is lost and the text is a fixed point",
 "For every text the parser accepts and every valid indent, serializing the parsed document yields text that is accepted again and parses to an equal document (same declaration, DTDs and tree). Serializing that second document with the same indent gives byte-for-byte the same text.",
 ["inputs"], "every accepted document x every valid indent; explored: every accepted token string up to a length, every small well-formed tree, sweeps",
 "Round trips are tested on two fixed documents with no awkward characters, no DTD, no mixed content with inner whitespace.",
 [LIB, DOM, PAR], [("serializer", "src/dom.rs to_string_with_prefix_and_indent, Document::to_string_with_indent"), ("escaping", "src/lib.rs escape, text_escape, unescape")], observe=["parse_str", "Document::to_string_with_indent"])

prop("C05", "Any document built or edited through the API survives save and load",
 "For every document produced by the constructors and any sequence of edits (adding, inserting and removing nodes, replacing text, setting and removing attributes, editing comments and CDATA) in which every prefix in use is declared, its serialized text parses back, with any valid indent, to a document with the same elements, namespaces, attributes, text, comments and CDATA in the same order. Only runs of adjacent text may merge, and insignificant or empty text may disappear.",
 ["histories", "inputs"], "every edit history; explored: breadth-first over all operation sequences up to a depth over small but awkward argument domains",
 "Tests perform two or three scripted edit sequences; interactions (empty text, text next to removed nodes, adding before a sibling, names and values needing escapes) are not enumerated.",
 [DOM, LIB], [("edit operations", "src/dom.rs Element::{append,append_all,insert,remove,set_text,set_attr,...}"), ("serializer", "src/dom.rs")], observe=["Document::to_string_with_indent", "parse_str"])

prop("C06", "Escaping and unescaping are exact inverses",
 "For every string, unescaping the output of any of the three escape functions returns the original string. The escaped output contains no character reserved in its context (`<`, `>` or bare `&` in text; additionally both quote characters in attributes and full escaping), and characters that need no escaping pass through unchanged.",
 ["inputs"], "every string; explored: every string up to a length over reserved characters, reference fragments and 1-4 byte characters, and every Unicode scalar alone and next to an escape",
 "A single 5-character string is tested.",
 [LIB], [("replacement chains", "src/lib.rs escape, text_escape, attribute_escape"), ("in-place reference decoding", "src/lib.rs unescape, string_insert")], observe=["kiss_xml::escape", "kiss_xml::unescape"])

prop("C07", "References are decoded exactly once, and only in text and attribute values",
 "In element text and attribute values every occurrence of the five predefined entities and of a numeric character reference (decimal, or hexadecimal with x) is replaced by its character exactly once, wherever it occurs and whatever surrounds it. Everything else, including a bare ampersand, an unknown entity or an invalid reference, is kept literally, and comments and CDATA sections are never decoded.",
 ["inputs"], "every text or attribute content; explored: every sequence of reference fragments up to a length in text, attribute (both quotes), comment and CDATA position, every Unicode scalar as a reference",
 "Tests decode one string in which all references are adjacent ASCII.",
 [LIB], [("reference decoder", "src/lib.rs unescape"), ("callers", "src/lib.rs real_text, parse_new_element")], observe=["Text::text, Element::get_attr after parse_str", "kiss_xml::unescape"])

prop("C08", "Namespaces of a parsed document follow XML scoping",
 "After parsing, every element's namespace is the one its prefix (or, for an unprefixed element, the default declaration) is bound to by the nearest declaration on itself or an ancestor, prefixed ancestors included, with the empty declaration cancelling an inherited default. Declarations never leak to siblings or ancestors, inner declarations shadow outer ones, and an element lists as its own prefixes exactly those declared on it.",
 ["inputs"], "every arrangement of declarations and prefixes over a tree; explored: every assignment of declarations/prefixes from a small domain to every tree up to a bound",
 "Three fixed documents with all declarations on the root are tested; shadowing, undeclaring, and inheritance through prefixed parents are not.",
 [LIB, DOM], [("scope inheritance", "src/dom.rs set_namespace_context, xmlns_context_from_attributes, default_namespace"), ("lookup at parse time", "src/lib.rs parse_new_element")],
 state=[("scope", "prefix -> namespace visible at an element", "src/dom.rs Element.xmlns_context")], observe=["Element::{namespace,default_namespace,namespace_prefix,namespace_prefixes,tag_name}"])

prop("C09", "Edited trees have the namespaces their serialized form would have",
 "When an element is added to a tree by any operation, at any position and with any subtree below it, or a namespace declaration attribute is set or removed, each element in the tree reports the namespace that an XML parser would give it in the resulting document. A namespace and prefix passed to a constructor is reported by that element and is still there after saving and loading.",
 ["histories"], "every build/edit history; explored: every operation sequence up to a depth over elements with/without prefix, default and prefixed declarations, in all insertion positions",
 "One test appends one childless element to a root with a default namespace.",
 [DOM], [("scope application on attach", "src/dom.rs append_boxed, append_all, insert, apply_xmlns_context_to_child_*"), ("constructor", "src/dom.rs Element::new")], observe=["Element::namespace"])

prop("C10", "Child-list editing behaves as a sequence",
 "Appending, inserting at an index, removing at an index, removing the n-th child element, appending several, clearing and replacing by text act on an element's children exactly as on an ordered list: they affect only the position named, keep all other children in order, and return the node removed. An index out of range yields an out-of-bounds error carrying that index, and leaves the element unchanged.",
 ["histories"], "every operation sequence; explored: breadth-first over all sequences up to a depth on an element with nested children, every index including out of range",
 "Tests run a few single operations on one document.",
 [DOM], [("child vector edits", "src/dom.rs Element::{append,append_all,insert,remove,remove_element,clear_children,set_text}")],
 state=[("children", "ordered child nodes", "src/dom.rs Element.child_nodes")], observe=["Element::children"])

prop("C11", "Bulk removal removes exactly the matching nodes and reports their number",
 "Removing by predicate or by name deletes exactly the nodes that match: direct children for the non-recursive forms, matching nodes at every depth for the recursive forms, where a match goes together with its subtree. Non-matching nodes stay, in order and unmodified, and the returned number equals the number of matching nodes removed (not counting the contents of a removed subtree).",
 ["inputs", "programs"], "every tree and predicate; explored: every tree up to a node bound x every predicate expressible as a subset of node labels, for all five removal operations",
 "Tests remove one or two nodes; index shifting with adjacent, first, last and nested matches is what goes wrong.",
 [DOM], [("reverse-order removal", "src/dom.rs remove_by, remove_all, remove_elements, remove_all_elements, remove_elements_by_name")], observe=["Element::children, return value"])

prop("C12", "Adding nodes keeps an element's text normalised without losing text",
 "After any operation that adds nodes to an element, the element has no two adjacent text nodes and no empty text node, and whitespace-only text is present only if the element also has non-blank text. Adjacent texts are joined in order with every character preserved, and comments, CDATA sections and elements are never merged, dropped or moved.",
 ["histories"], "every sequence of additions of text/comment/CDATA/element nodes at every position; explored: breadth-first up to a depth over blank, empty, padded, and non-ASCII texts",
 "Tests never add adjacent, empty or blank text nodes.",
 [DOM], [("text clean-up after additions", "src/dom.rs cleanup_text_nodes, Text::concat, Text::is_whitespace")], observe=["Element::children, Element::text"])

prop("C13", "Direct-child queries return exactly the matching children, in order",
 "Listing child nodes or child elements, and selecting child elements by name, by namespace or by namespace prefix (or the absence of one), returns exactly the direct children that match, each once, in document order; the first-by-name query returns the first of them or a does-not-exist error. The mutable variants select the same children, and changes made through them are visible in the tree.",
 ["inputs"], "every child list x every query argument; explored: every child list up to a length over a label alphabet, all queries, mutable and immutable",
 "Tests count matches in two fixed documents.",
 [DOM], [("filters over the child vector", "src/dom.rs child_elements*, elements_by_*, first_element_by_name*")], observe=["iterator contents"])

prop("C14", "Recursive search and text extraction visit every descendant exactly once",
 "Iterating all descendants, and searching nodes, elements, element names, text nodes or comments recursively, yields exactly the matching nodes strictly below the element, each exactly once, at any depth. An element's text is the concatenation, in document order, of all text nodes below it and nothing else (no comments, no CDATA).",
 ["inputs"], "every tree; explored: every tree up to a node bound, from every element as start, plus depth and breadth sweeps",
 "Tests check counts on one document of depth three.",
 [DOM], [("recursive iterator", "src/dom.rs children_recursive, search*"), ("text concatenation", "src/dom.rs Node::text for Element")], observe=["search*, all_children, text()"])

prop("C15", "Attributes form a map and are written in one deterministic order",
 "Setting, getting, removing, clearing and listing attributes behave as a map from name to value: the last value set for a name wins, other attributes are unaffected, values may be any string, and removal returns the old value. In serialized output each attribute appears exactly once, with namespace declarations first and each group in ascending name order, so that elements with equal attributes are written identically however and in whatever order the attributes were set.",
 ["histories", "inputs"], "every sequence of attribute operations and every internal hash order; explored: breadth-first over operation sequences; all hash iteration orders of up to 4 attributes; all subsets of a name pool",
 "One test serializes one fixed set of attributes once; hash order is random per map, so a single run proves nothing.",
 [DOM, LIB], [("attribute map", "src/dom.rs set_attr, get_attr, remove_attr, clear_attributes, attributes"), ("ordering", "src/lib.rs attribute_order")], observe=["Element::to_string"])

prop("C16", "Only names that can be written as XML are accepted",
 "Every element name, prefix or attribute name the constructors and setters accept is written as markup that parses back with that same name. A name that is not an XML name (empty, starting with a digit or punctuation, or containing white space, quotes, `<`, `>`, `/`, `=` or `&`) is refused with an invalid-name error, leaving the element unchanged, while ordinary XML names (letters, digits, `_`, `-`, `.`, non-ASCII letters) are accepted.",
 ["inputs"], "every string as a name; explored: every string up to a length over name, near-name and delimiter characters, and every Unicode scalar in first and later position, for each entry point",
 "Two names with a leading hyphen are tested.",
 [DOM, LIB], [("name checks", "src/dom.rs check_elem_name, check_attr_name; src/lib.rs check_element_tag")], observe=["Element::new*, Element::set_attr, parse_str"])

prop("C17", "Comment and CDATA contents are kept verbatim or refused",
 "Every content accepted for a comment or CDATA section is stored unchanged, written unescaped, and parsed back as the same single node with the same content. Content containing the closing delimiter is refused with an invalid-content error by constructor and setter alike, and a refused update leaves the previous content in place.",
 ["inputs"], "every content string; explored: every string up to a length over delimiter fragments and markup characters, through constructor, setter and parser, in first/middle/last position",
 "One benign comment and one CDATA section are round-tripped.",
 [DOM, LIB], [("guards", "src/dom.rs Comment::new/set_content, CData::new/set_text"), ("scanner", "src/lib.rs next_tag, parse_str")], observe=["get_content, parse_str"])

prop("C18", "Whitespace: dropped between tags, fully preserved in elements with text",
 "When parsing, whitespace-only text is discarded in elements that contain no other text, and is preserved completely, as text nodes at its position, in elements that do contain text. Text is otherwise stored exactly as written, with no trimming, collapsing or line-end change, and only space, tab, carriage return and newline count as whitespace.",
 ["inputs"], "every interleaving of whitespace, text and child nodes; explored: every child sequence up to a length over whitespace/text/element/comment/CDATA items, nested, all Unicode scalars as sole content",
 "Tests contain one mixed-content sentence with no whitespace-only gap.",
 [LIB, DOM], [("blank text filter", "src/lib.rs real_text; src/dom.rs cleanup_text_nodes")], observe=["children, text() after parse_str"])

prop("C19", "Serialized layout is canonical and never alters mixed content",
 "Serialized XML is fully determined by the tree and the indent: an empty element is self-closed, an element whose only child is not an element is written inline, and other element-only content puts every child on its own line, one indent deeper than its parent. Inside an element that has text no whitespace is added at any depth. Valid indents are one tab or any number of spaces; any other indent gives the same output as the default two spaces.",
 ["inputs", "configurations"], "every tree x every indent; explored: every tree up to a node bound x indents valid and invalid, element- and document-level, compared byte for byte with a reference printer",
 "Tests compare three fixed trees with one or two indents.",
 [DOM, LIB], [("pretty printer", "src/dom.rs to_string_with_prefix_and_indent, to_string_with_indent"), ("indent validation", "src/lib.rs validate_indent")], observe=["to_string_with_indent, Display"])

prop("C20", "Declaration and DTDs are preserved verbatim through parse and serialize",
 "A document's XML declaration and its document type declarations, whatever text they contain, are reported after parsing, written before the root element verbatim and in their original order, and read back equal; setting or clearing them affects nothing else. The constructors of declarations and DTDs take any text: they keep it verbatim (but for surrounding white space) if it is one declaration or DTD that can be written and read back, and otherwise refuse it with an error. Comments before or after the root and processing instructions before it are skipped: a document is accepted with them as it would be without them, and neither they nor any other unsupported item ever change the declaration, the DTDs or the tree.",
 ["inputs", "histories"], "every prolog; explored: every sequence of prolog/epilog items up to a length with nested, quoted and multi-line DTDs; every sequence of setter calls up to a depth; every token string up to a length and every Unicode scalar in a declaration or DTD, through the constructors",
 "Tests count DTDs but never print one; declarations are only printed in the default form.",
 [LIB, DOM], [("prolog loop", "src/lib.rs parse_str"), ("verbatim storage", "src/dom.rs Declaration, DTD, Document")], observe=["Document::{declaration,doctype_defs,to_string}"])

prop("C21", "Reading from files and streams equals parsing the whole text",
 "Parsing a stream gives the same result as parsing the complete text, however the reader splits its data (in the middle of a character included) and however often it is interrupted; a file gives the same result as its content. A read error, a missing file or bytes that are not UTF-8 yield an I/O error, never a document made from partial data.",
 ["fault_sequences", "inputs"], "every reader behaviour; explored: every split of the input into chunks, every interruption pattern and every error position up to a bound",
 "Tests read one file from disk; a stream is never used and no reader misbehaves.",
 [LIB], [("read to end then parse", "src/lib.rs parse_stream, parse_filepath")], observe=["parse_stream, parse_filepath"])

prop("C22", "Writing delivers exactly the serialized text or reports an error",
 "Writing a document to a stream or path delivers exactly the bytes of its serialized text, whatever short writes and interruptions occur, in one tab or n-space indent as requested; if the sink fails at any point an error is returned. Writing to a path creates missing parent directories, replaces any previous content entirely (that of its target if the path is a link), and touches no other file.",
 ["fault_sequences"], "every sink behaviour; explored: every script of short writes, interruptions, zero-writes and errors up to a length; path cases in a scratch directory",
 "Tests write two files to a healthy disk.",
 [DOM], [("write_to_*", "src/dom.rs Document")], observe=["bytes received by the sink, io::Result"])

prop("C23", "Clone, equality and hashing are coherent",
 "Two nodes or documents are equal exactly when they have the same kind and the same names, prefixes, namespaces, attributes and children in the same order (documents: also declaration and DTDs); equality is reflexive and symmetric, and equal nodes hash equally. A clone equals its original and is fully independent: changing either one, at any depth, never affects the other.",
 ["inputs", "histories"], "every pair of nodes; explored: all pairs of trees up to a node bound; every single edit applied to a clone and to the original",
 "Tests compare nine pairs and clone one document.",
 [DOM], [("manual Clone/PartialEq/Hash", "src/dom.rs impl Clone/PartialEq/Hash, clone_node, node_eq")], observe=["==, clone, Hash"])

prop("C24", "Every node has exactly one kind, and casts agree with it",
 "Every node reports exactly one kind (element, text, comment or CDATA), consistently across all ways of asking; casting succeeds exactly to that kind, giving access to the same node, mutably and immutably, and fails with a type-cast error for every other kind. Boxing, storing in a tree and retrieving a node never changes its kind or content.",
 ["inputs"], "every node x every cast, boxed, in-tree and parsed; explored exhaustively over kinds and access paths",
 "Tests check immutable casts on one parsed document.",
 [DOM], [("Node trait implementations", "src/dom.rs impl Node for Element/Text/Comment/CData")], observe=["is_*, as_*, node_type"])

prop("C25", "Equivalent spellings of a document parse to equal documents",
 "Documents that differ only in quote style around attribute values, in whitespace inside tags (between attributes, around the equals sign, before the closing bracket), in attribute order, or in writing an empty element as one self-closing tag or as an open/close pair parse to equal documents. Values may contain the other quote character, angle brackets in escaped or (for `>`) raw form, equals signs, slashes and any whitespace without being misread.",
 ["inputs"], "every combination of spelling choices; explored: full product of spellings for tags with up to 3 attributes over awkward values, nested two levels",
 "Tests swap all quotes of five documents and space one set of attributes.",
 [LIB], [("quote-aware scanning and splitting", "src/lib.rs quote_aware_find, quote_aware_split, join_spaced_attributes, check_element_tag, strip_tag")], observe=["parse_str equality"])

prop("C26", "A syntax error names the line and column of what is wrong",
 "When a text is refused because a tag, comment, CDATA section, DTD or text in it is malformed, misplaced or does not match, the error message names the line and the column (both counted from 1, lines ended by a newline, columns counted in characters) at which the first such tag or text begins; for text outside of the root this may be any point from the end of what precedes it to its first visible character. This holds whatever lines, wide characters, comments or nested markup come before. Only errors about what is missing at the end of the text (no root element, an element never closed) may name no position.",
 ["inputs"], "every malformed text; explored: every defect of a list behind every sequence of lines, wide characters and nodes up to a length, in the prolog, content and epilog; every malformed text of the token grammars and every edit of rich documents",
 "No test looks at an error message; the position is computed from byte offsets and depends on everything that precedes the error.",
 [LIB], [("position of an error", "src/lib.rs line_and_column"), ("error sites", "src/lib.rs parse_str, parse_new_element")], observe=["Display of the error of parse_str"])

prop("C27", "Documents are independent of each other and of what was read before",
 "What a text is parsed into, or why it is refused, depends on that text alone, not on anything parsed, refused, edited or printed earlier in the process. Editing, printing or replacing one document never changes another one, even if parts of one were cloned or moved into the other; a moved part belongs to its new document only and takes the namespaces of its new place, and printing a document any number of times gives the same text.",
 ["histories"], "every history of work on several documents; explored: breadth-first over all histories up to a depth of reading, failing to read, editing, cloning, moving, copying, swapping, replacing and printing over two and three documents; all sequences of texts up to a length",
 "Every test works on documents of its own and in one fixed order.",
 [LIB, DOM, PAR], [("lazily built matchers", "src/lib.rs ELEM_MATCHER_SINGLETON, IS_BLANK_MATCHER_SINGLETON; src/dom.rs"), ("element ownership and namespace context", "src/dom.rs Element::{append_boxed,insert,remove,clone}")], observe=["parse_str, Document accessors, to_string"])

prop("C28", "Whatever is written is XML that any XML processor reads the same way",
 "The serialized text of every document, parsed, built or edited, is well-formed, namespace-well-formed XML in the strict sense (every ampersand starts a reference, no `<` in attribute values, no `]]>` in text, one root, unique attributes), and denotes the same tree with the same names, namespaces, attribute values, text, comments and CDATA for any conforming processor (apart from white space normalised by XML itself). This is required of documents that XML can express: only characters XML allows, comments without `--` or a final `-`, every prefix in use declared, a regular declaration and DTDs.",
 ["inputs", "histories"], "every document; explored: every accepted text of the token grammars and edits of rich documents, every small built tree, every value of awkward tokens and every Unicode scalar through every entry, every edit history up to a depth, read by a strict reference parser",
 "Tests read output back only with the library itself, which is more lenient than XML (it accepts bare ampersands, `<` in attribute values and `]]>` in text).",
 [DOM, LIB], [("escaping on output", "src/lib.rs text_escape, attribute_escape"), ("serializer", "src/dom.rs to_string_with_prefix_and_indent, Document::to_string_with_indent")], observe=["Document::to_string_with_indent"])

prop("C29", "A refused call reports its error and changes nothing",
 "Every call that cannot be carried out (an index out of range, an attribute or element name XML does not allow, content holding its closing delimiter, a cast to another kind, a search for a name that is not there, writing to a failing sink or path) returns the documented kind of error and does not panic; an index error names the index asked for and the valid range, and an error keeps its meaning and message when converted to the general error of the crate. It has no effect whatsoever: tree, attributes, text, declaration, DTDs, equality, hash and output stay as they were, and later calls act as if it had never been made. Constructors and setters agree on what they refuse.",
 ["histories", "inputs"], "every history of edits with every refused call anywhere in it; explored: breadth-first over edit histories up to a depth with all refused calls on every node before and after each edit, child lists of every size up to a bound, every string of awkward tokens as a name or content",
 "Tests check that a handful of calls return an error; none looks at what is left behind or continues afterwards.",
 [DOM, ERR], [("bounds checks", "src/dom.rs Element::{insert,remove,remove_element}"), ("name and content checks", "src/dom.rs set_attr, Comment::set_content, CData::set_text, constructors"), ("error types", "src/errors.rs")], observe=["Result of every fallible call; accessors and output afterwards"])

prop("C30", "Ways of doing the same thing agree",
 "Methods documented as different ways of the same thing agree on every tree: display, debug, to_string, to_string_with_indent and the writers give the same text; children, child_elements, queries, attributes and their mutable twins list the same nodes, and the recursive listings and searches the same set; appending one by one, all at once, boxed, as clones or by inserting at the end, each constructor and the setters it stands for, each kind of removal and the general removal it is a case of, and a document made by constructor, by setters or by reading its text, yield equal nodes that are written identically.",
 ["inputs"], "every tree; explored: every tree up to a node bound over elements with attributes, prefixes and declarations and over text, comments and CDATA, built in every way, listed in every way, printed in every way and thinned out in every way",
 "Tests use each method once, on trees of their own, and never compare two ways of saying the same.",
 [DOM, LIB], [("twin methods", "src/dom.rs Element::{append,append_boxed,append_all,insert}, *_mut, new_with_*, remove_*"), ("printing", "src/dom.rs Display, Debug, Node::to_string_with_indent, Document::write_*")], observe=["accessors, ==, hash, to_string"])

prop("C31", "Calls running side by side or inside callbacks do not disturb each other",
 "The library calls back into its user: readers and sinks, predicates of searches and removals, conversions of arguments into strings, and between the steps of an iterator. Whatever other call on other documents is made at such a point, on the same thread (nested, to any depth), or on another thread at any moment whatever, every call has exactly the result it has when it is made alone, none panics and none blocks for good.",
 ["schedules"], "every interleaving of calls; explored: every pair of 28 and every triple of 20 tasks (reading, writing, failing to do so, searching, removing, editing, building, constructing, escaping, comparing), nested at every point and twice nested, and on two and three threads under a controlled scheduler, every schedule up to a preemption bound; and one task run at every basic block of another one, on first and on later use",
 "Tests run one call at a time and their predicates and streams do nothing but answer; which calls overlap at which point is never varied.",
 [LIB, DOM], [("streams", "src/lib.rs parse_stream; src/dom.rs Document::write_to_file*"), ("predicates", "src/dom.rs search*, remove_*"), ("conversions", "impl Into<String> arguments throughout"), ("lazily built matchers", "src/lib.rs ELEM_MATCHER_SINGLETON, IS_BLANK_MATCHER_SINGLETON; src/dom.rs WSP_MATCHER_SINGLETON")], observe=["results of all calls"])

prop("C32", "Nodes of a kind are ordered consistently with equality",
 "Comparing two nodes of one kind with <, <=, >, >= or partial_cmp orders texts, comments and CDATA sections by their content and elements by their name, character by character; declarations and DTDs have a total order. All ways of comparing agree, swapping the operands reverses the answer, chains are transitive, and two values compare as equal exactly when they are equal: different elements of the same name are not ordered at all. How a node was made or edited before makes no difference.",
 ["inputs", "histories"], "every pair and triple of nodes of a kind; explored: all ordered pairs of a pool of elements that differ in one or two respects, all triples of a part of it, all pairs of short contents and names, long ones that differ in one place, all pairs of elements reached by edit histories up to a depth",
 "No test compares nodes with < or sorts them.",
 [DOM], [("PartialOrd, Ord", "src/dom.rs impl PartialOrd for Element, Text, Comment, CData; derives of Declaration and DTD")], observe=["partial_cmp, <, <=, >, >=, cmp"])

prop("C33", "Iterators deliver the same items however they are consumed",
 "Every iterator the library returns (children, queries by name, namespace and prefix, recursive listings and searches, DTDs, and the mutable ones) delivers the same items in the same order, whether consumed one by one, with nth, skip, take, step_by, any, position, fold, count, last or collect, in any combination, alone or side by side with others, and a second time as the first. Its size hint never contradicts what is still to come; once ended it stays ended; abandoning it at any point changes nothing. A search asks its predicate exactly once about each node of its kind below the element and delivers exactly those for which the answer was yes. All items of a mutable iterator may be held at once, and each change made through one shows at its place and nowhere else.",
 ["inputs", "histories"], "every tree, every way to consume; explored: all trees up to a node bound x 23 iterators x all programs of consumption up to a length, lists and chains of every size up to a bound, every pattern of answers of predicates, all interleavings of pairs of iterators, every set of items changed",
 "Tests run iterators from start to end in for loops, with predicates that depend on the node alone.",
 [DOM], [("iterators", "src/dom.rs Element::{children*, child_elements*, elements_by_*, all_children, search*}, Document::doctype_defs*")], observe=["items of the iterators by address, size_hint, the calls of predicates, the tree afterwards"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p, s)
    except ImportError:
        pass
    print(len(P), "properties")
