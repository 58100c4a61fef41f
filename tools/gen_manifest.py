#!/usr/bin/env python3
"""writes /verif/MANIFEST.json; the notes live here"""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
T = "explicit-state, bounded-exhaustive model checking of the compiled code: "
checks = {
 "C01": ("every text of a bounded token grammar, every edit of rich documents, every character in context, size sweeps", "No panic, abort, stack overflow or hang on any explored text and on any recorded use of its tree; growth beyond the sweeps is assumed alike."),
 "C02": ("every tree up to a node bound x writing styles, and every text of a token grammar, against a reference parser", "The reference parser (mc/src/refparse.rs) is trusted for what the tree should be; texts it calls unspecified are skipped."),
 "C03": ("every text of a token grammar and every edit of rich documents, classified by a reference recogniser", "The reference recogniser says which texts are malformed; texts it calls unspecified are skipped."),
 "C04": ("every accepted text and every tree up to a bound, printed and parsed again, with several indents", "Compares through the public accessors."),
 "C05": ("breadth-first search over edit histories on a shadow model, saved and loaded in every state", "The shadow model of edits (mc/src/ops.rs, model.rs) is trusted; every state is compared with the real tree."),
 "C06": ("all strings of a token alphabet up to a length, every character, and long strings, against the inverse", "Escape and unescape are compared with reference functions and with a parse of the escaped text."),
 "C07": ("all strings over a reference-token alphabet, every code point as decimal and hexadecimal reference", "The reference decoder is trusted."),
 "C08": ("every element tree up to a node bound x declarations x prefixes, against a reference resolver", "The reference resolver (model.rs annotate) is trusted."),
 "C09": ("breadth-first search over edit histories that change declarations and move subtrees", "As C05, with namespaces in focus."),
 "C10": ("breadth-first search over insertions and removals at every index, against a list model", "Indices beyond isize::MAX are only required to be refused."),
 "C11": ("every tree up to a node bound x every subset of nodes as predicate, against a list model", "Predicates are label sets."),
 "C12": ("breadth-first search over additions and removals, and every child list up to a length, against a list model", "The reference normaliser is trusted."),
 "C13": ("every child list and tree up to a bound x every name and prefix query, against a filter model", "Node identity is compared by address."),
 "C14": ("every tree up to a bound x every search and every subset predicate, against a walk of the model", "Node identity is compared by address."),
 "C15": ("breadth-first search over attribute edits against a sorted map, and every map order", "Internal hash orders are covered by repeated construction until all orders of the explored maps were met."),
 "C16": ("every Unicode scalar as first and later character, and all short strings, at every entry that takes a name", "The XML name productions in refparse.rs are trusted."),
 "C17": ("all strings over a delimiter alphabet, by every constructor and setter, written and read back", "Round trip by the library's own parser and the reference parser."),
 "C18": ("every child list up to a length x white space between nodes, against a reference parser", "The reference parser is trusted."),
 "C19": ("every tree up to a node bound x every indent string, against a reference printer", "The reference printer (model.rs print) is trusted; byte-for-byte."),
 "C20": ("every prolog up to a token bound, and every declaration and DTD of a grammar, against a reference parser", "The reference parser is trusted."),
 "C21": ("every reader script up to a bound: splits, interruptions, errors and bad bytes at every position", "The reader, files and pipes are driven by the checker; network-like readers are represented by the scripts."),
 "C22": ("every sink script up to a bound: short writes, interruptions, failures at every byte; every target path state", "A full disk is represented by /dev/full; permissions are not explored (checks run as root)."),
 "C23": ("all pairs of a pool of nodes and documents, and every edit of a clone, against model equality", "The pool is a bounded set of trees closed under single changes."),
 "C24": ("every node of every tree up to a bound x every cast, type test and generic operation", "Casts are compared by address."),
 "C25": ("the full product of spellings over rich and small documents, against their plain spelling and the reference tree", "Spellings are those of model.rs Style; attribute values from a list of awkward ones and all strings of a token alphabet."),
 "C26": ("every defect behind every sequence of lines and nodes, and every malformed text of the token grammars, positions against a reference recogniser", "Where the first malformed item begins is decided by the reference recogniser (mc/src/refparse.rs)."),
 "C27": ("breadth-first search over histories of work on two and three documents on shadow models, and all sequences of texts up to a length", "One thread per history; all worker threads share the process."),
 "C29": ("breadth-first search over edit histories on a shadow model with every refused call in every state, and all strings of awkward tokens as names and content", "Which calls must be refused is stated per call in the check; the shadow model of edits is trusted."),
 "C30": ("every tree up to a node bound, built, listed, printed and thinned out in every documented way, the ways compared with each other and with the model", "Node identity is compared by address; the order of recursive listings is left open, as documented."),
 "C31": ("every nesting and every interleaving up to a preemption bound of pairs and triples of tasks, at the points where the library calls back into its user, under a controlled scheduler; and every preemption of one task by another at every basic block of the compiled library", "Within the library each call is stopped at most once (twice around accesses to static memory); sequentially consistent memory; a thread that waits for a lock is detected and the others go on. Compared with each task run alone."),
 "C32": ("all ordered pairs of a pool of nodes and of short contents and names, all triples of a part, and all pairs of edit histories up to a depth, against the order of the model", "The pool is a bounded set of elements that differ in one or two respects."),
 "C33": ("all trees up to a node bound x every iterator x all programs of consumption up to a length, against the sequence of plain iteration; all answer patterns of predicates, all interleavings of two iterators, every set of held items changed", "Plain iteration itself (next until None) is judged by C13 and C14. Programs combine at most 2 (thorough 3) steps of 9 with one of 14 ends."),
 "C28": ("every accepted text, built tree, value and edit history within the bounds, its output read by a strict reference parser", "The strict reference parser (refparse.rs) stands for any conforming XML processor."),
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
assert sorted(checks) == sorted(props), set(checks) ^ set(props)
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "checks": [{"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}", "evidence_file": f"evidence/{p}.json", "technique": T + checks[p][0], "level": "model_checking", "level_note": "Every case within the stated bounds was run on the code compiled from /repo and compared with the model; nothing is sampled. " + checks[p][1]} for p in props],
 "not_applicable": [],
 "notes": "No hooks: every check drives the public API. kiss_xml is built with a vendored copy of the regex crate that caches compiled patterns (mc/vendor). ./target/release/kxmc replay FILE runs a recorded violation again.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
