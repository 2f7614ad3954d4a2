#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Tree links stay mutually consistent",
  "After any sequence of structural edits (creating, appending, prepending, inserting before or after, detaching, removing, draining, copying nodes) that never inserts a node under its own descendant and never inserts next to a node that has no parent, every node's children read forward from its first child and backward from its last child are the same list, every listed child reports that node as its parent, and every node that reports a parent occurs exactly once in that parent's list. A node without a parent has no siblings.",
  ["histories"], "all finite edit histories over all forests, nodes of any document, including moves of a node inside its own parent",
  "Tests run a handful of fixed edit sequences; consistency must survive every interleaving of edits on every tree shape.",
  ["src/tree.rs", "src/document.rs"],
  [("five link fields per node updated together", "tree.rs append/prepend/insert_after/insert_before/detach")],
  [("parent/first_child/last_child/previous_sibling/next_sibling", "strong and weak links that encode the ordered tree", "tree.rs NodeData")],
  ["Node::parent", "Node::children", "Node::first_child", "Node::last_child", "Node::previous_sibling", "Node::next_sibling"])
p("C02", "Structural edits do exactly what they say and nothing else",
  "Appending makes the node the last child, prepending the first child, inserting before/after puts it immediately before/after the reference node (one that has a parent), and detaching leaves it without parent and siblings; in each case the node first leaves its old position. The relative order of all other children of every node, the moved node's own subtree, and every node's type, tag name, id, text, attributes and incoming-link list are unchanged.",
  ["histories", "inputs"], "all trees, all pairs of nodes (including first, last, only and adjacent children of the same parent)",
  "Existing tests only check the printed result of a few appends; frame conditions over all other nodes are never observed.",
  ["src/tree.rs"], [("detach then splice", "tree.rs Node::append, prepend, insert_after, insert_before, NodeData::detach")],
  None, ["Node::children", "Node::attributes", "Document::to_string"])
p("C03", "A node's root is always its topmost ancestor",
  "For every node at every moment, the reported root is the node reached by following parents until there is none; a node without a parent is its own root. This stays true for all descendants of a subtree that is moved, detached or removed.",
  ["histories"], "all edit histories and all nodes, including descendants of moved subtrees",
  "No test asks for the root of a node after its ancestor was moved.",
  ["src/tree.rs"], [("parent walk", "tree.rs Node::root")], None, ["Node::root", "Node::ancestors"])
p("C04", "Iterators visit exactly the right nodes, in order, from both ends",
  "The children, ancestor and sibling iterators yield exactly the corresponding nodes in order, and traversal yields, for each node of the subtree, one start and one end edge in document order (descendants: each subtree node once, in document order). For the double-ended iterators, any interleaving of taking from the front and from the back yields every item exactly once and then only none.",
  ["inputs", "schedules"], "all trees, all start nodes, all interleavings of front and back steps",
  "Tests use a few full forward iterations; interleavings of both ends over arbitrary shapes are unbounded.",
  ["src/tree.rs"], [("next_item/previous_item/finished", "tree.rs Traverse, Children, NodeEdge")],
  [("next / next_back", "two cursors of a double ended iterator", "tree.rs Children, Traverse")],
  ["Node::children", "Node::traverse", "Node::descendants", "Node::ancestors", "Node::preceding_siblings", "Node::following_siblings"])
p("C05", "Structural edits never panic on legal arguments",
  "With no outstanding borrow held by the caller, every structural edit that does not place a node below its own descendant, and every navigation call, returns normally, except the documented panic when a node is appended to, prepended to or inserted next to itself. In particular a node can be moved within its own parent and next to its current neighbour.",
  ["histories", "inputs"], "all forests and all argument pairs that do not insert a node under its own descendant",
  "Dynamic borrow conflicts depend on aliasing between the receiver, the moved node and its neighbours; tests cover almost none of these aliasings.",
  ["src/tree.rs"], [("borrow order", "tree.rs: detach before borrowing the receiver")], None, ["Node::append", "Node::insert_before"])
p("C06", "An element's attributes form a map with unique names",
  "After any sequence of setting, setting-if-absent and removing attributes, every attribute name occurs at most once; looking up a name yields the most recently set value that was not removed, and containment, length and iteration agree with lookup. Setting or removing one name does not affect the value of any other name, and a name given as an SVG id never equals a name given as a string.",
  ["histories", "inputs"], "all sequences of attribute operations, all SVG and custom names",
  "Tests set one or two names on one element; uniqueness and the frame over other names must hold for all histories.",
  ["src/attributes.rs", "src/node.rs", "src/name.rs"],
  [("insert replaces in place", "attributes.rs Attributes::insert"), ("remove before set", "node.rs set_simple_attribute")],
  None, ["Attributes::get", "Attributes::contains", "Node::has_attribute", "Attributes::iter"])
p("C07", "Incoming-link lists mirror link attributes exactly",
  "At any time, for any two nodes a and b, the number of times a occurs in b's list of linking nodes equals the number of a's attributes whose value refers to b; so the used flag and the use count are exact. This holds after setting, overwriting and removing attributes, removing and draining nodes, copying nodes and parsing a document.",
  ["histories"], "all histories of attribute operations, node removal, copying, and parsing, not using the raw mutable accessors",
  "Tests check a single link at a time; the invariant is global over all pairs and survives every overwrite order.",
  ["src/node.rs", "src/document.rs", "src/parser/mod.rs"],
  [("push on link, remove on unlink", "node.rs set_link_attribute, remove_attribute"), ("unlinking both directions", "document.rs _remove")],
  [("linked_nodes", "nodes that refer to this node", "lib.rs NodeData")],
  ["Node::linked_nodes", "Node::uses_count", "Node::is_used"])
p("C08", "Link attributes are accepted or refused exactly as documented",
  "Setting an attribute to a node succeeds unless the target has an empty id (must-have-id error), or the target has the same id as the element or already links to the element (crosslink error); a refused call changes nothing at all. An accepted link is stored as a plain link under the href name, as a paint (keeping the supplied fallback) under fill and stroke, and as a functional link under any other name.",
  ["inputs", "histories"], "all link graphs, ids and attribute names",
  "Tests show one instance of each error and never look at the state after a refusal.",
  ["src/node.rs", "src/error.rs"], [("checks before mutation", "node.rs set_link_attribute")], None,
  ["Node::set_attribute_checked", "Node::linked_nodes", "Attributes::get_value"])
p("C09", "Removing a node leaves no trace of its subtree",
  "After removing a node, it and all its descendants are detached from the tree and from the document, no attribute of any remaining node refers to any of them, no remaining node lists any of them as linking to it, and they hold no links themselves. All other nodes keep their position, and all attributes that did not refer into the removed subtree keep their value.",
  ["histories", "inputs"], "all documents, all link graphs (SVG and custom attribute names, several links between the same pair), all nodes other than the document root",
  "Tests remove one element linked once; subtrees with links in and out through arbitrary attributes are unbounded.",
  ["src/document.rs", "src/node.rs"], [("recursive unlink and detach", "document.rs Document::_remove")], None,
  ["Node::is_detached", "Node::attributes", "Node::linked_nodes", "Node::parent"])
p("C10", "Draining removes exactly the matching nodes and counts them",
  "Draining below a node removes every descendant that satisfies the predicate and has no matching ancestor below the start node, together with its subtree, and returns how many such topmost nodes there were. Everything else, including the start node, stays in place and in order.",
  ["inputs"], "all trees and all pure predicates",
  "Tests drain three small trees.",
  ["src/document.rs"], [("take next sibling before removal, recurse into kept nodes", "document.rs Document::_drain")], None, ["Document::drain", "Node::children"])
p("C11", "Copies equal their source except for the id",
  "Copying an element yields a new parentless element with the same tag name, an empty id and the same attributes with equal values; copying any other node yields the same type and text. A deep copy reproduces the child structure recursively in order, and the source (apart from the link lists of nodes the copies link to) is unchanged.",
  ["inputs"], "all nodes that can be copied, all subtrees, all attribute values incl. links",
  "Tests copy a few shapes without links.",
  ["src/document.rs"], [("create, then set each attribute; recurse over children", "document.rs copy_node, _make_deep_copy")], None, ["Document::copy_node", "Document::copy_node_deep"])
p("C12", "Documents own their nodes and release them all",
  "A created node belongs to its document until it is removed (reported as not detached) and a removed node no longer does; a fresh node is empty: no parent, no children, no attributes, no links, empty id. When a document is dropped, every node it still owns loses its attributes, links, parent, children and siblings, so no reference cycle keeps a node alive.",
  ["histories"], "all histories of creation, linking, tree edits and removals, followed by drop, with or without handles held by the caller",
  "Leaks and ownership are invisible to the existing assertions.",
  ["src/document.rs", "src/tree.rs", "src/lib.rs"], [("slab storage keyed by node", "document.rs Document::new, create_element, create_node, _remove"), ("Drop", "document.rs impl Drop for Document")],
  [("storage", "strong references of all nodes of the document", "document.rs Document")], ["Node::is_detached", "Rc strong counts"])
p("C13", "Names and ids convert both ways without loss",
  "For every SVG element and attribute id, the text is the SVG name the id is named after, and converting to text and back yields the same id; different ids have different texts. Converting any other string yields no id, and no string makes the conversion panic.",
  ["inputs"], "all 80/270 ids and all strings",
  "Tests touch the names that occur in their documents; the hash tables must work for every entry and every foreign string.",
  ["src/names.rs"], [("perfect hash lookup with key comparison", "names.rs Map::get, get_index, displace"), ("tables", "names.rs ELEMENTS, ATTRIBUTES")],
  None, ["ElementId::from_str", "ElementId::as_str", "AttributeId::from_str", "AttributeId::as_str"])
p("C14", "Element and attribute categories match their documented lists",
  "Each element category test (referenced, basic shape, shape, container, text content, text content child, graphic, gradient, paint server, filter primitive) is true exactly for elements with a tag in its documented list, and false for every other node. Each attribute category test (presentation, inheritable, events, conditional processing, core, fill, stroke) is true exactly for the SVG 1.1 list; inheritable attributes are the presentation attributes that SVG does not mark as non-inherited (visibility counted as non-inherited).",
  ["inputs"], "all element ids, all attribute ids, all node types",
  "No test calls most of these functions.",
  ["src/element_type.rs", "src/attribute_type.rs"], [("match tables", "element_type.rs is_func!, attribute_type.rs")], None, ["ElementType", "AttributeType"])
p("C15", "Default attribute values match the SVG property index",
  "The default-value query returns, for each presentation attribute with a known initial value, exactly that value with the documented type, and nothing for every other attribute. The default attribute constructed for an id carries that id and that value.",
  ["inputs"], "all attribute ids", "No test checks the whole table.",
  ["src/attribute_value.rs", "src/attribute.rs"], [("match table", "attribute_value.rs default_value")], None, ["AttributeValue::default_value", "Attribute::new_default"])
p("C16", "Attribute values serialize to the documented text",
  "Writing a value appends to the buffer and never changes what is already there: keywords as none, inherit and currentColor, strings verbatim, a plain link as # followed by the target's current id, a functional link as url(#id), a paint as url(#id) followed, if a fallback is present, by a space and that fallback. Every kind test on a value is true exactly for its own kind, and the link-container test exactly for the three link kinds. A value converted from a Rust or svgtypes value is of the kind of that type and carries it unchanged.",
  ["inputs"], "all attribute values, all buffers, all write options",
  "Tests print a few values.",
  ["src/attribute_value.rs"], [("write_buf_opt", "attribute_value.rs impl WriteBuffer"), ("impl_is_type!", "attribute_value.rs")], None, ["AttributeValue::write_buf_opt", "Display for AttributeValue"])
p("C17", "Style declarations win in cascade order",
  "When a document is parsed, an attribute of an element gets the value of the strongest valid declaration: the element's style attribute over any matching style sheet rule over the plain attribute, a more specific rule over a less specific one, and later over earlier otherwise. Only presentation attributes and transform are taken from styles; style and class themselves are never stored, and a declaration with an invalid value changes nothing.",
  ["inputs"], "all combinations of plain, sheet and inline declarations of the same attribute, including links and identity transforms",
  "Tests fix a few combinations, none with a link on the weaker side.",
  ["src/parser/mod.rs"], [("order of parse calls and override of pending links", "parser/mod.rs process_node, Links::append, Links::remove, parse_svg_attribute_value")], None, ["Document::from_str", "Attributes::get_value"])
p("C18", "Parsed references become real links or documented fallbacks",
  "After parsing, an attribute that referenced an id present in the document is a link to the first element in document order with that id, unless that would be a crosslink, in which case the reference is not stored. A reference to an absent id becomes its paint fallback if it has one, otherwise none for fill, the text #id for href, and the text url(#id) for anything else.",
  ["inputs"], "all documents: forward, backward, duplicate, missing, self and mutual references",
  "Tests resolve single references.",
  ["src/parser/mod.rs"], [("deferred resolution", "parser/mod.rs resolve_links")], None, ["Document::from_str", "Attributes::get_value", "Node::linked_nodes"])
p("C19", "Text preprocessing only touches whitespace",
  "Parsing never loses, adds, reorders or changes a non-whitespace character of any text or comment. In an element that starts with character data, tabs and line breaks become spaces, runs of spaces collapse where xml:space is default, and no xml:space attribute remains that the source did not have; the sole text of such an element is trimmed at both ends where xml:space is default and not trimmed where it is preserve. Words of an element's text that white space separates stay separated, also across child elements.",
  ["inputs"], "all texts, all nestings of xml:space",
  "Tests sample a few nestings; the pairwise space removal logic has dozens of cases.",
  ["src/parser/text.rs"], [("trim and pairwise boundary removal", "parser/text.rs trim, prepare_text_children"), ("temporary xml:space", "parser/text.rs get_xmlspace, prepare_text")], None, ["Document::from_str", "Node::text"])
p("C20", "Parsed attribute values have the documented type and range",
  "Opacity-like attributes and the arithmetic coefficients k1 to k4 are numbers clamped to 0..1, and each other parsed attribute gets the value kind its name (and for x, y, dx, dy and fill also its element) calls for: keywords as keyword values, list attributes as lists, transforms as transforms unless identity, everything else as a string. A value that does not parse is skipped without failing the document, and path data is kept up to its first error.",
  ["inputs"], "all attribute ids, element ids and attribute strings",
  "Tests cover a few attributes of a few elements.",
  ["src/parser/mod.rs"], [("dispatch on attribute id", "parser/mod.rs _parse_svg_attribute_value, f64_bound, parse_number")], None, ["Document::from_str", "Attributes::get_value"])
p("C21", "Parsing keeps exactly the SVG content, or reports an error",
  "For every input text parsing returns without panicking: an error, or a document whose first element child is svg and which contains, in source order and nesting, exactly the elements of the SVG namespace with SVG 1.1 names all of whose ancestors are such elements, except style elements and their content, plus all comments and all text that is not blank (or blank directly inside text, tspan, tref and later trimmed away if empty). Each element keeps its id and its recognised attributes; nothing else is stored. Document::svg_element returns the first child of the root that is an svg element, of any document.",
  ["inputs"], "all strings", "Tests parse a few dozen documents.",
  ["src/parser/mod.rs"], [("process_node filter", "parser/mod.rs parse_svg, process_node")], None, ["Document::from_str"])
p("C22", "The writer emits the tree faithfully under every option set",
  "Writing a document whose texts lie inside elements never panics and emits its elements, comments and texts in document order with matching nesting; each start tag carries the id if not empty, then the SVG attributes sorted by id, then custom attributes in stored order, each exactly once (only a unicode attribute whose value is not a string is left out), with href and space under their prefixed names. A top-level svg element declares the SVG namespace, and declares the xlink namespace exactly when some node of its subtree has an href attribute; writing never modifies the document.",
  ["inputs", "configurations"], "all trees, all write options",
  "Tests print a few trees with default-like options.",
  ["src/writer.rs"], [("traverse and emit", "writer.rs write_dom, write_attributes")], None, ["Document::to_string_with_opt"])
p("C23", "Writing and parsing again gives the same document",
  "For a document obtained by parsing, whose texts and values contain no ampersand or less-than sign, writing it with any options and parsing the result gives a document with the same elements, ids, attribute names, values and links, the same comments, and in each element the same text up to whitespace.",
  ["inputs", "configurations"], "all parsed documents in the stated class, all write options",
  "Tests compare a few outputs with expected strings and never parse an output again.",
  ["src/writer.rs", "src/parser/mod.rs", "src/parser/text.rs"], [("escaping, preserved whitespace in text elements", "writer.rs write_dom, write_escaped")], None, ["Document::to_string_with_opt", "Document::from_str"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
