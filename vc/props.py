"""Which contracts decide which property.

units    contracts whose obligations decide the property (their callees' contracts are proved in the same run)
also     [(contracts, regular expression over labels)] that decide it too
labels   regular expression over obligation labels that count against this property (default: all)
parts    specification files under vc/verus/
"""
import re
import contracts_tables as T
import contracts_names as N
import contracts_parse as P
import contracts_writer as W
import contracts_resolve as R
import contracts_text as X
import contracts_xml as M

SAFETY = r'no panic|borrow|precondition of'
# obligations about our own annotations: if only these fail, the proof is lost but nothing is refuted
ANNOTATION = r'footprint|loop \d+ invariant|loop \d+ terminates|inferred loop invariant|the recursion goes down|^\(line \d+\)$'

EDITS = ['TreeData::detach', 'Node::detach', 'Node::append', 'Node::prepend', 'Node::insert_after', 'Node::insert_before']
GETTERS = ['Node::parent', 'Node::first_child', 'Node::last_child', 'Node::previous_sibling', 'Node::next_sibling', 'Node::has_children']
ITERS = ['Ancestors::next', 'PrecedingSiblings::next', 'FollowingSiblings::next', 'Node::ancestors', 'Node::preceding_siblings', 'Node::following_siblings',
         'Node::children', 'Children::next', 'Children::next_back', 'NodeEdge::next_item', 'NodeEdge::previous_item', 'Node::traverse', 'Node::descendants',
         'Traverse::next', 'Traverse::next_back', 'Descendants::next']

ATTRS = ['Attributes::' + f for f in ('new', 'len', 'is_empty', 'contains', 'get', 'get_value', 'insert', 'remove', 'clear')]
NAMES = ['QName::as_ref', 'QName::has_id', 'QName::eq', 'QName::clone', 'QName::from', 'QNameRef::has_id', 'QNameRef::eq', 'QNameRef::from#0', 'QNameRef::from#1',
         'Attribute::new', 'Attribute::id', 'Attribute::has_id', 'Attribute::is_svg', 'Attribute::clone']
SETTERS = ['Node::' + f for f in ('remove_attribute', 'set_simple_attribute', 'set_link_attribute', 'set_attribute_checked_impl', 'set_attribute_checked',
                                  'set_attribute', 'set_attribute_if_none')]

DOC = ['base', 'tree', 'iter', 'links', 'doc']
DOCS = ['Document::' + f for f in ('new', 'create_element', 'create_node', 'remove_node', '_remove', 'drain', '_drain', 'copy_node', 'copy_node_deep', '_make_deep_copy')]
XMLPARTS = ['base', 'tree', 'iter', 'links', 'doc', 'parse', 'cascade', 'resolve', 'text', 'xml']
XMLASSUME = ['roxmltree: Document::parse is a function of the text, its accessors (node type, names, attributes, children, text, siblings) are functions of the node; every XML tree is finite; a text or comment node has a text',
             'simplecss: Selector::matches is a function of the selector and the element, StyleSheet::parse_more of the sheet and the text',
             'svgtypes never parses an empty reference (axiom_iri)',
             'parse_svg starts with no node of its own: nodes of other documents are out of its reach (its only argument is a string and there are no globals)',
             'a Document or node dropped on an error path has no further effect']
PROPS = {
    'C01': dict(units=EDITS + GETTERS, parts=DOC, also=[(DOCS, r'ensures wf\(h\)')]),
    'C02': dict(units=EDITS, parts=['base', 'tree']),
    'C03': dict(units=['Node::root', 'Node::parent', 'Node::eq', 'Node::clone'] + EDITS, parts=['base', 'tree']),
    'C04': dict(units=ITERS + ['NodeEdge::eq', 'NodeEdge::clone'], parts=['base', 'tree', 'iter']),
    'C06': dict(units=ATTRS + NAMES + SETTERS + ['Node::has_attribute'], parts=['base', 'tree', 'links'], theorems=['lemma_put', 'lemma_without'],
                bounded='get_mut, get_value_mut, iter, iter_mut (they hand out references into the list)'),
    'C07': dict(units=SETTERS + ['Node::is_used', 'Node::uses_count', 'Attributes::insert', 'Attributes::remove'], parts=DOC, also=[(DOCS, r'ensures lk\(h\)')]),
    'C08': dict(units=SETTERS + ['Attribute::from#0', 'Attribute::from#1', 'Attribute::from#2', 'Attribute::new', 'QName::has_id', 'QNameRef::has_id', 'Node::eq'], parts=['base', 'tree', 'links']),
    'C09': dict(units=['Document::remove_node', 'Document::_remove', 'Node::remove_attribute', 'Node::detach'], parts=DOC),
    'C10': dict(units=['Document::drain', 'Document::_drain', 'Document::_remove'], parts=DOC,
                assumptions=['the predicate given to drain is a function of the node and of the types, tag names, ids and texts of nodes (spec predicate stable)']),
    'C11': dict(units=['Document::copy_node', 'Document::copy_node_deep', 'Document::_make_deep_copy', 'Document::create_element', 'Document::create_node'], parts=DOC),
    'C12': dict(units=['Document::new', 'Document::root', 'Document::create_element', 'Document::create_node', 'Document::remove_node', 'Document::_remove', 'Document::drop'], parts=DOC),
    'C13': dict(units=[en + f for en in N.KIND for f in ('::from_str', '::as_str')] + ['Map::get', 'Map::key', 'get_index', 'split', 'displace', 'hash'], parts=['base', 'tree'],
                theorems=['lemma_convert', 'lemma_distinct'],
                assumptions=['the siphasher crate computes SipHash-1-3 (its result on every listed name is recomputed inside the verifier)',
                             'the UTF-8 encoding of an ASCII string is its codes']),
    'C14': dict(units=['Node::is_' + c for c in T.EL_CATS] + ['AttributeId::is_' + c for c in T.AT_CATS] + ['Attribute::is_' + c for c in T.AT_CATS] +
                ['Node::tag_id', 'Node::is_svg_element', 'Attribute::id', 'Attribute::is_svg'], parts=['base', 'tree', 'links']),
    'C15': dict(units=['AttributeValue::default_value', 'Attribute::new_default', 'Attribute::new'], parts=['base', 'tree', 'links']),
    'C16': dict(units=['AttributeValue::write_buf_opt', 'AttributeValue::is_link_container'] + ['AttributeValue::is_' + k for k in T.KINDS] +
                ['Attribute::is_' + k for k in T.KINDS if k != 'angle'] + ['AttributeValue::from(%s)' % t for t in T.FROM], parts=['base', 'tree', 'links'],
                assumptions=['the text svgtypes writes for its own types (lengths, colours, paths, numbers) is an uninterpreted function of the value and the options']),
    'C20': dict(units=['_parse_svg_attribute_value', 'parse_svg_attribute_value', 'parse_number', 'f64_bound', 'Links::append', 'Links::remove'],
                parts=['base', 'tree', 'iter', 'links', 'parse'],
                bounded='the way from the source text to parse_svg_attribute_value is decided by the check of C21 (process_node), not here',
                assumptions=['svgtypes\' parsers are functions of the text (uninterpreted): the kind of value and the handling of errors are proved, not the grammar of lengths, colours, paths']),
    'C17': dict(units=['parse_css_attribute_value', 'parse_style_attribute', 'parse_svg_attribute', 'parse_svg_attribute_value', '_parse_svg_attribute_value', 'Links::append', 'Links::remove',
                       'AttributeId::is_presentation', 'AttributeId::from_str', 'process_node', 'resolve_css', 'XmlNode::parent_element', 'XmlNode::prev_sibling_element', 'XmlNode::has_local_name',
                       'XmlNode::attribute_matches', 'XmlNode::pseudo_class_matches'], parts=XMLPARTS, errors=3,
                theorems=['lemma_cascade_wins', 'lemma_read_join', 'lemma_elem_put'],
                bounded='which elements a selector selects and the order of rules by specificity (simplecss), given the answers of XmlNode',
                assumptions=['simplecss splits a declaration list into declarations and orders rules by specificity; svgtypes\' parsers are functions of the text'] + XMLASSUME),
    'C21': dict(units=['Document::from_str', 'parse_svg', 'process_node', 'resolve_css', 'Document::svg_element', 'parse_svg_attribute', 'ElementId::from_str', 'AttributeId::from_str'], parts=XMLPARTS, errors=3,
                theorems=['lemma_kids_next', 'lemma_element_done', 'lemma_root_next', 'lemma_first_x', 'lemma_page_drained', 'lemma_page_resolved', 'lemma_parsed'],
                bounded='that roxmltree\'s tree is the tree of the text; what is left of a text after its removal steps is C10 and C19',
                assumptions=XMLASSUME),
    'C18': dict(units=['resolve_links', 'Node::set_attribute_checked', 'Node::set_attribute', 'Node::set_attribute_checked_impl', 'Node::set_link_attribute', 'Node::is_detached',
                       'Node::id', 'Node::descendants', 'Descendants::next', 'Traverse::next', 'Attribute::from#0', 'Attribute::from#1', 'Attribute::from#2', 'Links::append', 'Links::remove'],
                parts=['base', 'tree', 'iter', 'links', 'doc', 'parse', 'cascade', 'resolve'], theorems=['lemma_links_resolved'],
                assumptions=['Iterator::find returns the first item of the sequence the iterator yields'],
                bounded='that the pending references handed to resolve_links are those of the source is decided by the checks of C17 and C21 (process_node), not here'),
    'C22': dict(units=['Document::to_string_with_opt', 'write_dom', 'write_attributes', 'write_escaped', 'AttributeValue::write_buf_opt', 'Node::traverse', 'Traverse::next',
                       'Descendants::next', 'Node::descendants', 'AttributeId::as_str', 'ElementId::as_str', 'Node::has_attribute', 'Node::has_tag_name', 'Node::node_type',
                       'Attributes::get'],
                parts=['base', 'tree', 'iter', 'links', 'names', 'writer'], theorems=['lemma_nest', 'lemma_depth', 'lemma_ids_of'],
                assumptions=['xmlwriter: the text is a function of its options and of the sequence of calls (start, attribute, text, comment, end); write_attribute needs an open start tag and write_text an open element, '
                             'otherwise it panics', 'the std iterator adaptors filter_map, map, collect, any and sort_by_key have their documented meaning on the sequence an iterator yields'],
                bounded='the text xmlwriter makes of the calls (indentation, quotes)'),
    'C19': dict(units=['prepare_text', '_prepare_text', 'prepare_text_children', 'get_xmlspace', 'set_xmlspace', 'collect_text', 'trim', 'String::remove_first', 'String::remove_last',
                       'Document::drain', 'Document::_drain', 'Document::_remove', 'Node::set_text', 'Node::remove_attribute', 'Node::set_attribute', 'Descendants::next', 'Children::next'],
                parts=DOC + ['text'], theorems=['lemma_norm', 'lemma_sole', 'lemma_norm_ink', 'lemma_pared_ink', 'lemma_trim_inked'],
                assumptions=['Iterator::filter over the children of a node yields the children the closure accepts, in order'],
                bounded='that words stay separated across child elements is sampled only; the way from the XML tree to the text nodes is decided by the check of C21 (process_node), not here'),
    'C05': dict(units=EDITS + GETTERS + ITERS + ['Node::root'], parts=['base', 'tree', 'iter'], labels=SAFETY),
}

# contracts of private functions: when one fails the function is inlined into its callers instead
WRITER = {'write_dom', 'write_attributes', 'write_escaped', 'Document::to_string_with_opt'}
CASCADE = {'parse_css_attribute_value', 'parse_style_attribute', 'parse_svg_attribute'}
PRIVATE = {'TreeData::detach', 'resolve_links', 'NodeEdge::next_item', 'NodeEdge::previous_item', 'Node::set_simple_attribute', 'Node::set_link_attribute',
           'Node::set_attribute_checked_impl', 'Attributes::insert', 'Attributes::remove', 'Attributes::clear', 'Attributes::new',
           'parse_css_attribute_value', 'parse_style_attribute', 'parse_svg_attribute',
           'write_dom', 'write_attributes', 'write_escaped',
           '_prepare_text', 'prepare_text_children', 'get_xmlspace', 'set_xmlspace', 'collect_text', 'trim', 'String::remove_first', 'String::remove_last',
           '_parse_svg_attribute_value', 'parse_svg_attribute_value', 'parse_number', 'f64_bound', 'Links::append', 'Links::remove',
           'Map::get', 'Map::key', 'get_index', 'split', 'displace', 'hash', 'resolve_css', 'XmlNode::prev_sibling_element'}


RECURSIVE = {'_prepare_text', 'collect_text', 'process_node'}
# what a private recursive function asks of its callers is our annotation of the recursion, too
OWN_PRECONDITION = r'precondition of (_prepare_text|collect_text|process_node|Document::_make_deep_copy|Document::_remove|Document::_drain)$'


def all_contracts():
    import contracts_tree
    cs = contracts_tree.contracts()
    cs.update(contracts_tree.iter_contracts())
    import contracts_links, contracts_node
    cs.update(contracts_links.contracts())
    cs.update(contracts_node.contracts())
    import contracts_doc
    cs.update(contracts_doc.contracts())
    cs.update(T.contracts())
    cs.update(N.contracts())
    cs.update(P.contracts())
    cs.update(W.contracts())
    cs.update(R.contracts())
    cs.update(X.contracts())
    cs.update(M.contracts())
    return cs


def extra(gen, keys, parts=()):
    """generated specification text needed by these contracts"""
    casc = 'cascade' in parts
    wr = 'writer' in parts
    return (M.extra(gen) if 'xml' in parts else '') + (W.extra(gen) if wr else '') + (T.extra(gen) if casc or wr or any(k in T.contracts() for k in keys) else '') + (N.extra(gen) if casc or wr or any(k in N.contracts() for k in keys) else '') + (
        P.extra(gen) if casc or any(k in P.contracts() for k in keys) else '')


def extra_units(gen, keys, parts=()):
    """proof units that are not functions: the static tables"""
    return N.units(gen) if any(k in N.contracts() for k in keys) else []


def parts(spec, keys):
    """specification files, in order; names.rs only where a contract of names.rs is used"""
    # cascade.rs talks about the names
    casc = ['cascade'] if 'cascade' in spec or any(k in CASCADE for k in keys) else []
    wr = ['writer'] if 'writer' in spec or any(k in WRITER for k in keys) else []
    names = ['names'] if casc or wr or any(k in N.contracts() for k in keys) else []
    head = [p for p in spec if p not in ('names', 'cascade', 'writer', 'resolve', 'text', 'xml')]
    return head + names + casc + wr + [p for p in ('resolve', 'text', 'xml') if p in spec]


TRUSTED_BASE = [
    'rustc nightly: MIR (-Zunpretty=mir, debug profile) is the program that runs',
    'vc/mir.py, vc/sym.py, vc/vc.py: MIR parser and weakest-precondition/symbolic execution into Verus proof functions',
    'vc/lib.py: contracts assumed for std and dependency functions',
    'Verus and Z3',
]
ASSUMPTIONS = [
    'a weak link to a node in use always upgrades (the document slab or a handle keeps every linked node alive)',
    'dropping handles and borrow guards has no effect besides releasing the borrow',
    'machine integers are treated as mathematical integers where MIR carries no overflow assertion; allocation never fails',
    'the log crate has no effect on the document',
    'safe Rust only: svgdom contains no unsafe code',
]

TECHNIQUE = ('Deductive: contracts (requires/ensures/invariants/footprints) on the real functions; verification conditions are generated on every run from the MIR '
             'rustc emits for /repo and discharged by Verus/Z3, modularly, with no bound.')
NOTE = ('Every obligation of the listed functions is discharged for all inputs; std and dependency functions are assumed by contract. '
        'A bounded replay harness runs beside the proof only to turn a failed obligation into a concrete input.')
NOT_APPLICABLE = {'C23': 'It relates the text xmlwriter and svgtypes print to what roxmltree and svgtypes read back: round-tripping f64 text and XML text is a fact about those crates\' code, '
                  'which has no contracts here (their results are uninterpreted functions in every contract), so no lemma over contracts on /repo\'s functions can state it. '
                  'Its two halves are decided separately: what the writer is told (C16, C22) and what the parser makes of a tree (C17 to C21).'}
