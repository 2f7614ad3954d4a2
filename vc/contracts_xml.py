"""Contracts for process_node and parse_svg (src/parser/mod.rs): from the XML tree to the document."""
from vc import Contract as C, Loop
from contracts_tables import chars
import contracts_names

NS = [('ns_svg', 'http://www.w3.org/2000/svg'), ('ns_xlink', 'http://www.w3.org/1999/xlink'), ('ns_xml', 'http://www.w3.org/XML/1998/namespace'), ('style_name', 'style'), ('type_name', 'type'), ('css_type', 'text/css')]


def extra(gen):
    t = ''.join('pub open spec fn %s() -> Seq<char> { %s }\n' % (n, chars(s)) for n, s in NS)
    t += 'pub open spec fn eid_count() -> int { %d }\n' % len(contracts_names.KIND['ElementId'].split())
    return t


# definitions the function itself does not look into
HIDE = ['img', 'elem_img', 'cascade', 'value_spec', 'all_plain', 'spaces_ok', 'inner', 'own', 'pend_uniq', 'lk', 'wf_links', 'acyclic', 'is_move', 'more']


def contracts():
    out = []
    X = 'xml_node'
    cur = 'SDocument { root: doc_root, storage: doc_storage }'
    A = 'attrs_decls(xn_attrs(xml_node))'
    ids = 'attrs_id(xn_attrs(xml_node))'

    def read(idv, ds):
        return ['e == ce_ret', 'reading(ce_h, links.list, h, links_list, ce_ret, %s, %s)' % (idv, ds), 'lk(h)', 'plain(h.attributes[e])', 'pend_ok(links_list, e)']
    new = 'h0, doc, links.list, ce_h, ce_new_self_, '
    el = 'QName::Id(elem_of(xml_node)->0), Seq::<char>::empty(), %s, elem_decls(xml_node, style_sheet)' % ids
    out.append(C('process_node', 'ro_doc: X_roxmltree_Document, xml_node: X_roxmltree_Node, style_sheet: X_StyleSheet, links: mut SLinks, doc: mut SDocument, parent: mut int', ret='Result<(), ParserError>',
                 heap=True, footprint='all_mut', merge=True, allocates=True, rlimit=60,
                 requires=['page(h0, doc)', 'h0.allocated[parent]', 'h0.node_type[parent] == NT_Root || h0.node_type[parent] == NT_Element', 'pend_fine(h0, links.list)', 'h0.node_type[parent] == NT_Root ==> !wrong_first(h0, doc.root)'],
                 ensures=['stepped(h0, doc, links.list, h, new_doc, new_links.list, parent)', 'new_parent == parent', 'ret is Err <==> h0.node_type[parent] == NT_Root && wrong_first(h, doc.root)'],
                 ghosts=[('k', 'nat')], gtrigger='xdeep(xml_node, k)', grequires=['xdeep(xml_node, k)'], rec=['xdeep(xml_node, (k - 1) as nat)'],
                 gensures=['put_image(h0, links.list, h, new_links.list, parent, xml_node, style_sheet, k)'],
                 entry=['hide(%s);' % f for f in HIDE] + ['lemma_stepped_refl(h0, doc, links.list, parent);', 'let p0 = parent;', 'assert(xn_attrs(xml_node).take(xn_attrs(xml_node).len() as int) =~= xn_attrs(xml_node));',
                        'assert(style_sheet.rules.take(style_sheet.rules.len() as int) =~= style_sheet.rules);', 'assert(xn_kids(xml_node).take(xn_kids(xml_node).len() as int) =~= xn_kids(xml_node));',
                        'assert(%s + rules_decls(style_sheet.rules, xml_node) + Seq::<Decl>::empty() =~= %s + rules_decls(style_sheet.rules, xml_node));' % (A, A), 'lemma_no_pend(h0, links.list);'],
                 marks={'Document::create_element': ('ce', [], ['let bh = ce_h;', 'let bd = ce_new_self_;', 'lemma_read_start(ce_h, links.list, ce_ret);']),
                        'Document::create_node': ('cn', [], ['let bh = cn_h;', 'let bd = cn_new_self_;']),
                        'parse_svg_attribute': ('pa', [], ['if pa_id == AID_Id { lemma_read_id(ce_h, links.list, pa_h0, pa_h, pa_links.list, ce_ret, idv, pa_value, dv); } else { lemma_read_join(ce_h, links.list, pa_h0, pa_links.list, pa_h, pa_new_links.list, ce_ret, idv, dv, plain_decls(pa_id, pa_value)); }']),
                        'parse_css_attribute_value': ('pc', [], ['lemma_read_join(ce_h, links.list, pc_h0, pc_links.list, pc_h, pc_new_links.list, ce_ret, %s, dv2, css_decls(pc_name, pc_value));' % ids]),
                        'parse_style_attribute': ('ps', [], ['lemma_read_join(ce_h, links.list, ps_h0, ps_links.list, ps_h, ps_new_links.list, ce_ret, %s, %s + rules_decls(style_sheet.rules, xml_node), style_decls(css_tokens(ps_value)));' % (ids, A)]),
                        'Node::append': ('ap', [
                            'if xn_type(xml_node) == XT_Element { lemma_read_page(h0, doc, links.list, bh, bd, ap_h0, read_links(bh, links.list, ap_new_child, elem_decls(xml_node, style_sheet)), parent, ap_new_child, NT_Element, %s); }' % el,
                            'else { lemma_deep_adopt(bh, ap_h0, ap_self_, ap_new_child); }'],
                            ['let la = read_links(bh, links.list, ap_new_child, elem_decls(xml_node, style_sheet));',
                             'if xn_type(xml_node) == XT_Element { lemma_elem_put(h0, doc, links.list, bh, bd, ap_h0, la, ap_h, parent, ap_new_child, xml_node, style_sheet); lemma_elem_childless(h0, doc, links.list, ap_h, bd, la, parent, ap_new_child, xml_node, style_sheet, k); }',
                             'else { lemma_leaf_put(h0, doc, links.list, bh, bd, ap_h, parent, ap_new_child, xml_node, style_sheet, k); }']),
                        'process_node': ('rc', [], [])},
                 exit=['if h0.node_type[parent] == NT_Root { lemma_svg_first(h, doc.root); }'],
                 loops={0: Loop(['it0_s == xn_attrs(xml_node)'] + read('attrs_id(it0_s.take(it0_i))', 'attrs_decls(it0_s.take(it0_i))'),
                                skolem=[('idv', 'attrs_id(it0_s.take(it0_i))'), ('dv', 'attrs_decls(it0_s.take(it0_i))')],
                                entry_hints=['assert(it0_s.take(0) =~= Seq::<X_roxmltree_Attribute>::empty()); assert(ce_h.id[ce_ret] =~= Seq::<char>::empty());'],
                                back_hints=['lemma_attrs_next(it0_s, it0_i - 1);']),
                        1: Loop(['it1_s == style_sheet.rules'] + read(ids, '%s + rules_decls(it1_s.take(it1_i), xml_node)' % A), skolem=[('r1', 'it1_i')],
                                entry_hints=['assert(it1_s.take(0) =~= Seq::<X_Rule>::empty()); assert(%s + Seq::<Decl>::empty() =~= %s);' % (A, A)],
                                back_hints=['lemma_rules_next(it1_s, it1_i - 1, xml_node);', 'let ds = it1_s[it1_i - 1].declarations; assert(ds.take(ds.len() as int) =~= ds);']),
                        2: Loop(['it2_s == style_sheet.rules[r1].declarations'] + read(ids, '%s + (rules_decls(style_sheet.rules.take(r1), xml_node) + rule_decls(it2_s.take(it2_i)))' % A),
                                skolem=[('dv2', '%s + (rules_decls(style_sheet.rules.take(r1), xml_node) + rule_decls(it2_s.take(it2_i)))' % A)],
                                entry_hints=['assert(it2_s.take(0) =~= Seq::<X_Declaration>::empty()); assert(rules_decls(style_sheet.rules.take(r1), xml_node) + Seq::<Decl>::empty() =~= rules_decls(style_sheet.rules.take(r1), xml_node));'],
                                back_hints=['lemma_rule_next(it2_s, it2_i - 1);',
                                            'assert(dv2 + css_decls(it2_s[it2_i - 1].name, it2_s[it2_i - 1].value) =~= %s + (rules_decls(style_sheet.rules.take(r1), xml_node) + rule_decls(it2_s.take(it2_i))));' % A]),
                        3: Loop(['it3_s == xn_kids(xml_node)', 'e == ce_ret', 'stepped(ap_h, bd, la, h, %s, links_list, ce_ret)' % cur,
                                 'kids_img(ap_h, h, links_list, h.kids[ce_ret], kept_xs(it3_s.take(it3_i), elem_of(xml_node)), style_sheet, (k - 1) as nat)',
                                 'it3_i == it3_s.len() ==> stepped(h0, doc, links.list, h, %s, links_list, parent) && put_image(h0, links.list, h, links_list, parent, xml_node, style_sheet, k)' % cur],
                                skolem=[('g', 'h'), ('lg', 'links_list'), ('dg', cur)],
                                entry_hints=['assert(it3_s.take(0) =~= Seq::<X_roxmltree_Node>::empty());'],
                                hints=['if it3_i == it3_s.len() { lemma_element_done(h0, doc, links.list, ap_h, bd, la, h, %s, links_list, parent, ce_ret, xml_node, style_sheet, k); }' % cur],
                                back_hints=['lemma_stepped_trans(ap_h, bd, la, g, dg, lg, h, %s, links_list, ce_ret);' % cur,
                                            'lemma_kids_next(ap_h, g, dg, lg, h, %s, links_list, ce_ret, elem_of(xml_node), it3_s, it3_i - 1, style_sheet, (k - 1) as nat);' % cur])}))
    # ---- the whole document
    rt = 'xd_root(xml_of(text)->Ok_0)'
    XS = 'xn_kids(%s)' % rt
    good = 'xml_of(text) is Ok && first_x(%s) == Some(EID_Svg)' % XS
    sheet = 'sheet_of(xd_all(xml_of(text)->Ok_0))'
    E = 'Seq::<PLink>::empty()'
    out.append(C('parse_svg', 'text: Seq<char>', ret='Result<SDocument, ParserError>', heap=True, footprint='all_mut', merge=True, allocates=True, rlimit=200, requires=['vacant(h0)'],
                 ensures=['ret is Ok <==> ' + good, 'ret is Ok ==> parsed(xml_of(text)->Ok_0, h, ret->Ok_0.root)', 'ret is Ok ==> wf(h) && lk(h) && own(h, ret->Ok_0)'],
                 entry=['hide(%s);' % f for f in HIDE if f not in ('cascade', 'is_move', 'pend_uniq')] + ['hide(page);', 'hide(kids_img);', 'hide(stepped);', 'hide(pend_fine);', 'hide(drained);', 'hide(resolved_upto);', 'hide(resolving);', 'hide(text_done);'] +
                 ['axiom_xml_finite(xml_of(text)->Ok_0);', 'let k = choose|k: nat| xdeep(%s, k);' % rt, 'let xs = %s;' % XS, 'let sh = %s;' % sheet, 'lemma_vacant(h0);', 'assert(xs.take(xs.len() as int) =~= xs);'],
                 marks={'Document::new': ('dn', [], ['lemma_start(h0, dn_h, dn_ret);', 'lemma_no_kids(dn_h, dn_ret.root, xs, sh, (k - 1) as nat);']),
                        'process_node': ('pn', ['lemma_stepped_facts(dn_h, dn_ret, pn_h0, pn_doc, pn_links.list);', 'assert(xdeep(xs[i0], (k - 1) as nat));'],
                                         ['lemma_root_next(dn_h, dn_ret, pn_h0, pn_doc, pn_links.list, pn_h, pn_new_doc, pn_new_links.list, xs, i0, sh, (k - 1) as nat);']),
                        'Document::svg_element': ('se', ['if i0 == xs.len() { lemma_stepped_facts(dn_h, dn_ret, hl, se_self_, ll); lemma_root_done(dn_h, hl, ll, dn_ret.root, xs, i0, sh, (k - 1) as nat); }'], []),
                        'Document::drain': ('dr', ['lemma_page_belongs(dr_h0, dr_self_, dn_ret.root);', 'assert(is_style_pred(dr_f));', 'assert(stable(dr_f));'],
                                            ['lemma_page_drained(dr_h0, dr_self_, dr_h, dr_new_self_, dr_f, dn_ret.root, ll);']),
                        'resolve_links': ('rl', [], ['lemma_page_resolved(rl_h0, rl_doc, rl_links.list, rl_h);']),
                        'prepare_text': ('pt', ['lemma_exists_deep(pt_h0, pt_doc.root);'],
                                         ['lemma_parsed(xml_of(text)->Ok_0, dn_h, dr_h0, dr_self_, rl_links.list, k, dr_h, pt_h0, pt_h, dr_f);'])},
                 loops={0: Loop(['it0_s == xs', 'parent == dn_ret.root', 'doc_root == dn_ret.root', 'root == dn_ret.root', 'style_sheet == sh', 'stepped(dn_h, dn_ret, %s, h, %s, links_list, dn_ret.root)' % (E, cur),
                                 'kids_img(dn_h, h, links_list, h.kids[dn_ret.root], kept_xs(it0_s.take(it0_i), None), sh, (k - 1) as nat)', '!wrong_first(h, dn_ret.root)'],
                                skolem=[('i0', 'it0_i'), ('hl', 'h'), ('ll', 'links_list')],
                                entry_hints=['assert(it0_s.take(0) =~= Seq::<X_roxmltree_Node>::empty());'])}))
    out.append(C('Document::from_str', 'text: Seq<char>', ret='Result<SDocument, ParserError>', heap=True, footprint='all_mut', allocates=True, requires=['vacant(h0)'],
                 ensures=['ret is Ok <==> ' + good, 'ret is Ok ==> parsed(xml_of(text)->Ok_0, h, ret->Ok_0.root)', 'ret is Ok ==> wf(h) && lk(h) && own(h, ret->Ok_0)']))
    out.append(C('resolve_css', 'ro_doc: X_roxmltree_Document', ret='X_StyleSheet', footprint=[], ensures=['ret == sheet_of(xd_all(ro_doc))'],
                 entry=['lemma_styles(xd_all(ro_doc));'],
                 loops={0: Loop(['it0_s == styles(xd_all(ro_doc))', 'sheet == sheet_from(it0_s.take(it0_i))'], entry_hints=['assert(it0_s.take(0) =~= Seq::<X_roxmltree_Node>::empty());'],
                                back_hints=['lemma_sheet_next(it0_s, it0_i - 1);'])},
                 exit=['assert(styles(xd_all(ro_doc)).take(styles(xd_all(ro_doc)).len() as int) =~= styles(xd_all(ro_doc)));']))
    out.append(C('Document::svg_element', 'self_: SDocument', ret='Option<int>', footprint='all_shared', requires=['wf(h0)'],
                 ensures=['ret is Some ==> first_svg(h0, self_.root, ret->0)',
                          'ret is None ==> forall|i: int| 0 <= i < h0.kids[self_.root].len() ==> tag_of(h0, #[trigger] h0.kids[self_.root][i]) != Some(EID_Svg)'],
                 entry=['lemma_svg_first(h0, self_.root);', 'lemma_svg_in(h0, self_.root);', 'lemma_svg_order(h0, self_.root);']))
    # ---- what the selectors of a style sheet see of an XML element
    N = 'self_: X_roxmltree_Node'
    before = 'first_elem(xn_before(self_))'
    out.append(C('XmlNode::parent_element', N, ret='Option<X_roxmltree_Node>', footprint=[], ensures=['ret == xn_parent_element(self_)']))
    out.append(C('XmlNode::prev_sibling_element', N, ret='Option<X_roxmltree_Node>', footprint=[], ensures=['ret == ' + before], entry=['lemma_first_elem(xn_before(self_));']))
    out.append(C('XmlNode::has_local_name', N + ', local_name: Seq<char>', ret='bool', footprint=[], ensures=['ret == (xt_name(xn_tag(self_)) == local_name)']))
    out.append(C('XmlNode::attribute_matches', N + ', local_name: Seq<char>, operator: X_AttributeOperator', ret='bool', footprint=[],
                 ensures=['ret == (xn_attribute(self_, local_name) is Some && op_matches(operator, xn_attribute(self_, local_name)->0))']))
    out.append(C('XmlNode::pseudo_class_matches', N + ', class: PseudoClass', ret='bool', footprint=[], ensures=['ret == (class is FirstChild && %s is None)' % before]))
    return {c.key: c for c in out}
