"""Contracts for src/parser/text.rs."""
from vc import Contract as C, Loop


def contracts():
    out = []
    out.append(C('String::remove_first', 'self_: mut Seq<char>', requires=["self_.len() > 0", "self_[0] == ' '"], ensures=['new_self_ =~= self_.skip(1)'], footprint=[],
                 entry=['lemma_utf8_ends(self_);']))
    out.append(C('String::remove_last', 'self_: mut Seq<char>', ensures=['new_self_ =~= if self_.len() > 0 { self_.drop_last() } else { self_ }'], footprint=[]))
    out.append(C('trim', merge=True, params='text: Seq<char>, space: int', ret='Seq<char>', ensures=['ret == norm(text, space)'], footprint=[],
                 loops={0: Loop(['it0_s == text', 's == norm(text.take(it0_i), space)', "it0_i > 0 ==> prev == spaced(text[it0_i - 1])", "it0_i == 0 ==> prev == '0'"],
                                entry_hints=['assert(text.take(0) =~= Seq::<char>::empty());'],
                                back_hints=['assert(text.take(it0_i).drop_last() =~= text.take(it0_i - 1)); assert(text.take(it0_i).last() == text[it0_i - 1]); if it0_i > 1 { assert(text.take(it0_i)[it0_i - 2] == text[it0_i - 2]); }'])},
                 exit=['assert(text.take(text.len() as int) =~= text);']))
    XS = 'node: mut int, nodes: mut Seq<int>, %s: int'
    own = ['lk(h0)', 'h0.node_type[node] == NT_Element', '0 <= %s <= 1']
    out.append(C('set_xmlspace', XS % 'xmlspace', heap=True, footprint='all_mut', requires=[r.replace('%s', 'xmlspace') for r in own],
                 ensures=['set_to(h0, h, node, space_attr(xmlspace))', 'lk(h)', 'new_nodes == nodes.push(node)', 'new_node == node']))
    out.append(C('get_xmlspace', merge=True, params=XS % 'default', ret='int', heap=True, footprint='all_mut', requires=[r.replace('%s', 'default') for r in own],
                 ensures=['ret == space_of(h0.attributes[node], default)', '0 <= ret <= 1', 'given_space(h0.attributes[node]) is Some ==> h == h0 && new_nodes == nodes',
                          'given_space(h0.attributes[node]) is None ==> set_to(h0, h, node, space_attr(default)) && new_nodes == nodes.push(node)', 'lk(h)', 'new_node == node']))
    out.append(C('collect_text', merge=True, params='parent: int, depth: int, nodes: mut Seq<(int, int)>', requires=['wf(h0)'], footprint='all_shared', ghosts=[('k', 'nat')], gtrigger='deep(h0, parent, k)',
                 grequires=['deep(h0, parent, k)'], gensures=['new_nodes == nodes + texts(h0, parent, depth, k)'], rec=['deep(h0, parent, (k - 1) as nat)'],
                 entry=['let nodes0 = nodes;', 'lemma_place(h0, parent, 0);'],
                 loops={0: Loop(['ch_ok(h0, it0, parent, place(h0, parent, it0.next), h0.kids[parent].len() as int)',
                                 'nodes == nodes0 + texts_upto(h0, parent, place(h0, parent, it0.next) as nat, depth, (k - 1) as nat)'],
                                entry_hints=['assert(nodes0 + Seq::<(int, int)>::empty() =~= nodes0);'], skolem=[('at', 'place(h0, parent, it0.next)')],
                                back_hints=['lemma_place(h0, parent, at); lemma_place(h0, parent, at + 1); assert(nodes =~= nodes0 + texts_upto(h0, parent, (at + 1) as nat, depth, (k - 1) as nat));'])}))
    REQ = ['wf(h0)', 'lk(h0)', 'inner(h0)', 'spaces_ok(h0)', 'h0.node_type[parent] == NT_Element', '0 <= xmlspace <= 1', 'given_space(h0.attributes[parent]) == Some(xmlspace)']
    T = 'tour(h0, parent, k)'
    X = 'texts(h0, parent, 0, k)'
    at0 = 'tr_ok(h, it0, k, i, len) && normed(h0, h, %s, i, xmlspace)' % T
    out.append(C('prepare_text_children', 'parent: int, marked_nodes: mut Seq<int>, xmlspace: int', heap=True, footprint='all_mut', merge=True, requires=REQ,
                 ghosts=[('k', 'nat')], gtrigger='deep(h0, parent, k)', grequires=['deep(h0, parent, k)'],
                 ensures=['shape(h0, h)', 'lk(h)', 'trimmed(h0, h, parent, xmlspace)', 'marked(h0, h, parent, marked_nodes, new_marked_nodes, xmlspace)'],
                 gensures=['sole_text(h0, h, parent, xmlspace, k)'],
                 entry=['let m0 = marked_nodes;', 'let len = %s.len() as int;' % T, 'assert(m0.take(m0.len() as int) =~= m0);', 'lemma_tour(h0, parent, k);', 'lemma_text_parents(h0, parent);',
                        'lemma_texts(h0, parent, 0, k);', 'lemma_byte_ends();', 'let X = %s;' % X],
                 marks={'get_xmlspace': ('gx', [], ['lemma_mark(h0, gx_h0, gx_h, parent, m0, gx_nodes, gx_new_nodes, xmlspace, gx_node);']),
                        'Descendants::next': ('dn', [], ['lemma_same_tour(h0, dn_h0, parent, k);',
                                                         'if dn_ret is Some { let i = choose|i: int| descended(dn_h0, dn_self_, dn_new_self_, k, at, i, len, dn_ret->0); assert(above(h0, parent, node_of(%s[i]))); }' % T,
                                                         'if dn_ret is None { lemma_normed_end(h0, dn_h0, parent, k, at, xmlspace); }']),
                        'Node::set_text': ('st', [], ['lemma_lk_same(st_h0, st_h); lemma_marked_same(h0, st_h0, st_h, parent, m0, gx_new_nodes, xmlspace);']),
                        'collect_text': ('ct', ['lemma_same_tour(h0, ct_h0, parent, k); lemma_same_texts(h0, ct_h0, parent, 0, k);'], []),
                        'String::remove_first': ('rf', [], ['lemma_pared_on(rf_self_, rf_new_self_);']),
                        'String::remove_last': ('rl', [], ['lemma_utf8_ends(rl_self_); assert(rl_self_.len() > 0 ==> rl_new_self_ == rl_self_.drop_last());', "if rl_self_.len() > 0 && rl_self_.last() == ' ' { lemma_pared_on(rl_self_, rl_new_self_); }"])},
                 exit=['if X.len() == 1 { lemma_lk_same(dn_h0, h); lemma_marked_same(h0, dn_h0, h, parent, m0, new_marked_nodes, xmlspace); }',
                       'if X.len() == 1 { lemma_sole_pared(normed_text(h0, xmlspace, X[0].0), xmlspace); assert(h.text[X[0].0] =~= sole(normed_text(h0, xmlspace, X[0].0), xmlspace)); }',
                       'if X.len() <= 1 { assert forall|x: int| #[trigger] trim_node(h0, h, parent, xmlspace, x) by { assert(trim_node(h0, dn_h0, parent, xmlspace, x)); } }'],
                 loops={0: Loop(['exists|i: int| ' + at0, 'it0.root == parent', 'shape(h0, h)', 'lk(h)', 'marked(h0, h, parent, m0, marked_nodes, xmlspace)'],
                                skolem=[('at', 'choose|i: int| ' + at0), ('g', 'h'), ('it1', 'it0')], body_hints=['lemma_shape_wf(h0, h);', 'lemma_same_tour(h0, h, parent, k);'],
                                back_hints=['let i = choose|i: int| descended(g, it1, it0, k, at, i, len, dn_ret->0); lemma_same_tr(g, h, it0, k, i + 1, len); lemma_same_tour(h0, g, parent, k); lemma_normed_step(h0, g, h, parent, k, at, i, dn_ret->0, xmlspace);']),
                        1: Loop(['nodes == X', '0 <= i <= X.len() - 1', 'len == X.len() - 1', 'shape(h0, h)', 'lk(h)', 'marked(h0, h, parent, m0, marked_nodes, xmlspace)', 'trimmed(h0, h, parent, xmlspace)',
                                 'last_non_empty is Some ==> exists|j: int| 0 <= j < i && X[j].0 == last_non_empty->0'],
                                skolem=[('g2', 'h')], decreases='len - i',
                                back_hints=['lemma_lk_same(gx_h, h); lemma_marked_same(h0, gx_h, h, parent, m0, gx_new_nodes, xmlspace);',
                                            'assert forall|x: int| #[trigger] trim_node(h0, h, parent, xmlspace, x) by { assert(trim_node(h0, g2, parent, xmlspace, x)); }'])}))
    J = 'place(h0, parent, it0.next)'
    kid = '(h0, g, %s, parent, parent_xmlspace, k, at, jx, m0, %s, gx_ret);'
    out.append(C('_prepare_text', 'parent: int, nodes: mut Seq<int>, parent_xmlspace: int', heap=True, footprint='all_mut', merge=True,
                 requires=['wf(h0)', 'lk(h0)', 'inner(h0)', 'spaces_ok(h0)', '0 <= parent_xmlspace <= 1'],
                 ghosts=[('k', 'nat')], gtrigger='deep(h0, parent, k)', grequires=['deep(h0, parent, k)'], rec=['deep(h0, parent, (k - 1) as nat)'],
                 ensures=['shape(h0, h)', 'lk(h)', 'marking(h0, h, parent, nodes, new_nodes)', 'inked(h0, h)', 'within(h0, h, parent)'],
                 gensures=['prep(h0, h, parent, parent_xmlspace, k)'],
                 entry=['let m0 = nodes;', 'lemma_place(h0, parent, 0);', 'assert(m0.take(m0.len() as int) =~= m0);', 'lemma_prep_start(h0, parent, parent_xmlspace, k);'],
                 marks={'get_xmlspace': ('gx', ['let jx = place(h0, parent, Some(gx_node));', 'assert(wf_listed(h0, parent, jx));', 'assert(next_elem(h0, parent, at, jx));'],
                                         ['lemma_kid_marked' + kid % ('gx_h', 'gx_nodes, gx_new_nodes'), 'assert(wf_ends(gx_h, gx_node));']),
                        'prepare_text_children': ('pc', [], ['lemma_kid_text' + kid % ('gx_h, pc_h', 'pc_marked_nodes, pc_new_marked_nodes')]),
                        '_prepare_text': ('rc', [], ['lemma_kid_deeper' + kid % ('gx_h, rc_h', 'rc_nodes, rc_new_nodes')])},
                 exit=['lemma_prep_end(h0, h, parent, parent_xmlspace, k, at);'],
                 loops={0: Loop(['ch_ok(h, it0, parent, %s, h0.kids[parent].len() as int)' % J, 'shape(h0, h)', 'lk(h)', 'marking(h0, h, parent, m0, nodes)', 'inked(h0, h)',
                                 'prep_part(h0, h, parent, parent_xmlspace, k, %s)' % J],
                                skolem=[('at', J), ('g', 'h')], body_hints=['lemma_shape_wf(h0, h);', 'lemma_place(h0, parent, at);'],
                                back_hints=['lemma_place(h0, parent, jx + 1);'])}))
    out.append(C('prepare_text', 'doc: mut SDocument', heap=True, footprint='all_mut', requires=['wf(h0)', 'lk(h0)', 'own(h0, doc)', 'belongs(h0, doc, doc.root)', 'inner(h0)', 'spaces_ok(h0)'],
                 ghosts=[('k', 'nat')], gtrigger='deep(h0, doc.root, k)', grequires=['deep(h0, doc.root, k)'],
                 ensures=['exists|g: Heap, f: Pred| text_done(h0, g, h, f, doc.root)', 'wf(h)', 'lk(h)', 'own(h, new_doc)', 'keep_own(h0, doc, h, new_doc)', 'new_doc.root == doc.root'],
                 loops={0: Loop(['unmarking(hin0, h, pt_new_nodes, it0_i)', 'it0_s == pt_new_nodes', 'lk(h)'], skolem=[('g', 'h')], back_hints=['lemma_unmark_step(hin0, g, h, pt_new_nodes, it0_i - 1);'])},
                 marks={'_prepare_text': ('pt', [], []),
                        'Document::drain': ('dr', ['lemma_unmark_end(h0, pt_h, dr_h0, doc.root, pt_new_nodes);', 'lemma_shape_wf(h0, dr_h0);', 'lemma_shape_own(h0, dr_h0, doc);', 'lemma_same_tour(h0, dr_h0, doc.root, k);', 'assert(empties(dr_f));', 'assert(stable(dr_f));'],
                                            ['assert(text_done(h0, dr_h0, dr_h, dr_f, doc.root));'])}))
    return {c.key: c for c in out}
