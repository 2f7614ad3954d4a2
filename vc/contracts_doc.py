"""Contracts for src/document.rs."""
from vc import Contract as C, Loop


def contracts():
    out = []
    ALL = 'all_mut'
    D = 'self_: mut SDocument'
    req = ['wf(h0)', 'lk(h0)', 'own(h0, self_)']
    inv = ['wf(h)', 'lk(h)', 'own(h, new_self_)', 'keep_own(h0, self_, h, new_self_)', 'new_self_.root == self_.root']
    cur = 'SDocument { root: self__root, storage: self__storage }'
    out.append(C('Document::_remove', D + ', node: int, ids: mut Seq<QName>', heap=True, requires=req + ['belongs(h0, self_, node)'], footprint=ALL, ensures=['removed(h0, h, node)'] + inv,
                 ghosts=[('k', 'nat')], gtrigger='deep(h0, node, k)', grequires=['deep(h0, node, k)'], rec=['deep(h0, node, (k - 1) as nat)'],
                 loops={
                     0: Loop(['names_in(ids, h0.attributes[node], it0_i, None)', 'it0_s == h0.attributes[node]'],
                             skolem=[('ids_at', 'ids')],
                             back_hints=['lemma_names_step(ids_at, ids, h0.attributes[node], it0_i - 1, None);']),
                     1: Loop(['dropped(h0, h, node, ids, it1_i)', 'it1_s == ids', 'lk(h)'], skolem=[('g', 'h')],
                             entry_hints=['lemma_drop_start(h0.attributes[node], ids);'],
                             back_hints=['lemma_dropped_step(h0, g, h, node, ids, it1_i - 1);']),
                     2: Loop(['unlinked_some(hin2, h, hin2.linked_nodes[node], it2_i, node)', 'it2_s == hin2.linked_nodes[node]', 'lk(h)', 'wf(h)'],
                             hints=['lemma_rest_wf(hin2, h);'], entry_hints=['lemma_rest_wf(h0, h); lemma_dropped_end(h0, h, node, ids, None);'], skolem=[('g2', 'h')],
                             back_hints=['lemma_dropped_end(g2, h, it2_s[it2_i - 1], ids, Some(node)); lemma_unlinked_step(hin2, g2, h, hin2.linked_nodes[node], it2_i - 1, node);']),
                     3: Loop(['names_in(ids, h.attributes[linked], it3_i, Some(node))', 'it3_s == h.attributes[linked]'], skolem=[('ids_at', 'ids')],
                             back_hints=['lemma_names_step(ids_at, ids, h.attributes[linked], it3_i - 1, Some(node));']),
                     4: Loop(['dropped(hin4, h, linked, ids, it4_i)', 'it4_s == ids', 'lk(h)'], skolem=[('g', 'h')],
                             entry_hints=['lemma_drop_start(hin4.attributes[linked], ids);'],
                             back_hints=['lemma_dropped_step(hin4, g, h, linked, ids, it4_i - 1);']),
                     5: Loop(['wf(h)', 'lk(h)', 'own(h, %s)' % cur, 'keep_own(h0, self_, h, %s)' % cur, 'self__root == self_.root', 'ch_left(h, it5, node)',
                              'part_removed(h0, h, node, h0.kids[node].len() - h.kids[node].len())'], skolem=[('g5', 'h'), ('d5', cur)],
                             entry_hints=['lemma_unlinked_end(h0, hin2, h, node); lemma_part_start(h0, h, node); lemma_own_same(h0, self_, h, SDocument { root: self__root, storage: self__storage });'],
                             body_hints=['lemma_above_self(h0, node); assert(own_node(g5, d5, node)); if h.kids[node].len() > 0 { lemma_child_belongs(h0, self_, g5, d5, node, h0.kids[node].len() - h.kids[node].len()); lemma_child_deep(h0, g5, node, h0.kids[node].len() - h.kids[node].len(), k); }'],
                             back_hints=['lemma_remove_child(h0, g5, h, node, h0.kids[node].len() - g5.kids[node].len()); lemma_keep_trans(h0, self_, g5, d5, h, %s);' % cur]),
                 },
                 exit=['lemma_remove_end(h0, g5, h, node);', 'lemma_own_end(g5, d5, h, new_self_, node);', 'lemma_lk_same(g5, h);', 'lemma_keep_trans(h0, self_, g5, d5, h, new_self_);']))
    out.append(C('Document::remove_node', D + ', node: int', heap=True, requires=req + ['belongs(h0, self_, node)'], footprint=ALL, ensures=['removed(h0, h, node)', 'gone(h0, h, node)'] + inv,
                 exit=['lemma_gone(h0, h, node);']))
    dreq = req + ['stable(f)']
    dens = ['drained(h0, h, f, %s)'] + inv
    out.append(C('Document::_drain', D + ', parent: int, f: Pred, count: mut int', heap=True, requires=dreq + ['belongs(h0, self_, parent)'], footprint=ALL, ghosts=[('k', 'nat')], gtrigger='deep(h0, parent, k)',
                 grequires=['deep(h0, parent, k)'], ensures=[e.replace('%s', 'parent') for e in dens], gensures=['new_count == count + tops(h0, f, parent, k)'], rec=['deep(h0, parent, (k - 1) as nat)'],
                 entry=['assert(wf_ends(h0, parent));', 'let count0 = count;', 'lemma_drain_start(h0, f, parent);', 'lemma_place(h0, parent, 0);'],
                 loops={0: Loop(['wf(h)', 'lk(h)', 'own(h, %s)' % cur, 'keep_own(h0, self_, h, %s)' % cur, 'self__root == self_.root', 'draining(h0, h, f, parent, place(h0, parent, node), node)',
                                 'count == count0 + tops_upto(h0, f, parent, place(h0, parent, node) as nat, (k - 1) as nat)'],
                                skolem=[('g', 'h'), ('at', 'place(h0, parent, node)'), ('d', cur)],
                                body_hints=['if at < h0.kids[parent].len() { lemma_draining(h0, h, f, parent, at, k); assert(pred(f, h, h0.kids[parent][at]) == pred(f, h0, h0.kids[parent][at])); lemma_drain_belongs(h0, self_, h, d, f, parent, at); }'],
                                back_hints=['lemma_drain_step(h0, g, h, f, parent, at); lemma_after(h0, h, f, parent, at); lemma_keep_trans(h0, self_, g, d, h, %s);' % cur])},
                 exit=['lemma_drain_end(h0, h, f, parent);']))
    out.append(C('Document::drain', D + ', root: int, f: Pred', ret='int', heap=True, requires=dreq + ['belongs(h0, self_, root)'], footprint=ALL, ghosts=[('k', 'nat')], gtrigger='deep(h0, root, k)',
                 grequires=['deep(h0, root, k)'], ensures=[e.replace('%s', 'root') for e in dens], gensures=['ret == tops(h0, f, root, k)']))
    cr = 'created(h0, self_, h, new_self_, ret, %s)'
    inv2 = ['wf(h)', 'lk(h)', 'own(h, new_self_)', 'own_node(h, new_self_, ret)', 'forall|x: int| x != ret && own_node(h0, self_, x) ==> #[trigger] own_node(h, new_self_, x)']
    for key, ps, rq, ar in (('create_element', ', tag_name: QName', ['tag_ok(tag_name)'], 'NT_Element, tag_name, Seq::<char>::empty()'),
                            ('create_node', ', node_type: int, text: Seq<char>', ['node_type != NT_Element', 'node_type != NT_Root'], 'node_type, QName::Name(Seq::<char>::empty()), text')):
        out.append(C('Document::' + key, D + ps, ret='int', heap=True, requires=req + rq, footprint=[], ensures=[cr % ar] + inv2, allocates=True,
                     exit=['lemma_created(h0, self_, h, new_self_, ret, %s);' % ar]))
    root = 'NT_Root, QName::Name(Seq::<char>::empty()), Seq::<char>::empty()'
    nd = 'SDocument { root: ret.root, storage: IMap::empty() }'
    out.append(C('Document::new', '', ret='SDocument', heap=True, requires=['wf(h0)', 'lk(h0)'], footprint=[], allocates=True,
                 ensures=['created(h0, %s, h, ret, ret.root, %s)' % (nd, root), 'wf(h)', 'lk(h)', 'own(h, ret)'], exit=['lemma_created(h0, %s, h, ret, ret.root, %s);' % (nd, root)]))
    out.append(C('Document::root', 'self_: SDocument', ret='int', pure='self_.root', footprint=[]))
    out.append(C('Document::copy_node', D + ', node: int', ret='int', heap=True, allocates=True, footprint='all_mut',
                 requires=req + ['h0.node_type[node] != NT_Root', 'h0.allocated[node]', 'h0.node_type[node] == NT_Element ==> tag_ok(h0.tag_name[node]) && linkable(h0, node)'],
                 ensures=['copied(h0, self_, h, new_self_, node, ret)'] + inv2,
                 loops={0: Loop(['copying(hin0, h, elem, h0.attributes[node], it0_i)', 'it0_s == h0.attributes[node]', 'lk(h)', 'wf(h)', 'own(h, %s)' % cur],
                                hints=['lemma_rest_wf(hin0, h); lemma_own_same(hin0, %s, h, %s);' % (cur, cur)],
                                body_hints=['if it0_i < h0.attributes[node].len() { lemma_copy_next(h0, hin0, h, node, elem, it0_i); }'],
                                entry_hints=['assert(h.attributes[elem] =~= stored_all(h0.attributes[node].take(0)));'])},
                 exit=['assert(h0.attributes[node].take(h0.attributes[node].len() as int) =~= h0.attributes[node]);']))
    # ---- deep copies
    dcreq = req + ['all_copyable(h0, node)']
    dc = ['wf(h)', 'lk(h)', 'own(h, new_self_)', 'keep_own_old(h0, self_, h, new_self_)', 'new_self_.root == self_.root']
    out.append(C('Document::_make_deep_copy', D + ', parent: mut int, node: int', heap=True, allocates=True, footprint='all_mut',
                 requires=dcreq + ['h0.allocated[parent]', 'h0.kids[parent].len() == 0', '!above(h0, node, parent)'], ghosts=[('k', 'nat')], gtrigger='deep(h0, node, k)', grequires=['deep(h0, node, k)'],
                 ensures=['kept_but(h0, h, parent)', 'new_parent == parent'] + dc, gensures=['deep_done(h0, h, parent, node, k)'], rec=['deep(h0, node, (k - 1) as nat)'],
                 marks={'Document::copy_node': ('cp', ['lemma_deep_next(h0, cp_h0, parent, node, k);'], []),
                        'Node::append': ('ap', ['lemma_deep_adopt(h0, ap_h0, ap_self_, ap_new_child);'],
                                         ['lemma_deep_put(h0, cp_h0, cp_self_, cp_h, cp_new_self_, ap_h, parent, node, cp_ret, k);', 'lemma_deep_own(h0, self_, cp_h0, cp_self_, cp_h, cp_new_self_, ap_h, cp_ret);', 'lemma_lk_same(cp_h, ap_h);'])},
                 loops={0: Loop(['wf(h)', 'lk(h)', 'own(h, %s)' % cur, 'keep_own_old(h0, self_, h, %s)' % cur, 'self__root == self_.root', 'deep_part(h0, h, parent, node, k)',
                                 'ch_ok(h, it0, node, h.kids[parent].len() as int, h0.kids[node].len() as int)'],
                                entry_hints=['lemma_deep_start(h0, parent, node, k);'], skolem=[('g', 'h')],
                                body_hints=['lemma_src_same(h0, h, parent, node);'],
                                back_hints=['lemma_deep_step(h0, cp_h0, ap_h, h, parent, node, cp_ret, cp_h0.kids[parent].len() as int, k); lemma_src_same(h0, h, parent, node); lemma_own_old_trans(h0, self_, ap_h, cp_new_self_, h, %s);' % cur])},
                 ))
    out.append(C('Document::copy_node_deep', D + ', node: int', ret='int', heap=True, allocates=True, footprint='all_mut', requires=dcreq, ghosts=[('k', 'nat')], gtrigger='deep(h0, node, k)', grequires=['deep(h0, node, k)'],
                 marks={'Document::copy_node': ('cp', ['lemma_deep_first(h0, node);'], ['lemma_deep_begin(h0, cp_h0, self_, cp_self_, cp_h, cp_new_self_, node, cp_ret, k);'])},
                 ensures=['kept(h0, h)', 'h.parent[ret] is None', 'is_fresh(h0, ret)'] + dc, gensures=['iso(h0, h, node, ret, k)'],
                 exit=['lemma_deep_finish(h0, cp_h, self_, cp_new_self_, h, node, ret, k);', 'lemma_own_old_trans(h0, self_, cp_h, cp_new_self_, h, new_self_);']))
    out.append(C('Document::drop', D, heap=True, footprint='all_mut', requires=['wf(h0)', 'closed(h0, self_)'], ensures=['wf(h)', 'released(h0, h, self_)', 'new_self_ == self_'],
                 loops={0: Loop(['wf(h)', 'releasing(h0, h, self_, it0_s, it0_i)', 'slab_lists(self_.storage, it0_s)', '%s == self_' % cur], skolem=[('g', 'h')],
                                back_hints=['lemma_release_step(h0, g, h, self_, it0_s, it0_i - 1);'])},
                 marks={'Node::detach': ('dt', ['lemma_same_tree_wf(dt_h0, g);', 'lemma_detach_ext(dt_h0, g, dt_self_);'], [])},
                 exit=['lemma_released(h0, h, self_, slab_seq(self_.storage));']))
    return {c.key: c for c in out}
