"""Contracts for src/writer.rs.  The text is what xmlwriter makes of a sequence of events (xml_text is uninterpreted); the events are specified exactly."""
from vc import Contract as C, Loop
from contracts_tables import chars
import contracts_names


def extra(gen):
    t = 'pub open spec fn aid_total() -> nat { %d }\n' % len(contracts_names.KIND['AttributeId'].split())
    for n, s in (('w_href', 'xlink:href'), ('w_space', 'xml:space'), ('w_xmlns', 'xmlns'), ('w_xmlns_xlink', 'xmlns:xlink'), ('w_svg_uri', 'http://www.w3.org/2000/svg'), ('w_xlink_uri', 'http://www.w3.org/1999/xlink')):
        t += 'pub open spec fn %s() -> Seq<char> { %s }\n' % (n, chars(s))
    return t


def contracts():
    out = []
    ALL = 'all_shared'
    out.append(C('write_escaped', 'unicode: Seq<char>, out: mut Seq<int>', ensures=['new_out == out + escaped(unicode)'], footprint=[],
                 entry=['let out0 = out;'],
                 loops={0: Loop(['it0_s == unicode', 'out == out0 + escs(it0_s.take(it0_i))'],
                                entry_hints=['assert(unicode.take(0) =~= Seq::<char>::empty()); assert(out0 + escs(unicode.take(0)) =~= out0);'],
                                back_hints=['lemma_escs_next(it0_s, it0_i - 1); assert(out =~= out0 + escs(it0_s.take(it0_i)));'])},
                 exit=['assert(unicode.take(unicode.len() as int) =~= unicode);']))
    A = 'h0.attributes[node]'
    out.append(C('write_attributes', 'node: int, opt: SWriteOptions, xml: mut X_XmlWriter', requires=['wf(h0)', 'in_tag(xml.ev)', 'uniq(%s)' % A], footprint=ALL, split='loop0',
                 ensures=['new_xml == xw_all(xml, attr_evs(h0, node, opt.values))'],
                 entry=['assume(ids_valid(%s)); // attribute ids are values of the enum' % A, 'let xml0 = xml;', 'let fm = Seq::<(int, Attribute)>::empty();', 'let mp = Seq::<(int, QName)>::empty();', 'lemma_exists_deep(h0, node);', 'lemma_subtree_at(h0, node);'],
                 loops={0: Loop(['ids_of(%s, it0_s)' % A, 'in_tag(xml.ev)', 'xml == xw_all(xml0, head_evs(h0, node) + svg_evs(h0, %s, id_bound(it0_s, it0_i), opt.values))' % A],
                                entry_hints=['''assert forall|j: int| 0 <= j < fm.len() implies (#[trigger] fm[j]).1.name == QName::Id(fm[j].0) && {A}.contains(fm[j].1) by {{ }}
                    lemma_ids_made({A}, fm, mp, it0_s);'''.format(A=A), 'assert(xml.ev =~= xml0.ev + (head_evs(h0, node) + svg_evs(h0, %s, 0, opt.values)));' % A],
                                back_hints=['lemma_svg_next(h0, %s, it0_s, it0_i - 1, opt.values);' % A,
                                            'assert(xml.ev =~= xml0.ev + (head_evs(h0, node) + svg_evs(h0, %s, id_bound(it0_s, it0_i), opt.values)));' % A]),
                        1: Loop(['it1_s == ' + A, 'in_tag(xml.ev)', 'xml == xw_all(xml0, head_evs(h0, node) + svg_evs(h0, %s, aid_total(), opt.values) + custom_evs(h0, it1_s.take(it1_i), opt.values))' % A],
                                entry_hints=['lemma_svg_end(h0, %s, ids, opt.values);' % A, 'assert(it1_s.take(0) =~= Seq::<Attribute>::empty());',
                                             'assert(xml.ev =~= xml0.ev + (head_evs(h0, node) + svg_evs(h0, %s, aid_total(), opt.values) + custom_evs(h0, it1_s.take(0), opt.values)));' % A],
                                back_hints=['lemma_custom_next(h0, it1_s, it1_i - 1, opt.values);',
                                            'assert(xml.ev =~= xml0.ev + (head_evs(h0, node) + svg_evs(h0, %s, aid_total(), opt.values) + custom_evs(h0, it1_s.take(it1_i), opt.values)));' % A])},
                 exit=['assert(%s.take(%s.len() as int) =~= %s);' % (A, A, A)]))
    dom = dict(ret='Seq<char>', footprint=ALL, requires=['wf(h0)', 'lk(h0)', 'h0.parent[{0}.root] is None', 'texts_inside(h0, {0}.root)'],
               ghosts=[('k', 'nat')], grequires=['deep(h0, {0}.root, k)'], gtrigger='deep(h0, {0}.root, k)',
               gensures=['ret == xml_text(xopt(opt), nest(h0, {0}.root, k, opt.values))'])

    def of(n):
        return {a: (b if isinstance(b, str) and a != 'gtrigger' else b.format(n) if isinstance(b, str) else [x.format(n) if isinstance(x, str) else x for x in b]) for a, b in dom.items()}
    out.append(C('Document::to_string_with_opt', 'self_: SDocument, opt: SWriteOptions', **of('self_')))
    out.append(C('write_dom', 'doc: SDocument, opt: SWriteOptions', **of('doc'),
                 entry=['let kk = choose|j: nat| depth_bound(h0, j);', 'lemma_tour(h0, doc.root, k);', 'let tt = tour(h0, doc.root, k);', 'lemma_nest(h0, doc.root, k, opt.values);',
                        'assert(tt.take(tt.len() as int) =~= tt);', 'let r0 = doc.root;'],
                 loops={0: Loop(['it0.root == r0', 'exists|i: int| #[trigger] tr_ok(h0, it0, k, i, tt.len() as int) && xml == wrote(h0, opt, tt, i)'],
                                skolem=[('at', 'choose|i: int| #[trigger] tr_ok(h0, it0, k, i, tt.len() as int) && xml == wrote(h0, opt, tt, i)'), ('was', 'xml')],
                                entry_hints=['assert(tt.take(0) =~= Seq::<Edge>::empty()); assert(xml == wrote(h0, opt, tt, 0));'],
                                body_hints=['if at < tt.len() { lemma_depth(h0, r0, k, at, kk, opt.values); let x = node_of(tt[at]); lemma_eld(h0, x, kk); assert(above(h0, r0, x)); assert(lk_node(h0, x)); if tt[at] is Start && h0.node_type[x] == NT_Text { assert(elem(h0, h0.parent[x]->0) == 1); assert(eld(h0, x, kk) >= 1); assert(xw_depth(was.ev) >= 1); } }'],
                                back_hints=['lemma_evs_next(h0, tt, at, opt.values); assert(xml.ev =~= was.ev + edge_evs(h0, tt[at], opt.values)); assert(xml == wrote(h0, opt, tt, at + 1)); assert(tr_ok(h0, it0, k, at + 1, tt.len() as int));'],
                                decreases='tt.len() - tr_at(h0, it0, k, tt.len() as int)')}))
    return {c.key: c for c in out}
