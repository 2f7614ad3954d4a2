"""Contract for resolve_links (src/parser/mod.rs)."""
from vc import Contract as C, Loop


def contracts():
    out = []
    L = 'links.list'
    out.append(C('resolve_links', 'doc: SDocument, links: mut SLinks', heap=True, footprint='all_mut',
                 requires=['wf(h0)', 'lk(h0)', 'pend_elements(h0, links.list)'],
                 ensures=['resolving(h0, doc.root, links.list, links.list.len() as int, h)', 'new_links.list == links.list', 'lk(h)', 'wf(h)'],
                 entry=['lemma_exists_deep(h0, doc.root);'],
                 loops={0: Loop(['wf(h)', 'lk(h)', 'rest_eq(h, h0)', 'resolving(h0, doc.root, links.list, it0_i, h)', 'links_list == links.list'], skolem=[('g', 'h')], body_hints=['lemma_exists_deep(h, doc.root);', 'if it0_i < links.list.len() { lemma_first_with(h, doc.root, links.list[it0_i].iri); }'],
                                back_hints=['lemma_rest_wf(g, h);', 'lemma_resolving_next(h0, doc.root, links.list, it0_i - 1, g, h);'])}))
    return {c.key: c for c in out}
