// ---------------------------------------------------------------- references
pub open spec fn with_id(h: Heap, iri: Seq<char>) -> spec_fn(int) -> bool { |n: int| h.id[n] == iri }
// the first node of the document with this id
pub open spec fn first_with(h: Heap, root: int, iri: Seq<char>) -> Option<int> {
    match seq_pos(subtree(h, root), with_id(h, iri)) { Some(i) => Some(subtree(h, root)[i]), None => None }
}
pub open spec fn unresolved(l: PLink) -> AttributeValue {
    match l.fallback {
        Some(PaintFallback::None) => AttributeValue::None,
        Some(PaintFallback::CurrentColor) => AttributeValue::CurrentColor,
        Some(PaintFallback::Color(c)) => AttributeValue::Color(c),
        None => if l.attr_id == AID_Fill { AttributeValue::None }
            else if l.attr_id == AID_Href { AttributeValue::String(seq!['#'] + l.iri) }
            else { AttributeValue::String(seq!['u', 'r', 'l', '(', '#'] + l.iri + seq![')']) },
    }
}
// what one pending link does
pub open spec fn resolve_one(g: Heap, root: int, l: PLink, h: Heap) -> bool {
    if g.storage_key[l.node] is None { h == g } else {
        match first_with(g, root, l.iri) {
            None => set_to(g, h, l.node, Attribute { name: QName::Id(l.attr_id), value: unresolved(l) }),
            Some(t) => if no_id(g, t) || crosslink(g, l.node, t) { h == g }
                else { set_to(g, h, l.node, Attribute { name: QName::Id(l.attr_id), value: link_value(QName::Id(l.attr_id), t, l.fallback) }) },
        }
    }
}
pub open spec fn resolving(h0: Heap, root: int, ls: Seq<PLink>, i: int, h: Heap) -> bool
    decreases i
{
    if i <= 0 { h == h0 } else { exists|g: Heap| resolving(h0, root, ls, i - 1, g) && #[trigger] resolve_one(g, root, ls[i - 1], h) }
}
pub open spec fn pend_elements(h: Heap, ls: Seq<PLink>) -> bool { forall|i: int| 0 <= i < ls.len() ==> h.node_type[(#[trigger] ls[i]).node] == NT_Element }
proof fn lemma_resolving_next(h0: Heap, root: int, ls: Seq<PLink>, i: int, g: Heap, h: Heap)
    requires 0 <= i < ls.len(), resolving(h0, root, ls, i, g), resolve_one(g, root, ls[i], h)
    ensures resolving(h0, root, ls, i + 1, h)
{
    assert(resolving(h0, root, ls, (i + 1) - 1, g) && resolve_one(g, root, ls[(i + 1) - 1], h));
}
proof fn lemma_first_with(h: Heap, root: int, iri: Seq<char>)
    ensures
        forall|f: spec_fn(int) -> bool| (forall|x: int| #[trigger] f(x) == (h.id[x] == iri)) ==> #[trigger] seq_pos(subtree(h, root), f) == seq_pos(subtree(h, root), with_id(h, iri)),
        first_with(h, root, iri) is Some ==> h.id[first_with(h, root, iri)->0] == iri,
{
    let s = subtree(h, root);
    let g = with_id(h, iri);
    lemma_seq_pos(s, g);
    assert forall|f: spec_fn(int) -> bool| (forall|x: int| #[trigger] f(x) == (h.id[x] == iri)) implies #[trigger] seq_pos(s, f) == seq_pos(s, g) by {
        assert(f =~= g);
    }
}
// document order depends on the tree only
proof fn lemma_same_subtree(h: Heap, g: Heap, n: int)
    requires wf(h), h.kids == g.kids
    ensures subtree(h, n) == subtree(g, n)
{
    lemma_exists_deep(h, n);
    let k = choose|k: nat| deep(h, n, k);
    lemma_same_tour(h, g, n, k);
    let k2 = choose|k: nat| deep(g, n, k);
    assert(deep(g, n, k2));
    lemma_same_tour(h, g, n, k2);
    lemma_tour_levels(h, n, k, k2);
}

// ---------------------------------------------------------------- C18: what is left after all references were resolved
pub open spec fn pend_uniq(ls: Seq<PLink>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < ls.len() && (#[trigger] ls[i]).node == (#[trigger] ls[j]).node ==> ls[i].attr_id != ls[j].attr_id)
    && forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).iri.len() > 0
}
pub open spec fn all_plain(h: Heap) -> bool { forall|x: int, nm: QName| has_name(h.attributes[x], nm) ==> target((#[trigger] lookup(h.attributes[x], nm))->0) is None }
// the reference l of an element of the document: link, refused crosslink, or fallback
pub open spec fn resolved_link(h0: Heap, root: int, l: PLink, h: Heap) -> bool {
    let now = lookup(h.attributes[l.node], QName::Id(l.attr_id));
    match first_with(h0, root, l.iri) {
        None => now == Some(unresolved(l)),
        Some(t) => if crosslink(h, l.node, t) { now == lookup(h0.attributes[l.node], QName::Id(l.attr_id)) } else { now == Some(link_value(QName::Id(l.attr_id), t, l.fallback)) },
    }
}
pub open spec fn is_pending(ls: Seq<PLink>, n: int, x: int, nm: QName) -> bool { exists|i: int| 0 <= i < n && (#[trigger] ls[i]).node == x && nm == QName::Id(ls[i].attr_id) }
pub open spec fn resolved_upto(h0: Heap, root: int, ls: Seq<PLink>, n: int, h: Heap) -> bool {
    &&& rest_eq(h, h0)
    &&& lk(h)
    &&& forall|i: int| 0 <= i < n && h0.storage_key[(#[trigger] ls[i]).node] is Some ==> resolved_link(h0, root, ls[i], h)
    &&& forall|x: int, nm: QName| #![trigger lookup(h.attributes[x], nm)] !is_pending(ls, n, x, nm) ==> lookup(h.attributes[x], nm) == lookup(h0.attributes[x], nm)
}
proof fn lemma_resolve_step(h0: Heap, root: int, ls: Seq<PLink>, n: int, g: Heap, h: Heap)
    requires wf(h0), lk(h0), all_plain(h0), pend_uniq(ls), 0 <= n < ls.len(), resolved_upto(h0, root, ls, n, g), resolve_one(g, root, ls[n], h)
    ensures resolved_upto(h0, root, ls, n + 1, h)
{
    let l = ls[n];
    let nm = QName::Id(l.attr_id);
    lemma_same_subtree(h0, g, root);
    assert(with_id(h0, l.iri) =~= with_id(g, l.iri));
    let f = first_with(h0, root, l.iri);
    assert(first_with(g, root, l.iri) == f);
    lemma_first_with(h0, root, l.iri);
    // nothing was put under this name yet
    assert(!is_pending(ls, n, l.node, nm)) by {
        if is_pending(ls, n, l.node, nm) { let i = choose|i: int| 0 <= i < n && (#[trigger] ls[i]).node == l.node && nm == QName::Id(ls[i].attr_id); assert(ls[i].node == ls[n].node); }
    }
    assert(lookup(g.attributes[l.node], nm) == lookup(h0.attributes[l.node], nm));
    let old = old_target(g, l.node, nm);
    assert(old is None) by {
        if has_name(g.attributes[l.node], nm) { assert(has_name(h0.attributes[l.node], nm)); }
    }
    let live = g.storage_key[l.node] is Some;
    let refused = f is Some && crosslink(g, l.node, f->0);
    if !live || refused {
        assert(h == g);
        assert forall|i: int| 0 <= i < n + 1 && h0.storage_key[(#[trigger] ls[i]).node] is Some implies resolved_link(h0, root, ls[i], h) by { }
    } else {
        let a = Attribute { name: nm, value: if f is Some { link_value(nm, f->0, l.fallback) } else { unresolved(l) } };
        assert(set_to(g, h, l.node, a));
        lemma_set_to(g, h, l.node, a);
        let w = without(g.attributes[l.node], nm);
        assert(lk_node(g, l.node));
        lemma_without(g.attributes[l.node], nm);
        lemma_put(w, a);
        assert(lookup(h.attributes[l.node], nm) == Some(a.value));
        assert forall|i: int| 0 <= i < n + 1 && h0.storage_key[(#[trigger] ls[i]).node] is Some implies resolved_link(h0, root, ls[i], h) by {
            let m = ls[i];
            let mm = QName::Id(m.attr_id);
            if i < n {
                assert(resolved_link(h0, root, m, g));
                assert(m.node == ls[n].node ==> m.attr_id != l.attr_id);
                assert(lookup(h.attributes[m.node], mm) == lookup(g.attributes[m.node], mm));
                if let Some(t) = first_with(h0, root, m.iri) {
                    assert(occ(h.linked_nodes[m.node], t) >= occ(g.linked_nodes[m.node], t));
                    if !crosslink(g, m.node, t) && crosslink(h, m.node, t) {
                        // l is the link back, and it would have been refused
                        assert(t == l.node && target(a.value) == Some(m.node));
                        lemma_lk_target(g, m.node, mm);
                        assert(false);
                    }
                }
            } else {
                if f is Some { assert(occ(h.linked_nodes[l.node], f->0) == occ(g.linked_nodes[l.node], f->0)); }
            }
        }
    }
    assert forall|x: int, q: QName| #![trigger lookup(h.attributes[x], q)] !is_pending(ls, n + 1, x, q) implies lookup(h.attributes[x], q) == lookup(h0.attributes[x], q) by {
        if is_pending(ls, n, x, q) { let i = choose|i: int| 0 <= i < n && (#[trigger] ls[i]).node == x && q == QName::Id(ls[i].attr_id); assert(ls[i].node == x); assert(is_pending(ls, n + 1, x, q)); }
        assert(x == l.node && q == nm ==> is_pending(ls, n + 1, x, q)) by { assert(ls[n].node == l.node); }
        assert(lookup(g.attributes[x], q) == lookup(h0.attributes[x], q));
    }
}
proof fn lemma_links_resolved(h0: Heap, root: int, ls: Seq<PLink>, n: int, h: Heap)
    requires wf(h0), lk(h0), all_plain(h0), pend_uniq(ls), 0 <= n <= ls.len(), resolving(h0, root, ls, n, h)
    ensures resolved_upto(h0, root, ls, n, h)
    decreases n
{
    if n > 0 {
        let g = choose|g: Heap| resolving(h0, root, ls, n - 1, g) && #[trigger] resolve_one(g, root, ls[n - 1], h);
        lemma_links_resolved(h0, root, ls, n - 1, g);
        lemma_resolve_step(h0, root, ls, n - 1, g, h);
    }
}
