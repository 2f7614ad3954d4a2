// ---------------------------------------------------------------- the cascade
pub struct X_Selector { pub v: int }
pub struct X_Declaration { pub name: Seq<char>, pub value: Seq<char>, pub important: bool }
pub struct X_Rule { pub selector: X_Selector, pub declarations: Seq<X_Declaration> }
pub struct X_StyleSheet { pub rules: Seq<X_Rule> }
pub uninterp spec fn css_tokens(v: Seq<char>) -> Seq<X_Declaration>;
pub struct Decl { pub aid: int, pub value: Seq<char> }
// what is known of an element while its declarations are read
pub struct Props { pub attrs: Seq<Attribute>, pub pend: Seq<PLink> }
pub open spec fn decl_step(s: Props, n: int, eid: int, d: Decl) -> Props {
    match value_spec(d.aid, eid, d.value) {
        Parsed::Invalid => s,
        Parsed::Cleared => Props { attrs: without(s.attrs, QName::Id(d.aid)), ..s },
        Parsed::Ref(iri, fb) => Props { pend: pended(s.pend, n, d.aid, iri, fb), ..s },
        Parsed::Is(v) => if empty_list(v) { s } else {
            Props { attrs: without(s.attrs, QName::Id(d.aid)).push(Attribute { name: QName::Id(d.aid), value: v }), pend: unpend(s.pend, n, d.aid) }
        },
    }
}
pub open spec fn cascade(s: Props, n: int, eid: int, ds: Seq<Decl>) -> Props
    decreases ds.len()
{
    if ds.len() == 0 { s } else { decl_step(cascade(s, n, eid, ds.drop_last()), n, eid, ds.last()) }
}
proof fn lemma_cascade_join(s: Props, n: int, eid: int, a: Seq<Decl>, b: Seq<Decl>)
    ensures cascade(s, n, eid, a + b) == cascade(cascade(s, n, eid, a), n, eid, b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_cascade_join(s, n, eid, a, b.drop_last());
    }
}
pub open spec fn plain(s: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> target(#[trigger] s[i].value) is None }
// the declarations ds were applied to the element n, one after the other
pub open spec fn ran(h0: Heap, l0: Seq<PLink>, h: Heap, l: Seq<PLink>, n: int, ds: Seq<Decl>) -> bool {
    let s = cascade(Props { attrs: h0.attributes[n], pend: l0 }, n, h0.tag_name[n]->Id_0, ds);
    &&& rest_eq(h, h0)
    &&& attrs_upd(h0, h, n, s.attrs)
    &&& forall|x: int, y: int| #[trigger] occ(h.linked_nodes[x], y) == occ(h0.linked_nodes[x], y)
    &&& l == s.pend
}
proof fn lemma_plain(s: Seq<Attribute>, nm: QName)
    requires plain(s)
    ensures plain(without(s, nm)), has_name(s, nm) ==> target(lookup(s, nm)->0) is None,
        forall|v: AttributeValue| target(v) is None ==> plain(#[trigger] without(s, nm).push(Attribute { name: nm, value: v }))
{
    lemma_at_name(s, nm);
}
proof fn lemma_ran_start(h: Heap, l: Seq<PLink>, n: int)
    ensures ran(h, l, h, l, n, Seq::<Decl>::empty())
{}
// one declaration
proof fn lemma_ran_one(h0: Heap, l0: Seq<PLink>, h: Heap, l: Seq<PLink>, n: int, aid: int, v: Seq<char>)
    requires declared(h0, l0, h, l, n, aid, value_spec(aid, h0.tag_name[n]->Id_0, v)), plain(h0.attributes[n])
    ensures ran(h0, l0, h, l, n, seq![Decl { aid: aid, value: v }]), plain(h.attributes[n])
{
    let ds = seq![Decl { aid: aid, value: v }];
    let s = Props { attrs: h0.attributes[n], pend: l0 };
    let eid = h0.tag_name[n]->Id_0;
    assert(ds.drop_last() =~= Seq::<Decl>::empty());
    assert(cascade(s, n, eid, ds.drop_last()) == s);
    assert(cascade(s, n, eid, ds) == decl_step(s, n, eid, ds[0]));
    lemma_plain(h0.attributes[n], QName::Id(aid));
    lemma_parsed_no_link(aid, eid, v);
    assert(attrs_upd(h0, h, n, cascade(s, n, eid, ds).attrs));
    assert(h.attributes[n] == cascade(s, n, eid, ds).attrs);
}
proof fn lemma_ran_join(h0: Heap, l0: Seq<PLink>, h1: Heap, l1: Seq<PLink>, h: Heap, l: Seq<PLink>, n: int, a: Seq<Decl>, b: Seq<Decl>)
    requires ran(h0, l0, h1, l1, n, a), ran(h1, l1, h, l, n, b)
    ensures ran(h0, l0, h, l, n, a + b)
{
    let s = Props { attrs: h0.attributes[n], pend: l0 };
    lemma_cascade_join(s, n, h0.tag_name[n]->Id_0, a, b);
    assert(h1.attributes[n] == cascade(s, n, h0.tag_name[n]->Id_0, a).attrs);
    assert(h.attributes[n] == cascade(s, n, h0.tag_name[n]->Id_0, a + b).attrs);
    assert forall|x: int| #![trigger h.attributes[x]] h.attributes[x] == (if x == n { cascade(s, n, h0.tag_name[n]->Id_0, a + b).attrs } else { h0.attributes[x] }) by {
        if x != n { assert(h1.attributes[x] == h0.attributes[x]); }
    }
    assert forall|x: int, y: int| #[trigger] occ(h.linked_nodes[x], y) == occ(h0.linked_nodes[x], y) by { assert(occ(h1.linked_nodes[x], y) == occ(h0.linked_nodes[x], y)); }
}
proof fn lemma_lk_id(h0: Heap, h: Heap)
    requires lk(h0), h.attributes == h0.attributes, h.linked_nodes == h0.linked_nodes
    ensures lk(h)
{
    assert forall|a: int, b: int| #[trigger] lk_pair(h, a, b) by { assert(lk_pair(h0, a, b)); }
    assert forall|a: int| #[trigger] lk_node(h, a) by { assert(lk_node(h0, a)); }
}
// the attribute a name stands for
pub open spec fn aid_named(s: Seq<char>) -> Option<int> {
    if exists|id: int| 0 <= id < aid_count() && s == of_utf8(#[trigger] names_AttributeId()[id]) {
        Some(choose|id: int| 0 <= id < aid_count() && s == of_utf8(#[trigger] names_AttributeId()[id]))
    } else { None }
}
pub open spec fn styleable(id: int) -> bool { at_presentation(id) || id == AID_Transform }
// a declaration in a style sheet
pub open spec fn css_decls(name: Seq<char>, value: Seq<char>) -> Seq<Decl> {
    match aid_named(name) {
        None => Seq::empty(),
        Some(id) => if !styleable(id) { Seq::empty() }
            else if id == AID_Marker { seq![Decl { aid: AID_MarkerStart, value: value }, Decl { aid: AID_MarkerMid, value: value }, Decl { aid: AID_MarkerEnd, value: value }] }
            else { seq![Decl { aid: id, value: value }] },
    }
}
// a declaration in a style attribute
pub open spec fn inline_decls(name: Seq<char>, value: Seq<char>) -> Seq<Decl> {
    match aid_named(name) {
        None => Seq::empty(),
        Some(id) => if !styleable(id) { Seq::empty() } else { seq![Decl { aid: id, value: value }] },
    }
}
pub open spec fn style_decls(ts: Seq<X_Declaration>) -> Seq<Decl>
    decreases ts.len()
{
    if ts.len() == 0 { Seq::empty() } else { style_decls(ts.drop_last()) + inline_decls(ts.last().name, ts.last().value) }
}
proof fn lemma_style_next(ts: Seq<X_Declaration>, i: int)
    requires 0 <= i < ts.len()
    ensures style_decls(ts.take(i + 1)) == style_decls(ts.take(i)) + inline_decls(ts[i].name, ts[i].value)
{
    assert(ts.take(i + 1).drop_last() =~= ts.take(i));
}
// a plain attribute
pub open spec fn plain_decls(id: int, value: Seq<char>) -> Seq<Decl> {
    if id == AID_Id || id == AID_Style || id == AID_Class { Seq::empty() } else { seq![Decl { aid: id, value: value }] }
}

// ---------------------------------------------------------------- C17: the last valid declaration of an attribute decides
// does this declaration say anything
pub open spec fn effective(p: Parsed) -> bool { match p { Parsed::Invalid => false, Parsed::Is(v) => !empty_list(v), _ => true } }
pub open spec fn winner(eid: int, ds: Seq<Decl>, aid: int) -> Option<Parsed>
    decreases ds.len()
{
    if ds.len() == 0 { None }
    else if ds.last().aid == aid && effective(value_spec(aid, eid, ds.last().value)) { Some(value_spec(aid, eid, ds.last().value)) }
    else { winner(eid, ds.drop_last(), aid) }
}
pub open spec fn decided(s: Props, n: int, aid: int, w: Option<Parsed>) -> bool {
    match w {
        Some(Parsed::Is(v)) => lookup(s.attrs, QName::Id(aid)) == Some(v) && !has_pend(s.pend, n, aid),
        Some(Parsed::Ref(iri, fb)) => has_pend(s.pend, n, aid) && s.pend[pend_at(s.pend, n, aid)] == (PLink { attr_id: aid, iri: iri, fallback: fb, node: n }),
        _ => lookup(s.attrs, QName::Id(aid)) is None && !has_pend(s.pend, n, aid),
    }
}
proof fn lemma_kinds(aid: int, eid: int, v: Seq<char>)
    ensures value_spec(aid, eid, v) is Cleared ==> aid == AID_Transform || aid == AID_GradientTransform || aid == AID_PatternTransform,
        value_spec(aid, eid, v) is Ref ==> aid != AID_Transform && aid != AID_GradientTransform && aid != AID_PatternTransform,
{}
proof fn lemma_pend_other(s: Seq<PLink>, n: int, id: int, aid: int, iri: Seq<char>, fb: Option<PaintFallback>)
    requires pend_ok(s, n)
    ensures
        aid != id ==> has_pend(unpend(s, n, id), n, aid) == has_pend(s, n, aid) && has_pend(pended(s, n, id, iri, fb), n, aid) == has_pend(s, n, aid),
        aid != id && has_pend(s, n, aid) ==> unpend(s, n, id)[pend_at(unpend(s, n, id), n, aid)] == s[pend_at(s, n, aid)]
            && pended(s, n, id, iri, fb)[pend_at(pended(s, n, id, iri, fb), n, aid)] == s[pend_at(s, n, aid)],
        has_pend(pended(s, n, id, iri, fb), n, id),
        pended(s, n, id, iri, fb)[pend_at(pended(s, n, id, iri, fb), n, id)] == (PLink { attr_id: id, iri: iri, fallback: fb, node: n }),
{
    let u = unpend(s, n, id);
    let q = pended(s, n, id, iri, fb);
    lemma_unpend(s, n, id);
    lemma_unpend(s, n, aid);
    lemma_pend_ok(s, n, id);
    lemma_unpend(u, n, aid);
    lemma_unpend(q, n, aid);
    lemma_unpend(q, n, id);
    assert(pends(q[q.len() - 1], n, id));
    if aid != id {
        let p = pend_at(s, n, id);
        if has_pend(s, n, aid) {
            let i = pend_at(s, n, aid);
            let j = if has_pend(s, n, id) && i > p { i - 1 } else { i };
            assert(u[j] == s[i]);
            assert(pends(u[j], n, aid));
            assert(q[j] == u[j]);
            assert(pends(q[j], n, aid));
        }
        if has_pend(u, n, aid) {
            let j = pend_at(u, n, aid);
            let i = if has_pend(s, n, id) && j >= p { j + 1 } else { j };
            assert(u[j] == s[i]);
            assert(pends(s[i], n, aid));
        }
        if has_pend(q, n, aid) {
            let j = pend_at(q, n, aid);
            assert(j < u.len());
            assert(q[j] == u[j]);
            assert(pends(u[j], n, aid));
        }
    }
}
proof fn lemma_cascade_wins(s: Props, n: int, eid: int, ds: Seq<Decl>, aid: int)
    requires s.attrs.len() == 0, forall|i: int| 0 <= i < s.pend.len() ==> (#[trigger] s.pend[i]).node != n
    ensures decided(cascade(s, n, eid, ds), n, aid, winner(eid, ds, aid)), uniq(cascade(s, n, eid, ds).attrs), pend_ok(cascade(s, n, eid, ds).pend, n)
    decreases ds.len()
{
    if ds.len() > 0 {
        lemma_cascade_wins(s, n, eid, ds.drop_last(), aid);
        let c = cascade(s, n, eid, ds.drop_last());
        let d = ds.last();
        lemma_cascade_wins(s, n, eid, ds.drop_last(), d.aid);
        lemma_kinds(d.aid, eid, d.value);
        lemma_pend_ok(c.pend, n, d.aid);
        lemma_unpend(c.pend, n, d.aid);
        lemma_without(c.attrs, QName::Id(d.aid));
        match value_spec(d.aid, eid, d.value) {
            Parsed::Ref(iri, fb) => { lemma_pend_other(c.pend, n, d.aid, aid, iri, fb); }
            Parsed::Is(v) => {
                lemma_pend_other(c.pend, n, d.aid, aid, Seq::empty(), None);
                let w = without(c.attrs, QName::Id(d.aid));
                let a = Attribute { name: QName::Id(d.aid), value: v };
                lemma_put(w, a);
                assert(put(w, a) == w.push(a));
            }
            Parsed::Cleared => { lemma_winner_cleared(eid, ds.drop_last(), d.aid); }
            _ => {}
        }
    }
}
proof fn lemma_winner_cleared(eid: int, ds: Seq<Decl>, aid: int)
    ensures
        aid == AID_Transform || aid == AID_GradientTransform || aid == AID_PatternTransform ==> !(winner(eid, ds, aid) is Some && winner(eid, ds, aid)->0 is Ref)
    decreases ds.len()
{
    if ds.len() > 0 { lemma_winner_cleared(eid, ds.drop_last(), aid); lemma_kinds(aid, eid, ds.last().value); }
}
