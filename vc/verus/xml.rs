// ---------------------------------------------------------------- the XML tree (roxmltree), given by its accessors
pub struct X_roxmltree_Node { pub v: int }
pub struct X_roxmltree_Attribute { pub v: int }
pub struct X_ExpandedName { pub v: int }
pub struct X_Range { pub start: int, pub end: int }
pub spec const XT_Element: int = 1;
pub spec const XT_Comment: int = 3;
pub spec const XT_Text: int = 4;
pub uninterp spec fn xn_type(x: X_roxmltree_Node) -> int;
pub uninterp spec fn xn_tag(x: X_roxmltree_Node) -> X_ExpandedName;
pub uninterp spec fn xt_ns(t: X_ExpandedName) -> Option<Seq<char>>;
pub uninterp spec fn xt_name(t: X_ExpandedName) -> Seq<char>;
pub uninterp spec fn xn_text(x: X_roxmltree_Node) -> Option<Seq<char>>;
pub uninterp spec fn xn_attrs(x: X_roxmltree_Node) -> Seq<X_roxmltree_Attribute>;
pub uninterp spec fn xn_kids(x: X_roxmltree_Node) -> Seq<X_roxmltree_Node>;
pub uninterp spec fn xn_attr(x: X_roxmltree_Node, name: Seq<char>) -> Option<X_roxmltree_Attribute>;
pub uninterp spec fn xa_ns(a: X_roxmltree_Attribute) -> Option<Seq<char>>;
pub uninterp spec fn xa_name(a: X_roxmltree_Attribute) -> Seq<char>;
pub uninterp spec fn xa_value(a: X_roxmltree_Attribute) -> Seq<char>;
pub uninterp spec fn xa_range(a: X_roxmltree_Attribute) -> X_Range;
pub uninterp spec fn xd_root(d: X_roxmltree_Document) -> X_roxmltree_Node;
pub uninterp spec fn sel_matches(s: X_Selector, x: X_roxmltree_Node) -> bool;
pub struct X_AttributeOperator { pub v: int }
pub uninterp spec fn xml_of(s: Seq<char>) -> Result<X_roxmltree_Document, X_roxmltree_Error>;
pub uninterp spec fn xd_all(d: X_roxmltree_Document) -> Seq<X_roxmltree_Node>;
pub uninterp spec fn xn_parent_element(x: X_roxmltree_Node) -> Option<X_roxmltree_Node>;
pub uninterp spec fn xn_before(x: X_roxmltree_Node) -> Seq<X_roxmltree_Node>;
pub uninterp spec fn op_matches(op: X_AttributeOperator, v: Seq<char>) -> bool;
pub uninterp spec fn css_more(sh: X_StyleSheet, text: Seq<char>) -> X_StyleSheet;
pub open spec fn xn_attribute(x: X_roxmltree_Node, name: Seq<char>) -> Option<Seq<char>> { match xn_attr(x, name) { Some(a) => Some(xa_value(a)), None => None } }
// an XML tree is finite
pub open spec fn xdeep(x: X_roxmltree_Node, k: nat) -> bool
    decreases k
{
    k > 0 && forall|i: int| 0 <= i < xn_kids(x).len() ==> xdeep(#[trigger] xn_kids(x)[i], (k - 1) as nat)
}

// ---------------------------------------------------------------- what an XML node stands for
pub open spec fn eid_named(s: Seq<char>) -> Option<int> {
    if exists|id: int| 0 <= id < eid_count() && s == of_utf8(#[trigger] names_ElementId()[id]) {
        Some(choose|id: int| 0 <= id < eid_count() && s == of_utf8(#[trigger] names_ElementId()[id]))
    } else { None }
}
pub open spec fn elem_of(x: X_roxmltree_Node) -> Option<int> {
    if xn_type(x) == XT_Element && xt_ns(xn_tag(x)) == Some(ns_svg()) { eid_named(xt_name(xn_tag(x))) } else { None }
}
pub open spec fn blank(s: Seq<char>) -> bool { str_trim(s).len() == 0 }
// does the node x below an element (or the root: None) leave a node in the document
pub open spec fn keeps_x(x: X_roxmltree_Node, p: Option<int>) -> bool {
    if xn_type(x) == XT_Element { elem_of(x) is Some }
    else if xn_type(x) == XT_Text { !blank(xn_text(x)->0) || p == Some(EID_Text) || p == Some(EID_Tspan) || p == Some(EID_Tref) }
    else { xn_type(x) == XT_Comment }
}
pub open spec fn kept_xs(xs: Seq<X_roxmltree_Node>, p: Option<int>) -> Seq<X_roxmltree_Node>
    decreases xs.len()
{
    if xs.len() == 0 { xs } else if keeps_x(xs.last(), p) { kept_xs(xs.drop_last(), p).push(xs.last()) } else { kept_xs(xs.drop_last(), p) }
}
pub open spec fn ns_known(ns: Option<Seq<char>>) -> bool { ns is None || ns->0 == ns_svg() || ns->0 == ns_xlink() || ns->0 == ns_xml() }
pub open spec fn attr_aid(a: X_roxmltree_Attribute) -> Option<int> { if ns_known(xa_ns(a)) { aid_named(xa_name(a)) } else { None } }
// the id: the last id attribute
pub open spec fn attrs_id(s: Seq<X_roxmltree_Attribute>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if attr_aid(s.last()) == Some(AID_Id) { xa_value(s.last()) } else { attrs_id(s.drop_last()) }
}
// the declarations an element reads: its attributes, the rules that match, its style attribute
pub open spec fn attr_decls(a: X_roxmltree_Attribute) -> Seq<Decl> { match attr_aid(a) { Some(id) => plain_decls(id, xa_value(a)), None => Seq::empty() } }
pub open spec fn attrs_decls(s: Seq<X_roxmltree_Attribute>) -> Seq<Decl>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { attrs_decls(s.drop_last()) + attr_decls(s.last()) }
}
pub open spec fn rule_decls(ds: Seq<X_Declaration>) -> Seq<Decl>
    decreases ds.len()
{
    if ds.len() == 0 { Seq::empty() } else { rule_decls(ds.drop_last()) + css_decls(ds.last().name, ds.last().value) }
}
pub open spec fn rules_decls(rs: Seq<X_Rule>, x: X_roxmltree_Node) -> Seq<Decl>
    decreases rs.len()
{
    if rs.len() == 0 { Seq::empty() }
    else { rules_decls(rs.drop_last(), x) + (if sel_matches(rs.last().selector, x) { rule_decls(rs.last().declarations) } else { Seq::empty() }) }
}
pub open spec fn inline_style(x: X_roxmltree_Node) -> Seq<Decl> { match xn_attr(x, style_name()) { Some(a) => style_decls(css_tokens(xa_value(a))), None => Seq::empty() } }
pub open spec fn elem_decls(x: X_roxmltree_Node, sh: X_StyleSheet) -> Seq<Decl> { attrs_decls(xn_attrs(x)) + rules_decls(sh.rules, x) + inline_style(x) }

// ---------------------------------------------------------------- the document while it is built
// svgtypes: a reference is never empty
#[verifier::external_body]
proof fn axiom_iri(v: Seq<char>)
    ensures
        stream_parse_iri(ext_stream(v)) is Ok ==> stream_parse_iri(ext_stream(v))->Ok_0.len() > 0,
        stream_parse_func_iri(ext_stream(v)) is Ok ==> stream_parse_func_iri(ext_stream(v))->Ok_0.len() > 0,
        ext_paint_of(v) is Ok && ext_paint_of(v)->Ok_0 is FuncIRI ==> ext_paint_of(v)->Ok_0->FuncIRI_0.len() > 0,
{ unimplemented!() }
pub open spec fn page_node(h: Heap, d: SDocument, x: int) -> bool { (h.allocated[x] ==> own_node(h, d, x)) && (h.parent[x] is Some ==> h.allocated[x]) }
pub open spec fn all_names_known(s: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name is Id }
// every node is this document's, nothing is linked yet
pub open spec fn page(h: Heap, d: SDocument) -> bool {
    wf(h) && lk(h) && own(h, d) && inner(h) && spaces_ok(h) && all_plain(h) && forall|x: int| #[trigger] page_node(h, d, x)
}
// the nodes of g are as they were, but p may have got children
pub open spec fn grew(g: Heap, h: Heap, p: int) -> bool {
    forall|x: int| #![trigger h.parent[x]] #![trigger h.kids[x]] #![trigger h.attributes[x]] #![trigger h.storage_key[x]] #![trigger h.id[x]]
            #![trigger h.node_type[x]] #![trigger h.tag_name[x]] #![trigger h.text[x]] #![trigger h.allocated[x]]
        g.allocated[x] ==> data_same(g, h, x) && h.parent[x] == g.parent[x] && (x != p ==> h.kids[x] == g.kids[x])
}
// the new pending links are those of new nodes
pub open spec fn more(g: Heap, l0: Seq<PLink>, l: Seq<PLink>) -> bool {
    l0.len() <= l.len() && (forall|i: int| 0 <= i < l0.len() ==> #[trigger] l[i] == l0[i]) && forall|i: int| l0.len() <= i < l.len() ==> !g.allocated[(#[trigger] l[i]).node]
}
pub open spec fn pend_fine(h: Heap, l: Seq<PLink>) -> bool {
    pend_uniq(l) && forall|i: int| 0 <= i < l.len() ==> h.allocated[(#[trigger] l[i]).node] && h.node_type[l[i].node] == NT_Element && l[i].attr_id != AID_Space
}
pub open spec fn tag_of(h: Heap, n: int) -> Option<int> { match h.tag_name[n] { QName::Id(id) => Some(id), _ => None } }
pub open spec fn elem_img(h: Heap, l: Seq<PLink>, n: int, x: X_roxmltree_Node, sh: X_StyleSheet) -> bool {
    &&& h.node_type[n] == NT_Element && elem_of(x) is Some && h.tag_name[n] == QName::Id(elem_of(x)->0)
    &&& h.id[n] == attrs_id(xn_attrs(x)) && h.text[n].len() == 0 && uniq(h.attributes[n]) && all_names_known(h.attributes[n])
    &&& forall|aid: int| #[trigger] elem_prop(h, l, n, x, sh, aid)
}
pub open spec fn elem_prop(h: Heap, l: Seq<PLink>, n: int, x: X_roxmltree_Node, sh: X_StyleSheet, aid: int) -> bool {
    decided(Props { attrs: h.attributes[n], pend: l }, n, aid, winner(elem_of(x)->0, elem_decls(x, sh), aid))
}
pub open spec fn leaf_img(h: Heap, n: int, x: X_roxmltree_Node) -> bool {
    &&& h.node_type[n] == (if xn_type(x) == XT_Text { NT_Text } else { NT_Comment }) && xn_text(x) == Some(h.text[n])
    &&& h.kids[n].len() == 0 && h.attributes[n].len() == 0 && h.id[n].len() == 0 && h.tag_name[n] == QName::Name(Seq::empty())
}
// the subtree of n, all of it newer than b, is what the XML node x stands for
pub open spec fn img(b: Heap, h: Heap, l: Seq<PLink>, n: int, x: X_roxmltree_Node, sh: X_StyleSheet, k: nat) -> bool
    decreases k
{
    &&& k > 0 && !b.allocated[n] && h.allocated[n]
    &&& if xn_type(x) == XT_Element {
            let xs = kept_xs(xn_kids(x), elem_of(x));
            elem_img(h, l, n, x, sh) && h.kids[n].len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> img(b, h, l, #[trigger] h.kids[n][i], xs[i], sh, (k - 1) as nat)
        } else { leaf_img(h, n, x) }
}
pub open spec fn kids_img(b: Heap, h: Heap, l: Seq<PLink>, ns: Seq<int>, xs: Seq<X_roxmltree_Node>, sh: X_StyleSheet, k: nat) -> bool {
    ns.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> img(b, h, l, #[trigger] ns[i], xs[i], sh, k)
}
pub open spec fn stepped(g: Heap, d: SDocument, l0: Seq<PLink>, h: Heap, e: SDocument, l: Seq<PLink>, p: int) -> bool {
    page(h, e) && e.root == d.root && grew(g, h, p) && more(g, l0, l) && pend_fine(h, l)
}
// x left its image as the last child of p, or nothing
pub open spec fn put_image(g: Heap, l0: Seq<PLink>, h: Heap, l: Seq<PLink>, p: int, x: X_roxmltree_Node, sh: X_StyleSheet, k: nat) -> bool {
    if keeps_x(x, tag_of(g, p)) { h.kids[p].len() == g.kids[p].len() + 1 && h.kids[p] == g.kids[p].push(h.kids[p].last()) && img(g, h, l, h.kids[p].last(), x, sh, k) }
    else { h == g && l == l0 }
}
// reading the declarations ds of the new element e
pub open spec fn reading(g: Heap, l0: Seq<PLink>, h: Heap, l: Seq<PLink>, e: int, idv: Seq<char>, ds: Seq<Decl>) -> bool {
    let s = cascade(Props { attrs: g.attributes[e], pend: l0 }, e, g.tag_name[e]->Id_0, ds);
    &&& links_eq(h, g) && h.storage_key == g.storage_key && h.node_type == g.node_type && h.tag_name == g.tag_name && h.text == g.text && h.allocated == g.allocated
    &&& forall|x: int| #![trigger h.id[x]] h.id[x] == (if x == e { idv } else { g.id[x] })
    &&& attrs_upd(g, h, e, s.attrs)
    &&& l == s.pend
}
pub open spec fn read_links(g: Heap, l0: Seq<PLink>, e: int, ds: Seq<Decl>) -> Seq<PLink> { cascade(Props { attrs: g.attributes[e], pend: l0 }, e, g.tag_name[e]->Id_0, ds).pend }
proof fn lemma_read_start(h: Heap, l: Seq<PLink>, e: int)
    ensures reading(h, l, h, l, e, h.id[e], Seq::<Decl>::empty())
{}
proof fn lemma_read_id(g: Heap, l0: Seq<PLink>, g1: Heap, h: Heap, l: Seq<PLink>, e: int, idv: Seq<char>, v: Seq<char>, ds: Seq<Decl>)
    requires reading(g, l0, g1, l, e, idv, ds), h == (Heap { id: g1.id.insert(e, v), ..g1 })
    ensures reading(g, l0, h, l, e, v, ds)
{
    assert forall|x: int| #![trigger h.id[x]] h.id[x] == (if x == e { v } else { g.id[x] }) by { assert(g1.id[x] == g1.id[x]); }
}
proof fn lemma_read_join(g: Heap, l0: Seq<PLink>, g1: Heap, l1: Seq<PLink>, h: Heap, l: Seq<PLink>, e: int, idv: Seq<char>, a: Seq<Decl>, b: Seq<Decl>)
    requires reading(g, l0, g1, l1, e, idv, a), ran(g1, l1, h, l, e, b)
    ensures reading(g, l0, h, l, e, idv, a + b)
{
    let s = Props { attrs: g.attributes[e], pend: l0 };
    let eid = g.tag_name[e]->Id_0;
    lemma_cascade_join(s, e, eid, a, b);
    assert(g1.attributes[e] == cascade(s, e, eid, a).attrs);
    assert(h.attributes[e] == cascade(s, e, eid, a + b).attrs);
    assert forall|x: int| #![trigger h.attributes[x]] h.attributes[x] == (if x == e { cascade(s, e, eid, a + b).attrs } else { g.attributes[x] }) by {
        if x != e { assert(g1.attributes[x] == g.attributes[x]); }
    }
}
// what reading leaves: new pending links of the element only, known names
proof fn lemma_cascade_keeps(s: Props, n: int, eid: int, ds: Seq<Decl>)
    requires s.attrs.len() == 0, forall|i: int| 0 <= i < s.pend.len() ==> (#[trigger] s.pend[i]).node != n
    ensures ({ let c = cascade(s, n, eid, ds);
        &&& all_names_known(c.attrs) && s.pend.len() <= c.pend.len()
        &&& forall|i: int| 0 <= i < s.pend.len() ==> #[trigger] c.pend[i] == s.pend[i]
        &&& forall|i: int| s.pend.len() <= i < c.pend.len() ==> (#[trigger] c.pend[i]).node == n && c.pend[i].iri.len() > 0 && c.pend[i].attr_id != AID_Space })
    decreases ds.len()
{
    if ds.len() > 0 {
        lemma_cascade_keeps(s, n, eid, ds.drop_last());
        let c = cascade(s, n, eid, ds.drop_last());
        let d = ds.last();
        lemma_cascade_wins(s, n, eid, ds.drop_last(), d.aid);
        lemma_unpend(c.pend, n, d.aid);
        let v = if d.aid == AID_Unicode { d.value } else { str_trim(d.value) };
        axiom_iri(v);
        lemma_at_name(c.attrs, QName::Id(d.aid));
        let u = unpend(c.pend, n, d.aid);
        if has_pend(c.pend, n, d.aid) {
            let p = pend_at(c.pend, n, d.aid);
            assert(p >= s.pend.len());
            assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == (if i < p { c.pend[i] } else { c.pend[i + 1] }) by {}
        }
        assert(all_names_known(without(c.attrs, QName::Id(d.aid))));
    }
}
proof fn lemma_winner_space(eid: int, ds: Seq<Decl>)
    ensures winner(eid, ds, AID_Space) is Some ==> winner(eid, ds, AID_Space)->0 is Is && winner(eid, ds, AID_Space)->0->Is_0 is String
    decreases ds.len()
{
    if ds.len() > 0 { lemma_winner_space(eid, ds.drop_last()); }
}
proof fn lemma_stepped_refl(g: Heap, d: SDocument, l: Seq<PLink>, p: int)
    requires page(g, d), pend_fine(g, l)
    ensures stepped(g, d, l, g, d, l, p)
{}
proof fn lemma_stepped_trans(g: Heap, d: SDocument, l0: Seq<PLink>, h1: Heap, d1: SDocument, l1: Seq<PLink>, h: Heap, e: SDocument, l: Seq<PLink>, p: int)
    requires stepped(g, d, l0, h1, d1, l1, p), stepped(h1, d1, l1, h, e, l, p)
    ensures stepped(g, d, l0, h, e, l, p)
{
    assert forall|x: int| g.allocated[x] implies data_same(g, h, x) && h.parent[x] == g.parent[x] && (x != p ==> h.kids[x] == g.kids[x]) by {
        assert(h1.allocated[x]); assert(data_same(g, h1, x)); assert(data_same(h1, h, x));
    }
    assert forall|i: int| l0.len() <= i < l.len() implies !g.allocated[(#[trigger] l[i]).node] by {
        if i < l1.len() { assert(l[i] == l1[i]); } else { if g.allocated[l[i].node] { assert(h1.allocated[l[i].node]); } }
    }
    assert forall|i: int| 0 <= i < l0.len() implies #[trigger] l[i] == l0[i] by { assert(l[i] == l1[i]); }
}
// the new node c was created in b, read in a0 and put below p in a
pub open spec fn put_new(g: Heap, d: SDocument, l0: Seq<PLink>, b: Heap, e: SDocument, a0: Heap, l: Seq<PLink>, p: int, c: int, ty: int, tag: QName, text: Seq<char>, idv: Seq<char>, ds: Seq<Decl>) -> bool {
    &&& page(g, d) && pend_fine(g, l0) && g.allocated[p] && (g.node_type[p] == NT_Element || g.node_type[p] == NT_Root)
    &&& created(g, d, b, e, c, ty, tag, text) && ty != NT_Root && (ty == NT_Element ==> tag is Id)
    &&& reading(b, l0, a0, l, c, idv, ds) && lk(a0) && plain(a0.attributes[c]) && (ty == NT_Element || ds.len() == 0)
}
proof fn lemma_read_page(g: Heap, d: SDocument, l0: Seq<PLink>, b: Heap, e: SDocument, a0: Heap, l: Seq<PLink>, p: int, c: int, ty: int, tag: QName, text: Seq<char>, idv: Seq<char>, ds: Seq<Decl>)
    requires put_new(g, d, l0, b, e, a0, l, p, c, ty, tag, text, idv, ds)
    ensures page(a0, e), wf(a0), p != c, a0.kids[c].len() == 0, may_adopt(a0, p, c), pend_fine(a0, l), more(g, l0, l), all_names_known(a0.attributes[c]),
        forall|aid: int| #[trigger] decided(Props { attrs: a0.attributes[c], pend: l }, c, aid, winner(tag->Id_0, ds, aid)),
{
    lemma_created(g, d, b, e, c, ty, tag, text);
    lemma_shape_wf(b, a0);
    lemma_deep_adopt(b, a0, p, c);
    let s = Props { attrs: b.attributes[c], pend: l0 };
    let eid = tag->Id_0;
    assert forall|i: int| 0 <= i < l0.len() implies (#[trigger] l0[i]).node != c by {}
    lemma_cascade_keeps(s, c, eid, ds);
    lemma_cascade_wins(s, c, eid, ds, AID_Space);
    lemma_winner_space(eid, ds);
    assert(a0.attributes[c] == cascade(s, c, eid, ds).attrs);
    assert forall|aid: int| #[trigger] decided(Props { attrs: a0.attributes[c], pend: l }, c, aid, winner(eid, ds, aid)) by { lemma_cascade_wins(s, c, eid, ds, aid); }
    assert forall|x: int| #[trigger] page_node(a0, e, x) by { assert(page_node(g, d, x)); if x != c && g.allocated[x] { assert(own_node(g, d, x)); assert(own_node(b, e, x)); } }
    assert forall|k: int| #[trigger] own_key(a0, e, k) by { assert(own_key(b, e, k)); }
    assert forall|x: int| #[trigger] inner_node(a0, x) by {
        assert(inner_node(g, x));
        if x != c && a0.parent[x] is Some { assert(b.parent[x] == g.parent[x]); assert(g.parent[x] != Some(c)); let q = g.parent[x]->0; assert(b.node_type[q] == g.node_type[q]); assert(b.node_type[x] == g.node_type[x]); }
    }
    assert forall|x: int| #[trigger] space_ok(a0, x) by { if x != c { assert(space_ok(g, x)); assert(b.attributes[x] == g.attributes[x]); } }
    assert forall|x: int, nm: QName| has_name(a0.attributes[x], nm) implies target((#[trigger] lookup(a0.attributes[x], nm))->0) is None by {
        if x != c { assert(b.attributes[x] == g.attributes[x]); assert(lookup(g.attributes[x], nm) == lookup(a0.attributes[x], nm)); } else { lemma_at_name(a0.attributes[x], nm); }
    }
    assert forall|i: int, j: int| 0 <= i < j < l.len() && (#[trigger] l[i]).node == (#[trigger] l[j]).node implies l[i].attr_id != l[j].attr_id by {
        if i < l0.len() { assert(l[i] == l0[i]); if j < l0.len() { assert(l[j] == l0[j]); } }
    }
    assert forall|i: int| 0 <= i < l.len() implies a0.allocated[(#[trigger] l[i]).node] && a0.node_type[l[i].node] == NT_Element && l[i].iri.len() > 0 && l[i].attr_id != AID_Space by {
        if i < l0.len() { assert(l[i] == l0[i]); let m = l0[i].node; assert(b.allocated[m] == g.allocated[m]); assert(b.node_type[m] == g.node_type[m]); }
        else { if ty != NT_Element { assert(cascade(s, c, eid, ds) == s); } }
    }
}
proof fn lemma_put_new(g: Heap, d: SDocument, l0: Seq<PLink>, b: Heap, e: SDocument, a0: Heap, l: Seq<PLink>, a: Heap, p: int, c: int, ty: int, tag: QName, text: Seq<char>, idv: Seq<char>, ds: Seq<Decl>)
    requires put_new(g, d, l0, b, e, a0, l, p, c, ty, tag, text, idv, ds), is_move(a0, a, p, post_detach(a0, c).kids[p].len() as int, c), wf(a)
    ensures stepped(g, d, l0, a, e, l, p), a.kids[p] == g.kids[p].push(c), a.kids[c].len() == 0, !g.allocated[c], a.allocated[c], data_same(a0, a, c), p != c, a.parent[c] == Some(p),
        a0.node_type[c] == ty, a0.tag_name[c] == tag, a0.id[c] == idv, a0.text[c] == text, uniq(a.attributes[c])
{
    lemma_read_page(g, d, l0, b, e, a0, l, p, c, ty, tag, text, idv, ds);
    lemma_append_new(a0, a, p, c);
    lemma_lk_same(a0, a);
    assert(lk_node(a, c));
    lemma_own_same(a0, e, a, e);
    assert forall|x: int| #[trigger] page_node(a, e, x) by { assert(page_node(a0, e, x)); }
    assert forall|x: int| #[trigger] inner_node(a, x) by { assert(inner_node(a0, x)); }
    assert forall|x: int| #[trigger] space_ok(a, x) by { assert(space_ok(a0, x)); }
    assert forall|x: int| g.allocated[x] implies data_same(g, a, x) && a.parent[x] == g.parent[x] && (x != p ==> a.kids[x] == g.kids[x]) by {
        assert(x != c);
        assert(data_same(g, b, x));
    }
    assert(b.kids[p] == g.kids[p]);
}
proof fn lemma_decided_frame(h: Heap, l: Seq<PLink>, l2: Seq<PLink>, attrs: Seq<Attribute>, n: int, aid: int, w: Option<Parsed>)
    requires decided(Props { attrs: attrs, pend: l }, n, aid, w), h.allocated[n], more(h, l, l2), pend_uniq(l)
    ensures decided(Props { attrs: attrs, pend: l2 }, n, aid, w)
{
    if has_pend(l, n, aid) {
        let i = pend_at(l, n, aid);
        assert(l2[i] == l[i]);
        assert(pends(l2[i], n, aid));
    }
    if has_pend(l2, n, aid) {
        let j = pend_at(l2, n, aid);
        assert(j < l.len());
        assert(l2[j] == l[j]);
        assert(pends(l[j], n, aid));
        let i = pend_at(l, n, aid);
        assert(l[i].node == l[j].node);
        assert(i == j);
    }
}
proof fn lemma_elem_frame(h: Heap, l: Seq<PLink>, h2: Heap, l2: Seq<PLink>, n: int, x: X_roxmltree_Node, sh: X_StyleSheet)
    requires elem_img(h, l, n, x, sh), h.allocated[n], data_same(h, h2, n), more(h, l, l2), pend_uniq(l)
    ensures elem_img(h2, l2, n, x, sh)
{
    assert forall|aid: int| #[trigger] elem_prop(h2, l2, n, x, sh, aid) by {
        assert(elem_prop(h, l, n, x, sh, aid));
        lemma_decided_frame(h, l, l2, h.attributes[n], n, aid, winner(elem_of(x)->0, elem_decls(x, sh), aid));
    }
}
// images stay, and are newer than any earlier heap
proof fn lemma_img_frame(b: Heap, b2: Heap, h: Heap, l: Seq<PLink>, h2: Heap, l2: Seq<PLink>, p: int, n: int, x: X_roxmltree_Node, sh: X_StyleSheet, k: nat)
    requires img(b, h, l, n, x, sh, k), grew(h, h2, p), b.allocated[p], more(h, l, l2), pend_uniq(l), forall|y: int| b2.allocated[y] ==> #[trigger] b.allocated[y]
    ensures img(b2, h2, l2, n, x, sh, k)
    decreases k
{
    assert(!b2.allocated[n]);
    assert(data_same(h, h2, n) && h2.kids[n] == h.kids[n]) by { assert(h2.kids[n] == h2.kids[n]); }
    if xn_type(x) == XT_Element {
        let xs = kept_xs(xn_kids(x), elem_of(x));
        lemma_elem_frame(h, l, h2, l2, n, x, sh);
        assert forall|i: int| 0 <= i < xs.len() implies img(b2, h2, l2, #[trigger] h2.kids[n][i], xs[i], sh, (k - 1) as nat) by {
            lemma_img_frame(b, b2, h, l, h2, l2, p, h.kids[n][i], xs[i], sh, (k - 1) as nat);
        }
    }
}
proof fn lemma_kids_frame(b: Heap, b2: Heap, h: Heap, l: Seq<PLink>, h2: Heap, l2: Seq<PLink>, p: int, ns: Seq<int>, xs: Seq<X_roxmltree_Node>, sh: X_StyleSheet, k: nat)
    requires kids_img(b, h, l, ns, xs, sh, k), grew(h, h2, p), b.allocated[p], more(h, l, l2), pend_uniq(l), forall|y: int| b2.allocated[y] ==> #[trigger] b.allocated[y]
    ensures kids_img(b2, h2, l2, ns, xs, sh, k)
{
    assert forall|i: int| 0 <= i < xs.len() implies img(b2, h2, l2, #[trigger] ns[i], xs[i], sh, k) by { lemma_img_frame(b, b2, h, l, h2, l2, p, ns[i], xs[i], sh, k); }
}
// one more child of p was processed; the children so far are newer than b
proof fn lemma_kids_next(b: Heap, g: Heap, d: SDocument, lg: Seq<PLink>, h: Heap, e: SDocument, l: Seq<PLink>, p: int, t: Option<int>, xs: Seq<X_roxmltree_Node>, i: int, sh: X_StyleSheet, k: nat)
    requires
        b.allocated[p], grew(b, g, p), pend_fine(g, lg), 0 <= i < xs.len(), t == tag_of(g, p), stepped(g, d, lg, h, e, l, p), put_image(g, lg, h, l, p, xs[i], sh, k),
        kids_img(b, g, lg, g.kids[p], kept_xs(xs.take(i), t), sh, k),
    ensures kids_img(b, h, l, h.kids[p], kept_xs(xs.take(i + 1), t), sh, k)
{
    let x = xs[i];
    let ks = kept_xs(xs.take(i), t);
    assert(xs.take(i + 1).drop_last() =~= xs.take(i));
    assert(xs.take(i + 1).last() == x);
    if keeps_x(x, t) {
        let n = h.kids[p].last();
        lemma_kids_frame(b, b, g, lg, h, l, p, g.kids[p], ks, sh, k);
        assert forall|y: int| b.allocated[y] implies #[trigger] g.allocated[y] by { }
        lemma_stepped_same(h, e, l, p);
        lemma_img_frame(g, b, h, l, h, l, p, n, x, sh, k);
        assert forall|j: int| 0 <= j < ks.push(x).len() implies img(b, h, l, #[trigger] h.kids[p][j], ks.push(x)[j], sh, k) by {
            if j < ks.len() { assert(h.kids[p][j] == g.kids[p][j]); }
        }
    }
}
proof fn lemma_stepped_same(h: Heap, e: SDocument, l: Seq<PLink>, p: int)
    ensures grew(h, h, p), more(h, l, l)
{}
proof fn lemma_element_done(g: Heap, d: SDocument, l0: Seq<PLink>, a: Heap, da: SDocument, la: Seq<PLink>, h: Heap, e: SDocument, l: Seq<PLink>, p: int, c: int, x: X_roxmltree_Node, sh: X_StyleSheet, k: nat)
    requires
        stepped(g, d, l0, a, da, la, p), a.kids[p] == g.kids[p].push(c), elem_img(a, la, c, x, sh), !g.allocated[c], a.allocated[c], g.allocated[p], xn_type(x) == XT_Element, k > 0,
        stepped(a, da, la, h, e, l, c), kids_img(a, h, l, h.kids[c], kept_xs(xn_kids(x), elem_of(x)), sh, (k - 1) as nat),
    ensures stepped(g, d, l0, h, e, l, p), put_image(g, l0, h, l, p, x, sh, k)
{
    assert(p != c);
    assert(a.allocated[p]) by { assert(data_same(g, a, p)); }
    assert(h.kids[p] == a.kids[p]);
    assert forall|y: int| g.allocated[y] implies data_same(g, h, y) && h.parent[y] == g.parent[y] && (y != p ==> h.kids[y] == g.kids[y]) by {
        assert(data_same(g, a, y)); assert(data_same(a, h, y));
    }
    assert forall|i: int| l0.len() <= i < l.len() implies !g.allocated[(#[trigger] l[i]).node] by {
        if i < la.len() { assert(l[i] == la[i]); } else { if g.allocated[l[i].node] { assert(a.allocated[l[i].node]); } }
    }
    assert forall|i: int| 0 <= i < l0.len() implies #[trigger] l[i] == l0[i] by { assert(l[i] == la[i]); }
    assert(data_same(a, h, c));
    lemma_elem_frame(a, la, h, l, c, x, sh);
    lemma_stepped_same(h, e, l, c);
    assert forall|y: int| g.allocated[y] implies #[trigger] a.allocated[y] by { assert(data_same(g, a, y)); }
    lemma_kids_frame(a, g, h, l, h, l, c, h.kids[c], kept_xs(xn_kids(x), elem_of(x)), sh, (k - 1) as nat);
    assert(h.kids[p].last() == c);
}
// the element is in place, its children are still to come
pub open spec fn elem_put(g: Heap, d: SDocument, l0: Seq<PLink>, a: Heap, e: SDocument, l: Seq<PLink>, p: int, c: int, x: X_roxmltree_Node, sh: X_StyleSheet) -> bool {
    stepped(g, d, l0, a, e, l, p) && a.kids[p] == g.kids[p].push(c) && elem_img(a, l, c, x, sh) && !g.allocated[c] && a.allocated[c] && g.allocated[p] && a.kids[c].len() == 0 && a.parent[c] == Some(p)
}
proof fn lemma_elem_put(g: Heap, d: SDocument, l0: Seq<PLink>, b: Heap, e: SDocument, a0: Heap, l: Seq<PLink>, a: Heap, p: int, c: int, x: X_roxmltree_Node, sh: X_StyleSheet)
    requires
        put_new(g, d, l0, b, e, a0, l, p, c, NT_Element, QName::Id(elem_of(x)->0), Seq::empty(), attrs_id(xn_attrs(x)), elem_decls(x, sh)),
        is_move(a0, a, p, post_detach(a0, c).kids[p].len() as int, c), wf(a), elem_of(x) is Some,
    ensures elem_put(g, d, l0, a, e, l, p, c, x, sh)
{
    let tag = QName::Id(elem_of(x)->0);
    lemma_put_new(g, d, l0, b, e, a0, l, a, p, c, NT_Element, tag, Seq::empty(), attrs_id(xn_attrs(x)), elem_decls(x, sh));
    lemma_read_page(g, d, l0, b, e, a0, l, p, c, NT_Element, tag, Seq::empty(), attrs_id(xn_attrs(x)), elem_decls(x, sh));
    assert forall|aid: int| #[trigger] elem_prop(a, l, c, x, sh, aid) by {
        assert(decided(Props { attrs: a0.attributes[c], pend: l }, c, aid, winner(tag->Id_0, elem_decls(x, sh), aid)));
    }
}
proof fn lemma_elem_childless(g: Heap, d: SDocument, l0: Seq<PLink>, a: Heap, e: SDocument, l: Seq<PLink>, p: int, c: int, x: X_roxmltree_Node, sh: X_StyleSheet, k: nat)
    requires elem_put(g, d, l0, a, e, l, p, c, x, sh), xn_type(x) == XT_Element, k > 0
    ensures xn_kids(x).len() == 0 ==> put_image(g, l0, a, l, p, x, sh, k), stepped(a, e, l, a, e, l, c)
{
    lemma_stepped_refl(a, e, l, c);
    if xn_kids(x).len() == 0 { lemma_element_done(g, d, l0, a, e, l, a, e, l, p, c, x, sh, k); }
}
proof fn lemma_leaf_put(g: Heap, d: SDocument, l0: Seq<PLink>, b: Heap, e: SDocument, a: Heap, p: int, c: int, x: X_roxmltree_Node, sh: X_StyleSheet, k: nat)
    requires
        page(g, d), pend_fine(g, l0), g.allocated[p], g.node_type[p] == NT_Element || g.node_type[p] == NT_Root,
        xn_type(x) == XT_Text || xn_type(x) == XT_Comment, keeps_x(x, tag_of(g, p)), k > 0, xn_text(x) is Some,
        created(g, d, b, e, c, if xn_type(x) == XT_Text { NT_Text } else { NT_Comment }, QName::Name(Seq::empty()), xn_text(x)->0),
        is_move(b, a, p, post_detach(b, c).kids[p].len() as int, c), wf(a), lk(b),
    ensures stepped(g, d, l0, a, e, l0, p), put_image(g, l0, a, l0, p, x, sh, k)
{
    let ty = if xn_type(x) == XT_Text { NT_Text } else { NT_Comment };
    lemma_read_start(b, l0, c);
    lemma_put_new(g, d, l0, b, e, b, l0, a, p, c, ty, QName::Name(Seq::empty()), xn_text(x)->0, b.id[c], Seq::empty());
    assert(a.kids[p].last() == c);
}
// the steps of the loops over attributes, rules and declarations
proof fn lemma_attrs_next(s: Seq<X_roxmltree_Attribute>, i: int)
    requires 0 <= i < s.len()
    ensures
        attrs_decls(s.take(i + 1)) == attrs_decls(s.take(i)) + attr_decls(s[i]),
        attrs_id(s.take(i + 1)) == if attr_aid(s[i]) == Some(AID_Id) { xa_value(s[i]) } else { attrs_id(s.take(i)) },
        attr_decls(s[i]).len() == 0 ==> attrs_decls(s.take(i + 1)) == attrs_decls(s.take(i)),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(attr_decls(s[i]).len() == 0 ==> attrs_decls(s.take(i)) + attr_decls(s[i]) =~= attrs_decls(s.take(i)));
}
proof fn lemma_rules_next(s: Seq<X_Rule>, i: int, x: X_roxmltree_Node)
    requires 0 <= i < s.len()
    ensures
        sel_matches(s[i].selector, x) ==> rules_decls(s.take(i + 1), x) == rules_decls(s.take(i), x) + rule_decls(s[i].declarations),
        !sel_matches(s[i].selector, x) ==> rules_decls(s.take(i + 1), x) == rules_decls(s.take(i), x),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(rules_decls(s.take(i), x) + Seq::<Decl>::empty() =~= rules_decls(s.take(i), x));
}
proof fn lemma_rule_next(s: Seq<X_Declaration>, i: int)
    requires 0 <= i < s.len()
    ensures rule_decls(s.take(i + 1)) == rule_decls(s.take(i)) + css_decls(s[i].name, s[i].value)
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
// the first child that is an SVG element is not svg
pub open spec fn wrong_first(h: Heap, r: int) -> bool {
    exists|i: int| 0 <= i < h.kids[r].len() && tag_of(h, #[trigger] h.kids[r][i]) is Some && tag_of(h, h.kids[r][i]) != Some(EID_Svg) && forall|j: int| 0 <= j < i ==> tag_of(h, #[trigger] h.kids[r][j]) is None
}
proof fn lemma_no_pend(h: Heap, l: Seq<PLink>)
    requires pend_fine(h, l)
    ensures forall|n: int| !h.allocated[n] ==> #[trigger] pend_ok(l, n)
{
    assert forall|n: int| !h.allocated[n] implies #[trigger] pend_ok(l, n) by {}
}
pub open spec fn svg_item(h: Heap) -> spec_fn(int) -> Option<(int, int)> { |x: int| match h.tag_name[x] { QName::Id(id) => Some((id, x)), _ => None } }
pub open spec fn svg_items(h: Heap, r: int) -> Seq<(int, int)> { seq_filter_map(h.kids[r], svg_item(h)) }
proof fn lemma_svg_first(h: Heap, r: int)
    ensures
        forall|f: spec_fn(int) -> Option<(int, int)>| (forall|x: int| #[trigger] f(x) == svg_item(h)(x)) ==> #[trigger] seq_filter_map(h.kids[r], f) == svg_items(h, r),
        wrong_first(h, r) <==> svg_items(h, r).len() > 0 && svg_items(h, r)[0].0 != EID_Svg,
{
    let s = h.kids[r];
    let f = svg_item(h);
    let t = svg_items(h, r);
    lemma_filter_map(s, f);
    assert forall|g: spec_fn(int) -> Option<(int, int)>| (forall|x: int| #[trigger] g(x) == f(x)) implies #[trigger] seq_filter_map(s, g) == t by { assert(g =~= f); }
    assert forall|i: int| 0 <= i < s.len() implies (f(#[trigger] s[i]) is Some <==> tag_of(h, s[i]) is Some) by {}
    if t.len() > 0 {
        let i = choose|i: int| #[trigger] fm_first(s, f, i) && f(s[i]) == Some(t[0]);
        if t[0].0 != EID_Svg {
            assert(0 <= i < h.kids[r].len() && tag_of(h, h.kids[r][i]) is Some && tag_of(h, h.kids[r][i]) != Some(EID_Svg));
            assert forall|j: int| 0 <= j < i implies tag_of(h, #[trigger] h.kids[r][j]) is None by { assert(f(s[j]) is None); }
            assert(wrong_first(h, r));
        }
        if wrong_first(h, r) {
            let i2 = choose|i2: int| 0 <= i2 < h.kids[r].len() && tag_of(h, #[trigger] h.kids[r][i2]) is Some && tag_of(h, h.kids[r][i2]) != Some(EID_Svg) && forall|j: int| 0 <= j < i2 ==> tag_of(h, #[trigger] h.kids[r][j]) is None;
            assert(f(s[i2]) is Some);
            assert(f(s[i]) is Some);
            if i < i2 { assert(tag_of(h, h.kids[r][i]) is None); }
            if i2 < i { assert(f(s[i2]) is None); }
            assert(i == i2);
        }
    } else {
        if wrong_first(h, r) {
            let i2 = choose|i2: int| 0 <= i2 < h.kids[r].len() && tag_of(h, #[trigger] h.kids[r][i2]) is Some && tag_of(h, h.kids[r][i2]) != Some(EID_Svg) && forall|j: int| 0 <= j < i2 ==> tag_of(h, #[trigger] h.kids[r][j]) is None;
            assert(f(s[i2]) is None);
        }
    }
}

proof fn lemma_svg_in(h: Heap, r: int)
    ensures
        forall|j: int| 0 <= j < svg_items(h, r).len() ==> exists|i: int| 0 <= i < h.kids[r].len() && #[trigger] h.kids[r][i] == (#[trigger] svg_items(h, r)[j]).1 && tag_of(h, h.kids[r][i]) == Some(svg_items(h, r)[j].0),
        forall|i: int| 0 <= i < h.kids[r].len() && tag_of(h, #[trigger] h.kids[r][i]) is Some ==> svg_items(h, r).contains((tag_of(h, h.kids[r][i])->0, h.kids[r][i])),
{
    let s = h.kids[r];
    let f = svg_item(h);
    lemma_filter_map(s, f);
    assert forall|j: int| 0 <= j < svg_items(h, r).len() implies exists|i: int| 0 <= i < h.kids[r].len() && #[trigger] h.kids[r][i] == (#[trigger] svg_items(h, r)[j]).1 && tag_of(h, h.kids[r][i]) == Some(svg_items(h, r)[j].0) by {
        let i = choose|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) == Some(svg_items(h, r)[j]);
        assert(h.kids[r][i] == svg_items(h, r)[j].1);
    }
    assert forall|i: int| 0 <= i < h.kids[r].len() && tag_of(h, #[trigger] h.kids[r][i]) is Some implies svg_items(h, r).contains((tag_of(h, h.kids[r][i])->0, h.kids[r][i])) by {
        assert(f(s[i]) == Some((tag_of(h, s[i])->0, s[i])));
    }
}

// where an item comes from, and that items before it come from before it
pub open spec fn fm_at<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>, j: int, i: int) -> bool {
    &&& 0 <= i < s.len()
    &&& f(s[i]) == Some(seq_filter_map(s, f)[j])
    &&& forall|i2: int| 0 <= i2 < i && f(#[trigger] s[i2]) is Some ==> exists|j2: int| 0 <= j2 < j && #[trigger] seq_filter_map(s, f)[j2] == f(s[i2])->0
}
proof fn lemma_fm_at<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>, j: int)
    requires 0 <= j < seq_filter_map(s, f).len()
    ensures exists|i: int| #[trigger] fm_at(s, f, j, i)
    decreases s.len()
{
    let d = s.drop_last();
    let q = seq_filter_map(d, f);
    let t = seq_filter_map(s, f);
    if j < q.len() {
        lemma_fm_at(d, f, j);
        let i = choose|i: int| #[trigger] fm_at(d, f, j, i);
        assert forall|i2: int| 0 <= i2 < i && f(#[trigger] s[i2]) is Some implies exists|j2: int| 0 <= j2 < j && #[trigger] t[j2] == f(s[i2])->0 by {
            assert(d[i2] == s[i2]);
            let j2 = choose|j2: int| 0 <= j2 < j && #[trigger] q[j2] == f(d[i2])->0;
            assert(t[j2] == q[j2]);
        }
        assert(t[j] == q[j]);
        assert(fm_at(s, f, j, i));
    } else {
        lemma_filter_map_at(d, f);
        let i = s.len() - 1;
        assert forall|i2: int| 0 <= i2 < i && f(#[trigger] s[i2]) is Some implies exists|j2: int| 0 <= j2 < j && #[trigger] t[j2] == f(s[i2])->0 by {
            assert(d[i2] == s[i2]);
            let j2 = choose|j2: int| 0 <= j2 < q.len() && q[j2] == f(d[i2])->0;
            assert(t[j2] == q[j2]);
        }
        assert(fm_at(s, f, j, i));
    }
}
pub open spec fn first_svg(h: Heap, r: int, n: int) -> bool {
    exists|i: int| 0 <= i < h.kids[r].len() && #[trigger] h.kids[r][i] == n && tag_of(h, n) == Some(EID_Svg) && forall|j: int| 0 <= j < i ==> tag_of(h, #[trigger] h.kids[r][j]) != Some(EID_Svg)
}
pub open spec fn svg_item_first(h: Heap, r: int, j: int) -> bool {
    0 <= j < svg_items(h, r).len() && svg_items(h, r)[j].0 == EID_Svg && forall|j2: int| 0 <= j2 < j ==> (#[trigger] svg_items(h, r)[j2]).0 != EID_Svg
}
proof fn lemma_svg_order(h: Heap, r: int)
    ensures
        forall|j: int| #![trigger svg_items(h, r)[j]] svg_item_first(h, r, j) ==> first_svg(h, r, svg_items(h, r)[j].1),
{
    let s = h.kids[r];
    let f = svg_item(h);
    let t = svg_items(h, r);
    assert forall|j: int| #![trigger svg_items(h, r)[j]] svg_item_first(h, r, j) implies first_svg(h, r, svg_items(h, r)[j].1) by {
        lemma_fm_at(s, f, j);
        let i = choose|i: int| #[trigger] fm_at(s, f, j, i);
        assert forall|i2: int| 0 <= i2 < i implies tag_of(h, #[trigger] h.kids[r][i2]) != Some(EID_Svg) by {
            if tag_of(h, s[i2]) == Some(EID_Svg) {
                assert(f(s[i2]) == Some((EID_Svg, s[i2])));
                let j2 = choose|j2: int| 0 <= j2 < j && #[trigger] seq_filter_map(s, f)[j2] == f(s[i2])->0;
                assert(t[j2].0 == EID_Svg);
            }
        }
        assert(f(s[i]) == Some(t[j]));
        assert(h.kids[r][i] == t[j].1);
    }
}

// ---------------------------------------------------------------- the style sheet of a document: its style elements in document order
pub open spec fn is_style_x(x: X_roxmltree_Node) -> bool { xn_type(x) == XT_Element && xt_name(xn_tag(x)) == style_name() }
pub open spec fn styles(xs: Seq<X_roxmltree_Node>) -> Seq<X_roxmltree_Node> { xs.filter(|x: X_roxmltree_Node| is_style_x(x)) }
pub open spec fn is_css(x: X_roxmltree_Node) -> bool { xn_attribute(x, type_name()) is None || xn_attribute(x, type_name()) == Some(css_type()) }
pub open spec fn sheet_from(xs: Seq<X_roxmltree_Node>) -> X_StyleSheet
    decreases xs.len()
{
    if xs.len() == 0 { X_StyleSheet { rules: Seq::empty() } }
    else if is_css(xs.last()) && xn_text(xs.last()) is Some { css_more(sheet_from(xs.drop_last()), xn_text(xs.last())->0) }
    else { sheet_from(xs.drop_last()) }
}
pub open spec fn sheet_of(xs: Seq<X_roxmltree_Node>) -> X_StyleSheet { sheet_from(styles(xs)) }
proof fn lemma_sheet_next(s: Seq<X_roxmltree_Node>, i: int)
    requires 0 <= i < s.len()
    ensures sheet_from(s.take(i + 1)) == if is_css(s[i]) && xn_text(s[i]) is Some { css_more(sheet_from(s.take(i)), xn_text(s[i])->0) } else { sheet_from(s.take(i)) }
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
proof fn lemma_styles(xs: Seq<X_roxmltree_Node>)
    ensures forall|f: spec_fn(X_roxmltree_Node) -> bool| (forall|x: X_roxmltree_Node| #[trigger] f(x) == is_style_x(x)) ==> #[trigger] xs.filter(f) == styles(xs)
{
    let g = |x: X_roxmltree_Node| is_style_x(x);
    assert forall|f: spec_fn(X_roxmltree_Node) -> bool| (forall|x: X_roxmltree_Node| #[trigger] f(x) == is_style_x(x)) implies #[trigger] xs.filter(f) == styles(xs) by { assert(f =~= g); }
}

// ---------------------------------------------------------------- what selectors see
pub enum PseudoClass { FirstChild, Link, Visited, Hover, Active, Focus, Lang(Seq<char>) }
pub open spec fn first_elem(xs: Seq<X_roxmltree_Node>) -> Option<X_roxmltree_Node> {
    match seq_pos(xs, elem_x()) { Some(i) => Some(xs[i]), None => None }
}
pub open spec fn elem_x() -> spec_fn(X_roxmltree_Node) -> bool { |x: X_roxmltree_Node| xn_type(x) == XT_Element }
proof fn lemma_filter_first(xs: Seq<X_roxmltree_Node>)
    ensures xs.filter(elem_x()).len() > 0 ==> first_elem(xs) == Some(xs.filter(elem_x())[0]), xs.filter(elem_x()).len() == 0 ==> first_elem(xs) is None
    decreases xs.len()
{
    reveal(Seq::filter);
    let f = elem_x();
    lemma_seq_pos(xs, f);
    if xs.len() > 0 {
        let d = xs.drop_last();
        lemma_filter_first(d);
        lemma_seq_pos(d, f);
        assert forall|i: int| 0 <= i < d.len() implies d[i] == xs[i] by {}
        assert(xs[xs.len() - 1] == xs.last());
        if first_elem(d) is Some {
            let i = seq_pos(d, f)->0;
            assert(f(d[i]));
            assert(f(xs[i]));
            let j = seq_pos(xs, f)->0;
            assert(is_first(xs, f, j));
            if j < i { assert(f(xs[j])); assert(d[j] == xs[j]); assert(f(d[j])); }
        }
        if f(xs.last()) { assert(f(xs[xs.len() - 1])); }
    }
}
proof fn lemma_first_elem(xs: Seq<X_roxmltree_Node>)
    ensures
        forall|f: spec_fn(X_roxmltree_Node) -> bool| (forall|x: X_roxmltree_Node| #[trigger] f(x) == (xn_type(x) == XT_Element)) ==>
            (#[trigger] xs.filter(f)).len() > 0 && first_elem(xs) == Some(xs.filter(f)[0]) || xs.filter(f).len() == 0 && first_elem(xs) is None,
        forall|f: spec_fn(X_roxmltree_Node) -> bool| (forall|x: X_roxmltree_Node| #[trigger] f(x) == (xn_type(x) == XT_Element)) ==> #[trigger] seq_pos(xs, f) == seq_pos(xs, elem_x()),
{
    lemma_filter_first(xs);
    assert forall|f: spec_fn(X_roxmltree_Node) -> bool| (forall|x: X_roxmltree_Node| #[trigger] f(x) == (xn_type(x) == XT_Element)) implies
        (#[trigger] xs.filter(f)).len() > 0 && first_elem(xs) == Some(xs.filter(f)[0]) || xs.filter(f).len() == 0 && first_elem(xs) is None by { assert(f =~= elem_x()); }
    assert forall|f: spec_fn(X_roxmltree_Node) -> bool| (forall|x: X_roxmltree_Node| #[trigger] f(x) == (xn_type(x) == XT_Element)) implies #[trigger] seq_pos(xs, f) == seq_pos(xs, elem_x()) by { assert(f =~= elem_x()); }
}

// ---------------------------------------------------------------- the whole document
// an XML tree is finite
#[verifier::external_body]
proof fn axiom_xml_finite(d: X_roxmltree_Document)
    ensures exists|k: nat| xdeep(xd_root(d), k)
{ unimplemented!() }
// nothing was created yet: the parser gets a string and there are no globals, so it can reach only what it creates
pub open spec fn vacant(h: Heap) -> bool { page(h, SDocument { root: 0, storage: IMap::empty() }) && forall|x: int| !(#[trigger] h.allocated[x]) }
proof fn lemma_start(h0: Heap, h: Heap, d: SDocument)
    requires vacant(h0), created(h0, SDocument { root: d.root, storage: IMap::empty() }, h, d, d.root, NT_Root, QName::Name(Seq::empty()), Seq::empty()), wf(h), lk(h), own(h, d)
    ensures page(h, d), h.allocated[d.root], h.node_type[d.root] == NT_Root, h.kids[d.root].len() == 0, pend_fine(h, Seq::empty()), stepped(h, d, Seq::empty(), h, d, Seq::empty(), d.root), tag_of(h, d.root) is None, !wrong_first(h, d.root)
{
    let r = d.root;
    let e = SDocument { root: r, storage: IMap::empty() };
    assert forall|x: int| #[trigger] inner_node(h, x) by { assert(inner_node(h0, x)); if x != r && h.parent[x] is Some { assert(page_node(h0, SDocument { root: 0, storage: IMap::empty() }, x)); } }
    assert forall|x: int| #[trigger] space_ok(h, x) by { assert(space_ok(h0, x)); }
    assert forall|x: int, nm: QName| has_name(h.attributes[x], nm) implies target((#[trigger] lookup(h.attributes[x], nm))->0) is None by {
        if x != r { assert(h.attributes[x] == h0.attributes[x]); assert(lookup(h0.attributes[x], nm) == lookup(h.attributes[x], nm)); }
    }
    assert forall|x: int| #[trigger] page_node(h, d, x) by { if x != r { assert(page_node(h0, SDocument { root: 0, storage: IMap::empty() }, x)); assert(!h0.allocated[x]); } else { lemma_created(h0, e, h, d, r, NT_Root, QName::Name(Seq::empty()), Seq::empty()); } }
    lemma_stepped_refl(h, d, Seq::empty(), r);
}
// the first element of the SVG namespace
pub open spec fn first_x(xs: Seq<X_roxmltree_Node>) -> Option<int>
    decreases xs.len()
{
    if xs.len() == 0 { None } else if first_x(xs.drop_last()) is Some { first_x(xs.drop_last()) } else { elem_of(xs.last()) }
}
pub open spec fn first_tag(h: Heap, ns: Seq<int>) -> Option<int>
    decreases ns.len()
{
    if ns.len() == 0 { None } else if first_tag(h, ns.drop_last()) is Some { first_tag(h, ns.drop_last()) } else { tag_of(h, ns.last()) }
}
proof fn lemma_first_tag(h: Heap, ns: Seq<int>)
    ensures
        first_tag(h, ns) is None <==> forall|i: int| 0 <= i < ns.len() ==> tag_of(h, #[trigger] ns[i]) is None,
        first_tag(h, ns) is Some ==> exists|i: int| 0 <= i < ns.len() && tag_of(h, #[trigger] ns[i]) == first_tag(h, ns) && forall|j: int| 0 <= j < i ==> tag_of(h, #[trigger] ns[j]) is None,
    decreases ns.len()
{
    if ns.len() > 0 {
        let d = ns.drop_last();
        lemma_first_tag(h, d);
        assert forall|i: int| 0 <= i < d.len() implies d[i] == ns[i] by {}
        if first_tag(h, d) is Some {
            let i = choose|i: int| 0 <= i < d.len() && tag_of(h, #[trigger] d[i]) == first_tag(h, d) && forall|j: int| 0 <= j < i ==> tag_of(h, #[trigger] d[j]) is None;
            assert(tag_of(h, ns[i]) == first_tag(h, ns));
            assert forall|j: int| 0 <= j < i implies tag_of(h, #[trigger] ns[j]) is None by { assert(tag_of(h, d[j]) is None); }
        } else {
            assert forall|j: int| 0 <= j < d.len() implies tag_of(h, #[trigger] ns[j]) is None by { assert(tag_of(h, d[j]) is None); }
            let z = ns.len() - 1;
            assert(tag_of(h, ns[z]) == first_tag(h, ns));
        }
    }
}
proof fn lemma_wrong_first(h: Heap, r: int)
    ensures
        wrong_first(h, r) <==> first_tag(h, h.kids[r]) is Some && first_tag(h, h.kids[r]) != Some(EID_Svg),
        (exists|i: int| 0 <= i < h.kids[r].len() && tag_of(h, #[trigger] h.kids[r][i]) is Some) ==> first_tag(h, h.kids[r]) is Some,
        (forall|i: int| 0 <= i < h.kids[r].len() ==> tag_of(h, #[trigger] h.kids[r][i]) != Some(EID_Svg)) ==> first_tag(h, h.kids[r]) != Some(EID_Svg),
{
    let ns = h.kids[r];
    lemma_first_tag(h, ns);
    if first_tag(h, ns) is Some {
        let i = choose|i: int| 0 <= i < ns.len() && tag_of(h, #[trigger] ns[i]) == first_tag(h, ns) && forall|j: int| 0 <= j < i ==> tag_of(h, #[trigger] ns[j]) is None;
        if first_tag(h, ns) != Some(EID_Svg) { assert(tag_of(h, h.kids[r][i]) is Some); assert(wrong_first(h, r)); }
        if wrong_first(h, r) {
            let i2 = choose|i2: int| 0 <= i2 < h.kids[r].len() && tag_of(h, #[trigger] h.kids[r][i2]) is Some && tag_of(h, h.kids[r][i2]) != Some(EID_Svg) && forall|j: int| 0 <= j < i2 ==> tag_of(h, #[trigger] h.kids[r][j]) is None;
            if i < i2 { assert(tag_of(h, h.kids[r][i]) is None); }
            if i2 < i { assert(tag_of(h, ns[i2]) is None); }
        }
    }
}
// the first SVG element of the source is the first element of the document
proof fn lemma_first_x(b: Heap, h: Heap, l: Seq<PLink>, ns: Seq<int>, xs: Seq<X_roxmltree_Node>, sh: X_StyleSheet, k: nat)
    requires kids_img(b, h, l, ns, kept_xs(xs, None), sh, k)
    ensures first_tag(h, ns) == first_x(xs)
    decreases xs.len()
{
    if xs.len() > 0 {
        let d = xs.drop_last();
        let x = xs.last();
        if keeps_x(x, None) {
            let ks = kept_xs(xs, None);
            assert(ks.drop_last() =~= kept_xs(d, None));
            let md = ns.drop_last();
            assert forall|i: int| 0 <= i < kept_xs(d, None).len() implies img(b, h, l, #[trigger] md[i], kept_xs(d, None)[i], sh, k) by { assert(img(b, h, l, ns[i], ks[i], sh, k)); assert(ks[i] == kept_xs(d, None)[i]); }
            lemma_first_x(b, h, l, md, d, sh, k);
            let z = ns.len() - 1;
            assert(ks[z] == x);
            assert(img(b, h, l, ns[z], ks[z], sh, k));
            assert(tag_of(h, ns.last()) == elem_of(x));
        } else {
            lemma_first_x(b, h, l, ns, d, sh, k);
        }
    }
}
proof fn lemma_first_stays(xs: Seq<X_roxmltree_Node>, i: int)
    requires 0 <= i <= xs.len(), first_x(xs.take(i)) is Some
    ensures first_x(xs) == first_x(xs.take(i))
    decreases xs.len()
{
    if i < xs.len() {
        assert(xs.drop_last().take(i) =~= xs.take(i));
        lemma_first_stays(xs.drop_last(), i);
    } else { assert(xs.take(i) =~= xs); }
}
proof fn lemma_page_belongs(h: Heap, d: SDocument, r: int)
    requires page(h, d), h.allocated[r]
    ensures belongs(h, d, r)
{
    assert forall|x: int| #[trigger] above(h, r, x) implies own_node(h, d, x) by {
        assert(page_node(h, d, x));
        let k = choose|k: nat| on_chain(h.parent, x, r, k);
        if x != r { assert(h.parent[x] is Some); }
    }
}
proof fn lemma_vacant(h: Heap)
    ensures vacant(h) ==> wf(h) && lk(h)
{}
proof fn lemma_no_kids(h: Heap, r: int, xs: Seq<X_roxmltree_Node>, sh: X_StyleSheet, k: nat)
    requires h.kids[r].len() == 0
    ensures kids_img(h, h, Seq::empty(), h.kids[r], kept_xs(xs.take(0), None), sh, k)
{}
proof fn lemma_stepped_facts(n0: Heap, d0: SDocument, h: Heap, e: SDocument, l: Seq<PLink>)
    requires stepped(n0, d0, Seq::empty(), h, e, l, d0.root), n0.allocated[d0.root], n0.node_type[d0.root] == NT_Root, tag_of(n0, d0.root) is None
    ensures page(h, e), pend_fine(h, l), h.allocated[d0.root], h.node_type[d0.root] == NT_Root, tag_of(h, d0.root) is None, e.root == d0.root, wf(h), lk(h), own(h, e)
{
    assert(data_same(n0, h, d0.root));
}
// one more child of the root was processed
proof fn lemma_root_next(n0: Heap, d0: SDocument, g: Heap, d: SDocument, lg: Seq<PLink>, h: Heap, e: SDocument, l: Seq<PLink>, xs: Seq<X_roxmltree_Node>, i: int, sh: X_StyleSheet, k: nat)
    requires
        n0.allocated[d0.root], n0.node_type[d0.root] == NT_Root, tag_of(n0, d0.root) is None, 0 <= i < xs.len(),
        stepped(n0, d0, Seq::empty(), g, d, lg, d0.root), stepped(g, d, lg, h, e, l, d0.root), put_image(g, lg, h, l, d0.root, xs[i], sh, k),
        kids_img(n0, g, lg, g.kids[d0.root], kept_xs(xs.take(i), None), sh, k),
    ensures
        stepped(n0, d0, Seq::empty(), h, e, l, d0.root), kids_img(n0, h, l, h.kids[d0.root], kept_xs(xs.take(i + 1), None), sh, k), e.root == d0.root,
        wrong_first(h, d0.root) ==> first_x(xs) != Some(EID_Svg),
{
    lemma_stepped_facts(n0, d0, g, d, lg);
    lemma_stepped_trans(n0, d0, Seq::empty(), g, d, lg, h, e, l, d0.root);
    lemma_kids_next(n0, g, d, lg, h, e, l, d0.root, None, xs, i, sh, k);
    lemma_first_x(n0, h, l, h.kids[d0.root], xs.take(i + 1), sh, k);
    lemma_wrong_first(h, d0.root);
    if wrong_first(h, d0.root) { lemma_first_stays(xs, i + 1); }
}
proof fn lemma_root_done(n0: Heap, h: Heap, l: Seq<PLink>, r: int, xs: Seq<X_roxmltree_Node>, i: int, sh: X_StyleSheet, k: nat)
    requires kids_img(n0, h, l, h.kids[r], kept_xs(xs.take(i), None), sh, k), i == xs.len()
    ensures
        wrong_first(h, r) <==> first_x(xs) is Some && first_x(xs) != Some(EID_Svg),
        (exists|i: int| 0 <= i < h.kids[r].len() && tag_of(h, #[trigger] h.kids[r][i]) is Some) ==> first_x(xs) is Some,
        (forall|i: int| 0 <= i < h.kids[r].len() ==> tag_of(h, #[trigger] h.kids[r][i]) != Some(EID_Svg)) ==> first_x(xs) != Some(EID_Svg),
        kids_img(n0, h, l, h.kids[r], kept_xs(xs, None), sh, k),
{
    assert(xs.take(i) =~= xs);
    lemma_first_x(n0, h, l, h.kids[r], xs, sh, k);
    lemma_wrong_first(h, r);
}
// removing the style elements
proof fn lemma_page_drained(b: Heap, d: SDocument, h: Heap, e: SDocument, f: Pred, r: int, l: Seq<PLink>)
    requires page(b, d), b.allocated[r], pend_fine(b, l), drained(b, h, f, r), keep_own(b, d, h, e), own(h, e), wf(h), lk(h)
    ensures belongs(h, e, r), inner(h), spaces_ok(h), all_plain(h), pend_elements(h, l), pend_uniq(l), forall|x: int| #[trigger] h.attributes[x] == b.attributes[x], forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).attr_id != AID_Space
{
    let s = hit_set(b, f, r);
    assert forall|x: int| h.attributes[x] == #[trigger] b.attributes[x] by {
        assert(h.attributes[x] == flt(b.attributes[x], keeps(s, x)));
        assert forall|i: int| 0 <= i < b.attributes[x].len() implies (keeps(s, x))(#[trigger] b.attributes[x][i]) by {
            let a = b.attributes[x][i];
            assert(has_name(b.attributes[x], a.name));
            assert(lk_node(b, x));
            lemma_at_name(b.attributes[x], a.name);
            assert(lookup(b.attributes[x], a.name) == Some(a.value));
        }
        lemma_flt_all(b.attributes[x], keeps(s, x));
    }
    assert forall|x: int| #[trigger] inner_node(h, x) by { assert(inner_node(b, x)); if h.parent[x] is Some { assert(!s.contains(x)); assert(h.parent[x] == b.parent[x]); } }
    assert forall|x: int| #[trigger] space_ok(h, x) by { assert(space_ok(b, x)); assert(h.attributes[x] == b.attributes[x]); }
    assert forall|x: int, nm: QName| has_name(h.attributes[x], nm) implies target((#[trigger] lookup(h.attributes[x], nm))->0) is None by { assert(h.attributes[x] == b.attributes[x]); assert(lookup(b.attributes[x], nm) == lookup(h.attributes[x], nm)); }
    assert forall|x: int| #[trigger] above(h, r, x) implies own_node(h, e, x) by {
        assert(page_node(b, d, x));
        let k = choose|k: nat| on_chain(h.parent, x, r, k);
        if x != r { assert(h.parent[x] is Some); assert(h.parent[x] == b.parent[x]); }
        assert(own_node(b, d, x));
    }
}
proof fn lemma_page_resolved(h: Heap, e: SDocument, l: Seq<PLink>, g: Heap)
    requires wf(h), lk(h), own(h, e), belongs(h, e, e.root), inner(h), spaces_ok(h), all_plain(h), pend_uniq(l), resolving(h, e.root, l, l.len() as int, g), forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).attr_id != AID_Space
    ensures resolved_upto(h, e.root, l, l.len() as int, g), wf(g), lk(g), own(g, e), belongs(g, e, e.root), inner(g), spaces_ok(g)
{
    lemma_links_resolved(h, e.root, l, l.len() as int, g);
    lemma_rest_wf(h, g);
    lemma_own_same(h, e, g, e);
    assert forall|x: int| #[trigger] above(g, e.root, x) implies own_node(g, e, x) by { lemma_same_above(h, g, e.root, x); assert(own_node(h, e, x)); }
    assert forall|x: int| #[trigger] inner_node(g, x) by { assert(inner_node(h, x)); }
    assert forall|x: int| #[trigger] space_ok(g, x) by {
        assert(space_ok(h, x));
        assert(!is_pending(l, l.len() as int, x, SPACE()));
        assert(lookup(g.attributes[x], SPACE()) == lookup(h.attributes[x], SPACE()));
    }
}
pub open spec fn is_style_pred(f: Pred) -> bool { forall|h: Heap, n: int| #[trigger] pred(f, h, n) == (h.tag_name[n] == QName::Id(EID_Style)) }
// the document as built from the XML tree, before style elements go, references are resolved and text is prepared
pub open spec fn built(doc: X_roxmltree_Document, n0: Heap, b: Heap, d: SDocument, l: Seq<PLink>, k: nat) -> bool {
    page(b, d) && pend_fine(b, l) && b.allocated[d.root] && b.node_type[d.root] == NT_Root && xdeep(xd_root(doc), k)
    && kids_img(n0, b, l, b.kids[d.root], kept_xs(xn_kids(xd_root(doc)), None), sheet_of(xd_all(doc)), (k - 1) as nat)
}
pub open spec fn finished(b: Heap, l: Seq<PLink>, r: int, c: Heap, g: Heap, t: Heap, h: Heap, f: Pred, f2: Pred) -> bool {
    is_style_pred(f) && drained(b, c, f, r) && resolved_upto(c, r, l, l.len() as int, g) && text_done(g, t, h, f2, r)
}
pub open spec fn parsed(doc: X_roxmltree_Document, h: Heap, r: int) -> bool {
    exists|n0: Heap, b: Heap, d: SDocument, l: Seq<PLink>, k: nat, c: Heap, g: Heap, t: Heap, f: Pred, f2: Pred| d.root == r && #[trigger] built(doc, n0, b, d, l, k) && #[trigger] finished(b, l, r, c, g, t, h, f, f2)
}
proof fn lemma_parsed(doc: X_roxmltree_Document, n0: Heap, b: Heap, d: SDocument, l: Seq<PLink>, k: nat, c: Heap, g: Heap, h: Heap, f: Pred)
    requires built(doc, n0, b, d, l, k), is_style_pred(f), drained(b, c, f, d.root), resolved_upto(c, d.root, l, l.len() as int, g), exists|t: Heap, f2: Pred| text_done(g, t, h, f2, d.root)
    ensures parsed(doc, h, d.root)
{
    let (t, f2) = choose|t: Heap, f2: Pred| text_done(g, t, h, f2, d.root);
    assert(finished(b, l, d.root, c, g, t, h, f, f2));
}
