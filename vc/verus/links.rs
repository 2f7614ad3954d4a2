// ---------------------------------------------------------------- attribute lists
pub open spec fn named(n: QName) -> spec_fn(Attribute) -> bool { |a: Attribute| a.name == n }
pub open spec fn has_name(s: Seq<Attribute>, n: QName) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].name == n }
pub open spec fn first_named(s: Seq<Attribute>, n: QName, i: int) -> bool {
    0 <= i < s.len() && s[i].name == n && forall|j: int| 0 <= j < i ==> #[trigger] s[j].name != n
}
pub open spec fn at_name(s: Seq<Attribute>, n: QName) -> int { choose|i: int| first_named(s, n, i) }
pub open spec fn lookup_attr(s: Seq<Attribute>, n: QName) -> Option<Attribute> { if has_name(s, n) { Some(s[at_name(s, n)]) } else { None } }
pub open spec fn lookup(s: Seq<Attribute>, n: QName) -> Option<AttributeValue> { if has_name(s, n) { Some(s[at_name(s, n)].value) } else { None } }
pub open spec fn put(s: Seq<Attribute>, a: Attribute) -> Seq<Attribute> { if has_name(s, a.name) { s.update(at_name(s, a.name), a) } else { s.push(a) } }
pub open spec fn without(s: Seq<Attribute>, n: QName) -> Seq<Attribute> { if has_name(s, n) { s.remove(at_name(s, n)) } else { s } }
pub open spec fn uniq(s: Seq<Attribute>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].name != #[trigger] s[j].name }

proof fn lemma_at_name(s: Seq<Attribute>, n: QName)
    ensures has_name(s, n) ==> first_named(s, n, at_name(s, n)),
        forall|i: int| first_named(s, n, i) ==> i == at_name(s, n) && has_name(s, n),
{
    if has_name(s, n) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].name == n;
        let f = named(n);
        lemma_seq_pos_some(s, f, i);
        let j = choose|j: int| is_first(s, f, j);
        assert forall|k: int| 0 <= k < j implies #[trigger] s[k].name != n by { assert(!f(s[k])); }
        assert(first_named(s, n, j));
    }
    assert forall|i: int| first_named(s, n, i) implies i == at_name(s, n) && has_name(s, n) by {
        assert(s[i].name == n);
        let k = at_name(s, n);
        assert(first_named(s, n, k));
        if i < k { assert(s[i].name != n); } else if k < i { assert(s[k].name != n); }
    }
}
// C06: the list behaves as a map
proof fn lemma_put(s: Seq<Attribute>, a: Attribute)
    requires uniq(s)
    ensures
        uniq(put(s, a)), lookup(put(s, a), a.name) == Some(a.value), lookup_attr(put(s, a), a.name) == Some(a),
        forall|m: QName| m != a.name ==> #[trigger] lookup(put(s, a), m) == lookup(s, m),
        forall|m: QName| m != a.name ==> #[trigger] has_name(put(s, a), m) == has_name(s, m),
        put(s, a).len() == s.len() + (if has_name(s, a.name) { 0int } else { 1 }),
{
    let t = put(s, a);
    lemma_at_name(s, a.name);
    let w = if has_name(s, a.name) { at_name(s, a.name) } else { s.len() as int };
    assert(0 <= w < t.len() && t[w] == a);
    assert(forall|j: int| 0 <= j < t.len() && j != w ==> j < s.len() && #[trigger] t[j] == s[j]);
    assert forall|j: int| 0 <= j < t.len() && j != w implies #[trigger] t[j].name != a.name by {
        assert(t[j] == s[j]);
        if has_name(s, a.name) { if j < w { assert(s[j].name != s[w].name); } else { assert(s[w].name != s[j].name); } } else { assert(s[j].name != a.name); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i].name != #[trigger] t[j].name by {
        if i != w && j != w { assert(t[i] == s[i] && t[j] == s[j]); assert(s[i].name != s[j].name); }
    }
    assert(first_named(t, a.name, w));
    lemma_at_name(t, a.name);
    assert forall|m: QName| m != a.name implies #[trigger] lookup(t, m) == lookup(s, m) && has_name(t, m) == has_name(s, m) by {
        lemma_at_name(s, m);
        lemma_at_name(t, m);
        if has_name(s, m) {
            let k = at_name(s, m);
            assert(t[k] == s[k]);
            assert forall|j: int| 0 <= j < k implies #[trigger] t[j].name != m by { if j != w { assert(t[j] == s[j]); assert(s[j].name != m); } }
            assert(first_named(t, m, k));
        }
        if has_name(t, m) {
            let k = at_name(t, m);
            assert(k != w);
            assert(t[k] == s[k] && s[k].name == m);
        }
    }
    assert forall|m: QName| m != a.name implies #[trigger] has_name(t, m) == has_name(s, m) by { assert(lookup(t, m) == lookup(s, m)); }
}
proof fn lemma_without(s: Seq<Attribute>, n: QName)
    requires uniq(s)
    ensures
        uniq(without(s, n)), !has_name(without(s, n), n), lookup(without(s, n), n) is None,
        forall|m: QName| m != n ==> #[trigger] lookup(without(s, n), m) == lookup(s, m),
        forall|m: QName| m != n ==> #[trigger] has_name(without(s, n), m) == has_name(s, m),
        without(s, n).len() == s.len() - (if has_name(s, n) { 1int } else { 0 }),
{
    let t = without(s, n);
    lemma_at_name(s, n);
    if has_name(s, n) {
        let w = at_name(s, n);
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == s[if j < w { j } else { j + 1 }] by {}
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j].name != n by {
            let k = if j < w { j } else { j + 1 };
            assert(t[j] == s[k]);
            if k < w { assert(s[k].name != s[w].name); } else { assert(s[w].name != s[k].name); }
        }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i].name != #[trigger] t[j].name by {
            let a = if i < w { i } else { i + 1 };
            let b = if j < w { j } else { j + 1 };
            assert(t[i] == s[a] && t[j] == s[b]);
            assert(s[a].name != s[b].name);
        }
        assert forall|m: QName| m != n implies #[trigger] lookup(t, m) == lookup(s, m) && has_name(t, m) == has_name(s, m) by {
            lemma_at_name(s, m);
            lemma_at_name(t, m);
            if has_name(s, m) {
                let k = at_name(s, m);
                let kk = if k < w { k } else { k - 1 };
                assert(t[kk] == s[k]);
                assert forall|j: int| 0 <= j < kk implies #[trigger] t[j].name != m by { assert(t[j] == s[if j < w { j } else { j + 1 }]); }
                assert(first_named(t, m, kk));
            }
            if has_name(t, m) {
                let k = at_name(t, m);
                assert(t[k] == s[if k < w { k } else { k + 1 }]);
            }
        }
        assert forall|m: QName| m != n implies #[trigger] has_name(t, m) == has_name(s, m) by { assert(lookup(t, m) == lookup(s, m)); }
    }
}

// a tag name that may be given to an element
pub open spec fn tag_ok(n: QName) -> bool { match n { QName::Name(s) => s.len() > 0, _ => true } }
pub open spec fn attr_of(n: QName, v: AttributeValue) -> Attribute { Attribute { name: n, value: v } }

// ---------------------------------------------------------------- links
pub open spec fn target(v: AttributeValue) -> Option<int> {
    match v {
        AttributeValue::Link(n) => Some(n),
        AttributeValue::FuncLink(n) => Some(n),
        AttributeValue::Paint(n, _) => Some(n),
        _ => None,
    }
}
pub open spec fn occ(s: Seq<int>, x: int) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { occ(s.drop_last(), x) + (if s.last() == x { 1nat } else { 0nat }) }
}
pub open spec fn refs(s: Seq<Attribute>, b: int) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { refs(s.drop_last(), b) + (if target(s.last().value) == Some(b) { 1nat } else { 0nat }) }
}
proof fn lemma_occ_push(s: Seq<int>, y: int, x: int)
    ensures occ(s.push(y), x) == occ(s, x) + (if x == y { 1nat } else { 0nat })
{
    assert(s.push(y).drop_last() =~= s);
}
proof fn lemma_occ_remove(s: Seq<int>, i: int, x: int)
    requires 0 <= i < s.len()
    ensures occ(s.remove(i), x) + (if s[i] == x { 1nat } else { 0nat }) == occ(s, x)
    decreases s.len()
{
    if i == s.len() - 1 {
        assert(s.remove(i) =~= s.drop_last());
    } else {
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
        lemma_occ_remove(s.drop_last(), i, x);
    }
}
proof fn lemma_occ_exists(s: Seq<int>, x: int)
    ensures occ(s, x) > 0 <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_occ_exists(t, x);
        if occ(t, x) > 0 {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == x;
            assert(s[i] == x);
        }
        if s.last() == x { assert(s[s.len() - 1] == x); }
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x;
            if i < t.len() { assert(t[i] == x); }
        }
    }
}
proof fn lemma_refs_push(s: Seq<Attribute>, a: Attribute, b: int)
    ensures refs(s.push(a), b) == refs(s, b) + (if target(a.value) == Some(b) { 1nat } else { 0nat })
{
    assert(s.push(a).drop_last() =~= s);
}
proof fn lemma_refs_remove(s: Seq<Attribute>, i: int, b: int)
    requires 0 <= i < s.len()
    ensures refs(s.remove(i), b) + (if target(s[i].value) == Some(b) { 1nat } else { 0nat }) == refs(s, b)
    decreases s.len()
{
    if i == s.len() - 1 {
        assert(s.remove(i) =~= s.drop_last());
    } else {
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
        lemma_refs_remove(s.drop_last(), i, b);
    }
}
proof fn lemma_refs_exists(s: Seq<Attribute>, b: int)
    ensures refs(s, b) > 0 <==> exists|i: int| 0 <= i < s.len() && target(#[trigger] s[i].value) == Some(b)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_refs_exists(t, b);
        if refs(t, b) > 0 {
            let i = choose|i: int| 0 <= i < t.len() && target(#[trigger] t[i].value) == Some(b);
            assert(target(s[i].value) == Some(b));
        }
        if target(s.last().value) == Some(b) { assert(target(s[s.len() - 1].value) == Some(b)); }
        if exists|i: int| 0 <= i < s.len() && target(#[trigger] s[i].value) == Some(b) {
            let i = choose|i: int| 0 <= i < s.len() && target(#[trigger] s[i].value) == Some(b);
            if i < t.len() { assert(target(t[i].value) == Some(b)); }
        }
    }
}
// the invariant of attributes and links
pub open spec fn lk_pair(h: Heap, a: int, b: int) -> bool { occ(h.linked_nodes[b], a) == refs(h.attributes[a], b) }
pub open spec fn lk_node(h: Heap, a: int) -> bool { uniq(h.attributes[a]) && refs(h.attributes[a], a) == 0 }
pub open spec fn lk(h: Heap) -> bool { (forall|a: int, b: int| #[trigger] lk_pair(h, a, b)) && (forall|a: int| #[trigger] lk_node(h, a)) }

pub open spec fn rest_eq(h: Heap, g: Heap) -> bool {
    links_eq(h, g) && h.storage_key == g.storage_key && h.node_type == g.node_type && h.tag_name == g.tag_name && h.id == g.id && h.text == g.text
    && h.allocated == g.allocated
}
pub open spec fn attrs_upd(h0: Heap, h: Heap, n: int, s: Seq<Attribute>) -> bool {
    forall|x: int| #![trigger h.attributes[x]] h.attributes[x] == (if x == n { s } else { h0.attributes[x] })
}
// n loses its attribute called nm, and the node it refers to loses one entry of n
pub open spec fn unset(h0: Heap, h: Heap, n: int, nm: QName) -> bool {
    &&& rest_eq(h, h0)
    &&& attrs_upd(h0, h, n, without(h0.attributes[n], nm))
    &&& forall|x: int, y: int| #[trigger] occ(h.linked_nodes[x], y) == occ(h0.linked_nodes[x], y) - (if y == n && has_name(h0.attributes[n], nm) && target(lookup(h0.attributes[n], nm)->0) == Some(x) { 1int } else { 0int })
    &&& forall|x: int| #[trigger] h.linked_nodes[x].len() <= h0.linked_nodes[x].len()
}
// n's attribute a.name becomes a, the old one is unlinked, the new target (if any) gets an entry
pub open spec fn set_to(h0: Heap, h: Heap, n: int, a: Attribute) -> bool {
    &&& rest_eq(h, h0)
    &&& attrs_upd(h0, h, n, without(h0.attributes[n], a.name).push(a))
    &&& forall|x: int, y: int| #[trigger] occ(h.linked_nodes[x], y) == occ(h0.linked_nodes[x], y)
        - (if y == n && has_name(h0.attributes[n], a.name) && target(lookup(h0.attributes[n], a.name)->0) == Some(x) { 1int } else { 0int })
        + (if y == n && target(a.value) == Some(x) { 1int } else { 0int })
}
proof fn lemma_unset(h0: Heap, h: Heap, n: int, nm: QName)
    requires lk(h0), unset(h0, h, n, nm)
    ensures lk(h)
{
    let s = h0.attributes[n];
    assert(lk_node(h0, n));
    lemma_without(s, nm);
    lemma_at_name(s, nm);
    assert forall|a: int, b: int| #[trigger] lk_pair(h, a, b) by {
        assert(lk_pair(h0, a, b));
        assert(occ(h.linked_nodes[b], a) >= 0);
        if a == n && has_name(s, nm) { lemma_refs_remove(s, at_name(s, nm), b); }
    }
    assert forall|a: int| #[trigger] lk_node(h, a) by {
        assert(lk_node(h0, a));
        if a == n && has_name(s, nm) { lemma_refs_remove(s, at_name(s, nm), n); }
    }
}
proof fn lemma_set_to(h0: Heap, h: Heap, n: int, at: Attribute)
    requires lk(h0), set_to(h0, h, n, at), target(at.value) != Some(n)
    ensures lk(h), h.attributes[n] == put(without(h0.attributes[n], at.name), at)
{
    let s = h0.attributes[n];
    let w = without(s, at.name);
    assert(lk_node(h0, n));
    lemma_without(s, at.name);
    lemma_at_name(s, at.name);
    lemma_put(w, at);
    assert forall|a: int, b: int| #[trigger] lk_pair(h, a, b) by {
        assert(lk_pair(h0, a, b));
        assert(occ(h.linked_nodes[b], a) >= 0);
        if a == n {
            if has_name(s, at.name) { lemma_refs_remove(s, at_name(s, at.name), b); }
            lemma_refs_push(w, at, b);
        }
    }
    assert forall|a: int| #[trigger] lk_node(h, a) by {
        assert(lk_node(h0, a));
        if a == n {
            if has_name(s, at.name) { lemma_refs_remove(s, at_name(s, at.name), n); }
            lemma_refs_push(w, at, n);
        }
    }
}
pub open spec fn link_value(nm: QName, node: int, fb: Option<PaintFallback>) -> AttributeValue {
    if nm == QName::Id(AID_Href) { AttributeValue::Link(node) }
    else if nm == QName::Id(AID_Fill) || nm == QName::Id(AID_Stroke) { AttributeValue::Paint(node, fb) }
    else { AttributeValue::FuncLink(node) }
}
// a link of n to m is refused
pub open spec fn no_id(h: Heap, m: int) -> bool { h.id[m].len() == 0 }
pub open spec fn crosslink(h: Heap, n: int, m: int) -> bool { h.id[n] == h.id[m] || occ(h.linked_nodes[n], m) > 0 }

// an attribute with a link that may not be stored
pub open spec fn attr_refused(h: Heap, n: int, a: Attribute) -> bool { target(a.value) is Some && (no_id(h, target(a.value)->0) || crosslink(h, n, target(a.value)->0)) }
// what is stored for a: links take the form their name calls for
pub open spec fn stored(a: Attribute) -> Attribute {
    match target(a.value) {
        Some(m) => Attribute { name: a.name, value: link_value(a.name, m, match a.value { AttributeValue::Paint(_, fb) => fb, _ => None }) },
        None => a,
    }
}
// the node the attribute called nm of n refers to
pub open spec fn old_target(h: Heap, n: int, nm: QName) -> Option<int> { if has_name(h.attributes[n], nm) { target(lookup(h.attributes[n], nm)->0) } else { None } }
// a linked node lists the linking one
proof fn lemma_lk_target(h: Heap, n: int, nm: QName)
    requires lk(h)
    ensures
        has_name(h.attributes[n], nm) && target(lookup(h.attributes[n], nm)->0) is Some ==> ({
            let m = target(lookup(h.attributes[n], nm)->0)->0;
            m != n && occ(h.linked_nodes[m], n) > 0 && exists|i: int| 0 <= i < h.linked_nodes[m].len() && #[trigger] h.linked_nodes[m][i] == n
        })
{
    let s = h.attributes[n];
    lemma_at_name(s, nm);
    if has_name(s, nm) && target(lookup(s, nm)->0) is Some {
        let m = target(lookup(s, nm)->0)->0;
        let i = at_name(s, nm);
        assert(target(s[i].value) == Some(m));
        lemma_refs_exists(s, m);
        assert(lk_pair(h, n, m));
        assert(lk_node(h, n));
        lemma_occ_exists(h.linked_nodes[m], n);
    }
}
proof fn lemma_occ_all()
    ensures
        forall|s: Seq<int>, y: int, x: int| #[trigger] occ(s.push(y), x) == occ(s, x) + (if x == y { 1nat } else { 0nat }),
        forall|s: Seq<int>, i: int, x: int| 0 <= i < s.len() ==> #[trigger] occ(s.remove(i), x) + (if s[i] == x { 1nat } else { 0nat }) == occ(s, x),
{
    assert forall|s: Seq<int>, y: int, x: int| #[trigger] occ(s.push(y), x) == occ(s, x) + (if x == y { 1nat } else { 0nat }) by { lemma_occ_push(s, y, x); }
    assert forall|s: Seq<int>, i: int, x: int| 0 <= i < s.len() implies #[trigger] occ(s.remove(i), x) + (if s[i] == x { 1nat } else { 0nat }) == occ(s, x) by { lemma_occ_remove(s, i, x); }
}
