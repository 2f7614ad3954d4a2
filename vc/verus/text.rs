// ---------------------------------------------------------------- characters and bytes
// the character that starts at byte b
pub open spec fn at_byte(s: Seq<char>, b: int, i: int) -> bool { 0 <= i <= s.len() && utf8_len(s.take(i)) == b }
pub open spec fn byte_pos(s: Seq<char>, b: int) -> int { choose|i: int| at_byte(s, b, i) }
proof fn lemma_utf8_next(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures utf8(s.take(i + 1)) == utf8(s.take(i)) + utf8_char(s[i]), utf8_char(s[i]).len() >= 1
{
    reveal(utf8);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
proof fn lemma_utf8_grows(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures utf8_len(s.take(i)) + (j - i) <= utf8_len(s.take(j)), utf8(s.take(i)).len() <= utf8(s.take(j)).len(),
        forall|b: int| 0 <= b < utf8(s.take(i)).len() ==> #[trigger] utf8(s.take(j))[b] == utf8(s.take(i))[b]
    decreases j - i
{
    if i < j { lemma_utf8_grows(s, i, j - 1); lemma_utf8_next(s, j - 1); }
}
proof fn lemma_utf8_ends(s: Seq<char>)
    ensures
        (utf8(s).len() == 0) == (s.len() == 0),
        s.len() <= utf8(s).len(),
        s.len() > 0 ==> ((utf8(s)[0] == 32) == (s[0] == ' ')) && ((utf8(s)[utf8(s).len() - 1] == 32) == (s[s.len() - 1] == ' ')),
        s.len() > 0 && s[0] == ' ' ==> at_byte(s, 1, 1) && at_byte(s, 0, 0),
        forall|b: int, i: int| #[trigger] at_byte(s, b, i) ==> byte_pos(s, b) == i,
        s.len() > 0 && s.last() == ' ' ==> utf8(s.drop_last()).len() == utf8(s).len() - 1,
{
    reveal(utf8);
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<char>::empty());
    lemma_utf8_grows(s, 0, s.len() as int);
    if s.len() > 0 {
        lemma_utf8_grows(s, 1, s.len() as int);
        lemma_utf8_next(s, 0);
        lemma_utf8_next(s, s.len() - 1);
        assert(utf8(s)[0] == utf8(s.take(1))[0]);
        assert(utf8(s.take(1)) =~= utf8_char(s[0]));
    }
    assert forall|b: int, i: int| #[trigger] at_byte(s, b, i) implies byte_pos(s, b) == i by {
        let j = byte_pos(s, b);
        assert(at_byte(s, b, j));
        if i < j { lemma_utf8_grows(s, i, j); } else if j < i { lemma_utf8_grows(s, j, i); }
    }
}

// ---------------------------------------------------------------- white space
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn spaced(c: char) -> char { if is_ws(c) { ' ' } else { c } }
// everything but white space
pub open spec fn ink(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if is_ws(s.last()) { ink(s.drop_last()) } else { ink(s.drop_last()).push(s.last()) }
}
// tabs and line breaks as spaces; runs of spaces collapsed unless preserved
pub open spec fn norm(s: Seq<char>, space: int) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let c = spaced(s.last());
        let n = norm(s.drop_last(), space);
        if space == XS_Default && c == ' ' && s.len() > 1 && is_ws(s[s.len() - 2]) { n } else { n.push(c) }
    }
}

// ---------------------------------------------------------------- xml:space
pub open spec fn xs_text(space: int) -> Seq<char> {
    if space == XS_Default { seq!['d', 'e', 'f', 'a', 'u', 'l', 't'] } else { seq!['p', 'r', 'e', 's', 'e', 'r', 'v', 'e'] }
}
pub open spec fn space_value(s: Seq<char>) -> int { if s == xs_text(XS_Preserve) { XS_Preserve } else { XS_Default } }
pub open spec fn given_space(a: Seq<Attribute>) -> Option<int> {
    match lookup(a, QName::Id(AID_Space)) { Some(AttributeValue::String(s)) => Some(space_value(s)), _ => None }
}
pub open spec fn space_of(a: Seq<Attribute>, dflt: int) -> int { match given_space(a) { Some(x) => x, None => dflt } }
pub open spec fn space_attr(space: int) -> Attribute { Attribute { name: QName::Id(AID_Space), value: AttributeValue::String(xs_text(space)) } }
// the text nodes below n that are reached through elements, in document order, with their depth
pub open spec fn texts(h: Heap, n: int, d: int, k: nat) -> Seq<(int, int)>
    decreases k, 0nat
{
    if k == 0 { Seq::empty() } else { texts_upto(h, n, h.kids[n].len(), d, (k - 1) as nat) }
}
pub open spec fn texts_upto(h: Heap, p: int, m: nat, d: int, k: nat) -> Seq<(int, int)>
    decreases k, m + 1
{
    if m == 0 { Seq::empty() } else { texts_upto(h, p, (m - 1) as nat, d, k) + texts_of(h, h.kids[p][m - 1], d, texts(h, h.kids[p][m - 1], d + 1, k)) }
}
pub open spec fn texts_of(h: Heap, c: int, d: int, below: Seq<(int, int)>) -> Seq<(int, int)> {
    if h.node_type[c] == NT_Text { seq![(c, d)] } else if h.node_type[c] == NT_Element { below } else { Seq::empty() }
}

// ---------------------------------------------------------------- what text preparation may change
pub open spec fn SPACE() -> QName { QName::Id(AID_Space) }
// everything but texts, attributes and incoming links
pub open spec fn shape(h0: Heap, h: Heap) -> bool {
    links_eq(h, h0) && h.storage_key == h0.storage_key && h.node_type == h0.node_type && h.tag_name == h0.tag_name && h.id == h0.id && h.allocated == h0.allocated
}
pub open spec fn newly(m0: Seq<int>, m: Seq<int>, x: int) -> bool { exists|j: int| m0.len() <= j < m.len() && #[trigger] m[j] == x }
// an xml:space attribute is always a text
pub open spec fn space_ok(h: Heap, x: int) -> bool { has_name(h.attributes[x], SPACE()) ==> given_space(h.attributes[x]) is Some }
pub open spec fn spaces_ok(h: Heap) -> bool { forall|x: int| #[trigger] space_ok(h, x) }
pub open spec fn inner_node(h: Heap, x: int) -> bool { h.parent[x] is Some ==> h.node_type[x] != NT_Root && (h.node_type[h.parent[x]->0] == NT_Element || h.node_type[h.parent[x]->0] == NT_Root) }
pub open spec fn inner(h: Heap) -> bool { forall|x: int| #[trigger] inner_node(h, x) }
// the nodes added to the list got a temporary xml:space, all others kept their attributes
pub open spec fn marked_node(h0: Heap, h: Heap, r: int, m0: Seq<int>, m: Seq<int>, xs: int, x: int) -> bool {
    if newly(m0, m, x) { above(h0, r, x) && !has_name(h0.attributes[x], SPACE()) && h0.node_type[x] == NT_Element && h.attributes[x] == h0.attributes[x].push(space_attr(xs)) } else { h.attributes[x] == h0.attributes[x] }
}
pub open spec fn marked(h0: Heap, h: Heap, r: int, m0: Seq<int>, m: Seq<int>, xs: int) -> bool {
    is_prefix(m0, m) && forall|x: int| #[trigger] marked_node(h0, h, r, m0, m, xs, x)
}
proof fn lemma_space_given(a: Seq<Attribute>, xs: int)
    requires uniq(a), !has_name(a, SPACE()), 0 <= xs <= 1
    ensures given_space(a) is None, given_space(a.push(space_attr(xs))) == Some(xs), without(a, SPACE()) == a
{
    let s = a.push(space_attr(xs));
    assert(s[a.len() as int].name == SPACE());
    lemma_at_name(s, SPACE());
    let i = at_name(s, SPACE());
    if i < a.len() { assert(a[i].name == SPACE()); }
    assert(xs_text(XS_Default).len() != xs_text(XS_Preserve).len());
}
// get_xmlspace on p
proof fn lemma_mark(h0: Heap, g: Heap, h: Heap, r: int, m0: Seq<int>, m: Seq<int>, m2: Seq<int>, xs: int, p: int)
    requires lk(h0), lk(g), spaces_ok(h0), 0 <= xs <= 1, marked(h0, g, r, m0, m, xs), h0.node_type[p] == NT_Element, above(h0, r, p),
        given_space(g.attributes[p]) is Some ==> h.attributes == g.attributes && m2 == m,
        given_space(g.attributes[p]) is None ==> set_to(g, h, p, space_attr(xs)) && m2 == m.push(p),
    ensures marked(h0, h, r, m0, m2, xs), space_of(g.attributes[p], xs) == space_of(h0.attributes[p], xs)
{
    assert(marked_node(h0, g, r, m0, m, xs, p) && space_ok(h0, p) && lk_node(h0, p));
    if newly(m0, m, p) { lemma_space_given(h0.attributes[p], xs); }
    if given_space(g.attributes[p]) is None {
        assert(g.attributes[p] == h0.attributes[p]);
        lemma_space_given(h0.attributes[p], xs);
        assert(m2[m.len() as int] == p);
        assert forall|x: int| #[trigger] marked_node(h0, h, r, m0, m2, xs, x) by {
            assert(marked_node(h0, g, r, m0, m, xs, x));
            assert(h.attributes[x] == (if x == p { without(g.attributes[p], SPACE()).push(space_attr(xs)) } else { g.attributes[x] }));
            if newly(m0, m, x) { let j = choose|j: int| m0.len() <= j < m.len() && m[j] == x; assert(m2[j] == x); }
            if newly(m0, m2, x) && x != p { let j = choose|j: int| m0.len() <= j < m2.len() && m2[j] == x; assert(m[j] == x); }
        }
        assert(m2.take(m0.len() as int) =~= m.take(m0.len() as int));
    } else {
        assert forall|x: int| #[trigger] marked_node(h0, h, r, m0, m2, xs, x) by { assert(marked_node(h0, g, r, m0, m, xs, x)); }
    }
}

// ---------------------------------------------------------------- only spaces go
pub open spec fn pared_at(n: Seq<char>, t: Seq<char>, a: int, b: int) -> bool {
    0 <= a <= b <= n.len() && t == n.subrange(a, b) && (forall|i: int| 0 <= i < a ==> #[trigger] n[i] == ' ') && (forall|i: int| b <= i < n.len() ==> #[trigger] n[i] == ' ')
}
// t is n without some spaces at its ends
pub open spec fn pared(n: Seq<char>, t: Seq<char>) -> bool { exists|a: int, b: int| pared_at(n, t, a, b) }
proof fn lemma_pared_same(n: Seq<char>)
    ensures pared(n, n)
{
    assert(n.subrange(0, n.len() as int) =~= n);
    assert(pared_at(n, n, 0, n.len() as int));
}
proof fn lemma_pared_step(n: Seq<char>, t: Seq<char>)
    requires pared(n, t)
    ensures t.len() > 0 && t[0] == ' ' ==> pared(n, t.skip(1)), t.len() > 0 && t.last() == ' ' ==> pared(n, t.drop_last())
{
    let (a, b) = choose|a: int, b: int| pared_at(n, t, a, b);
    if t.len() > 0 && t[0] == ' ' { assert(t.skip(1) =~= n.subrange(a + 1, b)); assert(n[a] == ' '); assert(pared_at(n, t.skip(1), a + 1, b)); }
    if t.len() > 0 && t.last() == ' ' { assert(t.drop_last() =~= n.subrange(a, b - 1)); assert(n[b - 1] == ' '); assert(pared_at(n, t.drop_last(), a, b - 1)); }
}
proof fn lemma_ink_add(a: Seq<char>, b: Seq<char>)
    ensures ink(a + b) == ink(a) + ink(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(ink(a) + ink(b) =~= ink(a)); } else {
        lemma_ink_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        if !is_ws(b.last()) { assert(ink(a) + ink(b) =~= (ink(a) + ink(b.drop_last())).push(b.last())); }
    }
}
proof fn lemma_ink_blank(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == ' '
    ensures ink(s) == Seq::<char>::empty()
    decreases s.len()
{
    if s.len() > 0 { assert(s.last() == s[s.len() - 1]); lemma_ink_blank(s.drop_last()); }
}
proof fn lemma_pared_ink(n: Seq<char>, t: Seq<char>)
    requires pared(n, t)
    ensures ink(t) == ink(n)
{
    let (a, b) = choose|a: int, b: int| pared_at(n, t, a, b);
    let x = n.subrange(0, a);
    let z = n.subrange(b, n.len() as int);
    assert(n =~= x + t + z);
    lemma_ink_add(x + t, z);
    lemma_ink_add(x, t);
    lemma_ink_blank(x);
    lemma_ink_blank(z);
    assert(Seq::<char>::empty() + ink(t) + Seq::<char>::empty() =~= ink(t));
}
proof fn lemma_norm_ink(s: Seq<char>, space: int)
    ensures ink(norm(s, space)) == ink(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_norm_ink(s.drop_last(), space);
        let c = spaced(s.last());
        let n = norm(s.drop_last(), space);
        assert(n.push(c).drop_last() =~= n);
    }
}
// no tab or line break is left, and no two spaces in a row where white space is not preserved
proof fn lemma_norm(s: Seq<char>, space: int)
    ensures
        forall|i: int| 0 <= i < norm(s, space).len() && is_ws(#[trigger] norm(s, space)[i]) ==> norm(s, space)[i] == ' ',
        space == XS_Default ==> forall|i: int| 0 <= i < norm(s, space).len() - 1 && #[trigger] norm(s, space)[i] == ' ' ==> norm(s, space)[i + 1] != ' ',
        norm(s, space).len() <= s.len(),
        s.len() > 0 ==> norm(s, space).len() > 0 && norm(s, space).last() == spaced(s.last()),
        space != XS_Default ==> norm(s, space) =~= s.map_values(|c: char| spaced(c)),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_norm(s.drop_last(), space);
        let p = s.drop_last();
        if p.len() > 0 { assert(p.last() == s[s.len() - 2]); }
        if space != XS_Default { assert(norm(s, space) =~= norm(p, space).push(spaced(s.last()))); assert(s.map_values(|c: char| spaced(c)).drop_last() =~= p.map_values(|c: char| spaced(c))); }
    }
}
pub open spec fn strip_ends(n: Seq<char>) -> Seq<char> {
    let a = if n.len() > 0 && n[0] == ' ' { n.skip(1) } else { n };
    if a.len() > 0 && a.last() == ' ' { a.drop_last() } else { a }
}
pub open spec fn sole(n: Seq<char>, xs: int) -> Seq<char> { if xs == XS_Default { strip_ends(n) } else { n } }
proof fn lemma_sole(s: Seq<char>)
    ensures ({ let t = sole(norm(s, XS_Default), XS_Default); t.len() > 0 ==> t[0] != ' ' && t.last() != ' ' }), sole(norm(s, XS_Preserve), XS_Preserve) == s.map_values(|c: char| spaced(c))
{
    lemma_norm(s, XS_Default);
    lemma_norm(s, XS_Preserve);
}

// ---------------------------------------------------------------- the texts below an element
proof fn lemma_same_tr(g: Heap, h: Heap, it: STraverse, k: nat, lo: int, hi: int)
    requires g.kids == h.kids, tr_ok(g, it, k, lo, hi)
    ensures tr_ok(h, it, k, lo, hi), tour(g, it.root, k) == tour(h, it.root, k)
{
    lemma_same_tour(g, h, it.root, k);
}
pub open spec fn started(t: Seq<Edge>, i: int, x: int) -> bool { exists|j: int| 0 <= j < i && j < t.len() && #[trigger] t[j] == Edge::Start(x) }
pub open spec fn normed_text(h0: Heap, xs: int, x: int) -> Seq<char> { norm(h0.text[x], space_of(h0.attributes[h0.parent[x]->0], xs)) }
pub open spec fn normed_node(h0: Heap, h: Heap, t: Seq<Edge>, i: int, xs: int, x: int) -> bool {
    h.text[x] == if h0.node_type[x] == NT_Text && started(t, i, x) { normed_text(h0, xs, x) } else { h0.text[x] }
}
pub open spec fn normed(h0: Heap, h: Heap, t: Seq<Edge>, i: int, xs: int) -> bool { forall|x: int| #[trigger] normed_node(h0, h, t, i, xs, x) }
pub open spec fn trim_node(h0: Heap, h: Heap, p: int, xs: int, x: int) -> bool {
    if h0.node_type[x] == NT_Text && above(h0, p, x) { pared(normed_text(h0, xs, x), h.text[x]) } else { h.text[x] == h0.text[x] }
}
pub open spec fn trimmed(h0: Heap, h: Heap, p: int, xs: int) -> bool { forall|x: int| #[trigger] trim_node(h0, h, p, xs, x) }
proof fn lemma_normed_step(h0: Heap, g: Heap, h: Heap, p: int, k: nat, lo: int, i: int, n: int, xs: int)
    requires
        wf(h0), deep(h0, p, k), normed(h0, g, tour(h0, p, k), lo, xs), 0 <= lo <= i < tour(h0, p, k).len(),
        forall|j: int| lo <= j < i ==> #[trigger] tour(h0, p, k)[j] is End, tour(h0, p, k)[i] == Edge::Start(n),
        h.text == (if h0.node_type[n] == NT_Text { g.text.insert(n, norm(g.text[n], space_of(h0.attributes[h0.parent[n]->0], xs))) } else { g.text }),
    ensures normed(h0, h, tour(h0, p, k), i + 1, xs), above(h0, p, n)
{
    let t = tour(h0, p, k);
    lemma_tour(h0, p, k);
    assert(above(h0, p, node_of(t[i])));
    assert forall|x: int| #[trigger] normed_node(h0, h, t, i + 1, xs, x) by {
        assert(normed_node(h0, g, t, lo, xs, x));
        if started(t, lo, x) { let j = choose|j: int| 0 <= j < lo && t[j] == Edge::Start(x); assert(t[j] == Edge::Start(x)); if x == n { assert(t[i] == t[j]); } }
        if x == n { assert(t[i] == Edge::Start(x)); }
        if started(t, i + 1, x) && x != n { let j = choose|j: int| 0 <= j < i + 1 && t[j] == Edge::Start(x); assert(t[j] == Edge::Start(x)); assert(j < lo); }
    }
}
proof fn lemma_normed_end(h0: Heap, h: Heap, p: int, k: nat, lo: int, xs: int)
    requires wf(h0), deep(h0, p, k), 0 <= lo <= tour(h0, p, k).len(), normed(h0, h, tour(h0, p, k), lo, xs), forall|j: int| lo <= j < tour(h0, p, k).len() ==> #[trigger] tour(h0, p, k)[j] is End,
    ensures trimmed(h0, h, p, xs), forall|x: int| h0.node_type[x] == NT_Text && #[trigger] above(h0, p, x) ==> h.text[x] == normed_text(h0, xs, x)
{
    let t = tour(h0, p, k);
    lemma_tour(h0, p, k);
    assert forall|x: int| #[trigger] above(h0, p, x) implies started(t, lo, x) by {
        lemma_tour_covers(h0, p, k, x);
        let j = choose|j: int| 0 <= j < t.len() && t[j] == Edge::Start(x);
        assert(t[j] == Edge::Start(x));
    }
    assert forall|x: int| started(t, lo, x) implies #[trigger] above(h0, p, x) by {
        let j = choose|j: int| 0 <= j < lo && t[j] == Edge::Start(x);
        assert(above(h0, p, node_of(t[j])));
    }
    assert forall|x: int| h0.node_type[x] == NT_Text && #[trigger] above(h0, p, x) implies h.text[x] == normed_text(h0, xs, x) by { assert(normed_node(h0, h, t, lo, xs, x)); }
    assert forall|x: int| #[trigger] trim_node(h0, h, p, xs, x) by { assert(normed_node(h0, h, t, lo, xs, x)); lemma_pared_same(normed_text(h0, xs, x)); }
}
// a text inside an element below p
proof fn lemma_text_parent(h: Heap, p: int, x: int)
    requires wf(h), inner(h), h.node_type[p] == NT_Element, above(h, p, x), x != p
    ensures h.parent[x] is Some, h.node_type[h.parent[x]->0] == NT_Element
{
    let k = choose|k: nat| on_chain(h.parent, x, p, k);
    assert(k > 0);
    assert(inner_node(h, x));
    let q = h.parent[x]->0;
    if q != p { assert(on_chain(h.parent, q, p, (k - 1) as nat)); assert(inner_node(h, q)); }
}
proof fn lemma_text_parents(h: Heap, p: int)
    requires wf(h), inner(h), h.node_type[p] == NT_Element
    ensures forall|x: int| #[trigger] above(h, p, x) && x != p ==> h.parent[x] is Some && h.node_type[h.parent[x]->0] == NT_Element && above(h, p, h.parent[x]->0)
{
    assert forall|x: int| #[trigger] above(h, p, x) && x != p implies h.parent[x] is Some && h.node_type[h.parent[x]->0] == NT_Element && above(h, p, h.parent[x]->0) by { lemma_text_parent(h, p, x); lemma_above_parent(h, p, x); }
}
pub open spec fn texts_good(h: Heap, s: Seq<(int, int)>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> h.node_type[(#[trigger] s[i]).0] == NT_Text) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0)
}
proof fn lemma_texts(h: Heap, n: int, d: int, k: nat)
    requires wf(h), deep(h, n, k)
    ensures texts_good(h, texts(h, n, d, k)), forall|i: int| 0 <= i < texts(h, n, d, k).len() ==> above(h, n, (#[trigger] texts(h, n, d, k)[i]).0) && texts(h, n, d, k)[i].0 != n
    decreases k, 0nat
{
    let s = texts(h, n, d, k);
    lemma_texts_upto(h, n, h.kids[n].len(), d, (k - 1) as nat);
    assert forall|i: int| 0 <= i < s.len() implies above(h, n, (#[trigger] s[i]).0) && s[i].0 != n by {
        let x = s[i].0;
        assert(under_first(h, n, h.kids[n].len() as int, x));
        let j = choose|j: int| 0 <= j < h.kids[n].len() && #[trigger] above(h, h.kids[n][j], x);
        assert(wf_listed(h, n, j));
        lemma_not_own_parent(h, n, h.kids[n][j]);
        lemma_above_trans(h, n, h.kids[n][j], x);
    }
}
proof fn lemma_texts_upto(h: Heap, p: int, m: nat, d: int, k: nat)
    requires wf(h), m <= h.kids[p].len(), forall|i: int| 0 <= i < h.kids[p].len() ==> deep(h, #[trigger] h.kids[p][i], k)
    ensures texts_good(h, texts_upto(h, p, m, d, k)), forall|i: int| 0 <= i < texts_upto(h, p, m, d, k).len() ==> under_first(h, p, m as int, (#[trigger] texts_upto(h, p, m, d, k)[i]).0)
    decreases k, m + 1
{
    if m > 0 {
        let s = texts_upto(h, p, m, d, k);
        let a = texts_upto(h, p, (m - 1) as nat, d, k);
        let c = h.kids[p][m - 1];
        assert(deep(h, c, k));
        assert(wf_listed(h, p, m - 1));
        lemma_texts_upto(h, p, (m - 1) as nat, d, k);
        lemma_texts(h, c, d + 1, k);
        lemma_above_self(h, c);
        let b = texts_of(h, c, d, texts(h, c, d + 1, k));
        assert forall|j: int| 0 <= j < b.len() implies above(h, c, (#[trigger] b[j]).0) && h.node_type[b[j].0] == NT_Text by {}
        assert forall|i: int| 0 <= i < s.len() implies under_first(h, p, m as int, (#[trigger] s[i]).0) && h.node_type[s[i].0] == NT_Text by {
            if i < a.len() {
                assert(s[i] == a[i]);
                let j = choose|j: int| 0 <= j < m - 1 && #[trigger] above(h, h.kids[p][j], s[i].0);
                assert(above(h, h.kids[p][j], s[i].0));
            } else { assert(s[i] == b[i - a.len()]); assert(above(h, h.kids[p][m - 1], s[i].0)); }
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by {
            if j < a.len() { assert(s[i] == a[i] && s[j] == a[j]); }
            else if i >= a.len() { assert(s[i] == b[i - a.len()] && s[j] == b[j - a.len()]); }
            else { assert(s[i] == a[i] && s[j] == b[j - a.len()]); lemma_under_not(h, p, m - 1, c, s[j].0); }
        }
    }
}
proof fn lemma_same_texts(g: Heap, h: Heap, n: int, d: int, k: nat)
    requires g.kids == h.kids, g.node_type == h.node_type
    ensures texts(g, n, d, k) == texts(h, n, d, k)
    decreases k, 0nat
{
    if k > 0 { lemma_same_texts_upto(g, h, n, h.kids[n].len(), d, (k - 1) as nat); }
}
proof fn lemma_same_texts_upto(g: Heap, h: Heap, p: int, m: nat, d: int, k: nat)
    requires g.kids == h.kids, g.node_type == h.node_type
    ensures texts_upto(g, p, m, d, k) == texts_upto(h, p, m, d, k)
    decreases k, m + 1
{
    if m > 0 { lemma_same_texts_upto(g, h, p, (m - 1) as nat, d, k); lemma_same_texts(g, h, h.kids[p][m - 1], d + 1, k); }
}
proof fn lemma_pared_on(a: Seq<char>, b: Seq<char>)
    requires a.len() > 0, (a[0] == ' ' && b == a.skip(1)) || (a.last() == ' ' && b == a.drop_last())
    ensures forall|n: Seq<char>| pared(n, a) ==> #[trigger] pared(n, b)
{
    assert forall|n: Seq<char>| pared(n, a) implies #[trigger] pared(n, b) by { lemma_pared_step(n, a); }
}
pub open spec fn byte_ends(s: Seq<char>) -> bool {
    &&& (utf8(s).len() == 0) == (s.len() == 0)
    &&& s.len() <= utf8(s).len()
    &&& s.len() > 0 ==> ((utf8(s)[0] == 32) == (s[0] == ' ')) && ((utf8(s)[utf8(s).len() - 1] == 32) == (s[s.len() - 1] == ' '))
    &&& utf8(s).len() == 1 ==> s.len() == 1
}
proof fn lemma_byte_ends()
    ensures forall|s: Seq<char>| byte_ends(s) && #[trigger] utf8(s).len() >= 0
{
    assert forall|s: Seq<char>| byte_ends(s) && #[trigger] utf8(s).len() >= 0 by { lemma_utf8_ends(s); }
}
proof fn lemma_shape_wf(g: Heap, h: Heap)
    requires wf(g), links_eq(h, g)
    ensures wf(h)
{
    lemma_same_tree_wf(h, g);
}
proof fn lemma_marked_same(h0: Heap, g: Heap, h: Heap, r: int, m0: Seq<int>, m: Seq<int>, xs: int)
    requires marked(h0, g, r, m0, m, xs), h.attributes == g.attributes
    ensures marked(h0, h, r, m0, m, xs)
{
    assert forall|x: int| #[trigger] marked_node(h0, h, r, m0, m, xs, x) by { assert(marked_node(h0, g, r, m0, m, xs, x)); }
}
proof fn lemma_sole_pared(n: Seq<char>, xs: int)
    ensures pared(n, sole(n, xs))
{
    hide(pared);
    hide(ink);
    hide(norm);
    lemma_pared_same(n);
    lemma_pared_step(n, n);
    let a = if n.len() > 0 && n[0] == ' ' { n.skip(1) } else { n };
    lemma_pared_step(n, a);
}

// ---------------------------------------------------------------- the whole tree
pub open spec fn marking_node(h0: Heap, h: Heap, r: int, m0: Seq<int>, m: Seq<int>, x: int) -> bool {
    if newly(m0, m, x) {
        above(h0, r, x) && !has_name(h0.attributes[x], SPACE()) && h0.node_type[x] == NT_Element
            && (h.attributes[x] == h0.attributes[x].push(space_attr(XS_Default)) || h.attributes[x] == h0.attributes[x].push(space_attr(XS_Preserve)))
    } else { h.attributes[x] == h0.attributes[x] }
}
pub open spec fn marking(h0: Heap, h: Heap, r: int, m0: Seq<int>, m: Seq<int>) -> bool {
    is_prefix(m0, m) && forall|x: int| #[trigger] marking_node(h0, h, r, m0, m, x)
}
proof fn lemma_marked_marking(h0: Heap, h: Heap, r: int, m0: Seq<int>, m: Seq<int>, xs: int)
    requires marked(h0, h, r, m0, m, xs), 0 <= xs <= 1
    ensures marking(h0, h, r, m0, m)
{
    assert forall|x: int| #[trigger] marking_node(h0, h, r, m0, m, x) by { assert(marked_node(h0, h, r, m0, m, xs, x)); }
}
proof fn lemma_marking_trans(h0: Heap, g: Heap, h: Heap, r: int, c: int, m0: Seq<int>, m1: Seq<int>, m2: Seq<int>)
    requires marking(h0, g, r, m0, m1), marking(g, h, c, m1, m2), links_eq(g, h0), g.node_type == h0.node_type, above(h0, r, c)
    ensures marking(h0, h, r, m0, m2)
{
    assert(m2.take(m0.len() as int) =~= m2.take(m1.len() as int).take(m0.len() as int));
    assert forall|x: int| #[trigger] marking_node(h0, h, r, m0, m2, x) by {
        assert(marking_node(h0, g, r, m0, m1, x) && marking_node(g, h, c, m1, m2, x));
        if newly(m0, m1, x) {
            let j = choose|j: int| m0.len() <= j < m1.len() && m1[j] == x;
            assert(m2.take(m1.len() as int)[j] == m1[j]);
            assert(m2[j] == x);
            assert(g.attributes[x][h0.attributes[x].len() as int].name == SPACE());
        }
        if newly(m1, m2, x) {
            let j = choose|j: int| m1.len() <= j < m2.len() && m2[j] == x;
            assert(m2[j] == x);
            assert(newly(m0, m2, x));
            let k = choose|k: nat| on_chain(g.parent, x, c, k);
            assert(on_chain(h0.parent, x, c, k));
            lemma_above_trans(h0, r, c, x);
        }
        if newly(m0, m2, x) && !newly(m1, m2, x) {
            let j = choose|j: int| m0.len() <= j < m2.len() && m2[j] == x;
            assert(j < m1.len());
            assert(m2.take(m1.len() as int)[j] == m1[j]);
        }
    }
}
proof fn lemma_spaces_kept(h0: Heap, h: Heap, r: int, m0: Seq<int>, m: Seq<int>)
    requires spaces_ok(h0), lk(h0), marking(h0, h, r, m0, m)
    ensures spaces_ok(h)
{
    assert forall|x: int| #[trigger] space_ok(h, x) by {
        assert(space_ok(h0, x) && lk_node(h0, x) && marking_node(h0, h, r, m0, m, x));
        if newly(m0, m, x) { lemma_space_given(h0.attributes[x], XS_Default); lemma_space_given(h0.attributes[x], XS_Preserve); }
    }
}
proof fn lemma_inner_kept(h0: Heap, h: Heap)
    requires inner(h0), shape(h0, h)
    ensures inner(h)
{
    assert forall|x: int| #[trigger] inner_node(h, x) by { assert(inner_node(h0, x)); }
}
// no character but white space is lost, added or moved, and only texts change
pub open spec fn inked_node(h0: Heap, h: Heap, x: int) -> bool { ink(h.text[x]) == ink(h0.text[x]) && (h0.node_type[x] != NT_Text ==> h.text[x] == h0.text[x]) }
pub open spec fn inked(h0: Heap, h: Heap) -> bool { forall|x: int| #[trigger] inked_node(h0, h, x) }
proof fn lemma_trim_inked(h0: Heap, h: Heap, p: int, xs: int)
    requires trimmed(h0, h, p, xs)
    ensures inked(h0, h)
{
    assert forall|x: int| #[trigger] inked_node(h0, h, x) by {
        assert(trim_node(h0, h, p, xs, x));
        if h0.node_type[x] == NT_Text && above(h0, p, x) {
            lemma_pared_ink(normed_text(h0, xs, x), h.text[x]);
            lemma_norm_ink(h0.text[x], space_of(h0.attributes[h0.parent[x]->0], xs));
        }
    }
}
proof fn lemma_inked_trans(h0: Heap, g: Heap, h: Heap)
    requires inked(h0, g), inked(g, h), g.node_type == h0.node_type
    ensures inked(h0, h)
{
    assert forall|x: int| #[trigger] inked_node(h0, h, x) by { assert(inked_node(h0, g, x) && inked_node(g, h, x)); }
}
pub open spec fn starts_text(h: Heap, c: int) -> bool { h.kids[c].len() > 0 && h.node_type[h.kids[c][0]] == NT_Text }
pub open spec fn pared_node(h0: Heap, h: Heap, xs: int, x: int) -> bool { pared(normed_text(h0, xs, x), h.text[x]) }
pub open spec fn trimmed_below(h0: Heap, h: Heap, c: int, xs: int) -> bool { forall|x: int| h0.node_type[x] == NT_Text && #[trigger] above(h0, c, x) ==> pared_node(h0, h, xs, x) }
pub open spec fn sole_text(h0: Heap, h: Heap, c: int, xs: int, k: nat) -> bool {
    texts(h0, c, 0, k).len() == 1 ==> h.text[texts(h0, c, 0, k)[0].0] == sole(normed_text(h0, xs, texts(h0, c, 0, k)[0].0), xs)
}
pub open spec fn sole_rule(h0: Heap, h: Heap, c: int, xs: int) -> bool { forall|k: nat| #[trigger] deep(h0, c, k) ==> sole_text(h0, h, c, xs, k) }
// what happens to the texts below an element
pub open spec fn prep_kid(h0: Heap, h: Heap, c: int, xs: int, k: nat) -> bool
    decreases k, 1nat
{
    h0.node_type[c] == NT_Element ==> {
        let s = space_of(h0.attributes[c], xs);
        if starts_text(h0, c) { trimmed_below(h0, h, c, s) && sole_rule(h0, h, c, s) } else { prep(h0, h, c, s, k) }
    }
}
pub open spec fn prep(h0: Heap, h: Heap, p: int, xs: int, k: nat) -> bool
    decreases k, 0nat
{
    k > 0 && forall|i: int| 0 <= i < h0.kids[p].len() ==> prep_kid(h0, h, #[trigger] h0.kids[p][i], xs, (k - 1) as nat)
}
// n's strict descendants
pub open spec fn strictly(h: Heap, n: int, x: int) -> bool { above(h, n, x) && x != n }
proof fn lemma_strictly(h: Heap, n: int, i: int, x: int)
    requires wf(h), 0 <= i < h.kids[n].len(), above(h, h.kids[n][i], x)
    ensures strictly(h, n, x), h.parent[h.kids[n][i]] == Some(n)
{
    assert(wf_listed(h, n, i));
    lemma_not_own_parent(h, n, h.kids[n][i]);
    lemma_above_trans(h, n, h.kids[n][i], x);
}
proof fn lemma_same_above(g: Heap, h: Heap, a: int, x: int)
    requires g.parent == h.parent
    ensures above(g, a, x) == above(h, a, x)
{
    if above(g, a, x) { let k = choose|k: nat| on_chain(g.parent, x, a, k); assert(on_chain(h.parent, x, a, k)); }
    if above(h, a, x) { let k = choose|k: nat| on_chain(h.parent, x, a, k); assert(on_chain(g.parent, x, a, k)); }
}
pub open spec fn node_same(g: Heap, h: Heap, x: int) -> bool { h.text[x] == g.text[x] && h.attributes[x] == g.attributes[x] }
// prep_kid depends on what is below c only
proof fn lemma_done_move(g: Heap, g2: Heap, h: Heap, h2: Heap, c: int, s: int)
    requires wf(g), shape(g, g2), trimmed_below(g, h, c, s), sole_rule(g, h, c, s), g.node_type[c] == NT_Element,
        forall|x: int| #[trigger] strictly(g, c, x) ==> node_same(g, g2, x) && h2.text[x] == h.text[x],
        space_of(g.attributes[c], s) == space_of(g2.attributes[c], s),
    ensures trimmed_below(g2, h2, c, s), sole_rule(g2, h2, c, s)
{
    assert forall|x: int| g.node_type[x] == NT_Text && above(g, c, x) implies #[trigger] normed_text(g2, s, x) == normed_text(g, s, x) && h2.text[x] == h.text[x] by {
        assert(strictly(g, c, x));
        lemma_above_parent(g, c, x);
        let q = g.parent[x]->0;
        if q != c { assert(strictly(g, c, q)); }
    }
    assert forall|x: int| g2.node_type[x] == NT_Text && #[trigger] above(g2, c, x) implies pared_node(g2, h2, s, x) by {
        lemma_same_above(g, g2, c, x);
        assert(pared_node(g, h, s, x));
        assert(normed_text(g2, s, x) == normed_text(g, s, x));
    }
    assert forall|k: nat| #[trigger] deep(g2, c, k) implies sole_text(g2, h2, c, s, k) by {
        lemma_same_tour(g, g2, c, k);
        lemma_same_texts(g, g2, c, 0, k);
        assert(sole_text(g, h, c, s, k));
        lemma_texts(g, c, 0, k);
        if texts(g, c, 0, k).len() == 1 { let x = texts(g, c, 0, k)[0].0; assert(above(g, c, x)); assert(normed_text(g2, s, x) == normed_text(g, s, x)); }
    }
}
proof fn lemma_prep_kid_move(g: Heap, g2: Heap, h: Heap, h2: Heap, c: int, xs: int, k: nat)
    requires wf(g), shape(g, g2), prep_kid(g, h, c, xs, k), forall|x: int| #[trigger] above(g, c, x) ==> node_same(g, g2, x) && h2.text[x] == h.text[x]
    ensures prep_kid(g2, h2, c, xs, k)
    decreases k, 1nat
{
    lemma_above_self(g, c);
    assert(node_same(g, g2, c));
    if g.node_type[c] == NT_Element {
        let s = space_of(g.attributes[c], xs);
        if starts_text(g, c) { lemma_done_move(g, g2, h, h2, c, s); } else {
            assert forall|i: int, x: int| 0 <= i < g.kids[c].len() && #[trigger] above(g, g.kids[c][i], x) implies node_same(g, g2, x) && h2.text[x] == h.text[x] by { lemma_strictly(g, c, i, x); }
            lemma_prep_move(g, g2, h, h2, c, s, k);
        }
    }
}
proof fn lemma_prep_move(g: Heap, g2: Heap, h: Heap, h2: Heap, p: int, xs: int, k: nat)
    requires wf(g), shape(g, g2), prep(g, h, p, xs, k), forall|i: int, x: int| 0 <= i < g.kids[p].len() && #[trigger] above(g, g.kids[p][i], x) ==> node_same(g, g2, x) && h2.text[x] == h.text[x]
    ensures prep(g2, h2, p, xs, k)
    decreases k, 0nat
{
    assert forall|i: int| 0 <= i < g2.kids[p].len() implies prep_kid(g2, h2, #[trigger] g2.kids[p][i], xs, (k - 1) as nat) by {
        assert(prep_kid(g, h, g.kids[p][i], xs, (k - 1) as nat));
        lemma_prep_kid_move(g, g2, h, h2, g.kids[p][i], xs, (k - 1) as nat);
    }
}
// the first j children of p are done, nothing else is touched
pub open spec fn prep_part(h0: Heap, h: Heap, p: int, xs: int, k: nat, j: int) -> bool {
    &&& k > 0 && 0 <= j <= h0.kids[p].len()
    &&& forall|i: int| 0 <= i < j ==> prep_kid(h0, h, #[trigger] h0.kids[p][i], xs, (k - 1) as nat)
    &&& forall|x: int| !#[trigger] under_first(h0, p, j, x) ==> node_same(h0, h, x)
}
// only what is strictly below p is touched
pub open spec fn within(h0: Heap, h: Heap, p: int) -> bool { forall|x: int| !#[trigger] strictly(h0, p, x) ==> node_same(h0, h, x) }
// child number j: marked (g to g1), then its subtree is worked on (g1 to h)
proof fn lemma_prep_step(h0: Heap, g: Heap, g1: Heap, h: Heap, p: int, xs: int, k: nat, j0: int, j: int, s: int)
    requires
        wf(h0), lk(h0), deep(h0, p, k), prep_part(h0, g, p, xs, k, j0), 0 <= j0 <= j < h0.kids[p].len(), shape(h0, g), shape(h0, g1), shape(h0, h),
        forall|i: int| j0 <= i < j ==> h0.node_type[#[trigger] h0.kids[p][i]] != NT_Element,
        h0.node_type[h0.kids[p][j]] == NT_Element,
        s == space_of(h0.attributes[h0.kids[p][j]], xs), given_space(g1.attributes[h0.kids[p][j]]) == Some(s),
        forall|x: int| x != h0.kids[p][j] ==> node_same(g, g1, #[trigger] idx(x)), g1.text[h0.kids[p][j]] == g.text[h0.kids[p][j]],
        within(g1, h, h0.kids[p][j]),
        starts_text(h0, h0.kids[p][j]) ==> trimmed_below(g1, h, h0.kids[p][j], s) && sole_rule(g1, h, h0.kids[p][j], s),
        !starts_text(h0, h0.kids[p][j]) ==> prep(g1, h, h0.kids[p][j], s, (k - 1) as nat),
    ensures prep_part(h0, h, p, xs, k, j + 1)
{
    let c = h0.kids[p][j];
    lemma_shape_wf(h0, g1);
    assert(wf_listed(h0, p, j));
    lemma_above_self(h0, c);
    // the subtree of c is as it was
    assert forall|x: int| #[trigger] above(h0, c, x) implies node_same(h0, g, x) by { lemma_under_not(h0, p, j0, c, x); }
    assert forall|x: int| #[trigger] strictly(g1, c, x) implies node_same(g1, h0, x) by { lemma_same_above(h0, g1, c, x); assert(above(h0, c, x)); assert(node_same(g, g1, idx(x))); }
    if starts_text(h0, c) { lemma_done_move(g1, h0, h, h, c, s); } else {
        assert forall|i: int, x: int| 0 <= i < g1.kids[c].len() && #[trigger] above(g1, g1.kids[c][i], x) implies node_same(g1, h0, x) by { lemma_strictly(g1, c, i, x); }
        lemma_prep_move(g1, h0, h, h, c, s, (k - 1) as nat);
    }
    assert(prep_kid(h0, h, c, xs, (k - 1) as nat));
    // what is not below c did not change
    assert forall|x: int| !above(h0, c, x) implies node_same(g, h, #[trigger] idx(x)) by {
        lemma_same_above(h0, g1, c, x);
        assert(!strictly(g1, c, x));
        assert(node_same(g1, h, x));
        assert(node_same(g, g1, idx(x)));
    }
    assert forall|i: int| 0 <= i < j + 1 implies prep_kid(h0, h, #[trigger] h0.kids[p][i], xs, (k - 1) as nat) by {
        if i < j0 {
            let d = h0.kids[p][i];
            assert(wf_listed(h0, p, i));
            assert(prep_kid(h0, g, d, xs, (k - 1) as nat));
            assert forall|x: int| #[trigger] above(h0, d, x) implies h.text[x] == g.text[x] by { if above(h0, c, x) { lemma_siblings_disjoint(h0, p, c, d, x); } assert(node_same(g, h, idx(x))); }
            lemma_prep_kid_move(h0, h0, g, h, d, xs, (k - 1) as nat);
        }
    }
    assert forall|x: int| !#[trigger] under_first(h0, p, j + 1, x) implies node_same(h0, h, x) by {
        if under_first(h0, p, j0, x) { let i = choose|i: int| 0 <= i < j0 && #[trigger] above(h0, h0.kids[p][i], x); assert(above(h0, h0.kids[p][i], x)); }
        if above(h0, c, x) { assert(above(h0, h0.kids[p][j], x)); }
        assert(node_same(g, h, idx(x)));
    }
}
pub open spec fn idx(x: int) -> int { x }
proof fn lemma_prep_end(h0: Heap, g: Heap, p: int, xs: int, k: nat, j0: int)
    requires wf(h0), prep_part(h0, g, p, xs, k, j0), forall|i: int| j0 <= i < h0.kids[p].len() ==> h0.node_type[#[trigger] h0.kids[p][i]] != NT_Element
    ensures prep(h0, g, p, xs, k), within(h0, g, p)
{
    assert forall|i: int| 0 <= i < h0.kids[p].len() implies prep_kid(h0, g, #[trigger] h0.kids[p][i], xs, (k - 1) as nat) by { if i >= j0 { assert(h0.node_type[h0.kids[p][i]] != NT_Element); } }
    assert forall|x: int| !#[trigger] strictly(h0, p, x) implies node_same(h0, g, x) by {
        if under_first(h0, p, j0, x) { let i = choose|i: int| 0 <= i < j0 && #[trigger] above(h0, h0.kids[p][i], x); lemma_strictly(h0, p, i, x); }
    }
}
proof fn lemma_prep_start(h: Heap, p: int, xs: int, k: nat)
    requires k > 0
    ensures prep_part(h, h, p, xs, k, 0)
{}
// child number j of p got its xml:space (g to g1)
pub open spec fn kid_ready(h0: Heap, g: Heap, g1: Heap, p: int, xs: int, j: int, s: int) -> bool {
    let c = h0.kids[p][j];
    &&& shape(h0, g1) && wf(g1) && lk(g1) && spaces_ok(g1) && inner(g1) && above(h0, p, c)
    &&& given_space(g1.attributes[c]) == Some(s) && s == space_of(h0.attributes[c], xs)
    &&& forall|x: int| x != c ==> node_same(g, g1, #[trigger] idx(x))
    &&& g1.text == g.text
}
proof fn lemma_kid_marked(h0: Heap, g: Heap, g1: Heap, p: int, xs: int, k: nat, at: int, j: int, m0: Seq<int>, m1: Seq<int>, m2: Seq<int>, s: int)
    requires
        wf(h0), lk(h0), lk(g), lk(g1), inner(h0), spaces_ok(h0), deep(h0, p, k), k > 0, prep_part(h0, g, p, xs, k, at), at <= j < h0.kids[p].len(), h0.node_type[h0.kids[p][j]] == NT_Element,
        0 <= xs <= 1, marking(h0, g, p, m0, m1), shape(h0, g), s == space_of(g.attributes[h0.kids[p][j]], xs),
        given_space(g.attributes[h0.kids[p][j]]) is Some ==> g1 == g && m2 == m1,
        given_space(g.attributes[h0.kids[p][j]]) is None ==> set_to(g, g1, h0.kids[p][j], space_attr(xs)) && m2 == m1.push(h0.kids[p][j]),
    ensures kid_ready(h0, g, g1, p, xs, j, s), marking(h0, g1, p, m0, m2), deep(g1, h0.kids[p][j], (k - 1) as nat), inked(h0, g) ==> inked(h0, g1)
{
    let c = h0.kids[p][j];
    assert(wf_listed(h0, p, j));
    lemma_above_self(h0, p);
    lemma_above_self(h0, c);
    lemma_strictly(h0, p, j, c);
    lemma_under_not(h0, p, at, c, c);
    assert(node_same(h0, g, c));
    lemma_spaces_kept(h0, g, p, m0, m1);
    lemma_inner_kept(h0, g);
    assert(space_ok(g, c) && lk_node(g, c));
    assert(m1.take(m1.len() as int) =~= m1);
    assert forall|x: int| #[trigger] marked_node(g, g, c, m1, m1, xs, x) by {}
    lemma_shape_wf(h0, g);
    lemma_above_self(g, c);
    lemma_mark(g, g, g1, c, m1, m1, m2, xs, c);
    lemma_marked_marking(g, g1, c, m1, m2, xs);
    lemma_marking_trans(h0, g, g1, p, c, m0, m1, m2);
    lemma_spaces_kept(h0, g1, p, m0, m2);
    if given_space(g.attributes[c]) is None { lemma_space_given(g.attributes[c], xs); }
    lemma_shape_wf(h0, g1);
    lemma_inner_kept(h0, g1);
    assert(deep(h0, c, (k - 1) as nat));
    lemma_same_tour(h0, g1, c, (k - 1) as nat);
    if inked(h0, g) { assert forall|x: int| #[trigger] inked_node(h0, g1, x) by { assert(inked_node(h0, g, x)); } }
}
proof fn lemma_has_space(a: Seq<Attribute>)
    requires given_space(a) is Some
    ensures has_name(a, SPACE())
{}
proof fn lemma_kid_text(h0: Heap, g: Heap, g1: Heap, h: Heap, p: int, xs: int, k: nat, at: int, j: int, m0: Seq<int>, m2: Seq<int>, m3: Seq<int>, s: int)
    requires
        wf(h0), lk(h0), deep(h0, p, k), prep_part(h0, g, p, xs, k, at), 0 <= at <= j < h0.kids[p].len(), shape(h0, g), h0.node_type[h0.kids[p][j]] == NT_Element,
        forall|i: int| at <= i < j ==> h0.node_type[#[trigger] h0.kids[p][i]] != NT_Element,
        kid_ready(h0, g, g1, p, xs, j, s), marking(h0, g1, p, m0, m2), inked(h0, g1), starts_text(h0, h0.kids[p][j]), 0 <= s <= 1,
        shape(g1, h), trimmed(g1, h, h0.kids[p][j], s), marked(g1, h, h0.kids[p][j], m2, m3, s), sole_rule(g1, h, h0.kids[p][j], s),
    ensures shape(h0, h), prep_part(h0, h, p, xs, k, j + 1), marking(h0, h, p, m0, m3), inked(h0, h)
{
    let c = h0.kids[p][j];
    lemma_marked_marking(g1, h, c, m2, m3, s);
    lemma_marking_trans(h0, g1, h, p, c, m0, m2, m3);
    lemma_trim_inked(g1, h, c, s);
    lemma_inked_trans(h0, g1, h);
    lemma_has_space(g1.attributes[c]);
    assert forall|x: int| !#[trigger] strictly(g1, c, x) implies node_same(g1, h, x) by { assert(trim_node(g1, h, c, s, x) && marked_node(g1, h, c, m2, m3, s, x)); }
    assert forall|x: int| g1.node_type[x] == NT_Text && #[trigger] above(g1, c, x) implies pared_node(g1, h, s, x) by { assert(trim_node(g1, h, c, s, x)); }
    lemma_prep_step(h0, g, g1, h, p, xs, k, at, j, s);
}
proof fn lemma_kid_deeper(h0: Heap, g: Heap, g1: Heap, h: Heap, p: int, xs: int, k: nat, at: int, j: int, m0: Seq<int>, m2: Seq<int>, m3: Seq<int>, s: int)
    requires
        wf(h0), lk(h0), deep(h0, p, k), prep_part(h0, g, p, xs, k, at), 0 <= at <= j < h0.kids[p].len(), shape(h0, g), h0.node_type[h0.kids[p][j]] == NT_Element,
        forall|i: int| at <= i < j ==> h0.node_type[#[trigger] h0.kids[p][i]] != NT_Element,
        kid_ready(h0, g, g1, p, xs, j, s), marking(h0, g1, p, m0, m2), inked(h0, g1), !starts_text(h0, h0.kids[p][j]), 0 <= s <= 1,
        shape(g1, h), within(g1, h, h0.kids[p][j]), inked(g1, h), marking(g1, h, h0.kids[p][j], m2, m3), prep(g1, h, h0.kids[p][j], s, (k - 1) as nat),
    ensures shape(h0, h), prep_part(h0, h, p, xs, k, j + 1), marking(h0, h, p, m0, m3), inked(h0, h)
{
    let c = h0.kids[p][j];
    lemma_marking_trans(h0, g1, h, p, c, m0, m2, m3);
    lemma_inked_trans(h0, g1, h);
    lemma_prep_step(h0, g, g1, h, p, xs, k, at, j, s);
}
// children of p from at on, up to the next element
pub open spec fn next_elem(h: Heap, p: int, at: int, j: int) -> bool {
    at <= j < h.kids[p].len() && h.node_type[h.kids[p][j]] == NT_Element && forall|i: int| at <= i < j ==> h.node_type[#[trigger] h.kids[p][i]] != NT_Element
}
// ---------------------------------------------------------------- the marks go, then the empty texts
pub open spec fn listed_to(m: Seq<int>, i: int, x: int) -> bool { exists|j: int| 0 <= j < i && #[trigger] m[j] == x }
pub open spec fn unmarked_node(g: Heap, h: Heap, m: Seq<int>, i: int, x: int) -> bool {
    h.attributes[x] == if listed_to(m, i, x) { without(g.attributes[x], SPACE()) } else { g.attributes[x] }
}
pub open spec fn unmarking(g: Heap, h: Heap, m: Seq<int>, i: int) -> bool { rest_eq(h, g) && forall|x: int| #[trigger] unmarked_node(g, h, m, i, x) }
proof fn lemma_unmark_step(g: Heap, h1: Heap, h: Heap, m: Seq<int>, i: int)
    requires lk(g), unmarking(g, h1, m, i), 0 <= i < m.len(), unset(h1, h, m[i], SPACE())
    ensures unmarking(g, h, m, i + 1)
{
    assert forall|x: int| #[trigger] unmarked_node(g, h, m, i + 1, x) by {
        assert(unmarked_node(g, h1, m, i, x) && lk_node(g, x));
        if x == m[i] {
            assert(listed_to(m, i + 1, x));
            lemma_without(g.attributes[x], SPACE());
            lemma_without(without(g.attributes[x], SPACE()), SPACE());
        } else if listed_to(m, i, x) { let j = choose|j: int| 0 <= j < i && m[j] == x; assert(m[j] == x); assert(listed_to(m, i + 1, x)); }
        else if listed_to(m, i + 1, x) { let j = choose|j: int| 0 <= j < i + 1 && m[j] == x; assert(m[j] == x); }
    }
}
pub open spec fn text_ready(h0: Heap, g: Heap, r: int) -> bool {
    &&& shape(h0, g) && lk(g) && forall|x: int| #[trigger] g.attributes[x] == h0.attributes[x]
    &&& inked(h0, g) && within(h0, g, r)
    &&& forall|k: nat| #[trigger] deep(h0, r, k) ==> prep(h0, g, r, XS_Default, k)
}
proof fn lemma_prep_text_only(h0: Heap, g: Heap, h: Heap, p: int, xs: int, k: nat)
    requires wf(h0), prep(h0, g, p, xs, k), h.text == g.text
    ensures prep(h0, h, p, xs, k)
{
    assert(shape(h0, h0));
    lemma_prep_move(h0, h0, g, h, p, xs, k);
}
proof fn lemma_unmark_end(h0: Heap, g: Heap, h: Heap, r: int, m: Seq<int>)
    requires wf(h0), lk(h0), shape(h0, g), marking(h0, g, r, Seq::empty(), m), inked(h0, g), within(h0, g, r), forall|k: nat| #[trigger] deep(h0, r, k) ==> prep(h0, g, r, XS_Default, k),
        unmarking(g, h, m, m.len() as int), lk(h)
    ensures text_ready(h0, h, r)
{
    assert forall|x: int| #[trigger] h.attributes[x] == h0.attributes[x] by {
        assert(marking_node(h0, g, r, Seq::empty(), m, x) && unmarked_node(g, h, m, m.len() as int, x) && lk_node(h0, x));
        assert(newly(Seq::empty(), m, x) == listed_to(m, m.len() as int, x)) by {
            if newly(Seq::empty(), m, x) { let j = choose|j: int| 0 <= j < m.len() && m[j] == x; assert(m[j] == x); }
            if listed_to(m, m.len() as int, x) { let j = choose|j: int| 0 <= j < m.len() && m[j] == x; assert(m[j] == x); }
        }
        if listed_to(m, m.len() as int, x) {
            lemma_without_pushed(h0.attributes[x], space_attr(XS_Default));
            lemma_without_pushed(h0.attributes[x], space_attr(XS_Preserve));
        }
    }
    assert forall|x: int| #[trigger] inked_node(h0, h, x) by { assert(inked_node(h0, g, x)); }
    assert forall|k: nat| #[trigger] deep(h0, r, k) implies prep(h0, h, r, XS_Default, k) by { lemma_prep_text_only(h0, g, h, r, XS_Default, k); }
    assert forall|x: int| !#[trigger] strictly(h0, r, x) implies node_same(h0, h, x) by { assert(node_same(h0, g, x)); }
}
pub open spec fn empties(f: Pred) -> bool { forall|h: Heap, n: int| #[trigger] pred(f, h, n) == (h.node_type[n] == NT_Text && h.text[n].len() == 0) }
pub open spec fn text_done(h0: Heap, g: Heap, h: Heap, f: Pred, r: int) -> bool { text_ready(h0, g, r) && empties(f) && drained(g, h, f, r) }
proof fn lemma_shape_own(h0: Heap, h: Heap, d: SDocument)
    requires own(h0, d), shape(h0, h), belongs(h0, d, d.root)
    ensures own(h, d), keep_own(h0, d, h, d), belongs(h, d, d.root)
{
    lemma_own_same(h0, d, h, d);
    assert forall|x: int| #[trigger] above(h, d.root, x) implies own_node(h, d, x) by { lemma_same_above(h0, h, d.root, x); assert(own_node(h0, d, x)); }
}
proof fn lemma_without_pushed(a: Seq<Attribute>, b: Attribute)
    requires uniq(a), !has_name(a, b.name)
    ensures without(a.push(b), b.name) == a
{
    let s = a.push(b);
    assert(s[a.len() as int].name == b.name);
    lemma_at_name(s, b.name);
    let i = at_name(s, b.name);
    if i < a.len() { assert(a[i].name == b.name); }
    assert(without(s, b.name) =~= a);
}
