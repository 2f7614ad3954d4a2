// ---------------------------------------------------------------- filtered attribute lists
pub open spec fn flt(s: Seq<Attribute>, f: spec_fn(Attribute) -> bool) -> Seq<Attribute>
    decreases s.len()
{
    if s.len() == 0 { s } else if f(s.last()) { flt(s.drop_last(), f).push(s.last()) } else { flt(s.drop_last(), f) }
}
proof fn lemma_flt_eq(s: Seq<Attribute>, f: spec_fn(Attribute) -> bool, g: spec_fn(Attribute) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures flt(s, f) == flt(s, g)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies f(#[trigger] t[i]) == g(t[i]) by { assert(t[i] == s[i]); }
        lemma_flt_eq(t, f, g);
        assert(f(s[s.len() - 1]) == g(s[s.len() - 1]));
    }
}
proof fn lemma_flt_all(s: Seq<Attribute>, f: spec_fn(Attribute) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i])
    ensures flt(s, f) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies f(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lemma_flt_all(t, f);
        assert(f(s[s.len() - 1]));
        assert(t.push(s.last()) =~= s);
    }
}
proof fn lemma_flt_flt(s: Seq<Attribute>, f: spec_fn(Attribute) -> bool, g: spec_fn(Attribute) -> bool)
    ensures flt(flt(s, f), g) == flt(s, |a: Attribute| f(a) && g(a))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_flt_flt(s.drop_last(), f, g);
        let r = flt(s.drop_last(), f);
        if f(s.last()) { assert(r.push(s.last()).drop_last() =~= r); }
    }
}
proof fn lemma_flt_in(s: Seq<Attribute>, f: spec_fn(Attribute) -> bool)
    ensures forall|i: int| 0 <= i < flt(s, f).len() ==> f(#[trigger] flt(s, f)[i]) && s.contains(flt(s, f)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_flt_in(t, f);
        assert forall|i: int| 0 <= i < flt(s, f).len() implies f(#[trigger] flt(s, f)[i]) && s.contains(flt(s, f)[i]) by {
            if i < flt(t, f).len() {
                let a = flt(t, f)[i];
                assert(flt(s, f)[i] == a);
                assert(f(a) && t.contains(a));
                let j = choose|j: int| 0 <= j < t.len() && t[j] == a;
                assert(s[j] == a);
            } else {
                assert(s[s.len() - 1] == s.last());
            }
        }
    }
}
proof fn lemma_without_flt(s: Seq<Attribute>, n: QName)
    requires uniq(s)
    ensures without(s, n) == flt(s, |a: Attribute| a.name != n)
    decreases s.len()
{
    let f = |a: Attribute| a.name != n;
    lemma_at_name(s, n);
    if !has_name(s, n) {
        assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) by { assert(s[i].name != n); }
        lemma_flt_all(s, f);
    } else {
        let t = s.drop_last();
        let w = at_name(s, n);
        assert(uniq(t)) by {
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i].name != #[trigger] t[j].name by { assert(t[i] == s[i] && t[j] == s[j]); assert(s[i].name != s[j].name); }
        }
        lemma_without_flt(t, n);
        lemma_at_name(t, n);
        if w == s.len() - 1 {
            assert forall|i: int| 0 <= i < t.len() implies f(#[trigger] t[i]) by { assert(t[i] == s[i]); assert(s[i].name != n); }
            lemma_flt_all(t, f);
            assert(s.remove(w) =~= t);
        } else {
            assert(s[w].name != s[s.len() - 1].name);
            assert forall|i: int| 0 <= i < w implies #[trigger] t[i].name != n by { assert(t[i] == s[i]); }
            assert(t[w] == s[w]);
            assert(first_named(t, n, w));
            assert(s.remove(w) =~= t.remove(w).push(s.last()));
        }
    }
}
// what loops over an attribute list collect: the names of the links (to one node, or all)
pub open spec fn hits(a: Attribute, t: Option<int>) -> bool { match t { Some(n) => target(a.value) == Some(n), None => target(a.value) is Some } }
pub open spec fn in_upto(ids: Seq<QName>, i: int, n: QName) -> bool { exists|k: int| 0 <= k < i && k < ids.len() && #[trigger] ids[k] == n }
pub open spec fn names_in(ids: Seq<QName>, s: Seq<Attribute>, n: int, t: Option<int>) -> bool {
    &&& forall|j: int| 0 <= j < n ==> (hits(#[trigger] s[j], t) ==> in_upto(ids, ids.len() as int, s[j].name))
    &&& forall|k: int| 0 <= k < ids.len() ==> exists|j: int| 0 <= j < n && hits(#[trigger] s[j], t) && s[j].name == #[trigger] ids[k]
}
proof fn lemma_names_step(ids: Seq<QName>, ids2: Seq<QName>, s: Seq<Attribute>, n: int, t: Option<int>)
    requires names_in(ids, s, n, t), 0 <= n < s.len(), ids2 == (if hits(s[n], t) { ids.push(s[n].name) } else { ids })
    ensures names_in(ids2, s, n + 1, t)
{
    assert forall|j: int| 0 <= j < n + 1 implies (hits(#[trigger] s[j], t) ==> in_upto(ids2, ids2.len() as int, s[j].name)) by {
        if hits(s[j], t) {
            if j < n {
                assert(in_upto(ids, ids.len() as int, s[j].name));
                let k = choose|k: int| 0 <= k < ids.len() && k < ids.len() && #[trigger] ids[k] == s[j].name;
                assert(ids2[k] == s[j].name);
            } else {
                assert(ids2[ids.len() as int] == s[j].name);
            }
        }
    }
    assert forall|k: int| 0 <= k < ids2.len() implies exists|j: int| 0 <= j < n + 1 && hits(#[trigger] s[j], t) && s[j].name == #[trigger] ids2[k] by {
        if k < ids.len() {
            assert(ids2[k] == ids[k]);
            let j = choose|j: int| 0 <= j < n && hits(#[trigger] s[j], t) && s[j].name == ids[k];
            assert(hits(s[j], t) && s[j].name == ids2[k]);
        } else {
            assert(hits(s[n], t) && s[n].name == ids2[k]);
        }
    }
}
pub open spec fn not_in(ids: Seq<QName>, i: int) -> spec_fn(Attribute) -> bool { |a: Attribute| !in_upto(ids, i, a.name) }
pub open spec fn not_hit(t: Option<int>) -> spec_fn(Attribute) -> bool { |a: Attribute| !hits(a, t) }
proof fn lemma_drop_step(s: Seq<Attribute>, ids: Seq<QName>, i: int)
    requires uniq(flt(s, not_in(ids, i))), 0 <= i < ids.len()
    ensures without(flt(s, not_in(ids, i)), ids[i]) == flt(s, not_in(ids, i + 1))
{
    let f = not_in(ids, i);
    let n = ids[i];
    let g = |a: Attribute| a.name != n;
    lemma_without_flt(flt(s, f), n);
    lemma_flt_flt(s, f, g);
    let fg = |a: Attribute| f(a) && g(a);
    assert forall|j: int| 0 <= j < s.len() implies fg(#[trigger] s[j]) == not_in(ids, i + 1)(s[j]) by {
        if in_upto(ids, i + 1, s[j].name) {
            let k = choose|k: int| 0 <= k < i + 1 && k < ids.len() && #[trigger] ids[k] == s[j].name;
            if k < i { assert(in_upto(ids, i, s[j].name)); }
        }
        if in_upto(ids, i, s[j].name) {
            let k = choose|k: int| 0 <= k < i && k < ids.len() && #[trigger] ids[k] == s[j].name;
            assert(ids[k] == s[j].name);
        }
    }
    lemma_flt_eq(s, fg, not_in(ids, i + 1));
}
// dropping all collected names drops exactly the links
proof fn lemma_drop_end(s: Seq<Attribute>, ids: Seq<QName>, t: Option<int>)
    requires uniq(s), names_in(ids, s, s.len() as int, t)
    ensures flt(s, not_in(ids, ids.len() as int)) == flt(s, not_hit(t))
{
    assert forall|j: int| 0 <= j < s.len() implies not_in(ids, ids.len() as int)(#[trigger] s[j]) == not_hit(t)(s[j]) by {
        if in_upto(ids, ids.len() as int, s[j].name) {
            let k = choose|k: int| 0 <= k < ids.len() && k < ids.len() && #[trigger] ids[k] == s[j].name;
            let m = choose|m: int| 0 <= m < s.len() && hits(#[trigger] s[m], t) && s[m].name == ids[k];
            if m < j { assert(s[m].name != s[j].name); } else if j < m { assert(s[j].name != s[m].name); }
        }
    }
    lemma_flt_eq(s, not_in(ids, ids.len() as int), not_hit(t));
}
proof fn lemma_drop_start(s: Seq<Attribute>, ids: Seq<QName>)
    ensures flt(s, not_in(ids, 0)) == s
{
    assert forall|j: int| 0 <= j < s.len() implies not_in(ids, 0)(#[trigger] s[j]) by {}
    lemma_flt_all(s, not_in(ids, 0));
}
proof fn lemma_refs_flt(s: Seq<Attribute>, t: Option<int>, b: int)
    requires t is None || t == Some(b)
    ensures refs(flt(s, not_hit(t)), b) == 0
{
    let r = flt(s, not_hit(t));
    lemma_flt_in(s, not_hit(t));
    lemma_refs_exists(r, b);
    if refs(r, b) > 0 {
        let i = choose|i: int| 0 <= i < r.len() && target(#[trigger] r[i].value) == Some(b);
        assert(not_hit(t)(r[i]));
    }
}
proof fn lemma_refs_zero(s: Seq<Attribute>, b: int)
    requires refs(s, b) == 0
    ensures flt(s, not_hit(Some(b))) == s
{
    lemma_refs_exists(s, b);
    assert forall|i: int| 0 <= i < s.len() implies not_hit(Some(b))(#[trigger] s[i]) by { assert(target(s[i].value) != Some(b)); }
    lemma_flt_all(s, not_hit(Some(b)));
}
proof fn lemma_occ_empty(s: Seq<int>)
    requires forall|x: int| #[trigger] occ(s, x) == 0
    ensures s.len() == 0
{
    if s.len() > 0 { lemma_occ_exists(s, s[0]); assert(s[0] == s[0]); assert(occ(s, s[0]) == 0); }
}
pub open spec fn in_seq(s: Seq<int>, i: int, x: int) -> bool { exists|k: int| 0 <= k < i && k < s.len() && #[trigger] s[k] == x }

// ---------------------------------------------------------------- ownership
pub open spec fn own_node(h: Heap, d: SDocument, x: int) -> bool {
    h.storage_key[x] is Some ==> d.storage.contains_key(h.storage_key[x]->0) && d.storage[h.storage_key[x]->0] == x
}
pub open spec fn own_key(h: Heap, d: SDocument, k: int) -> bool { d.storage.contains_key(k) ==> h.storage_key[d.storage[k]] == Some(k) && h.allocated[d.storage[k]] }
// a stored node knows its place
pub open spec fn own(h: Heap, d: SDocument) -> bool { forall|k: int| #[trigger] own_key(h, d, k) }
// the subtree of r is not another document's
pub open spec fn belongs(h: Heap, d: SDocument, r: int) -> bool { forall|x: int| #[trigger] above(h, r, x) ==> own_node(h, d, x) }
pub open spec fn keep_own(g: Heap, d: SDocument, h: Heap, e: SDocument) -> bool { forall|x: int| own_node(g, d, x) ==> #[trigger] own_node(h, e, x) }
proof fn lemma_keep_trans(a: Heap, da: SDocument, b: Heap, db: SDocument, c: Heap, dc: SDocument)
    requires keep_own(a, da, b, db), keep_own(b, db, c, dc)
    ensures keep_own(a, da, c, dc)
{
    assert forall|x: int| own_node(a, da, x) implies #[trigger] own_node(c, dc, x) by { assert(own_node(b, db, x)); }
}
// what belongs to d still does
proof fn lemma_belongs(h0: Heap, d0: SDocument, h: Heap, d: SDocument, r: int, c: int)
    requires belongs(h0, d0, r), keep_own(h0, d0, h, d), forall|x: int| #[trigger] above(h, c, x) ==> above(h0, r, x)
    ensures belongs(h, d, c)
{
    assert forall|x: int| #[trigger] above(h, c, x) implies own_node(h, d, x) by { assert(above(h0, r, x)); assert(own_node(h0, d0, x)); }
}
pub open spec fn statics_eq(h: Heap, g: Heap) -> bool {
    h.node_type == g.node_type && h.tag_name == g.tag_name && h.id == g.id && h.text == g.text && h.allocated == g.allocated
}

// ---------------------------------------------------------------- removal of a subtree
pub open spec fn below(h: Heap, r: int) -> ISet<int> { ISet::new(|x: int| above(h, r, x)) }
pub open spec fn keeps(s: ISet<int>, x: int) -> spec_fn(Attribute) -> bool {
    |a: Attribute| if s.contains(x) { target(a.value) is None } else { target(a.value) is None || !s.contains(target(a.value)->0) }
}
// the nodes of s lose all their links, the others the links into s
pub open spec fn cut(h0: Heap, h: Heap, s: ISet<int>) -> bool {
    statics_eq(h, h0) && forall|x: int| #[trigger] h.attributes[x] == flt(h0.attributes[x], keeps(s, x))
}
pub open spec fn alone(h: Heap, x: int) -> bool { h.parent[x] is None && h.kids[x].len() == 0 && h.storage_key[x] is None }
pub open spec fn removed(h0: Heap, h: Heap, r: int) -> bool {
    let s = below(h0, r);
    &&& cut(h0, h, s)
    &&& forall|x: int| #![trigger h.parent[x]] #![trigger h.storage_key[x]] #![trigger h.kids[x]] if s.contains(x) { alone(h, x) } else {
            h.parent[x] == h0.parent[x] && h.storage_key[x] == h0.storage_key[x]
            && h.kids[x] == (if h0.parent[r] == Some(x) { h0.kids[x].remove(h0.pos[r]) } else { h0.kids[x] })
        }
}
pub open spec fn partly(h0: Heap, r: int, i: int) -> ISet<int> { ISet::new(|x: int| x == r || exists|j: int| 0 <= j < i && #[trigger] above(h0, h0.kids[r][j], x)) }
pub open spec fn part_removed(h0: Heap, h: Heap, r: int, i: int) -> bool {
    let s = partly(h0, r, i);
    &&& 0 <= i <= h0.kids[r].len() && h.kids[r] == h0.kids[r].skip(i)
    &&& cut(h0, h, s)
    &&& forall|x: int| #![trigger h.parent[x]] #![trigger h.storage_key[x]] #![trigger h.kids[x]]
            if s.contains(x) && x != r { alone(h, x) } else { h.parent[x] == h0.parent[x] && h.storage_key[x] == h0.storage_key[x] && (x != r ==> h.kids[x] == h0.kids[x]) }
}
proof fn lemma_cut_cut(h0: Heap, g: Heap, h: Heap, a: ISet<int>, b: ISet<int>, c: ISet<int>)
    requires cut(h0, g, a), cut(g, h, b), forall|x: int| #[trigger] c.contains(x) == (a.contains(x) || b.contains(x))
    ensures cut(h0, h, c)
{
    assert forall|x: int| #[trigger] h.attributes[x] == flt(h0.attributes[x], keeps(c, x)) by {
        let s = h0.attributes[x];
        let f = keeps(a, x);
        let k = keeps(b, x);
        assert(g.attributes[x] == flt(s, f));
        lemma_flt_flt(s, f, k);
        lemma_flt_eq(s, |t: Attribute| f(t) && k(t), keeps(c, x));
    }
}
// chains
proof fn lemma_chain_sub(a: IMap<int, Option<int>>, b: IMap<int, Option<int>>, n: int, c: int, k: nat)
    requires on_chain(a, n, c, k), forall|x: int| #![trigger a[x]] a[x] is Some ==> a[x] == b[x]
    ensures on_chain(b, n, c, k)
    decreases k
{
    if n != c { lemma_chain_sub(a, b, a[n]->0, c, (k - 1) as nat); }
}
proof fn lemma_chain_trans(a: IMap<int, Option<int>>, x: int, y: int, z: int, j: nat, k: nat)
    requires on_chain(a, x, y, j), on_chain(a, y, z, k)
    ensures on_chain(a, x, z, j + k)
    decreases j
{
    if x == y { lemma_chain_more(a, y, z, k, j + k); } else { lemma_chain_trans(a, a[x]->0, y, z, (j - 1) as nat, k); }
}
proof fn lemma_chain_more(a: IMap<int, Option<int>>, x: int, y: int, j: nat, k: nat)
    requires on_chain(a, x, y, j), j <= k
    ensures on_chain(a, x, y, k)
    decreases j
{
    if x != y { lemma_chain_more(a, a[x]->0, y, (j - 1) as nat, (k - 1) as nat); }
}
proof fn lemma_above_trans(h: Heap, z: int, y: int, x: int)
    requires above(h, z, y), above(h, y, x)
    ensures above(h, z, x)
{
    let k = choose|k: nat| on_chain(h.parent, y, z, k);
    let j = choose|j: nat| on_chain(h.parent, x, y, j);
    lemma_chain_trans(h.parent, x, y, z, j, k);
}
// of two ancestors one is above the other
proof fn lemma_chain_linear(a: IMap<int, Option<int>>, x: int, y: int, z: int, j: nat, k: nat)
    requires on_chain(a, x, y, j), on_chain(a, x, z, k)
    ensures on_chain(a, y, z, k) || on_chain(a, z, y, j)
    decreases j
{
    if x == y {
    } else if x == z {
    } else {
        lemma_chain_linear(a, a[x]->0, y, z, (j - 1) as nat, (k - 1) as nat);
        if on_chain(a, y, z, (k - 1) as nat) { lemma_chain_more(a, y, z, (k - 1) as nat, k); } else { lemma_chain_more(a, z, y, (j - 1) as nat, j); }
    }
}
proof fn lemma_above_self(h: Heap, x: int)
    ensures above(h, x, x)
{ assert(on_chain(h.parent, x, x, 0)); }
proof fn lemma_above_parent(h: Heap, c: int, x: int)
    requires above(h, c, x), x != c
    ensures h.parent[x] is Some, above(h, c, h.parent[x]->0)
{
    let k = choose|k: nat| on_chain(h.parent, x, c, k);
    assert(on_chain(h.parent, h.parent[x]->0, c, (k - 1) as nat));
}
proof fn lemma_above_child(h: Heap, c: int, x: int)
    requires h.parent[x] is Some, above(h, c, h.parent[x]->0)
    ensures above(h, c, x)
{
    let k = choose|k: nat| on_chain(h.parent, h.parent[x]->0, c, k);
    assert(on_chain(h.parent, x, c, k + 1));
}
// mutual ancestors are equal
proof fn lemma_antisym(h: Heap, a: int, b: int)
    requires wf(h), above(h, a, b), above(h, b, a)
    ensures a == b
{
    if a != b {
        lemma_above_parent(h, a, b);
        let p = h.parent[b]->0;
        lemma_above_trans(h, b, a, p);
        lemma_no_cycle(h, b);
        let k = choose|k: nat| on_chain(h.parent, p, b, k);
        assert(!on_chain(h.parent, p, b, k));
    }
}
// different children of one node have disjoint subtrees
proof fn lemma_siblings_disjoint(h: Heap, r: int, a: int, b: int, x: int)
    requires wf(h), h.parent[a] == Some(r), h.parent[b] == Some(r), above(h, a, x), above(h, b, x)
    ensures a == b
{
    let j = choose|j: nat| on_chain(h.parent, x, a, j);
    let k = choose|k: nat| on_chain(h.parent, x, b, k);
    lemma_chain_linear(h.parent, x, a, b, j, k);
    lemma_above_self(h, r);
    lemma_above_child(h, r, a);
    lemma_above_child(h, r, b);
    if above(h, b, a) {
        if a != b { lemma_above_parent(h, b, a); lemma_antisym(h, b, r); lemma_near(h, b); }
    } else {
        assert(above(h, a, b));
        if a != b { lemma_above_parent(h, a, b); lemma_antisym(h, a, r); lemma_near(h, a); }
    }
}
// x is below r: it is r or below one of r's children
proof fn lemma_below_cases(h: Heap, r: int, x: int, k: nat)
    requires wf(h), on_chain(h.parent, x, r, k)
    ensures x == r || exists|j: int| 0 <= j < h.kids[r].len() && #[trigger] above(h, h.kids[r][j], x)
    decreases k
{
    if x != r {
        let p = h.parent[x]->0;
        lemma_below_cases(h, r, p, (k - 1) as nat);
        if p == r {
            assert(wf_child(h, x));
            lemma_above_self(h, x);
            assert(above(h, h.kids[r][h.pos[x]], x));
        } else {
            let j = choose|j: int| 0 <= j < h.kids[r].len() && #[trigger] above(h, h.kids[r][j], p);
            lemma_above_child(h, h.kids[r][j], x);
            assert(above(h, h.kids[r][j], x));
        }
    }
}
proof fn lemma_partly_all(h: Heap, r: int)
    requires wf(h)
    ensures forall|x: int| #[trigger] below(h, r).contains(x) == partly(h, r, h.kids[r].len() as int).contains(x)
{
    assert forall|x: int| #[trigger] below(h, r).contains(x) == partly(h, r, h.kids[r].len() as int).contains(x) by {
        lemma_above_self(h, r);
        if above(h, r, x) {
            let k = choose|k: nat| on_chain(h.parent, x, r, k);
            lemma_below_cases(h, r, x, k);
        }
        if exists|j: int| 0 <= j < h.kids[r].len() && #[trigger] above(h, h.kids[r][j], x) {
            let j = choose|j: int| 0 <= j < h.kids[r].len() && #[trigger] above(h, h.kids[r][j], x);
            assert(wf_listed(h, r, j));
            lemma_above_child(h, r, h.kids[r][j]);
            lemma_above_trans(h, r, h.kids[r][j], x);
        }
    }
}
// while r's children go one by one, the subtree of the next one is still what it was
proof fn lemma_below_same(h0: Heap, g: Heap, r: int, i: int, x: int)
    requires wf(h0), wf(g), part_removed(h0, g, r, i), i < h0.kids[r].len()
    ensures above(g, h0.kids[r][i], x) == above(h0, h0.kids[r][i], x)
{
    let c = h0.kids[r][i];
    let s = partly(h0, r, i);
    assert(forall|y: int| #![trigger g.parent[y]] g.parent[y] is Some ==> g.parent[y] == h0.parent[y]);
    assert(wf_listed(h0, r, i));
    if above(g, c, x) {
        let k = choose|k: nat| on_chain(g.parent, x, c, k);
        lemma_chain_sub(g.parent, h0.parent, x, c, k);
    }
    if above(h0, c, x) {
        let k = choose|k: nat| on_chain(h0.parent, x, c, k);
        lemma_below_up(h0, g, r, i, x, k);
    }
}
proof fn lemma_below_up(h0: Heap, g: Heap, r: int, i: int, x: int, k: nat)
    requires wf(h0), wf(g), part_removed(h0, g, r, i), i < h0.kids[r].len(), on_chain(h0.parent, x, h0.kids[r][i], k)
    ensures above(g, h0.kids[r][i], x), !partly(h0, r, i).contains(x)
    decreases k
{
    let c = h0.kids[r][i];
    let s = partly(h0, r, i);
    assert(above(h0, c, x));
    assert(wf_listed(h0, r, i));
    if s.contains(x) {
        if x == r {
            lemma_above_self(h0, r);
            lemma_above_child(h0, r, c);
            lemma_antisym(h0, r, c);
            lemma_near(h0, c);
        } else {
            let j = choose|j: int| 0 <= j < i && #[trigger] above(h0, h0.kids[r][j], x);
            assert(wf_listed(h0, r, j));
            lemma_siblings_disjoint(h0, r, c, h0.kids[r][j], x);
        }
    }
    if x == c {
        lemma_above_self(g, c);
    } else {
        lemma_below_up(h0, g, r, i, h0.parent[x]->0, (k - 1) as nat);
        assert(g.parent[x] == h0.parent[x]);
        lemma_above_child(g, c, x);
    }
}
proof fn lemma_remove_child(h0: Heap, g: Heap, h: Heap, r: int, i: int)
    requires wf(h0), wf(g), wf(h), part_removed(h0, g, r, i), i < h0.kids[r].len(), removed(g, h, h0.kids[r][i])
    ensures part_removed(h0, h, r, i + 1), g.kids[r][0] == h0.kids[r][i]
{
    let c = h0.kids[r][i];
    let s = partly(h0, r, i);
    let t = partly(h0, r, i + 1);
    let b = below(g, c);
    assert(g.kids[r][0] == c);
    assert(wf_listed(g, r, 0));
    assert(wf_listed(h0, r, i));
    lemma_above_self(h0, c);
    assert forall|x: int| #[trigger] t.contains(x) == (s.contains(x) || b.contains(x)) by {
        lemma_below_same(h0, g, r, i, x);
        if t.contains(x) && x != r {
            let j = choose|j: int| 0 <= j < i + 1 && #[trigger] above(h0, h0.kids[r][j], x);
            if j < i { assert(s.contains(x)); }
        }
        if s.contains(x) && x != r {
            let j = choose|j: int| 0 <= j < i && #[trigger] above(h0, h0.kids[r][j], x);
            assert(0 <= j < i + 1 && above(h0, h0.kids[r][j], x));
        }
        if b.contains(x) { assert(above(h0, h0.kids[r][i], x)); }
    }
    lemma_cut_cut(h0, g, h, s, b, t);
    assert(!b.contains(r)) by {
        lemma_below_same(h0, g, r, i, r);
        if above(h0, c, r) { lemma_above_self(h0, r); lemma_above_child(h0, r, c); lemma_antisym(h0, r, c); lemma_near(h0, c); }
    }
    assert(g.kids[r].remove(0) =~= h0.kids[r].skip(i + 1));
    assert(h.parent[r] == g.parent[r]);
    assert forall|x: int| #![trigger h.parent[x]] #![trigger h.storage_key[x]] #![trigger h.kids[x]]
            if t.contains(x) && x != r { alone(h, x) } else { h.parent[x] == h0.parent[x] && h.storage_key[x] == h0.storage_key[x] && (x != r ==> h.kids[x] == h0.kids[x]) } by {
        assert(t.contains(x) == (s.contains(x) || b.contains(x)));
        assert(g.parent[x] == g.parent[x]);
        assert(h.parent[x] == h.parent[x]);
    }
}
// the children not yet visited when every visited one was removed
pub open spec fn ch_left(h: Heap, it: SChildren, r: int) -> bool {
    if h.kids[r].len() > 0 { ch_ok(h, it, r, 0, h.kids[r].len() as int) } else { it.next is None }
}
pub open spec fn only(r: int) -> ISet<int> { ISet::new(|x: int| x == r) }
// some of the listed nodes have lost their links to b
pub open spec fn unlinked_some(h0: Heap, h: Heap, l: Seq<int>, i: int, b: int) -> bool {
    rest_eq(h, h0) && forall|x: int| #[trigger] h.attributes[x] == (if in_seq(l, i, x) { flt(h0.attributes[x], not_hit(Some(b))) } else { h0.attributes[x] })
}
// one node has lost some attributes
pub open spec fn dropped(h0: Heap, h: Heap, n: int, ids: Seq<QName>, i: int) -> bool {
    rest_eq(h, h0) && forall|x: int| #[trigger] h.attributes[x] == (if x == n { flt(h0.attributes[n], not_in(ids, i)) } else { h0.attributes[x] })
}
pub open spec fn unlinked_one(h0: Heap, h: Heap, n: int, t: Option<int>) -> bool {
    rest_eq(h, h0) && forall|x: int| #[trigger] h.attributes[x] == (if x == n { flt(h0.attributes[n], not_hit(t)) } else { h0.attributes[x] })
}
proof fn lemma_dropped_step(h0: Heap, g: Heap, h: Heap, n: int, ids: Seq<QName>, i: int)
    requires dropped(h0, g, n, ids, i), lk(g), unset(g, h, n, ids[i]), 0 <= i < ids.len()
    ensures dropped(h0, h, n, ids, i + 1)
{
    assert(lk_node(g, n));
    assert(g.attributes[n] == flt(h0.attributes[n], not_in(ids, i)));
    lemma_drop_step(h0.attributes[n], ids, i);
}
proof fn lemma_dropped_end(h0: Heap, h: Heap, n: int, ids: Seq<QName>, t: Option<int>)
    requires lk(h0), dropped(h0, h, n, ids, ids.len() as int), names_in(ids, h0.attributes[n], h0.attributes[n].len() as int, t)
    ensures unlinked_one(h0, h, n, t)
{
    assert(lk_node(h0, n));
    lemma_drop_end(h0.attributes[n], ids, t);
}
proof fn lemma_unlinked_step(h0: Heap, g: Heap, h: Heap, l: Seq<int>, i: int, b: int)
    requires unlinked_some(h0, g, l, i, b), 0 <= i < l.len(), unlinked_one(g, h, l[i], Some(b))
    ensures unlinked_some(h0, h, l, i + 1, b)
{
    let n = l[i];
    assert forall|x: int| #[trigger] h.attributes[x] == (if in_seq(l, i + 1, x) { flt(h0.attributes[x], not_hit(Some(b))) } else { h0.attributes[x] }) by {
        assert(g.attributes[x] == (if in_seq(l, i, x) { flt(h0.attributes[x], not_hit(Some(b))) } else { h0.attributes[x] }));
        if x == n {
            assert(l[i] == x);
            assert(in_seq(l, i + 1, x));
            if in_seq(l, i, x) {
                lemma_refs_flt(h0.attributes[x], Some(b), b);
                lemma_refs_zero(g.attributes[x], b);
            }
        } else if in_seq(l, i + 1, x) {
            let k = choose|k: int| 0 <= k < i + 1 && k < l.len() && #[trigger] l[k] == x;
            assert(0 <= k < i && l[k] == x);
        } else if in_seq(l, i, x) {
            let k = choose|k: int| 0 <= k < i && k < l.len() && #[trigger] l[k] == x;
            assert(l[k] == x);
        }
    }
}
proof fn lemma_unlinked_end(h0: Heap, g: Heap, h: Heap, r: int)
    requires lk(g), unlinked_one(h0, g, r, None), unlinked_some(g, h, g.linked_nodes[r], g.linked_nodes[r].len() as int, r)
    ensures cut(h0, h, only(r)), rest_eq(h, h0)
{
    let l = g.linked_nodes[r];
    assert forall|x: int| #[trigger] h.attributes[x] == flt(h0.attributes[x], keeps(only(r), x)) by {
        let s = g.attributes[x];
        lemma_occ_exists(l, x);
        assert(lk_pair(g, x, r));
        if refs(s, r) == 0 {
            lemma_refs_zero(s, r);
        } else {
            let k = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == x;
            assert(in_seq(l, l.len() as int, x));
        }
        assert(h.attributes[x] == flt(s, not_hit(Some(r))));
        if x == r {
            assert(s == flt(h0.attributes[x], not_hit(None)));
            lemma_refs_flt(h0.attributes[x], None, r);
            lemma_refs_zero(s, r);
            lemma_flt_eq(h0.attributes[x], not_hit(None), keeps(only(r), x));
        } else {
            assert(s == h0.attributes[x]);
            lemma_flt_eq(s, not_hit(Some(r)), keeps(only(r), x));
        }
    }
}
proof fn lemma_part_start(h0: Heap, h: Heap, r: int)
    requires wf(h0), cut(h0, h, only(r)), rest_eq(h, h0)
    ensures part_removed(h0, h, r, 0), wf(h)
{
    let s = partly(h0, r, 0);
    assert forall|x: int| #[trigger] h.attributes[x] == flt(h0.attributes[x], keeps(s, x)) by {
        assert(h.attributes[x] == flt(h0.attributes[x], keeps(only(r), x)));
        assert forall|y: int| s.contains(y) == only(r).contains(y) by {}
        assert(s =~= only(r));
    }
    assert(h0.kids[r].skip(0) =~= h0.kids[r]);
    lemma_same_tree_wf(h, h0);
}
proof fn lemma_remove_end(h0: Heap, g: Heap, h: Heap, r: int)
    requires wf(h0), wf(g), part_removed(h0, g, r, h0.kids[r].len() as int), same_tree(h, post_detach(g, r)), statics_eq(h, g), h.attributes == g.attributes,
        forall|x: int| #[trigger] h.storage_key[x] == (if x == r { None } else { g.storage_key[x] })
    ensures removed(h0, h, r), wf(h)
{
    lemma_detach(g, r);
    lemma_same_tree_wf(h, post_detach(g, r));
    let s = below(h0, r);
    let t = partly(h0, r, h0.kids[r].len() as int);
    lemma_partly_all(h0, r);
    assert forall|x: int| s.contains(x) == t.contains(x) by {}
    assert(s =~= t);
    lemma_above_self(h0, r);
    assert(wf_child(h0, r));
    assert(wf_child(g, r));
    if h0.parent[r] is Some {
        let p = h0.parent[r]->0;
        assert(!s.contains(p)) by { if above(h0, r, p) { lemma_above_child(h0, p, r); lemma_above_self(h0, p); lemma_above_child(h0, p, r); lemma_antisym(h0, r, p); lemma_near(h0, r); } }
        assert(g.parent[r] == h0.parent[r]);
        assert(g.parent[p] == h0.parent[p]);
        assert(g.kids[p] == h0.kids[p]);
        assert(wf_listed(g, p, h0.pos[r]));
        assert(g.pos[r] == h0.pos[r]);
    } else {
        assert(g.parent[r] == h0.parent[r]);
    }
    assert forall|x: int| #![trigger h.parent[x]] #![trigger h.storage_key[x]] #![trigger h.kids[x]] if s.contains(x) { alone(h, x) } else {
            h.parent[x] == h0.parent[x] && h.storage_key[x] == h0.storage_key[x]
            && h.kids[x] == (if h0.parent[r] == Some(x) { h0.kids[x].remove(h0.pos[r]) } else { h0.kids[x] })
        } by {
        assert(g.parent[x] == g.parent[x]);
        assert(h.parent[x] == post_detach(g, r).parent[x]);
        assert(h.storage_key[x] == h.storage_key[x]);
    }
}
proof fn lemma_own_end(g: Heap, d: SDocument, h: Heap, e: SDocument, r: int)
    requires own(g, d), own_node(g, d, r), forall|x: int| #[trigger] h.storage_key[x] == (if x == r { None } else { g.storage_key[x] }), h.allocated == g.allocated,
        e.storage == (if g.storage_key[r] is Some { d.storage.remove(g.storage_key[r]->0) } else { d.storage })
    ensures own(h, e), keep_own(g, d, h, e)
{
    assert forall|x: int| own_node(g, d, x) implies #[trigger] own_node(h, e, x) by { assert(h.storage_key[x] == h.storage_key[x]); }
    assert forall|k: int| #[trigger] own_key(h, e, k) by { assert(own_key(g, d, k)); if e.storage.contains_key(k) { assert(h.storage_key[d.storage[k]] == g.storage_key[d.storage[k]]); } }
}
proof fn lemma_rest_wf(g: Heap, h: Heap)
    requires wf(g), rest_eq(h, g)
    ensures wf(h)
{ lemma_same_tree_wf(h, g); }
proof fn lemma_own_same(g: Heap, d: SDocument, h: Heap, e: SDocument)
    requires own(g, d), h.storage_key == g.storage_key, h.allocated == g.allocated, e.storage == d.storage
    ensures own(h, e), keep_own(g, d, h, e)
{
    assert forall|x: int| own_node(g, d, x) implies #[trigger] own_node(h, e, x) by {}
    assert forall|k: int| #[trigger] own_key(h, e, k) by { assert(own_key(g, d, k)); }
}
proof fn lemma_lk_same(g: Heap, h: Heap)
    requires lk(g), h.attributes == g.attributes, h.linked_nodes == g.linked_nodes
    ensures lk(h)
{
    assert forall|a: int, b: int| #[trigger] lk_pair(h, a, b) by { assert(lk_pair(g, a, b)); }
    assert forall|a: int| #[trigger] lk_node(h, a) by { assert(lk_node(g, a)); }
}
// C09: nothing refers into the removed subtree, and it refers nowhere
pub open spec fn gone(h0: Heap, h: Heap, r: int) -> bool {
    forall|x: int, y: int| #![trigger refs(h.attributes[y], x)] #![trigger occ(h.linked_nodes[y], x)] above(h0, r, x) ==>
        refs(h.attributes[y], x) == 0 && refs(h.attributes[x], y) == 0 && occ(h.linked_nodes[y], x) == 0 && h.linked_nodes[x].len() == 0
}
proof fn lemma_gone(h0: Heap, h: Heap, r: int)
    requires removed(h0, h, r), lk(h)
    ensures gone(h0, h, r)
{
    let s = below(h0, r);
    assert forall|x: int, y: int| s.contains(x) implies #[trigger] refs(h.attributes[y], x) == 0 && refs(h.attributes[x], y) == 0 by {
        lemma_no_refs(h0.attributes[y], keeps(s, y), x);
        lemma_no_refs(h0.attributes[x], keeps(s, x), y);
        assert(h.attributes[y] == flt(h0.attributes[y], keeps(s, y)));
        assert(h.attributes[x] == flt(h0.attributes[x], keeps(s, x)));
    }
    assert forall|x: int, y: int| #![trigger refs(h.attributes[y], x)] #![trigger occ(h.linked_nodes[y], x)] above(h0, r, x) implies
        refs(h.attributes[y], x) == 0 && refs(h.attributes[x], y) == 0 && occ(h.linked_nodes[y], x) == 0 && h.linked_nodes[x].len() == 0 by {
        assert(s.contains(x));
        assert(refs(h.attributes[y], x) == 0);
        assert(lk_pair(h, x, y));
        assert(occ(h.linked_nodes[y], x) == 0);
        assert forall|z: int| #[trigger] occ(h.linked_nodes[x], z) == 0 by { assert(lk_pair(h, z, x)); assert(refs(h.attributes[z], x) == 0); }
        lemma_occ_empty(h.linked_nodes[x]);
    }
}
proof fn lemma_no_refs(s: Seq<Attribute>, f: spec_fn(Attribute) -> bool, b: int)
    requires forall|a: Attribute| target(a.value) == Some(b) ==> !#[trigger] f(a)
    ensures refs(flt(s, f), b) == 0
{
    let r = flt(s, f);
    lemma_flt_in(s, f);
    lemma_refs_exists(r, b);
    if refs(r, b) > 0 {
        let i = choose|i: int| 0 <= i < r.len() && target(#[trigger] r[i].value) == Some(b);
        assert(f(r[i]));
    }
}

// ---------------------------------------------------------------- draining
pub open spec fn sel(s: Seq<int>, f: spec_fn(int) -> bool) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { s } else if f(s.last()) { sel(s.drop_last(), f).push(s.last()) } else { sel(s.drop_last(), f) }
}
proof fn lemma_sel_eq(s: Seq<int>, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures sel(s, f) == sel(s, g)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies f(#[trigger] t[i]) == g(t[i]) by { assert(t[i] == s[i]); }
        lemma_sel_eq(t, f, g);
        assert(f(s[s.len() - 1]) == g(s[s.len() - 1]));
    }
}
proof fn lemma_sel_all(s: Seq<int>, f: spec_fn(int) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i])
    ensures sel(s, f) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies f(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lemma_sel_all(t, f);
        assert(f(s[s.len() - 1]));
        assert(t.push(s.last()) =~= s);
    }
}
proof fn lemma_sel_sel(s: Seq<int>, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool)
    ensures sel(sel(s, f), g) == sel(s, |a: int| f(a) && g(a))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_sel_sel(s.drop_last(), f, g);
        let r = sel(s.drop_last(), f);
        if f(s.last()) { assert(r.push(s.last()).drop_last() =~= r); }
    }
}
proof fn lemma_sel_in(s: Seq<int>, f: spec_fn(int) -> bool)
    ensures forall|i: int| 0 <= i < sel(s, f).len() ==> f(#[trigger] sel(s, f)[i]) && s.contains(sel(s, f)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_sel_in(t, f);
        assert forall|i: int| 0 <= i < sel(s, f).len() implies f(#[trigger] sel(s, f)[i]) && s.contains(sel(s, f)[i]) by {
            if i < sel(t, f).len() {
                let a = sel(t, f)[i];
                assert(sel(s, f)[i] == a);
                assert(f(a) && t.contains(a));
                let j = choose|j: int| 0 <= j < t.len() && t[j] == a;
                assert(s[j] == a);
            } else {
                assert(s[s.len() - 1] == s.last());
            }
        }
    }
}
// the answer of the predicate for a node does not depend on the state of the tree
pub open spec fn stable(f: Pred) -> bool { forall|h: Heap, g: Heap, n: int| statics_eq(h, g) ==> #[trigger] pred(f, h, n) == #[trigger] pred(f, g, n) }
// x lies in a matching subtree strictly below r
pub open spec fn hit(h: Heap, f: Pred, r: int, x: int) -> bool { exists|t: int| #![trigger above(h, t, x)] above(h, r, t) && t != r && pred(f, h, t) && above(h, t, x) }
pub open spec fn hit_set(h: Heap, f: Pred, r: int) -> ISet<int> { ISet::new(|x: int| hit(h, f, r, x)) }
pub open spec fn under_first(h: Heap, r: int, i: int, x: int) -> bool { exists|j: int| 0 <= j < i && #[trigger] above(h, h.kids[r][j], x) }
pub open spec fn hit_part(h: Heap, f: Pred, r: int, i: int) -> ISet<int> { ISet::new(|x: int| under_first(h, r, i, x) && hit(h, f, r, x)) }
pub open spec fn outside(s: ISet<int>) -> spec_fn(int) -> bool { |x: int| !s.contains(x) }
pub open spec fn drained_by(h0: Heap, h: Heap, s: ISet<int>) -> bool {
    &&& cut(h0, h, s)
    &&& forall|x: int| #![trigger h.parent[x]] #![trigger h.storage_key[x]] #![trigger h.kids[x]]
            if s.contains(x) { alone(h, x) } else { h.parent[x] == h0.parent[x] && h.storage_key[x] == h0.storage_key[x] && h.kids[x] == sel(h0.kids[x], outside(s)) }
}
pub open spec fn drained(h0: Heap, h: Heap, f: Pred, r: int) -> bool { drained_by(h0, h, hit_set(h0, f, r)) }
// how many topmost matching nodes there are below r; k levels are enough
pub open spec fn tops(h: Heap, f: Pred, r: int, k: nat) -> int
    decreases k, 0nat
{
    if k == 0 { 0 } else { tops_upto(h, f, r, h.kids[r].len(), (k - 1) as nat) }
}
pub open spec fn tops_upto(h: Heap, f: Pred, r: int, i: nat, k: nat) -> int
    decreases k, i + 1
{
    if i == 0 { 0 } else {
        let c = h.kids[r][i - 1];
        tops_upto(h, f, r, (i - 1) as nat, k) + (if pred(f, h, c) { 1 } else { tops(h, f, c, k) })
    }
}
// g's parents are h's, where they exist, and nothing below c has moved
pub open spec fn same_under(h: Heap, g: Heap, c: int) -> bool {
    &&& statics_eq(g, h)
    &&& forall|y: int| #![trigger g.parent[y]] g.parent[y] is Some ==> g.parent[y] == h.parent[y]
    &&& forall|y: int| #![trigger g.kids[y]] above(h, c, y) ==> g.kids[y] == h.kids[y] && g.parent[y] == h.parent[y]
}
proof fn lemma_same_under(h: Heap, g: Heap, c: int, t: int, x: int)
    requires same_under(h, g, c), above(h, c, t)
    ensures above(g, t, x) == above(h, t, x)
{
    if above(g, t, x) {
        let k = choose|k: nat| on_chain(g.parent, x, t, k);
        lemma_chain_sub(g.parent, h.parent, x, t, k);
    }
    if above(h, t, x) {
        let k = choose|k: nat| on_chain(h.parent, x, t, k);
        lemma_same_under_up(h, g, c, t, x, k);
    }
}
proof fn lemma_same_under_up(h: Heap, g: Heap, c: int, t: int, x: int, k: nat)
    requires same_under(h, g, c), above(h, c, t), on_chain(h.parent, x, t, k)
    ensures on_chain(g.parent, x, t, k)
    decreases k
{
    if x != t {
        assert(above(h, t, x));
        lemma_above_trans(h, c, t, x);
        assert(g.kids[x] == h.kids[x]);
        lemma_same_under_up(h, g, c, t, h.parent[x]->0, (k - 1) as nat);
    }
}
proof fn lemma_same_hits(h: Heap, g: Heap, f: Pred, c: int)
    requires same_under(h, g, c), stable(f)
    ensures hit_set(g, f, c) == hit_set(h, f, c), below(g, c) == below(h, c)
{
    lemma_above_self(h, c);
    assert forall|x: int| #[trigger] below(g, c).contains(x) == below(h, c).contains(x) by { lemma_same_under(h, g, c, c, x); }
    assert(below(g, c) =~= below(h, c));
    assert forall|x: int| #[trigger] hit_set(g, f, c).contains(x) == hit_set(h, f, c).contains(x) by {
        if hit(h, f, c, x) {
            let t = choose|t: int| #![trigger above(h, t, x)] above(h, c, t) && t != c && pred(f, h, t) && above(h, t, x);
            lemma_same_under(h, g, c, c, t);
            lemma_same_under(h, g, c, t, x);
            assert(pred(f, g, t) == pred(f, h, t));
            assert(above(g, t, x));
        }
        if hit(g, f, c, x) {
            let t = choose|t: int| #![trigger above(g, t, x)] above(g, c, t) && t != c && pred(f, g, t) && above(g, t, x);
            lemma_same_under(h, g, c, c, t);
            lemma_same_under(h, g, c, t, x);
            assert(pred(f, g, t) == pred(f, h, t));
            assert(above(h, t, x));
        }
    }
    assert(hit_set(g, f, c) =~= hit_set(h, f, c));
}
proof fn lemma_same_tops(h: Heap, g: Heap, f: Pred, c: int, n: int, k: nat)
    requires same_under(h, g, c), stable(f), wf(h), above(h, c, n)
    ensures tops(g, f, n, k) == tops(h, f, n, k)
    decreases k, 0nat
{
    if k > 0 {
        assert(g.kids[n] == h.kids[n]);
        lemma_same_tops_upto(h, g, f, c, n, h.kids[n].len(), (k - 1) as nat);
    }
}
proof fn lemma_same_tops_upto(h: Heap, g: Heap, f: Pred, c: int, n: int, i: nat, k: nat)
    requires same_under(h, g, c), stable(f), wf(h), above(h, c, n), i <= h.kids[n].len()
    ensures tops_upto(g, f, n, i, k) == tops_upto(h, f, n, i, k)
    decreases k, i + 1
{
    if i > 0 {
        assert(g.kids[n] == h.kids[n]);
        let x = h.kids[n][i - 1];
        assert(wf_listed(h, n, i - 1));
        lemma_above_child(h, c, x);
        lemma_same_tops_upto(h, g, f, c, n, (i - 1) as nat, k);
        assert(pred(f, g, x) == pred(f, h, x));
        lemma_same_tops(h, g, f, c, x, k);
    }
}
proof fn lemma_same_deep(h: Heap, g: Heap, c: int, n: int, k: nat)
    requires same_under(h, g, c), wf(h), above(h, c, n), deep(h, n, k)
    ensures deep(g, n, k)
    decreases k
{
    assert(g.kids[n] == h.kids[n]);
    assert forall|i: int| 0 <= i < g.kids[n].len() implies deep(g, #[trigger] g.kids[n][i], (k - 1) as nat) by {
        assert(wf_listed(h, n, i));
        lemma_above_child(h, c, h.kids[n][i]);
        assert(deep(h, h.kids[n][i], (k - 1) as nat));
        lemma_same_deep(h, g, c, h.kids[n][i], (k - 1) as nat);
    }
}
// ---- one level of draining: the first i children of r are done
pub open spec fn drain_part(h0: Heap, h: Heap, f: Pred, r: int, i: int) -> bool {
    let s = hit_part(h0, f, r, i);
    0 <= i <= h0.kids[r].len() && drained_by(h0, h, s) && !s.contains(r)
}
proof fn lemma_under_not(h: Heap, r: int, i: int, c: int, x: int)
    requires wf(h), 0 <= i <= h.kids[r].len(), h.parent[c] == Some(r), h.pos[c] >= i, above(h, c, x)
    ensures !under_first(h, r, i, x)
{
    if under_first(h, r, i, x) {
        let j = choose|j: int| 0 <= j < i && #[trigger] above(h, h.kids[r][j], x);
        assert(wf_listed(h, r, j));
        lemma_siblings_disjoint(h, r, h.kids[r][j], c, x);
    }
}
proof fn lemma_not_own_parent(h: Heap, r: int, c: int)
    requires wf(h), h.parent[c] == Some(r)
    ensures !above(h, c, r), above(h, r, c), c != r
{
    lemma_above_self(h, r);
    lemma_above_child(h, r, c);
    if above(h, c, r) { lemma_antisym(h, r, c); }
    lemma_near(h, c);
    if c == r { lemma_above_self(h, r); lemma_no_cycle(h, r); assert(!on_chain(h.parent, h.parent[r]->0, r, 0)); }
}
proof fn lemma_drain_start(h: Heap, f: Pred, r: int)
    requires wf(h)
    ensures drain_part(h, h, f, r, 0)
{
    let s = hit_part(h, f, r, 0);
    assert forall|x: int| !s.contains(x) by {}
    assert forall|x: int| #[trigger] h.attributes[x] == flt(h.attributes[x], keeps(s, x)) by { lemma_flt_all(h.attributes[x], keeps(s, x)); }
    assert forall|x: int| #[trigger] h.kids[x] == sel(h.kids[x], outside(s)) by { lemma_sel_all(h.kids[x], outside(s)); }
}
// the child whose turn it is, and its subtree, are as they were
proof fn lemma_drain_next(h0: Heap, g: Heap, f: Pred, r: int, i: int)
    requires wf(h0), wf(g), drain_part(h0, g, f, r, i), i < h0.kids[r].len(), stable(f)
    ensures same_under(h0, g, h0.kids[r][i]), g.parent[h0.kids[r][i]] == Some(r), h0.parent[h0.kids[r][i]] == Some(r), h0.pos[h0.kids[r][i]] == i,
        g.next_sibling[h0.kids[r][i]] == opt_at(h0.kids[r], i + 1), g.first_child[h0.kids[r][i]] == h0.first_child[h0.kids[r][i]],
        forall|x: int| #[trigger] above(h0, h0.kids[r][i], x) ==> !hit_part(h0, f, r, i).contains(x),
{
    let c = h0.kids[r][i];
    let s = hit_part(h0, f, r, i);
    assert(wf_listed(h0, r, i));
    lemma_not_own_parent(h0, r, c);
    lemma_above_self(h0, c);
    assert forall|x: int| #[trigger] above(h0, c, x) implies !s.contains(x) by { lemma_under_not(h0, r, i, c, x); }
    assert forall|y: int| #![trigger g.kids[y]] above(h0, c, y) implies g.kids[y] == h0.kids[y] && g.parent[y] == h0.parent[y] by {
        assert(!s.contains(y));
        assert(g.kids[y] == sel(h0.kids[y], outside(s)));
        assert forall|j: int| 0 <= j < h0.kids[y].len() implies outside(s)(#[trigger] h0.kids[y][j]) by {
            assert(wf_listed(h0, y, j));
            lemma_above_child(h0, c, h0.kids[y][j]);
        }
        lemma_sel_all(h0.kids[y], outside(s));
    }
    assert forall|y: int| #![trigger g.parent[y]] g.parent[y] is Some implies g.parent[y] == h0.parent[y] by {}
    assert(g.parent[c] == Some(r));
    assert(g.kids[c] == h0.kids[c]);
    assert(wf_ends(g, c) && wf_ends(h0, c));
    // position of c in g
    let a = sel(h0.kids[r].take(i), outside(s));
    lemma_drain_kids(h0, f, r, i);
    assert(g.kids[r] == a + h0.kids[r].skip(i));
    assert(g.kids[r][a.len() as int] == c);
    assert(wf_listed(g, r, a.len() as int));
    if i + 1 < h0.kids[r].len() { assert(g.kids[r][a.len() as int + 1] == h0.kids[r][i + 1]); }
}
proof fn lemma_sel_add(s: Seq<int>, t: Seq<int>, f: spec_fn(int) -> bool)
    ensures sel(s + t, f) == sel(s, f) + sel(t, f)
    decreases t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(sel(s, f) + sel(t, f) =~= sel(s, f));
    } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_sel_add(s, t.drop_last(), f);
        assert((s + t).last() == t.last());
        if f(t.last()) { assert(sel(s, f) + sel(t.drop_last(), f).push(t.last()) =~= (sel(s, f) + sel(t.drop_last(), f)).push(t.last())); }
    }
}
proof fn lemma_drain_kids(h: Heap, f: Pred, r: int, i: int)
    requires wf(h), 0 <= i <= h.kids[r].len()
    ensures sel(h.kids[r], outside(hit_part(h, f, r, i))) == sel(h.kids[r].take(i), outside(hit_part(h, f, r, i))) + h.kids[r].skip(i)
{
    let s = hit_part(h, f, r, i);
    assert(h.kids[r] =~= h.kids[r].take(i) + h.kids[r].skip(i));
    lemma_sel_add(h.kids[r].take(i), h.kids[r].skip(i), outside(s));
    let t = h.kids[r].skip(i);
    assert forall|j: int| 0 <= j < t.len() implies outside(s)(#[trigger] t[j]) by {
        assert(t[j] == h.kids[r][i + j]);
        assert(wf_listed(h, r, i + j));
        lemma_above_self(h, t[j]);
        lemma_under_not(h, r, i, t[j], t[j]);
    }
    lemma_sel_all(t, outside(s));
}
// what the child at place i adds to the set
proof fn lemma_drain_set(h: Heap, f: Pred, r: int, i: int)
    requires wf(h), 0 <= i < h.kids[r].len()
    ensures forall|x: int| #[trigger] hit_part(h, f, r, i + 1).contains(x) == (hit_part(h, f, r, i).contains(x)
        || (if pred(f, h, h.kids[r][i]) { below(h, h.kids[r][i]) } else { hit_set(h, f, h.kids[r][i]) }).contains(x))
{
    let c = h.kids[r][i];
    let b = if pred(f, h, c) { below(h, c) } else { hit_set(h, f, c) };
    assert(wf_listed(h, r, i));
    lemma_not_own_parent(h, r, c);
    assert forall|x: int| #[trigger] hit_part(h, f, r, i + 1).contains(x) == (hit_part(h, f, r, i).contains(x) || b.contains(x)) by {
        if under_first(h, r, i, x) {
            let j = choose|j: int| 0 <= j < i && #[trigger] above(h, h.kids[r][j], x);
            assert(0 <= j < i + 1 && above(h, h.kids[r][j], x));
        }
        if above(h, c, x) { assert(0 <= i < i + 1 && above(h, h.kids[r][i], x)); }
        if under_first(h, r, i + 1, x) && !under_first(h, r, i, x) {
            let j = choose|j: int| 0 <= j < i + 1 && #[trigger] above(h, h.kids[r][j], x);
            assert(above(h, c, x));
        }
        if above(h, c, x) && hit(h, f, r, x) && !pred(f, h, c) {
            let t = choose|t: int| #![trigger above(h, t, x)] above(h, r, t) && t != r && pred(f, h, t) && above(h, t, x);
            let j = choose|j: nat| on_chain(h.parent, x, c, j);
            let k = choose|k: nat| on_chain(h.parent, x, t, k);
            lemma_chain_linear(h.parent, x, c, t, j, k);
            if above(h, t, c) {
                lemma_above_parent(h, t, c);
                lemma_antisym(h, t, r);
            }
            assert(above(h, c, t) && t != c);
            assert(hit(h, f, c, x));
        }
        if hit_set(h, f, c).contains(x) {
            let t = choose|t: int| #![trigger above(h, t, x)] above(h, c, t) && t != c && pred(f, h, t) && above(h, t, x);
            lemma_above_trans(h, r, c, t);
            lemma_above_trans(h, c, t, x);
            if t == r { assert(false); }
            assert(hit(h, f, r, x));
            assert(above(h, c, x));
        }
        if pred(f, h, c) && above(h, c, x) { assert(hit(h, f, r, x)); }
    }
}
proof fn lemma_drained_union(h0: Heap, g: Heap, h: Heap, a: ISet<int>, b: ISet<int>, c: ISet<int>)
    requires drained_by(h0, g, a), drained_by(g, h, b), forall|x: int| #[trigger] c.contains(x) == (a.contains(x) || b.contains(x))
    ensures drained_by(h0, h, c)
{
    lemma_cut_cut(h0, g, h, a, b, c);
    assert forall|x: int| #![trigger h.parent[x]] #![trigger h.storage_key[x]] #![trigger h.kids[x]]
            if c.contains(x) { alone(h, x) } else { h.parent[x] == h0.parent[x] && h.storage_key[x] == h0.storage_key[x] && h.kids[x] == sel(h0.kids[x], outside(c)) } by {
        assert(c.contains(x) == (a.contains(x) || b.contains(x)));
        assert(g.parent[x] == g.parent[x]);
        assert(h.parent[x] == h.parent[x]);
        if a.contains(x) && !b.contains(x) {
            assert(alone(g, x));
            assert(h.kids[x] == sel(g.kids[x], outside(b)));
        }
        if !c.contains(x) {
            let s = h0.kids[x];
            let f = outside(a);
            let k = outside(b);
            lemma_sel_sel(s, f, k);
            lemma_sel_eq(s, |t: int| f(t) && k(t), outside(c));
        }
    }
}
// removing a node is draining its subtree's nodes
proof fn lemma_removed_drained(h0: Heap, h: Heap, r: int)
    requires wf(h0), removed(h0, h, r)
    ensures drained_by(h0, h, below(h0, r))
{
    let s = below(h0, r);
    lemma_above_self(h0, r);
    assert(wf_child(h0, r));
    assert forall|x: int| #![trigger h.parent[x]] #![trigger h.storage_key[x]] #![trigger h.kids[x]]
            if s.contains(x) { alone(h, x) } else { h.parent[x] == h0.parent[x] && h.storage_key[x] == h0.storage_key[x] && h.kids[x] == sel(h0.kids[x], outside(s)) } by {
        assert(h.parent[x] == h.parent[x]);
        if !s.contains(x) {
            let ks = h0.kids[x];
            if h0.parent[r] == Some(x) {
                let w = h0.pos[r];
                assert(ks[w] == r);
                assert forall|j: int| 0 <= j < ks.len() && j != w implies outside(s)(#[trigger] ks[j]) by { lemma_kid_out(h0, r, x, j); }
                assert(ks =~= ks.take(w) + ks.skip(w));
                lemma_sel_add(ks.take(w), ks.skip(w), outside(s));
                assert(ks.skip(w) =~= seq![r] + ks.skip(w + 1));
                lemma_sel_add(seq![r], ks.skip(w + 1), outside(s));
                assert(seq![r].drop_last() =~= Seq::<int>::empty());
                assert(seq![r].last() == r);
                assert(s.contains(r));
                assert(sel(seq![r], outside(s)) =~= Seq::<int>::empty()) by { reveal_with_fuel(sel, 3); assert(sel(Seq::<int>::empty(), outside(s)) =~= Seq::<int>::empty()); }
                lemma_sel_all(ks.take(w), outside(s));
                assert forall|j: int| 0 <= j < ks.skip(w + 1).len() implies outside(s)(#[trigger] ks.skip(w + 1)[j]) by { assert(ks.skip(w + 1)[j] == ks[w + 1 + j]); assert(outside(s)(ks[w + 1 + j])); }
                lemma_sel_all(ks.skip(w + 1), outside(s));
                assert(ks.remove(w) =~= ks.take(w) + (Seq::<int>::empty() + ks.skip(w + 1)));
            } else {
                assert forall|j: int| 0 <= j < ks.len() implies outside(s)(#[trigger] ks[j]) by { lemma_kid_out(h0, r, x, j); assert(wf_listed(h0, x, j)); }
                lemma_sel_all(ks, outside(s));
            }
        }
    }
}
// a child other than r of a node outside r's subtree is outside too
proof fn lemma_kid_out(h: Heap, r: int, x: int, j: int)
    requires wf(h), !above(h, r, x), 0 <= j < h.kids[x].len()
    ensures h.kids[x][j] != r ==> !above(h, r, h.kids[x][j]), h.kids[x][j] == r ==> h.parent[r] == Some(x) && h.pos[r] == j
{
    let c = h.kids[x][j];
    assert(wf_listed(h, x, j));
    if c != r && above(h, r, c) { lemma_above_parent(h, r, c); }
}
proof fn lemma_drain_step(h0: Heap, g: Heap, h: Heap, f: Pred, r: int, i: int)
    requires wf(h0), wf(g), stable(f), drain_part(h0, g, f, r, i), i < h0.kids[r].len(),
        pred(f, h0, h0.kids[r][i]) ==> removed(g, h, h0.kids[r][i]),
        !pred(f, h0, h0.kids[r][i]) ==> drained(g, h, f, h0.kids[r][i]),
    ensures drain_part(h0, h, f, r, i + 1)
{
    let c = h0.kids[r][i];
    let a = hit_part(h0, f, r, i);
    let b = if pred(f, h0, c) { below(h0, c) } else { hit_set(h0, f, c) };
    lemma_drain_next(h0, g, f, r, i);
    lemma_same_hits(h0, g, f, c);
    if pred(f, h0, c) { lemma_removed_drained(g, h, c); }
    lemma_drain_set(h0, f, r, i);
    lemma_drained_union(h0, g, h, a, b, hit_part(h0, f, r, i + 1));
    lemma_not_own_parent(h0, r, c);
    if hit_set(h0, f, c).contains(r) {
        let t = choose|t: int| #![trigger above(h0, t, r)] above(h0, c, t) && t != c && pred(f, h0, t) && above(h0, t, r);
        lemma_above_trans(h0, c, t, r);
    }
}
proof fn lemma_leaf_drained(g: Heap, f: Pred, c: int, k: nat)
    requires wf(g), g.kids[c].len() == 0
    ensures drained(g, g, f, c), tops(g, f, c, k) == 0
{
    let s = hit_set(g, f, c);
    assert forall|x: int| !s.contains(x) by {
        if hit(g, f, c, x) {
            let t = choose|t: int| #![trigger above(g, t, x)] above(g, c, t) && t != c && pred(f, g, t) && above(g, t, x);
            let m = choose|m: nat| on_chain(g.parent, t, c, m);
            lemma_below_cases(g, c, t, m);
        }
    }
    assert forall|x: int| #[trigger] g.attributes[x] == flt(g.attributes[x], keeps(s, x)) by { lemma_flt_all(g.attributes[x], keeps(s, x)); }
    assert forall|x: int| #[trigger] g.kids[x] == sel(g.kids[x], outside(s)) by { lemma_sel_all(g.kids[x], outside(s)); }
    if k > 0 { assert(tops_upto(g, f, c, 0, (k - 1) as nat) == 0); }
}
proof fn lemma_drain_end(h0: Heap, h: Heap, f: Pred, r: int)
    requires wf(h0), drain_part(h0, h, f, r, h0.kids[r].len() as int)
    ensures drained(h0, h, f, r)
{
    let s = hit_part(h0, f, r, h0.kids[r].len() as int);
    let t = hit_set(h0, f, r);
    assert forall|x: int| s.contains(x) == t.contains(x) by {
        if hit(h0, f, r, x) {
            let u = choose|u: int| #![trigger above(h0, u, x)] above(h0, r, u) && u != r && pred(f, h0, u) && above(h0, u, x);
            let k = choose|k: nat| on_chain(h0.parent, u, r, k);
            lemma_below_cases(h0, r, u, k);
            let j = choose|j: int| 0 <= j < h0.kids[r].len() && #[trigger] above(h0, h0.kids[r][j], u);
            lemma_above_trans(h0, h0.kids[r][j], u, x);
            assert(above(h0, h0.kids[r][j], x));
        }
    }
    assert(s =~= t);
}
pub open spec fn place(h: Heap, r: int, node: Option<int>) -> int { match node { Some(c) => h.pos[c], None => h.kids[r].len() as int } }
pub open spec fn draining(h0: Heap, h: Heap, f: Pred, r: int, i: int, node: Option<int>) -> bool { drain_part(h0, h, f, r, i) && node == opt_at(h0.kids[r], i) }
proof fn lemma_place(h: Heap, r: int, i: int)
    requires wf(h), 0 <= i <= h.kids[r].len()
    ensures place(h, r, opt_at(h.kids[r], i)) == i
{
    if i < h.kids[r].len() { assert(wf_listed(h, r, i)); }
}
// all that is needed to treat the child whose turn it is
proof fn lemma_draining(h0: Heap, g: Heap, f: Pred, r: int, i: int, k: nat)
    requires wf(h0), wf(g), stable(f), drain_part(h0, g, f, r, i), i < h0.kids[r].len(), deep(h0, r, k)
    ensures same_under(h0, g, h0.kids[r][i]), g.next_sibling[h0.kids[r][i]] == opt_at(h0.kids[r], i + 1), k > 0,
        deep(g, h0.kids[r][i], (k - 1) as nat), tops(g, f, h0.kids[r][i], (k - 1) as nat) == tops(h0, f, h0.kids[r][i], (k - 1) as nat),
        g.kids[h0.kids[r][i]].len() == 0 ==> drained(g, g, f, h0.kids[r][i]) && tops(g, f, h0.kids[r][i], (k - 1) as nat) == 0,
        g.first_child[h0.kids[r][i]] == opt_at(g.kids[h0.kids[r][i]], 0),
        place(h0, r, opt_at(h0.kids[r], i + 1)) == i + 1,
        tops_upto(h0, f, r, (i + 1) as nat, (k - 1) as nat) == tops_upto(h0, f, r, i as nat, (k - 1) as nat)
            + (if pred(f, h0, h0.kids[r][i]) { 1 } else { tops(h0, f, h0.kids[r][i], (k - 1) as nat) }),
{
    let c = h0.kids[r][i];
    lemma_drain_next(h0, g, f, r, i);
    lemma_above_self(h0, c);
    lemma_same_deep(h0, g, c, c, (k - 1) as nat);
    lemma_same_tops(h0, g, f, c, c, (k - 1) as nat);
    if g.kids[c].len() == 0 { lemma_leaf_drained(g, f, c, (k - 1) as nat); }
    assert(wf_ends(g, c));
    lemma_place(h0, r, i + 1);
}
proof fn lemma_after_child(h0: Heap, h: Heap, f: Pred, r: int, i: int)
    requires wf(h0), wf(h), 0 <= i < h0.kids[r].len(), drain_part(h0, h, f, r, i + 1), !hit_part(h0, f, r, i + 1).contains(h0.kids[r][i])
    ensures h.next_sibling[h0.kids[r][i]] == opt_at(h0.kids[r], i + 1)
{
    let c = h0.kids[r][i];
    let s = hit_part(h0, f, r, i + 1);
    lemma_drain_kids(h0, f, r, i + 1);
    let t = h0.kids[r].take(i + 1);
    let a = sel(t.drop_last(), outside(s));
    assert(t.last() == c);
    assert(sel(t, outside(s)) == a.push(c));
    assert(h.kids[r] == a.push(c) + h0.kids[r].skip(i + 1));
    assert(h.kids[r][a.len() as int] == c);
    assert(wf_listed(h, r, a.len() as int));
    if i + 1 < h0.kids[r].len() { assert(h.kids[r][a.len() as int + 1] == h0.kids[r][i + 1]); }
}
proof fn lemma_unmatched_child(h: Heap, f: Pred, r: int, i: int)
    requires wf(h), 0 <= i < h.kids[r].len(), !pred(f, h, h.kids[r][i])
    ensures !hit_part(h, f, r, i + 1).contains(h.kids[r][i])
{
    let c = h.kids[r][i];
    assert(wf_listed(h, r, i));
    lemma_not_own_parent(h, r, c);
    if hit(h, f, r, c) {
        let t = choose|t: int| #![trigger above(h, t, c)] above(h, r, t) && t != r && pred(f, h, t) && above(h, t, c);
        lemma_above_parent(h, t, c);
        lemma_antisym(h, t, r);
    }
}
proof fn lemma_after(h0: Heap, h: Heap, f: Pred, r: int, i: int)
    requires wf(h0), wf(h), 0 <= i < h0.kids[r].len(), drain_part(h0, h, f, r, i + 1)
    ensures !pred(f, h0, h0.kids[r][i]) ==> h.next_sibling[h0.kids[r][i]] == opt_at(h0.kids[r], i + 1)
{
    if !pred(f, h0, h0.kids[r][i]) { lemma_unmatched_child(h0, f, r, i); lemma_after_child(h0, h, f, r, i); }
}
proof fn lemma_child_belongs(h0: Heap, d0: SDocument, g: Heap, d: SDocument, r: int, i: int)
    requires wf(h0), wf(g), belongs(h0, d0, r), keep_own(h0, d0, g, d), part_removed(h0, g, r, i), i < h0.kids[r].len()
    ensures belongs(g, d, h0.kids[r][i]), g.kids[r][0] == h0.kids[r][i]
{
    let c = h0.kids[r][i];
    assert(wf_listed(h0, r, i));
    lemma_not_own_parent(h0, r, c);
    assert forall|x: int| #[trigger] above(g, c, x) implies above(h0, r, x) by { lemma_below_same(h0, g, r, i, x); lemma_above_trans(h0, r, c, x); }
    lemma_belongs(h0, d0, g, d, r, c);
}
proof fn lemma_child_deep(h0: Heap, g: Heap, r: int, i: int, k: nat)
    requires wf(h0), wf(g), part_removed(h0, g, r, i), i < h0.kids[r].len(), deep(h0, r, k)
    ensures deep(g, h0.kids[r][i], (k - 1) as nat), k > 0
{
    let c = h0.kids[r][i];
    assert(wf_listed(h0, r, i));
    lemma_not_own_parent(h0, r, c);
    assert(deep(h0, c, (k - 1) as nat));
    assert forall|y: int| #![trigger g.kids[y]] above(h0, c, y) implies g.kids[y] == h0.kids[y] by {
        let q = choose|q: nat| on_chain(h0.parent, y, c, q);
        lemma_below_up(h0, g, r, i, y, q);
    }
    lemma_kept_deep(h0, g, c, (k - 1) as nat);
}
proof fn lemma_drain_belongs(h0: Heap, d0: SDocument, g: Heap, d: SDocument, f: Pred, r: int, i: int)
    requires wf(h0), wf(g), stable(f), belongs(h0, d0, r), keep_own(h0, d0, g, d), drain_part(h0, g, f, r, i), i < h0.kids[r].len()
    ensures belongs(g, d, h0.kids[r][i])
{
    let c = h0.kids[r][i];
    lemma_drain_next(h0, g, f, r, i);
    lemma_not_own_parent(h0, r, c);
    lemma_above_self(h0, c);
    assert forall|x: int| #[trigger] above(g, c, x) implies above(h0, r, x) by { lemma_same_under(h0, g, c, c, x); lemma_above_trans(h0, r, c, x); }
    lemma_belongs(h0, d0, g, d, r, c);
}

// ---------------------------------------------------------------- new nodes
// nothing in the tree or the links refers to n
pub open spec fn unreferenced(h: Heap, n: int) -> bool {
    forall|x: int| #![trigger h.parent[x]] #![trigger h.first_child[x]] #![trigger h.last_child[x]] #![trigger h.previous_sibling[x]] #![trigger h.next_sibling[x]]
            #![trigger h.attributes[x]] #![trigger h.linked_nodes[x]]
        h.parent[x] != Some(n) && h.first_child[x] != Some(n) && h.last_child[x] != Some(n) && h.previous_sibling[x] != Some(n) && h.next_sibling[x] != Some(n)
        && refs(h.attributes[x], n) == 0 && occ(h.linked_nodes[x], n) == 0
}
// an address the allocator may return
pub open spec fn is_fresh(h: Heap, n: int) -> bool { !h.allocated[n] && unreferenced(h, n) }
pub open spec fn fresh_node(h: Heap) -> int { choose|n: int| is_fresh(h, n) }
pub open spec fn blank_node(h: Heap, n: int, ty: int, tag: QName, text: Seq<char>) -> bool {
    &&& h.parent[n] is None && h.first_child[n] is None && h.last_child[n] is None && h.previous_sibling[n] is None && h.next_sibling[n] is None
    &&& h.kids[n].len() == 0 && h.id[n].len() == 0 && h.attributes[n].len() == 0 && h.linked_nodes[n].len() == 0
    &&& h.node_type[n] == ty && h.tag_name[n] == tag && h.text[n] == text && h.allocated[n]
}
pub open spec fn tree_same(g: Heap, h: Heap, x: int) -> bool {
    h.parent[x] == g.parent[x] && h.first_child[x] == g.first_child[x] && h.last_child[x] == g.last_child[x] && h.previous_sibling[x] == g.previous_sibling[x]
    && h.next_sibling[x] == g.next_sibling[x] && h.kids[x] == g.kids[x] && h.pos[x] == g.pos[x]
}
pub open spec fn data_same(g: Heap, h: Heap, x: int) -> bool {
    h.storage_key[x] == g.storage_key[x] && h.node_type[x] == g.node_type[x] && h.tag_name[x] == g.tag_name[x] && h.id[x] == g.id[x] && h.text[x] == g.text[x]
    && h.allocated[x] == g.allocated[x] && h.attributes[x] == g.attributes[x]
}
pub open spec fn others_same(g: Heap, h: Heap, n: int) -> bool {
    forall|x: int| #![trigger h.parent[x]] #![trigger h.kids[x]] #![trigger h.attributes[x]] #![trigger h.linked_nodes[x]] #![trigger h.storage_key[x]] #![trigger h.id[x]]
            #![trigger h.node_type[x]] #![trigger h.tag_name[x]] #![trigger h.text[x]] #![trigger h.allocated[x]]
            #![trigger h.first_child[x]] #![trigger h.last_child[x]] #![trigger h.previous_sibling[x]] #![trigger h.next_sibling[x]] #![trigger h.pos[x]]
        x != n ==> tree_same(g, h, x) && data_same(g, h, x) && h.linked_nodes[x] == g.linked_nodes[x]
}
// n is new, empty, parentless and stored in the document
pub open spec fn created(g: Heap, d: SDocument, h: Heap, e: SDocument, n: int, ty: int, tag: QName, text: Seq<char>) -> bool {
    &&& is_fresh(g, n) && others_same(g, h, n) && blank_node(h, n, ty, tag, text)
    &&& h.storage_key[n] is Some && !d.storage.contains_key(h.storage_key[n]->0) && e == (SDocument { storage: d.storage.insert(h.storage_key[n]->0, n), ..d })
}
proof fn lemma_unlisted(g: Heap, n: int, p: int, i: int)
    requires wf(g), unreferenced(g, n), 0 <= i < g.kids[p].len()
    ensures g.kids[p][i] != n
{
    if i == 0 { assert(wf_ends(g, p)); assert(g.first_child[p] != Some(n)); } else { assert(wf_listed(g, p, i - 1)); assert(g.next_sibling[g.kids[p][i - 1]] != Some(n)); }
}
proof fn lemma_rooted_sub(a: IMap<int, Option<int>>, b: IMap<int, Option<int>>, n: int, k: nat)
    requires rooted(a, n, k), forall|x: int| #![trigger b[x]] b[x] is Some ==> a[x] == b[x]
    ensures rooted(b, n, k)
    decreases k
{
    if b[n] is Some { lemma_rooted_sub(a, b, b[n]->0, (k - 1) as nat); }
}
proof fn lemma_created(g: Heap, d: SDocument, h: Heap, e: SDocument, n: int, ty: int, tag: QName, text: Seq<char>)
    requires wf(g), lk(g), own(g, d), created(g, d, h, e, n, ty, tag, text)
    ensures wf(h), lk(h), own(h, e), keep_own(g, d, h, e) || own_node(g, d, n), own_node(h, e, n),
        forall|x: int| x != n && own_node(g, d, x) ==> #[trigger] own_node(h, e, x),
{
    let k = choose|k: nat| depth_bound(g, k);
    assert(g.parent[n] is None || h.parent[n] is None);
    assert forall|m: int| #[trigger] rooted(h.parent, m, k) by { assert(rooted(g.parent, m, k)); lemma_rooted_sub(g.parent, h.parent, m, k); }
    assert(depth_bound(h, k));
    assert forall|p: int, i: int| 0 <= i < h.kids[p].len() implies #[trigger] wf_listed(h, p, i) by {
        assert(p != n);
        assert(h.kids[p] == g.kids[p]);
        assert(wf_listed(g, p, i));
        lemma_unlisted(g, n, p, i);
        let c = g.kids[p][i];
        assert(tree_same(g, h, c)) by { assert(h.parent[c] == h.parent[c]); }
    }
    assert forall|m: int| #[trigger] wf_child(h, m) by {
        assert(wf_child(g, m));
        assert(h.parent[m] == h.parent[m]);
        if m != n && h.parent[m] is Some { let p = h.parent[m]->0; assert(g.parent[m] != Some(n)); assert(h.kids[p] == g.kids[p]); }
    }
    assert forall|p: int| #[trigger] wf_ends(h, p) by { assert(wf_ends(g, p)); assert(h.kids[p] == h.kids[p]); }
    assert forall|a: int, b: int| #[trigger] lk_pair(h, a, b) by {
        assert(lk_pair(g, a, b));
        assert(h.attributes[a] == h.attributes[a]);
        assert(h.linked_nodes[b] == h.linked_nodes[b]);
        assert(refs(g.attributes[a], n) == 0);
        assert(occ(g.linked_nodes[b], n) == 0);
    }
    assert forall|a: int| #[trigger] lk_node(h, a) by { assert(lk_node(g, a)); assert(h.attributes[a] == h.attributes[a]); }
    let key = h.storage_key[n]->0;
    assert forall|j: int| #[trigger] own_key(h, e, j) by {
        assert(own_key(g, d, j));
        if j != key && d.storage.contains_key(j) { assert(d.storage[j] != n); assert(h.storage_key[d.storage[j]] == g.storage_key[d.storage[j]]); }
    }
    assert forall|x: int| x != n && own_node(g, d, x) implies #[trigger] own_node(h, e, x) by { assert(h.storage_key[x] == g.storage_key[x]); }
    assert(own_node(h, e, n));
    if own_node(g, d, n) {} else { assert forall|x: int| own_node(g, d, x) implies #[trigger] own_node(h, e, x) by {} }
}

// ---------------------------------------------------------------- copies
pub open spec fn stored_all(s: Seq<Attribute>) -> Seq<Attribute> { s.map_values(|a: Attribute| stored(a)) }
// every link has the form its name calls for
pub open spec fn canonical(s: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> stored(#[trigger] s[i]) == s[i] }
proof fn lemma_canonical(s: Seq<Attribute>)
    requires canonical(s)
    ensures stored_all(s) == s
{ assert(stored_all(s) =~= s); }
// the nodes n links to can be linked
pub open spec fn linkable(h: Heap, n: int) -> bool { forall|i: int| 0 <= i < h.attributes[n].len() ==> (target((#[trigger] h.attributes[n][i]).value) is Some ==> !no_id(h, target(h.attributes[n][i].value)->0)) }
pub open spec fn copy_of(g: Heap, h: Heap, n: int, c: int) -> bool {
    &&& h.node_type[c] == g.node_type[n] && h.id[c].len() == 0 && h.allocated[c]
    &&& g.node_type[n] == NT_Element ==> h.tag_name[c] == g.tag_name[n] && h.attributes[c] == stored_all(g.attributes[n])
    &&& g.node_type[n] != NT_Element ==> h.text[c] == g.text[n] && h.attributes[c].len() == 0
}
pub open spec fn others_kept(g: Heap, h: Heap, n: int) -> bool {
    forall|x: int| #![trigger h.parent[x]] #![trigger h.kids[x]] #![trigger h.attributes[x]] #![trigger h.storage_key[x]] #![trigger h.id[x]]
            #![trigger h.node_type[x]] #![trigger h.tag_name[x]] #![trigger h.text[x]] #![trigger h.allocated[x]]
            #![trigger h.first_child[x]] #![trigger h.last_child[x]] #![trigger h.previous_sibling[x]] #![trigger h.next_sibling[x]] #![trigger h.pos[x]]
        x != n ==> tree_same(g, h, x) && data_same(g, h, x)
}
pub open spec fn copied(g: Heap, d: SDocument, h: Heap, e: SDocument, n: int, c: int) -> bool {
    &&& is_fresh(g, c) && copy_of(g, h, n, c) && others_kept(g, h, c) && h.parent[c] is None && h.kids[c].len() == 0
    &&& h.storage_key[c] is Some && !d.storage.contains_key(h.storage_key[c]->0) && e == (SDocument { storage: d.storage.insert(h.storage_key[c]->0, c), ..d })
}
// the first i attributes are copied
pub open spec fn copying(g: Heap, h: Heap, c: int, s: Seq<Attribute>, i: int) -> bool {
    0 <= i <= s.len() && rest_eq(h, g) && forall|x: int| #[trigger] h.attributes[x] == (if x == c { stored_all(s.take(i)) } else { g.attributes[x] })
}
// the next attribute can be set
proof fn lemma_copy_next(h0: Heap, g: Heap, h: Heap, n: int, c: int, i: int)
    requires lk(h0), is_fresh(h0, c), lk(h), copying(g, h, c, h0.attributes[n], i), i < h0.attributes[n].len(), linkable(h0, n), n != c,
        g.id[c].len() == 0, forall|x: int| #![trigger g.id[x]] #![trigger g.attributes[x]] x != c ==> g.id[x] == h0.id[x] && g.attributes[x] == h0.attributes[x]
    ensures !attr_refused(h, c, h0.attributes[n][i]), !has_name(h.attributes[c], h0.attributes[n][i].name), target(h0.attributes[n][i].value) != Some(n), target(h0.attributes[n][i].value) != Some(c),
        without(h.attributes[c], h0.attributes[n][i].name).push(stored(h0.attributes[n][i])) == stored_all(h0.attributes[n].take(i + 1)),
        target(stored(h0.attributes[n][i]).value) != Some(c),
{
    let s = h0.attributes[n];
    let a = s[i];
    assert(lk_node(h0, n));
    assert(refs(h0.attributes[n], c) == 0);
    lemma_refs_exists(s, n);
    lemma_refs_exists(s, c);
    assert(h.attributes[c] == stored_all(s.take(i)));
    assert forall|j: int| 0 <= j < h.attributes[c].len() implies #[trigger] h.attributes[c][j].name != a.name by {
        assert(h.attributes[c][j] == stored(s[j]));
        assert(s[j].name != s[i].name);
    }
    if target(a.value) is Some {
        let m = target(a.value)->0;
        assert(m != c && m != n);
        assert(h.id[m] == h0.id[m]);
        assert(g.id[m] == h0.id[m]);
        assert(lk_pair(h, m, c));
        assert(h.attributes[m] == g.attributes[m]);
        assert(refs(h0.attributes[m], c) == 0);
    }
    assert(without(h.attributes[c], a.name) == h.attributes[c]);
    assert(h.attributes[c].push(stored(a)) =~= stored_all(s.take(i + 1)));
}
// ---- deep copies
pub open spec fn copyable(h: Heap, x: int) -> bool {
    &&& h.allocated[x] && h.node_type[x] != NT_Root
    &&& h.node_type[x] == NT_Element ==> tag_ok(h.tag_name[x]) && forall|i: int| 0 <= i < h.attributes[x].len() ==>
            (target((#[trigger] h.attributes[x][i]).value) is Some ==> !no_id(h, target(h.attributes[x][i].value)->0) && h.allocated[target(h.attributes[x][i].value)->0])
}
pub open spec fn all_copyable(h: Heap, n: int) -> bool { forall|x: int| #[trigger] above(h, n, x) ==> copyable(h, x) }
// the new c of h has the structure and the contents of n in g
pub open spec fn iso(g: Heap, h: Heap, n: int, c: int, k: nat) -> bool
    decreases k
{
    &&& k > 0 && copy_of(g, h, n, c) && !g.allocated[c] && h.storage_key[c] is Some && h.kids[c].len() == g.kids[n].len()
    &&& forall|i: int| 0 <= i < h.kids[c].len() ==> iso(g, h, g.kids[n][i], #[trigger] h.kids[c][i], (k - 1) as nat)
}
// old nodes are as they were, except for the list of children of p
pub open spec fn kept_but(g: Heap, h: Heap, p: int) -> bool {
    forall|x: int| #![trigger h.parent[x]] #![trigger h.kids[x]] #![trigger h.attributes[x]] #![trigger h.storage_key[x]] #![trigger h.id[x]]
            #![trigger h.node_type[x]] #![trigger h.tag_name[x]] #![trigger h.text[x]] #![trigger h.allocated[x]]
            #![trigger h.first_child[x]] #![trigger h.last_child[x]] #![trigger h.previous_sibling[x]] #![trigger h.next_sibling[x]] #![trigger h.pos[x]]
        g.allocated[x] ==> data_same(g, h, x) && h.parent[x] == g.parent[x] && (x != p ==> tree_same(g, h, x))
}
pub open spec fn kept(g: Heap, h: Heap) -> bool {
    forall|x: int| #![trigger h.parent[x]] #![trigger h.kids[x]] #![trigger h.attributes[x]] #![trigger h.storage_key[x]] #![trigger h.id[x]]
            #![trigger h.node_type[x]] #![trigger h.tag_name[x]] #![trigger h.text[x]] #![trigger h.allocated[x]]
            #![trigger h.first_child[x]] #![trigger h.last_child[x]] #![trigger h.previous_sibling[x]] #![trigger h.next_sibling[x]] #![trigger h.pos[x]]
        g.allocated[x] ==> data_same(g, h, x) && tree_same(g, h, x)
}
pub open spec fn keep_own_old(g: Heap, d: SDocument, h: Heap, e: SDocument) -> bool { forall|x: int| g.allocated[x] && own_node(g, d, x) ==> #[trigger] own_node(h, e, x) }
pub open spec fn kids_iso(g: Heap, h: Heap, n: int, p: int, i: int, k: nat) -> bool {
    h.kids[p].len() == i && forall|j: int| 0 <= j < i ==> iso(g, h, g.kids[n][j], #[trigger] h.kids[p][j], k)
}
pub open spec fn deep_done(g: Heap, h: Heap, p: int, n: int, k: nat) -> bool { k > 0 && kids_iso(g, h, n, p, g.kids[n].len() as int, (k - 1) as nat) }
// what was copied stays copied
pub open spec fn iso_keeps(g: Heap, h1: Heap, h2: Heap) -> bool { forall|x: int| #![trigger h2.kids[x]] h1.allocated[x] && !g.allocated[x] ==> h2.kids[x] == h1.kids[x] && data_same(h1, h2, x) }
proof fn lemma_iso_frame(g: Heap, h1: Heap, h2: Heap, n: int, c: int, k: nat)
    requires iso(g, h1, n, c, k), iso_keeps(g, h1, h2)
    ensures iso(g, h2, n, c, k)
    decreases k
{
    assert(h2.kids[c] == h1.kids[c]);
    assert forall|i: int| 0 <= i < h2.kids[c].len() implies iso(g, h2, g.kids[n][i], #[trigger] h2.kids[c][i], (k - 1) as nat) by {
        assert(iso(g, h1, g.kids[n][i], h1.kids[c][i], (k - 1) as nat));
        lemma_iso_frame(g, h1, h2, g.kids[n][i], h1.kids[c][i], (k - 1) as nat);
    }
}
// the source may be read in an earlier state
pub open spec fn src_keeps(g: Heap, g2: Heap, n: int) -> bool { forall|x: int| #![trigger g2.kids[x]] above(g, n, x) ==> g2.kids[x] == g.kids[x] && data_same(g, g2, x) }
proof fn lemma_iso_src(g: Heap, g2: Heap, h: Heap, n: int, c: int, k: nat)
    requires wf(g), iso(g2, h, n, c, k), forall|x: int| g.allocated[x] ==> #[trigger] g2.allocated[x], src_keeps(g, g2, n)
    ensures iso(g, h, n, c, k)
    decreases k
{
    lemma_above_self(g, n);
    assert(g2.kids[n] == g.kids[n]);
    assert forall|i: int| 0 <= i < h.kids[c].len() implies iso(g, h, g.kids[n][i], #[trigger] h.kids[c][i], (k - 1) as nat) by {
        let m = g.kids[n][i];
        assert(wf_listed(g, n, i));
        lemma_above_child(g, n, m);
        assert(iso(g2, h, g2.kids[n][i], h.kids[c][i], (k - 1) as nat));
        assert forall|x: int| #![trigger g2.kids[x]] above(g, m, x) implies g2.kids[x] == g.kids[x] && data_same(g, g2, x) by { lemma_above_trans(g, n, m, x); assert(above(g, n, x)); assert(g2.kids[x] == g.kids[x] && data_same(g, g2, x)); }
        lemma_iso_src(g, g2, h, m, h.kids[c][i], (k - 1) as nat);
    }
}
proof fn lemma_sub_above(g: Heap, h: Heap, c: int, x: int, k: nat)
    requires wf(g), wf(h), forall|y: int| #![trigger h.kids[y]] above(g, c, y) ==> h.kids[y] == g.kids[y], on_chain(h.parent, x, c, k)
    ensures above(g, c, x)
    decreases k
{
    if x == c { lemma_above_self(g, c); } else {
        let p = h.parent[x]->0;
        lemma_sub_above(g, h, c, p, (k - 1) as nat);
        assert(wf_child(h, x));
        assert(h.kids[p] == g.kids[p]);
        assert(wf_listed(g, p, h.pos[x]));
        lemma_above_child(g, c, x);
    }
}
proof fn lemma_kept_deep(g: Heap, h: Heap, n: int, k: nat)
    requires wf(g), deep(g, n, k), forall|y: int| #![trigger h.kids[y]] above(g, n, y) ==> h.kids[y] == g.kids[y]
    ensures deep(h, n, k)
    decreases k
{
    lemma_above_self(g, n);
    assert(h.kids[n] == g.kids[n]);
    assert forall|i: int| 0 <= i < h.kids[n].len() implies deep(h, #[trigger] h.kids[n][i], (k - 1) as nat) by {
        let m = g.kids[n][i];
        assert(wf_listed(g, n, i));
        lemma_above_child(g, n, m);
        assert(deep(g, m, (k - 1) as nat));
        assert forall|y: int| #![trigger h.kids[y]] above(g, m, y) implies h.kids[y] == g.kids[y] by { lemma_above_trans(g, n, m, y); }
        lemma_kept_deep(g, h, m, (k - 1) as nat);
    }
}
// a childless parentless node put at the end
proof fn lemma_append_new(g: Heap, h: Heap, p: int, c: int)
    requires wf(g), g.parent[c] is None, g.kids[c].len() == 0, p != c, is_move(g, h, p, post_detach(g, c).kids[p].len() as int, c)
    ensures h.kids[p] == g.kids[p].push(c), h.parent[c] == Some(p), h.kids[c].len() == 0,
        forall|x: int| #![trigger h.kids[x]] x != p ==> h.kids[x] == g.kids[x],
        forall|x: int| #![trigger h.parent[x]] x != c ==> h.parent[x] == g.parent[x],
        forall|x: int| #![trigger h.pos[x]] x != c ==> h.pos[x] == g.pos[x],
        forall|x: int| #![trigger h.previous_sibling[x]] x != c ==> h.previous_sibling[x] == g.previous_sibling[x],
        forall|x: int| #![trigger h.next_sibling[x]] x != c && !(g.kids[p].len() > 0 && x == g.kids[p].last()) ==> h.next_sibling[x] == g.next_sibling[x],
        forall|x: int| #![trigger h.first_child[x]] x != p ==> h.first_child[x] == g.first_child[x],
        forall|x: int| #![trigger h.last_child[x]] x != p ==> h.last_child[x] == g.last_child[x],
{
    lemma_near(g, c);
    assert(wf_child(g, c));
    let m = post_detach(g, c);
    assert(m.kids == g.kids);
    let i = g.kids[p].len() as int;
    assert(g.kids[p].insert(i, c) =~= g.kids[p].push(c));
    let q = post_insert(m, p, i, c);
    assert(h.kids == q.kids && h.pos == q.pos);
    assert forall|x: int| #![trigger h.pos[x]] x != c implies h.pos[x] == g.pos[x] by {
        assert(wf_child(g, x));
    }
}
// deep copy of the children of n below p: i of them are done
pub open spec fn deep_part(g: Heap, h: Heap, p: int, n: int, k: nat) -> bool {
    &&& kept_but(g, h, p) && h.kids[p].len() <= g.kids[n].len() && k > 0 && kids_iso(g, h, n, p, h.kids[p].len() as int, (k - 1) as nat)
}
proof fn lemma_src_kept(g: Heap, h: Heap, p: int, n: int)
    requires wf(g), kept_but(g, h, p), all_copyable(g, n), !above(g, n, p)
    ensures forall|y: int| #![trigger h.kids[y]] above(g, n, y) ==> h.kids[y] == g.kids[y] && data_same(g, h, y) && y != p
{
    assert forall|y: int| #![trigger h.kids[y]] above(g, n, y) implies h.kids[y] == g.kids[y] && data_same(g, h, y) && y != p by {
        assert(copyable(g, y));
        assert(h.kids[y] == h.kids[y]);
    }
}
proof fn lemma_copyable(g: Heap, h: Heap, p: int, x: int)
    requires kept_but(g, h, p), copyable(g, x)
    ensures copyable(h, x), h.node_type[x] == NT_Element ==> linkable(h, x)
{
    assert(data_same(g, h, x)) by { assert(h.parent[x] == h.parent[x]); }
    if h.node_type[x] == NT_Element {
        assert forall|i: int| 0 <= i < h.attributes[x].len() implies
            (target((#[trigger] h.attributes[x][i]).value) is Some ==> !no_id(h, target(h.attributes[x][i].value)->0) && h.allocated[target(h.attributes[x][i].value)->0]) by {
            let a = g.attributes[x][i];
            if target(a.value) is Some { let m = target(a.value)->0; assert(g.allocated[m]); assert(h.id[m] == g.id[m]); assert(h.allocated[m]); }
        }
    }
}
// before the next child is copied
proof fn lemma_deep_next(g: Heap, h: Heap, p: int, n: int, k: nat)
    requires wf(g), wf(h), all_copyable(g, n), !above(g, n, p), deep_part(g, h, p, n, k), h.kids[p].len() < g.kids[n].len(), g.allocated[p]
    ensures copyable(h, g.kids[n][h.kids[p].len() as int]), h.kids[n] == g.kids[n],
        h.node_type[g.kids[n][h.kids[p].len() as int]] == NT_Element ==> linkable(h, g.kids[n][h.kids[p].len() as int]),
{
    let c = g.kids[n][h.kids[p].len() as int];
    lemma_src_kept(g, h, p, n);
    lemma_above_self(g, n);
    assert(wf_listed(g, n, h.kids[p].len() as int));
    lemma_above_child(g, n, c);
    lemma_copyable(g, h, p, c);
    assert(h.kids[n] == g.kids[n]);
}
// the copy may be put below p
proof fn lemma_deep_adopt(g: Heap, h: Heap, p: int, c: int)
    requires wf(h), h.kids[c].len() == 0, p != c
    ensures may_adopt(h, p, c)
{
    if above(h, c, p) {
        let k = choose|k: nat| on_chain(h.parent, p, c, k);
        lemma_below_cases(h, c, p, k);
    }
}
// the state in which the copy c of child m was put below p
proof fn lemma_deep_put(g: Heap, g0: Heap, d0: SDocument, g1: Heap, d1: SDocument, g2: Heap, p: int, n: int, c: int, k: nat)
    requires wf(g), wf(g0), wf(g1), wf(g2), all_copyable(g, n), !above(g, n, p), g.allocated[p], deep(g, n, k), deep_part(g, g0, p, n, k), g0.kids[p].len() < g.kids[n].len(),
        copied(g0, d0, g1, d1, g.kids[n][g0.kids[p].len() as int], c), is_move(g1, g2, p, post_detach(g1, c).kids[p].len() as int, c)
    ensures kept_but(g, g2, p), g2.kids[p] == g0.kids[p].push(c), kids_iso_upto(g, g2, n, p, g0.kids[p].len() as int, (k - 1) as nat),
        copy_of(g, g2, g.kids[n][g0.kids[p].len() as int], c), !g.allocated[c], g2.allocated[c], g2.storage_key[c] is Some, g2.kids[c].len() == 0, g2.parent[c] == Some(p), c != p,
        deep(g2, g.kids[n][g0.kids[p].len() as int], (k - 1) as nat), all_copyable(g2, g.kids[n][g0.kids[p].len() as int]), !above(g2, g.kids[n][g0.kids[p].len() as int], c),
        g2.kids[g.kids[n][g0.kids[p].len() as int]] == g.kids[g.kids[n][g0.kids[p].len() as int]], put_next(g, g0, g2, c),
{
    let i = g0.kids[p].len() as int;
    let m = g.kids[n][i];
    assert(g0.allocated[p]);
    assert(c != p);
    assert(g1.parent[c] is None);
    lemma_append_new(g1, g2, p, c);
    lemma_src_kept(g, g0, p, n);
    lemma_above_self(g, n);
    assert(wf_listed(g, n, i));
    lemma_above_child(g, n, m);
    assert(copyable(g, m));
    assert(g0.kids[m] == g.kids[m]);
    assert(!g.allocated[c]) by { if g.allocated[c] { assert(g0.allocated[c]); } }
    assert(g1.kids[p] == g0.kids[p]);
    // the last copy is new
    assert(i > 0 ==> !g.allocated[g0.kids[p].last()]) by {
        if i > 0 { assert(iso(g, g0, g.kids[n][i - 1], g0.kids[p][i - 1], (k - 1) as nat)); }
    }
    assert forall|x: int| #![trigger g2.parent[x]] #![trigger g2.kids[x]] #![trigger g2.attributes[x]] #![trigger g2.storage_key[x]] #![trigger g2.id[x]]
            #![trigger g2.node_type[x]] #![trigger g2.tag_name[x]] #![trigger g2.text[x]] #![trigger g2.allocated[x]]
            #![trigger g2.first_child[x]] #![trigger g2.last_child[x]] #![trigger g2.previous_sibling[x]] #![trigger g2.next_sibling[x]] #![trigger g2.pos[x]]
        g.allocated[x] implies data_same(g, g2, x) && g2.parent[x] == g.parent[x] && (x != p ==> tree_same(g, g2, x)) by {
        assert(x != c);
        assert(g0.parent[x] == g0.parent[x]);
        assert(g1.parent[x] == g1.parent[x]);
        assert(g2.kids[x] == g2.kids[x]);
        assert(g2.parent[x] == g1.parent[x]);
        assert(g2.next_sibling[x] == g1.next_sibling[x]);
        assert(g2.previous_sibling[x] == g1.previous_sibling[x]);
        assert(g2.pos[x] == g1.pos[x]);
        assert(x != p ==> g2.first_child[x] == g1.first_child[x] && g2.last_child[x] == g1.last_child[x]);
    }
    lemma_src_kept(g, g2, p, n);
    assert forall|j: int| 0 <= j < i implies iso(g, g2, g.kids[n][j], #[trigger] g2.kids[p][j], (k - 1) as nat) by {
        assert(g2.kids[p][j] == g0.kids[p][j]);
        assert(iso(g, g0, g.kids[n][j], g0.kids[p][j], (k - 1) as nat));
        assert forall|x: int| #![trigger g2.kids[x]] g0.allocated[x] && !g.allocated[x] implies g2.kids[x] == g0.kids[x] && data_same(g0, g2, x) by {
            assert(x != c && x != p);
            assert(g1.kids[x] == g1.kids[x]);
        }
        lemma_iso_frame(g, g0, g2, g.kids[n][j], g0.kids[p][j], (k - 1) as nat);
    }
    assert forall|x: int| #![trigger g2.kids[x]] g0.allocated[x] && !g.allocated[x] implies g2.allocated[x] && g2.kids[x] == g0.kids[x] && data_same(g0, g2, x) by {
        assert(x != c && x != p);
        assert(g1.kids[x] == g1.kids[x]);
    }
    // m's subtree
    assert forall|y: int| #![trigger g2.kids[y]] above(g, m, y) implies g2.kids[y] == g.kids[y] by { lemma_above_trans(g, n, m, y); }
    assert(deep(g, m, (k - 1) as nat));
    lemma_kept_deep(g, g2, m, (k - 1) as nat);
    assert forall|x: int| #[trigger] above(g2, m, x) implies copyable(g2, x) by {
        let q = choose|q: nat| on_chain(g2.parent, x, m, q);
        lemma_sub_above(g, g2, m, x, q);
        lemma_above_trans(g, n, m, x);
        lemma_copyable(g, g2, p, x);
    }
    if above(g2, m, c) {
        let q = choose|q: nat| on_chain(g2.parent, c, m, q);
        lemma_sub_above(g, g2, m, c, q);
        lemma_above_trans(g, n, m, c);
        assert(copyable(g, c));
    }
    lemma_above_self(g, m);
    assert(g2.kids[m] == g.kids[m]);
    assert(data_same(g, g0, m)) by { assert(g0.parent[m] == g0.parent[m]); }
    assert(copy_of(g, g2, m, c));
}
pub open spec fn kids_iso_upto(g: Heap, h: Heap, n: int, p: int, i: int, k: nat) -> bool {
    h.kids[p].len() >= i && forall|j: int| 0 <= j < i ==> iso(g, h, g.kids[n][j], #[trigger] h.kids[p][j], k)
}
// the copy of child m is complete
pub open spec fn put_next(g: Heap, g0: Heap, g2: Heap, c: int) -> bool {
    &&& !g0.allocated[c]
    &&& forall|x: int| #![trigger g2.kids[x]] g0.allocated[x] && !g.allocated[x] ==> g2.allocated[x] && g2.kids[x] == g0.kids[x] && data_same(g0, g2, x)
}
proof fn lemma_deep_step(g: Heap, g0: Heap, g2: Heap, h: Heap, p: int, n: int, c: int, i: int, k: nat)
    requires wf(g), wf(g2), wf(h), all_copyable(g, n), !above(g, n, p), g.allocated[p], 0 <= i < g.kids[n].len(), deep(g, n, k),
        kept_but(g, g2, p), deep_part(g, g0, p, n, k), g0.kids[p].len() == i, g2.kids[p] == g0.kids[p].push(c), put_next(g, g0, g2, c), copy_of(g, g2, g.kids[n][i], c), !g.allocated[c], g2.storage_key[c] is Some,
        g2.kids[c].len() == 0, c != p, g2.allocated[c],
        (h == g2 && g.kids[g.kids[n][i]].len() == 0) || (kept_but(g2, h, c) && deep_done(g2, h, c, g.kids[n][i], (k - 1) as nat)),
    ensures deep_part(g, h, p, n, k), h.kids[p].len() == i + 1
{
    let m = g.kids[n][i];
    lemma_src_kept(g, g2, p, n);
    lemma_above_self(g, n);
    assert(wf_listed(g, n, i));
    lemma_above_child(g, n, m);
    lemma_above_self(g, m);
    assert(deep(g, m, (k - 1) as nat));
    assert(g2.kids[m] == g.kids[m]);
    assert forall|y: int| #![trigger g2.kids[y]] above(g, m, y) implies g2.kids[y] == g.kids[y] && data_same(g, g2, y) by { lemma_above_trans(g, n, m, y); }
    assert(copyable(g, m));
    if h != g2 {
        assert(g2.allocated[p]);
        assert(h.kids[p] == g2.kids[p]);
        assert forall|x: int| #![trigger h.parent[x]] #![trigger h.kids[x]] #![trigger h.attributes[x]] #![trigger h.storage_key[x]] #![trigger h.id[x]]
                #![trigger h.node_type[x]] #![trigger h.tag_name[x]] #![trigger h.text[x]] #![trigger h.allocated[x]]
                #![trigger h.first_child[x]] #![trigger h.last_child[x]] #![trigger h.previous_sibling[x]] #![trigger h.next_sibling[x]] #![trigger h.pos[x]]
            g.allocated[x] implies data_same(g, h, x) && h.parent[x] == g.parent[x] && (x != p ==> tree_same(g, h, x)) by {
            assert(g2.parent[x] == g2.parent[x]);
            assert(g2.allocated[x]);
            assert(h.parent[x] == h.parent[x]);
        }
        assert(data_same(g2, h, c)) by { assert(h.parent[c] == h.parent[c]); }
        assert forall|j: int| 0 <= j < h.kids[c].len() implies iso(g, h, g.kids[m][j], #[trigger] h.kids[c][j], (k - 2) as nat) by {
            let mj = g.kids[m][j];
            assert(wf_listed(g, m, j));
            lemma_above_child(g, m, mj);
            assert(iso(g2, h, g2.kids[m][j], h.kids[c][j], (k - 2) as nat));
            assert forall|x: int| #![trigger g2.kids[x]] above(g, mj, x) implies g2.kids[x] == g.kids[x] && data_same(g, g2, x) by { lemma_above_trans(g, m, mj, x); }
            lemma_iso_src(g, g2, h, mj, h.kids[c][j], (k - 2) as nat);
        }
    }
    assert(iso(g, h, m, c, (k - 1) as nat));
    assert forall|x: int| #![trigger h.kids[x]] g0.allocated[x] && !g.allocated[x] implies h.kids[x] == g0.kids[x] && data_same(g0, h, x) by {
        assert(g2.kids[x] == g0.kids[x]);
        assert(x != c);
        if h != g2 { assert(h.kids[x] == g2.kids[x]); assert(data_same(g2, h, x)); }
        assert(data_same(g0, h, x));
    }
    assert forall|j: int| 0 <= j < i + 1 implies iso(g, h, g.kids[n][j], #[trigger] h.kids[p][j], (k - 1) as nat) by {
        if j < i {
            assert(iso(g, g0, g.kids[n][j], g0.kids[p][j], (k - 1) as nat));
            lemma_iso_frame(g, g0, h, g.kids[n][j], g0.kids[p][j], (k - 1) as nat);
        }
    }
}
proof fn lemma_src_same(g: Heap, h: Heap, p: int, n: int)
    requires wf(g), wf(h), kept_but(g, h, p), all_copyable(g, n), !above(g, n, p)
    ensures h.kids[n] == g.kids[n], forall|i: int| 0 <= i < g.kids[n].len() ==> h.next_sibling[#[trigger] g.kids[n][i]] == opt_at(g.kids[n], i + 1),
        forall|i: int| 0 <= i < g.kids[n].len() ==> h.kids[#[trigger] g.kids[n][i]] == g.kids[g.kids[n][i]] && (h.first_child[g.kids[n][i]] is Some <==> g.kids[g.kids[n][i]].len() > 0),
        h.first_child[n] == g.first_child[n], h.last_child[n] == g.last_child[n]
{
    lemma_src_kept(g, h, p, n);
    lemma_above_self(g, n);
    assert(h.kids[n] == g.kids[n]);
    assert forall|i: int| 0 <= i < g.kids[n].len() implies h.next_sibling[#[trigger] g.kids[n][i]] == opt_at(g.kids[n], i + 1)
        && h.kids[g.kids[n][i]] == g.kids[g.kids[n][i]] && (h.first_child[g.kids[n][i]] is Some <==> g.kids[g.kids[n][i]].len() > 0) by {
        let m = g.kids[n][i];
        lemma_children_item(h, n, i);
        assert(wf_listed(g, n, i));
        lemma_above_child(g, n, m);
        assert(h.kids[m] == g.kids[m]);
        assert(wf_ends(h, m));
    }
    assert(copyable(g, n));
    assert(h.first_child[n] == h.first_child[n]);
}
proof fn lemma_deep_start(g: Heap, p: int, n: int, k: nat)
    requires wf(g), g.kids[p].len() == 0, deep(g, n, k)
    ensures deep_part(g, g, p, n, k), wf_ends(g, n)
{
}
// storage across the copy and its insertion
proof fn lemma_deep_own(g: Heap, d: SDocument, g0: Heap, d0: SDocument, g1: Heap, d1: SDocument, g2: Heap, c: int)
    requires own(g1, d1), own_node(g1, d1, c), forall|x: int| x != c && own_node(g0, d0, x) ==> #[trigger] own_node(g1, d1, x), data_eq(g2, g1),
        forall|x: int| g.allocated[x] ==> #[trigger] g0.allocated[x], !g0.allocated[c], keep_own_old(g, d, g0, d0)
    ensures own(g2, d1), keep_own_old(g, d, g2, d1)
{
    lemma_own_same(g1, d1, g2, d1);
    assert forall|x: int| g.allocated[x] && own_node(g, d, x) implies #[trigger] own_node(g2, d1, x) by {
        assert(g0.allocated[x]);
        assert(own_node(g0, d0, x));
        assert(own_node(g1, d1, x));
    }
}
proof fn lemma_own_old_trans(a: Heap, da: SDocument, b: Heap, db: SDocument, c: Heap, dc: SDocument)
    requires keep_own_old(a, da, b, db), keep_own_old(b, db, c, dc) || (b == c && db == dc), forall|x: int| a.allocated[x] ==> #[trigger] b.allocated[x]
    ensures keep_own_old(a, da, c, dc)
{
    assert forall|x: int| a.allocated[x] && own_node(a, da, x) implies #[trigger] own_node(c, dc, x) by {
        assert(b.allocated[x]);
        assert(own_node(b, db, x));
    }
}
proof fn lemma_deep_first(g: Heap, n: int)
    requires all_copyable(g, n)
    ensures copyable(g, n), g.node_type[n] == NT_Element ==> linkable(g, n)
{
    lemma_above_self(g, n);
    assert(copyable(g, n));
}
// the copy of the top node
proof fn lemma_deep_begin(g: Heap, g0: Heap, d: SDocument, d0: SDocument, g1: Heap, d1: SDocument, n: int, c: int, k: nat)
    requires g == g0, d == d0, wf(g), wf(g1), all_copyable(g, n), deep(g, n, k), copied(g, d, g1, d1, n, c), forall|x: int| x != c && own_node(g0, d0, x) ==> #[trigger] own_node(g1, d1, x)
    ensures all_copyable(g1, n), g1.allocated[c], g1.kids[c].len() == 0, !above(g1, n, c), deep(g1, n, k), kept_but(g, g1, c), kept(g, g1), keep_own_old(g, d, g1, d1)
{
    assert forall|y: int| #![trigger g1.kids[y]] above(g, n, y) implies g1.kids[y] == g.kids[y] && data_same(g, g1, y) by { assert(copyable(g, y)); assert(y != c); }
    lemma_kept_deep(g, g1, n, k);
    assert forall|x: int| #[trigger] above(g1, n, x) implies copyable(g1, x) by {
        let q = choose|q: nat| on_chain(g1.parent, x, n, q);
        lemma_sub_above(g, g1, n, x, q);
        lemma_copyable(g, g1, c, x);
    }
    if above(g1, n, c) {
        let q = choose|q: nat| on_chain(g1.parent, c, n, q);
        lemma_sub_above(g, g1, n, c, q);
        assert(copyable(g, c));
    }
    assert forall|x: int| g.allocated[x] && own_node(g, d, x) implies #[trigger] own_node(g1, d1, x) by {}
}
proof fn lemma_deep_finish(g: Heap, g1: Heap, d: SDocument, d1: SDocument, h: Heap, n: int, c: int, k: nat)
    requires wf(g), wf(g1), wf(h), all_copyable(g, n), deep(g, n, k), copied(g, d, g1, d1, n, c), kept_but(g1, h, c), deep_done(g1, h, c, n, k)
    ensures kept(g, h), iso(g, h, n, c, k), h.parent[c] is None
{
    assert(h.parent[c] == g1.parent[c] && data_same(g1, h, c)) by { assert(h.parent[c] == h.parent[c]); }
    assert forall|x: int| #![trigger h.parent[x]] #![trigger h.kids[x]] #![trigger h.attributes[x]] #![trigger h.storage_key[x]] #![trigger h.id[x]]
            #![trigger h.node_type[x]] #![trigger h.tag_name[x]] #![trigger h.text[x]] #![trigger h.allocated[x]]
            #![trigger h.first_child[x]] #![trigger h.last_child[x]] #![trigger h.previous_sibling[x]] #![trigger h.next_sibling[x]] #![trigger h.pos[x]]
        g.allocated[x] implies data_same(g, h, x) && tree_same(g, h, x) by {
        assert(g1.parent[x] == g1.parent[x]);
        assert(x != c);
        assert(h.parent[x] == h.parent[x]);
    }
    lemma_above_self(g, n);
    assert(copyable(g, n));
    assert(g1.kids[n] == g.kids[n]);
    assert forall|i: int| 0 <= i < h.kids[c].len() implies iso(g, h, g.kids[n][i], #[trigger] h.kids[c][i], (k - 1) as nat) by {
        let m = g.kids[n][i];
        assert(wf_listed(g, n, i));
        lemma_above_child(g, n, m);
        assert(iso(g1, h, g1.kids[n][i], h.kids[c][i], (k - 1) as nat));
        assert forall|x: int| g.allocated[x] implies #[trigger] g1.allocated[x] by {}
        assert forall|x: int| #![trigger g1.kids[x]] above(g, m, x) implies g1.kids[x] == g.kids[x] && data_same(g, g1, x) by { lemma_above_trans(g, n, m, x); assert(copyable(g, x)); assert(x != c); }
        lemma_iso_src(g, g1, h, m, h.kids[c][i], (k - 1) as nat);
    }
}

// ---------------------------------------------------------------- dropping a document
pub open spec fn stored_in(d: SDocument, x: int) -> bool { exists|k: int| #[trigger] d.storage.contains_key(k) && d.storage[k] == x }
// the children of stored nodes are stored
pub open spec fn closed(h: Heap, d: SDocument) -> bool { forall|x: int| (#[trigger] h.parent[x]) is Some && stored_in(d, h.parent[x]->0) ==> stored_in(d, x) }
pub open spec fn unbound(h: Heap, x: int) -> bool { h.attributes[x].len() == 0 && h.linked_nodes[x].len() == 0 && h.parent[x] is None && h.previous_sibling[x] is None && h.next_sibling[x] is None }
pub open spec fn released(h0: Heap, h: Heap, d: SDocument) -> bool {
    &&& forall|k: int| #[trigger] d.storage.contains_key(k) ==> unbound(h, d.storage[k]) && h.kids[d.storage[k]].len() == 0 && h.first_child[d.storage[k]] is None && h.last_child[d.storage[k]] is None
    &&& forall|x: int| #![trigger h.attributes[x]] #![trigger h.linked_nodes[x]] !stored_in(d, x) ==> h.attributes[x] == h0.attributes[x] && h.linked_nodes[x] == h0.linked_nodes[x]
    &&& statics_eq(h, h0) && h.storage_key == h0.storage_key
}
pub open spec fn releasing(h0: Heap, h: Heap, d: SDocument, s: Seq<(int, int)>, i: int) -> bool {
    &&& forall|j: int| 0 <= j < i ==> unbound(h, (#[trigger] s[j]).1)
    &&& forall|x: int| (#[trigger] h.parent[x]) is Some ==> h.parent[x] == h0.parent[x]
    &&& forall|x: int| #![trigger h.attributes[x]] #![trigger h.linked_nodes[x]] !stored_in(d, x) ==> h.attributes[x] == h0.attributes[x] && h.linked_nodes[x] == h0.linked_nodes[x]
    &&& statics_eq(h, h0) && h.storage_key == h0.storage_key
}
proof fn lemma_detach_ext(h: Heap, g: Heap, n: int)
    requires same_tree(h, g)
    ensures same_tree(post_detach(h, n), post_detach(g, n))
{
    assert(post_detach(h, n).pos =~= post_detach(g, n).pos);
}
proof fn lemma_release_step(h0: Heap, g: Heap, h: Heap, d: SDocument, s: Seq<(int, int)>, i: int)
    requires wf(g), releasing(h0, g, d, s, i), 0 <= i < s.len(), slab_lists(d.storage, s), same_tree(h, post_detach(g, s[i].1)), statics_eq(h, g), h.storage_key == g.storage_key,
        forall|x: int| x != s[i].1 ==> #[trigger] h.attributes[x] == g.attributes[x], h.attributes[s[i].1].len() == 0,
        forall|x: int| x != s[i].1 ==> #[trigger] h.linked_nodes[x] == g.linked_nodes[x], h.linked_nodes[s[i].1].len() == 0
    ensures releasing(h0, h, d, s, i + 1)
{
    let n = s[i].1;
    lemma_near(g, n);
    lemma_detach(g, n);
    let q = post_detach(g, n);
    assert(wf(q));
    assert(h.parent[n] is None);
    assert forall|j: int| 0 <= j < i + 1 implies unbound(h, (#[trigger] s[j]).1) by {
        let x = s[j].1;
        if x == n {
            assert(wf_child(q, n));
        } else {
            assert(unbound(g, x));
            assert(q.parent[x] is None);
            assert(wf_child(q, x));
        }
    }
    assert forall|x: int| (#[trigger] h.parent[x]) is Some implies h.parent[x] == h0.parent[x] by { assert(g.parent[x] == g.parent[x]); }
    assert(stored_in(d, n)) by { assert(d.storage.contains_key(s[i].0)); }
    assert forall|x: int| #![trigger h.attributes[x]] #![trigger h.linked_nodes[x]] !stored_in(d, x) implies h.attributes[x] == h0.attributes[x] && h.linked_nodes[x] == h0.linked_nodes[x] by { assert(x != n); assert(g.attributes[x] == g.attributes[x]); }
}
proof fn lemma_released(h0: Heap, h: Heap, d: SDocument, s: Seq<(int, int)>)
    requires wf(h), closed(h0, d), slab_lists(d.storage, s), releasing(h0, h, d, s, s.len() as int)
    ensures released(h0, h, d)
{
    assert forall|k: int| #[trigger] d.storage.contains_key(k) implies unbound(h, d.storage[k]) && h.kids[d.storage[k]].len() == 0 && h.first_child[d.storage[k]] is None && h.last_child[d.storage[k]] is None by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        let y = d.storage[k];
        assert(unbound(h, s[i].1));
        if h.kids[y].len() > 0 {
            let c = h.kids[y][0];
            assert(wf_listed(h, y, 0));
            assert(h.parent[c] == Some(y));
            assert(h.parent[c] == h0.parent[c]);
            assert(stored_in(d, y));
            assert(stored_in(d, c));
            let m = choose|m: int| #[trigger] d.storage.contains_key(m) && d.storage[m] == c;
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == m;
            assert(unbound(h, s[j].1));
        }
        assert(wf_ends(h, y));
    }
}
