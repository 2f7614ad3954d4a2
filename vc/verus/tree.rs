// ---------------------------------------------------------------- abstract state
pub struct Heap {
    pub parent: IMap<int, Option<int>>,
    pub first_child: IMap<int, Option<int>>,
    pub last_child: IMap<int, Option<int>>,
    pub previous_sibling: IMap<int, Option<int>>,
    pub next_sibling: IMap<int, Option<int>>,
    pub storage_key: IMap<int, Option<int>>,
    pub node_type: IMap<int, int>,
    pub tag_name: IMap<int, QName>,
    pub id: IMap<int, Seq<char>>,
    pub attributes: IMap<int, Seq<Attribute>>,
    pub linked_nodes: IMap<int, Seq<int>>,
    pub text: IMap<int, Seq<char>>,
    pub allocated: IMap<int, bool>,
    // ghost: the ordered tree the links encode
    pub kids: IMap<int, Seq<int>>,
    pub pos: IMap<int, int>,
}

pub open spec fn opt_at(s: Seq<int>, i: int) -> Option<int> { if 0 <= i < s.len() { Some(s[i]) } else { None } }

pub open spec fn wf_listed(h: Heap, p: int, i: int) -> bool {
    let c = h.kids[p][i];
    &&& h.parent[c] == Some(p)
    &&& h.pos[c] == i
    &&& h.previous_sibling[c] == opt_at(h.kids[p], i - 1)
    &&& h.next_sibling[c] == opt_at(h.kids[p], i + 1)
}
pub open spec fn wf_child(h: Heap, n: int) -> bool {
    match h.parent[n] {
        Some(p) => 0 <= h.pos[n] < h.kids[p].len() && h.kids[p][h.pos[n]] == n,
        None => h.previous_sibling[n] is None && h.next_sibling[n] is None,
    }
}
pub open spec fn wf_ends(h: Heap, p: int) -> bool {
    &&& h.first_child[p] == opt_at(h.kids[p], 0)
    &&& h.last_child[p] == opt_at(h.kids[p], h.kids[p].len() - 1)
}
pub open spec fn wf_links(h: Heap) -> bool {
    &&& forall|p: int, i: int| 0 <= i < h.kids[p].len() ==> #[trigger] wf_listed(h, p, i)
    &&& forall|n: int| #[trigger] wf_child(h, n)
    &&& forall|p: int| #[trigger] wf_ends(h, p)
}
// n reaches a parentless node in at most k steps
pub open spec fn rooted(parent: IMap<int, Option<int>>, n: int, k: nat) -> bool
    decreases k
{
    parent[n] is None || (k > 0 && rooted(parent, parent[n]->0, (k - 1) as nat))
}
pub open spec fn depth_bound(h: Heap, k: nat) -> bool { forall|n: int| #[trigger] rooted(h.parent, n, k) }
pub open spec fn acyclic(h: Heap) -> bool { exists|k: nat| depth_bound(h, k) }
pub open spec fn wf(h: Heap) -> bool { wf_links(h) && acyclic(h) }

// a is n or an ancestor of n, at most k levels up
pub open spec fn on_chain(parent: IMap<int, Option<int>>, n: int, a: int, k: nat) -> bool
    decreases k
{
    n == a || (k > 0 && parent[n] is Some && on_chain(parent, parent[n]->0, a, (k - 1) as nat))
}
pub open spec fn above(h: Heap, a: int, n: int) -> bool { exists|k: nat| on_chain(h.parent, n, a, k) }
// moving c below p makes no cycle
pub open spec fn may_adopt(h: Heap, p: int, c: int) -> bool { !above(h, c, p) }

pub open spec fn data_eq(a: Heap, b: Heap) -> bool {
    a.storage_key == b.storage_key && a.node_type == b.node_type && a.tag_name == b.tag_name && a.id == b.id
    && a.attributes == b.attributes && a.linked_nodes == b.linked_nodes && a.text == b.text && a.allocated == b.allocated
}
pub open spec fn links_eq(a: Heap, b: Heap) -> bool {
    a.parent == b.parent && a.first_child == b.first_child && a.last_child == b.last_child
    && a.previous_sibling == b.previous_sibling && a.next_sibling == b.next_sibling && a.kids == b.kids && a.pos == b.pos
}
pub open spec fn ptr_eq(h: Heap, g: Heap) -> bool {
    &&& forall|x: int| #![trigger h.parent[x]] #![trigger g.parent[x]] h.parent[x] == g.parent[x]
    &&& forall|x: int| #![trigger h.first_child[x]] #![trigger g.first_child[x]] h.first_child[x] == g.first_child[x]
    &&& forall|x: int| #![trigger h.last_child[x]] #![trigger g.last_child[x]] h.last_child[x] == g.last_child[x]
    &&& forall|x: int| #![trigger h.previous_sibling[x]] #![trigger g.previous_sibling[x]] h.previous_sibling[x] == g.previous_sibling[x]
    &&& forall|x: int| #![trigger h.next_sibling[x]] #![trigger g.next_sibling[x]] h.next_sibling[x] == g.next_sibling[x]
}

pub open spec fn up(m: IMap<int, Option<int>>, k: int, v: Option<int>) -> IMap<int, Option<int>> { m.insert(k, v) }
pub open spec fn up_if(m: IMap<int, Option<int>>, c: bool, k: int, v: Option<int>) -> IMap<int, Option<int>> { if c { m.insert(k, v) } else { m } }

// the links after n left its place
pub open spec fn post_detach(h: Heap, n: int) -> Heap {
    let p = h.parent[n];
    let a = h.previous_sibling[n];
    let b = h.next_sibling[n];
    Heap {
        parent: h.parent.insert(n, None),
        previous_sibling: up_if(h.previous_sibling.insert(n, None), b is Some, b->0, a),
        next_sibling: up_if(h.next_sibling.insert(n, None), a is Some, a->0, b),
        first_child: up_if(h.first_child, a is None && p is Some, p->0, b),
        last_child: up_if(h.last_child, b is None && p is Some, p->0, a),
        kids: if p is Some { h.kids.insert(p->0, h.kids[p->0].remove(h.pos[n])) } else { h.kids },
        pos: IMap::new(|x: int| true, |x: int| if p is Some && h.parent[x] == p && h.pos[x] > h.pos[n] { h.pos[x] - 1 } else { h.pos[x] }),
        ..h
    }
}
// the links after the parentless c was put at place i below p
pub open spec fn post_insert(h: Heap, p: int, i: int, c: int) -> Heap {
    let a = opt_at(h.kids[p], i - 1);
    let b = opt_at(h.kids[p], i);
    Heap {
        parent: h.parent.insert(c, Some(p)),
        previous_sibling: up_if(h.previous_sibling.insert(c, a), b is Some, b->0, Some(c)),
        next_sibling: up_if(h.next_sibling.insert(c, b), a is Some, a->0, Some(c)),
        first_child: up_if(h.first_child, a is None, p, Some(c)),
        last_child: up_if(h.last_child, b is None, p, Some(c)),
        kids: h.kids.insert(p, h.kids[p].insert(i, c)),
        pos: IMap::new(|x: int| true, |x: int| if x == c { i } else if h.parent[x] == Some(p) && h.pos[x] >= i { h.pos[x] + 1 } else { h.pos[x] }),
        ..h
    }
}
pub open spec fn same_tree(h: Heap, g: Heap) -> bool { ptr_eq(h, g) && h.kids == g.kids && h.pos == g.pos }
pub open spec fn is_detach(h0: Heap, h: Heap, n: int) -> bool { same_tree(h, post_detach(h0, n)) && data_eq(h, h0) }
pub open spec fn is_insert(h0: Heap, h: Heap, p: int, i: int, c: int) -> bool { same_tree(h, post_insert(h0, p, i, c)) && data_eq(h, h0) }
pub open spec fn is_move(h0: Heap, h: Heap, p: int, i: int, c: int) -> bool {
    let g = post_detach(h0, c);
    same_tree(h, post_insert(g, p, i, c)) && data_eq(h, h0)
}

proof fn lemma_same_tree_wf(h: Heap, g: Heap)
    requires wf(g), same_tree(h, g)
    ensures wf(h)
{
    let k = choose|k: nat| depth_bound(g, k);
    assert forall|n: int| #[trigger] rooted(h.parent, n, k) by { assert(rooted(g.parent, n, k)); lemma_rooted_ext(g.parent, h.parent, n, k); }
    assert(depth_bound(h, k));
    assert(wf_links(g));
    assert forall|p: int, i: int| 0 <= i < h.kids[p].len() implies #[trigger] wf_listed(h, p, i) by { assert(wf_listed(g, p, i)); }
    assert forall|n: int| #[trigger] wf_child(h, n) by { assert(wf_child(g, n)); }
    assert forall|p: int| #[trigger] wf_ends(h, p) by { assert(wf_ends(g, p)); }
}
proof fn lemma_rooted_ext(a: IMap<int, Option<int>>, b: IMap<int, Option<int>>, n: int, k: nat)
    requires rooted(a, n, k), forall|x: int| #![trigger a[x]] #![trigger b[x]] a[x] == b[x]
    ensures rooted(b, n, k)
    decreases k
{
    if a[n] is Some { lemma_rooted_ext(a, b, a[n]->0, (k - 1) as nat); }
}
proof fn lemma_rooted_detach(a: IMap<int, Option<int>>, c: int, n: int, k: nat)
    requires rooted(a, n, k)
    ensures rooted(a.insert(c, None), n, k)
    decreases k
{
    if a[n] is Some && n != c { lemma_rooted_detach(a, c, a[n]->0, (k - 1) as nat); }
}
proof fn lemma_rooted_more(a: IMap<int, Option<int>>, n: int, k: nat, j: nat)
    requires rooted(a, n, k), k <= j
    ensures rooted(a, n, j)
    decreases k
{
    if a[n] is Some { lemma_rooted_more(a, a[n]->0, (k - 1) as nat, (j - 1) as nat); }
}
// a chain that avoids c is not affected by a new parent of c
proof fn lemma_rooted_avoid(a: IMap<int, Option<int>>, c: int, v: Option<int>, n: int, k: nat)
    requires rooted(a, n, k), forall|j: nat| !on_chain(a, n, c, j)
    ensures rooted(a.insert(c, v), n, k)
    decreases k
{
    assert(!on_chain(a, n, c, 0));
    if a[n] is Some {
        assert forall|j: nat| !on_chain(a, a[n]->0, c, j) by { assert(!on_chain(a, n, c, j + 1)); }
        lemma_rooted_avoid(a, c, v, a[n]->0, (k - 1) as nat);
    }
}
proof fn lemma_rooted_insert(a: IMap<int, Option<int>>, c: int, p: int, n: int, k: nat, kp: nat)
    requires rooted(a, n, k), rooted(a.insert(c, Some(p)), p, kp)
    ensures rooted(a.insert(c, Some(p)), n, k + kp + 1)
    decreases k
{
    let b = a.insert(c, Some(p));
    if n == c {
        lemma_rooted_more(b, p, kp, k + kp);
    } else if a[n] is Some {
        lemma_rooted_insert(a, c, p, a[n]->0, (k - 1) as nat, kp);
    }
}

proof fn lemma_detach(h: Heap, n: int)
    requires wf(h)
    ensures wf(post_detach(h, n)), post_detach(h, n).parent[n] is None
{
    let g = post_detach(h, n);
    let k = choose|k: nat| depth_bound(h, k);
    assert forall|m: int| #[trigger] rooted(g.parent, m, k) by { assert(rooted(h.parent, m, k)); lemma_rooted_detach(h.parent, n, m, k); }
    assert(depth_bound(g, k));
    assert(wf_child(h, n));
    if h.parent[n] is Some {
        let q = h.parent[n]->0;
        let w = h.pos[n];
        let s = h.kids[q];
        assert(s[w] == n && wf_listed(h, q, w));
        assert forall|p: int, i: int| 0 <= i < g.kids[p].len() implies #[trigger] wf_listed(g, p, i) by {
            if p == q {
                let j = if i < w { i } else { i + 1 };
                assert(g.kids[p][i] == s[j]);
                assert(wf_listed(h, q, j));
                if j > 0 { assert(wf_listed(h, q, j - 1)); }
                if j + 1 < s.len() { assert(wf_listed(h, q, j + 1)); }
                if w > 0 { assert(wf_listed(h, q, w - 1)); }
                if w + 1 < s.len() { assert(wf_listed(h, q, w + 1)); }
            } else {
                assert(g.kids[p][i] == h.kids[p][i]);
                assert(wf_listed(h, p, i));
                if w > 0 { assert(wf_listed(h, q, w - 1)); }
                if w + 1 < s.len() { assert(wf_listed(h, q, w + 1)); }
            }
        }
        assert forall|m: int| #[trigger] wf_child(g, m) by {
            assert(wf_child(h, m));
            if w > 0 { assert(wf_listed(h, q, w - 1)); }
            if w + 1 < s.len() { assert(wf_listed(h, q, w + 1)); }
            if m != n && h.parent[m] == Some(q) {
                let j = h.pos[m];
                assert(s[j] == m);
                assert(j != w);
                if j < w { assert(g.kids[q][j] == s[j]); } else { assert(g.kids[q][j - 1] == s[j]); }
            }
        }
        assert forall|p: int| #[trigger] wf_ends(g, p) by {
            assert(wf_ends(h, p));
        }
    } else {
        assert forall|p: int, i: int| 0 <= i < g.kids[p].len() implies #[trigger] wf_listed(g, p, i) by { assert(wf_listed(h, p, i)); }
        assert forall|m: int| #[trigger] wf_child(g, m) by { assert(wf_child(h, m)); }
        assert forall|p: int| #[trigger] wf_ends(g, p) by { assert(wf_ends(h, p)); }
    }
}

proof fn lemma_insert(h: Heap, p: int, i: int, c: int)
    requires wf(h), h.parent[c] is None, 0 <= i <= h.kids[p].len(), may_adopt(h, p, c)
    ensures wf(post_insert(h, p, i, c))
{
    let g = post_insert(h, p, i, c);
    let k = choose|k: nat| depth_bound(h, k);
    assert forall|j: nat| !on_chain(h.parent, p, c, j) by { assert(!above(h, c, p)); }
    assert(rooted(h.parent, p, k));
    lemma_rooted_avoid(h.parent, c, Some(p), p, k);
    assert forall|m: int| #[trigger] rooted(g.parent, m, k + k + 1) by { assert(rooted(h.parent, m, k)); lemma_rooted_insert(h.parent, c, p, m, k, k); }
    assert(depth_bound(g, k + k + 1));
    let s = h.kids[p];
    assert(wf_child(h, c));
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != c by { assert(wf_listed(h, p, j)); }
    if i > 0 { assert(wf_listed(h, p, i - 1)); }
    if i < s.len() { assert(wf_listed(h, p, i)); }
    assert forall|q: int, j: int| 0 <= j < g.kids[q].len() implies #[trigger] wf_listed(g, q, j) by {
        if q == p {
            if j == i {
            } else {
                let jj = if j < i { j } else { j - 1 };
                assert(g.kids[q][j] == s[jj]);
                assert(wf_listed(h, p, jj));
                if jj > 0 { assert(wf_listed(h, p, jj - 1)); }
                if jj + 1 < s.len() { assert(wf_listed(h, p, jj + 1)); }
            }
        } else {
            assert(g.kids[q][j] == h.kids[q][j]);
            assert(wf_listed(h, q, j));
        }
    }
    assert forall|m: int| #[trigger] wf_child(g, m) by {
        assert(wf_child(h, m));
        if m == c {
            assert(g.kids[p][i] == c);
        } else if h.parent[m] == Some(p) {
            let j = h.pos[m];
            if j < i { assert(g.kids[p][j] == s[j]); } else { assert(g.kids[p][j + 1] == s[j]); }
        }
    }
    assert forall|q: int| #[trigger] wf_ends(g, q) by { assert(wf_ends(h, q)); }
}

// detaching c keeps every chain that does not contain c
proof fn lemma_chain_detach(a: IMap<int, Option<int>>, c: int, n: int, k: nat)
    requires on_chain(a.insert(c, None), n, c, k)
    ensures on_chain(a, n, c, k)
    decreases k
{
    if n != c { lemma_chain_detach(a, c, a[n]->0, (k - 1) as nat); }
}
proof fn lemma_adopt_detach(h: Heap, p: int, c: int)
    requires may_adopt(h, p, c)
    ensures may_adopt(post_detach(h, c), p, c)
{
    let g = post_detach(h, c);
    if above(g, c, p) {
        let k = choose|k: nat| on_chain(g.parent, p, c, k);
        lemma_chain_detach(h.parent, c, p, k);
    }
}
proof fn lemma_move(h: Heap, p: int, i: int, c: int)
    requires wf(h), may_adopt(h, p, c), 0 <= i <= post_detach(h, c).kids[p].len()
    ensures wf(post_insert(post_detach(h, c), p, i, c))
{
    lemma_detach(h, c);
    lemma_adopt_detach(h, p, c);
    lemma_insert(post_detach(h, c), p, i, c);
}
// everything wf says about one node and its neighbours
proof fn lemma_near(h: Heap, n: int)
    requires wf(h)
    ensures
        wf_child(h, n), wf_ends(h, n),
        h.parent[n] != Some(n),
        h.parent[n] is Some ==> ({
            let p = h.parent[n]->0;
            &&& wf_ends(h, p)
            &&& wf_listed(h, p, h.pos[n])
            &&& h.previous_sibling[n] is Some ==> wf_listed(h, p, h.pos[n] - 1) && h.kids[p][h.pos[n] - 1] == h.previous_sibling[n]->0
            &&& h.next_sibling[n] is Some ==> wf_listed(h, p, h.pos[n] + 1) && h.kids[p][h.pos[n] + 1] == h.next_sibling[n]->0
        }),
        h.first_child[n] is Some ==> wf_listed(h, n, 0) && h.kids[n][0] == h.first_child[n]->0 && h.first_child[n] != Some(n),
        h.last_child[n] is Some ==> wf_listed(h, n, h.kids[n].len() - 1) && h.kids[n][h.kids[n].len() - 1] == h.last_child[n]->0 && h.last_child[n] != Some(n),
        (h.previous_sibling[n] is Some || h.next_sibling[n] is Some) ==> h.parent[n] is Some,
        h.previous_sibling[n] != Some(n), h.next_sibling[n] != Some(n),
        h.previous_sibling[n] is Some ==> h.previous_sibling[n] != h.next_sibling[n] && h.previous_sibling[n] != h.parent[n],
        h.next_sibling[n] is Some ==> h.next_sibling[n] != h.parent[n],
{
    let k = choose|k: nat| depth_bound(h, k);
    assert(wf_child(h, n));
    assert(wf_ends(h, n));
    assert forall|m: int| #[trigger] h.parent[m] != Some(m) by { assert(rooted(h.parent, m, k)); lemma_self_loop(h.parent, m, k); }
    if h.parent[n] is Some {
        let p = h.parent[n]->0;
        assert(h.parent[p] != Some(p));
        assert(wf_ends(h, p));
        assert(wf_listed(h, p, h.pos[n]));
        if h.pos[n] > 0 { assert(wf_listed(h, p, h.pos[n] - 1)); }
        if h.pos[n] + 1 < h.kids[p].len() { assert(wf_listed(h, p, h.pos[n] + 1)); }
    }
    if h.kids[n].len() > 0 {
        assert(wf_listed(h, n, 0));
        assert(wf_listed(h, n, h.kids[n].len() - 1));
    }
}
proof fn lemma_self_loop(a: IMap<int, Option<int>>, n: int, k: nat)
    requires rooted(a, n, k)
    ensures a[n] != Some(n)
    decreases k
{
    if a[n] == Some(n) { lemma_self_loop(a, n, (k - 1) as nat); }
}
// the reference node keeps its place's parent when c leaves
proof fn lemma_after_detach(h: Heap, s: int, c: int)
    requires wf(h), s != c, h.parent[s] is Some
    ensures
        post_detach(h, c).parent[s] == h.parent[s],
        0 <= post_detach(h, c).pos[s] < post_detach(h, c).kids[h.parent[s]->0].len(),
        post_detach(h, c).kids[h.parent[s]->0][post_detach(h, c).pos[s]] == s,
{
    lemma_detach(h, c);
    assert(wf_child(post_detach(h, c), s));
}
// number of steps to the parentless ancestor
pub open spec fn height(parent: IMap<int, Option<int>>, n: int, k: nat) -> int
    decreases k
{
    if parent[n] is None || k == 0 { 0 } else { 1 + height(parent, parent[n]->0, (k - 1) as nat) }
}
proof fn lemma_height(a: IMap<int, Option<int>>, n: int, k: nat)
    requires rooted(a, n, k)
    ensures height(a, n, k) >= 0, a[n] is Some ==> height(a, n, k) == height(a, a[n]->0, k) + 1 && height(a, a[n]->0, k) >= 0
    decreases k
{
    if a[n] is Some {
        lemma_height_more(a, a[n]->0, (k - 1) as nat, k);
    }
}
proof fn lemma_height_more(a: IMap<int, Option<int>>, n: int, k: nat, j: nat)
    requires rooted(a, n, k), k <= j
    ensures height(a, n, j) == height(a, n, k), height(a, n, k) >= 0
    decreases k
{
    if a[n] is Some { lemma_height_more(a, a[n]->0, (k - 1) as nat, (j - 1) as nat); }
}
proof fn lemma_chain_step(a: IMap<int, Option<int>>, n: int, m: int, k: nat)
    requires on_chain(a, n, m, k), a[m] is Some
    ensures on_chain(a, n, a[m]->0, k + 1)
    decreases k
{
    if n == m { assert(on_chain(a, a[m]->0, a[m]->0, k)); } else { lemma_chain_step(a, a[n]->0, m, (k - 1) as nat); }
}
// the parent of an ancestor is an ancestor
proof fn lemma_above_step(h: Heap, m: int, n: int)
    requires above(h, m, n)
    ensures h.parent[m] is Some ==> above(h, h.parent[m]->0, n)
{
    if h.parent[m] is Some {
        let k = choose|k: nat| on_chain(h.parent, n, m, k);
        lemma_chain_step(h.parent, n, m, k);
    }
}
