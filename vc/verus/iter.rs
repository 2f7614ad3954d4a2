// ---------------------------------------------------------------- iterators
pub open spec fn ch_ok(h: Heap, it: SChildren, p: int, lo: int, hi: int) -> bool {
    &&& 0 <= lo <= hi <= h.kids[p].len()
    &&& it.next == opt_at(h.kids[p], lo)
    &&& it.next_back == opt_at(h.kids[p], hi - 1)
}
proof fn lemma_children_item(h: Heap, p: int, i: int)
    requires wf(h), 0 <= i < h.kids[p].len()
    ensures
        h.next_sibling[h.kids[p][i]] == opt_at(h.kids[p], i + 1),
        h.previous_sibling[h.kids[p][i]] == opt_at(h.kids[p], i - 1),
        h.parent[h.kids[p][i]] == Some(p),
        forall|j: int| 0 <= j < h.kids[p].len() && #[trigger] h.kids[p][j] == h.kids[p][i] ==> j == i,
{
    assert(wf_listed(h, p, i));
    assert forall|j: int| 0 <= j < h.kids[p].len() && #[trigger] h.kids[p][j] == h.kids[p][i] implies j == i by { assert(wf_listed(h, p, j)); }
}
proof fn lemma_children_unequal(h: Heap, p: int)
    requires wf(h)
    ensures forall|i: int, j: int| #![trigger h.kids[p][i], h.kids[p][j]] 0 <= i < h.kids[p].len() && 0 <= j < h.kids[p].len() && h.kids[p][j] == h.kids[p][i] ==> j == i,
{
    assert forall|i: int, j: int| #![trigger h.kids[p][i], h.kids[p][j]] 0 <= i < h.kids[p].len() && 0 <= j < h.kids[p].len() && h.kids[p][j] == h.kids[p][i] implies j == i by {
        lemma_children_item(h, p, i);
    }
}

pub open spec fn node_of(e: Edge) -> int { match e { Edge::Start(n) => n, Edge::End(n) => n } }
pub open spec fn step(h: Heap, e: Edge) -> Option<Edge> {
    match e {
        Edge::Start(n) => match h.first_child[n] { Some(c) => Some(Edge::Start(c)), None => Some(Edge::End(n)) },
        Edge::End(n) => match h.next_sibling[n] {
            Some(s) => Some(Edge::Start(s)),
            None => match h.parent[n] { Some(p) => Some(Edge::End(p)), None => None },
        },
    }
}
pub open spec fn back(h: Heap, e: Edge) -> Option<Edge> {
    match e {
        Edge::End(n) => match h.last_child[n] { Some(c) => Some(Edge::End(c)), None => Some(Edge::Start(n)) },
        Edge::Start(n) => match h.previous_sibling[n] {
            Some(s) => Some(Edge::End(s)),
            None => match h.parent[n] { Some(p) => Some(Edge::Start(p)), None => None },
        },
    }
}
pub open spec fn nxt(h: Heap, e: Edge, root: int) -> Option<Edge> { if e == Edge::End(root) { None } else { step(h, e) } }
pub open spec fn prv(h: Heap, e: Edge, root: int) -> Option<Edge> { if e == Edge::Start(root) { None } else { back(h, e) } }

// k levels are enough for the subtree of n
pub open spec fn deep(h: Heap, n: int, k: nat) -> bool
    decreases k
{
    k > 0 && forall|i: int| 0 <= i < h.kids[n].len() ==> deep(h, #[trigger] h.kids[n][i], (k - 1) as nat)
}
// document order: start edge, the children's subtrees in order, end edge
pub open spec fn tour(h: Heap, n: int, k: nat) -> Seq<Edge>
    decreases k, 0nat
{
    if k == 0 { Seq::empty() } else { seq![Edge::Start(n)] + tours(h, n, h.kids[n].len(), (k - 1) as nat) + seq![Edge::End(n)] }
}
pub open spec fn tours(h: Heap, p: int, m: nat, k: nat) -> Seq<Edge>
    decreases k, m + 1
{
    if m == 0 { Seq::empty() } else { tours(h, p, (m - 1) as nat, k) + tour(h, h.kids[p][m - 1], k) }
}
pub open spec fn opt_edge(t: Seq<Edge>, i: int) -> Option<Edge> { if 0 <= i < t.len() { Some(t[i]) } else { None } }

pub open spec fn tour_ok(h: Heap, n: int, t: Seq<Edge>) -> bool {
    &&& t.len() >= 2
    &&& t[0] == Edge::Start(n)
    &&& t[t.len() - 1] == Edge::End(n)
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> #[trigger] step(h, t[i]) == Some(t[i + 1])
    &&& forall|i: int| 0 < i < t.len() ==> #[trigger] back(h, t[i]) == Some(t[i - 1])
    &&& forall|i: int| 0 <= i < t.len() ==> above(h, n, node_of(#[trigger] t[i]))
    &&& forall|i: int| 0 < i < t.len() - 1 ==> node_of(#[trigger] t[i]) != n
}
pub open spec fn tours_ok(h: Heap, p: int, m: nat, t: Seq<Edge>) -> bool {
    &&& (m == 0 ==> t.len() == 0)
    &&& (m > 0 ==> t.len() > 0 && t[0] == Edge::Start(h.kids[p][0]) && t[t.len() - 1] == Edge::End(h.kids[p][m - 1]))
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> #[trigger] step(h, t[i]) == Some(t[i + 1])
    &&& forall|i: int| 0 < i < t.len() ==> #[trigger] back(h, t[i]) == Some(t[i - 1])
    &&& forall|i: int| 0 <= i < t.len() ==> above(h, p, node_of(#[trigger] t[i])) && node_of(t[i]) != p
}
// a child is not above its parent
proof fn lemma_chain_height(a: IMap<int, Option<int>>, n: int, c: int, j: nat, k: nat)
    requires on_chain(a, n, c, j), rooted(a, n, k), rooted(a, c, k)
    ensures height(a, n, k) >= height(a, c, k)
    decreases j
{
    if n != c {
        lemma_height(a, n, k);
        let p = a[n]->0;
        lemma_rooted_more(a, p, (k - 1) as nat, k);
        lemma_chain_height(a, p, c, (j - 1) as nat, k);
    }
}
proof fn lemma_no_cycle(h: Heap, c: int)
    requires wf(h), h.parent[c] is Some
    ensures !above(h, c, h.parent[c]->0)
{
    let n = h.parent[c]->0;
    if above(h, c, n) {
        let k = choose|k: nat| depth_bound(h, k);
        let j = choose|j: nat| on_chain(h.parent, n, c, j);
        assert(rooted(h.parent, n, k) && rooted(h.parent, c, k));
        lemma_chain_height(h.parent, n, c, j, k);
        lemma_height(h.parent, c, k);
    }
}
proof fn lemma_tour_ok(h: Heap, n: int, k: nat)
    requires wf(h), deep(h, n, k)
    ensures tour_ok(h, n, tour(h, n, k))
    decreases k, 0nat
{
    let m = h.kids[n].len();
    let mid = tours(h, n, m, (k - 1) as nat);
    lemma_tours_ok(h, n, m, (k - 1) as nat);
    let t = tour(h, n, k);
    assert(t.len() == mid.len() + 2);
    assert(wf_ends(h, n));
    assert forall|i: int| 0 < i < t.len() - 1 implies #[trigger] t[i] == mid[i - 1] by {}
    if m > 0 { lemma_children_item(h, n, 0); lemma_children_item(h, n, m - 1); }
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] step(h, t[i]) == Some(t[i + 1]) by {
        if i > 0 { assert(t[i] == mid[i - 1]); if i < t.len() - 2 { assert(step(h, mid[i - 1]) == Some(mid[i])); assert(t[i + 1] == mid[i]); } }
    }
    assert forall|i: int| 0 < i < t.len() implies #[trigger] back(h, t[i]) == Some(t[i - 1]) by {
        if i < t.len() - 1 { assert(t[i] == mid[i - 1]); if i > 1 { assert(t[i - 1] == mid[i - 2]); } }
        else if i > 1 { assert(t[i - 1] == mid[i - 2]); }
    }
    assert(on_chain(h.parent, n, n, 0));
    assert forall|i: int| 0 <= i < t.len() implies above(h, n, node_of(#[trigger] t[i])) by {
        if 0 < i < t.len() - 1 { assert(t[i] == mid[i - 1]); }
    }
    assert forall|i: int| 0 < i < t.len() - 1 implies node_of(#[trigger] t[i]) != n by { assert(t[i] == mid[i - 1]); }
}
proof fn lemma_tours_ok(h: Heap, p: int, m: nat, k: nat)
    requires wf(h), m <= h.kids[p].len(), forall|i: int| 0 <= i < m ==> deep(h, #[trigger] h.kids[p][i], k)
    ensures tours_ok(h, p, m, tours(h, p, m, k))
    decreases k, m + 1
{
    if m > 0 {
        let a = tours(h, p, (m - 1) as nat, k);
        let c = h.kids[p][m - 1];
        let b = tour(h, c, k);
        lemma_tours_ok(h, p, (m - 1) as nat, k);
        assert(deep(h, c, k));
        lemma_tour_ok(h, c, k);
        lemma_children_item(h, p, m - 1);
        if m > 1 { lemma_children_item(h, p, m - 2); }
        let t = a + b;
        assert(tours(h, p, m, k) == t);
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] step(h, t[i]) == Some(t[i + 1]) by {
            if i < a.len() - 1 { assert(step(h, a[i]) == Some(a[i + 1])); } else if i == a.len() - 1 { } else { assert(step(h, b[i - a.len()]) == Some(b[i - a.len() + 1])); }
        }
        assert forall|i: int| 0 < i < t.len() implies #[trigger] back(h, t[i]) == Some(t[i - 1]) by {
            if i < a.len() { assert(back(h, a[i]) == Some(a[i - 1])); } else if i == a.len() { } else { assert(back(h, b[i - a.len()]) == Some(b[i - a.len() - 1])); }
        }
        assert forall|i: int| 0 <= i < t.len() implies above(h, p, node_of(#[trigger] t[i])) && node_of(t[i]) != p by {
            if i >= a.len() {
                let x = node_of(b[i - a.len()]);
                assert(above(h, c, x));
                lemma_above_step(h, c, x);
                lemma_no_cycle(h, c);
            } else { assert(above(h, p, node_of(a[i]))); }
        }
    }
}
proof fn lemma_tour_distinct(h: Heap, n: int, t: Seq<Edge>, i: int, j: int)
    requires tour_ok(h, n, t), 0 <= i < j < t.len(), t[i] == t[j]
    ensures false
    decreases t.len() - j
{
    if j < t.len() - 1 {
        assert(step(h, t[i]) == Some(t[i + 1]));
        assert(step(h, t[j]) == Some(t[j + 1]));
        lemma_tour_distinct(h, n, t, i + 1, j + 1);
    }
}
pub open spec fn tour_facts(h: Heap, root: int, t: Seq<Edge>) -> bool {
    &&& t.len() >= 2
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] nxt(h, t[i], root) == opt_edge(t, i + 1)
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] prv(h, t[i], root) == opt_edge(t, i - 1)
    &&& forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && #[trigger] t[i] == #[trigger] t[j] ==> i == j
}
proof fn lemma_tour(h: Heap, root: int, k: nat)
    requires wf(h), deep(h, root, k)
    ensures tour_facts(h, root, tour(h, root, k)), tour_ok(h, root, tour(h, root, k))
{
    let t = tour(h, root, k);
    lemma_tour_ok(h, root, k);
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && #[trigger] t[i] == #[trigger] t[j] implies i == j by {
        if i < j { lemma_tour_distinct(h, root, t, i, j); }
        if j < i { lemma_tour_distinct(h, root, t, j, i); }
    }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] nxt(h, t[i], root) == opt_edge(t, i + 1) by {
        if i < t.len() - 1 { assert(t[i] != t[t.len() - 1]); }
    }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] prv(h, t[i], root) == opt_edge(t, i - 1) by {
        if i > 0 { assert(t[i] != t[0]); }
    }
}
// every subtree of a well formed tree is finite
proof fn lemma_deep(h: Heap, n: int, kk: nat, j: nat)
    requires wf(h), depth_bound(h, kk), j == kk - height(h.parent, n, kk) + 1
    ensures deep(h, n, j)
    decreases j
{
    assert(rooted(h.parent, n, kk));
    lemma_height_le(h.parent, n, kk);
    assert forall|i: int| 0 <= i < h.kids[n].len() implies deep(h, #[trigger] h.kids[n][i], (j - 1) as nat) by {
        let c = h.kids[n][i];
        lemma_children_item(h, n, i);
        assert(rooted(h.parent, c, kk));
        lemma_height(h.parent, c, kk);
        lemma_height_le(h.parent, c, kk);
        lemma_deep(h, c, kk, (j - 1) as nat);
    }
}
proof fn lemma_height_le(a: IMap<int, Option<int>>, n: int, k: nat)
    requires rooted(a, n, k)
    ensures 0 <= height(a, n, k) <= k
    decreases k
{
    if a[n] is Some { lemma_height_le(a, a[n]->0, (k - 1) as nat); }
}
proof fn lemma_exists_deep(h: Heap, n: int)
    requires wf(h)
    ensures exists|k: nat| deep(h, n, k)
{
    let kk = choose|k: nat| depth_bound(h, k);
    assert(rooted(h.parent, n, kk));
    lemma_height_le(h.parent, n, kk);
    lemma_deep(h, n, kk, (kk - height(h.parent, n, kk) + 1) as nat);
}
pub open spec fn tr_ok(h: Heap, it: STraverse, k: nat, lo: int, hi: int) -> bool {
    let t = tour(h, it.root, k);
    &&& deep(h, it.root, k)
    &&& 0 <= lo <= hi <= t.len()
    &&& it.next == opt_edge(t, lo)
    &&& it.next_back == opt_edge(t, hi - 1)
}
// it2 is it moved on from lo to lo2, and every item skipped is an end edge
pub open spec fn skipped(h: Heap, it: STraverse, it2: STraverse, k: nat, lo: int, lo2: int, hi: int) -> bool {
    &&& it2.root == it.root
    &&& lo <= lo2 <= hi
    &&& tr_ok(h, it2, k, lo2, hi)
    &&& forall|j: int| lo <= j < lo2 ==> #[trigger] tour(h, it.root, k)[j] is End
}
// n is the next start edge at or after lo, and it2 goes on behind it
pub open spec fn descended(h: Heap, it: STraverse, it2: STraverse, k: nat, lo: int, i: int, hi: int, n: int) -> bool {
    &&& it2.root == it.root
    &&& lo <= i < hi
    &&& forall|j: int| lo <= j < i ==> #[trigger] tour(h, it.root, k)[j] is End
    &&& tour(h, it.root, k)[i] == Edge::Start(n)
    &&& tr_ok(h, it2, k, i + 1, hi)
}
// the place of a forward traversal is determined by the iterator
pub open spec fn tr_at(h: Heap, it: STraverse, k: nat, hi: int) -> int { choose|i: int| tr_ok(h, it, k, i, hi) }
proof fn lemma_tr_at(h: Heap, it: STraverse, k: nat, i: int, hi: int)
    requires wf(h), tr_ok(h, it, k, i, hi)
    ensures tr_at(h, it, k, hi) == i
{
    lemma_tour(h, it.root, k);
    let j = tr_at(h, it, k, hi);
    assert(tr_ok(h, it, k, j, hi));
    let t = tour(h, it.root, k);
    if i < t.len() && j < t.len() { assert(t[i] == t[j]); }
}

// ---------------------------------------------------------------- what an iterator still yields
// Children: the protocol (next yields the first of these and leaves the rest) is Children::next's contract itself
pub open spec fn ch_live(h: Heap, it: SChildren) -> bool { exists|p: int, lo: int, hi: int| ch_ok(h, it, p, lo, hi) }
pub open spec fn ch_items(h: Heap, it: SChildren, s: Seq<int>) -> bool { exists|p: int, lo: int, hi: int| ch_ok(h, it, p, lo, hi) && s == h.kids[p].subrange(lo, hi) }
pub open spec fn ch_rest(h: Heap, it: SChildren) -> Seq<int> { choose|s: Seq<int>| ch_items(h, it, s) }
proof fn lemma_ch_unique(h: Heap, it: SChildren, p: int, lo: int, hi: int, p2: int, lo2: int, hi2: int)
    requires wf(h), ch_ok(h, it, p, lo, hi), ch_ok(h, it, p2, lo2, hi2)
    ensures h.kids[p].subrange(lo, hi) == h.kids[p2].subrange(lo2, hi2)
{
    if lo < hi { lemma_children_item(h, p, lo); lemma_children_item(h, p, hi - 1); }
    if lo2 < hi2 { lemma_children_item(h, p2, lo2); lemma_children_item(h, p2, hi2 - 1); }
    if lo < h.kids[p].len() { lemma_children_item(h, p, lo); }
    if hi > 0 { lemma_children_item(h, p, hi - 1); }
    if lo2 < h.kids[p2].len() { lemma_children_item(h, p2, lo2); }
    if hi2 > 0 { lemma_children_item(h, p2, hi2 - 1); }
    if it.next is Some || it.next_back is Some { assert(p == p2); }
    assert(h.kids[p].subrange(lo, hi) =~= h.kids[p2].subrange(lo2, hi2));
}
proof fn lemma_ch_rest(h: Heap, it: SChildren)
    requires wf(h)
    ensures
        forall|p: int, lo: int, hi: int| #[trigger] ch_ok(h, it, p, lo, hi) ==> ch_rest(h, it) == h.kids[p].subrange(lo, hi),
        forall|p: int| #[trigger] ch_ok(h, it, p, 0, h.kids[p].len() as int) ==> ch_rest(h, it) == h.kids[p],
{
    assert forall|p: int, lo: int, hi: int| #[trigger] ch_ok(h, it, p, lo, hi) implies ch_rest(h, it) == h.kids[p].subrange(lo, hi) by {
        assert(ch_items(h, it, h.kids[p].subrange(lo, hi)));
        let s = ch_rest(h, it);
        let (p2, lo2, hi2) = choose|p2: int, lo2: int, hi2: int| ch_ok(h, it, p2, lo2, hi2) && s == h.kids[p2].subrange(lo2, hi2);
        lemma_ch_unique(h, it, p, lo, hi, p2, lo2, hi2);
    }
    assert forall|p: int| #[trigger] ch_ok(h, it, p, 0, h.kids[p].len() as int) implies ch_rest(h, it) == h.kids[p] by {
        assert(h.kids[p].subrange(0, h.kids[p].len() as int) =~= h.kids[p]);
    }
}
// the next child a filter lets through
pub open spec fn filtered(h: Heap, p: int, lo: int, hi: int, f: spec_fn(int) -> bool, at: Option<int>) -> bool {
    let to = if at is Some { lo + at->0 } else { hi };
    &&& lo <= to <= hi
    &&& forall|i: int| lo <= i < to ==> !f(#[trigger] h.kids[p][i])
    &&& at is Some ==> to < hi && f(h.kids[p][to]) && h.pos[h.kids[p][to]] == to
}
proof fn lemma_filter_kids(h: Heap, it: SChildren, f: spec_fn(int) -> bool)
    requires wf(h), ch_live(h, it)
    ensures forall|p: int, lo: int, hi: int| #[trigger] ch_ok(h, it, p, lo, hi) ==> filtered(h, p, lo, hi, f, seq_pos(ch_rest(h, it), f))
        && (seq_pos(ch_rest(h, it), f) is Some ==> ch_rest(h, it)[seq_pos(ch_rest(h, it), f)->0] == h.kids[p][lo + seq_pos(ch_rest(h, it), f)->0])
{
    let s = ch_rest(h, it);
    lemma_ch_rest(h, it);
    lemma_seq_pos(s, f);
    let at = seq_pos(s, f);
    assert forall|p: int, lo: int, hi: int| #[trigger] ch_ok(h, it, p, lo, hi) implies filtered(h, p, lo, hi, f, at) && (at is Some ==> s[at->0] == h.kids[p][lo + at->0]) by {
        assert(s == h.kids[p].subrange(lo, hi));
        let to = if at is Some { lo + at->0 } else { hi };
        assert forall|i: int| lo <= i < to implies !f(#[trigger] h.kids[p][i]) by { assert(s[i - lo] == h.kids[p][i]); }
        if at is Some { assert(wf_listed(h, p, to)); }
    }
}
// Descendants: the start edges
pub open spec fn starts(t: Seq<Edge>) -> Seq<int>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else { match t.last() { Edge::Start(n) => starts(t.drop_last()).push(n), Edge::End(_) => starts(t.drop_last()) } }
}
proof fn lemma_starts_join(a: Seq<Edge>, b: Seq<Edge>)
    ensures starts(a + b) == starts(a) + starts(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(starts(a) + starts(b) =~= starts(a)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_starts_join(a, b.drop_last());
        assert(starts(a + b) =~= starts(a) + starts(b));
    }
}
proof fn lemma_starts_ends(t: Seq<Edge>)
    requires forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) is End
    ensures starts(t) == Seq::<int>::empty()
    decreases t.len()
{
    if t.len() > 0 { assert(t[t.len() - 1] is End); assert forall|i: int| 0 <= i < t.drop_last().len() implies (#[trigger] t.drop_last()[i]) is End by { assert(t[i] is End); } lemma_starts_ends(t.drop_last()); }
}
proof fn lemma_starts_has(t: Seq<Edge>)
    ensures
        forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Start ==> starts(t).contains(node_of(t[i])),
        forall|j: int| 0 <= j < starts(t).len() ==> t.contains(Edge::Start(#[trigger] starts(t)[j])),
    decreases t.len()
{
    if t.len() > 0 {
        let d = t.drop_last();
        lemma_starts_has(d);
        let r = starts(t);
        let q = starts(d);
        assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Start implies r.contains(node_of(t[i])) by {
            if i < d.len() { assert(d[i] == t[i]); let j = choose|j: int| 0 <= j < q.len() && q[j] == node_of(d[i]); assert(r[j] == q[j]); }
            else { assert(r[q.len() as int] == node_of(t[i])); }
        }
        assert forall|j: int| 0 <= j < r.len() implies t.contains(Edge::Start(#[trigger] r[j])) by {
            if j < q.len() { assert(q[j] == r[j]); let i = choose|i: int| 0 <= i < d.len() && d[i] == Edge::Start(q[j]); assert(t[i] == d[i]); }
            else { assert(t[t.len() - 1] == Edge::Start(r[j])); }
        }
    }
}
// one call of next takes the first item off
proof fn lemma_des_next(h: Heap, it: STraverse, it2: STraverse, k: nat, lo: int, i: int, hi: int, n: int)
    requires descended(h, it, it2, k, lo, i, hi, n), tr_ok(h, it, k, lo, hi)
    ensures starts(tour(h, it.root, k).subrange(lo, hi)) == seq![n] + starts(tour(h, it.root, k).subrange(i + 1, hi))
{
    let t = tour(h, it.root, k);
    let a = t.subrange(lo, i);
    let b = seq![t[i]];
    let c = t.subrange(i + 1, hi);
    assert(t.subrange(lo, hi) =~= a + b + c);
    lemma_starts_join(a + b, c);
    lemma_starts_join(a, b);
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]) is End by { assert(t[lo + j] is End); }
    lemma_starts_ends(a);
    assert(b.drop_last() =~= Seq::<Edge>::empty());
    assert(starts(b.drop_last()) =~= Seq::<int>::empty());
    assert(b.last() == t[i]);
    assert(t[i] == Edge::Start(n));
    assert(starts(b) =~= seq![n]);
    assert(starts(a + b) =~= seq![n]);
}
proof fn lemma_des_end(h: Heap, it: STraverse, k: nat, lo: int, hi: int)
    requires tr_ok(h, it, k, lo, hi), forall|j: int| lo <= j < hi ==> #[trigger] tour(h, it.root, k)[j] is End
    ensures starts(tour(h, it.root, k).subrange(lo, hi)) == Seq::<int>::empty()
{
    let t = tour(h, it.root, k);
    let a = t.subrange(lo, hi);
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]) is End by { assert(t[lo + j] is End); }
    lemma_starts_ends(a);
}
proof fn lemma_tour_levels(h: Heap, n: int, k: nat, k2: nat)
    requires deep(h, n, k), deep(h, n, k2)
    ensures tour(h, n, k) == tour(h, n, k2)
    decreases k, 0nat
{
    assert forall|i: int| 0 <= i < h.kids[n].len() implies deep(h, #[trigger] h.kids[n][i], (k - 1) as nat) && deep(h, h.kids[n][i], (k2 - 1) as nat) by {}
    lemma_tours_levels(h, n, h.kids[n].len(), (k - 1) as nat, (k2 - 1) as nat);
}
proof fn lemma_tours_levels(h: Heap, p: int, m: nat, k: nat, k2: nat)
    requires m <= h.kids[p].len(), forall|i: int| 0 <= i < m ==> deep(h, #[trigger] h.kids[p][i], k) && deep(h, h.kids[p][i], k2)
    ensures tours(h, p, m, k) == tours(h, p, m, k2)
    decreases k, m + 1
{
    if m > 0 {
        assert(deep(h, h.kids[p][m - 1], k));
        lemma_tours_levels(h, p, (m - 1) as nat, k, k2);
        lemma_tour_levels(h, h.kids[p][m - 1], k, k2);
    }
}
// the nodes of a subtree, in document order
pub open spec fn subtree(h: Heap, n: int) -> Seq<int> { starts(tour(h, n, choose|k: nat| deep(h, n, k))) }
pub open spec fn des_live(h: Heap, it: STraverse) -> bool { exists|k: nat, lo: int, hi: int| tr_ok(h, it, k, lo, hi) }
pub open spec fn des_items(h: Heap, it: STraverse, s: Seq<int>) -> bool { exists|k: nat, lo: int, hi: int| tr_ok(h, it, k, lo, hi) && s == starts(tour(h, it.root, k).subrange(lo, hi)) }
pub open spec fn des_rest(h: Heap, it: STraverse) -> Seq<int> { choose|s: Seq<int>| des_items(h, it, s) }
proof fn lemma_des_unique(h: Heap, it: STraverse, k: nat, lo: int, hi: int, k2: nat, lo2: int, hi2: int)
    requires wf(h), tr_ok(h, it, k, lo, hi), tr_ok(h, it, k2, lo2, hi2)
    ensures starts(tour(h, it.root, k).subrange(lo, hi)) == starts(tour(h, it.root, k2).subrange(lo2, hi2))
{
    lemma_tour_levels(h, it.root, k, k2);
    lemma_tour(h, it.root, k);
    let t = tour(h, it.root, k);
    if it.next is Some { assert(t[lo] == t[lo2]); }
    if it.next_back is Some { assert(t[hi - 1] == t[hi2 - 1]); }
    assert(t.subrange(lo, hi) =~= t.subrange(lo2, hi2));
}
proof fn lemma_des_rest(h: Heap, it: STraverse)
    requires wf(h)
    ensures
        forall|k: nat, lo: int, hi: int| #[trigger] tr_ok(h, it, k, lo, hi) ==> des_rest(h, it) == starts(tour(h, it.root, k).subrange(lo, hi)),
        forall|k: nat| #[trigger] tr_ok(h, it, k, 0, tour(h, it.root, k).len() as int) ==> des_rest(h, it) == subtree(h, it.root),
        exists|k: nat| #[trigger] deep(h, it.root, k),
{
    lemma_exists_deep(h, it.root);
    assert forall|k: nat, lo: int, hi: int| #[trigger] tr_ok(h, it, k, lo, hi) implies des_rest(h, it) == starts(tour(h, it.root, k).subrange(lo, hi)) by {
        assert(des_items(h, it, starts(tour(h, it.root, k).subrange(lo, hi))));
        let s = des_rest(h, it);
        let (k2, lo2, hi2) = choose|k2: nat, lo2: int, hi2: int| tr_ok(h, it, k2, lo2, hi2) && s == starts(tour(h, it.root, k2).subrange(lo2, hi2));
        lemma_des_unique(h, it, k, lo, hi, k2, lo2, hi2);
    }
    assert forall|k: nat| #[trigger] tr_ok(h, it, k, 0, tour(h, it.root, k).len() as int) implies des_rest(h, it) == subtree(h, it.root) by {
        let t = tour(h, it.root, k);
        assert(t.subrange(0, t.len() as int) =~= t);
        lemma_tour_levels(h, it.root, k, choose|k2: nat| deep(h, it.root, k2));
    }
}
// the child on the way from n down to x
proof fn lemma_child_toward(h: Heap, n: int, x: int, j: nat) -> (c: int)
    requires wf(h), on_chain(h.parent, x, n, j), x != n
    ensures h.parent[c] == Some(n), above(h, c, x)
    decreases j
{
    let p = h.parent[x]->0;
    assert(on_chain(h.parent, p, n, (j - 1) as nat));
    if p == n {
        assert(on_chain(h.parent, x, x, 0));
        x
    } else {
        let c = lemma_child_toward(h, n, p, (j - 1) as nat);
        let m = choose|m: nat| on_chain(h.parent, p, c, m);
        assert(on_chain(h.parent, x, c, m + 1));
        c
    }
}
proof fn lemma_tour_covers(h: Heap, n: int, k: nat, x: int)
    requires wf(h), deep(h, n, k), above(h, n, x)
    ensures tour(h, n, k).contains(Edge::Start(x))
    decreases k
{
    let t = tour(h, n, k);
    if x == n { assert(t[0] == Edge::Start(n)); } else {
        let c = lemma_child_toward(h, n, x, choose|j: nat| on_chain(h.parent, x, n, j));
        assert(wf_child(h, c));
        let i = choose|i: int| 0 <= i < h.kids[n].len() && h.kids[n][i] == c;
        assert(deep(h, h.kids[n][i], (k - 1) as nat));
        lemma_tour_covers(h, c, (k - 1) as nat, x);
        lemma_tours_has(h, n, h.kids[n].len(), (k - 1) as nat, i, Edge::Start(x));
        let mid = tours(h, n, h.kids[n].len(), (k - 1) as nat);
        let j = choose|j: int| 0 <= j < mid.len() && mid[j] == Edge::Start(x);
        assert(t[j + 1] == mid[j]);
    }
}
proof fn lemma_tours_has(h: Heap, p: int, m: nat, k: nat, i: int, e: Edge)
    requires 0 <= i < m <= h.kids[p].len(), tour(h, h.kids[p][i], k).contains(e)
    ensures tours(h, p, m, k).contains(e)
    decreases m
{
    let a = tours(h, p, (m - 1) as nat, k);
    let b = tour(h, h.kids[p][m - 1], k);
    let t = tours(h, p, m, k);
    if i == m - 1 {
        let j = choose|j: int| 0 <= j < b.len() && b[j] == e;
        assert(t[a.len() + j] == e);
    } else {
        lemma_tours_has(h, p, (m - 1) as nat, k, i, e);
        let j = choose|j: int| 0 <= j < a.len() && a[j] == e;
        assert(t[j] == e);
    }
}
// exactly the nodes below n
proof fn lemma_subtree(h: Heap, n: int)
    requires wf(h)
    ensures forall|x: int| #[trigger] subtree(h, n).contains(x) <==> above(h, n, x)
{
    lemma_exists_deep(h, n);
    let k = choose|k: nat| deep(h, n, k);
    let t = tour(h, n, k);
    lemma_tour(h, n, k);
    lemma_starts_has(t);
    assert forall|x: int| #[trigger] subtree(h, n).contains(x) <==> above(h, n, x) by {
        if above(h, n, x) { lemma_tour_covers(h, n, k, x); let i = choose|i: int| 0 <= i < t.len() && t[i] == Edge::Start(x); assert(node_of(t[i]) == x); }
        if starts(t).contains(x) { let j = choose|j: int| 0 <= j < starts(t).len() && starts(t)[j] == x; let i = choose|i: int| 0 <= i < t.len() && t[i] == Edge::Start(starts(t)[j]); assert(above(h, n, node_of(t[i]))); }
    }
}
proof fn lemma_subtree_at(h: Heap, n: int)
    requires wf(h)
    ensures
        forall|i: int| 0 <= i < subtree(h, n).len() ==> above(h, n, #[trigger] subtree(h, n)[i]),
        forall|x: int| #[trigger] above(h, n, x) ==> exists|i: int| 0 <= i < subtree(h, n).len() && #[trigger] subtree(h, n)[i] == x,
{
    lemma_subtree(h, n);
    assert forall|i: int| 0 <= i < subtree(h, n).len() implies above(h, n, #[trigger] subtree(h, n)[i]) by { assert(subtree(h, n).contains(subtree(h, n)[i])); }
    assert forall|x: int| #[trigger] above(h, n, x) implies exists|i: int| 0 <= i < subtree(h, n).len() && #[trigger] subtree(h, n)[i] == x by { assert(subtree(h, n).contains(x)); }
}
// the order depends on the lists of children only
proof fn lemma_same_tour(h: Heap, g: Heap, n: int, k: nat)
    requires h.kids == g.kids
    ensures tour(h, n, k) == tour(g, n, k), deep(h, n, k) == deep(g, n, k)
    decreases k, 0nat
{
    if k > 0 {
        lemma_same_tours(h, g, n, h.kids[n].len(), (k - 1) as nat);
        assert forall|i: int| 0 <= i < h.kids[n].len() implies deep(h, #[trigger] h.kids[n][i], (k - 1) as nat) == deep(g, h.kids[n][i], (k - 1) as nat) by { lemma_same_tour(h, g, h.kids[n][i], (k - 1) as nat); }
    }
}
proof fn lemma_same_tours(h: Heap, g: Heap, p: int, m: nat, k: nat)
    requires h.kids == g.kids, m <= h.kids[p].len()
    ensures tours(h, p, m, k) == tours(g, p, m, k)
    decreases k, m + 1
{
    if m > 0 { lemma_same_tours(h, g, p, (m - 1) as nat, k); lemma_same_tour(h, g, h.kids[p][m - 1], k); }
}
