"""Contracts for src/tree.rs."""
from vc import Contract as C, Loop


def contracts():
    out = []
    S = [('shared', 'Some(self_)')]
    for f in ('parent', 'first_child', 'last_child', 'previous_sibling', 'next_sibling'):
        out.append(C('Node::' + f, 'self_: int', ret='Option<int>', pure='h0.%s[self_]' % f, footprint=S))
    out.append(C('Node::has_children', 'self_: int', ret='bool', pure='h0.first_child[self_] is Some', footprint=S))
    out.append(C('Node::eq', 'self_: int, other: int', ret='bool', pure='self_ == other', footprint=[]))
    out.append(C('Node::clone', 'self_: int', ret='int', pure='self_', footprint=[]))
    out.append(C('NodeEdge::eq', 'self_: Edge, other: Edge', ret='bool', pure='self_ == other', footprint=[]))
    out.append(C('NodeEdge::clone', 'self_: Edge', ret='Edge', pure='self_', footprint=[]))

    # ---- structural edits
    adj = [('mut', 'h0.parent[self_]'), ('mut', 'h0.previous_sibling[self_]'), ('mut', 'h0.next_sibling[self_]')]
    ghost_detach = dict(kids='post_detach(h0, %s).kids', pos='post_detach(h0, %s).pos')

    def gd(n):
        return {k: v % n for k, v in ghost_detach.items()}
    det = dict(requires=['wf(h0)'], heap=True, ghost=gd('self_'), entry=['lemma_near(h0, self_);'],
               ensures=['data_eq(h, h0)', 'is_detach(h0, h, self_)', 'wf(h)'],
               exit=['lemma_detach(h0, self_);', 'assert(ptr_eq(h, post_detach(h0, self_)));', 'lemma_same_tree_wf(h, post_detach(h0, self_));'])
    out.append(C('TreeData::detach', 'self_: cell int', footprint=adj, **det))
    out.append(C('Node::detach', 'self_: int', footprint=adj + [('mut', 'Some(self_)')], **det))

    def move(key, sib, p, i, extra_req=(), cond=None):
        a = 'new_sibling' if sib else 'new_child'
        g = 'post_insert(post_detach(h0, %s), %s, %s, %s)' % (a, p, i, a)
        ent = ['lemma_near(h0, self_);', 'lemma_near(h0, %s);' % a, 'lemma_detach(h0, %s);' % a, 'lemma_near(post_detach(h0, %s), self_);' % a,
               'lemma_near(post_detach(h0, %s), %s);' % (a, a)]
        ex = ['assert(ptr_eq(h, %s));' % g, 'lemma_move(h0, %s, %s, %s);' % (p, i, a), 'lemma_same_tree_wf(h, %s);' % g]
        ens = ['is_move(h0, h, %s, %s, %s)' % (p, i, a), 'wf(h)']
        req = ['wf(h0)', 'self_ != ' + a]
        if sib:
            req.append('h0.parent[self_] is Some ==> may_adopt(h0, h0.parent[self_]->0, %s)' % a)
            req.append('h0.parent[self_] != Some(%s)' % a)
            ens = ['h0.parent[self_] is Some ==> ' + e for e in ens]
            ex = ['if h0.parent[self_] is Some { lemma_after_detach(h0, self_, %s); %s }' % (a, ' '.join(ex))]
        else:
            req.append('may_adopt(h0, self_, %s)' % a)
        out.append(C(key, 'self_: int, %s: int' % a, heap=True, requires=req, ensures=['data_eq(h, h0)'] + ens, entry=ent, exit=ex, footprint='all_mut',
                     ghost=dict(kids='(%s).kids' % g, pos='(%s).pos' % g)))
    move('Node::append', False, 'self_', 'post_detach(h0, new_child).kids[self_].len() as int')
    move('Node::prepend', False, 'self_', '0')
    P = 'h0.parent[self_]->0'
    move('Node::insert_after', True, P, 'post_detach(h0, new_sibling).pos[self_] + 1')
    move('Node::insert_before', True, P, 'post_detach(h0, new_sibling).pos[self_]')

    # ---- root
    out.append(C('Node::root', 'self_: int', ret='int', requires=['wf(h0)'], footprint='all_shared',
                 ensures=['h0.parent[ret] is None', 'above(h0, ret, self_)'],
                 entry=['let kk = choose|k: nat| depth_bound(h0, k);', 'assert(on_chain(h0.parent, self_, self_, 0));'],
                 loops={0: Loop(['above(h0, root, self_)'], decreases='height(h0.parent, root, kk)',
                                body_hints=['assert(rooted(h0.parent, root, kk)); lemma_above_step(h0, root, self_); lemma_height(h0.parent, root, kk);'])}))
    return {c.key: c for c in out}


def iter_contracts():
    out = []
    ALL = 'all_shared'
    for it, f in (('Ancestors', 'parent'), ('PrecedingSiblings', 'previous_sibling'), ('FollowingSiblings', 'next_sibling')):
        out.append(C(it + '::next', 'self_: mut Option<int>', ret='Option<int>', footprint=ALL,
                     ensures=['ret == self_', 'new_self_ == (match self_ { Some(n) => h0.%s[n], None => None })' % f]))
    for m in ('ancestors', 'preceding_siblings', 'following_siblings'):
        out.append(C('Node::' + m, 'self_: int', ret='Option<int>', pure='Some(self_)', footprint=[]))
    out.append(C('Node::children', 'self_: int', ret='SChildren', requires=['wf(h0)'], ensures=['ch_ok(h0, ret, self_, 0, h0.kids[self_].len() as int)'],
                 entry=['assert(wf_ends(h0, self_));'], footprint=ALL))
    ch = dict(ret='Option<int>', footprint=ALL, ghosts=[('p', 'int'), ('lo', 'int'), ('hi', 'int')], gtrigger='ch_ok(h0, self_, p, lo, hi)',
              grequires=['wf(h0)', 'ch_ok(h0, self_, p, lo, hi)'],
              entry=['lemma_children_unequal(h0, p);', 'if lo < hi { lemma_children_item(h0, p, lo); }', 'if hi > 0 { lemma_children_item(h0, p, hi - 1); }'])
    out.append(C('Children::next', 'self_: mut SChildren',
                 ensures=['self_.next is None ==> ret is None'],
                 gensures=['lo < hi ==> ret == Some(h0.kids[p][lo]) && ch_ok(h0, new_self_, p, lo + 1, hi)', 'lo >= hi ==> ret is None && ch_ok(h0, new_self_, p, lo, hi)'], **ch))
    out.append(C('Children::next_back', 'self_: mut SChildren',
                 gensures=['lo < hi ==> ret == Some(h0.kids[p][hi - 1]) && ch_ok(h0, new_self_, p, lo, hi - 1)', 'lo >= hi ==> ret is None && ch_ok(h0, new_self_, p, lo, hi)'], **ch))
    out.append(C('NodeEdge::next_item', 'self_: Edge, root: int', ret='Option<Edge>', pure='nxt(h0, self_, root)', footprint=ALL))
    out.append(C('NodeEdge::previous_item', 'self_: Edge, root: int', ret='Option<Edge>', pure='prv(h0, self_, root)', footprint=ALL))
    out.append(C('Node::traverse', 'self_: int', ret='STraverse', requires=['wf(h0)'], footprint=ALL,
                 ensures=['ret.root == self_'], ghosts=[('k', 'nat')], grequires=['deep(h0, self_, k)'], gtrigger='deep(h0, self_, k)',
                 entry=['lemma_tour(h0, self_, k);'], gensures=['tr_ok(h0, ret, k, 0, tour(h0, self_, k).len() as int)']))
    out.append(C('Node::descendants', 'self_: int', ret='STraverse', requires=['wf(h0)'], footprint=ALL,
                 ensures=['ret.root == self_'], ghosts=[('k', 'nat')], grequires=['deep(h0, self_, k)'], gtrigger='deep(h0, self_, k)',
                 entry=['lemma_tour(h0, self_, k);'], gensures=['tr_ok(h0, ret, k, 0, tour(h0, self_, k).len() as int)']))
    tr = dict(ret='Option<Edge>', footprint=ALL, ghosts=[('k', 'nat'), ('lo', 'int'), ('hi', 'int')], gtrigger='tr_ok(h0, self_, k, lo, hi)',
              grequires=['wf(h0)', 'tr_ok(h0, self_, k, lo, hi)'],
              entry=['lemma_tour(h0, self_.root, k);', 'let t = tour(h0, self_.root, k);', 'if hi > 0 { assert(nxt(h0, t[hi - 1], self_.root) == opt_edge(t, hi)); }',
                     'if lo < t.len() { let x = t[lo]; assert(nxt(h0, x, self_.root) == opt_edge(t, lo + 1)); }'], ensures=['new_self_.root == self_.root'])
    out.append(C('Traverse::next', 'self_: mut STraverse',
                 gensures=['lo < hi ==> ret == Some(tour(h0, self_.root, k)[lo]) && tr_ok(h0, new_self_, k, lo + 1, hi)', 'lo >= hi ==> ret is None && tr_ok(h0, new_self_, k, lo, hi)'], **tr))
    out.append(C('Traverse::next_back', 'self_: mut STraverse',
                 gensures=['lo < hi ==> ret == Some(tour(h0, self_.root, k)[hi - 1]) && tr_ok(h0, new_self_, k, lo, hi - 1)', 'lo >= hi ==> ret is None && tr_ok(h0, new_self_, k, lo, hi)'], **tr))
    cur = 'STraverse { root: self__root, next: self__next, next_back: self__next_back }'
    out.append(C('Descendants::next', 'self_: mut STraverse', ret='Option<int>', footprint=ALL, ghosts=[('k', 'nat'), ('lo', 'int'), ('hi', 'int')],
                 gtrigger='tr_ok(h0, self_, k, lo, hi)', grequires=['wf(h0)', 'tr_ok(h0, self_, k, lo, hi)'],
                 entry=['assert(skipped(h0, self_, self_, k, lo, lo, hi));'],
                 loops={0: Loop(['exists|i: int| skipped(h0, self_, %s, k, lo, i, hi)' % cur], skolem=[('at', 'choose|i: int| skipped(h0, self_, %s, k, lo, i, hi)' % cur)],
                                back_hints=['assert(skipped(h0, self_, %s, k, lo, at + 1, hi)); lemma_tr_at(h0, %s, k, at + 1, hi);' % (cur, cur)],
                                decreases='hi - tr_at(h0, %s, k, hi)' % cur,
                                body_hints=['lemma_tr_at(h0, %s, k, at, hi);' % cur])},
                 exit=['if ret is Some { assert(descended(h0, self_, new_self_, k, lo, at, hi, ret->0)); }'],
                 gensures=['ret is Some ==> exists|i: int| #[trigger] descended(h0, self_, new_self_, k, lo, i, hi, ret->0)',
                           'ret is None ==> forall|j: int| lo <= j < hi ==> #[trigger] tour(h0, self_.root, k)[j] is End']))
    return {c.key: c for c in out}
