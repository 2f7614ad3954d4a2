// ---------------------------------------------------------------- src/parser/mod.rs
// what one declaration means
pub enum Parsed { Invalid, Cleared, Ref(Seq<char>, Option<PaintFallback>), Is(AttributeValue) }
pub struct X_roxmltree_Error { pub v: int }
pub struct X_roxmltree_TextPos { pub v: int }
pub enum ParserError { NoSvgElement, DomError(Error), RoXmlError(X_roxmltree_Error) }
// IEEE comparison: no number is below 0 and above 1
#[verifier::external_body]
proof fn axiom_f64_order()
    ensures forall|v: F64| #![trigger f64_lt(v, f64c(0))] #![trigger f64_lt(f64c(1000000), v)] !(f64_lt(v, f64c(0)) && f64_lt(f64c(1000000), v))
{}
pub open spec fn f64_clamp(min: F64, val: F64, max: F64) -> F64 { if f64_gt(val, max) { max } else if f64_lt(val, min) { min } else { val } }
// a whole text that is one number
pub open spec fn number_of(v: Seq<char>) -> Option<F64> {
    match stream_parse_number(ext_stream(v)) {
        Ok(x) => if stream_at_end(stream_after_parse_number(ext_stream(v))) { Some(x) } else { None },
        Err(_) => None,
    }
}
// path data up to its first error
pub open spec fn path_good(t: Seq<Result<X_PathSegment, X_svgtypes_Error>>) -> nat
    decreases t.len()
{
    if t.len() == 0 { 0 } else if path_good(t.drop_last()) == t.len() - 1 && t.last() is Ok { t.len() } else { path_good(t.drop_last()) }
}
pub open spec fn path_of(t: Seq<Result<X_PathSegment, X_svgtypes_Error>>) -> Seq<X_PathSegment> { Seq::new(path_good(t), |i: int| t[i]->Ok_0) }
pub open spec fn oks(t: Seq<Result<X_PathSegment, X_svgtypes_Error>>, n: int, d: Seq<X_PathSegment>) -> bool {
    0 <= n <= t.len() && d.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] t[i]) is Ok && d[i] == t[i]->Ok_0
}
proof fn lemma_path_good(t: Seq<Result<X_PathSegment, X_svgtypes_Error>>)
    ensures
        0 <= path_good(t) <= t.len(),
        forall|i: int| 0 <= i < path_good(t) ==> (#[trigger] t[i]) is Ok,
        path_good(t) < t.len() ==> t[path_good(t) as int] is Err,
    decreases t.len()
{
    if t.len() > 0 {
        let d = t.drop_last();
        lemma_path_good(d);
        assert forall|i: int| 0 <= i < path_good(t) implies (#[trigger] t[i]) is Ok by { if i < t.len() - 1 { assert(d[i] == t[i]); } }
        if path_good(d) < d.len() { assert(d[path_good(d) as int] == t[path_good(d) as int]); }
    }
}
proof fn lemma_oks()
    ensures forall|t: Seq<Result<X_PathSegment, X_svgtypes_Error>>, n: int, d: Seq<X_PathSegment>| #[trigger] oks(t, n, d) && (n == t.len() || t[n] is Err) ==> d == path_of(t)
{
    assert forall|t: Seq<Result<X_PathSegment, X_svgtypes_Error>>, n: int, d: Seq<X_PathSegment>| #[trigger] oks(t, n, d) && (n == t.len() || t[n] is Err) implies d == path_of(t) by {
        lemma_path_good(t);
        assert(path_good(t) == n) by { if path_good(t) < n { assert(t[path_good(t) as int] is Ok); } }
        assert(d =~= path_of(t));
    }
}

// ---------------------------------------------------------------- pending links
pub open spec fn pends(l: PLink, n: int, id: int) -> bool { l.node == n && l.attr_id == id }
// the links of the node that is being parsed are at the end, one per attribute
pub open spec fn pend_ok(s: Seq<PLink>, n: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).node == n ==> (#[trigger] s[j]).node == n
    &&& forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).node == n && (#[trigger] s[j]).node == n ==> s[i].attr_id != s[j].attr_id
}
pub open spec fn has_pend(s: Seq<PLink>, n: int, id: int) -> bool { exists|i: int| 0 <= i < s.len() && pends(#[trigger] s[i], n, id) }
pub open spec fn pend_at(s: Seq<PLink>, n: int, id: int) -> int { choose|i: int| 0 <= i < s.len() && pends(#[trigger] s[i], n, id) }
pub open spec fn unpend(s: Seq<PLink>, n: int, id: int) -> Seq<PLink> { if has_pend(s, n, id) { s.remove(pend_at(s, n, id)) } else { s } }
pub open spec fn pended(s: Seq<PLink>, n: int, id: int, iri: Seq<char>, fb: Option<PaintFallback>) -> Seq<PLink> {
    unpend(s, n, id).push(PLink { attr_id: id, iri: iri, fallback: fb, node: n })
}
proof fn lemma_unpend(s: Seq<PLink>, n: int, id: int)
    requires pend_ok(s, n)
    ensures
        forall|i: int| 0 <= i < s.len() && pends(#[trigger] s[i], n, id) ==> has_pend(s, n, id) && i == pend_at(s, n, id),
        has_pend(s, n, id) ==> ({ let p = pend_at(s, n, id); 0 <= p < s.len() && pends(s[p], n, id) && s.reverse()[s.len() - 1 - p] == s[p]
            && forall|j: int| p <= j < s.len() ==> (#[trigger] s[j]).node == n }),
{
    if has_pend(s, n, id) {
        let p = pend_at(s, n, id);
        assert(s.reverse()[s.len() - 1 - p] == s[p]);
    }
}
// taking a pending link away, or adding one, keeps the order
proof fn lemma_pend_ok(s: Seq<PLink>, n: int, id: int)
    requires pend_ok(s, n)
    ensures
        pend_ok(unpend(s, n, id), n),
        !has_pend(unpend(s, n, id), n, id),
        forall|iri: Seq<char>, fb: Option<PaintFallback>| pend_ok(#[trigger] pended(s, n, id, iri, fb), n),
{
    lemma_unpend(s, n, id);
    let u = unpend(s, n, id);
    assert(pend_ok(u, n));
    assert(!has_pend(u, n, id)) by {
        if has_pend(u, n, id) {
            let i = pend_at(u, n, id);
            if has_pend(s, n, id) {
                let p = pend_at(s, n, id);
                let k = if i < p { i } else { i + 1 };
                assert(u[i] == s[k]);
                assert(pends(s[k], n, id));
            }
        }
    }
    assert forall|iri: Seq<char>, fb: Option<PaintFallback>| pend_ok(#[trigger] pended(s, n, id, iri, fb), n) by {
        let q = pended(s, n, id, iri, fb);
        assert forall|i: int, j: int| 0 <= i < j < q.len() && (#[trigger] q[i]).node == n && (#[trigger] q[j]).node == n implies q[i].attr_id != q[j].attr_id by {
            if j == u.len() && q[i].attr_id == id { assert(pends(u[i], n, id)); }
        }
    }
}
// no declared value is a link
proof fn lemma_parsed_no_link(aid: int, eid: int, v: Seq<char>)
    ensures value_spec(aid, eid, v) is Is ==> target(value_spec(aid, eid, v)->Is_0) is None
{}
pub open spec fn empty_list(v: AttributeValue) -> bool {
    match v {
        AttributeValue::NumberList(l) => l.v.len() == 0,
        AttributeValue::LengthList(l) => l.v.len() == 0,
        AttributeValue::Path(l) => l.v.len() == 0,
        _ => false,
    }
}
// the effect of one declaration on the element n and the pending links
pub open spec fn declared(h0: Heap, l0: Seq<PLink>, h: Heap, l: Seq<PLink>, n: int, id: int, p: Parsed) -> bool {
    match p {
        Parsed::Invalid => h == h0 && l == l0,
        Parsed::Cleared => unset(h0, h, n, QName::Id(id)) && l == l0,
        Parsed::Ref(iri, fb) => h == h0 && l == pended(l0, n, id, iri, fb),
        Parsed::Is(v) => if empty_list(v) { h == h0 && l == l0 } else { set_to(h0, h, n, Attribute { name: QName::Id(id), value: v }) && l == unpend(l0, n, id) },
    }
}
pub struct X_roxmltree_Document { pub v: int }
