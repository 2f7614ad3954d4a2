// ---------------------------------------------------------------- value types
pub enum QName { Id(int), Name(Seq<char>) }
pub enum Edge { Start(int), End(int) }
pub enum PaintFallback { None, CurrentColor, Color(X_svgtypes_Color) }
pub struct F64 { pub v: int }
pub struct X_svgtypes_Color { pub v: int }
pub struct X_svgtypes_AspectRatio { pub v: int }
pub struct X_svgtypes_Length { pub num: F64, pub unit: int }
pub struct X_svgtypes_LengthList { pub v: Seq<X_svgtypes_Length> }
pub struct X_svgtypes_Angle { pub v: int }
pub struct X_svgtypes_NumberList { pub v: Seq<F64> }
pub struct X_PathSegment { pub v: int }
pub struct X_svgtypes_Path { pub v: Seq<X_PathSegment> }
pub struct X_svgtypes_Points { pub v: int }
pub struct X_svgtypes_Transform { pub v: int }
pub struct X_svgtypes_ViewBox { pub v: int }
pub uninterp spec fn svg_color(r: int, g: int, b: int) -> X_svgtypes_Color;
pub open spec fn svg_length(v: F64, unit: int) -> X_svgtypes_Length { X_svgtypes_Length { num: v, unit: unit } }
pub enum AttributeValue {
    None, Inherit, CurrentColor,
    AspectRatio(X_svgtypes_AspectRatio), Color(X_svgtypes_Color), FuncLink(int), Paint(int, Option<PaintFallback>),
    Length(X_svgtypes_Length), LengthList(X_svgtypes_LengthList), Angle(X_svgtypes_Angle), Link(int), Number(F64),
    NumberList(X_svgtypes_NumberList), Path(X_svgtypes_Path), Points(X_svgtypes_Points), Transform(X_svgtypes_Transform),
    ViewBox(X_svgtypes_ViewBox), String(Seq<char>),
}
pub enum Error { ElementMustHaveAnId, ElementCrosslink }
pub struct Attribute { pub name: QName, pub value: AttributeValue }
pub struct SChildren { pub next: Option<int>, pub next_back: Option<int> }
pub struct STraverse { pub root: int, pub next: Option<Edge>, pub next_back: Option<Edge> }
pub struct SDocument { pub root: int, pub storage: IMap<int, int> }
pub struct Pred { pub v: int }
pub uninterp spec fn pred(p: Pred, h: Heap, n: int) -> bool;
pub uninterp spec fn f64_eq(a: F64, b: F64) -> bool;
pub uninterp spec fn f64_lt(a: F64, b: F64) -> bool;
pub open spec fn f64_le(a: F64, b: F64) -> bool { f64_lt(a, b) || f64_eq(a, b) }
pub open spec fn f64_gt(a: F64, b: F64) -> bool { f64_lt(b, a) }
pub open spec fn f64_ge(a: F64, b: F64) -> bool { f64_le(b, a) }
pub uninterp spec fn f64c(millionths: int) -> F64;
pub uninterp spec fn f64_of_int(v: int) -> F64;
// the UTF-8 encoding
pub open spec fn utf8_char(c: char) -> Seq<int> {
    let n = c as int;
    if n < 0x80 { seq![n] }
    else if n < 0x800 { seq![192 + n / 64, 128 + n % 64] }
    else if n < 0x10000 { seq![224 + n / 4096, 128 + n / 64 % 64, 128 + n % 64] }
    else { seq![240 + n / 262144, 128 + n / 4096 % 64, 128 + n / 64 % 64, 128 + n % 64] }
}
#[verifier::opaque]
pub open spec fn utf8(s: Seq<char>) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { utf8(s.drop_last()) + utf8_char(s.last()) }
}
pub open spec fn utf8_len(s: Seq<char>) -> int { utf8(s).len() as int }
pub uninterp spec fn str_trim(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn any_value<A>(k: int) -> A;

// the entries of a slab, in some order
pub open spec fn slab_lists(m: IMap<int, int>, s: Seq<(int, int)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: int| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn slab_seq(m: IMap<int, int>) -> Seq<(int, int)> { choose|s: Seq<(int, int)>| slab_lists(m, s) }
// a free place of a slab
pub open spec fn slab_vacant(m: IMap<int, int>) -> int { choose|k: int| !m.contains_key(k) }

// ---------------------------------------------------------------- sequences
pub open spec fn seq_any<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) }
pub open spec fn is_first<A>(s: Seq<A>, f: spec_fn(A) -> bool, i: int) -> bool {
    0 <= i < s.len() && f(s[i]) && forall|j: int| 0 <= j < i ==> !f(#[trigger] s[j])
}
pub open spec fn seq_pos<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> Option<int> {
    if exists|i: int| is_first(s, f, i) { Some(choose|i: int| is_first(s, f, i)) } else { None }
}
proof fn lemma_seq_pos_some<A>(s: Seq<A>, f: spec_fn(A) -> bool, i: int)
    requires 0 <= i < s.len(), f(s[i])
    ensures exists|j: int| is_first(s, f, j)
    decreases i
{
    if exists|j: int| 0 <= j < i && f(#[trigger] s[j]) {
        let j = choose|j: int| 0 <= j < i && f(#[trigger] s[j]);
        lemma_seq_pos_some(s, f, j);
    } else {
        assert(is_first(s, f, i));
    }
}
proof fn lemma_seq_pos<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    ensures
        seq_pos(s, f) is Some ==> is_first(s, f, seq_pos(s, f)->0),
        seq_pos(s, f) is None ==> forall|j: int| 0 <= j < s.len() ==> !f(#[trigger] s[j]),
        seq_pos(s, f) is Some <==> seq_any(s, f),
{
    if exists|j: int| 0 <= j < s.len() && f(#[trigger] s[j]) {
        let j = choose|j: int| 0 <= j < s.len() && f(#[trigger] s[j]);
        lemma_seq_pos_some(s, f, j);
    }
}

// the leading elements that satisfy f
pub open spec fn seq_while<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> Seq<A> {
    match seq_pos(s, |x: A| !f(x)) { Some(i) => s.take(i), None => s }
}
pub struct PLink { pub attr_id: int, pub iri: Seq<char>, pub fallback: Option<PaintFallback>, pub node: int }
pub struct SLinks { pub list: Seq<PLink> }
pub enum Paint { None, Inherit, CurrentColor, Color(X_svgtypes_Color), FuncIRI(Seq<char>, Option<PaintFallback>) }
pub struct X_svgtypes_Error { pub v: int }
pub struct X_Stream { pub v: int }
proof fn lemma_seq_while<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    ensures
        seq_while(s, f).len() <= s.len(),
        forall|i: int| 0 <= i < seq_while(s, f).len() ==> (#[trigger] s[i]) == seq_while(s, f)[i] && f(s[i]),
        seq_while(s, f).len() < s.len() ==> !f(s[seq_while(s, f).len() as int]),
{
    let g = |x: A| !f(x);
    lemma_seq_pos(s, g);
    if seq_pos(s, g) is Some {
        let k = seq_pos(s, g)->0;
        assert forall|i: int| 0 <= i < k implies f(#[trigger] s[i]) by { assert(!g(s[i])); }
        assert(g(s[k]));
    } else {
        assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) by { assert(!g(s[i])); }
    }
}

pub open spec fn seq_map<A, B>(s: Seq<A>, f: spec_fn(A) -> B) -> Seq<B> { Seq::new(s.len(), |i: int| f(s[i])) }
pub open spec fn seq_filter_map<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>) -> Seq<B>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match f(s.last()) { Some(b) => seq_filter_map(s.drop_last(), f).push(b), None => seq_filter_map(s.drop_last(), f) }
    }
}
// where an element of the result comes from
proof fn lemma_filter_map_at<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>)
    ensures
        forall|j: int| 0 <= j < seq_filter_map(s, f).len() ==> exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) == Some(#[trigger] seq_filter_map(s, f)[j]),
        forall|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) is Some ==> seq_filter_map(s, f).contains(f(s[i])->0),
        (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) is None) ==> seq_filter_map(s, f).len() == 0,
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        let r = seq_filter_map(s, f);
        let q = seq_filter_map(d, f);
        lemma_filter_map_at(d, f);
        assert forall|j: int| 0 <= j < r.len() implies exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) == Some(#[trigger] r[j]) by {
            if j < q.len() {
                assert(r[j] == q[j]);
                let i = choose|i: int| 0 <= i < d.len() && f(#[trigger] d[i]) == Some(q[j]);
                assert(s[i] == d[i]);
            } else {
                assert(f(s[s.len() - 1]) == Some(r[j]));
            }
        }
        assert forall|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) is Some implies r.contains(f(s[i])->0) by {
            if i < d.len() {
                assert(d[i] == s[i]);
                let j = choose|j: int| 0 <= j < q.len() && q[j] == f(d[i])->0;
                assert(r[j] == q[j]);
            } else { assert(r[q.len() as int] == f(s[i])->0); }
        }
        if forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) is None {
            assert(f(s[s.len() - 1]) is None);
            assert forall|i: int| 0 <= i < d.len() implies f(#[trigger] d[i]) is None by { assert(f(s[i]) is None); }
        }
    }
}
pub open spec fn fm_first<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>, i: int) -> bool {
    &&& 0 <= i < s.len()
    &&& f(s[i]) is Some
    &&& forall|j: int| 0 <= j < i ==> f(#[trigger] s[j]) is None
}
pub open spec fn fm_one_to_one<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() && f(#[trigger] s[i]) is Some && f(#[trigger] s[j]) is Some ==> f(s[i]) != f(s[j])
}
proof fn lemma_filter_map_distinct<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>)
    requires fm_one_to_one(s, f)
    ensures seq_filter_map(s, f).no_duplicates()
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        let q = seq_filter_map(d, f);
        let r = seq_filter_map(s, f);
        assert forall|i: int, j: int| 0 <= i < j < d.len() && f(#[trigger] d[i]) is Some && f(#[trigger] d[j]) is Some implies f(d[i]) != f(d[j]) by { assert(d[i] == s[i] && d[j] == s[j]); }
        lemma_filter_map_distinct(d, f);
        lemma_filter_map_at(d, f);
        if f(s.last()) is Some {
            let z = f(s.last())->0;
            assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] != z by {
                let i = choose|i: int| 0 <= i < d.len() && f(#[trigger] d[i]) == Some(q[j]);
                assert(d[i] == s[i]);
                assert(s[s.len() - 1] == s.last());
                assert(f(s[i]) != f(s[s.len() - 1]));
            }
            assert(r == q.push(z));
            assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
                if i < q.len() && j < q.len() { assert(q[i] != q[j]); } else if i < q.len() { assert(q[i] != z); } else { assert(q[j] != z); }
            }
        } else { assert(r == q); }
    }
}
proof fn lemma_filter_map_first<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>)
    ensures
        seq_filter_map(s, f).len() > 0 ==> exists|i: int| #[trigger] fm_first(s, f, i) && f(s[i]) == Some(seq_filter_map(s, f)[0]),
        seq_filter_map(s, f).len() == 0 ==> forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) is None,
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        let q = seq_filter_map(d, f);
        let r = seq_filter_map(s, f);
        lemma_filter_map_first(d, f);
        if r.len() > 0 {
            if q.len() > 0 {
                let i = choose|i: int| #[trigger] fm_first(d, f, i) && f(d[i]) == Some(q[0]);
                assert forall|j: int| 0 <= j < i implies f(#[trigger] s[j]) is None by { assert(f(d[j]) is None); }
                assert(d[i] == s[i]);
                assert(fm_first(s, f, i));
                assert(r[0] == q[0]);
            } else {
                assert forall|j: int| 0 <= j < s.len() - 1 implies f(#[trigger] s[j]) is None by { assert(d[j] == s[j]); }
                assert(fm_first(s, f, s.len() - 1));
            }
        } else {
            assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) is None by { if i < d.len() { assert(d[i] == s[i]); } else { assert(s[i] == s.last()); } }
        }
    }
}
proof fn lemma_filter_map<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>)
    ensures
        forall|j: int| 0 <= j < seq_filter_map(s, f).len() ==> exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) == Some(#[trigger] seq_filter_map(s, f)[j]),
        forall|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) is Some ==> seq_filter_map(s, f).contains(f(s[i])->0),
        fm_one_to_one(s, f) ==> seq_filter_map(s, f).no_duplicates(),
        seq_filter_map(s, f).len() > 0 ==> exists|i: int| #[trigger] fm_first(s, f, i) && f(s[i]) == Some(seq_filter_map(s, f)[0]),
        seq_filter_map(s, f).len() == 0 ==> forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) is None,
{
    lemma_filter_map_at(s, f);
    lemma_filter_map_first(s, f);
    if fm_one_to_one(s, f) { lemma_filter_map_distinct(s, f); }
}
// a stable sort
pub open spec fn seq_put<A>(s: Seq<A>, x: A, key: spec_fn(A) -> int) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { seq![x] } else if key(s.last()) <= key(x) { s.push(x) } else { seq_put(s.drop_last(), x, key).push(s.last()) }
}
pub open spec fn seq_sort<A>(s: Seq<A>, key: spec_fn(A) -> int) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { s } else { seq_put(seq_sort(s.drop_last(), key), s.last(), key) }
}
pub open spec fn in_order<A>(s: Seq<A>, key: spec_fn(A) -> int) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> key(#[trigger] s[i]) <= key(#[trigger] s[j]) }
proof fn lemma_seq_put<A>(s: Seq<A>, x: A, key: spec_fn(A) -> int)
    requires in_order(s, key)
    ensures
        in_order(seq_put(s, x, key), key), seq_put(s, x, key).len() == s.len() + 1,
        forall|y: A| #[trigger] seq_put(s, x, key).contains(y) <==> y == x || s.contains(y),
        s.no_duplicates() && !s.contains(x) ==> seq_put(s, x, key).no_duplicates(),
    decreases s.len()
{
    let r = seq_put(s, x, key);
    if s.len() == 0 {
        assert(r[0] == x);
    } else if key(s.last()) <= key(x) {
        assert(r == s.push(x));
        assert(r[s.len() as int] == x);
        assert forall|y: A| #[trigger] r.contains(y) <==> y == x || s.contains(y) by {
            if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(r[i] == y); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies key(#[trigger] r[i]) <= key(#[trigger] r[j]) by {
            if j == s.len() && i < s.len() - 1 { assert(key(s[i]) <= key(s[s.len() - 1])); }
        }
    } else {
        let d = s.drop_last();
        let q = seq_put(d, x, key);
        assert(in_order(d, key));
        lemma_seq_put(d, x, key);
        assert(r == q.push(s.last()));
        assert(r[q.len() as int] == s.last());
        assert forall|y: A| #[trigger] r.contains(y) <==> y == x || s.contains(y) by {
            if s.contains(y) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                if i < d.len() { assert(d[i] == y); assert(q.contains(y)); let j = choose|j: int| 0 <= j < q.len() && q[j] == y; assert(r[j] == y); }
            }
            if y == x { assert(q.contains(x)); let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(r[j] == x); }
            if r.contains(y) {
                let j = choose|j: int| 0 <= j < r.len() && r[j] == y;
                if j < q.len() { assert(q[j] == y); assert(q.contains(y)); if y != x { let i = choose|i: int| 0 <= i < d.len() && d[i] == y; assert(s[i] == y); } }
                else { assert(s[s.len() - 1] == y); }
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies key(#[trigger] r[i]) <= key(#[trigger] r[j]) by {
            if j == q.len() {
                assert(q[i] == r[i]);
                assert(q.contains(r[i]));
                if r[i] != x { let m = choose|m: int| 0 <= m < d.len() && d[m] == r[i]; assert(s[m] == r[i]); assert(key(s[m]) <= key(s[s.len() - 1])); }
            }
        }
        if s.no_duplicates() && !s.contains(x) {
            assert(!d.contains(x)) by { if d.contains(x) { let m = choose|m: int| 0 <= m < d.len() && d[m] == x; assert(s[m] == x); } }
            assert(d.no_duplicates());
            assert(!q.contains(s.last())) by {
                if q.contains(s.last()) {
                    assert(s.last() != x) by { if s.last() == x { assert(s[s.len() - 1] == x); } }
                    let m = choose|m: int| 0 <= m < d.len() && d[m] == s.last();
                    assert(s[m] == s[s.len() - 1]);
                }
            }
            assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
                if i < q.len() { assert(q.contains(q[i])); }
                if j < q.len() { assert(q.contains(q[j])); }
            }
        }
    }
}
proof fn lemma_seq_sort<A>(s: Seq<A>, key: spec_fn(A) -> int)
    ensures
        in_order(seq_sort(s, key), key), seq_sort(s, key).len() == s.len(),
        forall|y: A| #[trigger] seq_sort(s, key).contains(y) <==> s.contains(y),
        s.no_duplicates() ==> seq_sort(s, key).no_duplicates(),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_seq_sort(d, key);
        lemma_seq_put(seq_sort(d, key), s.last(), key);
        assert forall|y: A| #[trigger] seq_sort(s, key).contains(y) <==> s.contains(y) by {
            if s.contains(y) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                if i < d.len() { assert(d[i] == y); assert(d.contains(y)); }
            }
            if y == s.last() { assert(s[s.len() - 1] == y); }
            if d.contains(y) { let i = choose|i: int| 0 <= i < d.len() && d[i] == y; assert(s[i] == y); }
        }
        if s.no_duplicates() {
            assert(d.no_duplicates());
            assert(!d.contains(s.last())) by { if d.contains(s.last()) { let i = choose|i: int| 0 <= i < d.len() && d[i] == s.last(); assert(s[i] == s[s.len() - 1]); } }
        }
    }
}
pub open spec fn is_prefix<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && b.take(a.len() as int) =~= a }
pub open spec fn starts_with(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) =~= p }
pub uninterp spec fn hex_text(n: int) -> Seq<char>;
