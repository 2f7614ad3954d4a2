// ---------------------------------------------------------------- writing
// what the writer is told, in order; xmlwriter turns it into text
pub struct X_Indent { pub v: int }
pub enum Ev { Start(Seq<char>), Attr(Seq<char>, Seq<int>), Comment(Seq<char>), Text(Seq<char>), End, Preserve(bool) }
pub struct X_xmlwriter_Options { pub use_single_quote: bool, pub indent: X_Indent, pub attributes_indent: X_Indent }
pub struct X_XmlWriter { pub opt: X_xmlwriter_Options, pub ev: Seq<Ev> }
pub struct SWriteOptions { pub use_single_quote: bool, pub indent: X_Indent, pub attributes_indent: X_Indent, pub values: X_svgtypes_WriteOptions }
pub open spec fn xw(w: X_XmlWriter, e: Ev) -> X_XmlWriter { X_XmlWriter { opt: w.opt, ev: w.ev.push(e) } }
pub open spec fn xw_all(w: X_XmlWriter, e: Seq<Ev>) -> X_XmlWriter { X_XmlWriter { opt: w.opt, ev: w.ev + e } }
pub open spec fn in_tag(ev: Seq<Ev>) -> bool { ev.len() > 0 && (ev.last() is Start || ev.last() is Attr) }
pub open spec fn xw_depth(ev: Seq<Ev>) -> int
    decreases ev.len()
{
    if ev.len() == 0 { 0 } else {
        let d = xw_depth(ev.drop_last());
        match ev.last() { Ev::Start(_) => d + 1, Ev::End => if d > 0 { d - 1 } else { 0 }, _ => d }
    }
}
pub uninterp spec fn xml_text(opt: X_xmlwriter_Options, ev: Seq<Ev>) -> Seq<char>;
pub open spec fn appended(a: Seq<int>, b: Seq<int>) -> Seq<int> { b.skip(a.len() as int) }
proof fn lemma_appended(a: Seq<int>)
    ensures forall|t: Seq<int>| #[trigger] (a + t) == a + t ==> appended(a, a + t) == t && is_prefix(a, a + t)
{
    assert forall|t: Seq<int>| #[trigger] (a + t) == a + t implies appended(a, a + t) == t && is_prefix(a, a + t) by {
        assert((a + t).skip(a.len() as int) =~= t);
        assert((a + t).take(a.len() as int) =~= a);
    }
}
// character references for every character, unless the text is written as references already
pub open spec fn escs(s: Seq<char>) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { escs(s.drop_last()) + (seq![38int, 35, 120] + utf8(hex_text(s.last() as int)) + seq![59int]) }
}
pub open spec fn escaped(s: Seq<char>) -> Seq<int> { if starts_with(s, seq!['&', '#']) { utf8(s) } else { escs(s) } }
proof fn lemma_escs_next(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures escs(s.take(i + 1)) == escs(s.take(i)) + (seq![38int, 35, 120] + utf8(hex_text(s[i] as int)) + seq![59int])
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
// ---- one start tag
pub open spec fn attr_name(id: int) -> Seq<char> {
    if id == AID_Href { w_href() }
    else if id == AID_Space { w_space() }
    else { of_utf8(names_AttributeId()[id]) }
}
pub open spec fn svg_ev(h: Heap, s: Seq<Attribute>, id: int, opt: X_svgtypes_WriteOptions) -> Seq<Ev> {
    match lookup(s, QName::Id(id)) {
        None => Seq::empty(),
        Some(v) => if id == AID_Unicode {
            match v { AttributeValue::String(t) => seq![Ev::Attr(attr_name(id), escaped(t))], _ => Seq::empty() }
        } else { seq![Ev::Attr(attr_name(id), value_text(h, v, opt))] },
    }
}
// the SVG attributes with ids below k, in the order of their ids
pub open spec fn svg_evs(h: Heap, s: Seq<Attribute>, k: nat, opt: X_svgtypes_WriteOptions) -> Seq<Ev>
    decreases k
{
    if k == 0 { Seq::empty() } else { svg_evs(h, s, (k - 1) as nat, opt) + svg_ev(h, s, k - 1, opt) }
}
// the custom attributes, in stored order
pub open spec fn custom_evs(h: Heap, s: Seq<Attribute>, opt: X_svgtypes_WriteOptions) -> Seq<Ev>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last().name {
            QName::Name(n) => custom_evs(h, s.drop_last(), opt).push(Ev::Attr(n, value_text(h, s.last().value, opt))),
            QName::Id(_) => custom_evs(h, s.drop_last(), opt),
        }
    }
}
pub open spec fn top_svg(h: Heap, n: int) -> bool { h.tag_name[n] == QName::Id(EID_Svg) && h.parent[n] is Some && h.node_type[h.parent[n]->0] == NT_Root }
pub open spec fn href_below(h: Heap, n: int) -> bool { exists|x: int| above(h, n, x) && #[trigger] has_name(h.attributes[x], QName::Id(AID_Href)) }
pub open spec fn ns_evs(h: Heap, n: int) -> Seq<Ev> {
    if !top_svg(h, n) { Seq::empty() }
    else if href_below(h, n) { seq![Ev::Attr(w_xmlns(), utf8(w_svg_uri())), Ev::Attr(w_xmlns_xlink(), utf8(w_xlink_uri()))] }
    else { seq![Ev::Attr(w_xmlns(), utf8(w_svg_uri()))] }
}
pub open spec fn id_evs(h: Heap, n: int) -> Seq<Ev> { if h.id[n].len() > 0 { seq![Ev::Attr(seq!['i', 'd'], utf8(h.id[n]))] } else { Seq::empty() } }
pub open spec fn head_evs(h: Heap, n: int) -> Seq<Ev> { ns_evs(h, n) + id_evs(h, n) }
pub open spec fn attr_evs(h: Heap, n: int, opt: X_svgtypes_WriteOptions) -> Seq<Ev> {
    head_evs(h, n) + svg_evs(h, h.attributes[n], aid_total(), opt) + custom_evs(h, h.attributes[n], opt)
}
pub open spec fn ids_valid(s: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name is Id ==> 0 <= s[i].name->Id_0 < aid_total() }
// the ids an attribute list has, in ascending order
pub open spec fn ids_of(s: Seq<Attribute>, ids: Seq<(int, QName)>) -> bool {
    &&& forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]).1 == QName::Id(ids[i].0) && has_name(s, QName::Id(ids[i].0)) && 0 <= ids[i].0 < aid_total()
    &&& forall|i: int, j: int| 0 <= i < j < ids.len() ==> (#[trigger] ids[i]).0 < (#[trigger] ids[j]).0
    &&& forall|x: int| #[trigger] has_name(s, QName::Id(x)) ==> exists|i: int| 0 <= i < ids.len() && (#[trigger] ids[i]).0 == x
}
pub open spec fn id_bound(ids: Seq<(int, QName)>, i: int) -> nat { if 0 < i <= ids.len() { (ids[i - 1].0 + 1) as nat } else { 0 } }
proof fn lemma_svg_gap(h: Heap, s: Seq<Attribute>, a: nat, b: nat, opt: X_svgtypes_WriteOptions)
    requires a <= b, forall|x: int| a <= x < b ==> !#[trigger] has_name(s, QName::Id(x))
    ensures svg_evs(h, s, b, opt) == svg_evs(h, s, a, opt)
    decreases b - a
{
    if a < b {
        lemma_svg_gap(h, s, a, (b - 1) as nat, opt);
        assert(!has_name(s, QName::Id(b - 1)));
        assert(svg_evs(h, s, b, opt) =~= svg_evs(h, s, (b - 1) as nat, opt));
    }
}
proof fn lemma_svg_next(h: Heap, s: Seq<Attribute>, ids: Seq<(int, QName)>, i: int, opt: X_svgtypes_WriteOptions)
    requires ids_of(s, ids), 0 <= i < ids.len()
    ensures svg_evs(h, s, id_bound(ids, i + 1), opt) == svg_evs(h, s, id_bound(ids, i), opt) + svg_ev(h, s, ids[i].0, opt)
{
    let a = id_bound(ids, i);
    let b = ids[i].0;
    if i > 0 { assert(ids[i - 1].0 < ids[i].0); }
    assert forall|x: int| a <= x < b implies !#[trigger] has_name(s, QName::Id(x)) by {
        if has_name(s, QName::Id(x)) {
            let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).0 == x;
            if j < i - 1 { assert(ids[j].0 < ids[i - 1].0); }
            if j > i { assert(ids[i].0 < ids[j].0); }
        }
    }
    lemma_svg_gap(h, s, a, b as nat, opt);
}
proof fn lemma_svg_end(h: Heap, s: Seq<Attribute>, ids: Seq<(int, QName)>, opt: X_svgtypes_WriteOptions)
    requires ids_of(s, ids)
    ensures svg_evs(h, s, id_bound(ids, ids.len() as int), opt) == svg_evs(h, s, aid_total(), opt)
{
    let n = ids.len() as int;
    let a = id_bound(ids, n);
    if n > 0 { assert(ids[n - 1].0 < aid_total()); }
    assert forall|x: int| a <= x < aid_total() implies !#[trigger] has_name(s, QName::Id(x)) by {
        if has_name(s, QName::Id(x)) {
            let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).0 == x;
            if j < n - 1 { assert(ids[j].0 < ids[n - 1].0); }
        }
    }
    lemma_svg_gap(h, s, a, aid_total(), opt);
}
proof fn lemma_custom_next(h: Heap, s: Seq<Attribute>, i: int, opt: X_svgtypes_WriteOptions)
    requires 0 <= i < s.len()
    ensures custom_evs(h, s.take(i + 1), opt) == (match s[i].name {
        QName::Name(n) => custom_evs(h, s.take(i), opt).push(Ev::Attr(n, value_text(h, s[i].value, opt))),
        QName::Id(_) => custom_evs(h, s.take(i), opt) })
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
// the sorted list of ids the writer makes is the ascending one
proof fn lemma_ids_of(s: Seq<Attribute>, ids: Seq<(int, QName)>)
    requires
        uniq(s), ids_valid(s), ids.no_duplicates(),
        forall|i: int, j: int| 0 <= i < j < ids.len() ==> (#[trigger] ids[i]).0 <= (#[trigger] ids[j]).0,
        forall|y: (int, QName)| #[trigger] ids.contains(y) <==> y.1 == QName::Id(y.0) && has_name(s, y.1),
    ensures ids_of(s, ids)
{
    assert forall|i: int| 0 <= i < ids.len() implies (#[trigger] ids[i]).1 == QName::Id(ids[i].0) && has_name(s, QName::Id(ids[i].0)) && 0 <= ids[i].0 < aid_total() by {
        assert(ids.contains(ids[i]));
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].name == QName::Id(ids[i].0);
        assert(s[k].name is Id);
    }
    assert forall|i: int, j: int| 0 <= i < j < ids.len() implies (#[trigger] ids[i]).0 < (#[trigger] ids[j]).0 by {
        assert(ids[i] != ids[j]);
    }
    assert forall|x: int| #[trigger] has_name(s, QName::Id(x)) implies exists|i: int| 0 <= i < ids.len() && (#[trigger] ids[i]).0 == x by {
        assert(ids.contains((x, QName::Id(x))));
        let i = choose|i: int| 0 <= i < ids.len() && ids[i] == (x, QName::Id(x));
        assert(ids[i].0 == x);
    }
}
proof fn lemma_ids_made(s: Seq<Attribute>, fm: Seq<(int, Attribute)>, mp: Seq<(int, QName)>, ids: Seq<(int, QName)>)
    requires
        uniq(s), ids_valid(s), fm.no_duplicates(),
        forall|j: int| 0 <= j < fm.len() ==> (#[trigger] fm[j]).1.name == QName::Id(fm[j].0) && s.contains(fm[j].1),
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name is Id ==> fm.contains((s[i].name->Id_0, s[i])),
        mp.len() == fm.len(), forall|j: int| 0 <= j < mp.len() ==> #[trigger] mp[j] == (fm[j].0, fm[j].1.name),
        forall|i: int, j: int| 0 <= i < j < ids.len() ==> (#[trigger] ids[i]).0 <= (#[trigger] ids[j]).0,
        forall|y: (int, QName)| #[trigger] ids.contains(y) <==> mp.contains(y),
        mp.no_duplicates() ==> ids.no_duplicates(),
    ensures ids_of(s, ids)
{
    assert forall|i: int, j: int| 0 <= i < mp.len() && 0 <= j < mp.len() && i != j implies mp[i] != mp[j] by {
        assert(fm[i] != fm[j]);
        let a = choose|a: int| 0 <= a < s.len() && s[a] == fm[i].1;
        let b = choose|b: int| 0 <= b < s.len() && s[b] == fm[j].1;
        if a < b { assert(s[a].name != s[b].name); } else if b < a { assert(s[b].name != s[a].name); } else { assert(fm[i].0 == fm[j].0); }
    }
    assert(mp.no_duplicates());
    assert forall|y: (int, QName)| #[trigger] ids.contains(y) <==> y.1 == QName::Id(y.0) && has_name(s, y.1) by {
        if mp.contains(y) {
            let j = choose|j: int| 0 <= j < mp.len() && mp[j] == y;
            let a = choose|a: int| 0 <= a < s.len() && s[a] == fm[j].1;
            assert(s[a].name == y.1);
        }
        if y.1 == QName::Id(y.0) && has_name(s, y.1) {
            let a = choose|a: int| 0 <= a < s.len() && #[trigger] s[a].name == y.1;
            assert(fm.contains((y.0, s[a])));
            let j = choose|j: int| 0 <= j < fm.len() && fm[j] == (y.0, s[a]);
            assert(mp[j] == y);
        }
    }
    lemma_ids_of(s, ids);
}
// ---- the whole tree
pub open spec fn tag_text(q: QName) -> Seq<char> { match q { QName::Id(i) => of_utf8(names_ElementId()[i]), QName::Name(s) => s } }
pub open spec fn open_evs(h: Heap, n: int, opt: X_svgtypes_WriteOptions) -> Seq<Ev> {
    if h.node_type[n] == NT_Root { Seq::empty() }
    else if h.node_type[n] == NT_Element {
        seq![Ev::Start(tag_text(h.tag_name[n]))] + attr_evs(h, n, opt) + (if h.tag_name[n] == QName::Id(EID_Text) { seq![Ev::Preserve(true)] } else { Seq::empty() })
    }
    else if h.node_type[n] == NT_Comment { seq![Ev::Comment(h.text[n])] }
    else { seq![Ev::Text(h.text[n])] }
}
pub open spec fn close_evs(h: Heap, n: int) -> Seq<Ev> {
    (if h.node_type[n] == NT_Element { seq![Ev::End] } else { Seq::empty() }) + (if h.tag_name[n] == QName::Id(EID_Text) { seq![Ev::Preserve(false)] } else { Seq::empty() })
}
// a node is written as its opening, its children in order, its closing
pub open spec fn nest(h: Heap, n: int, k: nat, opt: X_svgtypes_WriteOptions) -> Seq<Ev>
    decreases k, 0nat
{
    if k == 0 { Seq::empty() } else { open_evs(h, n, opt) + nests(h, n, h.kids[n].len(), (k - 1) as nat, opt) + close_evs(h, n) }
}
pub open spec fn nests(h: Heap, p: int, m: nat, k: nat, opt: X_svgtypes_WriteOptions) -> Seq<Ev>
    decreases k, m + 1
{
    if m == 0 { Seq::empty() } else { nests(h, p, (m - 1) as nat, k, opt) + nest(h, h.kids[p][m - 1], k, opt) }
}
pub open spec fn edge_evs(h: Heap, e: Edge, opt: X_svgtypes_WriteOptions) -> Seq<Ev> { match e { Edge::Start(n) => open_evs(h, n, opt), Edge::End(n) => close_evs(h, n) } }
pub open spec fn evs(h: Heap, t: Seq<Edge>, opt: X_svgtypes_WriteOptions) -> Seq<Ev>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else { evs(h, t.drop_last(), opt) + edge_evs(h, t.last(), opt) }
}
proof fn lemma_evs_join(h: Heap, a: Seq<Edge>, b: Seq<Edge>, opt: X_svgtypes_WriteOptions)
    ensures evs(h, a + b, opt) == evs(h, a, opt) + evs(h, b, opt)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(evs(h, a, opt) + evs(h, b, opt) =~= evs(h, a, opt)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_evs_join(h, a, b.drop_last(), opt);
        assert(evs(h, a + b, opt) =~= evs(h, a, opt) + evs(h, b, opt));
    }
}
proof fn lemma_evs_one(h: Heap, e: Edge, opt: X_svgtypes_WriteOptions)
    ensures evs(h, seq![e], opt) == edge_evs(h, e, opt)
{
    let b = seq![e];
    assert(b.drop_last() =~= Seq::<Edge>::empty());
    assert(evs(h, b.drop_last(), opt) =~= Seq::<Ev>::empty());
    assert(evs(h, b, opt) =~= edge_evs(h, e, opt));
}
proof fn lemma_evs_next(h: Heap, t: Seq<Edge>, i: int, opt: X_svgtypes_WriteOptions)
    requires 0 <= i < t.len()
    ensures evs(h, t.take(i + 1), opt) == evs(h, t.take(i), opt) + edge_evs(h, t[i], opt)
{
    assert(t.take(i + 1).drop_last() =~= t.take(i));
    assert(t.take(i + 1).last() == t[i]);
}
// C22: the events of the tour are the nested structure
proof fn lemma_nest(h: Heap, n: int, k: nat, opt: X_svgtypes_WriteOptions)
    ensures evs(h, tour(h, n, k), opt) == nest(h, n, k, opt)
    decreases k, 0nat
{
    if k > 0 {
        let m = tours(h, n, h.kids[n].len(), (k - 1) as nat);
        lemma_nests(h, n, h.kids[n].len(), (k - 1) as nat, opt);
        lemma_evs_join(h, seq![Edge::Start(n)] + m, seq![Edge::End(n)], opt);
        lemma_evs_join(h, seq![Edge::Start(n)], m, opt);
        lemma_evs_one(h, Edge::Start(n), opt);
        lemma_evs_one(h, Edge::End(n), opt);
    }
}
proof fn lemma_nests(h: Heap, p: int, m: nat, k: nat, opt: X_svgtypes_WriteOptions)
    ensures evs(h, tours(h, p, m, k), opt) == nests(h, p, m, k, opt)
    decreases k, m + 1
{
    if m > 0 {
        lemma_nests(h, p, (m - 1) as nat, k, opt);
        lemma_nest(h, h.kids[p][m - 1], k, opt);
        lemma_evs_join(h, tours(h, p, (m - 1) as nat, k), tour(h, h.kids[p][m - 1], k), opt);
    }
}
// ---- nesting depth: text is never written outside an element
pub open spec fn texts_inside(h: Heap, r: int) -> bool {
    forall|x: int| #[trigger] above(h, r, x) && h.node_type[x] == NT_Text ==> h.parent[x] is Some && h.node_type[h.parent[x]->0] == NT_Element
}
pub open spec fn no_level(s: Seq<Ev>) -> bool { forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]) is Start) && !(s[i] is End) }
proof fn lemma_depth_flat(a: Seq<Ev>, b: Seq<Ev>)
    requires no_level(b)
    ensures xw_depth(a + b) == xw_depth(a)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        let d = b.drop_last();
        assert((a + b).drop_last() =~= a + d);
        assert((a + b).last() == b[b.len() - 1]);
        assert forall|i: int| 0 <= i < d.len() implies !((#[trigger] d[i]) is Start) && !(d[i] is End) by { assert(d[i] == b[i]); }
        lemma_depth_flat(a, d);
    }
}
proof fn lemma_svg_flat(h: Heap, s: Seq<Attribute>, k: nat, opt: X_svgtypes_WriteOptions)
    ensures no_level(svg_evs(h, s, k, opt))
    decreases k
{
    if k > 0 { lemma_svg_flat(h, s, (k - 1) as nat, opt); }
}
proof fn lemma_custom_flat(h: Heap, s: Seq<Attribute>, opt: X_svgtypes_WriteOptions)
    ensures no_level(custom_evs(h, s, opt))
    decreases s.len()
{
    if s.len() > 0 { lemma_custom_flat(h, s.drop_last(), opt); }
}
pub open spec fn elem(h: Heap, n: int) -> int { if h.node_type[n] == NT_Element { 1 } else { 0 } }
// the number of elements strictly above n
pub open spec fn eld(h: Heap, n: int, k: nat) -> int
    decreases k
{
    if h.parent[n] is None || k == 0 { 0 } else { eld(h, h.parent[n]->0, (k - 1) as nat) + elem(h, h.parent[n]->0) }
}
proof fn lemma_eld_fuel(h: Heap, n: int, k: nat, k2: nat)
    requires rooted(h.parent, n, k), k <= k2
    ensures eld(h, n, k) == eld(h, n, k2), eld(h, n, k) >= 0
    decreases k
{
    if h.parent[n] is Some { lemma_eld_fuel(h, h.parent[n]->0, (k - 1) as nat, (k2 - 1) as nat); }
}
proof fn lemma_eld(h: Heap, n: int, k: nat)
    requires depth_bound(h, k)
    ensures eld(h, n, k) >= 0, h.parent[n] is Some ==> eld(h, n, k) == eld(h, h.parent[n]->0, k) + elem(h, h.parent[n]->0) && eld(h, h.parent[n]->0, k) >= 0
{
    assert(rooted(h.parent, n, k));
    lemma_eld_fuel(h, n, k, k);
    if h.parent[n] is Some {
        assert(rooted(h.parent, h.parent[n]->0, k));
        lemma_eld_fuel(h, h.parent[n]->0, (k - 1) as nat, k);
        lemma_eld_fuel(h, h.parent[n]->0, k, k);
    }
}
pub open spec fn edep(h: Heap, e: Edge, k: nat) -> int { match e { Edge::Start(n) => eld(h, n, k), Edge::End(n) => eld(h, n, k) + elem(h, n) } }
proof fn lemma_depth_edge(h: Heap, a: Seq<Ev>, e: Edge, opt: X_svgtypes_WriteOptions)
    requires e is End ==> xw_depth(a) >= elem(h, node_of(e)), NT_Element != NT_Root
    ensures xw_depth(a + edge_evs(h, e, opt)) == xw_depth(a) + (match e { Edge::Start(n) => elem(h, n), Edge::End(n) => -elem(h, n) })
{
    match e {
        Edge::Start(n) => {
            if h.node_type[n] == NT_Element {
                let b = seq![Ev::Start(tag_text(h.tag_name[n]))];
                let t: Seq<Ev> = if h.tag_name[n] == QName::Id(EID_Text) { seq![Ev::Preserve(true)] } else { Seq::empty() };
                let c = attr_evs(h, n, opt) + t;
                lemma_svg_flat(h, h.attributes[n], aid_total(), opt);
                lemma_custom_flat(h, h.attributes[n], opt);
                assert(no_level(head_evs(h, n)));
                assert(no_level(attr_evs(h, n, opt)));
                assert(no_level(c));
                assert(a + edge_evs(h, e, opt) =~= a + b + c);
                lemma_depth_flat(a + b, c);
                assert((a + b).drop_last() =~= a);
                assert((a + b).last() == b[0]);
            } else {
                lemma_depth_flat(a, open_evs(h, n, opt));
            }
        }
        Edge::End(n) => {
            let c: Seq<Ev> = if h.tag_name[n] == QName::Id(EID_Text) { seq![Ev::Preserve(false)] } else { Seq::empty() };
            assert(no_level(c));
            if h.node_type[n] == NT_Element {
                let b = seq![Ev::End];
                assert(a + edge_evs(h, e, opt) =~= a + b + c);
                lemma_depth_flat(a + b, c);
                assert((a + b).drop_last() =~= a);
                assert((a + b).last() == b[0]);
            } else {
                assert(a + edge_evs(h, e, opt) =~= a + c);
                lemma_depth_flat(a, c);
            }
        }
    }
}
proof fn lemma_depth(h: Heap, n: int, k: nat, i: int, kk: nat, opt: X_svgtypes_WriteOptions)
    requires wf(h), deep(h, n, k), h.parent[n] is None, depth_bound(h, kk), 0 <= i < tour(h, n, k).len(), NT_Element != NT_Root
    ensures xw_depth(evs(h, tour(h, n, k).take(i), opt)) == edep(h, tour(h, n, k)[i], kk)
    decreases i
{
    let t = tour(h, n, k);
    lemma_tour(h, n, k);
    if i == 0 {
        assert(t.take(0) =~= Seq::<Edge>::empty());
    } else {
        let e = t[i - 1];
        lemma_depth(h, n, k, i - 1, kk, opt);
        lemma_evs_next(h, t, i - 1, opt);
        lemma_eld(h, node_of(e), kk);
        assert(step(h, t[i - 1]) == Some(t[i]));
        lemma_depth_edge(h, evs(h, t.take(i - 1), opt), e, opt);
        lemma_eld(h, node_of(t[i]), kk);
        let x = node_of(e);
        assert(wf_ends(h, x) && wf_child(h, x));
        match e {
            Edge::Start(_) => { if h.first_child[x] is Some { lemma_children_item(h, x, 0); } }
            Edge::End(_) => { if h.next_sibling[x] is Some { let p = h.parent[x]->0; lemma_children_item(h, p, h.pos[x]); lemma_children_item(h, p, h.pos[x] + 1); } }
        }
    }
}
pub open spec fn xopt(opt: SWriteOptions) -> X_xmlwriter_Options { X_xmlwriter_Options { use_single_quote: opt.use_single_quote, indent: opt.indent, attributes_indent: opt.attributes_indent } }
pub open spec fn wrote(h: Heap, opt: SWriteOptions, t: Seq<Edge>, i: int) -> X_XmlWriter { X_XmlWriter { opt: xopt(opt), ev: evs(h, t.take(i), opt.values) } }
