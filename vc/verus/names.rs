// ---------------------------------------------------------------- src/names.rs
pub struct SMap { pub key: int, pub disps: Seq<(int, int)>, pub entries: Seq<(Seq<char>, int)> }
// the string whose UTF-8 encoding is b
pub uninterp spec fn of_utf8(b: Seq<int>) -> Seq<char>;
pub open spec fn is_ascii(b: Seq<int>) -> bool { forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] b[i] < 128 }
#[verifier::external_body]
proof fn axiom_ascii(b: Seq<int>)
    requires is_ascii(b)
    ensures utf8(of_utf8(b)) == b
{ unimplemented!() }
pub open spec fn all_ascii(b: Seq<int>, n: int) -> bool decreases n { n <= 0 || (0 <= b[n - 1] < 128 && all_ascii(b, n - 1)) }
proof fn lemma_all_ascii(b: Seq<int>, n: int)
    requires all_ascii(b, n), 0 <= n <= b.len()
    ensures forall|i: int| 0 <= i < n ==> 0 <= #[trigger] b[i] < 128
    decreases n
{ if n > 0 { lemma_all_ascii(b, n - 1); } }

// SipHash-1-3
pub open spec fn addw(a: u64, b: u64) -> u64 { ((a as int + b as int) % 0x1_0000_0000_0000_0000) as u64 }
pub open spec fn rotl(x: u64, k: u64) -> u64 { (x << k) | (x >> (64 - k) as u64) }
pub struct Sip { pub v0: u64, pub v1: u64, pub v2: u64, pub v3: u64 }
pub open spec fn sip_round(s: Sip) -> Sip {
    let v0 = addw(s.v0, s.v1);
    let v2 = addw(s.v2, s.v3);
    let v1 = rotl(s.v1, 13) ^ v0;
    let v3 = rotl(s.v3, 16) ^ v2;
    let v0 = rotl(v0, 32);
    let v2 = addw(v2, v1);
    let v0 = addw(v0, v3);
    let v1 = rotl(v1, 17) ^ v2;
    let v3 = rotl(v3, 21) ^ v0;
    let v2 = rotl(v2, 32);
    Sip { v0, v1, v2, v3 }
}
pub open spec fn le_word(b: Seq<int>, i: int, n: int) -> int decreases n
{ if n <= 0 { 0 } else { b[i] + 256 * le_word(b, i + 1, n - 1) } }
pub open spec fn sip_absorb(s: Sip, m: u64) -> Sip {
    let t = sip_round(Sip { v0: s.v0, v1: s.v1, v2: s.v2, v3: s.v3 ^ m });
    Sip { v0: t.v0 ^ m, v1: t.v1, v2: t.v2, v3: t.v3 }
}
pub open spec fn sip_blocks(s: Sip, b: Seq<int>, i: int) -> Sip decreases b.len() - i
{ if i < 0 || b.len() - i < 8 { s } else { sip_blocks(sip_absorb(s, le_word(b, i, 8) as u64), b, i + 8) } }
pub open spec fn sip13(k0: int, k1: int, b: Seq<int>) -> u64 {
    let a = k0 as u64;
    let c = k1 as u64;
    let s = Sip { v0: a ^ 0x736f6d6570736575u64, v1: c ^ 0x646f72616e646f6du64, v2: a ^ 0x6c7967656e657261u64, v3: c ^ 0x7465646279746573u64 };
    let s = sip_blocks(s, b, 0);
    let n = (b.len() / 8) * 8;
    let last = le_word(b, n as int, (b.len() - n) as int) + (b.len() % 256) * 0x100_0000_0000_0000;
    let s = sip_absorb(s, last as u64);
    let s = Sip { v0: s.v0, v1: s.v1, v2: s.v2 ^ 0xff, v3: s.v3 };
    let s = sip_round(sip_round(sip_round(s)));
    s.v0 ^ s.v1 ^ s.v2 ^ s.v3
}
pub open spec fn index_in(h: int, d: Seq<(int,int)>, n: int) -> int {
    let g = h % 0x200000;
    let f1 = (h / 0x200000) % 0x200000;
    let f2 = (h / 0x40000000000) % 0x200000;
    let x = d[g % (d.len() as int)];
    (x.1 + f1 * x.0 + f2) % n
}

pub open spec fn small_disps(d: Seq<(int, int)>) -> bool {
    forall|i: int| 0 <= i < d.len() ==> 0 <= (#[trigger] d[i]).0 <= 1000 && 0 <= d[i].1 <= 1000000
}
pub open spec fn map_shape(m: SMap) -> bool {
    0 < m.disps.len() <= 0xffff_ffff && 0 < m.entries.len() <= 0xffff_ffff && small_disps(m.disps) && 0 <= m.key <= 0xffff_ffff_ffff_ffff
}
pub open spec fn map_index(m: SMap, s: Seq<char>) -> int { index_in(sip13(0, m.key, utf8(s)) as int, m.disps, m.entries.len() as int) }
pub open spec fn map_get(m: SMap, s: Seq<char>) -> Option<int> {
    let e = m.entries[map_index(m, s)];
    if e.0 == s { Some(e.1) } else { None }
}
proof fn lemma_displace(f1: int, f2: int, d1: int, d2: int)
    requires 0 <= f1 < 0x200000, 0 <= f2 < 0x200000, 0 <= d1 <= 1000, 0 <= d2 <= 1000000
    ensures 0 <= f1 * d1 <= 0x200000 * 1000, 0 <= d2 + f1 * d1 + f2 <= 0xffff_ffff
{
    assert(0 <= f1 * d1 <= 0x200000 * 1000) by (nonlinear_arith) requires 0 <= f1 < 0x200000, 0 <= d1 <= 1000;
}
proof fn lemma_index(h: int, d: Seq<(int, int)>, n: int)
    requires 0 <= h <= 0xffff_ffff_ffff_ffff, small_disps(d), 0 < d.len() <= 0xffff_ffff, 0 < n <= 0xffff_ffff
    ensures 0 <= index_in(h, d, n) < n,
        ({ let g = h % 0x200000; let f1 = (h / 0x200000) % 0x200000; let f2 = (h / 0x40000000000) % 0x200000; let x = d[g % (d.len() as int)];
           0 <= f1 * x.0 <= 0x200000 * 1000 && 0 <= x.1 + f1 * x.0 + f2 <= 0xffff_ffff && 0 <= g % (d.len() as int) < d.len()
           && 0 <= x.0 <= 1000 && 0 <= x.1 <= 1000000 })
{
    let g = h % 0x200000; let f1 = (h / 0x200000) % 0x200000; let f2 = (h / 0x40000000000) % 0x200000; let x = d[g % (d.len() as int)];
    assert(0 <= g % (d.len() as int) < d.len()) by (nonlinear_arith) requires d.len() > 0;
    lemma_displace(f1, f2, x.0, x.1);
    let y = x.1 + f1 * x.0 + f2;
    assert(0 <= y % n < n) by (nonlinear_arith) requires n > 0;
}
pub open spec fn has_entry(m: SMap, id: int) -> bool { exists|i: int| 0 <= i < m.entries.len() && (#[trigger] m.entries[i]).1 == id }
// a table of (name, id): every id of 0..n occurs, and hashing a name leads to its entry
pub open spec fn table_ok(m: SMap, names: Seq<Seq<int>>) -> bool {
    &&& map_shape(m)
    &&& forall|i: int| 0 <= i < m.entries.len() ==> 0 <= (#[trigger] m.entries[i]).1 < names.len() && m.entries[i].0 == of_utf8(names[m.entries[i].1])
        && map_index(m, m.entries[i].0) == i
    &&& forall|id: int| 0 <= id < names.len() ==> #[trigger] has_entry(m, id)
}
pub open spec fn row_ok(key: int, disps: Seq<(int, int)>, bytes: Seq<Seq<int>>, ids: Seq<int>, names: Seq<Seq<int>>, i: int) -> bool {
    0 <= ids[i] < names.len() && bytes[i] == names[ids[i]] && all_ascii(bytes[i], bytes[i].len() as int)
    && index_in(sip13(0, key, bytes[i]) as int, disps, bytes.len() as int) == i
}
pub open spec fn rows_ok(key: int, disps: Seq<(int, int)>, bytes: Seq<Seq<int>>, ids: Seq<int>, names: Seq<Seq<int>>, n: int) -> bool decreases n {
    n <= 0 || (row_ok(key, disps, bytes, ids, names, n - 1) && rows_ok(key, disps, bytes, ids, names, n - 1))
}
proof fn lemma_rows(key: int, disps: Seq<(int, int)>, bytes: Seq<Seq<int>>, ids: Seq<int>, names: Seq<Seq<int>>, n: int)
    requires rows_ok(key, disps, bytes, ids, names, n)
    ensures forall|i: int| 0 <= i < n ==> #[trigger] row_ok(key, disps, bytes, ids, names, i)
    decreases n
{ if n > 0 { lemma_rows(key, disps, bytes, ids, names, n - 1); } }
pub open spec fn disps_ok(d: Seq<(int, int)>, n: int) -> bool decreases n {
    n <= 0 || (0 <= d[n - 1].0 <= 1000 && 0 <= d[n - 1].1 <= 1000000 && disps_ok(d, n - 1))
}
proof fn lemma_disps(d: Seq<(int, int)>, n: int)
    requires disps_ok(d, n), 0 <= n <= d.len()
    ensures forall|i: int| 0 <= i < n ==> 0 <= (#[trigger] d[i]).0 <= 1000 && 0 <= d[i].1 <= 1000000
    decreases n
{ if n > 0 { lemma_disps(d, n - 1); } }
pub open spec fn has_id_upto(ids: Seq<int>, where_: Seq<int>, n: int) -> bool decreases n {
    n <= 0 || (0 <= where_[n - 1] < ids.len() && ids[where_[n - 1]] == n - 1 && has_id_upto(ids, where_, n - 1))
}
proof fn lemma_has_id(ids: Seq<int>, where_: Seq<int>, n: int)
    requires has_id_upto(ids, where_, n)
    ensures forall|k: int| 0 <= k < n ==> 0 <= #[trigger] where_[k] < ids.len() && ids[where_[k]] == k
    decreases n
{ if n > 0 { lemma_has_id(ids, where_, n - 1); } }
proof fn lemma_table(m: SMap, bytes: Seq<Seq<int>>, ids: Seq<int>, where_: Seq<int>, names: Seq<Seq<int>>)
    requires
        m.entries.len() == bytes.len(), ids.len() == bytes.len(), 0 < bytes.len() <= 0xffff_ffff, 0 < m.disps.len() <= 0xffff_ffff,
        0 <= m.key <= 0xffff_ffff_ffff_ffff,
        forall|i: int| 0 <= i < bytes.len() ==> #[trigger] m.entries[i] == (of_utf8(bytes[i]), ids[i]),
        disps_ok(m.disps, m.disps.len() as int), rows_ok(m.key, m.disps, bytes, ids, names, bytes.len() as int), has_id_upto(ids, where_, names.len() as int),
    ensures table_ok(m, names)
{
    lemma_disps(m.disps, m.disps.len() as int);
    lemma_rows(m.key, m.disps, bytes, ids, names, bytes.len() as int);
    lemma_has_id(ids, where_, names.len() as int);
    assert forall|i: int| 0 <= i < m.entries.len() implies 0 <= (#[trigger] m.entries[i]).1 < names.len() && m.entries[i].0 == of_utf8(names[m.entries[i].1])
        && map_index(m, m.entries[i].0) == i by {
        assert(row_ok(m.key, m.disps, bytes, ids, names, i));
        lemma_all_ascii(bytes[i], bytes[i].len() as int);
        axiom_ascii(bytes[i]);
    }
    assert forall|id: int| 0 <= id < names.len() implies #[trigger] has_entry(m, id) by {
        let i = where_[id];
        assert(m.entries[i].1 == id);
    }
}
// what the pair of conversions has to do, for any table of names
proof fn lemma_convert(m: SMap, names: Seq<Seq<int>>, s: Seq<char>)
    requires table_ok(m, names)
    ensures
        map_get(m, s) is Some ==> 0 <= map_get(m, s)->0 < names.len() && s == of_utf8(names[map_get(m, s)->0]),
        forall|id: int| #![trigger names[id]] 0 <= id < names.len() && s == of_utf8(names[id]) ==> map_get(m, s) == Some(id),
{
    lemma_index(sip13(0, m.key, utf8(s)) as int, m.disps, m.entries.len() as int);
    assert forall|id: int| #![trigger names[id]] 0 <= id < names.len() && s == of_utf8(names[id]) implies map_get(m, s) == Some(id) by {
        assert(has_entry(m, id));
        let i = choose|i: int| 0 <= i < m.entries.len() && (#[trigger] m.entries[i]).1 == id;
        assert(m.entries[i].0 == s);
    }
}
proof fn lemma_distinct(m: SMap, names: Seq<Seq<int>>, a: int, b: int)
    requires table_ok(m, names), 0 <= a < names.len(), 0 <= b < names.len(), of_utf8(names[a]) == of_utf8(names[b])
    ensures a == b
{
    lemma_convert(m, names, of_utf8(names[a]));
    assert(map_get(m, of_utf8(names[a])) == Some(a));
    assert(map_get(m, of_utf8(names[a])) == Some(b));
}
