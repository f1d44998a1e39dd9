F = "crates/udd-sketch/src/lib.rs"
ASSUMED = ["the HashMap of the buckets is a finite map: entry, insert, get, drain, keys, values, len and iter_mut behave as a map's",
           "sort_unstable_by_key gives an ascending permutation; peekable looks one element ahead; the fixed stack array is read as a vector; an iterator argument is the finite sequence it yields",
           "key() is a function of the value and gamma, never Invalid, and after c compactions of an accuracy in [1e-12, 1) its index is below 2^(63-c); gamma squared is the gamma of one more compaction (executed: value_bucket, add_history, merge_history)",
           "bucket_to_value is a function of alpha, gamma and the key", "floating point: multiplication commutes; the rank (n * q) as u64 is below u64::MAX for n < 2^63 and q in [0, 1]; the comparison of accuracies that merge_sketch asserts is not evaluated",
           "debug_assert is not evaluated", "derived Clone copies the fields", "NonZeroU32 holds a value from 1 up"]
USES = "use std::cmp::Ordering;"
FLOATS = True
RLIMIT = 40
PRELUDE = r"""
pub open spec fn turned(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
pub assume_specification [std::cmp::Ordering::reverse] (o: std::cmp::Ordering) -> (r: std::cmp::Ordering) ensures r == turned(o);
pub type K = SketchHashKey;
pub open spec fn rk(k: K) -> int {
    match k { SketchHashKey::Negative(i) => -i - 0x1_0000_0000_0000_0000, SketchHashKey::Zero => 0, SketchHashKey::Positive(i) => i + 0x1_0000_0000_0000_0000, SketchHashKey::Invalid => 0x4_0000_0000_0000_0000 }
}
pub open spec fn lt(a: K, b: K) -> bool { rk(a) < rk(b) }
pub open spec fn order(a: K, b: K) -> Ordering { if lt(a, b) { Ordering::Less } else if lt(b, a) { Ordering::Greater } else { Ordering::Equal } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for SketchHashKey {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for SketchHashKey {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(order(*self, *o)) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for SketchHashKey {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { order(*self, *o) }
}
/// towards zero, odd positive numbers up: -3, -2 -> -1; -1, 0 -> 0; 1, 2 -> 1
pub open spec fn half(x: int) -> int { if x > 0 { (x + 1) / 2 } else { -((-x) / 2) } }
pub open spec fn comp(k: K) -> K {
    match k { SketchHashKey::Negative(x) => if x == i64::MAX { k } else { SketchHashKey::Negative(half(x as int) as i64) },
        SketchHashKey::Positive(x) => if x == i64::MAX { k } else { SketchHashKey::Positive(half(x as int) as i64) }, _ => k }
}
// ---- the hash map of the standard library
#[verifier::external_body]
pub struct KMap { x: u8 }
pub enum Entry<'a> { Occupied(Occ<'a>), Vacant(Vac<'a>) }
pub struct Occ<'a> { pub v: &'a mut SketchHashEntry }
pub struct Vac<'a> { pub m: &'a mut KMap, pub k: SketchHashKey }
impl<'a> Occ<'a> {
    pub fn get_mut(&mut self) -> (r: &mut SketchHashEntry)
        ensures *r == *old(self).v, *final(self).v == *final(r), *final(final(self).v) == *final(old(self).v)
    { &mut *self.v }
}
impl<'a> Vac<'a> {
    pub fn insert(self, e: SketchHashEntry) ensures final(self.m)@ == old(self.m)@.insert(self.k, e) { self.m.insert(self.k, e); }
}
impl KMap {
    pub uninterp spec fn view(&self) -> Map<K, SketchHashEntry>;
    #[verifier::external_body]
    pub fn new() -> (r: KMap) ensures r@ == Map::<K, SketchHashEntry>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: KMap) ensures r@ == Map::<K, SketchHashEntry>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, SketchHashEntry>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, e: SketchHashEntry) ensures final(self)@ == old(self)@.insert(k, e) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry)
        ensures match r {
            Entry::Occupied(o) => old(self)@.contains_key(k) && *o.v == old(self)@[k] && final(self)@ == old(self)@.insert(k, *final(o.v)),
            Entry::Vacant(v) => !old(self)@.contains_key(k) && v.k == k && v.m@ == old(self)@ && final(self)@ == final(v.m)@,
        }
    { unimplemented!() }
    /// every entry once, in any order; none remain
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: Vec<(K, SketchHashEntry)>) ensures final(self)@ == Map::<K, SketchHashEntry>::empty(), drained(r@, old(self)@) { unimplemented!() }
    pub fn vx_drain_iter(&mut self) -> (r: VxDrain) ensures final(self)@ == Map::<K, SketchHashEntry>::empty(), r.i == 0, drained(r.v@, old(self)@) { let v = self.vx_drain(); VxDrain { v, i: 0 } }
    /// every key once, in any order
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: Vec<K>) ensures self@.dom().finite(), r@.no_duplicates(), forall|k: K| #[trigger] r@.contains(k) <==> self@.contains_key(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_mut(&mut self, k: &K) -> (r: &mut SketchHashEntry) requires old(self)@.contains_key(*k)
        ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at(&self, k: &K) -> (r: &SketchHashEntry) requires self@.contains_key(*k) ensures *r == self@[*k] { unimplemented!() }
}
pub open spec fn drained(d: Seq<(K, SketchHashEntry)>, m: Map<K, SketchHashEntry>) -> bool {
    &&& m.dom().finite() && d.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < d.len() ==> m.contains_key((#[trigger] d[i]).0) && m[d[i].0] == d[i].1
    &&& forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).0 != (#[trigger] d[j]).0
}
pub struct VxDrain { pub v: Vec<(K, SketchHashEntry)>, pub i: usize }
impl VxDrain {
    pub fn next(&mut self) -> (r: Option<(K, SketchHashEntry)>) requires old(self).i <= old(self).v@.len()
        ensures final(self).v == old(self).v, old(self).i < old(self).v@.len() ==> r == Some(old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1, old(self).i == old(self).v@.len() ==> r is None && final(self).i == old(self).i
    { if self.i < self.v.len() { self.i = self.i + 1; Some(self.v[self.i - 1]) } else { None } }
}
pub fn vx_filled(n: usize) -> (r: Vec<(K, u64)>) ensures r@.len() == n {
    let mut v: Vec<(K, u64)> = Vec::new();
    let mut i: usize = 0;
    while i < n invariant i <= n, v@.len() == i decreases n - i { v.push((SketchHashKey::Invalid, 0)); i = i + 1; }
    v
}
pub fn vx_part(v: Vec<(K, u64)>, n: usize) -> (r: Vec<(K, u64)>) requires n <= v@.len() ensures r@ == v@.take(n as int) { let mut v = v; v.truncate(n); v }
// ---- buckets chained in ascending order
pub open spec fn upto(a: K, b: K) -> bool { a == b || lt(a, b) }
pub open spec fn has(m: Map<K, SketchHashEntry>, k: K) -> bool { m.contains_key(k) }
pub open spec fn wfm(m: Map<K, SketchHashEntry>, head: K) -> bool {
    &&& m.dom().finite() && !m.contains_key(SketchHashKey::Invalid)
    &&& head == SketchHashKey::Invalid || m.contains_key(head)
    &&& forall|k: K| #[trigger] has(m, k) ==> upto(head, k) && lt(k, m[k].next) && (m[k].next == SketchHashKey::Invalid || m.contains_key(m[k].next))
    &&& forall|k: K, j: K| #[trigger] has(m, k) && #[trigger] has(m, j) && lt(k, j) ==> upto(m[k].next, j)
}
/// splitting after p, the last key below
pub proof fn split_at(m: Map<K, SketchHashEntry>, head: K, p: K, key: K, e: SketchHashEntry)
    requires wfm(m, head), !m.contains_key(key), m.contains_key(p), lt(p, key), lt(key, m[p].next), e.next == key, e.count == m[p].count
    ensures wfm(m.insert(p, e).insert(key, SketchHashEntry { count: 0, next: m[p].next }), head)
{
    let n = m.insert(p, e).insert(key, SketchHashEntry { count: 0, next: m[p].next });
    assert(has(m, p));
    assert forall|k: K| #[trigger] has(n, k) implies upto(head, k) && lt(k, n[k].next) && (n[k].next == SketchHashKey::Invalid || n.contains_key(n[k].next)) by { if k != key { assert(has(m, k)); } }
    assert forall|k: K, j: K| #[trigger] has(n, k) && #[trigger] has(n, j) && lt(k, j) implies upto(n[k].next, j) by { if k != key { assert(has(m, k)); } if j != key { assert(has(m, j)); } }
}
/// before the first key
pub proof fn in_front(m: Map<K, SketchHashEntry>, head: K, key: K, c: u64)
    requires wfm(m, head), !m.contains_key(key), key != SketchHashKey::Invalid, lt(key, head)
    ensures wfm(m.insert(key, SketchHashEntry { count: c, next: head }), key)
{
    let n = m.insert(key, SketchHashEntry { count: c, next: head });
    assert forall|k: K| #[trigger] has(n, k) implies upto(key, k) && lt(k, n[k].next) && (n[k].next == SketchHashKey::Invalid || n.contains_key(n[k].next)) by { if k != key { assert(has(m, k)); } }
    assert forall|k: K, j: K| #[trigger] has(n, k) && #[trigger] has(n, j) && lt(k, j) implies upto(n[k].next, j) by { if k != key { assert(has(m, k)); } if j != key { assert(has(m, j)); } }
}
/// counts are nothing to the chain
pub proof fn counts_only(m: Map<K, SketchHashEntry>, n: Map<K, SketchHashEntry>, head: K)
    requires wfm(m, head), m.dom() == n.dom(), forall|k: K| m.contains_key(k) ==> #[trigger] n[k].next == m[k].next
    ensures wfm(n, head)
{
    assert forall|k: K| #[trigger] has(n, k) implies upto(head, k) && lt(k, n[k].next) && (n[k].next == SketchHashKey::Invalid || n.contains_key(n[k].next)) by { assert(has(m, k)); }
    assert forall|k: K, j: K| #[trigger] has(n, k) && #[trigger] has(n, j) && lt(k, j) implies upto(n[k].next, j) by { assert(has(m, k) && has(m, j)); }
}
/// the last key below another
pub proof fn last_below(s: Set<K>, key: K) -> (r: K)
    requires s.finite(), exists|k: K| s.contains(k) && lt(k, key)
    ensures s.contains(r), lt(r, key), forall|k: K| #[trigger] s.contains(k) && lt(k, key) ==> upto(k, r)
    decreases s.len()
{
    let x = choose|k: K| s.contains(k) && lt(k, key);
    let t = s.remove(x);
    if exists|k: K| t.contains(k) && lt(k, key) {
        let y = last_below(t, key);
        assert forall|k: K| #[trigger] s.contains(k) && lt(k, key) implies upto(k, if lt(y, x) { x } else { y }) by { if k != x { assert(t.contains(k)); } }
        if lt(y, x) { x } else { y }
    } else {
        assert forall|k: K| #[trigger] s.contains(k) && lt(k, key) implies upto(k, x) by { if k != x { assert(t.contains(k)); } }
        x
    }
}
pub proof fn has_before(m: Map<K, SketchHashEntry>, head: K, key: K)
    requires wfm(m, head), !m.contains_key(key), key != SketchHashKey::Invalid, lt(head, key)
    ensures exists|p: K| #[trigger] m.contains_key(p) && lt(p, key) && lt(key, m[p].next)
{
    assert(m.dom().contains(head) && has(m, head));
    let p = last_below(m.dom(), key);
    assert(has(m, p));
    if m[p].next != SketchHashKey::Invalid && lt(m[p].next, key) { assert(m.dom().contains(m[p].next)); }
    assert(lt(key, m[p].next));
}
/// the count at a key; none is a count of zero
pub open spec fn cnt(m: Map<K, SketchHashEntry>, k: K) -> int { if m.contains_key(k) { m[k].count as int } else { 0 } }
// ---- sums of counts
pub type Bs = Seq<(K, u64)>;
pub open spec fn w(p: spec_fn(K) -> bool, k: K, c: u64) -> int { if p(k) { c as int } else { 0 } }
pub open spec fn ts(s: Bs, p: spec_fn(K) -> bool) -> int decreases s.len() { if s.len() == 0 { 0 } else { ts(s.drop_last(), p) + w(p, s.last().0, s.last().1) } }
pub open spec fn ws(m: Map<K, SketchHashEntry>, p: spec_fn(K) -> bool) -> int decreases m.dom().len() {
    if m.dom().finite() && m.dom().len() > 0 { let k = m.dom().choose(); ws(m.remove(k), p) + w(p, k, m[k].count) } else { 0 }
}
pub open spec fn any() -> spec_fn(K) -> bool { |k: K| true }
pub proof fn ws_remove(m: Map<K, SketchHashEntry>, p: spec_fn(K) -> bool, k: K)
    requires m.dom().finite(), m.contains_key(k)
    ensures ws(m, p) == ws(m.remove(k), p) + w(p, k, m[k].count)
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(k));
    assert(m.dom().len() > 0);
    assert(m.dom().contains(c));
    if k != c {
        assert(m.remove(c).dom() =~= m.dom().remove(c) && m.remove(k).dom() =~= m.dom().remove(k));
        ws_remove(m.remove(c), p, k);
        ws_remove(m.remove(k), p, c);
        assert(m.remove(k).remove(c) =~= m.remove(c).remove(k));
    }
}
/// the entries of a map in some order
pub open spec fn rep(s: Bs, m: Map<K, SketchHashEntry>) -> bool {
    &&& m.dom().finite() && s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0].count == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
pub proof fn rep_sum(s: Bs, m: Map<K, SketchHashEntry>, p: spec_fn(K) -> bool)
    requires rep(s, m)
    ensures ts(s, p) == ws(m, p)
    decreases s.len()
{
    if s.len() > 0 {
        let k = s.last().0;
        assert(s[s.len() - 1].0 == k);
        ws_remove(m, p, k);
        assert(m.remove(k).dom() =~= m.dom().remove(k));
        assert(m.dom().contains(k));
        rep_sum(s.drop_last(), m.remove(k), p);
    }
}
pub proof fn ts_push(s: Bs, x: (K, u64), p: spec_fn(K) -> bool) ensures ts(s.push(x), p) == ts(s, p) + w(p, x.0, x.1) { assert(s.push(x).drop_last() =~= s); }
pub proof fn ts_remove(s: Bs, i: int, p: spec_fn(K) -> bool)
    requires 0 <= i < s.len()
    ensures ts(s, p) == ts(s.remove(i), p) + w(p, s[i].0, s[i].1)
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else { ts_remove(s.drop_last(), i, p); assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); assert(s.remove(i).last() == s.last()); }
}
pub proof fn ts_perm(s: Bs, t: Bs, p: spec_fn(K) -> bool)
    requires s.to_multiset() == t.to_multiset()
    ensures ts(s, p) == ts(t, p)
    decreases s.len()
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() > 0 {
        let x = s.last();
        assert(s.contains(x) && s.to_multiset().count(x) > 0);
        assert(t.contains(x));
        let i = t.index_of(x);
        let n = s.len() - 1;
        ts_remove(t, i, p); ts_remove(s, n, p);
        assert(s.remove(n) =~= s.drop_last());
        assert(s.remove(n).to_multiset() =~= s.to_multiset().remove(x)); assert(t.remove(i).to_multiset() =~= t.to_multiset().remove(x));
        ts_perm(s.drop_last(), t.remove(i), p);
    }
}
pub proof fn ts_mono(s: Bs, n: int, p: spec_fn(K) -> bool)
    requires 0 <= n <= s.len()
    ensures 0 <= ts(s.take(n), p) <= ts(s, p)
    decreases s.len()
{
    if n == s.len() { assert(s.take(n) =~= s); if n > 0 { ts_mono(s.drop_last(), n - 1, p); assert(s.drop_last().take(n - 1) =~= s.drop_last()); } }
    else { ts_mono(s.drop_last(), n, p); assert(s.drop_last().take(n) =~= s.take(n)); }
}
pub open spec fn keyed(s: Bs, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn valid(s: Bs) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != SketchHashKey::Invalid }
pub open spec fn rising(s: Bs) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lt((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
pub open spec fn ascending(s: Bs) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> upto((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
/// the chain of these buckets
pub open spec fn chained(s: Bs, m: Map<K, SketchHashEntry>) -> bool {
    &&& rep(s, m)
    &&& forall|i: int| 0 <= i < s.len() ==> m[(#[trigger] s[i]).0].next == if i + 1 < s.len() { s[i + 1].0 } else { SketchHashKey::Invalid }
}
pub proof fn rep_all(s: Bs, m: Map<K, SketchHashEntry>, k: K)
    requires rep(s, m), m.contains_key(k)
    ensures keyed(s, k)
    decreases s.len()
{
    if s.len() == 0 { assert(m.dom().contains(k)); assert(m.dom().len() > 0); }
    else {
        let l = s.last().0;
        assert(s[s.len() - 1].0 == l);
        if l != k {
            assert(m.remove(l).dom() =~= m.dom().remove(l));
            assert(m.dom().contains(l));
            rep_all(s.drop_last(), m.remove(l), k);
            let i = choose|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]).0 == k;
            assert(s[i].0 == k);
        }
    }
}
pub proof fn chained_wf(s: Bs, m: Map<K, SketchHashEntry>)
    requires chained(s, m), rising(s), valid(s)
    ensures wfm(m, if s.len() > 0 { s[0].0 } else { SketchHashKey::Invalid }), forall|p: spec_fn(K) -> bool| ts(s, p) == #[trigger] ws(m, p), forall|k: K| #[trigger] m.contains_key(k) <==> keyed(s, k)
{
    assert forall|p: spec_fn(K) -> bool| ts(s, p) == #[trigger] ws(m, p) by { rep_sum(s, m, p); }
    assert forall|k: K| #[trigger] m.contains_key(k) <==> keyed(s, k) by { if m.contains_key(k) { rep_all(s, m, k); } }
    let head = if s.len() > 0 { s[0].0 } else { SketchHashKey::Invalid };
    assert forall|k: K| #[trigger] has(m, k) implies upto(head, k) && lt(k, m[k].next) && (m[k].next == SketchHashKey::Invalid || m.contains_key(m[k].next)) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(m.contains_key(k));
        if i + 1 < s.len() { assert(m.contains_key(s[i + 1].0)); }
    }
    assert forall|k: K, j: K| #[trigger] has(m, k) && #[trigger] has(m, j) && lt(k, j) implies upto(m[k].next, j) by {
        assert(m.contains_key(k) && m.contains_key(j));
        let a = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        let b = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == j;
        if a >= b { assert(upto(s[b].0, s[a].0)); }
        assert(a < b);
        if a + 1 < b { assert(lt(s[a + 1].0, s[b].0)); }
    }
    if m.contains_key(SketchHashKey::Invalid) { assert(keyed(s, SketchHashKey::Invalid)); }
    if s.len() > 0 { assert(m.contains_key(s[0].0)); } 
}
pub open spec fn before_comp(p: spec_fn(K) -> bool) -> spec_fn(K) -> bool { |k: K| p(comp(k)) }
pub open spec fn compacted(d: Seq<(K, SketchHashEntry)>) -> Bs { Seq::new(d.len(), |i: int| (comp(d[i].0), d[i].1.count)) }
pub open spec fn plain(d: Seq<(K, SketchHashEntry)>) -> Bs { Seq::new(d.len(), |i: int| (d[i].0, d[i].1.count)) }
/// some key of the map compacts to k
pub open spec fn came_from(m: Map<K, SketchHashEntry>, k: K) -> bool { exists|j: K| #[trigger] m.contains_key(j) && comp(j) == k }
pub proof fn ts_compacted(d: Seq<(K, SketchHashEntry)>, p: spec_fn(K) -> bool)
    ensures ts(compacted(d), p) == ts(plain(d), before_comp(p))
    decreases d.len()
{
    if d.len() > 0 { ts_compacted(d.drop_last(), p); assert(compacted(d).drop_last() =~= compacted(d.drop_last())); assert(plain(d).drop_last() =~= plain(d.drop_last())); }
}
pub proof fn drained_sums(d: Seq<(K, SketchHashEntry)>, m: Map<K, SketchHashEntry>)
    requires drained(d, m), !m.contains_key(SketchHashKey::Invalid)
    ensures forall|p: spec_fn(K) -> bool| #[trigger] ts(compacted(d), p) == ws(m, before_comp(p)), forall|k: K| #[trigger] keyed(compacted(d), k) <==> came_from(m, k), valid(compacted(d)), ts(compacted(d), any()) == ws(m, any())
{
    assert(rep(plain(d), m));
    assert forall|p: spec_fn(K) -> bool| #[trigger] ts(compacted(d), p) == ws(m, before_comp(p)) by { ts_compacted(d, p); rep_sum(plain(d), m, before_comp(p)); }
    assert forall|k: K| #[trigger] keyed(compacted(d), k) <==> came_from(m, k) by {
        if keyed(compacted(d), k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] compacted(d)[i]).0 == k; assert(m.contains_key(d[i].0)); }
        if came_from(m, k) { let j = choose|j: K| #[trigger] m.contains_key(j) && comp(j) == k; rep_all(plain(d), m, j); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] plain(d)[i]).0 == j; assert(compacted(d)[i].0 == k); }
    }
    assert(before_comp(any()) =~= any());
}
/// the first i buckets are in the map, chained
#[verifier::opaque]
pub open spec fn linked(l: Bs, m: Map<K, SketchHashEntry>, i: int) -> bool {
    &&& rep(l.take(i), m)
    &&& forall|j: int| 0 <= j < i ==> m[(#[trigger] l[j]).0].next == if j + 1 < l.len() { l[j + 1].0 } else { SketchHashKey::Invalid }
}
pub proof fn link_none(l: Bs, m: Map<K, SketchHashEntry>) requires m == Map::<K, SketchHashEntry>::empty() ensures linked(l, m, 0) { reveal(linked); }
pub proof fn link_step(l: Bs, m0: Map<K, SketchHashEntry>, i: int, e: SketchHashEntry)
    requires linked(l, m0, i), 0 <= i < l.len(), rising(l), e.count == l[i].1, e.next == if i + 1 < l.len() { l[i + 1].0 } else { SketchHashKey::Invalid }
    ensures linked(l, m0.insert(l[i].0, e), i + 1)
{
    reveal(linked);
    let m1 = m0.insert(l[i].0, e);
    if m0.contains_key(l[i].0) { rep_all(l.take(i), m0, l[i].0); let j = choose|j: int| 0 <= j < i && (#[trigger] l.take(i)[j]).0 == l[i].0; assert(lt(l[j].0, l[i].0)); }
    assert forall|j: int| 0 <= j < i + 1 implies m1.contains_key((#[trigger] l.take(i + 1)[j]).0) && m1[l.take(i + 1)[j].0].count == l.take(i + 1)[j].1 by { if j < i { assert(l.take(i)[j] == l[j]); assert(lt(l[j].0, l[i].0)); } }
    assert forall|j: int, q: int| 0 <= j < q < i + 1 implies (#[trigger] l.take(i + 1)[j]).0 != (#[trigger] l.take(i + 1)[q]).0 by { assert(lt(l[j].0, l[q].0)); }
    assert(m1.dom() =~= m0.dom().insert(l[i].0));
    assert forall|j: int| 0 <= j < i + 1 implies m1[(#[trigger] l[j]).0].next == if j + 1 < l.len() { l[j + 1].0 } else { SketchHashKey::Invalid } by { if j < i { assert(lt(l[j].0, l[i].0)); } }
}
pub proof fn linked_wf(l: Bs, m: Map<K, SketchHashEntry>)
    requires linked(l, m, l.len() as int), rising(l), valid(l)
    ensures chained(l, m), wfm(m, if l.len() > 0 { l[0].0 } else { SketchHashKey::Invalid }), forall|p: spec_fn(K) -> bool| ts(l, p) == #[trigger] ws(m, p), forall|k: K| #[trigger] m.contains_key(k) <==> keyed(l, k)
{ reveal(linked); assert(l.take(l.len() as int) =~= l); chained_wf(l, m); }
/// b: the first n buckets of s, those of a key in one
#[verifier::opaque]
pub open spec fn reduced(s: Bs, b: Bs, n: int) -> bool {
    &&& 0 < n <= s.len() && b.len() > 0 && rising(b) && b.last().0 == s[n - 1].0
    &&& forall|p: spec_fn(K) -> bool| #[trigger] ts(b, p) == ts(s.take(n), p)
    &&& forall|k: K| #[trigger] keyed(b, k) <==> keyed(s.take(n), k)
}
pub proof fn reduced_one(s: Bs) requires s.len() > 0 ensures reduced(s, Seq::<(K, u64)>::empty().push(s[0]), 1)
{ reveal(reduced); assert(s.take(1) =~= Seq::<(K, u64)>::empty().push(s[0])); }
/// keys of the first n + 1: those of the first n, and one
pub proof fn keyed_push(s: Bs, x: (K, u64), k: K) ensures keyed(s.push(x), k) <==> keyed(s, k) || x.0 == k
{
    if keyed(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(s.push(x)[i].0 == k); }
    if x.0 == k { assert(s.push(x)[s.len() as int].0 == k); }
    if keyed(s.push(x), k) && x.0 != k { let i = choose|i: int| 0 <= i < s.len() + 1 && (#[trigger] s.push(x)[i]).0 == k; assert(s[i].0 == k); }
}
pub proof fn reduced_room(s: Bs, a: Bs, c: (K, u64), n: int) requires reduced(s, a.push(c), n), n < s.len() ensures c.1 + s[n].1 <= ts(s, any())
{
    reveal(reduced);
    assert(s.take(n + 1) =~= s.take(n).push(s[n])); ts_push(s.take(n), s[n], any()); ts_mono(s, n + 1, any()); ts_push(a, c, any()); ts_mono(a, a.len() as int, any()); assert(a.take(a.len() as int) =~= a);
}
pub proof fn reduced_same(s: Bs, a: Bs, c: (K, u64), n: int, d: (K, u64))
    requires reduced(s, a.push(c), n), n < s.len(), s[n].0 == c.0, d.0 == c.0, d.1 == c.1 + s[n].1
    ensures reduced(s, a.push(d), n + 1)
{
    reveal(reduced);
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    assert forall|i: int, j: int| 0 <= i < j < a.push(d).len() implies lt((#[trigger] a.push(d)[i]).0, (#[trigger] a.push(d)[j]).0) by { assert(lt(a.push(c)[i].0, a.push(c)[j].0)); }
    assert forall|p: spec_fn(K) -> bool| #[trigger] ts(a.push(d), p) == ts(s.take(n + 1), p) by { ts_push(a, c, p); ts_push(a, d, p); ts_push(s.take(n), s[n], p); assert(ts(a.push(c), p) == ts(s.take(n), p)); }
    assert forall|k: K| #[trigger] keyed(a.push(d), k) <==> keyed(s.take(n + 1), k) by { keyed_push(a, d, k); keyed_push(a, c, k); keyed_push(s.take(n), s[n], k); assert(keyed(a.push(c), k) <==> keyed(s.take(n), k)); }
}
pub proof fn reduced_next(s: Bs, b: Bs, n: int)
    requires reduced(s, b, n), n < s.len(), ascending(s), s[n].0 != b.last().0
    ensures reduced(s, b.push(s[n]), n + 1)
{
    reveal(reduced);
    assert(upto(s[n - 1].0, s[n].0));
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    assert forall|i: int, j: int| 0 <= i < j < b.push(s[n]).len() implies lt((#[trigger] b.push(s[n])[i]).0, (#[trigger] b.push(s[n])[j]).0) by { if j < b.len() { assert(lt(b[i].0, b[j].0)); } else if i < b.len() - 1 { assert(lt(b[i].0, b[b.len() - 1].0)); } }
    assert forall|p: spec_fn(K) -> bool| #[trigger] ts(b.push(s[n]), p) == ts(s.take(n + 1), p) by { ts_push(b, s[n], p); ts_push(s.take(n), s[n], p); assert(ts(b, p) == ts(s.take(n), p)); }
    assert forall|k: K| #[trigger] keyed(b.push(s[n]), k) <==> keyed(s.take(n + 1), k) by { keyed_push(b, s[n], k); keyed_push(s.take(n), s[n], k); assert(keyed(b, k) <==> keyed(s.take(n), k)); }
}
pub proof fn reduced_all(s: Bs, b: Bs)
    requires reduced(s, b, s.len() as int), valid(s)
    ensures rising(b), valid(b), forall|p: spec_fn(K) -> bool| #[trigger] ts(b, p) == ts(s, p), forall|k: K| #[trigger] keyed(b, k) <==> keyed(s, k)
{
    reveal(reduced);
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 != SketchHashKey::Invalid by { assert(keyed(b, b[i].0)); assert(keyed(s, b[i].0)); }
}
pub proof fn sorted(e0: Bs, s: Bs)
    requires s.to_multiset() == e0.to_multiset(), s.len() == e0.len(), valid(e0)
    ensures valid(s), forall|p: spec_fn(K) -> bool| #[trigger] ts(s, p) == ts(e0, p), forall|k: K| #[trigger] keyed(s, k) <==> keyed(e0, k)
{
    assert forall|p: spec_fn(K) -> bool| #[trigger] ts(s, p) == ts(e0, p) by { ts_perm(s, e0, p); } e0.to_multiset_ensures(); s.to_multiset_ensures();
    assert forall|k: K| #[trigger] keyed(s, k) <==> keyed(e0, k) by {
        if keyed(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(s.contains(s[i])); assert(e0.to_multiset().count(s[i]) > 0); let j = e0.index_of(s[i]); assert(e0[j].0 == k); }
        if keyed(e0, k) { let i = choose|i: int| 0 <= i < e0.len() && (#[trigger] e0[i]).0 == k; assert(e0.contains(e0[i])); assert(s.to_multiset().count(e0[i]) > 0); let j = s.index_of(e0[i]); assert(s[j].0 == k); }
    }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 != SketchHashKey::Invalid by { assert(keyed(s, s[i].0)); }
}
#[verifier::external_body]
pub fn vx_sort_by_key(v: &mut Vec<(K, u64)>) ensures ascending(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len() { unimplemented!() }
/// the first n of them, one by one
pub struct VxPeek<'a> { pub v: &'a Vec<(K, u64)>, pub n: usize, pub i: usize }
impl<'a> VxPeek<'a> {
    pub open spec fn wf(&self) -> bool { self.i <= self.n <= self.v@.len() }
    pub fn peek(&self) -> (r: Option<&(K, u64)>) requires self.wf() ensures self.i < self.n ==> r is Some && *r->0 == self.v@[self.i as int], self.i >= self.n ==> r is None { if self.i < self.n { Some(&self.v[self.i]) } else { None } }
    pub fn next(&mut self) -> (r: Option<&'a (K, u64)>) requires old(self).wf()
        ensures final(self).wf(), final(self).v == old(self).v, final(self).n == old(self).n, old(self).i < old(self).n ==> r is Some && *r->0 == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, old(self).i >= old(self).n ==> r is None && final(self).i == old(self).i
    { if self.i < self.n { let v: &'a Vec<(K, u64)> = self.v; self.i = self.i + 1; Some(&v[self.i - 1]) } else { None } }
}
pub fn vx_first<'a>(v: &'a Vec<(K, u64)>, n: usize) -> (r: VxPeek<'a>) ensures r.wf(), r.v == v, r.i == 0, r.n == if n <= v@.len() { n as int } else { v@.len() as int } { VxPeek { v, n: if n <= v.len() { n } else { v.len() }, i: 0 } }
pub fn vx_key_or(o: Option<&(K, u64)>, d: K) -> (r: K) ensures r == if o is Some { (*o->0).0 } else { d } { match o { Some(p) => p.0, None => d } }

// ---- a sketch
pub proof fn same_counts(m: Map<K, SketchHashEntry>, n: Map<K, SketchHashEntry>, p: spec_fn(K) -> bool)
    requires m.dom().finite(), m.dom() =~= n.dom(), forall|k: K| cnt(m, k) == #[trigger] cnt(n, k)
    ensures ws(m, p) == ws(n, p)
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let c = m.dom().choose();
        assert(m.dom().contains(c));
        assert(m.remove(c).dom() =~= m.dom().remove(c) && m.remove(c).dom() =~= n.remove(c).dom());
        assert forall|k: K| cnt(m.remove(c), k) == #[trigger] cnt(n.remove(c), k) by { assert(cnt(m, k) == cnt(n, k)); }
        same_counts(m.remove(c), n.remove(c), p);
        assert(cnt(m, c) == cnt(n, c));
    }
}
/// one bucket got c more
pub proof fn ws_upsert(m: Map<K, SketchHashEntry>, n: Map<K, SketchHashEntry>, key: K, c: int, p: spec_fn(K) -> bool)
    requires m.dom().finite(), n.dom() == m.dom().insert(key), forall|k: K| cnt(n, k) == #[trigger] cnt(m, k) + if k == key { c } else { 0 }
    ensures ws(n, p) == ws(m, p) + if p(key) { c } else { 0 }
{
    ws_remove(n, p, key);
    assert(n.remove(key).dom() =~= m.remove(key).dom());
    assert forall|k: K| cnt(n.remove(key), k) == #[trigger] cnt(m.remove(key), k) by { assert(cnt(n, k) == cnt(m, k) + if k == key { c } else { 0 }); }
    same_counts(n.remove(key), m.remove(key), p);
    assert(cnt(n, key) == cnt(m, key) + c);
    if m.contains_key(key) { ws_remove(m, p, key); } else { assert(m.remove(key) =~= m); }
}
pub proof fn ws_bound(m: Map<K, SketchHashEntry>, p: spec_fn(K) -> bool)
    requires m.dom().finite()
    ensures 0 <= ws(m, p) <= ws(m, any()), forall|k: K| 0 <= #[trigger] cnt(m, k) <= ws(m, any())
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let c = m.dom().choose();
        assert(m.dom().contains(c));
        assert(m.remove(c).dom() =~= m.dom().remove(c));
        ws_bound(m.remove(c), p);
        assert forall|k: K| 0 <= #[trigger] cnt(m, k) <= ws(m, any()) by { assert(0 <= cnt(m.remove(c), k) <= ws(m.remove(c), any())); }
    } else { assert forall|k: K| 0 <= #[trigger] cnt(m, k) <= ws(m, any()) by { if m.contains_key(k) { assert(m.dom().contains(k)); } } }
}
/// n compactions of a key
pub open spec fn compn(k: K, n: int) -> K decreases n { if n <= 0 { k } else { comp(compn(k, n - 1)) } }
/// what p says of a key after n compactions
pub open spec fn beforen(p: spec_fn(K) -> bool, n: int) -> spec_fn(K) -> bool { |k: K| p(compn(k, n)) }
pub proof fn step_before(p: spec_fn(K) -> bool, n: int)
    requires n >= 0
    ensures beforen(before_comp(p), n) == beforen(p, n + 1)
{
    assert(beforen(before_comp(p), n) =~= beforen(p, n + 1));
}
pub proof fn none_before(p: spec_fn(K) -> bool) ensures beforen(p, 0) == p { assert(beforen(p, 0) =~= p); }
pub proof fn compn_add(k: K, a: int, b: int) requires a >= 0, b >= 0 ensures compn(compn(k, a), b) == compn(k, a + b) decreases b { if b > 0 { compn_add(k, a, b - 1); } }
pub proof fn before_add(p: spec_fn(K) -> bool, a: int, b: int) requires a >= 0, b >= 0 ensures beforen(beforen(p, b), a) == beforen(p, a + b)
{ assert forall|k: K| #[trigger] beforen(beforen(p, b), a)(k) == beforen(p, a + b)(k) by { compn_add(k, a, b); } assert(beforen(beforen(p, b), a) =~= beforen(p, a + b)); }
pub proof fn compn_valid(k: K, n: int) ensures compn(k, n) == SketchHashKey::Invalid <==> k == SketchHashKey::Invalid decreases n { if n > 0 { compn_valid(k, n - 1); } }
/// 2^(63 - c), or 0
pub open spec fn pw(c: int) -> int decreases 64 - c { if c >= 64 { 0 } else if c == 63 { 1 } else { 2 * pw(c + 1) } }
pub proof fn pw_pos(c: int) requires 0 <= c <= 64 ensures pw(c) >= 0, c <= 63 ==> pw(c) >= 1 decreases 64 - c { if c < 63 { pw_pos(c + 1); } }
pub proof fn pw_zero() ensures pw(0) == 0x8000_0000_0000_0000 { assert(pw(0) == 0x8000_0000_0000_0000) by (compute); }
pub open spec fn fits(x: int, c: int) -> bool { x == i64::MAX || -pw(c) <= x <= (if pw(c) > 1 { pw(c) } else { 1 }) }
/// as far from zero as c compactions leave room for
pub open spec fn small(k: K, c: int) -> bool { match k { SketchHashKey::Negative(x) => fits(x as int, c), SketchHashKey::Positive(x) => fits(x as int, c), _ => true } }
pub open spec fn allsmall(m: Map<K, SketchHashEntry>, c: int) -> bool { forall|k: K| #[trigger] m.contains_key(k) ==> small(k, c) }
pub proof fn small_step(k: K, c: int) requires small(k, c), 0 <= c < 64 ensures small(comp(k), c + 1) { pw_pos(c); pw_pos(c + 1); }
pub proof fn small_start(k: K) ensures small(k, 0) { pw_zero(); }
pub proof fn smalls(k: K, c: int, n: int) requires small(k, c), 0 <= c, 0 <= n, c + n <= 64 ensures small(compn(k, n), c + n) decreases n { if n > 0 { smalls(k, c, n - 1); small_step(compn(k, n - 1), c + n - 1); } }
/// no more than seven keys are left after 64 compactions
pub proof fn seven(m: Map<K, SketchHashEntry>)
    requires m.dom().finite(), allsmall(m, 64), !m.contains_key(SketchHashKey::Invalid)
    ensures m.dom().len() <= 7
{
    let s = Set::<K>::empty().insert(SketchHashKey::Negative(i64::MAX)).insert(SketchHashKey::Negative(0)).insert(SketchHashKey::Negative(1)).insert(SketchHashKey::Zero)
        .insert(SketchHashKey::Positive(0)).insert(SketchHashKey::Positive(1)).insert(SketchHashKey::Positive(i64::MAX));
    assert forall|k: K| #[trigger] m.dom().contains(k) implies s.contains(k) by { assert(m.contains_key(k)); }
    assert(m.dom().subset_of(s));
    vstd::set_lib::lemma_len_subset(m.dom(), s);
    assert(s.len() <= 7);
}
/// gamma after c compactions from an accuracy that new() takes
pub uninterp spec fn gamma_at(g: Fl, c: int) -> bool;
pub uninterp spec fn keyof(v: Fl, g: Fl) -> K;
pub uninterp spec fn valof(alpha: Fl, g: Fl, k: K) -> Fl;
#[verifier::external_body]
pub proof fn gamma_squared(g: Fl, c: int) requires gamma_at(g, c) ensures gamma_at(fmul(g, g), c + 1) {}
#[verifier::external_body]
pub proof fn near_enough(v: Fl, g: Fl, c: int) requires gamma_at(g, c), 0 <= c <= 64 ensures small(keyof(v, g), c), keyof(v, g) != SketchHashKey::Invalid {}
#[verifier::external_body]
pub proof fn mul_comm() ensures forall|a: Fl, b: Fl| #[trigger] fmul(a, b) == fmul(b, a) {}
/// less than 2^63 values, and a quantile no more than one
#[verifier::external_body]
pub proof fn rank_fits(n: u64, q: Fl) requires in_unit(q), n < 0x8000_0000_0000_0000 ensures fcut(fmul(fint(n as int), q), 0, u64::MAX as int) < u64::MAX {}
pub uninterp spec fn in_unit(q: Fl) -> bool;
pub uninterp spec fn in_range(e: Fl) -> bool;
#[verifier::external_body]
pub fn vx_in_unit(q: Fl) -> (r: bool) ensures r == in_unit(q) { unimplemented!() }
#[verifier::external_body]
pub fn vx_in_range(q: Fl) -> (r: bool) ensures r == in_range(q) { unimplemented!() }
#[verifier::external_body]
pub fn vx_alike(a: &UDDSketch, b: &UDDSketch) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub proof fn gamma_new(e: Fl) requires in_range(e) ensures gamma_at(fdiv(fadd(flit(1, ""@), e), fsub(flit(1, ""@), e)), 0) {}
pub uninterp spec fn fpowi(a: Fl, n: int) -> Fl;
impl Fl {
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: Fl) ensures r == fpowi(self, n as int) { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct NonZeroU32 { pub v: u32 }
impl NonZeroU32 { pub fn get(self) -> (r: u32) ensures r == self.v { self.v } }
pub fn vx_nonzero(n: u32) -> (r: NonZeroU32) ensures r.v == n { if n == 0 { vx_refuse() } NonZeroU32 { v: n } }
/// one compaction
#[verifier::opaque]
pub open spec fn halved(m: Map<K, SketchHashEntry>, n: Map<K, SketchHashEntry>) -> bool { forall|p: spec_fn(K) -> bool| #[trigger] ws(n, p) == ws(m, before_comp(p)) }
/// d compactions
#[verifier::opaque]
pub open spec fn grew(m: Map<K, SketchHashEntry>, n: Map<K, SketchHashEntry>, d: int) -> bool { forall|p: spec_fn(K) -> bool| #[trigger] ws(n, p) == ws(m, beforen(p, d)) }
/// these counts added
#[verifier::opaque]
pub open spec fn plus(m: Map<K, SketchHashEntry>, s: Bs, n: Map<K, SketchHashEntry>) -> bool { forall|p: spec_fn(K) -> bool| #[trigger] ws(n, p) == ws(m, p) + ts(s, p) }
pub proof fn grew_none(m: Map<K, SketchHashEntry>) ensures grew(m, m, 0)
{ reveal(grew); assert forall|p: spec_fn(K) -> bool| #[trigger] ws(m, p) == ws(m, beforen(p, 0)) by { none_before(p); } }
pub proof fn grew_step(m: Map<K, SketchHashEntry>, n: Map<K, SketchHashEntry>, o: Map<K, SketchHashEntry>, d: int) requires d >= 0, grew(m, n, d), halved(n, o) ensures grew(m, o, d + 1)
{ reveal(grew); reveal(halved); assert forall|p: spec_fn(K) -> bool| #[trigger] ws(o, p) == ws(m, beforen(p, d + 1)) by { step_before(p, d); assert(ws(n, before_comp(p)) == ws(m, beforen(before_comp(p), d))); } }
pub proof fn grew_total(m: Map<K, SketchHashEntry>, n: Map<K, SketchHashEntry>, d: int) requires grew(m, n, d) ensures ws(n, any()) == ws(m, any())
{ reveal(grew); assert(beforen(any(), d) =~= any()); }
pub proof fn halved_total(m: Map<K, SketchHashEntry>, n: Map<K, SketchHashEntry>) requires halved(m, n) ensures ws(n, any()) == ws(m, any())
{ reveal(halved); assert(before_comp(any()) =~= any()); }
pub proof fn plus_none(m: Map<K, SketchHashEntry>) ensures plus(m, Seq::empty(), m) { reveal(plus); }
pub proof fn plus_one(m: Map<K, SketchHashEntry>, s: Bs, n: Map<K, SketchHashEntry>, o: Map<K, SketchHashEntry>, k: K, c: u64)
    requires plus(m, s, n), n.dom().finite(), o.dom() == n.dom().insert(k), forall|j: K| cnt(o, j) == #[trigger] cnt(n, j) + if j == k { c as int } else { 0 }
    ensures plus(m, s.push((k, c)), o)
{ reveal(plus); assert forall|p: spec_fn(K) -> bool| #[trigger] ws(o, p) == ws(m, p) + ts(s.push((k, c)), p) by { ws_upsert(n, o, k, c as int, p); ts_push(s, (k, c), p); } }
pub proof fn plus_total(m: Map<K, SketchHashEntry>, s: Bs, n: Map<K, SketchHashEntry>) requires plus(m, s, n) ensures ws(n, any()) == ws(m, any()) + ts(s, any()) { reveal(plus); }
/// what both maps held, after a and b compactions
#[verifier::opaque]
pub open spec fn both(m: Map<K, SketchHashEntry>, a: int, o: Map<K, SketchHashEntry>, b: int, n: Map<K, SketchHashEntry>) -> bool { forall|p: spec_fn(K) -> bool| #[trigger] ws(n, p) == ws(m, beforen(p, a)) + ws(o, beforen(p, b)) }
pub proof fn joined(m0: Map<K, SketchHashEntry>, a: int, m2: Map<K, SketchHashEntry>, o0: Map<K, SketchHashEntry>, b: int, o2: Map<K, SketchHashEntry>, s: Bs, m1: Map<K, SketchHashEntry>, d: int, n: Map<K, SketchHashEntry>)
    requires a >= 0, b >= 0, d >= 0, grew(m0, m2, a), grew(o0, o2, b), plus(m2, s, m1), grew(m1, n, d), rep(s, o2)
    ensures both(m0, a + d, o0, b + d, n)
{
    reveal(grew); reveal(plus); reveal(both);
    assert forall|p: spec_fn(K) -> bool| #[trigger] ws(n, p) == ws(m0, beforen(p, a + d)) + ws(o0, beforen(p, b + d)) by {
        let q = beforen(p, d);
        before_add(p, a, d); before_add(p, b, d); rep_sum(s, o2, q);
        assert(ws(m1, q) == ws(m2, q) + ts(s, q) && ws(m2, q) == ws(m0, beforen(q, a)) && ws(o2, q) == ws(o0, beforen(q, b)));
    }
}
// ---- the buckets in order
pub open spec fn rest(m: Map<K, SketchHashEntry>, k: K) -> Set<K> { m.dom().filter(|j: K| upto(k, j)) }
pub open spec fn chain(m: Map<K, SketchHashEntry>, k: K, n: nat) -> Bs decreases n {
    if n == 0 || !m.contains_key(k) { Seq::empty() } else { seq![(k, m[k].count)] + chain(m, m[k].next, (n - 1) as nat) }
}
pub open spec fn all(m: Map<K, SketchHashEntry>, k: K) -> Bs { chain(m, k, rest(m, k).len()) }
pub proof fn rest_step(m: Map<K, SketchHashEntry>, head: K, k: K)
    requires wfm(m, head), m.contains_key(k)
    ensures rest(m, k).finite(), rest(m, k).len() == rest(m, m[k].next).len() + 1, rest(m, m[k].next) == rest(m, k).remove(k), all(m, k) == seq![(k, m[k].count)] + all(m, m[k].next)
{
    assert(has(m, k));
    let x = m[k].next;
    assert(rest(m, x) =~= rest(m, k).remove(k)) by {
        assert forall|j: K| rest(m, x).contains(j) <==> rest(m, k).remove(k).contains(j) by { if m.dom().contains(j) { assert(has(m, j)); } }
    }
    assert(rest(m, k).contains(k));
}
pub proof fn all_ok(m: Map<K, SketchHashEntry>, head: K, k: K)
    requires wfm(m, head), k == SketchHashKey::Invalid || m.contains_key(k)
    ensures rep(all(m, k), m.restrict(rest(m, k))), rising(all(m, k)), valid(all(m, k)), forall|i: int| 0 <= i < all(m, k).len() ==> upto(k, (#[trigger] all(m, k)[i]).0)
    decreases rest(m, k).len()
{
    let r = m.restrict(rest(m, k));
    assert(r.dom() =~= rest(m, k));
    let s = all(m, k);
    if m.contains_key(k) {
        assert(has(m, k));
        rest_step(m, head, k);
        let x = m[k].next;
        all_ok(m, head, x);
        let t = all(m, x);
        assert(m.restrict(rest(m, x)).dom() =~= rest(m, x));
        assert forall|i: int| 0 <= i < s.len() implies r.contains_key((#[trigger] s[i]).0) && r[s[i].0].count == s[i].1 by { if i > 0 { assert(s[i] == t[i - 1]); } else { assert(rest(m, k).contains(k)); } }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt((#[trigger] s[i]).0, (#[trigger] s[j]).0) by { assert(s[j] == t[j - 1]); if i > 0 { assert(s[i] == t[i - 1]); } }
        assert forall|i: int| 0 <= i < s.len() implies upto(k, (#[trigger] s[i]).0) && s[i].0 != SketchHashKey::Invalid by { if i > 0 { assert(s[i] == t[i - 1]); } }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(lt(s[i].0, s[j].0)); }
    } else {
        assert forall|j: K| !rest(m, k).contains(j) by { if m.contains_key(j) { assert(has(m, j)); } }
        assert(rest(m, k) =~= Set::empty());
    }
}
pub proof fn all_from_head(m: Map<K, SketchHashEntry>, head: K)
    requires wfm(m, head)
    ensures rep(all(m, head), m), rising(all(m, head)), valid(all(m, head)), forall|p: spec_fn(K) -> bool| #[trigger] ts(all(m, head), p) == ws(m, p), forall|k: K| #[trigger] keyed(all(m, head), k) <==> m.contains_key(k)
{
    all_ok(m, head, head);
    assert(rest(m, head) =~= m.dom()) by { assert forall|j: K| #[trigger] m.dom().contains(j) implies upto(head, j) by { assert(has(m, j)); } }
    assert(m.restrict(rest(m, head)) =~= m);
    assert forall|p: spec_fn(K) -> bool| #[trigger] ts(all(m, head), p) == ws(m, p) by { rep_sum(all(m, head), m, p); }
    assert forall|k: K| #[trigger] keyed(all(m, head), k) <==> m.contains_key(k) by { if m.contains_key(k) { rep_all(all(m, head), m, k); } }
}
pub proof fn all_chained(s: Bs, m: Map<K, SketchHashEntry>, head: K, i: int)
    requires 0 <= i <= s.len(), chained(s, m), valid(s), wfm(m, head)
    ensures all(m, if i < s.len() { s[i].0 } else { SketchHashKey::Invalid }) == s.skip(i)
    decreases s.len() - i
{
    if i < s.len() {
        all_chained(s, m, head, i + 1);
        assert(m.contains_key(s[i].0));
        rest_step(m, head, s[i].0);
        assert(all(m, s[i].0) =~= s.skip(i));
    } else { assert(s.skip(i) =~= Seq::empty()); assert(!m.contains_key(SketchHashKey::Invalid)); }
}
pub open spec fn mapped(s: Bs, n: int) -> Bs { Seq::new(s.len(), |i: int| (compn(s[i].0, n), s[i].1)) }
pub proof fn ts_mapped(s: Bs, n: int, p: spec_fn(K) -> bool)
    ensures ts(mapped(s, n), p) == ts(s, beforen(p, n))
    decreases s.len()
{
    if s.len() > 0 { ts_mapped(s.drop_last(), n, p); assert(mapped(s, n).drop_last() =~= mapped(s.drop_last(), n)); }
}
/// t: the buckets after e compactions
#[verifier::opaque]
pub open spec fn listed(k: Seq<K>, c: Seq<u64>, t: Bs, e: int, oc: int) -> bool {
    &&& k.len() == c.len() && t == mapped(pairs(k, c), e) && valid(pairs(k, c)) && 0 <= e && 0 <= oc && oc + e <= 64
    &&& forall|i: int| 0 <= i < k.len() ==> small(#[trigger] k[i], oc)
}
pub proof fn item(k: Seq<K>, c: Seq<u64>, t: Bs, e: int, oc: int, j: int)
    requires listed(k, c, t, e, oc), 0 <= j < k.len()
    ensures t.len() == k.len() == c.len(), t[j] == (compn(k[j], e), c[j]), compn(k[j], e) != SketchHashKey::Invalid, small(compn(k[j], e), oc + e), t.take(j + 1) == t.take(j).push((compn(k[j], e), c[j])), 0 <= ts(t.take(j), any()), ts(t.take(j), any()) + c[j] <= ts(t, any())
{
    reveal(listed);
    assert(pairs(k, c)[j] == (k[j], c[j]));
    compn_valid(k[j], e); smalls(k[j], oc, e);
    assert(t.take(j + 1) =~= t.take(j).push(t[j]));
    ts_push(t.take(j), t[j], any()); ts_mono(t, j, any()); ts_mono(t, j + 1, any());
}
/// what the map and the buckets held, after a and b compactions
#[verifier::opaque]
pub open spec fn with_items(m: Map<K, SketchHashEntry>, a: int, s: Bs, b: int, n: Map<K, SketchHashEntry>) -> bool { forall|p: spec_fn(K) -> bool| #[trigger] ws(n, p) == ws(m, beforen(p, a)) + ts(s, beforen(p, b)) }
pub proof fn joined_items(m0: Map<K, SketchHashEntry>, a: int, m2: Map<K, SketchHashEntry>, s: Bs, b: int, m1: Map<K, SketchHashEntry>, d: int, n: Map<K, SketchHashEntry>)
    requires a >= 0, b >= 0, d >= 0, grew(m0, m2, a), plus(m2, mapped(s, b), m1), grew(m1, n, d)
    ensures with_items(m0, a + d, s, b + d, n)
{
    reveal(grew); reveal(plus); reveal(with_items);
    assert forall|p: spec_fn(K) -> bool| #[trigger] ws(n, p) == ws(m0, beforen(p, a + d)) + ts(s, beforen(p, b + d)) by {
        let q = beforen(p, d);
        before_add(p, a, d); before_add(p, b, d); ts_mapped(s, b, q);
        assert(ws(m1, q) == ws(m2, q) + ts(mapped(s, b), q) && ws(m2, q) == ws(m0, beforen(q, a)));
    }
}
/// an iterator: the items it has yet to give
pub struct VxIt<T> { pub v: Vec<T>, pub i: usize }
impl<T: Copy> VxIt<T> {
    pub open spec fn ok(&self) -> bool { self.i <= self.v@.len() }
    pub open spec fn view(&self) -> Seq<T> { self.v@.skip(self.i as int) }
    pub fn next(&mut self) -> (r: Option<T>) requires old(self).ok()
        ensures final(self).ok(), old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@
    { if self.i < self.v.len() { let r = self.v[self.i]; self.i = self.i + 1; proof { assert(self@ =~= old(self)@.skip(1)); } Some(r) } else { None } }
    pub fn peek(&self) -> (r: Option<&T>) requires self.ok() ensures self@.len() > 0 ==> r is Some && *r->0 == self@[0], self@.len() == 0 ==> r is None
    { if self.i < self.v.len() { Some(&self.v[self.i]) } else { None } }
    pub fn vx_all(self) -> (r: Vec<T>) requires self.ok() ensures r@ == self@
    { let mut o: Vec<T> = Vec::new(); let mut j = self.i; while j < self.v.len() invariant self.i <= j <= self.v@.len(), o@ == self.v@.subrange(self.i as int, j as int) decreases self.v@.len() - j { o.push(self.v[j]); j = j + 1; proof { assert(o@ =~= self.v@.subrange(self.i as int, j as int)); } } proof { assert(o@ =~= self@); } o }
    pub fn vx_last(self) -> (r: T) requires self.ok(), self@.len() > 0 ensures r == self@.last() { self.v[self.v.len() - 1] }
}
/// the bucket that holds the value of this rank, or the last
pub open spec fn ranked(s: Bs, i: int, rank: int, n: int) -> bool { 0 <= i < s.len() && if rank >= n { i == s.len() - 1 } else { ts(s.take(i), any()) < rank <= ts(s.take(i + 1), any()) } }
pub fn vx_or(o: Option<&K>, d: K) -> (r: K) ensures r == if o is Some { *o->0 } else { d } { match o { Some(p) => *p, None => d } }
pub open spec fn firsts(s: Bs) -> Seq<K> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn pairs(k: Seq<K>, c: Seq<u64>) -> Bs { Seq::new(if k.len() < c.len() { k.len() } else { c.len() }, |i: int| (k[i], c[i])) }
"""
RENAME = [(r"&mut \[\(SketchHashKey, u64\)\]", "&mut Vec<(SketchHashKey, u64)>"), (r"HashMap<SketchHashKey, SketchHashEntry>", "KMap"), (r"\bHashMap::", "KMap::"), (r"impl Iterator<Item = ((?:\w+|\([^)]*\)))>", r"VxIt<\1>"), (r"\bf64::powi", "Fl::powi"), (r"SketchHashIterator<'_>", "SketchHashIterator")]
PARTS = [
    ("enum", F, "SketchHashKey", "#[derive(PartialEq, Eq, Structural, Copy, Clone)]\n"),
    ("impl", F, "impl std::cmp::Ord for SketchHashKey", ["cmp"]),
    ("impl", F, "impl std::cmp::PartialOrd for SketchHashKey", ["partial_cmp"]),
    ("impl", F, "impl SketchHashKey", ["compact_key"]),
    ("struct", F, "SketchHashEntry", "#[derive(Clone, Copy)]\n"),
    ("struct", F, "SketchHashMap"),
    ("impl", F, "impl SketchHashMap", ["new", "with_capacity", "increment", "entry_split", "entry_upsert", "len", "populate_map_using_iter", "compact_using_stack", "compact_using_heap", "compact", "iter"]),
    ("struct", F, "SketchHashIterator"),
    ("impl", F, "impl Iterator for SketchHashIterator<'_>", ["next"], "impl<'a> SketchHashIterator<'a>"),
    ("struct", F, "UDDSketchMetadata"),
    ("struct", F, "UDDSketch"),
    ("fn", F, "key"),
    ("fn", F, "gamma"),
    ("fn", F, "bucket_to_value"),
    ("fn", F, "last_bucket_value"),
    ("fn", F, "estimate_quantile"),
    ("impl", F, "impl UDDSketch", ["new", "key", "compact_buckets", "bucket_iter", "add_value", "merge_sketch", "new_from_data", "merge_items", "max_allowed_buckets", "times_compacted", "current_buckets_count", "sum", "count", "max_error", "estimate_quantile"]),
]
IMPL = {"impl SketchHashMap": """
    pub open spec fn wf(&self) -> bool { wfm(self.map@, self.head) }
""", "impl Iterator for SketchHashIterator<'_>": """
    pub open spec fn wf(&self) -> bool { self.container.wf() && (self.next_key == SketchHashKey::Invalid || self.container.map@.contains_key(self.next_key)) }
    pub open spec fn view(&self) -> Bs { all(self.container.map@, self.next_key) }
    /// what it gives, to the end
    pub fn vx_all(self) -> (r: Vec<(K, u64)>) requires self.wf() ensures r@ == self@ {
        let mut it = self; let mut o: Vec<(K, u64)> = Vec::new();
        loop invariant it.wf(), o@ + it@ == self@ ensures o@ == self@ decreases it@.len() {
            let ghost (i0, o0) = (it@, o@);
            match it.next() { Some(x) => { o.push(x); proof { assert(o@ + it@ =~= o0 + i0); } } None => { proof { assert(o@ =~= o@ + it@); } break; } }
        }
        o
    }
    pub fn vx_it(self) -> (r: VxIt<(K, u64)>) requires self.wf() ensures r.ok(), r@ == self@ { let r = VxIt { v: self.vx_all(), i: 0 }; proof { assert(r@ =~= self@); } r }
""", "impl UDDSketch": """
    /// all but the limit on buckets and the count
    pub open spec fn loose(&self) -> bool {
        &&& self.buckets.wf() && self.max_buckets.v >= 7 && self.compactions <= 64
        &&& allsmall(self.buckets.map@, self.compactions as int) && gamma_at(self.gamma, self.compactions as int)
    }
    pub open spec fn wf(&self) -> bool { self.loose() && self.num_values == ws(self.buckets.map@, any()) && self.buckets.map@.dom().len() <= self.max_buckets.v }
    pub open spec fn in_order(&self) -> Bs { all(self.buckets.map@, self.buckets.head) }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: UDDSketch) ensures r == *self { unimplemented!() }
"""}
def raised(v, m, c): return f"{v}.loose(), ws({v}.buckets.map@, any()) == ws({m}, any()), {v}.compactions >= {c}, grew({m}, {v}.buckets.map@, {v}.compactions - {c})"
def rlb(v): return "let ghost (mi, ci) = (%s.buckets.map@, %s.compactions);" % (v, v)
def rle(v, m, c): return "proof { grew_step(%s, mi, %s.buckets.map@, ci - %s); halved_total(mi, %s.buckets.map@); }" % (m, v, c, v)
SAME = "self.max_buckets == old(self).max_buckets, self.num_values == old(self).num_values, self.values_sum == old(self).values_sum"
LIMIT = "invariant ws(m1, any()) <= u64::MAX, " + raised("self", "m1", "c1") + ", " + SAME + " decreases 64 - self.compactions"
LSTART = rlb("self") + " proof { if ci == 64 { seven(mi); } }"
LEND = rle("self", "m1", "c1")
LBEFORE = "let ghost (m1, c1) = (self.buckets.map@, self.compactions); proof { grew_none(m1); }"
UPS = """requires old(self).wf(), key != SketchHashKey::Invalid, cnt(old(self).map@, key) + %s <= u64::MAX
        ensures final(self).wf(), final(self).map@.dom() == old(self).map@.dom().insert(key), forall|k: K| cnt(final(self).map@, k) == #[trigger] cnt(old(self).map@, k) + if k == key { %s as int } else { 0 }"""
COMPACT = """old(self).wf(), ws(old(self).map@, any()) <= u64::MAX
        ensures final(self).wf(), forall|p: spec_fn(K) -> bool| #[trigger] ws(final(self).map@, p) == ws(old(self).map@, before_comp(p)), forall|k: K| #[trigger] final(self).map@.contains_key(k) <==> came_from(old(self).map@, k)"""
SPECS = {
    "compact_key": dict(ret="r", clauses="ensures r == comp(*self)"),
    "new": dict(ret="r", clauses="ensures r.wf(), r.map@ == Map::<K, SketchHashEntry>::empty()"),
    "with_capacity": dict(ret="r", clauses="ensures r.wf(), r.map@ == Map::<K, SketchHashEntry>::empty()"),
    "len": dict(ret="r", clauses="ensures r == self.map@.dom().len()"),
    "increment": dict(clauses=UPS % ("1", "1")),
    "entry_upsert": dict(clauses=UPS % ("count", "count"), ghost={
        "start": "let ghost m0 = old(self).map@; let ghost h0 = old(self).head; proof { assert(has(m0, key) == m0.contains_key(key)); }",
        r"before return;\s*\}\s*Entry::Vacant\(v\)": "proof { assert(self.map@.dom() =~= m0.dom()); counts_only(m0, self.map@, h0); assert(self.map@.dom() =~= m0.dom().insert(key)); }",
        r"before return;\s*\}\s*Entry::Vacant\(_\)": "proof { in_front(m0, h0, key, count); }",
        "before self\\.map\\.insert\\(\\s*key": "let ghost m1 = self.map@;",
        "end": "proof { counts_only(m1.insert(key, SketchHashEntry { count: 0, next: new_next }), self.map@, self.head); assert(self.map@.dom() =~= m0.dom().insert(key)); }"}),
    "entry_split": dict(ret="r", clauses="""requires old(self).wf(), !old(self).map@.contains_key(key), key != SketchHashKey::Invalid
        ensures final(self).map@.dom() == old(self).map@.dom(), forall|k: K| old(self).map@.contains_key(k) ==> #[trigger] final(self).map@[k].count == old(self).map@[k].count,
            wfm(final(self).map@.insert(key, SketchHashEntry { count: 0, next: r }), final(self).head)""",
        rewrite=[(r"return next;(?=\s*\}\s*let vxks|\s*\}\s*for )", "proof { in_front(old(self).map@, old(self).head, key, 0); } return next;"), (r"for \(k, e\) in vxi0: self\.map\.iter_mut\(\)", "let vxks = self.map.vx_keys(); for vxk in vxi0: vxks"), (r"/\*@lb0@\*/", "let k = &vxk; let ghost kg = vxi0.index() as int; proof { assert(vxks@.contains(vxks@[kg])); } let ghost mi = self.map@; let e = self.map.vx_get_mut(k); proof { assert(mi.insert(*k, mi[*k]) =~= mi); }")],
        ghost={r"before return next;\s*\}\s*/\*@le0": "proof { split_at(old(self).map@, old(self).head, *k, key, *final(e)); assert(self.map@.dom() =~= old(self).map@.dom()); }",
               "la0": "proof { has_before(old(self).map@, old(self).head, key); let p = choose|p: K| #[trigger] old(self).map@.contains_key(p) && lt(p, key) && lt(key, old(self).map@[p].next); assert(vxks@.contains(p)); assert(false); }"},
        loops={0: "invariant self.map@ == old(self).map@, self.head == old(self).head, old(self).wf(), !old(self).map@.contains_key(key), key != SketchHashKey::Invalid, !lt(key, old(self).head), vxi0.seq() == vxks@, forall|k: K| #[trigger] vxks@.contains(k) <==> old(self).map@.contains_key(k), forall|i: int| 0 <= i < vxi0.index() ==> !(lt(#[trigger] vxks@[i], key) && lt(key, old(self).map@[vxks@[i]].next))"}),

    "populate_map_using_iter": dict(clauses="""requires old(entries)@.len() > 0, valid(old(entries)@), ts(old(entries)@, any()) <= u64::MAX
        ensures final(self).wf(), forall|p: spec_fn(K) -> bool| ts(old(entries)@, p) == #[trigger] ws(final(self).map@, p), forall|k: K| #[trigger] final(self).map@.contains_key(k) <==> keyed(old(entries)@, k)""",
        rewrite=[(r"entries\.sort_unstable_by_key\(\|e\| e\.0\)", "vx_sort_by_key(entries)"),
            (r"let iter = entries\.iter_mut\(\)\.take\(old_index \+ 1\)\.peekable\(\);\s*let mut iter = iter\.peekable\(\);", "let mut iter = vx_first(entries, old_index + 1);"),
            (r"iter\.peek\(\)\.map\(\|p\| p\.0\)\.unwrap_or\(Invalid\)", "vx_key_or(iter.peek(), SketchHashKey::Invalid)")],
        ghost={"after vx_sort_by_key\\(entries\\);": "let ghost (e0, s) = (old(entries)@, entries@); proof { sorted(e0, s); }",
            "after let mut current = entries\\[0\\];": "let ghost mut a: Bs = Seq::empty(); proof { reduced_one(s); assert(entries@.take(0) =~= a); assert(ts(s, any()) <= u64::MAX); }",
            "lb0": "let ghost (a0, c0) = (a, current); proof { reduced_room(s, a, current, idx as int); assert(a.push(current).last() == current); }",
            "le0": """proof {
                    if s[idx as int].0 != c0.0 { a = a0.push(c0); reduced_next(s, a, idx as int); } else { reduced_same(s, a, c0, idx as int, current); }
                    assert(entries@.take(old_index as int) =~= a);
                }""",
            "after entries\\[old_index\\] = current;\\s*(?=let mut iter)": "let ghost l = a.push(current); proof { assert(entries@.take(old_index + 1) =~= l); reduced_all(s, l); link_none(l, self.map@); }",
            "lb1": "let ghost (m0, i) = (self.map@, iter.i - 1); proof { assert(*key == l[i].0 && *count == l[i].1); }",
            "le1": "proof { assert(iter.i < iter.n ==> iter.v@[iter.i as int] == l[iter.i as int]); link_step(l, m0, i, self.map@[l[i].0]); assert(self.map@ =~= m0.insert(l[i].0, self.map@[l[i].0])); }",
            "la1": "proof { linked_wf(l, self.map@); assert(self.head == l[0].0); }",
        },
        loops={0: """invariant entries@.len() == s.len(), s.len() > 0, s.len() <= usize::MAX, ascending(s), ts(s, any()) <= u64::MAX, vxi0.seq().len() == s.len() - 1, old_index == a.len(), old_index < vxi0.index() + 1 <= s.len(), entries@.take(old_index as int) == a,
                forall|j: int| vxi0.index() + 1 <= j < s.len() ==> #[trigger] entries@[j] == s[j], reduced(s, a.push(current), vxi0.index() + 1)""",
            1: """invariant iter.wf(), iter.n == l.len(), iter.v@.take(iter.n as int) == l, l.len() > 0, rising(l), valid(l), self.head == l[0].0, linked(l, self.map@, iter.i as int)
                ensures iter.i == iter.n"""}),

    "compact_using_heap": dict(clauses="requires old(self).map@.dom().len() > 0, " + COMPACT,
        rewrite=[(r"entries\.extend\(self\.map\.drain\(\)\.map\(\|e\| (\(.*\))\)\);", r"""let vxd = self.map.vx_drain(); let mut vxj: usize = 0;
                while vxj < vxd.len() invariant vxj <= vxd@.len(), entries@ == compacted(vxd@).take(vxj as int), self.map@ == Map::<K, SketchHashEntry>::empty() decreases vxd@.len() - vxj
                { let e = &vxd[vxj]; entries.push(\1); vxj = vxj + 1; proof { assert(entries@ =~= compacted(vxd@).take(vxj as int)); } }
                proof { assert(entries@ =~= compacted(vxd@)); drained_sums(vxd@, old(self).map@); }""")]),
    "compact_using_stack": dict(clauses="requires old(self).map@.dom().len() > 0, old(self).map@.dom().len() <= N, " + COMPACT,
        rewrite=[(r"\[\(SketchHashKey::Invalid, 0\); N\]", "vx_filled(N)"), (r"self\.map\.drain\(\)", "self.map.vx_drain_iter()"),
            (r"for e in vxi0: entries\.iter_mut\(\)", "let mut vxj: usize = 0; while vxj < entries.len()"), (r"\*e = ([^;]*);", r"entries[vxj] = \1; proof { assert(entries@[vxj as int] == compacted(drain.v@)[vxj as int]); }"), (r"/\*@le0@\*/", "vxj = vxj + 1;"),
            (r"drop\(drain\);", "proof { assert(entries@.take(len as int) =~= compacted(drain.v@)); drained_sums(drain.v@, old(self).map@); }"), (r"&mut entries\[0\.\.len\]", "&mut vx_part(entries, len)")],
        loops={0: """invariant_except_break drain.i == vxj
                invariant vxj <= entries@.len(), entries@.len() == N, drain.i <= drain.v@.len() <= N, drained(drain.v@, old(self).map@), len == drain.v@.len(), self.map@ == Map::<K, SketchHashEntry>::empty(), forall|j: int| 0 <= j < vxj ==> #[trigger] entries@[j] == compacted(drain.v@)[j]
                ensures vxj >= drain.v@.len()
                decreases entries@.len() - vxj"""}),
    "compact": dict(clauses="requires " + COMPACT),
    "iter": dict(ret="r", clauses="requires self.wf() ensures r.wf(), r@ == all(self.map@, self.head)"),
    "next": dict(ret="r", clauses="""requires old(self).wf()
        ensures final(self).wf(), final(self).container == old(self).container, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@""",
        rewrite=[(r"self\.container\.map\[&self\.next_key\]", "self.container.map.vx_at(&self.next_key)"), (r"self\.container\[key\]", "self.container.map.vx_at(&key).count")],
        ghost={"start": """proof { let (m, h, k) = (self.container.map@, self.container.head, self.next_key);
                assert(!m.contains_key(SketchHashKey::Invalid));
                if m.contains_key(k) { assert(has(m, k)); rest_step(m, h, k); assert(all(m, k).skip(1) =~= all(m, m[k].next)); } }"""}),
    "key": dict(assumed=True, ret="r", clauses="ensures r == keyof(value, gamma)"),
    "bucket_to_value": dict(assumed=True, ret="r", clauses="requires bucket != SketchHashKey::Invalid ensures r == valof(alpha, gamma, bucket)"),
    "gamma": dict(ret="r", clauses='ensures r == fdiv(fadd(flit(1, ""@), alpha), fsub(flit(1, ""@), alpha))'),
    "last_bucket_value": dict(ret="r", clauses="requires buckets.ok(), buckets@.len() > 0, valid(buckets@) ensures r == valof(alpha, gamma, buckets@.last().0)", rewrite=[(r"buckets\.last\(\)\.unwrap\(\)", "buckets.vx_last()")]),
    "estimate_quantile": dict(ret="r", clauses="""requires buckets.ok(), valid(buckets@), ts(buckets@, any()) == num_values, 0 < num_values < 0x8000_0000_0000_0000, buckets@.len() > 0
        ensures in_unit(quantile), exists|i: int| ranked(buckets@, i, fcut(fmul(fint(num_values as int), quantile), 0, u64::MAX as int) + 1, num_values as int) && r == #[trigger] valof(alpha, gamma, buckets@[i].0)""",
        rewrite=[(r"\((?:0\.0|fl_lit\([^)]*\))\s*\.\.=\s*fl_lit\([^)]*\)\)\.contains\(&quantile\)", "vx_in_unit(quantile)"), (r"for entry in vxi0: buckets\b", "let vxb = buckets.vx_all(); for entry in vxi0: vxb")],
        ghost={"start": "let ghost s = buckets@; proof { mul_comm(); }", r"before let mut remaining": "proof { rank_fits(num_values, quantile); }",
            r"before return last_bucket_value": "proof { assert(ranked(s, s.len() - 1, remaining as int, num_values as int)); }",
            r"after let mut remaining = [^;]*;": "let ghost target = remaining as int;",
            "lb0": "proof { let i = vxi0.index() as int; assert(s.take(i + 1) =~= s.take(i).push(s[i])); ts_push(s.take(i), s[i], any()); ts_mono(s, i, any()); }",
            r"before return bucket_to_value": "proof { let i = vxi0.index() as int; assert(ranked(s, i, target, num_values as int)); assert(key == s[i].0); assert(valof(alpha, gamma, s[i].0) == valof(alpha, gamma, key)); }",
            "la0": "proof { assert(s.take(s.len() as int) =~= s); assert(false); }"},
        loops={0: "invariant vxi0.seq() == s, vxb@ == s, s == buckets@, valid(s), remaining >= 1, remaining + ts(s.take(vxi0.index() as int), any()) == target, target < num_values, num_values == ts(s, any()), in_unit(quantile), target == fcut(fmul(fint(num_values as int), quantile), 0, u64::MAX as int) + 1"}),
    "impl UDDSketch::estimate_quantile": dict(ret="r", clauses="""requires self.wf(), 0 < self.num_values < 0x8000_0000_0000_0000
        ensures in_unit(quantile), exists|i: int| ranked(self.in_order(), i, fcut(fmul(fint(self.num_values as int), quantile), 0, u64::MAX as int) + 1, self.num_values as int) && r == #[trigger] valof(self.alpha, self.gamma, self.in_order()[i].0)""",
        rewrite=[(r"self\.buckets\.iter\(\)", "self.buckets.iter().vx_it()")], ghost={"start": "proof { all_from_head(self.buckets.map@, self.buckets.head); assert(ts(self.in_order(), any()) == ws(self.buckets.map@, any())); }"}),
    "impl UDDSketch::new": dict(ret="r", clauses="requires max_buckets >= 7 ensures r.wf(), r.num_values == 0, r.compactions == 0, r.max_buckets.v == max_buckets, r.buckets.map@ == Map::<K, SketchHashEntry>::empty(), r.alpha == initial_error, in_range(initial_error)",
        rewrite=[(r"\(\s*(?:1e-12|fl_lit\([^)]*\))\s*\.\.\s*(?:1\.0|fl_lit\([^)]*\))\)\.contains\(&initial_error\)", "vx_in_range(initial_error)"), (r"NonZeroU32::new\(max_buckets\)\s*\.expect\(\s*\"[^\"]*\"\s*,?\s*\)", "vx_nonzero(max_buckets)")],
        ghost={"start": "proof { if in_range(initial_error) { gamma_new(initial_error); } }"}),
    "impl UDDSketch::key": dict(ret="r", clauses="ensures r == keyof(value, self.gamma)"),
    "bucket_iter": dict(ret="r", clauses="requires self.buckets.wf() ensures r.wf(), r@ == self.in_order()"),
    "compact_buckets": dict(clauses="""requires old(self).loose(), old(self).compactions < 64, ws(old(self).buckets.map@, any()) <= u64::MAX
        ensures final(self).loose(), final(self).compactions == old(self).compactions + 1, final(self).gamma == fmul(old(self).gamma, old(self).gamma), final(self).max_buckets == old(self).max_buckets, final(self).num_values == old(self).num_values, final(self).values_sum == old(self).values_sum,
            halved(old(self).buckets.map@, final(self).buckets.map@)""",
        ghost={"end": """proof { reveal(halved); let (m, n, c) = (old(self).buckets.map@, self.buckets.map@, old(self).compactions as int);
                assert forall|k: K| #[trigger] n.contains_key(k) implies small(k, c + 1) by { assert(came_from(m, k)); let j = choose|j: K| #[trigger] m.contains_key(j) && comp(j) == k; small_step(j, c); }
                gamma_squared(old(self).gamma, c); }"""}),
    "add_value": dict(clauses="""requires old(self).wf(), old(self).num_values < u64::MAX
        ensures final(self).wf(), final(self).num_values == old(self).num_values + 1, final(self).max_buckets == old(self).max_buckets, final(self).compactions >= old(self).compactions, final(self).values_sum == fadd(old(self).values_sum, value),
            forall|p: spec_fn(K) -> bool| #[trigger] ws(final(self).buckets.map@, p) == ws(old(self).buckets.map@, beforen(p, final(self).compactions - old(self).compactions)) + if p(compn(keyof(value, old(self).gamma), final(self).compactions - old(self).compactions)) { 1int } else { 0 }""",
        rewrite=[(r"self\.buckets\.increment\(self\.key\(value\)\);", "let vxk = self.key(value); self.buckets.increment(vxk); " + LBEFORE + " proof { plus_none(m0); plus_one(m0, Seq::empty(), m0, m1, vxk, 1); plus_total(m0, one, m1); }")],
        ghost={"start": "let ghost m0 = self.buckets.map@; let ghost one = Seq::<(K, u64)>::empty().push((keyof(value, self.gamma), 1u64)); proof { near_enough(value, self.gamma, self.compactions as int); ws_bound(m0, any()); let k = keyof(value, self.gamma); assert(cnt(m0, k) <= self.num_values); ts_push(Seq::empty(), one[0], any()); }", "lb0": LSTART, "le0": LEND,
            "end": """proof { let d = self.compactions - c1; reveal(grew); reveal(plus);
                assert forall|p: spec_fn(K) -> bool| #[trigger] ws(self.buckets.map@, p) == ws(m0, beforen(p, d)) + if p(compn(vxk, d)) { 1int } else { 0 } by { let q = beforen(p, d); assert(ws(m1, q) == ws(m0, q) + ts(one, q)); ts_push(Seq::empty(), one[0], q); } }"""}, loops={0: LIMIT}),
    "max_allowed_buckets": dict(ret="r", clauses="ensures r == self.max_buckets.v"),
    "times_compacted": dict(ret="r", clauses="ensures r == self.compactions"),
    "current_buckets_count": dict(ret="r", clauses="ensures r == self.buckets.map@.dom().len()"),
    "sum": dict(ret="r", clauses="ensures r == self.values_sum"),
    "count": dict(ret="r", clauses="ensures r == self.num_values"),
    "max_error": dict(ret="r", clauses="ensures r == self.alpha"),
    "merge_sketch": dict(clauses="""requires old(self).wf(), other.wf(), old(self).num_values + other.num_values <= u64::MAX
        ensures final(self).wf(), final(self).num_values == old(self).num_values + other.num_values, final(self).max_buckets == old(self).max_buckets, other.num_values == 0 ==> *final(self) == *old(self), other.num_values != 0 && old(self).num_values == 0 ==> *final(self) == *other,
            other.num_values != 0 && old(self).num_values != 0 ==> final(self).values_sum == fadd(old(self).values_sum, other.values_sum) && final(self).compactions >= old(self).compactions && final(self).compactions >= other.compactions
                && both(old(self).buckets.map@, final(self).compactions - old(self).compactions, other.buckets.map@, final(self).compactions - other.compactions, final(self).buckets.map@)""",
        rewrite=[(r"(?s)if !\(\(self\s*\.gamma.*?1e-9\s*\) \{ vx_refuse\(\) \}", "if !vx_alike(self, other) { vx_refuse() }"),
            (r"for entry in vxi2: other\.buckets\.iter\(\)", """let ghost (m2, c2, o2) = (self.buckets.map@, self.compactions, other.buckets.map@); proof { all_from_head(o2, other.buckets.head); assert(m2.dom().finite()); }
                let vxb = other.buckets.iter().vx_all(); let ghost s = vxb@; proof { assert(ts(s, any()) == ws(o2, any())); assert forall|i: int| 0 <= i < s.len() implies small((#[trigger] s[i]).0, c2 as int) by { assert(keyed(s, s[i].0)); } plus_none(m2); assert(s.take(0) =~= Seq::empty()); } for entry in vxi2: vxb"""),
            (r"while self\.buckets\.len\(\) >", LBEFORE + " while self.buckets.len() >")],
        ghost={"start": "let ghost (o0, oc0, m0, c0) = (other.buckets.map@, other.compactions, old(self).buckets.map@, old(self).compactions); let ghost og = *other; proof { grew_none(o0); grew_none(m0); }",
            "lb0": rlb("other"), "le0": rle("other", "o0", "oc0"), "lb1": rlb("self"), "le1": rle("self", "m0", "c0"),
            "lb2": "let ghost mi = self.buckets.map@; let ghost i = vxi2.index() as int; proof { ts_push(s.take(i), s[i], any()); assert(s.take(i + 1) =~= s.take(i).push(s[i])); ts_mono(s, i, any()); ts_mono(s, i + 1, any()); plus_total(m2, s.take(i), mi); ws_bound(mi, any()); assert(cnt(mi, s[i].0) <= ws(mi, any())); }",
            "le2": "proof { plus_one(m2, s.take(i), mi, self.buckets.map@, s[i].0, s[i].1); }",
            "la2": "proof { assert(s.take(s.len() as int) =~= s); plus_total(m2, s, self.buckets.map@); }",
            "lb3": LSTART, "le3": LEND,
            "end": """proof { assert(self.wf()); let d = self.compactions - c1; joined(m0, c2 - c0, m2, o0, c2 - oc0, o2, s, m1, d, self.buckets.map@); assert(c2 - c0 + d == self.compactions - c0); assert(c2 - oc0 + d == self.compactions - oc0); assert(both(m0, self.compactions - c0, o0, self.compactions - oc0, self.buckets.map@)); }"""},
        loops={0: "invariant " + raised("other", "o0", "oc0") + ", *self == *old(self), self.loose(), ws(o0, any()) <= u64::MAX, other.num_values == og.num_values, other.values_sum == og.values_sum, other.compactions <= self.compactions || other.compactions == oc0 ensures other.compactions >= self.compactions, other.compactions == self.compactions || other.compactions == oc0 decreases self.compactions - other.compactions",
            1: "invariant " + raised("self", "m0", "c0") + ", " + SAME + ", other.loose(), ws(m0, any()) <= u64::MAX, self.compactions <= other.compactions decreases other.compactions - self.compactions",
            2: "invariant self.loose(), self.compactions == c2, " + SAME + ", vxi2.seq() == s, vxb@ == s, valid(s), m2.dom().finite(), ws(m2, any()) + ts(s, any()) <= u64::MAX, forall|i: int| 0 <= i < s.len() ==> small((#[trigger] s[i]).0, c2 as int), plus(m2, s.take(vxi2.index() as int), self.buckets.map@)",
            3: LIMIT}),
    "new_from_data": dict(ret="r", clauses="""requires keys.ok(), counts.ok(), keys@.len() == counts@.len() == metadata.buckets <= metadata.max_buckets, metadata.max_buckets >= 7, rising(pairs(keys@, counts@)), valid(pairs(keys@, counts@)), metadata.compactions <= 64,
            ts(pairs(keys@, counts@), any()) == metadata.values, gamma_at(fdiv(fadd(flit(1, ""@), metadata.current_error), fsub(flit(1, ""@), metadata.current_error)), metadata.compactions as int), forall|i: int| 0 <= i < keys@.len() ==> small(#[trigger] keys@[i], metadata.compactions as int)
        ensures r.wf(), r.num_values == metadata.values, r.values_sum == metadata.sum, r.alpha == metadata.current_error, r.compactions == metadata.compactions, r.max_buckets.v == metadata.max_buckets, r.in_order() == pairs(keys@, counts@)""",
        rewrite=[(r"NonZeroU32::new\(metadata\.max_buckets\)\s*\.expect\(\s*\"[^\"]*\"\s*,?\s*\)", "vx_nonzero(metadata.max_buckets)"), (r"let mut keys = keys\.into_iter\(\)\.peekable\(\);", "let mut keys = keys;"),
            (r"keys\.peek\(\)\.copied\(\)\.unwrap_or\(Invalid\)", "vx_or(keys.peek(), SketchHashKey::Invalid)")],
        ghost={"start": "let ghost (k0, c0) = (keys@, counts@); let ghost s = pairs(k0, c0); let ghost mut j: int = 0; proof { assert(k0.skip(0) =~= k0 && c0.skip(0) =~= c0); link_none(s, Map::<K, SketchHashEntry>::empty()); }",
            "lb0": "let ghost m0 = sketch.buckets.map@; proof { assert(k0.skip(j).skip(1) =~= k0.skip(j + 1)); assert(c0.skip(j).skip(1) =~= c0.skip(j + 1)); assert(k0.skip(j)[0] == k0[j] && c0.skip(j)[0] == c0[j]); assert(s[j] == (key, count)); }",
            "le0": "proof { link_step(s, m0, j, sketch.buckets.map@[s[j].0]); assert(sketch.buckets.map@ =~= m0.insert(s[j].0, sketch.buckets.map@[s[j].0])); j = j + 1; }",
            r"before sketch\s*\}\s*$": "proof { let m = sketch.buckets.map@; linked_wf(s, m); all_chained(s, m, sketch.buckets.head, 0); assert(s.skip(0) =~= s); if s.len() == 0 { assert(!m.contains_key(SketchHashKey::Invalid)); } assert forall|k: K| #[trigger] m.contains_key(k) implies small(k, metadata.compactions as int) by { assert(keyed(s, k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(small(k0[i], metadata.compactions as int)); } }"},
        loops={0: """invariant 0 <= j <= s.len(), s == pairs(k0, c0), k0.len() == c0.len(), keys.ok(), counts.ok(), keys@ == k0.skip(j), counts@ == c0.skip(j), rising(s), valid(s), linked(s, sketch.buckets.map@, j),
                sketch.buckets.head == (if s.len() > 0 { s[0].0 } else { SketchHashKey::Invalid }), sketch.alpha == metadata.current_error, sketch.compactions == metadata.compactions, sketch.max_buckets.v == metadata.max_buckets, sketch.num_values == metadata.values, sketch.values_sum == metadata.sum,
                gamma_at(sketch.gamma, metadata.compactions as int)
                ensures j == s.len()
                decreases s.len() - j"""}),
    "merge_items": dict(clauses="""requires old(self).wf(), keys.ok(), counts.ok(), keys@.len() == counts@.len(), valid(pairs(keys@, counts@)), other.compactions <= 64, old(self).num_values + other.values <= u64::MAX,
            ts(pairs(keys@, counts@), any()) == other.values, forall|i: int| 0 <= i < keys@.len() ==> small(#[trigger] keys@[i], other.compactions as int)
        ensures final(self).wf(), final(self).num_values == old(self).num_values + other.values, final(self).max_buckets == old(self).max_buckets, other.values == 0 ==> *final(self) == *old(self),
            other.values != 0 ==> final(self).values_sum == fadd(old(self).values_sum, other.sum) && final(self).compactions >= old(self).compactions && final(self).compactions >= other.compactions
                && with_items(old(self).buckets.map@, final(self).compactions - old(self).compactions, pairs(keys@, counts@), final(self).compactions - other.compactions, final(self).buckets.map@)""",
        rewrite=[(r"while self\.buckets\.len\(\) >", LBEFORE + " while self.buckets.len() >"), (r"Some\(mut key\)", "Some(vxk)")],
        ghost={"start": "let ghost (k0, q0) = (keys@, counts@); let ghost s = pairs(k0, q0); let ghost mut j: int = 0; let ghost (m0, c0) = (self.buckets.map@, self.compactions); proof { grew_none(m0); assert(k0.skip(0) =~= k0 && q0.skip(0) =~= q0); }",
            "lb0": rlb("self"), "le0": rle("self", "m0", "c0"),
            "after let extra_compactions = [^;]*;": "let ghost (m2, c2) = (self.buckets.map@, self.compactions); let ghost (e, oc) = (extra_compactions as int, other.compactions as int); let ghost t = mapped(s, e); proof { plus_none(m2); assert(t.take(0) =~= Seq::empty()); ts_mapped(s, e, any()); assert(beforen(any(), e) =~= any()); reveal(listed); }",
            "lb1": "let mut key = vxk; let ghost mi = self.buckets.map@; let ghost ke = compn(key, e); proof { assert(k0.skip(j).skip(1) =~= k0.skip(j + 1)); assert(q0.skip(j).skip(1) =~= q0.skip(j + 1)); assert(k0.skip(j)[0] == k0[j] && q0.skip(j)[0] == q0[j]); item(k0, q0, t, e, oc, j); plus_total(m2, t.take(j), mi); ws_bound(mi, any()); assert(cnt(mi, ke) <= ws(mi, any())); }",
            "le1": "proof { plus_one(m2, t.take(j), mi, self.buckets.map@, ke, count); j = j + 1; }",
            "la1": "proof { assert(t.take(t.len() as int) =~= t); plus_total(m2, t, self.buckets.map@); }",
            "lb3": LSTART, "le3": LEND,
            "end": """proof { assert(self.wf()); assert(self.num_values == old(self).num_values + other.values); assert(self.values_sum == fadd(old(self).values_sum, other.sum)); let d = self.compactions - c1;
                joined_items(m0, c2 - c0, m2, s, e, m1, d, self.buckets.map@); assert(c2 - c0 + d == self.compactions - old(self).compactions); assert(e + d == self.compactions - other.compactions);
                assert(with_items(old(self).buckets.map@, self.compactions - old(self).compactions, s, self.compactions - other.compactions, self.buckets.map@)); }"""},
        loops={0: "invariant " + raised("self", "m0", "c0") + ", " + SAME + ", ws(m0, any()) <= u64::MAX, other.compactions <= 64, self.compactions <= other.compactions || self.compactions == c0 decreases other.compactions - self.compactions",
            1: "invariant self.loose(), self.compactions == c2, " + SAME + ", 0 <= j <= k0.len() == q0.len() == t.len(), listed(k0, q0, t, e, oc), e == extra_compactions, c2 == oc + e, keys.ok(), counts.ok(), keys@ == k0.skip(j), counts@ == q0.skip(j), ws(m2, any()) + ts(t, any()) <= u64::MAX, plus(m2, t.take(j), self.buckets.map@) ensures j == t.len() decreases t.len() - j",
            2: "invariant key == compn(vxk, vxi2.index() as int)",
            3: LIMIT}),
}
