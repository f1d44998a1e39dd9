F = "extension/src/heartbeat_agg.rs"
ASSUMED = ["Vec::into_iter().peekable() with peek and next: the elements in order", "slice::sort_unstable: ascending, same elements", "std::mem::take of a vector: moves it out and leaves an empty one",
           "Vec::extend by a vector: appends it",
           "flat_serialize::Slice of integers: behaves as the vector of its elements (as_slice, slice, as_owned, iter, clone().into_vec())",
           "the struct that pg_type! makes of HeartbeatAgg has the declared fields (declared in the module: macro output is not extracted); flatten! keeps field values"]
USES = ""
PRELUDE = r"""
#[verifier::external_body]
pub struct VxPeek { it: std::iter::Peekable<std::vec::IntoIter<(i64, i64)>> }
impl VxPeek {
    pub uninterp spec fn view(&self) -> Seq<(i64, i64)>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&(i64, i64)>)
        ensures final(self)@ == old(self)@, old(self)@.len() == 0 ==> r is None, old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0]
    { self.it.peek() }
    #[verifier::external_body]
    fn next_(&mut self) -> (r: Option<(i64, i64)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first()
    { self.it.next() }
    pub fn next(&mut self) -> (r: Option<(i64, i64)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first()
            && (forall|t: int| #[trigger] tm(t) ==> (cover(old(self)@, t) <==> inside((r->0).0 as int, (r->0).1 as int, t) || cover(final(self)@, t)))
            && (forall|e: int| #[trigger] tm(e) && below(old(self)@, e) ==> below(final(self)@, e) && (r->0).0 < e)
            && (sorted(old(self)@) ==> sorted(final(self)@) && (r->0).0 <= (r->0).1 && (final(self)@.len() > 0 ==> (r->0).1 < final(self)@[0].0))
    {
        proof { if self@.len() > 0 { cover_pop(self@); } }
        let r = self.next_();
        assert(old(self)@.len() > 1 ==> old(self)@.drop_first()[0] == old(self)@[1]);
        r
    }
    pub fn peekable(self) -> (r: VxPeek) ensures r == self { self }
}
#[verifier::external_body]
pub fn vx_into_iter(v: Vec<(i64, i64)>) -> (r: VxPeek) ensures r@ == v@ { VxPeek { it: v.into_iter().peekable() } }
#[verifier::external_body]
pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<i64>)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j],
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]), forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@.contains(#[trigger] old(v)@[i])
{ v.sort_unstable() }
#[verifier::external_body]
pub fn vx_extend(v: &mut Vec<(i64, i64)>, o: Vec<(i64, i64)>) ensures final(v)@ == old(v)@ + o@ { v.extend(o) }
pub fn vx_min(a: i64, b: i64) -> (r: i64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vx_max(a: i64, b: i64) -> (r: i64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }

/// marks the times that quantified facts are used at
pub open spec fn tm(t: int) -> bool { true }
/// t lies in one of the half-open intervals
pub open spec fn cover(s: Seq<(i64, i64)>, t: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k].0 <= t < s[k].1 }
pub open spec fn inside(a: int, b: int, t: int) -> bool { a <= t < b }
/// sorted, and no two of them touch
pub open spec fn sorted(s: Seq<(i64, i64)>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 <= s[k].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 < (#[trigger] s[j]).0
}
/// every interval starts before e
pub open spec fn below(s: Seq<(i64, i64)>, e: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < e }
/// t is at most len after one of the first n heartbeats
pub open spec fn beats(b: Seq<i64>, n: int, len: int, t: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] b[j] <= t < b[j] + len }

pub proof fn cover_pop(s: Seq<(i64, i64)>)
    requires s.len() > 0
    ensures forall|t: int| #[trigger] tm(t) ==> (cover(s, t) <==> inside(s[0].0 as int, s[0].1 as int, t) || cover(s.drop_first(), t)), sorted(s) ==> sorted(s.drop_first())
{
    let d = s.drop_first();
    assert forall|t: int| #[trigger] tm(t) implies (cover(s, t) <==> inside(s[0].0 as int, s[0].1 as int, t) || cover(d, t)) by {
        if cover(s, t) {
            let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].0 <= t < s[k].1;
            if k > 0 { assert(d[k - 1] == s[k]); }
        }
        if cover(d, t) {
            let k = choose|k: int| 0 <= k < d.len() && #[trigger] d[k].0 <= t < d[k].1;
            assert(s[k + 1] == d[k]);
        }
        if inside(s[0].0 as int, s[0].1 as int, t) { assert(s[0].0 <= t < s[0].1); }
    }
}
pub proof fn cover_push(s: Seq<(i64, i64)>, x: (i64, i64))
    ensures forall|t: int| #[trigger] tm(t) ==> (cover(s.push(x), t) <==> cover(s, t) || inside(x.0 as int, x.1 as int, t)),
        sorted(s) && x.0 <= x.1 && (s.len() > 0 ==> s.last().1 < x.0) ==> sorted(s.push(x)),
{
    let p = s.push(x);
    assert forall|t: int| #[trigger] tm(t) implies (cover(p, t) <==> cover(s, t) || inside(x.0 as int, x.1 as int, t)) by {
        if cover(p, t) {
            let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k].0 <= t < p[k].1;
            if k < s.len() { assert(s[k] == p[k]); }
        }
        if cover(s, t) {
            let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].0 <= t < s[k].1;
            assert(p[k] == s[k]);
        }
        assert(p[s.len() as int] == x);
    }
    if sorted(s) && x.0 <= x.1 && (s.len() > 0 ==> s.last().1 < x.0) {
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).1 < (#[trigger] p[j]).0 by {
            if j == s.len() { if i < s.len() - 1 { assert(s[i].1 < s[s.len() - 1].0); } }
        }
    }
}
pub proof fn cover_append(a: Seq<(i64, i64)>, b: Seq<(i64, i64)>)
    ensures forall|t: int| #[trigger] tm(t) ==> (cover(a + b, t) <==> cover(a, t) || cover(b, t)),
        sorted(a) && sorted(b) && (a.len() > 0 && b.len() > 0 ==> a.last().1 < b[0].0) ==> sorted(a + b),
{
    let p = a + b;
    assert forall|t: int| #[trigger] tm(t) implies (cover(p, t) <==> cover(a, t) || cover(b, t)) by {
        if cover(p, t) {
            let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k].0 <= t < p[k].1;
            if k < a.len() { assert(a[k] == p[k]); } else { assert(b[k - a.len()] == p[k]); }
        }
        if cover(a, t) {
            let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k].0 <= t < a[k].1;
            assert(p[k] == a[k]);
        }
        if cover(b, t) {
            let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k].0 <= t < b[k].1;
            assert(p[k + a.len()] == b[k]);
        }
    }
    if sorted(a) && sorted(b) && (a.len() > 0 && b.len() > 0 ==> a.last().1 < b[0].0) {
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).1 < (#[trigger] p[j]).0 by {
            if i < a.len() && j >= a.len() {
                assert(a[i].1 <= a.last().1) by { if i < a.len() - 1 { assert(a[i].1 < a[a.len() - 1].0); } }
                assert(b[0].0 <= b[j - a.len()].0) by { if j > a.len() { assert(b[0].1 < b[j - a.len()].0); } }
            }
        }
    }
}
pub proof fn touches(s: Seq<(i64, i64)>, e: int)
    ensures s.len() > 0 && below(s, e) && s.last().1 >= e ==> cover(s, e - 1)
{
    if s.len() > 0 && below(s, e) && s.last().1 >= e { assert(s[s.len() - 1].0 <= e - 1 < s[s.len() - 1].1); }
}
pub proof fn reaches(s: Seq<(i64, i64)>, e: int)
    ensures sorted(s) && cover(s, e - 1) ==> s.len() > 0 && s.last().1 >= e
{
    if sorted(s) && cover(s, e - 1) {
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].0 <= e - 1 < s[k].1;
        if k < s.len() - 1 { assert(s[k].1 < s[s.len() - 1].0); assert(s[s.len() - 1].0 <= s[s.len() - 1].1); }
    }
}
/// the same with another end of the last interval
pub proof fn cover_last(s: Seq<(i64, i64)>, r: Seq<(i64, i64)>)
    requires s.len() > 0, r.len() == s.len(), sorted(s), r.last().0 == s.last().0, r.last().0 <= r.last().1, forall|k: int| 0 <= k < s.len() - 1 ==> r[k] == s[k]
    ensures sorted(r), forall|t: int| #[trigger] tm(t) ==> (cover(s, t) <==> cover(s.drop_last(), t) || inside(s.last().0 as int, s.last().1 as int, t)),
        forall|t: int| #[trigger] tm(t) ==> (cover(r, t) <==> cover(s.drop_last(), t) || inside(s.last().0 as int, r.last().1 as int, t)),
        forall|t: int| #[trigger] tm(t) ==> (cover(s.drop_last(), t) ==> t < s.last().0), forall|e: int| #[trigger] tm(e) && below(s, e) ==> below(r, e)
{
    let d = s.drop_last();
    assert(d.push(s.last()) =~= s);
    assert(d.push(r.last()) =~= r);
    cover_push(d, s.last());
    cover_push(d, r.last());
    assert(d.len() > 0 ==> d.last() == s[s.len() - 2]);
    assert(sorted(d));
    assert forall|t: int| #[trigger] tm(t) implies (cover(d, t) ==> t < s.last().0) by {
        if cover(d, t) {
            let k = choose|k: int| 0 <= k < d.len() && #[trigger] d[k].0 <= t < d[k].1;
            assert(s[k].1 < s[s.len() - 1].0);
        }
    }
}
/// what one more heartbeat adds
pub proof fn beats_step(b: Seq<i64>, n: int, len: int)
    requires 0 <= n < b.len()
    ensures forall|t: int| #[trigger] tm(t) ==> (beats(b, n + 1, len, t) <==> beats(b, n, len, t) || inside(b[n] as int, b[n] + len, t))
{
    assert forall|t: int| #[trigger] tm(t) implies (beats(b, n + 1, len, t) <==> beats(b, n, len, t) || inside(b[n] as int, b[n] + len, t)) by {
        if inside(b[n] as int, b[n] + len, t) { assert(b[n] <= t < b[n] + len); }
        if beats(b, n + 1, len, t) && !inside(b[n] as int, b[n] + len, t) {
            let j = choose|j: int| 0 <= j < n + 1 && #[trigger] b[j] <= t < b[j] + len;
            assert(j < n);
        }
        if beats(b, n, len, t) { let j = choose|j: int| 0 <= j < n && #[trigger] b[j] <= t < b[j] + len; assert(b[j] <= t); }
    }
}
pub proof fn beats_same(a: Seq<i64>, b: Seq<i64>, len: int)
    requires forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
    ensures forall|t: int| #[trigger] tm(t) ==> (beats(a, a.len() as int, len, t) <==> beats(b, b.len() as int, len, t))
{
    assert forall|t: int| #[trigger] tm(t) implies (beats(a, a.len() as int, len, t) <==> beats(b, b.len() as int, len, t)) by {
        if beats(a, a.len() as int, len, t) {
            let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] <= t < a[j] + len;
            let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j];
            assert(b[i] <= t);
        }
        if beats(b, b.len() as int, len, t) {
            let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] <= t < b[j] + len;
            let i = choose|i: int| 0 <= i < a.len() && a[i] == b[j];
            assert(a[i] <= t);
        }
    }
}
/// t is live: up to the end of the covered range by the stored intervals and the waiting heartbeats, past it by the last heartbeat
pub open spec fn live(s: HeartbeatTransState, t: int) -> bool {
    if t < s.end { cover(s.liveness@, t) || beats(s.buffer@, s.buffer@.len() as int, s.interval_len as int, t) }
    else { t < s.last + s.interval_len || beats(s.buffer@, s.buffer@.len() as int, s.interval_len as int, t) }
}

pub struct VxSlice { pub v: Vec<i64> }
impl VxSlice {
    pub open spec fn view(&self) -> Seq<i64> { self.v@ }
    pub fn as_slice(&self) -> (r: &[i64]) ensures r@ == self@ { self.v.as_slice() }
    pub fn slice(&self) -> (r: &[i64]) ensures r@ == self@ { self.v.as_slice() }
    pub fn as_owned(&mut self) -> (r: &mut Vec<i64>) ensures r@ == old(self)@, final(self)@ == final(r)@ { &mut self.v }
    #[verifier::external_body]
    pub fn vals(&self) -> (r: Vec<i64>) ensures r@ == self@ { self.v.clone() }
}
pub fn vx_slice(v: Vec<i64>) -> (r: VxSlice) ensures r@ == v@ { VxSlice { v } }
pub struct HeartbeatAgg { pub start_time: i64, pub end_time: i64, pub last_seen: i64, pub interval_len: i64, pub num_intervals: u64, pub interval_starts: VxSlice, pub interval_ends: VxSlice }
#[verifier::external_body]
pub struct VxEnum { it: std::iter::Peekable<std::iter::Enumerate<std::vec::IntoIter<i64>>> }
/// what is left of enumerate() over s after n elements
impl VxEnum {
    pub uninterp spec fn all(&self) -> Seq<i64>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&(usize, i64)>)
        requires 0 <= old(self).at()
        ensures *final(self) == *old(self), old(self).at() >= old(self).all().len() ==> r is None, old(self).at() < old(self).all().len() ==> r is Some && *(r->0) == (old(self).at() as usize, old(self).all()[old(self).at()])
    { self.it.peek() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, i64)>)
        requires 0 <= old(self).at()
        ensures final(self).all() == old(self).all(), old(self).at() >= old(self).all().len() ==> r is None && final(self).at() == old(self).at(),
            old(self).at() < old(self).all().len() ==> r == Some((old(self).at() as usize, old(self).all()[old(self).at()])) && final(self).at() == old(self).at() + 1
    { self.it.next() }
}
#[verifier::external_body]
pub fn vx_enumerate(v: &VxSlice) -> (r: VxEnum) ensures r.all() == v@, r.at() == 0, v@.len() < usize::MAX { VxEnum { it: v.v.clone().into_iter().enumerate().peekable() } }

/// the intervals of an aggregate
pub open spec fn ivals(a: HeartbeatAgg) -> Seq<(i64, i64)> { Seq::new(a.interval_starts@.len(), |k: int| (a.interval_starts@[k], a.interval_ends@[k])) }
pub open spec fn agg_wf(a: HeartbeatAgg) -> bool {
    &&& a.num_intervals == a.interval_starts@.len() && a.interval_starts@.len() == a.interval_ends@.len()
    &&& -0x2000_0000_0000_0000 < a.start_time <= a.end_time < 0x2000_0000_0000_0000 && 0 <= a.interval_len < 0x2000_0000_0000_0000
    &&& -0x4000_0000_0000_0000 <= a.last_seen <= a.end_time
    &&& sorted(ivals(a))
    &&& forall|k: int| 0 <= k < a.interval_starts@.len() ==> a.start_time <= #[trigger] a.interval_starts@[k] <= a.interval_ends@[k] && a.interval_ends@[k] <= a.end_time && (a.interval_starts@[k] < a.end_time || a.start_time == a.end_time)
    &&& a.interval_starts@.len() > 0 ==> a.interval_ends@.last() >= (if a.last_seen + a.interval_len <= a.end_time { a.last_seen + a.interval_len } else { a.end_time as int })
    &&& a.interval_starts@.len() == 0 ==> a.last_seen + a.interval_len <= a.end_time
}
pub proof fn located(s: Seq<(i64, i64)>, k: int, t: int)
    requires 0 <= k < s.len(), sorted(s)
    ensures s[k].0 <= t && (k < s.len() - 1 ==> t < s[k + 1].0) ==> (cover(s, t) <==> t < s[k].1), k == 0 && t < s[0].0 ==> !cover(s, t)
{
    if cover(s, t) {
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].0 <= t < s[j].1;
        if j < k { assert(s[j].1 < s[k].0); }
        if j > k { assert(s[k].1 < s[j].0); if j > k + 1 { assert(s[k + 1].1 < s[j].0); } }
    }
    if s[k].0 <= t < s[k].1 { assert(cover(s, t)); }
}
/// the last interval that starts at or before t, -1 if there is none
pub proof fn find(s: Seq<(i64, i64)>, t: int, n: int) -> (m: int)
    requires 0 <= n <= s.len(), n < s.len() ==> t < s[n].0
    ensures -1 <= m < n, m >= 0 ==> s[m].0 <= t, m + 1 < s.len() ==> t < s[m + 1].0
    decreases n
{
    if n == 0 { -1 } else if s[n - 1].0 <= t { n - 1 } else { find(s, t, n - 1) }
}
pub proof fn complement(a: HeartbeatAgg, x: Seq<i64>, y: Seq<i64>)
    requires agg_wf(a), ivals(a).len() > 0, ({ let s = ivals(a); let d = if s[0].0 == a.start_time { 1int } else { 0 }; let n = s.len() + 1 - d - (if s.last().1 == a.end_time { 1int } else { 0 });
        x.len() == n && y.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] x[k] == (if k + d == 0 { a.start_time } else { s[k + d - 1].1 }) && #[trigger] y[k] == (if k + d == s.len() { a.end_time } else { s[k + d].0 }) })
    ensures forall|t: int| #[trigger] tm(t) && a.start_time <= t < a.end_time ==> (cover(pairs(x, y), t) <==> !cover(ivals(a), t)), forall|t: int| #[trigger] tm(t) && cover(pairs(x, y), t) ==> a.start_time <= t < a.end_time
{
    let s = ivals(a); let d = if s[0].0 == a.start_time { 1int } else { 0 }; let p = pairs(x, y);
    assert forall|t: int| #[trigger] tm(t) && a.start_time <= t < a.end_time implies (cover(p, t) <==> !cover(s, t)) by {
        if cover(p, t) {
            let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k].0 <= t < p[k].1;
            assert(x[k] <= t < y[k]);
            let m = k + d - 1;
            if m >= 0 { assert(s[m].0 <= s[m].1); located(s, m, t); } else { located(s, 0, t); }
        }
        if !cover(s, t) {
            let m = find(s, t, s.len() as int);
            let k = m + 1 - d;
            if m >= 0 { located(s, m, t); }
            assert(k >= 0);
            assert(k < p.len()) by { if m == s.len() - 1 { assert(s[m].1 <= t); } }
            assert(p[k] == (x[k], y[k]));
            assert(p[k].0 <= t < p[k].1);
        }
    }
    assert forall|t: int| #[trigger] tm(t) && cover(p, t) implies a.start_time <= t < a.end_time by {
        let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k].0 <= t < p[k].1;
        assert(x[k] <= t < y[k]);
        let m = k + d;
        if m > 0 { assert(s[m - 1] == (a.interval_starts@[m - 1], a.interval_ends@[m - 1])); }
        if m < s.len() { assert(s[m] == (a.interval_starts@[m], a.interval_ends@[m])); }
    }
}
pub open spec fn pairs(a: Seq<i64>, b: Seq<i64>) -> Seq<(i64, i64)> { Seq::new(a.len(), |k: int| (a[k], b[k])) }
/// sum of the lengths
pub open spec fn total(s: Seq<(i64, i64)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().1 - s.last().0 } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
"""
RENAME = [(r"HeartbeatAgg<'(static|_)>", "HeartbeatAgg"), (r"test: TimestampTz", "test: i64"), (r"TableIterator<'static, \(name!\(start, TimestampTz\), name!\(end, TimestampTz\)\)>", "(Vec<i64>, Vec<i64>)"), (r"let test = i64::from\(test\);", "")]
PARTS = [
    ("const", F, "BUFFER_SIZE"),
    ("struct", F, "HeartbeatTransState"),
    ("impl", F, "impl HeartbeatTransState", ["new", "insert", "process_batch", "extend_covered_interval", "combine_intervals", "combine"]),
    ("impl", F, "impl HeartbeatAgg<'_>", ["sum_live_intervals", "interpolate_start", "trim_to"], "impl HeartbeatAgg"),
    ("fn", F, "live_at"), ("fn", F, "num_gaps"), ("fn", F, "num_live_ranges"), ("fn", F, "live_ranges"), ("fn", F, "dead_ranges"),
    ("impl", F, "impl From<HeartbeatAgg<'static>> for HeartbeatTransState", ["from"], "impl HeartbeatTransState"),
]
IMPL = {"impl HeartbeatTransState": r"""
    pub open spec fn wf(&self) -> bool {
        &&& self.interval_len >= 0 && self.start < self.end && self.end + self.interval_len <= i64::MAX && self.last <= self.end && i64::MIN + self.interval_len < self.end
        &&& sorted(self.liveness@)
        &&& below(self.liveness@, self.end as int)
        &&& forall|k: int| 0 <= k < self.buffer@.len() ==> self.start <= #[trigger] self.buffer@[k] < self.end
        &&& forall|t: int| #[trigger] tm(t) ==> (t >= self.end && cover(self.liveness@, t) ==> t < self.last + self.interval_len)
        &&& self.last + self.interval_len > self.end ==> self.liveness@.len() > 0 && self.liveness@.last().1 >= self.end
    }
"""}
SAME = "final(self).start == old(self).start, final(self).end == old(self).end, final(self).interval_len == old(self).interval_len"
SPECS = {
    "new": dict(ret="r", clauses="""requires -0x4000_0000_0000_0000 < start, start < end, end < 0x4000_0000_0000_0000, 0 <= interval < 0x4000_0000_0000_0000
        ensures r.wf(), r.start == start, r.end == end, r.interval_len == interval, forall|t: int| #[trigger] tm(t) ==> (!(live(r, t)))""",
        ghost={r"before HeartbeatTransState \{": "assert(end - start > interval); assert(i64::MIN + interval < end);"}),
    "insert": dict(clauses="""requires old(self).wf()
        ensures final(self).wf(), """ + SAME + """, old(self).start <= time < old(self).end,
            forall|t: int| #[trigger] tm(t) ==> (live(*final(self), t) <==> live(*old(self), t) || time <= t < time + old(self).interval_len)""",
        ghost={"end": "proof { let b0 = b0_; let b1 = self.buffer@; assert(b1[b0.len() as int] == time); beats_step(b1, b0.len() as int, self.interval_len as int); assert forall|t: int| #[trigger] tm(t) implies (beats(b1, b0.len() as int, self.interval_len as int, t) <==> beats(b0, b0.len() as int, self.interval_len as int, t)) by { if beats(b0, b0.len() as int, self.interval_len as int, t) { let j = choose|j: int| 0 <= j < b0.len() && #[trigger] b0[j] <= t < b0[j] + self.interval_len; assert(b1[j] == b0[j]); } if beats(b1, b0.len() as int, self.interval_len as int, t) { let j = choose|j: int| 0 <= j < b0.len() && #[trigger] b1[j] <= t < b1[j] + self.interval_len; assert(b1[j] == b0[j]); } } }",
               r"before self\s*\.buffer\s*\.push": "let ghost b0_ = self.buffer@; assert(forall|t: int| #[trigger] tm(t) ==> (live(*self, t) <==> live(*old(self), t)));"}),
    "process_batch": dict(clauses="""requires old(self).wf()
        ensures final(self).wf(), """ + SAME + """, final(self).buffer@.len() == 0,
            forall|t: int| #[trigger] tm(t) ==> (live(*final(self), t) <==> live(*old(self), t))""",
        rewrite=[(r"self\.buffer\.sort_unstable\(\)", "vx_sort(&mut self.buffer)"), (r"std::mem::take\(", "vx_take(")],
        ghost={r"after vx_sort\(&mut self\.buffer\);": "let ghost b = self.buffer@; let ghost len = self.interval_len as int; proof { beats_same(old(self).buffer@, b, len); assert forall|k: int| 0 <= k < b.len() implies old(self).start <= #[trigger] b[k] < old(self).end by { let j = choose|j: int| 0 <= j < old(self).buffer@.len() && old(self).buffer@[j] == b[k]; } }",
               "lb0": "let ghost i = vxi0.index(); proof { beats_step(b, i, len); cover_push(new_intervals@, (start, bound)); }",
               "la0": "proof { cover_push(new_intervals@, (start, bound)); }",
               "end": "proof { assert(tm(self.end - 1)); assert(tm(self.end as int)); if self.last + len > self.end { if self.last > old(self).last { assert(self.last == b[b.len() - 1]); assert(beats(b, b.len() as int, len, self.end - 1)); assert(live(*old(self), self.end - 1)); assert(cover(self.liveness@, self.end - 1)); } else { reaches(old(self).liveness@, self.end as int); } reaches(self.liveness@, self.end as int); } }",
               },
        loops={0: """invariant vxi0.seq() == b, len == self.interval_len, len >= 0, self.end + len <= i64::MAX, b.len() > 0, self.liveness == old(self).liveness, self.buffer@.len() == 0,
                self.start == old(self).start, self.end == old(self).end, self.interval_len == old(self).interval_len,
                forall|i: int, j: int| 0 <= i <= j < b.len() ==> b[i] <= b[j], forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] < self.end,
                vxi0.index() == 0 ==> start == b[0] && bound == b[0] + len && new_intervals@.len() == 0,
                vxi0.index() > 0 ==> start <= b[vxi0.index() - 1] && bound == b[vxi0.index() - 1] + len,
                start <= bound, start < self.end, sorted(new_intervals@), new_intervals@.len() > 0 ==> new_intervals@.last().1 < start,
                vxi0.index() > 0 ==> forall|t: int| #[trigger] tm(t) ==> (beats(b, vxi0.index() as int, len, t) <==> cover(new_intervals@, t) || inside(start as int, bound as int, t)),
                below(new_intervals@, self.end as int),"""}),
    "extend_covered_interval": dict(clauses="""requires old(self).wf(), old(self).buffer@.len() == 0, new_end + old(self).interval_len <= i64::MAX
        ensures final(self).wf(), final(self).start == new_start, final(self).end == new_end, final(self).interval_len == old(self).interval_len, final(self).last == old(self).last, final(self).buffer@.len() == 0,
            new_start <= old(self).start, new_end >= old(self).end, forall|t: int| #[trigger] tm(t) ==> (live(*final(self), t) <==> live(*old(self), t))""",
        rewrite=[(r"\bmin\(", "vx_min(")],
        ghost={"end": "proof { assert(tm(self.end as int)); if old(self).liveness@.len() > 0 { cover_last(old(self).liveness@, self.liveness@); } }"}),
    "combine_intervals": dict(clauses="""requires sorted(old(self).liveness@), sorted(new_intervals@)
        ensures sorted(final(self).liveness@), forall|t: int| #[trigger] tm(t) ==> (cover(final(self).liveness@, t) <==> cover(old(self).liveness@, t) || cover(new_intervals@, t)),
            forall|e: int| #[trigger] tm(e) && below(old(self).liveness@, e) && below(new_intervals@, e) ==> below(final(self).liveness@, e),
            """ + SAME + """, final(self).last == old(self).last, final(self).buffer == old(self).buffer""",
        rewrite=[(r"\.is_none_or\(\|last\| ([^)]*)\)", r".vx_is_none_or(|last: &(i64, i64)| -> (q: bool) ensures q == (\1) { \1 })"), (r"self\.liveness\.extend\(new_intervals\)", "vx_extend(&mut self.liveness, new_intervals)"),
                 (r"std::mem::take\(&mut self\.liveness\)\.into_iter\(\)", "vx_into_iter(vx_take(&mut self.liveness))"), (r"new_intervals\.into_iter\(\)", "vx_into_iter(new_intervals)")],
        ghost={"start": "let ghost n0 = new_intervals@; let ghost l0 = self.liveness@; proof { cover_append(l0, n0); }", "ls0": "let ghost c0 = control@.len() + test@.len();", "lb0": "proof { cover_push(self.liveness@, interval); }"},
        loops={1: """invariant sorted(self.liveness@), sorted(control@), sorted(test@), start <= bound, self.liveness@.len() > 0 ==> self.liveness@.last().1 < start,
                control@.len() > 0 ==> bound < control@[0].0, test@.len() > 0 ==> start <= test@[0].0, control@.len() + test@.len() < c0,
                forall|t: int| #[trigger] tm(t) ==> (cover(self.liveness@, t) || inside(start as int, bound as int, t) || cover(control@, t) || cover(test@, t) <==> cover(l0, t) || cover(n0, t)),
                forall|e: int| #[trigger] tm(e) && below(l0, e) && below(n0, e) ==> below(self.liveness@, e) && below(control@, e) && below(test@, e) && start < e,
                self.start == old(self).start, self.end == old(self).end, self.interval_len == old(self).interval_len, self.last == old(self).last, self.buffer == old(self).buffer,
            decreases control@.len() + test@.len()""",
            0: """invariant sorted(self.liveness@), sorted(control@), sorted(test@),
                self.liveness@.len() > 0 && control@.len() > 0 ==> self.liveness@.last().1 < control@[0].0,
                self.liveness@.len() > 0 && test@.len() > 0 ==> self.liveness@.last().1 < test@[0].0,
                forall|t: int| #[trigger] tm(t) ==> (cover(self.liveness@, t) || cover(control@, t) || cover(test@, t) <==> cover(l0, t) || cover(n0, t)),
                forall|e: int| #[trigger] tm(e) && below(l0, e) && below(n0, e) ==> below(self.liveness@, e) && below(control@, e) && below(test@, e),
                self.start == old(self).start, self.end == old(self).end, self.interval_len == old(self).interval_len, self.last == old(self).last, self.buffer == old(self).buffer,
            ensures control@.len() == 0, test@.len() == 0,
            decreases control@.len() + test@.len()"""}),
    "combine": dict(clauses="""requires old(self).wf(), other.wf()
        ensures final(self).wf(), final(self).start == (if old(self).start <= other.start { old(self).start } else { other.start }), final(self).end == (if old(self).end >= other.end { old(self).end } else { other.end }),
            final(self).interval_len == old(self).interval_len, other.interval_len == old(self).interval_len,
            forall|t: int| #[trigger] tm(t) ==> (live(*final(self), t) <==> live(*old(self), t) || live(other, t))""",
        rewrite=[(r"\bmin\(", "vx_min("), (r"\bmax\(", "vx_max(")],
        ghost={r"before self\.combine_intervals": "let ghost (s1, s2) = (*self, other); proof { touches(s1.liveness@, s1.end as int); touches(s2.liveness@, s1.end as int); }",
               "end": "proof { assert(tm(self.end as int)); assert(tm(self.end - 1)); reaches(self.liveness@, self.end as int); }"}),
    "sum_live_intervals": dict(ret="r", clauses="requires agg_wf(self) ensures r == total(ivals(self))",
        ghost={"lb0": "let ghost iv = ivals(self); let ghost k = i as int; proof { assert(iv.take(k + 1).drop_last() =~= iv.take(k)); assert(iv[k] == (self.interval_starts@[k], self.interval_ends@[k])); if k > 0 { assert(iv[k - 1].1 < iv[k].0); } }",
               "la0": "proof { assert(ivals(self).take(ivals(self).len() as int) =~= ivals(self)); }"},
        loops={0: """invariant agg_wf(self), starts@ == self.interval_starts@, ends@ == self.interval_ends@, sum == total(ivals(self).take(vxi0.index() as int)),
                0 <= sum <= (if vxi0.index() == 0 { 0int } else { ivals(self)[vxi0.index() - 1].1 - self.start_time }),"""}),
    "interpolate_start": dict(clauses="""requires agg_wf(*old(self)), agg_wf(*pred), old(self).num_intervals < u64::MAX,
            ({ let e = pred.last_seen + old(self).interval_len; old(self).interval_starts@.len() > 0 && old(self).interval_starts@[0] <= e && e <= old(self).end_time ==> old(self).interval_ends@[0] >= e }),
            old(self).interval_starts@.len() > 0 && pred.last_seen + old(self).interval_len > old(self).end_time ==> old(self).interval_ends@[0] >= old(self).end_time
        ensures pred.end_time <= old(self).start_time, final(self).start_time == old(self).start_time, final(self).end_time == old(self).end_time, final(self).last_seen == old(self).last_seen, final(self).interval_len == old(self).interval_len,
            final(self).num_intervals == final(self).interval_starts@.len(), final(self).interval_starts@.len() == final(self).interval_ends@.len(), sorted(ivals(*final(self))),
            forall|t: int| #[trigger] tm(t) ==> (cover(ivals(*final(self)), t) <==> cover(ivals(*old(self)), t) || old(self).start_time <= t < (if pred.last_seen + old(self).interval_len <= old(self).end_time { pred.last_seen + old(self).interval_len } else { old(self).end_time as int }))""",
        rewrite=[(r"\bmin\(", "vx_min("), (r"\.filter\(\|v\| ([^)]*)\)", r".vx_filter(|v: &&i64| -> (q: bool) ensures q == (\1) { \1 })")],
        ghost={"start": "proof { if ivals(*self).len() > 0 { cover_pop(ivals(*self)); } }",
               "end": """proof { let o = ivals(*old(self)); let n = ivals(*self); cover_pop(n);
            if n.len() == o.len() { assert(n.drop_first() =~= o.drop_first());
                assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).1 < (#[trigger] n[j]).0 by { assert(n[j] == o[j]); assert(n[i].1 == o[i].1); assert(o[i].1 < o[j].0); }
            } else { assert(n.drop_first() =~= o);
                assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).1 < (#[trigger] n[j]).0 by {
                    assert(n[j] == o[j - 1]);
                    if i == 0 { if j > 1 { assert(o[0].1 < o[j - 1].0); } } else { assert(n[i] == o[i - 1]); assert(o[i - 1].1 < o[j - 1].0); } } } }"""}),
    "trim_to": dict(ret="r", clauses="""requires agg_wf(self)
        ensures r.start_time == (match start { Some(x) => x, None => self.start_time }), r.end_time == (match end { Some(x) => x, None => self.end_time }), r.interval_len == self.interval_len,
            self.start_time <= r.start_time <= r.end_time <= self.end_time, agg_wf(r),
            forall|t: int| #[trigger] tm(t) ==> (cover(ivals(r), t) <==> cover(ivals(self), t) && r.start_time <= t < r.end_time)""",
        rewrite=[(r"\bmin\(", "vx_min("), (r"\bmax\(", "vx_max("), (r"\.copied\(\)", ".vx_copied()"), (r"\.iter\(\)", ".vals().into_iter()"), (r"(?s)flatten!\(\s*HeartbeatAgg (\{.*?\})\s*\)", r"HeartbeatAgg \1"),
            (r"starts\.into\(\)", "vx_slice(starts)"), (r"ends\.into\(\)", "vx_slice(ends)"), (r"\bunsafe\b", "")],
        ghost={"lb0": """let ghost k = vxi0.index() as int; let ghost o0 = pairs(starts@, ends@); proof { assert(iv.take(k + 1) =~= iv.take(k).push(iv[k])); cover_push(iv.take(k), iv[k]); assert(iv[k] == (interval_start, interval_end));
            if k > 0 { assert(iv[k - 1].1 < iv[k].0); } if k < iv.len() - 1 { assert(iv[k].1 < iv[iv.len() - 1].0); }
            cover_push(o0, ((if interval_start >= new_start { interval_start } else { new_start }), (if interval_end <= new_end { interval_end } else { new_end }))); }""",
            "le0": "proof { if starts@.len() > o0.len() { assert(starts@.last() == (if interval_start >= new_start { interval_start } else { new_start })); assert(ends@.last() == (if interval_end <= new_end { interval_end } else { new_end })); assert(forall|j: int| 0 <= j < o0.len() ==> #[trigger] starts@[j] == o0[j].0 && ends@[j] == o0[j].1); assert(pairs(starts@, ends@) =~= o0.push((starts@.last(), ends@.last()))); } }",
            "la0": "proof { assert(iv.take(iv.len() as int) =~= iv); }",
            "before let last_end": "let ghost iv = ivals(self); proof { assert(iv.take(0) =~= Seq::<(i64, i64)>::empty()); assert(pairs(starts@, ends@) =~= Seq::<(i64, i64)>::empty()); }"},
        loops={0: """invariant agg_wf(self), iv == ivals(self), vxi0.seq() == iv, new_start == (match start { Some(x) => x, None => self.start_time }), new_end == (match end { Some(x) => x, None => self.end_time }),
                self.start_time <= new_start <= new_end <= self.end_time, starts@.len() == ends@.len(), starts@.len() <= vxi0.index(), last_end == (if iv.len() > 0 { Some(iv.last().1) } else { None::<i64> }),
                sorted(pairs(starts@, ends@)), forall|t: int| #[trigger] tm(t) ==> (cover(pairs(starts@, ends@), t) <==> cover(iv.take(vxi0.index() as int), t) && new_start <= t < new_end),
                forall|k: int| 0 <= k < starts@.len() ==> new_start <= #[trigger] starts@[k] <= ends@[k] && ends@[k] <= new_end && (starts@[k] < new_end || new_start == new_end),
                starts@.len() > 0 ==> vxi0.index() > 0 && ends@.last() <= iv[vxi0.index() - 1].1 && ends@.last() >= (if last_seen + self.interval_len <= new_end { last_seen + self.interval_len } else { new_end as int }),
                starts@.len() == 0 ==> last_seen == new_start - self.interval_len, -0x4000_0000_0000_0000 <= last_seen <= new_end,"""}),
    "live_at": dict(ret="r", clauses="requires agg_wf(agg) ensures r == cover(ivals(agg), test as int), agg.start_time <= test <= agg.end_time",
        rewrite=[(r"agg\.interval_starts\.iter\(\)\.enumerate\(\)\.peekable\(\)", "vx_enumerate(&agg.interval_starts)"),
            (r"(?s)if let Some\(\(_, next_val\)\) = start_iter\.peek\(\)\s*&& test < \*next_val\s*\{(.*?)\}", r"if let Some((_, next_val)) = start_iter.peek() { if test < *next_val {\1} }")],
        ghost={"lb0": "proof { located(ivals(agg), idx as int, test as int); }", "la0": "proof { located(ivals(agg), ivals(agg).len() - 1, test as int); }"},
        loops={0: """invariant agg_wf(agg), start_iter.all() == agg.interval_starts@, 0 <= start_iter.at() <= start_iter.all().len(), forall|k: int| 0 <= k < start_iter.at() ==> test >= #[trigger] agg.interval_starts@[k], agg.start_time <= test <= agg.end_time, agg.num_intervals > 0,
                0 < start_iter.at() < start_iter.all().len() ==> test >= agg.interval_starts@[start_iter.at()],
            ensures start_iter.at() == start_iter.all().len()"""}),
    "num_gaps": dict(ret="r", clauses="""requires agg_wf(agg), agg.num_intervals < i64::MAX - 1
        ensures r == (if agg.num_intervals == 0 { 1int } else { agg.num_intervals - 1 + b2i(agg.interval_starts@[0] != agg.start_time) + b2i(agg.interval_ends@.last() != agg.end_time) })"""),
    "num_live_ranges": dict(ret="r", clauses="requires agg_wf(agg), agg.num_intervals <= i64::MAX ensures r == ivals(agg).len()"),
    "from": dict(ret="r", clauses="""requires agg_wf(agg), agg.start_time < agg.end_time
        ensures r.wf(), r.start == agg.start_time, r.end == agg.end_time, r.interval_len == agg.interval_len, r.last == agg.last_seen, r.buffer@.len() == 0, forall|t: int| #[trigger] tm(t) && t < agg.end_time ==> (live(r, t) <==> cover(ivals(agg), t))""",
        rewrite=[(r"\.iter\(\)", ".vals().into_iter()")]),
    "live_ranges": dict(ret="r", clauses="requires agg_wf(agg) ensures r.0@.len() == r.1@.len(), pairs(r.0@, r.1@) =~= ivals(agg)",
        rewrite=[(r"\.clone\(\)", ".vals()"), (r"TableIterator::new\(\s*starts\s*\.into_iter\(\)\s*\.map\(\|x\| x\.into\(\)\)\s*\.zip\(ends\.into_iter\(\)\.map\(\|x\| x\.into\(\)\)\),?\s*\)", "(starts, ends)")]),
    "dead_ranges": dict(ret="r", clauses="""requires agg_wf(agg)
        ensures r.0@.len() == r.1@.len(), forall|t: int| #[trigger] tm(t) && agg.start_time <= t < agg.end_time ==> (cover(pairs(r.0@, r.1@), t) <==> !cover(ivals(agg), t)), forall|t: int| #[trigger] tm(t) && cover(pairs(r.0@, r.1@), t) ==> agg.start_time <= t < agg.end_time""",
        rewrite=[(r"\.clone\(\)\.into_vec\(\)", ".vals()"), (r"return TableIterator::new\(std::iter::once\(\(\s*agg\.start_time\.into\(\),\s*agg\.end_time\.into\(\),?\s*\)\)\)", "let a = vec![agg.start_time]; let b = vec![agg.end_time]; proof { let p = pairs(a@, b@); assert(p[0] == (agg.start_time, agg.end_time)); assert forall|t: int| #[trigger] tm(t) && agg.start_time <= t < agg.end_time implies cover(p, t) by { assert(p[0].0 <= t < p[0].1); } } return (a, b)"),
            (r"TableIterator::new\(\s*starts\s*\.into_iter\(\)\s*\.map\(\|x\| x\.into\(\)\)\s*\.zip\(ends\.into_iter\(\)\.map\(\|x\| x\.into\(\)\)\),?\s*\)", "proof { complement(agg, starts@, ends@); } (starts, ends)")]),
}
