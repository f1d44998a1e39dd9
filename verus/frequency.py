F = "extension/src/frequency.rs"
ASSUMED = ["PgAnyElementHashMap: a map from values (as PostgreSQL's equality for the type sees them) to entries; into_values yields every entry once",
           "deep_copy_datum and PgAnyElement::deep_copy_datum give a datum of the same value",
           "slice::sort_by with the comparison `b.count` against `a.count`: a rearrangement with falling counts; Vec::truncate; Vec::swap",
           "combined aggregates have equal parameters (max_size) and together saw fewer than 2^64 values"]
USES = ""
PRELUDE = r"""
#[derive(Clone, Copy)]
pub struct Datum { pub d: u64 }
#[derive(Clone, Copy)]
pub struct Oid { pub o: u32 }
#[derive(Clone, Copy)]
pub struct DatumHashBuilder { pub o: Oid }
/// the value a datum stands for
pub uninterp spec fn vid(d: Datum) -> int;
#[verifier::external_body]
pub fn deep_copy_datum(d: Datum, o: Oid) -> (r: Datum) ensures vid(r) == vid(d) { unimplemented!() }
#[derive(Clone, Copy)]
pub struct PgAnyElement { pub d: Datum, pub o: Oid }
impl PgAnyElement {
    pub fn deep_copy_datum(&self) -> (r: Datum) ensures vid(r) == vid(self.d) { deep_copy_datum(self.d, self.o) }
}
pub fn vx_elem(d: Datum, o: Oid) -> (r: PgAnyElement) ensures r.d == d { PgAnyElement { d, o } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxMap<T> { x: Vec<T> }
impl<T> VxMap<T> {
    pub uninterp spec fn view(&self) -> Map<int, T>;
    #[verifier::external_body]
    pub fn with_hasher(h: DatumHashBuilder) -> (r: Self) ensures r@ == Map::<int, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn hasher(&self) -> (r: DatumHashBuilder) { unimplemented!() }
    #[verifier::external_body]
    pub fn typoid(&self) -> (r: Oid) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r as nat == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, e: &PgAnyElement) -> (r: Option<&T>) ensures self@.contains_key(vid(e.d)) ==> r is Some && *(r->0) == self@[vid(e.d)], !self@.contains_key(vid(e.d)) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, e: &PgAnyElement) -> (r: bool) ensures r == self@.contains_key(vid(e.d)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, e: PgAnyElement, x: T) ensures final(self)@ == old(self)@.insert(vid(e.d), x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, e: &PgAnyElement) ensures final(self)@ == old(self)@.remove(vid(e.d)) { unimplemented!() }
    /// get_mut, and an assignment to what it gives
    #[verifier::external_body]
    pub fn vx_set(&mut self, e: &PgAnyElement, x: T) -> (r: bool)
        ensures r == old(self)@.contains_key(vid(e.d)), r ==> final(self)@ == old(self)@.insert(vid(e.d), x), !r ==> final(self)@ == old(self)@
    { unimplemented!() }
    /// the keys in the order of into_values
    pub uninterp spec fn order(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn into_values_vec(self) -> (r: Vec<T>)
        ensures self.order().no_duplicates(), r@.len() == self.order().len(), forall|k: int| #[trigger] self.order().contains(k) <==> self@.contains_key(k),
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(#[trigger] self.order()[i]) && r@[i] == self@[self.order()[i]]
    { unimplemented!() }
}
pub fn vx_last<T>(v: &Vec<T>) -> (r: &T) ensures v@.len() > 0, *r == v@[v@.len() - 1] { if v.len() == 0 { vx_refuse() } &v[v.len() - 1] }
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: &T) ensures i < v@.len(), *r == v@[i as int] { if i >= v.len() { vx_refuse() } &v[i] }
pub fn vx_top(n: usize) -> (r: usize) ensures n > 0, r == n - 1 { if n == 0 { vx_refuse() } n - 1 }
pub fn vx_swap(v: &mut Vec<SpaceSavingEntry>, i: usize, j: usize)
    ensures i < old(v)@.len(), j < old(v)@.len(), final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int])
{
    if i >= v.len() || j >= v.len() { vx_refuse() }
    let (a, b) = (v[i], v[j]);
    v.set(i, b);
    v.set(j, a);
}
/// p is a rearrangement of s: p[i] is s[w[i]]
pub open spec fn moved(s: Seq<SpaceSavingEntry>, p: Seq<SpaceSavingEntry>, w: Seq<int>) -> bool {
    w.no_duplicates() && w.len() == s.len() && p.len() == s.len() && (forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] w[i] < s.len() && p[i] == s[w[i]]) && (forall|j: int| 0 <= j < s.len() ==> #[trigger] w.contains(j))
}
pub uninterp spec fn shuffle(s: Seq<SpaceSavingEntry>) -> Seq<int>;
#[verifier::external_body]
pub fn vx_sort_falling(v: &mut Vec<SpaceSavingEntry>)
    ensures moved(old(v)@, final(v)@, shuffle(old(v)@)), falling(final(v)@)
{ unimplemented!() }

pub open spec fn falling(s: Seq<SpaceSavingEntry>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i].count >= #[trigger] s[j].count }
pub open spec fn sum(s: Seq<SpaceSavingEntry>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last().count } }
/// indices holds the place of every entry
pub open spec fn placed(s: Seq<SpaceSavingEntry>, m: Map<int, usize>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(vid((#[trigger] s[i]).value)) && m[vid(s[i].value)] == i
    &&& forall|k: int| #[trigger] m.contains_key(k) ==> m[k] < s.len() && vid(s[m[k] as int].value) == k
    &&& m.dom().len() == s.len()
}
pub open spec fn wf(s: SpaceSavingTransState) -> bool {
    &&& s.max_size >= 1 && s.entries@.len() <= s.max_size
    &&& falling(s.entries@) && placed(s.entries@, s.indices@)
    &&& sum(s.entries@) <= s.total_vals
    &&& forall|i: int| 0 <= i < s.entries@.len() ==> (#[trigger] s.entries@[i]).overcount <= s.entries@[i].count && s.entries@[i].count >= 1
}
/// what a value that is not tracked may have been seen at most
pub open spec fn floor(s: SpaceSavingTransState) -> int { if s.entries@.len() < s.max_size { 0 } else { s.entries@[s.entries@.len() - 1].count as int } }
pub open spec fn tracked(s: SpaceSavingTransState, k: int) -> bool { s.indices@.contains_key(k) }
pub open spec fn cnt(s: SpaceSavingTransState, k: int) -> int { if tracked(s, k) { s.entries@[s.indices@[k] as int].count as int } else { floor(s) } }
pub open spec fn over(s: SpaceSavingTransState, k: int) -> int { if tracked(s, k) { s.entries@[s.indices@[k] as int].overcount as int } else { floor(s) } }
/// the state is right about the frequencies f
pub open spec fn right(s: SpaceSavingTransState, f: spec_fn(int) -> int) -> bool { forall|k: int| #![trigger f(k)] f(k) >= 0 && cnt(s, k) - over(s, k) <= f(k) <= cnt(s, k) }
pub open spec fn bump(f: spec_fn(int) -> int, v: int) -> spec_fn(int) -> int { |k: int| f(k) + if k == v { 1int } else { 0int } }
pub open spec fn both(f: spec_fn(int) -> int, g: spec_fn(int) -> int) -> spec_fn(int) -> int { |k: int| f(k) + g(k) }

pub proof fn sum_update(s: Seq<SpaceSavingEntry>, i: int, e: SpaceSavingEntry)
    requires 0 <= i < s.len()
    ensures sum(s.update(i, e)) == sum(s) - s[i].count + e.count
    decreases s.len()
{
    let u = s.update(i, e);
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); }
    else { sum_update(s.drop_last(), i, e); assert(u.drop_last() =~= s.drop_last().update(i, e)); }
}
pub proof fn sum_push(s: Seq<SpaceSavingEntry>, e: SpaceSavingEntry) ensures sum(s.push(e)) == sum(s) + e.count { assert(s.push(e).drop_last() =~= s); }
pub proof fn sum_pos(s: Seq<SpaceSavingEntry>) ensures sum(s) >= 0 decreases s.len() { if s.len() > 0 { sum_pos(s.drop_last()); } }
pub proof fn sum_each(s: Seq<SpaceSavingEntry>, i: int)
    requires 0 <= i < s.len()
    ensures s[i].count <= sum(s)
    decreases s.len()
{
    sum_pos(s.drop_last());
    if i < s.len() - 1 { sum_each(s.drop_last(), i); }
}
pub proof fn sum_all(s: Seq<SpaceSavingEntry>)
    ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).count <= sum(s), sum(s) >= 0
{
    sum_pos(s);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).count <= sum(s) by { sum_each(s, i); }
}
pub proof fn sum_least(s: Seq<SpaceSavingEntry>, c: int)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).count >= c
    ensures sum(s) >= s.len() * c
    decreases s.len()
{
    if s.len() > 0 {
        sum_least(s.drop_last(), c);
        assert(s.last().count >= c);
        assert((s.len() - 1) * c + c == s.len() * c) by (nonlinear_arith);
    }
}
/// a value seen more often than every max_size-th time is tracked
pub proof fn frequent(s: SpaceSavingTransState, f: spec_fn(int) -> int, k: int)
    requires wf(s), right(s, f), f(k) * s.max_size > s.total_vals
    ensures tracked(s, k)
{
    if !tracked(s, k) {
        assert(f(k) <= floor(s));
        sum_pos(s.entries@);
        if s.entries@.len() == s.max_size {
            sum_least(s.entries@, floor(s));
            assert(f(k) * s.max_size <= floor(s) * s.max_size) by (nonlinear_arith) requires f(k) <= floor(s), s.max_size >= 0;
            assert(floor(s) * s.max_size == s.entries@.len() * floor(s)) by (nonlinear_arith) requires s.entries@.len() == s.max_size;
        } else {
            assert(f(k) <= 0);
            assert(f(k) * s.max_size <= 0) by (nonlinear_arith) requires f(k) <= 0, s.max_size >= 0;
        }
    }
}
/// the same entries, in other places
pub open spec fn rearranged(a: SpaceSavingTransState, b: SpaceSavingTransState) -> bool {
    &&& b.total_vals == a.total_vals && b.max_size == a.max_size && b.freq_param == a.freq_param && b.topn == a.topn && a.entries@.len() == b.entries@.len()
    &&& sum(a.entries@) == sum(b.entries@)
    &&& forall|k: int| #[trigger] tracked(b, k) <==> tracked(a, k)
    &&& forall|k: int| #[trigger] tracked(a, k) ==> cnt(b, k) == cnt(a, k) && over(b, k) == over(a, k)
}
/// sorted but for entry i, which may be one higher than what stands before it
pub open spec fn raised(s: Seq<SpaceSavingEntry>, i: int) -> bool {
    &&& forall|a: int, b: int| 0 <= a <= b < s.len() && a != i && b != i ==> #[trigger] s[a].count >= #[trigger] s[b].count
    &&& forall|b: int| i < b < s.len() ==> s[i].count >= (#[trigger] s[b]).count
    &&& forall|a: int| 0 <= a < i ==> (#[trigger] s[a]).count >= s[i].count - 1
}
pub open spec fn parts_ok(s: SpaceSavingTransState) -> bool {
    &&& placed(s.entries@, s.indices@)
    &&& forall|i: int| 0 <= i < s.entries@.len() ==> (#[trigger] s.entries@[i]).overcount <= s.entries@[i].count
}
pub proof fn swapped(a: SpaceSavingTransState, b: SpaceSavingTransState, i: int, j: int)
    requires parts_ok(a), 0 <= i < a.entries@.len(), 0 <= j < a.entries@.len(), i != j, b.entries@ == a.entries@.update(i, a.entries@[j]).update(j, a.entries@[i]),
        b.indices@ == a.indices@.insert(vid(b.entries@[i].value), i as usize).insert(vid(b.entries@[j].value), j as usize), i <= usize::MAX, j <= usize::MAX,
        b.total_vals == a.total_vals && b.max_size == a.max_size && b.freq_param == a.freq_param && b.topn == a.topn
    ensures parts_ok(b), rearranged(a, b)
{
    let (x, y) = (a.entries@, b.entries@);
    sum_update(x, i, x[j]);
    sum_update(x.update(i, x[j]), j, x[i]);
    assert(vid(x[i].value) != vid(x[j].value)) by { if vid(x[i].value) == vid(x[j].value) { assert(a.indices@[vid(x[i].value)] == i); assert(a.indices@[vid(x[j].value)] == j); } }
    assert(b.indices@.dom() =~= a.indices@.dom());
    assert forall|q: int| 0 <= q < y.len() implies b.indices@.contains_key(vid((#[trigger] y[q]).value)) && b.indices@[vid(y[q].value)] == q by {
        if q != i && q != j { assert(y[q] == x[q]); assert(a.indices@[vid(x[q].value)] == q); }
    }
    assert forall|q: int| 0 <= q < y.len() implies (#[trigger] y[q]).overcount <= y[q].count by { if q != i && q != j { assert(y[q] == x[q]); } }
    assert forall|k: int| #[trigger] b.indices@.contains_key(k) implies b.indices@[k] < y.len() && vid(y[b.indices@[k] as int].value) == k by {
        assert(a.indices@.contains_key(k));
        let q = a.indices@[k] as int;
        assert(vid(x[q].value) == k);
    }
    assert forall|k: int| #[trigger] tracked(a, k) implies cnt(b, k) == cnt(a, k) && over(b, k) == over(a, k) by {
        let q = a.indices@[k] as int;
        assert(vid(x[q].value) == k);
    }
}
/// one more tracked value
pub proof fn appended(a: SpaceSavingTransState, b: SpaceSavingTransState, e: SpaceSavingEntry)
    requires wf(a), a.entries@.len() < a.max_size, e.count == 1, e.overcount == 0, !tracked(a, vid(e.value)), b.entries@ == a.entries@.push(e), a.entries@.len() <= usize::MAX,
        b.indices@ == a.indices@.insert(vid(e.value), a.entries@.len() as usize), b.total_vals == a.total_vals + 1, b.max_size == a.max_size
    ensures wf(b), forall|f: spec_fn(int) -> int| #[trigger] right(a, f) ==> right(b, bump(f, vid(e.value)))
{
    let (x, y, v) = (a.entries@, b.entries@, vid(e.value));
    sum_push(x, e);
    assert forall|q: int| 0 <= q < y.len() implies b.indices@.contains_key(vid((#[trigger] y[q]).value)) && b.indices@[vid(y[q].value)] == q && y[q].overcount <= y[q].count by { if q < x.len() { assert(y[q] == x[q]); assert(tracked(a, vid(x[q].value))); } }
    assert forall|k: int| #[trigger] b.indices@.contains_key(k) implies b.indices@[k] < y.len() && vid(y[b.indices@[k] as int].value) == k by { if k != v { assert(a.indices@.contains_key(k)); } }
    assert forall|f: spec_fn(int) -> int| #[trigger] right(a, f) implies right(b, bump(f, v)) by {
        assert forall|k: int| #![trigger bump(f, v)(k)] bump(f, v)(k) >= 0 && cnt(b, k) - over(b, k) <= bump(f, v)(k) <= cnt(b, k) by {
            assert(f(k) >= 0 && cnt(a, k) - over(a, k) <= f(k) <= cnt(a, k));
            if k != v && tracked(a, k) { assert(a.indices@.contains_key(k)); assert(y[a.indices@[k] as int] == x[a.indices@[k] as int]); }
        }
    }
}
/// a counted value is seen once more (before it is moved)
pub proof fn counted(a: SpaceSavingTransState, b: SpaceSavingTransState, i: int, c: SpaceSavingTransState)
    requires wf(a), 0 <= i < a.entries@.len(), b.entries@ == a.entries@.update(i, SpaceSavingEntry { value: a.entries@[i].value, count: (a.entries@[i].count + 1) as u64, overcount: a.entries@[i].overcount }), a.entries@[i].count < u64::MAX,
        b.indices@ == a.indices@, b.total_vals == a.total_vals + 1, b.max_size == a.max_size, parts_ok(c), falling(c.entries@), rearranged(b, c)
    ensures wf(c), forall|f: spec_fn(int) -> int| #[trigger] right(a, f) ==> right(c, bump(f, vid(a.entries@[i].value)))
{
    let (x, y, v) = (a.entries@, b.entries@, vid(a.entries@[i].value));
    sum_update(x, i, y[i]);
    placed_same(a, b);
    came_from(b, c);
    assert forall|f: spec_fn(int) -> int| #[trigger] right(a, f) implies right(c, bump(f, v)) by {
        assert forall|k: int| #![trigger bump(f, v)(k)] bump(f, v)(k) >= 0 && cnt(c, k) - over(c, k) <= bump(f, v)(k) <= cnt(c, k) by {
            assert(f(k) >= 0 && cnt(a, k) - over(a, k) <= f(k) <= cnt(a, k));
            if tracked(a, k) {
                assert(a.indices@.contains_key(k)); assert(tracked(b, k));
                assert(vid(x[a.indices@[k] as int].value) == k);
                if k != v { assert(y[a.indices@[k] as int] == x[a.indices@[k] as int]); }
            } else {
                assert(!tracked(b, k)); assert(!tracked(c, k)); assert(k != v);
                floor_grows(a, b, c);
            }
        }
    }
}
pub proof fn placed_same(a: SpaceSavingTransState, b: SpaceSavingTransState)
    requires placed(a.entries@, a.indices@), b.indices@ == a.indices@, b.entries@.len() == a.entries@.len(), forall|i: int| 0 <= i < a.entries@.len() ==> (#[trigger] b.entries@[i]).value == a.entries@[i].value
    ensures placed(b.entries@, b.indices@)
{
    assert forall|q: int| 0 <= q < b.entries@.len() implies b.indices@.contains_key(vid((#[trigger] b.entries@[q]).value)) && b.indices@[vid(b.entries@[q].value)] == q by { assert(vid(a.entries@[q].value) == vid(b.entries@[q].value)); }
    assert forall|k: int| #[trigger] b.indices@.contains_key(k) implies b.indices@[k] < b.entries@.len() && vid(b.entries@[b.indices@[k] as int].value) == k by { assert(a.indices@.contains_key(k)); assert(b.entries@[b.indices@[k] as int].value == a.entries@[b.indices@[k] as int].value); }
}
/// after a rearrangement every entry is one of before
pub proof fn came_from(b: SpaceSavingTransState, c: SpaceSavingTransState)
    requires placed(b.entries@, b.indices@), parts_ok(c), rearranged(b, c)
    ensures forall|i: int| 0 <= i < c.entries@.len() ==> exists|j: int| 0 <= j < b.entries@.len() && (#[trigger] c.entries@[i]).count == (#[trigger] b.entries@[j]).count
{
    assert forall|i: int| 0 <= i < c.entries@.len() implies exists|j: int| 0 <= j < b.entries@.len() && (#[trigger] c.entries@[i]).count == (#[trigger] b.entries@[j]).count by {
        let k = vid(c.entries@[i].value);
        assert(tracked(c, k));
        assert(tracked(b, k));
        assert(cnt(c, k) == cnt(b, k));
        assert(c.entries@[i].count == b.entries@[b.indices@[k] as int].count);
    }
}
/// a new value takes the place of the last (before it is moved)
pub proof fn replaced(a: SpaceSavingTransState, b: SpaceSavingTransState, d: Datum, c: SpaceSavingTransState)
    requires wf(a), a.entries@.len() == a.max_size, !tracked(a, vid(d)), a.entries@[a.entries@.len() - 1].count < u64::MAX, a.entries@.len() <= usize::MAX,
        b.entries@ == a.entries@.update(a.entries@.len() - 1, SpaceSavingEntry { value: d, count: (a.entries@[a.entries@.len() - 1].count + 1) as u64, overcount: a.entries@[a.entries@.len() - 1].count }),
        b.indices@ == a.indices@.remove(vid(a.entries@[a.entries@.len() - 1].value)).insert(vid(d), (a.entries@.len() - 1) as usize), b.total_vals == a.total_vals + 1, b.max_size == a.max_size,
        parts_ok(b) && parts_ok(c) && falling(c.entries@) && rearranged(b, c)
    ensures wf(c), forall|f: spec_fn(int) -> int| #[trigger] right(a, f) ==> right(c, bump(f, vid(d)))
{
    let (x, y, v, n) = (a.entries@, b.entries@, vid(d), a.entries@.len() - 1);
    sum_update(x, n, y[n]);
    came_from(b, c);
    assert forall|f: spec_fn(int) -> int| #[trigger] right(a, f) implies right(c, bump(f, v)) by {
        assert forall|k: int| #![trigger bump(f, v)(k)] bump(f, v)(k) >= 0 && cnt(c, k) - over(c, k) <= bump(f, v)(k) <= cnt(c, k) by {
            assert(f(k) >= 0 && cnt(a, k) - over(a, k) <= f(k) <= cnt(a, k));
            floor_grows(a, b, c);
            if k == v { assert(tracked(b, k)); assert(tracked(c, k)); assert(b.indices@[k] == n); }
            else if tracked(a, k) {
                assert(a.indices@.contains_key(k)); 
                assert(vid(x[a.indices@[k] as int].value) == k);
                if a.indices@[k] == n { assert(!tracked(b, k)); assert(!tracked(c, k)); assert(cnt(a, k) == floor(a)); }
                else { assert(k != vid(x[n].value)); assert(tracked(b, k)); assert(y[a.indices@[k] as int] == x[a.indices@[k] as int]); }
            } else { assert(!tracked(b, k)); assert(!tracked(c, k)); }
        }
    }
}
pub proof fn replaced_parts(a: SpaceSavingTransState, b: SpaceSavingTransState, d: Datum)
    requires wf(a), a.entries@.len() == a.max_size, !tracked(a, vid(d)), a.entries@[a.entries@.len() - 1].count < u64::MAX, a.entries@.len() <= usize::MAX,
        b.entries@ == a.entries@.update(a.entries@.len() - 1, SpaceSavingEntry { value: d, count: (a.entries@[a.entries@.len() - 1].count + 1) as u64, overcount: a.entries@[a.entries@.len() - 1].count }),
        b.indices@ == a.indices@.remove(vid(a.entries@[a.entries@.len() - 1].value)).insert(vid(d), (a.entries@.len() - 1) as usize)
    ensures parts_ok(b), raised(b.entries@, a.entries@.len() - 1)
{
    let (x, y, v, n) = (a.entries@, b.entries@, vid(d), a.entries@.len() - 1);
    let o = vid(x[n].value);
    assert(a.indices@.contains_key(o) && a.indices@[o] == n);
    assert(b.indices@.dom() =~= a.indices@.dom().remove(o).insert(v));
    assert forall|q: int| 0 <= q < y.len() implies b.indices@.contains_key(vid((#[trigger] y[q]).value)) && b.indices@[vid(y[q].value)] == q && y[q].overcount <= y[q].count by {
        if q != n { assert(y[q] == x[q]); assert(a.indices@[vid(x[q].value)] == q); assert(tracked(a, vid(x[q].value))); }
    }
    assert forall|k: int| #[trigger] b.indices@.contains_key(k) implies b.indices@[k] < y.len() && vid(y[b.indices@[k] as int].value) == k by {
        if k != v { assert(a.indices@.contains_key(k)); assert(vid(x[a.indices@[k] as int].value) == k); assert(a.indices@[k] != n); }
    }
}
pub proof fn counted_parts(a: SpaceSavingTransState, b: SpaceSavingTransState, i: int)
    requires wf(a), 0 <= i < a.entries@.len(), b.entries@ == a.entries@.update(i, SpaceSavingEntry { value: a.entries@[i].value, count: (a.entries@[i].count + 1) as u64, overcount: a.entries@[i].overcount }), a.entries@[i].count < u64::MAX,
        b.indices@ == a.indices@
    ensures parts_ok(b), raised(b.entries@, i)
{
    placed_same(a, b);
    assert forall|q: int| 0 <= q < b.entries@.len() implies (#[trigger] b.entries@[q]).overcount <= b.entries@[q].count by { assert(a.entries@[q].overcount <= a.entries@[q].count); }
}
/// the least count never falls
pub proof fn floor_grows(a: SpaceSavingTransState, b: SpaceSavingTransState, c: SpaceSavingTransState)
    requires wf(a), a.max_size == b.max_size, a.entries@.len() == b.entries@.len(), forall|i: int| 0 <= i < a.entries@.len() ==> (#[trigger] b.entries@[i]).count >= a.entries@[i].count, placed(b.entries@, b.indices@), parts_ok(c), rearranged(b, c)
    ensures floor(c) >= floor(a)
{
    if c.entries@.len() == c.max_size {
        let l = c.entries@[c.entries@.len() - 1];
        let k = vid(l.value);
        assert(tracked(c, k));
        assert(tracked(b, k));
        let q = b.indices@[k] as int;
        assert(c.indices@[k] == c.entries@.len() - 1);
        assert(l.count == cnt(c, k) && cnt(c, k) == cnt(b, k));
        assert(b.indices@.contains_key(k));
        if 0 <= q < b.entries@.len() { assert(b.entries@[q].count >= a.entries@[q].count); assert(a.entries@[q].count >= a.entries@[a.entries@.len() - 1].count); }
    }
}
pub open spec fn distinct(s: Seq<SpaceSavingEntry>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> vid((#[trigger] s[i]).value) != vid((#[trigger] s[j]).value) }
pub open spec fn picked(s: Seq<SpaceSavingEntry>, p: Set<int>, fl: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { picked(s.drop_last(), p, fl) + if p.contains(vid(s.last().value)) { s.last().count - fl } else { 0 } } }
pub proof fn picked_none(s: Seq<SpaceSavingEntry>, p: Set<int>, k: int, fl: int)
    requires forall|i: int| 0 <= i < s.len() ==> vid((#[trigger] s[i]).value) != k
    ensures picked(s, p.insert(k), fl) == picked(s, p, fl)
    decreases s.len()
{ if s.len() > 0 { assert(vid(s.last().value) != k); picked_none(s.drop_last(), p, k, fl); } }
pub proof fn picked_one(s: Seq<SpaceSavingEntry>, p: Set<int>, k: int, fl: int, i: int)
    requires distinct(s), 0 <= i < s.len(), vid(s[i].value) == k, !p.contains(k)
    ensures picked(s, p.insert(k), fl) == picked(s, p, fl) + s[i].count - fl
    decreases s.len()
{
    let d = s.drop_last();
    if i == s.len() - 1 { assert forall|q: int| 0 <= q < d.len() implies vid((#[trigger] d[q]).value) != k by { assert(vid(s[q].value) != vid(s[i].value)); } picked_none(d, p, k, fl); }
    else { assert(vid(s[i].value) != vid(s[s.len() - 1].value)); assert(d[i] == s[i]); picked_one(d, p, k, fl, i); }
}
pub proof fn picked_most(s: Seq<SpaceSavingEntry>, p: Set<int>, fl: int)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).count >= fl
    ensures picked(s, p, fl) <= sum(s) - s.len() * fl
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.last().count >= fl);
        picked_most(s.drop_last(), p, fl);
        assert((s.len() - 1) * fl + fl == s.len() * fl) by (nonlinear_arith);
    }
}
pub proof fn picked_empty(s: Seq<SpaceSavingEntry>, fl: int) ensures picked(s, Set::<int>::empty(), fl) == 0 decreases s.len() { if s.len() > 0 { picked_empty(s.drop_last(), fl); } }
pub open spec fn cnts(s: SpaceSavingTransState, ks: Seq<int>) -> int decreases ks.len() { if ks.len() == 0 { 0 } else { cnts(s, ks.drop_last()) + cnt(s, ks.last()) } }
pub proof fn cnts_picked(s: SpaceSavingTransState, ks: Seq<int>)
    requires wf(s), ks.no_duplicates()
    ensures cnts(s, ks) == ks.len() * floor(s) + picked(s.entries@, ks.to_set(), floor(s))
    decreases ks.len()
{
    placed_distinct(s);
    if ks.len() == 0 { assert(ks.to_set() =~= Set::<int>::empty()); picked_empty(s.entries@, floor(s)); }
    else {
        let (d, k, fl) = (ks.drop_last(), ks.last(), floor(s));
        cnts_picked(s, d);
        assert(ks =~= d.push(k));
        assert(!d.to_set().contains(k)) by { if d.to_set().contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(ks[i] == ks[ks.len() - 1]); } }
        assert(ks.to_set() =~= d.to_set().insert(k)) by {
            assert forall|q: int| ks.to_set().contains(q) implies #[trigger] d.to_set().insert(k).contains(q) by { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == q; if i < d.len() { assert(d[i] == q); } }
            assert forall|q: int| d.to_set().insert(k).contains(q) implies #[trigger] ks.to_set().contains(q) by { if q != k { let i = choose|i: int| 0 <= i < d.len() && d[i] == q; assert(ks[i] == q); } else { assert(ks[ks.len() - 1] == q); } }
        }
        if tracked(s, k) { assert(s.indices@.contains_key(k)); picked_one(s.entries@, d.to_set(), k, fl, s.indices@[k] as int); }
        else {
            assert forall|q: int| 0 <= q < s.entries@.len() implies vid((#[trigger] s.entries@[q]).value) != k by { assert(s.indices@.contains_key(vid(s.entries@[q].value))); }
            picked_none(s.entries@, d.to_set(), k, fl);
        }
        assert((ks.len() - 1) * fl + fl == ks.len() * fl) by (nonlinear_arith);
    }
}
pub proof fn placed_distinct(s: SpaceSavingTransState)
    requires placed(s.entries@, s.indices@)
    ensures distinct(s.entries@)
{
    assert forall|i: int, j: int| 0 <= i < j < s.entries@.len() implies vid((#[trigger] s.entries@[i]).value) != vid((#[trigger] s.entries@[j]).value) by {
        assert(s.indices@[vid(s.entries@[i].value)] == i); assert(s.indices@[vid(s.entries@[j].value)] == j);
    }
}
/// up to max_size values together were seen at most as often as all
pub proof fn cnts_most(s: SpaceSavingTransState, ks: Seq<int>)
    requires wf(s), ks.no_duplicates(), ks.len() <= s.max_size
    ensures cnts(s, ks) <= sum(s.entries@)
{
    cnts_picked(s, ks);
    let (fl, n) = (floor(s), s.entries@.len());
    assert forall|i: int| 0 <= i < n implies (#[trigger] s.entries@[i]).count >= fl by { if n == s.max_size { assert(s.entries@[i].count >= s.entries@[n - 1].count); } }
    picked_most(s.entries@, ks.to_set(), fl);
    if n == s.max_size { assert(ks.len() * fl <= n * fl) by (nonlinear_arith) requires ks.len() <= n, fl >= 0; }
}
/// what the combination of the two says of the value k
pub open spec fn merged(one: SpaceSavingTransState, two: SpaceSavingTransState, e: SpaceSavingEntry, k: int) -> bool {
    vid(e.value) == k && e.count == cnt(one, k) + cnt(two, k) && e.overcount == over(one, k) + over(two, k)
}
pub proof fn sum_merged(one: SpaceSavingTransState, two: SpaceSavingTransState, s: Seq<SpaceSavingEntry>, ks: Seq<int>)
    requires s.len() == ks.len(), forall|i: int| 0 <= i < s.len() ==> merged(one, two, #[trigger] s[i], ks[i])
    ensures sum(s) == cnts(one, ks) + cnts(two, ks)
    decreases s.len()
{ if s.len() > 0 {
    let (d, e) = (s.drop_last(), ks.drop_last());
    assert forall|i: int| 0 <= i < d.len() implies merged(one, two, #[trigger] d[i], e[i]) by { assert(merged(one, two, s[i], ks[i])); }
    assert(merged(one, two, s[s.len() - 1], ks[ks.len() - 1]));
    sum_merged(one, two, d, e);
} }
pub proof fn bounds(s: SpaceSavingTransState, k: int)
    requires wf(s)
    ensures 0 <= over(s, k) <= cnt(s, k) <= s.total_vals, floor(s) <= cnt(s, k), floor(s) >= 0
{
    sum_all(s.entries@);
    if tracked(s, k) { assert(s.indices@.contains_key(k)); let e = s.entries@[s.indices@[k] as int]; assert(e.overcount <= e.count); assert(e.count <= sum(s.entries@)); 
        if s.entries@.len() == s.max_size { assert(e.count >= s.entries@[s.entries@.len() - 1].count); } }
    else if s.entries@.len() == s.max_size { assert(s.entries@[s.entries@.len() - 1].count <= sum(s.entries@)); }
}
/// the values in the order of their entries
pub open spec fn keys(s: Seq<SpaceSavingEntry>) -> Seq<int> { Seq::new(s.len(), |i: int| vid(s[i].value)) }
/// p: every value of one or two, merged, in falling order; r holds the first max_size of them
pub proof fn combined(one: SpaceSavingTransState, two: SpaceSavingTransState, p: Seq<SpaceSavingEntry>, r: SpaceSavingTransState)
    requires wf(one), wf(two), one.max_size == two.max_size, r.max_size == one.max_size, r.total_vals == one.total_vals + two.total_vals,
        distinct(p), falling(p), forall|i: int| 0 <= i < p.len() ==> merged(one, two, #[trigger] p[i], vid(p[i].value)) && (tracked(one, vid(p[i].value)) || tracked(two, vid(p[i].value))),
        forall|k: int| #[trigger] tracked(one, k) ==> keys(p).contains(k), forall|k: int| #[trigger] tracked(two, k) ==> keys(p).contains(k),
        r.entries@ == (if p.len() <= r.max_size { p } else { p.take(r.max_size as int) }), placed(r.entries@, r.indices@),
    ensures wf(r), forall|f: spec_fn(int) -> int, g: spec_fn(int) -> int| #[trigger] right(one, f) && #[trigger] right(two, g) ==> right(r, both(f, g))
{
    let (y, n) = (r.entries@, r.entries@.len() as int);
    assert forall|i: int| 0 <= i < n implies #[trigger] y[i] == p[i] by {}
    let ks = keys(y);
    assert(ks.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies ks[i] != ks[j] by { if i < j { assert(vid(p[i].value) != vid(p[j].value)); } else { assert(vid(p[j].value) != vid(p[i].value)); } } }
    assert forall|i: int| 0 <= i < y.len() implies merged(one, two, #[trigger] y[i], ks[i]) by { assert(merged(one, two, p[i], vid(p[i].value))); }
    sum_merged(one, two, y, ks);
    cnts_most(one, ks);
    cnts_most(two, ks);
    assert forall|i: int| 0 <= i < n implies (#[trigger] y[i]).overcount <= y[i].count && y[i].count >= 1 by {
        assert(merged(one, two, y[i], ks[i]));
        bounds(one, ks[i]); bounds(two, ks[i]);
        assert(tracked(one, ks[i]) || tracked(two, ks[i])) by { assert(merged(one, two, p[i], vid(p[i].value))); }
        if tracked(one, ks[i]) { assert(one.indices@.contains_key(ks[i])); assert(one.entries@[one.indices@[ks[i]] as int].count >= 1); }
        else { assert(two.indices@.contains_key(ks[i])); assert(two.entries@[two.indices@[ks[i]] as int].count >= 1); }
    }
    assert(falling(y)) by { assert forall|i: int, j: int| 0 <= i <= j < y.len() implies #[trigger] y[i].count >= #[trigger] y[j].count by { assert(p[i].count >= p[j].count); } }
    // the least count is at least both least counts
    if floor(one) > 0 || floor(two) > 0 {
        if floor(one) > 0 { assert(one.entries@.len() == one.max_size); as_many(one, p); } else { assert(two.entries@.len() == two.max_size); bounds(one, 0); bounds(two, 0); as_many(two, p); }
        assert(n == r.max_size);
    }
    bounds(one, 0); bounds(two, 0);
    if n == r.max_size { let k = ks[n - 1]; assert(merged(one, two, y[n - 1], k)); bounds(one, k); bounds(two, k); assert(floor(r) >= floor(one) + floor(two)); }
    assert(floor(r) >= floor(one) + floor(two));
    assert forall|f: spec_fn(int) -> int, g: spec_fn(int) -> int| #[trigger] right(one, f) && #[trigger] right(two, g) implies right(r, both(f, g)) by {
        let h = both(f, g);
        assert forall|k: int| #![trigger h(k)] h(k) >= 0 && cnt(r, k) - over(r, k) <= h(k) <= cnt(r, k) by {
            assert(f(k) >= 0 && cnt(one, k) - over(one, k) <= f(k) <= cnt(one, k));
            assert(g(k) >= 0 && cnt(two, k) - over(two, k) <= g(k) <= cnt(two, k));
            if tracked(r, k) {
                assert(r.indices@.contains_key(k));
                assert(merged(one, two, y[r.indices@[k] as int], ks[r.indices@[k] as int]));
            } else if tracked(one, k) || tracked(two, k) {
                assert(keys(p).contains(k));
                let q = choose|q: int| 0 <= q < p.len() && keys(p)[q] == k;
                assert(merged(one, two, p[q], vid(p[q].value)));
                if q < n { assert(y[q] == p[q]); assert(r.indices@.contains_key(vid(y[q].value))); }
                else { assert(p[n - 1].count >= p[q].count); assert(y[n - 1] == p[n - 1]); }
            }
        }
    }
}
pub proof fn as_many(s: SpaceSavingTransState, p: Seq<SpaceSavingEntry>)
    requires wf(s), forall|k: int| #[trigger] tracked(s, k) ==> keys(p).contains(k)
    ensures p.len() >= s.entries@.len()
{
    let a = keys(s.entries@);
    placed_distinct(s);
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { if i < j { assert(vid(s.entries@[i].value) != vid(s.entries@[j].value)); } else { assert(vid(s.entries@[j].value) != vid(s.entries@[i].value)); } } }
    a.unique_seq_to_set();
    keys(p).lemma_cardinality_of_set();
    assert(a.to_set().subset_of(keys(p).to_set())) by {
        assert forall|k: int| #[trigger] a.to_set().contains(k) implies keys(p).to_set().contains(k) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(s.indices@.contains_key(vid(s.entries@[i].value))); assert(tracked(s, k)); }
    }
    vstd::set_lib::lemma_len_subset(a.to_set(), keys(p).to_set());
}
/// the same values with the same counts
pub open spec fn alike(x: Seq<SpaceSavingEntry>, y: Seq<SpaceSavingEntry>, n: int) -> bool { y.len() == n && forall|i: int| 0 <= i < n ==> vid((#[trigger] y[i]).value) == vid(x[i].value) && y[i].count == x[i].count && y[i].overcount == x[i].overcount }
pub proof fn alike_sum(x: Seq<SpaceSavingEntry>, y: Seq<SpaceSavingEntry>)
    requires alike(x, y, x.len() as int)
    ensures sum(x) == sum(y)
    decreases x.len()
{ if x.len() > 0 {
    assert(y[x.len() - 1].count == x[x.len() - 1].count);
    assert(alike(x.drop_last(), y.drop_last(), x.len() - 1)) by { assert forall|i: int| 0 <= i < x.len() - 1 implies vid((#[trigger] y.drop_last()[i]).value) == vid(x.drop_last()[i].value) && y.drop_last()[i].count == x.drop_last()[i].count && y.drop_last()[i].overcount == x.drop_last()[i].overcount by { assert(y.drop_last()[i] == y[i]); } }
    alike_sum(x.drop_last(), y.drop_last());
} }
pub proof fn alike_distinct(x: Seq<SpaceSavingEntry>, y: Seq<SpaceSavingEntry>)
    requires alike(x, y, x.len() as int), distinct(x)
    ensures distinct(y)
{ assert forall|i: int, j: int| 0 <= i < j < y.len() implies vid((#[trigger] y[i]).value) != vid((#[trigger] y[j]).value) by { assert(vid(x[i].value) != vid(x[j].value)); } }
pub proof fn cloned(a: SpaceSavingTransState, b: SpaceSavingTransState)
    requires wf(a), alike(a.entries@, b.entries@, a.entries@.len() as int), placed(b.entries@, b.indices@), b.max_size == a.max_size, b.total_vals == a.total_vals
    ensures wf(b), forall|f: spec_fn(int) -> int| #[trigger] right(a, f) ==> right(b, f)
{
    let (x, y) = (a.entries@, b.entries@);
    alike_sum(x, y);
    assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i]).overcount <= y[i].count && y[i].count >= 1 by { assert(x[i].overcount <= x[i].count); }
    assert forall|i: int, j: int| 0 <= i <= j < y.len() implies #[trigger] y[i].count >= #[trigger] y[j].count by { assert(x[i].count >= x[j].count); }
    assert(floor(a) == floor(b)) by { if x.len() > 0 { assert(y[x.len() - 1].count == x[x.len() - 1].count); } }
    assert forall|k: int| cnt(b, k) == #[trigger] cnt(a, k) && over(b, k) == over(a, k) by {
        if tracked(a, k) { assert(a.indices@.contains_key(k)); let i = a.indices@[k] as int; assert(vid(y[i].value) == k); assert(b.indices@.contains_key(k)); assert(b.indices@[k] == i); }
        else if tracked(b, k) { assert(b.indices@.contains_key(k)); let i = b.indices@[k] as int; assert(vid(y[i].value) == vid(x[i].value)); assert(a.indices@.contains_key(vid(x[i].value))); }
    }
    assert forall|f: spec_fn(int) -> int| #[trigger] right(a, f) implies right(b, f) by {
        assert forall|k: int| #![trigger f(k)] f(k) >= 0 && cnt(b, k) - over(b, k) <= f(k) <= cnt(b, k) by { assert(cnt(a, k) == cnt(b, k)); }
    }
}
/// the values of a map, rearranged
pub proof fn rearranged_map(m: Map<int, SpaceSavingEntry>, o: Seq<int>, v: Seq<SpaceSavingEntry>, p: Seq<SpaceSavingEntry>)
    requires o.no_duplicates(), v.len() == o.len(), forall|k: int| #[trigger] o.contains(k) <==> m.contains_key(k), forall|i: int| 0 <= i < v.len() ==> m.contains_key(#[trigger] o[i]) && v[i] == m[o[i]],
        moved(v, p, shuffle(v)), forall|k: int| #[trigger] m.contains_key(k) ==> vid(m[k].value) == k
    ensures distinct(p), forall|i: int| 0 <= i < p.len() ==> m.contains_key(vid((#[trigger] p[i]).value)) && m[vid(p[i].value)] == p[i], forall|k: int| #[trigger] m.contains_key(k) ==> keys(p).contains(k)
{
    let w = shuffle(v);
    assert forall|i: int| 0 <= i < p.len() implies m.contains_key(vid((#[trigger] p[i]).value)) && m[vid(p[i].value)] == p[i] && vid(p[i].value) == o[w[i]] by { assert(p[i] == v[w[i]]); assert(m.contains_key(o[w[i]])); }
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies vid((#[trigger] p[i]).value) != vid((#[trigger] p[j]).value) by { assert(w[i] != w[j]); assert(o[w[i]] != o[w[j]]); }
    assert forall|k: int| #[trigger] m.contains_key(k) implies keys(p).contains(k) by {
        assert(o.contains(k));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == k;
        assert(w.contains(j));
        let i = choose|i: int| 0 <= i < w.len() && w[i] == j;
        assert(vid(p[i].value) == o[w[i]]);
        assert(keys(p)[i] == k);
    }
}
"""
IMPL = {}
I = "impl SpaceSavingTransState"
INTO = (r"\((self\.entries\[\w+\]\.value|[\w.]+), (self\.type_oid\(\)|one\.type_oid\(\)|\w+)\)\s*\.into\(\)", r"vx_elem(\1, \2)")
RENAME = [(r"\bPgAnyElementHashMap\b", "VxMap"), (r"\bpg_sys::Oid\b", "Oid")]
SETS = (r"if let Some\(entry\) = self\.indices\.get_mut\(&(\w+)\) \{\s*\*entry = ([^;]*);", r"if self.indices.vx_set(&\1, \2) {")
PARTS = [("struct", F, "SpaceSavingEntry", "#[derive(Clone, Copy)]\n"), ("struct", F, "SpaceSavingTransState"),
         ("impl", F, "impl SpaceSavingEntry", ["clone"]),
         ("impl", F, "impl Clone for SpaceSavingTransState", ["clone"], "impl SpaceSavingTransState"),
         ("impl", F, I, ["type_oid", "update_map_index", "move_left", "add", "update_all_map_indices", "combine"]), ("fn", F, "new_entry")]
SPECS = {
    "impl SpaceSavingEntry::clone": dict(ret="r", clauses="ensures vid(r.value) == vid(self.value), r.count == self.count, r.overcount == self.overcount"),
    "impl Clone for SpaceSavingTransState::clone": dict(ret="r", clauses="""requires wf(*self)
        ensures wf(r), alike(self.entries@, r.entries@, self.entries@.len() as int), r.total_vals == self.total_vals, r.max_size == self.max_size, r.freq_param == self.freq_param, r.topn == self.topn,
            forall|f: spec_fn(int) -> int| #[trigger] right(*self, f) ==> right(r, f)""",
        rewrite=[(r"\.hasher\(\)\.clone\(\)", ".hasher()")],
        loops={0: """invariant wf(*self), vxi0.seq().len() == self.entries@.len(), forall|q: int| 0 <= q < self.entries@.len() ==> *(#[trigger] vxi0.seq()[q]) == self.entries@[q], alike(self.entries@, new_state.entries@, vxi0.index() as int),
            new_state.indices@ == Map::<int, usize>::empty(), new_state.total_vals == self.total_vals, new_state.max_size == self.max_size, new_state.freq_param == self.freq_param, new_state.topn == self.topn"""},
        ghost={"ls0": "let ghost vxq = vxi0.index() as int; proof { assert(*entry == *(vxi0.seq()[vxq])); }", r"before new_state\.update_all": "proof { placed_distinct(*self); alike_distinct(self.entries@, new_state.entries@); }", r"after new_state\.update_all_map_indices\(\);": "proof { cloned(*self, new_state); }"}),
    "type_oid": dict(),
    "update_map_index": dict(clauses="""ensures i < old(self).entries@.len(), final(self).entries == old(self).entries, final(self).indices@ == old(self).indices@.insert(vid(old(self).entries@[i as int].value), i),
        final(self).total_vals == old(self).total_vals, final(self).max_size == old(self).max_size, final(self).freq_param == old(self).freq_param, final(self).topn == old(self).topn""",
        rewrite=[INTO, SETS, (r"self\.entries\[i\]\.value", "vx_nth(&self.entries, i).value")]),
    "move_left": dict(clauses="""requires parts_ok(*old(self)), i < old(self).entries@.len(), raised(old(self).entries@, i as int)
        ensures parts_ok(*final(self)), falling(final(self).entries@), rearranged(*old(self), *final(self))""",
        loops={0: """invariant *self == s0, target <= i, i < s0.entries@.len(), count == s0.entries@[i as int].count, forall|q: int| target <= q < i ==> (#[trigger] s0.entries@[q]).count < count
            decreases target"""},
        rewrite=[(r"self\.entries\.swap\(i, target\)", "vx_swap(&mut self.entries, i, target)")],
        ghost={"start": "let ghost s0 = *self;", "la0": "assert(target > 0 ==> s0.entries@[target - 1].count >= count);",
               "end": """proof { if target != i { swapped(s0, *self, i as int, target as int); }
                let (x, y) = (s0.entries@, self.entries@);
                assert(y.len() == x.len());
                assert forall|a: int, b: int| 0 <= a <= b < y.len() implies #[trigger] y[a].count >= #[trigger] y[b].count by {
                    if a < target { assert(y[a] == x[a]); assert(x[a].count >= x[target - 1].count); if b == i || b == target { } else { assert(x[a].count >= x[b].count); } }
                } }"""}),
    "add": dict(clauses="""requires wf(*old(self)), old(self).total_vals < u64::MAX
        ensures wf(*final(self)), final(self).total_vals == old(self).total_vals + 1, final(self).max_size == old(self).max_size, final(self).freq_param == old(self).freq_param, final(self).topn == old(self).topn,
            forall|f: spec_fn(int) -> int| #[trigger] right(*old(self), f) ==> right(*final(self), bump(f, vid(element.d)))""",
        rewrite=[INTO, (r"let entry = self\.entries\.last_mut\(\)\.unwrap\(\);", "let vxl = vx_top(self.entries.len());"), (r"\bentry\.", "self.entries[vxl].")],
        ghost={"start": "let ghost s0 = *self; let ghost v = vid(element.d); proof { sum_all(self.entries@); }",
               r"before self\.move_left\(idx\)": "let ghost mid = *self; proof { counted_parts(s0, mid, idx as int); }", r"after self\.move_left\(idx\);": "proof { counted(s0, mid, idx as int, *self); }",
               r"before self\.move_left\(self": "let ghost mid = *self; proof { let vxn = s0.entries@.len() - 1; let vxe = s0.entries@[vxn]; assert(mid.entries@ =~= s0.entries@.update(vxn, SpaceSavingEntry { value: new_value, count: (vxe.count + 1) as u64, overcount: vxe.count })); replaced_parts(s0, mid, new_value); }", r"after self\.move_left\(self[^;]*;": "proof { replaced(s0, mid, new_value, *self); }",
               r"before \} else \{\s*let new_value": "proof { appended(s0, *self, self.entries@[s0.entries@.len() as int]); }"}),
    "update_all_map_indices": dict(clauses="""requires distinct(old(self).entries@), old(self).indices@ == Map::<int, usize>::empty()
        ensures final(self).entries == old(self).entries, placed(final(self).entries@, final(self).indices@),
            final(self).total_vals == old(self).total_vals, final(self).max_size == old(self).max_size, final(self).freq_param == old(self).freq_param, final(self).topn == old(self).topn""",
        loops={0: """invariant self.entries == s0.entries, distinct(self.entries@), self.total_vals == s0.total_vals, self.max_size == s0.max_size, self.freq_param == s0.freq_param, self.topn == s0.topn, vxi0.seq().len() == self.entries@.len(),
            forall|q: int| 0 <= q < i ==> self.indices@.contains_key(vid((#[trigger] self.entries@[q]).value)) && self.indices@[vid(self.entries@[q].value)] == q,
            forall|k: int| #[trigger] self.indices@.contains_key(k) ==> self.indices@[k] < i && vid(self.entries@[self.indices@[k] as int].value) == k,
            self.indices@.dom().len() == i"""},
        ghost={"start": "let ghost s0 = *self;", "ls0": """proof { let k = vid(self.entries@[i as int].value); if self.indices@.contains_key(k) { assert(vid(self.entries@[self.indices@[k] as int].value) != vid(self.entries@[i as int].value)); } }
                let ghost m0 = self.indices@;""",
               "le0": "proof { assert(self.indices@.dom() =~= m0.dom().insert(vid(self.entries@[i as int].value))); }"}),
    "new_entry": dict(clauses="""requires wf(*other), entry.overcount <= entry.count, entry.count + other.total_vals <= u64::MAX
        ensures final(map)@.contains_key(vid(entry.value)), final(map)@ == old(map)@.insert(vid(entry.value), final(map)@[vid(entry.value)]), vid(final(map)@[vid(entry.value)].value) == vid(entry.value),
            final(map)@[vid(entry.value)].count == entry.count + cnt(*other, vid(entry.value)), final(map)@[vid(entry.value)].overcount == entry.overcount + over(*other, vid(entry.value))""",
        rewrite=[INTO, (r"other\.entries\.last\(\)\.unwrap\(\)", "vx_last(&other.entries)")],
        ghost={"start": "proof { bounds(*other, vid(entry.value)); if tracked(*other, vid(entry.value)) { assert(other.indices@.contains_key(vid(entry.value))); } }"}),
    "combine": dict(ret="r", clauses="""requires wf(*one), wf(*two), one.max_size == two.max_size, one.total_vals + two.total_vals <= u64::MAX
        ensures wf(r), r.max_size == one.max_size, r.freq_param == one.freq_param, r.topn == one.topn, r.total_vals == one.total_vals + two.total_vals,
            forall|f: spec_fn(int) -> int, g: spec_fn(int) -> int| #[trigger] right(*one, f) && #[trigger] right(*two, g) ==> right(r, both(f, g))""",
        loops={0: """invariant wf(*one), wf(*two), one.total_vals + two.total_vals <= u64::MAX, vxi0.seq().len() == one.entries@.len(), forall|q: int| 0 <= q < one.entries@.len() ==> *(#[trigger] vxi0.seq()[q]) == one.entries@[q],
            forall|k: int| #[trigger] temp@.contains_key(k) <==> tracked(*one, k) && one.indices@[k] < vxi0.index(), forall|k: int| #[trigger] temp@.contains_key(k) ==> merged(*one, *two, temp@[k], k)""",
            1: """invariant wf(*one), wf(*two), one.total_vals + two.total_vals <= u64::MAX, vxi1.seq().len() == two.entries@.len(), forall|q: int| 0 <= q < two.entries@.len() ==> *(#[trigger] vxi1.seq()[q]) == two.entries@[q],
            forall|k: int| #[trigger] temp@.contains_key(k) <==> tracked(*one, k) || (tracked(*two, k) && two.indices@[k] < vxi1.index()), forall|k: int| #[trigger] temp@.contains_key(k) ==> merged(*one, *two, temp@[k], k)"""},
        rewrite=[(r"(?s)fn new_entry\(.*?map\.insert\(new_dat, new_ent\);\s*\}", ""), INTO, (r"\.hasher\(\)\.clone\(\)", ".hasher()"), (r"temp\.0\.into_values\(\)\.collect\(\)", "temp.into_values_vec()"),
            (r"entries\.sort_by\(\|(\w+), (\w+)\| \2\.count\.partial_cmp\(&\1\.count\)\.unwrap\(\)\)", "vx_sort_falling(&mut entries)")],
        ghost={"ls0": "let ghost vxq = vxi0.index() as int; proof { sum_all(one.entries@); assert(*entry == *(vxi0.seq()[vxq])); assert(*entry == one.entries@[vxq]); assert(one.indices@[vid(one.entries@[vxq].value)] == vxq); assert(entry.overcount <= entry.count); }",
               "ls1": "let ghost vxq = vxi1.index() as int; proof { sum_all(two.entries@); assert(*entry == *(vxi1.seq()[vxq])); assert(*entry == two.entries@[vxq]); assert(two.indices@[vid(two.entries@[vxq].value)] == vxq); assert(entry.overcount <= entry.count); }",
               r"before let mut entries": "let ghost vxm = temp@; let ghost vxo = temp.order();", r"before vx_sort_falling": "let ghost vxv = entries@;", r"before entries\.truncate": "let ghost vxp = entries@; proof { rearranged_map(vxm, vxo, vxv, vxp); }",
               r"before result\.update_all": "proof { assert(distinct(result.entries@)); } ", r"after result\.update_all_map_indices\(\);": """proof {
                    assert forall|k: int| #[trigger] tracked(*one, k) implies keys(vxp).contains(k) by { assert(vxm.contains_key(k)); }
                    assert forall|k: int| #[trigger] tracked(*two, k) implies keys(vxp).contains(k) by { assert(two.indices@.contains_key(k)); assert(vxm.contains_key(k)); }
                    if vxp.len() <= result.max_size { assert(result.entries@ =~= vxp); } else { assert(result.entries@ =~= vxp.take(result.max_size as int)); }
                    combined(*one, *two, vxp, result); }"""}),
}
