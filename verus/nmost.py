F = "extension/src/nmost.rs"
ASSUMED = ["BinaryHeap: a multiset with a greatest element (peek, pop), push, into_sorted_vec ascending, iter yields every element once",
           "T: Ord is a strict weak order, and (T, usize) is ordered by T first, then by the index (std's derived tuple order)",
           "in_aggregate_context runs its closure once and returns its result; Internal::new(x).to_inner() holds x",
           "deep_copy_datum gives a datum equal to its argument; free_datum frees only the datum it is given; DatumStore::from stores the datums in order and into_anyelement_iter yields them",
           "<NMostTransState as Clone>::clone (derived) copies the fields"]
USES = "use vstd::multiset::*;\n"
RENAME = [(r"\bpgrx::AnyElement\b", "AnyElement"), (r"\bpg_sys::Datum\b", "Datum"), (r"\bpg_sys::Oid\b", "Oid"), (r"\bpg_sys::FunctionCallInfo\b", "FunctionCallInfo"),
          (r"\bBinaryHeap\b", "VxHeap"), (r"\bInner<", "Box<"), (r"DatumStore<'_>", "DatumStore"), (r"DatumStore<'static>", "DatumStore")]
PRELUDE = r"""
#[derive(Clone, Copy)]
pub struct Datum { pub d: u64 }
#[derive(Clone, Copy)]
pub struct FunctionCallInfo { pub f: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Oid { pub o: u32 }
#[derive(Clone, Copy)]
pub struct AnyElement { pub d: Datum, pub o: Oid }
impl AnyElement {
    pub fn datum(&self) -> (r: Datum) ensures r == self.d { self.d }
    pub fn oid(&self) -> (r: Oid) ensures r == self.o { self.o }
}
/// the value a datum stands for
pub uninterp spec fn vx_val(d: Datum) -> int;
#[verifier::external_body]
pub fn deep_copy_datum(d: Datum, o: Oid) -> (r: Datum) ensures vx_val(r) == vx_val(d) { unimplemented!() }
#[verifier::external_body]
pub fn free_datum(d: Datum, o: Oid) { unimplemented!() }
#[verifier::external_body]
pub struct DatumStore { x: Vec<Datum> }
impl DatumStore { pub uninterp spec fn view(&self) -> Seq<int>; }
#[verifier::external_body]
pub fn vx_store(v: (Oid, Vec<Datum>)) -> (r: DatumStore) ensures r@ == Seq::new(v.1@.len(), |i: int| vx_val(v.1@[i])) { unimplemented!() }
/// the elements of a store, one after the other
#[verifier::external_body]
pub struct VxElems { x: Vec<Datum> }
impl VxElems {
    pub uninterp spec fn view(&self) -> Seq<int>;
    pub uninterp spec fn oid(&self) -> Oid;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<AnyElement>)
        ensures final(self).oid() == old(self).oid(), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && vx_val(r->0.d) == old(self)@[0] && r->0.o == old(self).oid() && final(self)@ == old(self)@.drop_first()
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_elems(s: &DatumStore) -> (r: VxElems) ensures r@ == s@ { unimplemented!() }
/// as many pairs as there are values and elements
#[verifier::external_body]
pub fn vx_zip<T: Copy>(v: &[T], e: VxElems) -> (r: Vec<(T, AnyElement)>)
    ensures r@.len() == if v@.len() <= e@.len() { v@.len() } else { e@.len() }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == v@[i] && vx_val(r@[i].1.d) == e@[i]
{ unimplemented!() }

pub uninterp spec fn lt<T>(a: T, b: T) -> bool;
#[verifier::external_body]
pub proof fn order<T>()
    ensures forall|a: T| !#[trigger] lt(a, a), forall|a: T, b: T, c: T| #[trigger] lt(a, b) && #[trigger] lt(b, c) ==> lt(a, c),
        forall|a: T, b: T, c: T| !#[trigger] lt(a, b) && !#[trigger] lt(b, c) ==> !lt(a, c)
{ }
#[verifier::external_body]
pub proof fn pair_order<T>()
    ensures forall|a: (T, usize), b: (T, usize)| #[trigger] lt(a, b) <==> lt(a.0, b.0) || (!lt(b.0, a.0) && a.1 < b.1)
{ }
#[verifier::external_body]
pub fn vx_lt<T: Ord>(a: &T, b: &T) -> (r: bool) ensures r == lt(*a, *b) { a < b }
pub fn vx_gt<T: Ord>(a: &T, b: &T) -> (r: bool) ensures r == lt(*b, *a) { vx_lt(b, a) }
pub fn vx_le<T: Ord>(a: &T, b: &T) -> (r: bool) ensures r == !lt(*b, *a) { !vx_lt(b, a) }
pub fn vx_ge<T: Ord>(a: &T, b: &T) -> (r: bool) ensures r == !lt(*a, *b) { !vx_lt(a, b) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxHeap<T: Ord> { h: Vec<T> }
impl<T: Ord> VxHeap<T> {
    pub uninterp spec fn view(&self) -> Multiset<T>;
    /// the elements in iteration order
    pub uninterp spec fn vx_order(&self) -> Seq<T>;
    /// the element that peek and pop give
    pub uninterp spec fn top(&self) -> T;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Multiset::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Multiset::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r as nat == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self).top()) && final(self)@ == old(self)@.remove(old(self).top()) && heap_top(*old(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && *(r->0) == self.top() && heap_top(*self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_sorted_vec(self) -> (r: Vec<T>) ensures r@.to_multiset() == self@, forall|i: int, j: int| 0 <= i <= j < r@.len() ==> !lt(r@[j], r@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_vec(&self) -> (r: &Vec<T>) ensures r@ == self.vx_order(), r@.to_multiset() == self@ { unimplemented!() }
}
pub open spec fn heap_top<T: Ord>(h: VxHeap<T>) -> bool { h@.count(h.top()) > 0 && forall|x: T| #[trigger] h@.count(x) > 0 ==> !lt(h.top(), x) }
pub fn vx_unwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { match o { Some(x) => x, None => vx_refuse() } }
pub fn vx_at<T>(v: &[T], i: usize) -> (r: &T) ensures i < v@.len(), *r == v@[i as int] { if i < v.len() { &v[i] } else { vx_refuse() } }
#[verifier::external_body]
pub fn vx_tail<T>(v: &[T]) -> (r: &[T]) ensures v@.len() >= 1, r@ == v@.drop_first() { &v[1..] }
pub fn vx_internal<T>(x: T) -> (r: Option<Box<T>>) ensures r is Some, *(r->0) == x { Some(Box::new(x)) }
#[verifier::external_body]
pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn vx_unzip<A, B>(v: Vec<(A, B)>) -> (r: (Vec<A>, Vec<B>))
    ensures r.0@.len() == v@.len(), r.1@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> r.0@[i] == (#[trigger] v@[i]).0 && r.1@[i] == v@[i].1
{ unimplemented!() }

/// h is n of all, and nothing left out is less than anything kept (all of them when there are no more than n)
pub open spec fn least<T>(all: Multiset<T>, h: Multiset<T>, n: nat, o: spec_fn(T, T) -> bool) -> bool {
    &&& h.subset_of(all)
    &&& h.len() == if all.len() <= n { all.len() } else { n }
    &&& forall|x: T, y: T| #[trigger] h.count(x) > 0 && #[trigger] all.count(y) > h.count(y) ==> !o(y, x)
}
pub open spec fn by<T>() -> spec_fn(T, T) -> bool { |a: T, b: T| lt(a, b) }
/// one more value: it is kept while there is room, and otherwise a greatest of the values and it is left out
pub open spec fn step<T>(h: Multiset<T>, n: nat, v: T, r: Multiset<T>, o: spec_fn(T, T) -> bool) -> bool {
    if h.len() < n { r == h.insert(v) }
    else { exists|m: T| #[trigger] h.insert(v).count(m) > 0 && r == h.insert(v).remove(m) && forall|x: T| #[trigger] h.insert(v).count(x) > 0 ==> !o(m, x) }
}
pub open spec fn weak<T>(o: spec_fn(T, T) -> bool) -> bool {
    (forall|a: T| !#[trigger] o(a, a)) && (forall|a: T, b: T, c: T| #[trigger] o(a, b) && #[trigger] o(b, c) ==> o(a, c)) && (forall|a: T, b: T, c: T| !#[trigger] o(a, b) && !#[trigger] o(b, c) ==> !o(a, c))
}
pub proof fn by_weak<T>() ensures weak(by::<T>()) {
    order::<T>();
    let o = by::<T>();
    assert(forall|a: T, b: T| #[trigger] o(a, b) == lt(a, b));
}
/// the history: after one more value the heap holds the least of one more
pub proof fn step_least<T>(all: Multiset<T>, h: Multiset<T>, n: nat, v: T, r: Multiset<T>, o: spec_fn(T, T) -> bool)
    requires least(all, h, n, o), step(h, n, v, r, o), weak(o)
    ensures least(all.insert(v), r, n, o)
{
    let b = all.insert(v);
    let hv = h.insert(v);
    if h.len() < n {
        assert(all.len() == h.len());
        sub_len(h, all);
        assert(r =~= b);
    } else {
        let m = choose|m: T| #[trigger] hv.count(m) > 0 && r == hv.remove(m) && forall|x: T| #[trigger] hv.count(x) > 0 ==> !o(m, x);
        assert(r.len() == n);
        assert(b.len() == all.len() + 1);
        sub_sizes(h, all);
        assert forall|x: T| r.count(x) <= b.count(x) by { assert(h.count(x) <= all.count(x)); }
        assert forall|x: T, y: T| #[trigger] r.count(x) > 0 && #[trigger] b.count(y) > r.count(y) implies !o(y, x) by {
            assert(hv.count(x) > 0);
            if y == m {
            } else {
                assert(all.count(y) > h.count(y));
                if h.count(x) > 0 {
                } else {
                    assert(x == v);
                    if m == v { assert(hv.count(v) == 1); assert(false); }
                    assert(h.count(m) > 0);
                    assert(!o(y, m) && !o(m, x));
                }
            }
        }
    }
}
/// adding the least of some more values is as good as adding all of them
pub proof fn least_union<T>(a: Multiset<T>, b: Multiset<T>, hb: Multiset<T>, r: Multiset<T>, n: nat, m: nat, o: spec_fn(T, T) -> bool)
    requires least(a.add(hb), r, n, o), least(b, hb, m, o), n <= m, weak(o)
    ensures least(a.add(b), r, n, o)
{
    let s = a.add(hb);
    let u = a.add(b);
    sub_sizes(hb, b);
    sub_sizes(r, s);
    assert forall|x: T| r.count(x) <= u.count(x) by { assert(r.count(x) <= s.count(x)); assert(hb.count(x) <= b.count(x)); }
    if b.len() <= m {
        sub_len(hb, b);
        assert(s =~= u);
    } else {
        assert(hb.len() == m && r.len() == n);
        assert forall|x: T, y: T| #[trigger] r.count(x) > 0 && #[trigger] u.count(y) > r.count(y) implies !o(y, x) by {
            if s.count(y) > r.count(y) {
            } else {
                assert(b.count(y) > hb.count(y));
                // y is not less than anything in hb; if it were less than x, so would be every member of hb that is not above y
                if o(y, x) {
                    // x is not in hb, and everything in hb is left in r
                    assert(forall|z: T| #[trigger] hb.count(z) > 0 ==> !o(y, z));
                    assert(hb.count(x) == 0);
                    assert forall|z: T| hb.count(z) <= r.count(z) by {
                        if hb.count(z) > r.count(z) {
                            assert(s.count(z) > r.count(z));
                            assert(!o(z, x));
                            assert(!o(y, z));
                            assert(!o(y, x));
                        }
                    }
                    sub_sizes(hb, r);
                    sub_len(hb, r);
                    assert(r == hb);
                    assert(false);
                }
            }
        }
    }
}
pub proof fn sub_sizes<T>(a: Multiset<T>, b: Multiset<T>) requires a.subset_of(b) ensures a.len() <= b.len(), b.sub(a).len() + a.len() == b.len() {
    assert(b.sub(a).add(a) =~= b);
}
pub proof fn sub_len<T>(a: Multiset<T>, b: Multiset<T>) requires a.subset_of(b), a.len() >= b.len() ensures a == b {
    sub_sizes(a, b);
    assert(b.sub(a).len() == 0);
    assert forall|x: T| b.count(x) <= a.count(x) by { if b.count(x) > a.count(x) { assert(b.sub(a).count(x) > 0); assert(b.sub(a).remove(x).len() == b.sub(a).len() - 1); } }
    assert(a =~= b);
}
/// replacing the greatest by a smaller one is a step
pub proof fn to_step<T: Ord>(h: VxHeap<T>, n: nat, v: T)
    requires h@.len() == n, heap_top(h)
    ensures step(h@, n, v, if lt(v, h.top()) { h@.remove(h.top()).insert(v) } else { h@ }, by::<T>())
{
    order::<T>();
    let o = by::<T>();
    assert(forall|a: T, b: T| #[trigger] o(a, b) == lt(a, b));
    let hv = h@.insert(v);
    let m = if lt(v, h.top()) { h.top() } else { v };
    assert(hv.count(m) > 0);
    assert(hv.remove(m) =~= if lt(v, h.top()) { h@.remove(h.top()).insert(v) } else { h@ });
    assert forall|x: T| #[trigger] hv.count(x) > 0 implies !o(m, x) by { if x != v { assert(h@.count(x) > 0); } }
}
/// what is not less than the greatest of a full heap adds nothing
pub proof fn skip<T>(h: Multiset<T>, t: T, a: Multiset<T>, rest: Multiset<T>, n: nat, o: spec_fn(T, T) -> bool)
    requires h.len() == n, weak(o), forall|x: T| #[trigger] h.count(x) > 0 ==> !o(t, x), least(a, h, n, o), forall|x: T| #[trigger] rest.count(x) > 0 ==> !o(x, t)
    ensures least(a.add(rest), h, n, o)
{
    sub_sizes(h, a);
    assert forall|x: T, y: T| #[trigger] h.count(x) > 0 && #[trigger] a.add(rest).count(y) > h.count(y) implies !o(y, x) by {
        if a.count(y) > h.count(y) { } else { assert(rest.count(y) > 0); assert(!o(t, x)); assert(!o(y, t)); }
    }
}
pub proof fn ms_step<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures s.subrange(0, i + 1).to_multiset() == s.subrange(0, i).to_multiset().insert(s[i])
{
    s.subrange(0, i).to_multiset_ensures();
    assert(s.subrange(0, i + 1) =~= s.subrange(0, i).push(s[i]));
}
pub proof fn ms_first<T>(s: Seq<T>)
    requires s.len() > 0
    ensures s.subrange(0, 1).to_multiset() == Multiset::<T>::empty().insert(s[0])
{
    s.subrange(0, 0).to_multiset_ensures();
    ms_step(s, 0);
    assert(s.subrange(0, 0) =~= Seq::<T>::empty());
    assert(s.subrange(0, 0).to_multiset().len() == 0);
    assert(s.subrange(0, 0).to_multiset() =~= Multiset::<T>::empty());
}
pub proof fn ms_split<T>(s: Seq<T>, i: int)
    requires 0 <= i <= s.len()
    ensures s.to_multiset() == s.subrange(0, i).to_multiset().add(s.subrange(i, s.len() as int).to_multiset())
{
    vstd::seq_lib::lemma_multiset_commutative(s.subrange(0, i), s.subrange(i, s.len() as int));
    assert(s =~= s.subrange(0, i) + s.subrange(i, s.len() as int));
}
pub proof fn ms_whole<T>(s: Seq<T>) ensures s.subrange(0, s.len() as int).to_multiset() == s.to_multiset() { assert(s.subrange(0, s.len() as int) =~= s); }
pub proof fn ms_none<T>(s: Seq<T>) ensures s.subrange(0, 0).to_multiset() == Multiset::<T>::empty() {
    s.subrange(0, 0).to_multiset_ensures();
    assert(s.subrange(0, 0).to_multiset().len() == 0);
    assert(s.subrange(0, 0).to_multiset() =~= Multiset::<T>::empty());
}
/// whatever the heap h held the least of, r holds the least of that and xs
pub open spec fn gains<T>(h: Multiset<T>, xs: Multiset<T>, r: Multiset<T>, n: nat, o: spec_fn(T, T) -> bool) -> bool {
    &&& forall|all: Multiset<T>| #[trigger] least(all, h, n, o) ==> least(all.add(xs), r, n, o)
}
pub proof fn gains_step<T>(h: Multiset<T>, xs: Multiset<T>, r: Multiset<T>, n: nat, v: T, q: Multiset<T>, o: spec_fn(T, T) -> bool)
    requires gains(h, xs, r, n, o), step(r, n, v, q, o), weak(o)
    ensures gains(h, xs.insert(v), q, n, o)
{
    assert forall|all: Multiset<T>| #[trigger] least(all, h, n, o) implies least(all.add(xs.insert(v)), q, n, o) by {
        step_least(all.add(xs), r, n, v, q, o);
        assert(all.add(xs).insert(v) =~= all.add(xs.insert(v)));
    }
}
pub proof fn gains_skip<T>(h: Multiset<T>, xs: Multiset<T>, r: Multiset<T>, t: T, rest: Multiset<T>, n: nat, o: spec_fn(T, T) -> bool)
    requires gains(h, xs, r, n, o), r.len() == n, weak(o), forall|x: T| #[trigger] r.count(x) > 0 ==> !o(t, x), forall|x: T| #[trigger] rest.count(x) > 0 ==> !o(x, t)
    ensures gains(h, xs.add(rest), r, n, o)
{
    assert forall|all: Multiset<T>| #[trigger] least(all, h, n, o) implies least(all.add(xs.add(rest)), r, n, o) by {
        skip(r, t, all.add(xs), rest, n, o);
        assert(all.add(xs).add(rest) =~= all.add(xs.add(rest)));
    }
}
/// a rolled-up summary of b stands for all of b
pub proof fn gains_all<T>(h: Multiset<T>, xs: Multiset<T>, r: Multiset<T>, n: nat, m: nat, b: Multiset<T>, o: spec_fn(T, T) -> bool)
    requires gains(h, xs, r, n, o), least(b, xs, m, o), n <= m, weak(o)
    ensures gains(h, b, r, n, o)
{
    assert forall|all: Multiset<T>| #[trigger] least(all, h, n, o) implies least(all.add(b), r, n, o) by { least_union(all, b, xs, r, n, m, o); }
}
pub proof fn empty_gain<T>(h: Multiset<T>, n: nat, o: spec_fn(T, T) -> bool) ensures gains(h, Multiset::<T>::empty(), h, n, o) {
    assert forall|all: Multiset<T>| #[trigger] least(all, h, n, o) implies least(all.add(Multiset::<T>::empty()), h, n, o) by { assert(all.add(Multiset::<T>::empty()) =~= all); }
}
/// a property of s[i..] is one of its multiset
pub proof fn rest<T>(s: Seq<T>, i: int, t: T, o: spec_fn(T, T) -> bool)
    requires 0 <= i < s.len(), forall|k: int| i <= k < s.len() ==> !o(#[trigger] s[k], t)
    ensures forall|x: T| #[trigger] s.subrange(i, s.len() as int).to_multiset().count(x) > 0 ==> !o(x, t)
{
    let q = s.subrange(i, s.len() as int);
    q.to_multiset_ensures();
    assert forall|x: T| #[trigger] q.to_multiset().count(x) > 0 implies !o(x, t) by {
        assert(q.contains(x));
        let k = choose|k: int| 0 <= k < q.len() && q[k] == x;
        assert(x == s[i + k]);
    }
}
pub open spec fn ascending<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> !lt(#[trigger] s[j], #[trigger] s[i]) }
/// the heap of values and indices, by index
pub open spec fn pairs<T>(vals: Seq<T>) -> Multiset<(T, usize)> { Seq::new(vals.len(), |i: int| (vals[i], i as usize)).to_multiset() }
pub open spec fn row_seq<T>(vals: Seq<T>, data: Seq<Datum>) -> Seq<(T, int)> { Seq::new(vals.len(), |i: int| (vals[i], vx_val(data[i]))) }
pub open spec fn wf_by<T: Ord>(s: NMostByTransState<T>, vals: Seq<T>) -> bool {
    s.values.heap@ == pairs(vals) && s.data@.len() == vals.len() && vals.len() <= s.values.capacity && s.values.capacity > 0
}
pub open spec fn wfb<T: Ord>(s: NMostByTransState<T>) -> bool { exists|vals: Seq<T>| #[trigger] wf_by(s, vals) }
pub open spec fn vals<T: Ord>(s: NMostByTransState<T>) -> Seq<T> { choose|vals: Seq<T>| #[trigger] wf_by(s, vals) }
/// the values kept, each with the value of its row
pub open spec fn rows<T: Ord>(s: NMostByTransState<T>) -> Multiset<(T, int)> { row_seq(vals(s), s.data@).to_multiset() }
pub open spec fn byrow<T>() -> spec_fn((T, int), (T, int)) -> bool { |a: (T, int), b: (T, int)| lt(a.0, b.0) }
pub proof fn byrow_weak<T>() ensures weak(byrow::<T>()) {
    order::<T>();
    let o = byrow::<T>();
    assert(forall|a: (T, int), b: (T, int)| #[trigger] o(a, b) == lt(a.0, b.0));
}
pub proof fn in_pairs<T>(v: Seq<T>, x: (T, usize))
    requires v.len() <= usize::MAX
    ensures pairs(v).len() == v.len(), pairs(v).count(x) > 0 <==> x.1 < v.len() && v[x.1 as int] == x.0
{
    let s = Seq::new(v.len(), |i: int| (v[i], i as usize));
    s.to_multiset_ensures();
    if pairs(v).count(x) > 0 { assert(s.contains(x)); }
    if x.1 < v.len() && v[x.1 as int] == x.0 { assert(s[x.1 as int] == x); assert(s.contains(x)); }
}
/// there is only one way to see a heap as a sequence
pub proof fn the_vals<T: Ord>(s: NMostByTransState<T>, v: Seq<T>)
    requires wf_by(s, v)
    ensures wfb(s), vals(s) == v
{
    let w = vals(s);
    assert(wf_by(s, w));
    assert(s.data@.len() <= usize::MAX) by { assert(v.len() <= s.values.capacity); }
    assert forall|i: int| 0 <= i < v.len() implies v[i] == w[i] by {
        in_pairs(v, (v[i], i as usize));
        in_pairs(w, (v[i], i as usize));
    }
    assert(v =~= w);
}
pub proof fn ms_update<T>(s: Seq<T>, i: int, x: T)
    requires 0 <= i < s.len()
    ensures s.update(i, x).to_multiset() == s.to_multiset().remove(s[i]).insert(x), s.to_multiset().count(s[i]) > 0
{
    s.to_multiset_ensures();
    let r = s.remove(i);
    r.to_multiset_ensures();
    let u = s.update(i, x);
    u.to_multiset_ensures();
    assert(u.remove(i) =~= r);
    assert(u.to_multiset().count(x) > 0) by { assert(u[i] == x); assert(u.contains(x)); }
    assert(s.contains(s[i]));
    assert(u.to_multiset() =~= u.to_multiset().remove(x).insert(x));
}
/// one more row
pub proof fn row_pushed<T: Ord>(s: NMostByTransState<T>, r: NMostByTransState<T>, v: T, d: Datum)
    requires wfb(s), s.data@.len() < s.values.capacity, r.values.capacity == s.values.capacity, r.data@ == s.data@.push(d), r.values.heap@ == s.values.heap@.insert((v, s.data@.len() as usize))
    ensures wfb(r), rows(r) == rows(s).insert((v, vx_val(d))), step(rows(s), s.values.capacity as nat, (v, vx_val(d)), rows(r), byrow::<T>())
{
    let w = vals(s);
    assert(wf_by(s, w));
    let p = Seq::new(w.len(), |i: int| (w[i], i as usize));
    p.to_multiset_ensures();
    assert(Seq::new(w.push(v).len(), |i: int| (w.push(v)[i], i as usize)) =~= p.push((v, w.len() as usize)));
    the_vals(r, w.push(v));
    row_seq(w, s.data@).to_multiset_ensures();
    assert(row_seq(w.push(v), r.data@) =~= row_seq(w, s.data@).push((v, vx_val(d))));
}
/// a row takes the place of the greatest
pub proof fn row_replaced<T: Ord>(s: NMostByTransState<T>, r: NMostByTransState<T>, v: T, d: Datum)
    requires wfb(s), s.data@.len() == s.values.capacity, heap_top(s.values.heap), lt(v, s.values.heap.top().0), r.values.capacity == s.values.capacity,
        s.values.heap.top().1 < s.data@.len(), r.data@ == s.data@.update(s.values.heap.top().1 as int, d), r.values.heap@ == s.values.heap@.remove(s.values.heap.top()).insert((v, s.values.heap.top().1))
    ensures wfb(r), step(rows(s), s.values.capacity as nat, (v, vx_val(d)), rows(r), byrow::<T>())
{
    order::<T>();
    pair_order::<T>();
    let w = vals(s);
    let t = s.values.heap.top();
    let k = t.1 as int;
    assert(wf_by(s, w));
    in_pairs(w, t);
    let p = Seq::new(w.len(), |i: int| (w[i], i as usize));
    ms_update(p, k, (v, t.1));
    assert(Seq::new(w.update(k, v).len(), |i: int| (w.update(k, v)[i], i as usize)) =~= p.update(k, (v, t.1)));
    the_vals(r, w.update(k, v));
    let q = row_seq(w, s.data@);
    let nv = (v, vx_val(d));
    ms_update(q, k, nv);
    q.to_multiset_ensures();
    assert(row_seq(w.update(k, v), r.data@) =~= q.update(k, nv));
    let h = rows(s);
    let o = byrow::<T>();
    assert(h.insert(nv).remove(q[k]) =~= h.remove(q[k]).insert(nv));
    assert(h.insert(nv).count(q[k]) > 0);
    assert forall|x: (T, int)| #[trigger] h.insert(nv).count(x) > 0 implies !o(q[k], x) by {
        if x != nv {
            assert(q.contains(x));
            let j = choose|j: int| 0 <= j < q.len() && q[j] == x;
            in_pairs(w, (w[j], j as usize));
            assert(!lt(t, (w[j], j as usize)));
            assert(!lt(t.0, w[j]));
        } else { assert(lt(v, t.0)); if lt(t.0, v) { assert(lt(v, v)); } }
    }
    assert(o(q[k], q[k]) == lt(q[k].0, q[k].0));
}
/// a row that is not less than the greatest is left out
pub proof fn row_left_out<T: Ord>(s: NMostByTransState<T>, v: T, d: int)
    requires wfb(s), s.data@.len() == s.values.capacity, heap_top(s.values.heap), !lt(v, s.values.heap.top().0)
    ensures step(rows(s), s.values.capacity as nat, (v, d), rows(s), byrow::<T>()), forall|x: (T, int)| #[trigger] rows(s).count(x) > 0 ==> !lt(s.values.heap.top().0, x.0)
{
    order::<T>();
    pair_order::<T>();
    let w = vals(s);
    let t = s.values.heap.top();
    let nv = (v, d);
    assert(wf_by(s, w));
    in_pairs(w, t);
    let q = row_seq(w, s.data@);
    q.to_multiset_ensures();
    let h = rows(s);
    let o = byrow::<T>();
    assert(h.insert(nv).remove(nv) =~= h);
    assert(h.insert(nv).count(nv) > 0);
    assert forall|x: (T, int)| #[trigger] rows(s).count(x) > 0 implies !lt(t.0, x.0) by {
        assert(q.contains(x));
        let j = choose|j: int| 0 <= j < q.len() && q[j] == x;
        in_pairs(w, (w[j], j as usize));
        assert(!lt(t, (w[j], j as usize)));
    }
    assert forall|x: (T, int)| #[trigger] h.insert(nv).count(x) > 0 implies !o(nv, x) by {
        if x != nv { assert(h.count(x) > 0); assert(!lt(t.0, x.0)); }
    }
}
pub open spec fn zipped<T>(v: Seq<T>, d: Seq<int>) -> Seq<(T, int)> { Seq::new(v.len(), |i: int| (v[i], d[i])) }
/// applying a function to every element of two rearrangements gives two rearrangements
pub proof fn ms_map<A, B>(p: Seq<A>, q: Seq<A>, f: spec_fn(A) -> B)
    requires p.to_multiset() == q.to_multiset()
    ensures p.map_values(f).to_multiset() == q.map_values(f).to_multiset()
    decreases p.len()
{
    p.to_multiset_ensures();
    q.to_multiset_ensures();
    p.map_values(f).to_multiset_ensures();
    q.map_values(f).to_multiset_ensures();
    assert(p.len() == q.len());
    if p.len() == 0 {
        assert(p =~= q);
    } else {
        let x = p.last();
        assert(p.contains(x)) by { assert(p[p.len() - 1] == x); }
        assert(p.to_multiset().count(x) > 0);
        assert(q.to_multiset().count(x) > 0);
        assert(q.contains(x));
        let k = choose|k: int| 0 <= k < q.len() && q[k] == x;
        let p2 = p.remove(p.len() - 1);
        let q2 = q.remove(k);
        ms_map(p2, q2, f);
        assert(p.map_values(f).remove(p.len() - 1) =~= p2.map_values(f));
        assert(q.map_values(f).remove(k) =~= q2.map_values(f));
        let (a, b) = (p.map_values(f), q.map_values(f));
        assert(a[p.len() - 1] == f(x) && b[k] == f(x));
        assert(a.contains(f(x)) && b.contains(f(x)));
        assert(a.to_multiset() =~= a.to_multiset().remove(f(x)).insert(f(x)));
        assert(b.to_multiset() =~= b.to_multiset().remove(f(x)).insert(f(x)));
    }
}
pub fn vx_replace(v: &mut Vec<Datum>, i: usize, d: Datum) -> (r: Datum)
    ensures i < old(v)@.len(), final(v)@ == old(v)@.update(i as int, d)
{
    if i >= v.len() { vx_refuse() }
    let r = v[i];
    v.set(i, d);
    r
}
pub open spec fn held<T: Ord>(s: NMostTransState<T>) -> bool { s.heap@.len() <= s.capacity && s.capacity > 0 }
pub fn vx_one(d: Datum) -> (r: Vec<Datum>) ensures r@ == seq![d] { let mut v = Vec::new(); v.push(d); assert(v@ =~= seq![d]); v }
pub proof fn new_rows<T: Ord>(s: NMostByTransState<T>, v: T)
    requires s.values.capacity >= 1, s.data@.len() == 1, s.values.heap@ == Multiset::<(T, usize)>::empty().insert((v, 0))
    ensures wfb(s), rows(s) == Multiset::<(T, int)>::empty().insert((v, vx_val(s.data@[0])))
{
    let p = Seq::new(1, |i: int| (seq![v][i], i as usize));
    ms_first(p);
    assert(p.subrange(0, 1) =~= p);
    assert(pairs(seq![v]) == p.to_multiset()) by { assert(Seq::new(seq![v].len(), |i: int| (seq![v][i], i as usize)) =~= p); }
    the_vals(s, seq![v]);
    let q = row_seq(seq![v], s.data@);
    ms_first(q);
    assert(q.subrange(0, 1) =~= q);
}
pub proof fn first_least<T>(x: T, n: nat, o: spec_fn(T, T) -> bool)
    requires n >= 1
    ensures least(Multiset::<T>::empty().insert(x), Multiset::<T>::empty().insert(x), n, o)
{ }
pub proof fn sorted_rows<T: Ord>(s: NMostByTransState<T>, p: Seq<(T, usize)>, v: Seq<T>, ix: Seq<usize>, d: Seq<Datum>)
    requires wfb(s), p.to_multiset() == s.values.heap@, forall|i: int, j: int| 0 <= i <= j < p.len() ==> !lt(p[j], p[i]), v.len() == p.len(), ix.len() == p.len(), d.len() == p.len(),
        forall|i: int| 0 <= i < p.len() ==> v[i] == (#[trigger] p[i]).0 && ix[i] == p[i].1, forall|k: int| 0 <= k < p.len() ==> ix[k] < s.data@.len() && #[trigger] d[k] == s.data@[ix[k] as int]
    ensures ascending(v), zipped(v, Seq::new(d.len(), |i: int| vx_val(d[i]))).to_multiset() == rows(s)
{
    order::<T>();
    pair_order::<T>();
    let w = vals(s);
    assert(wf_by(s, w));
    let q = Seq::new(w.len(), |i: int| (w[i], i as usize));
    let f = |x: (T, usize)| (x.0, vx_val(s.data@[x.1 as int]));
    ms_map(p, q, f);
    assert(q.map_values(f) =~= row_seq(w, s.data@));
    assert(p.map_values(f) =~= zipped(v, Seq::new(d.len(), |i: int| vx_val(d[i]))));
    assert forall|i: int, j: int| 0 <= i <= j < v.len() implies !lt(#[trigger] v[j], #[trigger] v[i]) by { assert(!lt(p[j], p[i])); }
}
"""
IMPL = {}
CMP = (r"\b(val) (<=|>=|<|>) (self\.heap\.peek\(\)\.unwrap\(\))", lambda m: {"<": "vx_lt", ">": "vx_gt", "<=": "vx_le", ">=": "vx_ge"}[m.group(2)] + f"({m.group(1)}, vx_unwrap(self.heap.peek()))")
NM = "impl<T: Ord> NMostTransState<T>"
FROM = "impl<T: Ord + Copy> From<(&[T], usize)> for NMostTransState<T>"
NB = "impl<T: Clone + Ord> NMostByTransState<T>"
FROMB = "impl<T: Ord + Copy> From<(&[T], &DatumStore<'_>, usize)> for NMostByTransState<T>"
INT = (r"Internal::new(?:::<[\w<>]*>)?\((.*?)\)\s*\.to_inner\(\)", r"vx_internal(\1)")
PARTS = [("struct", F, "NMostTransState", "#[verifier::reject_recursive_types(T)]\n"), ("impl", F, NM, ["new", "is_full", "new_entry", "belongs_in_heap"]),
         ("impl", F, FROM, ["from"], "impl<T: Ord + Copy> NMostTransState<T>"), ("fn", F, "nmost_trans_function"), ("fn", F, "nmost_rollup_trans_function"), ("fn", F, "nmost_trans_combine"),
         ("struct", F, "NMostByTransState", "#[verifier::reject_recursive_types(T)]\n"), ("impl", F, NB, ["new", "new_entry", "into_sorted_parts"]),
         ("impl", F, FROMB, ["from"], "impl<T: Ord + Copy> NMostByTransState<T>"), ("fn", F, "nmost_by_trans_function"), ("fn", F, "nmost_by_rollup_trans_function")]
SPECS = {
    NM + "::new": dict(ret="r", clauses="""ensures r.capacity == capacity, capacity >= 1, r.heap@ == Multiset::<T>::empty().insert(first_val),
        least(Multiset::<T>::empty().insert(first_val), r.heap@, capacity as nat, by::<T>())""",
        ghost={"start": "proof { by_weak::<T>(); }"}, rewrite=[]),
    NM + "::is_full": dict(ret="r", clauses="ensures r == (self.heap@.len() == self.capacity)"),
    NM + "::belongs_in_heap": dict(ret="r", clauses="ensures self.heap@.len() > 0, heap_top(self.heap), r == lt(*val, self.heap.top())", rewrite=[CMP]),
    NM + "::new_entry": dict(clauses="""requires old(self).heap@.len() <= old(self).capacity
        ensures final(self).capacity == old(self).capacity, final(self).heap@.len() <= final(self).capacity, step(old(self).heap@, old(self).capacity as nat, new_val, final(self).heap@, by::<T>()),
            old(self).heap@.len() < old(self).capacity ==> final(self).heap@ == old(self).heap@.insert(new_val),
            old(self).heap@.len() == old(self).capacity ==> old(self).heap@.len() > 0 && heap_top(old(self).heap)
                && final(self).heap@ == (if lt(new_val, old(self).heap.top()) { old(self).heap@.remove(old(self).heap.top()).insert(new_val) } else { old(self).heap@ })""",
        ghost={"start": "proof { if heap_top(self.heap) && self.heap@.len() == self.capacity { to_step(self.heap, self.capacity as nat, new_val); } }"}),
    FROM + "::from": dict(ret="r", clauses="ensures held(r), r.capacity == input.1, least(input.0@.to_multiset(), r.heap@, input.1 as nat, by::<T>())",
        rewrite=[(r"vals\[0\]", "*vx_at(vals, 0)"), (r"vals\[1\.\.\]", "vx_tail(vals)")],
        loops={0: """invariant held(state), state.capacity == capacity, vals@.len() >= 1, vxi0.seq() == vals@.drop_first().map(|i: int, x: T| &x) || true, weak(by::<T>()),
            least(vals@.subrange(0, vxi0.index() + 1).to_multiset(), state.heap@, capacity as nat, by::<T>())"""},
        ghost={"start": "proof { by_weak::<T>(); }", "before for ": "proof { ms_first(vals@); }", "lb0": "let ghost h0 = state.heap@; proof { assert(*val == vals@[vxi0.index() + 1]); }",
               "le0": "proof { ms_step(vals@, vxi0.index() + 1); step_least(vals@.subrange(0, vxi0.index() + 1).to_multiset(), h0, capacity as nat, *val, state.heap@, by::<T>()); }",
               "la0": "proof { ms_whole(vals@); }"}),
    "nmost_trans_function": dict(ret="r", clauses="""requires state is Some ==> held(*(state->0))
        ensures r is Some, held(*(r->0)), state is None ==> r->0.capacity == capacity && r->0.heap@ == Multiset::<T>::empty().insert(val),
            state is Some ==> r->0.capacity == state->0.capacity && step(state->0.heap@, state->0.capacity as nat, val, r->0.heap@, by::<T>())""", rewrite=[INT]),
    "nmost_rollup_trans_function": dict(ret="r", attr="#[verifier::exec_allows_no_decreases_clause]\n#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]\n", clauses="""requires state is Some ==> held(*(state->0)), ascending(sorted_vals@)
        ensures r is Some, held(*(r->0)), state is None ==> r->0.capacity == capacity && least(sorted_vals@.to_multiset(), r->0.heap@, capacity as nat, by::<T>()),
            state is Some ==> r->0.capacity == state->0.capacity && gains(state->0.heap@, sorted_vals@.to_multiset(), r->0.heap@, state->0.capacity as nat, by::<T>())""",
        rewrite=[INT, (r"\(sorted_vals, capacity\)\.into\(\)", "NMostTransState::<T>::from((sorted_vals, capacity))")],
        loops={0: """invariant s0 is Some, h == s0->0.heap@, n == s0->0.capacity, n > 0, held(*state), state.capacity == n, ascending(sorted_vals@), weak(by::<T>()), gains(h, sorted_vals@.subrange(0, vxi0.index()).to_multiset(), state.heap@, n as nat, by::<T>())"""},
        ghost={"start": "proof { by_weak::<T>(); } let ghost s0 = state;", "before for ": "let ghost h = s0->0.heap@; let ghost n = s0->0.capacity; proof { ms_none(sorted_vals@); empty_gain(h, n as nat, by::<T>()); }",
               "lb0": "let ghost h0 = state.heap@; proof { ms_step(sorted_vals@, vxi0.index()); }",
               "le0": "proof { gains_step(h, sorted_vals@.subrange(0, vxi0.index()).to_multiset(), h0, n as nat, *val, state.heap@, by::<T>()); }",
               "before return": """proof { order::<T>(); let o = by::<T>(); let t = state.heap.top(); let k = vxi0.index();
                assert(forall|a: T, b: T| #[trigger] o(a, b) == lt(a, b));
                assert forall|q: int| k <= q < sorted_vals@.len() implies !o(#[trigger] sorted_vals@[q], t) by { assert(!lt(sorted_vals@[q], sorted_vals@[k])); assert(!lt(sorted_vals@[k], t)); }
                rest(sorted_vals@, k, t, o);
                gains_skip(h, sorted_vals@.subrange(0, k).to_multiset(), state.heap@, t, sorted_vals@.subrange(k, sorted_vals@.len() as int).to_multiset(), n as nat, o); ms_split(sorted_vals@, k); }""",
               "la0": "proof { ms_whole(sorted_vals@); }"}),
    "nmost_trans_combine": dict(ret="r", clauses="""requires first is Some ==> held(*(first->0)), second is Some ==> held(*(second->0))
        ensures first is None && second is None ==> r is None, first is None && second is Some ==> r == second, first is Some && second is None ==> r == first,
            first is Some && second is Some ==> r is Some && held(*(r->0)) && r->0.capacity == first->0.capacity && gains(first->0.heap@, second->0.heap@, r->0.heap@, first->0.capacity as nat, by::<T>())""",
        rewrite=[INT, (r"(\w+)\.clone\(\)", r"vx_clone(&*\1)"), (r"b\.heap\.iter\(\)", "b.heap.as_vec().iter()")],
        loops={0: """invariant held(a), a.capacity == n, weak(by::<T>()), gains(h, b.heap.vx_order().subrange(0, vxi0.index()).to_multiset(), a.heap@, n as nat, by::<T>())"""},
        ghost={"start": "proof { by_weak::<T>(); }", "before for ": "let ghost h = a.heap@; let ghost n = a.capacity; proof { ms_none(b.heap.vx_order()); empty_gain(h, n as nat, by::<T>()); }",
               "lb0": "let ghost h0 = a.heap@; proof { ms_step(b.heap.vx_order(), vxi0.index()); }",
               "le0": "proof { gains_step(h, b.heap.vx_order().subrange(0, vxi0.index()).to_multiset(), h0, n as nat, *entry, a.heap@, by::<T>()); }",
               "la0": "proof { ms_whole(b.heap.vx_order()); }"}),
    NB + "::new": dict(ret="r", clauses="ensures wfb(r), r.values.capacity == capacity, r.oid == first_element.o, rows(r) == Multiset::<(T, int)>::empty().insert((first_val, vx_val(first_element.d)))",
        rewrite=[(r"data: vec!\[(.*?)\],", r"data: vx_one(\1),"), (r"(?s)NMostByTransState \{(.*)\}\s*\}$", r"let vxr = NMostByTransState {\1}; vxr }")],
        ghost={"before vxr \\}$": "proof { new_rows(vxr, first_val.0); }"}),
    NB + "::new_entry": dict(clauses="""requires wfb(*old(self))
        ensures wfb(*final(self)), final(self).values.capacity == old(self).values.capacity, final(self).oid == old(self).oid, new_element.o == old(self).oid,
            step(rows(*old(self)), old(self).values.capacity as nat, (new_val, vx_val(new_element.d)), rows(*final(self)), byrow::<T>())""",
        rewrite=[(r"new_val\.clone\(\)", "vx_clone(&new_val)"), (r"self\s*\.values\s*\.heap\s*\.peek\(\)\s*\.expect\(\"[^\"]*\"\)", "vx_unwrap(self.values.heap.peek())"),
                 (r"std::mem::replace\(&mut self\.data\[(\w+)\],", r"vx_replace(&mut self.data, \1,")],
        ghost={"start": """let ghost s0 = *self; let ghost c = self.values.capacity;
            proof { order::<T>(); pair_order::<T>(); let w = vals(s0); assert(wf_by(s0, w)); Seq::new(w.len(), |i: int| (w[i], i as usize)).to_multiset_ensures();
                if heap_top(s0.values.heap) { in_pairs(w, s0.values.heap.top()); if s0.data@.len() == c && !lt(new_val, s0.values.heap.top().0) { row_left_out(s0, new_val, vx_val(new_element.d)); } } }""",
               "end": """proof { if s0.data@.len() < c { row_pushed(s0, *self, new_val, self.data@[self.data@.len() - 1]); }
                    else if lt(new_val, s0.values.heap.top().0) { row_replaced(s0, *self, new_val, self.data@[s0.values.heap.top().1 as int]); } }"""}),
    NB + "::into_sorted_parts": dict(ret="r", clauses="""requires wfb(self)
        ensures r.0 == self.values.capacity, ascending(r.1@), r.1@.len() == r.2@.len(), zipped(r.1@, r.2@).to_multiset() == rows(self)""",
        rewrite=[(r"heap\.into_sorted_vec\(\)\.into_iter\(\)\.unzip\(\)", "vx_unzip(vxp)"), (r"(let \(val_ary)", r"let vxp = heap.into_sorted_vec(); \1"), (r"DatumStore::from\(", "vx_store("),
                 (r"in vxi0: idx_ary\b", "in vxi0: idx_ary.iter()"), (r"self\.data\[i\]", "*vx_at(self.data.as_slice(), *i)")],
        loops={0: "invariant mapped_data@.len() == vxi0.index(), forall|k: int| 0 <= k < mapped_data@.len() ==> #[trigger] idx_ary@[k] < self.data@.len() && mapped_data@[k] == self.data@[idx_ary@[k] as int]"},
        ghost={"lb0": "proof { assert(*i == idx_ary@[vxi0.index()]); }", "start": "let ghost s0 = self; proof { assert(wf_by(s0, vals(s0))); }", "la0": "proof { sorted_rows(s0, vxp@, val_ary@, idx_ary@, mapped_data@); }"}),
    FROMB + "::from": dict(ret="r", clauses="ensures wfb(r), r.values.capacity == in_tuple.2, in_tuple.1@.len() >= in_tuple.0@.len(), least(zipped(in_tuple.0@, in_tuple.1@).to_multiset(), rows(r), in_tuple.2 as nat, byrow::<T>())",
        rewrite=[(r"vals\[0\]", "*vx_at(vals_, 0)"), (r"vals\[1\.\.\]", "vx_tail(vals_)"), (r"\(vals, data, capacity\)", "(vals_, data, capacity)"), (r"elements\.next\(\)\.unwrap\(\)", "vx_unwrap(elements.next())"),
                 (r"data\.clone\(\)\.into_anyelement_iter\(\)", "vx_elems(data)")],
        loops={0: """invariant wfb(state), state.values.capacity == capacity, vals_@.len() >= 1, vxi0.index() + 1 <= data@.len(), elements@ == data@.subrange(vxi0.index() + 1, data@.len() as int), weak(byrow::<T>()),
            least(zipped(vals_@, data@).subrange(0, vxi0.index() + 1).to_multiset(), rows(state), capacity as nat, byrow::<T>())"""},
        ghost={"start": "proof { byrow_weak::<T>(); }", "before for ": "proof { ms_first(zipped(vals_@, data@)); first_least((vals_@[0], data@[0]), capacity as nat, byrow::<T>()); assert(wf_by(state, vals(state))); assert(elements@ =~= data@.subrange(1, data@.len() as int)); }",
               "lb0": "let ghost h0 = rows(state); let ghost e0 = elements@; proof { assert(*val == vals_@[vxi0.index() + 1]); }",
               "le0": "proof { let z = zipped(vals_@, data@); let k = vxi0.index() + 1; assert(e0.len() > 0 && e0[0] == data@[k]); assert(z[k] == (*val, data@[k])); ms_step(z, k); step_least(z.subrange(0, k).to_multiset(), h0, capacity as nat, z[k], rows(state), byrow::<T>()); assert(elements@ =~= data@.subrange(k + 1, data@.len() as int)); }",
               "la0": "proof { ms_whole(zipped(vals_@, data@)); }"}),
    "nmost_by_trans_function": dict(ret="r", clauses="""requires state is Some ==> wfb(*(state->0))
        ensures r is Some, wfb(*(r->0)), state is None ==> r->0.values.capacity == capacity && rows(*(r->0)) == Multiset::<(T, int)>::empty().insert((val, vx_val(data.d))),
            state is Some ==> r->0.values.capacity == state->0.values.capacity && step(rows(*(state->0)), state->0.values.capacity as nat, (val, vx_val(data.d)), rows(*(r->0)), byrow::<T>())""", rewrite=[INT]),
    "nmost_by_rollup_trans_function": dict(ret="r", attr="#[verifier::exec_allows_no_decreases_clause]\n#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]\n",
        clauses="""requires state is Some ==> wfb(*(state->0)), ascending(sorted_vals@), sorted_vals@.len() == datum_store@.len()
        ensures r is Some, wfb(*(r->0)), state is None ==> r->0.values.capacity == capacity && least(zipped(sorted_vals@, datum_store@).to_multiset(), rows(*(r->0)), capacity as nat, byrow::<T>()),
            state is Some ==> r->0.values.capacity == state->0.values.capacity && gains(rows(*(state->0)), zipped(sorted_vals@, datum_store@).to_multiset(), rows(*(r->0)), state->0.values.capacity as nat, byrow::<T>())""",
        rewrite=[INT, (r"\(sorted_vals, datum_store, capacity\)\.into\(\)", "NMostByTransState::<T>::from((sorted_vals, datum_store, capacity))"),
                 (r"for \(val, element\) in vxi0:\s*sorted_vals\s*\.iter\(\)\s*\.zip\(datum_store\.clone\(\)\.into_anyelement_iter\(\)\)", "let vxz = vx_zip(sorted_vals, vx_elems(datum_store)); for vxp in vxi0: vxz.iter()")],
        loops={0: """invariant s0 is Some, h == rows(*(s0->0)), n == s0->0.values.capacity, n > 0, wfb(*state), state.values.capacity == n, ascending(sorted_vals@), weak(byrow::<T>()), vxz@.len() == sorted_vals@.len(), z == zipped(sorted_vals@, datum_store@),
            forall|i: int| 0 <= i < vxz@.len() ==> (#[trigger] vxz@[i]).0 == sorted_vals@[i] && vx_val(vxz@[i].1.d) == datum_store@[i],
            gains(h, z.subrange(0, vxi0.index()).to_multiset(), rows(*state), n as nat, byrow::<T>())"""},
        ghost={"start": "proof { byrow_weak::<T>(); } let ghost s0 = state;",
               "before let vxz": "let ghost h = rows(*(s0->0)); let ghost n = s0->0.values.capacity; let ghost z = zipped(sorted_vals@, datum_store@); proof { assert(wf_by(*(s0->0), vals(*(s0->0)))); ms_none(z); empty_gain(h, n as nat, byrow::<T>()); }",
               "lb0": "let val = &vxp.0; let element = vxp.1; let ghost h0 = rows(*state); let ghost k = vxi0.index(); proof { ms_step(z, k); assert(vxz@[k].0 == sorted_vals@[k]); assert(z[k] == (*val, vx_val(element.d))); assert(wf_by(*state, vals(*state))); Seq::new(vals(*state).len(), |i: int| (vals(*state)[i], i as usize)).to_multiset_ensures(); }",
               "le0": "proof { gains_step(h, z.subrange(0, k).to_multiset(), h0, n as nat, z[k], rows(*state), byrow::<T>()); }",
               "before return": """proof { order::<T>(); pair_order::<T>(); let o = byrow::<T>(); let t = state.values.heap.top(); in_pairs(vals(*state), t);
                row_left_out(*state, *val, vx_val(element.d));
                let tr = (t.0, 0int);
                assert forall|q: int| k <= q < z.len() implies !o(#[trigger] z[q], tr) by { assert(!lt(sorted_vals@[q], sorted_vals@[k])); assert(!lt(sorted_vals@[k], t.0)); }
                rest(z, k, tr, o);
                let w = vals(*state);
                row_seq(w, state.data@).to_multiset_ensures();
                assert(rows(*state).len() == n);
                gains_skip(h, z.subrange(0, k).to_multiset(), rows(*state), tr, z.subrange(k, z.len() as int).to_multiset(), n as nat, o); ms_split(z, k); }""",
               "la0": "proof { ms_whole(z); }"}),
}
