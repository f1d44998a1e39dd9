import tv
T = tv.T
P = "extension/src/time_vector/pipeline/"
L = "extension/src/time_vector/pipeline.rs"
FLOATS = True
ASSUMED = tv.ASSUMED + ["sort_by_key (std) is a stable sort", "what one pipeline element does depends on the timevector and that element only",  "what a lambda gives for a point depends on that point only (the executor is reset for every point)", "in_aggregate_context runs its closure once and returns its result"]
USES = "use Function::*;"
PRELUDE = tv.PRELUDE + r"""
#[derive(Clone, Copy)]
pub struct FunctionCallInfo { pub f: u64 }
#[derive(Clone, Copy)]
pub struct TimestampTz { pub t: i64 }
impl TimestampTz { pub fn us(self) -> (r: i64) ensures r == self.t { self.t } pub fn from(t: i64) -> (r: Self) ensures r.t == t { TimestampTz { t } } }
pub uninterp spec fn fnan_value() -> Fl;
#[verifier::external_body]
pub fn vx_nan() -> (r: Fl) ensures r == fnan_value() { unimplemented!() }
impl Timevector_TSTZ_F64 {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: VxPts) ensures r@ == self.points@ { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VxPts) ensures r@ == self.points@ { unimplemented!() }
}
/// points still to come
pub struct VxPts { pub v: Vec<TSPoint>, pub i: usize }
impl VxPts {
    pub open spec fn view(&self) -> Seq<TSPoint> { if self.i <= self.v@.len() { self.v@.subrange(self.i as int, self.v@.len() as int) } else { Seq::empty() } }
    pub fn next(&mut self) -> (r: Option<TSPoint>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first()
    { if self.i < self.v.len() { let p = self.v[self.i]; self.i += 1; proof { assert(self@ =~= old(self)@.drop_first()); } Some(p) } else { None } }
    pub fn peek(&mut self) -> (r: Option<&TSPoint>)
        ensures final(self)@ == old(self)@, old(self)@.len() == 0 ==> r is None, old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0]
    { if self.i < self.v.len() { Some(&self.v[self.i]) } else { None } }
    pub fn peekable(self) -> (r: Self) ensures r@ == self@ { self }
}
#[verifier::external_body]
pub fn vx_extend<T: Copy>(v: &mut Vec<T>, s: &VxSlice<T>) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_rest(it: VxPts) -> (r: Vec<TSPoint>) ensures r@ == it@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_chain(a: VxPts, b: VxPts) -> (r: Vec<TSPoint>) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_chain_vec(a: VxPts, b: Vec<TSPoint>) -> (r: Vec<TSPoint>) ensures r@ == a@ + b@ { unimplemented!() }
pub fn vx_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ {
    let mut v: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    while i < s.len() invariant i <= s.len(), v@ == s@.subrange(0, i as int) decreases s.len() - i { v.push(s[i]); i += 1; }
    v
}
pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { let mut r: Vec<T> = Vec::new(); r.append(v); r }
pub open spec fn upto(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| i) }
/// p is the order in which a stable sort by time takes s
pub open spec fn stable(s: Seq<TSPoint>, p: Seq<int>) -> bool {
    &&& p.len() == s.len() && p.no_duplicates()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < s.len()
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> s[#[trigger] p[i]].ts < s[#[trigger] p[j]].ts || (s[p[i]].ts == s[p[j]].ts && p[i] < p[j])
}
pub open spec fn taken<T>(s: Seq<T>, p: Seq<int>) -> Seq<T> { Seq::new(p.len(), |i: int| s[p[i]]) }
/// any order by time
pub open spec fn ordered(s: Seq<TSPoint>, p: Seq<int>) -> bool {
    &&& p.len() == s.len() && p.no_duplicates()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < s.len()
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> s[#[trigger] p[i]].ts <= s[#[trigger] p[j]].ts
}
#[verifier::external_body]
pub fn vx_sort_unstable(v: &mut Vec<TSPoint>) ensures exists|p: Seq<int>| #[trigger] ordered(old(v)@, p) && final(v)@ == taken(old(v)@, p) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sort_pairs_unstable(v: &mut Vec<(usize, TSPoint)>) ensures exists|p: Seq<int>| #[trigger] ordered(second(old(v)@), p) && final(v)@ == taken(old(v)@, p) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<TSPoint>) ensures exists|p: Seq<int>| #[trigger] stable(old(v)@, p) && final(v)@ == taken(old(v)@, p) { unimplemented!() }
#[verifier::external_body]
pub fn vx_enumerate(v: Vec<TSPoint>) -> (r: Vec<(usize, TSPoint)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, v@[i]) { unimplemented!() }
pub open spec fn second(s: Seq<(usize, TSPoint)>) -> Seq<TSPoint> { Seq::new(s.len(), |i: int| s[i].1) }
#[verifier::external_body]
pub fn vx_sort_pairs(v: &mut Vec<(usize, TSPoint)>) ensures exists|p: Seq<int>| #[trigger] stable(second(old(v)@), p) && final(v)@ == taken(old(v)@, p) { unimplemented!() }
pub proof fn order_of(s: Seq<TSPoint>, p: Seq<int>) requires stable(s, p) ensures sorted(taken(s, p)) { }
pub fn vx_is_sorted(v: &[TSPoint]) -> (r: bool) ensures r == sorted(v@) {
    let mut i: usize = 1;
    while i < v.len()
        invariant 1 <= i, forall|a: int, b: int| 0 <= a <= b < i && b < v@.len() ==> (#[trigger] v@[a]).ts <= (#[trigger] v@[b]).ts
        decreases v.len() - i
    {
        if v[i].ts < v[i - 1].ts { proof { let (a, b) = (v@[i - 1], v@[i as int]); } return false; }
        proof { assert forall|a: int, b: int| 0 <= a <= b < i + 1 implies (#[trigger] v@[a]).ts <= (#[trigger] v@[b]).ts by { if b == i && a < i { assert(v@[a].ts <= v@[i - 1].ts); } } }
        i += 1;
    }
    true
}
/// setting one bit
pub proof fn set_bit(b: Seq<u8>, i: int)
    requires 0 <= i < 8 * b.len()
    ensures ({ let c = b.update(i / 8, b[i / 8] | (1u8 << ((i % 8) as u8))); c.len() == b.len() && forall|k: int| 0 <= k < 8 * b.len() ==> #[trigger] bit(c, k) == (k == i || bit(b, k)) })
{
    let c = b.update(i / 8, b[i / 8] | (1u8 << ((i % 8) as u8)));
    assert forall|k: int| 0 <= k < 8 * b.len() implies #[trigger] bit(c, k) == (k == i || bit(b, k)) by {
        let (x, j, l) = (b[i / 8], (i % 8) as u8, (k % 8) as u8);
        if k / 8 == i / 8 { assert((x | (1u8 << j)) & (1u8 << l) != 0 <==> (l == j || x & (1u8 << l) != 0)) by (bit_vector) requires j < 8, l < 8; }
    }
}
/// one more byte without marks
pub proof fn more_bits(b: Seq<u8>)
    ensures forall|k: int| 0 <= k < 8 * (b.len() + 1) ==> #[trigger] bit(b.push(0u8), k) == (k < 8 * b.len() && bit(b, k))
{
    assert forall|k: int| 0 <= k < 8 * (b.len() + 1) implies #[trigger] bit(b.push(0u8), k) == (k < 8 * b.len() && bit(b, k)) by { let l = (k % 8) as u8; assert(0u8 & (1u8 << l) == 0u8) by (bit_vector); }
}
pub proof fn flag_bits(f: u8, g: u8)
    ensures (f ^ 1) & 1 == 0 <==> f & 1 != 0, (f ^ 1) & 2 == f & 2, (f | 2) & 2 != 0, (f | 2) & 1 == f & 1, (f | 1) & 1 != 0, (f | 1) & 2 == f & 2, 1u8 << 1 == 2u8, 1u8 & 1 != 0, 1u8 & 2 == 0,
        (f & !1) & 1 == 0, (f & !1) & 2 == f & 2, (f & !2) & 2 == 0, (f & !2) & 1 == f & 1,
        ((f & 2) | (g & 2)) & 1 == 0, ((f & 2) | (g & 2)) & 2 != 0 <==> f & 2 != 0 || g & 2 != 0, (((f & 2) | (g & 2)) | 1) & 2 == ((f & 2) | (g & 2)) & 2, (((f & 2) | (g & 2)) | 1) & 1 != 0
{
    assert(((f ^ 1) & 1 == 0 <==> f & 1 != 0) && (f ^ 1) & 2 == f & 2 && (f | 2) & 2 != 0 && (f | 2) & 1 == f & 1 && (f | 1) & 1 != 0 && (f | 1) & 2 == f & 2 && 1u8 << 1 == 2u8 && 1u8 & 1 != 0 && 1u8 & 2 == 0) by (bit_vector);
    assert((f & !1) & 1 == 0 && (f & !1) & 2 == f & 2 && (f & !2) & 2 == 0 && (f & !2) & 1 == f & 1) by (bit_vector);
    assert(((f & 2) | (g & 2)) & 1 == 0 && (((f & 2) | (g & 2)) & 2 != 0 <==> f & 2 != 0 || g & 2 != 0) && (((f & 2) | (g & 2)) | 1) & 2 == ((f & 2) | (g & 2)) & 2 && (((f & 2) | (g & 2)) | 1) & 1 != 0) by (bit_vector);
}
pub open spec fn trans_points(s: Option<Box<Timevector_TSTZ_F64>>) -> Seq<TSPoint> { match s { None => Seq::empty(), Some(t) => t.points@ } }
pub open spec fn trans_nulls(s: Option<Box<Timevector_TSTZ_F64>>) -> Seq<bool> { match s { None => Seq::empty(), Some(t) => t.nulls() } }
/// two timevectors one after the other
pub open spec fn joined(a: Timevector_TSTZ_F64, b: Timevector_TSTZ_F64, r: Timevector_TSTZ_F64) -> bool { r.wf() && r.points@ == a.points@ + b.points@ && r.nulls() == a.nulls() + b.nulls() && (a.flags & 1 != 0 && b.flags & 1 != 0 && sorted(r.points@) ==> r.flags & 1 != 0) }

pub proof fn resized(a: Seq<u8>, b: Seq<u8>)
    requires a.len() <= b.len(), forall|k: int| 0 <= k < a.len() ==> b[k] == a[k], forall|k: int| a.len() <= k < b.len() ==> b[k] == 0u8
    ensures forall|k: int| 0 <= k < 8 * b.len() ==> #[trigger] bit(b, k) == (k < 8 * a.len() && bit(a, k))
{
    assert forall|k: int| 0 <= k < 8 * b.len() implies #[trigger] bit(b, k) == (k < 8 * a.len() && bit(a, k)) by { let l = (k % 8) as u8; assert(0u8 & (1u8 << l) == 0u8) by (bit_vector); if k < 8 * a.len() { assert(b[k / 8] == a[k / 8]); } else { assert(b[k / 8] == 0u8); } }
}
pub open spec fn marks(a: Timevector_TSTZ_F64, b: Timevector_TSTZ_F64, v: Seq<u8>) -> bool {
    v.len() == (a.num_points + b.num_points + 7) / 8 && forall|k: int| 0 <= k < 8 * v.len() ==> #[trigger] bit(v, k) == if k < a.num_points { bit(a.null_val@, k) } else { bit(b.null_val@, k - a.num_points) && k - a.num_points < b.num_points }
}
pub proof fn join(a: Timevector_TSTZ_F64, b: Timevector_TSTZ_F64, p: Seq<TSPoint>, v: Seq<u8>, so: bool, f: u8)
    requires a.wf(), b.wf(), a.num_points > 0, b.num_points > 0, p == a.points@ + b.points@, v.len() == (p.len() + 7) / 8,
        f == if so { ((a.flags & 2) | (b.flags & 2)) | 1 } else { (a.flags & 2) | (b.flags & 2) },
        so == (a.flags & 1 != 0 && b.flags & 1 != 0 && a.points@.last().ts <= b.points@[0].ts),
        if f & 2 == 0 { forall|k: int| 0 <= k < 8 * v.len() ==> !#[trigger] bit(v, k) } else { marks(a, b, v) }
    ensures marks(a, b, v), f & 1 != 0 ==> sorted(p), a.flags & 1 != 0 && b.flags & 1 != 0 && sorted(p) ==> f & 1 != 0, forall|k: int| 0 <= k < 8 * v.len() && #[trigger] bit(v, k) ==> k < p.len() && f & 2 != 0,
        Seq::new(p.len(), |i: int| bit(v, i)) =~= a.nulls() + b.nulls()
{
    flag_bits(a.flags, b.flags);
    let n = a.num_points as int;
    if so { assert forall|i: int, j: int| 0 <= i <= j < p.len() implies (#[trigger] p[i]).ts <= (#[trigger] p[j]).ts by {
        if j < n { assert(a.points@[i].ts <= a.points@[j].ts); } else if i >= n { assert(b.points@[i - n].ts <= b.points@[j - n].ts); }
        else { assert(a.points@[i].ts <= a.points@[n - 1].ts); assert(b.points@[0].ts <= b.points@[j - n].ts); }
    } } else if sorted(p) { assert(p[n - 1].ts <= p[n].ts); }
}

pub open spec fn same_marks(s: Timevector_TSTZ_F64, p: Seq<int>, v: Seq<u8>, n: int) -> bool { forall|k: int| 0 <= k < 8 * v.len() ==> #[trigger] bit(v, k) == (k < n && k < p.len() && bit(s.null_val@, p[k])) }
/// r is s in time order, points with equal times in the order they had
pub open spec fn time_ordered(s: Timevector_TSTZ_F64, r: Timevector_TSTZ_F64) -> bool { exists|p: Seq<int>| #[trigger] stable(s.points@, p) && r.points@ == taken(s.points@, p) && r.nulls() == taken(s.nulls(), p) }
pub proof fn in_place(s: Seq<TSPoint>)
    requires sorted(s)
    ensures stable(s, upto(s.len() as int)), taken(s, upto(s.len() as int)) =~= s
{ }
pub proof fn no_marks(s: Timevector_TSTZ_F64)
    requires s.wf(), s.flags & 2 == 0
    ensures forall|i: int| 0 <= i < s.num_points ==> !(#[trigger] bit(s.null_val@, i))
{ assert forall|i: int| 0 <= i < s.num_points implies !(#[trigger] bit(s.null_val@, i)) by { assert(0 <= i < 8 * s.null_val@.len()); } }
pub proof fn sorted_up(s: Timevector_TSTZ_F64, p: Seq<int>, r: Timevector_TSTZ_F64)
    requires s.wf(), stable(s.points@, p), r.num_points == s.num_points, r.points@.len() == s.num_points, forall|i: int| 0 <= i < r.points@.len() ==> #[trigger] r.points@[i] == s.points@[p[i]], same_marks(s, p, r.null_val@, s.num_points as int),
        r.null_val@.len() == (s.num_points + 7) / 8, r.flags == s.flags | 1
    ensures r.wf(), time_ordered(s, r)
{
    flag_bits(s.flags, 0);
    order_of(s.points@, p);
    assert(r.points@ =~= taken(s.points@, p));
    assert(r.nulls() =~= taken(s.nulls(), p)) by { assert forall|i: int| 0 <= i < r.num_points implies #[trigger] r.nulls()[i] == taken(s.nulls(), p)[i] by { assert(0 <= p[i] < s.num_points); assert(bit(r.null_val@, i) == bit(s.null_val@, p[i])); assert(s.nulls()[p[i]] == bit(s.null_val@, p[i])); } }
    assert forall|i: int| 0 <= i < 8 * r.null_val@.len() && #[trigger] bit(r.null_val@, i) implies i < r.num_points && r.flags & 2 != 0 by { assert(bit(s.null_val@, p[i])); assert(0 <= p[i] < s.num_points); }
}
pub open spec fn deltas(s: Seq<TSPoint>) -> Seq<TSPoint> { Seq::new(if s.len() == 0 { 0 } else { (s.len() - 1) as nat }, |i: int| TSPoint { ts: s[i + 1].ts, val: fsub(s[i + 1].val, s[i].val) }) }
pub open spec fn filled(m: FillToMethod, a: TSPoint, b: TSPoint, t: int) -> TSPoint {
    TSPoint { ts: t as i64, val: match m {
        FillToMethod::Locf => a.val,
        FillToMethod::Nearest => if b.ts - t >= t - a.ts { a.val } else { b.val },
        FillToMethod::Interpolate => fadd(fmul(a.val, fsub(flit(1, ""@), fdiv(fint(t - a.ts), fint(b.ts - a.ts)))), fmul(b.val, fsub(flit(1, ""@), fdiv(fint(b.ts - t), fint(b.ts - a.ts))))) } }
}
/// the points filled in between a and b, before time t
pub open spec fn fills(m: FillToMethod, a: TSPoint, b: TSPoint, d: int, k: nat) -> Seq<TSPoint> decreases k { if k == 0 { Seq::empty() } else { fills(m, a, b, d, (k - 1) as nat).push(filled(m, a, b, a.ts + k * d)) } }
/// how many fit in: a + k d < b
pub open spec fn fit(a: int, b: int, d: int, k: nat) -> bool { (k == 0 || a + k * d < b) && b <= a + (k + 1) * d }
pub open spec fn fills_upto(m: FillToMethod, s: Seq<TSPoint>, d: int, i: nat, r: Seq<TSPoint>) -> bool decreases i {
    if i == 0 { r.len() == 0 } else { exists|c: int, k: nat| #[trigger] at2(c, k) && 0 <= c <= r.len() && fills_upto(m, s, d, (i - 1) as nat, r.subrange(0, c)) && fit(s[i - 1].ts as int, s[i as int].ts as int, d, k) && r.subrange(c, r.len() as int) == fills(m, s[i - 1], s[i as int], d, k) }
}
pub open spec fn at2(c: int, k: nat) -> bool { true }
/// the values of f kept from the first n
pub open spec fn keep<T>(s: Seq<T>, y: Seq<bool>, n: int) -> Seq<T> decreases n { if n <= 0 { Seq::empty() } else if y[n - 1] { keep(s, y, n - 1).push(s[n - 1]) } else { keep(s, y, n - 1) } }
pub proof fn keep_len<T>(s: Seq<T>, y: Seq<bool>, n: int) requires 0 <= n <= s.len(), y.len() == s.len() ensures keep(s, y, n).len() <= n decreases n { if n > 0 { keep_len(s, y, n - 1); } }
pub proof fn keep_sorted(s: Seq<TSPoint>, y: Seq<bool>, n: int)
    requires sorted(s), 0 <= n <= s.len(), y.len() == s.len()
    ensures sorted(keep(s, y, n)), keep(s, y, n).len() <= n, keep(s, y, n).len() > 0 ==> n > 0 && keep(s, y, n).last().ts <= s[n - 1].ts
    decreases n
{
    if n > 0 {
        keep_sorted(s, y, n - 1);
        let q = keep(s, y, n - 1);
        if n > 1 { assert(s[n - 2].ts <= s[n - 1].ts); }
        if y[n - 1] { let r = q.push(s[n - 1]); assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).ts <= (#[trigger] r[j]).ts by { if j < q.len() { assert(q[i].ts <= q[j].ts); } else if i < q.len() { assert(q[i].ts <= q[q.len() - 1].ts); } } }
    }
}
pub enum Element { FillTo { interval: i64, fill_method: FillToMethod }, Other }
/// what fill_to gives: the points filled in, merged with the points by time
pub open spec fn filled_in(s: Timevector_TSTZ_F64, m: FillToMethod, d: int, r: Timevector_TSTZ_F64) -> bool {
    exists|f: Seq<TSPoint>, p: Seq<int>| fills_upto(m, s.points@, d, gaps(s.points@), f) && #[trigger] stable(s.points@ + f, p) && r.points@ == taken(s.points@ + f, p)
}
pub open spec fn gaps(s: Seq<TSPoint>) -> nat { if s.len() == 0 { 0 } else { (s.len() - 1) as nat } }
pub proof fn fills_len(m: FillToMethod, a: TSPoint, b: TSPoint, d: int, k: nat) ensures fills(m, a, b, d, k).len() == k decreases k { if k > 0 { fills_len(m, a, b, d, (k - 1) as nat); } }
pub proof fn more_fills(m: FillToMethod, s: Seq<TSPoint>, d: int, i: nat, r: Seq<TSPoint>, k: nat)
    requires fills_upto(m, s, d, i, r), i + 1 < s.len(), fit(s[i as int].ts as int, s[i as int + 1].ts as int, d, k)
    ensures fills_upto(m, s, d, i + 1, r + fills(m, s[i as int], s[i as int + 1], d, k))
{
    let f = fills(m, s[i as int], s[i as int + 1], d, k);
    let x = r + f;
    assert(at2(r.len() as int, k));
    assert(x.subrange(0, r.len() as int) =~= r);
    assert(x.subrange(r.len() as int, x.len() as int) =~= f);
}
pub open spec fn dated(s: Seq<TSPoint>) -> bool { forall|i: int| 0 <= i < s.len() ==> -0x1000_0000_0000_0000 <= (#[trigger] s[i]).ts <= 0x1000_0000_0000_0000 }
pub proof fn fill_done(s: Timevector_TSTZ_F64, f: Seq<TSPoint>, p: Seq<int>, r: Timevector_TSTZ_F64)
    requires s.wf(), stable(s.points@ + f, p), r.points@ == taken(s.points@ + f, p), r.null_val@.len() == (r.points@.len() + 7) / 8, forall|i: int| 0 <= i < 8 * r.null_val@.len() ==> !#[trigger] bit(r.null_val@, i), r.num_points == r.points@.len() as u32
    ensures r.points@.len() <= u32::MAX ==> r.wf()
{ order_of(s.points@ + f, p); }
/// a function of points
#[verifier::external_body]
pub struct VxPred { x: u8 }
impl VxPred {
    pub uninterp spec fn yes(&self, p: TSPoint) -> bool;
    #[verifier::external_body]
    pub fn call(&self, t: i64, v: Fl) -> (r: bool) ensures r == self.yes(TSPoint { ts: t, val: v }) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxMap { x: u8 }
impl VxMap {
    pub uninterp spec fn gives(&self, p: TSPoint) -> (Option<i64>, Option<Fl>);
    #[verifier::external_body]
    pub fn call(&self, t: i64, v: Fl) -> (r: (Option<i64>, Option<Fl>)) ensures r == self.gives(TSPoint { ts: t, val: v }) { unimplemented!() }
}
/// a function of values
#[verifier::external_body]
pub struct VxVal { x: u8 }
impl VxVal {
    pub uninterp spec fn gives(&self, v: Fl) -> Fl;
    #[verifier::external_body]
    pub fn call(&self, v: Fl) -> (r: Fl) ensures r == self.gives(v) { unimplemented!() }
}
/// |lhs| vx_table(function, lhs, rhs)
#[verifier::external_body]
pub fn vx_partial(f: Function, rhs: Fl) -> (r: VxVal) ensures forall|v: Fl| #[trigger] r.gives(v) == arith(f, v, rhs) { unimplemented!() }
pub open spec fn arith(f: Function, a: Fl, b: Fl) -> Fl {
    match f {
        Function::Add => fadd(a, b), Function::Sub => fsub(a, b), Function::Mul => fmul(a, b), Function::Div => fdiv(a, b), Function::Mod => frem(a, b), Function::Power => fpowf(a, b), Function::LogN => flog(a, b),
        Function::Abs => fabs(a), Function::Cbrt => fcbrt(a), Function::Ceil => fceil(a), Function::Floor => ffloor(a), Function::Ln => fln(a), Function::Log10 => flog10(a), Function::Round => fround(a), Function::Sign => fsignum(a), Function::Sqrt => fsqrt(a), Function::Trunc => ftruncate(a),
    }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VxElement { x: u8 }
pub struct UnstableTimevectorPipeline { pub num_elements: u64, pub elements: VxSlice<VxElement> }
/// what one element does
pub uninterp spec fn does(t: Timevector_TSTZ_F64, e: VxElement) -> Timevector_TSTZ_F64;
#[verifier::external_body]
pub fn execute_pipeline_element(t: Timevector_TSTZ_F64, e: &VxElement) -> (r: Timevector_TSTZ_F64) ensures r == does(t, *e) { unimplemented!() }
pub open spec fn runs(t: Timevector_TSTZ_F64, e: Seq<VxElement>) -> Timevector_TSTZ_F64 decreases e.len() { if e.len() == 0 { t } else { does(runs(t, e.drop_last()), e.last()) } }
/// two pipelines one after the other are one pipeline
pub proof fn one_pipeline(t: Timevector_TSTZ_F64, a: Seq<VxElement>, b: Seq<VxElement>)
    ensures runs(t, a + b) == runs(runs(t, a), b)
    decreases b.len()
{ if b.len() > 0 { one_pipeline(t, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); } }
pub open spec fn yeses(f: VxPred, s: Seq<TSPoint>) -> Seq<bool> { Seq::new(s.len(), |i: int| f.yes(s[i])) }
pub open spec fn mapped(f: VxMap, only_val: bool, p: TSPoint) -> TSPoint { let (t, v) = f.gives(p); TSPoint { ts: if only_val || t is None { p.ts } else { t->0 }, val: if v is None { p.val } else { v->0 } } }
/// the value of the latest point at or before t
pub open spec fn latest(s: Seq<TSPoint>, t: int, r: Option<Fl>) -> bool {
    if s[0].ts > t { r is None } else { exists|m: int| 0 <= m < s.len() && (#[trigger] s[m]).ts <= t && (m + 1 == s.len() || s[m + 1].ts > t) && r == Some(s[m].val) }
}
pub struct VxPairs { pub p: VxPts }
impl VxPairs {
    pub open spec fn view(&self) -> Seq<TSPoint> { self.p@ }
    pub fn next(&mut self) -> (r: Option<(i64, Fl)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some((old(self)@[0].ts, old(self)@[0].val)) && final(self)@ == old(self)@.drop_first()
    { match self.p.next() { Some(x) => Some((x.ts, x.val)), None => None } }
    pub fn vx_peek(&mut self) -> (r: Option<(i64, Fl)>)
        ensures final(self)@ == old(self)@, old(self)@.len() == 0 ==> r is None, old(self)@.len() > 0 ==> r == Some((old(self)@[0].ts, old(self)@[0].val))
    { match self.p.peek() { Some(x) => Some((x.ts, x.val)), None => None } }
}
pub fn vx_pairs(p: VxPts) -> (r: VxPairs) ensures r@ == p@ { VxPairs { p } }
#[verifier::external_body]
pub fn vx_pair_vec(p: VxPts) -> (r: Vec<(i64, Fl)>) ensures r@.len() == p@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (p@[i].ts, p@[i].val) { unimplemented!() }
"""
RENAME = tv.RENAME + [(r"mut func: impl FnMut\(Fl\) -> Fl", "func: VxVal"), (r"impl Iterator<Item = Element<'j>> \+ 'i", "Vec<VxElement>"), (r"toolkit_experimental::UnstableTimevectorPipeline\b", "UnstableTimevectorPipeline"),
   (r"toolkit_experimental::Element", "Element"), (r"mut func: impl FnMut\(i64, Fl\) -> bool", "func: VxPred"), (r"mut func: impl FnMut\(i64, Fl\) -> \(Option<i64>, Option<Fl>\)", "func: VxMap"),
   (r"TableIterator<\s*'a,[^{]*?TimestampTz\),\s*\),\s*>", "Vec<(Option<Fl>, Fl, TimestampTz)>"),
   (r"\bInner<", "Box<"), (r"\bInner::from\(", "Box::new("), (r"\bcrate::raw::TimestampTz\b", "TimestampTz"), (r"\bpg_sys::TimestampTz\b", "i64"), (r"\bpg_sys::FunctionCallInfo\b", "FunctionCallInfo"), (r"\bFl::NAN\b|\bf64::NAN\b", "vx_nan()"),
   (r"<'\w+(?:, '\w+)*>", "")]
PARTS = tv.PARTS + [("impl", T, tv.IMPL, ["num_points", "get", "is_sorted", "has_nulls", "is_null_val"], "impl Timevector_TSTZ_F64"), ("impl", T, "impl<'a> Timevector_TSTZ_F64<'a>", ["num_vals"], "impl Timevector_TSTZ_F64"),
    ("fn", T, "timevector_trans_inner"), ("fn", T, "combine"), ("fn", T, "inner_combine"), ("fn", T, "inner_compound_trans"),
    ("fn", P + "sort.rs", "sort_timevector"), ("fn", P + "delta.rs", "timevector_delta"), ("enum", P + "fill_to.rs", "FillToMethod"), ("impl", P + "fill_to.rs", "impl FillToMethod", ["fill_point"]), ("fn", P + "fill_to.rs", "fill_to"),
    ("fn", P + "map.rs", "map_series"), ("enum", P + "arithmetic.rs", "Function"), ("fn", P + "arithmetic.rs", "apply"), ("fn", L, "arrow_add_unstable_element"), ("fn", L, "run_pipeline_elements"),
    ("fn", P + "filter.rs", "filter_lambda_over_series"), ("fn", P + "map.rs", "map_lambda_over_series"), ("fn", T, "asof_join")]
SPECS = dict(tv.SPECS)
SPECS["is_null_val"] = dict(ret="r", clauses="requires self.null_val@.len() == (self.num_points + 7) / 8 ensures index < self.num_points, r == self.null(index as int)")
SPECS["num_vals"] = dict(ret="r", clauses="ensures r == self.num_points")
SPECS["timevector_trans_inner"] = dict(ret="r", clauses="""requires state is Some ==> state->0.wf() && state->0.num_points < u32::MAX
        ensures time is None ==> r == state,
            time is Some ==> r is Some && r->0.wf() && r->0.points@ == trans_points(state).push(TSPoint { ts: time->0.t, val: match value { Some(v) => v, None => fnan_value() } }) && r->0.nulls() == trans_nulls(state).push(value is None)
                && (state is Some && state->0.flags & 1 == 0 ==> r->0.flags & 1 == 0) && ((state is None || state->0.flags & 1 != 0) && sorted(r->0.points@) ==> r->0.flags & 1 != 0)""",
    rewrite=[(r"time\.into\(\)", "time.us()"), (r"if let Some\(last_point\) = (state\.points\.as_slice\(\)\.last\(\))\s*&&([^{]*)\{([^}]*)\}", r"if let Some(last_point) = \1 { if \2 { \3 } }"),
             (r"build! (\{\s*Timevector_TSTZ_F64 \{[^}]*\}\s*\})", r"\1"), (r"\bVec::new\(\)\.into\(\)", "vx_slice(Vec::new())")],
    ghost={"start": "let ghost vxin = state; proof { flag_bits(0, 0); }",
           r"before if let Some\(last_point\)": "let ghost s0 = *state; proof { assert(s0.wf()); assert(s0.points@ =~= trans_points(vxin)); assert(s0.nulls() =~= trans_nulls(vxin)); flag_bits(s0.flags, 0); }",
           r"before match value": "let ghost s1 = *state; proof { more_bits(s0.null_val@); flag_bits(s1.flags, 0); }",
           "end": ""})
TR = SPECS["timevector_trans_inner"]
TR["ghost"].pop("end")
TR["ghost"][r"before state\.num_points \+= 1"] = """proof {
        let n = s0.num_points as int;
        flag_bits(state.flags, 0);
        assert(forall|k: int| 0 <= k < 8 * s1.null_val@.len() ==> #[trigger] bit(s1.null_val@, k) == (k < 8 * s0.null_val@.len() && bit(s0.null_val@, k)));
        if value is None { set_bit(s1.null_val@, n); assert(state.null_val@ =~= s1.null_val@.update(n / 8, s1.null_val@[n / 8] | (1u8 << ((n % 8) as u8)))); }
        else { assert(state.null_val@ == s1.null_val@); }
        assert(state.points@ == s0.points@.push(TSPoint { ts: time, val: match value { Some(v) => v, None => fnan_value() } }));
        assert(forall|k: int| 0 <= k < 8 * s1.null_val@.len() ==> #[trigger] bit(state.null_val@, k) == ((k == n && value is None) || (k < n && bit(s0.null_val@, k))));
        if s0.points@.len() > 0 { let (a, b) = (s0.points@.len() - 1, s0.points@.len() as int); assert(state.points@[a] == s0.points@.last() && state.points@[b].ts == time); }
    }"""
TR["ghost"][r"before Some\(state\)\s*\}\s*\}\s*$"] = """proof { assert(state.nulls() =~= trans_nulls(vxin).push(value is None)) by { assert(forall|k: int| 0 <= k < s0.num_points ==> bit(state.null_val@, k) == #[trigger] s0.nulls()[k]); }
        assert(state.flags & 1 != 0 ==> sorted(state.points@)) by { if state.flags & 1 != 0 { assert forall|i: int, j: int| 0 <= i <= j < state.points@.len() implies (#[trigger] state.points@[i]).ts <= (#[trigger] state.points@[j]).ts by { let n = s0.points@.len() as int; if j < n { assert(s0.points@[i].ts <= s0.points@[j].ts); } else if i < n { assert(s0.points@[i].ts <= s0.points@[n - 1].ts); } } } } }"""
SPECS["combine"] = dict(ret="r", clauses="""requires first.wf(), second.wf(), first.num_points + second.num_points <= u32::MAX ensures joined(first, second, r)""",
    rewrite=[(r"build! \{\s*(Timevector_TSTZ_F64 \{[^}]*\})\s*\}", r"let vxres = \1; proof { assert(vxres.points@ == vxp && vxres.null_val@ == vxn); assert(vxres.nulls() =~= Seq::new(vxp.len(), |i: int| bit(vxn, i))); assert(vxres.wf()); } vxres"), (r"let points: Vec<_> = first\.iter\(\)\.chain\(second\.iter\(\)\)\.collect\(\)", "let points: Vec<TSPoint> = vx_chain(first.iter(), second.iter())"),
             (r"first\.null_val\.as_slice\(\)\.to_vec\(\)", "vx_to_vec(first.null_val.as_slice())"), (r"points\.len\(\) as _", "points.len() as u32"), (r"(points|null_val): (\w+)\.into\(\)", r"\1: vx_slice(\2)")],
    loops={0: """invariant first.wf(), second.wf(), first.num_points + second.num_points <= u32::MAX, vxi0.seq().len() == second.num_points, v@.len() == (first.num_points + second.num_points + 7) / 8,
                forall|k: int| 0 <= k < 8 * v@.len() ==> #[trigger] bit(v@, k) == if k < first.num_points { bit(first.null_val@, k) } else { k - first.num_points < i && bit(second.null_val@, k - first.num_points) }"""},
    ghost={"start": "proof { flag_bits(first.flags, second.flags); assert(first.points@ + second.points@ =~= second.points@ || first.num_points > 0); assert(first.points@ + second.points@ =~= first.points@ || second.num_points > 0); assert(first.nulls() + second.nulls() =~= second.nulls() || first.num_points > 0); assert(first.nulls() + second.nulls() =~= first.nulls() || second.num_points > 0); }",
           r"after v\.resize\([^;]*;": "proof { resized(first.null_val@, v@); }",
           r"before v\[[^;]*\|=": "let ghost vxb = v@;",
           r"after v\[[^;]*\|=[^;]*;": "proof { set_bit(vxb, idx as int); assert(v@ =~= vxb.update(idx as int / 8, vxb[idx as int / 8] | (1u8 << ((idx as int % 8) as u8)))); }",
           r"before let vxres =": "let ghost (vxp, vxn) = (points@, null_val@); proof { join(first, second, vxp, vxn, is_sorted, flags); }"})
for f in ("inner_combine", "inner_compound_trans"):
    a, b = ("state1", "state2") if f == "inner_combine" else ("state", "series")
    o = "*" if f == "inner_combine" else ""
    SPECS[f] = dict(ret="r", clauses=f"""requires {a} is Some ==> {a}->0.wf(), {b} is Some ==> {b}->0.wf(), {a} is Some && {b} is Some ==> {a}->0.num_points + {b}->0.num_points <= u32::MAX
        ensures {a} is None && {b} is None ==> r is None, {a} is Some && {b} is None ==> r is Some && *r->0 == *{a}->0, {a} is None && {b} is Some ==> r is Some && *r->0 == {o}{b}->0, {a} is Some && {b} is Some ==> r is Some && joined(*{a}->0, {o}{b}->0, *r->0)""",
        rewrite=[(r"Some\(((?:combine|series|state\d?)\b(?:[^()]|\((?:[^()]|\([^()]*\))*\))*?)\.into\(\)\)", r"Some(Box::new(\1))")])

def built(extra=""):
    return (r"build!\s*[({]\s*(Timevector_TSTZ_F64 \{[^}]*\})\s*[)}]", r"let vxres = \1; proof { " + extra + " } vxres")


SPECS["sort_timevector"] = dict(ret="r", clauses="""requires series.wf() ensures r.wf(), r.flags & 1 != 0, r.flags & 2 == series.flags & 2, time_ordered(series, r)""",
    rewrite=[(r"Timevector_TSTZ_F64Data \{\s*header: 0,\s*version: 1,\s*padding: \[0; 3\],", "Timevector_TSTZ_F64 {"), (r"(Timevector_TSTZ_F64 \{[^}]*\})\s*\.into\(\)\s*\}$", r"let vxres = \1; proof { flag_bits(vxin.flags, 0); sorted_up(vxin, vxs, vxres); } vxres }"), (r"(points|null_val): (\w+)\.into\(\)", r"\1: vx_slice(\2)"),
             (r"let mut points = std::mem::take\(series\.points\.as_owned\(\)\)", "let mut points = vx_take(series.points.as_owned())"), (r"points\.sort(_unstable|)_by_key\(\|a\| a\.ts\)", r"vx_sort\1(&mut points)"),
             (r"std::mem::take\(series\.points\.as_owned\(\)\)\s*\.into_iter\(\)\s*\.enumerate\(\)\s*\.collect\(\)", "vx_enumerate(vx_take(series.points.as_owned()))"),
             (r"points\.sort(_unstable|)_by_key\(\|vxp\| \{ let \(_, a\) = vxp; a\.ts \}\)", r"vx_sort_pairs\1(&mut points)"),
             (r"let points = points\s*\.into_iter\(\)\s*\.enumerate\(\)\s*\.map\(\|vxp\| \{((?s:.*?))\}\)\s*\.collect\(\);", r"""let mut vxout: Vec<TSPoint> = Vec::new(); let mut vxk: usize = 0;
        while vxk < points.len() invariant SORTINV
        { let vxp = (vxk, points[vxk]); proof { let j = vxs[vxk as int]; set_bit(null_val@, vxk as int); } let ghost vxb = null_val@; let vxy = { \1 }; proof { assert(null_val@ =~= vxb || null_val@ =~= vxb.update(vxk as int / 8, vxb[vxk as int / 8] | (1u8 << ((vxk as int % 8) as u8)))); } vxout.push(vxy); vxk += 1; } let points = vxout;""".replace("SORTINV",
             """vxk <= points@.len(), vxout@.len() == vxk, stable(vxin.points@, vxs), points@.len() == vxin.points@.len(), vxin.wf(), series.null_val@ == vxin.null_val@, series.num_points == vxin.num_points,
                forall|i: int| 0 <= i < points@.len() ==> (#[trigger] points@[i]).1 == vxin.points@[vxs[i]] && points@[i].0 == vxs[i], forall|i: int| 0 <= i < vxk ==> #[trigger] vxout@[i] == vxin.points@[vxs[i]],
                null_val@.len() == (points@.len() + 7) / 8, same_marks(vxin, vxs, null_val@, vxk as int)"""))],
    ghost={"start": "let ghost vxin = series; proof { flag_bits(series.flags, 0); if series.flags & 1 != 0 { in_place(series.points@); assert(taken(series.nulls(), upto(series.num_points as int)) =~= series.nulls()); } } let ghost mut vxs: Seq<int> = upto(0);",
           r"after vx_sort(?:_unstable)?\(&mut points\);": "proof { vxs = choose|p: Seq<int>| #[trigger] stable(vxin.points@, p) && points@ == taken(vxin.points@, p); no_marks(vxin); }",
           r"before vx_sort_pairs": "let ghost vxe = points@; proof { assert(second(vxe) =~= vxin.points@); }",
           r"after vx_sort_pairs[^;]*;": "proof { vxs = choose|p: Seq<int>| #[trigger] stable(second(vxe), p) && points@ == taken(vxe, p); }",
           })
SPECS["timevector_delta"] = dict(ret="r", clauses="""requires series.wf() ensures series.flags & 1 != 0, series.flags & 2 == 0, r.wf(), r.flags == series.flags, r.points@ == deltas(series.points@)""",
    rewrite=[built("assert(vxres.points@ =~= deltas(series.points@)); assert(sorted(vxres.points@)); flag_bits(series.flags, 0);"), (r"points: delta_points\.into\(\)", "points: vx_slice(delta_points)"), (r"null_val: ([^\n]*?)\.into\(\)", r"null_val: vx_slice(\1)"), (r"in vxi0: it\b", "in vxi0: vx_rest(it)"), (r"let mut delta_points = ", "let mut delta_points: Vec<TSPoint> = ")],
    loops={0: "invariant vxi0.seq() == series.points@.drop_first(), series.points@.len() > 0, delta_points@.len() == vxi0.index(), prev == series.points@[vxi0.index() as int].val, forall|i: int| 0 <= i < vxi0.index() ==> #[trigger] delta_points@[i] == deltas(series.points@)[i]"})
SPECS["fill_point"] = dict(ret="r", clauses="""requires lhs.ts <= target_ts <= rhs.ts, rhs.ts - lhs.ts <= i64::MAX ensures r == filled(*self, *lhs, *rhs, target_ts as int)""")

SPECS["fill_to"] = dict(ret="r", clauses="""requires series.wf(), dated(series.points@), element is FillTo ==> 0 < element->interval <= 0x1000_0000_0000_0000
        ensures element is FillTo, series.flags & 1 != 0, series.flags & 2 == 0, r.points@.len() <= u32::MAX ==> r.wf(), r.flags == series.flags, filled_in(series, element->fill_method, element->interval as int, r)""",
    rewrite=[(r"series\.iter\(\)\.chain\(result\.into_iter\(\)\)\.collect\(\)", "vx_chain_vec(series.iter(), result)"), (r"result\.sort(_unstable|)_by_key\(\|p\| p\.ts\)", r"vx_sort\1(&mut result)"), (r"let mut result = Vec::new\(\)", "let mut result: Vec<TSPoint> = Vec::new()"),
             (r"result\.len\(\) as _", "(result.len()).vx_as_u32()"), built("fill_done(vxin, vxf, vxp, vxres);"), (r"points: result\.into\(\)", "points: vx_slice(result)"), (r"null_val: ([^\n]*?)\.into\(\)", r"null_val: vx_slice(\1)")],
    loops={0: """invariant series == vxin, vxin.wf(), sorted(vxin.points@), dated(vxin.points@), 0 < interval <= 0x1000_0000_0000_0000, 0 <= j, j == 0 || j < vxin.points@.len(), vxin.points@.len() == 0 ==> current is None && it@.len() == 0,
                vxin.points@.len() > 0 ==> current == Some(vxin.points@[j]) && it@ == vxin.points@.subrange(j + 1, vxin.points@.len() as int), fills_upto(*method, vxin.points@, interval as int, j as nat, result@)
            ensures fills_upto(*method, vxin.points@, interval as int, gaps(vxin.points@), result@)""",
           1: """invariant dated(vxin.points@), 0 < interval <= 0x1000_0000_0000_0000, 0 <= j, j + 1 < vxin.points@.len(), lhs == vxin.points@[j], *rhs == vxin.points@[j + 1], result@ == r0 + fills(*method, lhs, *rhs, interval as int, k), target == lhs.ts + (k + 1) * interval, k == 0 || lhs.ts + k * interval < rhs.ts,
                lhs.ts <= target <= 0x3000_0000_0000_0000"""},
    ghost={"start": "let ghost vxin = series; let ghost mut j: int = 0;", "lb0": "let ghost r0 = result@; let ghost mut k: nat = 0; proof { assert(vxin.points@[j + 1] == *rhs); let (a, b) = (vxin.points@[j], vxin.points@[j + 1]); assert(fills(*method, lhs, *rhs, interval as int, 0) =~= Seq::empty()); assert(1 * interval == interval) by (nonlinear_arith); }",
           "le1": "proof { k = k + 1; let (x, y) = (k as int, interval as int); assert((x + 1) * y == x * y + y) by (nonlinear_arith); }",
           "le0": "proof { more_fills(*method, vxin.points@, interval as int, j as nat, r0, k); assert(result@ =~= r0 + fills(*method, lhs, vxin.points@[j + 1], interval as int, k)); j = j + 1; assert(it@ =~= vxin.points@.subrange(j + 1, vxin.points@.len() as int)); }",
           r"before while target": "assert(1 * interval == interval) by (nonlinear_arith);",
           r"before if result\.is_empty": "let ghost vxf = result@; proof { if vxf.len() == 0 { in_place(series.points@); assert(series.points@ + vxf =~= series.points@); } }",
           r"before vx_sort(?:_unstable)?\(&mut result\)": "let ghost vxall = result@;",
           r"after vx_sort(?:_unstable)?\(&mut result\);": "let ghost vxp = choose|p: Seq<int>| #[trigger] stable(vxall, p) && result@ == taken(vxall, p);"})
SPECS["filter_lambda_over_series"] = dict(clauses="""requires old(series).wf()
        ensures final(series).wf(), final(series).points@ == keep(old(series).points@, yeses(func, old(series).points@), old(series).points@.len() as int), final(series).nulls() == keep(old(series).nulls(), yeses(func, old(series).points@), old(series).points@.len() as int)""",
    rewrite=[(r"std::mem::take\(series\.null_val\.as_owned\(\)\)", "vx_take(series.null_val.as_owned())"), (r"let mut null_val = Vec::new\(\)", "let mut null_val: Vec<u8> = Vec::new()"), (r"let mut (old_idx|new_idx) = 0", r"let mut \1: usize = 0"), (r"\bfunc\(", "func.call("),
             (r"series\.points\.as_owned\(\)\.retain\(\|p\| ((?s:.*?\n\s*\}))\);", r"""let vxall = vx_take(series.points.as_owned()); let mut vxkept: Vec<TSPoint> = Vec::new(); let mut vxk: usize = 0;
        while vxk < vxall.len() invariant vxk <= vxall@.len(), vxall@ == s.points@, s.wf(), y == yeses(func, s.points@), old_nulls@ == s.null_val@, old_idx == vxk, new_idx == vxkept@.len(), vxkept@ == keep(s.points@, y, vxk as int), new_idx <= vxk, null_val@.len() == (new_idx + 7) / 8,
            keep(s.nulls(), y, vxk as int).len() == new_idx, forall|k: int| 0 <= k < 8 * null_val@.len() ==> #[trigger] bit(null_val@, k) == (k < new_idx && keep(s.nulls(), y, vxk as int)[k]), has_nulls ==> s.flags & 2 != 0, !has_nulls ==> forall|k: int| 0 <= k < 8 * null_val@.len() ==> !#[trigger] bit(null_val@, k)
        { let ghost vxb = null_val@; let ghost vxi = new_idx as int; proof { more_bits(vxb); assert(s.nulls()[vxk as int] == bit(s.null_val@, vxk as int)); }
          let p = &vxall[vxk]; let vxy = \1; proof { if vxy { let c = if vxi % 8 == 0 { vxb.push(0u8) } else { vxb }; set_bit(c, vxi); assert(null_val@ =~= c || null_val@ =~= c.update(vxi / 8, c[vxi / 8] | (1u8 << ((vxi % 8) as u8)))); } } if vxy { vxkept.push(vxall[vxk]); } vxk += 1; } *series.points.as_owned() = vxkept;"""),
             (r"series\.points\.len\(\) as _", "(series.points.as_slice().len()).vx_as_u32()")],
    ghost={"start": "let ghost s = *series; let ghost y = yeses(func, s.points@); proof { flag_bits(s.flags, 0); }",
           "end": "proof { flag_bits(s.flags, 0); if sorted(s.points@) { keep_sorted(s.points@, y, s.points@.len() as int); } keep_len(s.points@, y, s.points@.len() as int); assert(series.nulls() =~= keep(s.nulls(), y, s.points@.len() as int)); }"})
SPECS["map_lambda_over_series"] = dict(clauses="""requires old(series).wf()
        ensures final(series).wf(), final(series).points@ == Seq::new(old(series).points@.len(), |i: int| mapped(func, only_val, old(series).points@[i])), final(series).nulls() == old(series).nulls(), only_val ==> final(series).flags == old(series).flags, final(series).flags & 2 == old(series).flags & 2, !only_val ==> (final(series).flags & 1 != 0 <==> old(series).flags & 1 != 0 && sorted(final(series).points@))""",
    rewrite=[(r"for point in vxi0: series\.points\.as_owned\(\)[^{]*\{", r"""let mut vxk: usize = 0; while vxk < series.points.as_slice().len()
          invariant vxk <= s.points@.len(), series.points@.len() == s.points@.len(), series.null_val == s.null_val, series.flags == s.flags, series.num_points == s.num_points, forall|i: int| 0 <= i < s.points@.len() ==> #[trigger] series.points@[i] == if i < vxk { mapped(func, only_val, s.points@[i]) } else { s.points@[i] }
          { let point = series.points.as_slice()[vxk]; """),
             (r"\*point = (TSPoint \{(?:[^{}]|\{[^{}]*\})*\})", r"series.points.as_owned().set(vxk, \1); vxk += 1;"), (r"\bfunc\(", "func.call("), (r"series\.points\.as_slice\(\)\.is_sorted_by_key\(\|p\| p\.ts\)", "vx_is_sorted(series.points.as_slice())")],
    ghost={"start": "let ghost s = *series; proof { flag_bits(s.flags, 0); }", "end": "proof { assert(series.points@ =~= Seq::new(s.points@.len(), |i: int| mapped(func, only_val, s.points@[i]))); assert(series.nulls() =~= s.nulls()); }"})
SPECS["asof_join"] = dict(ret="r", clauses="""requires from.wf(), into.wf(), from.flags & 1 != 0, into.flags & 1 != 0
        ensures from.num_points > 0, into.num_points > 0, r@.len() == into.points@.len(), forall|i: int| 0 <= i < r@.len() ==> latest(from.points@, into.points@[i].ts as int, (#[trigger] r@[i]).0) && r@[i].1 == into.points@[i].val && r@[i].2.t == into.points@[i].ts""",
    rewrite=[(r"for \(into_time, into_val\) in vxi0: into\b([^{]*)\{", r"""let mut vxn: usize = 0; while vxn < into.len() invariant sorted(s), sorted(t), into@.len() == t.len(), vxn <= into@.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] into@[i] == (t[i].ts, t[i].val), 0 <= k < s.len(), from_time == s[k].ts, from_val == s[k].val, from@ == s.subrange(k + 1, s.len() as int), k == 0 || (vxn > 0 && s[k].ts <= t[vxn - 1].ts),
                results@.len() == vxn, forall|i: int| 0 <= i < results@.len() ==> latest(s, t[i].ts as int, (#[trigger] results@[i]).0) && results@[i].1 == t[i].val && results@[i].2.t == t[i].ts { let (into_time, into_val) = into[vxn]; vxn += 1; """), (r"from\s*\.into_iter\(\)\s*\.map\(\|points\| \(points\.ts\.into\(\), points\.val\)\)\s*\.peekable\(\)", "vx_pairs(from.into_iter())"), (r"into\s*\.into_iter\(\)\s*\.map\(\|points\| \(points\.ts, points\.val\)\)", "vx_pair_vec(into.into_iter())"),
             (r"let mut results = Vec::new\(\)", "let mut results: Vec<(Option<Fl>, Fl, TimestampTz)> = Vec::new()"), (r"\(from_time, from_val\) = from\.next\(\)\.unwrap\(\);", "let vxn = from.next().unwrap(); from_time = vxn.0; from_val = vxn.1; proof { k = k + 1; assert(from@ =~= s.subrange(k + 1, s.len() as int)); }"),
             (r"from\.peek\(\)", "from.vx_peek()"), (r"\*peek_time", "peek_time"), (r"TableIterator::new\(results\.into_iter\(\)\)", "results")],
    loops={1: "invariant sorted(s), 0 <= k < s.len(), from_time == s[k].ts, from_val == s[k].val, from@ == s.subrange(k + 1, s.len() as int), s[k].ts <= into_time ensures k + 1 == s.len() || s[k + 1].ts > into_time"},
    ghost={"start": "let ghost (s, t) = (from.points@, into.points@); let ghost mut k: int = 0;", r"after let \(mut from_time[^;]*;": "proof { assert(from@ =~= s.subrange(1, s.len() as int)); }"})

SPECS["map_series"] = dict(clauses="""requires old(series).wf()
        ensures final(series).wf(), final(series).nulls() == old(series).nulls(), final(series).flags == old(series).flags, final(series).points@ == Seq::new(old(series).points@.len(), |i: int| TSPoint { ts: old(series).points@[i].ts, val: func.gives(old(series).points@[i].val) })""",
    rewrite=[(r"use std::panic::AssertUnwindSafe;", ""), (r"let points = series\.points\.as_owned\(\)\.iter_mut\(\);", ""), (r"pg_sys::PgTryBuilder::new\(AssertUnwindSafe\(\|\| \{((?s:.*))\}\)\)\s*\.execute\(\)", r"\1"),
             (r"for point in vxi0: points\b[^{]*\{", r"""let mut vxk: usize = 0; while vxk < series.points.as_slice().len()
          invariant vxk <= s.points@.len(), series.points@.len() == s.points@.len(), series.null_val == s.null_val, series.flags == s.flags, series.num_points == s.num_points, forall|i: int| 0 <= i < s.points@.len() ==> #[trigger] series.points@[i] == if i < vxk { TSPoint { ts: s.points@[i].ts, val: func.gives(s.points@[i].val) } } else { s.points@[i] }
          { let point = series.points.as_slice()[vxk]; """),
             (r"\*point = (TSPoint \{(?:[^{}]|\{[^{}]*\})*\})", r"series.points.as_owned().set(vxk, \1); vxk += 1;"), (r"\bfunc\(", "func.call(")],
    ghost={"start": "let ghost s = *series;", "end": "proof { assert(series.points@ =~= Seq::new(s.points@.len(), |i: int| TSPoint { ts: s.points@[i].ts, val: func.gives(s.points@[i].val) })); assert(series.nulls() =~= s.nulls()); }"})
SPECS["apply"] = dict(ret="r", clauses="""requires series.wf()
        ensures r.wf(), r.nulls() == series.nulls(), r.flags == series.flags, r.points@.len() == series.points@.len(), forall|i: int| 0 <= i < r.points@.len() ==> #[trigger] r.points@[i] == (TSPoint { ts: series.points@[i].ts, val: arith(function, series.points@[i].val, rhs) })""",
    rewrite=[(r"=> \|(\w+), (\w+)\| ([^\n]*),\n", r"=> { let (\1, \2) = (vxa, vxb); \3 }\n"), (r"\b(Add|Sub|Mul|Div|Mod|Power|LogN|Abs|Cbrt|Ceil|Floor|Ln|Log10|Round|Sign|Sqrt|Trunc)\b(?= =>)", r"Function::\1"),
             (r"let function: fn\(f64, f64\) -> f64 = (match function \{(?s:.*?)\});\s*map::map_series\(&mut series, \|lhs\| function\(lhs, rhs\)\);\s*series\s*\}$", r"""let mut vxs = series; map_series(&mut vxs, vx_partial(function, rhs)); vxs }
pub fn vx_table(function: Function, vxa: Fl, vxb: Fl) -> (r: Fl) ensures r == arith(function, vxa, vxb) { \1 }""")])
SPECS["arrow_add_unstable_element"] = dict(ret="r", clauses="""ensures r.elements@ == pipeline.elements@ + element.elements@, r.num_elements == r.elements@.len(), forall|t: Timevector_TSTZ_F64| #[trigger] runs(t, r.elements@) == runs(runs(t, pipeline.elements@), element.elements@)""",
    rewrite=[(r"pipeline\.elements\.as_owned\(\)\.extend\(element\.elements\.iter\(\)\)", "vx_extend(pipeline.elements.as_owned(), &element.elements)"), (r"pipeline\.elements\.len\(\)\.try_into\(\)\.unwrap\(\)", "pipeline.elements.as_slice().len() as u64")],
    ghost={"end": "", r"before pipeline\s*\}$": "proof { assert forall|t: Timevector_TSTZ_F64| #[trigger] runs(t, pipeline.elements@) == runs(runs(t, vxp.elements@), element.elements@) by { one_pipeline(t, vxp.elements@, element.elements@); } }", "start": "let ghost vxp = pipeline;"})
SPECS["run_pipeline_elements"] = dict(ret="r", clauses="ensures r == runs(timevector, pipeline@)",
    loops={0: "invariant vxi0.seq() == pipeline@, timevector == runs(vxt, pipeline@.subrange(0, vxi0.index() as int))"},
    ghost={"start": "let ghost vxt = timevector;", "le0": "proof { let p = pipeline@.subrange(0, vxi0.index() + 1); assert(p.drop_last() =~= pipeline@.subrange(0, vxi0.index() as int)); }", r"before timevector\s*\}$": "proof { assert(pipeline@.subrange(0, pipeline@.len() as int) =~= pipeline@); }"})
SPECS["arrow_add_unstable_element"]["ghost"].pop("end")
