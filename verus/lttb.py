import tv
F = "extension/src/lttb.rs"
FLOATS = True
ASSUMED = tv.ASSUMED + ["floating point: comparison is transitive and irreflexive; casts of integers up to 2^53 are exact and truncation gives them back",
           "bucket limits trunc(i * ((n-2)/(t-2))) + 1 in floating point: rising by at least one per bucket, 1 at first, at most n - 1 at bucket t-2 (n up to 2^26; by the rounding error of one division and one multiplication)",
           "times within +-2^60 microseconds"]
USES = ""
PRELUDE = tv.PRELUDE + r"""
pub enum VxCow<'a> { Borrowed(&'a [TSPoint]), Owned(Vec<TSPoint>) }
impl<'a> VxCow<'a> {
    pub open spec fn view(&self) -> Seq<TSPoint> { match self { VxCow::Borrowed(s) => s@, VxCow::Owned(v) => v@ } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Vec<TSPoint>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Vec<TSPoint>) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn width(n: int, t: int) -> Fl { fdiv(fint(n - 2), fint(t - 2)) }
pub open spec fn cut(i: int, n: int, t: int) -> int { fcut(fmul(fint(i), width(n, t)), 0, usize::MAX as int) + 1 }
pub open spec fn most() -> int { 0x400_0000 }
#[verifier::external_body]
pub proof fn cuts(n: int, t: int)
    requires 3 <= t < n <= most()
    ensures cut(0, n, t) == 1, cut(t - 2, n, t) <= n - 1, forall|i: int, j: int| 0 <= i < j < t ==> #[trigger] cut(i, n, t) < #[trigger] cut(j, n, t), forall|i: int| 0 <= i < t ==> 1 <= #[trigger] cut(i, n, t) < 2 * n + 2
{ }
#[verifier::external_body]
pub proof fn exact(k: int)
    requires -0x20_0000_0000_0000 <= k <= 0x20_0000_0000_0000
    ensures ftrunc(fint(k)) == k
{ }
#[verifier::external_body]
pub proof fn gt_order()
    ensures forall|a: Fl, b: Fl, c: Fl| #[trigger] fgt(a, b) && #[trigger] fgt(b, c) ==> fgt(a, c), forall|a: Fl| !#[trigger] fgt(a, a)
{ }
pub open spec fn sumt(s: Seq<TSPoint>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { sumt(s, a, b - 1) + s[b - 1].ts } }
pub open spec fn sumv(s: Seq<TSPoint>, a: int, b: int) -> Fl decreases b - a { if b <= a { flit(0, ""@) } else { fadd(sumv(s, a, b - 1), s[b - 1].val) } }
pub open spec fn dated(s: Seq<TSPoint>) -> bool { forall|i: int| 0 <= i < s.len() ==> -0x1000_0000_0000_0000 <= (#[trigger] s[i]).ts <= 0x1000_0000_0000_0000 }
pub proof fn sumt_range(s: Seq<TSPoint>, a: int, b: int)
    requires dated(s), 0 <= a <= b <= s.len()
    ensures -0x1000_0000_0000_0000 * (b - a) <= sumt(s, a, b) <= 0x1000_0000_0000_0000 * (b - a)
    decreases b - a
{ if a < b { sumt_range(s, a, b - 1); } }
/// the quotient, rounded towards zero
pub open spec fn quot(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub proof fn quot_range(a: int, b: int)
    requires b > 0, -0x1000_0000_0000_0000 * b <= a <= 0x1000_0000_0000_0000 * b
    ensures -0x1000_0000_0000_0000 <= quot(a, b) <= 0x1000_0000_0000_0000
{
    let m = 0x1000_0000_0000_0000int;
    if a >= 0 { assert(a / b <= m) by (nonlinear_arith) requires 0 <= a <= m * b, b > 0; assert(a / b >= 0) by (nonlinear_arith) requires 0 <= a, b > 0; }
    else { assert((-a) / b <= m) by (nonlinear_arith) requires 0 <= -a <= m * b, b > 0; assert((-a) / b >= 0) by (nonlinear_arith) requires 0 <= -a, b > 0; }
}
#[verifier::external_body]
pub fn vx_quot(a: i128, b: i128) -> (r: i128) requires b > 0 ensures r == quot(a as int, b as int) { a / b }
/// the bucket after bucket i
pub open spec fn next_lo(i: int, n: int, t: int) -> int { cut(i + 1, n, t) }
pub open spec fn next_hi(i: int, n: int, t: int) -> int { if cut(i + 2, n, t) >= n { n } else { cut(i + 2, n, t) } }
pub open spec fn mean_t(s: Seq<TSPoint>, i: int, t: int) -> int { let (a, b) = (next_lo(i, s.len() as int, t), next_hi(i, s.len() as int, t)); quot(sumt(s, a, b), b - a) }
pub open spec fn mean_v(s: Seq<TSPoint>, i: int, t: int) -> Fl { let (a, b) = (next_lo(i, s.len() as int, t), next_hi(i, s.len() as int, t)); fdiv(sumv(s, a, b), fint(b - a)) }
/// the triangle of point p, the point chosen before and the mean of the next bucket
pub open spec fn triangle(a: TSPoint, p: TSPoint, x: int, y: Fl) -> Fl {
    fmul(fabs(fsub(fmul(fint(a.ts - x), fsub(p.val, a.val)), fmul(fint(a.ts - p.ts), fsub(y, a.val)))), flit(0, "5"@))
}
pub open spec fn area(s: Seq<TSPoint>, i: int, t: int, a: int, k: int) -> Fl { triangle(s[a], s[k], mean_t(s, i, t), mean_v(s, i, t)) }
/// k is a point of bucket i with the largest triangle after a
pub open spec fn best(s: Seq<TSPoint>, i: int, t: int, a: int, k: int) -> bool {
    let n = s.len() as int;
    &&& cut(i, n, t) <= k < cut(i + 1, n, t)
    &&& (forall|q: int| cut(i, n, t) <= q < cut(i + 1, n, t) ==> !fgt(#[trigger] area(s, i, t, a, q), area(s, i, t, a, k)))
        || (k == cut(i, n, t) && forall|q: int| cut(i, n, t) <= q < cut(i + 1, n, t) ==> !fgt(#[trigger] area(s, i, t, a, q), fneg(flit(1, ""@))))
}
pub open spec fn picks(s: Seq<TSPoint>, t: int, r: Seq<TSPoint>, ks: Seq<int>, m: int) -> bool {
    &&& r.len() == m + 1 && ks.len() == m + 1 && ks[0] == 0
    &&& forall|j: int| 0 <= j <= m ==> 0 <= #[trigger] ks[j] < s.len() && r[j] == s[ks[j]]
    &&& forall|j: int| 0 <= j < m ==> best(s, j, t, #[trigger] ks[j], ks[j + 1])
}
/// the buckets follow one another, so do the points picked from them
pub proof fn rising(s: Seq<TSPoint>, t: int, r: Seq<TSPoint>, ks: Seq<int>, m: int, a: int, b: int)
    requires 3 <= t < s.len() <= most() || (t == 2 && t < s.len() <= most()), 0 <= m <= t - 2, picks(s, t, r, ks, m), 0 <= a <= b <= m
    ensures ks[a] <= ks[b], b > 0 ==> ks[b] < s.len() - 1
    decreases b
{
    if b > 0 {
        let n = s.len() as int;
        limits(b - 1, n, t);
        assert(best(s, b - 1, t, ks[b - 1], ks[b - 1 + 1]));
        if a < b {
            rising(s, t, r, ks, m, a, b - 1);
            if b - 1 > 0 { assert(best(s, b - 2, t, ks[b - 2], ks[b - 2 + 1])); } else { cuts(n, t); }
        }
    }
}
pub proof fn in_order(s: Seq<TSPoint>, t: int, r: Seq<TSPoint>)
    requires 2 <= t < s.len() <= most(), sampled(s, t, r)
    ensures sorted(s) ==> sorted(r)
{
    if sorted(s) {
        let ks = choose|ks: Seq<int>| #[trigger] picks(s, t, r.drop_last(), ks, t - 2) && r.last() == s.last();
        let d = r.drop_last();
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).ts <= (#[trigger] r[j]).ts by {
            assert(i < d.len() ==> d[i] == r[i]);
            assert(j < d.len() ==> d[j] == r[j]);
            if i < d.len() { assert(r[i] == s[ks[i]]); }
            if j < d.len() { rising(s, t, d, ks, t - 2, i, j); assert(r[j] == s[ks[j]]); } else { assert(r[j] == s.last()); }
        }
    }
}
/// r is the downsampled s
pub open spec fn sampled(s: Seq<TSPoint>, t: int, r: Seq<TSPoint>) -> bool {
    if t >= s.len() || t == 0 { r == s } else {
        r.len() == t && exists|ks: Seq<int>| #[trigger] picks(s, t, r.drop_last(), ks, t - 2) && r.last() == s.last()
    }
}
pub proof fn limits(i: int, n: int, t: int)
    requires 3 <= t < n <= most(), 0 <= i < t - 2
    ensures 1 <= cut(i, n, t) < cut(i + 1, n, t) < cut(i + 2, n, t) < 2 * n + 2, cut(i + 1, n, t) <= n - 1, next_lo(i, n, t) < next_hi(i, n, t) <= n
{
    cuts(n, t);
    assert(cut(i + 1, n, t) <= cut(t - 2, n, t)) by { if i + 1 < t - 2 { } }
}
pub open spec fn chosen(s: Seq<TSPoint>, lo: int, hi: int, a: int, k: int, x: int, y: Fl, m: Fl) -> bool {
    &&& lo <= k
    &&& (m == fneg(flit(1, ""@)) && k == lo) || (m == triangle(s[a], s[k], x, y) && k < hi)
    &&& forall|q: int| lo <= q < hi ==> !fgt(#[trigger] triangle(s[a], s[q], x, y), m)
}
pub proof fn choose_next(s: Seq<TSPoint>, lo: int, hi: int, a: int, k: int, x: int, y: Fl, m: Fl)
    requires chosen(s, lo, hi, a, k, x, y, m), lo <= hi
    ensures fgt(triangle(s[a], s[hi], x, y), m) ==> chosen(s, lo, hi + 1, a, hi, x, y, triangle(s[a], s[hi], x, y)), !fgt(triangle(s[a], s[hi], x, y), m) ==> chosen(s, lo, hi + 1, a, k, x, y, m)
{
    gt_order();
    let n = triangle(s[a], s[hi], x, y);
    if fgt(n, m) {
        assert forall|q: int| lo <= q < hi + 1 implies !fgt(#[trigger] triangle(s[a], s[q], x, y), n) by { if fgt(triangle(s[a], s[q], x, y), n) { if q < hi { assert(fgt(triangle(s[a], s[q], x, y), m)); } } }
    }
}
pub proof fn picked(s: Seq<TSPoint>, t: int, r: Seq<TSPoint>, ks: Seq<int>, m: int, k: int, area_m: Fl)
    requires 3 <= t < s.len() <= most(), 0 <= m < t - 2, picks(s, t, r, ks, m), chosen(s, cut(m, s.len() as int, t), cut(m + 1, s.len() as int, t), ks[m], k, mean_t(s, m, t), mean_v(s, m, t), area_m)
    ensures picks(s, t, r.push(s[k]), ks.push(k), m + 1)
{
    let n = s.len() as int;
    limits(m, n, t);
    let (x, y) = (mean_t(s, m, t), mean_v(s, m, t));
    assert(best(s, m, t, ks[m], k)) by {
        assert forall|q: int| cut(m, n, t) <= q < cut(m + 1, n, t) implies !fgt(#[trigger] area(s, m, t, ks[m], q), area_m) by { assert(area(s, m, t, ks[m], q) == triangle(s[ks[m]], s[q], x, y)); }
    }
    let (r2, k2) = (r.push(s[k]), ks.push(k));
    assert forall|j: int| 0 <= j < m + 1 implies best(s, j, t, #[trigger] k2[j], k2[j + 1]) by { if j < m { assert(best(s, j, t, ks[j], ks[j + 1])); } }
    assert forall|j: int| 0 <= j <= m + 1 implies 0 <= #[trigger] k2[j] < s.len() && r2[j] == s[k2[j]] by { if j <= m { assert(r[j] == s[ks[j]]); } }
}

#[derive(Clone, Copy)]
pub struct FunctionCallInfo { pub f: u64 }
#[derive(Clone, Copy)]
pub struct TimestampTz { pub t: i64 }
impl TimestampTz { pub fn us(self) -> (r: i64) ensures r == self.t { self.t } }
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<TSPoint>) ensures sorted(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), sorted(old(v)@) ==> final(v)@ == old(v)@, dated(old(v)@) ==> dated(final(v)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sub(v: &Vec<TSPoint>, a: usize, b: usize) -> (r: &[TSPoint]) ensures a <= b <= v@.len(), r@ == v@.subrange(a as int, b as int) { &v[a..b] }
pub fn vx_append(v: &mut Vec<TSPoint>, x: Vec<TSPoint>) ensures final(v)@ == old(v)@ + x@ { let mut x = x; v.append(&mut x); }
pub trait VxMax: Sized { spec fn mx(self, o: Self) -> Self; fn vx_max(self, o: Self) -> (r: Self) ensures r == self.mx(o); }
impl VxMax for usize { open spec fn mx(self, o: Self) -> Self { if self > o { self } else { o } } fn vx_max(self, o: Self) -> (r: Self) { if self > o { self } else { o } } }
impl VxMax for i64 { open spec fn mx(self, o: Self) -> Self { if self > o { self } else { o } } fn vx_max(self, o: Self) -> (r: Self) { if self > o { self } else { o } } }
pub fn vx_max2<T: VxMax>(a: T, b: T) -> (r: T) ensures r == a.mx(b) { a.vx_max(b) }
/// a share a/b <= 1 of m is no more than m
#[verifier::external_body]
pub proof fn share(m: int, a: int, b: int)
    requires 0 <= a <= b, -0x1_0000_0000 <= m <= 0x1_0000_0000
    ensures fcut(fmul(fint(m), fdiv(fint(a), fint(b))), 0, usize::MAX as int) <= if m < 0 { 0 } else { m }
{ }
/// a gap longer than g after point i
pub open spec fn brk(s: Seq<TSPoint>, g: int, i: int) -> bool { s[i + 1].ts - s[i].ts > g }
/// where the stretch without gaps that holds point i starts
pub open spec fn start_at(s: Seq<TSPoint>, g: int, i: int) -> int decreases i { if i <= 0 { 0 } else if brk(s, g, i - 1) { i } else { start_at(s, g, i - 1) } }
pub open spec fn ends_of(s: Seq<TSPoint>, g: int, i: int) -> int { if start_at(s, g, i) == i { 1 } else { 2 } }
/// ends of the stretches before the one that holds point i
pub open spec fn ends_before(s: Seq<TSPoint>, g: int, i: int) -> int decreases i { if i <= 0 { 0 } else { ends_before(s, g, i - 1) + if brk(s, g, i - 1) { ends_of(s, g, i - 1) } else { 0 } } }
pub open spec fn ends(s: Seq<TSPoint>, g: int) -> int { ends_before(s, g, s.len() - 1) + ends_of(s, g, s.len() - 1) }
pub open spec fn piece(x: Seq<TSPoint>, p: Seq<TSPoint>) -> bool { if x.len() == 1 { p == x } else { exists|t: int| t >= 2 && #[trigger] sampled(x, t, p) } }
pub open spec fn at(m: int) -> bool { true }
/// r is what is kept of the stretches before point j, one after the other
#[verifier::opaque]
pub open spec fn lay(s: Seq<TSPoint>, g: int, j: int, r: Seq<TSPoint>) -> bool decreases j {
    if j <= 0 { r.len() == 0 } else { let b = start_at(s, g, j - 1); b < j && b >= 0 && exists|m: int| #[trigger] at(m) && 0 <= m <= r.len() && lay(s, g, b, r.subrange(0, m)) && piece(s.subrange(b, j), r.subrange(m, r.len() as int)) }
}
pub proof fn starts(s: Seq<TSPoint>, g: int, i: int)
    requires 0 <= i < s.len()
    ensures 0 <= start_at(s, g, i) <= i, 0 <= ends_before(s, g, i) <= start_at(s, g, i), 1 <= ends_of(s, g, i) <= 2, i + 1 < s.len() && brk(s, g, i) ==> start_at(s, g, i + 1) == i + 1 && ends_before(s, g, i + 1) == ends_before(s, g, i) + ends_of(s, g, i),
        i + 1 < s.len() && !brk(s, g, i) ==> start_at(s, g, i + 1) == start_at(s, g, i) && ends_before(s, g, i + 1) == ends_before(s, g, i)
    decreases i
{ if i > 0 { starts(s, g, i - 1); } }
pub proof fn remaining(s: Seq<TSPoint>, g: int, j: int)
    requires 0 <= j < s.len()
    ensures 1 <= ends(s, g) - ends_before(s, g, j) <= s.len() - start_at(s, g, j)
    decreases s.len() - j
{ starts(s, g, j); if j + 1 < s.len() { remaining(s, g, j + 1); starts(s, g, j + 1); } }
pub proof fn extend(s: Seq<TSPoint>, g: int, j: int, r: Seq<TSPoint>, p: Seq<TSPoint>)
    requires 0 < j <= s.len(), lay(s, g, start_at(s, g, j - 1), r), piece(s.subrange(start_at(s, g, j - 1), j), p)
    ensures lay(s, g, j, r + p)
{
    reveal_with_fuel(lay, 2);
    starts(s, g, j - 1);
    let x = r + p;
    assert(at(r.len() as int));
    assert(x.subrange(0, r.len() as int) =~= r);
    assert(x.subrange(r.len() as int, x.len() as int) =~= p);
}
/// the last stretch before point j and what is kept of it
pub proof fn unlay(s: Seq<TSPoint>, g: int, j: int, r: Seq<TSPoint>) -> (m: int)
    requires lay(s, g, j, r), 0 < j <= s.len()
    ensures ({ let b = start_at(s, g, j - 1); 0 <= b < j && 0 <= m <= r.len() && lay(s, g, b, r.subrange(0, m)) && piece(s.subrange(b, j), r.subrange(m, r.len() as int)) })
{
    hide(piece); hide(start_at);
    reveal(lay);
    let b = start_at(s, g, j - 1);
    let m = choose|m: int| #[trigger] at(m) && 0 <= m <= r.len() && lay(s, g, b, r.subrange(0, m)) && piece(s.subrange(b, j), r.subrange(m, r.len() as int));
    m
}
pub proof fn last_stretch(s: Seq<TSPoint>, g: int, j: int, r: Seq<TSPoint>) -> (m: int)
    requires lay(s, g, j, r), 0 < j <= s.len() <= most(), sorted(s)
    ensures ({ let b = start_at(s, g, j - 1); let p = r.subrange(m, r.len() as int); 0 <= b < j && 0 <= m < r.len() && lay(s, g, b, r.subrange(0, m)) && sorted(p) && p.len() > 0 && p[0] == s[b] && p.last() == s[j - 1] && r[m] == s[b] && r.last() == s[j - 1] })
{
    hide(piece);
    let b = start_at(s, g, j - 1);
    starts(s, g, j - 1);
    let m = unlay(s, g, j, r);
    let (x, p) = (s.subrange(b, j), r.subrange(m, r.len() as int));
    assert(sorted(x));
    assert(x[0] == s[b] && x.last() == s[j - 1]);
    piece_ends(x, p);
    assert(p[0] == r[m]);
    assert(p.last() == r.last());
    assert(lay(s, g, b, r.subrange(0, m)));
    m
}
/// what is kept is in time order
pub proof fn laid_order(s: Seq<TSPoint>, g: int, j: int, r: Seq<TSPoint>)
    requires lay(s, g, j, r), 0 <= j <= s.len() <= most(), sorted(s)
    ensures sorted(r), j > 0 ==> r.len() > 0 && r.last() == s[j - 1]
    decreases j
{
    if j > 0 {
        let b = start_at(s, g, j - 1);
        let m = last_stretch(s, g, j, r);
        let (q, p) = (r.subrange(0, m), r.subrange(m, r.len() as int));
        laid_order(s, g, b, q);
        assert forall|i: int, k: int| 0 <= i <= k < r.len() implies (#[trigger] r[i]).ts <= (#[trigger] r[k]).ts by {
            if k < m { assert(q[k] == r[k]); assert(q[i] == r[i]); }
            else if i >= m { assert(p[i - m] == r[i]); assert(p[k - m] == r[k]); }
            else {
                assert(q[i] == r[i]); assert(p[k - m] == r[k]); assert(q.len() > 0);
                if b > 0 { assert(q[i].ts <= q.last().ts); assert(s[b - 1].ts <= s[b].ts); } else { lay_none(s, g, b, q); }
            }
        }
    } else { lay_none(s, g, j, r); }
}
pub proof fn lay_none(s: Seq<TSPoint>, g: int, j: int, r: Seq<TSPoint>) requires lay(s, g, j, r), j <= 0 ensures r.len() == 0 { reveal_with_fuel(lay, 2); }
pub proof fn lay_zero(s: Seq<TSPoint>, g: int, r: Seq<TSPoint>) requires r.len() == 0 ensures lay(s, g, 0, r) { reveal_with_fuel(lay, 2); }
pub open spec fn is_end(s: Seq<TSPoint>, g: int, i: int) -> bool { start_at(s, g, i) == i || i == s.len() - 1 || brk(s, g, i) }
/// the ends of every stretch are there
pub proof fn laid_ends(s: Seq<TSPoint>, g: int, j: int, r: Seq<TSPoint>, i: int)
    requires lay(s, g, j, r), 0 <= i < j <= s.len() <= most(), sorted(s), is_end(s, g, i)
    ensures r.contains(s[i])
    decreases j
{
    let b = start_at(s, g, j - 1);
    let m = last_stretch(s, g, j, r);
    let q = r.subrange(0, m);
    if i < b { laid_ends(s, g, b, q, i); let k = choose|k: int| 0 <= k < q.len() && q[k] == s[i]; assert(r[k] == s[i]); }
    else {
        starts(s, g, j - 1);
        inside(s, g, b, j - 1);
        if i > b { assert(start_at(s, g, i) == b); if i < j - 1 { assert(!brk(s, g, i)); } assert(i == j - 1); assert(r[r.len() - 1] == s[i]); }
        else { assert(r[m] == s[i]); }
    }
}
pub proof fn laid(l: LttbTrans, s: Seq<TSPoint>, r: Seq<TSPoint>)
    requires lay(s, gap_of(l, s), s.len() as int, r), s.len() <= most(), sorted(s), s.to_multiset() == l.series@.to_multiset(), (sorted(l.series@) ==> s == l.series@), r.len() <= l.resolution || r.len() <= ends(s, gap_of(l, s))
    ensures kept(l, s, r), sorted(r)
{
    let g = gap_of(l, s);
    laid_order(s, g, s.len() as int, r);
    assert forall|i: int| 0 <= i < s.len() && #[trigger] is_end(s, g, i) implies r.contains(s[i]) by { laid_ends(s, g, s.len() as int, r, i); }
}
pub proof fn amount(s: Seq<TSPoint>, t: int, r: Seq<TSPoint>)
    requires sampled(s, t, r)
    ensures r.len() == if t >= s.len() || t == 0 { s.len() as int } else { t }
{ }
/// one more stretch and t points of it
pub proof fn stretch(s: Seq<TSPoint>, g: int, j: int, r: Seq<TSPoint>, p: Seq<TSPoint>, t: int)
    requires 0 < j <= s.len(), lay(s, g, start_at(s, g, j - 1), r), start_at(s, g, j - 1) < j - 1, t >= 2, sampled(s.subrange(start_at(s, g, j - 1), j), t, p)
    ensures lay(s, g, j, r + p), 2 <= p.len() <= t, t == 2 ==> p.len() == 2
{
    let x = s.subrange(start_at(s, g, j - 1), j);
    starts(s, g, j - 1);
    amount(x, t, p);
    assert(piece(x, p));
    extend(s, g, j, r, p);
}
pub proof fn single(s: Seq<TSPoint>, g: int, i: int, r: Seq<TSPoint>)
    requires 0 <= i < s.len(), start_at(s, g, i) == i, lay(s, g, i, r)
    ensures lay(s, g, i + 1, r.push(s[i]))
{
    lone(s, i);
    extend(s, g, i + 1, r, seq![s[i]]);
    assert(r.push(s[i]) =~= r + seq![s[i]]);
}
/// no gap and no other start inside a stretch
pub proof fn inside(s: Seq<TSPoint>, g: int, b: int, e: int)
    requires 0 <= b <= e < s.len(), b == start_at(s, g, e)
    ensures forall|i: int| b < i <= e ==> #[trigger] start_at(s, g, i) == b, forall|i: int| b <= i < e ==> !#[trigger] brk(s, g, i)
    decreases e
{ if b < e { starts(s, g, e - 1); inside(s, g, b, e - 1); } }
pub proof fn piece_ends(x: Seq<TSPoint>, p: Seq<TSPoint>)
    requires piece(x, p), x.len() >= 1, sorted(x), x.len() <= most()
    ensures p.len() > 0, p[0] == x[0], p.last() == x.last(), sorted(p)
{
    if x.len() > 1 {
        let t = choose|t: int| t >= 2 && #[trigger] sampled(x, t, p);
        if t < x.len() {
            in_order(x, t, p);
            let ks = choose|ks: Seq<int>| #[trigger] picks(x, t, p.drop_last(), ks, t - 2) && p.last() == x.last();
            assert(p.drop_last()[0] == x[ks[0]]);
        }
    }
}
pub proof fn lone(x: Seq<TSPoint>, i: int) requires 0 <= i < x.len() ensures piece(x.subrange(i, i + 1), seq![x[i]]) { assert(x.subrange(i, i + 1) =~= seq![x[i]]); }
pub open spec fn gap_of(l: LttbTrans, s: Seq<TSPoint>) -> int { if l.gap_interval > 0 { l.gap_interval as int } else { (s.last().ts - s[0].ts) / l.resolution as int } }
pub open spec fn kept(l: LttbTrans, s: Seq<TSPoint>, r: Seq<TSPoint>) -> bool {
    let g = gap_of(l, s);
    &&& sorted(s) && s.to_multiset() == l.series@.to_multiset() && (sorted(l.series@) ==> s == l.series@)
    &&& lay(s, g, s.len() as int, r)
    &&& r.len() <= l.resolution || r.len() <= ends(s, g)
    &&& sorted(r)
    &&& forall|i: int| 0 <= i < s.len() && #[trigger] is_end(s, g, i) ==> r.contains(s[i])
}
pub open spec fn in_limits(l: LttbTrans) -> bool { 3 <= l.resolution <= 0x7fff_ffff && 1 <= l.series@.len() <= most() && dated(l.series@) }
"""
IMPL = {}
RENAME = [(r"\bCow<'_, \[TSPoint\]>", "VxCow<'_>"), (r"\bCow::", "VxCow::"), (r"\bInner<", "Box<"), (r"\bcrate::raw::TimestampTz\b", "TimestampTz"), (r"\bpg_sys::FunctionCallInfo\b", "FunctionCallInfo")] + tv.RENAME
QUOT = (r"\(avg_x / \(avg_range_length\)\.vx_as_i128\(\)\)", "(vx_quot(avg_x, (avg_range_length).vx_as_i128()))")
PARTS = tv.PARTS + [("impl", tv.T, tv.IMPL, ["num_points", "get", "is_sorted"], "impl Timevector_TSTZ_F64"), ("fn", F, "lttb"), ("fn", F, "lttb_ts"), ("fn", F, "lttb_on_timevector"), ("struct", F, "LttbTrans"),
    ("fn", F, "lttb_trans_inner"), ("fn", F, "lttb_final_inner"), ("fn", F, "gap_preserving_lttb_final_inner")]


def contract(d, xs):
    """the contract of the sampling loops; d: the points; xs: what is handed on"""
    loops = {0: f"""invariant {xs} 3 <= threshold < {d}.len() || threshold == 2, {d}.len() <= most(), threshold < {d}.len(), dated({d}), every == width({d}.len() as int, threshold as int), picks({d}, threshold as int, sampled@, ks, i as int), a == ks[i as int], vxi0.seq().len() == threshold - 2""",
             1: f"""invariant {xs} dated({d}), {d}.len() <= most(), avg_range_start < avg_range_end <= {d}.len(), avg_x == sumt({d}, avg_range_start as int, avg_range_start + i), avg_y == sumv({d}, avg_range_start as int, avg_range_start + i), vxi1.seq().len() == avg_range_end - avg_range_start""",
             2: f"""invariant {xs} dated({d}), {d}.len() <= most(), range_offs < range_to <= {d}.len(), 0 <= a < {d}.len(), point_a_x == {d}[a as int].ts, point_a_y == {d}[a as int].val, -0x1000_0000_0000_0000 <= avg_x <= 0x1000_0000_0000_0000,
                range_offs <= next_a < range_to, vxi2.seq().len() == range_to - range_offs, chosen({d}, range_offs as int, range_offs + i, a as int, next_a as int, avg_x as int, avg_y, max_area)"""}
    ghost = {r"before for i in vxi0": "let ghost mut ks: Seq<int> = seq![0int];",
             "ls0": f"""let ghost vxo = i as int; let ghost (vxn, vxt) = ({d}.len() as int, threshold as int);
                proof {{ limits(vxo, vxn, vxt); assert(cut(vxo, vxn, vxt) == fcut(fmul(fint(vxo), every), 0, usize::MAX as int) + 1); assert(cut(vxo + 1, vxn, vxt) == fcut(fmul(fint(vxo + 1), every), 0, usize::MAX as int) + 1); assert(cut(vxo + 2, vxn, vxt) == fcut(fmul(fint(vxo + 2), every), 0, usize::MAX as int) + 1); }}""",
             "ls1": f"proof {{ sumt_range({d}, avg_range_start as int, avg_range_start + i); }}",
             "la1": f"proof {{ sumt_range({d}, avg_range_start as int, avg_range_end as int); quot_range(sumt({d}, avg_range_start as int, avg_range_end as int), avg_range_end - avg_range_start); exact(avg_range_end - avg_range_start); }}",
             "lb2": f"proof {{ choose_next({d}, range_offs as int, range_offs + i, a as int, next_a as int, avg_x as int, avg_y, max_area); }}",
             r"before sampled\.push\([^;]*next_a[^;]*;": f"proof {{ assert(avg_x == mean_t({d}, vxo, vxt)); assert(avg_y == mean_v({d}, vxo, vxt)); picked({d}, vxt, sampled@, ks, vxo, next_a as int, max_area); ks = ks.push(next_a as int); }}",
             r"before sampled\.push\([^;]*(?:num_points|len)\(\)[^;]*;": "let ghost vxs = sampled@;",
             "after sampled\\.push\\([^;]*(?:num_points|len)\\(\\)[^;]*;": f"proof {{ assert(sampled@.drop_last() =~= vxs); in_order({d}, threshold as int, sampled@); }}"}
    return dict(loops=loops, ghost=ghost)


P = "data.points@"
SPECS = dict(tv.SPECS)
SPECS["lttb"] = dict(contract("data@", ""), ret="r", rewrite=[QUOT], clauses="""requires data@.len() <= most(), dated(data@), threshold == 0 || threshold >= 2
        ensures sampled(data@, threshold as int, r@), sorted(data@) ==> sorted(r@)""")
SPECS["lttb_ts"] = dict(contract(P, "data.num_points as int == data.points@.len(), sorted(data.points@),"), ret="r", rewrite=[QUOT, (r"(\w+)\.len\(\) as _", r"(\1.len()).vx_as_u32()"), (r"points: sampled\.into\(\)", "points: vx_slice(sampled)"), (r"null_val: ([^\n]*)\.into\(\)", r"null_val: vx_slice(\1)")],
    clauses="""requires data.wf(), data.points@.len() <= most(), dated(data.points@), threshold == 0 || threshold >= 2
        ensures data.flags & 1 != 0, sampled(data.points@, threshold as int, r.points@), r.wf(), r.flags & 1 != 0""")
SPECS["lttb_ts"]["ghost"]["start"] = "proof { flags(); }"
SPECS["lttb_on_timevector"] = dict(ret="r", clauses="""requires series.wf(), series.points@.len() <= most(), dated(series.points@), threshold == 0 || threshold >= 2
        ensures series.flags & 1 != 0, r is Some, sampled(series.points@, threshold as int, r->0.points@), r->0.wf(), r->0.flags & 1 != 0""", rewrite=[(r"lttb_ts\((.*?)\)\.into\(\)", r"Some(lttb_ts(\1))")])


SPECS["lttb_trans_inner"] = dict(ret="r", clauses="""ensures val is None ==> r == state,
        val is Some && state is None ==> resolution > 2 && r is Some && r->0.resolution == resolution && r->0.gap_interval == 0 && r->0.series@ == seq![TSPoint { ts: time.t, val: val->0 }],
        val is Some && state is Some ==> r is Some && r->0.resolution == state->0.resolution && r->0.gap_interval == state->0.gap_interval && r->0.series@ == state->0.series@.push(TSPoint { ts: time.t, val: val->0 })""",
    rewrite=[(r"(LttbTrans \{[^}]*\})\s*\.into\(\)", r"Box::new(\1)"), (r"time\.into\(\)", "time.us()"), (r"\(resolution\)\.vx_as_usize\(\)", "(if resolution < 0 { vx_refuse() } else { resolution as usize })")])
FIN = [(r"state\.series\.sort_by_key\(\|point\| point\.ts\);", "let mut vxser: Vec<TSPoint> = Vec::new(); vxser.append(&mut state.series); vx_sort(&mut vxser); state.series = vxser;"),
       (r"\}\)\s*\.into\(\)", "})"), (r"flatten!\(", "Some("), (r"null_val: ([^\n]*?)\.into\(\)", r"null_val: vx_slice(\1)")]
SPECS["lttb_final_inner"] = dict(ret="r", clauses="""requires state is Some ==> in_limits(*state->0)
        ensures state is None ==> r is None, state is Some ==> r is Some && r->0.wf() && r->0.flags & 1 != 0 && exists|s: Seq<TSPoint>| sorted(s) && s.to_multiset() == state->0.series@.to_multiset() && (sorted(state->0.series@) ==> s == state->0.series@) && #[trigger] sampled(s, state->0.resolution as int, r->0.points@)""",
    rewrite=FIN + [(r"&state\.series\[\.\.\]", "state.series.as_slice()"), (r"points: \(&\*downsampled\)\.into\(\)", "points: vx_slice(downsampled.to_owned())")],
    ghost={"start": "proof { flags(); }", })
SPECS["gap_preserving_lttb_final_inner"] = dict(ret="r", clauses="""requires state is Some ==> in_limits(*state->0)
        ensures state is None ==> r is None, state is Some ==> r is Some && r->0.flags & 1 != 0, state is Some ==> r->0.wf(), state is Some ==> exists|s: Seq<TSPoint>| #[trigger] kept(*state->0, s, r->0.points@)""",
    rewrite=FIN + [(r"downsampled\s*\.append\(\s*&mut (lttb\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\s*\.into_owned\(\)),?\s*\)", r"let vxpart = \1; vx_append(&mut downsampled, vxpart)"),
                   (r"let vxpart = ([^;]*pts_for_sgmt[^;]*); vx_append\(&mut downsampled, vxpart\)", r"let vxone = \1; vx_append(&mut downsampled, vxone)"), (r"let vxpart = ([^;]*); vx_append\(&mut downsampled, vxpart\)", r"let vxrest = \1; vx_append(&mut downsampled, vxrest)"),
                   (r"&state\.series\[start\.\.=i\]", "vx_sub(&state.series, start, i + 1)"), (r"&state\.series\[start\.\.count\]", "vx_sub(&state.series, start, count)"),
                   (r"std::cmp::max\(", "vx_max2("),
                   (r"let mut endpoints_remaining = ", "let mut endpoints_remaining: usize = "), (r"let mut start = ", "let mut start: usize = "), (r"let mut downsampled = ", "let mut downsampled: Vec<TSPoint> = "),
                   (r"points: downsampled\.into\(\)", "points: vx_slice(downsampled)"), (r"(Some\(Timevector[^}]*\}\))", r"let vxres = \1; proof { assert(vxres->0.points@ == vxr); } vxres")],
    loops={0: "invariant s == state.series@, dated(s), count == s.len(), 1 <= count <= most(), g == max_gap, vxi0.seq().len() == count - 1, start == start_at(s, g, i as int), endpoints_remaining == ends_before(s, g, i as int)",
           1: """invariant s == state.series@, dated(s), sorted(s), count == s.len(), 1 <= count <= most(), g == max_gap, state.resolution == vxl.resolution, 3 <= state.resolution <= 0x7fff_ffff, vxi1.seq().len() == count - 1, start == start_at(s, g, i as int), endpoints_remaining == ends(s, g) - ends_before(s, g, i as int),
                lay(s, g, start as int, downsampled@), -2 * (most() + 0) <= points_remaining <= 0x7fff_ffff, points_remaining >= -2 * i,
                downsampled@.len() + points_remaining <= state.resolution, points_remaining >= endpoints_remaining || downsampled@.len() + endpoints_remaining <= ends(s, g)"""},
    ghost={"start": "hide(kept); hide(sampled); let ghost vxin = state; proof { flags(); }", r"before let mut vxser": "let ghost vxst = state;",
           r"before let count = ": "let ghost s = state.series@; let ghost vxl = *state; proof { assert(s.len() >= 1); assert(dated(s)); let (vxa, vxb) = (s[0], s[s.len() - 1]); }",
           r"after let max_gap = [^;]*;[^;]*;": "let ghost g = max_gap as int; proof { }",
           "ls0": "proof { starts(s, g, i as int); let (vxa, vxb) = (s[i as int], s[i + 1]); }",
           "ls1": "proof { starts(s, g, i as int); remaining(s, g, i as int); remaining(s, g, i + 1); let (vxa, vxb) = (s[i as int], s[i + 1]); }",
           "la0": "proof { starts(s, g, count - 1); }",
           r"before downsampled\.push\(state\.series\[i\]": "proof { single(s, g, i as int, downsampled@); }",
           r"before downsampled\.push\(state\.series\[count": "proof { single(s, g, count - 1, downsampled@); }",
           r"before let sgmt_pct": "proof { share(points_remaining - endpoints_remaining, i - start - 1, count - start - endpoints_remaining); assert(dated(s.subrange(start as int, i + 1))); }",
           r"before vx_append\([^;]*vxone": "proof { stretch(s, g, i + 1, downsampled@, vxone@, pts_for_sgmt as int); }",
           r"before vx_append\([^;]*vxrest": "proof { stretch(s, g, count as int, downsampled@, vxrest@, if points_remaining > 2 { points_remaining as int } else { 2 }); }",
           r"before let vxone": "proof { assert(pts_for_sgmt <= 2 + if points_remaining > endpoints_remaining { points_remaining - endpoints_remaining } else { 0 }); }",
           r"before for i in vxi1": "proof { lay_zero(s, g, downsampled@); remaining(s, g, 0); }",
           r"before let vxrest": "proof { assert(dated(s.subrange(start as int, count as int))); }",
           r"before let vxres =": "let ghost vxr = downsampled@; proof { remaining(s, g, 0); starts(s, g, 0); assert(downsampled@.len() <= 0x7fff_ffff); laid(*vxst, s, downsampled@);  assert(vxin == Some(vxst)); assert(kept(*vxin->0, s, vxr)); }",
           "la1": "proof { starts(s, g, count - 1); remaining(s, g, count - 1); }",
           })
