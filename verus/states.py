import tv
S = "extension/src/state_aggregate.rs"
R = "extension/src/state_aggregate/rollup.rs"
ASSUMED = ["String is its bytes, valid UTF-8 and shorter than 2^62: find gives the first place where the bytes occur, get gives a range of whole characters", "HashMap is a map; its entries come in any order, each once; a state aggregate has fewer than 2^32 different states",
           "sort_by (std) puts elements in the order of the comparison and compares those that end up next to each other", "flat_serialize's Slice holds the elements it is built from", "binary_search_by (std)"]
USES = "use core::cmp::Ordering;"
PRELUDE = tv.PRELUDE[:tv.PRELUDE.index("pub assume_specification")] + r"""
global size_of usize == 8;
pub struct FunctionCallInfo { pub f: u64 }
pub fn vx_slice<T>(v: Vec<T>) -> (r: VxSlice<T>) ensures r@ == v@ { VxSlice { v } }
impl<T: Copy> VxSlice<T> {
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
}
pub fn vx_at<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { &mut v[i] }
pub fn vx_top<T>(v: &Vec<T>) -> (r: usize) requires v@.len() > 0 ensures r == v@.len() - 1 { v.len() - 1 }
#[verifier::external_body]
pub struct VxStr { x: u8 }
pub uninterp spec fn utf8(b: Seq<u8>) -> bool;
pub open spec fn whole(b: Seq<u8>, a: int, e: int) -> bool { 0 <= a <= e <= b.len() && utf8(b.subrange(a, e)) && (a < e || a == 0) }
impl VxStr {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r < 0x4000_0000_0000_0000 { unimplemented!() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 }
    #[verifier::external_body]
    pub fn push_str(&mut self, o: &VxStr) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, o: &VxStr) -> (r: Option<usize>) ensures r is Some ==> r->0 + o@.len() <= self@.len() && self@.subrange(r->0 as int, r->0 + o@.len()) == o@ && (o@.len() == 0 ==> r->0 == 0) && r->0 + o@.len() < 0x4000_0000_0000_0000,
        r is None ==> forall|i: int| 0 <= i && i + o@.len() <= self@.len() ==> #[trigger] self@.subrange(i, i + o@.len()) != o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get(&self, a: usize, b: usize) -> (r: Option<VxStr>) ensures whole(self@, a as int, b as int) ==> r is Some && r->0@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VxStr) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: VxStr) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: VxStr) requires utf8(v@) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_of(v: &[u8]) -> (r: VxStr) requires utf8(v@) ensures r@ == v@ { unimplemented!() }
}
#[verifier::external_body]
pub proof fn str_utf8(s: &VxStr) ensures utf8(s@), s@.len() < 0x4000_0000_0000_0000 { }
pub enum St { Text(Seq<u8>), Int(int) }
impl MaterializedState {
    pub open spec fn view(&self) -> St { match self { MaterializedState::String(s) => St::Text(s@), MaterializedState::Integer(i) => St::Int(*i as int) } }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl PartialEq for MaterializedState { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for MaterializedState {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
/// the state that an entry stands for in these names
pub open spec fn valid(b: Seq<u8>, e: StateEntry) -> bool { e.a == i64::MAX || whole(b, e.a as int, e.b as int) }
pub open spec fn mat(b: Seq<u8>, e: StateEntry) -> St { if e.a == i64::MAX { St::Int(e.b as int) } else { St::Text(b.subrange(e.a as int, e.b as int)) } }
pub open spec fn grows(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
pub proof fn grown(a: Seq<u8>, b: Seq<u8>, e: StateEntry)
    requires grows(a, b), valid(a, e)
    ensures valid(b, e), mat(b, e) == mat(a, e)
{ if e.a != i64::MAX { assert(b.subrange(e.a as int, e.b as int) =~= b.subrange(0, a.len() as int).subrange(e.a as int, e.b as int)); } }
/// a row: at time t the state is s
pub struct Rv { pub t: int, pub s: St }
/// a period: from a to b the state is s
pub struct Pv { pub a: int, pub b: int, pub s: St }
pub open spec fn rows(v: Seq<Record>) -> Seq<Rv> { Seq::new(v.len(), |i: int| Rv { t: v[i].time as int, s: v[i].state@ }) }
/// the maximal periods of one state, each lasting until the next change
pub open spec fn timeline(r: Seq<Rv>) -> Seq<Pv> decreases r.len() {
    if r.len() == 0 { Seq::empty() } else { let p = timeline(r.drop_last()); let x = r.last();
        if p.len() == 0 { seq![Pv { a: x.t, b: x.t, s: x.s }] } else { let q = p.update(p.len() - 1, Pv { a: p.last().a, b: x.t, s: p.last().s }); if p.last().s == x.s { q } else { q.push(Pv { a: x.t, b: x.t, s: x.s }) } } }
}
pub open spec fn in_order(r: Seq<Rv>) -> bool { (forall|i: int, j: int| 0 <= i <= j < r.len() ==> (#[trigger] r[i]).t <= (#[trigger] r[j]).t) && forall|i: int, j: int| 0 <= i <= j < r.len() && (#[trigger] r[i]).t == (#[trigger] r[j]).t ==> r[i].s == r[j].s }
pub open spec fn spent(p: Seq<Pv>, s: St) -> int decreases p.len() { if p.len() == 0 { 0 } else { spent(p.drop_last(), s) + if p.last().s == s { p.last().b - p.last().a } else { 0 } } }
pub open spec fn occurs(p: Seq<Pv>, s: St) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).s == s }
pub open spec fn seen(r: Seq<Rv>, s: St) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).s == s }
/// periods without gaps, of alternating states
pub open spec fn line(p: Seq<Pv>) -> bool { p.len() > 0 && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).a <= p[i].b) && (forall|i: int, j: int| 0 <= i && j == i + 1 && j < p.len() ==> (#[trigger] p[i]).b == (#[trigger] p[j]).a && p[i].s != p[j].s) }
/// two timelines, one after the other: the first one's last state lasts until the second one starts
pub open spec fn joined(p: Seq<Pv>, q: Seq<Pv>) -> Seq<Pv> {
    if p.last().s == q[0].s { p.drop_last().push(Pv { a: p.last().a, b: q[0].b, s: q[0].s }) + q.drop_first() } else { p.update(p.len() - 1, Pv { a: p.last().a, b: q[0].a, s: p.last().s }) + q }
}
pub proof fn spent_concat(p: Seq<Pv>, q: Seq<Pv>, s: St) ensures spent(p + q, s) == spent(p, s) + spent(q, s) decreases q.len()
{ if q.len() == 0 { assert(p + q =~= p); } else { assert((p + q).drop_last() =~= p + q.drop_last()); spent_concat(p, q.drop_last(), s); } }
pub proof fn spent_last(p: Seq<Pv>, x: Pv, s: St) requires p.len() > 0
    ensures spent(p.update(p.len() - 1, x), s) == spent(p.drop_last(), s) + if x.s == s { x.b - x.a } else { 0 }
{ assert(p.update(p.len() - 1, x).drop_last() =~= p.drop_last()); }
pub proof fn spent_push(p: Seq<Pv>, x: Pv, s: St) ensures spent(p.push(x), s) == spent(p, s) + if x.s == s { x.b - x.a } else { 0 } { assert(p.push(x).drop_last() =~= p); }
pub proof fn spent_first(p: Seq<Pv>, s: St) requires p.len() > 0
    ensures spent(p, s) == spent(p.drop_first(), s) + if p[0].s == s { p[0].b - p[0].a } else { 0 }
{ let f = Seq::empty().push(p[0]); assert(p =~= f + p.drop_first()); spent_concat(f, p.drop_first(), s); assert(f.drop_last() =~= Seq::empty()); assert(spent(f.drop_last(), s) == 0); }
pub proof fn spent_none(p: Seq<Pv>, s: St) requires !occurs(p, s) ensures spent(p, s) == 0 decreases p.len()
{ if p.len() > 0 { assert(p[p.len() - 1].s != s); assert(!occurs(p.drop_last(), s)) by { if occurs(p.drop_last(), s) { let i = choose|i: int| 0 <= i < p.len() - 1 && (#[trigger] p.drop_last()[i]).s == s; assert(p[i].s == s); } } spent_none(p.drop_last(), s); } }
pub proof fn line_first(p: Seq<Pv>, n: int) requires line(p), 0 < n <= p.len() ensures line(p.subrange(0, n)) { }
pub proof fn spent_least(p: Seq<Pv>, s: St) requires line(p) ensures 0 <= spent(p, s) <= p.last().b - p[0].a decreases p.len()
{ if p.len() > 1 { let q = p.drop_last(); assert(line(q)); spent_least(q, s); assert(q.last() == p[p.len() - 2]); assert(p[p.len() - 2].b == p[p.len() - 1].a); } else { assert(p.drop_last() =~= Seq::empty()); assert(spent(p.drop_last(), s) == 0); assert(p[0].a <= p[0].b); } }
/// what a timeline is, said without recursion
pub proof fn told(r: Seq<Rv>)
    requires in_order(r), r.len() > 0
    ensures line(timeline(r)), timeline(r)[0].a == r[0].t, timeline(r)[0].s == r[0].s, timeline(r).last().b == r.last().t, timeline(r).last().s == r.last().s, forall|s: St| #[trigger] occurs(timeline(r), s) == seen(r, s),
        forall|i: int, j: int| 0 <= i < j < timeline(r).len() ==> (#[trigger] timeline(r)[i]).a < (#[trigger] timeline(r)[j]).a,
        forall|i: int, k: int| 0 <= i < r.len() && 0 <= k < timeline(r).len() && (#[trigger] timeline(r)[k]).a <= (#[trigger] r[i]).t && (r[i].t < timeline(r)[k].b || k == timeline(r).len() - 1) ==> timeline(r)[k].s == r[i].s
    decreases r.len()
{
    let (d, x) = (r.drop_last(), r.last());
    let t = timeline(r);
    if d.len() == 0 {
        assert(timeline(d) =~= Seq::empty());
        assert forall|s: St| #[trigger] occurs(t, s) == seen(r, s) by { if occurs(t, s) { assert(t[0].s == s); assert(r[0].s == s); } if seen(r, s) { assert(t[0].s == s); } }
        
    } else {
        told(d);
        let p = timeline(d);
        let n = p.len() as int;
        assert(d[d.len() - 1].t <= r[r.len() - 1].t);
        assert(d.last() == r[r.len() - 2]);
        assert(r[0].t <= r[r.len() - 1].t);
        if p.last().s != x.s { assert(d.last().t < x.t); }
        assert(p[n - 1].a <= p[n - 1].b);
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() implies (#[trigger] t[i]).b == (#[trigger] t[j]).a && t[i].s != t[j].s by { if j < n { assert(p[i].b == p[j].a && p[i].s != p[j].s); } }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).a < (#[trigger] t[j]).a by { if j < n { assert(p[i].a < p[j].a); } else { if i < n - 1 { assert(p[i].a < p[n - 1].a); } } }
        assert forall|s: St| #[trigger] occurs(t, s) == seen(r, s) by {
            assert(occurs(p, s) == seen(d, s));
            if occurs(t, s) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).s == s; if i < n { assert(p[i].s == s); let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).s == s; assert(r[k].s == s); } else { assert(r[r.len() - 1].s == s); } }
            if seen(r, s) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).s == s; if i < d.len() { assert(d[i].s == s); let k = choose|k: int| 0 <= k < n && (#[trigger] p[k]).s == s; assert(t[k].s == s); } else { assert(t[t.len() - 1].s == s); } }
        }
        assert forall|i: int, k: int| 0 <= i < r.len() && 0 <= k < t.len() && (#[trigger] t[k]).a <= (#[trigger] r[i]).t && (r[i].t < t[k].b || k == t.len() - 1) implies t[k].s == r[i].s by {
            if i < d.len() {
                assert(r[i] == d[i]);
                assert(d[i].t <= d[d.len() - 1].t);
                if k < n - 1 { assert(p[k].a <= d[i].t); }
                else if k == n - 1 { if p[n - 1].a <= d[i].t { } }
                else { assert(x.t <= r[i].t); }
            } else if k < t.len() - 1 {
                assert(t[k].b == t[k + 1].a);
                if k + 1 < n { assert(t[k + 1].a == p[k + 1].a && p[k + 1].a <= p[n - 1].a) by { if k + 1 < n - 1 { assert(p[k + 1].a < p[n - 1].a); } } }
            }
        }
    }
}
/// splitting the rows anywhere and joining the timelines gives the timeline of all rows
pub proof fn split(x: Seq<Rv>, y: Seq<Rv>)
    requires in_order(x + y), x.len() > 0, y.len() > 0
    ensures timeline(x + y) == joined(timeline(x), timeline(y))
    decreases y.len()
{
    assert(in_order(x)) by { assert forall|i: int, j: int| 0 <= i <= j < x.len() implies (#[trigger] x[i]).t <= (#[trigger] x[j]).t && (x[i].t == x[j].t ==> x[i].s == x[j].s) by { assert((x + y)[i] == x[i] && (x + y)[j] == x[j]); } }
    assert(in_order(y)) by { assert forall|i: int, j: int| 0 <= i <= j < y.len() implies (#[trigger] y[i]).t <= (#[trigger] y[j]).t && (y[i].t == y[j].t ==> y[i].s == y[j].s) by { let n = x.len() as int; assert((x + y)[n + i] == y[i] && (x + y)[n + j] == y[j]); } }
    told(x);
    told(y);
    let (p, d, z) = (timeline(x), y.drop_last(), y.last());
    assert((x + y).drop_last() =~= x + d);
    if d.len() == 0 {
        assert(x + d =~= x);
        assert(timeline(d) =~= Seq::empty());
        let q = timeline(y);
        assert(q =~= seq![Pv { a: z.t, b: z.t, s: z.s }]);
        assert(timeline(x + y) =~= joined(p, q));
    } else {
        assert(in_order(x + d)) by { assert forall|i: int, j: int| 0 <= i <= j < (x + d).len() implies (#[trigger] (x + d)[i]).t <= (#[trigger] (x + d)[j]).t && ((x + d)[i].t == (x + d)[j].t ==> (x + d)[i].s == (x + d)[j].s) by { assert((x + y)[i] == (x + d)[i] && (x + y)[j] == (x + d)[j]); } }
        split(x, d);
        assert(in_order(d)) by { assert forall|i: int, j: int| 0 <= i <= j < d.len() implies (#[trigger] d[i]).t <= (#[trigger] d[j]).t && (d[i].t == d[j].t ==> d[i].s == d[j].s) by { assert(d[i] == y[i] && d[j] == y[j]); } }
        told(d);
        let q = timeline(d);
        assert(timeline(x + y) =~= joined(p, timeline(y)));
    }
}
/// a state and the time spent in it
pub struct Dv { pub n: int, pub s: St }
/// an aggregate's parts
pub struct Ag { pub d: Seq<Dv>, pub c: Seq<Pv>, pub ft: int, pub lt: int, pub fs: int, pub ls: int, pub compact: bool, pub ints: bool }
pub open spec fn read(b: Seq<u8>, d: Seq<DurationInState>) -> Seq<Dv> { Seq::new(d.len(), |i: int| Dv { n: d[i].duration as int, s: mat(b, d[i].state) }) }
pub open spec fn periods(b: Seq<u8>, c: Seq<TimeInState>) -> Seq<Pv> { Seq::new(c.len(), |i: int| Pv { a: c[i].start_time as int, b: c[i].end_time as int, s: mat(b, c[i].state) }) }
pub open spec fn known(b: Seq<u8>, d: Seq<DurationInState>) -> bool { forall|i: int| 0 <= i < d.len() ==> valid(b, (#[trigger] d[i]).state) }
pub open spec fn named(b: Seq<u8>, c: Seq<TimeInState>) -> bool { forall|i: int| 0 <= i < c.len() ==> valid(b, (#[trigger] c[i]).state) }
pub open spec fn legible(b: Seq<u8>, d: Seq<DurationInState>, c: Seq<TimeInState>) -> bool { utf8(b) && b.len() < 0x4000_0000_0000_0000 && known(b, d) && named(b, c) }
pub proof fn read_push(b: Seq<u8>, d: Seq<DurationInState>, x: DurationInState) ensures read(b, d.push(x)) == read(b, d).push(Dv { n: x.duration as int, s: mat(b, x.state) }) { assert(read(b, d.push(x)) =~= read(b, d).push(Dv { n: x.duration as int, s: mat(b, x.state) })); }
pub proof fn named_push(b: Seq<u8>, c: Seq<TimeInState>, x: TimeInState) requires named(b, c), valid(b, x.state) ensures named(b, c.push(x)), periods(b, c.push(x)) == periods(b, c).push(Pv { a: x.start_time as int, b: x.end_time as int, s: mat(b, x.state) }) { let d = c.push(x); assert forall|i: int| 0 <= i < d.len() implies valid(b, (#[trigger] d[i]).state) by { if i < c.len() { assert(valid(b, c[i].state)); } } assert(periods(b, d) =~= periods(b, c).push(Pv { a: x.start_time as int, b: x.end_time as int, s: mat(b, x.state) })); }
pub proof fn all_grown(a: Seq<u8>, b: Seq<u8>, d: Seq<DurationInState>, c: Seq<TimeInState>)
    requires grows(a, b)
    ensures known(a, d) ==> known(b, d) && read(b, d) == read(a, d), named(a, c) ==> named(b, c) && periods(b, c) == periods(a, c)
{
    if known(a, d) { assert forall|i: int| 0 <= i < d.len() implies valid(b, (#[trigger] d[i]).state) && mat(b, d[i].state) == mat(a, d[i].state) by { grown(a, b, d[i].state); } assert(read(b, d) =~= read(a, d)); }
    if named(a, c) { assert forall|i: int| 0 <= i < c.len() implies valid(b, (#[trigger] c[i]).state) && mat(b, c[i].state) == mat(a, c[i].state) by { grown(a, b, c[i].state); } assert(periods(b, c) =~= periods(a, c)); }
}
impl CompactStateAgg {
    pub open spec fn view(&self) -> Ag { Ag { d: read(self.states@, self.durations@), c: periods(self.states@, self.combined_durations@), ft: self.first_time as int, lt: self.last_time as int, fs: self.first_state as int, ls: self.last_state as int, compact: self.compact, ints: self.integer_states } }
    pub open spec fn wf(&self) -> bool { legible(self.states@, self.durations@, self.combined_durations@) }
    #[verifier::external_body]
    pub fn states_as_str(&self) -> (r: &VxStr) requires utf8(self.states@) ensures r@ == self.states@ { unimplemented!() }
}
pub open spec fn date(t: int) -> bool { -0x1000_0000_0000_0000 <= t <= 0x1000_0000_0000_0000 }
pub open spec fn total(d: Seq<Dv>, s: St) -> int decreases d.len() { if d.len() == 0 { 0 } else { total(d.drop_last(), s) + if d.last().s == s { d.last().n } else { 0 } } }
pub open spec fn listed(d: Seq<Dv>, s: St) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).s == s }
/// every state once
pub open spec fn once(d: Seq<Dv>) -> bool { forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && (#[trigger] d[i]).s == (#[trigger] d[j]).s ==> i == j }
/// the durations are those of the timeline p
pub open spec fn adds_up(d: Seq<Dv>, p: Seq<Pv>) -> bool { once(d) && forall|s: St| #![trigger total(d, s)] #![trigger spent(p, s)] #![trigger listed(d, s)] #![trigger occurs(p, s)] total(d, s) == spent(p, s) && listed(d, s) == occurs(p, s) }
/// the aggregate describes the timeline p
pub open spec fn fits(g: Ag, p: Seq<Pv>) -> bool {
    line(p) && date(g.ft) && date(g.lt) && p[0].a == g.ft && p.last().b == g.lt && 0 <= g.fs < g.d.len() && 0 <= g.ls < g.d.len() && g.d.len() <= u32::MAX && g.d[g.fs].s == p[0].s && g.d[g.ls].s == p.last().s && adds_up(g.d, p) && g.c == if g.compact { Seq::empty() } else { p }
}
/// every duration is at most the time between the first and the last row
pub open spec fn bounded(g: Ag) -> bool { forall|i: int| 0 <= i < g.d.len() ==> 0 <= (#[trigger] g.d[i]).n <= g.lt - g.ft }
pub proof fn total_at(d: Seq<Dv>, i: int) requires once(d), 0 <= i < d.len() ensures total(d, d[i].s) == d[i].n decreases d.len()
{
    let s = d[i].s;
    let e = d.drop_last();
    assert forall|x: int, y: int| 0 <= x < e.len() && 0 <= y < e.len() && (#[trigger] e[x]).s == (#[trigger] e[y]).s implies x == y by { assert(d[x].s == d[y].s); }
    if i == d.len() - 1 { assert(!listed(e, s)) by { if listed(e, s) { let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).s == s; assert(d[k].s == d[i].s); } } total_none(e, s); }
    else { assert(e[i] == d[i]); total_at(e, i); assert(d[d.len() - 1].s != s) by { if d[d.len() - 1].s == s { assert(d[i].s == d[d.len() - 1].s); } } }
}
pub proof fn total_none(d: Seq<Dv>, s: St) requires !listed(d, s) ensures total(d, s) == 0 decreases d.len()
{ if d.len() > 0 { assert(d[d.len() - 1].s != s); assert(!listed(d.drop_last(), s)) by { if listed(d.drop_last(), s) { let k = choose|k: int| 0 <= k < d.len() - 1 && (#[trigger] d.drop_last()[k]).s == s; assert(d[k].s == s); } } total_none(d.drop_last(), s); } }
pub proof fn total_push(d: Seq<Dv>, x: Dv, s: St) ensures total(d.push(x), s) == total(d, s) + if x.s == s { x.n } else { 0 } { assert(d.push(x).drop_last() =~= d); }
pub proof fn listed_push(d: Seq<Dv>, x: Dv, s: St) ensures listed(d.push(x), s) == (listed(d, s) || x.s == s)
{ let e = d.push(x); if listed(d, s) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).s == s; assert(e[i].s == s); } if x.s == s { assert(e[d.len() as int].s == s); } if listed(e, s) && x.s != s { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).s == s; assert(d[i].s == s); } }
pub proof fn total_update(d: Seq<Dv>, i: int, x: Dv, s: St) requires 0 <= i < d.len(), x.s == d[i].s ensures total(d.update(i, x), s) == total(d, s) + (if x.s == s { x.n - d[i].n } else { 0 }), listed(d.update(i, x), s) == listed(d, s) decreases d.len()
{
    let e = d.update(i, x);
    if i == d.len() - 1 { assert(e.drop_last() =~= d.drop_last()); } else { assert(e.drop_last() =~= d.drop_last().update(i, x)); total_update(d.drop_last(), i, x, s); }
    if listed(d, s) { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).s == s; assert(e[k].s == s); }
    if listed(e, s) { let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).s == s; assert(d[k].s == s); }
}
pub proof fn once_push(d: Seq<Dv>, x: Dv) requires once(d), !listed(d, x.s) ensures once(d.push(x))
{ let e = d.push(x); assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && (#[trigger] e[i]).s == (#[trigger] e[j]).s implies i == j by { let n = d.len(); if i < n && j < n { assert(d[i].s == d[j].s); } else if i < n { assert(d[i].s == x.s); } else if j < n { assert(d[j].s == x.s); } } }
pub proof fn once_update(d: Seq<Dv>, i: int, x: Dv) requires once(d), 0 <= i < d.len(), x.s == d[i].s ensures once(d.update(i, x))
{ let e = d.update(i, x); assert forall|a: int, b: int| 0 <= a < e.len() && 0 <= b < e.len() && (#[trigger] e[a]).s == (#[trigger] e[b]).s implies a == b by { assert(d[a].s == d[b].s); } }
pub proof fn within_bounds(g: Ag, p: Seq<Pv>) requires fits(g, p) ensures bounded(g), g.ft <= g.lt
{
    assert forall|i: int| 0 <= i < g.d.len() implies 0 <= (#[trigger] g.d[i]).n <= g.lt - g.ft by { total_at(g.d, i); assert(total(g.d, g.d[i].s) == spent(p, g.d[i].s)); spent_least(p, g.d[i].s); }
    spent_least(p, p[0].s);
}
pub proof fn looked_up(d: Seq<Dv>, p: Seq<Pv>, s: St) requires adds_up(d, p) ensures forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]).s == s ==> d[i].n == spent(p, s), !listed(d, s) ==> spent(p, s) == 0
{ assert(total(d, s) == spent(p, s)); assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]).s == s implies d[i].n == spent(p, s) by { total_at(d, i); } if !listed(d, s) { total_none(d, s); } }
#[verifier::external_body]
pub struct VxHash { x: u8 }
impl VxHash {
    pub uninterp spec fn view(&self) -> Map<St, i64>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<St, i64>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &MaterializedState) -> (r: Option<&mut i64>)
        ensures match r { Some(x) => old(self)@.contains_key(k@) && *x == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(x)), None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: MaterializedState, v: i64) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_or_insert(&mut self, k: MaterializedState, v: i64) ensures final(self)@ == if old(self)@.contains_key(k@) { old(self)@ } else { old(self)@.insert(k@, v) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pairs(self) -> (r: Vec<(MaterializedState, i64)>)
        ensures r@.len() <= u32::MAX, forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0@) && self@[r@[i].0@] == r@[i].1, forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
            forall|s: St| #[trigger] self@.contains_key(s) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == s { unimplemented!() }
}
/// the state of DurationState after the rows r
pub open spec fn tracks(d: DurationState, r: Seq<Rv>) -> bool {
    &&& in_order(r) && (r.len() == 0 ==> d.last_state is None && d.durations@ == Map::<St, i64>::empty())
    &&& r.len() > 0 ==> d.last_state is Some && (d.last_state->0).0@ == r.last().s && (d.last_state->0).1 == r.last().t && (forall|s: St| #[trigger] d.durations@.contains_key(s) == seen(r.drop_last(), s)) && forall|s: St| #[trigger] d.durations@.contains_key(s) ==> d.durations@[s] == spent(timeline(r), s)
}
pub proof fn tracked(a: DurationState, b: DurationState, r: Seq<Rv>, x: Rv)
    requires tracks(a, r), in_order(r.push(x)), b.last_state is Some, (b.last_state->0).0@ == x.s, (b.last_state->0).1 == x.t, r.len() == 0 ==> b.durations@ == a.durations@,
        r.len() > 0 ==> b.durations@ == a.durations@.insert(r.last().s, (if a.durations@.contains_key(r.last().s) { a.durations@[r.last().s] + (x.t - r.last().t) } else { x.t - r.last().t }) as i64),
        r.len() > 0 && a.durations@.contains_key(r.last().s) ==> i64::MIN <= a.durations@[r.last().s] + (x.t - r.last().t) <= i64::MAX, r.len() > 0 ==> i64::MIN <= x.t - r.last().t <= i64::MAX
    ensures tracks(b, r.push(x))
{
    let n = r.push(x);
    assert(n.drop_last() =~= r);
    if r.len() == 0 { assert(timeline(r) =~= Seq::empty()); }
    else {
        told(r);
        let p = timeline(r);
        let l = r.last();
        let y = Pv { a: p.last().a, b: x.t, s: p.last().s };
        assert forall|s: St| spent(timeline(n), s) == spent(p, s) + if s == l.s { x.t - l.t } else { 0 } by {
            spent_last(p, y, s);
            if p.last().s != x.s { spent_push(p.update(p.len() - 1, y), Pv { a: x.t, b: x.t, s: x.s }, s); }
        }
        assert forall|s: St| #[trigger] b.durations@.contains_key(s) == seen(r, s) by {
            assert(a.durations@.contains_key(s) == seen(r.drop_last(), s));
            if s == l.s { assert(r[r.len() - 1].s == s); }
            if seen(r.drop_last(), s) { let i = choose|i: int| 0 <= i < r.len() - 1 && (#[trigger] r.drop_last()[i]).s == s; assert(r[i].s == s); }
            if seen(r, s) && s != l.s { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).s == s; assert(r.drop_last()[i].s == s); }
        }
        assert forall|s: St| #[trigger] b.durations@.contains_key(s) implies b.durations@[s] == spent(timeline(n), s) by {
            if s == l.s && !a.durations@.contains_key(s) {
                assert(spent(p, s) == 0) by { assert(!seen(r.drop_last(), s)); first_time(r); }
            }
        }
    }
}
/// no time has been spent yet in a state that occurs in the last row only
pub proof fn first_time(r: Seq<Rv>)
    requires in_order(r), r.len() > 0, !seen(r.drop_last(), r.last().s)
    ensures spent(timeline(r), r.last().s) == 0
{
    let (d, s) = (r.drop_last(), r.last().s);
    assert(in_order(d)) by { assert forall|i: int, j: int| 0 <= i <= j < d.len() implies (#[trigger] d[i]).t <= (#[trigger] d[j]).t && (d[i].t == d[j].t ==> d[i].s == d[j].s) by { assert(d[i] == r[i] && d[j] == r[j]); } }
    let p = timeline(d);
    if d.len() == 0 { assert(p =~= Seq::empty()); let one = timeline(r); assert(one.drop_last() =~= Seq::empty()); assert(spent(one.drop_last(), s) == 0); }
    else {
        told(d);
        assert(!occurs(p, s));
        assert(p[p.len() - 1].s != s) by { assert(occurs(p, p[p.len() - 1].s)); }
        spent_none(p, s);
        let y = Pv { a: p.last().a, b: r.last().t, s: p.last().s };
        spent_last(p, y, s);
        spent_push(p.update(p.len() - 1, y), Pv { a: r.last().t, b: r.last().t, s }, s);
    }
}
/// q is a rearrangement of p
pub open spec fn rearranged<T>(p: Seq<T>, q: Seq<T>) -> bool { exists|w: Seq<int>| #[trigger] places(w, p.len() as int) && q == Seq::new(w.len(), |i: int| p[w[i]]) }
pub open spec fn places(w: Seq<int>, n: int) -> bool { w.len() == n && w.no_duplicates() && forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] w[i] < n }
/// sort_by with vx_compare
#[verifier::external_body]
pub fn vx_sort_records(v: &mut Vec<Record>)
    ensures rearranged(rows(old(v)@), rows(final(v)@)), rows(final(v)@).len() == rows(old(v)@).len(), forall|i: int, j: int| 0 <= i && j == i + 1 && j < final(v)@.len() ==> (#[trigger] final(v)@[i]).time <= (#[trigger] final(v)@[j]).time && (final(v)@[i].time == final(v)@[j].time ==> final(v)@[i].state@ == final(v)@[j].state@)
{ unimplemented!() }
pub proof fn in_steps(r: Seq<Rv>)
    requires forall|i: int, j: int| 0 <= i && j == i + 1 && j < r.len() ==> (#[trigger] r[i]).t <= (#[trigger] r[j]).t && (r[i].t == r[j].t ==> r[i].s == r[j].s)
    ensures in_order(r)
    decreases r.len()
{
    if r.len() > 1 {
        let d = r.drop_last();
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < d.len() implies (#[trigger] d[i]).t <= (#[trigger] d[j]).t && (d[i].t == d[j].t ==> d[i].s == d[j].s) by { assert(d[i] == r[i] && d[j] == r[j]); }
        in_steps(d);
        let n = r.len() - 1;
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).t <= (#[trigger] r[j]).t && (r[i].t == r[j].t ==> r[i].s == r[j].s) by {
            if j < n { assert(d[i] == r[i] && d[j] == r[j]); } else if i < n { assert(d[i] == r[i] && d[n - 1] == r[n - 1]); assert(r[n - 1].t <= r[n].t); assert(d[i].t <= d[n - 1].t); }
        }
    }
}
pub open spec fn record_view(r: Option<Record>) -> Option<Rv> { match r { None => None, Some(x) => Some(Rv { t: x.time as int, s: x.state@ }) } }
#[verifier::external_body]
pub fn vx_cloned(r: Option<&Record>) -> (q: Option<Record>) ensures r is None ==> q is None, r is Some ==> q is Some && q->0.time == r->0.time && q->0.state@ == r->0.state@ { unimplemented!() }
pub fn vx_first(v: &Vec<Record>) -> (r: Option<&Record>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->0 == v@[0] { if v.len() == 0 { None } else { Some(&v[0]) } }
pub fn vx_last(v: &Vec<Record>) -> (r: Option<&Record>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->0 == v@[v@.len() - 1] { if v.len() == 0 { None } else { Some(&v[v.len() - 1]) } }
"""
RENAME = [(r"\bpg_sys::FunctionCallInfo\b", "FunctionCallInfo"), (r"\bInner<RollupTransState>", "RollupTransState"), (r"\bself\.0\.", "self."), (r"pgrx::name!\(\w+, ([^()]*)\)", r"\1"), (r"TableIterator<\s*'a,\s*\(([^()]*)\),?\s*>", r"Vec<(\1)>"), (r"\bfn (\w+)<'a>", r"fn \1"), (r"state: Option<&mut State>", "state: &mut CompactStateAggTransState"), (r"crate::raw::Interval", "i64"), (r"\b(agg|aggregate|prev)\.0\.", r"\1."), (r"\bString\(String\)", "String(VxStr)"), (r"(?<!::)\bString\b(?!\()", "VxStr"), (r"&str\b", "&VxStr"), (r"std::collections::HashMap::new\(\)", "VxHash::new()"), (r"std::collections::HashMap<MaterializedState, i64>", "VxHash"), (r"std::cmp::Ordering", "Ordering"),
          (r"\[\s*(DurationInState|TimeInState|u8)\s*;\s*self\.[^\]]*\]", r"VxSlice<\1>"), (r"\.expect\(\s*\"[^\"]*\"\s*,?\s*\)", ".unwrap()"), (r"\b(CompactStateAgg|StateAgg)(Data)?<'\w+>", r"\1"),
          (r"\b(?:crate::)?flatten!\((\s*(?:CompactStateAgg|StateAgg)\s*\{[^}]*\}\s*)\)", r"\1"), (r"Slice::Slice\(&\[\]\)", "vx_slice(Vec::new())")]
COPY = "#[derive(Clone, Copy)]\n"
PARTS = [("enum", S, "MaterializedState"), ("struct", S, "StateEntry", COPY), ("struct", S, "DurationInState", COPY), ("struct", S, "TimeInState", COPY), ("struct", S, "Record"), ("struct", S, "CompactStateAggTransState"), ("struct", S, "DurationState"), ("struct", S, "CompactStateAgg"), ("struct", S, "StateAgg"), ("struct", R, "OwnedCompactStateAgg"), ("struct", R, "RollupTransState"),
         ("impl", S, "impl MaterializedState", ["entry", "existing_entry"]), ("impl", S, "impl StateEntry", ["from_str", "from_existing_str", "try_from_existing_str", "materialize"]),
         ("impl", S, "impl DurationState", ["new", "handle_record", "finalize"]), ("impl", S, "impl CompactStateAggTransState", ["new", "record", "append", "sort_records", "make_duration_map_and_bounds"]),
         ("impl", S, "impl CompactStateAgg<'_>", ["empty", "new", "get_materialized", "assert_int", "assert_str", "interpolate"], "impl CompactStateAgg"), ("impl", S, "impl<'input> StateAgg<'input>", ["new"], "impl StateAgg"),
         ("fn", S, "state_trans_inner"), ("impl", S, "impl toolkit_experimental::compact_state_agg", ["finally"], "impl VxCompactStateAgg"), ("impl", S, "impl state_agg", ["finally"], "impl VxStateAgg"),
         ("fn", S, "duration_in_inner"), ("fn", S, "range_tuple"), ("fn", S, "interpolated_duration_in_inner"), ("const", S, "NO_INTERVAL_MARKER"), ("fn", S, "state_at_inner"), ("fn", S, "state_timeline_inner"), ("fn", S, "state_int_timeline_inner"), ("fn", S, "state_periods_inner"), ("fn", S, "into_values"), ("fn", S, "into_int_values"), 
         ("impl", S, "impl StateEntry", ["as_str", "into_integer"]),
         ("impl", R, "impl Ord for OwnedCompactStateAgg", ["cmp"], "impl OwnedCompactStateAgg"), ("impl", R, "impl OwnedCompactStateAgg", ["merge"]), ("impl", R, "impl RollupTransState", ["merge"]),
         ("impl", R, "impl<'a> From<OwnedCompactStateAgg> for CompactStateAgg<'a>", ["from"], "impl CompactStateAgg"), ("impl", R, "impl<'a> From<CompactStateAgg<'a>> for OwnedCompactStateAgg", ["from"], "impl OwnedCompactStateAgg"),
         ("fn", R, "compact_state_agg_rollup_trans_inner"), ("fn", R, "state_agg_rollup_combine_inner"), ("fn", R, "compact_state_agg_rollup_final_inner"), ("fn", R, "state_agg_rollup_final_inner"),
         ]
N = r"ensures grows(old(states)@, final(states)@), valid(final(states)@, r), mat(final(states)@, r) == "
FINALLY = """requires old(state).records@.len() > 0, forall|i: int| 0 <= i < old(state).records@.len() ==> date((#[trigger] old(state).records@[i]).time as int)
    ensures r is Some, r->0%s.wf(), exists|x: Seq<Rv>| #[trigger] in_order(x) && rearranged(rows(old(state).records@), x) && fits(r->0%s@, timeline(x)), r->0%s.compact == %s, r->0%s.integer_states == old(state).integer_states"""
FINAL = [(r"state\.map\(\|s\| \{(?s:(.*))\}\)\s*\}$", r"let ghost v0 = rows(state.records@); let s = state; Some({ \1 }) }"),
         (r"for \(state, duration\) in vxi0: map\b[^{]*\{", r"""let ghost (all, h) = (rows(s.records@), map@); proof { dates(v0, all); told(all); }
            let vxv = map.vx_pairs(); let mut vxk: usize = 0; proof { assert(read(states@, durations@) =~= dvs(vxv@).subrange(0, 0)); } while vxk < vxv.len()
            invariant vxk <= vxv@.len(), vxv@.len() <= u32::MAX, known(states@, durations@), read(states@, durations@) == dvs(vxv@).subrange(0, vxk as int) decreases vxv@.len() - vxk
            { let (state, duration) = (vxv[vxk].0.clone(), vxv[vxk].1); let ghost (b0, d0) = (states@, durations@); vxk += 1; """)]
GROWN = {"le0": "proof { all_grown(b0, states@, d0, Seq::empty()); assert(durations@.drop_last() =~= d0); read_push(states@, d0, durations@.last()); assert(durations@ =~= d0.push(durations@.last())); assert(read(states@, durations@) =~= dvs(vxv@).subrange(0, vxk as int)); }"}
COUNTED = "proof { assert(dvs(vxv@).subrange(0, vxv@.len() as int) =~= dvs(vxv@)); pairs_add_up(vxv@, h, all); str_utf8(&states); }"
def table(field, tab, args, fn, ret, spec):
    return [(r"TableIterator::new\(\s*agg\s*\.%s\s*\.clone\(\)\s*\.into_iter\(\)\s*\.map\((?:move )?\|record\| (?s:(.*?))\)(?:\s*\.collect::<Vec<_>>\(\)\s*\.into_iter\(\))?,?\s*\)\s*\}$" % field, r"%s(%s) } pub fn %s -> (r: %s) %s { \1 }" % (tab, args, fn, ret, spec))]
OWNED = [(r"let states: String = agg\.states_as_str\(\)\.to_owned\(\);", "let states: String = agg.states_as_str().to_string();")]
ROLLED = """requires state is Some ==> sound(state->0) && forall|i: int| 0 <= i < state->0.values@.len() ==> described((#[trigger] state->0.values@[i])@)
        ensures state is None ==> r is None, state is Some ==> r is Some && ({ let a = r->0%s; a.wf() && exists|g: Seq<Ag>| #[trigger] one_after_another(g) && rearranged(gathered(state), g) && rolls(g, a@) })"""
ROLL = [(r"Some\(state\) => state\.clone\(\)", "Some(state) => state"), (r"state\.values\.drain\(\.\.\)\.next\(\)\.unwrap\(\)\.into\(\)", "Some(state.values.remove(0))")]
SPECS = {
    "entry": dict(ret="r", clauses=N + "self@", ghost={"start": "proof { assert(states@.subrange(0, states@.len() as int) =~= states@); }"}),
    "existing_entry": dict(ret="r", clauses="ensures valid(states@, r), mat(states@, r) == self@"),
    "from_str": dict(ret="r", clauses=N + "St::Text(new_state@)",
        rewrite=[(r"let \(a, b\) = if let Some\(bounds\) = states\s*\.find\(new_state\)\s*\.map\(\|idx\| (.*?)\)\s*\{", r"let (a, b) = if let Some(bounds) = match states.find(new_state) { Some(idx) => Some(\1), None => None } {")],
        ghost={"start": "let ghost b0 = states@; proof { str_utf8(new_state); str_utf8(states); assert(b0.subrange(0, b0.len() as int) =~= b0); assert((b0 + new_state@).subrange(b0.len() as int, (b0 + new_state@).len() as int) =~= new_state@); assert((b0 + new_state@).subrange(0, b0.len() as int) =~= b0); empty_found(b0, new_state@); }"}),
    "from_existing_str": dict(ret="r", clauses="ensures valid(states@, r), mat(states@, r) == St::Text(state@)"),
    "try_from_existing_str": dict(ret="r", clauses="ensures r is Some ==> valid(states@, r->0) && mat(states@, r->0) == St::Text(state@)",
        rewrite=[(r"states\s*\.find\(state\)\s*\.map\(\|idx\| (.*?)\)\s*\.map\(\|bounds\| (Self \{[^}]*\})\)", r"match states.find(state) { Some(idx) => { let bounds = \1; Some(\2) } None => None }")], ghost={"start": "proof { str_utf8(state); str_utf8(states); }"}),
    "materialize": dict(ret="r", clauses="requires valid(states@, *self) ensures r@ == mat(states@, *self)", rewrite=[(r"\.get\((\w[^()]*?)\.\.(\w[^()]*?)\)", r".vx_get(\1, \2)")], ghost={"start": "proof { str_utf8(states); }"}),
    "impl DurationState::new": dict(ret="r", clauses="ensures tracks(r, Seq::empty())"),
    "handle_record": dict(clauses="""requires old(self).last_state is Some ==> date((old(self).last_state->0).1 as int) && (old(self).last_state->0).1 <= time, date(time as int), forall|s: St| #[trigger] old(self).durations@.contains_key(s) ==> 0 <= old(self).durations@[s] <= 0x2000_0000_0000_0000
        ensures forall|r: Seq<Rv>| #[trigger] tracks(*old(self), r) && in_order(r.push(Rv { t: time as int, s: state@ })) ==> tracks(*final(self), r.push(Rv { t: time as int, s: state@ }))""",
        ghost={"start": "let ghost (d0, x) = (*self, Rv { t: time as int, s: state@ });", "end": "proof { assert forall|r: Seq<Rv>| #[trigger] tracks(d0, r) && in_order(r.push(x)) implies tracks(*self, r.push(x)) by { tracked(d0, *self, r, x); } }"}),
    "finalize": dict(clauses="ensures final(self).durations@ == match old(self).last_state { None => old(self).durations@, Some(l) => if old(self).durations@.contains_key(l.0@) { old(self).durations@ } else { old(self).durations@.insert(l.0@, 0) } }",
        rewrite=[(r"self\.durations\.entry\((\w+)\)\.or_insert\((\w+)\)", r"self.durations.vx_or_insert(\1, \2)")]),
    "impl CompactStateAggTransState::new": dict(ret="r", clauses="ensures r.records@.len() == 0, r.integer_states == integer_states"),
    "record": dict(clauses="ensures rows(final(self).records@) == rows(old(self).records@).push(Rv { t: time as int, s: state@ }), final(self).integer_states == old(self).integer_states", ghost={"start": "let ghost v0 = rows(self.records@); let ghost x = Rv { t: time as int, s: state@ };", "end": "proof { assert(rows(self.records@) =~= v0.push(x)); }"}),
    "append": dict(clauses="ensures rows(final(self).records@) == rows(old(self).records@) + rows(old(other).records@), final(self).integer_states == old(self).integer_states", ghost={"start": "let ghost (v0, w0) = (rows(self.records@), rows(other.records@));", "end": "proof { assert(rows(self.records@) =~= v0 + w0); }"}, rewrite=[(r"(\.append\([^;]*\))\s*\}$", r"\1; }")]),
    "sort_records": dict(clauses="ensures rearranged(rows(old(self).records@), rows(final(self).records@)), rows(final(self).records@).len() == rows(old(self).records@).len(), in_order(rows(final(self).records@)), final(self).integer_states == old(self).integer_states",
        rewrite=[(r"self\.records\.sort(?:_unstable)?_by\(\|a, b\| (\{(?s:.*)\})\);\s*\}$", r"""vx_sort_records(&mut self.records); proof { in_steps(rows(self.records@)); } }
pub fn vx_compare(a: &Record, b: &Record) -> (r: Ordering) ensures r == (if a.time < b.time { Ordering::Less } else if a.time > b.time { Ordering::Greater } else { Ordering::Equal }), a.time == b.time ==> a.state@ == b.state@ \1""")]),
    "make_duration_map_and_bounds": dict(ret="r", clauses="""requires old(self).records@.len() > 0, forall|i: int| 0 <= i < old(self).records@.len() ==> date((#[trigger] old(self).records@[i]).time as int)
        ensures rearranged(rows(old(self).records@), rows(final(self).records@)), in_order(rows(final(self).records@)), final(self).integer_states == old(self).integer_states, final(self).records@.len() == old(self).records@.len(),
            record_view(r.1) == Some(rows(final(self).records@)[0]), record_view(r.2) == Some(rows(final(self).records@).last()), r.1 is Some, r.2 is Some, forall|s: St| #[trigger] r.0@.contains_key(s) == seen(rows(final(self).records@), s), forall|s: St| #[trigger] r.0@.contains_key(s) ==> r.0@[s] == spent(timeline(rows(final(self).records@)), s)""",
        rewrite=[(r"self\.records\.first\(\), self\.records\.last\(\)", "vx_first(&self.records), vx_last(&self.records)"), (r"\b(first|last)\.cloned\(\)", r"vx_cloned(\1)"),
                 (r"for record in vxi0: &self\.records\b[^{]*\{", r"""let mut vxk: usize = 0; proof { assert(all.subrange(0, 0) =~= Seq::empty()); } while vxk < self.records.len()
          invariant vxk <= self.records@.len(), all == rows(self.records@), in_order(all), tracks(duration_state, all.subrange(0, vxk as int)), forall|i: int| 0 <= i < all.len() ==> date((#[trigger] all[i]).t)
          { let record = &self.records[vxk]; proof { step(all, vxk as int, duration_state); } """)],
        ghost={"after self\\.sort_records\\(\\);": "let ghost all = rows(self.records@); proof { dates(rows(old(self).records@), all); }", "le0": "vxk += 1;", "after duration_state\\.finalize\\(\\);": "proof { let n = all.len() as int; assert(all.subrange(0, n) =~= all); finished(d1, all); assert forall|s: St| #[trigger] duration_state.durations@.contains_key(s) == seen(all, s) by { assert(d1.durations@.contains_key(s) == seen(all.drop_last(), s)); finished_state(all, s); } }",
               "before duration_state\\.finalize\\(\\);": "let ghost d1 = duration_state;"}),
    "impl CompactStateAgg<'_>::empty": dict(ret="r", clauses="ensures r@.d.len() == 0, r@.c.len() == 0, r.compact == compact, r.integer_states == integer_states"),
    "impl CompactStateAgg<'_>::new": dict(ret="r", clauses="""requires 0 < durations@.len() <= u32::MAX, first is Some, last is Some, legible(states@, durations@, vx_inner(combined_durations)), listed(read(states@, durations@), first->0.state@), listed(read(states@, durations@), last->0.state@)
        ensures r.wf(), r@.d == read(states@, durations@), r@.c == (if combined_durations is None { Seq::<Pv>::empty() } else { periods(states@, vx_inner(combined_durations)) }), r@.compact == (combined_durations is None), r@.ints == integer_states, r@.ft == first->0.time, r@.lt == last->0.time,
            0 <= r@.fs < r@.d.len(), 0 <= r@.ls < r@.d.len(), r@.d[r@.fs].s == first->0.state@, r@.d[r@.ls].s == last->0.state@""",
        rewrite=[(r"for \(i, d\) in vxi0: durations\.iter\(\)\.enumerate\(\)[^{]*\{", r"""proof { str_utf8(&states); } let ghost (n, r0) = (durations@.len() as int, read(states@, durations@)); let mut vxk: usize = 0; while vxk < durations.len()
            invariant vxk <= durations@.len(), n == durations@.len(), r0 == read(states@, durations@), known(states@, durations@), first_state <= n, last_state <= n, first_state < n ==> r0[first_state as int].s == first.state@, last_state < n ==> r0[last_state as int].s == last.state@, first_state == n ==> (forall|j: int| 0 <= j < vxk ==> (#[trigger] r0[j]).s != first.state@), last_state == n ==> (forall|j: int| 0 <= j < vxk ==> (#[trigger] r0[j]).s != last.state@)
            ensures (first_state < n && last_state < n) || vxk == n decreases durations@.len() - vxk
            { let i = vxk; let d = &durations[vxk]; vxk += 1; proof { assert(r0[i as int].s == mat(states@, d.state)); } """),
            (r"combined_durations\s*\.map\(\|v\| v\.is_empty\(\)\)\.unwrap_or\(true\)", r"(match &combined_durations { Some(v) => v.len() == 0, None => true })"), (r"combined_durations\.unwrap_or_default\(\)", "match combined_durations { Some(v) => v, None => Vec::new() }"),
            (r"states\.into_bytes\(\)\.into\(\)", "vx_slice(states.into_bytes())"), (r"\(&\*(\w+)\)\.into\(\)", r"vx_slice_of(&\1)")]),
    "get_materialized": dict(ret="r", clauses="requires self.wf() ensures r is Some ==> exists|i: int| 0 <= i < self@.d.len() && (#[trigger] self@.d[i]).s == state@ && self@.d[i].n == r->0, r is None ==> !listed(self@.d, state@)",
        rewrite=[(r"for record in vxi0: self\.durations\.iter\(\)[^{]*\{", r"""let vxv = self.durations.as_slice(); let mut vxk: usize = 0; while vxk < vxv.len() invariant vxk <= vxv@.len(), vxv@ == self.durations@, self.wf(), forall|j: int| 0 <= j < vxk ==> (#[trigger] self@.d[j]).s != state@ decreases vxv@.len() - vxk
            { let record = &vxv[vxk]; vxk += 1; proof { assert(self@.d[vxk - 1].s == mat(self.states@, record.state)); } """)]),
    "impl<'input> StateAgg<'input>::new": dict(ret="r", clauses="ensures r.compact_state_agg == compact_state_agg", rewrite=[(r"compact_state_agg\.0", "compact_state_agg")]),
    "state_trans_inner": dict(ret="r", clauses="ensures value is None ==> r == state, value is Some ==> r is Some && rows(r->0.records@) == (match state { Some(s) => rows(s.records@), None => Seq::empty() }).push(Rv { t: ts@, s: value->0@ }) && r->0.integer_states == (match state { Some(s) => s.integer_states, None => integer_states })",
        rewrite=[(r"state\.unwrap_or_else\(\|\| (CompactStateAggTransState::new\(\w+\))\)", r"match state { Some(s) => s, None => \1 }"), (r"ts\.into\(\)", "ts.vx_into()")], ghost={"after let mut state = [^;]*;": "proof { assert(rows(state.records@) =~= match vxs { Some(s) => rows(s.records@), None => Seq::empty() }); }", "start": "let ghost vxs = state;"}),
    "impl toolkit_experimental::compact_state_agg::finally": dict(ret="r", clauses=FINALLY % ("", "", "", "true", ""), rewrite=FINAL, ghost=dict(GROWN, **{"before CompactStateAgg::new\\(": COUNTED})),
    "impl state_agg::finally": dict(ret="r", clauses=FINALLY % ((".compact_state_agg",) * 3 + ("false", ".compact_state_agg")), ghost=dict(GROWN, **{"before let mut last_record_state\\b": COUNTED, "before \\bStateAgg::new\\(": "proof { assert forall|i: int| 0 <= i < merged_durations@.len() implies #[trigger] periods(states@, merged_durations@)[i] == timeline(all)[i] by { if i < m1.len() - 1 { assert(merged_durations@[i] == m1[i]); } assert(periods(states@, m1)[i].a == timeline(all)[i].a); } assert(periods(states@, merged_durations@) =~= timeline(all)); str_utf8(&states); }",
            "la1": "let ghost m1 = merged_durations@; proof { assert(all.subrange(0, all.len() as int) =~= all); }", "le1": "proof { all_grown(b0, states@, durations@, m0); so_far_step(periods(b0, m0), periods(states@, merged_durations@), all, vxk - 1); }"}), rewrite=FINAL + [
        (r"let mut last_record_state = None;", "let mut last_record_state: Option<&MaterializedState> = None; let ghost (all, ds) = (rows(s.records@), durations@); let ghost rd = read(states@, durations@); proof { assert(all.subrange(0, 0) =~= Seq::empty()); assert(periods(states@, merged_durations@) =~= Seq::empty()); }"),
        (r"for record in vxi\d: &s\.records\b[^{]*\{", r"""let mut vxk: usize = 0; while vxk < s.records.len()
            invariant vxk <= s.records@.len(), all == rows(s.records@), in_order(all), known(states@, durations@), read(states@, durations@) == rd, named(states@, merged_durations@), so_far(periods(states@, merged_durations@), all.subrange(0, vxk as int)), vxk == 0 ==> last_record_state is None, vxk > 0 ==> last_record_state is Some && last_record_state->0@ == all[vxk - 1].s
            decreases s.records@.len() - vxk
            { let record = &s.records[vxk]; let ghost (b0, m0) = (states@, merged_durations@); vxk += 1; proof { assert(b0.subrange(0, b0.len() as int) =~= b0); assert(all.subrange(0, vxk as int).drop_last() =~= all.subrange(0, vxk - 1)); told_part(all, vxk - 1); } """),
        (r"last_record_state != Some\(&record\.state\)", "vx_differs(&last_record_state, &record.state)"),
        (r"if let Some\((\w+)\) = merged_durations\.last_mut\(\) \{\s*\1\.", r"if merged_durations.len() > 0 { let vxt = vx_top(&merged_durations); vx_at(&mut merged_durations, vxt).")]),
    "duration_in_inner": dict(ret="r", clauses="""requires aggregate is Some ==> aggregate->0.wf() && exists|p: Seq<Pv>| #[trigger] fits(aggregate->0@, p), range is Some && (range->0).1 is Some ==> (range->0).0 + (range->0).1->0 <= i64::MAX
        ensures aggregate is None ==> r == 0, aggregate is Some && range is None ==> forall|p: Seq<Pv>| #[trigger] fits(aggregate->0@, p) ==> r == spent(p, state@),
            aggregate is Some && range is Some ==> r == within(aggregate->0@.c, state@, (range->0).0 as int, match (range->0).1 { Some(i) => (range->0).0 + i, None => i64::MAX as int })""",
        rewrite=[(r"time\.into\(\)", "time"), (r"aggregate\s*\.and_then\(\|aggregate\| (.*?)\)\s*\.unwrap_or\(0\)\s*\}", r"{ let vxr = match aggregate { Some(aggregate) => { let vxg = \1; proof { got(aggregate@, state@, vxg); } vxg } None => None }; match vxr { Some(x) => x, None => 0 } } }"),
            (r"let mut total = 0;", "let mut total: i64 = 0; let ghost p = agg@.c; proof { let q = choose|q: Seq<Pv>| #[trigger] fits(agg@, q); assert(p == q); assert(p.subrange(0, 0) =~= Seq::empty()); assert(within(p.subrange(0, 0), state@, start as int, end as int) == 0); }"),
            (r"for tis in vxi\d: agg\.combined_durations\.iter\(\)[^{]*\{", r"""let vxv = agg.combined_durations.as_slice(); let mut vxk: usize = 0; while vxk < vxv.len()
               invariant vxk <= vxv@.len(), vxv@ == agg.combined_durations@, agg.wf(), p == agg@.c, line(p), date(p[0].a), date(p.last().b), start <= end, total == within(p.subrange(0, vxk as int), state@, start as int, end as int)
               ensures total == within(p, state@, start as int, end as int) || total == within(p.subrange(0, p.len() as int), state@, start as int, end as int) decreases vxv@.len() - vxk
               { let tis = &vxv[vxk]; vxk += 1; proof { assert(p[vxk - 1] == (Pv { a: tis.start_time as int, b: tis.end_time as int, s: mat(agg.states@, tis.state) })); within_step(p, vxk - 1, state@, start as int, end as int); } """)],
        ghost={"before total\n": "proof { assert(p.subrange(0, p.len() as int) =~= p); }"}),
    "impl Ord for OwnedCompactStateAgg::cmp": dict(ret="r", clauses="ensures r == (if self.first_time < other.first_time { Ordering::Less } else if self.first_time > other.first_time { Ordering::Greater } else { Ordering::Equal })"),
    "impl OwnedCompactStateAgg::merge": dict(ret="r", clauses="""requires self.wf(), other.wf(), exists|p: Seq<Pv>| #[trigger] fits(self@, p), exists|p: Seq<Pv>| #[trigger] fits(other@, p)
        ensures r.wf(), r.compact == self.compact, self.compact == other.compact, self.first_time < other.first_time ==> merges(self@, other@, r@), self.first_time > other.first_time ==> merges(other@, self@, r@), self.first_time != other.first_time""",
        rewrite=[(r"String::from_utf8\((\w+)\.states\.to_vec\(\)\)\s*\.expect\(\"[^\"]*\"\)", r"VxStr::vx_of(\1.states.as_slice())"), (r"earlier\.durations\.into_iter\(\)\.collect::<Vec<_>>\(\)", "earlier.durations"), (r"let mut merged_last_state = None;", "let mut merged_last_state: Option<usize> = None;"),
            (r"for \(later_idx, dis\) in vxi\d: later\.durations\.iter\(\)\.enumerate\(\)[^{]*\{", r"""let mut vxk: usize = 0; proof { assert(read(merged_states@, merged_durations@) =~= e.d); assert(b0.subrange(0, b0.len() as int) =~= b0); part_start(e.d, l.d); } while vxk < later.durations.len()
              invariant vxk <= later.durations@.len(), l.d == read(later_states@, later.durations@), known(later_states@, later.durations@), known(merged_states@, merged_durations@), grows(b0, merged_states@), part(read(merged_states@, merged_durations@), e.d, l.d, vxk as int), sane(e), sane(l), l.ls == later.last_state,
                 vxk > l.ls ==> merged_last_state is Some && merged_last_state->0 < merged_durations@.len() && read(merged_states@, merged_durations@)[merged_last_state->0 as int].s == l.d[l.ls].s
              decreases later.durations@.len() - vxk
              { let (later_idx, dis) = (vxk, &later.durations[vxk]); vxk += 1; let ghost (m0, d0) = (merged_states@, merged_durations@); let ghost md0 = read(m0, d0); proof { assert(l.d[vxk - 1] == (Dv { n: dis.duration as int, s: mat(later_states@, dis.state) })); assert(m0.subrange(0, m0.len() as int) =~= m0); part_bound(md0, e, l, vxk - 1); } """),
            (r"merged_durations\s*\.iter_mut\(\)\s*\.enumerate\(\)\s*\.find\(\|vxp\| \{ let \(_, merged_dis\) = vxp; (?s:(\{.*?\})) \}\);(?s:(.*)\})$", r"""OwnedCompactStateAgg::vx_find(&merged_durations, &merged_states, &materialized_dis);\2}
            pub fn vx_same(merged_dis: &DurationInState, merged_states: &VxStr, materialized_dis: MaterializedState) -> (r: bool) requires valid(merged_states@, merged_dis.state) ensures r == (mat(merged_states@, merged_dis.state) == materialized_dis@) \1
            pub fn vx_find(v: &Vec<DurationInState>, merged_states: &VxStr, x: &MaterializedState) -> (r: Option<usize>) requires known(merged_states@, v@)
              ensures r is Some ==> r->0 < v@.len() && read(merged_states@, v@)[r->0 as int].s == x@, r is None ==> !listed(read(merged_states@, v@), x@)
            { let mut k: usize = 0; while k < v.len() invariant k <= v@.len(), known(merged_states@, v@), forall|i: int| 0 <= i < k ==> (#[trigger] read(merged_states@, v@)[i]).s != x@ decreases v@.len() - k { if OwnedCompactStateAgg::vx_same(&v[k], merged_states, x.clone()) { return Some(k); } k += 1; } None }"""),
           
            (r"if let Some\(\(merged_idx, (\w+)\)\) = merged_duration_info \{\s*\1\.", r"if let Some(merged_idx) = merged_duration_info { vx_at(&mut merged_durations, merged_idx)."),
            (r"earlier\s*\.combined_durations\s*\.into_iter\(\)\s*\.chain\(later\.combined_durations\.into_iter\(\)\.map\(\|tis\| (?s:(\{.*?\}))\)\)\s*\.collect::<Vec<_>>\(\);(?s:(.*)\})$", r"""OwnedCompactStateAgg::vx_chain(earlier.combined_durations, later.combined_durations, &later_states, &merged_states);\2}
            pub fn vx_renamed(tis: TimeInState, later_states: &VxStr, merged_states: &VxStr) -> (r: TimeInState) requires valid(later_states@, tis.state) ensures valid(merged_states@, r.state), mat(merged_states@, r.state) == mat(later_states@, tis.state), r.start_time == tis.start_time, r.end_time == tis.end_time \1
            pub fn vx_chain(mut v: Vec<TimeInState>, w: Vec<TimeInState>, later_states: &VxStr, merged_states: &VxStr) -> (r: Vec<TimeInState>) requires named(merged_states@, v@), named(later_states@, w@)
              ensures named(merged_states@, r@), periods(merged_states@, r@) == periods(merged_states@, v@) + periods(later_states@, w@)
            { let ghost v0 = v@; let mut k: usize = 0; proof { assert(periods(merged_states@, v0) + periods(later_states@, w@).subrange(0, 0) =~= periods(merged_states@, v0)); }
              while k < w.len() invariant k <= w@.len(), named(later_states@, w@), named(merged_states@, v@), periods(merged_states@, v@) == periods(merged_states@, v0) + periods(later_states@, w@).subrange(0, k as int) decreases w@.len() - k
              { let x = OwnedCompactStateAgg::vx_renamed(w[k], later_states, merged_states); let ghost v1 = v@; v.push(x); k += 1; proof { named_push(merged_states@, v1, x); assert(periods(merged_states@, v@) =~= periods(merged_states@, v0) + periods(later_states@, w@).subrange(0, k as int)); } }
              proof { assert(periods(later_states@, w@).subrange(0, w@.len() as int) =~= periods(later_states@, w@)); } v }"""),
            (r"(\w+)\s*\.get_mut\(([^()]*)\)\s*\.expect\(\"[^\"]*\"\)", r"vx_at(&mut \1, \2)"), (r"(\w+)\s*\.get\(([^()]*)\)\s*\.expect\(\"[^\"]*\"\)", r"\1[\2]"),
            (r"let merged_states = merged_states\.into_bytes\(\);\s*(OwnedCompactStateAgg \{(?s:[^{}]*)\})", r"""proof { str_utf8(&merged_states); few_states(&merged_durations); } let merged_states = merged_states.into_bytes(); let vxr = \1; proof { merged_fit(e, l, vxr@, md); } vxr"""),
            ],
        ghost={"after let \\(earlier, later\\) = match[^}]*\\};": "let ghost (e, l, b0) = (earlier@, later@, earlier.states@); proof { let p = choose|p: Seq<Pv>| #[trigger] fits(e, p); let q = choose|q: Seq<Pv>| #[trigger] fits(l, q); within_bounds(e, p); within_bounds(l, q); }",
               "le0": "proof { all_grown(m0, merged_states@, d0, Seq::empty()); grows_on(b0, m0, merged_states@); let md = read(merged_states@, merged_durations@); if merged_duration_info is None { assert(merged_durations@ =~= d0.push(merged_durations@.last())); read_push(merged_states@, d0, merged_durations@.last()); } else { assert(md =~= md0.update(merged_idx as int, Dv { n: md0[merged_idx as int].n + dis.duration, s: md0[merged_idx as int].s })); } part_step(md0, md, e.d, l.d, vxk - 1, merged_idx as int); }",
               "before let mut combined_durations = ": "let ghost md = read(merged_states@, merged_durations@); proof { all_grown(b0, merged_states@, Seq::empty(), earlier.combined_durations@); part_bound(md, e, l, l.d.len() as int); }",
               "before let gap = ": "let ghost c0 = combined_durations@; proof { assert(periods(merged_states@, c0).len() == c0.len()); assert(e.c.len() == earlier_len); assert(!e.compact ==> e.c.len() > 0 && l.c.len() > 0); assert(md[e.ls].s == e.d[e.ls].s); }",
               "before if !earlier\\.compact": "let ghost md2 = read(merged_states@, merged_durations@); proof { assert(md2 =~= md.update(e.ls, Dv { n: md[e.ls].n + (l.ft - e.lt), s: md[e.ls].s })); }",
               "before let merged_states = merged_states\\.into_bytes": "proof { if !e.compact { joined_periods(merged_states@, c0, combined_durations@, e.c, l.c); } else { assert(periods(merged_states@, combined_durations@) =~= Seq::empty()); } }"}),
    "impl RollupTransState::merge": dict(clauses="""requires forall|i: int| 0 <= i < old(self).values@.len() ==> (#[trigger] old(self).values@[i]).wf() && described(old(self).values@[i]@)
        ensures old(self).values@.len() == 0 ==> final(self).values@.len() == 0, old(self).values@.len() > 0 ==> final(self).values@.len() == 1 && final(self).values@[0].wf() && exists|g: Seq<Ag>| #[trigger] one_after_another(g) && rearranged(aggs(old(self).values@), g) && rolls(g, final(self).values@[0]@), final(self).compact == old(self).compact""",
        rewrite=[(r"self\.values\.sort\(\);", "vx_sort_aggs(&mut self.values); let ghost (v0, g) = (self.values@, aggs(self.values@)); proof { all_described(aggs(old(self).values@), g); assert forall|i: int| 0 <= i < v0.len() implies (#[trigger] v0[i]).wf() && described(v0[i]@) by { assert(described(g[i])); } }"),
            (r"self\.values = self\s*\.values\s*\.drain\(\.\.\)\s*\.reduce\(\|a, b\| (.*?)\)\s*\.map\(\|val\| vec!\[val\]\)\s*\.unwrap_or_else\(Vec::new\);", r"""let mut vxo: Option<OwnedCompactStateAgg> = None; let ghost mut k: int = 0;
            while self.values.len() > 0
              invariant 0 <= k <= g.len(), g == aggs(v0), self.values@.len() == g.len() - k, forall|i: int| 0 <= i < v0.len() ==> (#[trigger] v0[i]).wf() && described(v0[i]@), forall|i: int| 0 <= i < self.values@.len() ==> #[trigger] self.values@[i] == v0[i + k], forall|i: int, j: int| 0 <= i <= j < g.len() ==> (#[trigger] g[i]).ft <= (#[trigger] g[j]).ft,
                k == 0 ==> vxo is None, k > 0 ==> vxo is Some && vxo->0.wf() && rolls(g.subrange(0, k), vxo->0@), one_after_another(g.subrange(0, k)), self.compact == old(self).compact
              decreases self.values@.len()
            { let ghost o0 = vxo; let b = self.values.remove(0); proof { assert(b == v0[k]); if k > 0 { rolls_describe(g.subrange(0, k), vxo->0@); } }
              vxo = match vxo { None => Some(b), Some(a) => Some(\1) };
              proof { rolls_step(g, k, if k > 0 { o0->0@ } else { b@ }, vxo->0@); k = k + 1; } }
            proof { assert(g.subrange(0, g.len() as int) =~= g); }
            self.values = match vxo { Some(val) => { let mut v = Vec::new(); v.push(val); v } None => Vec::new() };""")]),
    "impl<'a> From<OwnedCompactStateAgg> for CompactStateAgg<'a>::from": dict(ret="r", clauses="requires owned.wf() ensures r.wf(), r@ == owned@", rewrite=[(r"\(&\*owned\.(\w+)\)\.into\(\)", r"vx_slice_of(&owned.\1)")]),
    "impl<'a> From<CompactStateAgg<'a>> for OwnedCompactStateAgg::from": dict(ret="r", clauses="requires agg.wf() ensures r.wf(), r@ == agg@", rewrite=[(r"agg\.(\w+)\.iter\(\)\.collect::<Vec<_>>\(\)", r"agg.\1.iter()")]),
    "compact_state_agg_rollup_trans_inner": dict(ret="r", clauses="""requires next is Some ==> next->0.wf()
        ensures state is None && next is None ==> r is None, state is Some || next is Some ==> r is Some && gathered(r) == gathered(state) + (match next { Some(x) => seq![x@], None => Seq::empty() }), (state is Some ==> sound(state->0)) && r is Some ==> sound(r->0)""",
        rewrite=[(r"\.into\(\)", ".vx_into()"), (r"vec!\[([^\]]*)\]", r"vx_one(\1)")], ghost={}),
    "state_agg_rollup_combine_inner": dict(ret="r", clauses="ensures state1 is None && state2 is None ==> r is None, state1 is Some || state2 is Some ==> r is Some && gathered(r) == gathered(state1) + gathered(state2), (state1 is Some ==> sound(state1->0)) && (state2 is Some ==> sound(state2->0)) && r is Some ==> sound(r->0)",
        rewrite=[(r"\.clone\(\)\.into\(\)", ""), (r"(\w+)\s*\.values\s*\.iter\(\)\s*\.chain\((\w+)\.values\.iter\(\)\)\s*\.map\(Clone::clone\)\s*\.collect::<Vec<_>>\(\)", r"vx_cat(&\1.values, &\2.values)")]),
    "compact_state_agg_rollup_final_inner": dict(ret="r", clauses=ROLLED % "", rewrite=ROLL + [(r"agg\.map\(Into::into\)", "match agg { Some(x) => Some(x.vx_into()), None => None }")]),
    "state_agg_rollup_final_inner": dict(ret="r", clauses=ROLLED % ".compact_state_agg", rewrite=ROLL + [(r"agg\.map\(Into::into\)\.map\(StateAgg::new\)", "match agg { Some(x) => Some(StateAgg::new(x.vx_into())), None => None }")]),
    "range_tuple": dict(ret="r", clauses="ensures r.0 == start, r.1 == (if interval == i64::MIN { None } else { Some(interval) })"),
    "as_str": dict(ret="r", clauses="requires valid(states@, self) ensures r@ == states@.subrange(self.a as int, self.b as int), self.a != i64::MAX", rewrite=[(r"\.get\((\w[^()]*?)\.\.(\w[^()]*?)\)", r".vx_part(\1, \2)")], ghost={"start": "proof { str_utf8(states); }"}),
    "into_integer": dict(ret="r", clauses="ensures r == self.b, self.a == i64::MAX"),
    "state_at_inner": dict(ret="r", clauses="""requires agg.compact_state_agg.wf(), ({ let p = agg.compact_state_agg@.c; (p.len() > 0 ==> line(p)) && forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).a < (#[trigger] p[j]).a })
        ensures ({ let p = agg.compact_state_agg@.c; &&& r is None <==> p.len() == 0 || point < p[0].a
            &&& forall|k: int| 0 <= k < p.len() && (#[trigger] p[k]).a <= point && (k == p.len() - 1 || point < p[k].b) ==> r is Some && r->0@ == p[k].s })""",
        rewrite=[(r"let point: i64 = point\.into\(\);", ""), (r"slice\.binary_search_by\(\|tis\| (.*?)\) \{(?s:(.*)\})$", r"""vx_search(slice, point) {\2}
            pub fn vx_order(tis: &TimeInState, point: i64) -> (r: Ordering) ensures r == (if tis.start_time < point { Ordering::Less } else if tis.start_time > point { Ordering::Greater } else { Ordering::Equal }) { \1 }"""),
            (r"Err\(idx\) => idx\.checked_sub\(1\)\?", "Err(idx) => match idx.checked_sub(1) { Some(x) => x, None => { return None; } }"), (r"slice\.get\(idx\)\.expect\(\"[^\"]*\"\)", "&slice[idx]")],
        ghost={"before let slice": "let ghost p = agg@.c; proof { assert(p.len() == agg.combined_durations@.len()); }", "before Some\\(tis\\.state": "proof { at_time(p, idx as int, point as int); assert(p[idx as int].s == mat(agg.states@, tis.state)); }",
               "before let idx = match": "proof { assert forall|i: int, j: int| 0 <= i < j < slice@.len() implies (#[trigger] slice@[i]).start_time < (#[trigger] slice@[j]).start_time by { assert(p[i].a < p[j].a); } }"}),
    "state_timeline_inner": dict(ret="r", clauses="requires agg.wf() ensures texts(r@) == agg@.c, !agg.compact", rewrite=OWNED + table("combined_durations", "vx_texts", "&agg.combined_durations, states", "vx_text(record: TimeInState, states: VxStr)", "(VxStr, TimestampTz, TimestampTz)", "requires valid(states@, record.state) ensures r.1.t == record.start_time, r.2.t == record.end_time, St::Text(r.0@) == mat(states@, record.state)")),
    "state_int_timeline_inner": dict(ret="r", clauses="requires agg.wf() ensures numbers(r@) == agg@.c, !agg.compact", rewrite=table("combined_durations", "vx_numbers", "&agg.combined_durations, agg.states_as_str()", "vx_number(record: TimeInState)", "(i64, TimestampTz, TimestampTz)", "ensures record.state.a == i64::MAX, r.0 == record.state.b, r.1.t == record.start_time, r.2.t == record.end_time")),
    "interpolate": dict(ret="r", clauses="""requires self.wf(), self@.d.len() > 0 ==> described(self@), prev is Some ==> prev->0.wf() && (prev->0@.d.len() > 0 ==> described(prev->0@)), date(interval_start as int), date(interval_start + interval_len), self@.d.len() < u32::MAX
        ensures r.wf(), self@.d.len() > 0, r.compact == self.compact, extends(self@, carried(self@, if prev is Some { Some(prev->0@) } else { None }, interval_start as int), interval_start as int, interval_start + interval_len, r@)""",
        rewrite=[(r"std::str::from_utf8\(self\.states\.as_slice\(\)\)\s*\.unwrap\(\)\s*\.to_string\(\)", "VxStr::vx_of(self.states.as_slice())"), (r"self\.(\w+)\.iter\(\)\.collect(?:::<Vec<_>>)?\(\)", r"self.\1.iter()"),
            (r"durations\s*\.iter_mut\(\)\s*\.find\(\|x\| (.*?)\)\s*\{\s*Some\(dis\) => \{(?s:(.*)\})$", r"""CompactStateAgg::vx_find(&durations, &states, start_state) { Some(vxi) => { proof { found = vxi as int; } let dis = vx_at(&mut durations, vxi); \2}
            pub fn vx_same(x: &DurationInState, states: VxStr, start_state: &MaterializedState) -> (r: bool) requires valid(states@, x.state) ensures r == (mat(states@, x.state) == start_state@) { \1 }
            pub fn vx_find(v: &Vec<DurationInState>, states: &VxStr, x: &MaterializedState) -> (r: Option<usize>) requires known(states@, v@)
              ensures r is Some ==> r->0 < v@.len() && read(states@, v@)[r->0 as int].s == x@, r is None ==> !listed(read(states@, v@), x@)
            { let mut k: usize = 0; while k < v.len() invariant k <= v@.len(), known(states@, v@), forall|i: int| 0 <= i < k ==> (#[trigger] read(states@, v@)[i]).s != x@ decreases v@.len() - k { if CompactStateAgg::vx_same(&v[k], states.clone(), x) { return Some(k); } k += 1; } None }"""),
            (r"durations\.get_mut\(", "vx_get_mut(&mut durations, "), (r"combined_durations\.as_mut\(\)", "vx_as_mut(&mut combined_durations)"), (r"combined_durations\s*\.first_mut\(\)\s*\.expect\(\"[^\"]*\"\)", "vx_at(combined_durations, 0)"), (r"combined_durations\s*\.last_mut\(\)\s*\.expect\(\"[^\"]*\"\)", "vx_at_last(combined_durations)"),
            (r"CompactStateAgg::new\((?s:([^;{}]*))\)\s*\}", r"""let vxr = { proof { let (d2, c2) = (durations@, vx_inner(combined_durations)); let l = g.ls;
                assert(d1[l].s == g.d[l].s);
                assert(read(states@, d2) =~= if t1 > g.lt { d1.update(l, Dv { n: d1[l].n + (t1 - g.lt), s: d1[l].s }) } else { d1 });
                assert(known(states@, d2)) by { assert forall|i: int| 0 <= i < d2.len() implies valid(states@, (#[trigger] d2[i]).state) by { assert(valid(states@, d0[i].state)); } }
                if !g.compact { assert(periods(states@, c2) =~= ended(c1, t1)); assert forall|i: int| 0 <= i < c2.len() implies valid(states@, (#[trigger] c2[i]).state) by { assert(valid(states@, c0[i].state)); } }
                let f = if s0 is None { g.fs } else if found >= 0 { found } else { dd.len() as int };
                str_utf8(&states); assert(g.compact || named(states@, c2)); assert(read(states@, d2)[f].s == first.state@); assert(read(states@, d2)[l].s == last.state@);
            } CompactStateAgg::new(\1) }; proof { extended(g, vxr@, s0, t0, t1, d1, c1, found); } vxr }"""),
            ],
        ghost={"start": "let ghost p0 = some_line(self@); let ghost (g, t0, t1, b0) = (self@, interval_start as int, interval_start + interval_len, self.states@); let ghost s0 = carried(g, if prev is Some { Some(prev->0@) } else { None }, t0); let ghost mut found: int = -1; proof { if g.d.len() > 0 { within_bounds(g, some_line(g)); } if prev is Some && prev->0@.d.len() > 0 { within_bounds(prev->0@, some_line(prev->0@)); } }",
               "before let first = match prev": "let ghost (dd, cc) = (durations@, vx_inner(combined_durations)); proof { assert(b0.subrange(0, b0.len() as int) =~= b0); }",
               r"before if let Some\(combined_durations\) = vx_as_mut\(&mut combined_durations\) \{\s*let first_cd": "proof { all_grown(b0, states@, dd, cc); assert(read(states@, durations@) =~= started(g.d, s0, g.ft - t0, found)); assert(known(states@, durations@)) by { assert forall|i: int| 0 <= i < durations@.len() implies valid(states@, (#[trigger] durations@[i]).state) by { if i < dd.len() { assert(valid(states@, dd[i].state)); } } } assert(!g.compact ==> cc.len() == p0.len() && cc.len() > 0 && valid(states@, cc[0].state)); }",
               r"before Record \{\s*state: start_state\.clone\(\)": "proof { if !g.compact { let cb = vx_inner(combined_durations); assert(periods(b0, cc) == p0); assert(mat(states@, cc[0].state) == p0[0].s); assert forall|i: int| 0 <= i < cb.len() implies valid(states@, (#[trigger] cb[i]).state) by { if i > 0 { if i < cc.len() { assert(valid(states@, cc[i].state)); } assert(valid(states@, cc[i - 1].state)); } } if p0[0].s == s0->0 { assert(cb =~= cc.update(0, cb[0])); } else { assert(cb =~= seq![cb[0]] + cc); } assert(periods(states@, cc) == p0); assert(periods(states@, cb) =~= begun(g.c, s0, t0)); } }",
               "before let last = ": "let ghost (d1, c1) = (read(states@, durations@), periods(states@, vx_inner(combined_durations))); let ghost (d0, c0) = (durations@, vx_inner(combined_durations)); proof { assert(grows(b0, states@)); all_grown(b0, states@, dd, cc); assert(known(states@, dd)); assert(known(states@, d0)); assert(d1 =~= started(g.d, s0, g.ft - t0, found)); if !g.compact { assert(named(states@, c0)); assert(c1 =~= begun(g.c, s0, t0)); begun_line(p0, s0, t0); } }",
               }),
    "interpolated_duration_in_inner": dict(ret="r", clauses="""requires aggregate is Some ==> aggregate->0.wf() && described(aggregate->0@) && aggregate->0@.d.len() < u32::MAX, prev is Some ==> prev->0.wf() && described(prev->0@), date(start as int), date(start + interval)
        ensures aggregate is Some, forall|p: Seq<Pv>| #[trigger] fits(aggregate->0@, p) ==> r == ({ let x = ended(begun(p, carried(aggregate->0@, if prev is Some { Some(prev->0@) } else { None }, start as int), start as int), start + interval); if aggregate->0.compact { spent(x, state@) } else { within(x, state@, start as int, start + interval) } }), aggregate->0.compact ==> start <= aggregate->0.first_time && start + interval >= aggregate->0.last_time, prev is Some ==> start >= prev->0.last_time""",
        ghost={"before let new_agg = ": "let ghost (g, s0, t0, t1) = (aggregate@, carried(aggregate@, if prev is Some { Some(prev->0@) } else { None }, start as int), start as int, start + interval);",
               r"before duration_in_inner\(": "proof { let p = some_line(g); assert(fits(g, p)); assert(fits(new_agg@, ended(begun(p, s0, t0), t1))); let vxa = Some(new_agg); assert(vxa->0@ == new_agg@); assert(fits(vxa->0@, ended(begun(p, s0, t0), t1))); }"}),
    "assert_int": dict(clauses="ensures self.integer_states"),
    "assert_str": dict(clauses="ensures !self.integer_states"),
    "state_periods_inner": dict(ret="r", clauses="requires agg.wf() ensures spans(r@) == those(agg@.c, state@), !agg.compact", rewrite=OWNED + [(a.replace("map", "filter_map"), b) for a, b in table("combined_durations", "vx_picked", "&agg.combined_durations, states, state", "vx_pick(record: TimeInState, states: VxStr, state: MaterializedState)", "Option<(TimestampTz, TimestampTz)>", "requires valid(states@, record.state) ensures mat(states@, record.state) == state@ ==> r is Some && (r->0).0.t == record.start_time && (r->0).1.t == record.end_time, mat(states@, record.state) != state@ ==> r is None")]),
    "into_values": dict(ret="r", clauses="requires agg.wf() ensures text_times(r@) == agg@.d, !agg.integer_states", rewrite=OWNED + [(r"record\.duration\.into\(\)", "record.duration")] + table("durations", "vx_text_times", "&agg.durations, states", "vx_text_time(record: DurationInState, states: VxStr)", "(VxStr, i64)", "requires valid(states@, record.state) ensures r.1 == record.duration, St::Text(r.0@) == mat(states@, record.state)")),
    "into_int_values": dict(ret="r", clauses="requires agg.wf() ensures number_times(r@) == agg@.d, agg.integer_states", rewrite=[(r"record\.duration\.into\(\)", "record.duration")] + table("durations", "vx_number_times", "&agg.durations, agg.states_as_str()", "vx_number_time(record: DurationInState)", "(i64, i64)", "ensures record.state.a == i64::MAX, r.0 == record.state.b, r.1 == record.duration")),
}
PRELUDE += r"""
pub proof fn empty_found(b: Seq<u8>, s: Seq<u8>) ensures s.len() == 0 ==> b.subrange(0, s.len() as int) == s { if s.len() == 0 { assert(b.subrange(0, 0) =~= s); } }
pub proof fn dates(p: Seq<Rv>, q: Seq<Rv>)
    requires rearranged(p, q), forall|i: int| 0 <= i < p.len() ==> date((#[trigger] p[i]).t)
    ensures forall|i: int| 0 <= i < q.len() ==> date((#[trigger] q[i]).t)
{ let w = choose|w: Seq<int>| #[trigger] places(w, p.len() as int) && q == Seq::new(w.len(), |i: int| p[w[i]]); assert forall|i: int| 0 <= i < q.len() implies date((#[trigger] q[i]).t) by { assert(date(p[w[i]].t)); } }
pub proof fn step(r: Seq<Rv>, k: int, d: DurationState)
    requires in_order(r), 0 <= k < r.len(), tracks(d, r.subrange(0, k)), forall|i: int| 0 <= i < r.len() ==> date((#[trigger] r[i]).t)
    ensures d.last_state is Some ==> date((d.last_state->0).1 as int) && (d.last_state->0).1 <= r[k].t, date(r[k].t), forall|s: St| #[trigger] d.durations@.contains_key(s) ==> 0 <= d.durations@[s] <= 0x2000_0000_0000_0000, r.subrange(0, k).push(r[k]) == r.subrange(0, k + 1), in_order(r.subrange(0, k + 1))
{
    let q = r.subrange(0, k);
    assert(q.push(r[k]) =~= r.subrange(0, k + 1));
    if k > 0 {
        assert(q.last() == r[k - 1]);
        told(q);
        assert forall|s: St| #[trigger] d.durations@.contains_key(s) implies 0 <= d.durations@[s] <= 0x2000_0000_0000_0000 by { spent_least(timeline(q), s); assert(date(r[0].t) && date(r[k - 1].t)); }
    }
}
pub proof fn finished(d: DurationState, r: Seq<Rv>) requires tracks(d, r), r.len() > 0 ensures !d.durations@.contains_key(r.last().s) ==> spent(timeline(r), r.last().s) == 0 { if !d.durations@.contains_key(r.last().s) { assert(!seen(r.drop_last(), r.last().s)); first_time(r); } }
pub proof fn finished_state(r: Seq<Rv>, s: St) requires r.len() > 0 ensures seen(r, s) == (seen(r.drop_last(), s) || s == r.last().s)
{
    if seen(r.drop_last(), s) { let i = choose|i: int| 0 <= i < r.len() - 1 && (#[trigger] r.drop_last()[i]).s == s; assert(r[i].s == s); }
    if s == r.last().s { assert(r[r.len() - 1].s == s); }
    if seen(r, s) && s != r.last().s { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).s == s; assert(r.drop_last()[i].s == s); }
}

#[verifier::external_body]
pub fn vx_slice_of<T: Copy>(v: &Vec<T>) -> (r: VxSlice<T>) ensures r@ == v@ { unimplemented!() }
pub fn vx_differs(a: &Option<&MaterializedState>, b: &MaterializedState) -> (r: bool) ensures r == (*a is None || (*a)->0@ != b@) { match a { None => true, Some(x) => !(**x == *b) } }
pub struct TimestampTz { pub t: i64 }
impl TimestampTz { pub open spec fn view(&self) -> int { self.t as int } pub fn vx_into(self) -> (r: i64) ensures r == self@ { self.t } }
pub struct VxCompactStateAgg { x: u8 }
pub struct VxStateAgg { x: u8 }
pub open spec fn dvs(v: Seq<(MaterializedState, i64)>) -> Seq<Dv> { Seq::new(v.len(), |i: int| Dv { n: v[i].1 as int, s: v[i].0@ }) }
pub proof fn pairs_add_up(v: Seq<(MaterializedState, i64)>, h: Map<St, i64>, r: Seq<Rv>)
    requires in_order(r), r.len() > 0, forall|s: St| #[trigger] h.contains_key(s) == seen(r, s), forall|s: St| #[trigger] h.contains_key(s) ==> h[s] == spent(timeline(r), s),
        forall|i: int| 0 <= i < v.len() ==> h.contains_key((#[trigger] v[i]).0@) && h[v[i].0@] == v[i].1, forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0@ != (#[trigger] v[j]).0@,
        forall|s: St| #[trigger] h.contains_key(s) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == s
    ensures adds_up(dvs(v), timeline(r)), v.len() > 0, listed(dvs(v), r[0].s), listed(dvs(v), r.last().s)
{
    told(r);
    let (d, p) = (dvs(v), timeline(r));
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && (#[trigger] d[i]).s == (#[trigger] d[j]).s implies i == j by { if i < j { assert(v[i].0@ != v[j].0@); } else if j < i { assert(v[j].0@ != v[i].0@); } }
    assert forall|s: St| #![trigger total(d, s)] #![trigger spent(p, s)] #![trigger listed(d, s)] #![trigger occurs(p, s)] total(d, s) == spent(p, s) && listed(d, s) == occurs(p, s) by {
        assert(occurs(p, s) == seen(r, s));
        assert(h.contains_key(s) == seen(r, s));
        if h.contains_key(s) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == s; assert(d[i].s == s); total_at(d, i); }
        else { assert(!listed(d, s)) by { if listed(d, s) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).s == s; assert(h.contains_key(v[i].0@)); } } total_none(d, s); spent_none(p, s); }
    }
    assert(p[0].s == r[0].s && occurs(p, p[0].s));
    assert(listed(d, r[0].s));
    assert(p[p.len() - 1].s == r.last().s && occurs(p, p[p.len() - 1].s));
    assert(listed(d, r.last().s));
}
/// p is the timeline of r, except for the end of the last period
pub open spec fn so_far(p: Seq<Pv>, r: Seq<Rv>) -> bool { let t = timeline(r); p.len() == t.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).a == t[i].a && p[i].s == t[i].s && (i < p.len() - 1 ==> p[i].b == t[i].b) }
pub proof fn told_part(r: Seq<Rv>, k: int) requires in_order(r), 0 <= k < r.len() ensures in_order(r.subrange(0, k)), k > 0 ==> timeline(r.subrange(0, k)).len() > 0 && timeline(r.subrange(0, k)).last().s == r[k - 1].s, k == 0 ==> timeline(r.subrange(0, k)).len() == 0
{ if k > 0 { told(r.subrange(0, k)); } }
pub proof fn so_far_step(p: Seq<Pv>, q: Seq<Pv>, r: Seq<Rv>, k: int)
    requires in_order(r), 0 <= k < r.len(), so_far(p, r.subrange(0, k)), k > 0 && r[k - 1].s == r[k].s ==> q == p,
        k == 0 ==> q.len() == 1 && q[0].a == r[0].t && q[0].s == r[0].s,
        k > 0 && r[k - 1].s != r[k].s ==> q.len() == p.len() + 1 && (forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] q[i] == p[i]) && q[p.len() - 1] == (Pv { a: p.last().a, b: r[k].t, s: p.last().s }) && q.last().a == r[k].t && q.last().s == r[k].s
    ensures so_far(q, r.subrange(0, k + 1))
{ told_part(r, k); let n = r.subrange(0, k + 1); assert(n.drop_last() =~= r.subrange(0, k)); assert(n.last() == r[k]); }
pub open spec fn overlap(p: Pv, a: int, e: int) -> int { let x = if p.a > a { p.a } else { a }; let y = if p.b < e { p.b } else { e }; if x < y { y - x } else { 0 } }
/// the time in state s between a and e
pub open spec fn within(p: Seq<Pv>, s: St, a: int, e: int) -> int decreases p.len() { if p.len() == 0 { 0 } else { within(p.drop_last(), s, a, e) + if p.last().s == s { overlap(p.last(), a, e) } else { 0 } } }
pub proof fn within_least(p: Seq<Pv>, s: St, a: int, e: int) requires forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).a <= p[i].b ensures 0 <= within(p, s, a, e) <= spent(p, s) decreases p.len()
{ if p.len() > 0 { assert(p[p.len() - 1].a <= p[p.len() - 1].b); within_least(p.drop_last(), s, a, e); } }
pub proof fn starts_grow(p: Seq<Pv>, i: int, j: int) requires line(p), 0 <= i <= j < p.len() ensures p[i].a <= p[j].a, p[i].b <= p[j].b decreases j - i
{ if i < j { starts_grow(p, i, j - 1); assert(p[j - 1].b == p[j].a); assert(p[j].a <= p[j].b); assert(p[j - 1].a <= p[j - 1].b); } }
pub proof fn within_rest(p: Seq<Pv>, k: int, s: St, a: int, e: int) requires line(p), 0 <= k < p.len(), p[k].a >= e ensures within(p, s, a, e) == within(p.subrange(0, k), s, a, e) decreases p.len() - k
{
    let d = p.drop_last();
    starts_grow(p, k, p.len() - 1);
    if k < p.len() - 1 { assert(line(d)); within_rest(d, k, s, a, e); assert(d.subrange(0, k) =~= p.subrange(0, k)); } else { assert(d =~= p.subrange(0, k)); }
}
pub proof fn within_step(p: Seq<Pv>, k: int, s: St, a: int, e: int)
    requires line(p), date(p[0].a), date(p.last().b), 0 <= k < p.len()
    ensures within(p.subrange(0, k + 1), s, a, e) == within(p.subrange(0, k), s, a, e) + if p[k].s == s { overlap(p[k], a, e) } else { 0 }, 0 <= within(p.subrange(0, k), s, a, e) <= 0x2000_0000_0000_0000, p[k].a <= p[k].b, date(p[k].a), date(p[k].b),
        p[k].a >= e ==> within(p, s, a, e) == within(p.subrange(0, k), s, a, e)
{
    let q = p.subrange(0, k + 1);
    assert(q.drop_last() =~= p.subrange(0, k));
    starts_grow(p, 0, k);
    starts_grow(p, k, p.len() - 1);
    assert(p[k].a <= p[k].b);
    if k > 0 { let z = p.subrange(0, k); assert(line(z)); within_least(z, s, a, e); spent_least(z, s); starts_grow(p, k - 1, p.len() - 1); starts_grow(p, 0, k - 1); }
    if p[k].a >= e { within_rest(p, k, s, a, e); }
}
pub proof fn got(g: Ag, s: St, r: Option<i64>)
    requires r is Some ==> exists|i: int| 0 <= i < g.d.len() && (#[trigger] g.d[i]).s == s && g.d[i].n == r->0, r is None ==> !listed(g.d, s)
    ensures forall|p: Seq<Pv>| #[trigger] fits(g, p) ==> spent(p, s) == match r { Some(x) => x as int, None => 0 }
{ assert forall|p: Seq<Pv>| #[trigger] fits(g, p) implies spent(p, s) == match r { Some(x) => x as int, None => 0 } by { looked_up(g.d, p, s); } }

impl OwnedCompactStateAgg {
    pub open spec fn view(&self) -> Ag { Ag { d: read(self.states@, self.durations@), c: periods(self.states@, self.combined_durations@), ft: self.first_time as int, lt: self.last_time as int, fs: self.first_state as int, ls: self.last_state as int, compact: self.compact, ints: self.integer_states } }
    pub open spec fn wf(&self) -> bool { legible(self.states@, self.durations@, self.combined_durations@) }
}
/// an aggregate is smaller than 4 GB
#[verifier::external_body]
pub proof fn few_states(v: &Vec<DurationInState>) ensures v@.len() <= u32::MAX { }
pub open spec fn merges(e: Ag, l: Ag, r: Ag) -> bool { e.lt <= l.ft && forall|p: Seq<Pv>, q: Seq<Pv>| #[trigger] fits(e, p) && #[trigger] fits(l, q) ==> fits(r, joined(p, q)) }
pub open spec fn sane(g: Ag) -> bool { once(g.d) && bounded(g) && date(g.ft) && date(g.lt) && g.ft <= g.lt && 0 <= g.ls < g.d.len() }
pub open spec fn part(m: Seq<Dv>, e: Seq<Dv>, l: Seq<Dv>, k: int) -> bool {
    &&& once(m) && m.len() >= e.len() && forall|i: int| 0 <= i < e.len() ==> (#[trigger] m[i]).s == e[i].s
    &&& forall|s: St| #![trigger total(m, s)] #![trigger listed(m, s)] total(m, s) == total(e, s) + total(l.subrange(0, k), s) && listed(m, s) == (listed(e, s) || listed(l.subrange(0, k), s))
}
pub proof fn grows_on(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires grows(a, b), grows(b, c) ensures grows(a, c) { assert(c.subrange(0, a.len() as int) =~= c.subrange(0, b.len() as int).subrange(0, a.len() as int)); }
pub proof fn part_start(e: Seq<Dv>, l: Seq<Dv>) requires once(e) ensures part(e, e, l, 0)
{ assert forall|s: St| #![trigger total(e, s)] #![trigger listed(e, s)] total(e, s) == total(e, s) + total(l.subrange(0, 0), s) && listed(e, s) == (listed(e, s) || listed(l.subrange(0, 0), s)) by { assert(l.subrange(0, 0) =~= Seq::empty()); assert(!listed(l.subrange(0, 0), s)); } }
pub proof fn total_least(d: Seq<Dv>, b: int, s: St) requires once(d), b >= 0, forall|i: int| 0 <= i < d.len() ==> 0 <= (#[trigger] d[i]).n <= b ensures 0 <= total(d, s) <= b
{ if listed(d, s) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).s == s; total_at(d, i); } else { total_none(d, s); } }
pub proof fn part_bound(m: Seq<Dv>, e: Ag, l: Ag, k: int)
    requires part(m, e.d, l.d, k), sane(e), sane(l), 0 <= k <= l.d.len()
    ensures forall|i: int| 0 <= i < m.len() ==> 0 <= (#[trigger] m[i]).n <= 0x4000_0000_0000_0000, forall|i: int| 0 <= i < l.d.len() ==> 0 <= (#[trigger] l.d[i]).n <= 0x2000_0000_0000_0000
{
    let t = l.d.subrange(0, k);
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).s == (#[trigger] t[j]).s implies i == j by { assert(l.d[i].s == l.d[j].s); }
    assert forall|i: int| 0 <= i < m.len() implies 0 <= (#[trigger] m[i]).n <= 0x4000_0000_0000_0000 by {
        total_at(m, i);
        total_least(e.d, e.lt - e.ft, m[i].s);
        assert forall|j: int| 0 <= j < t.len() implies 0 <= (#[trigger] t[j]).n <= l.lt - l.ft by { assert(t[j] == l.d[j]); }
        total_least(t, l.lt - l.ft, m[i].s);
        assert(total(m, m[i].s) == total(e.d, m[i].s) + total(t, m[i].s));
    }
}
pub proof fn part_step(m: Seq<Dv>, n: Seq<Dv>, e: Seq<Dv>, l: Seq<Dv>, k: int, at: int)
    requires part(m, e, l, k), once(l), 0 <= k < l.len(), (0 <= at < m.len() && m[at].s == l[k].s && n == m.update(at, Dv { n: m[at].n + l[k].n, s: m[at].s })) || (!listed(m, l[k].s) && n == m.push(l[k]))
    ensures part(n, e, l, k + 1)
{
    let (t, u, x) = (l.subrange(0, k), l.subrange(0, k + 1), l[k]);
    assert(u =~= t.push(x));
    if !listed(m, x.s) { once_push(m, x); } else { once_update(m, at, n[at]); }
    assert forall|s: St| #![trigger total(n, s)] #![trigger listed(n, s)] total(n, s) == total(e, s) + total(u, s) && listed(n, s) == (listed(e, s) || listed(u, s)) by {
        assert(total(m, s) == total(e, s) + total(t, s) && listed(m, s) == (listed(e, s) || listed(t, s)));
        total_push(t, x, s);
        listed_push(t, x, s);
        if !listed(m, x.s) { total_push(m, x, s); listed_push(m, x, s); } else { total_update(m, at, n[at], s); if s == x.s { assert(listed(m, s)); } }
    }
}
pub proof fn joined_line(p: Seq<Pv>, q: Seq<Pv>)
    requires line(p), line(q), p.last().b <= q[0].a
    ensures line(joined(p, q)), joined(p, q)[0].a == p[0].a, joined(p, q)[0].s == p[0].s, joined(p, q).last().b == q.last().b, joined(p, q).last().s == q.last().s,
        forall|s: St| #[trigger] spent(joined(p, q), s) == spent(p, s) + spent(q, s) + if s == p.last().s { q[0].a - p.last().b } else { 0 }, forall|s: St| #[trigger] occurs(joined(p, q), s) == (occurs(p, s) || occurs(q, s))
{
    let j = joined(p, q);
    let n = p.len() as int;
    let same = p.last().s == q[0].s;
    assert(p[n - 1].a <= p[n - 1].b && q[0].a <= q[0].b);
    assert forall|i: int| 0 <= i < j.len() implies (#[trigger] j[i]).a <= j[i].b by { if i < n - 1 { assert(j[i] == p[i]); } else if same && i > n - 1 { assert(j[i] == q[i - n + 1]); } else if !same && i >= n { assert(j[i] == q[i - n]); } }
    assert forall|i: int, k: int| 0 <= i && k == i + 1 && k < j.len() implies (#[trigger] j[i]).b == (#[trigger] j[k]).a && j[i].s != j[k].s by {
        if k < n { assert(p[i].b == p[k].a && p[i].s != p[k].s); }
        else if same { assert(q[i - n + 1].b == q[k - n + 1].a && q[i - n + 1].s != q[k - n + 1].s); }
        else if i >= n { assert(q[i - n].b == q[k - n].a && q[i - n].s != q[k - n].s); }
    }
    assert forall|s: St| #[trigger] spent(j, s) == spent(p, s) + spent(q, s) + if s == p.last().s { q[0].a - p.last().b } else { 0 } by {
        if same { let x = Pv { a: p.last().a, b: q[0].b, s: q[0].s }; spent_concat(p.drop_last().push(x), q.drop_first(), s); spent_push(p.drop_last(), x, s); spent_first(q, s); }
        else { let x = Pv { a: p.last().a, b: q[0].a, s: p.last().s }; spent_concat(p.update(n - 1, x), q, s); spent_last(p, x, s); }
    }
    assert forall|s: St| #[trigger] occurs(j, s) == (occurs(p, s) || occurs(q, s)) by {
        if occurs(p, s) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).s == s; assert(j[i].s == s); }
        if occurs(q, s) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).s == s; if same { assert(j[i + n - 1].s == s); } else { assert(j[i + n].s == s); } }
        if occurs(j, s) { let i = choose|i: int| 0 <= i < j.len() && (#[trigger] j[i]).s == s; if i < n { assert(p[i].s == s); } else if same { assert(q[i - n + 1].s == s); } else { assert(q[i - n].s == s); } }
    }
}
pub proof fn merged_fit(e: Ag, l: Ag, r: Ag, m: Seq<Dv>)
    requires e.lt <= l.ft, e.compact == l.compact, r.compact == e.compact, part(m, e.d, l.d, l.d.len() as int), 0 <= e.ls < e.d.len(), r.d == m.update(e.ls, Dv { n: m[e.ls].n + (l.ft - e.lt), s: m[e.ls].s }), r.ft == e.ft, r.lt == l.lt, r.fs == e.fs, 0 <= r.ls < r.d.len(), r.d.len() <= u32::MAX,
        0 <= l.ls < l.d.len(), r.d[r.ls].s == l.d[l.ls].s, r.c == if e.compact { Seq::empty() } else { joined(e.c, l.c) }
    ensures merges(e, l, r)
{
    assert forall|p: Seq<Pv>, q: Seq<Pv>| #[trigger] fits(e, p) && #[trigger] fits(l, q) implies fits(r, joined(p, q)) by {
        let j = joined(p, q);
        joined_line(p, q);
        once_update(m, e.ls, r.d[e.ls]);
        assert(l.d.subrange(0, l.d.len() as int) =~= l.d);
        assert forall|s: St| #![trigger total(r.d, s)] #![trigger spent(j, s)] #![trigger listed(r.d, s)] #![trigger occurs(j, s)] total(r.d, s) == spent(j, s) && listed(r.d, s) == occurs(j, s) by {
            total_update(m, e.ls, r.d[e.ls], s);
            assert(total(m, s) == total(e.d, s) + total(l.d, s) && listed(m, s) == (listed(e.d, s) || listed(l.d, s)));
            assert(total(e.d, s) == spent(p, s) && total(l.d, s) == spent(q, s));
            assert(spent(j, s) == spent(p, s) + spent(q, s) + if s == p.last().s { q[0].a - p.last().b } else { 0 });
            assert(occurs(j, s) == (occurs(p, s) || occurs(q, s)));
            assert(m[e.ls].s == e.d[e.ls].s);
        }
        assert(m[e.fs].s == e.d[e.fs].s);
    }
}

pub open spec fn described(g: Ag) -> bool { exists|p: Seq<Pv>| #[trigger] fits(g, p) }
pub open spec fn aggs(v: Seq<OwnedCompactStateAgg>) -> Seq<Ag> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn one_after_another(g: Seq<Ag>) -> bool { forall|i: int, j: int| 0 <= i && j == i + 1 && j < g.len() ==> (#[trigger] g[i]).lt <= (#[trigger] g[j]).ft }
pub open spec fn all_fit(g: Seq<Ag>, ps: Seq<Seq<Pv>>) -> bool { g.len() == ps.len() && forall|i: int| 0 <= i < g.len() ==> fits(#[trigger] g[i], ps[i]) }
pub open spec fn chain(ps: Seq<Seq<Pv>>) -> Seq<Pv> decreases ps.len() { if ps.len() <= 1 { ps[0] } else { joined(chain(ps.drop_last()), ps.last()) } }
/// whatever timelines the aggregates g describe, r describes those one after the other
pub open spec fn rolls(g: Seq<Ag>, r: Ag) -> bool { g.len() > 0 && r.ft == g[0].ft && r.lt == g.last().lt && (forall|i: int| 0 <= i < g.len() ==> described(#[trigger] g[i])) && forall|ps: Seq<Seq<Pv>>| #[trigger] all_fit(g, ps) ==> fits(r, chain(ps)) }
#[verifier::external_body]
pub fn vx_sort_aggs(v: &mut Vec<OwnedCompactStateAgg>)
    ensures rearranged(aggs(old(v)@), aggs(final(v)@)), final(v)@.len() == old(v)@.len(), (forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i]).wf()) ==> forall|i: int| 0 <= i < final(v)@.len() ==> (#[trigger] final(v)@[i]).wf(), forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> (#[trigger] aggs(final(v)@)[i]).ft <= (#[trigger] aggs(final(v)@)[j]).ft
{ unimplemented!() }
pub proof fn all_described(p: Seq<Ag>, q: Seq<Ag>) requires rearranged(p, q), forall|i: int| 0 <= i < p.len() ==> described(#[trigger] p[i]) ensures forall|i: int| 0 <= i < q.len() ==> described(#[trigger] q[i])
{ let w = choose|w: Seq<int>| #[trigger] places(w, p.len() as int) && q == Seq::new(w.len(), |i: int| p[w[i]]); assert forall|i: int| 0 <= i < q.len() implies described(#[trigger] q[i]) by { assert(described(p[w[i]])); } }
pub open spec fn some_line(g: Ag) -> Seq<Pv> { choose|p: Seq<Pv>| #[trigger] fits(g, p) }
pub proof fn rolls_describe(g: Seq<Ag>, r: Ag) requires rolls(g, r) ensures described(r)
{ let ps = Seq::new(g.len(), |i: int| some_line(g[i])); assert(all_fit(g, ps)) by { assert forall|i: int| 0 <= i < g.len() implies fits(#[trigger] g[i], ps[i]) by { assert(described(g[i])); } } assert(fits(r, chain(ps))); }
pub proof fn rolls_step(g: Seq<Ag>, k: int, a: Ag, r: Ag)
    requires 0 <= k < g.len(), described(g[k]), one_after_another(g.subrange(0, k)), k == 0 ==> r == g[0], k > 0 ==> rolls(g.subrange(0, k), a) && a.ft < g[k].ft && merges(a, g[k], r), g[0].ft <= g[k].ft
    ensures rolls(g.subrange(0, k + 1), r), one_after_another(g.subrange(0, k + 1))
{
    let (d, e) = (g.subrange(0, k), g.subrange(0, k + 1));
    assert(e.drop_last() =~= d);
    assert forall|i: int| 0 <= i < e.len() implies described(#[trigger] e[i]) by { if i < k { assert(described(d[i])); } }
    if k > 0 { rolls_describe(d, a); let (p, q) = (some_line(a), some_line(g[k])); joined_fits(a, g[k], r, p, q); }
    assert forall|ps: Seq<Seq<Pv>>| #[trigger] all_fit(e, ps) implies fits(r, chain(ps)) by {
        assert(fits(e[k], ps[k]));
        if k > 0 {
            let qs = ps.drop_last();
            assert(all_fit(d, qs)) by { assert forall|i: int| 0 <= i < d.len() implies fits(#[trigger] d[i], qs[i]) by { assert(fits(e[i], ps[i])); } }
            assert(fits(a, chain(qs)));
        } else { assert(chain(ps) == ps[0]); assert(e[0] == g[0]); }
    }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < e.len() implies (#[trigger] e[i]).lt <= (#[trigger] e[j]).ft by { if j < k { assert(d[i].lt <= d[j].ft); } else { assert(d.last() == e[i]); } }
}
pub proof fn joined_fits(e: Ag, l: Ag, r: Ag, p: Seq<Pv>, q: Seq<Pv>) requires merges(e, l, r), fits(e, p), fits(l, q) ensures r.ft == e.ft, r.lt == l.lt { joined_line(p, q); assert(fits(r, joined(p, q))); }

pub proof fn joined_periods(b: Seq<u8>, c: Seq<TimeInState>, d: Seq<TimeInState>, p: Seq<Pv>, q: Seq<Pv>)
    requires named(b, c), periods(b, c) == p + q, c.len() == p.len() + q.len(), p.len() > 0, q.len() > 0, ({ let n = p.len() as int;
        if mat(b, c[n - 1].state) == mat(b, c[n].state) { d =~= c.remove(n).update(n - 1, TimeInState { end_time: c[n].end_time, ..c[n - 1] }) } else { d =~= c.update(n - 1, TimeInState { end_time: c[n].start_time, ..c[n - 1] }) } })
    ensures named(b, d), periods(b, d) == joined(p, q)
{
    let n = p.len() as int;
    let pc = periods(b, c);
    assert(pc.len() == c.len() && pc.len() == p.len() + q.len());
    assert(pc[n - 1] == p[n - 1] && pc[n] == q[0]);
    let j = joined(p, q);
    assert forall|i: int| 0 <= i < d.len() implies periods(b, d)[i] == j[i] && valid(b, (#[trigger] d[i]).state) by { assert(valid(b, c[i].state)); assert(pc[i] == if i < n { p[i] } else { q[i - n] }); if i + 1 < c.len() { assert(valid(b, c[i + 1].state)); assert(pc[i + 1] == if i + 1 < n { p[i + 1] } else { q[i + 1 - n] }); } }
    assert(periods(b, d) =~= j);
}
/// the parts of a table, one after the other
pub open spec fn together(parts: Seq<Seq<Rv>>) -> Seq<Rv> decreases parts.len() { if parts.len() == 0 { Seq::empty() } else { together(parts.drop_last()) + parts.last() } }
/// rolling up aggregates of consecutive parts of a table gives the timeline of the whole table
pub proof fn rolled_up(parts: Seq<Seq<Rv>>)
    requires parts.len() > 0, in_order(together(parts)), forall|i: int| 0 <= i < parts.len() ==> (#[trigger] parts[i]).len() > 0
    ensures chain(Seq::new(parts.len(), |i: int| timeline(parts[i]))) == timeline(together(parts)), together(parts).len() > 0
    decreases parts.len()
{
    let d = parts.drop_last();
    let ps = Seq::new(parts.len(), |i: int| timeline(parts[i]));
    assert(ps.drop_last() =~= Seq::new(d.len(), |i: int| timeline(d[i])));
    assert(parts[parts.len() - 1].len() > 0);
    if d.len() == 0 { assert(together(d) =~= Seq::empty()); assert(together(parts) =~= parts[0]); }
    else {
        let (x, y) = (together(d), parts.last());
        assert(in_order(x)) by { assert forall|i: int, j: int| 0 <= i <= j < x.len() implies (#[trigger] x[i]).t <= (#[trigger] x[j]).t && (x[i].t == x[j].t ==> x[i].s == x[j].s) by { assert((x + y)[i] == x[i] && (x + y)[j] == x[j]); } }
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).len() > 0 by { assert(d[i] == parts[i]); }
        rolled_up(d);
        split(x, y);
    }
}

impl VxStr {
    #[verifier::external_body]
    pub fn vx_part(&self, a: usize, b: usize) -> (r: Option<&VxStr>) ensures whole(self@, a as int, b as int) ==> r is Some && r->0@ == self@.subrange(a as int, b as int) { unimplemented!() }
}
impl StateAgg {
    #[verifier::external_body]
    pub fn as_compact_state_agg(self) -> (r: CompactStateAgg) ensures r == self.compact_state_agg { unimplemented!() }
}
impl TimestampTz { pub fn from(t: i64) -> (r: Self) ensures r.t == t { TimestampTz { t } } }
#[verifier::external_body]
pub fn vx_search(v: &[TimeInState], point: i64) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i < j < v@.len() ==> (#[trigger] v@[i]).start_time < (#[trigger] v@[j]).start_time
    ensures match r { Ok(k) => k < v@.len() && v@[k as int].start_time == point, Err(k) => k <= v@.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] v@[i]).start_time < point) && forall|i: int| k <= i < v@.len() ==> (#[trigger] v@[i]).start_time > point }
{ unimplemented!() }
pub proof fn at_time(p: Seq<Pv>, k: int, t: int)
    requires line(p), 0 <= k < p.len(), p[k].a <= t, k + 1 < p.len() ==> t < p[k + 1].a, forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).a < (#[trigger] p[j]).a
    ensures forall|i: int| 0 <= i < p.len() && (#[trigger] p[i]).a <= t && (i == p.len() - 1 || t < p[i].b) ==> i == k, p[0].a <= t
{
    assert forall|i: int| 0 <= i < p.len() && (#[trigger] p[i]).a <= t && (i == p.len() - 1 || t < p[i].b) implies i == k by {
        if i < k { assert(p[i].b == p[i + 1].a); if i + 1 < k { assert(p[i + 1].a < p[k].a); } }
        if i > k { if k + 1 < i { assert(p[k + 1].a < p[i].a); } }
    }
    if k > 0 { assert(p[0].a < p[k].a); }
}
pub open spec fn texts(v: Seq<(VxStr, TimestampTz, TimestampTz)>) -> Seq<Pv> { Seq::new(v.len(), |i: int| Pv { a: v[i].1.t as int, b: v[i].2.t as int, s: St::Text(v[i].0@) }) }
pub open spec fn numbers(v: Seq<(i64, TimestampTz, TimestampTz)>) -> Seq<Pv> { Seq::new(v.len(), |i: int| Pv { a: v[i].1.t as int, b: v[i].2.t as int, s: St::Int(v[i].0 as int) }) }
pub fn vx_texts(c: &VxSlice<TimeInState>, states: VxStr) -> (r: Vec<(VxStr, TimestampTz, TimestampTz)>) requires named(states@, c@) ensures texts(r@) == periods(states@, c@)
{
    let mut r: Vec<(VxStr, TimestampTz, TimestampTz)> = Vec::new(); let mut k: usize = 0; let v = c.as_slice();
    while k < v.len() invariant k <= v@.len(), v@ == c@, r@.len() == k, named(states@, c@), forall|i: int| 0 <= i < k ==> texts(r@)[i] == #[trigger] periods(states@, c@)[i] decreases v@.len() - k
    { let ghost r0 = r@; let x = vx_text(v[k], states.clone()); r.push(x); k += 1; proof { assert forall|i: int| 0 <= i < k implies texts(r@)[i] == #[trigger] periods(states@, c@)[i] by { if i < k - 1 { assert(texts(r0)[i] == periods(states@, c@)[i]); } } } }
    proof { assert(texts(r@) =~= periods(states@, c@)); }
    r
}
pub fn vx_numbers(c: &VxSlice<TimeInState>, states: &VxStr) -> (r: Vec<(i64, TimestampTz, TimestampTz)>) ensures numbers(r@) == periods(states@, c@)
{
    let mut r: Vec<(i64, TimestampTz, TimestampTz)> = Vec::new(); let mut k: usize = 0; let v = c.as_slice();
    while k < v.len() invariant k <= v@.len(), v@ == c@, r@.len() == k, forall|i: int| 0 <= i < k ==> numbers(r@)[i] == #[trigger] periods(states@, c@)[i] decreases v@.len() - k
    { let ghost r0 = r@; let x = vx_number(v[k]); r.push(x); k += 1; proof { assert forall|i: int| 0 <= i < k implies numbers(r@)[i] == #[trigger] periods(states@, c@)[i] by { if i < k - 1 { assert(numbers(r0)[i] == periods(states@, c@)[i]); } } } }
    proof { assert(numbers(r@) =~= periods(states@, c@)); }
    r
}

pub open spec fn spans(v: Seq<(TimestampTz, TimestampTz)>) -> Seq<(int, int)> { Seq::new(v.len(), |i: int| (v[i].0.t as int, v[i].1.t as int)) }
/// the periods of state s
pub open spec fn those(p: Seq<Pv>, s: St) -> Seq<(int, int)> decreases p.len() { if p.len() == 0 { Seq::empty() } else if p.last().s == s { those(p.drop_last(), s).push((p.last().a, p.last().b)) } else { those(p.drop_last(), s) } }
pub fn vx_picked(c: &VxSlice<TimeInState>, states: VxStr, state: MaterializedState) -> (r: Vec<(TimestampTz, TimestampTz)>) requires named(states@, c@) ensures spans(r@) == those(periods(states@, c@), state@)
{
    let mut r: Vec<(TimestampTz, TimestampTz)> = Vec::new(); let mut k: usize = 0; let v = c.as_slice(); let ghost p = periods(states@, c@);
    proof { assert(spans(r@) =~= those(p.subrange(0, 0), state@)); }
    while k < v.len() invariant k <= v@.len(), v@ == c@, p == periods(states@, c@), named(states@, c@), spans(r@) == those(p.subrange(0, k as int), state@) decreases v@.len() - k
    {
        let ghost r0 = r@;
        proof { assert(p.subrange(0, k + 1).drop_last() =~= p.subrange(0, k as int)); assert(p.subrange(0, k + 1).last() == p[k as int]); }
        if let Some(x) = vx_pick(v[k], states.clone(), state.clone()) { r.push(x); proof { assert(spans(r@) =~= spans(r0).push((x.0.t as int, x.1.t as int))); } }
        k += 1;
    }
    proof { assert(p.subrange(0, p.len() as int) =~= p); }
    r
}
pub open spec fn text_times(v: Seq<(VxStr, i64)>) -> Seq<Dv> { Seq::new(v.len(), |i: int| Dv { n: v[i].1 as int, s: St::Text(v[i].0@) }) }
pub open spec fn number_times(v: Seq<(i64, i64)>) -> Seq<Dv> { Seq::new(v.len(), |i: int| Dv { n: v[i].1 as int, s: St::Int(v[i].0 as int) }) }
pub fn vx_text_times(c: &VxSlice<DurationInState>, states: VxStr) -> (r: Vec<(VxStr, i64)>) requires known(states@, c@) ensures text_times(r@) == read(states@, c@)
{
    let mut r: Vec<(VxStr, i64)> = Vec::new(); let mut k: usize = 0; let v = c.as_slice();
    while k < v.len() invariant k <= v@.len(), v@ == c@, r@.len() == k, known(states@, c@), forall|i: int| 0 <= i < k ==> text_times(r@)[i] == #[trigger] read(states@, c@)[i] decreases v@.len() - k
    { let ghost r0 = r@; let x = vx_text_time(v[k], states.clone()); r.push(x); k += 1; proof { assert forall|i: int| 0 <= i < k implies text_times(r@)[i] == #[trigger] read(states@, c@)[i] by { if i < k - 1 { assert(text_times(r0)[i] == read(states@, c@)[i]); } } } }
    proof { assert(text_times(r@) =~= read(states@, c@)); }
    r
}
pub fn vx_number_times(c: &VxSlice<DurationInState>, states: &VxStr) -> (r: Vec<(i64, i64)>) ensures number_times(r@) == read(states@, c@)
{
    let mut r: Vec<(i64, i64)> = Vec::new(); let mut k: usize = 0; let v = c.as_slice();
    while k < v.len() invariant k <= v@.len(), v@ == c@, r@.len() == k, forall|i: int| 0 <= i < k ==> number_times(r@)[i] == #[trigger] read(states@, c@)[i] decreases v@.len() - k
    { let ghost r0 = r@; let x = vx_number_time(v[k]); r.push(x); k += 1; proof { assert forall|i: int| 0 <= i < k implies number_times(r@)[i] == #[trigger] read(states@, c@)[i] by { if i < k - 1 { assert(number_times(r0)[i] == read(states@, c@)[i]); } } } }
    proof { assert(number_times(r@) =~= read(states@, c@)); }
    r
}

pub open spec fn vx_inner(o: Option<Vec<TimeInState>>) -> Seq<TimeInState> { match o { Some(c) => c@, None => Seq::empty() } }
pub fn vx_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>) ensures match r { Some(x) => i < old(v)@.len() && *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)), None => i >= old(v)@.len() && final(v)@ == old(v)@ } { if i < v.len() { Some(&mut v[i]) } else { None } }
pub fn vx_as_mut<T>(v: &mut Option<T>) -> (r: Option<&mut T>) ensures match r { Some(x) => *old(v) == Some(*x) && *final(v) == Some(*final(x)), None => *old(v) is None && *final(v) is None } { match v { Some(x) => Some(x), None => None } }
pub fn vx_at_last<T>(v: &mut Vec<T>) -> (r: &mut T) requires old(v)@.len() > 0 ensures *r == old(v)@[old(v)@.len() - 1], final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r)) { let n = v.len() - 1; &mut v[n] }
/// the state that the previous bucket ends in, if this one starts later than its interval
pub open spec fn carried(g: Ag, prev: Option<Ag>, t: int) -> Option<St> { match prev { Some(q) => if t < g.ft { Some(q.d[q.ls].s) } else { None }, None => None } }
/// a timeline with a state carried in at time t
pub open spec fn begun(p: Seq<Pv>, s: Option<St>, t: int) -> Seq<Pv> { match s { None => p, Some(s) => if p[0].s == s { p.update(0, Pv { a: t, b: p[0].b, s }) } else { seq![Pv { a: t, b: p[0].a, s }] + p } } }
/// a timeline whose last state lasts until time t
pub open spec fn ended(p: Seq<Pv>, t: int) -> Seq<Pv> { if t > p.last().b { p.update(p.len() - 1, Pv { a: p.last().a, b: t, s: p.last().s }) } else { p } }
pub open spec fn extends(g: Ag, s: Option<St>, t: int, e: int, r: Ag) -> bool { forall|p: Seq<Pv>| #[trigger] fits(g, p) ==> fits(r, ended(begun(p, s, t), e)) }
pub open spec fn started(d: Seq<Dv>, s: Option<St>, n: int, found: int) -> Seq<Dv> { match s { None => d, Some(s) => if found >= 0 { d.update(found, Dv { n: d[found].n + n, s: d[found].s }) } else { d.push(Dv { n, s }) } } }
pub proof fn begun_line(p: Seq<Pv>, s: Option<St>, t: int)
    requires line(p), s is Some ==> t < p[0].a
    ensures ({ let q = begun(p, s, t); line(q) && q.last() == (if p.len() == 1 && s is Some && p[0].s == s->0 { Pv { a: t, ..p[0] } } else { p.last() }) && q.last().b == p.last().b && q.last().s == p.last().s && q[0].a == (if s is Some { t } else { p[0].a }) && q[0].s == (if s is Some { s->0 } else { p[0].s }) }),
        forall|x: St| #[trigger] spent(begun(p, s, t), x) == spent(p, x) + if s == Some(x) { p[0].a - t } else { 0 }, forall|x: St| #[trigger] occurs(begun(p, s, t), x) == (occurs(p, x) || s == Some(x))
{
    let q = begun(p, s, t);
    if s is Some {
        let z = s->0;
        let same = p[0].s == z;
        assert(p[0].a <= p[0].b);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).a <= q[i].b by { if !same && i > 0 { assert(p[i - 1].a <= p[i - 1].b); } }
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < q.len() implies (#[trigger] q[i]).b == (#[trigger] q[j]).a && q[i].s != q[j].s by { if same { assert(p[i].b == p[j].a && p[i].s != p[j].s); } else if i > 0 { assert(p[i - 1].b == p[j - 1].a && p[i - 1].s != p[j - 1].s); } }
        assert forall|x: St| #[trigger] spent(q, x) == spent(p, x) + if s == Some(x) { p[0].a - t } else { 0 } by {
            spent_first(p, x); spent_first(q, x);
            if same { assert(q.drop_first() =~= p.drop_first()); } else { assert(q.drop_first() =~= p); }
        }
        assert forall|x: St| #[trigger] occurs(q, x) == (occurs(p, x) || s == Some(x)) by {
            if occurs(p, x) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).s == x; if same { assert(q[i].s == x); } else { assert(q[i + 1].s == x); } }
            if s == Some(x) { assert(q[0].s == x); }
            if occurs(q, x) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).s == x; if same { assert(p[i].s == x); } else if i > 0 { assert(p[i - 1].s == x); } }
        }
    }
}
pub proof fn ended_line(p: Seq<Pv>, t: int)
    requires line(p)
    ensures ({ let q = ended(p, t); line(q) && q.last().b == (if t > p.last().b { t } else { p.last().b }) && q.last().s == p.last().s && q[0].a == p[0].a && q[0].s == p[0].s }),
        forall|x: St| #[trigger] spent(ended(p, t), x) == spent(p, x) + if p.last().s == x && t > p.last().b { t - p.last().b } else { 0 }, forall|x: St| #[trigger] occurs(ended(p, t), x) == occurs(p, x)
{
    let q = ended(p, t);
    let n = p.len() - 1;
    assert(p[n].a <= p[n].b);
    if t > p.last().b {
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).a <= q[i].b by { assert(p[i].a <= p[i].b); }
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < q.len() implies (#[trigger] q[i]).b == (#[trigger] q[j]).a && q[i].s != q[j].s by { assert(p[i].b == p[j].a && p[i].s != p[j].s); }
        assert forall|x: St| #[trigger] spent(q, x) == spent(p, x) + if p.last().s == x && t > p.last().b { t - p.last().b } else { 0 } by { spent_last(p, Pv { a: p.last().a, b: t, s: p.last().s }, x); }
        assert forall|x: St| #[trigger] occurs(q, x) == occurs(p, x) by { if occurs(p, x) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).s == x; assert(q[i].s == x); } if occurs(q, x) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).s == x; assert(p[i].s == x); } }
    }
}
pub proof fn extended(g: Ag, r: Ag, s: Option<St>, t: int, e: int, d: Seq<Dv>, c: Seq<Pv>, found: int)
    requires g.d.len() > 0, described(g), s is Some ==> t < g.ft, date(t), date(e), s is Some && found >= 0 ==> found < g.d.len() && g.d[found].s == s->0, s is Some && found < 0 ==> !listed(g.d, s->0), d == started(g.d, s, g.ft - t, found), !g.compact ==> c == begun(g.c, s, t),
        r.compact == g.compact, r.d == (if e > g.lt { d.update(g.ls, Dv { n: d[g.ls].n + (e - g.lt), s: d[g.ls].s }) } else { d }), r.c == (if g.compact { Seq::empty() } else { ended(c, e) }), r.ft == (if s is Some { t } else { g.ft }), r.lt == (if e > g.lt { e } else { g.lt }),
        0 <= r.fs < r.d.len(), 0 <= r.ls < r.d.len(), r.d.len() <= u32::MAX, r.d[r.fs].s == (if s is Some { s->0 } else { g.d[g.fs].s }), r.d[r.ls].s == g.d[g.ls].s
    ensures extends(g, s, t, e, r)
{
    assert forall|p: Seq<Pv>| #[trigger] fits(g, p) implies fits(r, ended(begun(p, s, t), e)) by {
        begun_line(p, s, t);
        let q = begun(p, s, t);
        ended_line(q, e);
        let w = ended(q, e);
        if s is Some { if found >= 0 { once_update(g.d, found, d[found]); } else { once_push(g.d, d.last()); } }
        if e > g.lt { once_update(d, g.ls, r.d[g.ls]); }
        assert(d[g.ls].s == g.d[g.ls].s);
        assert forall|x: St| #![trigger total(r.d, x)] #![trigger spent(w, x)] #![trigger listed(r.d, x)] #![trigger occurs(w, x)] total(r.d, x) == spent(w, x) && listed(r.d, x) == occurs(w, x) by {
            assert(total(g.d, x) == spent(p, x) && listed(g.d, x) == occurs(p, x));
            if s is Some { if found >= 0 { total_update(g.d, found, d[found], x); assert(listed(g.d, s->0)); } else { total_push(g.d, d.last(), x); listed_push(g.d, d.last(), x); } }
            if e > g.lt { total_update(d, g.ls, r.d[g.ls], x); }
            assert(spent(q, x) == spent(p, x) + if s == Some(x) { p[0].a - t } else { 0 });
            assert(occurs(q, x) == (occurs(p, x) || s == Some(x)));
            assert(spent(w, x) == spent(q, x) + if q.last().s == x && e > q.last().b { e - q.last().b } else { 0 });
            assert(occurs(w, x) == occurs(q, x));
        }
    }
}

pub open spec fn gathered(s: Option<RollupTransState>) -> Seq<Ag> { match s { Some(s) => aggs(s.values@), None => Seq::empty() } }
pub open spec fn sound(s: RollupTransState) -> bool { forall|i: int| 0 <= i < s.values@.len() ==> (#[trigger] s.values@[i]).wf() }
impl CompactStateAgg { pub fn vx_into(self) -> (r: OwnedCompactStateAgg) requires self.wf() ensures r.wf(), r@ == self@ { OwnedCompactStateAgg::from(self) } }
impl OwnedCompactStateAgg { pub fn vx_into(self) -> (r: CompactStateAgg) requires self.wf() ensures r.wf(), r@ == self@ { CompactStateAgg::from(self) } }
impl RollupTransState { pub fn vx_into(self) -> (r: RollupTransState) ensures r == self { self } }
pub fn vx_one(x: OwnedCompactStateAgg) -> (r: Vec<OwnedCompactStateAgg>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }
#[verifier::external_body]
pub fn vx_cat(a: &Vec<OwnedCompactStateAgg>, b: &Vec<OwnedCompactStateAgg>) -> (r: Vec<OwnedCompactStateAgg>) ensures r@ == a@ + b@ { unimplemented!() }
"""
