F = "crates/count-min-sketch/src/lib.rs"
ASSUMED = ["CountMinHashFn::hash_into_buckets: some function of key, item and width with values below the width (SipHash is not verified)",
           "Iterator::min over integers: the least element", "Iterator::zip ends only when one of its two iterators does"]
USES = "use std::hash::Hash; use vstd::std_specs::iter::*;"
PRELUDE = r"""
#[verifier::external_body]
pub struct Item { q: u8 }
pub uninterp spec fn bucket(key: u64, item: Item, n: usize) -> usize;
/// the counter that row i keeps for an item
pub open spec fn at(s: CountMinSketch, i: int, item: Item) -> int { s.counters[i][bucket(s.hashfuncs[i].key, item, s.width) as int] as int }
/// the effect of counting one item, as add_value's postcondition states it
pub open spec fn added(a: CountMinSketch, b: CountMinSketch, item: Item) -> bool {
    &&& b.wf() && b.width == a.width && b.depth == a.depth && b.hashfuncs == a.hashfuncs
    &&& forall|i: int, j: int| 0 <= i < a.depth && 0 <= j < a.width ==>
            #[trigger] b.counters[i][j] == a.counters[i][j] + (if j == bucket(a.hashfuncs[i].key, item, a.width) { 1int } else { 0int })
}
pub open spec fn times(xs: Seq<Item>, x: Item) -> int decreases xs.len() {
    if xs.len() == 0 { 0 } else { times(xs.drop_last(), x) + (if xs.last() == x { 1int } else { 0int }) }
}
/// every history of additions to an empty sketch: no row counts an item less often than it was added, nor more often than the number of additions
pub proof fn history(ss: Seq<CountMinSketch>, xs: Seq<Item>, i: int, x: Item)
    requires ss.len() == xs.len() + 1, ss[0].wf(), 0 <= i < ss[0].depth,
        ss[0].width > 0, bucket(ss[0].hashfuncs[i].key, x, ss[0].width) < ss[0].width,
        forall|j: int| 0 <= j < ss[0].width ==> #[trigger] ss[0].counters[i][j] == 0,
        forall|k: int| 0 <= k < xs.len() ==> added(#[trigger] ss[k], ss[k + 1], xs[k]),
    ensures ss.last().wf(), ss.last().width == ss[0].width, ss.last().depth == ss[0].depth, ss.last().hashfuncs == ss[0].hashfuncs,
        times(xs, x) <= at(ss.last(), i, x) <= xs.len(),
    decreases xs.len()
{
    if xs.len() > 0 {
        let n = xs.len() as int;
        assert(added(ss[n - 1], ss[n - 1 + 1], xs[n - 1]));
        assert(ss.drop_last()[0] == ss[0]);
        assert forall|k: int| 0 <= k < xs.drop_last().len() implies added(#[trigger] ss.drop_last()[k], ss.drop_last()[k + 1], xs.drop_last()[k]) by { assert(added(ss[k], ss[k + 1], xs[k])); }
        history(ss.drop_last(), xs.drop_last(), i, x);
        assert(ss.drop_last().last() == ss[n - 1]);
        let a = ss[n - 1];
        assert(ss[n].counters[i][bucket(a.hashfuncs[i].key, x, a.width) as int] >= a.counters[i][bucket(a.hashfuncs[i].key, x, a.width) as int]);
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for CountMinHashFn {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
pub trait VxZip<A: Iterator, B: Iterator>: Sized {
    spec fn the_zip(self) -> std::iter::Zip<A, B>;
    fn vx_zip(self) -> (r: Self)
        ensures r == self, IteratorSpec::will_return_none(&self.the_zip()) ==>
            IteratorSpec::remaining(&self.the_zip()).len() == IteratorSpec::remaining(&zip_iter_fst(self.the_zip())).len() || IteratorSpec::will_return_none(&zip_iter_snd(self.the_zip()));
}
impl<A: Iterator, B: Iterator> VxZip<A, B> for std::iter::Zip<A, B> {
    open spec fn the_zip(self) -> std::iter::Zip<A, B> { self }
    #[verifier::external_body]
    fn vx_zip(self) -> (r: Self) { self }
}
pub trait VxMin: Iterator<Item = i64> + Sized {
    fn vx_min(self) -> (r: Option<i64>)
        ensures self.obeys_prophetic_iter_laws() ==> {
            &&& self.will_return_none()
            &&& self.remaining().len() == 0 ==> r is None
            &&& self.remaining().len() > 0 ==> r is Some && (forall|k: int| 0 <= k < self.remaining().len() ==> r->0 <= #[trigger] self.remaining()[k])
                && exists|k: int| 0 <= k < self.remaining().len() && r->0 == #[trigger] self.remaining()[k]
        };
}
impl<I: Iterator<Item = i64>> VxMin for I {
    #[verifier::external_body]
    fn vx_min(self) -> (r: Option<i64>) { self.min() }
}
"""
# the type of the counted values is an opaque type instead of a parameter
RENAME = [(r"<T: Hash>", ""), (r"item: T\b", "item: Item"), (r"item: &T\b", "item: &Item")]
PARTS = [
    ("struct", F, "CountMinHashFn", "#[derive(PartialEq, Eq, Structural)]\n"),
    ("impl", F, "impl CountMinHashFn", ["with_key", "key", "hash_into_buckets"]),
    ("struct", F, "CountMinSketch"),
    ("impl", F, "impl CountMinSketch", ["new", "with_dims_and_hashfn_keys", "with_dim", "width", "depth", "hash_keys", "counters", "get_bucket_indices", "add_value", "subtract_value", "combine", "estimate"]),
]
IMPL = {"impl CountMinSketch": r"""
    pub open spec fn wf(&self) -> bool {
        &&& self.hashfuncs.len() == self.depth && self.counters.len() == self.depth
        &&& forall|i: int| 0 <= i < self.depth ==> (#[trigger] self.counters[i]).len() == self.width
    }
"""}
STEP = """        requires old(self).wf(), old(self).width > 0,
            forall|i: int, j: int| 0 <= i < old(self).depth && 0 <= j < old(self).width ==> %s,
        ensures final(self).wf(), final(self).width == old(self).width, final(self).depth == old(self).depth, final(self).hashfuncs == old(self).hashfuncs,
            forall|i: int, j: int| 0 <= i < old(self).depth && 0 <= j < old(self).width ==>
                #[trigger] final(self).counters[i][j] == old(self).counters[i][j] %s (if j == bucket(old(self).hashfuncs[i].key, item, old(self).width) { 1int } else { 0int }),"""
LOOP = """            invariant self.wf(), self.width == old(self).width, self.depth == old(self).depth, self.hashfuncs == old(self).hashfuncs, self.width > 0,
                forall|i: int, j: int| 0 <= i < old(self).depth && 0 <= j < old(self).width ==> %s,
                forall|i: int, j: int| vxi0.index() <= i < self.depth && 0 <= j < self.width ==> #[trigger] self.counters[i][j] == old(self).counters[i][j],
                forall|i: int, j: int| 0 <= i < vxi0.index() && 0 <= j < self.width ==>
                    #[trigger] self.counters[i][j] == old(self).counters[i][j] %s (if j == bucket(self.hashfuncs[i].key, item, self.width) { 1int } else { 0int }),"""
SAME = "self.wf(), self.width == old(self).width, self.depth == old(self).depth, self.hashfuncs == old(self).hashfuncs"
EMPTY = """r.wf(), r.width == width, r.depth == depth, forall|i: int, j: int| 0 <= i < depth && 0 <= j < width ==> #[trigger] r.counters[i][j] == 0"""
SPECS = {
    "with_key": dict(ret="r", clauses="ensures r.key == key"),
    "key": dict(ret="r", clauses="ensures r == self.key"),
    "hash_into_buckets": dict(ret="r", assumed=True, clauses="ensures r == bucket(self.key, *item, nbuckets), r < nbuckets"),
    "new": dict(ret="r", clauses="""requires depth > 0, forall|i: int| 0 <= i < counters.len() ==> (#[trigger] counters[i]).len() == counters[0].len()
        ensures r.wf(), r.width == width, r.depth == depth, r.hashfuncs == hashfuncs, r.counters == counters""", ghost={"start": "let ghost n0 = counters.len();"}),
    "with_dims_and_hashfn_keys": dict(ret="r", clauses="ensures " + EMPTY + ", forall|i: int| 0 <= i < depth ==> #[trigger] r.hashfuncs[i].key == keys[i]",
        rewrite=[(r"\|key\| CountMinHashFn::with_key\(\*key\)", "|key: &u64| -> (q: CountMinHashFn) ensures q.key == *key { CountMinHashFn::with_key(*key) }")]),
    "with_dim": dict(ret="r", clauses="requires depth < usize::MAX ensures " + EMPTY + ", forall|i: int| 0 <= i < depth ==> #[trigger] r.hashfuncs[i].key == i + 1",
        rewrite=[(r"\|k\| k as u64", "|k: usize| -> (q: u64) ensures q == k { k as u64 }")]),
    "width": dict(ret="r", clauses="ensures r == self.width"), "depth": dict(ret="r", clauses="ensures r == self.depth"), "counters": dict(ret="r", clauses="ensures *r == self.counters"),
    "hash_keys": dict(ret="r", clauses="ensures r.len() == self.hashfuncs.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == self.hashfuncs[i].key",
        rewrite=[(r"\|f\| f\.key\(\)", "|f: &CountMinHashFn| -> (q: u64) ensures q == f.key { f.key() }")]),
    "get_bucket_indices": dict(ret="r", clauses="requires self.wf(), self.width > 0 ensures r.len() == self.depth, forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == bucket(self.hashfuncs[i].key, item, self.width) && r[i] < self.width",
        rewrite=[(r"\|h\| h\.hash_into_buckets\(&item, self\.width\)", "|h: &CountMinHashFn| -> (q: usize) ensures q == bucket(h.key, item, self.width), q < self.width { h.hash_into_buckets(&item, self.width) }")]),
    "estimate": dict(ret="r", clauses="""requires self.wf(), self.width > 0, self.depth > 0
        ensures forall|i: int| 0 <= i < self.depth ==> r <= #[trigger] at(*self, i, item), exists|i: int| 0 <= i < self.depth && r == #[trigger] at(*self, i, item)""",
        rewrite=[(r"\|h\| h\.hash_into_buckets\(&item, self\.width\)", "|h: &CountMinHashFn| -> (q: usize) ensures q == bucket(h.key, item, self.width), q < self.width { h.hash_into_buckets(&item, self.width) }"),
            (r"\|vxp\| \{ let \(counter, bucket\) = vxp; counter\[bucket\] \}", "|vxp: (&Vec<i64>, usize)| -> (q: i64) requires vxp.1 < vxp.0.len() ensures q == vxp.0[vxp.1 as int] { let (counter, bucket) = vxp; counter[bucket] }"),
            (r"self\.counters", "let vxm = self.counters"), (r"\.zip\(buckets\)", ".zip(buckets).vx_zip()"),
            (r"\.min\(\)", "; let ghost rem = IteratorSpec::remaining(&vxm); let vxr = vxm.vx_min(); proof { assert(rem.len() == self.depth); assert forall|i: int| 0 <= i < self.depth implies rem[i] == #[trigger] at(*self, i, item) by { let x = rem[i]; } let w = choose|k: int| 0 <= k < rem.len() && vxr->0 == rem[k]; assert(vxr->0 == at(*self, w, item)); } vxr")]),
    "add_value": dict(clauses=STEP % ("(#[trigger] old(self).counters[i][j]) < i64::MAX", "+") + " added(*old(self), *final(self), item),", loops={0: LOOP % ("(#[trigger] old(self).counters[i][j]) < i64::MAX", "+")}),
    "subtract_value": dict(clauses=STEP % ("(#[trigger] old(self).counters[i][j]) > i64::MIN", "-"), loops={0: LOOP % ("(#[trigger] old(self).counters[i][j]) > i64::MIN", "-")}),
    "combine": dict(clauses="""requires old(self).wf(), other.wf(),
            old(self).width == other.width && old(self).depth == other.depth ==> forall|i: int, j: int| 0 <= i < old(self).depth && 0 <= j < old(self).width ==> i64::MIN <= (#[trigger] old(self).counters[i][j]) + other.counters[i][j] <= i64::MAX,
        ensures final(self).wf(), final(self).width == old(self).width, final(self).depth == old(self).depth, final(self).hashfuncs == old(self).hashfuncs,
            other.width == old(self).width, other.depth == old(self).depth, forall|k: int| 0 <= k < old(self).hashfuncs.len() ==> #[trigger] other.hashfuncs[k] == old(self).hashfuncs[k], other.hashfuncs.len() == old(self).hashfuncs.len(),
            forall|i: int, j: int| 0 <= i < old(self).depth && 0 <= j < old(self).width ==> #[trigger] final(self).counters[i][j] == old(self).counters[i][j] + other.counters[i][j]""",
        ghost={"la0": "assert forall|i: int| 0 <= i < self.depth implies (#[trigger] self.counters[i]).len() == self.width by { assert(other.counters[i].len() == other.width); }",
               "lb0": "let ghost c1 = counter1@; let ghost c2 = counter2@; let ghost i = vxi0.index(); assert(c1 == old(self).counters[i]@); assert(c2 == other.counters[i]@);",
               "lb1": "let ghost k = vxi1.index(); assert(*vxi1.seq()[k].0 == c1[k] && vxi1.seq()[k].1 == c2[k]); assert(i64::MIN <= c1[k] + c2[k] <= i64::MAX);"},
        loops={0: """invariant vxi0.seq().len() == old(self).depth, old(self).wf(), other.wf(), other.width == old(self).width, other.depth == old(self).depth,
              forall|k: int| 0 <= k < vxi0.seq().len() ==> *vxi0.seq()[k].0 == old(self).counters[k] && vxi0.seq()[k].1 == other.counters[k],
              forall|i: int, j: int| 0 <= i < old(self).depth && 0 <= j < old(self).width ==> i64::MIN <= (#[trigger] old(self).counters[i][j]) + other.counters[i][j] <= i64::MAX,
              forall|k: int| 0 <= k < vxi0.index() ==> #[trigger] (*final(vxi0.seq()[k].0)).len() == old(self).width,
              forall|k: int, j: int| 0 <= k < vxi0.index() && 0 <= j < old(self).width ==> (*final(vxi0.seq()[k].0))[j] == old(self).counters[k][j] + other.counters[k][j],""",
           1: """invariant vxi1.seq().len() == c1.len(), c1.len() == c2.len(), c1.len() == old(self).width,
              forall|k: int| 0 <= k < vxi1.seq().len() ==> *vxi1.seq()[k].0 == c1[k] && vxi1.seq()[k].1 == c2[k],
              forall|j: int| 0 <= j < c1.len() ==> i64::MIN <= (#[trigger] c1[j]) + c2[j] <= i64::MAX,
              forall|k: int| 0 <= k < vxi1.index() ==> *final(vxi1.seq()[k].0) == c1[k] + c2[k],"""}),
}
