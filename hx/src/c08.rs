//! C08: half-open time ranges.
use crate::shim::*;
use counter_agg::range::I64Range;

fn side() -> Option<i64> {
    let v = any_i64();
    if any_bool() { Some(v) } else { None }
}
fn range() -> I64Range { I64Range { left: side(), right: side() } }
/// abstract view: t is in [left, right)
fn mem(r: &I64Range, t: i64) -> bool {
    r.left.is_none_or(|l| l <= t) && r.right.is_none_or(|h| t < h)
}
harnesses! {
    fn contains_is_membership() {
        let (r, t) = (range(), any_i64());
        assert!(r.contains(t) == mem(&r, t), "contains");
        reach!(r.contains(t), "in"); reach!(!r.contains(t), "out");
    }
    fn extend_is_hull() {
        let (a, b) = (range(), range());
        // non-empty or singleton ranges, as the SQL layer builds them
        assume(!matches!((a.left, a.right), (Some(x), Some(y)) if x > y));
        assume(!matches!((b.left, b.right), (Some(x), Some(y)) if x > y));
        let mut e = a;
        e.extend(&b);
        let t = any_i64();
        if mem(&a, t) || mem(&b, t) { assert!(mem(&e, t), "the union must contain both ranges"); }
        // smallest: every end of the result is an end of one of the two
        match e.left { None => assert!(a.left.is_none() || b.left.is_none(), "left end appeared from nowhere"),
            Some(l) => assert!(Some(l) == a.left || Some(l) == b.left, "left end appeared from nowhere") }
        match e.right { None => assert!(a.right.is_none() || b.right.is_none(), "right end appeared from nowhere"),
            Some(l) => assert!(Some(l) == a.right || Some(l) == b.right, "right end appeared from nowhere") }
        // commutative and idempotent
        let mut f = b;
        f.extend(&a);
        assert!(e == f, "union depends on order");
        let mut g = e;
        g.extend(&b);
        assert!(g == e, "union is not idempotent");
    }
    fn shape_queries() {
        let r = range();
        assert!(r.has_infinite() == (r.left.is_none() || r.right.is_none()), "has_infinite");
        assert!(r.is_singleton() == (r.left.is_some() && r.left == r.right), "is_singleton");
        // the length of a finite range that fits the time domain
        match (r.left, r.right) {
            (Some(l), Some(h)) if l > h => assert!(r.duration().is_none(), "reversed range has no duration"),
            (Some(l), Some(h)) => {
                if (h as i128 - l as i128) <= i64::MAX as i128 {
                    assert!(r.duration() == Some(h - l), "duration is the distance of the ends");
                    reach!(true, "finite");
                }
            }
            _ => assert!(r.duration().is_none(), "unbounded range has no duration"),
        }
    }
}
executed! {}
