//! C19: saturating integer arithmetic.
use crate::shim::*;
use timescaledb_toolkit::saturation::verif as sat;

fn clamp(x: i64) -> i32 { if x > i32::MAX as i64 { i32::MAX } else if x < i32::MIN as i64 { i32::MIN } else { x as i32 } }
harnesses! {
    fn add_saturates() {
        let (x, y) = (any_i32(), any_i32());
        assert!(sat::add(x, y) == clamp(x as i64 + y as i64));
        reach!(x > i32::MAX - 10 && y > 100, "above");
    }
    fn sub_saturates() {
        let (x, y) = (any_i32(), any_i32());
        assert!(sat::sub(x, y) == clamp(x as i64 - y as i64));
        reach!(x == i32::MIN && y == 1, "below");
    }
    fn mul_saturates() {
        let (x, y) = (any_i32(), any_i32());
        assert!(sat::mul(x, y) == clamp(x as i64 * y as i64));
        reach!(x == i32::MIN && y == -1, "above");
    }
    fn add_pos_saturates() {
        let (x, y) = (any_i32(), any_i32());
        assert!(sat::add_pos(x, y) == clamp((x as i64 + y as i64).max(0)));
    }
    fn sub_pos_saturates() {
        let (x, y) = (any_i32(), any_i32());
        assert!(sat::sub_pos(x, y) == clamp((x as i64 - y as i64).max(0)));
        reach!(x > 0 && y < -2147483640, "above");
    }
}
executed! {}
