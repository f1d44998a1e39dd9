// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
pub fn add(x: i32, y: i32) -> i32 { super::saturating_add(x, y) }
pub fn add_pos(x: i32, y: i32) -> i32 { super::saturating_add_pos(x, y) }
pub fn sub(x: i32, y: i32) -> i32 { super::saturating_sub(x, y) }
pub fn sub_pos(x: i32, y: i32) -> i32 { super::saturating_sub_pos(x, y) }
pub fn mul(x: i32, y: i32) -> i32 { super::saturating_mul(x, y) }
