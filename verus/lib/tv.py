"""Timevector_TSTZ_F64 for the modules that work on it: the struct is taken from /repo, with its stored arrays as VxSlice."""
T = "extension/src/time_vector.rs"
PRELUDE = r"""
/// flat_serialize's Slice: read with as_slice, changed through as_owned
pub struct VxSlice<T> { pub v: Vec<T> }
impl<T> VxSlice<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self@ { self.v.as_slice() }
    pub fn as_owned(&mut self) -> (r: &mut Vec<T>) ensures r@ == old(self)@, final(self)@ == final(r)@ { &mut self.v }
}
pub assume_specification [ usize::div_ceil ] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / b as int;
pub assume_specification [ u32::div_ceil ] (a: u32, b: u32) -> (r: u32) requires b > 0 ensures r == (a + b - 1) / b as int;
pub fn vx_slice<T>(v: Vec<T>) -> (r: VxSlice<T>) ensures r@ == v@ { VxSlice { v } }
pub fn vx_bytes(x: u8, n: usize) -> (r: Vec<u8>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x, x == 0 ==> forall|i: int| 0 <= i < 8 * n ==> !(#[trigger] bit(r@, i))
{
    let mut v: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    while i < n invariant v@.len() == i, i <= n, forall|k: int| 0 <= k < i ==> v@[k] == x decreases n - i { v.push(x); i += 1; }
    proof { if x == 0 { zero_bits(v@); } }
    v
}
impl Timevector_TSTZ_F64 {
    #[verifier::external_body]
    pub fn in_current_context(&self) -> (r: Timevector_TSTZ_F64) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_owned(&self) -> (r: Timevector_TSTZ_F64) ensures r == *self { unimplemented!() }
    /// as many points as it says, eight null bits to a byte, sorted if it says so
    pub open spec fn wf(&self) -> bool {
        self.num_points as int == self.points@.len() && self.null_val@.len() == (self.num_points + 7) / 8 && (self.flags & 1 != 0 ==> sorted(self.points@)) && (forall|i: int| 0 <= i < 8 * self.null_val@.len() && #[trigger] bit(self.null_val@, i) ==> i < self.num_points && self.flags & 2 != 0)
    }
    pub open spec fn null(&self, i: int) -> bool { bit(self.null_val@, i) }
    pub open spec fn nulls(&self) -> Seq<bool> { Seq::new(self.num_points as nat, |i: int| self.null(i)) }
}
pub open spec fn bit(b: Seq<u8>, i: int) -> bool { b[i / 8] & (1u8 << ((i % 8) as u8)) != 0 }
pub proof fn zero_bits(b: Seq<u8>)
    requires forall|k: int| 0 <= k < b.len() ==> b[k] == 0u8
    ensures forall|i: int| 0 <= i < 8 * b.len() ==> !(#[trigger] bit(b, i))
{
    assert forall|i: int| 0 <= i < 8 * b.len() implies !(#[trigger] bit(b, i)) by { let k = (i % 8) as u8; assert(b[i / 8] == 0u8); assert(0u8 & (1u8 << k) == 0u8) by (bit_vector); }
}
pub proof fn flags() ensures 1u8 & 1 != 0, 1u8 & 2 == 0, 1u8 << 1 == 2u8 { assert(1u8 & 1 != 0 && 1u8 & 2 == 0 && 1u8 << 1 == 2u8) by (bit_vector); }
pub open spec fn sorted(s: Seq<TSPoint>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).ts <= (#[trigger] s[j]).ts }
"""
ASSUMED = ["flat_serialize's Slice holds the elements it is built from: as_slice gives them, as_owned lets them be changed; in_current_context, clone_owned and clone give an equal timevector"]
RENAME = [(r"Timevector_TSTZ_F64\s*<'\w+>", "Timevector_TSTZ_F64"), (r"\[\s*(TSPoint|u8)\s*;\s*self\.[^\]]*\]", r"VxSlice<\1>"),
          (r"\b(?:crate::)?(?:build|flatten)!\s*\{(\s*Timevector_TSTZ_F64\s*\{[^}]*\}\s*)\}", r"\1"), (r"\b(?:flatten)!\s*\((\s*Timevector_TSTZ_F64\s*\{[^}]*\}\s*)\)", r"\1"),
          (r"\bstd::vec::from_elem\(0_u8, ", "vx_bytes(0_u8, "), (r"\btime_vector::FLAG", "FLAG")]
PARTS = [("struct", "crates/tspoint/src/lib.rs", "TSPoint", "#[derive(Clone, Copy)]\n"), ("const", T, "FLAG_IS_SORTED"), ("const", T, "FLAG_HAS_NULLS"), ("struct", T, "Timevector_TSTZ_F64")]
IMPL = "impl<'input> Timevector_TSTZ_F64<'input>"
SPECS = {
    "num_points": dict(ret="r", clauses="ensures r == self.num_points"),
    "get": dict(ret="r", clauses="requires self.num_points as int == self.points@.len() ensures r == if index < self.points@.len() { Some(self.points@[index as int]) } else { None }"),
    "is_sorted": dict(ret="r", clauses="ensures r == (self.flags & 1 != 0)"),
    "has_nulls": dict(ret="r", clauses="ensures r == (self.flags & 2 != 0)", ghost={"start": "assert(1u8 << 1 == 2u8) by (bit_vector);"}),
}
