//! Assumed contracts on the standard library, used only under Kani to keep queries small.
//! `Vec::push` appends one element; the growth path (allocator) is not re-verified: a full vector
//! gets a fresh buffer of a fixed larger capacity.  Listed in every evidence file that uses it.
#![cfg(kani)]
use std::alloc::Allocator;

pub fn push<T, A: Allocator>(v: &mut Vec<T, A>, x: T) {
    if v.capacity() == 0 {
        // an empty vector owns no memory; give it a fresh buffer (Global is the only allocator used)
        unsafe { (v as *mut Vec<T, A> as *mut Vec<T>).write(Vec::with_capacity(24)) }
    }
    let n = v.len();
    assert!(n < v.capacity(), "UNDECIDED: harness vector capacity");
    unsafe {
        v.as_mut_ptr().add(n).write(x);
        v.set_len(n + 1)
    }
}
