//! C01: the delta / zig-zag / prefix-varint codecs are lossless and self-delimiting.
use crate::shim::*;
use encodings::{delta, prefix_varint as pv, zigzag};

harnesses! {
    // ---- writer + reader, every u64 (complete: loop bounded by operand width) ----
    #[kani::unwind(11)]
    #[kani::stub(std::vec::Vec::push, crate::stubs::push)]
    fn varint_roundtrip_exact() {
        let v = any_u64();
        let mut b: Vec<u8> = Vec::with_capacity(20);
        pv::write_to_vec(&mut b, v);
        assert!(1 <= b.len() && b.len() <= 9, "encoded size");
        let (got, n) = pv::read_from_slice(&b);
        assert!(got == v, "value changed by encode/decode");
        assert!(n == b.len(), "decoded length differs from encoded length");
        reach!(n == 1, "one byte");
        reach!(n == 5, "five bytes");
        reach!(n == 9, "nine bytes");
    }
    // an encoded value is recognised whatever bytes follow it, and appending leaves earlier bytes alone
    #[kani::unwind(18)]
    #[kani::stub(std::vec::Vec::push, crate::stubs::push)]
    fn varint_self_delimiting() {
        let v = any_u64();
        let pre = any_u8();
        let mut b: Vec<u8> = Vec::with_capacity(20);
        b.push(pre);
        pv::write_to_vec(&mut b, v);
        let n = b.len() - 1;
        assert!(b[0] == pre, "frame: earlier output changed");
        let (s1, s2) = (any_u64().to_le_bytes(), any_u8());
        let mut a = [s2; 17];
        let mut i = 0;
        while i < 17 {
            a[i] = if i < n { b[1 + i] } else if i < 16 && i >= 8 { s1[i - 8] } else { s2 };
            i += 1;
        }
        let (got, len) = pv::read_from_slice(&a);
        assert!(got == v, "value changed when followed by other bytes");
        assert!(len == n, "length changed when followed by other bytes");
    }
    fn zigzag_bijection() {
        let v = any_i64();
        assert!(zigzag::decode(zigzag::encode(v)) == v, "zigzag decode(encode)");
        let u = any_u64();
        assert!(zigzag::encode(zigzag::decode(u)) == u, "zigzag encode(decode)");
        // small magnitudes get small codes (what makes the deltas compress)
        if v >= 0 && v < i64::MAX { assert!(zigzag::encode(v) == 2 * v as u64, "zigzag of non-negative"); }
    }
    // ---- delta coders: one step from the state left by an arbitrary history ----
    fn delta_i64_step() {
        let (mut e, mut d) = (delta::i64_encoder(), delta::i64_decoder());
        let (a, b, c) = (any_i64(), any_i64(), any_i64());
        assert!(d(e(a)) == a, "first value");
        assert!(d(e(b)) == b, "second value");
        assert!(d(e(c)) == c, "third value");
    }
    fn delta_u64_step() {
        let (mut e, mut d) = (delta::u64_encoder(), delta::u64_decoder());
        let (a, b, c) = (any_u64(), any_u64(), any_u64());
        assert!(d(e(a)) == a, "first value");
        assert!(d(e(b)) == b, "second value");
        assert!(d(e(c)) == c, "third value");
    }
    // ---- sequence drivers: push order is kept, nothing is lost, the end is found (bounded: 2 values) ----
    #[kani::unwind(11)]
    #[kani::stub(std::vec::Vec::push, crate::stubs::push)]
    fn compressor_u64_two() {
        let (a, b) = (any_u64(), any_u64());
        assume(a < 1 << 10 && b < 1 << 10);
        let mut c = pv::U64Compressor::with(delta::u64_encoder());
        assert!(c.is_empty(), "new compressor is empty");
        c.push(a);
        c.push(b);
        assert!(!c.is_empty(), "compressor with values is not empty");
        let bytes = c.finish();
        let mut it = pv::u64_decompressor(&bytes).map(delta::u64_decoder());
        assert!(it.next() == Some(a), "first of sequence");
        assert!(it.next() == Some(b), "second of sequence");
        assert!(it.next().is_none(), "sequence end");
    }
    #[kani::unwind(11)]
    #[kani::stub(std::vec::Vec::push, crate::stubs::push)]
    fn compressor_i64_two() {
        let (a, b) = (any_i64(), any_i64());
        assume(-500 < a && a < 500 && -500 < b && b < 500);
        let mut c = pv::I64Compressor::with(delta::i64_encoder());
        c.push(a);
        c.push(b);
        let bytes = c.finish();
        let mut it = pv::i64_decompressor(&bytes).map(delta::i64_decoder());
        assert!(it.next() == Some(a), "first of sequence");
        assert!(it.next() == Some(b), "second of sequence");
        assert!(it.next().is_none(), "sequence end");
    }
    #[kani::unwind(11)]
    #[kani::stub(std::vec::Vec::push, crate::stubs::push)]
    fn compress_to_vec_two() {
        let (a, b) = (any_u64(), any_i64());
        let mut bytes: Vec<u8> = Vec::with_capacity(24);
        assume(a < 1 << 20 && -60 < b && b < 60);
        pv::compress_u64s_to_vec(&mut bytes, [a].into_iter());
        let n = bytes.len();
        pv::compress_i64s_to_vec(&mut bytes, [b].into_iter());
        assert!(pv::u64_decompressor(&bytes).next() == Some(a), "unsigned value");
        assert!(pv::i64_decompressor(&bytes[n..]).next() == Some(b), "signed value");
    }
}
executed! {
    fn u64_sequences() {
        let n = any_in(0, 40) as usize;
        let v: Vec<u64> = (0..n).map(|_| any_u64()).collect();
        let mut c = pv::U64Compressor::with(delta::u64_encoder());
        let mut plain = pv::U64Compressor::new();
        for x in &v { c.push(*x); plain.push(*x); }
        assert!(c.is_empty() == v.is_empty(), "emptiness");
        let (b, p) = (c.finish(), plain.finish());
        let back: Vec<u64> = pv::u64_decompressor(&b).map(delta::u64_decoder()).collect();
        assert!(back == v, "delta compressed sequence");
        let back: Vec<u64> = pv::u64_decompressor(&p).collect();
        assert!(back == v, "compressed sequence");
        let mut out = vec![7u8; 3];
        pv::compress_u64s_to_vec(&mut out, v.iter().copied());
        assert!(out[..3] == [7, 7, 7] && out[3..] == p[..], "appends the same bytes");
    }
    fn i64_sequences() {
        let n = any_in(0, 40) as usize;
        let v: Vec<i64> = (0..n).map(|_| any_i64()).collect();
        let mut c = pv::I64Compressor::with(delta::i64_encoder());
        let mut plain = pv::I64Compressor::new();
        for x in &v { c.push(*x); plain.push(*x); }
        let (b, p) = (c.finish(), plain.finish());
        let back: Vec<i64> = pv::i64_decompressor(&b).map(delta::i64_decoder()).collect();
        assert!(back == v, "delta compressed sequence");
        let back: Vec<i64> = pv::i64_decompressor(&p).collect();
        assert!(back == v, "compressed sequence");
        let mut out = vec![7u8; 3];
        pv::compress_i64s_to_vec(&mut out, v.iter().copied());
        assert!(out[..3] == [7, 7, 7] && out[3..] == p[..], "appends the same bytes");
    }
}
