// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::{varint, Encoded};
pub fn raw(v: u32) -> Encoded { Encoded(v) }
pub fn bits(e: Encoded) -> u32 { e.0 }
pub fn compress(a: &[Encoded]) -> (varint::Compressed<'static>, u64) {
    let mut c = varint::compressor();
    for e in a { c.push(*e); }
    c.into_compressed()
}
pub fn decompress(c: &varint::Compressed<'_>, at: usize) -> Option<Encoded> { varint::decompression_iter(c).nth(at) }
