verus! {
// ---------------------------------------------------------------------
// 32 bit numbers as bytes
pub open spec fn le32(b: Seq<u8>) -> u32 {
    (b[0] as int + 0x100 * b[1] + 0x10000 * b[2] + 0x1000000 * b[3]) as u32
}
pub open spec fn be32(b: Seq<u8>) -> u32 {
    (b[3] as int + 0x100 * b[2] + 0x10000 * b[1] + 0x1000000 * b[0]) as u32
}
pub open spec fn num32(be: bool, b: Seq<u8>) -> u32 {
    if be { be32(b) } else { le32(b) }
}
#[verifier::external_body]
pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == be32(b@) { u32::from_be_bytes(b) }
pub open spec fn to_le(x: u32) -> Seq<u8> {
    seq![(x % 0x100) as u8, (x / 0x100 % 0x100) as u8, (x / 0x10000 % 0x100) as u8, (x / 0x1000000) as u8]
}
pub open spec fn to_be(x: u32) -> Seq<u8> {
    seq![(x / 0x1000000) as u8, (x / 0x10000 % 0x100) as u8, (x / 0x100 % 0x100) as u8, (x % 0x100) as u8]
}
pub open spec fn to_bytes(be: bool, x: u32) -> Seq<u8> {
    if be { to_be(x) } else { to_le(x) }
}
#[verifier::external_body]
pub fn vx_u32_to_le_bytes(x: u32) -> (r: [u8; 4]) ensures r@ == to_le(x) { x.to_le_bytes() }
#[verifier::external_body]
pub fn vx_u32_to_be_bytes(x: u32) -> (r: [u8; 4]) ensures r@ == to_be(x) { x.to_be_bytes() }
pub proof fn lemma_num_bytes(be: bool, x: u32)
    ensures num32(be, to_bytes(be, x)) == x, to_bytes(be, x).len() == 4,
{
    let y = x as int;
    let a = y % 0x100;
    let b = y / 0x100 % 0x100;
    let c = y / 0x10000 % 0x100;
    let d = y / 0x1000000;
    assert(y == a + 0x100 * b + 0x10000 * c + 0x1000000 * d && 0 <= d < 0x100) by (nonlinear_arith)
        requires
            y == x, 0 <= y <= 0xffff_ffff, a == y % 0x100, b == y / 0x100 % 0x100, c == y / 0x10000 % 0x100, d == y / 0x1000000,
    ;
    let s = to_bytes(be, x);
    if be {
        assert(s[3] as int == a && s[2] as int == b && s[1] as int == c && s[0] as int == d);
    } else {
        assert(s[0] as int == a && s[1] as int == b && s[2] as int == c && s[3] as int == d);
    }
}
} // verus!
