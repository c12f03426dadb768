// ---- ark_std::log2 ----
/// the smallest n with x <= 2^n
#[verifier::external_body] pub fn zk_log2(x: usize) -> (r: u32) ensures r <= 64, x <= p2(r as int), r > 0 ==> p2(r - 1) < x { unimplemented!() }
pub proof fn log2_p2(r: int, n: int) requires n >= 0, r >= 0, p2(n) <= p2(r), r > 0 ==> p2(r - 1) < p2(n) ensures r == n { if r < n { p2_mono(r, n - 1); p2_pos(n - 1); } else if r > n { p2_mono(n, r - 1); } }
