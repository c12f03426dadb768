// ---- ark_ff::Field::pow (little-endian 64-bit limbs): assumed ----
pub open spec fn fpow(b: F, e: int) -> F decreases e { if e <= 0 { f1() } else { fmul(b, fpow(b, e - 1)) } }
pub open spec fn limbs(s: Seq<u64>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 0x1_0000_0000_0000_0000 * limbs(s.subrange(1, s.len() as int)) } }
pub trait ZkLimbs: Sized { spec fn zk_limbs(&self) -> Seq<u64>; }
impl<const N: usize> ZkLimbs for [u64; N] { open spec fn zk_limbs(&self) -> Seq<u64> { self@ } }
impl ZkLimbs for &[u64] { open spec fn zk_limbs(&self) -> Seq<u64> { (*self)@ } }
impl<S: ZkLimbs> ZkLimbs for &S { open spec fn zk_limbs(&self) -> Seq<u64> { (*self).zk_limbs() } }
impl<S: ZkLimbs> ZkPow<S> for F { open spec fn zk_pow_ok(&self, e: S) -> bool { true } open spec fn zk_pow_v(&self, e: S) -> F { fpow(*self, limbs(e.zk_limbs())) } #[verifier::external_body] fn zk_pow(self, e: S) -> (r: F) { unimplemented!() } }
pub proof fn limb1(s: Seq<u64>) requires s.len() == 1 ensures limbs(s) == s[0] { assert(s.subrange(1, 1).len() == 0); assert(limbs(s.subrange(1, 1)) == 0); }
/// 1, r, r^2, ..
pub open spec fn is_pows(k: Seq<F>, r: F, n: int) -> bool { k.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] k[i] == fpow(r, i) }
