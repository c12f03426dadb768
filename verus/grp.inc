// ---- pairing groups, by discrete logarithm to fixed generators (assumed: prime order |F|, elements lie in the group) ----
//@typemap E::ScalarField => F
//@typemap E::G1Affine => G1A
//@typemap E::G2Affine => G2A
//@typemap E::G1 => G1
//@typemap E::G2 => G2
//@typemap E::G1Prepared => G1P
//@typemap E::G2Prepared => G2P
//@typemap E::multi_pairing => zk_multi_pairing
//@typemap E::TargetField => Gt
//@typemap F::MODULUS_BIT_SIZE => ZK_BITS
//@typemap ark_ec::pairing::PairingOutput => PairingOutput
pub const ZK_BITS: u32 = 255;
#[verifier::external_body] pub struct G1 { x: usize }
#[verifier::external_body] pub struct G2 { x: usize }
#[verifier::external_body] pub struct G1A { x: usize }
#[verifier::external_body] pub struct G2A { x: usize }
#[verifier::external_body] pub struct G1P { x: usize }
#[verifier::external_body] pub struct G2P { x: usize }
#[verifier::external_body] pub struct Gt { x: usize }
pub uninterp spec fn dl<T>(x: T) -> F;
impl Clone for G1A { #[verifier::external_body] fn clone(&self) -> (r: G1A) ensures r == *self { unimplemented!() } }
impl Copy for G1A { }
impl Clone for G2A { #[verifier::external_body] fn clone(&self) -> (r: G2A) ensures r == *self { unimplemented!() } }
impl Copy for G2A { }
impl Clone for G1 { #[verifier::external_body] fn clone(&self) -> (r: G1) ensures r == *self { unimplemented!() } }
impl Copy for G1 { }
impl Clone for G2 { #[verifier::external_body] fn clone(&self) -> (r: G2) ensures r == *self { unimplemented!() } }
impl Copy for G2 { }
impl ZkClone for G1A { #[verifier::external_body] fn zk_clone(&self) -> (r: G1A) { unimplemented!() } }
impl ZkClone for G2A { #[verifier::external_body] fn zk_clone(&self) -> (r: G2A) { unimplemented!() } }
impl ZkClone for G1P { #[verifier::external_body] fn zk_clone(&self) -> (r: G1P) { unimplemented!() } }
impl ZkClone for G2P { #[verifier::external_body] fn zk_clone(&self) -> (r: G2P) { unimplemented!() } }
pub uninterp spec fn g1sub(a: G1, b: G1) -> G1;
pub uninterp spec fn g2sub(a: G2, b: G2) -> G2;
pub uninterp spec fn g1mul(a: G1, b: F) -> G1;
pub uninterp spec fn g1amul(a: G1A, b: F) -> G1;
#[verifier::external_body] pub broadcast proof fn ax_g1sub(a: G1, b: G1) ensures dl(#[trigger] g1sub(a, b)) == fsub(dl(a), dl(b)) { }
#[verifier::external_body] pub broadcast proof fn ax_g2sub(a: G2, b: G2) ensures dl(#[trigger] g2sub(a, b)) == fsub(dl(a), dl(b)) { }
#[verifier::external_body] pub broadcast proof fn ax_g1mul(a: G1, b: F) ensures dl(#[trigger] g1mul(a, b)) == fmul(b, dl(a)) { }
#[verifier::external_body] pub broadcast proof fn ax_g1amul(a: G1A, b: F) ensures dl(#[trigger] g1amul(a, b)) == fmul(b, dl(a)) { }
pub broadcast group groups { ax_g1sub, ax_g2sub, ax_g1mul, ax_g1amul }
impl SubSpecImpl<G1> for G1 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, r: G1) -> bool { true } open spec fn sub_spec(self, r: G1) -> G1 { g1sub(self, r) } }
impl Sub<G1> for G1 { type Output = G1; #[verifier::external_body] fn sub(self, r: G1) -> G1 { unimplemented!() } }
impl SubSpecImpl<G2> for G2 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, r: G2) -> bool { true } open spec fn sub_spec(self, r: G2) -> G2 { g2sub(self, r) } }
impl Sub<G2> for G2 { type Output = G2; #[verifier::external_body] fn sub(self, r: G2) -> G2 { unimplemented!() } }
impl MulSpecImpl<F> for G1 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, r: F) -> bool { true } open spec fn mul_spec(self, r: F) -> G1 { g1mul(self, r) } }
impl Mul<F> for G1 { type Output = G1; #[verifier::external_body] fn mul(self, r: F) -> G1 { unimplemented!() } }
impl MulSpecImpl<F> for G1A { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, r: F) -> bool { true } open spec fn mul_spec(self, r: F) -> G1 { g1amul(self, r) } }
impl Mul<F> for G1A { type Output = G1; #[verifier::external_body] fn mul(self, r: F) -> G1 { unimplemented!() } }
/// s_0 b_0 + s_1 b_1 + .. over the first n
pub open spec fn lin(b: Seq<G1A>, s: Seq<F>, n: int) -> F { fsum(n, |i: int| fmul(s[i], dl(b[i]))) }
impl G1 {
    #[verifier::external_body] pub fn into_affine(self) -> (r: G1A) ensures dl(r) == dl(self) { unimplemented!() }
    // the shorter of the two lists counts
    #[verifier::external_body] pub fn msm_unchecked(b: &[G1A], s: &[F]) -> (r: G1) ensures dl(r) == lin(b@, s@, imin(b@.len() as int, s@.len() as int)) { unimplemented!() }
    #[verifier::external_body] pub fn normalize_batch(v: &[G1]) -> (r: Vec<G1A>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> dl(#[trigger] r@[i]) == dl(v@[i]) { unimplemented!() }
}
impl G2 {
    #[verifier::external_body] pub fn into_affine(self) -> (r: G2A) ensures dl(r) == dl(self) { unimplemented!() }
    #[verifier::external_body] pub fn normalize_batch(v: &[G2]) -> (r: Vec<G2A>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> dl(#[trigger] r@[i]) == dl(v@[i]) { unimplemented!() }
}
impl G1A { #[verifier::external_body] pub fn into_group(&self) -> (r: G1) ensures dl(r) == dl(*self) { unimplemented!() } }
impl G2A { #[verifier::external_body] pub fn into_group(&self) -> (r: G2) ensures dl(r) == dl(*self) { unimplemented!() } }
impl G1P { #[verifier::external_body] pub fn from(x: G1A) -> (r: G1P) ensures dl(r) == dl(x) { unimplemented!() } }
impl G2P { #[verifier::external_body] pub fn from(x: G2A) -> (r: G2P) ensures dl(r) == dl(x) { unimplemented!() } }
/// fixed-base windowed multiplication: the table is the base
pub struct FixedBase { }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct WinTable<T> { x: Vec<T> }
pub uninterp spec fn wbase<T>(w: WinTable<T>) -> T;
pub uninterp spec fn wsize<T>(w: WinTable<T>) -> (int, int);
impl FixedBase {
    #[verifier::external_body] pub fn get_mul_window_size(n: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn get_window_table<T>(bits: usize, w: usize, g: T) -> (r: WinTable<T>) ensures wbase(r) == g, wsize(r) == (bits as int, w as int) { unimplemented!() }
    // the table must have been built for the same scalar and window size, and the scalar size has to cover the field
    #[verifier::external_body] pub fn msm<T>(bits: usize, w: usize, t: &WinTable<T>, s: &[F]) -> (r: Vec<T>) requires wsize(*t) == (bits as int, w as int), bits == ZK_BITS ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> dl(#[trigger] r@[i]) == fmul(s@[i], dl(wbase(*t))) { unimplemented!() }
}
pub struct PairingOutput(pub Gt);
impl Gt { #[verifier::external_body] pub fn one() -> (r: Gt) ensures dl(PairingOutput(r)) == f0() { unimplemented!() } }
/// the pairing multiplies discrete logarithms; the shorter of the two lists counts
pub open spec fn pairing(a: Seq<G1P>, b: Seq<G2P>) -> F { fsum(imin(a.len() as int, b.len() as int), |i: int| fmul(dl(a[i]), dl(b[i]))) }
#[verifier::external_body] pub fn zk_multi_pairing(a: Vec<G1P>, b: Vec<G2P>) -> (r: PairingOutput) ensures dl(r) == pairing(a@, b@) { unimplemented!() }
impl PartialEqSpecImpl for PairingOutput { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, r: &PairingOutput) -> bool { dl(*self) == dl(*r) } }
impl PartialEq for PairingOutput { #[verifier::external_body] fn eq(&self, r: &PairingOutput) -> (b: bool) { unimplemented!() } }
