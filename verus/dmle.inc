// ---- ark_poly::DenseMultilinearExtension as this crate uses it (constructors and accessors trusted) ----
pub struct DenseMultilinearExtension { pub evaluations: Vec<F>, pub num_vars: usize }
impl ZkClone for DenseMultilinearExtension { #[verifier::external_body] fn zk_clone(&self) -> (r: DenseMultilinearExtension) { unimplemented!() } }
pub open spec fn dwf(d: DenseMultilinearExtension) -> bool { d.num_vars < 63 && d.evaluations@.len() == p2(d.num_vars as int) }
impl DenseMultilinearExtension {
    pub fn num_vars(&self) -> (r: usize) ensures r == self.num_vars { self.num_vars }
    #[verifier::external_body] pub fn to_evaluations(&self) -> (r: Vec<F>) ensures r@ == self.evaluations@ { unimplemented!() }
    // ark_poly asserts evaluations.len() == 1 << num_vars
    #[verifier::external_body] pub fn from_evaluations_vec(num_vars: usize, evaluations: Vec<F>) -> (r: DenseMultilinearExtension)
        requires num_vars < 64, evaluations@.len() == p2(num_vars as int) ensures r.num_vars == num_vars, r.evaluations@ == evaluations@ { unimplemented!() }
    #[verifier::external_body] pub fn from_evaluations_slice(num_vars: usize, evaluations: &[F]) -> (r: DenseMultilinearExtension)
        requires num_vars < 64, evaluations@.len() == p2(num_vars as int) ensures r.num_vars == num_vars, r.evaluations@ == evaluations@ { unimplemented!() }
}
impl DenseMultilinearExtension {
    // ark_poly MultilinearExtension::evaluate
    #[verifier::external_body] pub fn evaluate(&self, point: &[F]) -> (r: Option<F>) requires dwf(*self) ensures r.is_some() <==> point@.len() == self.num_vars, r.is_some() ==> r.unwrap() == mlev(self.evaluations@, point@) { unimplemented!() }
}
// Index<usize>: the table entry
impl vstd::std_specs::core::IndexSpecImpl<usize> for DenseMultilinearExtension { open spec fn index_req(&self, i: &usize) -> bool { *i < self.evaluations@.len() } }
impl core::ops::Index<usize> for DenseMultilinearExtension { type Output = F; fn index(&self, i: usize) -> (r: &F) ensures *r == self.evaluations@[i as int] { &self.evaluations[i] } }
/// identity of a live shared table; two live Arcs at one address have the same (immutable) content
#[verifier::external_body] #[derive(PartialEq, Eq, Hash, Clone, Copy)] pub struct PKey { x: usize }
pub uninterp spec fn pk_val(k: PKey) -> DenseMultilinearExtension;
#[verifier::external_body] pub fn zk_arc_as_ptr(a: &Arc<DenseMultilinearExtension>) -> (k: PKey) ensures pk_val(k) == **a { unimplemented!() }
#[verifier::external_body] pub broadcast proof fn ax_pkey() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<PKey>() { }
