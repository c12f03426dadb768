// ---- handles, commitments, claims ----
//@typemap PCS::ProverParam => ProverParam
//@typemap PCS::Commitment => Commitment
//@typemap E::ScalarField => F
//@typemap PCS::BatchProof => BatchProof
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct TrackerID(pub usize);
impl ZkClone for TrackerID { fn zk_clone(&self) -> (r: TrackerID) { *self } }
#[verifier::external_body] pub broadcast proof fn ax_tid() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<TrackerID>() { }
// the commitment scheme, as the tracker sees it
#[verifier::external_body] pub struct ProverParam { x: u64 }
#[verifier::external_body] pub struct Commitment { x: u64 }
impl ZkClone for ProverParam { #[verifier::external_body] fn zk_clone(&self) -> (r: ProverParam) { unimplemented!() } }
impl ZkClone for Commitment { #[verifier::external_body] fn zk_clone(&self) -> (r: Commitment) { unimplemented!() } }
pub uninterp spec fn ser_comm(c: Commitment) -> Seq<u8>;
impl ZkSer for Commitment { open spec fn zk_ser(&self) -> Seq<u8> { ser_comm(*self) } }
pub struct PCS { x: u64 }
pub uninterp spec fn pcs_com(p: ProverParam, d: DenseMultilinearExtension) -> Commitment;
pub uninterp spec fn pcs_fits(p: ProverParam, nv: int) -> bool;
impl PCS {
    // the result depends on the key and the table only; it is an error exactly when the key is too small
    #[verifier::external_body] pub fn commit(p: ProverParam, d: &DenseMultilinearExtension) -> (r: Result<Commitment, PCSError>) requires dwf(*d) ensures r.is_ok() <==> pcs_fits(p, d.num_vars as int), r.is_ok() ==> r.unwrap() == pcs_com(p, *d) { unimplemented!() }
}
impl From<TranscriptError> for PCSError { #[verifier::external_body] fn from(e: TranscriptError) -> (r: PCSError) { unimplemented!() } }
//@struct src/tracker/tracker_structs.rs::TrackerSumcheckClaim
//@struct src/tracker/tracker_structs.rs::TrackerZerocheckClaim | drop=phantom
pub open spec fn sub_map<K, V>(a: Map<K, V>, b: Map<K, V>) -> bool { forall|k: K| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
//@fn src/tracker/tracker_structs.rs::TrackerSumcheckClaim::new
//@@ ensures
        ret == (TrackerSumcheckClaim { label, claimed_sum }),
//@end
//@fn src/tracker/tracker_structs.rs::TrackerZerocheckClaim::new
//@@ ensures
        ret.label == label,
//@end
