// ---- the compiled proof ----
//@include tid.inc
//@include cells.inc
//@include iop.inc
//@typemap PCS::VerifierParam => VerifierParam
//@typemap HashMap<(TrackerID,Vec<E::ScalarField>),E::ScalarField> => QMap
//@typemap HashMap<(TrackerID,Vec<F>),F> => QMap
//@typemap IOPProof<E::ScalarField> => IOPProof
//@typemap VPAuxInfo<E::ScalarField> => VPAuxInfo
#[verifier::external_body] pub struct VerifierParam { x: u64 }
#[verifier::external_body] pub struct BatchProof { x: u64 }
/// HashMap keyed by (handle, point): keys are compared by content
#[verifier::external_body] pub struct QMap { x: u64 }
pub type QM = Map<(TrackerID, Seq<F>), F>;
impl View for QMap { type V = QM; uninterp spec fn view(&self) -> QM; }
pub open spec fn lists_q(m: QM, s: Seq<((TrackerID, Vec<F>), F)>) -> bool { (forall|i: int| 0 <= i < s.len() ==> m.contains_key(((#[trigger] s[i]).0.0, s[i].0.1@)) && m[(s[i].0.0, s[i].0.1@)] == s[i].1) && (forall|k: (TrackerID, Seq<F>)| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.0 == k.0 && s[i].0.1@ == k.1) }
impl QMap {
    #[verifier::external_body] pub fn new() -> (r: QMap) ensures r@ == Map::<(TrackerID, Seq<F>), F>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &(TrackerID, Vec<F>)) -> (r: Option<&F>) ensures r.is_some() == self@.contains_key((k.0, k.1@)), r.is_some() ==> *r.unwrap() == self@[(k.0, k.1@)] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: (TrackerID, Vec<F>), v: F) -> (r: Option<F>) ensures final(self)@ == old(self)@.insert((k.0, k.1@), v) { unimplemented!() }
}
impl ZkEmpty for QMap { open spec fn zk_is_empty(&self) -> bool { self@ == Map::<(TrackerID, Seq<F>), F>::empty() } #[verifier::external_body] fn zk_mk_empty() -> (r: Self) { unimplemented!() } }
impl ZkEntries<(TrackerID, Vec<F>), F> for QMap { open spec fn zk_lists(&self, s: Seq<((TrackerID, Vec<F>), F)>) -> bool { lists_q(self@, s) } #[verifier::external_body] fn zk_entry_list(&self) -> (r: Vec<((TrackerID, Vec<F>), F)>) { unimplemented!() } }
//@struct src/tracker/tracker_structs.rs::CompiledZKSQLProof
impl CompiledZKSQLProof { #[verifier::external_body] pub fn default() -> (r: CompiledZKSQLProof) ensures r.comms@ == Map::<TrackerID, Commitment>::empty(), r.sumcheck_claims@ == Map::<TrackerID, F>::empty(), r.query_map@ == Map::<(TrackerID, Seq<F>), F>::empty(), r.pcs_proof@.len() == 0 { unimplemented!() } }
