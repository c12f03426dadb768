// ---- decision phase of the verifier: convert_zerocheck_claims_to_sumcheck_claim, verify_claims ----
//@include claims.inc
pub open spec fn vt_roomn(v: VerifierTracker, n: int) -> bool { v.id_counter + n < 0x7fff_ffff_ffff_ffff }
/// the i-th zero claim under its own challenge, drawn after everything before it
pub open spec fn zc_term(a: VerifierTracker, q: QM, pt: Seq<F>) -> spec_fn(int) -> F { |i: int| fmul(chal(after_chals(ilog(a.transcript), "zerocheck challenge"@, i), "zerocheck challenge"@), vt_val(a, a.zero_check_claims@[i].label, q, pt)) }
/// what the zero claims are folded into
pub open spec fn zc_val(a: VerifierTracker, nv: int, q: QM, pt: Seq<F>) -> F { fmul(fsum(a.zero_check_claims@.len() as int, zc_term(a, q, pt)), eqpt(pt, zc_r(ilog(a.transcript), a.zero_check_claims@.len() as int, nv))) }
pub open spec fn claims_has(v: VerifierTracker) -> bool { (forall|i: int| 0 <= i < v.zero_check_claims@.len() ==> vt_has(v, (#[trigger] v.zero_check_claims@[i]).label)) && (forall|i: int| 0 <= i < v.sum_check_claims@.len() ==> vt_has(v, (#[trigger] v.sum_check_claims@[i]).label)) }
/// batch verification of the commitment scheme: a function of everything it is given (None: an error)
pub uninterp spec fn pcs_bv(p: VerifierParam, c: Seq<Commitment>, pts: Seq<Seq<F>>, b: BatchProof, log: Seq<TEv>) -> Option<bool>;
impl PCS {
    #[verifier::external_body] pub fn batch_verify(p: &VerifierParam, c: &Vec<Commitment>, pts: &[Vec<F>], b: &BatchProof, t: &mut IOPTranscript) -> (r: Result<bool, PCSError>) ensures r.is_ok() == pcs_bv(*p, c@, vviews(pts@), *b, ilog(*old(t))).is_some(), r.is_ok() ==> r.unwrap() == pcs_bv(*p, c@, vviews(pts@), *b, ilog(*old(t))).unwrap() { unimplemented!() }
}
/// log after the claims are folded
pub open spec fn v_log(a: VerifierTracker) -> Seq<TEv> { let k = a.zero_check_claims@.len() as int; let c = all_claims(a.sum_check_claims@, v_zclaim(a)); let l = sums_log(zc_log(ilog(a.transcript), k, a.proof.sc_aux_info.num_variables as int), c, c.len() as int); l }
/// the claim the zero claims become: its handle is the last of the 2k+3 issued
pub open spec fn v_zclaim(a: VerifierTracker) -> TrackerSumcheckClaim { TrackerSumcheckClaim { label: TrackerID((a.id_counter + 2 * a.zero_check_claims@.len() + 2) as usize), claimed_sum: f0() } }
pub open spec fn v_start(a: VerifierTracker) -> Seq<TEv> { sc_start(after_chals(v_log(a), "sumcheck challenge"@, a.sum_check_claims@.len() as int + 1), a.proof.sc_aux_info.num_variables as int, a.proof.sc_aux_info.max_degree as int) }
pub open spec fn v_sum(a: VerifierTracker) -> F { agg_sum(all_claims(a.sum_check_claims@, v_zclaim(a)), v_log(a)) }
pub open spec fn v_point(a: VerifierTracker) -> Seq<F> { sc_chs(v_start(a), msgs(a.proof.sc_proof), a.proof.sc_aux_info.num_variables as int) }
pub open spec fn v_ids(a: VerifierTracker) -> Seq<TrackerID> { ids_of(a.proof.comms@.dom()) }
pub open spec fn v_comms(a: VerifierTracker) -> Seq<Commitment> { Seq::new(v_ids(a).len(), |i: int| a.materialized_comms@[v_ids(a)[i]]) }
/// a compiled proof is accepted exactly when the sum check of the folded claims is consistent, every listed commitment is one the
/// verifier tracks, and the batch opening of the verifier's own commitments at the sum check point verifies
pub open spec fn v_accepts(a: VerifierTracker) -> bool {
    let nv = a.proof.sc_aux_info.num_variables as int; let ms = msgs(a.proof.sc_proof); let l = v_start(a);
    &&& sc_accepts(v_sum(a), ms, nv, a.proof.sc_aux_info.max_degree as int, l)
    &&& sub_set(a.proof.comms@.dom(), a.materialized_comms@.dom())
    &&& a.proof.pcs_proof@.len() >= 1
    &&& pcs_bv(a.pcs_params, v_comms(a), Seq::new(v_ids(a).len(), |i: int| v_point(a)), a.proof.pcs_proof@[0], sc_log(l, ms, nv)) == Some(true)
}
pub open spec fn sub_set(a: Set<TrackerID>, b: Set<TrackerID>) -> bool { forall|i: TrackerID| #[trigger] a.contains(i) ==> b.contains(i) }
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::convert_zerocheck_claims_to_sumcheck_claim | vclos=Zero,EqR
//@@ requires
        vt_wf(*old(self)), vt_roomn(*old(self), 2 * old(self).zero_check_claims@.len() as int + 4), !old(self).transcript.is_empty, claims_has(*old(self)),
//@@ ensures
        ({ let a = *old(self); let f = *final(self); let k = a.zero_check_claims@.len() as int; let id = TrackerID((a.id_counter + 2 * k + 2) as usize);
            &&& vt_wf(f) && vt_kept(a, f) && f.id_counter == a.id_counter + 2 * k + 3 && vt_has(f, id) && !f.transcript.is_empty
            &&& f.sum_check_claims@ == a.sum_check_claims@.push(TrackerSumcheckClaim { label: id, claimed_sum: f0() })
            // the new claim is about the folded zero claims times the equality polynomial
            &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(f, id, q, pt) == zc_val(a, nv as int, q, pt)
            &&& ilog(f.transcript) == zc_log(ilog(a.transcript), k, nv as int)
            &&& f == (VerifierTracker { id_counter: f.id_counter, virtual_comms: f.virtual_comms, transcript: f.transcript, sum_check_claims: f.sum_check_claims, ..a }) }),
//@@ entry
    let ghost a = *self; let ghost k = self.zero_check_claims@.len() as int;
//@@ inv 0
            zk_n0 == k, zero_check_claims@ == a.zero_check_claims@, vt_wf(*self), vt_kept(a, *self), self.id_counter == a.id_counter + 1 + 2 * zk_i0, vt_has(*self, zerocheck_agg_comm), !self.transcript.is_empty,
            ilog(self.transcript) == after_chals(ilog(a.transcript), "zerocheck challenge"@, zk_i0 as int),
            *self == (VerifierTracker { id_counter: self.id_counter, virtual_comms: self.virtual_comms, transcript: self.transcript, ..a }),
            forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zerocheck_agg_comm, q, pt) == fsum(zk_i0 as int, zc_term(a, q, pt)),
//@@ start 0
        proof { assert(vt_has(a, a.zero_check_claims@[zk_i0 as int].label)); }
        let ghost s = *self; let ghost g = zerocheck_agg_comm;
//@@ end 0
        proof { let n = zk_i0 as int; let lb = a.zero_check_claims@[n - 1].label;
            assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zerocheck_agg_comm, q, pt) == fsum(n, zc_term(a, q, pt)) by {
                assert(vt_val(s, g, q, pt) == fsum(n - 1, zc_term(a, q, pt))); assert(vt_val(s, lb, q, pt) == vt_val(a, lb, q, pt));
                assert(fsum(n, zc_term(a, q, pt)) == fadd(fsum(n - 1, zc_term(a, q, pt)), zc_term(a, q, pt)(n - 1)));
            } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::verify_claims | vclos=Zero
//@@ requires
        vt_wf(*old(self)), vt_roomn(*old(self), 2 * old(self).zero_check_claims@.len() as int + 2 * old(self).sum_check_claims@.len() as int + 16), !old(self).transcript.is_empty, claims_has(*old(self)),
        old(self).proof.sc_aux_info.max_degree < 0x3fff_ffff_ffff_ffff, old(self).proof.sc_aux_info.num_variables < 0x3fff_ffff_ffff_ffff,
        old(self).proof.sc_proof.proofs@.len() >= old(self).proof.sc_aux_info.num_variables ==> chs_off(v_point(*old(self)), old(self).proof.sc_aux_info.max_degree as int),
//@@ ensures
        ret.is_ok() <==> v_accepts(*old(self)),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self; let ghost zk = self.zero_check_claims@.len() as int; let ghost cs = all_claims(a.sum_check_claims@, v_zclaim(a)); let ghost l0 = zc_log(ilog(a.transcript), zk, a.proof.sc_aux_info.num_variables as int);
//@@ start 1
        proof { if zk_i1 < a.sum_check_claims@.len() { assert(cs[zk_i1 as int] == a.sum_check_claims@[zk_i1 as int]); assert(vt_has(a, a.sum_check_claims@[zk_i1 as int].label)); } assert(vt_has(*self, cs[zk_i1 as int].label)); }
//@@ inv 2
            zk_n2 == zk_s1@.len(), zk_acc0@ =~= zk_s1@.subrange(0, zk_i2 as int), zk_i2 == zk_n2 ==> zk_acc0@ =~= zk_s1@, zk_s1@.to_set() == a.proof.comms@.dom(), zk_s1@.no_duplicates(),
//@@ end 2
        proof { assert(zk_s1@.subrange(0, zk_i2 as int) =~= zk_s1@.subrange(0, zk_i2 - 1).push(zk_s1@[zk_i2 - 1])); }
//@@ before 3
    proof { assert(ids_sorted(comm_ids@)) by { assert forall|i: int, j: int| 0 <= i < j < comm_ids@.len() implies (#[trigger] comm_ids@[i]).0 < (#[trigger] comm_ids@[j]).0 by { assert(comm_ids@[i] != comm_ids@[j]); } } ids_is(a.proof.comms@.dom(), comm_ids@); assert(comm_ids@ == v_ids(a)); }
//@@ inv 3
            zk_n3 == comm_ids@.len(), comms@.len() == zk_i3, forall|j: int| 0 <= j < zk_i3 ==> #[trigger] comms@[j] == v_comms(a)[j], forall|j: int| 0 <= j < zk_i3 ==> a.materialized_comms@.contains_key(#[trigger] comm_ids@[j]),
//@@ start 3
        proof { assert(comm_ids@.contains(comm_ids@[zk_i3 as int])); assert(comm_ids@.to_set().contains(comm_ids@[zk_i3 as int])); assert(a.proof.comms@.dom().contains(comm_ids@[zk_i3 as int])); }
//@@ after 3
    proof { assert(comms@ =~= v_comms(a)); assert forall|i: TrackerID| #[trigger] a.proof.comms@.dom().contains(i) implies a.materialized_comms@.dom().contains(i) by { assert(comm_ids@.to_set().contains(i)); assert(comm_ids@.contains(i)); let k = choose|k: int| 0 <= k < comm_ids@.len() && comm_ids@[k] == i; assert(a.materialized_comms@.contains_key(comm_ids@[k])); } }
//@@ after-let points
    proof { assert(vviews(points@) =~= Seq::new(v_ids(a).len(), |i: int| v_point(a))); }
//@@ inv 0
            zk_n0 == cs.len(), self.sum_check_claims@ == cs, !self.transcript.is_empty, ilog(self.transcript) == sums_log(l0, cs, zk_i0 as int),
            vt_wf(*self), vt_kept(a, *self), self.id_counter == a.id_counter + 2 * zk + 4, vt_has(*self, sumcheck_comm), sc_sum == f0(), vt_has(*self, v_zclaim(a).label),
            *self == (VerifierTracker { id_counter: self.id_counter, virtual_comms: self.virtual_comms, transcript: self.transcript, sum_check_claims: self.sum_check_claims, ..a }),
//@@ inv 1
            zk_n1 == cs.len(), zk_s0@ == cs, self.sum_check_claims@ == cs, !self.transcript.is_empty, ilog(self.transcript) == after_chals(v_log(a), "sumcheck challenge"@, zk_i1 as int),
            vt_wf(*self), vt_kept(a, *self), self.id_counter == a.id_counter + 2 * zk + 4 + 2 * zk_i1, vt_has(*self, sumcheck_comm), vt_has(*self, v_zclaim(a).label),
            sc_sum == fsum(zk_i1 as int, agg_term(cs, v_log(a))),
            *self == (VerifierTracker { id_counter: self.id_counter, virtual_comms: self.virtual_comms, transcript: self.transcript, sum_check_claims: self.sum_check_claims, ..a }),
//@end
