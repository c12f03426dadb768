// ---- the decision phase of both sides together ----
pub open spec fn same_zero(c: Seq<TrackerZerocheckClaim>, d: Seq<TrackerZerocheckClaim>) -> bool { c.len() == d.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).label == d[i].label }
/// both sides before the decision phase: same transcript, handles and claims, the verifier holding the prover's claimed sums and commitments
pub open spec fn in_step(e: ProverTracker, v: VerifierTracker) -> bool {
    &&& ilog(v.transcript) == ilog(e.transcript) && v.id_counter == e.id_counter
    &&& v.sum_check_claims@ == e.sum_check_claims@ && same_zero(v.zero_check_claims@, e.zero_check_claims@)
    &&& v.materialized_comms@ == e.materialized_comms@
}
/// what the commitment scheme promises (P16): an opening made for the committed tables at their values verifies
pub open spec fn pcs_complete(b: ProverTracker, v: VerifierTracker, nv: int, d: int, p: IOPProof) -> bool {
    let l = c_start(b, nv, d); let ms = msgs(p); let ch = sc_chs(l, ms, nv);
    c_open(b, nv, d, p).is_some() ==> pcs_bv(v.pcs_params, v_comms(v), Seq::new(v_ids(v).len(), |i: int| ch), c_open(b, nv, d, p).unwrap(), sc_log(l, ms, nv)) == Some(true)
}
/// a compiled proof verifies
pub proof fn honest_accepted(a: ProverTracker, e: ProverTracker, b: ProverTracker, nv: int, p: CompiledZKSQLProof, v: VerifierTracker)
    requires steps(a, e, b, nv), compiled(b, nv, p), v.proof == p, in_step(e, v), pcs_complete(b, v, nv, p.sc_aux_info.max_degree as int, p.sc_proof)
    ensures v_accepts(v)
{
    let k = e.zero_check_claims@.len() as int; let d = p.sc_aux_info.max_degree as int;
    assert(v_zclaim(v) == p_zclaim(e));
    assert(all_claims(v.sum_check_claims@, v_zclaim(v)) =~= b.sum_check_claims@);
    assert(v_log(v) == c_log(b)); assert(v_start(v) == c_start(b, nv, d)); assert(v_sum(v) == c_sum(b));
    assert(v_point(v) == sc_chs(c_start(b, nv, d), msgs(p.sc_proof), nv));
}
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::compile_proof | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)), pt_roomn(*old(zk_tr), 2 * old(zk_tr).zero_check_claims@.len() as int + 2 * old(zk_tr).sum_check_claims@.len() as int + 16), !old(zk_tr).transcript.is_empty, scl_has(*old(zk_tr)), zcl_has(*old(zk_tr)), comms_ok(*old(zk_tr)),
        exists|id: TrackerID| old(zk_tr).materialized_polys@.contains_key(id) && old(zk_tr).materialized_polys@[id].num_vars >= 1, forall|id: TrackerID| #[trigger] old(zk_tr).materialized_polys@.contains_key(id) ==> old(zk_tr).materialized_polys@[id].num_vars < 62,
//@@ ensures
        exists|e: ProverTracker, b: ProverTracker, nv: int| #[trigger] steps(*old(zk_tr), e, b, nv) && outcome(*old(zk_tr), e, b, nv, ret),
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::verify_claims | thread=VerifierTracker
//@@ requires
        vt_wf(*old(zk_tr)), vt_roomn(*old(zk_tr), 2 * old(zk_tr).zero_check_claims@.len() as int + 2 * old(zk_tr).sum_check_claims@.len() as int + 16), !old(zk_tr).transcript.is_empty, claims_has(*old(zk_tr)),
        old(zk_tr).proof.sc_aux_info.max_degree < 0x3fff_ffff_ffff_ffff, old(zk_tr).proof.sc_aux_info.num_variables < 0x3fff_ffff_ffff_ffff,
        old(zk_tr).proof.sc_proof.proofs@.len() >= old(zk_tr).proof.sc_aux_info.num_variables ==> chs_off(v_point(*old(zk_tr)), old(zk_tr).proof.sc_aux_info.max_degree as int),
//@@ ensures
        ret.is_ok() <==> v_accepts(*old(zk_tr)),
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::transfer_proof_poly_evals | thread=VerifierTracker
//@@ ensures
        *final(zk_tr) == (VerifierTracker { query_map: final(zk_tr).query_map, ..*old(zk_tr) }),
        forall|k: (TrackerID, Seq<F>)| #[trigger] old(zk_tr).proof.query_map@.contains_key(k) ==> final(zk_tr).query_map@.contains_key(k) && final(zk_tr).query_map@[k] == old(zk_tr).proof.query_map@[k],
//@end
