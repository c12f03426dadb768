// ---- verifier side of bag_presc_perm ----
pub struct BagPrescPermIOP { }
//@threaded BagPrescPermIOP::verify
/// what the permutation gadget does under challenge g, up to the multiset check
pub open spec fn presc_vpre(a: VerifierTracker, d: VerifierTracker, fx: BagComm, gx: BagComm, perm: TrackedComm, g: F, f: BagComm, h: BagComm) -> bool {
    let n = a.id_counter as int; let c2 = a.proof.comms@[tid(n + 2)]; let c3 = a.proof.comms@[tid(n + 3)];
    &&& v_grow(a, d) && d.id_counter == n + 10 && !d.transcript.is_empty && d.sum_check_claims@ == a.sum_check_claims@ && d.zero_check_claims@ == a.zero_check_claims@
    // the prover's commitments under the third and fourth handle
    &&& a.proof.comms@.contains_key(tid(n + 2)) && a.proof.comms@.contains_key(tid(n + 3)) && d.materialized_comms@ == a.materialized_comms@.insert(tid(n + 2), c2).insert(tid(n + 3), c3)
    &&& ilog(d.transcript) == after_chal(ilog(a.transcript), "gamma"@).push(TEv::Msg("comm"@, ser_comm(c2))).push(TEv::Msg("comm"@, ser_comm(c3)))
    &&& f.poly.id == tid(n + 2) && h.poly.id == tid(n + 3) && f.num_vars == fx.num_vars && h.num_vars == gx.num_vars && h.selector == f.selector && v_one(d, f.selector) && vt_has(d, f.poly.id) && vt_has(d, h.poly.id)
    &&& vt_has(d, tid(n + 6)) && vt_has(d, tid(n + 9))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(d, tid(n + 2), q, pt) == q[(tid(n + 2), pt)]
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(d, tid(n + 3), q, pt) == q[(tid(n + 3), pt)]
    // index + g * value - first commitment; permutation + g * value - second commitment
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(d, tid(n + 6), q, pt) == fsub(fadd(weigh(pt), fmul(g, vt_val(a, fx.poly.id, q, pt))), q[(tid(n + 2), pt)])
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(d, tid(n + 9), q, pt) == fsub(fadd(vt_val(a, perm.id, q, pt), fmul(g, vt_val(a, gx.poly.id, q, pt))), q[(tid(n + 3), pt)])
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(d, tid(n + 6), q, pt) == (pt.len() <= 63 && vt_def(a, fx.poly.id, q, pt) && q.contains_key((tid(n + 2), pt)))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(d, tid(n + 9), q, pt) == (vt_def(a, perm.id, q, pt) && vt_def(a, gx.poly.id, q, pt) && q.contains_key((tid(n + 3), pt)))
}
/// two more zero claims
pub open spec fn v_z2(e: VerifierTracker, b: VerifierTracker, x: TrackerID, y: TrackerID) -> bool { b == (VerifierTracker { zero_check_claims: b.zero_check_claims, ..e }) && b.zero_check_claims@ == e.zero_check_claims@.push(TrackerZerocheckClaim { label: x }).push(TrackerZerocheckClaim { label: y }) }
pub open spec fn presc_vmid(a: VerifierTracker, b: VerifierTracker, fx: BagComm, gx: BagComm, perm: TrackedComm, d: VerifierTracker, e: VerifierTracker, f: BagComm, h: BagComm) -> bool { presc_vpre(a, d, fx, gx, perm, chal(ilog(a.transcript), "gamma"@), f, h) && bageq_v(d, e, f, h) && v_z2(e, b, tid(a.id_counter + 6), tid(a.id_counter + 9)) }
pub open spec fn presc_v(a: VerifierTracker, b: VerifierTracker, fx: BagComm, gx: BagComm, perm: TrackedComm) -> bool { exists|d: VerifierTracker, e: VerifierTracker, f: BagComm, h: BagComm| #[trigger] presc_vmid(a, b, fx, gx, perm, d, e, f, h) }
/// the declared sums of the two committed tables differ
pub open spec fn presc_bad(a: VerifierTracker, fx: BagComm, gx: BagComm, perm: TrackedComm) -> bool { exists|d: VerifierTracker, f: BagComm, h: BagComm, c: VerifierTracker| presc_vpre(a, d, fx, gx, perm, chal(ilog(a.transcript), "gamma"@), f, h) && v_more(d, c, 1) && !#[trigger] bal11(d, c, f, h) }
/// the declared sums balance
pub open spec fn bal11(d: VerifierTracker, c: VerifierTracker, f: BagComm, h: BagComm) -> bool { balanced(c, sq1(f), sq1(h)) }
//@fn src/zksql_poly_iop/bag_presc_perm/bag_presc_perm.rs::BagPrescPermIOP::verify | thread=VerifierTracker maypanic vclos=One,Ordered
//@@ requires
        v_room(*old(zk_tr), 27), bagc(*old(zk_tr), *fx, old(tracker).tracker_rc.who), bagc(*old(zk_tr), *gx, old(tracker).tracker_rc.who), hc(*old(zk_tr), *perm, old(tracker).tracker_rc.who), fx.num_vars < 62, gx.num_vars < 62,
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() ==> presc_v(*old(zk_tr), *final(zk_tr), *fx, *gx, *perm),
        ret.is_err() ==> old(zk_tr).transcript.is_empty || presc_bad(*old(zk_tr), *fx, *gx, *perm),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 27 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr; let ghost n = a.id_counter as int;
//@@ after-let ghat_check_poly
    let ghost d = *zk_tr; proof {
        let g = chal(ilog(a.transcript), "gamma"@);
        assert(fhat_check_poly.id == tid(n + 6)); assert(ghat_check_poly.id == tid(n + 9)); assert(v_one(d, one_comm));
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(d, tid(n + 6), q, pt) == fsub(fadd(weigh(pt), fmul(g, vt_val(a, fx.poly.id, q, pt))), q[(tid(n + 2), pt)]) by { }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(d, tid(n + 9), q, pt) == fsub(fadd(vt_val(a, perm.id, q, pt), fmul(g, vt_val(a, gx.poly.id, q, pt))), q[(tid(n + 3), pt)]) by { }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(d, tid(n + 6), q, pt) == (pt.len() <= 63 && vt_def(a, fx.poly.id, q, pt) && q.contains_key((tid(n + 2), pt))) by { }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(d, tid(n + 9), q, pt) == (vt_def(a, perm.id, q, pt) && vt_def(a, gx.poly.id, q, pt) && q.contains_key((tid(n + 3), pt))) by { }
        assert(presc_vpre(a, d, *fx, *gx, *perm, g, fhat_comm_bag, ghat_comm_bag));
        assert forall|c: VerifierTracker| v_more(d, c, 1) && !#[trigger] balanced(c, sq1(fhat_comm_bag), sq1(ghat_comm_bag)) implies presc_bad(a, *fx, *gx, *perm) by { assert(!bal11(d, c, fhat_comm_bag, ghat_comm_bag)); }
    }
//@@ after-call verify
    let ghost e = *zk_tr; proof { assert(bageq_v(d, e, fhat_comm_bag, ghat_comm_bag)); }
//@@ pretail
    proof { assert(v_z2(e, *zk_tr, tid(n + 6), tid(n + 9))); assert(presc_vmid(a, *zk_tr, *fx, *gx, *perm, d, e, fhat_comm_bag, ghat_comm_bag)); }
//@end
