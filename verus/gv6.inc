// ---- verifier side of bag_supp ----
pub struct BagSuppIOP { }
//@threaded BagSuppIOP::verify_with_advice BagSuppIOP::verify
pub open spec fn supp_vmid(a: VerifierTracker, b: VerifierTracker, f: BagComm, s: BagComm, m: TrackedComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker) -> bool { incl_v(a, c1, f, s, m) && nozero_v(c1, c2, BagComm { poly: m, selector: s.selector, num_vars: s.num_vars }) && sort_v(c2, b, s, r) }
/// included with multiplicities m; no selected multiplicity is zero; the support is strictly sorted
pub open spec fn supp_v(a: VerifierTracker, b: VerifierTracker, f: BagComm, s: BagComm, m: TrackedComm, r: BagComm) -> bool { exists|c1: VerifierTracker, c2: VerifierTracker| #[trigger] supp_vmid(a, b, f, s, m, r, c1, c2) }
pub open spec fn supp_bad2(a: VerifierTracker, f: BagComm, s: BagComm, m: TrackedComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker) -> bool { incl_v(a, c1, f, s, m) && nozero_v(c1, c2, BagComm { poly: m, selector: s.selector, num_vars: s.num_vars }) && sort_bad(c2, s, r) }
/// refused: no challenge can be drawn yet, or declared sums differ in the inclusion or the order check
pub open spec fn supp_bad(a: VerifierTracker, f: BagComm, s: BagComm, m: TrackedComm, r: BagComm) -> bool { a.transcript.is_empty || incl_bad(a, f, s) || exists|c1: VerifierTracker, c2: VerifierTracker| #[trigger] supp_bad2(a, f, s, m, r, c1, c2) }
//@fn src/zksql_poly_iop/bag_supp/bag_supp.rs::BagSuppIOP::verify_with_advice | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 80), bagc(*old(zk_tr), *bag, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *supp, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag_comm, old(verifier_tracker).tracker_rc.who), hc(*old(zk_tr), *common_mset_supp_m, old(verifier_tracker).tracker_rc.who), bag.num_vars < 62, supp.num_vars < 62, range_bag_comm.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> supp_v(*old(zk_tr), *final(zk_tr), *bag, *supp, *common_mset_supp_m, *range_bag_comm),
        ret.is_err() ==> supp_bad(*old(zk_tr), *bag, *supp, *common_mset_supp_m, *range_bag_comm),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 80 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-call verify_with_advice
    let ghost c1 = *zk_tr;
//@@ after-call verify
    let ghost c2 = *zk_tr; proof { assert(nozero_v(c1, c2, supp_no_dups_checker)); assert(v_grow(a, c2)); assert(sort_bad(c2, *supp, *range_bag_comm) ==> supp_bad2(a, *bag, *supp, *common_mset_supp_m, *range_bag_comm, c1, c2)); }
//@@ pretail
    proof { assert(supp_vmid(a, *zk_tr, *bag, *supp, *common_mset_supp_m, *range_bag_comm, c1, c2)); }
//@end
pub open spec fn suppv_mid(a: VerifierTracker, b: VerifierTracker, f: BagComm, s: BagComm, r: BagComm, c: VerifierTracker, m: TrackedComm) -> bool { a.proof.comms@.contains_key(tid(a.id_counter as int)) && v_commit(a, c, m, a.proof.comms@[tid(a.id_counter as int)]) && supp_v(c, b, f, s, m, r) }
/// the prover's advice commitment under the next handle, then the support with it
pub open spec fn suppv(a: VerifierTracker, b: VerifierTracker, f: BagComm, s: BagComm, r: BagComm) -> bool { exists|c: VerifierTracker, m: TrackedComm| #[trigger] suppv_mid(a, b, f, s, r, c, m) }
//@fn src/zksql_poly_iop/bag_supp/bag_supp.rs::BagSuppIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 81), bagc(*old(zk_tr), *bag, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *supp, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag_comm, old(verifier_tracker).tracker_rc.who), bag.num_vars < 62, supp.num_vars < 62, range_bag_comm.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> suppv(*old(zk_tr), *final(zk_tr), *bag, *supp, *range_bag_comm),
        ret.is_err() ==> exists|c: VerifierTracker, m: TrackedComm| #[trigger] v_commit(*old(zk_tr), c, m, old(zk_tr).proof.comms@[tid(old(zk_tr).id_counter as int)]) && supp_bad(c, *bag, *supp, m, *range_bag_comm),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 81 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-let common_mset_supp_m
    let ghost c = *zk_tr; proof { assert(v_commit(a, c, common_mset_supp_m, a.proof.comms@[tid(a.id_counter as int)])); }
//@@ pretail
    proof { assert(suppv_mid(a, *zk_tr, *bag, *supp, *range_bag_comm, c, common_mset_supp_m)); }
//@end
