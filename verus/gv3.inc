// ---- verifier side of bag_inclusion ----
pub struct BagInclusionIOP { }
//@threaded BagInclusionIOP::verify BagInclusionIOP::verify_with_advice Self::verify_with_advice
pub open spec fn incl_vmid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, m: TrackedComm, c: VerifierTracker, one: TrackedComm) -> bool { v_more(a, c, 1) && v_one(c, one) && mt_v(c, b, seq![f], seq![g], seq![one], seq![m]) && balanced(c, seq![f], seq![g]) }
pub open spec fn incl_v(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, m: TrackedComm) -> bool { exists|c: VerifierTracker, one: TrackedComm| #[trigger] incl_vmid(a, b, f, g, m, c, one) }
/// the declared sums differ
pub open spec fn incl_bad(a: VerifierTracker, f: BagComm, g: BagComm) -> bool { exists|c: VerifierTracker| v_more(a, c, 1) && !#[trigger] balanced(c, sq1(f), sq1(g)) }
//@fn src/zksql_poly_iop/bag_inclusion/bag_inclusion.rs::BagInclusionIOP::verify_with_advice | thread=VerifierTracker maypanic vclos=One
//@@ requires
        v_room(*old(zk_tr), 17), bagc(*old(zk_tr), *included_bag, old(tracker).tracker_rc.who), bagc(*old(zk_tr), *super_bag, old(tracker).tracker_rc.who), hc(*old(zk_tr), *super_bag_m, old(tracker).tracker_rc.who), included_bag.num_vars < 62, super_bag.num_vars < 62,
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() ==> incl_v(*old(zk_tr), *final(zk_tr), *included_bag, *super_bag, *super_bag_m),
        ret.is_err() ==> old(zk_tr).transcript.is_empty || incl_bad(*old(zk_tr), *included_bag, *super_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 17 && !final(zk_tr).transcript.is_empty,
//@@ entry
    broadcast use mt_v_short, balanced_short;
    let ghost a = *zk_tr; let ghost fs = seq![*included_bag]; let ghost gs = seq![*super_bag]; let ghost ms = seq![*super_bag_m]; proof { assert(fs[0] == *included_bag); assert(gs[0] == *super_bag); assert(ms[0] == *super_bag_m); assert(gs == sq1(*super_bag)); assert(fs == sq1(*included_bag)); }
//@@ after-let one_comm
    let ghost c = *zk_tr; proof { assert(v_one(c, one_comm)); assert(v_more(a, c, 1)); }
//@@ pretail
    proof { assert(incl_vmid(a, *zk_tr, *included_bag, *super_bag, *super_bag_m, c, one_comm)); }
//@end
pub open spec fn inclv_mid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, c: VerifierTracker, m: TrackedComm) -> bool { a.proof.comms@.contains_key(tid(a.id_counter as int)) && v_commit(a, c, m, a.proof.comms@[tid(a.id_counter as int)]) && incl_v(c, b, f, g, m) }
/// the prover's advice commitment under the next handle, then the inclusion with it
pub open spec fn inclv(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm) -> bool { exists|c: VerifierTracker, m: TrackedComm| #[trigger] inclv_mid(a, b, f, g, c, m) }
//@fn src/zksql_poly_iop/bag_inclusion/bag_inclusion.rs::BagInclusionIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 18), bagc(*old(zk_tr), *included_bag, old(tracker).tracker_rc.who), bagc(*old(zk_tr), *super_bag, old(tracker).tracker_rc.who), included_bag.num_vars < 62, super_bag.num_vars < 62,
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() ==> inclv(*old(zk_tr), *final(zk_tr), *included_bag, *super_bag),
        ret.is_err() ==> exists|c: VerifierTracker, m: TrackedComm| #[trigger] v_commit(*old(zk_tr), c, m, old(zk_tr).proof.comms@[tid(old(zk_tr).id_counter as int)]) && incl_bad(c, *included_bag, *super_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 18 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-let super_bag_m
    let ghost c = *zk_tr; proof { assert(v_commit(a, c, super_bag_m, a.proof.comms@[tid(a.id_counter as int)])); }
//@@ tail
    proof { if zk_ret.is_ok() { assert(inclv_mid(a, *zk_tr, *included_bag, *super_bag, c, super_bag_m)); } }
//@end
