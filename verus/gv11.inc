// ---- verifier side of join_reduction ----
pub struct JoinReductionIOP { }
//@threaded JoinReductionIOP::verify
pub open spec fn selinv(s: F) -> F { fadd(fmul(fneg(f1()), s), f1()) }
/// a bag cut in two by a selector: the rows where it is one, and the rows where it is zero
pub open spec fn jr_part(a: VerifierTracker, b: VerifierTracker, f: BagComm, s: TrackedComm, l: BagComm, m: BagComm) -> bool {
    &&& l.poly == f.poly && m.poly == f.poly && l.num_vars == f.num_vars && m.num_vars == f.num_vars && vt_has(b, l.selector.id) && vt_has(b, m.selector.id) && l.selector.tracker == f.selector.tracker && m.selector.tracker == f.selector.tracker
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, l.selector.id, q, pt) == fmul(vt_val(a, f.selector.id, q, pt), vt_val(a, s.id, q, pt))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, l.selector.id, q, pt) == (vt_def(a, f.selector.id, q, pt) && vt_def(a, s.id, q, pt))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, m.selector.id, q, pt) == fmul(vt_val(a, f.selector.id, q, pt), selinv(vt_val(a, s.id, q, pt)))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, m.selector.id, q, pt) == (vt_def(a, f.selector.id, q, pt) && vt_def(a, s.id, q, pt))
}
pub open spec fn jr_split(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, ls: TrackedComm, rs: TrackedComm, l: BagComm, r: BagComm, ma: BagComm, mb: BagComm) -> bool { v_more(a, b, 10) && jr_part(a, b, f, ls, l, ma) && jr_part(a, b, g, rs, r, mb) }
pub open spec fn jr_vmid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, ls: TrackedComm, rs: TrackedComm, rg: BagComm, l: BagComm, r: BagComm, ma: BagComm, mb: BagComm, c: VerifierTracker, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, c5: VerifierTracker, c6: VerifierTracker) -> bool {
    jr_split(a, c, f, g, ls, rs, l, r, ma, mb) && selvalid_v(c, c1, ls) && selvalid_v(c1, c2, rs) && disjv(c2, c3, l, r, rg) && disjv(c3, c4, l, ma, rg) && disjv(c4, c5, r, mb, rg) && inclv(c5, c6, ma, mb) && inclv(c6, b, mb, ma)
}
/// both selectors 0/1; left and right, left and middle, right and middle disjoint; the two middles of the same support
pub open spec fn jr_v(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, ls: TrackedComm, rs: TrackedComm, rg: BagComm) -> bool {
    exists|l: BagComm, r: BagComm, ma: BagComm, mb: BagComm, c: VerifierTracker, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, c5: VerifierTracker, c6: VerifierTracker| #[trigger] jr_vmid(a, b, f, g, ls, rs, rg, l, r, ma, mb, c, c1, c2, c3, c4, c5, c6)
}
pub open spec fn inclv_bad(a: VerifierTracker, f: BagComm, g: BagComm) -> bool { exists|c: VerifierTracker, m: TrackedComm| #[trigger] v_commit(a, c, m, a.proof.comms@[tid(a.id_counter as int)]) && incl_bad(c, f, g) }
/// one of the five parts was refused, those before it having been recorded
pub open spec fn jr_bad_mid(a: VerifierTracker, f: BagComm, g: BagComm, ls: TrackedComm, rs: TrackedComm, rg: BagComm, l: BagComm, r: BagComm, ma: BagComm, mb: BagComm, c: VerifierTracker, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, c5: VerifierTracker, c6: VerifierTracker) -> bool {
    jr_split(a, c, f, g, ls, rs, l, r, ma, mb) && selvalid_v(c, c1, ls) && selvalid_v(c1, c2, rs) && (disjv_bad(c2, l, r, rg) || (disjv(c2, c3, l, r, rg) && (disjv_bad(c3, l, ma, rg) || (disjv(c3, c4, l, ma, rg) && (disjv_bad(c4, r, mb, rg) || (disjv(c4, c5, r, mb, rg) && (inclv_bad(c5, ma, mb) || (inclv(c5, c6, ma, mb) && inclv_bad(c6, mb, ma)))))))))
}
pub open spec fn jr_bad(a: VerifierTracker, f: BagComm, g: BagComm, ls: TrackedComm, rs: TrackedComm, rg: BagComm) -> bool {
    exists|l: BagComm, r: BagComm, ma: BagComm, mb: BagComm, c: VerifierTracker, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, c5: VerifierTracker, c6: VerifierTracker| #[trigger] jr_bad_mid(a, f, g, ls, rs, rg, l, r, ma, mb, c, c1, c2, c3, c4, c5, c6)
}
//@fn src/zksql_poly_iop/join_reduction/join_reduction.rs::JoinReductionIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 348), bagc(*old(zk_tr), *bag_a, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_b, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag, old(verifier_tracker).tracker_rc.who), bag_a.num_vars < 61, bag_b.num_vars < 61, range_bag.num_vars < 62,
        hc(*old(zk_tr), *l_sel, old(verifier_tracker).tracker_rc.who), hc(*old(zk_tr), *r_sel, old(verifier_tracker).tracker_rc.who),
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> jr_v(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *l_sel, *r_sel, *range_bag),
        ret.is_err() ==> jr_bad(*old(zk_tr), *bag_a, *bag_b, *l_sel, *r_sel, *range_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 348 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr; let ghost who = verifier_tracker.tracker_rc.who;
//@@ after-let mb_bag
    let ghost c = *zk_tr; proof { assert(v_more(a, c, 10)); assert(jr_part(a, c, *bag_a, *l_sel, l_bag, ma_bag)); assert(jr_part(a, c, *bag_b, *r_sel, r_bag, mb_bag)); assert(bagc(c, l_bag, who) && bagc(c, r_bag, who) && bagc(c, ma_bag, who) && bagc(c, mb_bag, who)); }
//@@ after-call verify
    let ghost c1 = *zk_tr;
//@@ after-call verify #2
    let ghost c2 = *zk_tr; proof { assert(disjv_bad(c2, l_bag, r_bag, *range_bag) ==> jr_bad_mid(a, *bag_a, *bag_b, *l_sel, *r_sel, *range_bag, l_bag, r_bag, ma_bag, mb_bag, c, c1, c2, c2, c2, c2, c2)); }
//@@ after-call verify #3
    let ghost c3 = *zk_tr; proof { assert(disjv_bad(c3, l_bag, ma_bag, *range_bag) ==> jr_bad_mid(a, *bag_a, *bag_b, *l_sel, *r_sel, *range_bag, l_bag, r_bag, ma_bag, mb_bag, c, c1, c2, c3, c3, c3, c3)); }
//@@ after-call verify #4
    let ghost c4 = *zk_tr; proof { assert(disjv_bad(c4, r_bag, mb_bag, *range_bag) ==> jr_bad_mid(a, *bag_a, *bag_b, *l_sel, *r_sel, *range_bag, l_bag, r_bag, ma_bag, mb_bag, c, c1, c2, c3, c4, c4, c4)); }
//@@ after-call verify #5
    let ghost c5 = *zk_tr; proof { assert(inclv_bad(c5, ma_bag, mb_bag) ==> jr_bad_mid(a, *bag_a, *bag_b, *l_sel, *r_sel, *range_bag, l_bag, r_bag, ma_bag, mb_bag, c, c1, c2, c3, c4, c5, c5)); }
//@@ after-call verify #6
    let ghost c6 = *zk_tr; proof { assert(inclv_bad(c6, mb_bag, ma_bag) ==> jr_bad_mid(a, *bag_a, *bag_b, *l_sel, *r_sel, *range_bag, l_bag, r_bag, ma_bag, mb_bag, c, c1, c2, c3, c4, c5, c6)); }
//@@ pretail
    proof { assert(jr_vmid(a, *zk_tr, *bag_a, *bag_b, *l_sel, *r_sel, *range_bag, l_bag, r_bag, ma_bag, mb_bag, c, c1, c2, c3, c4, c5, c6)); }
//@end
