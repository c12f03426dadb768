// ---- verifier side of bag_disjoint ----
pub struct BagDisjointIOP { }
//@threaded BagDisjointIOP::verify_with_advice BagDisjointIOP::verify
/// a zero claim about the product of two commitments
pub open spec fn prodz_v(a: VerifierTracker, b: VerifierTracker, m: TrackedComm, w: TrackedComm) -> bool { let z = tid(a.id_counter as int); v_zclaim(a, b, 1, z) && (forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, z, q, pt) == fmul(vt_val(a, m.id, q, pt), vt_val(a, w.id, q, pt))) && (forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, z, q, pt) == (vt_def(a, m.id, q, pt) && vt_def(a, w.id, q, pt))) }
pub open spec fn disj_vmid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, u: BagComm, ma: TrackedComm, mb: TrackedComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker) -> bool { sort_v(a, c1, u, r) && prodz_v(c1, c2, ma, mb) && incl_v(c2, c3, f, u, ma) && incl_v(c3, b, g, u, mb) }
/// the union is strictly sorted, no value is counted on both sides, and either side is included in the union
pub open spec fn disj_v(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, u: BagComm, ma: TrackedComm, mb: TrackedComm, r: BagComm) -> bool { exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker| #[trigger] disj_vmid(a, b, f, g, u, ma, mb, r, c1, c2, c3) }
pub open spec fn disj_bad1(a: VerifierTracker, f: BagComm, u: BagComm, ma: TrackedComm, mb: TrackedComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker) -> bool { sort_v(a, c1, u, r) && prodz_v(c1, c2, ma, mb) && incl_bad(c2, f, u) }
pub open spec fn disj_bad2(a: VerifierTracker, f: BagComm, g: BagComm, u: BagComm, ma: TrackedComm, mb: TrackedComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker) -> bool { sort_v(a, c1, u, r) && prodz_v(c1, c2, ma, mb) && incl_v(c2, c3, f, u, ma) && incl_bad(c3, g, u) }
/// refused: declared sums differ in the order check or in either inclusion
pub open spec fn disj_bad(a: VerifierTracker, f: BagComm, g: BagComm, u: BagComm, ma: TrackedComm, mb: TrackedComm, r: BagComm) -> bool {
    sort_bad(a, u, r) || (exists|c1: VerifierTracker, c2: VerifierTracker| #[trigger] disj_bad1(a, f, u, ma, mb, r, c1, c2)) || exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker| #[trigger] disj_bad2(a, f, g, u, ma, mb, r, c1, c2, c3)
}
//@fn src/zksql_poly_iop/bag_disjoint/bag_disjoint.rs::BagDisjointIOP::verify_with_advice | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 94), bagc(*old(zk_tr), *bag_a, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_b, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_c, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag, old(verifier_tracker).tracker_rc.who),
        hc(*old(zk_tr), *m_a, old(verifier_tracker).tracker_rc.who), hc(*old(zk_tr), *m_b, old(verifier_tracker).tracker_rc.who), bag_a.num_vars < 62, bag_b.num_vars < 62, bag_c.num_vars < 62, range_bag.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> disj_v(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *bag_c, *m_a, *m_b, *range_bag),
        ret.is_err() ==> disj_bad(*old(zk_tr), *bag_a, *bag_b, *bag_c, *m_a, *m_b, *range_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 94 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-call verify
    let ghost c1 = *zk_tr;
//@@ after-call add_zerocheck_claim
    let ghost c2 = *zk_tr; proof { assert(m_mul.id == tid(c1.id_counter as int)); assert(prodz_v(c1, c2, *m_a, *m_b)); assert(incl_bad(c2, *bag_a, *bag_c) ==> disj_bad1(a, *bag_a, *bag_c, *m_a, *m_b, *range_bag, c1, c2)); }
//@@ after-call verify_with_advice
    let ghost c3 = *zk_tr; proof { assert(incl_bad(c3, *bag_b, *bag_c) ==> disj_bad2(a, *bag_a, *bag_b, *bag_c, *m_a, *m_b, *range_bag, c1, c2, c3)); }
//@@ pretail
    proof { assert(disj_vmid(a, *zk_tr, *bag_a, *bag_b, *bag_c, *m_a, *m_b, *range_bag, c1, c2, c3)); }
//@end
pub open spec fn v_take(a: VerifierTracker, b: VerifierTracker, h: TrackedComm) -> bool { a.proof.comms@.contains_key(tid(a.id_counter as int)) && v_commit(a, b, h, a.proof.comms@[tid(a.id_counter as int)]) }
pub open spec fn max2(a: int, b: int) -> int { if a >= b { a } else { b } }
/// the prover's four advice commitments under the next handles
pub open spec fn disj_adv(a: VerifierTracker, c4: VerifierTracker, f: BagComm, g: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, u: BagComm, ma: TrackedComm, mb: TrackedComm) -> bool { v_take(a, c1, u.poly) && v_take(c1, c2, u.selector) && v_take(c2, c3, ma) && v_take(c3, c4, mb) && u.num_vars == max2(f.num_vars as int, g.num_vars as int) + 1 }
pub open spec fn disjv_mid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, u: BagComm, ma: TrackedComm, mb: TrackedComm) -> bool { disj_adv(a, c4, f, g, c1, c2, c3, u, ma, mb) && disj_v(c4, b, f, g, u, ma, mb, r) }
pub open spec fn disjv(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, r: BagComm) -> bool { exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, u: BagComm, ma: TrackedComm, mb: TrackedComm| #[trigger] disjv_mid(a, b, f, g, r, c1, c2, c3, c4, u, ma, mb) }
pub open spec fn disjv_bad1(a: VerifierTracker, f: BagComm, g: BagComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, u: BagComm, ma: TrackedComm, mb: TrackedComm) -> bool { disj_adv(a, c4, f, g, c1, c2, c3, u, ma, mb) && disj_bad(c4, f, g, u, ma, mb, r) }
pub open spec fn disjv_bad(a: VerifierTracker, f: BagComm, g: BagComm, r: BagComm) -> bool { exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, u: BagComm, ma: TrackedComm, mb: TrackedComm| #[trigger] disjv_bad1(a, f, g, r, c1, c2, c3, c4, u, ma, mb) }
//@fn src/zksql_poly_iop/bag_disjoint/bag_disjoint.rs::BagDisjointIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 98), bagc(*old(zk_tr), *bag_a, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_b, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag, old(verifier_tracker).tracker_rc.who), bag_a.num_vars < 61, bag_b.num_vars < 61, range_bag.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> disjv(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *range_bag),
        ret.is_err() ==> disjv_bad(*old(zk_tr), *bag_a, *bag_b, *range_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 98 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-let bag_c_poly
    let ghost c1 = *zk_tr; proof { assert(v_take(a, c1, bag_c_poly)); }
//@@ after-let bag_c_sel
    let ghost c2 = *zk_tr; proof { assert(v_take(c1, c2, bag_c_sel)); }
//@@ after-let sum_a_mult_poly
    let ghost c3 = *zk_tr; proof { assert(v_take(c2, c3, sum_a_mult_poly)); }
//@@ after-let sum_b_mult_poly
    let ghost c4 = *zk_tr; proof { assert(v_take(c3, c4, sum_b_mult_poly)); assert(disj_adv(a, c4, *bag_a, *bag_b, c1, c2, c3, bag_c, sum_a_mult_poly, sum_b_mult_poly));
        assert(disj_bad(c4, *bag_a, *bag_b, bag_c, sum_a_mult_poly, sum_b_mult_poly, *range_bag) ==> disjv_bad1(a, *bag_a, *bag_b, *range_bag, c1, c2, c3, c4, bag_c, sum_a_mult_poly, sum_b_mult_poly)); }
//@@ pretail
    proof { assert(disjv_mid(a, *zk_tr, *bag_a, *bag_b, *range_bag, c1, c2, c3, c4, bag_c, sum_a_mult_poly, sum_b_mult_poly)); }
//@end
