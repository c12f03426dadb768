// ---- prover side of bag_supp ----
pub struct BagSuppIOP { }
//@threaded BagSuppIOP::prove_with_advice BagSuppIOP::prove
pub open spec fn supp_mid(a: ProverTracker, b: ProverTracker, f: Bag, s: Bag, m: TrackedPoly, r: Bag, c1: ProverTracker, c2: ProverTracker) -> bool { incl_p(a, c1, f, s, m) && nozero_p(c1, c2, Bag { poly: m, selector: s.selector }) && sort_p(c2, b, s, r) }
/// included with multiplicities m; no selected multiplicity is zero; the support is strictly sorted
pub open spec fn supp_p(a: ProverTracker, b: ProverTracker, f: Bag, s: Bag, m: TrackedPoly, r: Bag) -> bool { exists|c1: ProverTracker, c2: ProverTracker| #[trigger] supp_mid(a, b, f, s, m, r, c1, c2) }
pub open spec fn supp_fits(a: ProverTracker, f: Bag, s: Bag, r: Bag) -> bool { pcs_fits(a.pcs_param, f.poly.num_vars as int) && pcs_fits(a.pcs_param, s.poly.num_vars as int) && pcs_fits(a.pcs_param, r.poly.num_vars as int) }
//@fn src/zksql_poly_iop/bag_supp/bag_supp.rs::BagSuppIOP::prove_with_advice | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 80), bagp(*old(zk_tr), *bag, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *supp, old(prover_tracker).tracker_rc.who), hp(*old(zk_tr), *common_mset_supp_m), common_mset_supp_m.tracker.who == old(prover_tracker).tracker_rc.who, hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> supp.poly.num_vars == common_mset_supp_m.num_vars && !old(zk_tr).transcript.is_empty && supp_fits(*old(zk_tr), *bag, *supp, *range_bag),
        ret.is_ok() ==> supp_p(*old(zk_tr), *final(zk_tr), *bag, *supp, *common_mset_supp_m, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 80),
//@@ entry
    let ghost a = *zk_tr;
//@@ after-call prove_with_advice
    let ghost c1 = *zk_tr;
//@@ after-call prove
    let ghost c2 = *zk_tr; proof { assert(nozero_p(c1, c2, supp_no_dups_checker)); assert(p_grow(a, c2, 21)); }
//@@ pretail
    proof { assert(supp_mid(a, *zk_tr, *bag, *supp, *common_mset_supp_m, *range_bag, c1, c2)); }
//@end
pub open spec fn suppp_mid(a: ProverTracker, b: ProverTracker, f: Bag, s: Bag, r: Bag, c: ProverTracker, d: DenseMultilinearExtension, m: TrackedPoly) -> bool { is_incl_advp(a, f, s, d) && p_commit(a, c, m, d) && supp_p(c, b, f, s, m, r) }
/// the advice is committed, then the support proved with it
pub open spec fn suppp(a: ProverTracker, b: ProverTracker, f: Bag, s: Bag, r: Bag) -> bool { exists|c: ProverTracker, d: DenseMultilinearExtension, m: TrackedPoly| #[trigger] suppp_mid(a, b, f, s, r, c, d, m) }
//@fn src/zksql_poly_iop/bag_supp/bag_supp.rs::BagSuppIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 81), bagp(*old(zk_tr), *bag, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *supp, old(prover_tracker).tracker_rc.who), hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> supp_fits(*old(zk_tr), *bag, *supp, *range_bag),
        ret.is_ok() ==> suppp(*old(zk_tr), *final(zk_tr), *bag, *supp, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 81),
//@@ entry
    let ghost a = *zk_tr;
//@@ after-let common_mset_supp_m
    let ghost c = *zk_tr; let ghost d = common_mset_supp_m_mle; proof { assert(p_commit(a, c, common_mset_supp_m, d)); }
//@@ pretail
    proof { assert(suppp_mid(a, *zk_tr, *bag, *supp, *range_bag, c, d, common_mset_supp_m)); }
//@end
