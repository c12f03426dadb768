// ---- prover side of bag_inclusion ----
pub struct BagInclusionIOP { }
//@threaded BagInclusionIOP::prove BagInclusionIOP::prove_with_advice Self::prove_with_advice calc_bag_inclusion_advice_from_bag bag_multiplicity_count
/// the table a handle stands for
pub open spec fn pvec(p: ProverTracker, h: TrackedPoly) -> Seq<F> { Seq::new(p2(h.num_vars as int) as nat, |b: int| pb(p, h.id, b)) }
pub open spec fn p_quiet(a: ProverTracker, b: ProverTracker) -> bool { p_still(a, b) && pt_same_log(a, b) }
pub broadcast proof fn pvec_still(a: ProverTracker, b: ProverTracker, h: TrackedPoly) requires pt_kept(a, b), hp(a, h) ensures #![trigger pt_kept(a, b), pvec(b, h)] pvec(b, h) == pvec(a, h) { assert(pvec(b, h) =~= pvec(a, h)); }
//@fn src/zksql_poly_iop/util/multiplicity_count.rs::bag_multiplicity_count | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)), hp(*old(zk_tr), bag.poly), hp(*old(zk_tr), bag.selector), bag.poly.num_vars == bag.selector.num_vars,
//@@ ensures
        p_quiet(*old(zk_tr), *final(zk_tr)), is_counts(ret@, pvec(*old(zk_tr), bag.poly), pvec(*old(zk_tr), bag.selector), p2(bag.poly.num_vars as int)),
//@@ entry
    broadcast use pvec_still;
    let ghost a = *zk_tr;
//@@ after-let poly_evals
    proof { assert(poly_evals@ =~= pvec(a, bag.poly)); p2_pos(bag.poly.num_vars as int); }
//@@ after-let sel_evals
    proof { assert(sel_evals@ =~= pvec(a, bag.selector)); }
//@end
/// the advice table for a pair of bags
pub open spec fn is_incl_advp(a: ProverTracker, f: Bag, g: Bag, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == g.poly.num_vars && is_incl_adv(d.evaluations@, pvec(a, f.poly), pvec(a, f.selector), pvec(a, g.poly), pvec(a, g.selector)) }
//@fn src/zksql_poly_iop/bag_inclusion/utils.rs::calc_bag_inclusion_advice_from_bag | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)), hp(*old(zk_tr), included_bag.poly), hp(*old(zk_tr), included_bag.selector), included_bag.poly.num_vars == included_bag.selector.num_vars, hp(*old(zk_tr), super_bag.poly), hp(*old(zk_tr), super_bag.selector), super_bag.poly.num_vars == super_bag.selector.num_vars,
//@@ ensures
        p_quiet(*old(zk_tr), *final(zk_tr)), is_incl_advp(*old(zk_tr), *included_bag, *super_bag, ret),
//@@ entry
    broadcast use pvec_still;
    let ghost a = *zk_tr; proof { pt_nv_small(a, included_bag.poly.id); pt_nv_small(a, super_bag.poly.id); }
//@@ after-let included_bag_poly_evals
    proof { assert(included_bag_poly_evals@ =~= pvec(a, included_bag.poly)); }
//@@ after-let included_bag_sel_evals
    proof { assert(included_bag_sel_evals@ =~= pvec(a, included_bag.selector)); }
//@@ after-let super_bag_poly_evals
    proof { assert(super_bag_poly_evals@ =~= pvec(a, super_bag.poly)); }
//@@ after-let super_bag_sel_evals
    proof { assert(super_bag_sel_evals@ =~= pvec(a, super_bag.selector)); }
//@end
pub open spec fn incl_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, m: TrackedPoly, c: ProverTracker, one: TrackedPoly) -> bool { p_more(a, c, 1) && p_one(c, one, f.poly.num_vars as int) && mt_p(c, b, seq![f], seq![g], seq![one], seq![m]) }
/// the multiset gadget: every included element once, against the super bag with multiplicities m
pub open spec fn incl_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, m: TrackedPoly) -> bool { exists|c: ProverTracker, one: TrackedPoly| #[trigger] incl_mid(a, b, f, g, m, c, one) }
//@fn src/zksql_poly_iop/bag_inclusion/bag_inclusion.rs::BagInclusionIOP::prove_with_advice | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 17), bagp(*old(zk_tr), *included_bag, old(tracker).tracker_rc.who), bagp(*old(zk_tr), *super_bag, old(tracker).tracker_rc.who), hp(*old(zk_tr), *super_bag_m), super_bag_m.tracker.who == old(tracker).tracker_rc.who,
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() <==> super_bag.poly.num_vars == super_bag_m.num_vars && !old(zk_tr).transcript.is_empty && pcs_fits(old(zk_tr).pcs_param, included_bag.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, super_bag.poly.num_vars as int),
        ret.is_ok() ==> incl_p(*old(zk_tr), *final(zk_tr), *included_bag, *super_bag, *super_bag_m),
        ret.is_ok() ==> pt_wf(*final(zk_tr)) && pt_kept(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 17 && final(zk_tr).pcs_param == old(zk_tr).pcs_param && !final(zk_tr).transcript.is_empty,
//@@ entry
    broadcast use ipow_p2, mt_p_short;
    let ghost a = *zk_tr; proof { pt_nv_small(a, included_bag.poly.id); p2_64(); p2_pos(included_bag.poly.num_vars as int); p2_mono(included_bag.poly.num_vars as int, 62); }
//@@ after-let included_bag_m
    let ghost c = *zk_tr; proof { assert(p_one(c, included_bag_m, nv as int)); let fs = seq![*included_bag]; let gs = seq![*super_bag]; let ms = seq![*super_bag_m]; assert(fs[0] == *included_bag); assert(gs[0] == *super_bag); assert(ms[0] == *super_bag_m); }
//@@ pretail
    proof { assert(incl_mid(a, *zk_tr, *included_bag, *super_bag, *super_bag_m, c, included_bag_m)); }
//@end
pub open spec fn inclp_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, c: ProverTracker, d: DenseMultilinearExtension, m: TrackedPoly) -> bool { is_incl_advp(a, f, g, d) && p_commit(a, c, m, d) && incl_p(c, b, f, g, m) }
/// the advice is committed, then the inclusion proved with it
pub open spec fn inclp(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag) -> bool { exists|c: ProverTracker, d: DenseMultilinearExtension, m: TrackedPoly| #[trigger] inclp_mid(a, b, f, g, c, d, m) }
//@fn src/zksql_poly_iop/bag_inclusion/bag_inclusion.rs::BagInclusionIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 18), bagp(*old(zk_tr), *included_bag, old(tracker).tracker_rc.who), bagp(*old(zk_tr), *super_bag, old(tracker).tracker_rc.who),
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() <==> pcs_fits(old(zk_tr).pcs_param, included_bag.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, super_bag.poly.num_vars as int),
        ret.is_ok() ==> inclp(*old(zk_tr), *final(zk_tr), *included_bag, *super_bag),
        ret.is_ok() ==> pt_wf(*final(zk_tr)) && pt_kept(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 18 && final(zk_tr).pcs_param == old(zk_tr).pcs_param && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-let super_bag_m_mle
    let ghost d = super_bag_m_mle;
//@@ after-let super_bag_m
    let ghost c = *zk_tr; proof { assert(p_commit(a, c, super_bag_m, d)); }
//@@ tail
    proof { if zk_ret.is_ok() { assert(inclp_mid(a, *zk_tr, *included_bag, *super_bag, c, d, super_bag_m)); } }
//@end
