// ---- prover side of selector_valid, bag_no_zeros, bag_sum, bag_eq ----
pub struct SelectorValidIOP { }
pub struct BagNoZerosIOP { }
pub struct BagSumIOP { }
pub struct BagEqIOP { }
//@threaded SelectorValidIOP::prove BagNoZerosIOP::prove BagSumIOP::prove BagEqIOP::prove
/// a zero claim about handle z was recorded; sum claims, log and commitments are as before
pub open spec fn p_zclaim(a: ProverTracker, b: ProverTracker, k: int, z: TrackerID) -> bool {
    &&& pt_wf(b) && pt_kept(a, b) && b.id_counter == a.id_counter + k && pt_has(b, z) && b.zero_check_claims@ == a.zero_check_claims@.push(TrackerZerocheckClaim { label: z })
    &&& b.sum_check_claims@ == a.sum_check_claims@ && b.transcript == a.transcript && b.materialized_comms@ == a.materialized_comms@ && b.pcs_param == a.pcs_param
}
/// s * (1 - s)
pub open spec fn selchk(s: F) -> F { fmul(s, fadd(fmul(fneg(f1()), s), f1())) }
pub proof fn selchk_01(s: F) ensures selchk(s) == f0() <==> s == f0() || s == f1() { broadcast use funits, fhom; let w = fadd(fmul(fneg(f1()), s), f1()); fmul_eq0(s, w); let x = frep(s); assert(fmul(fneg(f1()), s) == fk(-x)) by { assert(-1 * x == -x); } assert(w == fk(-x + 1)); assert(w == fsub(f1(), s)); if w == f0() { assert(fadd(w, s) == s); assert(fadd(w, s) == fk((-x + 1) + x)); } }
/// what SelectorValidIOP::prove records
pub open spec fn selvalid_p(a: ProverTracker, b: ProverTracker, s: TrackedPoly) -> bool { let z = tid(a.id_counter + 3); p_zclaim(a, b, 4, z) && pt_nv(b, z) == s.num_vars
    && (forall|c: int| 0 <= c < p2(s.num_vars as int) ==> #[trigger] pt_val(b, z, at_bool(c)) == selchk(pt_val(a, s.id, at_bool(c)))) && (forall|x: Seq<F>| x.len() == s.num_vars ==> #[trigger] pt_val(b, z, at_point(x)) == selchk(pt_val(a, s.id, at_point(x)))) }
//@fn src/zksql_poly_iop/selector_valid/selector_valid.rs::SelectorValidIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 4), hp(*old(zk_tr), *selector), selector.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok(), selvalid_p(*old(zk_tr), *final(zk_tr), *selector),
        // satisfied exactly by selectors that are 0 or 1 everywhere
        (forall|c: int| 0 <= c < p2(selector.num_vars as int) ==> #[trigger] pt_val(*final(zk_tr), tid(old(zk_tr).id_counter + 3), at_bool(c)) == f0()) <==> (forall|c: int| 0 <= c < p2(selector.num_vars as int) ==> #[trigger] pt_val(*old(zk_tr), selector.id, at_bool(c)) == f0() || pt_val(*old(zk_tr), selector.id, at_bool(c)) == f1()),
//@@ entry
    let ghost a = *zk_tr; let ghost n = a.id_counter as int;
//@@ tail
    proof { let f = *zk_tr; assert(check_poly.id == tid(n + 3)); assert(selvalid_p(a, f, *selector));
        let m = p2(selector.num_vars as int);
        if forall|c: int| 0 <= c < m ==> #[trigger] pt_val(f, tid(n + 3), at_bool(c)) == f0() { assert forall|c: int| 0 <= c < m implies #[trigger] pt_val(a, selector.id, at_bool(c)) == f0() || pt_val(a, selector.id, at_bool(c)) == f1() by { assert(pt_val(f, tid(n + 3), at_bool(c)) == f0()); selchk_01(pt_val(a, selector.id, at_bool(c))); } }
        if forall|c: int| 0 <= c < m ==> #[trigger] pt_val(a, selector.id, at_bool(c)) == f0() || pt_val(a, selector.id, at_bool(c)) == f1() { assert forall|c: int| 0 <= c < m implies #[trigger] pt_val(f, tid(n + 3), at_bool(c)) == f0() by { let y = pt_val(a, selector.id, at_bool(c)); selchk_01(y); } } }
//@end
/// value * selector * inverse - selector
pub open spec fn nzchk(p: F, s: F, i: F) -> F { fsub(fmul(fmul(p, s), i), s) }
pub proof fn nzchk_zero(p: F, s: F, i: F) ensures nzchk(p, s, i) == f0() && s != f0() ==> p != f0(), (p != f0() || s == f0()) ==> nzchk(p, s, finv0(p)) == f0() {
    broadcast use funits, fmul_comm;
    if s != f0() && p == f0() { if nzchk(p, s, i) == f0() { assert(fsub(f0(), s) == f0()); broadcast use fhom; let x = frep(s); assert(fadd(fsub(f0(), s), s) == f0()) by { assert((0 - x) + x == 0); } } }
    if p != f0() { ax_finv(p); fmul_assoc(p, s, finv(p)); fmul_assoc(s, p, finv(p)); fmul_assoc(p, finv(p), s); assert(fmul(fmul(p, s), finv(p)) == s) by { assert(fmul(p, s) == fmul(s, p)); } }
}
pub fn batch_inversion(v: &mut Vec<F>) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == finv0(old(v)@[i]) { let s = v.as_mut_slice(); ark_ff::fields::batch_inversion(s); }
/// what BagNoZerosIOP::prove commits to and records
pub open spec fn nozero_pd(a: ProverTracker, b: ProverTracker, bag: Bag, d: DenseMultilinearExtension) -> bool {
    let n = a.id_counter as int; let z = tid(n + 3); let c = pcs_com(a.pcs_param, d);
    &&& pt_wf(b) && pt_kept(a, b) && b.id_counter == n + 4 && pt_has(b, z) && pt_nv(b, z) == bag.poly.num_vars && b.zero_check_claims@ == a.zero_check_claims@.push(TrackerZerocheckClaim { label: z }) && b.sum_check_claims@ == a.sum_check_claims@ && b.pcs_param == a.pcs_param
    &&& b.materialized_comms@ == a.materialized_comms@.insert(tid(n), c) && ilog(b.transcript) == ilog(a.transcript).push(TEv::Msg("comm"@, ser_comm(c))) && !b.transcript.is_empty
    &&& forall|t: TVal| #[trigger] pt_val(b, z, t) == nzchk(pt_val(a, bag.poly.id, t), pt_val(a, bag.selector.id, t), t(d))
}
pub open spec fn is_inv(a: ProverTracker, f: TrackedPoly, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == f.num_vars && forall|b: int| 0 <= b < p2(f.num_vars as int) ==> #[trigger] d.evaluations@[b] == finv0(pb(a, f.id, b)) }
pub open spec fn nozero_p(a: ProverTracker, b: ProverTracker, bag: Bag) -> bool { exists|d: DenseMultilinearExtension| is_inv(a, bag.poly, d) && #[trigger] nozero_pd(a, b, bag, d) }
//@fn src/zksql_poly_iop/bag_no_zeros/mod.rs::BagNoZerosIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 4), bagp(*old(zk_tr), *bag, old(prover_tracker).tracker_rc.who),
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> pcs_fits(old(zk_tr).pcs_param, bag.poly.num_vars as int), ret.is_ok() ==> nozero_p(*old(zk_tr), *final(zk_tr), *bag),
        // honest claims vanish when no selected value is zero, whatever the unselected values are
        ret.is_ok() && (forall|c: int| 0 <= c < p2(bag.poly.num_vars as int) ==> #[trigger] pt_val(*old(zk_tr), bag.selector.id, at_bool(c)) == f0() || pt_val(*old(zk_tr), bag.poly.id, at_bool(c)) != f0()) ==> (forall|c: int| 0 <= c < p2(bag.poly.num_vars as int) ==> #[trigger] pt_val(*final(zk_tr), tid(old(zk_tr).id_counter + 3), at_bool(c)) == f0()),
        // and cannot all vanish otherwise
        ret.is_ok() && (forall|c: int| 0 <= c < p2(bag.poly.num_vars as int) ==> #[trigger] pt_val(*final(zk_tr), tid(old(zk_tr).id_counter + 3), at_bool(c)) == f0()) ==> (forall|c: int| 0 <= c < p2(bag.poly.num_vars as int) ==> #[trigger] pt_val(*old(zk_tr), bag.selector.id, at_bool(c)) == f0() || pt_val(*old(zk_tr), bag.poly.id, at_bool(c)) != f0()),
//@@ entry
    let ghost a = *zk_tr; let ghost n = a.id_counter as int; proof { pt_nv_small(a, bag.poly.id); }
//@@ after-call track_and_commit_poly
    let ghost d = inverses_mle;
//@@ tail
    proof { if zk_ret.is_ok() { let f = *zk_tr; assert(no_dups_check_poly.id == tid(n + 3)); assert(is_inv(a, bag.poly, d));
        assert forall|t: TVal| #[trigger] pt_val(f, tid(n + 3), t) == nzchk(pt_val(a, bag.poly.id, t), pt_val(a, bag.selector.id, t), t(d)) by { }
        assert(nozero_pd(a, f, *bag, d));
        let m = p2(bag.poly.num_vars as int); let z = tid(n + 3);
        assert forall|c: int| 0 <= c < m implies #[trigger] pt_val(f, z, at_bool(c)) == nzchk(pt_val(a, bag.poly.id, at_bool(c)), pt_val(a, bag.selector.id, at_bool(c)), finv0(pt_val(a, bag.poly.id, at_bool(c)))) by { assert(d.evaluations@[c] == finv0(pb(a, bag.poly.id, c))); }
        assert forall|c: int| 0 <= c < m && (pt_val(a, bag.selector.id, at_bool(c)) == f0() || pt_val(a, bag.poly.id, at_bool(c)) != f0()) implies #[trigger] pt_val(f, z, at_bool(c)) == f0() by { let y = pt_val(a, bag.poly.id, at_bool(c)); nzchk_zero(y, pt_val(a, bag.selector.id, at_bool(c)), finv0(y)); }
        assert forall|c: int| 0 <= c < m && pt_val(f, z, at_bool(c)) == f0() implies (#[trigger] pt_val(a, bag.selector.id, at_bool(c)) == f0() || pt_val(a, bag.poly.id, at_bool(c)) != f0()) by { let y = pt_val(a, bag.poly.id, at_bool(c)); nzchk_zero(y, pt_val(a, bag.selector.id, at_bool(c)), finv0(y)); }
    } }
//@end
/// a table of ones under handle h
pub open spec fn p_one(p: ProverTracker, h: TrackedPoly, nv: int) -> bool { hp(p, h) && h.num_vars == nv && (forall|b: int| 0 <= b < p2(nv) ==> #[trigger] pt_val(p, h.id, at_bool(b)) == f1()) }
pub open spec fn short<T>(s: Seq<T>) -> bool { (s.len() == 1 ==> s == seq![s[0]]) && (s.len() == 2 ==> s == seq![s[0], s[1]]) && (s.len() == 3 ==> s == seq![s[0], s[1], s[2]]) }
pub proof fn short_all<T>(s: Seq<T>) ensures short(s) { if s.len() == 1 { assert(s =~= seq![s[0]]); } if s.len() == 2 { assert(s =~= seq![s[0], s[1]]); } if s.len() == 3 { assert(s =~= seq![s[0], s[1], s[2]]); } }
/// short lists are their elements
pub broadcast proof fn mt_p_short(a: ProverTracker, b: ProverTracker, fxs: Seq<Bag>, gxs: Seq<Bag>, mf: Seq<TrackedPoly>, mg: Seq<TrackedPoly>) ensures #[trigger] mt_p(a, b, fxs, gxs, mf, mg) ==> short(fxs) && short(gxs) && short(mf) && short(mg) { short_all(fxs); short_all(gxs); short_all(mf); short_all(mg); }
/// k handles were issued without touching log, claims or commitments
pub open spec fn p_more(a: ProverTracker, b: ProverTracker, k: int) -> bool { pt_wf(b) && pt_kept(a, b) && pt_same_log(a, b) && b.id_counter == a.id_counter + k }
pub open spec fn bagsum_mid(a: ProverTracker, b: ProverTracker, f0: Bag, f1: Bag, g: Bag, c: ProverTracker, m0: TrackedPoly, m1: TrackedPoly, m2: TrackedPoly) -> bool { p_more(a, c, 3) && p_one(c, m0, f0.poly.num_vars as int) && p_one(c, m1, f1.poly.num_vars as int) && p_one(c, m2, g.poly.num_vars as int) && mt_p(c, b, seq![f0, f1], seq![g], seq![m0, m1], seq![m2]) }
/// the multiset gadget with every multiplicity one, two bags against one
pub open spec fn bagsum_p(a: ProverTracker, b: ProverTracker, f0: Bag, f1: Bag, g: Bag) -> bool { exists|c: ProverTracker, m0: TrackedPoly, m1: TrackedPoly, m2: TrackedPoly| #[trigger] bagsum_mid(a, b, f0, f1, g, c, m0, m1, m2) }
//@fn src/zksql_poly_iop/bag_sum/bag_sum.rs::BagSumIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 27), bagp(*old(zk_tr), *fx0, old(tracker).tracker_rc.who), bagp(*old(zk_tr), *fx1, old(tracker).tracker_rc.who), bagp(*old(zk_tr), *gx, old(tracker).tracker_rc.who),
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() <==> !old(zk_tr).transcript.is_empty && pcs_fits(old(zk_tr).pcs_param, fx0.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, fx1.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, gx.poly.num_vars as int),
        ret.is_ok() ==> bagsum_p(*old(zk_tr), *final(zk_tr), *fx0, *fx1, *gx),
        ret.is_ok() ==> pt_wf(*final(zk_tr)) && pt_kept(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 27 && final(zk_tr).pcs_param == old(zk_tr).pcs_param && !final(zk_tr).transcript.is_empty,
//@@ entry
    broadcast use ipow_p2, mt_p_short;
    let ghost a = *zk_tr; proof { pt_nv_small(a, fx0.poly.id); pt_nv_small(a, fx1.poly.id); pt_nv_small(a, gx.poly.id); p2_64(); p2_pos(fx0.poly.num_vars as int); p2_pos(fx1.poly.num_vars as int); p2_pos(gx.poly.num_vars as int); p2_mono(fx0.poly.num_vars as int, 62); p2_mono(fx1.poly.num_vars as int, 62); p2_mono(gx.poly.num_vars as int, 62); }
//@@ after-let mgxs
    let ghost c = *zk_tr; proof { assert(p_one(c, mfxs@[0], fx0.poly.num_vars as int)); assert(p_one(c, mfxs@[1], fx1.poly.num_vars as int)); assert(p_one(c, mgxs@[0], gx.poly.num_vars as int));
        assert(mfxs@ =~= seq![mfxs@[0], mfxs@[1]]); assert(mgxs@ =~= seq![mgxs@[0]]); let fs = seq![*fx0, *fx1]; let gs = seq![*gx]; assert(fs[0] == *fx0); assert(fs[1] == *fx1); assert(gs[0] == *gx); }
//@@ pretail
    proof { assert(bagsum_mid(a, *zk_tr, *fx0, *fx1, *gx, c, mfxs@[0], mfxs@[1], mgxs@[0])); }
//@end
pub open spec fn bageq_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, c: ProverTracker, m: TrackedPoly) -> bool { p_more(a, c, 1) && p_one(c, m, f.poly.num_vars as int) && mt_p(c, b, seq![f], seq![g], seq![m], seq![m]) }
pub open spec fn bageq_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag) -> bool { exists|c: ProverTracker, m: TrackedPoly| #[trigger] bageq_mid(a, b, f, g, c, m) }
//@fn src/zksql_poly_iop/bag_eq/bag_eq.rs::BagEqIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 17), bagp(*old(zk_tr), *fx, old(tracker).tracker_rc.who), bagp(*old(zk_tr), *gx, old(tracker).tracker_rc.who),
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() <==> fx.poly.num_vars == gx.poly.num_vars && !old(zk_tr).transcript.is_empty && pcs_fits(old(zk_tr).pcs_param, fx.poly.num_vars as int),
        ret.is_ok() ==> bageq_p(*old(zk_tr), *final(zk_tr), *fx, *gx),
        ret.is_ok() ==> pt_wf(*final(zk_tr)) && pt_kept(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 17 && final(zk_tr).pcs_param == old(zk_tr).pcs_param && !final(zk_tr).transcript.is_empty,
//@@ entry
    broadcast use ipow_p2, mt_p_short;
    let ghost a = *zk_tr; proof { pt_nv_small(a, fx.poly.id); p2_64(); p2_pos(fx.poly.num_vars as int); p2_mono(fx.poly.num_vars as int, 62); }
//@@ after-let mx
    let ghost c = *zk_tr; proof { assert(p_one(c, mx, fx.poly.num_vars as int)); let fs = seq![*fx]; let gs = seq![*gx]; assert(fs[0] == *fx); assert(gs[0] == *gx); }
//@@ pretail
    proof { assert(bageq_mid(a, *zk_tr, *fx, *gx, c, mx)); }
//@end
