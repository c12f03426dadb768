// ---- prover side of the multiset gadget: src/zksql_poly_iop/bag_multitool ----
//@threaded BagMultitoolIOP::prove Self::prove_generate_subclaims BagMultitoolIOP::prove_generate_subclaims
pub struct BagMultitoolIOP { }
/// value of a handle at a corner of the hypercube
pub open spec fn pb(p: ProverTracker, id: TrackerID, b: int) -> F { pt_val(p, id, at_bool(b)) }
pub open spec fn finv0(x: F) -> F { if x == f0() { f0() } else { finv(x) } }
pub mod ark_ff { pub mod fields { use super::super::*;
/// ark_ff::fields::batch_inversion: zeros are left alone
#[verifier::external_body] pub fn batch_inversion(v: &mut [F]) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == finv0(old(v)@[i]) { unimplemented!() }
} }
/// the table of inverses the gadget commits to
pub open spec fn is_phat(a: ProverTracker, f: TrackedPoly, g: F, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == f.num_vars && forall|b: int| 0 <= b < p2(f.num_vars as int) ==> #[trigger] d.evaluations@[b] == finv0(fsub(pb(a, f.id, b), g)) }
/// inverse times multiplicity times selector at a corner, and its sum: the rational sum of the selected multiset
pub open spec fn rs_term(a: ProverTracker, f: TrackerID, m: TrackerID, s: TrackerID, g: F) -> spec_fn(int) -> F { |b: int| fmul(fmul(finv0(fsub(pb(a, f, b), g)), pb(a, m, b)), pb(a, s, b)) }
pub open spec fn ratsum(a: ProverTracker, bag: Bag, m: TrackedPoly, g: F) -> F { fsum(p2(bag.poly.num_vars as int), rs_term(a, bag.poly.id, m.id, bag.selector.id, g)) }
/// the handles one round uses: the inverse table, the summand, the check
pub open spec fn tid(n: int) -> TrackerID { TrackerID(n as usize) }
/// what one bag adds, given the committed table d
pub open spec fn mt1d(a: ProverTracker, b: ProverTracker, bag: Bag, m: TrackedPoly, g: F, d: DenseMultilinearExtension) -> bool {
    let n = a.id_counter as int;
    &&& pt_wf(b) && pt_kept(a, b) && b.id_counter == n + 8 && b.pcs_param == a.pcs_param && !b.transcript.is_empty
    &&& b.materialized_comms@ == a.materialized_comms@.insert(tid(n), pcs_com(a.pcs_param, d)) && ilog(b.transcript) == ilog(a.transcript).push(TEv::Msg("comm"@, ser_comm(pcs_com(a.pcs_param, d))))
    // claimed: the rational sum, of inverse times multiplicity times selector
    &&& b.sum_check_claims@ == a.sum_check_claims@.push(TrackerSumcheckClaim { label: tid(n + 2), claimed_sum: ratsum(a, bag, m, g) })
    &&& pt_has(b, tid(n)) && pt_has(b, tid(n + 2)) && pt_has(b, tid(n + 7)) && pt_nv(b, tid(n + 2)) == bag.poly.num_vars && pt_nv(b, tid(n + 7)) == bag.poly.num_vars
    &&& forall|t: TVal| #[trigger] pt_val(b, tid(n + 2), t) == fmul(fmul(t(d), pt_val(a, m.id, t)), pt_val(a, bag.selector.id, t))
    // claimed: value times inverse minus challenge times inverse minus one vanishes
    &&& b.zero_check_claims@ == a.zero_check_claims@.push(TrackerZerocheckClaim { label: tid(n + 7) })
    &&& forall|c: int| 0 <= c < p2(bag.poly.num_vars as int) ==> #[trigger] pt_val(b, tid(n + 7), at_bool(c)) == fadd(fsub(fmul(pt_val(a, bag.poly.id, at_bool(c)), d.evaluations@[c]), fmul(g, d.evaluations@[c])), fneg(f1()))
    &&& forall|x: Seq<F>| x.len() == bag.poly.num_vars ==> #[trigger] pt_val(b, tid(n + 7), at_point(x)) == fadd(fsub(fmul(pt_val(a, bag.poly.id, at_point(x)), mlev(d.evaluations@, x)), fmul(g, mlev(d.evaluations@, x))), fneg(f1()))
}
pub open spec fn mt1(a: ProverTracker, b: ProverTracker, bag: Bag, m: TrackedPoly, g: F) -> bool { exists|d: DenseMultilinearExtension| is_phat(a, bag.poly, g, d) && #[trigger] mt1d(a, b, bag, m, g, d) }
pub open spec fn p_mid(c: ProverTracker) -> bool { true }
/// a sequence of bags, one after the other
pub open spec fn mtk(a: ProverTracker, b: ProverTracker, bags: Seq<Bag>, ms: Seq<TrackedPoly>, g: F, k: int) -> bool decreases k { if k <= 0 { b == a } else { exists|c: ProverTracker| #[trigger] p_mid(c) && mtk(a, c, bags, ms, g, k - 1) && mt1(c, b, bags[k - 1], ms[k - 1], g) } }
//@fn src/zksql_poly_iop/bag_multitool/bag_multitool.rs::BagMultitoolIOP::prove_generate_subclaims | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 8), bagp(*old(zk_tr), bag, old(tracker).tracker_rc.who), hp(*old(zk_tr), m), m.num_vars == bag.poly.num_vars, m.tracker.who == old(tracker).tracker_rc.who,
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() <==> pcs_fits(old(zk_tr).pcs_param, bag.poly.num_vars as int), ret.is_err() ==> p_still(*old(zk_tr), *final(zk_tr)) && pt_same_log(*old(zk_tr), *final(zk_tr)),
        ret.is_ok() ==> mt1(*old(zk_tr), *final(zk_tr), bag, m, gamma),
//@@ entry
    broadcast use ipow_p2;
    let ghost a = *zk_tr; let ghost n = a.id_counter as int; let ghost s = bag.selector; let ghost pid = bag.poly.id; proof { p2_pos(bag.poly.num_vars as int); p2_64(); pt_nv_small(a, bag.poly.id); p2_mono(bag.poly.num_vars as int, 62); }
//@@ inv 0
            zk_n0 == p_evals@.len(), zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == fsub(pb(a, pid, j), gamma),
//@@ after-let phat_mle
    proof { assert(is_phat(a, p, gamma, phat_mle)); }
//@@ inv 1
            zk_n1 == p2(nv as int), v == fsum(zk_i1 as int, rs_term(a, p.id, m.id, s.id, gamma)),
//@@ start 1
        proof { assert(fsum(zk_i1 + 1, rs_term(a, p.id, m.id, s.id, gamma)) == fadd(fsum(zk_i1 as int, rs_term(a, p.id, m.id, s.id, gamma)), rs_term(a, p.id, m.id, s.id, gamma)(zk_i1 as int))); }
//@@ after-call track_and_commit_poly
    let ghost b = *zk_tr; let ghost d = phat_mle;
//@@ pretail
    proof {
        let f = *zk_tr;
        assert(phat.id == tid(n)); assert(sumcheck_challenge_poly.id == tid(n + 2)); assert(phat_check_poly.id == tid(n + 7));
        assert(pt_wf(f) && pt_kept(a, f));
        assert(f.sum_check_claims@ == a.sum_check_claims@.push(TrackerSumcheckClaim { label: tid(n + 2), claimed_sum: ratsum(a, bag, m, gamma) }));
        assert(pt_has(f, tid(n)) && pt_has(f, tid(n + 2)) && pt_has(f, tid(n + 7)) && pt_nv(f, tid(n + 2)) == nv && pt_nv(f, tid(n + 7)) == nv);
        assert forall|t: TVal| #[trigger] pt_val(f, tid(n + 2), t) == fmul(fmul(t(d), pt_val(a, m.id, t)), pt_val(a, s.id, t)) by { }
        assert forall|c: int| 0 <= c < p2(nv as int) implies #[trigger] pt_val(f, tid(n + 7), at_bool(c)) == fadd(fsub(fmul(pt_val(a, pid, at_bool(c)), d.evaluations@[c]), fmul(gamma, d.evaluations@[c])), fneg(f1())) by { }
        assert forall|x: Seq<F>| x.len() == nv implies #[trigger] pt_val(f, tid(n + 7), at_point(x)) == fadd(fsub(fmul(pt_val(a, pid, at_point(x)), mlev(d.evaluations@, x)), fmul(gamma, mlev(d.evaluations@, x))), fneg(f1())) by { }
        assert(mt1d(a, f, bag, m, gamma, d));
    }
//@end
pub proof fn mtk_kept(a: ProverTracker, b: ProverTracker, bags: Seq<Bag>, ms: Seq<TrackedPoly>, g: F, k: int) requires mtk(a, b, bags, ms, g, k), pt_wf(a), k >= 0 ensures pt_wf(b), pt_kept(a, b), b.id_counter == a.id_counter + 8 * k, b.pcs_param == a.pcs_param, !a.transcript.is_empty ==> !b.transcript.is_empty decreases k {
    if k > 0 { let c = choose|c: ProverTracker| #[trigger] p_mid(c) && mtk(a, c, bags, ms, g, k - 1) && mt1(c, b, bags[k - 1], ms[k - 1], g); mtk_kept(a, c, bags, ms, g, k - 1); let d = choose|d: DenseMultilinearExtension| is_phat(c, bags[k - 1].poly, g, d) && #[trigger] mt1d(c, b, bags[k - 1], ms[k - 1], g, d); assert(pt_kept(c, b)); }
}
/// a challenge is drawn and nothing else changes
pub open spec fn p_chal(a: ProverTracker, c: ProverTracker, label: Seq<char>) -> bool { c == (ProverTracker { transcript: c.transcript, ..a }) && !a.transcript.is_empty && !c.transcript.is_empty && ilog(c.transcript) == after_chal(ilog(a.transcript), label) && pt_wf(c) && pt_kept(a, c) }
pub open spec fn nv_match(bags: Seq<Bag>, ms: Seq<TrackedPoly>) -> bool { bags.len() > 0 && bags.len() == ms.len() && forall|i: int| 0 <= i < bags.len() ==> (#[trigger] bags[i]).poly.num_vars == ms[i].num_vars }
pub open spec fn fit_all(p: ProverTracker, bags: Seq<Bag>) -> bool { forall|i: int| 0 <= i < bags.len() ==> pcs_fits(p.pcs_param, (#[trigger] bags[i]).poly.num_vars as int) }
/// one challenge for all bags, then every bag of either side under it
pub open spec fn mt_p(a: ProverTracker, b: ProverTracker, fxs: Seq<Bag>, gxs: Seq<Bag>, mf: Seq<TrackedPoly>, mg: Seq<TrackedPoly>) -> bool {
    let g = chal(ilog(a.transcript), "gamma"@);
    pt_wf(b) && pt_kept(a, b) && b.id_counter == a.id_counter + 8 * fxs.len() + 8 * gxs.len() && b.pcs_param == a.pcs_param && !b.transcript.is_empty && exists|c: ProverTracker, d: ProverTracker| p_chal(a, c, "gamma"@) && #[trigger] mtk(c, d, fxs, mf, g, fxs.len() as int) && #[trigger] mtk(d, b, gxs, mg, g, gxs.len() as int)
}
pub open spec fn bags_ok(p: ProverTracker, bags: Seq<Bag>, ms: Seq<TrackedPoly>, who: u64) -> bool { (forall|i: int| 0 <= i < bags.len() ==> bagp(p, #[trigger] bags[i], who)) && (forall|i: int| 0 <= i < ms.len() ==> hp(p, #[trigger] ms[i]) && ms[i].tracker.who == who) }
pub open spec fn mt_good(a: ProverTracker, fxs: Seq<Bag>, gxs: Seq<Bag>, mf: Seq<TrackedPoly>, mg: Seq<TrackedPoly>) -> bool { nv_match(fxs, mf) && nv_match(gxs, mg) && !a.transcript.is_empty && fit_all(a, fxs) && fit_all(a, gxs) }
//@fn src/zksql_poly_iop/bag_multitool/bag_multitool.rs::BagMultitoolIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), (8 * fxs@.len() + 8 * gxs@.len()) as int), bags_ok(*old(zk_tr), fxs@, mfxs@, old(tracker).tracker_rc.who), bags_ok(*old(zk_tr), gxs@, mgxs@, old(tracker).tracker_rc.who),
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() <==> mt_good(*old(zk_tr), fxs@, gxs@, mfxs@, mgxs@),
        ret.is_ok() ==> mt_p(*old(zk_tr), *final(zk_tr), fxs@, gxs@, mfxs@, mgxs@),
//@@ entry
    let ghost a = *zk_tr; let ghost who = tracker.tracker_rc.who;
//@@ inv 0
            zk_n0 == fxs@.len(), fxs@.len() == mfxs@.len(), forall|j: int| 0 <= j < zk_i0 ==> (#[trigger] fxs@[j]).poly.num_vars == mfxs@[j].num_vars,
//@@ inv 1
            zk_n1 == gxs@.len(), gxs@.len() == mgxs@.len(), forall|j: int| 0 <= j < zk_i1 ==> (#[trigger] gxs@[j]).poly.num_vars == mgxs@[j].num_vars,
//@@ after-let gamma
    let ghost c = *zk_tr; proof { assert(p_chal(a, c, "gamma"@)); }
//@@ inv 2
            zk_n2 == fxs@.len(), *tracker == *old(tracker), mtk(c, *zk_tr, fxs@, mfxs@, gamma, zk_i2 as int), pt_wf(*zk_tr), pt_kept(c, *zk_tr), zk_tr.id_counter == c.id_counter + 8 * zk_i2, zk_tr.pcs_param == a.pcs_param, forall|j: int| 0 <= j < zk_i2 ==> pcs_fits(a.pcs_param, (#[trigger] fxs@[j]).poly.num_vars as int),
//@@ start 2
        let ghost e = *zk_tr; proof { let b0 = fxs@[zk_i2 as int]; assert(bagp(a, b0, who)); assert(bagp(c, b0, who)); assert(hp(a, mfxs@[zk_i2 as int])); }
//@@ end 2
        proof { assert(p_mid(e)); assert(mt1(e, *zk_tr, fxs@[zk_i2 - 1], mfxs@[zk_i2 - 1], gamma)); }
//@@ after 2
    let ghost d = *zk_tr; proof { mtk_kept(c, d, fxs@, mfxs@, gamma, fxs@.len() as int); }
//@@ inv 3
            zk_n3 == gxs@.len(), *tracker == *old(tracker), mtk(d, *zk_tr, gxs@, mgxs@, gamma, zk_i3 as int), pt_wf(*zk_tr), pt_kept(d, *zk_tr), zk_tr.id_counter == d.id_counter + 8 * zk_i3, zk_tr.pcs_param == a.pcs_param, forall|j: int| 0 <= j < zk_i3 ==> pcs_fits(a.pcs_param, (#[trigger] gxs@[j]).poly.num_vars as int),
//@@ start 3
        let ghost e = *zk_tr; proof { let b0 = gxs@[zk_i3 as int]; assert(bagp(a, b0, who)); assert(bagp(d, b0, who)); assert(hp(a, mgxs@[zk_i3 as int])); }
//@@ end 3
        proof { assert(p_mid(e)); assert(mt1(e, *zk_tr, gxs@[zk_i3 - 1], mgxs@[zk_i3 - 1], gamma)); }
//@@ tail
    proof { if zk_ret.is_ok() { mtk_kept(d, *zk_tr, gxs@, mgxs@, gamma, gxs@.len() as int); } }
//@end
