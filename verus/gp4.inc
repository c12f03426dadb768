// ---- prover side of bag_presc_perm ----
pub struct BagPrescPermIOP { }
//@threaded BagPrescPermIOP::prove
/// the table i -> i + g * value, and permutation + g * value
pub open spec fn is_fhat(a: ProverTracker, f: TrackedPoly, g: F, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == f.num_vars && forall|b: int| 0 <= b < p2(f.num_vars as int) ==> #[trigger] d.evaluations@[b] == fadd(fk(b), fmul(g, pb(a, f.id, b))) }
pub open spec fn is_ghat(a: ProverTracker, f: TrackedPoly, m: TrackedPoly, g: F, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == f.num_vars && forall|b: int| 0 <= b < p2(f.num_vars as int) ==> #[trigger] d.evaluations@[b] == fadd(pb(a, m.id, b), fmul(g, pb(a, f.id, b))) }
pub open spec fn is_ord(nv: int, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == nv && forall|b: int| 0 <= b < p2(nv) ==> #[trigger] d.evaluations@[b] == fk(b) }
/// what the permutation gadget does under challenge g, up to the multiset check
pub open spec fn presc_pre(a: ProverTracker, d: ProverTracker, fx: Bag, gx: Bag, perm: TrackedPoly, g: F, df: DenseMultilinearExtension, dg: DenseMultilinearExtension, od: DenseMultilinearExtension, f: Bag, h: Bag) -> bool {
    let n = a.id_counter as int; let nv = fx.poly.num_vars as int;
    &&& pt_wf(d) && pt_kept(a, d) && d.id_counter == n + 10 && d.pcs_param == a.pcs_param && !d.transcript.is_empty && d.sum_check_claims@ == a.sum_check_claims@ && d.zero_check_claims@ == a.zero_check_claims@
    &&& d.materialized_comms@ == a.materialized_comms@.insert(tid(n + 2), pcs_com(a.pcs_param, df)).insert(tid(n + 3), pcs_com(a.pcs_param, dg))
    &&& ilog(d.transcript) == after_chal(ilog(a.transcript), "gamma"@).push(TEv::Msg("comm"@, ser_comm(pcs_com(a.pcs_param, df)))).push(TEv::Msg("comm"@, ser_comm(pcs_com(a.pcs_param, dg))))
    &&& is_fhat(a, fx.poly, g, df) && is_ghat(a, gx.poly, perm, g, dg) && is_ord(nv, od)
    &&& f.poly.id == tid(n + 2) && h.poly.id == tid(n + 3) && f.poly.num_vars == nv && h.poly.num_vars == nv && p_one(d, f.selector, nv) && h.selector == f.selector && hp(d, f.poly) && hp(d, h.poly)
    &&& forall|t: TVal| #[trigger] pt_val(d, tid(n + 2), t) == t(df)
    &&& forall|t: TVal| #[trigger] pt_val(d, tid(n + 3), t) == t(dg)
    // the two checks: the tables are what they should be
    &&& pt_has(d, tid(n + 6)) && pt_nv(d, tid(n + 6)) == nv && forall|t: TVal| #[trigger] pt_val(d, tid(n + 6), t) == fsub(fadd(t(od), fmul(g, pt_val(a, fx.poly.id, t))), t(df))
    &&& pt_has(d, tid(n + 9)) && pt_nv(d, tid(n + 9)) == nv && forall|t: TVal| #[trigger] pt_val(d, tid(n + 9), t) == fsub(fadd(pt_val(a, perm.id, t), fmul(g, pt_val(a, gx.poly.id, t))), t(dg))
}
/// two more zero claims
pub open spec fn p_z2(e: ProverTracker, b: ProverTracker, x: TrackerID, y: TrackerID) -> bool { b == (ProverTracker { zero_check_claims: b.zero_check_claims, ..e }) && b.zero_check_claims@ == e.zero_check_claims@.push(TrackerZerocheckClaim { label: x }).push(TrackerZerocheckClaim { label: y }) }
pub open spec fn presc_mid(a: ProverTracker, b: ProverTracker, fx: Bag, gx: Bag, perm: TrackedPoly, d: ProverTracker, e: ProverTracker, df: DenseMultilinearExtension, dg: DenseMultilinearExtension, od: DenseMultilinearExtension, f: Bag, h: Bag) -> bool { presc_pre(a, d, fx, gx, perm, chal(ilog(a.transcript), "gamma"@), df, dg, od, f, h) && bageq_p(d, e, f, h) && p_z2(e, b, tid(a.id_counter + 6), tid(a.id_counter + 9)) }
pub open spec fn presc_p(a: ProverTracker, b: ProverTracker, fx: Bag, gx: Bag, perm: TrackedPoly) -> bool { exists|d: ProverTracker, e: ProverTracker, df: DenseMultilinearExtension, dg: DenseMultilinearExtension, od: DenseMultilinearExtension, f: Bag, h: Bag| #[trigger] presc_mid(a, b, fx, gx, perm, d, e, df, dg, od, f, h) }
/// more handles, everything kept
pub open spec fn p_grow(a: ProverTracker, b: ProverTracker, k: int) -> bool { pt_wf(b) && pt_kept(a, b) && b.id_counter == a.id_counter + k && b.pcs_param == a.pcs_param && !b.transcript.is_empty }
//@fn src/zksql_poly_iop/bag_presc_perm/bag_presc_perm.rs::BagPrescPermIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 27), bagp(*old(zk_tr), *fx, old(tracker).tracker_rc.who), bagp(*old(zk_tr), *gx, old(tracker).tracker_rc.who), hp(*old(zk_tr), *perm), perm.tracker.who == old(tracker).tracker_rc.who,
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() <==> fx.poly.num_vars == gx.poly.num_vars && fx.poly.num_vars == perm.num_vars && !old(zk_tr).transcript.is_empty && pcs_fits(old(zk_tr).pcs_param, fx.poly.num_vars as int),
        ret.is_ok() ==> presc_p(*old(zk_tr), *final(zk_tr), *fx, *gx, *perm) && p_grow(*old(zk_tr), *final(zk_tr), 27),
        // the honest tables satisfy both checks
        ret.is_ok() ==> forall|c: int| 0 <= c < p2(fx.poly.num_vars as int) ==> #[trigger] pt_val(*final(zk_tr), tid(old(zk_tr).id_counter + 6), at_bool(c)) == f0() && pt_val(*final(zk_tr), tid(old(zk_tr).id_counter + 9), at_bool(c)) == f0(),
//@@ entry
    broadcast use ipow_p2;
    let ghost a = *zk_tr; let ghost n = a.id_counter as int; proof { pt_nv_small(a, fx.poly.id); p2_64(); p2_pos(fx.poly.num_vars as int); p2_mono(fx.poly.num_vars as int, 62); }
//@@ inv 0
            zk_n0 == p2(nv as int), zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == fk(j),
//@@ after-let ordered_mle
    let ghost od = ordered_mle; proof { assert(is_ord(nv as int, od)); }
//@@ inv 1
            zk_n1 == p2(nv as int), zk_acc1@.len() == zk_i1, forall|j: int| 0 <= j < zk_i1 ==> #[trigger] zk_acc1@[j] == fadd(fk(j), fmul(gamma, pb(a, fx.poly.id, j))),
//@@ inv 2
            zk_n2 == p2(nv as int), zk_acc2@.len() == zk_i2, forall|j: int| 0 <= j < zk_i2 ==> #[trigger] zk_acc2@[j] == fadd(pb(a, perm.id, j), fmul(gamma, pb(a, gx.poly.id, j))),
//@@ after-let ghat_mle
    let ghost df = fhat_mle; let ghost dg = ghat_mle; proof { assert(is_fhat(a, fx.poly, gamma, df)); assert(is_ghat(a, gx.poly, *perm, gamma, dg)); }
//@@ after-let ghat_check_poly
    let ghost d = *zk_tr; proof {
        assert(fhat_check_poly.id == tid(n + 6)); assert(ghat_check_poly.id == tid(n + 9));
        assert(p_one(d, one_poly, nv as int));
        assert forall|t: TVal| #[trigger] pt_val(d, tid(n + 6), t) == fsub(fadd(t(od), fmul(gamma, pt_val(a, fx.poly.id, t))), t(df)) by { }
        assert forall|t: TVal| #[trigger] pt_val(d, tid(n + 9), t) == fsub(fadd(pt_val(a, perm.id, t), fmul(gamma, pt_val(a, gx.poly.id, t))), t(dg)) by { }
        assert(presc_pre(a, d, *fx, *gx, *perm, gamma, df, dg, od, fhat_bag, ghat_bag)); }
//@@ after-call prove
    let ghost e = *zk_tr; proof { assert(bageq_p(d, e, fhat_bag, ghat_bag)); }
//@@ pretail
    proof {
        assert(p_z2(e, *zk_tr, tid(n + 6), tid(n + 9)));
        assert(presc_mid(a, *zk_tr, *fx, *gx, *perm, d, e, df, dg, od, fhat_bag, ghat_bag));
        assert forall|c: int| 0 <= c < p2(nv as int) implies #[trigger] pt_val(*zk_tr, tid(n + 6), at_bool(c)) == f0() && pt_val(*zk_tr, tid(n + 9), at_bool(c)) == f0() by { fsub_self(df.evaluations@[c]); fsub_self(dg.evaluations@[c]); }
    }
//@end
