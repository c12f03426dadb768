// ---- prover side of bag_disjoint ----
pub struct BagDisjointIOP { }
//@threaded BagDisjointIOP::prove_with_advice BagDisjointIOP::prove
/// a zero claim about the product of two polynomials
pub open spec fn prodz_p(a: ProverTracker, b: ProverTracker, m: TrackedPoly, w: TrackedPoly) -> bool { let z = tid(a.id_counter as int); p_zclaim(a, b, 1, z) && pt_nv(b, z) == m.num_vars && forall|t: TVal| #[trigger] pt_val(b, z, t) == fmul(pt_val(a, m.id, t), pt_val(a, w.id, t)) }
pub open spec fn disj_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, u: Bag, ma: TrackedPoly, mb: TrackedPoly, r: Bag, c1: ProverTracker, c2: ProverTracker, c3: ProverTracker) -> bool { sort_p(a, c1, u, r) && prodz_p(c1, c2, ma, mb) && incl_p(c2, c3, f, u, ma) && incl_p(c3, b, g, u, mb) }
/// the union is strictly sorted, no value is counted on both sides, and either side is included in the union
pub open spec fn disj_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, u: Bag, ma: TrackedPoly, mb: TrackedPoly, r: Bag) -> bool { exists|c1: ProverTracker, c2: ProverTracker, c3: ProverTracker| #[trigger] disj_mid(a, b, f, g, u, ma, mb, r, c1, c2, c3) }
pub open spec fn disj_fits(a: ProverTracker, f: Bag, g: Bag, n: int, r: Bag) -> bool { pcs_fits(a.pcs_param, f.poly.num_vars as int) && pcs_fits(a.pcs_param, g.poly.num_vars as int) && pcs_fits(a.pcs_param, n) && pcs_fits(a.pcs_param, r.poly.num_vars as int) }
//@fn src/zksql_poly_iop/bag_disjoint/bag_disjoint.rs::BagDisjointIOP::prove_with_advice | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 94), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_c, old(prover_tracker).tracker_rc.who),
        hp(*old(zk_tr), *m_a), m_a.tracker.who == old(prover_tracker).tracker_rc.who, hp(*old(zk_tr), *m_b), m_b.tracker.who == old(prover_tracker).tracker_rc.who, m_a.num_vars == m_b.num_vars, hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> bag_c.poly.num_vars == m_a.num_vars && disj_fits(*old(zk_tr), *bag_a, *bag_b, bag_c.poly.num_vars as int, *range_bag),
        ret.is_ok() ==> disj_p(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *bag_c, *m_a, *m_b, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 94),
        ret.is_ok() ==> forall|t: TVal| #[trigger] pt_val(*final(zk_tr), tid(old(zk_tr).id_counter + 59), t) == fmul(pt_val(*old(zk_tr), m_a.id, t), pt_val(*old(zk_tr), m_b.id, t)),
//@@ entry
    let ghost a = *zk_tr;
//@@ after-call prove
    let ghost c1 = *zk_tr;
//@@ after-call add_zerocheck_claim
    let ghost c2 = *zk_tr; proof { assert(m_mul.id == tid(c1.id_counter as int)); assert(prodz_p(c1, c2, *m_a, *m_b)); }
//@@ after-call prove_with_advice
    let ghost c3 = *zk_tr;
//@@ pretail
    proof { assert(disj_mid(a, *zk_tr, *bag_a, *bag_b, *bag_c, *m_a, *m_b, *range_bag, c1, c2, c3)); }
//@end
pub open spec fn disjp_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, r: Bag, c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, c4: ProverTracker, d: DenseMultilinearExtension, s: DenseMultilinearExtension, da: DenseMultilinearExtension, db: DenseMultilinearExtension, u: Bag, ma: TrackedPoly, mb: TrackedPoly) -> bool {
    is_disj_advp(a, f, g, d, s, da, db) && p_commit(a, c1, u.poly, d) && p_commit(c1, c2, u.selector, s) && p_commit(c2, c3, ma, da) && p_commit(c3, c4, mb, db) && disj_p(c4, b, f, g, u, ma, mb, r)
}
/// union, its selector and both counts are committed, then disjointness proved with them
pub open spec fn disjp(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, r: Bag) -> bool { exists|c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, c4: ProverTracker, d: DenseMultilinearExtension, s: DenseMultilinearExtension, da: DenseMultilinearExtension, db: DenseMultilinearExtension, u: Bag, ma: TrackedPoly, mb: TrackedPoly| #[trigger] disjp_mid(a, b, f, g, r, c1, c2, c3, c4, d, s, da, db, u, ma, mb) }
/// small counts are zero in the field only when zero
pub proof fn fk_small(c: int) requires 0 <= c < 0x1_0000_0000_0000_0000 ensures fk(c) == f0() <==> c == 0 { reveal(f0); ax_fk(0); ax_fk(c); ax_fp(); lemma_small_mod(c as nat, fp() as nat); lemma_small_mod(0, fp() as nat); }
pub open spec fn none_shared(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>) -> bool { forall|v: F| #[trigger] mcount(ap, sa, v, ap.len() as int) == 0 || mcount(bp, sb, v, bp.len() as int) == 0 }
/// the product of the honest counts vanishes exactly when no selected value is shared
pub proof fn disj_zero(u: Seq<F>, nv: int, ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, d: DenseMultilinearExtension, s: DenseMultilinearExtension, ma: DenseMultilinearExtension, mb: DenseMultilinearExtension)
    requires is_disj(u, nv, ap, sa, bp, sb, d, s, ma, mb), ap.len() < 0x1_0000_0000_0000_0000, bp.len() < 0x1_0000_0000_0000_0000
    ensures (forall|i: int| 0 <= i < p2(nv) ==> fmul(#[trigger] ma.evaluations@[i], mb.evaluations@[i]) == f0()) <==> none_shared(ap, sa, bp, sb)
{
    let n = p2(nv); let k = n - u.len();
    assert forall|i: int| k <= i < n implies (fmul(#[trigger] ma.evaluations@[i], mb.evaluations@[i]) == f0() <==> mcount(ap, sa, u[i - k], ap.len() as int) == 0 || mcount(bp, sb, u[i - k], bp.len() as int) == 0) by {
        let v = u[i - k]; assert(d.evaluations@[i] == at_end(u, n, i)); fmul_eq0(ma.evaluations@[i], mb.evaluations@[i]);
        mcount_le(ap, sa, v, ap.len() as int); mcount_le(bp, sb, v, bp.len() as int); fk_small(mcount(ap, sa, v, ap.len() as int)); fk_small(mcount(bp, sb, v, bp.len() as int));
    }
    assert forall|i: int| 0 <= i < k implies fmul(#[trigger] ma.evaluations@[i], mb.evaluations@[i]) == f0() by { assert(d.evaluations@[i] == f0()); fmul_eq0(ma.evaluations@[i], mb.evaluations@[i]); }
    if forall|i: int| 0 <= i < n ==> fmul(#[trigger] ma.evaluations@[i], mb.evaluations@[i]) == f0() {
        assert forall|v: F| #[trigger] mcount(ap, sa, v, ap.len() as int) == 0 || mcount(bp, sb, v, bp.len() as int) == 0 by {
            mcount_le(ap, sa, v, ap.len() as int); mcount_le(bp, sb, v, bp.len() as int);
            if mcount(ap, sa, v, ap.len() as int) > 0 { assert(u.contains(v)); let j = choose|j: int| 0 <= j < u.len() && u[j] == v; assert(fmul(ma.evaluations@[j + k], mb.evaluations@[j + k]) == f0()); }
        }
    } else if none_shared(ap, sa, bp, sb) {
        let i = choose|i: int| 0 <= i < n && fmul(#[trigger] ma.evaluations@[i], mb.evaluations@[i]) != f0();
        assert(mcount(ap, sa, u[i - k], ap.len() as int) == 0 || mcount(bp, sb, u[i - k], bp.len() as int) == 0);
        assert(false);
    }
}
//@fn src/zksql_poly_iop/bag_disjoint/bag_disjoint.rs::BagDisjointIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 98), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who), bag_a.poly.num_vars < 62, bag_b.poly.num_vars < 62, hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> disj_fits(*old(zk_tr), *bag_a, *bag_b, max2(bag_a.poly.num_vars as int, bag_b.poly.num_vars as int) + 1, *range_bag),
        ret.is_ok() ==> disjp(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 98),
        // the recorded product claim is satisfiable exactly when no selected value is shared
        ret.is_ok() ==> ((forall|i: int| 0 <= i < p2(max2(bag_a.poly.num_vars as int, bag_b.poly.num_vars as int) + 1) ==> #[trigger] pt_val(*final(zk_tr), tid(old(zk_tr).id_counter + 63), at_bool(i)) == f0()) <==> none_shared(pvec(*old(zk_tr), bag_a.poly), pvec(*old(zk_tr), bag_a.selector), pvec(*old(zk_tr), bag_b.poly), pvec(*old(zk_tr), bag_b.selector))),
//@@ entry
    let ghost a = *zk_tr; proof { p2_64(); pt_nv_small(a, bag_a.poly.id); pt_nv_small(a, bag_b.poly.id); p2_mono(bag_a.poly.num_vars as int, 62); p2_mono(bag_b.poly.num_vars as int, 62); }
//@@ after-let sum_poly
    let ghost c1 = *zk_tr; let ghost d = sum_mle; let ghost s = sum_sel_mle; let ghost da = sum_a_mult_mle; let ghost db = sum_b_mult_mle;
    proof { assert(p_commit(a, c1, sum_poly, d)); }
//@@ after-let sum_sel_poly
    let ghost c2 = *zk_tr; proof { assert(p_commit(c1, c2, sum_sel_poly, s)); }
//@@ after-let sum_a_mult_poly
    let ghost c3 = *zk_tr; proof { assert(p_commit(c2, c3, sum_a_mult_poly, da)); }
//@@ after-let sum_b_mult_poly
    let ghost c4 = *zk_tr; proof { assert(p_commit(c3, c4, sum_b_mult_poly, db)); }
//@@ pretail
    proof {
        let f = *zk_tr; let ap = pvec(a, bag_a.poly); let sa = pvec(a, bag_a.selector); let bp = pvec(a, bag_b.poly); let sb = pvec(a, bag_b.selector); let nv = max2(bag_a.poly.num_vars as int, bag_b.poly.num_vars as int) + 1; let z = tid(a.id_counter + 63);
        let u = choose|u: Seq<F>| #[trigger] is_disj(u, nv, ap, sa, bp, sb, d, s, da, db);
        disj_zero(u, nv, ap, sa, bp, sb, d, s, da, db);
        assert forall|i: int| 0 <= i < p2(nv) implies #[trigger] pt_val(f, z, at_bool(i)) == fmul(da.evaluations@[i], db.evaluations@[i]) by {
            assert(pt_val(c4, sum_a_mult_poly.id, at_bool(i)) == at_bool(i)(da)); assert(pt_val(c4, sum_b_mult_poly.id, at_bool(i)) == at_bool(i)(db)); assert(pt_val(f, tid(c4.id_counter + 59), at_bool(i)) == fmul(pt_val(c4, sum_a_mult_poly.id, at_bool(i)), pt_val(c4, sum_b_mult_poly.id, at_bool(i)))); assert(c4.id_counter + 59 == a.id_counter + 63); assert(at_bool(i)(da) == da.evaluations@[i]); assert(at_bool(i)(db) == db.evaluations@[i]);
        }
        if forall|i: int| 0 <= i < p2(nv) ==> #[trigger] pt_val(f, z, at_bool(i)) == f0() { assert forall|i: int| 0 <= i < p2(nv) implies fmul(#[trigger] da.evaluations@[i], db.evaluations@[i]) == f0() by { assert(pt_val(f, z, at_bool(i)) == f0()); } }
        assert(disjp_mid(a, *zk_tr, *bag_a, *bag_b, *range_bag, c1, c2, c3, c4, d, s, da, db, bag_c, sum_a_mult_poly, sum_b_mult_poly)); }
//@end
