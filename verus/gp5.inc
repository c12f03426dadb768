// ---- prover side of bag_sort (strict) ----
pub struct BagStrictSortIOP { }
//@threaded BagStrictSortIOP::prove
/// i -> i + 1, with wraparound
pub open spec fn is_shift(nv: int, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == nv && (forall|b: int| 0 <= b < p2(nv) - 1 ==> #[trigger] d.evaluations@[b] == fk(b + 1)) && d.evaluations@[p2(nv) - 1] == f0() }
/// the values, moved left by one with wraparound
pub open spec fn is_left(v: Seq<F>, nv: int, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == nv && (forall|b: int| 0 <= b < p2(nv) - 1 ==> #[trigger] d.evaluations@[b] == v[b + 1]) && d.evaluations@[p2(nv) - 1] == v[0] }
/// one except at the last index
pub open spec fn is_most(nv: int, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == nv && (forall|b: int| 0 <= b < p2(nv) - 1 ==> #[trigger] d.evaluations@[b] == f1()) && d.evaluations@[p2(nv) - 1] == f0() }
pub open spec fn sort_pre(a: ProverTracker, c: ProverTracker, s: Bag, sh: DenseMultilinearExtension, q: DenseMultilinearExtension, one: TrackedPoly, hs: TrackedPoly, hq: TrackedPoly) -> bool {
    let n = a.id_counter as int; let nv = s.poly.num_vars as int;
    &&& p_grow(a, c, 3) && c.sum_check_claims@ == a.sum_check_claims@ && c.zero_check_claims@ == a.zero_check_claims@ && is_shift(nv, sh) && is_left(pvec(a, s.poly), nv, q)
    &&& c.materialized_comms@ == a.materialized_comms@.insert(tid(n + 2), pcs_com(a.pcs_param, q)) && ilog(c.transcript) == ilog(a.transcript).push(TEv::Msg("comm"@, ser_comm(pcs_com(a.pcs_param, q))))
    &&& p_one(c, one, nv) && hp(c, hs) && hs.num_vars == nv && hp(c, hq) && hq.num_vars == nv && hq.id == tid(n + 2)
    &&& forall|t: TVal| #[trigger] pt_val(c, hs.id, t) == t(sh)
    &&& forall|t: TVal| #[trigger] pt_val(c, hq.id, t) == t(q)
}
/// the table of differences to the next value, one at the end
pub open spec fn diff_at(v: Seq<F>, len: int, b: int) -> F { if b == len - 1 { f1() } else { fsub(v[b + 1], v[b]) } }
pub open spec fn sort_diff(a: ProverTracker, c: ProverTracker, e: ProverTracker, s: Bag, q: DenseMultilinearExtension, ms: DenseMultilinearExtension, d: Bag, rs: TrackedPoly, rnv: int) -> bool {
    let nv = s.poly.num_vars as int; let m = c.id_counter as int;
    &&& p_more(c, e, 7) && hp(e, d.poly) && hp(e, d.selector) && d.poly.num_vars == nv && d.selector.num_vars == nv && d.selector.id == tid(m) && d.poly.id == tid(m + 5) && p_one(e, rs, rnv) && is_most(nv, ms)
    &&& forall|t: TVal| #[trigger] pt_val(e, d.selector.id, t) == t(ms)
    &&& forall|b: int| 0 <= b < p2(nv) ==> #[trigger] pt_val(e, d.poly.id, at_bool(b)) == diff_at(pvec(a, s.poly), p2(nv), b)
    &&& forall|x: Seq<F>| x.len() == nv ==> #[trigger] pt_val(e, d.poly.id, at_point(x)) == fsub(fadd(fmul(mlev(ms.evaluations@, x), fsub(mlev(q.evaluations@, x), pt_val(a, s.poly.id, at_point(x)))), f1()), mlev(ms.evaluations@, x))
}
pub open spec fn sort_mid(a: ProverTracker, b: ProverTracker, s: Bag, r: Bag, c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, c4: ProverTracker, sh: DenseMultilinearExtension, q: DenseMultilinearExtension, ms: DenseMultilinearExtension, one: TrackedPoly, hs: TrackedPoly, hq: TrackedPoly, d: Bag, rs: TrackedPoly) -> bool {
    &&& sort_pre(a, c1, s, sh, q, one, hs, hq) && presc_p(c1, c2, s, Bag { poly: hq, selector: one }, hs) && sort_diff(a, c2, c3, s, q, ms, d, rs, r.poly.num_vars as int)
    &&& inclp(c3, c4, d, Bag { poly: r.poly, selector: rs }) && nozero_p(c4, b, Bag { poly: d.poly, selector: s.selector })
}
/// shifted copy by prescribed permutation; differences in the range; no selected difference is zero
pub open spec fn sort_p(a: ProverTracker, b: ProverTracker, s: Bag, r: Bag) -> bool { exists|c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, c4: ProverTracker, sh: DenseMultilinearExtension, q: DenseMultilinearExtension, ms: DenseMultilinearExtension, one: TrackedPoly, hs: TrackedPoly, hq: TrackedPoly, d: Bag, rs: TrackedPoly| #[trigger] sort_mid(a, b, s, r, c1, c2, c3, c4, sh, q, ms, one, hs, hq, d, rs) }
pub proof fn diff_step(p: Seq<F>, q: Seq<F>, s: Seq<F>, len: int, i: int)
    requires 0 <= i < len, p.len() == len, q.len() == len, s.len() == len, i < len - 1 ==> q[i] == p[i + 1] && s[i] == f1(), i == len - 1 ==> s[i] == f0(),
    ensures fadd(fmul(s[i], fsub(q[i], p[i])), fsub(f1(), s[i])) == diff_at(p, len, i),
        fsub(fadd(fmul(s[i], fsub(q[i], p[i])), f1()), s[i]) == diff_at(p, len, i),
{ broadcast use funits; fadd_fsub(fsub(q[i], p[i]), f1()); }
/// (x + y) - y == x
pub proof fn fadd_fsub(x: F, y: F) ensures fsub(fadd(x, y), y) == x { broadcast use fhom; let a = frep(x); let b = frep(y); assert(a + b - b == a); }
//@fn src/zksql_poly_iop/bag_sort/bag_sort.rs::BagStrictSortIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 59), bagp(*old(zk_tr), *sorted_bag, old(prover_tracker).tracker_rc.who), hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> pcs_fits(old(zk_tr).pcs_param, sorted_bag.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, range_bag.poly.num_vars as int),
        ret.is_ok() ==> sort_p(*old(zk_tr), *final(zk_tr), *sorted_bag, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 59),
//@@ entry
    broadcast use ipow_p2;
    let ghost a = *zk_tr; let ghost rb0 = *range_bag; let ghost n = a.id_counter as int; let ghost pv = pvec(a, sorted_bag.poly); let ghost nv = sorted_bag.poly.num_vars as int; proof { pt_nv_small(a, sorted_bag.poly.id); pt_nv_small(a, range_bag.poly.id); p2_64(); p2_pos(sorted_bag.poly.num_vars as int); p2_mono(sorted_bag.poly.num_vars as int, 62);  p2_pos(range_bag.poly.num_vars as int); p2_mono(range_bag.poly.num_vars as int, 62); }
//@@ inv 0
            zk_n0 == p2(nv) - 1, zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == fk(j + 1),
//@@ inv 1
            zk_n1 == p2(nv), zk_acc1@.len() == zk_i1, forall|j: int| 0 <= j < zk_i1 ==> #[trigger] zk_acc1@[j] == diff_at(pv, p2(nv), j),
//@@ start 1
            proof { diff_step(sorted_poly_evals@, q_evals@, diff_range_sel_evals@, p2(nv), zk_i1 as int); assert(pv =~= sorted_poly_evals@); }
//@@ after-let q_mle
    let ghost q = q_mle; let ghost sh = shift_perm_mle; let ghost ms = diff_range_sel_mle;
    proof { assert(pv =~= sorted_poly_evals@); reveal(f0); assert(is_left(pv, nv, q)); assert(is_shift(nv, sh)); assert(is_most(nv, ms)); }
//@@ after-let q_poly
    let ghost c1 = *zk_tr; proof { assert(p_one(c1, one_poly, nv)); assert(sort_pre(a, c1, *sorted_bag, sh, q, one_poly, shift_perm_poly, q_poly)); }
//@@ after-call prove
    let ghost c2 = *zk_tr;
//@@ after-let diff_range_poly
    let ghost cd = *zk_tr; proof {
        let m = c2.id_counter as int;
        assert(diff_range_poly.id == tid(m + 5)); assert(diff_range_sel.id == tid(m));
        assert forall|x: Seq<F>| x.len() == nv implies #[trigger] pt_val(cd, tid(m + 5), at_point(x)) == fsub(fadd(fmul(mlev(ms.evaluations@, x), fsub(mlev(q.evaluations@, x), pt_val(a, sorted_bag.poly.id, at_point(x)))), f1()), mlev(ms.evaluations@, x)) by { }
        assert forall|b: int| 0 <= b < p2(nv) implies #[trigger] pt_val(cd, tid(m + 5), at_bool(b)) == diff_at(pv, p2(nv), b) by { diff_step(pv, q.evaluations@, ms.evaluations@, p2(nv), b); }
    }
//@@ after-let range_bag
    let ghost c3 = *zk_tr; proof { assert(sort_diff(a, c2, c3, *sorted_bag, q, ms, diff_range_bag, range_sel, range_nv as int)); }
//@@ after-call prove #2
    let ghost c4 = *zk_tr;
//@@ pretail
    proof { assert(sort_mid(a, *zk_tr, *sorted_bag, rb0, c1, c2, c3, c4, sh, q, ms, one_poly, shift_perm_poly, q_poly, diff_range_bag, range_sel)); }
//@end
