// ---- prover side of cross_product ----
pub struct CrossProductIOP { }
//@threaded CrossProductIOP::prover_cross_product front_alias_tracked_poly back_alias_tracked_poly
pub open spec fn cp_rep(a: ProverTracker, b: ProverTracker, h: TrackedPoly, r: TrackedPoly, n: int) -> bool { hp(b, r) && r.num_vars == h.num_vars + n && forall|t: int| 0 <= t < p2(r.num_vars as int) ==> #[trigger] pt_val(b, r.id, at_bool(t)) == pt_val(a, h.id, at_bool(t / p2(n))) }
pub open spec fn cp_cyc(a: ProverTracker, b: ProverTracker, h: TrackedPoly, r: TrackedPoly, n: int) -> bool { hp(b, r) && r.num_vars == h.num_vars + n && forall|t: int| 0 <= t < p2(r.num_vars as int) ==> #[trigger] pt_val(b, r.id, at_bool(t)) == pt_val(a, h.id, at_bool(t % p2(h.num_vars as int))) }
/// the first table's columns repeat row by row, the second's cycle as a whole; a row is selected with the product of both selectors
pub open spec fn cp_p(a: ProverTracker, b: ProverTracker, w: Table, x: Table, r: Table) -> bool {
    let m = w.col_vals@.len() as int; let k = x.col_vals@.len() as int; let na = w.selector.num_vars as int; let nb = x.selector.num_vars as int;
    &&& p_more(a, b, m + k + 3) && r.col_vals@.len() == m + k && hp(b, r.selector) && r.selector.num_vars == na + nb && r.selector.tracker == w.selector.tracker
    &&& forall|i: int| 0 <= i < m ==> cp_rep(a, b, w.col_vals@[i], #[trigger] r.col_vals@[i], nb) && r.col_vals@[i].tracker == w.col_vals@[i].tracker
    &&& forall|i: int| m <= i < m + k ==> cp_cyc(a, b, x.col_vals@[i - m], #[trigger] r.col_vals@[i], na) && r.col_vals@[i].tracker == x.col_vals@[i - m].tracker
    &&& forall|t: int| 0 <= t < p2(na + nb) ==> #[trigger] pt_val(b, r.selector.id, at_bool(t)) == fmul(pt_val(a, w.selector.id, at_bool(t / p2(nb))), pt_val(a, x.selector.id, at_bool(t % p2(nb))))
}
/// every pair of rows has exactly one row in the result
pub proof fn pair_row(na: int, nb: int, i: int, j: int) requires na >= 0, nb >= 0, 0 <= i < p2(na), 0 <= j < p2(nb) ensures 0 <= i * p2(nb) + j < p2(na + nb), (i * p2(nb) + j) / p2(nb) == i, (i * p2(nb) + j) % p2(nb) == j {
    p2_pos(nb); p2_add(na, nb); let n = p2(nb); let m = p2(na); assert(0 <= i * n + j) by (nonlinear_arith) requires i >= 0, n > 0, j >= 0; assert(i * n + j < m * n) by (nonlinear_arith) requires i <= m - 1, 0 <= j < n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * n + j, n, i, j);
}
pub proof fn row_pair(na: int, nb: int, t: int) requires na >= 0, nb >= 0, 0 <= t < p2(na + nb) ensures 0 <= t / p2(nb) < p2(na), 0 <= t % p2(nb) < p2(nb), t == (t / p2(nb)) * p2(nb) + t % p2(nb) {
    p2_pos(nb); p2_add(na, nb); let n = p2(nb); let m = p2(na); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, n); let q = t / n; let r = t % n; assert(n * q == q * n) by (nonlinear_arith); assert(q >= 0 && r >= 0 && r < n) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(t, n); vstd::arithmetic::div_mod::lemma_mod_bound(t, n); }
    assert(q < m) by (nonlinear_arith) requires q * n + r == t, t < m * n, r >= 0, n > 0;
}
//@fn src/zksql_poly_iop/cross_product/cross_product.rs::CrossProductIOP::prover_cross_product | thread=ProverTracker
//@@ requires
        exists|who: u64| #[trigger] tablep(*old(zk_tr), *table_a, who) && tablep(*old(zk_tr), *table_b, who), table_a.selector.num_vars + table_b.selector.num_vars < 62, table_a.col_vals@.len() + table_b.col_vals@.len() < 0x7fff_ffff, p_room(*old(zk_tr), (table_a.col_vals@.len() + table_b.col_vals@.len() + 3) as int),
//@@ ensures
        ret.is_ok(), cp_p(*old(zk_tr), *final(zk_tr), *table_a, *table_b, ret.unwrap()),
//@@ entry
    let ghost a = *zk_tr; let ghost who = choose|who: u64| #[trigger] tablep(a, *table_a, who) && tablep(a, *table_b, who); let ghost w = table_a.col_vals@; let ghost x = table_b.col_vals@; let ghost na = table_a.selector.num_vars as int; let ghost nb = table_b.selector.num_vars as int;
//@@ inv 0
            zk_n0 == w.len(), p_more(a, *zk_tr, zk_i0 as int), result_table_col_vals@.len() == zk_i0, forall|i: int| 0 <= i < zk_i0 ==> cp_rep(a, *zk_tr, w[i], #[trigger] result_table_col_vals@[i], nb) && result_table_col_vals@[i].tracker == w[i].tracker,
//@@ start 0
        let ghost b0 = *zk_tr; proof { assert(hp(a, w[zk_i0 as int])); }
//@@ inv 1
            zk_n1 == x.len(), p_more(a, *zk_tr, (w.len() + zk_i1) as int), result_table_col_vals@.len() == w.len() + zk_i1, forall|i: int| 0 <= i < w.len() ==> cp_rep(a, *zk_tr, w[i], #[trigger] result_table_col_vals@[i], nb) && result_table_col_vals@[i].tracker == w[i].tracker,
            forall|i: int| w.len() <= i < w.len() + zk_i1 ==> cp_cyc(a, *zk_tr, x[i - w.len()], #[trigger] result_table_col_vals@[i], na) && result_table_col_vals@[i].tracker == x[i - w.len()].tracker,
//@@ start 1
        let ghost b0 = *zk_tr; proof { assert(hp(a, x[zk_i1 as int])); }
//@@ after-let aliased_a_sel
    let ghost c1 = *zk_tr;
//@@ after-let aliased_b_sel
    let ghost c2 = *zk_tr;
//@@ after-let res_sel_poly
    proof { p2_pos(nb); assert forall|i: int| 0 <= i < w.len() + x.len() implies (#[trigger] result_table_col_vals@[i]).num_vars == res_sel_poly.num_vars && result_table_col_vals@[i].tracker.who == res_sel_poly.tracker.who by { if i < w.len() { assert(hp(a, w[i])); } else { assert(hp(a, x[i - w.len()])); } } }
//@end
//@fn src/zksql_poly_iop/cross_product/utils.rs::front_alias_tracked_poly | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), hp(*old(zk_tr), *poly), poly.num_vars + added_nv < 62,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), p_more(*old(zk_tr), *final(zk_tr), 1), cp_rep(*old(zk_tr), *final(zk_tr), *poly, ret, added_nv as int),
//@@ entry
    broadcast use ipow_p2;
    let ghost a = *zk_tr; let ghost na = poly.num_vars as int; let ghost nb = added_nv as int; proof { pt_nv_small(a, poly.id); p2_64(); p2_pos(na); p2_pos(nb); p2_mono(na, 62); p2_mono(nb, 62); p2_add(na, nb); p2_mono(na + nb, 62); }
//@@ inv 0
            zk_n0 == p2(na), res_evals@.len() == zk_i0 * p2(nb), forall|t: int| 0 <= t < zk_i0 * p2(nb) ==> #[trigger] res_evals@[t] == pt_val(a, poly.id, at_bool(t / p2(nb))),
//@@ start 0
        let ghost i0 = zk_i0 as int;
//@@ inv 1
            zk_n1 == p2(nb), res_evals@.len() == i0 * p2(nb) + zk_i1, 0 <= i0 < p2(na), i0 == zk_k0, forall|t: int| 0 <= t < i0 * p2(nb) + zk_i1 ==> #[trigger] res_evals@[t] == pt_val(a, poly.id, at_bool(t / p2(nb))),
//@@ start 1
            proof { pair_row(na, nb, i0, zk_i1 as int); }
//@@ after 1
        proof { assert(i0 * p2(nb) + p2(nb) == (i0 + 1) * p2(nb)) by (nonlinear_arith); }
//@end
//@fn src/zksql_poly_iop/cross_product/utils.rs::back_alias_tracked_poly | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), hp(*old(zk_tr), *poly), poly.num_vars + added_nv < 62,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), p_more(*old(zk_tr), *final(zk_tr), 1), cp_cyc(*old(zk_tr), *final(zk_tr), *poly, ret, added_nv as int),
//@@ entry
    broadcast use ipow_p2;
    let ghost a = *zk_tr; let ghost na = poly.num_vars as int; let ghost nb = added_nv as int; proof { pt_nv_small(a, poly.id); p2_64(); p2_pos(na); p2_pos(nb); p2_mono(na, 62); p2_mono(nb, 62); p2_add(na, nb); p2_add(nb, na); p2_mono(na + nb, 62); }
//@@ inv 0
            zk_n0 == p2(nb), res_evals@.len() == zk_i0 * p2(na), forall|t: int| 0 <= t < zk_i0 * p2(na) ==> #[trigger] res_evals@[t] == pt_val(a, poly.id, at_bool(t % p2(na))),
//@@ start 0
        let ghost i0 = zk_i0 as int;
//@@ inv 1
            zk_n1 == p2(na), res_evals@.len() == i0 * p2(na) + zk_i1, 0 <= i0 < p2(nb), forall|t: int| 0 <= t < i0 * p2(na) + zk_i1 ==> #[trigger] res_evals@[t] == pt_val(a, poly.id, at_bool(t % p2(na))),
//@@ start 1
            proof { pair_row(nb, na, i0, zk_i1 as int); }
//@@ after 1
        proof { assert(i0 * p2(na) + p2(na) == (i0 + 1) * p2(na)) by (nonlinear_arith); }
//@end
