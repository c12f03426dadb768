// ---- prover side of final_join_one_to_many ----
pub struct FinalJoinOneToManyIOP { }
//@threaded FinalJoinOneToManyIOP::prove FinalJoinOneToManyIOP::prove_with_advice
pub open spec fn is_ucounts(m: Map<F, usize>, p: Seq<F>, s: Seq<F>, n: int) -> bool { forall|v: F| (#[trigger] m.contains_key(v) <==> mcount(p, s, v, n) > 0) && (m.contains_key(v) ==> m[v] == mcount(p, s, v, n)) }
/// no value twice among the active rows
pub open spec fn no_dup(p: Seq<F>, s: Seq<F>) -> bool { forall|v: F| #[trigger] mcount(p, s, v, p.len() as int) <= 1 }
/// a zero claim (x - y) * s was recorded
pub open spec fn jeq_p(a: ProverTracker, b: ProverTracker, x: TrackedPoly, y: TrackedPoly, s: TrackedPoly) -> bool { let z = tid(a.id_counter + 1); p_zclaim(a, b, 2, z) && pt_nv(b, z) == s.num_vars && forall|t: TVal| #[trigger] pt_val(b, z, t) == fmul(fsub(pt_val(a, x.id, t), pt_val(a, y.id, t)), pt_val(a, s.id, t)) }
pub open spec fn fj_mid(a: ProverTracker, b: ProverTracker, wa: Table, wb: Table, ja: int, jb: int, tr: Seq<TrackedPoly>, to: Table, a1: ProverTracker, c: ProverTracker) -> bool { p_quiet(a, a1) && to.col_vals@ == tr && to.selector == wb.selector && it_p(a1, c, wa, to) && jeq_p(c, b, tr[ja], wb.col_vals@[jb], wb.selector) }
/// the matched rows are rows of the left table, and equal keys are claimed row by row
pub open spec fn fj_p(a: ProverTracker, b: ProverTracker, wa: Table, wb: Table, ja: int, jb: int, tr: Seq<TrackedPoly>, res: Table) -> bool { res.col_vals@ == tr + wb.col_vals@ && res.selector == wb.selector && exists|to: Table, a1: ProverTracker, c: ProverTracker| #[trigger] fj_mid(a, b, wa, wb, ja, jb, tr, to, a1, c) }
pub proof fn fsub_mul_0(x: F, y: F, s: F) ensures fmul(fsub(x, y), s) == f0() <==> x == y || s == f0() { broadcast use fhom, funits; fmul_eq0(fsub(x, y), s); let a = frep(x); let b = frep(y); assert(b + (a - b) == a); assert(fadd(y, fsub(x, y)) == x); fsub_self(y); }
pub open spec fn fj_cost(wa: Table) -> int { (4 * wa.col_vals@.len() + 18) as int }
pub open spec fn fj_pre(a: ProverTracker, wa: Table, wb: Table, ja: int, jb: int, who: u64) -> bool { tablep(a, wa, who) && tablep(a, wb, who) && 0 <= ja < wa.col_vals@.len() && 0 <= jb < wb.col_vals@.len() && wa.col_vals@.len() + wb.col_vals@.len() < 0x7fff_ffff }
pub open spec fn colsp(p: ProverTracker, cs: Seq<TrackedPoly>, n: int, who: u64) -> bool { forall|i: int| 0 <= i < cs.len() ==> hp(p, #[trigger] cs[i]) && cs[i].num_vars == n && cs[i].tracker.who == who }
pub proof fn keys_all<V>(m: Map<F, V>, s: Seq<(F, V)>, k: F) -> (i: int) requires lists_map(m, s), m.contains_key(k) ensures 0 <= i < s.len() && s[i].0 == k && s[i].1 == m[k] {
    let ks = Seq::new(s.len(), |i: int| s[i].0); assert(ks.no_duplicates()); ks.unique_seq_to_set(); assert(ks.to_set().subset_of(m.dom())) by { assert forall|x: F| ks.to_set().contains(x) implies m.dom().contains(x) by { let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x; assert(m.contains_key(s[j].0)); } }
    vstd::set_lib::lemma_subset_equality(ks.to_set(), m.dom()); assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(m[s[i].0] == s[i].1); i }
//@fn src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs::FinalJoinOneToManyIOP::prove_with_advice | thread=ProverTracker maps=counts
//@@ requires
        p_room(*old(zk_tr), fj_cost(*table_a)), fj_pre(*old(zk_tr), *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, old(prover_tracker).tracker_rc.who), colsp(*old(zk_tr), transformed_a_cols@, table_b.selector.num_vars as int, old(prover_tracker).tracker_rc.who), transformed_a_cols@.len() == table_a.col_vals@.len(),
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> no_dup(pvec(*old(zk_tr), table_a.col_vals@[a_join_col_index as int]), pvec(*old(zk_tr), table_a.selector)) && !old(zk_tr).transcript.is_empty && pcs_fits(old(zk_tr).pcs_param, table_a.selector.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, table_b.selector.num_vars as int),
        ret.is_ok() ==> fj_p(*old(zk_tr), *final(zk_tr), *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, transformed_a_cols@, ret.unwrap()) && p_grow(*old(zk_tr), *final(zk_tr), fj_cost(*table_a)),
//@@ entry
    broadcast use pvec_still, vstd::std_specs::hash::group_hash_axioms, ax_fkey;
    let ghost a = *zk_tr; let ghost who = prover_tracker.tracker_rc.who; let ghost m = table_a.col_vals@.len() as int; let ghost tr = transformed_a_cols@; let ghost ha = table_a.col_vals@[a_join_col_index as int]; let ghost p = pvec(a, ha); let ghost s = pvec(a, table_a.selector);
    proof { assert(hp(a, ha)); p2_pos(ha.num_vars as int); pt_nv_small(a, ha.id); p2_64(); p2_mono(ha.num_vars as int, 62); }
//@@ after-let table_a_join_col_evals
    proof { assert(table_a_join_col_evals@ =~= p); }
//@@ after-let table_a_sel_evals
    proof { assert(table_a_sel_evals@ =~= s); }
//@@ inv 0
            zk_n0 == p.len(), is_ucounts(counts@, p, s, zk_i0 as int),
//@@ start 0
        let ghost m0 = counts@; proof { mcount_le(p, s, p[zk_i0 as int], zk_i0 as int); }
//@@ inv 1
            lists_map(counts@, zk_s0@), zk_n1 == zk_s0@.len(), forall|i: int| 0 <= i < zk_i1 ==> (#[trigger] zk_s0@[i]).1 <= 1,
//@@ start 1
        proof { let k = zk_s0@[zk_i1 as int].0; assert(counts@.contains_key(k)); assert(counts@[k] == zk_s0@[zk_i1 as int].1); assert(mcount(p, s, k, p.len() as int) == counts@[k]); }
//@@ after 1
        proof { assert forall|v: F| #[trigger] mcount(p, s, v, p.len() as int) <= 1 by { if counts@.contains_key(v) { let i = keys_all(counts@, zk_s0@, v); } } }
//@@ after-let res_table
    let ghost res = res_table; proof { assert(no_dup(p, s)); assert(*zk_tr == a || p_quiet(a, *zk_tr)); assert(res.col_vals@ == tr + table_b.col_vals@); }
//@@ after-let transformed_a_table
    let ghost a1 = *zk_tr; let ghost to = transformed_a_table; proof { assert(to.col_vals@ =~= tr); assert(tablep(a1, to, who)); assert(tablep(a1, *table_a, who)); }
//@@ after-call prove
    let ghost c = *zk_tr; proof { assert(it_p(a1, c, *table_a, to)); }
//@@ after-let join_col_b
    proof { assert(join_col_a == tr[a_join_col_index as int]); assert(join_col_b == table_b.col_vals@[b_join_col_index as int]); assert(hp(a, tr[a_join_col_index as int])); assert(hp(a, table_b.col_vals@[b_join_col_index as int])); }
//@@ pretail
    proof { let z = tid(c.id_counter + 1); assert(equality_check_poly.id == z); assert(p_zclaim(c, *zk_tr, 2, z)); assert(jeq_p(c, *zk_tr, join_col_a, join_col_b, table_b.selector)); assert(fj_mid(a, *zk_tr, *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, tr, to, a1, c)); }
//@end
pub open spec fn fj_advat(a: ProverTracker, wa: Table, wb: Table, ix: Seq<usize>, i: int, d: DenseMultilinearExtension) -> bool { is_gather(d, ix, pvec(a, wa.col_vals@[i]), pvec(a, wb.selector), wb.selector.num_vars as int) }
/// the left table's columns, gathered by the index of the matching rows, are committed one after the other
pub open spec fn fj_adv(a: ProverTracker, st: Seq<ProverTracker>, wa: Table, wb: Table, ix: Seq<usize>, ds: Seq<DenseMultilinearExtension>, tr: Seq<TrackedPoly>, n: int) -> bool {
    st.len() == n + 1 && p_quiet(a, st[0]) && tr.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] fj_advat(a, wa, wb, ix, i, ds[i])) && forall|i: int| 0 <= i < n ==> p_commit(st[i], st[i + 1], #[trigger] tr[i], ds[i])
}
pub open spec fn fjp_mid(a: ProverTracker, b: ProverTracker, wa: Table, wb: Table, ja: int, jb: int, res: Table, st: Seq<ProverTracker>, ix: Seq<usize>, ds: Seq<DenseMultilinearExtension>, tr: Seq<TrackedPoly>) -> bool {
    is_fj_index(ix, pvec(a, wa.col_vals@[ja]), pvec(a, wa.selector), pvec(a, wb.col_vals@[jb]), pvec(a, wb.selector)) && fj_adv(a, st, wa, wb, ix, ds, tr, wa.col_vals@.len() as int) && fj_p(st[wa.col_vals@.len() as int], b, wa, wb, ja, jb, tr, res)
}
pub open spec fn fjp(a: ProverTracker, b: ProverTracker, wa: Table, wb: Table, ja: int, jb: int, res: Table) -> bool { exists|st: Seq<ProverTracker>, ix: Seq<usize>, ds: Seq<DenseMultilinearExtension>, tr: Seq<TrackedPoly>| #[trigger] fjp_mid(a, b, wa, wb, ja, jb, res, st, ix, ds, tr) }
/// the honest columns meet the equality claim: on every active row the gathered key is the right table's key
pub proof fn gather_key(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, ix: Seq<usize>, d: DenseMultilinearExtension, nv: int, j: int) requires is_fj_index(ix, ap, sa, bp, sb), is_gather(d, ix, ap, sb, nv), bp.len() == p2(nv), 0 <= j < p2(nv), sb[j] == f1()
    ensures d.evaluations@[j] == bp[j], sa[ix[j] as int] == f1(), ap[ix[j] as int] == bp[j], 0 <= ix[j] < ap.len() { last_hit_in(ap, sa, bp[j], ap.len() as int); assert(ix[j] == fj_at(ap, sa, bp, sb, j)); assert(d.evaluations@[j] == ap[ix[j] as int]); }
//@fn src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs::FinalJoinOneToManyIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), fj_cost(*table_a) + table_a.col_vals@.len()), fj_pre(*old(zk_tr), *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, old(prover_tracker).tracker_rc.who),
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker),
        ret.is_ok() <==> fj_found(pvec(*old(zk_tr), table_a.col_vals@[a_join_col_index as int]), pvec(*old(zk_tr), table_a.selector), pvec(*old(zk_tr), table_b.col_vals@[b_join_col_index as int]), pvec(*old(zk_tr), table_b.selector), p2(table_b.selector.num_vars as int)) && no_dup(pvec(*old(zk_tr), table_a.col_vals@[a_join_col_index as int]), pvec(*old(zk_tr), table_a.selector)) && pcs_fits(old(zk_tr).pcs_param, table_a.selector.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, table_b.selector.num_vars as int),
        ret.is_ok() ==> fjp(*old(zk_tr), *final(zk_tr), *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, ret.unwrap()) && p_grow(*old(zk_tr), *final(zk_tr), fj_cost(*table_a) + table_a.col_vals@.len()),
//@@ entry
    broadcast use pvec_still;
    let ghost a = *zk_tr; let ghost who = prover_tracker.tracker_rc.who; let ghost m = table_a.col_vals@.len() as int; let ghost ha = table_a.col_vals@[a_join_col_index as int]; let ghost hb = table_b.col_vals@[b_join_col_index as int]; let ghost ap = pvec(a, ha); let ghost sa = pvec(a, table_a.selector); let ghost bp = pvec(a, hb); let ghost sb = pvec(a, table_b.selector);
    proof { assert(hp(a, ha)); assert(hp(a, hb)); p2_pos(hb.num_vars as int); }
//@@ after-let a_index_transform
    let ghost ix = a_index_transform@; let ghost a0 = *zk_tr;
    proof { assert forall|j: int| 0 <= j < ix.len() && sb[j] == f1() implies #[trigger] ix[j] < p2(ha.num_vars as int) by { last_hit_in(ap, sa, bp[j], ap.len() as int); assert(ix[j] == fj_at(ap, sa, bp, sb, j)); } }
//@@ inv 0
            zk_n0 == m, p_quiet(a, *zk_tr), res_table_a_mles@.len() == zk_i0, forall|i: int| 0 <= i < zk_i0 ==> #[trigger] fj_advat(a, *table_a, *table_b, ix, i, res_table_a_mles@[i]),
//@@ start 0
        let ghost b0 = *zk_tr; let ghost i0 = zk_i0 as int; let ghost r0 = res_table_a_mles@; proof { assert(hp(a, table_a.col_vals@[i0])); assert(hp(b0, table_a.col_vals@[i0])); }
//@@ end 0
        proof { assert forall|i: int| 0 <= i < i0 + 1 implies #[trigger] fj_advat(a, *table_a, *table_b, ix, i, res_table_a_mles@[i]) by { if i < i0 { assert(fj_advat(a, *table_a, *table_b, ix, i, r0[i])); assert(res_table_a_mles@[i] == r0[i]); } } }
//@@ before 1
    let ghost ds = res_table_a_mles@; let ghost mut st = Seq::<ProverTracker>::empty().push(*zk_tr); let ghost c0 = *zk_tr;
//@@ inv 1
            zk_n1 == m, ds == res_table_a_mles@, st[zk_i1 as int] == *zk_tr, fj_adv(a, st, *table_a, *table_b, ix, ds, transformed_a_cols@, zk_i1 as int), ds.len() == m, *prover_tracker == *old(prover_tracker), pt_wf(*zk_tr), pt_kept(a, *zk_tr), zk_tr.id_counter == a.id_counter + zk_i1, zk_tr.pcs_param == a.pcs_param, zk_i1 > 0 ==> !zk_tr.transcript.is_empty && pcs_fits(a.pcs_param, table_b.selector.num_vars as int),
            colsp(*zk_tr, transformed_a_cols@, table_b.selector.num_vars as int, who),
//@@ start 1
        let ghost b1 = *zk_tr; let ghost i1 = zk_i1 as int; let ghost t1 = transformed_a_cols@; let ghost st1 = st; proof { assert(fj_advat(a, *table_a, *table_b, ix, i1, ds[i1])); }
//@@ end 1
        proof { st = st.push(*zk_tr); assert(p_commit(b1, *zk_tr, transformed_a_cols@[i1], ds[i1]));
            assert forall|i: int| 0 <= i < i1 + 1 implies p_commit(st[i], st[i + 1], #[trigger] transformed_a_cols@[i], ds[i]) by { if i < i1 { assert(transformed_a_cols@[i] == t1[i]); assert(st[i] == st1[i] && st[i + 1] == st1[i + 1]); } } }
//@@ pretail
    proof { assert(fjp_mid(a, *zk_tr, *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, res_table, st, ix, ds, transformed_a_cols@)); }
//@end
