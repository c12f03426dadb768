// ---- verifier side of final_join_one_to_many ----
pub struct FinalJoinOneToManyIOP { }
//@threaded FinalJoinOneToManyIOP::verify FinalJoinOneToManyIOP::verify_with_advice
/// the commitment the proof carries under the next handle is taken over
pub open spec fn v_take(a: VerifierTracker, b: VerifierTracker, h: TrackedComm) -> bool { a.proof.comms@.contains_key(tid(a.id_counter as int)) && v_commit(a, b, h, a.proof.comms@[tid(a.id_counter as int)]) }
/// a zero claim (x - y) * s was recorded
pub open spec fn jeq_v(a: VerifierTracker, b: VerifierTracker, x: TrackedComm, y: TrackedComm, s: TrackedComm) -> bool { let z = tid(a.id_counter + 1); v_zclaim(a, b, 2, z) && (forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, z, q, pt) == fmul(fsub(vt_val(a, x.id, q, pt), vt_val(a, y.id, q, pt)), vt_val(a, s.id, q, pt))) && (
    forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, z, q, pt) == (vt_def(a, x.id, q, pt) && vt_def(a, y.id, q, pt) && vt_def(a, s.id, q, pt))) }
pub open spec fn colsc(v: VerifierTracker, cs: Seq<TrackedComm>, who: u64) -> bool { forall|i: int| 0 <= i < cs.len() ==> hc(v, #[trigger] cs[i], who) }
pub open spec fn fj_vmid(a: VerifierTracker, b: VerifierTracker, wa: TableComm, wb: TableComm, ja: int, jb: int, tr: Seq<TrackedComm>, to: TableComm, c: VerifierTracker) -> bool { to.col_vals@ == tr && to.selector == wb.selector && to.num_vars == wb.num_vars && it_v(a, c, wa, to) && jeq_v(c, b, tr[ja], wb.col_vals@[jb], wb.selector) }
/// the matched rows are checked to be rows of the left table, and equal keys row by row; the result is those rows beside the right table
pub open spec fn fj_v(a: VerifierTracker, b: VerifierTracker, wa: TableComm, wb: TableComm, ja: int, jb: int, tr: Seq<TrackedComm>, res: TableComm) -> bool { res.col_vals@ == tr + wb.col_vals@ && res.selector == wb.selector && res.num_vars == wb.num_vars && exists|to: TableComm, c: VerifierTracker| #[trigger] fj_vmid(a, b, wa, wb, ja, jb, tr, to, c) }
pub open spec fn fj_bad1(a: VerifierTracker, wa: TableComm, wb: TableComm, tr: Seq<TrackedComm>, to: TableComm) -> bool { to.col_vals@ == tr && to.selector == wb.selector && to.num_vars == wb.num_vars && it_bad(a, wa, to) }
pub open spec fn fj_bad(a: VerifierTracker, wa: TableComm, wb: TableComm, tr: Seq<TrackedComm>) -> bool { exists|to: TableComm| #[trigger] fj_bad1(a, wa, wb, tr, to) }
pub open spec fn fj_cost(wa: TableComm) -> int { (4 * wa.col_vals@.len() + 18) as int }
pub open spec fn fj_pre(a: VerifierTracker, wa: TableComm, wb: TableComm, ja: int, jb: int, who: u64) -> bool { tablec(a, wa, who) && tablec(a, wb, who) && 0 <= ja < wa.col_vals@.len() && 0 <= jb < wb.col_vals@.len() && wa.col_vals@.len() + wb.col_vals@.len() < 0x7fff_ffff && wa.num_vars < 62 && wb.num_vars < 62 }
//@fn src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs::FinalJoinOneToManyIOP::verify_with_advice | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), fj_cost(*table_a)), fj_pre(*old(zk_tr), *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, old(verifier_tracker).tracker_rc.who), colsc(*old(zk_tr), transformed_a_cols@, old(verifier_tracker).tracker_rc.who), transformed_a_cols@.len() == table_a.col_vals@.len(),
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker),
        ret.is_ok() ==> fj_v(*old(zk_tr), *final(zk_tr), *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, transformed_a_cols@, ret.unwrap()),
        ret.is_err() ==> old(zk_tr).transcript.is_empty || fj_bad(*old(zk_tr), *table_a, *table_b, transformed_a_cols@),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + fj_cost(*table_a) && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr; let ghost who = verifier_tracker.tracker_rc.who; let ghost tr = transformed_a_cols@;
//@@ after-let res_table
    let ghost res = res_table; proof { assert(res.col_vals@ == tr + table_b.col_vals@); }
//@@ after-let transformed_a_table
    let ghost to = transformed_a_table; proof { assert(to.col_vals@ =~= tr); assert(tablec(a, to, who)); assert(it_bad(a, *table_a, to) ==> fj_bad1(a, *table_a, *table_b, tr, to)); }
//@@ after-call verify
    let ghost c = *zk_tr;
//@@ after-let join_col_b
    proof { assert(join_col_a == tr[a_join_col_index as int]); assert(join_col_b == table_b.col_vals@[b_join_col_index as int]); assert(hc(a, tr[a_join_col_index as int], who)); assert(hc(a, table_b.col_vals@[b_join_col_index as int], who)); }
//@@ pretail
    proof { let z = tid(c.id_counter + 1); assert(equality_check_poly.id == z); assert(v_zclaim(c, *zk_tr, 2, z)); assert(jeq_v(c, *zk_tr, join_col_a, join_col_b, table_b.selector)); assert(fj_vmid(a, *zk_tr, *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, tr, to, c)); }
//@end
/// the left table's gathered columns are taken over one after the other
pub open spec fn fj_vadv(a: VerifierTracker, st: Seq<VerifierTracker>, tr: Seq<TrackedComm>, n: int) -> bool {
    st.len() == n + 1 && st[0] == a && tr.len() == n && forall|i: int| 0 <= i < n ==> v_take(st[i], st[i + 1], #[trigger] tr[i])
}
pub open spec fn fjv_mid(a: VerifierTracker, b: VerifierTracker, wa: TableComm, wb: TableComm, ja: int, jb: int, res: TableComm, st: Seq<VerifierTracker>, tr: Seq<TrackedComm>) -> bool { let m = wa.col_vals@.len() as int; fj_vadv(a, st, tr, m) && fj_v(st[m], b, wa, wb, ja, jb, tr, res) }
pub open spec fn fjv(a: VerifierTracker, b: VerifierTracker, wa: TableComm, wb: TableComm, ja: int, jb: int, res: TableComm) -> bool { exists|st: Seq<VerifierTracker>, tr: Seq<TrackedComm>| #[trigger] fjv_mid(a, b, wa, wb, ja, jb, res, st, tr) }
pub open spec fn fjv_bad_mid(a: VerifierTracker, wa: TableComm, wb: TableComm, st: Seq<VerifierTracker>, tr: Seq<TrackedComm>) -> bool { let m = wa.col_vals@.len() as int; fj_vadv(a, st, tr, m) && fj_bad(st[m], wa, wb, tr) }
pub open spec fn fjv_bad(a: VerifierTracker, wa: TableComm, wb: TableComm) -> bool { exists|st: Seq<VerifierTracker>, tr: Seq<TrackedComm>| #[trigger] fjv_bad_mid(a, wa, wb, st, tr) }
//@fn src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs::FinalJoinOneToManyIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), fj_cost(*table_a) + table_a.col_vals@.len()), fj_pre(*old(zk_tr), *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, old(verifier_tracker).tracker_rc.who),
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker),
        ret.is_ok() ==> fjv(*old(zk_tr), *final(zk_tr), *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, ret.unwrap()),
        ret.is_err() ==> fjv_bad(*old(zk_tr), *table_a, *table_b),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + fj_cost(*table_a) + table_a.col_vals@.len() && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr; let ghost who = verifier_tracker.tracker_rc.who; let ghost m = table_a.col_vals@.len() as int; let ghost mut st = Seq::<VerifierTracker>::empty().push(*zk_tr);
//@@ inv 0
            zk_n0 == m, st[zk_i0 as int] == *zk_tr, fj_vadv(a, st, transformed_a_cols@, zk_i0 as int), *verifier_tracker == *old(verifier_tracker), verifier_tracker.tracker_rc.who == who, v_grow(a, *zk_tr), zk_tr.id_counter == a.id_counter + zk_i0, zk_i0 > 0 ==> !zk_tr.transcript.is_empty,
            colsc(*zk_tr, transformed_a_cols@, who),
//@@ start 0
        let ghost b1 = *zk_tr; let ghost i1 = zk_i0 as int; let ghost t1 = transformed_a_cols@; let ghost st1 = st;
//@@ end 0
        proof { st = st.push(*zk_tr); assert(v_take(b1, *zk_tr, transformed_a_cols@[i1]));
            assert forall|i: int| 0 <= i < i1 + 1 implies v_take(st[i], st[i + 1], #[trigger] transformed_a_cols@[i]) by { if i < i1 { assert(transformed_a_cols@[i] == t1[i]); assert(st[i] == st1[i] && st[i + 1] == st1[i + 1]); } } }
//@@ after 0
    let ghost tr = transformed_a_cols@; let ghost c0 = *zk_tr; proof { assert(tablec(c0, *table_a, who)); assert(tablec(c0, *table_b, who)); assert(fj_bad(c0, *table_a, *table_b, tr) ==> fjv_bad_mid(a, *table_a, *table_b, st, tr)); }
//@@ pretail
    proof { assert(fjv_mid(a, *zk_tr, *table_a, *table_b, a_join_col_index as int, b_join_col_index as int, res_table, st, tr)); }
//@end
