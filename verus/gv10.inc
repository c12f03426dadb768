// ---- verifier side of index_transform ----
pub struct IndexTransformIOP { }
//@threaded table_row_verifier_agg verifier_sample_rands verifier_sample_rand_powers IndexTransformIOP::verify
/// one challenge r was drawn; nothing else changed
pub open spec fn v_draw(a: VerifierTracker, b: VerifierTracker) -> bool { v_still(a, b) && b == (VerifierTracker { transcript: b.transcript, ..a }) && !a.transcript.is_empty && !b.transcript.is_empty && ilog(b.transcript) == after_chal(ilog(a.transcript), "r"@) }
pub open spec fn v_rchal(a: VerifierTracker) -> F { chal(ilog(a.transcript), "r"@) }
//@fn src/zksql_poly_iop/index_transform/utils.rs::verifier_sample_rand_powers | thread=VerifierTracker
//@@ requires
        vt_wf(*old(zk_tr)),
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() <==> !old(zk_tr).transcript.is_empty, ret.is_err() ==> *final(zk_tr) == *old(zk_tr),
        ret.is_ok() ==> v_draw(*old(zk_tr), *final(zk_tr)) && is_pows(ret.unwrap()@, v_rchal(*old(zk_tr)), num_rands as int),
//@@ inv 0
            zk_n0 == num_rands, res@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] res@[j] == fpow(r, j),
//@@ after-let i_slice
            proof { limb1(i_slice@); }
//@end
/// log after n challenges drawn one after the other
pub open spec fn after_n(l: Seq<TEv>, n: int) -> Seq<TEv> decreases n { if n <= 0 { l } else { after_chal(after_n(l, n - 1), "r"@) } }
//@fn src/zksql_poly_iop/index_transform/utils.rs::verifier_sample_rands | thread=VerifierTracker
//@@ requires
        vt_wf(*old(zk_tr)),
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_err() <==> old(zk_tr).transcript.is_empty && num_rands > 0, v_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (VerifierTracker { transcript: final(zk_tr).transcript, ..*old(zk_tr) }),
        ret.is_ok() ==> ilog(final(zk_tr).transcript) == after_n(ilog(old(zk_tr).transcript), num_rands as int) && ret.unwrap()@.len() == num_rands && forall|j: int| 0 <= j < num_rands ==> #[trigger] ret.unwrap()@[j] == chal(after_n(ilog(old(zk_tr).transcript), j), "r"@),
//@@ entry
    let ghost a = *zk_tr;
//@@ inv 0
            zk_n0 == num_rands, *verifier_tracker == *old(verifier_tracker), v_still(a, *zk_tr), *zk_tr == (VerifierTracker { transcript: zk_tr.transcript, ..a }), zk_tr.transcript.is_empty == a.transcript.is_empty, zk_i0 > 0 ==> !a.transcript.is_empty,
            ilog(zk_tr.transcript) == after_n(ilog(a.transcript), zk_i0 as int), res@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] res@[j] == chal(after_n(ilog(a.transcript), j), "r"@),
//@end
/// k0*c0 + k1*c1 + .. over the first n columns
pub open spec fn vlin(v: VerifierTracker, cs: Seq<TrackedComm>, k: Seq<F>, q: QM, pt: Seq<F>, n: int) -> F decreases n { if n <= 1 { fmul(k[0], vt_val(v, cs[0].id, q, pt)) } else { fadd(vlin(v, cs, k, q, pt, n - 1), fmul(k[n - 1], vt_val(v, cs[n - 1].id, q, pt))) } }
pub open spec fn vldef(v: VerifierTracker, cs: Seq<TrackedComm>, q: QM, pt: Seq<F>, n: int) -> bool decreases n { if n <= 1 { vt_def(v, cs[0].id, q, pt) } else { vldef(v, cs, q, pt, n - 1) && vt_def(v, cs[n - 1].id, q, pt) } }
/// the rows' linear combination under the table's own selector and claimed size; two handles per further column
pub open spec fn v_agg(a: VerifierTracker, b: VerifierTracker, w: TableComm, k: Seq<F>, bag: BagComm) -> bool {
    let m = w.col_vals@.len() as int;
    &&& v_more(a, b, 2 * m - 1) && bag.selector == w.selector && bag.num_vars == w.num_vars && vt_has(b, bag.poly.id) && bag.poly.tracker == w.col_vals@[0].tracker
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, bag.poly.id, q, pt) == vlin(a, w.col_vals@, k, q, pt, m)
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, bag.poly.id, q, pt) == vldef(a, w.col_vals@, q, pt, m)
}
//@fn src/zksql_poly_iop/index_transform/utils.rs::table_row_verifier_agg | thread=VerifierTracker
//@@ requires
        exists|who: u64| #[trigger] tablec(*old(zk_tr), *table_comm, who), 1 <= table_comm.col_vals@.len() <= rand_coeffs@.len(), v_room(*old(zk_tr), 2 * table_comm.col_vals@.len() as int),
//@@ ensures
        ret.is_ok(), v_agg(*old(zk_tr), *final(zk_tr), *table_comm, rand_coeffs@, ret.unwrap()),
//@@ entry
    let ghost a = *zk_tr; let ghost who = choose|who: u64| #[trigger] tablec(a, *table_comm, who); let ghost cs = table_comm.col_vals@; let ghost k = rand_coeffs@; proof { assert(hc(a, cs[0], who)); }
//@@ inv 0
            zk_n0 == cs.len() - 1, v_more(a, *zk_tr, 2 * zk_i0 + 1), vt_has(*zk_tr, res_poly.id), res_poly.tracker == cs[0].tracker, forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*zk_tr, res_poly.id, q, pt) == vlin(a, cs, k, q, pt, zk_i0 + 1),
            forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*zk_tr, res_poly.id, q, pt) == vldef(a, cs, q, pt, zk_i0 + 1),
//@@ start 0
        let ghost b0 = *zk_tr; let ghost j0 = zk_i0 + 1; proof { assert(hc(a, cs[j0], who)); assert(hc(b0, cs[j0], who)); assert(cs[0].tracker.who == who); }
//@end
pub open spec fn it_vmid(a: VerifierTracker, b: VerifierTracker, tin: TableComm, tout: TableComm, c: VerifierTracker, k: Seq<F>, d: VerifierTracker, bi: BagComm, e: VerifierTracker, bo: BagComm) -> bool {
    v_draw(a, c) && is_pows(k, v_rchal(a), tin.col_vals@.len() as int) && v_agg(c, d, tin, k, bi) && v_agg(d, e, tout, k, bo) && inclv(e, b, bo, bi)
}
/// one challenge, both tables folded row by row with its powers, and the output's bag included in the input's
pub open spec fn it_v(a: VerifierTracker, b: VerifierTracker, tin: TableComm, tout: TableComm) -> bool { exists|c: VerifierTracker, k: Seq<F>, d: VerifierTracker, bi: BagComm, e: VerifierTracker, bo: BagComm| #[trigger] it_vmid(a, b, tin, tout, c, k, d, bi, e, bo) }
/// the inclusion of the folded rows was refused
pub open spec fn it_bad_mid(a: VerifierTracker, tin: TableComm, tout: TableComm, c: VerifierTracker, k: Seq<F>, d: VerifierTracker, bi: BagComm, e: VerifierTracker, bo: BagComm, g: VerifierTracker, m: TrackedComm) -> bool {
    v_draw(a, c) && is_pows(k, v_rchal(a), tin.col_vals@.len() as int) && v_agg(c, d, tin, k, bi) && v_agg(d, e, tout, k, bo) && v_commit(e, g, m, e.proof.comms@[tid(e.id_counter as int)]) && incl_bad(g, bo, bi)
}
pub open spec fn it_bad(a: VerifierTracker, tin: TableComm, tout: TableComm) -> bool { exists|c: VerifierTracker, k: Seq<F>, d: VerifierTracker, bi: BagComm, e: VerifierTracker, bo: BagComm, g: VerifierTracker, m: TrackedComm| #[trigger] it_bad_mid(a, tin, tout, c, k, d, bi, e, bo, g, m) }
pub open spec fn it_cost(tin: TableComm, tout: TableComm) -> int { (2 * (tin.col_vals@.len() + tout.col_vals@.len()) + 16) as int }
pub open spec fn it_pre(a: VerifierTracker, tin: TableComm, tout: TableComm, who: u64) -> bool { v_room(a, it_cost(tin, tout)) && tablec(a, tin, who) && tablec(a, tout, who) && 1 <= tout.col_vals@.len() <= tin.col_vals@.len() && tin.num_vars < 62 && tout.num_vars < 62 }
//@fn src/zksql_poly_iop/index_transform/index_transform.rs::IndexTransformIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        it_pre(*old(zk_tr), *table_in, *table_out, old(verifier_tracker).tracker_rc.who),
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker),
        ret.is_ok() ==> it_v(*old(zk_tr), *final(zk_tr), *table_in, *table_out),
        ret.is_err() ==> old(zk_tr).transcript.is_empty || it_bad(*old(zk_tr), *table_in, *table_out),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + it_cost(*table_in, *table_out) && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr; let ghost who = verifier_tracker.tracker_rc.who;
//@@ after-let rand_coeffs
    let ghost c = *zk_tr; proof { assert(tablec(c, *table_in, who)); assert(hc(a, table_in.col_vals@[0], who)); assert(hc(a, table_out.col_vals@[0], who)); }
//@@ after-let table_in_agg
    let ghost d = *zk_tr; proof { assert(tablec(d, *table_out, who)); }
//@@ after-let table_out_agg
    let ghost e = *zk_tr; proof {
        assert forall|g: VerifierTracker, m: TrackedComm| #[trigger] v_commit(e, g, m, e.proof.comms@[tid(e.id_counter as int)]) && incl_bad(g, table_out_agg, table_in_agg) implies it_bad(a, *table_in, *table_out) by { assert(it_bad_mid(a, *table_in, *table_out, c, rand_coeffs@, d, table_in_agg, e, table_out_agg, g, m)); } }
//@@ pretail
    proof { assert(it_vmid(a, *zk_tr, *table_in, *table_out, c, rand_coeffs@, d, table_in_agg, e, table_out_agg)); }
//@end
