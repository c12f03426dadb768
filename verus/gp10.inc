// ---- prover side of index_transform ----
pub struct IndexTransformIOP { }
//@threaded table_row_prover_agg prover_sample_rands prover_sample_rand_powers IndexTransformIOP::prove
/// one challenge r was drawn; nothing else changed
pub open spec fn p_draw(a: ProverTracker, b: ProverTracker) -> bool { p_still(a, b) && b == (ProverTracker { transcript: b.transcript, ..a }) && !a.transcript.is_empty && !b.transcript.is_empty && ilog(b.transcript) == after_chal(ilog(a.transcript), "r"@) }
pub open spec fn p_rchal(a: ProverTracker) -> F { chal(ilog(a.transcript), "r"@) }
//@fn src/zksql_poly_iop/index_transform/utils.rs::prover_sample_rand_powers | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)),
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> !old(zk_tr).transcript.is_empty, ret.is_err() ==> *final(zk_tr) == *old(zk_tr),
        ret.is_ok() ==> p_draw(*old(zk_tr), *final(zk_tr)) && is_pows(ret.unwrap()@, p_rchal(*old(zk_tr)), num_rands as int),
//@@ inv 0
            zk_n0 == num_rands, res@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] res@[j] == fpow(r, j),
//@@ after-let i_slice
            proof { limb1(i_slice@); }
//@end
/// log and state after n challenges drawn one after the other
pub open spec fn after_n(l: Seq<TEv>, n: int) -> Seq<TEv> decreases n { if n <= 0 { l } else { after_chal(after_n(l, n - 1), "r"@) } }
//@fn src/zksql_poly_iop/index_transform/utils.rs::prover_sample_rands | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)),
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_err() <==> old(zk_tr).transcript.is_empty && num_rands > 0, p_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (ProverTracker { transcript: final(zk_tr).transcript, ..*old(zk_tr) }),
        ret.is_ok() ==> ilog(final(zk_tr).transcript) == after_n(ilog(old(zk_tr).transcript), num_rands as int) && ret.unwrap()@.len() == num_rands && forall|j: int| 0 <= j < num_rands ==> #[trigger] ret.unwrap()@[j] == chal(after_n(ilog(old(zk_tr).transcript), j), "r"@),
//@@ entry
    let ghost a = *zk_tr; proof { pt_frame_kept(a, a); }
//@@ inv 0
            zk_n0 == num_rands, *prover_tracker == *old(prover_tracker), p_still(a, *zk_tr), *zk_tr == (ProverTracker { transcript: zk_tr.transcript, ..a }), zk_tr.transcript.is_empty == a.transcript.is_empty, zk_i0 > 0 ==> !a.transcript.is_empty,
            ilog(zk_tr.transcript) == after_n(ilog(a.transcript), zk_i0 as int), res@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] res@[j] == chal(after_n(ilog(a.transcript), j), "r"@),
//@end
/// k0*c0 + k1*c1 + .. over the first n columns
pub open spec fn plin(p: ProverTracker, cs: Seq<TrackedPoly>, k: Seq<F>, t: TVal, n: int) -> F decreases n { if n <= 1 { fmul(k[0], pt_val(p, cs[0].id, t)) } else { fadd(plin(p, cs, k, t, n - 1), fmul(k[n - 1], pt_val(p, cs[n - 1].id, t))) } }
/// rows that agree in every column fold to the same value, whatever the challenge
pub proof fn plin_same(p: ProverTracker, cs: Seq<TrackedPoly>, t: TVal, p2: ProverTracker, cs2: Seq<TrackedPoly>, t2: TVal, k: Seq<F>, n: int)
    requires n >= 1, forall|i: int| 0 <= i < n ==> #[trigger] pt_val(p, cs[i].id, t) == pt_val(p2, cs2[i].id, t2) ensures plin(p, cs, k, t, n) == plin(p2, cs2, k, t2, n) decreases n
{ assert(pt_val(p, cs[0].id, t) == pt_val(p2, cs2[0].id, t2)); if n > 1 { plin_same(p, cs, t, p2, cs2, t2, k, n - 1); assert(pt_val(p, cs[n - 1].id, t) == pt_val(p2, cs2[n - 1].id, t2)); } }
pub proof fn fpow_nz(r: F, e: int) requires r != f0() ensures fpow(r, e) != f0() decreases e { if e <= 0 { f01(); } else { fpow_nz(r, e - 1); fmul_eq0(r, fpow(r, e - 1)); } }
/// rows that differ in exactly one column fold to different values unless the challenge is zero: every column takes part
pub proof fn plin_sep(p: ProverTracker, cs: Seq<TrackedPoly>, t: TVal, p2: ProverTracker, cs2: Seq<TrackedPoly>, t2: TVal, k: Seq<F>, r: F, j: int, n: int)
    requires 0 <= j < n, is_pows(k, r, n) || (k.len() >= n && is_pows(k, r, k.len() as int)), r != f0(), forall|i: int| 0 <= i < n && i != j ==> #[trigger] pt_val(p, cs[i].id, t) == pt_val(p2, cs2[i].id, t2), pt_val(p, cs[j].id, t) != pt_val(p2, cs2[j].id, t2)
    ensures plin(p, cs, k, t, n) != plin(p2, cs2, k, t2, n) decreases n
{
    broadcast use fhom;
    let u = pt_val(p, cs[n - 1].id, t); let v = pt_val(p2, cs2[n - 1].id, t2); assert(k[n - 1] == fpow(r, n - 1));
    if j == n - 1 {
        fpow_nz(r, j); let kk = k[j]; let x = frep(kk); let y = frep(u); let z = frep(v); assert(x * y - x * z == x * (y - z)) by (nonlinear_arith); assert(fsub(fmul(kk, u), fmul(kk, v)) == fmul(kk, fsub(u, v)));
        fmul_eq0(kk, fsub(u, v)); assert((z + (y - z)) == y); assert(fadd(v, fsub(u, v)) == u); broadcast use funits; assert(fsub(u, v) != f0()); assert(fmul(kk, u) != fmul(kk, v)) by { if fmul(kk, u) == fmul(kk, v) { fsub_self(fmul(kk, v)); } }
        if n > 1 { assert forall|i: int| 0 <= i < n - 1 implies #[trigger] pt_val(p, cs[i].id, t) == pt_val(p2, cs2[i].id, t2) by { } plin_same(p, cs, t, p2, cs2, t2, k, n - 1); let c = plin(p, cs, k, t, n - 1); let a1 = fmul(kk, u); let a2 = fmul(kk, v); let xc = frep(c); let x1 = frep(a1); let x2 = frep(a2); assert((xc + x1) - xc == x1); assert((xc + x2) - xc == x2); assert(fsub(fadd(c, a1), c) == a1); assert(fsub(fadd(c, a2), c) == a2); }
    } else {
        plin_sep(p, cs, t, p2, cs2, t2, k, r, j, n - 1); assert(u == v); let c = fmul(k[n - 1], u); let l1 = plin(p, cs, k, t, n - 1); let l2 = plin(p2, cs2, k, t2, n - 1); let xc = frep(c); let x1 = frep(l1); let x2 = frep(l2); assert((x1 + xc) - xc == x1); assert((x2 + xc) - xc == x2); assert(fsub(fadd(l1, c), c) == l1); assert(fsub(fadd(l2, c), c) == l2);
    }
}
/// the rows' linear combination under the table's own selector; two handles per further column
pub open spec fn p_agg(a: ProverTracker, b: ProverTracker, w: Table, k: Seq<F>, bag: Bag) -> bool {
    let m = w.col_vals@.len() as int;
    &&& p_more(a, b, 2 * m - 1) && bag.selector == w.selector && hp(b, bag.poly) && bag.poly.num_vars == w.selector.num_vars && bag.poly.tracker == w.col_vals@[0].tracker
    &&& forall|t: TVal| #[trigger] pt_val(b, bag.poly.id, t) == plin(a, w.col_vals@, k, t, m)
}
//@fn src/zksql_poly_iop/index_transform/utils.rs::table_row_prover_agg | thread=ProverTracker
//@@ requires
        exists|who: u64| #[trigger] tablep(*old(zk_tr), *table, who), 1 <= table.col_vals@.len() <= rand_coeffs@.len(), p_room(*old(zk_tr), 2 * table.col_vals@.len() as int),
//@@ ensures
        ret.is_ok(), p_agg(*old(zk_tr), *final(zk_tr), *table, rand_coeffs@, ret.unwrap()),
//@@ entry
    let ghost a = *zk_tr; let ghost who = choose|who: u64| #[trigger] tablep(a, *table, who); let ghost cs = table.col_vals@; let ghost k = rand_coeffs@; proof { assert(hp(a, cs[0])); }
//@@ inv 0
            zk_n0 == cs.len() - 1, p_more(a, *zk_tr, 2 * zk_i0 + 1), hp(*zk_tr, res_poly), res_poly.num_vars == table.selector.num_vars, res_poly.tracker == cs[0].tracker, forall|t: TVal| #[trigger] pt_val(*zk_tr, res_poly.id, t) == plin(a, cs, k, t, zk_i0 + 1),
//@@ start 0
        let ghost b0 = *zk_tr; let ghost r0 = res_poly; let ghost j0 = zk_i0 + 1; proof { assert(hp(a, cs[j0])); assert(hp(b0, cs[j0])); assert(cs[j0].tracker.who == who); assert(cs[0].tracker.who == who); }
//@end
pub open spec fn it_mid(a: ProverTracker, b: ProverTracker, tin: Table, tout: Table, c: ProverTracker, k: Seq<F>, d: ProverTracker, bi: Bag, e: ProverTracker, bo: Bag) -> bool {
    p_draw(a, c) && is_pows(k, p_rchal(a), tin.col_vals@.len() as int) && p_agg(c, d, tin, k, bi) && p_agg(d, e, tout, k, bo) && inclp(e, b, bo, bi)
}
/// one challenge, both tables folded row by row with its powers, and the output's bag included in the input's
pub open spec fn it_p(a: ProverTracker, b: ProverTracker, tin: Table, tout: Table) -> bool { exists|c: ProverTracker, k: Seq<F>, d: ProverTracker, bi: Bag, e: ProverTracker, bo: Bag| #[trigger] it_mid(a, b, tin, tout, c, k, d, bi, e, bo) }
pub open spec fn it_cost(tin: Table, tout: Table) -> int { (2 * (tin.col_vals@.len() + tout.col_vals@.len()) + 16) as int }
pub open spec fn it_pre(a: ProverTracker, tin: Table, tout: Table, who: u64) -> bool { p_room(a, it_cost(tin, tout)) && tablep(a, tin, who) && tablep(a, tout, who) && 1 <= tout.col_vals@.len() <= tin.col_vals@.len() }
//@fn src/zksql_poly_iop/index_transform/index_transform.rs::IndexTransformIOP::prove | thread=ProverTracker
//@@ requires
        it_pre(*old(zk_tr), *table_in, *table_out, old(prover_tracker).tracker_rc.who),
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> !old(zk_tr).transcript.is_empty && pcs_fits(old(zk_tr).pcs_param, table_in.selector.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, table_out.selector.num_vars as int),
        ret.is_ok() ==> it_p(*old(zk_tr), *final(zk_tr), *table_in, *table_out),
        ret.is_ok() ==> pt_wf(*final(zk_tr)) && pt_kept(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + it_cost(*table_in, *table_out) && final(zk_tr).pcs_param == old(zk_tr).pcs_param && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr; let ghost who = prover_tracker.tracker_rc.who;
//@@ after-let rand_coeffs
    let ghost c = *zk_tr; proof { assert(tablep(c, *table_in, who)); }
//@@ after-let table_in_agg
    let ghost d = *zk_tr; proof { assert(hp(a, table_in.col_vals@[0])); assert(hp(a, table_out.col_vals@[0])); assert(tablep(d, *table_out, who)); }
//@@ after-let table_out_agg
    let ghost e = *zk_tr;
//@@ pretail
    proof { assert(it_mid(a, *zk_tr, *table_in, *table_out, c, rand_coeffs@, d, table_in_agg, e, table_out_agg)); }
//@end
