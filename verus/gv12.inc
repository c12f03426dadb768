// ---- verifier side of cross_product ----
pub struct CrossProductIOP { }
//@threaded CrossProductIOP::verifier_cross_product
/// the closure reads the point without its first n coordinates (front) or its last n (back), and refuses shorter points
pub open spec fn cp_front(a: VerifierTracker, b: VerifierTracker, h: TrackedComm, r: TrackedComm, n: int) -> bool {
    &&& vt_has(b, r.id) && r.tracker == h.tracker && (forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, r.id, q, pt) == vt_val(a, h.id, q, pt.subrange(n, pt.len() as int)))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, r.id, q, pt) == (n <= pt.len() && vt_def(a, h.id, q, pt.subrange(n, pt.len() as int)))
}
pub open spec fn cp_back(a: VerifierTracker, b: VerifierTracker, h: TrackedComm, r: TrackedComm, n: int) -> bool {
    &&& vt_has(b, r.id) && r.tracker == h.tracker && (forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, r.id, q, pt) == vt_val(a, h.id, q, pt.subrange(0, pt.len() - n)))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, r.id, q, pt) == (n <= pt.len() && vt_def(a, h.id, q, pt.subrange(0, pt.len() - n)))
}
pub open spec fn cp_v(a: VerifierTracker, b: VerifierTracker, w: TableComm, x: TableComm, r: TableComm) -> bool {
    let m = w.col_vals@.len() as int; let k = x.col_vals@.len() as int; let na = w.num_vars as int; let nb = x.num_vars as int;
    &&& v_more(a, b, m + k + 3) && r.col_vals@.len() == m + k && r.num_vars == na + nb && vt_has(b, r.selector.id) && r.selector.tracker == w.selector.tracker
    &&& forall|i: int| 0 <= i < m ==> cp_front(a, b, w.col_vals@[i], #[trigger] r.col_vals@[i], nb)
    &&& forall|i: int| m <= i < m + k ==> cp_back(a, b, x.col_vals@[i - m], #[trigger] r.col_vals@[i], na)
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, r.selector.id, q, pt) == fmul(vt_val(a, w.selector.id, q, pt.subrange(nb, pt.len() as int)), vt_val(a, x.selector.id, q, pt.subrange(0, pt.len() - na)))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, r.selector.id, q, pt) == (nb <= pt.len() && na <= pt.len() && vt_def(a, w.selector.id, q, pt.subrange(nb, pt.len() as int)) && vt_def(a, x.selector.id, q, pt.subrange(0, pt.len() - na)))
}
//@fn src/zksql_poly_iop/cross_product/cross_product.rs::CrossProductIOP::verifier_cross_product | thread=VerifierTracker
//@@ requires
        exists|who: u64| #[trigger] tablec(*old(zk_tr), *table_a, who) && tablec(*old(zk_tr), *table_b, who), table_a.num_vars + table_b.num_vars < 62, table_a.col_vals@.len() + table_b.col_vals@.len() < 0x7fff_ffff, v_room(*old(zk_tr), (table_a.col_vals@.len() + table_b.col_vals@.len() + 3) as int),
//@@ ensures
        ret.is_ok(), cp_v(*old(zk_tr), *final(zk_tr), *table_a, *table_b, ret.unwrap()),
//@@ entry
    let ghost a = *zk_tr; let ghost who = choose|who: u64| #[trigger] tablec(a, *table_a, who) && tablec(a, *table_b, who); let ghost w = table_a.col_vals@; let ghost x = table_b.col_vals@; let ghost na = table_a.num_vars as int; let ghost nb = table_b.num_vars as int;
//@@ inv 0
            zk_n0 == w.len(), v_more(a, *zk_tr, zk_i0 as int), result_table_col_vals@.len() == zk_i0, forall|i: int| 0 <= i < zk_i0 ==> cp_front(a, *zk_tr, w[i], #[trigger] result_table_col_vals@[i], nb),
//@@ start 0
        let ghost b0 = *zk_tr; proof { assert(hc(a, w[zk_i0 as int], who)); }
//@@ inv 1
            zk_n1 == x.len(), v_more(a, *zk_tr, (w.len() + zk_i1) as int), result_table_col_vals@.len() == w.len() + zk_i1, forall|i: int| 0 <= i < w.len() ==> cp_front(a, *zk_tr, w[i], #[trigger] result_table_col_vals@[i], nb),
            forall|i: int| w.len() <= i < w.len() + zk_i1 ==> cp_back(a, *zk_tr, x[i - w.len()], #[trigger] result_table_col_vals@[i], na),
//@@ start 1
        let ghost b0 = *zk_tr; proof { assert(hc(a, x[zk_i1 as int], who)); }
//@end
