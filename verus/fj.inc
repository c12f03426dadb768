// ---- advice of the one-to-many join ----
//@threaded calc_final_join_one_to_many_index_transform calc_index_transformed_bag
//@typemap HashMap<E::ScalarField,usize> => HashMap<F, usize>
/// the last of the first n active rows that hold v, or -1
pub open spec fn last_hit(p: Seq<F>, s: Seq<F>, v: F, n: int) -> int decreases n { if n <= 0 { -1 } else if s[n - 1] == f1() && p[n - 1] == v { n - 1 } else { last_hit(p, s, v, n - 1) } }
pub proof fn last_hit_in(p: Seq<F>, s: Seq<F>, v: F, n: int) ensures last_hit(p, s, v, n) >= 0 ==> last_hit(p, s, v, n) < n && s[last_hit(p, s, v, n)] == f1() && p[last_hit(p, s, v, n)] == v, last_hit(p, s, v, n) >= -1,
    last_hit(p, s, v, n) < 0 ==> forall|i: int| 0 <= i < n ==> #[trigger] s[i] != f1() || p[i] != v decreases n { if n > 0 { last_hit_in(p, s, v, n - 1); } }
pub open spec fn is_last(m: Map<F, usize>, p: Seq<F>, s: Seq<F>, n: int) -> bool { forall|v: F| (#[trigger] m.contains_key(v) <==> last_hit(p, s, v, n) >= 0) && (m.contains_key(v) ==> m[v] == last_hit(p, s, v, n)) }
pub open spec fn fj_found(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, n: int) -> bool { forall|j: int| 0 <= j < n && #[trigger] sb[j] == f1() ==> last_hit(ap, sa, bp[j], ap.len() as int) >= 0 }
pub open spec fn fj_at(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, j: int) -> int { if sb[j] == f1() { last_hit(ap, sa, bp[j], ap.len() as int) } else { 0 } }
/// for every active row of the right table the row of the left table with its key, row 0 elsewhere
pub open spec fn is_fj_index(d: Seq<usize>, ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>) -> bool { d.len() == bp.len() && fj_found(ap, sa, bp, sb, bp.len() as int) && forall|j: int| 0 <= j < bp.len() ==> #[trigger] d[j] == fj_at(ap, sa, bp, sb, j) }
//@fn src/zksql_poly_iop/final_join_one_to_many/utils.rs::calc_final_join_one_to_many_index_transform | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)), exists|who: u64| #[trigger] tablep(*old(zk_tr), *table_a, who) && tablep(*old(zk_tr), *table_b, who), a_join_col_index < table_a.col_vals@.len(), b_join_col_index < table_b.col_vals@.len(),
//@@ ensures
        p_quiet(*old(zk_tr), *final(zk_tr)),
        ret.is_ok() <==> fj_found(pvec(*old(zk_tr), table_a.col_vals@[a_join_col_index as int]), pvec(*old(zk_tr), table_a.selector), pvec(*old(zk_tr), table_b.col_vals@[b_join_col_index as int]), pvec(*old(zk_tr), table_b.selector), p2(table_b.selector.num_vars as int)),
        ret.is_ok() ==> is_fj_index(ret.unwrap()@, pvec(*old(zk_tr), table_a.col_vals@[a_join_col_index as int]), pvec(*old(zk_tr), table_a.selector), pvec(*old(zk_tr), table_b.col_vals@[b_join_col_index as int]), pvec(*old(zk_tr), table_b.selector)),
//@@ entry
    broadcast use pvec_still, vstd::std_specs::hash::group_hash_axioms, ax_fkey;
    let ghost a = *zk_tr; let ghost who = choose|who: u64| #[trigger] tablep(a, *table_a, who) && tablep(a, *table_b, who); let ghost ha = table_a.col_vals@[a_join_col_index as int]; let ghost hb = table_b.col_vals@[b_join_col_index as int]; let ghost ap = pvec(a, ha); let ghost sa = pvec(a, table_a.selector); let ghost bp = pvec(a, hb); let ghost sb = pvec(a, table_b.selector);
    proof { assert(hp(a, ha) && hp(a, hb)); p2_pos(ha.num_vars as int); p2_pos(hb.num_vars as int); }
//@@ after-let a_join_col_evals
    proof { assert(a_join_col_evals@ =~= ap); }
//@@ after-let a_sel_evals
    proof { assert(a_sel_evals@ =~= sa); }
//@@ inv 0
            zk_n0 == ap.len(), is_last(a_join_col_hashmap@, ap, sa, zk_i0 as int),
//@@ start 0
        let ghost m0 = a_join_col_hashmap@; proof { assert(is_last(m0, ap, sa, zk_i0 as int)); }
//@@ after-let b_join_col_evals
    proof { assert(b_join_col_evals@ =~= bp); }
//@@ after-let b_sel_evals
    proof { assert(b_sel_evals@ =~= sb); }
//@@ inv 1
            zk_n1 == bp.len(), index_transform@.len() == zk_i1, fj_found(ap, sa, bp, sb, zk_i1 as int), forall|j: int| 0 <= j < zk_i1 ==> #[trigger] index_transform@[j] == fj_at(ap, sa, bp, sb, j),
//@@ start 1
        let ghost j1 = zk_i1 as int; proof { assert(is_last(a_join_col_hashmap@, ap, sa, ap.len() as int)); assert(a_join_col_hashmap@.contains_key(bp[j1]) <==> last_hit(ap, sa, bp[j1], ap.len() as int) >= 0); }
//@end
pub open spec fn is_gather(d: DenseMultilinearExtension, ix: Seq<usize>, old: Seq<F>, act: Seq<F>, nv: int) -> bool { dwf(d) && d.num_vars == nv && forall|j: int| 0 <= j < p2(nv) ==> #[trigger] d.evaluations@[j] == (if act[j] == f1() { old[ix[j] as int] } else { f0() }) }
//@fn src/zksql_poly_iop/final_join_one_to_many/utils.rs::calc_index_transformed_bag | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)), hp(*old(zk_tr), *old_poly), hp(*old(zk_tr), *new_activator), index_transform@.len() == p2(new_activator.num_vars as int), forall|j: int| 0 <= j < index_transform@.len() && pvec(*old(zk_tr), *new_activator)[j] == f1() ==> #[trigger] index_transform@[j] < p2(old_poly.num_vars as int),
//@@ ensures
        p_quiet(*old(zk_tr), *final(zk_tr)), ret.is_ok(), is_gather(ret.unwrap(), index_transform@, pvec(*old(zk_tr), *old_poly), pvec(*old(zk_tr), *new_activator), new_activator.num_vars as int),
//@@ entry
    broadcast use pvec_still;
    let ghost a = *zk_tr; let ghost o = pvec(a, *old_poly); let ghost ac = pvec(a, *new_activator); proof { pt_nv_small(a, new_activator.id); p2_64(); p2_pos(new_activator.num_vars as int); p2_pos(old_poly.num_vars as int); }
//@@ after-let old_poly_evals
    proof { assert(old_poly_evals@ =~= o); }
//@@ after-let new_activator_evals
    proof { assert(new_activator_evals@ =~= ac); }
//@@ inv 0
            zk_n0 == index_transform@.len(), transformed_poly_evals@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] transformed_poly_evals@[j] == (if ac[j] == f1() { o[index_transform@[j] as int] } else { f0() }),
//@end
