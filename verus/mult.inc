// ---- multiplicity counts: src/zksql_poly_iop/util/multiplicity_count.rs ----
//@typemap E::ScalarField => F
//@typemap HashMap<E::ScalarField,u64> => HashMap<F, u64>
/// how often v occurs among the first n selected entries
pub open spec fn mcount(p: Seq<F>, s: Seq<F>, v: F, n: int) -> int decreases n { if n <= 0 { 0 } else { mcount(p, s, v, n - 1) + (if s[n - 1] != f0() && p[n - 1] == v { 1int } else { 0 }) } }
pub proof fn mcount_le(p: Seq<F>, s: Seq<F>, v: F, n: int) requires n >= 0 ensures 0 <= mcount(p, s, v, n) <= n decreases n { if n > 0 { mcount_le(p, s, v, n - 1); } }
/// the map holds exactly the values that occur, with how often they do
pub open spec fn is_counts(m: Map<F, u64>, p: Seq<F>, s: Seq<F>, n: int) -> bool { forall|v: F| (#[trigger] m.contains_key(v) <==> mcount(p, s, v, n) > 0) && (m.contains_key(v) ==> m[v] == mcount(p, s, v, n)) }
//@fn src/zksql_poly_iop/util/multiplicity_count.rs::vec_multiplicity_count
//@@ requires
        sel@.len() >= poly@.len(),
//@@ ensures
        is_counts(ret@, poly@, sel@, poly@.len() as int),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_fkey;
//@@ inv 0
            zk_n0 == poly@.len(), is_counts(mults_map@, poly@, sel@, zk_i0 as int),
//@@ start 0
        let ghost m0 = mults_map@; proof { mcount_le(poly@, sel@, poly@[zk_i0 as int], zk_i0 as int); }
//@end
//@fn src/zksql_poly_iop/util/multiplicity_count.rs::mle_multiplicity_count
//@@ requires
        sel.evaluations@.len() >= poly.evaluations@.len(),
//@@ ensures
        is_counts(ret@, poly.evaluations@, sel.evaluations@, poly.evaluations@.len() as int),
//@end
/// multiplicity advice for an inclusion: the included bag's count at the first selected occurrence, zero elsewhere
pub open spec fn incl_adv(ip: Seq<F>, is: Seq<F>, sp: Seq<F>, ss: Seq<F>, i: int) -> F { if ss[i] != f0() && mcount(sp, ss, sp[i], i) == 0 { fk(mcount(ip, is, sp[i], ip.len() as int)) } else { f0() } }
pub open spec fn is_incl_adv(d: Seq<F>, ip: Seq<F>, is: Seq<F>, sp: Seq<F>, ss: Seq<F>) -> bool { d.len() == sp.len() && forall|i: int| 0 <= i < sp.len() ==> #[trigger] d[i] == incl_adv(ip, is, sp, ss, i) }
//@fn src/zksql_poly_iop/bag_inclusion/utils.rs::calc_bag_inclusion_advice_from_mle
//@@ requires
        dwf(*included_bag_poly), dwf(*included_bag_sel), dwf(*super_bag_poly), dwf(*super_bag_sel), included_bag_sel.num_vars == included_bag_poly.num_vars, super_bag_sel.num_vars == super_bag_poly.num_vars,
//@@ ensures
        dwf(ret), ret.num_vars == super_bag_poly.num_vars, is_incl_adv(ret.evaluations@, included_bag_poly.evaluations@, included_bag_sel.evaluations@, super_bag_poly.evaluations@, super_bag_sel.evaluations@),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_fkey;
    let ghost ip = included_bag_poly.evaluations@; let ghost is = included_bag_sel.evaluations@; let ghost sp = super_bag_poly.evaluations@; let ghost ss = super_bag_sel.evaluations@;
//@@ after-let included_bag_mults_map
    let ghost m0 = included_bag_mults_map@;
//@@ inv 0
            zk_n0 == sp.len(), super_bag_mult_evals@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] super_bag_mult_evals@[j] == incl_adv(ip, is, sp, ss, j),
            included_bag_mults_map@.dom() == m0.dom(), forall|v: F| #[trigger] included_bag_mults_map@.contains_key(v) ==> included_bag_mults_map@[v] == (if mcount(sp, ss, v, zk_i0 as int) > 0 { 0u64 } else { m0[v] }),
//@@ start 0
        proof { reveal(f0); mcount_le(sp, ss, sp[zk_i0 as int], zk_i0 as int); mcount_le(ip, is, sp[zk_i0 as int], ip.len() as int); }
//@end
/// one where the value does not occur among the selected entries of the other side
pub open spec fn is_only_sel(d: Seq<F>, p: Seq<F>, op: Seq<F>, os: Seq<F>) -> bool { d.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] d[i] == (if mcount(op, os, p[i], op.len() as int) > 0 { f0() } else { f1() }) }
//@fn src/zksql_poly_iop/join_reduction/utils.rs::calc_join_reduction_lr_sel_advice
//@@ requires
        dwf(*poly_a), dwf(*a_sel), dwf(*poly_b), dwf(*b_sel), a_sel.num_vars == poly_a.num_vars, b_sel.num_vars == poly_b.num_vars,
//@@ ensures
        dwf(ret.0) && dwf(ret.1) && ret.0.num_vars == poly_a.num_vars && ret.1.num_vars == poly_b.num_vars,
        is_only_sel(ret.0.evaluations@, poly_a.evaluations@, poly_b.evaluations@, b_sel.evaluations@), is_only_sel(ret.1.evaluations@, poly_b.evaluations@, poly_a.evaluations@, a_sel.evaluations@),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_fkey;
    let ghost ap = poly_a.evaluations@; let ghost sa = a_sel.evaluations@; let ghost bp = poly_b.evaluations@; let ghost sb = b_sel.evaluations@;
//@@ inv 0
            zk_n0 == ap.len(), l_sel_evals@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] l_sel_evals@[j] == (if mcount(bp, sb, ap[j], bp.len() as int) > 0 { f0() } else { f1() }),
//@@ inv 1
            zk_n1 == bp.len(), r_sel_evals@.len() == zk_i1, forall|j: int| 0 <= j < zk_i1 ==> #[trigger] r_sel_evals@[j] == (if mcount(ap, sa, bp[j], ap.len() as int) > 0 { f0() } else { f1() }),
//@end
