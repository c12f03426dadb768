// ---- advice of bag_disjoint ----
//@threaded calc_bag_disjoint_advice
/// a counted value occurs
pub proof fn mcount_wit(p: Seq<F>, s: Seq<F>, v: F, n: int) requires 0 <= n <= p.len(), mcount(p, s, v, n) > 0 ensures p.contains(v) decreases n { if n > 0 && !(s[n - 1] != f0() && p[n - 1] == v) { mcount_wit(p, s, v, n - 1); } else { assert(p[n - 1] == v); } }
/// u lists the values selected in either bag, each once, increasing
pub open spec fn is_union(u: Seq<F>, ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>) -> bool { fstrict(u) && u.len() <= ap.len() + bp.len() && forall|v: F| #[trigger] u.contains(v) <==> mcount(ap, sa, v, ap.len() as int) > 0 || mcount(bp, sb, v, bp.len() as int) > 0 }
pub open spec fn max2(a: int, b: int) -> int { if a >= b { a } else { b } }
/// entry i of a table that ends with list u
pub open spec fn at_end<T>(u: Seq<T>, len: int, i: int) -> T { u[i - (len - u.len())] }
/// zeros, then the union; zeros, then ones; zeros, then each value's count in a, in b
pub open spec fn is_disj(u: Seq<F>, nv: int, ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, d: DenseMultilinearExtension, s: DenseMultilinearExtension, ma: DenseMultilinearExtension, mb: DenseMultilinearExtension) -> bool {
    &&& is_union(u, ap, sa, bp, sb) && dwf(d) && dwf(s) && dwf(ma) && dwf(mb) && d.num_vars == nv && s.num_vars == nv && ma.num_vars == nv && mb.num_vars == nv && u.len() <= p2(nv)
    &&& forall|i: int| 0 <= i < p2(nv) - u.len() ==> #[trigger] d.evaluations@[i] == f0() && s.evaluations@[i] == f0() && ma.evaluations@[i] == f0() && mb.evaluations@[i] == f0()
    &&& forall|i: int| p2(nv) - u.len() <= i < p2(nv) ==> #[trigger] d.evaluations@[i] == at_end(u, p2(nv), i) && s.evaluations@[i] == f1() && ma.evaluations@[i] == fk(mcount(ap, sa, at_end(u, p2(nv), i), ap.len() as int)) && mb.evaluations@[i] == fk(mcount(bp, sb, at_end(u, p2(nv), i), bp.len() as int))
}
pub open spec fn is_disj_advp(a: ProverTracker, f: Bag, g: Bag, d: DenseMultilinearExtension, s: DenseMultilinearExtension, ma: DenseMultilinearExtension, mb: DenseMultilinearExtension) -> bool { exists|u: Seq<F>| #[trigger] is_disj(u, max2(f.poly.num_vars as int, g.poly.num_vars as int) + 1, pvec(a, f.poly), pvec(a, f.selector), pvec(a, g.poly), pvec(a, g.selector), d, s, ma, mb) }
pub open spec fn in_first(s: Seq<F>, n: int, v: F) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == v }
pub open spec fn in_either(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, v: F) -> bool { mcount(ap, sa, v, ap.len() as int) > 0 || mcount(bp, sb, v, bp.len() as int) > 0 }
/// sorted without repetition from the listed values: the union, and short enough
pub proof fn union_of(u0: Seq<F>, u: Seq<F>, ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>)
    requires u0.no_duplicates(), u0.to_multiset() == u.to_multiset(), fsorted(u), forall|v: F| #[trigger] u0.contains(v) <==> in_either(ap, sa, bp, sb, v)
    ensures is_union(u, ap, sa, bp, sb)
{
    perm_nodup(u0, u); fstrict_of(u);
    assert forall|v: F| #[trigger] u.contains(v) <==> in_either(ap, sa, bp, sb, v) by { perm_contains(u0, u, v); }
    assert forall|i: int| 0 <= i < u.len() implies (ap + bp).contains(#[trigger] u[i]) by {
        let v = u[i]; assert(u.contains(v));
        if mcount(ap, sa, v, ap.len() as int) > 0 { mcount_wit(ap, sa, v, ap.len() as int); let k = choose|k: int| 0 <= k < ap.len() && ap[k] == v; assert((ap + bp)[k] == v); }
        else { mcount_wit(bp, sb, v, bp.len() as int); let k = choose|k: int| 0 <= k < bp.len() && bp[k] == v; assert((ap + bp)[ap.len() + k] == v); }
    }
    nodup_len(u, ap + bp);
}
//@fn src/zksql_poly_iop/bag_disjoint/utils.rs::calc_bag_disjoint_advice | thread=ProverTracker sets=sum_evals_map
//@@ requires
        pt_wf(*old(zk_tr)), hp(*old(zk_tr), bag_a.poly), hp(*old(zk_tr), bag_a.selector), bag_a.poly.num_vars == bag_a.selector.num_vars, hp(*old(zk_tr), bag_b.poly), hp(*old(zk_tr), bag_b.selector), bag_b.poly.num_vars == bag_b.selector.num_vars, bag_a.poly.num_vars < 62, bag_b.poly.num_vars < 62,
//@@ ensures
        p_quiet(*old(zk_tr), *final(zk_tr)), ret.is_ok(), is_disj_advp(*old(zk_tr), *bag_a, *bag_b, ret.unwrap().0, ret.unwrap().1, ret.unwrap().2, ret.unwrap().3),
//@@ after-let unique_vals
    let ghost u0 = unique_vals@;
    proof {
        assert(u0.to_set() == sum_evals_map@ && u0.no_duplicates());
        assert forall|v: F| #[trigger] u0.contains(v) <==> in_either(ap, sa, bp, sb, v) by {
            assert(u0.contains(v) <==> u0.to_set().contains(v));
            assert(in_first(zk_s0@, zk_s0@.len() as int, v) <==> zk_s0@.contains(v)); assert(in_first(zk_s1@, zk_s1@.len() as int, v) <==> zk_s1@.contains(v));
            assert(zk_s0@.contains(v) <==> zk_s0@.to_set().contains(v)); assert(zk_s1@.contains(v) <==> zk_s1@.to_set().contains(v));
            assert(zk_s0@.contains(v) <==> a_mults_map@.contains_key(v)); assert(zk_s1@.contains(v) <==> b_mults_map@.contains_key(v));
        }
    }
//@@ after-call sort
    proof { union_of(u0, unique_vals@, ap, sa, bp, sb); p2_mono(bag_a.poly.num_vars as int, bag_sum_nv as int - 1); p2_mono(bag_b.poly.num_vars as int, bag_sum_nv as int - 1); assert(ap.len() + bp.len() <= bag_sum_len); }
//@@ entry
    broadcast use pvec_still, ipow_p2, vstd::std_specs::hash::group_hash_axioms, ax_fkey;
    let ghost a = *zk_tr; let ghost ap = pvec(a, bag_a.poly); let ghost sa = pvec(a, bag_a.selector); let ghost bp = pvec(a, bag_b.poly); let ghost sb = pvec(a, bag_b.selector);
    proof { pt_nv_small(a, bag_a.poly.id); pt_nv_small(a, bag_b.poly.id); p2_64(); p2_mono(max2(bag_a.poly.num_vars as int, bag_b.poly.num_vars as int) + 1, 63); }
//@@ inv 0
            zk_n0 == zk_s0@.len(), forall|v: F| #[trigger] sum_evals_map@.contains(v) <==> in_first(zk_s0@, zk_i0 as int, v),
//@@ inv 1
            zk_n1 == zk_s1@.len(), forall|v: F| #[trigger] sum_evals_map@.contains(v) <==> in_first(zk_s0@, zk_s0@.len() as int, v) || in_first(zk_s1@, zk_i1 as int, v),
//@@ inv 2
            zk_n2 == zk_s2@.len(), zk_acc0@ =~= zk_s2@.take(zk_i2 as int), zk_i2 == zk_n2 ==> zk_acc0@ =~= zk_s2@,
//@@ inv 3
            zk_n3 == unique_vals@.len(), is_counts(a_mults_map@, ap, sa, ap.len() as int), is_counts(b_mults_map@, bp, sb, bp.len() as int),
            unique_vals@.len() <= bag_sum_len, a_mults_evals@.len() == bag_sum_len - unique_vals@.len() + zk_i3, b_mults_evals@.len() == bag_sum_len - unique_vals@.len() + zk_i3,
            forall|i: int| 0 <= i < a_mults_evals@.len() ==> #[trigger] a_mults_evals@[i] == (if i < bag_sum_len - unique_vals@.len() { f0() } else { fk(mcount(ap, sa, at_end(unique_vals@, bag_sum_len as int, i), ap.len() as int)) }),
            forall|i: int| 0 <= i < b_mults_evals@.len() ==> #[trigger] b_mults_evals@[i] == (if i < bag_sum_len - unique_vals@.len() { f0() } else { fk(mcount(bp, sb, at_end(unique_vals@, bag_sum_len as int, i), bp.len() as int)) }),
//@@ start 3
        proof { reveal(f0); mcount_le(ap, sa, unique_vals@[zk_i3 as int], ap.len() as int); mcount_le(bp, sb, unique_vals@[zk_i3 as int], bp.len() as int); }
//@@ tail
    proof {
        reveal(f0);
        let u = unique_vals@; let nv = bag_sum_nv as int; let d = zk_ret->Ok_0.0; let s = zk_ret->Ok_0.1; let ma = zk_ret->Ok_0.2; let mb = zk_ret->Ok_0.3;
        assert(dwf(d) && dwf(s) && dwf(ma) && dwf(mb));
        assert(zk_ret.is_ok());
        assert forall|i: int| 0 <= i < p2(nv) - u.len() implies #[trigger] d.evaluations@[i] == f0() && s.evaluations@[i] == f0() && ma.evaluations@[i] == f0() && mb.evaluations@[i] == f0() by { }
        assert forall|i: int| p2(nv) - u.len() <= i < p2(nv) implies #[trigger] d.evaluations@[i] == at_end(u, p2(nv), i) by { }
        assert forall|i: int| p2(nv) - u.len() <= i < p2(nv) implies #[trigger] s.evaluations@[i] == f1() by { }
        assert forall|i: int| p2(nv) - u.len() <= i < p2(nv) implies #[trigger] ma.evaluations@[i] == fk(mcount(ap, sa, at_end(u, p2(nv), i), ap.len() as int)) by { }
        assert forall|i: int| p2(nv) - u.len() <= i < p2(nv) implies #[trigger] d.evaluations@[i] == at_end(u, p2(nv), i) && s.evaluations@[i] == f1() && ma.evaluations@[i] == fk(mcount(ap, sa, at_end(u, p2(nv), i), ap.len() as int)) && mb.evaluations@[i] == fk(mcount(bp, sb, at_end(u, p2(nv), i), bp.len() as int)) by { }
        assert(is_disj(unique_vals@, bag_sum_nv as int, ap, sa, bp, sb, zk_ret->Ok_0.0, zk_ret->Ok_0.1, zk_ret->Ok_0.2, zk_ret->Ok_0.3)); }
//@end
