// ---- src/arithmetic/multilinear_polynomial.rs: fixing variables and evaluation ----
//@fn src/arithmetic/multilinear_polynomial.rs::fix_one_variable_helper
//@@ requires
        1 <= nv < 63, data@.len() == p2(nv as int),
//@@ ensures
        ret@ == fold_lo(data@, *point),
//@@ entry
    broadcast use shifts;
    proof { p2_pos(nv - 1); p2_mono(nv - 1, 61); p2_64(); p2_mono(61, 62); }
//@@ inv 0
            zk_n0 == p2(nv - 1), res@.len() == p2(nv - 1),
            forall|i: int| 0 <= i < zk_i0 ==> #[trigger] res@[i] == fold_lo(data@, *point)[i],
//@@ tail
    assert(zk_ret@ =~= fold_lo(data@, *point));
//@end
pub proof fn fold_lo_snoc(ev: Seq<F>, r: Seq<F>, k: int) requires 0 <= k < r.len() ensures fold_lo_n(ev, r.subrange(0, k + 1)) == fold_lo(fold_lo_n(ev, r.subrange(0, k)), r[k]) decreases k {
    let a = r.subrange(0, k + 1); let b = r.subrange(0, k);
    if k == 0 { assert(a.subrange(1, 1) =~= Seq::<F>::empty()); assert(b =~= Seq::<F>::empty()); assert(fold_lo_n(fold_lo(ev, a[0]), a.subrange(1, 1)) == fold_lo(ev, a[0])); }
    else {
        let t = r.subrange(1, r.len() as int);
        fold_lo_snoc(fold_lo(ev, r[0]), t, k - 1);
        assert(a.subrange(1, k + 1) =~= t.subrange(0, k)); assert(b.subrange(1, k) =~= t.subrange(0, k - 1));
    }
}
pub proof fn fold_lo_n_mle(ev: Seq<F>, a: Seq<F>, b: Seq<F>) requires ev.len() == p2((a.len() + b.len()) as int) ensures mlev(fold_lo_n(ev, a), b) == mlev(ev, a + b), fold_lo_n(ev, a).len() == p2(b.len() as int) decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let r = a + b; mle_fold_lo(ev, r);
        assert(r.subrange(1, r.len() as int) =~= a.subrange(1, a.len() as int) + b);
        fold_lo_n_mle(fold_lo(ev, a[0]), a.subrange(1, a.len() as int), b);
    }
}
/// out is the table of p restricted to the first variables = pt
pub open spec fn fixed_first(out: Seq<F>, ev: Seq<F>, pt: Seq<F>, n: int) -> bool {
    out == fold_lo_n(ev, pt) && out.len() == p2(n - pt.len()) && forall|q: Seq<F>| q.len() == n - pt.len() ==> #[trigger] mlev(out, q) == mlev(ev, pt + q)
}
pub proof fn fixed_first_intro(ev: Seq<F>, pt: Seq<F>, n: int) requires pt.len() <= n, ev.len() == p2(n) ensures fixed_first(fold_lo_n(ev, pt), ev, pt, n) {
    assert forall|q: Seq<F>| q.len() == n - pt.len() implies #[trigger] mlev(fold_lo_n(ev, pt), q) == mlev(ev, pt + q) by { fold_lo_n_mle(ev, pt, q); }
    fold_lo_n_mle(ev, pt, Seq::new((n - pt.len()) as nat, |i: int| f0()));
}
//@fn src/arithmetic/multilinear_polynomial.rs::fix_variables
//@@ requires
        dwf(*poly), partial_point@.len() <= poly.num_vars,
//@@ ensures
        ret.num_vars == poly.num_vars - partial_point@.len(), dwf(ret),
        fixed_first(ret.evaluations@, poly.evaluations@, partial_point@, poly.num_vars as int),
//@@ entry
    broadcast use shifts;
    let ghost ev = poly.evaluations@; let ghost n0 = poly.num_vars as int;
    assert(partial_point@.subrange(0, 0) =~= Seq::<F>::empty());
//@@ inv 0
            zk_n0 == dim, poly@ == fold_lo_n(ev, partial_point@.subrange(0, zk_i0 as int)), poly@.len() == p2(nv - zk_i0),
//@@ start 0
        proof { fold_lo_snoc(ev, partial_point@, zk_i0 as int); p2_pos(nv - zk_i0 - 1); }
//@@ after 0
    proof { assert(partial_point@.subrange(0, dim as int) =~= partial_point@); fixed_first_intro(ev, partial_point@, n0); p2_pos(nv - dim); assert(poly@.subrange(0, poly@.len() as int) =~= poly@); }
//@end
pub proof fn fixed_all(out: Seq<F>, ev: Seq<F>, pt: Seq<F>) requires fixed_first(out, ev, pt, pt.len() as int) ensures out.len() == 1, out[0] == mlev(ev, pt) {
    assert(p2(0) == 1); mle_nil(out, Seq::<F>::empty()); assert(pt + Seq::<F>::empty() =~= pt);
    assert(mlev(out, Seq::<F>::empty()) == mlev(ev, pt + Seq::<F>::empty()));
}
//@fn src/arithmetic/multilinear_polynomial.rs::evaluate_opt
//@@ requires
        dwf(*poly), point@.len() == poly.num_vars,
//@@ ensures
        ret == mlev(poly.evaluations@, point@),
//@@ entry
    proof { assert forall|out: Seq<F>| fixed_first(out, poly.evaluations@, point@, point@.len() as int) implies out.len() == 1 && #[trigger] out[0] == mlev(poly.evaluations@, point@) by { fixed_all(out, poly.evaluations@, point@); } assert(p2(0) == 1); }
//@end
