//@include mle_fix.inc
//@fn src/arithmetic/multilinear_polynomial.rs::fix_variables_no_par
//@@ requires
        dwf(*poly), partial_point@.len() <= poly.num_vars,
//@@ ensures
        ret.num_vars == poly.num_vars - partial_point@.len(), dwf(ret),
        fixed_first(ret.evaluations@, poly.evaluations@, partial_point@, poly.num_vars as int),
//@@ entry
    broadcast use shifts;
    let ghost ev = poly.evaluations@; let ghost n0 = poly.num_vars as int;
    assert(partial_point@.subrange(0, 0) =~= Seq::<F>::empty()); 
    proof { fixed_first_intro(ev, partial_point@.subrange(0, 0), n0); p2_mono(n0, 62); p2_64(); }
//@@ inv 0
            zk_n0 == dim, poly@.len() == p2(nv as int),
            fold_lo_n(ev, partial_point@.subrange(0, zk_i0 as int)).len() == p2(nv - zk_i0),
            p2(nv - zk_i0) <= poly@.len(), poly@.subrange(0, p2(nv - zk_i0)) =~= fold_lo_n(ev, partial_point@.subrange(0, zk_i0 as int)),
//@@ start 0
        proof { fold_lo_snoc(ev, partial_point@, zk_i0 as int); p2_pos(nv - zk_i0 - 1); }
        let ghost cur = fold_lo_n(ev, partial_point@.subrange(0, zk_i0 as int)); let ghost before = poly@;
        assert forall|j: int| 0 <= j < cur.len() implies cur[j] == before[j] by { assert(before.subrange(0, p2(nv - zk_i0))[j] == before[j]); }
//@@ inv 1
                zk_n1 == p2(nv - i), poly@.len() == p2(nv as int), 2 * p2(nv - i) == cur.len(),
                forall|j: int| 0 <= j < zk_i1 ==> #[trigger] poly@[j] == fold_lo(cur, partial_point@[i - 1])[j],
                forall|j: int| zk_i1 <= j < cur.len() ==> #[trigger] poly@[j] == cur[j],
//@@ after 0
    proof { assert(partial_point@.subrange(0, dim as int) =~= partial_point@); fixed_first_intro(ev, partial_point@, n0); p2_pos(nv - dim); }
//@end
//@fn src/arithmetic/multilinear_polynomial.rs::evaluate_no_par
//@@ requires
        dwf(*poly), point@.len() == poly.num_vars,
//@@ ensures
        ret == mlev(poly.evaluations@, point@),
//@@ entry
    proof { assert forall|out: Seq<F>| fixed_first(out, poly.evaluations@, point@, point@.len() as int) implies out.len() == 1 && #[trigger] out[0] == mlev(poly.evaluations@, point@) by { fixed_all(out, poly.evaluations@, point@); } assert(p2(0) == 1); }
//@end
pub open spec fn fold_hi_n(ev: Seq<F>, r: Seq<F>) -> Seq<F> decreases r.len() { if r.len() == 0 { ev } else { fold_hi_n(fold_hi(ev, r[r.len() - 1]), r.subrange(0, r.len() - 1)) } }
pub proof fn fold_hi_snoc(ev: Seq<F>, r: Seq<F>, k: int) requires 0 <= k < r.len() ensures fold_hi_n(ev, r.subrange(k, r.len() as int)) == fold_hi(fold_hi_n(ev, r.subrange(k + 1, r.len() as int)), r[k]) decreases r.len() - k {
    let n = r.len() as int; let a = r.subrange(k, n); let b = r.subrange(k + 1, n);
    if k == n - 1 { assert(a.subrange(0, 0) =~= Seq::<F>::empty()); assert(b =~= Seq::<F>::empty()); assert(fold_hi_n(fold_hi(ev, a[0]), a.subrange(0, 0)) == fold_hi(ev, a[0])); }
    else {
        let t = r.subrange(0, n - 1);
        fold_hi_snoc(fold_hi(ev, r[n - 1]), t, k);
        assert(a.subrange(0, a.len() - 1) =~= t.subrange(k, n - 1)); assert(b.subrange(0, b.len() - 1) =~= t.subrange(k + 1, n - 1));
    }
}
pub proof fn fold_hi_n_mle(ev: Seq<F>, a: Seq<F>, b: Seq<F>) requires ev.len() == p2((a.len() + b.len()) as int) ensures mlev(fold_hi_n(ev, b), a) == mlev(ev, a + b), fold_hi_n(ev, b).len() == p2(a.len() as int) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let r = a + b; mle_fold_hi(ev, r);
        assert(r.subrange(0, r.len() - 1) =~= a + b.subrange(0, b.len() - 1));
        fold_hi_n_mle(fold_hi(ev, b[b.len() - 1]), a, b.subrange(0, b.len() - 1));
    }
}
pub open spec fn fixed_last(out: Seq<F>, ev: Seq<F>, pt: Seq<F>, n: int) -> bool {
    out == fold_hi_n(ev, pt) && out.len() == p2(n - pt.len()) && forall|q: Seq<F>| q.len() == n - pt.len() ==> #[trigger] mlev(out, q) == mlev(ev, q + pt)
}
pub proof fn fixed_last_intro(ev: Seq<F>, pt: Seq<F>, n: int) requires pt.len() <= n, ev.len() == p2(n) ensures fixed_last(fold_hi_n(ev, pt), ev, pt, n) {
    assert forall|q: Seq<F>| q.len() == n - pt.len() implies #[trigger] mlev(fold_hi_n(ev, pt), q) == mlev(ev, q + pt) by { fold_hi_n_mle(ev, q, pt); }
    fold_hi_n_mle(ev, Seq::new((n - pt.len()) as nat, |i: int| f0()), pt);
}
pub proof fn mul_comm_fold(a: F, b: F) ensures fmul(a, b) == fmul(b, a) { fmul_comm(a, b); }
//@fn src/arithmetic/multilinear_polynomial.rs::fix_last_variable_helper
//@@ requires
        1 <= nv < 63, data@.len() == p2(nv as int),
//@@ ensures
        ret@ == fold_hi(data@, *point),
//@@ entry
    broadcast use shifts;
    proof { p2_pos(nv - 1); p2_mono(nv - 1, 61); p2_64(); p2_mono(61, 62); }
//@@ inv 0
            zk_n0 == p2(nv - 1), res@.len() == p2(nv - 1), half_len == p2(nv - 1),
            forall|i: int| 0 <= i < zk_i0 ==> #[trigger] res@[i] == fold_hi(data@, *point)[i],
//@@ tail
    assert(zk_ret@ =~= fold_hi(data@, *point));
//@end
//@fn src/arithmetic/multilinear_polynomial.rs::fix_last_variable_no_par
//@@ requires
        1 <= poly.num_vars, dwf(*poly),
//@@ ensures
        ret.evaluations@ == fold_hi(poly.evaluations@, *partial_point), ret.num_vars == poly.num_vars - 1, dwf(ret),
//@@ entry
    broadcast use shifts, fmul_comm;
    proof { p2_pos(poly.num_vars - 1); p2_mono(poly.num_vars - 1, 61); p2_64(); p2_mono(61, 62); }
//@@ inv 0
            zk_n0 == p2(nv - 1), res@.len() == p2(nv - 1), half_len == p2(nv - 1), nv == poly.num_vars,
            forall|i: int| 0 <= i < zk_i0 ==> #[trigger] res@[i] == fold_hi(poly.evaluations@, *partial_point)[i],
//@@ after 0
    assert(res@ =~= fold_hi(poly.evaluations@, *partial_point));
//@end
//@fn src/arithmetic/multilinear_polynomial.rs::fix_last_variables
//@@ requires
        dwf(*poly), partial_point@.len() <= poly.num_vars,
//@@ ensures
        ret.num_vars == poly.num_vars - partial_point@.len(), dwf(ret),
        fixed_last(ret.evaluations@, poly.evaluations@, partial_point@, poly.num_vars as int),
//@@ entry
    broadcast use shifts;
    let ghost ev = poly.evaluations@; let ghost n0 = poly.num_vars as int; let ghost pl = partial_point@.len() as int;
    assert(partial_point@.subrange(pl, pl) =~= Seq::<F>::empty());
//@@ inv 0
            zk_n0 == dim, poly@ == fold_hi_n(ev, partial_point@.subrange(dim - zk_i0, dim as int)), poly@.len() == p2(nv - zk_i0),
//@@ start 0
        proof { fold_hi_snoc(ev, partial_point@, dim - zk_i0 - 1); p2_pos(nv - zk_i0 - 1); }
//@@ after 0
    proof { assert(partial_point@.subrange(0, dim as int) =~= partial_point@); fixed_last_intro(ev, partial_point@, n0); p2_pos(nv - dim); assert(poly@.subrange(0, poly@.len() as int) =~= poly@); }
//@end
//@fn src/arithmetic/multilinear_polynomial.rs::fix_last_variables_no_par
//@@ requires
        dwf(*poly), 1 <= partial_point@.len() <= poly.num_vars,
//@@ ensures
        ret.num_vars == poly.num_vars - partial_point@.len(), dwf(ret),
        fixed_last(ret.evaluations@, poly.evaluations@, partial_point@, poly.num_vars as int),
//@@ entry
    let ghost ev = poly.evaluations@; let ghost n0 = poly.num_vars as int; let ghost pl = partial_point@.len() as int;
    assert(partial_point@.subrange(pl, pl) =~= Seq::<F>::empty());
    proof { fold_hi_snoc(ev, partial_point@, pl - 1); p2_pos(n0 - 1); }
//@@ inv 0
            zk_n0 == pl - 1, res.evaluations@ == fold_hi_n(ev, partial_point@.subrange(pl - zk_i0 - 1, pl)), res.evaluations@.len() == p2(n0 - zk_i0 - 1), res.num_vars == n0 - zk_i0 - 1,
//@@ start 0
        proof { fold_hi_snoc(ev, partial_point@, pl - zk_i0 - 2); p2_pos(n0 - zk_i0 - 2); }
//@@ after 0
    proof { assert(partial_point@.subrange(0, pl) =~= partial_point@); fixed_last_intro(ev, partial_point@, n0); }
//@end
