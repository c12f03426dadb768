// ---- what the contracts give: completeness, binding of the value, the equation of the scheme ----
pub proof fn lin_level(b: Seq<G1A>, ev: Seq<F>, t: Seq<F>, dg: F) requires srs_level(b, t, dg), ev.len() == p2(t.len() as int) ensures lin_all(b, ev) == fmul(mlev(ev, t), dg) {
    let n = p2(t.len() as int);
    let f = |x: int| fmul(ev[x], dl(b[x])); let g = |x: int| fmul(ev[x], eqw(x, t)); let h = |x: int| fmul(dg, g(x));
    assert forall|x: int| 0 <= x < n implies #[trigger] f(x) == h(x) by { assert(dl(b[x]) == fmul(eqw(x, t), dg)); fmul_assoc(ev[x], eqw(x, t), dg); fmul_comm(g(x), dg); }
    fsum_eq(n, f, h); fsum_scale(n, dg, g); fmul_comm(dg, fsum(n, g));
}
/// a value of the multilinear extension is affine in the first variable: at t0 it is the value at z0 plus (t0 - z0) times the slope
pub proof fn mle_slope(f: Seq<F>, t: Seq<F>, z0: F) requires t.len() > 0, f.len() == p2(t.len() as int)
    ensures mlev(f, t) == fadd(mlev(fold_lo(f, z0), t.subrange(1, t.len() as int)), fmul(fsub(t[0], z0), mlev(slope(f), t.subrange(1, t.len() as int)))),
        slope(f).len() == p2(t.len() - 1), fold_lo(f, z0).len() == p2(t.len() - 1) {
    let m = p2(t.len() - 1); p2_pos(t.len() - 1); let u = t.subrange(1, t.len() as int); let d = fsub(t[0], z0);
    mle_fold_lo(f, t);
    let a = |x: int| fmul(fold_lo(f, z0)[x], eqw(x, u)); let b = |x: int| fmul(slope(f)[x], eqw(x, u)); let c = |x: int| fmul(d, b(x));
    let l = |x: int| fmul(fold_lo(f, t[0])[x], eqw(x, u)); let r = |x: int| fadd(a(x), c(x));
    assert forall|x: int| 0 <= x < m implies #[trigger] l(x) == r(x) by {
        broadcast use fhom;
        let p = frep(f[2 * x]); let q = frep(f[2 * x + 1]); let tt = frep(t[0]); let zz = frep(z0); let w = frep(eqw(x, u));
        assert((p + (q - p) * tt) * w == (p + (q - p) * zz) * w + (tt - zz) * ((q - p) * w)) by(nonlinear_arith);
    }
    fsum_eq(m, l, r); fsum_add(m, a, c); fsum_scale(m, d, b);
}
/// f(t) - f(z) = sum_i (t_i - z_i) q_i(t_{i+1}, ..)
pub open spec fn qterm(ev: Seq<F>, z: Seq<F>, t: Seq<F>, i: int) -> F { fmul(fsub(t[i], z[i]), mlev(quot(ev, z, i), t.subrange(i + 1, t.len() as int))) }
pub proof fn quot_sum(ev: Seq<F>, z: Seq<F>, t: Seq<F>) requires z.len() == t.len(), ev.len() == p2(t.len() as int)
    ensures mlev(ev, t) == fadd(mlev(ev, z), fsum(t.len() as int, |i: int| qterm(ev, z, t, i))) decreases t.len() {
    broadcast use funits;
    let n = t.len() as int; let f = |i: int| qterm(ev, z, t, i);
    if n == 0 { assert(t =~= z); }
    else {
        let u = t.subrange(1, n); let w = z.subrange(1, n); let e = fold_lo(ev, z[0]);
        mle_slope(ev, t, z[0]); mle_fold_lo(ev, z); quot_sum(e, w, u);
        let g = |i: int| qterm(e, w, u, i); let s = |i: int| f(1 + i);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] g(i) == s(i) by {
            let zi = z.subrange(0, i + 1);
            assert(zi.subrange(1, zi.len() as int) =~= w.subrange(0, i));
            assert(u.subrange(i + 1, n - 1) =~= t.subrange(i + 2, n));
            assert(fold_lo_n(ev, zi) == fold_lo_n(e, w.subrange(0, i)));
        }
        fsum_eq(n - 1, g, s); fsum_split(1, n - 1, f);
        assert(z.subrange(0, 0) =~= Seq::<F>::empty());
        assert(quot(ev, z, 0) == slope(ev));
        assert(fsum(1, f) == fadd(fsum(0, f), f(0)));
        fadd_assoc(mlev(ev, z), f(0), fsum(n - 1, g)); fadd_comm(f(0), mlev(e, u)); fadd_assoc(mlev(ev, z), fsum(n - 1, g), f(0)); fadd_comm(f(0), fsum(n - 1, g));
    }
}
/// what commit and open return, for the secrets t: the polynomial at the secrets, and the quotients at the secrets
pub open spec fn honest(v: MultilinearVerifierParam, c: Commitment, pr: Seq<G1A>, ev: Seq<F>, z: Seq<F>, t: Seq<F>) -> bool { honest_d(v, dl(c.0), pr, ev, z, t) }
pub open spec fn honest_d(v: MultilinearVerifierParam, dc: F, pr: Seq<G1A>, ev: Seq<F>, z: Seq<F>, t: Seq<F>) -> bool {
    let u = t.subrange(v.num_vars - z.len(), v.num_vars as int);
    dc == fmul(mlev(ev, u), dl(v.g)) && pr.len() == z.len() && forall|i: int| 0 <= i < z.len() ==> dl(#[trigger] pr[i]) == fmul(mlev(quot(ev, z, i), u.subrange(i + 1, u.len() as int)), dl(v.g))
}
pub proof fn quot_len(ev: Seq<F>, z: Seq<F>, i: int) requires 0 <= i < z.len(), ev.len() == p2(z.len() as int) ensures quot(ev, z, i).len() == p2(z.len() - i - 1), fold_lo_n(ev, z.subrange(0, i)).len() == p2(z.len() - i) decreases i {
    p2_pos(z.len() - i - 1); assert(p2(z.len() - i) == 2 * p2(z.len() - i - 1));
    if i == 0 { assert(z.subrange(0, 0) =~= Seq::<F>::empty()); } else { quot_len(ev, z, i - 1); fold_lo_snoc(ev, z, i - 1); p2_pos(z.len() - i); }
}
/// commit and open under a prover key for the secrets t return the honest pair (any setup size, any smaller number of variables)
pub proof fn kzg_honest(p: MultilinearProverParam, v: MultilinearVerifierParam, t: Seq<F>, d: DenseMultilinearExtension, z: Seq<F>, c: Commitment, pr: Seq<G1A>)
    requires srs_p(p, t), p.num_vars == v.num_vars, p.g == v.g, dwf(d), d.num_vars <= p.num_vars, z.len() == d.num_vars, pr.len() == z.len(),
        dl(c.0) == lin_all(p.powers_of_g@[p.num_vars - d.num_vars].evals@, d.evaluations@),
        forall|i: int| 0 <= i < z.len() ==> dl(#[trigger] pr[i]) == lin_all(p.powers_of_g@[p.num_vars - d.num_vars + 1 + i].evals@, quot(d.evaluations@, z, i)),
    ensures honest(v, c, pr, d.evaluations@, z, t) {
    let n = p.num_vars as int; let m = d.num_vars as int; let u = t.subrange(n - m, n); let ev = d.evaluations@;
    lin_level(p.powers_of_g@[n - m].evals@, ev, u, dl(p.g));
    assert forall|i: int| 0 <= i < z.len() implies dl(#[trigger] pr[i]) == fmul(mlev(quot(ev, z, i), u.subrange(i + 1, u.len() as int)), dl(v.g)) by {
        assert(u.subrange(i + 1, m) =~= t.subrange(n - m + 1 + i, n)); quot_len(ev, z, i);
        lin_level(p.powers_of_g@[n - m + 1 + i].evals@, quot(ev, z, i), u.subrange(i + 1, m), dl(p.g));
    }
}
/// for an honest pair the verifier's left side is (y - f(z)) g h
pub proof fn kzg_sum_d(v: MultilinearVerifierParam, t: Seq<F>, dc: F, pr: Seq<G1A>, ev: Seq<F>, z: Seq<F>, y: F)
    requires srs_v(v, t), z.len() <= v.num_vars, ev.len() == p2(z.len() as int), honest_d(v, dc, pr, ev, z, t)
    ensures vsum_d(v, dc, z, y, pr) == fmul(fsub(y, mlev(ev, z)), fmul(dl(v.g), dl(v.h))) {
    let n = v.num_vars as int; let m = z.len() as int; let u = t.subrange(n - m, n); let gh = fmul(dl(v.g), dl(v.h));
    quot_sum(ev, z, u);
    let a = |i: int| vterm(v, z, pr, i); let q = |i: int| qterm(ev, z, u, i); let b = |i: int| fmul(gh, q(i));
    assert forall|i: int| 0 <= i < m implies #[trigger] a(i) == b(i) by {
        let mq = mlev(quot(ev, z, i), u.subrange(i + 1, u.len() as int));
        assert(dl(pr[i]) == fmul(mq, dl(v.g))); assert(dl(v.h_mask@[n - m + i]) == fmul(t[n - m + i], dl(v.h)));
        kz_ring1(mq, dl(v.g), dl(v.h), u[i], z[i]);
    }
    fsum_eq(m, a, b); fsum_scale(m, gh, q);
    let s = fsum(m, q); let ft = mlev(ev, u); let fz = mlev(ev, z);
    kz_ring2(s, fz, y, dl(v.g), dl(v.h));
}
/// the true value is accepted for the honest proof, and any other value is rejected
pub proof fn kzg_exact_d(v: MultilinearVerifierParam, t: Seq<F>, dc: F, pr: Seq<G1A>, ev: Seq<F>, z: Seq<F>, y: F)
    requires srs_v(v, t), z.len() <= v.num_vars, ev.len() == p2(z.len() as int), honest_d(v, dc, pr, ev, z, t), dl(v.g) != f0(), dl(v.h) != f0()
    ensures vsum_d(v, dc, z, y, pr) == f0() <==> y == mlev(ev, z) {
    broadcast use funits;
    kzg_sum_d(v, t, dc, pr, ev, z, y);
    let gh = fmul(dl(v.g), dl(v.h));
    if gh == f0() { fmul_eq0(dl(v.g), dl(v.h)); }
    if fmul(fsub(y, mlev(ev, z)), gh) == f0() { fmul_eq0(fsub(y, mlev(ev, z)), gh); kz_sub0(y, mlev(ev, z)); }
}
/// the equation of the scheme: accepted exactly when commitment - value * g = sum_i (t_i - z_i) proof_i (h not the identity)
pub proof fn kzg_equation_d(v: MultilinearVerifierParam, t: Seq<F>, dc: F, pr: Seq<G1A>, z: Seq<F>, y: F)
    requires srs_v(v, t), z.len() <= v.num_vars, dl(v.h) != f0()
    ensures vsum_d(v, dc, z, y, pr) == f0() <==> fsub(dc, fmul(y, dl(v.g))) == fsum(z.len() as int, |i: int| fmul(fsub(t[v.num_vars - z.len() + i], z[i]), dl(pr[i]))) {
    broadcast use funits;
    let n = v.num_vars as int; let m = z.len() as int; let h0 = dl(v.h);
    let a = |i: int| vterm(v, z, pr, i); let q = |i: int| fmul(fsub(t[n - m + i], z[i]), dl(pr[i])); let b = |i: int| fmul(h0, q(i));
    assert forall|i: int| 0 <= i < m implies #[trigger] a(i) == b(i) by {
        assert(dl(v.h_mask@[n - m + i]) == fmul(t[n - m + i], dl(v.h)));
        broadcast use fhom;
        let p = frep(dl(pr[i])); let h = frep(h0); let tt = frep(t[n - m + i]); let zz = frep(z[i]);
        assert(p * (tt * h - zz * h) == h * ((tt - zz) * p)) by(nonlinear_arith);
    }
    fsum_eq(m, a, b); fsum_scale(m, h0, q);
    let s = fsum(m, q); let k = fsub(dc, fmul(y, dl(v.g)));
    assert(vsum_d(v, dc, z, y, pr) == fmul(h0, fsub(s, k))) by {
        broadcast use fhom;
        let ss = frep(s); let cc = frep(dc); let yg = frep(fmul(y, dl(v.g))); let h = frep(h0);
        assert(h * ss + (yg - cc) * h == h * (ss - (cc - yg))) by(nonlinear_arith);
    }
    if fmul(h0, fsub(s, k)) == f0() { fmul_eq0(h0, fsub(s, k)); kz_sub0(s, k); }
}
/// changing one element of an accepted opening (at a place where the secret differs from the coordinate), or the commitment, is rejected
pub proof fn kzg_altered_d(v: MultilinearVerifierParam, t: Seq<F>, dc: F, dc2: F, pr: Seq<G1A>, pr2: Seq<G1A>, z: Seq<F>, y: F, j: int)
    requires srs_v(v, t), z.len() <= v.num_vars, dl(v.h) != f0(), vsum_d(v, dc, z, y, pr) == f0(), pr.len() == z.len(), pr2.len() == z.len(),
        (dc2 == dc && 0 <= j < z.len() && t[v.num_vars - z.len() + j] != z[j] && dl(pr2[j]) != dl(pr[j]) && forall|i: int| 0 <= i < z.len() && i != j ==> #[trigger] pr2[i] == pr[i]) || (pr2 == pr && dc2 != dc),
    ensures vsum_d(v, dc2, z, y, pr2) != f0() {
    broadcast use funits;
    kzg_equation_d(v, t, dc, pr, z, y); kzg_equation_d(v, t, dc2, pr2, z, y);
    let n = v.num_vars as int; let m = z.len() as int;
    let q = |i: int| fmul(fsub(t[n - m + i], z[i]), dl(pr[i])); let q2 = |i: int| fmul(fsub(t[n - m + i], z[i]), dl(pr2[i]));
    if vsum_d(v, dc2, z, y, pr2) == f0() {
        if pr2 == pr {
            let x = fmul(y, dl(v.g)); assert(fsub(dc, x) == fsub(dc2, x)); fsub_cancel(dc, dc2, x);
        } else {
            fsum_one(m, q, q2, j); let d = fsub(t[n - m + j], z[j]);
            assert(fmul(d, fsub(dl(pr2[j]), dl(pr[j]))) == fsub(q2(j), q(j))) by { broadcast use fhom; let a = frep(d); let b = frep(dl(pr2[j])); let e = frep(dl(pr[j])); assert(a * (b - e) == a * b - a * e) by(nonlinear_arith); }
            fmul_eq0(d, fsub(dl(pr2[j]), dl(pr[j])));
            if d == f0() { kz_sub0(t[n - m + j], z[j]); } else { kz_sub0(dl(pr2[j]), dl(pr[j])); }
        }
    }
}
pub proof fn fsub_cancel(a: F, b: F, x: F) requires fsub(a, x) == fsub(b, x) ensures a == b { 
    assert(fadd(fsub(a, x), x) == a) by { broadcast use fhom; let p = frep(a); let q = frep(x); }
    assert(fadd(fsub(b, x), x) == b) by { broadcast use fhom; let p = frep(b); let q = frep(x); }
}
/// sums that differ at one place differ by that difference
pub proof fn fsum_one(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F, j: int) requires 0 <= j < n, forall|i: int| 0 <= i < n && i != j ==> #[trigger] g(i) == f(i) ensures fsub(fsum(n, g), fsum(n, f)) == fsub(g(j), f(j)) decreases n {
    if j == n - 1 { fsum_eq(n - 1, f, g); let s = fsum(n - 1, f); assert(fsub(fadd(s, g(j)), fadd(s, f(j))) == fsub(g(j), f(j))) by { broadcast use fhom; let a = frep(s); let b = frep(g(j)); let c = frep(f(j)); } }
    else { fsum_one(n - 1, f, g, j); let l = f(n - 1); let a = fsum(n - 1, g); let b = fsum(n - 1, f); assert(fsub(fadd(a, l), fadd(b, l)) == fsub(a, b)) by { broadcast use fhom; let x = frep(a); let y = frep(b); let z = frep(l); } }
}
pub proof fn kz_sub0(a: F, b: F) ensures (fsub(a, b) == f0()) == (a == b) { broadcast use funits; if fsub(a, b) == f0() { assert(fsub(b, b) == f0()); fsub_cancel(a, b, b); } }
pub proof fn kz_ring1(x: F, g: F, h: F, t: F, z: F) ensures fmul(fmul(x, g), fsub(fmul(t, h), fmul(z, h))) == fmul(fmul(g, h), fmul(fsub(t, z), x)) {
    broadcast use fhom;
    let x = frep(x); let g = frep(g); let h = frep(h); let tt = frep(t); let zz = frep(z);
    assert((x * g) * (tt * h - zz * h) == (g * h) * ((tt - zz) * x)) by(nonlinear_arith);
}
pub proof fn kz_ring2(s: F, f: F, y: F, g: F, h: F) ensures fadd(fmul(fmul(g, h), s), fmul(fsub(fmul(y, g), fmul(fadd(f, s), g)), h)) == fmul(fsub(y, f), fmul(g, h)) {
    broadcast use fhom;
    let ss = frep(s); let zz = frep(f); let yy = frep(y); let g = frep(g); let h = frep(h);
    assert((g * h) * ss + ((yy * g) - ((zz + ss) * g)) * h == (yy - zz) * (g * h)) by(nonlinear_arith);
}
/// the same for a commitment as the scheme's functions take it
pub proof fn kzg_exact(v: MultilinearVerifierParam, t: Seq<F>, c: Commitment, pr: Seq<G1A>, ev: Seq<F>, z: Seq<F>, y: F)
    requires srs_v(v, t), z.len() <= v.num_vars, ev.len() == p2(z.len() as int), honest(v, c, pr, ev, z, t), dl(v.g) != f0(), dl(v.h) != f0()
    ensures vsum(v, c, z, y, pr) == f0() <==> y == mlev(ev, z) { kzg_exact_d(v, t, dl(c.0), pr, ev, z, y); }
pub proof fn kzg_equation(v: MultilinearVerifierParam, t: Seq<F>, c: Commitment, pr: Seq<G1A>, z: Seq<F>, y: F)
    requires srs_v(v, t), z.len() <= v.num_vars, dl(v.h) != f0()
    ensures vsum(v, c, z, y, pr) == f0() <==> fsub(dl(c.0), fmul(y, dl(v.g))) == fsum(z.len() as int, |i: int| fmul(fsub(t[v.num_vars - z.len() + i], z[i]), dl(pr[i]))) { kzg_equation_d(v, t, dl(c.0), pr, z, y); }
pub proof fn kzg_altered(v: MultilinearVerifierParam, t: Seq<F>, c: Commitment, c2: Commitment, pr: Seq<G1A>, pr2: Seq<G1A>, z: Seq<F>, y: F, j: int)
    requires srs_v(v, t), z.len() <= v.num_vars, dl(v.h) != f0(), vsum(v, c, z, y, pr) == f0(), pr.len() == z.len(), pr2.len() == z.len(),
        (c2 == c && 0 <= j < z.len() && t[v.num_vars - z.len() + j] != z[j] && dl(pr2[j]) != dl(pr[j]) && forall|i: int| 0 <= i < z.len() && i != j ==> #[trigger] pr2[i] == pr[i]) || (pr2 == pr && dl(c2.0) != dl(c.0)),
    ensures vsum(v, c2, z, y, pr2) != f0() { kzg_altered_d(v, t, dl(c.0), dl(c2.0), pr, pr2, z, y, j); }
