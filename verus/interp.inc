// ---- univariate polynomials, Lagrange interpolation (all proved) ----
/// value at x of the polynomial with coefficients c (c[i] is the coefficient of x^i)
pub open spec fn pval(c: Seq<F>, x: F) -> F decreases c.len() { if c.len() == 0 { f0() } else { fadd(c[0], fmul(x, pval(c.subrange(1, c.len() as int), x))) } }
pub open spec fn distinct(n: Seq<F>) -> bool { forall|i: int, j: int| 0 <= i < j < n.len() ==> #[trigger] n[i] != #[trigger] n[j] }
pub open spec fn lfac(n: Seq<F>, i: int, x: F, j: int) -> F { if j == i { f1() } else { fdiv(fsub(x, n[j]), fsub(n[i], n[j])) } }
/// the i-th Lagrange basis value
pub open spec fn lterm(n: Seq<F>, i: int, x: F) -> F { fprod(n.len() as int, |j: int| lfac(n, i, x, j)) }
/// the Lagrange form of the interpolant of values v at nodes n
pub open spec fn lagr(n: Seq<F>, v: Seq<F>, x: F) -> F { fsum(n.len() as int, |i: int| fmul(v[i], lterm(n, i, x))) }
pub open spec fn pvals(c: Seq<F>, n: Seq<F>) -> Seq<F> { Seq::new(n.len(), |i: int| pval(c, n[i])) }

pub proof fn fsub_eq0(a: F, b: F) ensures (fsub(a, b) == f0()) == (a == b) {
    broadcast use funits;
    if fsub(a, b) == f0() { broadcast use fhom; let (x, y) = (frep(a), frep(b)); assert(fadd(fsub(a, b), b) == a) by { assert(x - y + y == x); } assert(fadd(f0(), b) == b); }
}
pub proof fn fdiv_mul(u: F, d: F) requires d != f0() ensures fmul(fdiv(u, d), d) == u {
    broadcast use funits;
    ax_finv(d); fmul_assoc(u, finv(d), d); fmul_comm(finv(d), d);
}
pub proof fn fcancel(a: F, b: F, d: F) requires d != f0(), fmul(a, d) == fmul(b, d) ensures a == b {
    broadcast use funits;
    ax_finv(d); fmul_assoc(a, d, finv(d)); fmul_assoc(b, d, finv(d));
}
pub proof fn fdiv_eq(u: F, d: F, w: F) requires d != f0(), fmul(w, d) == u ensures fdiv(u, d) == w { fdiv_mul(u, d); fcancel(fdiv(u, d), w, d); }
pub proof fn fprod_first(n: int, f: spec_fn(int) -> F) requires n >= 1 ensures fprod(n, f) == fmul(f(0), fprod(n - 1, |j: int| f(j + 1))) decreases n {
    broadcast use funits;
    let g = |j: int| f(j + 1);
    if n == 1 { assert(fprod(0, f) == f1()); assert(fprod(0, g) == f1()); }
    else { fprod_first(n - 1, f); fmul_assoc(f(0), fprod(n - 2, g), f(n - 1)); assert(g(n - 2) == f(n - 1)); }
}
pub proof fn fsum_first(n: int, f: spec_fn(int) -> F) requires n >= 1 ensures fsum(n, f) == fadd(f(0), fsum(n - 1, |j: int| f(j + 1))) decreases n {
    broadcast use funits;
    let g = |j: int| f(j + 1);
    if n == 1 { assert(fsum(0, f) == f0()); assert(fsum(0, g) == f0()); }
    else { fsum_first(n - 1, f); fadd_assoc(f(0), fsum(n - 2, g), f(n - 1)); assert(g(n - 2) == f(n - 1)); }
}
/// dropping the last node: (n_i - last) * l_i = (x - last) * l'_i
pub proof fn lterm_last(n: Seq<F>, i: int, x: F) requires distinct(n), 0 <= i < n.len() - 1
    ensures fmul(fsub(n[i], n[n.len() - 1]), lterm(n, i, x)) == fmul(fsub(x, n[n.len() - 1]), lterm(n.subrange(0, n.len() - 1), i, x)) {
    let m = n.len() as int; let d = n.subrange(0, m - 1); let a = n[m - 1];
    let f = |j: int| lfac(n, i, x, j); let g = |j: int| lfac(d, i, x, j);
    assert forall|j: int| 0 <= j < m - 1 implies #[trigger] f(j) == g(j) by { }
    fprod_eq(m - 1, f, g);
    fsub_eq0(n[i], a);
    fdiv_mul(fsub(x, a), fsub(n[i], a));
    let p = fprod(m - 1, g); let q = fdiv(fsub(x, a), fsub(n[i], a)); let s = fsub(n[i], a);
    assert(lterm(n, i, x) == fmul(p, q));
    fmul_comm(p, q); fmul_assoc(s, q, p); fmul_comm(s, q);
}
/// dropping the first node
pub proof fn lterm_first(n: Seq<F>, i: int, x: F) requires distinct(n), 1 <= i < n.len()
    ensures fmul(fsub(n[i], n[0]), lterm(n, i, x)) == fmul(fsub(x, n[0]), lterm(n.subrange(1, n.len() as int), i - 1, x)) {
    let m = n.len() as int; let d = n.subrange(1, m); let a = n[0];
    let f = |j: int| lfac(n, i, x, j); let g = |j: int| lfac(d, i - 1, x, j); let f1_ = |j: int| f(j + 1);
    fprod_first(m, f);
    assert forall|j: int| 0 <= j < m - 1 implies #[trigger] f1_(j) == g(j) by { assert(d[j] == n[j + 1]); assert(d[i - 1] == n[i]); }
    fprod_eq(m - 1, f1_, g);
    fsub_eq0(n[0], n[i]); fsub_eq0(n[i], n[0]);
    fdiv_mul(fsub(x, a), fsub(n[i], a));
    let p = fprod(m - 1, g); let q = fdiv(fsub(x, a), fsub(n[i], a)); let s = fsub(n[i], a);
    fmul_assoc(s, q, p); fmul_comm(s, q);
}
pub open spec fn lsum1(n: Seq<F>, x: F) -> F { fsum(n.len() as int, |i: int| lterm(n, i, x)) }
proof fn neville_ring(x: F, n0: F, nl: F) ensures fsub(fsub(x, n0), fsub(x, nl)) == fsub(nl, n0) { broadcast use fhom; let (a, b, c) = (frep(x), frep(n0), frep(nl)); assert((a - b) - (a - c) == c - b); }
proof fn neville_ring2(ni: F, n0: F, nl: F, t: F) ensures fsub(fmul(fsub(ni, n0), t), fmul(fsub(ni, nl), t)) == fmul(fsub(nl, n0), t) { broadcast use fhom; let (a, b, c, d) = (frep(ni), frep(n0), frep(nl), frep(t)); assert((a - b) * d - (a - c) * d == (c - b) * d) by(nonlinear_arith); }
pub proof fn fsum_sub(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F) ensures fsum(n, |i: int| fsub(f(i), g(i))) == fsub(fsum(n, f), fsum(n, g)) decreases n {
    broadcast use fhom;
    if n > 0 { fsum_sub(n - 1, f, g);
        let (a, b, c, d) = (frep(fsum(n - 1, f)), frep(fsum(n - 1, g)), frep(f(n - 1)), frep(g(n - 1)));
        assert((a - b) + (c - d) == (a + c) - (b + d));
    }
}
/// the Lagrange basis sums to one
pub proof fn lagr_one(n: Seq<F>, x: F) requires distinct(n), n.len() >= 1 ensures lsum1(n, x) == f1() decreases n.len() {
    broadcast use funits;
    let m = n.len() as int;
    let t = |i: int| lterm(n, i, x);
    if m == 1 {
        let f = |j: int| lfac(n, 0, x, j);
        assert(fprod(1, f) == fmul(fprod(0, f), f(0)));
        assert(fsum(1, t) == fadd(fsum(0, t), t(0)));
    } else {
        let d = n.subrange(0, m - 1); let e = n.subrange(1, m); let n0 = n[0]; let nl = n[m - 1];
        lagr_one(d, x); lagr_one(e, x);
        // A = sum over i>=1 of (x-n0) e-term, B = sum over i<m-1 of (x-nl) d-term
        let td = |i: int| lterm(d, i, x); let te = |i: int| lterm(e, i, x);
        fsum_scale(m - 1, fsub(x, nl), td); fsum_scale(m - 1, fsub(x, n0), te);
        let sd = |i: int| fmul(fsub(x, nl), td(i)); let se = |i: int| fmul(fsub(x, n0), te(i));
        let ga = |i: int| fmul(fsub(n[i], n0), t(i)); let gb = |i: int| fmul(fsub(n[i], nl), t(i));
        // fsum(m, ga) = fsum(m-1, se): first term vanishes
        fsum_first(m, ga); let ga1 = |j: int| ga(j + 1);
        assert forall|j: int| 0 <= j < m - 1 implies #[trigger] ga1(j) == se(j) by { lterm_first(n, j + 1, x); }
        fsum_eq(m - 1, ga1, se);
        assert(ga(0) == f0());
        assert forall|j: int| 0 <= j < m - 1 implies #[trigger] gb(j) == sd(j) by { lterm_last(n, j, x); }
        fsum_eq(m - 1, gb, sd);
        assert(gb(m - 1) == f0());
        assert(fsum(m, ga) == fsub(x, n0)); assert(fsum(m, gb) == fsub(x, nl));
        fsum_sub(m, ga, gb);
        let gs = |i: int| fsub(ga(i), gb(i)); let gt = |i: int| fmul(fsub(nl, n0), t(i));
        assert forall|i: int| 0 <= i < m implies #[trigger] gs(i) == gt(i) by { neville_ring2(n[i], n0, nl, t(i)); }
        fsum_eq(m, gs, gt); fsum_scale(m, fsub(nl, n0), t);
        neville_ring(x, n0, nl);
        fsub_eq0(nl, n0);
        fmul_comm(fsub(nl, n0), fsum(m, t));
        fcancel(fsum(m, t), f1(), fsub(nl, n0));
    }
}
/// synthetic division by (x - a)
pub open spec fn sdiv(c: Seq<F>, a: F) -> Seq<F> decreases c.len() {
    if c.len() <= 1 { Seq::empty() } else { let t = c.subrange(1, c.len() as int); seq![pval(t, a)] + sdiv(t, a) }
}
proof fn sdiv_ring(c0: F, x: F, a: F, ta: F, q: F) ensures fadd(c0, fmul(x, fadd(ta, fmul(fsub(x, a), q)))) == fadd(fadd(c0, fmul(a, ta)), fmul(fsub(x, a), fadd(ta, fmul(x, q)))) {
    broadcast use fhom; let (c, x, a, t, q) = (frep(c0), frep(x), frep(a), frep(ta), frep(q));
    assert(c + x * (t + (x - a) * q) == (c + a * t) + (x - a) * (t + x * q)) by(nonlinear_arith);
}
pub proof fn sdiv_ok(c: Seq<F>, a: F, x: F) ensures pval(c, x) == fadd(pval(c, a), fmul(fsub(x, a), pval(sdiv(c, a), x))), sdiv(c, a).len() == (if c.len() == 0 { 0 } else { c.len() - 1 }) decreases c.len() {
    broadcast use funits;
    if c.len() <= 1 { 
        if c.len() == 1 { assert(c.subrange(1, 1) =~= Seq::<F>::empty()); }
    } else {
        let t = c.subrange(1, c.len() as int);
        sdiv_ok(t, a, x);
        let q = sdiv(c, a);
        assert(q.subrange(1, q.len() as int) =~= sdiv(t, a));
        sdiv_ring(c[0], x, a, pval(t, a), pval(sdiv(t, a), x));
    }
}
proof fn lagr_ring(ca: F, s: F, q: F, t: F) ensures fmul(fadd(ca, fmul(s, q)), t) == fadd(fmul(ca, t), fmul(q, fmul(s, t))), fmul(q, fmul(s, t)) == fmul(s, fmul(q, t)) {
    broadcast use fhom; let (c, s, q, t) = (frep(ca), frep(s), frep(q), frep(t)); assert((c + s * q) * t == c * t + q * (s * t)) by(nonlinear_arith); assert(q * (s * t) == s * (q * t)) by(nonlinear_arith);
}
/// interpolation is exact on every polynomial with at most as many coefficients as nodes
pub proof fn lagr_exact(n: Seq<F>, c: Seq<F>, x: F) requires distinct(n), c.len() <= n.len(), n.len() >= 1 ensures lagr(n, pvals(c, n), x) == pval(c, x) decreases n.len() {
    broadcast use funits;
    let m = n.len() as int; let a = n[m - 1]; let d = n.subrange(0, m - 1); let q = sdiv(c, a);
    let v = pvals(c, n); let t = |i: int| lterm(n, i, x);
    sdiv_ok(c, a, x);
    lagr_one(n, x);
    let f = |i: int| fmul(v[i], lterm(n, i, x));
    let g1 = |i: int| fmul(pval(c, a), t(i));
    let g2 = |i: int| fmul(pval(q, n[i]), fmul(fsub(n[i], a), t(i)));
    let g = |i: int| fadd(g1(i), g2(i));
    assert forall|i: int| 0 <= i < m implies #[trigger] f(i) == g(i) by { sdiv_ok(c, a, n[i]); lagr_ring(pval(c, a), fsub(n[i], a), pval(q, n[i]), t(i)); }
    fsum_eq(m, f, g); fsum_add(m, g1, g2); fsum_scale(m, pval(c, a), t);
    assert(g2(m - 1) == f0());
    if m == 1 { assert(fsum(1, g2) == fadd(fsum(0, g2), g2(0))); assert(q.len() == 0); assert(pval(q, x) == f0()); }
    else {
        lagr_exact(d, q, x);
        let vd = pvals(q, d);
        let h = |i: int| fmul(vd[i], lterm(d, i, x)); let hs = |i: int| fmul(fsub(x, a), h(i));
        assert forall|i: int| 0 <= i < m - 1 implies #[trigger] g2(i) == hs(i) by { lterm_last(n, i, x); lagr_ring(f0(), fsub(x, a), pval(q, n[i]), lterm(d, i, x)); }
        fsum_eq(m - 1, g2, hs); fsum_scale(m - 1, fsub(x, a), h);
    }
}
