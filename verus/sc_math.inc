// ---- sums over the hypercube of products of tables, and their partial sums as polynomials in one variable ----
pub type Tabs = Seq<Seq<F>>;
pub open spec fn tabs_of(fl: Seq<Arc<DenseMultilinearExtension>>) -> Tabs { Seq::new(fl.len(), |j: int| fl[j].evaluations@) }
/// entry b of the table after setting variable 0 to x
pub open spec fn lo_at(t: Seq<F>, b: int, x: F) -> F { fadd(t[2 * b], fmul(fsub(t[2 * b + 1], t[2 * b]), x)) }
pub open spec fn pterm(tb: Tabs, idx: Seq<usize>, b: int, x: F) -> F { fprod(idx.len() as int, |j: int| lo_at(tb[idx[j] as int], b, x)) }
/// sum over the remaining m-1 variables of the product with variable 0 set to x
pub open spec fn psum(tb: Tabs, idx: Seq<usize>, m: int, x: F) -> F { fsum(p2(m - 1), |b: int| pterm(tb, idx, b, x)) }
pub open spec fn ssum_n(tb: Tabs, ps: Seq<(F, Vec<usize>)>, k: int, m: int, x: F) -> F { fsum(k, |i: int| fmul(psum(tb, ps[i].1@, m, x), ps[i].0)) }
pub open spec fn ssum(tb: Tabs, ps: Seq<(F, Vec<usize>)>, m: int, x: F) -> F { ssum_n(tb, ps, ps.len() as int, m, x) }
pub open spec fn hterm(tb: Tabs, idx: Seq<usize>, b: int) -> F { fprod(idx.len() as int, |j: int| tb[idx[j] as int][b]) }
pub open spec fn hpsum(tb: Tabs, idx: Seq<usize>, m: int) -> F { fsum(p2(m), |b: int| hterm(tb, idx, b)) }
/// sum over the whole hypercube of m variables
pub open spec fn hsum(tb: Tabs, ps: Seq<(F, Vec<usize>)>, m: int) -> F { fsum(ps.len() as int, |i: int| fmul(hpsum(tb, ps[i].1@, m), ps[i].0)) }
pub open spec fn tabs_ok(tb: Tabs, m: int) -> bool { forall|j: int| 0 <= j < tb.len() ==> (#[trigger] tb[j]).len() == p2(m) }
pub open spec fn ps_ok(ps: Seq<(F, Vec<usize>)>, n: int) -> bool { forall|i: int| 0 <= i < ps.len() ==> idx_ok((#[trigger] ps[i]).1@, n) }
pub open spec fn fold_tabs(tb: Tabs, x: F) -> Tabs { Seq::new(tb.len(), |j: int| fold_lo(tb[j], x)) }
pub open spec fn fold_tabs_n(tb: Tabs, r: Seq<F>) -> Tabs { Seq::new(tb.len(), |j: int| fold_lo_n(tb[j], r)) }
pub proof fn lo_at_01(t: Seq<F>, b: int) ensures lo_at(t, b, f0()) == t[2 * b], lo_at(t, b, f1()) == t[2 * b + 1] {
    broadcast use fhom; let (p, q) = (frep(t[2 * b]), frep(t[2 * b + 1])); assert(p + (q - p) * 0 == p) by(nonlinear_arith); assert(p + (q - p) * 1 == q) by(nonlinear_arith);
}
pub proof fn fmul_dist_r(a: F, b: F, c: F) ensures fmul(fadd(a, b), c) == fadd(fmul(a, c), fmul(b, c)) { fmul_dist(c, a, b); fmul_comm(c, a); fmul_comm(c, b); fmul_comm(c, fadd(a, b)); }
/// a round message sums, at 0 and 1, to the hypercube sum of the current tables
pub proof fn ssum_halves(tb: Tabs, ps: Seq<(F, Vec<usize>)>, m: int) requires m >= 1 ensures fadd(ssum(tb, ps, m, f0()), ssum(tb, ps, m, f1())) == hsum(tb, ps, m) {
    let k = ps.len() as int; p2_pos(m - 1);
    let f = |i: int| fmul(psum(tb, ps[i].1@, m, f0()), ps[i].0); let g = |i: int| fmul(psum(tb, ps[i].1@, m, f1()), ps[i].0);
    let h = |i: int| fmul(hpsum(tb, ps[i].1@, m), ps[i].0); let fg = |i: int| fadd(f(i), g(i));
    fsum_add(k, f, g);
    assert forall|i: int| 0 <= i < k implies #[trigger] fg(i) == h(i) by {
        let idx = ps[i].1@; let t = |b: int| hterm(tb, idx, b);
        fsum_pairs(p2(m - 1), t);
        let u = |b: int| pterm(tb, idx, b, f0()); let v = |b: int| pterm(tb, idx, b, f1()); let uv = |b: int| fadd(u(b), v(b)); let tt = |b: int| fadd(t(2 * b), t(2 * b + 1));
        fsum_add(p2(m - 1), u, v);
        assert forall|b: int| 0 <= b < p2(m - 1) implies #[trigger] uv(b) == tt(b) by {
            let (a0, a1) = (|j: int| lo_at(tb[idx[j] as int], b, f0()), |j: int| lo_at(tb[idx[j] as int], b, f1()));
            let (b0, b1) = (|j: int| tb[idx[j] as int][2 * b], |j: int| tb[idx[j] as int][2 * b + 1]);
            assert forall|j: int| 0 <= j < idx.len() implies #[trigger] a0(j) == b0(j) && a1(j) == b1(j) by { lo_at_01(tb[idx[j] as int], b); }
            assert forall|j: int| 0 <= j < idx.len() implies #[trigger] a1(j) == b1(j) by { assert(a0(j) == b0(j)); }
            fprod_eq(idx.len() as int, a0, b0); fprod_eq(idx.len() as int, a1, b1);
        }
        fsum_eq(p2(m - 1), uv, tt);
        fmul_dist_r(psum(tb, idx, m, f0()), psum(tb, idx, m, f1()), ps[i].0);
    }
    fsum_eq(k, fg, h);
}
/// setting variable 0 to r and summing = summing the folded tables
pub proof fn ssum_fold(tb: Tabs, ps: Seq<(F, Vec<usize>)>, m: int, r: F) requires m >= 1, tabs_ok(tb, m), ps_ok(ps, tb.len() as int)
    ensures ssum(tb, ps, m, r) == hsum(fold_tabs(tb, r), ps, m - 1), tabs_ok(fold_tabs(tb, r), m - 1), fold_tabs(tb, r).len() == tb.len() {
    let k = ps.len() as int; let ft = fold_tabs(tb, r); p2_pos(m - 1);
    assert forall|j: int| 0 <= j < ft.len() implies (#[trigger] ft[j]).len() == p2(m - 1) by { assert(tb[j].len() == p2(m)); }
    let f = |i: int| fmul(psum(tb, ps[i].1@, m, r), ps[i].0); let h = |i: int| fmul(hpsum(ft, ps[i].1@, m - 1), ps[i].0);
    assert forall|i: int| 0 <= i < k implies #[trigger] f(i) == h(i) by {
        let idx = ps[i].1@; let u = |b: int| pterm(tb, idx, b, r); let v = |b: int| hterm(ft, idx, b);
        assert forall|b: int| 0 <= b < p2(m - 1) implies #[trigger] u(b) == v(b) by {
            let a = |j: int| lo_at(tb[idx[j] as int], b, r); let c = |j: int| ft[idx[j] as int][b];
            assert forall|j: int| 0 <= j < idx.len() implies #[trigger] a(j) == c(j) by { assert(tb[idx[j] as int].len() == p2(m)); }
            fprod_eq(idx.len() as int, a, c);
        }
        fsum_eq(p2(m - 1), u, v);
    }
    fsum_eq(k, f, h);
}
/// f is a polynomial with n coefficients
pub open spec fn is_poly(f: spec_fn(F) -> F, n: int) -> bool { exists|c: Seq<F>| #[trigger] is_coeffs(c, f, n) }
pub open spec fn is_coeffs(c: Seq<F>, f: spec_fn(F) -> F, n: int) -> bool { c.len() == n && forall|x: F| #[trigger] f(x) == pval(c, x) }
pub open spec fn fzeros(n: int) -> Seq<F> { Seq::new(n as nat, |i: int| f0()) }
pub open spec fn sadd(c: Seq<F>, d: Seq<F>) -> Seq<F> { Seq::new(c.len(), |i: int| fadd(c[i], d[i])) }
pub open spec fn sscale(c: Seq<F>, a: F) -> Seq<F> { Seq::new(c.len(), |i: int| fmul(c[i], a)) }
pub proof fn pval_zeros(n: int, x: F) requires n >= 0 ensures pval(fzeros(n), x) == f0() decreases n { broadcast use funits; if n > 0 { assert(fzeros(n).subrange(1, n) =~= fzeros(n - 1)); pval_zeros(n - 1, x); } }
pub proof fn pval_sadd(c: Seq<F>, d: Seq<F>, x: F) requires c.len() == d.len() ensures pval(sadd(c, d), x) == fadd(pval(c, x), pval(d, x)) decreases c.len() {
    broadcast use funits;
    if c.len() > 0 { let n = c.len() as int; let (ct, dt) = (c.subrange(1, n), d.subrange(1, n)); pval_sadd(ct, dt, x); assert(sadd(c, d).subrange(1, n) =~= sadd(ct, dt));
        let (p, q) = (pval(ct, x), pval(dt, x));
        { broadcast use fhom; let (a, b, y, p, q) = (frep(c[0]), frep(d[0]), frep(x), frep(p), frep(q)); assert((a + b) + y * (p + q) == (a + y * p) + (b + y * q)) by(nonlinear_arith); } }
}
pub proof fn pval_sscale(c: Seq<F>, a: F, x: F) ensures pval(sscale(c, a), x) == fmul(pval(c, x), a) decreases c.len() {
    broadcast use funits;
    if c.len() > 0 { let n = c.len() as int; let ct = c.subrange(1, n); pval_sscale(ct, a, x); assert(sscale(c, a).subrange(1, n) =~= sscale(ct, a));
        let p = pval(ct, x);
        { broadcast use fhom; let (c0, y, p, a) = (frep(c[0]), frep(x), frep(p), frep(a)); assert(c0 * a + y * (p * a) == (c0 + y * p) * a) by(nonlinear_arith); } }
}
pub proof fn pval_widen(c: Seq<F>, x: F) ensures pval(c.push(f0()), x) == pval(c, x) decreases c.len() {
    broadcast use funits;
    let d = c.push(f0()); let n = d.len() as int;
    if c.len() == 0 { assert(d.subrange(1, n) =~= Seq::<F>::empty()); assert(pval(d.subrange(1, n), x) == f0()); } else { let t = c.subrange(1, c.len() as int); pval_widen(t, x); assert(d.subrange(1, n) =~= t.push(f0())); }
}
pub proof fn poly_zero(n: int) requires n >= 0 ensures is_poly(|x: F| f0(), n) { let f = |x: F| f0(); assert forall|x: F| #[trigger] f(x) == pval(fzeros(n), x) by { pval_zeros(n, x); } assert(is_coeffs(fzeros(n), f, n)); }
pub proof fn poly_ext(f: spec_fn(F) -> F, g: spec_fn(F) -> F, n: int) requires is_poly(f, n), forall|x: F| #[trigger] f(x) == g(x) ensures is_poly(g, n) {
    let c = choose|c: Seq<F>| #[trigger] is_coeffs(c, f, n); assert forall|x: F| #[trigger] g(x) == pval(c, x) by { assert(f(x) == g(x)); } assert(is_coeffs(c, g, n));
}
pub proof fn poly_one() ensures is_poly(|x: F| f1(), 1) {
    broadcast use funits;
    let f = |x: F| f1(); let c = seq![f1()]; assert forall|x: F| #[trigger] f(x) == pval(c, x) by { assert(c.subrange(1, 1) =~= Seq::<F>::empty()); assert(pval(c.subrange(1, 1), x) == f0()); } assert(is_coeffs(c, f, 1));
}
pub proof fn poly_add(f: spec_fn(F) -> F, g: spec_fn(F) -> F, n: int) requires is_poly(f, n), is_poly(g, n) ensures is_poly(|x: F| fadd(f(x), g(x)), n) {
    let c = choose|c: Seq<F>| #[trigger] is_coeffs(c, f, n); let d = choose|c: Seq<F>| #[trigger] is_coeffs(c, g, n); let h = |x: F| fadd(f(x), g(x));
    assert forall|x: F| #[trigger] h(x) == pval(sadd(c, d), x) by { pval_sadd(c, d, x); assert(f(x) == pval(c, x)); assert(g(x) == pval(d, x)); } assert(is_coeffs(sadd(c, d), h, n));
}
pub proof fn poly_scale(f: spec_fn(F) -> F, a: F, n: int) requires is_poly(f, n) ensures is_poly(|x: F| fmul(f(x), a), n) {
    let c = choose|c: Seq<F>| #[trigger] is_coeffs(c, f, n); let h = |x: F| fmul(f(x), a);
    assert forall|x: F| #[trigger] h(x) == pval(sscale(c, a), x) by { pval_sscale(c, a, x); assert(f(x) == pval(c, x)); } assert(is_coeffs(sscale(c, a), h, n));
}
pub proof fn poly_widen(f: spec_fn(F) -> F, n: int, m: int) requires is_poly(f, n), 0 <= n <= m ensures is_poly(f, m) decreases m - n {
    if n < m { poly_widen(f, n, m - 1); let c = choose|c: Seq<F>| #[trigger] is_coeffs(c, f, m - 1);
        assert forall|x: F| #[trigger] f(x) == pval(c.push(f0()), x) by { pval_widen(c, x); } assert(is_coeffs(c.push(f0()), f, m)); }
}
/// multiplying by a linear factor adds one coefficient
pub proof fn poly_lin(f: spec_fn(F) -> F, a: F, s: F, n: int) requires is_poly(f, n), n >= 0 ensures is_poly(|x: F| fmul(f(x), fadd(a, fmul(s, x))), n + 1) {
    broadcast use funits;
    let c = choose|c: Seq<F>| #[trigger] is_coeffs(c, f, n); let h = |x: F| fmul(f(x), fadd(a, fmul(s, x)));
    let d = sadd(sscale(c, a).push(f0()), seq![f0()] + sscale(c, s));
    assert forall|x: F| #[trigger] h(x) == pval(d, x) by {
        let e = seq![f0()] + sscale(c, s);
        pval_sadd(sscale(c, a).push(f0()), e, x); pval_widen(sscale(c, a), x); pval_sscale(c, a, x); pval_sscale(c, s, x);
        assert(e.subrange(1, e.len() as int) =~= sscale(c, s));
        let p = pval(c, x); assert(f(x) == p);
        { broadcast use fhom; let (p, a, s, x) = (frep(p), frep(a), frep(s), frep(x)); assert(p * a + x * (p * s) == p * (a + s * x)) by(nonlinear_arith); }
    }
    assert(is_coeffs(d, h, n + 1));
}
pub proof fn pterm_poly(tb: Tabs, idx: Seq<usize>, k: int, b: int) requires 0 <= k <= idx.len() ensures is_poly(|x: F| fprod(k, |j: int| lo_at(tb[idx[j] as int], b, x)), k + 1) decreases k {
    let h = |x: F| fprod(k, |j: int| lo_at(tb[idx[j] as int], b, x));
    if k == 0 { poly_one(); poly_ext(|x: F| f1(), h, 1); }
    else { pterm_poly(tb, idx, k - 1, b); let g = |x: F| fprod(k - 1, |j: int| lo_at(tb[idx[j] as int], b, x)); let t = tb[idx[k - 1] as int];
        let (a, s) = (t[2 * b], fsub(t[2 * b + 1], t[2 * b])); poly_lin(g, a, s, k); poly_ext(|x: F| fmul(g(x), fadd(a, fmul(s, x))), h, k + 1); }
}
pub proof fn psum_poly(tb: Tabs, idx: Seq<usize>, n: int) requires n >= 0 ensures is_poly(|x: F| fsum(n, |b: int| pterm(tb, idx, b, x)), idx.len() as int + 1) decreases n {
    let k = idx.len() as int; let h = |x: F| fsum(n, |b: int| pterm(tb, idx, b, x));
    if n == 0 { poly_zero(k + 1); poly_ext(|x: F| f0(), h, k + 1); }
    else { psum_poly(tb, idx, n - 1); pterm_poly(tb, idx, k, n - 1); let g = |x: F| fsum(n - 1, |b: int| pterm(tb, idx, b, x)); let t = |x: F| fprod(k, |j: int| lo_at(tb[idx[j] as int], n - 1, x));
        poly_add(g, t, k + 1); poly_ext(|x: F| fadd(g(x), t(x)), h, k + 1); }
}
pub proof fn ssum_n_poly(tb: Tabs, ps: Seq<(F, Vec<usize>)>, k: int, m: int, d: int) requires 0 <= k <= ps.len(), d >= 0, forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).1@.len() <= d ensures is_poly(|x: F| ssum_n(tb, ps, k, m, x), d + 1) decreases k {
    let h = |x: F| ssum_n(tb, ps, k, m, x);
    if k == 0 { poly_zero(d + 1); poly_ext(|x: F| f0(), h, d + 1); }
    else { ssum_n_poly(tb, ps, k - 1, m, d); let idx = ps[k - 1].1@; p2_pos(m - 1); psum_poly(tb, idx, p2(m - 1));
        let g = |x: F| ssum_n(tb, ps, k - 1, m, x); let q = |x: F| fsum(p2(m - 1), |b: int| pterm(tb, idx, b, x)); let a = ps[k - 1].0;
        poly_scale(q, a, idx.len() as int + 1); let qa = |x: F| fmul(q(x), a); poly_widen(qa, idx.len() as int + 1, d + 1);
        poly_add(g, qa, d + 1); poly_ext(|x: F| fadd(g(x), qa(x)), h, d + 1); }
}
/// reading a polynomial off its values at 0..n-1 gives back the polynomial
pub proof fn poly_interp(f: spec_fn(F) -> F, n: int, v: Seq<F>, x: F) requires is_poly(f, n), 1 <= n <= 0x1_0000_0000_0000_0000, v.len() == n, forall|t: int| 0 <= t < n ==> #[trigger] v[t] == f(fk(t)) ensures interp(v, x) == f(x) {
    let c = choose|c: Seq<F>| #[trigger] is_coeffs(c, f, n); inodes_distinct(n); lagr_exact(inodes(n), c, x);
    assert(pvals(c, inodes(n)) =~= v) by { assert forall|t: int| 0 <= t < n implies pvals(c, inodes(n))[t] == v[t] by { assert(f(fk(t)) == pval(c, fk(t))); } }
    assert(f(x) == pval(c, x));
}
/// hypercube sum of the meaning of a virtual polynomial
pub open spec fn vp_sum(v: VirtualPolynomial) -> F { fsum(p2(v.aux_info.num_variables as int), |b: int| vpm(v, at_bool(b))) }
pub proof fn vp_sum_hsum(v: VirtualPolynomial) requires ps_ok(v.products@, v.flattened_ml_extensions@.len() as int) ensures vp_sum(v) == hsum(tabs_of(v.flattened_ml_extensions@), v.products@, v.aux_info.num_variables as int) {
    let fl = v.flattened_ml_extensions@; let ps = v.products@; let tb = tabs_of(fl); let n = p2(v.aux_info.num_variables as int); let k = ps.len() as int;
    let f = |b: int, i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, at_bool(b)));
    let l = |b: int| vpm(v, at_bool(b)); let l2 = |b: int| fsum(k, |i: int| f(b, i));
    assert forall|b: int| 0 <= b < n implies #[trigger] l(b) == l2(b) by { fsum_eq(k, |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, at_bool(b))), |i: int| f(b, i)); }
    fsum_eq(n, l, l2); fsum_swap(n, k, f);
    let r = |i: int| fsum(n, |b: int| f(b, i)); let h = |i: int| fmul(hpsum(tb, ps[i].1@, v.aux_info.num_variables as int), ps[i].0);
    assert forall|i: int| 0 <= i < k implies #[trigger] r(i) == h(i) by {
        let idx = ps[i].1@; let u = |b: int| hterm(tb, idx, b); fsum_scale(n, ps[i].0, u); let w = |b: int| fmul(ps[i].0, u(b)); let fi = |b: int| f(b, i);
        assert forall|b: int| 0 <= b < n implies #[trigger] fi(b) == w(b) by {
            let x = |j: int| at_bool(b)(*fl[idx[j] as int]); let y = |j: int| tb[idx[j] as int][b];
            assert forall|j: int| 0 <= j < idx.len() implies #[trigger] x(j) == y(j) by { assert(0 <= idx[j] < fl.len()); }
            fprod_eq(idx.len() as int, x, y); 
        }
        fsum_eq(n, fi, w); fmul_comm(ps[i].0, fsum(n, u));
    }
    fsum_eq(k, r, h);
}
/// with every variable set, the hypercube sum is the value of the polynomial at the point
pub proof fn hsum_point(v: VirtualPolynomial, r: Seq<F>) requires fl_ok(v.flattened_ml_extensions@, r.len() as int), ps_ok(v.products@, v.flattened_ml_extensions@.len() as int)
    ensures hsum(fold_tabs_n(tabs_of(v.flattened_ml_extensions@), r), v.products@, 0) == vpm(v, at_point(r)) {
    broadcast use funits;
    let fl = v.flattened_ml_extensions@; let ps = v.products@; let tb = tabs_of(fl); let ft = fold_tabs_n(tb, r); let k = ps.len() as int;
    let h = |i: int| fmul(hpsum(ft, ps[i].1@, 0), ps[i].0); let g = |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, at_point(r)));
    assert forall|i: int| 0 <= i < k implies #[trigger] h(i) == g(i) by {
        let idx = ps[i].1@; let t = |b: int| hterm(ft, idx, b); assert(p2(0) == 1); assert(fsum(1, t) == fadd(fsum(0, t), t(0)));
        let x = |j: int| ft[idx[j] as int][0]; let y = |j: int| at_point(r)(*fl[idx[j] as int]);
        assert forall|j: int| 0 <= j < idx.len() implies #[trigger] x(j) == y(j) by {
            assert(0 <= idx[j] < fl.len()); let d = *fl[idx[j] as int]; assert(dwf(d) && fl[idx[j] as int].num_vars == r.len());
            let e = Seq::<F>::empty(); fold_lo_n_mle(d.evaluations@, r, e); assert(r + e =~= r); mle_nil(fold_lo_n(d.evaluations@, r), e);
        }
        fprod_eq(idx.len() as int, x, y); fmul_comm(ps[i].0, prod_val(fl, idx, at_point(r)));
    }
    fsum_eq(k, h, g);
}
pub proof fn fold_tabs_snoc(tb: Tabs, r: Seq<F>, k: int) requires 0 <= k < r.len() ensures fold_tabs_n(tb, r.subrange(0, k + 1)) == fold_tabs(fold_tabs_n(tb, r.subrange(0, k)), r[k]) {
    assert forall|j: int| 0 <= j < tb.len() implies fold_lo_n(tb[j], r.subrange(0, k + 1)) == fold_lo(fold_lo_n(tb[j], r.subrange(0, k)), r[k]) by { fold_lo_snoc(tb[j], r, k); }
    assert(fold_tabs_n(tb, r.subrange(0, k + 1)) =~= fold_tabs(fold_tabs_n(tb, r.subrange(0, k)), r[k]));
}
pub proof fn fold_tabs_nil(tb: Tabs) ensures fold_tabs_n(tb, Seq::empty()) == tb { assert(fold_tabs_n(tb, Seq::empty()) =~= tb); }
/// an honest run: message k holds the values at 0..d of the k-th partial sum
pub open spec fn honest_msg(tb: Tabs, ps: Seq<(F, Vec<usize>)>, n: int, d: int, ms: Seq<Seq<F>>, ch: Seq<F>, k: int) -> bool {
    ms[k].len() == d + 1 && forall|t: int| 0 <= t <= d ==> #[trigger] ms[k][t] == ssum(fold_tabs_n(tb, ch.subrange(0, k)), ps, n - k, fk(t))
}
pub proof fn fold_tabs_n_ok(tb: Tabs, n: int, r: Seq<F>) requires tabs_ok(tb, n), r.len() <= n ensures tabs_ok(fold_tabs_n(tb, r), n - r.len()) {
    assert forall|j: int| 0 <= j < tb.len() implies (#[trigger] fold_tabs_n(tb, r)[j]).len() == p2(n - r.len()) by { assert(tb[j].len() == p2(n)); fold_lo_n_mle(tb[j], r, Seq::new((n - r.len()) as nat, |i: int| f0())); }
}
pub proof fn honest_step(tb: Tabs, ps: Seq<(F, Vec<usize>)>, n: int, d: int, ms: Seq<Seq<F>>, ch: Seq<F>, k: int)
    requires 0 <= k < n, ch.len() == n, 1 <= d < 0x3fff_ffff_ffff_ffff, tabs_ok(tb, n), prods_ok(ps, tb.len() as int, d), honest_msg(tb, ps, n, d, ms, ch, k)
    ensures fadd(ms[k][0], ms[k][1]) == hsum(fold_tabs_n(tb, ch.subrange(0, k)), ps, n - k), interp(ms[k], ch[k]) == hsum(fold_tabs_n(tb, ch.subrange(0, k + 1)), ps, n - k - 1)
{
    let tk = fold_tabs_n(tb, ch.subrange(0, k)); fold_tabs_n_ok(tb, n, ch.subrange(0, k));
    ssum_halves(tk, ps, n - k); reveal(f0); reveal(f1);
    ssum_n_poly(tk, ps, ps.len() as int, n - k, d);
    let f = |x: F| ssum_n(tk, ps, ps.len() as int, n - k, x);
    poly_interp(f, d + 1, ms[k], ch[k]);
    ssum_fold(tk, ps, n - k, ch[k]); fold_tabs_snoc(tb, ch, k);
}
/// completeness: an honest run passes every round check and ends in the value of the polynomial at the challenge point
pub proof fn honest_accepts(tb: Tabs, ps: Seq<(F, Vec<usize>)>, n: int, d: int, ms: Seq<Seq<F>>, ch: Seq<F>)
    requires n >= 1, ch.len() == n, ms.len() == n, 1 <= d < 0x3fff_ffff_ffff_ffff, tabs_ok(tb, n), prods_ok(ps, tb.len() as int, d), forall|k: int| 0 <= k < n ==> #[trigger] honest_msg(tb, ps, n, d, ms, ch, k)
    ensures sc_ok(ms, ch, hsum(tb, ps, n), n, d), sc_expect(ms, ch, hsum(tb, ps, n), n) == hsum(fold_tabs_n(tb, ch), ps, 0)
{
    let h = hsum(tb, ps, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] sc_round(ms, ch, h, d, k) by {
        assert(honest_msg(tb, ps, n, d, ms, ch, k)); honest_step(tb, ps, n, d, ms, ch, k);
        if k == 0 { assert(ch.subrange(0, 0) =~= Seq::<F>::empty()); fold_tabs_nil(tb); }
        else { assert(honest_msg(tb, ps, n, d, ms, ch, k - 1)); honest_step(tb, ps, n, d, ms, ch, k - 1); }
    }
    assert(honest_msg(tb, ps, n, d, ms, ch, n - 1)); honest_step(tb, ps, n, d, ms, ch, n - 1); assert(ch.subrange(0, n) =~= ch);
}
/// the boolean point whose coordinates are the bits of b
pub open spec fn fbits(b: int, m: int) -> Seq<F> decreases m { if m <= 0 { Seq::empty() } else { seq![if b % 2 == 1 { f1() } else { f0() }] + fbits(b / 2, m - 1) } }
pub proof fn mlev_bits(t: Seq<F>, b: int, m: int) requires m >= 0, t.len() == p2(m), 0 <= b < p2(m) ensures mlev(t, fbits(b, m)) == t[b], fbits(b, m).len() == m decreases m {
    if m == 0 { mle_nil(t, fbits(b, 0)); }
    else {
        let r = fbits(b, m); let x = r[0]; p2_pos(m - 1);
        let u = fold_lo(t, x); assert(u.len() == p2(m - 1));
        mlev_bits(u, b / 2, m - 1); assert(r.subrange(1, r.len() as int) =~= fbits(b / 2, m - 1)); assert(r.len() == m);
        mle_fold_lo(t, r); lo_at_01(t, b / 2); assert(u[b / 2] == lo_at(t, b / 2, x));
    }
}
/// the k-th partial sum of the polynomial: earlier variables at c, variable k at x, the rest summed over the hypercube
pub open spec fn partial_sum(v: VirtualPolynomial, c: Seq<F>, x: F) -> F { let n = v.aux_info.num_variables as int; fsum(p2(n - c.len() - 1), |b: int| vpm(v, at_point(c.push(x) + fbits(b, n - c.len() - 1)))) }
pub proof fn partial_sum_ssum(v: VirtualPolynomial, c: Seq<F>, x: F)
    requires fl_ok(v.flattened_ml_extensions@, v.aux_info.num_variables as int), ps_ok(v.products@, v.flattened_ml_extensions@.len() as int), c.len() < v.aux_info.num_variables
    ensures ssum(fold_tabs_n(tabs_of(v.flattened_ml_extensions@), c), v.products@, v.aux_info.num_variables - c.len(), x) == partial_sum(v, c, x)
{
    let fl = v.flattened_ml_extensions@; let ps = v.products@; let tb = tabs_of(fl); let ft = fold_tabs_n(tb, c); let nv = v.aux_info.num_variables as int; let m = nv - c.len() - 1; let k = ps.len() as int; let cx = c.push(x); let n = p2(m);
    let pt = |b: int| cx + fbits(b, m);
    let f = |b: int, i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, at_point(pt(b))));
    let l = |b: int| vpm(v, at_point(cx + fbits(b, m))); let l2 = |b: int| fsum(k, |i: int| f(b, i));
    assert forall|b: int| 0 <= b < n implies #[trigger] l(b) == l2(b) by { fsum_eq(k, |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, at_point(pt(b)))), |i: int| f(b, i)); }
    fsum_eq(n, l, l2); fsum_swap(n, k, f);
    let r = |i: int| fsum(n, |b: int| f(b, i)); let h = |i: int| fmul(psum(ft, ps[i].1@, m + 1, x), ps[i].0);
    assert forall|i: int| 0 <= i < k implies #[trigger] r(i) == h(i) by {
        let idx = ps[i].1@; let u = |b: int| pterm(ft, idx, b, x); fsum_scale(n, ps[i].0, u); let w = |b: int| fmul(ps[i].0, u(b)); let fi = |b: int| f(b, i);
        assert forall|b: int| 0 <= b < n implies #[trigger] fi(b) == w(b) by {
            let a = |j: int| at_point(pt(b))(*fl[idx[j] as int]); let y = |j: int| lo_at(ft[idx[j] as int], b, x);
            assert forall|j: int| 0 <= j < idx.len() implies #[trigger] a(j) == y(j) by {
                assert(0 <= idx[j] < fl.len()); let d = *fl[idx[j] as int]; assert(dwf(d) && fl[idx[j] as int].num_vars == nv); let ev = d.evaluations@;
                let fb = fbits(b, m); p2_pos(m);
                assert(cx.subrange(0, c.len() as int) =~= c); assert(cx.subrange(0, cx.len() as int) =~= cx); fold_lo_snoc(ev, cx, c.len() as int);
                fold_lo_n_mle(ev, cx, fzeros(m)); mlev_bits(fold_lo_n(ev, cx), b, m); fold_lo_n_mle(ev, cx, fb);
                assert(fold_lo(fold_lo_n(ev, c), x)[b] == lo_at(fold_lo_n(ev, c), b, x));
            }
            fprod_eq(idx.len() as int, a, y);
        }
        fsum_eq(n, fi, w); fmul_comm(ps[i].0, fsum(n, u));
    }
    fsum_eq(k, r, h);
}
