// ---- src/subroutines/poly_iop/sum_check/prover.rs: extrapolation of a round message ----
// ark_ff::batch_inversion: every nonzero entry is replaced by its inverse
#[verifier::external_body] pub fn batch_inversion(v: &mut Vec<F>) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == (if old(v)@[i] == f0() { f0() } else { finv(old(v)@[i]) }) { unimplemented!() }
/// prod_{k < m, k != j} (n_j - n_k)
pub open spec fn bary(n: Seq<F>, m: int, j: int) -> F { fprod(m, |k: int| if k == j { f1() } else { fsub(n[j], n[k]) }) }
pub open spec fn skipn(n: Seq<F>, m: int, i: int, x: F) -> F { fprod(m, |j: int| if j == i { f1() } else { fsub(x, n[j]) }) }
pub open spec fn fulln(n: Seq<F>, m: int, x: F) -> F { fprod(m, |j: int| fsub(x, n[j])) }
pub open spec fn is_bary(n: Seq<F>, w: Seq<F>) -> bool { w.len() == n.len() && forall|j: int| 0 <= j < n.len() ==> #[trigger] w[j] == finv(bary(n, n.len() as int, j)) }
pub proof fn bary_ne0(n: Seq<F>, m: int, j: int) requires distinct(n), 0 <= j < n.len(), m <= n.len() ensures bary(n, m, j) != f0() decreases m {
    f01();
    if m > 0 { bary_ne0(n, m - 1, j);
        let k = m - 1;
        if k != j { fsub_eq0(n[j], n[k]); if k < j { assert(n[k] != n[j]); } else { assert(n[j] != n[k]); } }
        fmul_eq0(bary(n, m - 1, j), if k == j { f1() } else { fsub(n[j], n[k]) });
    }
}
pub proof fn lterm_bary(n: Seq<F>, m: int, i: int, x: F) requires distinct(n), 0 <= i < n.len(), 0 <= m <= n.len()
    ensures fmul(fprod(m, |j: int| lfac(n, i, x, j)), bary(n, m, i)) == skipn(n, m, i, x) decreases m {
    broadcast use funits;
    if m > 0 { lterm_bary(n, m - 1, i, x); let k = m - 1;
        let (p, b) = (fprod(m - 1, |j: int| lfac(n, i, x, j)), bary(n, m - 1, i));
        if k != i {
            let d = fsub(n[i], n[k]); let q = fdiv(fsub(x, n[k]), d);
            fsub_eq0(n[i], n[k]); if k < i { assert(n[k] != n[i]); } else { assert(n[i] != n[k]); }
            fdiv_mul(fsub(x, n[k]), d);
            ring_4(p, q, b, d);
        }
    }
}
pub proof fn ring_4(p: F, q: F, b: F, d: F) ensures fmul(fmul(p, q), fmul(b, d)) == fmul(fmul(p, b), fmul(q, d)) {
    broadcast use fhom; let (p, q, b, d) = (frep(p), frep(q), frep(b), frep(d)); assert((p * q) * (b * d) == (p * b) * (q * d)) by(nonlinear_arith);
}
pub proof fn skipn_full(n: Seq<F>, m: int, i: int, x: F) requires 0 <= i, 0 <= m ensures m > i ==> fmul(skipn(n, m, i, x), fsub(x, n[i])) == fulln(n, m, x), m <= i ==> skipn(n, m, i, x) == fulln(n, m, x) decreases m {
    broadcast use funits;
    if m > 0 { skipn_full(n, m - 1, i, x);
        if m - 1 > i { let (a, b, c) = (skipn(n, m - 1, i, x), fsub(x, n[m - 1]), fsub(x, n[i])); fmul_assoc(a, b, c); fmul_comm(b, c); fmul_assoc(a, c, b); }
    }
}
/// the i-th Lagrange basis value is the full product times the i-th barycentric coefficient
pub proof fn lterm_coeff(n: Seq<F>, i: int, x: F) requires distinct(n), 0 <= i < n.len(), x != n[i]
    ensures lterm(n, i, x) == fmul(fulln(n, n.len() as int, x), fmul(finv(fsub(x, n[i])), finv(bary(n, n.len() as int, i)))) {
    let m = n.len() as int; let b = bary(n, m, i); let s = fsub(x, n[i]); let l = lterm(n, i, x);
    bary_ne0(n, m, i); fsub_eq0(x, n[i]); lterm_bary(n, m, i, x); skipn_full(n, m, i, x);
    // full = (l*b)*s
    let c = fmul(finv(s), finv(b)); let fu = fmul(fmul(l, b), s);
    ax_finv(s); ax_finv(b); fmul_eq0(b, s); fmul_assoc(l, b, s);
    ring_4(b, s, finv(b), finv(s)); fmul_comm(finv(b), finv(s));
    broadcast use funits;
    assert(fmul(fmul(b, s), c) == f1());
    fmul_assoc(l, fmul(b, s), c);
}
pub open spec fn bcoef(n: Seq<F>, w: Seq<F>, x: F, i: int) -> F { fmul(finv(fsub(x, n[i])), w[i]) }
pub proof fn bary_extrapolate(n: Seq<F>, w: Seq<F>, v: Seq<F>, x: F)
    requires distinct(n), n.len() >= 1, is_bary(n, w), v.len() == n.len(), forall|i: int| 0 <= i < n.len() ==> x != #[trigger] n[i]
    ensures ({ let m = n.len() as int; let s = fsum(m, |i: int| bcoef(n, w, x, i));
        s != f0() && fmul(fsum(m, |i: int| fmul(bcoef(n, w, x, i), v[i])), finv(s)) == lagr(n, v, x) }) {
    broadcast use funits;
    let m = n.len() as int; let s = fsum(m, |i: int| bcoef(n, w, x, i)); let fu = fulln(n, m, x);
    let t = |i: int| lterm(n, i, x); let c = |i: int| bcoef(n, w, x, i); let fc = |i: int| fmul(fu, c(i));
    assert forall|i: int| 0 <= i < m implies #[trigger] t(i) == fc(i) by { lterm_coeff(n, i, x); }
    lagr_one(n, x); fsum_eq(m, t, fc); fsum_scale(m, fu, c);
    fsum_eq(m, c, |i: int| bcoef(n, w, x, i));
    assert(fmul(fu, s) == f1()); f01();
    ax_finv(s); 
    assert(finv(s) == fu) by { fmul_assoc(fu, s, finv(s)); }
    let g = |i: int| fmul(bcoef(n, w, x, i), v[i]); let gl = |i: int| fmul(v[i], lterm(n, i, x)); let gf = |i: int| fmul(fu, g(i));
    assert forall|i: int| 0 <= i < m implies #[trigger] gl(i) == gf(i) by { assert(t(i) == fc(i)); fmul_assoc(fu, c(i), v[i]); fmul_comm(v[i], t(i)); }
    fsum_eq(m, gl, gf); fsum_scale(m, fu, g); fmul_comm(fu, fsum(m, g));
}
//@fn src/subroutines/poly_iop/sum_check/prover.rs::barycentric_weights
//@@ requires
        distinct(points@),
//@@ ensures
        is_bary(points@, ret@),
//@@ entry
    broadcast use funits;
    let ghost n = points@; let ghost m = points@.len() as int;
//@@ inv 0
            zk_n0 == m, zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == bary(n, m, j),
//@@ inv 1
                    zk_n1 == m, zk_acc1.is_none() ==> bary(n, zk_i1 as int, zk_k0 as int) == f1(), zk_acc1.is_some() ==> zk_acc1.unwrap() == bary(n, zk_i1 as int, zk_k0 as int),
//@@ after 0
    proof { assert forall|j: int| 0 <= j < m implies bary(n, m, j) != f0() by { bary_ne0(n, m, j); } }
//@end
//@fn src/subroutines/poly_iop/sum_check/prover.rs::extrapolate
//@@ requires
        distinct(points@), points@.len() >= 1, is_bary(points@, weights@), evals@.len() == points@.len(), forall|i: int| 0 <= i < points@.len() ==> *at != #[trigger] points@[i],
//@@ ensures
        ret == lagr(points@, evals@, *at),
        forall|c: Seq<F>| c.len() <= points@.len() && #[trigger] pvals(c, points@) == evals@ ==> ret == pval(c, *at),
//@@ entry
    let ghost n = points@; let ghost m = points@.len() as int; let ghost x = *at; let ghost w = weights@;
//@@ inv 0
            zk_n0 == m, zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == fsub(x, n[j]),
//@@ before 1
            proof { assert forall|j: int| 0 <= j < m implies #[trigger] fsub(x, n[j]) != f0() by { fsub_eq0(x, n[j]); } }
//@@ inv 1
            zk_n1 == m, coeffs@.len() == m, forall|j: int| 0 <= j < zk_i1 ==> #[trigger] coeffs@[j] == bcoef(n, w, x, j), forall|j: int| zk_i1 <= j < m ==> #[trigger] coeffs@[j] == finv(fsub(x, n[j])),
//@@ inv 2
            zk_n2 == m, zk_acc1 == fsum(zk_i2 as int, |i: int| bcoef(n, w, x, i)),
//@@ inv 3
            zk_n3 == m, zk_acc2 == fsum(zk_i3 as int, |i: int| fmul(bcoef(n, w, x, i), evals@[i])),
//@@ after 2
            proof { bary_extrapolate(n, w, evals@, x); }
//@@ tail
    proof { assert forall|c: Seq<F>| c.len() <= n.len() && #[trigger] pvals(c, n) == evals@ implies zk_ret == pval(c, x) by { lagr_exact(n, c, x); } }
//@end
