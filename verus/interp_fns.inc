// ---- src/subroutines/poly_iop/sum_check/verifier.rs: round-message interpolation ----
impl ZkInt for i128 { open spec fn zk_int(&self) -> int { *self as int } #[verifier::external_body] fn zk_to_f(self) -> (r: F) { unimplemented!() } }
/// the evaluation nodes 0, 1, ..., n-1
pub open spec fn inodes(n: int) -> Seq<F> { Seq::new(n as nat, |i: int| fk(i)) }
pub open spec fn off_nodes(x: F, n: int) -> bool { forall|i: int| 0 <= i < n ==> x != #[trigger] fk(i) }
/// s is the value at x of every polynomial with at most v.len() coefficients that takes the values v at 0, 1, ..., v.len()-1
pub open spec fn is_interp(v: Seq<F>, x: F, s: F) -> bool {
    s == lagr(inodes(v.len() as int), v, x) && forall|c: Seq<F>| c.len() <= v.len() && #[trigger] pvals(c, inodes(v.len() as int)) == v ==> s == pval(c, x)
}
pub open spec fn interp(v: Seq<F>, x: F) -> F { lagr(inodes(v.len() as int), v, x) }
pub proof fn fk_inj(i: int, j: int) requires 0 <= i < fp(), 0 <= j < fp(), fk(i) == fk(j) ensures i == j { ax_fk(i); ax_fk(j); lemma_small_mod(i as nat, fp() as nat); lemma_small_mod(j as nat, fp() as nat); }
pub proof fn inodes_distinct(n: int) requires 0 <= n <= 0x1_0000_0000_0000_0000 ensures distinct(inodes(n)) {
    ax_fp();
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] inodes(n)[i] != #[trigger] inodes(n)[j] by { if fk(i) == fk(j) { fk_inj(i, j); } }
}
pub proof fn is_interp_intro(v: Seq<F>, x: F) requires 1 <= v.len() <= 0x1_0000_0000_0000_0000 ensures is_interp(v, x, interp(v, x)) {
    let n = v.len() as int; inodes_distinct(n);
    assert forall|c: Seq<F>| c.len() <= v.len() && #[trigger] pvals(c, inodes(n)) == v implies interp(v, x) == pval(c, x) by { lagr_exact(inodes(n), c, x); }
}
pub open spec fn fact(n: int) -> int decreases n { if n <= 1 { 1 } else { n * fact(n - 1) } }
/// (-1)^k k!
pub open spec fn sfact(k: int) -> int decreases k { if k <= 0 { 1 } else { -k * sfact(k - 1) } }
pub proof fn fact_pos(n: int) ensures fact(n) >= 1 decreases n { if n > 1 { fact_pos(n - 1); assert(n * fact(n - 1) >= 1) by(nonlinear_arith) requires n > 1, fact(n - 1) >= 1; } }
pub proof fn fact_mono(a: int, b: int) requires a <= b ensures fact(a) <= fact(b) decreases b - a { if a < b { fact_mono(a, b - 1); fact_pos(b - 1); if b > 1 { assert(b * fact(b - 1) >= fact(b - 1)) by(nonlinear_arith) requires b > 1, fact(b - 1) >= 1; } } }
pub proof fn fact_unf(i: int) requires i >= 1 ensures fact(i) == i * fact(i - 1) { if i == 1 { assert(fact(0) == 1 && fact(1) == 1); assert(i * fact(i - 1) == 1) by(nonlinear_arith) requires i == 1, fact(i - 1) == 1; } }
pub proof fn sfact_abs(k: int) requires k >= 0 ensures sfact(k) == fact(k) || sfact(k) == -fact(k) decreases k {
    if k > 0 { sfact_abs(k - 1); assert(-k * fact(k - 1) == -(k * fact(k - 1)) && -k * -fact(k - 1) == k * fact(k - 1)) by(nonlinear_arith); if k == 1 { assert(sfact(0) == 1); } }
}
pub proof fn fact_consts() ensures fact(19) == 121645100408832000, fact(20) == 2432902008176640000, fact(32) == 263130836933693530167218012160000000, fact(33) == 8683317618811886495518194401280000000 {
    assert(fact(19) == 121645100408832000) by(compute); assert(fact(20) == 2432902008176640000) by(compute);
    assert(fact(32) == 263130836933693530167218012160000000) by(compute); assert(fact(33) == 8683317618811886495518194401280000000) by(compute);
}
pub proof fn fmul_ne0(a: F, b: F) requires a != f0(), b != f0() ensures fmul(a, b) != f0() { fmul_eq0(a, b); }
pub proof fn fk_ne0(i: int) requires 0 < i < fp() ensures fk(i) != f0() { reveal(f0); if fk(i) == fk(0) { fk_inj(i, 0); } }
pub proof fn ffact_ne0(n: int) requires 0 <= n <= 0x1_0000_0000_0000_0000 ensures fk(fact(n)) != f0() decreases n {
    ax_fp();
    if n <= 1 { fk_ne0(1); } else { ffact_ne0(n - 1); fk_ne0(n); fmul_ne0(fk(n), fk(fact(n - 1))); fmul_hom(n, fact(n - 1)); }
}
pub proof fn fneg_ne0(i: int) requires fk(i) != f0() ensures fk(-i) != f0() {
    broadcast use fhom; if fk(-i) == f0() { assert(fneg(fk(-i)) == fk(- -i)); assert(fneg(f0()) == fk(-0)); }
}
pub proof fn sfact_ne0(k: int) requires 0 <= k <= 0x1_0000_0000_0000_0000 ensures fk(sfact(k)) != f0() { ffact_ne0(k); fneg_ne0(fact(k)); sfact_abs(k); }
/// prod_{j < m, j != i} (x - j)
pub open spec fn pskip(m: int, i: int, x: F) -> F { fprod(m, |j: int| if j == i { f1() } else { fsub(x, fk(j)) }) }
pub open spec fn pfull(m: int, x: F) -> F { fprod(m, |j: int| fsub(x, fk(j))) }
/// prod_{j < m, j != i} (i - j)
pub open spec fn pden(m: int, i: int) -> int decreases m { if m <= 0 { 1 } else { pden(m - 1, i) * (if m - 1 == i { 1 } else { i - (m - 1) }) } }
pub proof fn pskip_full(m: int, i: int, x: F) requires 0 <= i, 0 <= m ensures m > i ==> fmul(pskip(m, i, x), fsub(x, fk(i))) == pfull(m, x), m <= i ==> pskip(m, i, x) == pfull(m, x) decreases m {
    broadcast use funits;
    if m > 0 { pskip_full(m - 1, i, x);
        if m - 1 > i { let (a, b, c) = (pskip(m - 1, i, x), fsub(x, fk(m - 1)), fsub(x, fk(i))); fmul_assoc(a, b, c); fmul_comm(b, c); fmul_assoc(a, c, b); }
    }
}
pub proof fn pden_low(m: int, i: int) requires 0 <= m <= i ensures pden(m, i) * fact(i - m) == fact(i) decreases m {
    if m > 0 { pden_low(m - 1, i); let d = pden(m - 1, i); let k = i - (m - 1);
        fact_unf(k);
        assert(d * (k * fact(k - 1)) == (d * k) * fact(k - 1)) by(nonlinear_arith);
    } else { assert(1 * fact(i) == fact(i)); }
}
pub proof fn pden_high(m: int, i: int) requires 0 <= i < m ensures pden(m, i) == fact(i) * sfact(m - 1 - i) decreases m {
    if m == i + 1 { pden_low(i, i); assert(pden(i, i) * 1 == pden(i, i)); assert(fact(0) == 1); assert(sfact(0) == 1); assert(fact(i) * 1 == fact(i)); }
    else { pden_high(m - 1, i); let k = m - 1 - i; assert(i - (m - 1) == -k); let (a, b) = (fact(i), sfact(k - 1));
        assert((a * b) * -k == a * (-k * b)) by(nonlinear_arith); }
}
/// lterm(0..n-1, i, x) * pden(n, i) == pskip(n, i, x)
pub proof fn lterm_int(m: int, n: int, i: int, x: F) requires 0 <= i < n <= 0x1_0000_0000_0000_0000, 0 <= m <= n
    ensures fmul(fprod(m, |j: int| lfac(inodes(n), i, x, j)), fk(pden(m, i))) == pskip(m, i, x) decreases m {
    broadcast use funits;
    let f = |j: int| lfac(inodes(n), i, x, j);
    if m == 0 { reveal(f1); } else {
        lterm_int(m - 1, n, i, x);
        let j = m - 1; let p = fprod(m - 1, f);
        if j == i { assert(pden(m, i) == pden(m - 1, i) * 1); }
        else {
            inodes_distinct(n); let nn = inodes(n); assert(nn[i] == fk(i) && nn[j] == fk(j)); 
            fsub_hom(i, j); fsub_eq0(fk(i), fk(j));
            let d = fk(i - j); let q = f(j); let e = fk(pden(m - 1, i));
            fdiv_mul(fsub(x, fk(j)), d);
            fmul_hom(pden(m - 1, i), i - j);
            assert(fmul(fmul(p, q), fmul(e, d)) == fmul(fmul(p, e), fmul(q, d))) by { broadcast use fhom; let (p, q, e, d) = (frep(p), frep(q), frep(e), frep(d)); assert((p * q) * (e * d) == (p * e) * (q * d)) by(nonlinear_arith); }
        }
    }
}
/// the term computed in the loop is the Lagrange term
pub proof fn interp_term(n: int, i: int, x: F, v: F, rd: int) requires 0 <= i < n <= 0x1_0000_0000_0000_0000, rd * fact(i) == fact(n - 1), x != fk(i)
    ensures fmul(fmul(fk(fact(n - 1)), fk(sfact(n - 1 - i))), fsub(x, fk(i))) != f0(),
        fdiv(fmul(fmul(v, pfull(n, x)), fk(rd)), fmul(fmul(fk(fact(n - 1)), fk(sfact(n - 1 - i))), fsub(x, fk(i)))) == fmul(v, lterm(inodes(n), i, x)),
        fmul(fk(sfact(n - 1 - i) * fact(n - 1)), fsub(x, fk(i))) != f0(),
        fdiv(fmul(fmul(v, pfull(n, x)), fk(rd)), fmul(fk(sfact(n - 1 - i) * fact(n - 1)), fsub(x, fk(i)))) == fmul(v, lterm(inodes(n), i, x)),
{
    ax_fp(); ffact_ne0(n - 1); sfact_ne0(n - 1 - i); fsub_eq0(x, fk(i));
    let fl = fk(fact(n - 1)); let s = fk(sfact(n - 1 - i)); let y = fsub(x, fk(i)); let r = fk(rd); let g = fk(fact(i));
    fmul_ne0(fl, s); fmul_ne0(fmul(fl, s), y);
    fmul_hom(sfact(n - 1 - i), fact(n - 1)); fmul_comm(fl, s);
    lterm_int(n, n, i, x); pskip_full(n, i, x); pden_high(n, i);
    fmul_hom(fact(i), sfact(n - 1 - i)); fmul_hom(rd, fact(i));
    let t = lterm(inodes(n), i, x);
    assert(inodes(n).len() == n);
    // t * g * s * y == full ;  r * g == fl
    assert(fmul(fmul(v, t), fmul(fmul(fmul(r, g), s), y)) == fmul(fmul(v, fmul(fmul(t, fmul(g, s)), y)), r)) by {
        broadcast use fhom; let (v, t, r, g, s, y) = (frep(v), frep(t), frep(r), frep(g), frep(s), frep(y));
        assert((v * t) * (((r * g) * s) * y) == (v * ((t * (g * s)) * y)) * r) by(nonlinear_arith);
    }
    fdiv_eq(fmul(fmul(v, pfull(n, x)), r), fmul(fmul(fl, s), y), fmul(v, t));
}
/// sum from the top down
pub open spec fn ftail(n: int, k: int, f: spec_fn(int) -> F) -> F decreases k { if k <= 0 { f0() } else { fadd(ftail(n, k - 1, f), f(n - k)) } }
pub proof fn ftail_sum(n: int, k: int, f: spec_fn(int) -> F) requires 0 <= k <= n ensures fadd(ftail(n, k, f), fsum(n - k, f)) == fsum(n, f) decreases k {
    broadcast use funits;
    if k > 0 { ftail_sum(n, k - 1, f); fadd_assoc(ftail(n, k - 1, f), f(n - k), fsum(n - k, f)); fadd_comm(f(n - k), fsum(n - k, f)); }
}
pub proof fn rn_step(n: int, i: int, rd: int) requires 0 < i < n, rd >= 1, rd * fact(i) == fact(n - 1)
    ensures (rd * i) * fact(i - 1) == fact(n - 1), rd * i >= 1, 1 <= rd <= fact(n - 1), 1 <= rd * i <= fact(n - 1), sfact(n - 1 - i) * -(n - i) == sfact(n - i), -fact(n - 1) <= sfact(n - i) <= fact(n - 1), -fact(n - 1) <= sfact(n - i - 1) <= fact(n - 1), fact(n - 1) >= 1
{
    fact_unf(i); fact_pos(n - i); fact_pos(n - i - 1);
    fact_pos(i); fact_pos(i - 1); fact_pos(n - 1);
    assert((rd * i) * fact(i - 1) == rd * (i * fact(i - 1))) by(nonlinear_arith);
    assert(rd * i >= 1) by(nonlinear_arith) requires rd >= 1, i >= 1;
    assert(rd <= rd * fact(i)) by(nonlinear_arith) requires rd >= 1, fact(i) >= 1;
    assert(rd * i <= (rd * i) * fact(i - 1)) by(nonlinear_arith) requires rd * i >= 1, fact(i - 1) >= 1;
    sfact_abs(n - i); sfact_abs(n - i - 1); fact_mono(n - i, n - 1); fact_mono(n - i - 1, n - 1);
    let s = sfact(n - i - 1); let k = n - i; assert(s * -k == -k * s) by(nonlinear_arith);
}
//@fn src/subroutines/poly_iop/sum_check/verifier.rs::field_factorial
//@@ requires
        a < 0x7fff_ffff_ffff_ffff,
//@@ ensures
        ret == fk(fact(a as int)),
//@@ entry
    broadcast use f1_hom, fmul_hom; assert(fact(1) == 1 && fact(0) == 1);
//@@ inv 0
            res == fk(fact(1 + zk_i0)), zk_n0 == (if a >= 2 { a - 1 } else { 0int }),
//@@ start 0
        proof { let k = zk_i0 as int; assert(fact(k + 2) == (k + 2) * fact(k + 1)); let f = fact(k + 1); assert(f * (k + 2) == (k + 2) * f) by(nonlinear_arith); }
//@end
//@fn src/subroutines/poly_iop/sum_check/verifier.rs::u128_factorial
//@@ requires
        a <= 33,
//@@ ensures
        ret == fact(a as int),
//@@ entry
    assert(fact(1) == 1 && fact(0) == 1); proof { fact_consts(); }
//@@ inv 0
            res == fact(1 + zk_i0), zk_n0 == (if a >= 2 { a - 1 } else { 0int }),
//@@ start 0
        proof { let k = zk_i0 as int; assert(fact(k + 2) == (k + 2) * fact(k + 1)); let f = fact(k + 1); assert(f * (k + 2) == (k + 2) * f) by(nonlinear_arith); fact_mono(k + 2, 33); fact_pos(k + 2); }
//@end
//@fn src/subroutines/poly_iop/sum_check/verifier.rs::u64_factorial
//@@ requires
        a <= 20,
//@@ ensures
        ret == fact(a as int),
//@@ entry
    assert(fact(1) == 1 && fact(0) == 1); proof { fact_consts(); }
//@@ inv 0
            res == fact(1 + zk_i0), zk_n0 == (if a >= 2 { a - 1 } else { 0int }),
//@@ start 0
        proof { let k = zk_i0 as int; assert(fact(k + 2) == (k + 2) * fact(k + 1)); let f = fact(k + 1); assert(f * (k + 2) == (k + 2) * f) by(nonlinear_arith); fact_mono(k + 2, 20); fact_pos(k + 2); }
//@end
//@fn src/subroutines/poly_iop/sum_check/verifier.rs::interpolate_uni_poly
//@@ requires
        1 <= p_i@.len() < 0x7fff_ffff_ffff_ffff, off_nodes(eval_at, p_i@.len() as int),
//@@ ensures
        ret.is_ok(), is_interp(p_i@, eval_at, ret.unwrap()),
//@@ entry
    broadcast use funits;
    let ghost n = p_i@.len() as int; let ghost x = eval_at; let ghost L = |i: int| fmul(p_i@[i], lterm(inodes(n), i, x));
    proof { ax_fp(); reveal(f0); fact_consts(); fact_pos(n - 1); assert(f0() == fk(0)); assert(fsub(x, f0()) == x); assert(sfact(0) == 1); assert(inodes(n).len() == n); assert(1 * fact(n - 1) == fact(n - 1)); 
        let g = |j: int| fsub(x, fk(j)); assert(fprod(1, g) == fmul(fprod(0, g), g(0))); }
//@@ inv 0
            zk_n0 == n - 1, evals@.len() == zk_i0 + 1, forall|j: int| 0 <= j < evals@.len() ==> #[trigger] evals@[j] == fsub(x, fk(j)), prod == pfull(zk_i0 + 1, x),
//@@ before 1
        proof { if n <= 20 { fact_mono(n - 1, 19); } }
//@@ inv 1
            zk_n1 == n, n <= 20, res == ftail(n, zk_i1 as int, L), fact(n - 1) <= fact(19),
            zk_i1 < n ==> ratio_numerator == sfact(zk_i1 as int) && ratio_denominator >= 1 && ratio_denominator * fact(n - 1 - zk_i1) == fact(n - 1),
//@@ start 1
        proof { let i = n - 1 - zk_i1; interp_term(n, i, x, p_i@[i], ratio_denominator as int); sfact_abs(zk_i1 as int); fact_mono(zk_i1 as int, n - 1); fneg_hom(-ratio_numerator as int);
            if i != 0 { rn_step(n, i, ratio_denominator as int); } }
//@@ before 2
        proof { if n <= 33 { fact_mono(n - 1, 32); } }
//@@ inv 2
            zk_n2 == n, n <= 33, res == ftail(n, zk_i2 as int, L), fact(n - 1) <= fact(32),
            zk_i2 < n ==> ratio_numerator == sfact(zk_i2 as int) && ratio_denominator >= 1 && ratio_denominator * fact(n - 1 - zk_i2) == fact(n - 1),
//@@ start 2
        proof { let i = n - 1 - zk_i2; interp_term(n, i, x, p_i@[i], ratio_denominator as int); sfact_abs(zk_i2 as int); fact_mono(zk_i2 as int, n - 1); fneg_hom(-ratio_numerator as int);
            if i != 0 { rn_step(n, i, ratio_denominator as int); } }
//@@ before 3
        let ghost mut rd: int = 1;
        proof { reveal(f1); }
//@@ inv 3
            zk_n3 == n, res == ftail(n, zk_i3 as int, L),
            zk_i3 < n ==> denom_up == fk(sfact(zk_i3 as int) * fact(n - 1)) && denom_down == fk(rd) && rd >= 1 && rd * fact(n - 1 - zk_i3) == fact(n - 1),
//@@ start 3
        proof { let i = n - 1 - zk_i3; interp_term(n, i, x, p_i@[i], rd);
            if i != 0 { rn_step(n, i, rd); fmul_hom(rd, i); let (s, f, k) = (sfact(zk_i3 as int), fact(n - 1), n - i); fneg_hom(k); fmul_hom(s * f, -k); assert((s * f) * -k == (s * -k) * f) by(nonlinear_arith); rd = rd * i; } }
//@@ tail
    proof { ftail_sum(n, n, L); is_interp_intro(p_i@, x); }
//@end
