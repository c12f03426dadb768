// ---- equality polynomials ----
/// eq(x, y) = prod_i (x_i y_i + (1 - x_i)(1 - y_i))
pub open spec fn eq1(x: F, y: F) -> F { fadd(fmul(x, y), fmul(fsub(f1(), x), fsub(f1(), y))) }
pub open spec fn eqpt(x: Seq<F>, y: Seq<F>) -> F { fprod(x.len() as int, |i: int| eq1(x[i], y[i])) }
pub proof fn ring_eq1(x: F, y: F) ensures fadd(fsub(fsub(fadd(fmul(x, y), fmul(x, y)), x), y), f1()) == eq1(x, y) {
    broadcast use fhom; let (a, b) = (frep(x), frep(y)); assert(a * b + a * b - a - b + 1 == a * b + (1 - a) * (1 - b)) by(nonlinear_arith);
}
//@fn src/arithmetic/virtual_polynomial.rs::eq_eval
//@@ ensures
        x@.len() != y@.len() ==> ret.is_err(), x@.len() == y@.len() ==> ret.is_ok() && ret.unwrap() == eqpt(x@, y@),
//@@ inv 0
            zk_n0 == x@.len(), res == fprod(zk_i0 as int, |i: int| eq1(x@[i], y@[i])),
//@@ start 0
        proof { ring_eq1(x@[zk_i0 as int], y@[zk_i0 as int]); }
//@end
//@fn src/tracker/dmle_utils.rs::eq_eval | as=dmle_utils_eq_eval
//@@ ensures
        x@.len() != y@.len() ==> ret.is_err(), x@.len() == y@.len() ==> ret.is_ok() && ret.unwrap() == eqpt(x@, y@),
//@@ inv 0
            zk_n0 == x@.len(), res == fprod(zk_i0 as int, |i: int| eq1(x@[i], y@[i])),
//@@ start 0
        proof { ring_eq1(x@[zk_i0 as int], y@[zk_i0 as int]); }
//@end
//@fn src/subroutines/pcs/multilinear_kzg/util.rs::eq_eval | as=kzg_eq_eval
//@@ ensures
        x@.len() != y@.len() ==> ret.is_err(), x@.len() == y@.len() ==> ret.is_ok() && ret.unwrap() == eqpt(x@, y@),
//@@ inv 0
            zk_n0 == x@.len(), res == fprod(zk_i0 as int, |i: int| eq1(x@[i], y@[i])),
//@@ start 0
        proof { ring_eq1(x@[zk_i0 as int], y@[zk_i0 as int]); }
//@end
pub open spec fn is_eq_table(s: Seq<F>, r: Seq<F>) -> bool { s.len() == p2(r.len() as int) && forall|b: int| 0 <= b < s.len() ==> #[trigger] s[b] == eqw(b, r) }
pub proof fn ring_eqtab(r: F, b: F) ensures fsub(b, fmul(r, b)) == fmul(fsub(f1(), r), b) {
    broadcast use fhom; let (x, y) = (frep(r), frep(b)); assert(y - x * y == (1 - x) * y) by(nonlinear_arith);
}
//@fn src/arithmetic/virtual_polynomial.rs::build_eq_x_r_helper
//@@ requires
        r@.len() < 62, old(buf)@.len() == 0,
//@@ ensures
        r@.len() == 0 ==> ret.is_err(), r@.len() > 0 ==> ret.is_ok() && is_eq_table(final(buf)@, r@),
//@@ decreases
        r@.len()
//@@ entry
    broadcast use shifts, funits;
    proof { if r@.len() > 0 { let n = r@.len() as int; p2_mono(n, 62); p2_64(); p2_pos(n - 1); eqw_one(r@); } }
    let ghost n = r@.len() as int; let ghost t = r@.subrange(1, n);
//@@ before 0
        let ghost sub = buf@;
        assert(is_eq_table(sub, t));
//@@ inv 0
            zk_n0 == p2(n), res@.len() == p2(n), buf@ == sub, forall|i: int| 0 <= i < zk_i0 ==> #[trigger] res@[i] == eqw(i, r@),
//@@ end 0
            proof { ring_eqtab(r@[0], sub[zk_k0 as int / 2]); assert(sub[zk_k0 as int / 2] == eqw(zk_k0 as int / 2, t)); }
//@end
pub proof fn eqw_one(r: Seq<F>) requires r.len() > 0 ensures r.len() == 1 ==> eqw(0, r) == fsub(f1(), r[0]) && eqw(1, r) == r[0] && p2(1) == 2 {
    broadcast use funits; p2_64();
    if r.len() == 1 { let e = r.subrange(1, 1); assert(eqw(0, e) == f1()); assert(0int / 2 == 0 && 0int % 2 == 0 && 1int / 2 == 0 && 1int % 2 == 1); assert(eqw(0, r) == fmul(fsub(f1(), r[0]), eqw(0, r.subrange(1, 1)))); assert(eqw(1, r) == fmul(r[0], eqw(0, r.subrange(1, 1)))); }
}
//@fn src/arithmetic/virtual_polynomial.rs::build_eq_x_r_vec
//@@ requires
        r@.len() < 62,
//@@ ensures
        r@.len() == 0 ==> ret.is_err(), r@.len() > 0 ==> ret.is_ok() && is_eq_table(ret.unwrap()@, r@),
//@end
//@fn src/arithmetic/virtual_polynomial.rs::build_eq_x_r
//@@ requires
        r@.len() < 62,
//@@ ensures
        r@.len() == 0 ==> ret.is_err(), r@.len() > 0 ==> ret.is_ok() && ret.unwrap().num_vars == r@.len() && is_eq_table(ret.unwrap().evaluations@, r@),
//@end
//@fn src/tracker/dmle_utils.rs::build_eq_x_r | as=dmle_utils_build_eq_x_r
//@@ requires
        r@.len() < 62,
//@@ ensures
        r@.len() == 0 ==> ret.is_err(), r@.len() > 0 ==> ret.is_ok() && ret.unwrap().num_vars == r@.len() && is_eq_table(ret.unwrap().evaluations@, r@),
//@end
pub proof fn fprod_head(n: int, f: spec_fn(int) -> F) requires n >= 1 ensures fprod(n, f) == fmul(f(0), fprod(n - 1, |i: int| f(i + 1))) decreases n {
    broadcast use funits;
    if n == 1 { assert(fprod(1, f) == fmul(fprod(0, f), f(0))); }
    else { fprod_head(n - 1, f); fmul_assoc(f(0), fprod(n - 2, |i: int| f(i + 1)), f(n - 1)); }
}
pub proof fn ring_eqmle(x: F, y: F, w: F) ensures fadd(fmul(fmul(fsub(f1(), y), f1()), fmul(fsub(f1(), x), w)), fmul(fmul(y, f1()), fmul(x, w))) == fmul(eq1(x, y), w) {
    broadcast use fhom; let (x, y, w) = (frep(x), frep(y), frep(w));
    assert(((1 - y) * 1) * ((1 - x) * w) + (y * 1) * (x * w) == (x * y + (1 - x) * (1 - y)) * w) by(nonlinear_arith);
}
/// the equality table's multilinear extension at x is the succinct value eq(x, r)
pub proof fn eq_table_mle(s: Seq<F>, r: Seq<F>, x: Seq<F>) requires is_eq_table(s, r), x.len() == r.len() ensures mlev(s, x) == eqpt(x, r) decreases r.len() {
    broadcast use funits;
    let n = r.len() as int;
    if n == 0 { assert(p2(0) == 1); mle_nil(s, x); }
    else {
        let rt = r.subrange(1, n); let xt = x.subrange(1, n); let m = p2(n - 1); p2_pos(n - 1);
        let s2 = Seq::new(m as nat, |b: int| eqw(b, rt));
        eq_table_mle(s2, rt, xt);
        mle_fold_lo(s, x);
        let c = eq1(x[0], r[0]);
        let fl = fold_lo(s, x[0]);
        assert forall|b: int| 0 <= b < m implies #[trigger] fl[b] == fmul(c, s2[b]) by {
            assert((2 * b) / 2 == b && (2 * b) % 2 == 0 && (2 * b + 1) / 2 == b && (2 * b + 1) % 2 == 1);
            ring_eqfold(x[0], r[0], eqw(b, rt));
        }
        let f = |b: int| fmul(fl[b], eqw(b, xt)); let g = |b: int| fmul(s2[b], eqw(b, xt));
        assert forall|b: int| 0 <= b < m implies #[trigger] f(b) == (|b: int| fmul(c, g(b)))(b) by { fmul_assoc(c, s2[b], eqw(b, xt)); }
        fsum_eq(m, f, |b: int| fmul(c, g(b))); fsum_scale(m, c, g);
        let h = |i: int| eq1(x[i], r[i]);
        fprod_head(n, h);
        fprod_eq(n - 1, |i: int| h(i + 1), |i: int| eq1(xt[i], rt[i]));
    }
}
pub proof fn ring_eqfold(x: F, r: F, w: F) ensures fadd(fmul(fsub(f1(), r), w), fmul(fsub(fmul(r, w), fmul(fsub(f1(), r), w)), x)) == fmul(eq1(x, r), w) {
    broadcast use fhom; let (x, r, w) = (frep(x), frep(r), frep(w));
    assert((1 - r) * w + (r * w - (1 - r) * w) * x == (x * r + (1 - x) * (1 - r)) * w) by(nonlinear_arith);
}
