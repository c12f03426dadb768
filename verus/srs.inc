//@typemap Self::SRS => MultilinearUniversalParams
//@typemap impl Borrow<Self::SRS> => &MultilinearUniversalParams
//@typemap R => ZkRng
//@typemap ark_std::log2 => zk_log2
//@include log2.inc
//@struct src/subroutines/pcs/multilinear_kzg/srs.rs::MultilinearUniversalParams
impl MultilinearUniversalParams { pub fn borrow(&self) -> (r: &MultilinearUniversalParams) ensures *r == *self { self } }
/// the random source: the draws made so far
#[verifier::external_body] pub struct ZkRng { x: usize }
pub uninterp spec fn drawn(r: ZkRng) -> Seq<F>;
pub uninterp spec fn drawn1(r: ZkRng) -> Seq<F>;
pub uninterp spec fn drawn2(r: ZkRng) -> Seq<F>;
impl F { #[verifier::external_body] pub fn rand(g: &mut ZkRng) -> (r: F) ensures drawn(*final(g)) == drawn(*old(g)).push(r), drawn1(*final(g)) == drawn1(*old(g)), drawn2(*final(g)) == drawn2(*old(g)) { unimplemented!() } }
impl G1 {
    #[verifier::external_body] pub fn rand(g: &mut ZkRng) -> (r: G1) ensures drawn(*final(g)) == drawn(*old(g)), drawn1(*final(g)) == drawn1(*old(g)).push(dl(r)), drawn2(*final(g)) == drawn2(*old(g)) { unimplemented!() }
    #[verifier::external_body] pub fn into(self) -> (r: G1A) ensures dl(r) == dl(self) { unimplemented!() }
}
impl G2 { #[verifier::external_body] pub fn rand(g: &mut ZkRng) -> (r: G2) ensures drawn(*final(g)) == drawn(*old(g)), drawn1(*final(g)) == drawn1(*old(g)), drawn2(*final(g)) == drawn2(*old(g)).push(dl(r)) { unimplemented!() } }
impl PartialEqSpecImpl for G1A { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, r: &G1A) -> bool { dl(*self) == dl(*r) } }
impl PartialEq for G1A { #[verifier::external_body] fn eq(&self, r: &G1A) -> (b: bool) { unimplemented!() } }
impl ZkClone for Evaluations { #[verifier::external_body] fn zk_clone(&self) -> (r: Evaluations) { unimplemented!() } }
/// a doubly linked list is the sequence of its elements
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct LinkedList<T> { x: Vec<T> }
impl<T> View for LinkedList<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> LinkedList<T> {
    #[verifier::external_body] pub fn new() -> (r: LinkedList<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from_iter(v: Vec<T>) -> (r: LinkedList<T>) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>) ensures r is Some <==> old(self)@.len() > 0, r is Some ==> r->Some_0 == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.subrange(0, old(self)@.len() - 1), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures r is Some <==> old(self)@.len() > 0, r is Some ==> r->Some_0 == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, t: T) ensures final(self)@ == sq1(t) + old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
}
pub open spec fn sq1<T>(a: T) -> Seq<T> { Seq::new(1, |i: int| a) }
pub assume_specification[ usize::is_power_of_two ](x: usize) -> (r: bool) ensures r <==> exists|n: int| n >= 0 && x == #[trigger] p2(n);
pub proof fn shl_mul(x: usize, n: usize) requires n < 64, x * p2(n as int) < 0x1_0000_0000_0000_0000 ensures x << n == x * p2(n as int) decreases n {
    if n == 0 { assert(x << 0usize == x) by(bit_vector); }
    else {
        let m = (n - 1) as usize; p2_pos(m as int); assert(p2(n as int) == 2 * p2(m as int));
        assert(x * p2(n as int) == 2 * (x * p2(m as int))) by(nonlinear_arith) requires p2(n as int) == 2 * p2(m as int);
        shl_mul(x, m); let y = x << m; shl_one(y); assert(x << n == y << 1usize) by(bit_vector) requires y == x << m, 0 < n < 64, m == sub(n, 1);
    }
}
/// the keys of the secrets t
pub open spec fn srs_u(u: MultilinearUniversalParams, t: Seq<F>) -> bool { srs_p(u.prover_param, t) && u.h_mask@.len() == u.prover_param.num_vars && forall|i: int| 0 <= i < t.len() ==> dl(#[trigger] u.h_mask@[i]) == fmul(t[i], dl(u.prover_param.h)) }
pub open spec fn shape_u(u: MultilinearUniversalParams) -> bool { shape_p(u.prover_param) && u.h_mask@.len() == u.prover_param.num_vars }
/// the keys for m variables: the last m+1 tables and the last m masks
pub open spec fn tail_p(u: MultilinearUniversalParams, m: int, p: MultilinearProverParam) -> bool {
    let d = u.prover_param.num_vars - m;
    p.num_vars == m && p.g == u.prover_param.g && p.h == u.prover_param.h && p.powers_of_g@ =~= u.prover_param.powers_of_g@.subrange(d, u.prover_param.powers_of_g@.len() as int)
}
pub open spec fn tail_v(u: MultilinearUniversalParams, m: int, v: MultilinearVerifierParam) -> bool {
    let d = u.prover_param.num_vars - m;
    v.num_vars == m && v.g == u.prover_param.g && v.h == u.prover_param.h && v.h_mask@ =~= u.h_mask@.subrange(d, u.h_mask@.len() as int)
}
/// .. and they are the keys of the last m secrets
pub proof fn tail_srs(u: MultilinearUniversalParams, t: Seq<F>, m: int, p: MultilinearProverParam, v: MultilinearVerifierParam) requires srs_u(u, t), 0 <= m <= u.prover_param.num_vars, tail_p(u, m, p), tail_v(u, m, v)
    ensures srs_p(p, t.subrange(t.len() - m, t.len() as int)), srs_v(v, t.subrange(t.len() - m, t.len() as int)), p.num_vars == v.num_vars, p.g == v.g {
    let n = t.len() as int; let d = n - m; let s = t.subrange(d, n);
    assert forall|i: int| 0 <= i <= m implies srs_level((#[trigger] p.powers_of_g@[i]).evals@, s.subrange(i, m), dl(p.g)) by {
        assert(p.powers_of_g@[i] == u.prover_param.powers_of_g@[d + i]); assert(s.subrange(i, m) =~= t.subrange(d + i, n));
    }
    assert forall|i: int| 0 <= i < m implies dl(#[trigger] v.h_mask@[i]) == fmul(s[i], dl(v.h)) by { assert(v.h_mask@[i] == u.h_mask@[d + i]); }
}
/// a polynomial of k <= m variables has the same commitment and the same opening elements under the trimmed and the full key (the levels are the same tables)
pub proof fn tail_level(u: MultilinearUniversalParams, m: int, p: MultilinearProverParam, j: int) requires shape_u(u), 0 <= m <= u.prover_param.num_vars, tail_p(u, m, p), 0 <= j <= m
    ensures p.powers_of_g@[m - j] == u.prover_param.powers_of_g@[u.prover_param.num_vars - j] { }
//@fn src/subroutines/pcs/multilinear_kzg/srs.rs::StructuredReferenceString for MultilinearUniversalParams::extract_prover_param
//@@ requires
        shape_u(*self), supported_num_vars <= self.prover_param.num_vars,
//@@ ensures
        tail_p(*self, supported_num_vars as int, ret),
//@end
//@fn src/subroutines/pcs/multilinear_kzg/srs.rs::StructuredReferenceString for MultilinearUniversalParams::extract_verifier_param
//@@ requires
        shape_u(*self), supported_num_vars <= self.prover_param.num_vars,
//@@ ensures
        tail_v(*self, supported_num_vars as int, ret),
//@end
//@fn src/subroutines/pcs/multilinear_kzg/srs.rs::StructuredReferenceString for MultilinearUniversalParams::trim
//@@ requires
        shape_u(*self),
//@@ ensures
        ret is Err <==> supported_num_vars > self.prover_param.num_vars,
        ret is Ok ==> tail_p(*self, supported_num_vars as int, ret->Ok_0.0) && tail_v(*self, supported_num_vars as int, ret->Ok_0.1),
//@end
//@fn src/subroutines/pcs/multilinear_kzg/mod.rs::PolynomialCommitmentScheme for MultilinearKzgPCS::trim
//@@ requires
        shape_u(*srs), supported_degree is None,
//@@ ensures
        ret is Err <==> supported_num_vars is None || supported_num_vars->Some_0 > srs.prover_param.num_vars,
        ret is Ok ==> tail_p(*srs, supported_num_vars->Some_0 as int, ret->Ok_0.0) && tail_v(*srs, supported_num_vars->Some_0 as int, ret->Ok_0.1),
//@end
//@fn src/subroutines/pcs/multilinear_kzg/srs.rs::remove_dummy_variable
//@@ requires
        poly@.len() <= p2(30), exists|n: int| n >= pad && poly@.len() == #[trigger] p2(n), 
//@@ ensures
        ret is Ok, ret->Ok_0@.len() * p2(pad as int) == poly@.len(), forall|x: int| 0 <= x < ret->Ok_0@.len() ==> #[trigger] ret->Ok_0@[x] == poly@[x * p2(pad as int)],
//@@ entry
    broadcast use shifts;
    let ghost n = choose|n: int| n >= pad && poly@.len() == #[trigger] p2(n);
    proof { if n > 30 { p2_mono(31, n); assert(p2(31) == 2 * p2(30)); p2_pos(30); } p2_div(pad as int, n); p2_mono(n, 30); p2_pos(n);
        assert forall|r: int| #![trigger p2(r)] r >= 0 && p2(n) <= p2(r) && (r > 0 ==> p2(r - 1) < p2(n)) implies r == n by { log2_p2(r, n); }
        p2_mono(n - pad, 30); p2_64(); p2_mono(30, 62);
        assert forall|x: int| 0 <= x < p2(n - pad) implies 0 <= #[trigger] (x * p2(pad as int)) < poly@.len() by { p2_pos(pad as int); p2_div(pad as int, n);
            assert(0 <= x * p2(pad as int) < p2(n - pad) * p2(pad as int)) by(nonlinear_arith) requires 0 <= x < p2(n - pad), p2(pad as int) > 0; assert(p2(n - pad) * p2(pad as int) == p2(pad as int) * p2(n - pad)) by(nonlinear_arith); }
        assert(p2(0) == 1); if pad == 0 { assert forall|x: int| #[trigger] (x * p2(pad as int)) == x by { assert(p2(pad as int) == 1); assert(x * 1 == x); } }
    }
//@@ inv 0
            zk_n0 == p2(nv as int), zk_acc0@.len() == zk_i0, forall|x: int| 0 <= x < zk_i0 ==> #[trigger] zk_acc0@[x] == poly@[x * p2(pad as int)],
//@@ start 0
        proof { let xx: int = zk_i0 as int; assert(0 <= xx * p2(pad as int) < poly@.len()); shl_mul(zk_i0, pad); }
//@@ after 0
        proof { assert(p2(nv as int) * p2(pad as int) == poly@.len()) by(nonlinear_arith) requires p2(nv as int) == p2(n - pad), p2(n) == p2(pad as int) * p2(n - pad), poly@.len() == p2(n); }
//@end
pub open spec fn off(n: int, i: int) -> int { p2(n + 1) - p2(n + 1 - i) }
pub proof fn off_step(n: int, i: int) requires 0 <= i < n ensures off(n, i + 1) == off(n, i) + p2(n - i), off(n, 0) == 0, 0 <= off(n, i), off(n, i + 1) <= p2(n + 1) { p2_mono(n + 1 - i, n + 1); p2_pos(n - i); }
pub proof fn off_mono(n: int, i: int, j: int) requires 0 <= i <= j <= n ensures off(n, i) <= off(n, j) { p2_mono(n + 1 - j, n + 1 - i); }
pub open spec fn level(b: Seq<F>, t: Seq<F>) -> bool { b.len() == p2(t.len() as int) && forall|x: int| 0 <= x < b.len() ==> #[trigger] b[x] == eqw(x, t) }
/// the running product over all n variables: the weights of the last secrets, at the index without its first i bits
pub open spec fn wide(b: Seq<F>, t: Seq<F>, i: int) -> bool { b.len() == p2(t.len() as int) && forall|y: int| 0 <= y < b.len() ==> #[trigger] b[y] == eqw(y / p2(i), t.subrange(i, t.len() as int)) }
pub open spec fn eqpart(m: Seq<F>, t: Seq<F>, i: int) -> bool { m.len() == p2(t.len() as int) && forall|x: int| 0 <= x < m.len() ==> #[trigger] m[x] == (if bit(x, i) { t[i] } else { fsub(f1(), t[i]) }) }
pub proof fn wide_first(m: Seq<F>, t: Seq<F>) requires t.len() > 0, eqpart(m, t, t.len() - 1) ensures wide(m, t, t.len() - 1) {
    broadcast use funits;
    let n = t.len() as int; let s = t.subrange(n - 1, n);
    assert forall|y: int| 0 <= y < m.len() implies #[trigger] m[y] == eqw(y / p2(n - 1), s) by { bit_div(y, n - 1); assert(s.subrange(1, 1) =~= Seq::<F>::empty()); assert(s.len() == 1 && s[0] == t[n - 1]); let q = y / p2(n - 1); assert(eqw(q / 2, s.subrange(1, 1)) == f1()); }
}
pub proof fn wide_step(b: Seq<F>, m: Seq<F>, c: Seq<F>, t: Seq<F>, i: int) requires 0 < i < t.len(), wide(b, t, i), eqpart(m, t, i - 1), c.len() == b.len(), forall|y: int| 0 <= y < c.len() ==> #[trigger] c[y] == fmul(b[y], m[y]) ensures wide(c, t, i - 1) {
    let n = t.len() as int; let s = t.subrange(i - 1, n);
    p2_pos(i - 1);
    assert forall|y: int| 0 <= y < c.len() implies #[trigger] c[y] == eqw(y / p2(i - 1), s) by {
        bit_div(y, i - 1); assert(s.subrange(1, s.len() as int) =~= t.subrange(i, n));
        let q = p2(i - 1); assert(p2(i) == 2 * q); lemma_div_denominator(y, q, 2); assert((y / q) / 2 == y / p2(i)) by { assert(q * 2 == p2(i)); }
        fmul_comm(b[y], m[y]);
    }
}
pub proof fn level_of_wide(b: Seq<F>, r: Seq<F>, t: Seq<F>, i: int) requires 0 <= i < t.len(), wide(b, t, i), r.len() * p2(i) == b.len(), forall|x: int| 0 <= x < r.len() ==> #[trigger] r[x] == b[x * p2(i)] ensures level(r, t.subrange(i, t.len() as int)) {
    let n = t.len() as int; p2_pos(i); p2_div(i, n);
    assert(r.len() == p2(n - i)) by { lemma_div_multiples_vanish(r.len() as int, p2(i)); assert(r.len() * p2(i) == p2(i) * r.len()) by(nonlinear_arith); }
    assert forall|x: int| 0 <= x < r.len() implies #[trigger] r[x] == eqw(x, t.subrange(i, n)) by {
        lemma_div_multiples_vanish(x, p2(i)); assert(x * p2(i) == p2(i) * x) by(nonlinear_arith);
        assert(0 <= x * p2(i) < r.len() * p2(i)) by(nonlinear_arith) requires 0 <= x < r.len(), p2(i) > 0;
    }
}
pub proof fn eqw_zero(z: Seq<F>, t: Seq<F>) requires z.len() == t.len(), forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == f0() ensures eqpt(z, t) == eqw(0, t) decreases t.len() {
    broadcast use funits;
    let n = t.len() as int;
    if n > 0 {
        let h = |i: int| eq1(z[i], t[i]); let zt = z.subrange(1, n); let tt = t.subrange(1, n);
        fprod_head(n, h); eqw_zero(zt, tt); fprod_eq(n - 1, |i: int| h(i + 1), |i: int| eq1(zt[i], tt[i]));
        assert(z[0] == f0());
        assert(eq1(f0(), t[0]) == fsub(f1(), t[0])) by { broadcast use fhom; let x = frep(t[0]); assert(0 * x + (1 - 0) * (1 - x) == 1 - x); }
    }
}
//@fn src/subroutines/pcs/multilinear_kzg/srs.rs::StructuredReferenceString for MultilinearUniversalParams::gen_srs_for_testing | ren=eq_eval:kzg_eq_eval
//@@ requires
        num_vars < 29,
//@@ ensures
        ret is Err <==> num_vars == 0,
        // the secrets are the scalars drawn
        ret is Ok ==> ret->Ok_0.prover_param.num_vars == num_vars && drawn(*final(rng)).len() == drawn(*old(rng)).len() + num_vars && srs_u(ret->Ok_0, drawn(*final(rng)).subrange(drawn(*old(rng)).len() as int, drawn(*final(rng)).len() as int)),
        // and the generators are drawn
        ret is Ok ==> drawn1(*final(rng)) == drawn1(*old(rng)).push(dl(ret->Ok_0.prover_param.g)) && drawn2(*final(rng)) == drawn2(*old(rng)).push(dl(ret->Ok_0.prover_param.h)),
//@@ vartype
    zk_acc0: Vec<F>
    eq_arr: LinkedList<Vec<F>>
    powers_of_g: Vec<Evaluations>
    pp_powers: Vec<F>
//@@ entry
    broadcast use shifts, groups;
    let ghost n = num_vars as int;
    proof { p2_mono(n, 29); p2_mono(n + 1, 30); p2_mono(30, 62); p2_mono(29, 30); p2_64(); }
//@@ inv 0
            zk_n0 == n, zk_acc0@.len() == zk_i0, drawn(*rng) =~= drawn(*old(rng)) + zk_acc0@, drawn1(*rng) == drawn1(*old(rng)).push(dl(g)), drawn2(*rng) == drawn2(*old(rng)).push(dl(h)),
//@@ after-let eq
    let ghost e0 = eq@;
    assert forall|i: int| 0 <= i < n implies eqpart((#[trigger] e0[i]).evaluations@, t@, i) by { }
//@@ after-let base
    proof { wide_first(base@, t@); }
//@@ inv 1
            zk_n1 == n, eq_arr@.len() == zk_i1, forall|j: int| 0 <= j < zk_i1 ==> level((#[trigger] eq_arr@[j])@, t@.subrange(n - zk_i1 + j, n)),
            zk_i1 < n ==> wide(base@, t@, n - 1 - zk_i1) && eq@ =~= e0.subrange(0, n - 1 - zk_i1),
//@@ start 1
        let ghost b0 = base@; let ghost arr0 = eq_arr@; let ghost gi = n - 1 - zk_i1;
        proof { assert forall|r: Seq<F>| r.len() * p2(gi) == b0.len() && (forall|x: int| 0 <= x < r.len() ==> #[trigger] r[x] == b0[x * p2(gi)]) implies #[trigger] level(r, t@.subrange(gi, n)) by { level_of_wide(b0, r, t@, gi); } }
//@@ inv 2
                zk_n2 == b0.len(), zk_acc1@.len() == zk_i2, forall|y: int| 0 <= y < zk_i2 ==> #[trigger] zk_acc1@[y] == fmul(b0[y], mul@[y]),
//@@ end 1
        proof { if gi != 0 { wide_step(b0, e0[gi - 1].evaluations@, base@, t@, gi); } 
            assert forall|j: int| 0 <= j < zk_i1 implies level((#[trigger] eq_arr@[j])@, t@.subrange(n - zk_i1 + j, n)) by { if j > 0 { assert(eq_arr@[j] == arr0[j - 1]); } } }
//@@ before 3
    let ghost arr = eq_arr@;
//@@ inv 3
            zk_n3 == n, eq_arr@ =~= arr.subrange(zk_i3 as int, n), pp_powers@.len() == off(n, zk_i3 as int), total_scalars == off(n, zk_i3 as int),
            forall|j: int, x: int| 0 <= j < zk_i3 && 0 <= x < p2(n - j) ==> #[trigger] pp_powers@[off(n, j) + x] == eqw(x, #[trigger] t@.subrange(j, n)),
//@@ start 3
        proof { off_step(n, zk_i3 as int); p2_mono(n - zk_i3, n); }
        let ghost pp0 = pp_powers@; let ghost ci = zk_i3 as int;
//@@ inv 4
                zk_n4 == p2(n - ci), zk_acc2@.len() == zk_i4, forall|x: int| 0 <= x < zk_i4 ==> #[trigger] zk_acc2@[x] == eq@[x],
//@@ end 3
        proof { 
            assert forall|j: int, x: int| 0 <= j < zk_i3 && 0 <= x < p2(n - j) implies #[trigger] pp_powers@[off(n, j) + x] == eqw(x, #[trigger] t@.subrange(j, n)) by {
                if j < ci { off_step(n, j); off_mono(n, j + 1, ci); assert(pp_powers@[off(n, j) + x] == pp0[off(n, j) + x]); } else { assert(eq@[x] == eqw(x, t@.subrange(ci, n))); }
            }
        }
//@@ inv 5
            zk_n5 == n, start == off(n, zk_i5 as int), powers_of_g@.len() == zk_i5,
            forall|j: int| 0 <= j < zk_i5 ==> srs_level((#[trigger] powers_of_g@[j]).evals@, t@.subrange(j, n), dl(g)),
//@@ start 5
        proof { off_step(n, zk_i5 as int); off_mono(n, zk_i5 + 1, n); p2_mono(n - zk_i5, n); p2_pos(n - zk_i5); }
//@@ after-let pp_k_g
        proof {
            assert forall|x: int| 0 <= x < pp_k_g.evals@.len() implies dl(#[trigger] pp_k_g.evals@[x]) == fmul(eqw(x, t@.subrange(i as int, n)), dl(g)) by { assert(pp_k_g.evals@[x] == pp_g@[off(n, i as int) + x]); }
        }
//@@ after-let t_eval_0
        proof { eqw_zero(Seq::new((n - i) as nat, |k: int| f0()), t@.subrange(i as int, n)); }
//@@ after-let gg
    proof {
        broadcast use funits;
        assert(t@.subrange(n, n) =~= Seq::<F>::empty()); assert(p2(0) == 1);
        assert(srs_level(gg.evals@, t@.subrange(n, n), dl(g)));
        assert(drawn(*rng).subrange(drawn(*old(rng)).len() as int, drawn(*rng).len() as int) =~= t@);
    }
//@end
