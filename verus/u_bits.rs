//@include prelude.inc
//@include math.inc
//@include dmle.inc
/// ceil(log2(x)), and 0 for x <= 1
pub open spec fn is_clog2(x: int, k: int) -> bool { k >= 0 && x <= p2(k) && (k > 0 ==> p2(k - 1) < x) }
#[verifier::external_body] pub fn log2(x: usize) -> (r: u32) ensures is_clog2(x as int, r as int), r <= 64 { unimplemented!() }
pub proof fn sub1(s: Seq<bool>) requires s.len() > 0 ensures s.subrange(0, s.len() as int) == s { assert(s.subrange(0, s.len() as int) =~= s); }
//@fn src/arithmetic/util.rs::bit_decompose
//@@ ensures
        ret@.len() == num_var, forall|j: int| 0 <= j < num_var ==> #[trigger] ret@[j] == bit(input as int, j),
        le(ret@) == (input as int) % p2(num_var as int),
//@@ entry
    broadcast use shifts;
    assert(p2(0) == 1);
//@@ inv 0
            zk_n0 == num_var, res@.len() == zk_i0,
            i as int == input as int / p2(zk_i0 as int),
            forall|j: int| 0 <= j < zk_i0 ==> #[trigger] res@[j] == bit(input as int, j),
//@@ end 0
        proof { bit_div(input as int, zk_i0 - 1); p2_pos(zk_i0 - 1); lemma_div_denominator(input as int, p2(zk_i0 - 1), 2);
            assert(p2(zk_i0 - 1) * 2 == p2(zk_i0 as int)); }
//@@ tail
    proof { le_bits(input as int, zk_ret@); }
//@end
pub proof fn le_push_front(s: Seq<bool>, i: int) requires 0 <= i < s.len() ensures le(s.subrange(i, s.len() as int)) == (if s[i] { 1int } else { 0int }) + 2 * le(s.subrange(i + 1, s.len() as int)) {
    let t = s.subrange(i, s.len() as int); assert(t.subrange(1, t.len() as int) =~= s.subrange(i + 1, s.len() as int));
}
//@fn src/arithmetic/util.rs::project
//@@ requires
        input@.len() <= 64,
//@@ ensures
        ret as int == le(input@),
//@@ entry
    broadcast use shifts;
    assert(input@.subrange(input@.len() as int, input@.len() as int) =~= Seq::empty());
//@@ inv 0
            zk_n0 == input@.len(), zk_n0 <= 64,
            res as int == le(input@.subrange(input@.len() - zk_i0, input@.len() as int)),
//@@ start 0
        proof { let s = input@; let i = s.len() - zk_i0 - 1; le_push_front(s, i); le_bound(s.subrange(i + 1, s.len() as int)); le_bound(s.subrange(i, s.len() as int));
            p2_mono(s.len() - (i + 1), 63); p2_mono(s.len() - i, 64); p2_64(); }
//@@ tail
    assert(input@.subrange(0, input@.len() as int) =~= input@);
//@end
pub broadcast proof fn le_cons(a: Seq<bool>, s: Seq<bool>) requires a.len() == 1 ensures #[trigger] le(a + s) == (if a[0] { 1int } else { 0int }) + 2 * le(s) {
    let z = a + s; assert(z.subrange(1, z.len() as int) =~= s);
}
//@fn src/arithmetic/util.rs::get_index
//@@ entry
    broadcast use le_cons;
//@@ requires
        1 <= num_vars <= 64,
//@@ ensures
        ret.0 as int == 2 * (i as int % p2(num_vars - 1)),
        ret.1 as int == 2 * (i as int % p2(num_vars - 1)) + 1,
        ret.2 == bit(i as int, num_vars - 1),
//@@ tail
    proof {
        let s = bit_sequence@.subrange(0, num_vars - 1);
        assert forall|j: int| 0 <= j < s.len() implies s[j] == bit(i as int, j) by { }
        le_bits(i as int, s);
    }
//@end
//@fn src/arithmetic/util.rs::gen_eval_point
//@@ ensures
        ret@.len() == point@.len() + index_len,
        forall|j: int| 0 <= j < point@.len() ==> #[trigger] ret@[j] == point@[j],
        forall|j: int| point@.len() <= j < ret@.len() ==> #[trigger] ret@[j] == (if bit(index as int, j - point@.len()) { f1() } else { f0() }),
//@@ inv 0
            zk_n0 == index_len, zk_acc0@.len() == zk_i0,
            forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == (if bit(index as int, j) { f1() } else { f0() }),
//@@ entry
    broadcast use fhom;
//@end
//@fn src/arithmetic/util.rs::get_batched_nv
//@@ requires
        num_var + 64 <= usize::MAX,
//@@ ensures
        ret >= num_var, is_clog2(polynomials_len as int, ret - num_var), ret <= num_var + 64,
//@end
/// slice i holds polynomial i's evaluations in the given order, the rest is zero
pub open spec fn merged(m: DenseMultilinearExtension, ps: Seq<Arc<DenseMultilinearExtension>>) -> bool {
    let n = p2(ps[0].num_vars as int);
    &&& dwf(m) &&& m.num_vars >= ps[0].num_vars &&& is_clog2(ps.len() as int, m.num_vars - ps[0].num_vars)
    &&& m.evaluations@.len() >= ps.len() * n
    &&& forall|k: int| 0 <= k < ps.len() * n ==> #[trigger] m.evaluations@[k] == ps[k / n].evaluations@[k % n]
    &&& forall|k: int| ps.len() * n <= k < m.evaluations@.len() ==> #[trigger] m.evaluations@[k] == f0()
}
//@fn src/arithmetic/multilinear_polynomial.rs::merge_polynomials
//@@ requires
        polynomials@.len() >= 1, polynomials@.len() <= p2(30), forall|i: int| 0 <= i < polynomials@.len() ==> dwf(*#[trigger] polynomials@[i]),
        polynomials@[0].num_vars <= 30,
//@@ ensures
        (exists|i: int| 0 <= i < polynomials@.len() && (#[trigger] polynomials@[i]).num_vars != polynomials@[0].num_vars) ==> ret.is_err(),
        (forall|i: int| 0 <= i < polynomials@.len() ==> (#[trigger] polynomials@[i]).num_vars == polynomials@[0].num_vars) ==> ret.is_ok(),
        ret.is_ok() ==> merged(*ret.unwrap(), polynomials@),
//@@ inv 0
            zk_n0 == polynomials@.len(), forall|j: int| 0 <= j < zk_i0 ==> (#[trigger] polynomials@[j]).num_vars == nv,
//@@ inv 1
            zk_n1 == polynomials@.len(), scalars@.len() == zk_i1 * p2(nv as int),
            forall|k: int| 0 <= k < scalars@.len() ==> #[trigger] scalars@[k] == polynomials@[k / p2(nv as int)].evaluations@[k % p2(nv as int)],
//@@ before 1
        let ghost pn = p2(nv as int);
        proof { p2_pos(nv as int); p2_mono(nv as int, 30); assert(0 * pn == 0); }
//@@ start 1
            let ghost s0 = scalars@;
//@@ end 1
            proof {
                let i = zk_k1 as int;
                assert((i + 1) * pn == i * pn + pn) by(nonlinear_arith);
                assert forall|k: int| i * pn <= k < (i + 1) * pn implies k / pn == i && #[trigger] (k % pn) == k - i * pn by { lemma_fundamental_div_mod_converse(k, pn, i, k - i * pn); }
            }
//@@ after 1
    proof {
        let n = polynomials@.len() as int; let k = merged_nv - nv;
        p2_add(nv as int, k);
        assert(n * pn <= p2(k) * pn) by(nonlinear_arith) requires n <= p2(k), pn >= 1;
        if k > 30 { p2_mono(30, k - 1); }
        p2_mono(merged_nv as int, 62); p2_64();
        assert(p2(k) * pn == pn * p2(k)) by(nonlinear_arith);
    }
//@@ entry
    broadcast use shifts;
//@end
//@fn src/arithmetic/multilinear_polynomial.rs::identity_permutation
//@@ requires
        num_vars < 64, num_chunks * p2(num_vars as int) < 0x1_0000_0000_0000_0000,
//@@ ensures
        ret@.len() == num_chunks * p2(num_vars as int), forall|k: int| 0 <= k < ret@.len() ==> #[trigger] ret@[k] == fint(k),
//@@ inv 0
            zk_n0 == len, zk_acc0@.len() == zk_i0, forall|k: int| 0 <= k < zk_i0 ==> #[trigger] zk_acc0@[k] == fint(k),
//@@ entry
    broadcast use shifts;
    proof { p2_mono(num_vars as int, 63); p2_64(); }
//@end
//@fn src/arithmetic/multilinear_polynomial.rs::identity_permutation_mles
//@@ vartype
    res: Vec<Arc<DenseMultilinearExtension>>
//@@ requires
        num_vars < 62, num_chunks * p2(num_vars as int) < 0x1_0000_0000_0000_0000,
//@@ ensures
        ret@.len() == num_chunks,
        forall|i: int| 0 <= i < num_chunks ==> dwf(*#[trigger] ret@[i]) && ret@[i].num_vars == num_vars && forall|b: int| 0 <= b < p2(num_vars as int) ==> #[trigger] ret@[i].evaluations@[b] == fint(i * p2(num_vars as int) + b),
//@@ inv 0
            zk_n0 == num_chunks, res@.len() == zk_i0,
            forall|i: int| 0 <= i < zk_i0 ==> dwf(*#[trigger] res@[i]) && res@[i].num_vars == num_vars && forall|b: int| 0 <= b < pn ==> #[trigger] res@[i].evaluations@[b] == fint(i * pn + b),
//@@ before 0
    let ghost pn = p2(num_vars as int);
    proof { p2_pos(num_vars as int); p2_mono(num_vars as int, 61); p2_mono(61, 62); p2_64(); }
//@@ start 0
        proof { let i = zk_i0 as int; assert(i * pn + pn == (i + 1) * pn) by(nonlinear_arith); assert((i + 1) * pn <= num_chunks * pn) by(nonlinear_arith) requires i + 1 <= num_chunks, pn >= 1; assert(i * pn >= 0) by(nonlinear_arith) requires i >= 0, pn >= 1; }
//@@ inv 1
            zk_n1 == pn, zk_acc0@.len() == zk_i1, forall|b: int| 0 <= b < zk_i1 ==> #[trigger] zk_acc0@[b] == fint(zk_k0 * pn + b),
//@@ entry
    broadcast use shifts;
//@end
//@include end.inc
