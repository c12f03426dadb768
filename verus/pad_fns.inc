// ---- src/tracker/dmle_utils.rs: padding tables with unused variables ----
//@fn src/tracker/dmle_utils.rs::bit_decompose | as=dmle_utils_bit_decompose
//@@ ensures
        ret@.len() == num_var, forall|j: int| 0 <= j < num_var ==> #[trigger] ret@[j] == bit(input as int, j),
//@@ entry
    broadcast use shifts;
    assert(p2(0) == 1);
//@@ inv 0
            zk_n0 == num_var, res@.len() == zk_i0,
            i as int == input as int / p2(zk_i0 as int),
            forall|j: int| 0 <= j < zk_i0 ==> #[trigger] res@[j] == bit(input as int, j),
//@@ end 0
        proof { bit_div(input as int, zk_i0 - 1); p2_pos(zk_i0 - 1); lemma_div_denominator(input as int, p2(zk_i0 - 1), 2);
            assert(p2(zk_i0 - 1) * 2 == p2(zk_i0 as int)); }
//@end
//@fn src/tracker/dmle_utils.rs::dmle_increase_nv_front
//@@ requires
        dwf(**mle), mle.num_vars <= new_nv < 62,
//@@ ensures
        dwf(*ret), ret.num_vars == new_nv, padded_front(ret.evaluations@, mle.evaluations@, new_nv - mle.num_vars),
        forall|z: Seq<F>, x: Seq<F>| z.len() == new_nv - mle.num_vars && x.len() == mle.num_vars ==> #[trigger] mlev(ret.evaluations@, z + x) == mlev(mle.evaluations@, x),
//@@ entry
    broadcast use ipow_p2;
    let ghost a = new_nv - mle.num_vars; let ghost ev = mle.evaluations@; let ghost n = mle.num_vars as int;
    proof { p2_mono(new_nv as int, 62); p2_64(); p2_div(n, new_nv as int); p2_pos(n); p2_pos(a); p2_mono(n, new_nv as int); assert(p2(0) == 1);
        if a == 0 { pad0(ev); }
        assert forall|out: Seq<F>, z: Seq<F>, x: Seq<F>| padded_front(out, ev, a) && z.len() == a && x.len() == n implies #[trigger] mlev(out, z + x) == mlev(ev, x) by { mle_padded_front(out, ev, z, x); } }
//@@ inv 0
            zk_n0 == p2(n), evals@.len() == zk_i0 * p2(a), forall|k: int| 0 <= k < evals@.len() ==> #[trigger] evals@[k] == ev[k / p2(a)],
//@@ start 0
        let ghost base = evals@.len();
        proof { let i = zk_i0 as int; let m = p2(a); assert((i + 1) * m == i * m + m) by(nonlinear_arith);
            assert forall|k: int| i * m <= k < (i + 1) * m implies #[trigger] (k / m) == i by { lemma_fundamental_div_mod_converse(k, m, i, k - i * m); } }
//@@ inv 1
                zk_n1 == p2(a), evals@.len() == base + zk_i1, forall|k: int| 0 <= k < evals@.len() ==> #[trigger] evals@[k] == ev[k / p2(a)],
//@end
pub proof fn pad0(ev: Seq<F>) requires ev.len() >= 1 ensures padded_front(ev, ev, 0), padded_back(ev, ev, 0) {
    assert(p2(0) == 1);
    assert forall|k: int| 0 <= k < ev.len() implies #[trigger] ev[k] == ev[k / p2(0)] && ev[k] == ev[k % (ev.len() as int)] by { assert(k / 1 == k); lemma_small_mod(k as nat, ev.len()); }
}
//@fn src/tracker/dmle_utils.rs::dmle_increase_nv_back
//@@ requires
        dwf(**mle), mle.num_vars <= new_nv < 62,
//@@ ensures
        dwf(*ret), ret.num_vars == new_nv, padded_back(ret.evaluations@, mle.evaluations@, new_nv - mle.num_vars),
        forall|x: Seq<F>, z: Seq<F>| z.len() == new_nv - mle.num_vars && x.len() == mle.num_vars ==> #[trigger] mlev(ret.evaluations@, x + z) == mlev(mle.evaluations@, x),
//@@ entry
    broadcast use ipow_p2;
    let ghost a = new_nv - mle.num_vars; let ghost ev = mle.evaluations@; let ghost n = mle.num_vars as int;
    proof { p2_mono(new_nv as int, 62); p2_64(); p2_div(n, new_nv as int); p2_pos(n); p2_pos(a); p2_mono(n, new_nv as int); assert(p2(0) == 1);
        if a == 0 { pad0(ev); }
        assert forall|out: Seq<F>, z: Seq<F>, x: Seq<F>| padded_back(out, ev, a) && z.len() == a && x.len() == n implies #[trigger] mlev(out, x + z) == mlev(ev, x) by { mle_padded_back(out, ev, x, z); } }
//@@ before 0
    proof { assert forall|k: int| 0 <= k < p2(n) implies #[trigger] (k % p2(n)) == k by { lemma_small_mod(k as nat, p2(n) as nat); } }
//@@ inv 0
            zk_n0 == p2(new_nv as int) - p2(n), evals@.len() == p2(new_nv as int), 
            forall|k: int| 0 <= k < p2(n) + zk_i0 ==> #[trigger] evals@[k] == ev[k % p2(n)],
//@@ start 0
        proof { lemma_mod_bound(zk_i0 + p2(n), p2(n)); lemma_mod_twice(zk_i0 + p2(n), p2(n)); }
//@end
//@fn src/tracker/dmle_utils.rs::binary_decompose | ren=bit_decompose:dmle_utils_bit_decompose
//@@ ensures
        ret@.len() == num_var, forall|j: int| 0 <= j < num_var ==> #[trigger] ret@[j] == (if bit(input as int, j) { f1() } else { f0() }),
//@@ entry
    broadcast use fhom;
//@@ inv 0
            zk_n0 == num_var, zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == (if bit(input as int, j) { f1() } else { f0() }),
//@end
