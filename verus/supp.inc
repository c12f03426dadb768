// ---- advice of bag_supp ----
//@threaded calc_bag_supp_advice
pub open spec fn sel01(s: Seq<F>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == f0() || s[i] == f1() }
/// how often v occurs among the selected entries listed by the first n indices
pub open spec fn icount(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F, n: int) -> int decreases n { if n <= 0 { 0 } else { icount(ix, p, s, v, n - 1) + (if s[ix[n - 1] as int] != f0() && p[ix[n - 1] as int] == v { 1int } else { 0 }) } }
pub open spec fn ione(p: Seq<F>, s: Seq<F>, v: F) -> spec_fn(usize, int) -> int { |i: usize, b: int| b + (if s[i as int] != f0() && p[i as int] == v { 1int } else { 0 }) }
pub proof fn icount_le(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F, n: int) requires n >= 0 ensures 0 <= icount(ix, p, s, v, n) <= n decreases n { if n > 0 { icount_le(ix, p, s, v, n - 1); } }
pub proof fn icount_id(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F, n: int) requires forall|t: int| 0 <= t < n ==> #[trigger] ix[t] == t ensures icount(ix, p, s, v, n) == mcount(p, s, v, n) decreases n { if n > 0 { icount_id(ix, p, s, v, n - 1); assert(ix[n - 1] == n - 1); } }
pub proof fn icount_take(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F, m: int, n: int) requires 0 <= n <= m <= ix.len() ensures icount(ix.take(m), p, s, v, n) == icount(ix, p, s, v, n) decreases n { if n > 0 { icount_take(ix, p, s, v, m, n - 1); } }
pub proof fn icount_fold(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F, b: int) ensures ix.fold_right(ione(p, s, v), b) == icount(ix, p, s, v, ix.len() as int) + b decreases ix.len() {
    if ix.len() > 0 { let r = ix.drop_last(); icount_fold(r, p, s, v, ione(p, s, v)(ix.last(), b)); assert(r =~= ix.take(ix.len() - 1)); icount_take(ix, p, s, v, ix.len() - 1, ix.len() - 1); }
}
/// counting does not depend on the order
pub proof fn icount_perm(a: Seq<usize>, b: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F) requires a.to_multiset() == b.to_multiset() ensures icount(a, p, s, v, a.len() as int) == icount(b, p, s, v, b.len() as int) {
    icount_fold(a, p, s, v, 0); icount_fold(b, p, s, v, 0);
    vstd::seq_lib::lemma_fold_right_permutation(a, b, ione(p, s, v), 0);
}
/// nothing counted past i
pub proof fn icount_rest(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F, i: int, n: int) requires 0 <= i <= n, forall|t: int| i <= t < n ==> s[#[trigger] ix[t] as int] == f0() || p[ix[t] as int] != v ensures icount(ix, p, s, v, n) == icount(ix, p, s, v, i) decreases n - i { if n > i { icount_rest(ix, p, s, v, i, n - 1); } }
pub open spec fn supp_le(p: Seq<F>, s: Seq<F>) -> spec_fn(usize, usize) -> bool { |i: usize, j: usize| fv(s[j as int]) < fv(s[i as int]) || (s[j as int] == s[i as int] && fv(p[i as int]) <= fv(p[j as int])) }
/// u lists the selected values, each once, increasing
pub open spec fn is_support(u: Seq<F>, p: Seq<F>, s: Seq<F>) -> bool { fstrict(u) && u.len() <= p.len() && forall|v: F| #[trigger] u.contains(v) <==> mcount(p, s, v, p.len() as int) > 0 }
/// zeros, then the support; zeros, then ones; zeros, then each value's count
pub open spec fn is_supp(u: Seq<F>, nv: int, p: Seq<F>, s: Seq<F>, d: DenseMultilinearExtension, ds: DenseMultilinearExtension, m: DenseMultilinearExtension) -> bool {
    &&& is_support(u, p, s)
    &&& forall|i: int| 0 <= i < p2(nv) - u.len() ==> #[trigger] d.evaluations@[i] == f0() && ds.evaluations@[i] == f0() && m.evaluations@[i] == f0()
    &&& forall|i: int| p2(nv) - u.len() <= i < p2(nv) ==> #[trigger] d.evaluations@[i] == at_end(u, p2(nv), i) && ds.evaluations@[i] == f1() && m.evaluations@[i] == fk(mcount(p, s, at_end(u, p2(nv), i), p.len() as int))
}
pub open spec fn is_supp_advp(a: ProverTracker, f: Bag, d: DenseMultilinearExtension, ds: DenseMultilinearExtension, m: DenseMultilinearExtension) -> bool { exists|u: Seq<F>| #[trigger] is_supp(u, f.poly.num_vars as int, pvec(a, f.poly), pvec(a, f.selector), d, ds, m) }
/// where the walk over the sorted indices stands: u lists the values met, i indices were consumed
pub open spec fn walk(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, u: Seq<F>, i: int) -> bool {
    &&& fstrict(u) && u.len() <= i <= ix.len()
    &&& forall|t: int| 0 <= t < i ==> s[#[trigger] ix[t] as int] != f0() && u.contains(p[ix[t] as int])
    &&& forall|j: int| 0 <= j < u.len() ==> icount(ix, p, s, #[trigger] u[j], i) > 0
    &&& i < ix.len() && s[ix[i] as int] != f0() ==> forall|j: int| 0 <= j < u.len() ==> fv(#[trigger] u[j]) < fv(p[ix[i] as int])
}
pub open spec fn in_range(ix: Seq<usize>, n: int) -> bool { forall|t: int| 0 <= t < ix.len() ==> (#[trigger] ix[t]) < n }
pub open spec fn in_order(ix: Seq<usize>, le: spec_fn(usize, usize) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < ix.len() ==> le(#[trigger] ix[i], #[trigger] ix[j]) }
pub proof fn fv_01() ensures fv(f0()) == 0, fv(f1()) == 1, f0() != f1() { reveal(f0); reveal(f1); ax_fk(0); ax_fk(1); ax_fp(); lemma_small_mod(0, fp() as nat); lemma_small_mod(1, fp() as nat); }
pub proof fn icount_mono(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F, i: int, n: int) requires i <= n ensures icount(ix, p, s, v, i) <= icount(ix, p, s, v, n) decreases n - i { if i < n { icount_mono(ix, p, s, v, i, n - 1); if n <= 0 { } } }
/// a run of one value
pub proof fn icount_run(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F, i: int, n: int) requires 0 <= i <= n, forall|t: int| i <= t < n ==> s[#[trigger] ix[t] as int] != f0() && p[ix[t] as int] == v ensures icount(ix, p, s, v, n) == icount(ix, p, s, v, i) + (n - i) decreases n - i { if i < n { icount_run(ix, p, s, v, i, n - 1); assert(s[ix[n - 1] as int] != f0()); } }
pub proof fn icount_wit(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, v: F, n: int) -> (t: int) requires n >= 0, icount(ix, p, s, v, n) > 0 ensures 0 <= t < n, s[ix[t] as int] != f0(), p[ix[t] as int] == v decreases n { if s[ix[n - 1] as int] != f0() && p[ix[n - 1] as int] == v { n - 1 } else { icount_wit(ix, p, s, v, n - 1) } }
/// with 0/1 selectors in order: once unselected, unselected for good; otherwise values do not decrease
pub proof fn order01(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, i: int, t: int, n: int) requires in_range(ix, n), in_order(ix, supp_le(p, s)), sel01(s), s.len() == n, ix.len() == n, 0 <= i <= t < n
    ensures s[ix[i] as int] == f0() ==> s[ix[t] as int] == f0(), s[ix[t] as int] != f0() ==> s[ix[i] as int] == s[ix[t] as int] && fv(p[ix[i] as int]) <= fv(p[ix[t] as int])
{ fv_01(); fv_inj(); assert(ix[i] < n && ix[t] < n); assert(s[ix[i] as int] == f0() || s[ix[i] as int] == f1()); assert(s[ix[t] as int] == f0() || s[ix[t] as int] == f1()); if i < t { assert(supp_le(p, s)(ix[i], ix[t])); } }
pub proof fn walk_step(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, u: Seq<F>, i0: int, i: int, val: F, n: int)
    requires in_range(ix, n), in_order(ix, supp_le(p, s)), sel01(s), s.len() == n, ix.len() == n, walk(ix, p, s, u, i0), 0 <= i0 < i <= n, s[ix[i0] as int] != f0(), val == p[ix[i0] as int],
        forall|t: int| i0 <= t < i ==> s[#[trigger] ix[t] as int] != f0() && p[ix[t] as int] == val, i < n ==> s[ix[i] as int] == f0() || p[ix[i] as int] != val
    ensures walk(ix, p, s, u.push(val), i), icount(ix, p, s, val, n) == i - i0
{
    fv_inj();
    let w = u.push(val);
    assert(w[u.len() as int] == val);
    assert forall|v: F| u.contains(v) implies w.contains(v) by { let j = choose|j: int| 0 <= j < u.len() && u[j] == v; assert(w[j] == v); }
    assert forall|t: int| 0 <= t < i0 implies s[#[trigger] ix[t] as int] == f0() || p[ix[t] as int] != val by { assert(u.contains(p[ix[t] as int])); let j = choose|j: int| 0 <= j < u.len() && u[j] == p[ix[t] as int]; assert(fv(u[j]) < fv(val)); }
    icount_rest(ix, p, s, val, 0, i0); icount_run(ix, p, s, val, i0, i);
    assert forall|t: int| i <= t < n implies s[#[trigger] ix[t] as int] == f0() || p[ix[t] as int] != val by { order01(ix, p, s, i, t, n); order01(ix, p, s, i0, i, n); }
    icount_rest(ix, p, s, val, i, n);
    assert forall|j: int| 0 <= j < w.len() implies icount(ix, p, s, #[trigger] w[j], i) > 0 by { if j < u.len() { assert(w[j] == u[j]); icount_mono(ix, p, s, u[j], i0, i); } }
    assert forall|t: int| 0 <= t < i implies s[#[trigger] ix[t] as int] != f0() && w.contains(p[ix[t] as int]) by { if t < i0 { assert(u.contains(p[ix[t] as int])); } }
    assert(fstrict(w));
    if i < n && s[ix[i] as int] != f0() { order01(ix, p, s, i0, i, n); assert forall|j: int| 0 <= j < w.len() implies fv(#[trigger] w[j]) < fv(p[ix[i] as int]) by { if j < u.len() { assert(w[j] == u[j]); assert(fv(u[j]) < fv(val)); } } }
}
pub proof fn walk_end(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, u: Seq<F>, i: int, n: int)
    requires in_range(ix, n), in_order(ix, supp_le(p, s)), sel01(s), s.len() == n, p.len() == n, ix.len() == n, walk(ix, p, s, u, i), i < n ==> s[ix[i] as int] == f0(), forall|v: F| #[trigger] icount(ix, p, s, v, n) == mcount(p, s, v, n)
    ensures is_support(u, p, s)
{
    assert forall|v: F| #[trigger] u.contains(v) <==> mcount(p, s, v, p.len() as int) > 0 by {
        assert(icount(ix, p, s, v, n) == mcount(p, s, v, n));
        if u.contains(v) { let j = choose|j: int| 0 <= j < u.len() && u[j] == v; assert(icount(ix, p, s, u[j], i) > 0); icount_mono(ix, p, s, v, i, n); }
        if mcount(p, s, v, n) > 0 { let t = icount_wit(ix, p, s, v, n); if t >= i { order01(ix, p, s, i, t, n); } else { assert(s[ix[t] as int] != f0()); } }
    }
}
//@fn src/zksql_poly_iop/bag_supp/utils.rs::calc_bag_supp_advice | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)), hp(*old(zk_tr), bag.poly), hp(*old(zk_tr), bag.selector), bag.poly.num_vars == bag.selector.num_vars,
//@@ ensures
        p_quiet(*old(zk_tr), *final(zk_tr)), ret.is_ok(), dwf(ret.unwrap().0) && dwf(ret.unwrap().1) && dwf(ret.unwrap().2), ret.unwrap().0.num_vars == bag.poly.num_vars && ret.unwrap().1.num_vars == bag.poly.num_vars && ret.unwrap().2.num_vars == bag.poly.num_vars,
        sel01(pvec(*old(zk_tr), bag.selector)) ==> is_supp_advp(*old(zk_tr), *bag, ret.unwrap().0, ret.unwrap().1, ret.unwrap().2),
//@@ entry
    broadcast use pvec_still, ipow_p2;
    let ghost a = *zk_tr; let ghost p = pvec(a, bag.poly); let ghost s = pvec(a, bag.selector); let ghost n = p2(bag.poly.num_vars as int);
    proof { pt_nv_small(a, bag.poly.id); p2_64(); p2_mono(bag.poly.num_vars as int, 62); p2_pos(bag.poly.num_vars as int); }
//@@ inv 0
            zk_n0 == n, zk_acc0@.len() == zk_i0, forall|t: int| 0 <= t < zk_i0 ==> #[trigger] zk_acc0@[t] == t,
//@@ cmp 0
requires *zk_p < n, *zk_q < n ensures zk_o == (if fv(s[*zk_q as int]) == fv(s[*zk_p as int]) { fcmp(p[*zk_p as int], p[*zk_q as int]) } else { fcmp(s[*zk_q as int], s[*zk_p as int]) })
//@@ cmp-le 0
supp_le(p, s)
//@@ after-let indices
    let ghost ix0 = indices@; proof { assert(p =~= bag_poly_evals@); assert(s =~= bag_sel_evals@); fv_inj(); }
//@@ after-call sort_by
    let ghost ix = indices@;
    proof {
        assert forall|t: int| 0 <= t < ix.len() implies (#[trigger] ix[t]) < n by { perm_contains(ix0, ix, ix[t]); assert(ix.contains(ix[t])); }
        assert(in_range(ix, n)); assert(in_order(ix, supp_le(p, s)));
        assert forall|v: F| #[trigger] icount(ix, p, s, v, n) == mcount(p, s, v, n) by { icount_perm(ix0, ix, p, s, v); icount_id(ix0, p, s, v, n); }
    }
//@@ inv 1
            zk_n1 == n, zk_i1 == reindexed_bag_poly_evals@.len(),
//@@ inv 2
            i <= n, indices@ == ix, temp_supp_evals@.len() <= i, temp_supp_sel_evals@.len() == temp_supp_evals@.len(), temp_multiplicities@.len() == temp_supp_evals@.len(),
            forall|j: int| 0 <= j < temp_supp_evals@.len() ==> #[trigger] temp_supp_sel_evals@[j] == f1(),
            sel01(s) ==> walk(ix, p, s, temp_supp_evals@, i as int),
            sel01(s) ==> forall|j: int| 0 <= j < temp_supp_evals@.len() ==> #[trigger] temp_multiplicities@[j] == fk(mcount(p, s, temp_supp_evals@[j], n)),
//@@ decreases 2
            n - i
//@@ start 2
        let ghost i0 = i as int; let ghost u0 = temp_supp_evals@;
//@@ inv 3
            i0 <= i <= n, indices@ == ix, mult == i - i0, val == p[ix[i0] as int], s[ix[i0] as int] != f0(),
            forall|t: int| i0 <= t < i ==> s[#[trigger] ix[t] as int] != f0() && p[ix[t] as int] == val,
//@@ decreases 3
            n - i
//@@ after 3
        proof { if sel01(s) { walk_step(ix, p, s, u0, i0, i as int, val, n); } }
//@@ tail
    proof { if sel01(s) { walk_end(ix, p, s, temp_supp_evals@, i as int, n); assert(is_supp(temp_supp_evals@, bag_nv as int, p, s, zk_ret->Ok_0.0, zk_ret->Ok_0.1, zk_ret->Ok_0.2)); } }
//@end
