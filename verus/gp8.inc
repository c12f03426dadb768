// ---- prover side of set_disjoint ----
pub struct SetDisjointIOP { }
//@threaded SetDisjointIOP::prove
/// a, then b, then zeros
pub open spec fn cat_at(x: Seq<F>, y: Seq<F>, i: int) -> F { if i < x.len() { x[i] } else if i < x.len() + y.len() { y[i - x.len()] } else { f0() } }
pub open spec fn cat0(x: Seq<F>, y: Seq<F>, n: int) -> Seq<F> { Seq::new(n as nat, |i: int| cat_at(x, y, i)) }
/// values of unselected rows cleared
pub open spec fn clr(p: Seq<F>, s: Seq<F>) -> Seq<F> { Seq::new(p.len(), |i: int| if s[i] == f0() { f0() } else { p[i] }) }
pub proof fn mcount_eq(p: Seq<F>, s: Seq<F>, q: Seq<F>, t: Seq<F>, v: F, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i] && (s[i] != f0() ==> p[i] == q[i]) ensures mcount(p, s, v, n) == mcount(q, t, v, n) decreases n { if n > 0 { mcount_eq(p, s, q, t, v, n - 1); assert(s[n - 1] == t[n - 1]); } }
pub proof fn mcount_zero(p: Seq<F>, s: Seq<F>, v: F, m: int, n: int) requires 0 <= m <= n, forall|i: int| m <= i < n ==> #[trigger] s[i] == f0() ensures mcount(p, s, v, n) == mcount(p, s, v, m) decreases n { if n > m { mcount_zero(p, s, v, m, n - 1); assert(s[n - 1] == f0()); } }
pub proof fn mcount_cat(p: Seq<F>, s: Seq<F>, q: Seq<F>, t: Seq<F>, v: F, n: int, m: int) requires p.len() == s.len(), q.len() == t.len(), 0 <= m <= q.len(), p.len() + q.len() <= n ensures mcount(cat0(p, q, n), cat0(s, t, n), v, p.len() + m) == mcount(p, s, v, p.len() as int) + mcount(q, t, v, m) decreases m {
    if m > 0 { mcount_cat(p, s, q, t, v, n, m - 1); } else { mcount_eq(cat0(p, q, n), cat0(s, t, n), p, s, v, p.len() as int); }
}
/// the concatenation counts what both count
pub proof fn cat_counts(p: Seq<F>, s: Seq<F>, q: Seq<F>, t: Seq<F>, v: F, n: int) requires p.len() == s.len(), q.len() == t.len(), p.len() + q.len() <= n ensures mcount(cat0(p, q, n), cat0(s, t, n), v, n) == mcount(p, s, v, p.len() as int) + mcount(q, t, v, q.len() as int) {
    mcount_cat(p, s, q, t, v, n, q.len() as int); mcount_zero(cat0(p, q, n), cat0(s, t, n), v, (p.len() + q.len()) as int, n);
}
pub open spec fn lex_le(p: Seq<F>, s: Seq<F>) -> spec_fn(usize, usize) -> bool { |i: usize, j: usize| fv(p[i as int]) < fv(p[j as int]) || (p[i as int] == p[j as int] && fv(s[i as int]) <= fv(s[j as int])) }
pub proof fn icount_map(ix: Seq<usize>, p: Seq<F>, s: Seq<F>, q: Seq<F>, t: Seq<F>, v: F, n: int) requires n <= ix.len(), forall|k: int| 0 <= k < n ==> #[trigger] q[k] == p[ix[k] as int] && t[k] == s[ix[k] as int] ensures mcount(q, t, v, n) == icount(ix, p, s, v, n) decreases n { if n > 0 { icount_map(ix, p, s, q, t, v, n - 1); assert(q[n - 1] == p[ix[n - 1] as int]); } }
/// rows in order of value, then selector; unselected rows hold zero; every value is selected as often as in both bags together
pub open spec fn is_sumsort(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, nv: int, d: DenseMultilinearExtension, s: DenseMultilinearExtension) -> bool {
    let n = p2(nv); let x = d.evaluations@; let y = s.evaluations@;
    &&& dwf(d) && dwf(s) && d.num_vars == nv && s.num_vars == nv
    &&& forall|i: int, j: int| 0 <= i < j < n ==> fv(#[trigger] x[i]) < fv(#[trigger] x[j]) || (x[i] == x[j] && fv(y[i]) <= fv(y[j]))
    &&& forall|i: int| 0 <= i < n && #[trigger] y[i] == f0() ==> x[i] == f0()
    &&& forall|v: F| #[trigger] mcount(x, y, v, n) == mcount(ap, sa, v, ap.len() as int) + mcount(bp, sb, v, bp.len() as int)
}
pub proof fn sumsort_of(ix0: Seq<usize>, ix: Seq<usize>, ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, nv: int, d: DenseMultilinearExtension, s: DenseMultilinearExtension)
    requires ap.len() == sa.len(), bp.len() == sb.len(), ap.len() + bp.len() <= p2(nv), nv >= 0, dwf(d), dwf(s), d.num_vars == nv, s.num_vars == nv, ix0.len() == p2(nv), ix.len() == p2(nv), ix0.to_multiset() == ix.to_multiset(), forall|t: int| 0 <= t < p2(nv) ==> #[trigger] ix0[t] == t,
        in_order(ix, lex_le(clr(cat0(ap, bp, p2(nv)), cat0(sa, sb, p2(nv))), cat0(sa, sb, p2(nv)))), in_range(ix, p2(nv)),
        forall|k: int| 0 <= k < p2(nv) ==> #[trigger] d.evaluations@[k] == clr(cat0(ap, bp, p2(nv)), cat0(sa, sb, p2(nv)))[ix[k] as int] && s.evaluations@[k] == cat0(sa, sb, p2(nv))[ix[k] as int]
    ensures is_sumsort(ap, sa, bp, sb, nv, d, s)
{
    let n = p2(nv); let x = d.evaluations@; let y = s.evaluations@; let cp = cat0(ap, bp, n); let cs = cat0(sa, sb, n); let z = clr(cp, cs); fv_inj();
    assert forall|i: int, j: int| 0 <= i < j < n implies fv(#[trigger] x[i]) < fv(#[trigger] x[j]) || (x[i] == x[j] && fv(y[i]) <= fv(y[j])) by { assert(lex_le(z, cs)(ix[i], ix[j])); }
    assert forall|i: int| 0 <= i < n && #[trigger] y[i] == f0() implies x[i] == f0() by { assert(x[i] == z[ix[i] as int]); assert(ix[i] < n); }
    assert forall|v: F| #[trigger] mcount(x, y, v, n) == mcount(ap, sa, v, ap.len() as int) + mcount(bp, sb, v, bp.len() as int) by {
        icount_map(ix, z, cs, x, y, v, n); icount_perm(ix0, ix, z, cs, v); icount_id(ix0, z, cs, v, n); mcount_eq(z, cs, cp, cs, v, n); cat_counts(ap, sa, bp, sb, v, n);
    }
}
pub proof fn mcount_hit(p: Seq<F>, s: Seq<F>, v: F, i: int, n: int) requires 0 <= i < n, s[i] != f0(), p[i] == v ensures mcount(p, s, v, n) >= 1 + mcount(p, s, v, i) decreases n { if n - 1 > i { mcount_hit(p, s, v, i, n - 1); } }
pub proof fn mcount_once(p: Seq<F>, s: Seq<F>, v: F, n: int) requires n >= 0, forall|i: int, j: int| 0 <= i < j < n && #[trigger] s[i] != f0() && #[trigger] s[j] != f0() ==> p[i] != v || p[j] != v ensures mcount(p, s, v, n) <= 1 decreases n {
    if n > 0 { mcount_once(p, s, v, n - 1); if s[n - 1] != f0() && p[n - 1] == v { mcount_none(p, s, v, n - 1); } }
}
pub proof fn mcount_none(p: Seq<F>, s: Seq<F>, v: F, n: int) requires n >= 0, forall|i: int| 0 <= i < n && #[trigger] s[i] != f0() ==> p[i] != v ensures mcount(p, s, v, n) == 0 decreases n { if n > 0 { mcount_none(p, s, v, n - 1); assert(s[n - 1] != f0() ==> p[n - 1] != v); } }
pub open spec fn sel_strict(x: Seq<F>, y: Seq<F>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n && #[trigger] y[i] != f0() && #[trigger] y[j] != f0() ==> fv(x[i]) < fv(x[j]) }
/// the honest sum is strictly increasing over its selected rows exactly when no value occurs twice, within or across the two sets
pub proof fn sumsort_strict(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, nv: int, d: DenseMultilinearExtension, s: DenseMultilinearExtension) requires is_sumsort(ap, sa, bp, sb, nv, d, s)
    ensures sel_strict(d.evaluations@, s.evaluations@, p2(nv)) <==> forall|v: F| #[trigger] mcount(ap, sa, v, ap.len() as int) + mcount(bp, sb, v, bp.len() as int) <= 1
{
    let n = p2(nv); let x = d.evaluations@; let y = s.evaluations@; p2_pos(nv); fv_inj();
    if sel_strict(x, y, n) { assert forall|v: F| #[trigger] mcount(ap, sa, v, ap.len() as int) + mcount(bp, sb, v, bp.len() as int) <= 1 by { assert(mcount(x, y, v, n) == mcount(ap, sa, v, ap.len() as int) + mcount(bp, sb, v, bp.len() as int)); mcount_once(x, y, v, n); } }
    if forall|v: F| #[trigger] mcount(ap, sa, v, ap.len() as int) + mcount(bp, sb, v, bp.len() as int) <= 1 {
        assert forall|i: int, j: int| 0 <= i < j < n && #[trigger] y[i] != f0() && #[trigger] y[j] != f0() implies fv(x[i]) < fv(x[j]) by {
            if x[i] == x[j] { let v = x[i]; mcount_hit(x, y, v, i, j); mcount_hit(x, y, v, j, n); mcount_le(x, y, v, i); assert(mcount(x, y, v, n) == mcount(ap, sa, v, ap.len() as int) + mcount(bp, sb, v, bp.len() as int)); }
        }
    }
}
pub open spec fn is_sumsortp(a: ProverTracker, f: Bag, g: Bag, d: DenseMultilinearExtension, s: DenseMultilinearExtension) -> bool { is_sumsort(pvec(a, f.poly), pvec(a, f.selector), pvec(a, g.poly), pvec(a, g.selector), max2(f.poly.num_vars as int, g.poly.num_vars as int) + 1, d, s) }
pub open spec fn setdis_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, r: Bag, c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, u: Bag, d: DenseMultilinearExtension, s: DenseMultilinearExtension) -> bool { is_sumsortp(a, f, g, d, s) && p_commit(a, c1, u.poly, d) && p_commit(c1, c2, u.selector, s) && bagsum_p(c2, c3, f, g, u) && sort_p(c3, b, u, r) }
/// the sorted sum and its selector are committed; it is the sum of both sets and strictly sorted
pub open spec fn setdis_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, r: Bag) -> bool { exists|c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, u: Bag, d: DenseMultilinearExtension, s: DenseMultilinearExtension| #[trigger] setdis_mid(a, b, f, g, r, c1, c2, c3, u, d, s) }
pub open spec fn setdis_fits(a: ProverTracker, f: Bag, g: Bag, r: Bag) -> bool { pcs_fits(a.pcs_param, f.poly.num_vars as int) && pcs_fits(a.pcs_param, g.poly.num_vars as int) && pcs_fits(a.pcs_param, max2(f.poly.num_vars as int, g.poly.num_vars as int) + 1) && pcs_fits(a.pcs_param, r.poly.num_vars as int) }
//@fn src/zksql_poly_iop/set_disjoint/set_disjoint.rs::SetDisjointIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 88), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who), bag_a.poly.num_vars < 62, bag_b.poly.num_vars < 62, hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> setdis_fits(*old(zk_tr), *bag_a, *bag_b, *range_bag),
        ret.is_ok() ==> setdis_p(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 88),
//@@ entry
    broadcast use pvec_still, ipow_p2;
    let ghost a = *zk_tr; let ghost ap = pvec(a, bag_a.poly); let ghost sa = pvec(a, bag_a.selector); let ghost bp = pvec(a, bag_b.poly); let ghost sb = pvec(a, bag_b.selector); let ghost nv = max2(bag_a.poly.num_vars as int, bag_b.poly.num_vars as int) + 1; let ghost n = p2(nv); let ghost cp = cat0(ap, bp, n); let ghost cs = cat0(sa, sb, n); let ghost z = clr(cp, cs);
    proof { reveal(f0); fv_inj(); pt_nv_small(a, bag_a.poly.id); pt_nv_small(a, bag_b.poly.id); p2_64(); p2_mono(bag_a.poly.num_vars as int, nv - 1); p2_mono(bag_b.poly.num_vars as int, nv - 1); p2_mono(nv, 63); assert(n == 2 * p2(nv - 1)); p2_pos(bag_a.poly.num_vars as int); p2_pos(bag_b.poly.num_vars as int); assert(ap.len() == p2(bag_a.poly.num_vars as int)); assert(bp.len() == p2(bag_b.poly.num_vars as int)); }
//@@ inv 0
            zk_n0 == zk_s0@.len(), zk_s0@ =~= ap, zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == ap[j],
//@@ inv 1
            zk_n1 == zk_s1@.len(), zk_s1@ =~= bp, zk_acc1@.len() == zk_i1, forall|j: int| 0 <= j < zk_i1 ==> #[trigger] zk_acc1@[j] == bp[j],
//@@ inv 2
            zk_n2 == zk_s2@.len(), zk_s2@ =~= sa, zk_acc2@.len() == zk_i2, forall|j: int| 0 <= j < zk_i2 ==> #[trigger] zk_acc2@[j] == sa[j],
//@@ inv 3
            zk_n3 == zk_s3@.len(), zk_s3@ =~= sb, zk_acc3@.len() == zk_i3, forall|j: int| 0 <= j < zk_i3 ==> #[trigger] zk_acc3@[j] == sb[j],
//@@ inv 4
            zk_n4 == n, zk_acc4@.len() == zk_i4, forall|t: int| 0 <= t < zk_i4 ==> #[trigger] zk_acc4@[t] == t,
//@@ after-let indices
    let ghost ix0 = indices@; proof { assert(sum_evals@ =~= cp); assert(sum_sel_evals@ =~= cs); }
//@@ inv 5
            zk_n5 == n, indices@ == ix0, sum_sel_evals@ == cs, sum_evals@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] sum_evals@[i] == (if i < zk_i5 { z[i] } else { cp[i] }),
//@@ after 5
    proof { assert(sum_evals@ =~= z); }
//@@ cmp 0
requires *zk_p < n, *zk_q < n ensures zk_o == (if fv(z[*zk_p as int]) == fv(z[*zk_q as int]) { fcmp(cs[*zk_p as int], cs[*zk_q as int]) } else { fcmp(z[*zk_p as int], z[*zk_q as int]) })
//@@ cmp-le 0
lex_le(z, cs)
//@@ after-call sort_by
    let ghost ix = indices@;
    proof { assert forall|t: int| 0 <= t < ix.len() implies (#[trigger] ix[t]) < n by { perm_contains(ix0, ix, ix[t]); assert(ix.contains(ix[t])); } assert(in_range(ix, n)); assert(in_order(ix, lex_le(z, cs))); }
//@@ inv 6
            zk_n6 == n, indices@ == ix, sum_evals@ == z, zk_acc5@.len() == zk_i6, forall|t: int| 0 <= t < zk_i6 ==> #[trigger] zk_acc5@[t] == z[ix[t] as int],
//@@ inv 7
            zk_n7 == n, indices@ == ix, sum_sel_evals@ == cs, zk_acc6@.len() == zk_i7, forall|t: int| 0 <= t < zk_i7 ==> #[trigger] zk_acc6@[t] == cs[ix[t] as int],
//@@ after-let sum_sel_mle
    let ghost d = sum_mle; let ghost s = sum_sel_mle; proof { sumsort_of(ix0, ix, ap, sa, bp, sb, nv, d, s); }
//@@ after-let sum_poly
    let ghost c1 = *zk_tr; proof { assert(p_commit(a, c1, sum_poly, d)); }
//@@ after-let sum_sel_poly
    let ghost c2 = *zk_tr; proof { assert(p_commit(c1, c2, sum_sel_poly, s)); }
//@@ after-call prove
    let ghost c3 = *zk_tr; proof { assert(bagsum_p(c2, c3, *bag_a, *bag_b, *sum_bag)); }
//@@ pretail
    proof { assert(setdis_mid(a, *zk_tr, *bag_a, *bag_b, *range_bag, c1, c2, c3, *sum_bag, d, s)); }
//@end
