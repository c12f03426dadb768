// ---- splitting two bags: src/zksql_poly_iop/util/intermed_bag_calc.rs ----
//@threaded bag_lmr_split set_lmr_split bag_lmr_multiplicity_split
/// how often v occurs among the first n elements
pub open spec fn occ(s: Seq<F>, v: F, n: int) -> int decreases n { if n <= 0 { 0 } else { occ(s, v, n - 1) + (if s[n - 1] == v { 1int } else { 0 }) } }
pub proof fn occ_le(s: Seq<F>, v: F, n: int) requires n >= 0 ensures 0 <= occ(s, v, n) <= n decreases n { if n > 0 { occ_le(s, v, n - 1); } }
pub proof fn occ_eq(a: Seq<F>, b: Seq<F>, v: F, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i] ensures occ(a, v, n) == occ(b, v, n) decreases n { if n > 0 { occ_eq(a, b, v, n - 1); assert(a[n - 1] == b[n - 1]); } }
pub proof fn occ_push(s: Seq<F>, x: F, v: F) ensures occ(s.push(x), v, s.push(x).len() as int) == occ(s, v, s.len() as int) + (if x == v { 1int } else { 0 }) { occ_eq(s.push(x), s, v, s.len() as int); }
pub proof fn occ_ms(s: Seq<F>, v: F) ensures occ(s, v, s.len() as int) == s.to_multiset().count(v) decreases s.len() {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 { let r = s.drop_last(); occ_ms(r, v); occ_eq(s, r, v, s.len() - 1); assert(s =~= r.push(s.last())); r.to_multiset_ensures(); assert(s.to_multiset() == r.to_multiset().insert(s.last())); } else { s.to_multiset_ensures(); }
}
pub proof fn occ_perm(a: Seq<F>, b: Seq<F>, v: F) requires a.to_multiset() == b.to_multiset() ensures occ(a, v, a.len() as int) == occ(b, v, b.len() as int) { occ_ms(a, v); occ_ms(b, v); }
pub proof fn occ_has(s: Seq<F>, v: F, n: int) requires 0 <= n <= s.len() ensures occ(s, v, n) > 0 ==> s.contains(v), forall|i: int| 0 <= i < n && #[trigger] s[i] == v ==> occ(s, v, n) > 0 decreases n { if n > 0 { occ_le(s, v, n - 1); occ_has(s, v, n - 1); if s[n - 1] == v { } } }
pub proof fn occ_contains(s: Seq<F>, v: F) ensures s.contains(v) <==> occ(s, v, s.len() as int) > 0 { occ_has(s, v, s.len() as int); }
/// x lists the selected values, in order
pub open spec fn is_sorted_sel(x: Seq<F>, p: Seq<F>, s: Seq<F>) -> bool { fsorted(x) && x.len() <= p.len() && forall|v: F| #[trigger] occ(x, v, x.len() as int) == mcount(p, s, v, p.len() as int) }
/// the first i elements of a went to l or m by whether the other list has them; both are in order and not above what is left
pub open spec fn half(a: Seq<F>, b: Seq<F>, i: int, l: Seq<F>, m: Seq<F>) -> bool {
    &&& l.len() + m.len() == i && 0 <= i <= a.len() && fsorted(l) && fsorted(m)
    &&& forall|k: int, t: int| 0 <= k < l.len() && i <= t < a.len() ==> fv(#[trigger] l[k]) <= fv(#[trigger] a[t])
    &&& forall|k: int, t: int| 0 <= k < m.len() && i <= t < a.len() ==> fv(#[trigger] m[k]) <= fv(#[trigger] a[t])
    &&& forall|v: F| #[trigger] occ(l, v, l.len() as int) == (if b.contains(v) { 0 } else { occ(a, v, i) })
    &&& forall|v: F| #[trigger] occ(m, v, m.len() as int) == (if b.contains(v) { occ(a, v, i) } else { 0 })
}
pub proof fn half_l(a: Seq<F>, b: Seq<F>, i: int, l: Seq<F>, m: Seq<F>) requires half(a, b, i, l, m), i < a.len(), fsorted(a), !b.contains(a[i]) ensures half(a, b, i + 1, l.push(a[i]), m) {
    let w = l.push(a[i]); assert forall|v: F| #[trigger] occ(w, v, w.len() as int) == (if b.contains(v) { 0 } else { occ(a, v, i + 1) }) by { occ_push(l, a[i], v); assert(occ(l, v, l.len() as int) == (if b.contains(v) { 0 } else { occ(a, v, i) })); }
    assert forall|v: F| #[trigger] occ(m, v, m.len() as int) == (if b.contains(v) { occ(a, v, i + 1) } else { 0 }) by { }
}
pub proof fn half_m(a: Seq<F>, b: Seq<F>, i: int, l: Seq<F>, m: Seq<F>) requires half(a, b, i, l, m), i < a.len(), fsorted(a), b.contains(a[i]) ensures half(a, b, i + 1, l, m.push(a[i])) {
    let w = m.push(a[i]); assert forall|v: F| #[trigger] occ(w, v, w.len() as int) == (if b.contains(v) { occ(a, v, i + 1) } else { 0 }) by { occ_push(m, a[i], v); assert(occ(m, v, m.len() as int) == (if b.contains(v) { occ(a, v, i) } else { 0 })); }
    assert forall|v: F| #[trigger] occ(l, v, l.len() as int) == (if b.contains(v) { 0 } else { occ(a, v, i + 1) }) by { }
}
/// everything consumed on one side lies below everything left on the other
pub open spec fn below(a: Seq<F>, i: int, b: Seq<F>, j: int) -> bool { forall|k: int, t: int| 0 <= k < i && j <= t < b.len() ==> fv(#[trigger] a[k]) < fv(#[trigger] b[t]) }
/// a's next is smaller than b's next: b does not have it
pub proof fn only_a(a: Seq<F>, i: int, b: Seq<F>, j: int) requires fsorted(a), fsorted(b), 0 <= i < a.len(), 0 <= j <= b.len(), below(b, j, a, i), j < b.len() ==> fv(a[i]) < fv(b[j]) ensures !b.contains(a[i]), below(a, i, b, j) ==> below(a, i + 1, b, j), below(b, j, a, i + 1) {
    if b.contains(a[i]) { let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; if k < j { assert(fv(b[k]) < fv(a[i])); } else { assert(fv(b[j]) <= fv(b[k])); } }
    assert forall|k: int, t: int| below(a, i, b, j) && 0 <= k < i + 1 && j <= t < b.len() implies fv(#[trigger] a[k]) < fv(#[trigger] b[t]) by { assert(j < b.len()); assert(fv(b[j]) <= fv(b[t])); }
}
/// past a run of one value on both sides
pub proof fn past(a: Seq<F>, i0: int, i: int, b: Seq<F>, j0: int, j: int)
    requires fsorted(a), fsorted(b), 0 <= i0 <= i <= a.len(), 0 <= j0 <= j <= b.len(), i0 < a.len(), j0 < b.len(), a[i0] == b[j0], below(a, i0, b, j0), forall|k: int| i0 <= k < i ==> #[trigger] a[k] == b[j0], forall|k: int| j0 <= k < j ==> #[trigger] b[k] == b[j0], j < b.len() ==> b[j] != b[j0]
    ensures below(a, i, b, j)
{ fv_inj(); assert forall|k: int, t: int| 0 <= k < i && j <= t < b.len() implies fv(#[trigger] a[k]) < fv(#[trigger] b[t]) by { assert(fv(b[j0]) <= fv(b[j])); assert(fv(b[j]) <= fv(b[t])); if k < i0 { assert(fv(a[k]) < fv(b[t])); } else { assert(a[k] == b[j0]); } } }
/// the values selected in f that g has not, and those it has, in order and as often as in f
pub open spec fn is_split(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, l: Seq<F>, m: Seq<F>) -> bool {
    &&& fsorted(l) && fsorted(m) && l.len() + m.len() <= ap.len()
    &&& forall|v: F| #[trigger] occ(l, v, l.len() as int) == (if mcount(bp, sb, v, bp.len() as int) > 0 { 0 } else { mcount(ap, sa, v, ap.len() as int) })
    &&& forall|v: F| #[trigger] occ(m, v, m.len() as int) == (if mcount(bp, sb, v, bp.len() as int) > 0 { mcount(ap, sa, v, ap.len() as int) } else { 0 })
}
pub proof fn split_of(a: Seq<F>, b: Seq<F>, l: Seq<F>, m: Seq<F>, ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>) requires half(a, b, a.len() as int, l, m), is_sorted_sel(a, ap, sa), is_sorted_sel(b, bp, sb) ensures is_split(ap, sa, bp, sb, l, m) {
    assert forall|v: F| #[trigger] occ(l, v, l.len() as int) == (if mcount(bp, sb, v, bp.len() as int) > 0 { 0 } else { mcount(ap, sa, v, ap.len() as int) }) by { occ_contains(b, v); assert(occ(a, v, a.len() as int) == mcount(ap, sa, v, ap.len() as int)); assert(occ(b, v, b.len() as int) == mcount(bp, sb, v, bp.len() as int)); }
    assert forall|v: F| #[trigger] occ(m, v, m.len() as int) == (if mcount(bp, sb, v, bp.len() as int) > 0 { mcount(ap, sa, v, ap.len() as int) } else { 0 }) by { occ_contains(b, v); assert(occ(a, v, a.len() as int) == mcount(ap, sa, v, ap.len() as int)); assert(occ(b, v, b.len() as int) == mcount(bp, sb, v, bp.len() as int)); }
}
pub open spec fn sel_so_far(x: Seq<F>, p: Seq<F>, s: Seq<F>, i: int) -> bool { x.len() <= i && forall|v: F| #[trigger] occ(x, v, x.len() as int) == mcount(p, s, v, i) }
pub proof fn sel_step(x: Seq<F>, p: Seq<F>, s: Seq<F>, i: int) requires 0 <= i < p.len(), sel_so_far(x, p, s, i) ensures s[i] != f0() ==> sel_so_far(x.push(p[i]), p, s, i + 1), s[i] == f0() ==> sel_so_far(x, p, s, i + 1) {
    if s[i] != f0() { let w = x.push(p[i]); assert forall|v: F| #[trigger] occ(w, v, w.len() as int) == mcount(p, s, v, i + 1) by { occ_push(x, p[i], v); } }
}
pub proof fn sel_done(x: Seq<F>, y: Seq<F>, p: Seq<F>, s: Seq<F>) requires sel_so_far(x, p, s, p.len() as int), x.to_multiset() == y.to_multiset(), x.len() == y.len(), fsorted(y) ensures is_sorted_sel(y, p, s) { assert forall|v: F| #[trigger] occ(y, v, y.len() as int) == mcount(p, s, v, p.len() as int) by { occ_perm(x, y, v); } }
/// a list, then zeros; ones, then zeros
pub open spec fn is_front(d: DenseMultilinearExtension, x: Seq<F>, nv: int) -> bool { dwf(d) && d.num_vars == nv && x.len() <= p2(nv) && forall|i: int| 0 <= i < p2(nv) ==> #[trigger] d.evaluations@[i] == (if i < x.len() { x[i] } else { f0() }) }
pub open spec fn ones(n: nat) -> Seq<F> { Seq::new(n, |i: int| f1()) }
/// table d then selector s committed as a bag
pub open spec fn p_cbag(a: ProverTracker, b: ProverTracker, bag: Bag, d: DenseMultilinearExtension, s: DenseMultilinearExtension) -> bool { exists|c: ProverTracker| #[trigger] p_commit(a, c, bag.poly, d) && p_commit(c, b, bag.selector, s) }
pub open spec fn p_clist(a: ProverTracker, b: ProverTracker, bag: Bag, x: Seq<F>, nv: int) -> bool { exists|d: DenseMultilinearExtension, s: DenseMultilinearExtension| #[trigger] p_cbag(a, b, bag, d, s) && is_front(d, x, nv) && is_front(s, ones(x.len()), nv) }
pub open spec fn lmr_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, lb: Bag, mab: Bag, mbb: Bag, rb: Bag, c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, l: Seq<F>, ma: Seq<F>, mb: Seq<F>, r: Seq<F>) -> bool {
    &&& p_clist(a, c1, lb, l, f.poly.num_vars as int) && p_clist(c1, c2, mab, ma, f.poly.num_vars as int) && p_clist(c2, c3, mbb, mb, g.poly.num_vars as int) && p_clist(c3, b, rb, r, g.poly.num_vars as int)
    &&& is_split(pvec(a, f.poly), pvec(a, f.selector), pvec(a, g.poly), pvec(a, g.selector), l, ma) && is_split(pvec(a, g.poly), pvec(a, g.selector), pvec(a, f.poly), pvec(a, f.selector), r, mb)
}
/// left only, common as in f, common as in g, right only: committed in this order
pub open spec fn lmr_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, lb: Bag, mab: Bag, mbb: Bag, rb: Bag) -> bool { exists|c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, l: Seq<F>, ma: Seq<F>, mb: Seq<F>, r: Seq<F>| #[trigger] lmr_mid(a, b, f, g, lb, mab, mbb, rb, c1, c2, c3, l, ma, mb, r) }
pub open spec fn p_bags(b: ProverTracker, lb: Bag, mab: Bag, mbb: Bag, rb: Bag, f: Bag, g: Bag, who: u64) -> bool { bagp(b, lb, who) && bagp(b, mab, who) && bagp(b, mbb, who) && bagp(b, rb, who) && lb.poly.num_vars == f.poly.num_vars && mab.poly.num_vars == f.poly.num_vars && mbb.poly.num_vars == g.poly.num_vars && rb.poly.num_vars == g.poly.num_vars }
pub open spec fn p_noclaim(a: ProverTracker, b: ProverTracker) -> bool { b.sum_check_claims@ == a.sum_check_claims@ && b.zero_check_claims@ == a.zero_check_claims@ }
//@fn src/zksql_poly_iop/util/intermed_bag_calc.rs::bag_lmr_split | thread=ProverTracker
//@@ attrs
#[verifier::rlimit(200)]
//@@ requires
        p_room(*old(zk_tr), 8), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who),
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> pcs_fits(old(zk_tr).pcs_param, bag_a.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, bag_b.poly.num_vars as int),
        ret.is_ok() ==> lmr_p(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, ret->Ok_0.0, ret->Ok_0.1, ret->Ok_0.2, ret->Ok_0.3) && p_grow(*old(zk_tr), *final(zk_tr), 8),
        ret.is_ok() ==> p_bags(*final(zk_tr), ret->Ok_0.0, ret->Ok_0.1, ret->Ok_0.2, ret->Ok_0.3, *bag_a, *bag_b, old(prover_tracker).tracker_rc.who) && p_noclaim(*old(zk_tr), *final(zk_tr)),
//@@ entry
    broadcast use pvec_still, ipow_p2;
    let ghost a = *zk_tr; let ghost ap = pvec(a, bag_a.poly); let ghost sa = pvec(a, bag_a.selector); let ghost bp = pvec(a, bag_b.poly); let ghost sb = pvec(a, bag_b.selector); let ghost an = p2(bag_a.poly.num_vars as int); let ghost bn = p2(bag_b.poly.num_vars as int);
    proof { pt_nv_small(a, bag_a.poly.id); pt_nv_small(a, bag_b.poly.id); p2_64(); p2_mono(bag_a.poly.num_vars as int, 62); p2_mono(bag_b.poly.num_vars as int, 62); fv_inj(); }
//@@ after-let a_sel_evals
    proof { assert(ap =~= a_evals@); assert(sa =~= a_sel_evals@); }
//@@ inv 0
            zk_n0 == an, sel_so_far(sorted_a_evals@, ap, sa, zk_i0 as int),
//@@ start 0
        proof { sel_step(sorted_a_evals@, ap, sa, zk_i0 as int); }
//@@ after 0
    let ghost xa = sorted_a_evals@;
//@@ after-call sort
    proof { sel_done(xa, sorted_a_evals@, ap, sa); }
//@@ after-let b_sel_evals
    proof { assert(bp =~= b_evals@); assert(sb =~= b_sel_evals@); }
//@@ inv 1
            zk_n1 == bn, sel_so_far(sorted_b_evals@, bp, sb, zk_i1 as int),
//@@ start 1
        proof { sel_step(sorted_b_evals@, bp, sb, zk_i1 as int); }
//@@ after 1
    let ghost xb = sorted_b_evals@;
//@@ after-call sort #2
    let ghost ga = sorted_a_evals@; let ghost gb = sorted_b_evals@;
    proof { sel_done(xb, gb, bp, sb); }
//@@ inv 2
            sorted_a_evals@ == ga, sorted_b_evals@ == gb, half(ga, gb, a_counter as int, l_evals@, ma_evals@), half(gb, ga, b_counter as int, r_evals@, mb_evals@), below(ga, a_counter as int, gb, b_counter as int), below(gb, b_counter as int, ga, a_counter as int),
//@@ decreases 2
            ga.len() - a_counter + gb.len() - b_counter
//@@ start 2
        let ghost i0 = a_counter as int; let ghost j0 = b_counter as int;
        proof {
            if fv(ga[i0]) < fv(gb[j0]) { only_a(ga, i0, gb, j0); half_l(ga, gb, i0, l_evals@, ma_evals@); }
            else if fv(ga[i0]) > fv(gb[j0]) { only_a(gb, j0, ga, i0); half_l(gb, ga, j0, r_evals@, mb_evals@); }
        }
//@@ inv 3
            sorted_a_evals@ == ga, i0 <= a_counter <= ga.len(), half(ga, gb, a_counter as int, l_evals@, ma_evals@), match_eval == ga[i0], gb[j0] == match_eval, forall|k: int| i0 <= k < a_counter ==> #[trigger] ga[k] == match_eval,
//@@ decreases 3
            ga.len() - a_counter
//@@ start 3
                proof { assert(gb.contains(ga[a_counter as int])); half_m(ga, gb, a_counter as int, l_evals@, ma_evals@); }
//@@ inv 4
            sorted_b_evals@ == gb, j0 <= b_counter <= gb.len(), half(gb, ga, b_counter as int, r_evals@, mb_evals@), match_eval == ga[i0], gb[j0] == match_eval, forall|k: int| j0 <= k < b_counter ==> #[trigger] gb[k] == match_eval,
//@@ decreases 4
            gb.len() - b_counter
//@@ start 4
                proof { assert(ga.contains(gb[b_counter as int])); half_m(gb, ga, b_counter as int, r_evals@, mb_evals@); }
//@@ after 4
                proof { past(ga, i0, a_counter as int, gb, j0, b_counter as int); past(gb, j0, b_counter as int, ga, i0, a_counter as int); }
//@@ inv 5
            half(ga, gb, a_counter + zk_i5, l_evals@, ma_evals@), sorted_a_evals@ == ga, zk_n5 == ga.len() - a_counter, zk_n5 > 0 ==> b_counter == gb.len(),
//@@ start 5
        proof { only_a(ga, a_counter + zk_i5, gb, gb.len() as int); half_l(ga, gb, a_counter + zk_i5, l_evals@, ma_evals@); }
//@@ inv 6
            half(gb, ga, b_counter + zk_i6, r_evals@, mb_evals@), sorted_b_evals@ == gb, zk_n6 == gb.len() - b_counter, zk_n6 > 0 ==> a_counter == ga.len(),
//@@ start 6
        proof { only_a(gb, b_counter + zk_i6, ga, ga.len() as int); half_l(gb, ga, b_counter + zk_i6, r_evals@, mb_evals@); }
//@@ after 6
    let ghost l = l_evals@; let ghost ma = ma_evals@; let ghost mb = mb_evals@; let ghost r = r_evals@;
    proof { split_of(ga, gb, l, ma, ap, sa, bp, sb); split_of(gb, ga, r, mb, bp, sb, ap, sa); }
//@@ after-let r_sel_mle
    let ghost q = *zk_tr; let ghost dl = l_mle; let ghost dls = l_sel_mle; let ghost dma = ma_mle; let ghost dmas = ma_sel_mle; let ghost dmb = mb_mle; let ghost dmbs = mb_sel_mle; let ghost dr = r_mle; let ghost drs = r_sel_mle;
    proof { assert(is_front(dl, l, bag_a.poly.num_vars as int)); assert(is_front(dls, ones(l.len()), bag_a.poly.num_vars as int)); assert(is_front(dma, ma, bag_a.poly.num_vars as int)); assert(is_front(dmas, ones(ma.len()), bag_a.poly.num_vars as int));
        assert(is_front(dmb, mb, bag_b.poly.num_vars as int)); assert(is_front(dmbs, ones(mb.len()), bag_b.poly.num_vars as int)); assert(is_front(dr, r, bag_b.poly.num_vars as int)); assert(is_front(drs, ones(r.len()), bag_b.poly.num_vars as int)); }
//@@ after-let zk_q0
    let ghost e0 = *zk_tr; proof { assert(p_commit(a, e0, zk_q0, dl)); }
//@@ after-let l_bag
    let ghost c1 = *zk_tr; proof { assert(p_commit(e0, c1, l_bag.selector, dls)); assert(l_bag.poly == zk_q0); assert(p_commit(a, e0, l_bag.poly, dl)); assert(p_cbag(a, c1, l_bag, dl, dls)); }
//@@ after-let zk_q2
    let ghost e1 = *zk_tr; proof { assert(p_commit(c1, e1, zk_q2, dma)); }
//@@ after-let ma_bag
    let ghost c2 = *zk_tr; proof { assert(p_commit(e1, c2, ma_bag.selector, dmas)); assert(ma_bag.poly == zk_q2); assert(p_commit(c1, e1, ma_bag.poly, dma)); assert(p_cbag(c1, c2, ma_bag, dma, dmas)); }
//@@ after-let zk_q4
    let ghost e2 = *zk_tr; proof { assert(p_commit(c2, e2, zk_q4, dmb)); }
//@@ after-let mb_bag
    let ghost c3 = *zk_tr; proof { assert(p_commit(e2, c3, mb_bag.selector, dmbs)); assert(mb_bag.poly == zk_q4); assert(p_commit(c2, e2, mb_bag.poly, dmb)); assert(p_cbag(c2, c3, mb_bag, dmb, dmbs)); }
//@@ after-let zk_q6
    let ghost e3 = *zk_tr; proof { assert(p_commit(c3, e3, zk_q6, dr)); }
//@@ after-let r_bag
    let ghost c4 = *zk_tr; proof { assert(p_commit(e3, c4, r_bag.selector, drs)); assert(r_bag.poly == zk_q6); assert(p_commit(c3, e3, r_bag.poly, dr)); assert(p_cbag(c3, c4, r_bag, dr, drs)); }
//@@ pretail
    proof { assert(lmr_mid(a, *zk_tr, *bag_a, *bag_b, l_bag, ma_bag, mb_bag, r_bag, c1, c2, c3, l, ma, mb, r)); }
//@end
/// as lmr_p; the common part is the one of the table with fewer variables
pub open spec fn slmr_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, lb: Bag, m: Bag, rb: Bag) -> bool { if f.poly.num_vars < g.poly.num_vars { exists|o: Bag| #[trigger] lmr_p(a, b, f, g, lb, m, o, rb) } else { exists|o: Bag| #[trigger] lmr_p(a, b, f, g, lb, o, m, rb) } }
//@fn src/zksql_poly_iop/util/intermed_bag_calc.rs::set_lmr_split | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 8), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who),
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> pcs_fits(old(zk_tr).pcs_param, bag_a.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, bag_b.poly.num_vars as int),
        ret.is_ok() ==> slmr_p(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, ret->Ok_0.0, ret->Ok_0.1, ret->Ok_0.2) && p_grow(*old(zk_tr), *final(zk_tr), 8) && p_noclaim(*old(zk_tr), *final(zk_tr)),
        ret.is_ok() ==> bagp(*final(zk_tr), ret->Ok_0.0, old(prover_tracker).tracker_rc.who) && bagp(*final(zk_tr), ret->Ok_0.1, old(prover_tracker).tracker_rc.who) && bagp(*final(zk_tr), ret->Ok_0.2, old(prover_tracker).tracker_rc.who),
        ret.is_ok() ==> ret->Ok_0.0.poly.num_vars == bag_a.poly.num_vars && ret->Ok_0.2.poly.num_vars == bag_b.poly.num_vars && ret->Ok_0.1.poly.num_vars == (if bag_a.poly.num_vars < bag_b.poly.num_vars { bag_a.poly.num_vars } else { bag_b.poly.num_vars }),
//@@ entry
    let ghost a = *zk_tr;
//@@ pretail
    proof { assert(slmr_p(a, *zk_tr, *bag_a, *bag_b, l_bag, m_bag, r_bag)) by { if bag_a.poly.num_vars < bag_b.poly.num_vars { assert(lmr_p(a, *zk_tr, *bag_a, *bag_b, l_bag, m_bag, mb_bag, r_bag)); } else { assert(lmr_p(a, *zk_tr, *bag_a, *bag_b, l_bag, ma_bag, m_bag, r_bag)); } } }
//@end
