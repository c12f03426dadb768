// ---- splitting two bags with multiplicities ----
/// a[i0..i] is the whole rest run of val
pub open spec fn is_run(a: Seq<F>, i0: int, i: int, val: F) -> bool { 0 <= i0 < i <= a.len() && (forall|k: int| i0 <= k < i ==> #[trigger] a[k] == val) && (i < a.len() ==> a[i] != val) }
pub proof fn occ_pos(s: Seq<F>, v: F, n: int, i: int) requires 0 <= i < n <= s.len(), s[i] == v ensures occ(s, v, n) > 0 { occ_has(s, v, n); }
pub proof fn occ_mono(s: Seq<F>, v: F, i: int, n: int) requires i <= n ensures occ(s, v, i) <= occ(s, v, n) decreases n - i { if i < n { occ_mono(s, v, i, n - 1); } }
pub proof fn occ_rest(s: Seq<F>, v: F, i: int, n: int) requires 0 <= i <= n <= s.len(), forall|t: int| i <= t < n ==> #[trigger] s[t] != v ensures occ(s, v, n) == occ(s, v, i) decreases n - i { if n > i { occ_rest(s, v, i, n - 1); assert(s[n - 1] != v); } }
pub proof fn occ_run(s: Seq<F>, v: F, i: int, n: int) requires 0 <= i <= n <= s.len(), forall|t: int| i <= t < n ==> #[trigger] s[t] == v ensures occ(s, v, n) == occ(s, v, i) + (n - i) decreases n - i { if n > i { occ_run(s, v, i, n - 1); assert(s[n - 1] == v); } }
/// a run at a boundary is all there is of its value
pub proof fn run_count(a: Seq<F>, i0: int, i: int, val: F) requires fsorted(a), below(a, i0, a, i0), is_run(a, i0, i, val)
    ensures occ(a, val, a.len() as int) == i - i0, occ(a, val, i) == i - i0, occ(a, val, i0) == 0, below(a, i, a, i), forall|v: F| v != val ==> #[trigger] occ(a, v, i) == occ(a, v, i0)
{
    fv_inj();
    assert(a[i0] == val);
    assert forall|t: int| 0 <= t < i0 implies #[trigger] a[t] != val by { assert(fv(a[t]) < fv(a[i0])); }
    assert forall|t: int| i <= t < a.len() implies fv(val) < fv(#[trigger] a[t]) by { assert(fv(a[i0]) <= fv(a[i])); assert(fv(a[i]) <= fv(a[t])); }
    occ_rest(a, val, 0, i0); occ_run(a, val, i0, i); occ_rest(a, val, i, a.len() as int);
    assert forall|k: int, t: int| 0 <= k < i && i <= t < a.len() implies fv(#[trigger] a[k]) < fv(#[trigger] a[t]) by { if k < i0 { assert(fv(a[k]) < fv(a[i0])); } }
    assert forall|v: F| v != val implies #[trigger] occ(a, v, i) == occ(a, v, i0) by { occ_rest(a, v, i0, i); }
}
/// counted per value
pub open spec fn counts_of(x: Seq<F>, c: Seq<F>, a: Seq<F>) -> bool { c.len() == x.len() && forall|k: int| 0 <= k < x.len() ==> #[trigger] c[k] == fk(occ(a, x[k], a.len() as int)) }
/// strictly increasing and below what is left of a
pub open spec fn under(x: Seq<F>, a: Seq<F>, i: int) -> bool { fstrict(x) && x.len() <= i <= a.len() && forall|k: int, t: int| 0 <= k < x.len() && i <= t < a.len() ==> fv(#[trigger] x[k]) < fv(#[trigger] a[t]) }
pub open spec fn mhalf(a: Seq<F>, b: Seq<F>, i: int, l: Seq<F>, lc: Seq<F>) -> bool { under(l, a, i) && counts_of(l, lc, a) && forall|v: F| #[trigger] l.contains(v) <==> occ(a, v, i) > 0 && !b.contains(v) }
pub open spec fn mmid(a: Seq<F>, b: Seq<F>, i: int, j: int, m: Seq<F>, ca: Seq<F>, cb: Seq<F>) -> bool { under(m, a, i) && under(m, b, j) && counts_of(m, ca, a) && counts_of(m, cb, b) && forall|v: F| #[trigger] m.contains(v) <==> occ(a, v, i) > 0 && occ(b, v, j) > 0 }
pub open spec fn mst(a: Seq<F>, b: Seq<F>, i: int, j: int, l: Seq<F>, lc: Seq<F>, m: Seq<F>, ca: Seq<F>, cb: Seq<F>, r: Seq<F>, rc: Seq<F>) -> bool {
    fsorted(a) && fsorted(b) && mhalf(a, b, i, l, lc) && mhalf(b, a, j, r, rc) && mmid(a, b, i, j, m, ca, cb) && below(a, i, b, j) && below(b, j, a, i) && below(a, i, a, i) && below(b, j, b, j)
}
pub proof fn mst_swap(a: Seq<F>, b: Seq<F>, i: int, j: int, l: Seq<F>, lc: Seq<F>, m: Seq<F>, ca: Seq<F>, cb: Seq<F>, r: Seq<F>, rc: Seq<F>) requires mst(a, b, i, j, l, lc, m, ca, cb, r, rc) ensures mst(b, a, j, i, r, rc, m, cb, ca, l, lc) { }
pub proof fn push_contains(x: Seq<F>, y: F, v: F) ensures x.push(y).contains(v) <==> x.contains(v) || v == y { let w = x.push(y); assert(w[x.len() as int] == y); if x.contains(v) { let k = choose|k: int| 0 <= k < x.len() && x[k] == v; assert(w[k] == v); } if w.contains(v) && v != y { let k = choose|k: int| 0 <= k < w.len() && w[k] == v; assert(x[k] == v); } }
pub proof fn under_push(x: Seq<F>, a: Seq<F>, i0: int, i: int, val: F) requires under(x, a, i0), is_run(a, i0, i, val), below(a, i, a, i) ensures under(x.push(val), a, i) {
    let w = x.push(val); assert(a[i0] == val);
    assert forall|k: int, t: int| 0 <= k < t < w.len() implies fv(#[trigger] w[k]) < fv(#[trigger] w[t]) by { if t < x.len() { assert(w[k] == x[k] && w[t] == x[t]); } else { assert(w[k] == x[k]); assert(fv(x[k]) < fv(a[i0])); } }
    assert forall|k: int, t: int| 0 <= k < w.len() && i <= t < a.len() implies fv(#[trigger] w[k]) < fv(#[trigger] a[t]) by { if k < x.len() { assert(w[k] == x[k]); } else { assert(fv(a[i0]) < fv(a[t])); } }
}
pub proof fn counts_push(x: Seq<F>, c: Seq<F>, a: Seq<F>, val: F, n: F) requires counts_of(x, c, a), n == fk(occ(a, val, a.len() as int)) ensures counts_of(x.push(val), c.push(n), a) { let w = x.push(val); let d = c.push(n); assert forall|k: int| 0 <= k < w.len() implies #[trigger] d[k] == fk(occ(a, w[k], a.len() as int)) by { if k < x.len() { assert(d[k] == c[k] && w[k] == x[k]); } } }
pub proof fn mst_l(a: Seq<F>, b: Seq<F>, i0: int, i: int, j: int, val: F, l: Seq<F>, lc: Seq<F>, m: Seq<F>, ca: Seq<F>, cb: Seq<F>, r: Seq<F>, rc: Seq<F>)
    requires mst(a, b, i0, j, l, lc, m, ca, cb, r, rc), is_run(a, i0, i, val), j < b.len() ==> fv(val) < fv(b[j])
    ensures mst(a, b, i, j, l.push(val), lc.push(fk(i - i0)), m, ca, cb, r, rc)
{
    assert(a[i0] == val); run_count(a, i0, i, val); only_a(a, i0, b, j); under_push(l, a, i0, i, val); counts_push(l, lc, a, val, fk(i - i0));
    let w = l.push(val);
    assert forall|v: F| #[trigger] w.contains(v) <==> occ(a, v, i) > 0 && !b.contains(v) by { push_contains(l, val, v); if v != val { assert(occ(a, v, i) == occ(a, v, i0)); } }
    assert forall|v: F| #[trigger] m.contains(v) <==> occ(a, v, i) > 0 && occ(b, v, j) > 0 by { if v != val { assert(occ(a, v, i) == occ(a, v, i0)); } else { occ_has(b, val, j); assert(!m.contains(val)); } }
    assert forall|k: int, t: int| 0 <= k < i && j <= t < b.len() implies fv(#[trigger] a[k]) < fv(#[trigger] b[t]) by { assert(fv(b[j]) <= fv(b[t])); if k < i0 { assert(fv(a[k]) < fv(b[t])); } }
}
pub proof fn mst_m(a: Seq<F>, b: Seq<F>, i0: int, i: int, j0: int, j: int, val: F, l: Seq<F>, lc: Seq<F>, m: Seq<F>, ca: Seq<F>, cb: Seq<F>, r: Seq<F>, rc: Seq<F>)
    requires mst(a, b, i0, j0, l, lc, m, ca, cb, r, rc), is_run(a, i0, i, val), is_run(b, j0, j, val)
    ensures mst(a, b, i, j, l, lc, m.push(val), ca.push(fk(i - i0)), cb.push(fk(j - j0)), r, rc)
{
    assert(a[i0] == val && b[j0] == val); run_count(a, i0, i, val); run_count(b, j0, j, val); under_push(m, a, i0, i, val); under_push(m, b, j0, j, val); counts_push(m, ca, a, val, fk(i - i0)); counts_push(m, cb, b, val, fk(j - j0));
    past(a, i0, i, b, j0, j); past(b, j0, j, a, i0, i);
    let w = m.push(val); assert(b.contains(val)); assert(a.contains(val));
    assert forall|v: F| #[trigger] w.contains(v) <==> occ(a, v, i) > 0 && occ(b, v, j) > 0 by { push_contains(m, val, v); if v != val { assert(occ(a, v, i) == occ(a, v, i0)); assert(occ(b, v, j) == occ(b, v, j0)); } }
    assert forall|v: F| #[trigger] l.contains(v) <==> occ(a, v, i) > 0 && !b.contains(v) by { if v != val { assert(occ(a, v, i) == occ(a, v, i0)); } }
    assert forall|v: F| #[trigger] r.contains(v) <==> occ(b, v, j) > 0 && !a.contains(v) by { if v != val { assert(occ(b, v, j) == occ(b, v, j0)); } }
}
pub open spec fn mcounts(x: Seq<F>, c: Seq<F>, p: Seq<F>, s: Seq<F>) -> bool { c.len() == x.len() && forall|k: int| 0 <= k < x.len() ==> #[trigger] c[k] == fk(mcount(p, s, x[k], p.len() as int)) }
/// the values selected in f only, each once, increasing, with their counts
pub open spec fn is_monly(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, l: Seq<F>, lc: Seq<F>) -> bool { fstrict(l) && l.len() <= ap.len() && mcounts(l, lc, ap, sa) && forall|v: F| #[trigger] l.contains(v) <==> mcount(ap, sa, v, ap.len() as int) > 0 && mcount(bp, sb, v, bp.len() as int) == 0 }
/// the values selected in both, each once, increasing, with their counts on either side
pub open spec fn is_mboth(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, m: Seq<F>, ca: Seq<F>, cb: Seq<F>) -> bool { fstrict(m) && m.len() <= ap.len() && m.len() <= bp.len() && mcounts(m, ca, ap, sa) && mcounts(m, cb, bp, sb) && forall|v: F| #[trigger] m.contains(v) <==> mcount(ap, sa, v, ap.len() as int) > 0 && mcount(bp, sb, v, bp.len() as int) > 0 }
pub proof fn mst_end(a: Seq<F>, b: Seq<F>, l: Seq<F>, lc: Seq<F>, m: Seq<F>, ca: Seq<F>, cb: Seq<F>, r: Seq<F>, rc: Seq<F>, ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>)
    requires mst(a, b, a.len() as int, b.len() as int, l, lc, m, ca, cb, r, rc), is_sorted_sel(a, ap, sa), is_sorted_sel(b, bp, sb)
    ensures is_monly(ap, sa, bp, sb, l, lc), is_monly(bp, sb, ap, sa, r, rc), is_mboth(ap, sa, bp, sb, m, ca, cb)
{
    assert forall|v: F| #![trigger a.contains(v)] #![trigger b.contains(v)] #![trigger occ(a, v, a.len() as int)] occ(a, v, a.len() as int) == mcount(ap, sa, v, ap.len() as int) && occ(b, v, b.len() as int) == mcount(bp, sb, v, bp.len() as int) && (a.contains(v) <==> occ(a, v, a.len() as int) > 0) && (b.contains(v) <==> occ(b, v, b.len() as int) > 0) && occ(a, v, a.len() as int) >= 0 && occ(b, v, b.len() as int) >= 0
    by { occ_contains(a, v); occ_contains(b, v); occ_le(a, v, a.len() as int); occ_le(b, v, b.len() as int); assert(occ(a, v, a.len() as int) == mcount(ap, sa, v, ap.len() as int)); assert(occ(b, v, b.len() as int) == mcount(bp, sb, v, bp.len() as int)); }
    assert forall|v: F| #[trigger] l.contains(v) <==> mcount(ap, sa, v, ap.len() as int) > 0 && mcount(bp, sb, v, bp.len() as int) == 0 by { assert(l.contains(v) <==> occ(a, v, a.len() as int) > 0 && !b.contains(v)); }
    assert forall|v: F| #[trigger] r.contains(v) <==> mcount(bp, sb, v, bp.len() as int) > 0 && mcount(ap, sa, v, ap.len() as int) == 0 by { assert(r.contains(v) <==> occ(b, v, b.len() as int) > 0 && !a.contains(v)); assert(a.contains(v) <==> occ(a, v, a.len() as int) > 0); }
    assert forall|v: F| #[trigger] m.contains(v) <==> mcount(ap, sa, v, ap.len() as int) > 0 && mcount(bp, sb, v, bp.len() as int) > 0 by { assert(m.contains(v) <==> occ(a, v, a.len() as int) > 0 && occ(b, v, b.len() as int) > 0); }
    assert forall|k: int| 0 <= k < m.len() implies #[trigger] cb[k] == fk(mcount(bp, sb, m[k], bp.len() as int)) by { assert(cb[k] == fk(occ(b, m[k], b.len() as int))); assert(occ(a, m[k], a.len() as int) == mcount(ap, sa, m[k], ap.len() as int)); }
    assert forall|k: int| 0 <= k < r.len() implies #[trigger] rc[k] == fk(mcount(bp, sb, r[k], bp.len() as int)) by { assert(rc[k] == fk(occ(b, r[k], b.len() as int))); assert(occ(a, r[k], a.len() as int) == mcount(ap, sa, r[k], ap.len() as int)); }
}
/// one table holding a list at its front, committed
pub open spec fn p_cfront(a: ProverTracker, b: ProverTracker, h: TrackedPoly, x: Seq<F>, nv: int) -> bool { exists|d: DenseMultilinearExtension| #[trigger] p_commit(a, b, h, d) && is_front(d, x, nv) }
pub open spec fn mlmr_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, lb: Bag, mb: Bag, rb: Bag, lm: TrackedPoly, ma: TrackedPoly, mm: TrackedPoly, rm: TrackedPoly, c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, c4: ProverTracker, c5: ProverTracker, c6: ProverTracker, l: Seq<F>, lc: Seq<F>, m: Seq<F>, ca: Seq<F>, cb: Seq<F>, r: Seq<F>, rc: Seq<F>) -> bool {
    let nf = f.poly.num_vars as int; let ng = g.poly.num_vars as int; let nm = max2(nf, ng);
    &&& p_clist(a, c1, lb, l, nf) && p_clist(c1, c2, mb, m, nm) && p_clist(c2, c3, rb, r, ng) && p_cfront(c3, c4, lm, lc, nf) && p_cfront(c4, c5, ma, ca, nm) && p_cfront(c5, c6, mm, cb, nm) && p_cfront(c6, b, rm, rc, ng)
    &&& is_monly(pvec(a, f.poly), pvec(a, f.selector), pvec(a, g.poly), pvec(a, g.selector), l, lc) && is_monly(pvec(a, g.poly), pvec(a, g.selector), pvec(a, f.poly), pvec(a, f.selector), r, rc) && is_mboth(pvec(a, f.poly), pvec(a, f.selector), pvec(a, g.poly), pvec(a, g.selector), m, ca, cb)
}
/// left only, common, right only, then their counts: committed in this order
pub open spec fn mlmr_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, lb: Bag, mb: Bag, rb: Bag, lm: TrackedPoly, ma: TrackedPoly, mm: TrackedPoly, rm: TrackedPoly) -> bool { exists|c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, c4: ProverTracker, c5: ProverTracker, c6: ProverTracker, l: Seq<F>, lc: Seq<F>, m: Seq<F>, ca: Seq<F>, cb: Seq<F>, r: Seq<F>, rc: Seq<F>| #[trigger] mlmr_mid(a, b, f, g, lb, mb, rb, lm, ma, mm, rm, c1, c2, c3, c4, c5, c6, l, lc, m, ca, cb, r, rc) }
pub open spec fn mlmr_hs(b: ProverTracker, f: Bag, g: Bag, lb: Bag, mb: Bag, rb: Bag, lm: TrackedPoly, ma: TrackedPoly, mm: TrackedPoly, rm: TrackedPoly, who: u64) -> bool {
    let nm = max2(f.poly.num_vars as int, g.poly.num_vars as int);
    &&& bagp(b, lb, who) && bagp(b, mb, who) && bagp(b, rb, who) && lb.poly.num_vars == f.poly.num_vars && mb.poly.num_vars == nm && rb.poly.num_vars == g.poly.num_vars
    &&& hp(b, lm) && hp(b, ma) && hp(b, mm) && hp(b, rm) && lm.tracker.who == who && ma.tracker.who == who && mm.tracker.who == who && rm.tracker.who == who && lm.num_vars == f.poly.num_vars && ma.num_vars == nm && mm.num_vars == nm && rm.num_vars == g.poly.num_vars
}
//@fn src/zksql_poly_iop/util/intermed_bag_calc.rs::bag_lmr_multiplicity_split | thread=ProverTracker
//@@ attrs
#[verifier::rlimit(200)]
//@@ requires
        p_room(*old(zk_tr), 10), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who),
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> pcs_fits(old(zk_tr).pcs_param, bag_a.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, bag_b.poly.num_vars as int),
        ret.is_ok() ==> mlmr_p(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, ret->Ok_0.0, ret->Ok_0.1, ret->Ok_0.2, ret->Ok_0.3, ret->Ok_0.4, ret->Ok_0.5, ret->Ok_0.6) && p_grow(*old(zk_tr), *final(zk_tr), 10) && p_noclaim(*old(zk_tr), *final(zk_tr)),
        ret.is_ok() ==> mlmr_hs(*final(zk_tr), *bag_a, *bag_b, ret->Ok_0.0, ret->Ok_0.1, ret->Ok_0.2, ret->Ok_0.3, ret->Ok_0.4, ret->Ok_0.5, ret->Ok_0.6, old(prover_tracker).tracker_rc.who),
//@@ entry
    broadcast use pvec_still, ipow_p2;
    let ghost a = *zk_tr; let ghost ap = pvec(a, bag_a.poly); let ghost sa = pvec(a, bag_a.selector); let ghost bp = pvec(a, bag_b.poly); let ghost sb = pvec(a, bag_b.selector); let ghost an = p2(bag_a.poly.num_vars as int); let ghost bn = p2(bag_b.poly.num_vars as int); let ghost nf = bag_a.poly.num_vars as int; let ghost ng = bag_b.poly.num_vars as int; let ghost nm = max2(nf, ng);
    proof { pt_nv_small(a, bag_a.poly.id); pt_nv_small(a, bag_b.poly.id); p2_64(); p2_mono(bag_a.poly.num_vars as int, 62); p2_mono(bag_b.poly.num_vars as int, 62); p2_mono(nf, nm); p2_mono(ng, nm); fv_inj(); }
//@@ after-let a_sel_evals
    proof { assert(ap =~= a_evals@); assert(sa =~= a_sel_evals@); }
//@@ inv 0
            zk_n0 == an, sel_so_far(sorted_a_evals@, ap, sa, zk_i0 as int),
//@@ start 0
        proof { sel_step(sorted_a_evals@, ap, sa, zk_i0 as int); }
//@@ after 0
    let ghost xa = sorted_a_evals@;
//@@ after-call sort
    proof { sel_done(xa, sorted_a_evals@, ap, sa); }
//@@ after-let b_sel_evals
    proof { assert(bp =~= b_evals@); assert(sb =~= b_sel_evals@); }
//@@ inv 1
            zk_n1 == bn, sel_so_far(sorted_b_evals@, bp, sb, zk_i1 as int),
//@@ start 1
        proof { sel_step(sorted_b_evals@, bp, sb, zk_i1 as int); }
//@@ after 1
    let ghost xb = sorted_b_evals@;
//@@ after-call sort #2
    let ghost ga = sorted_a_evals@; let ghost gb = sorted_b_evals@;
    proof { sel_done(xb, gb, bp, sb); }
//@@ inv 2
            sorted_a_evals@ == ga, sorted_b_evals@ == gb, mst(ga, gb, a_index as int, b_index as int, l_evals@, l_mul_evals@, m_evals@, m_amul_evals@, m_bmul_evals@, r_evals@, r_mul_evals@),
//@@ decreases 2
            ga.len() - a_index + gb.len() - b_index
//@@ start 2
        let ghost i0 = a_index as int; let ghost j0 = b_index as int;
//@@ inv 3
                sorted_a_evals@ == ga, i0 <= a_index <= ga.len(), mul_counter == a_index - i0, val == ga[i0], forall|k: int| i0 <= k < a_index ==> #[trigger] ga[k] == val,
//@@ decreases 3
                ga.len() - a_index
//@@ after 3
                proof { mst_l(ga, gb, i0, a_index as int, j0, val, l_evals@, l_mul_evals@, m_evals@, m_amul_evals@, m_bmul_evals@, r_evals@, r_mul_evals@); }
//@@ inv 4
                sorted_b_evals@ == gb, j0 <= b_index <= gb.len(), mul_counter == b_index - j0, val == gb[j0], forall|k: int| j0 <= k < b_index ==> #[trigger] gb[k] == val,
//@@ decreases 4
                gb.len() - b_index
//@@ after 4
                proof { mst_swap(ga, gb, i0, j0, l_evals@, l_mul_evals@, m_evals@, m_amul_evals@, m_bmul_evals@, r_evals@, r_mul_evals@); mst_l(gb, ga, j0, b_index as int, i0, val, r_evals@, r_mul_evals@, m_evals@, m_bmul_evals@, m_amul_evals@, l_evals@, l_mul_evals@); }
//@@ inv 5
                sorted_a_evals@ == ga, i0 <= a_index <= ga.len(), a_mul_counter == a_index - i0, match_eval == ga[i0], forall|k: int| i0 <= k < a_index ==> #[trigger] ga[k] == match_eval,
//@@ decreases 5
                ga.len() - a_index
//@@ inv 6
                sorted_b_evals@ == gb, j0 <= b_index <= gb.len(), b_mul_counter == b_index - j0, match_eval == gb[j0], forall|k: int| j0 <= k < b_index ==> #[trigger] gb[k] == match_eval,
//@@ decreases 6
                gb.len() - b_index
//@@ after 6
                proof { mst_m(ga, gb, i0, a_index as int, j0, b_index as int, match_eval, l_evals@, l_mul_evals@, m_evals@, m_amul_evals@, m_bmul_evals@, r_evals@, r_mul_evals@); }
//@@ inv 7
            sorted_a_evals@ == ga, sorted_b_evals@ == gb, mst(ga, gb, a_index as int, b_index as int, l_evals@, l_mul_evals@, m_evals@, m_amul_evals@, m_bmul_evals@, r_evals@, r_mul_evals@), a_index < ga.len() ==> b_index == gb.len(),
//@@ decreases 7
            ga.len() - a_index
//@@ start 7
        let ghost i0 = a_index as int;
//@@ inv 8
                sorted_a_evals@ == ga, i0 <= a_index <= ga.len(), mul_counter == a_index - i0, val == ga[i0], forall|k: int| i0 <= k < a_index ==> #[trigger] ga[k] == val,
//@@ decreases 8
                ga.len() - a_index
//@@ after 8
                proof { mst_l(ga, gb, i0, a_index as int, b_index as int, val, l_evals@, l_mul_evals@, m_evals@, m_amul_evals@, m_bmul_evals@, r_evals@, r_mul_evals@); }
//@@ inv 9
            sorted_a_evals@ == ga, sorted_b_evals@ == gb, a_index == ga.len(), mst(ga, gb, a_index as int, b_index as int, l_evals@, l_mul_evals@, m_evals@, m_amul_evals@, m_bmul_evals@, r_evals@, r_mul_evals@),
//@@ decreases 9
            gb.len() - b_index
//@@ start 9
        let ghost j0 = b_index as int;
//@@ inv 10
                sorted_b_evals@ == gb, j0 <= b_index <= gb.len(), mul_counter == b_index - j0, val == gb[j0], forall|k: int| j0 <= k < b_index ==> #[trigger] gb[k] == val,
//@@ decreases 10
                gb.len() - b_index
//@@ after 10
                proof { let i0 = a_index as int; mst_swap(ga, gb, i0, j0, l_evals@, l_mul_evals@, m_evals@, m_amul_evals@, m_bmul_evals@, r_evals@, r_mul_evals@); mst_l(gb, ga, j0, b_index as int, i0, val, r_evals@, r_mul_evals@, m_evals@, m_bmul_evals@, m_amul_evals@, l_evals@, l_mul_evals@); }
//@@ after-let l_sel_evals
    let ghost l = l_evals@; let ghost lc = l_mul_evals@; let ghost m = m_evals@; let ghost ca = m_amul_evals@; let ghost cb = m_bmul_evals@; let ghost r = r_evals@; let ghost rc = r_mul_evals@;
    proof { mst_end(ga, gb, l, lc, m, ca, cb, r, rc, ap, sa, bp, sb); }
//@@ after-let r_mul_mle
    let ghost dl = l_mle; let ghost dls = l_sel_mle; let ghost dlc = l_mul_mle; let ghost dm = m_mle; let ghost dms = m_sel_mle; let ghost dca = m_amul_mle; let ghost dcb = m_bmul_mle; let ghost dr = r_mle; let ghost drs = r_sel_mle; let ghost drc = r_mul_mle;
    proof { assert(is_front(dl, l, nf)); assert(is_front(dls, ones(l.len()), nf)); assert(is_front(dlc, lc, nf)); assert(is_front(dm, m, nm)); assert(is_front(dms, ones(m.len()), nm)); assert(is_front(dca, ca, nm)); assert(is_front(dcb, cb, nm)); assert(is_front(dr, r, ng)); assert(is_front(drs, ones(r.len()), ng)); assert(is_front(drc, rc, ng)); }
//@@ after-let zk_q0
    let ghost e0 = *zk_tr; proof { assert(p_commit(a, e0, zk_q0, dl)); }
//@@ after-let l_bag
    let ghost c1 = *zk_tr; proof { assert(p_commit(e0, c1, l_bag.selector, dls)); assert(l_bag.poly == zk_q0); assert(p_commit(a, e0, l_bag.poly, dl)); assert(p_cbag(a, c1, l_bag, dl, dls)); assert(p_clist(a, c1, l_bag, l, nf)); }
//@@ after-let zk_q2
    let ghost e1 = *zk_tr; proof { assert(p_commit(c1, e1, zk_q2, dm)); }
//@@ after-let m_bag
    let ghost c2 = *zk_tr; proof { assert(p_commit(e1, c2, m_bag.selector, dms)); assert(m_bag.poly == zk_q2); assert(p_commit(c1, e1, m_bag.poly, dm)); assert(p_cbag(c1, c2, m_bag, dm, dms)); assert(p_clist(c1, c2, m_bag, m, nm)); }
//@@ after-let zk_q4
    let ghost e2 = *zk_tr; proof { assert(p_commit(c2, e2, zk_q4, dr)); }
//@@ after-let r_bag
    let ghost c3 = *zk_tr; proof { assert(p_commit(e2, c3, r_bag.selector, drs)); assert(r_bag.poly == zk_q4); assert(p_commit(c2, e2, r_bag.poly, dr)); assert(p_cbag(c2, c3, r_bag, dr, drs)); assert(p_clist(c2, c3, r_bag, r, ng)); }
//@@ after-let l_mul
    let ghost c4 = *zk_tr; proof { assert(p_commit(c3, c4, l_mul, dlc)); assert(p_cfront(c3, c4, l_mul, lc, nf)); }
//@@ after-let ma_mul
    let ghost c5 = *zk_tr; proof { assert(p_commit(c4, c5, ma_mul, dca)); assert(p_cfront(c4, c5, ma_mul, ca, nm)); }
//@@ after-let mb_mul
    let ghost c6 = *zk_tr; proof { assert(p_commit(c5, c6, mb_mul, dcb)); assert(p_cfront(c5, c6, mb_mul, cb, nm)); }
//@@ after-let r_mul
    let ghost c7 = *zk_tr; proof { assert(p_commit(c6, c7, r_mul, drc)); assert(p_cfront(c6, c7, r_mul, rc, ng)); }
//@@ pretail
    proof { assert(mlmr_mid(a, *zk_tr, *bag_a, *bag_b, l_bag, m_bag, r_bag, l_mul, ma_mul, mb_mul, r_mul, c1, c2, c3, c4, c5, c6, l, lc, m, ca, cb, r, rc)); }
//@end
