// ---- prover side of join_reduction ----
pub struct JoinReductionIOP { }
//@threaded JoinReductionIOP::prove
pub open spec fn selinv(s: F) -> F { fadd(fmul(fneg(f1()), s), f1()) }
/// a bag cut in two by a selector: the rows where it is one, and the rows where it is zero
pub open spec fn jr_part(a: ProverTracker, b: ProverTracker, f: Bag, s: TrackedPoly, l: Bag, m: Bag) -> bool {
    &&& l.poly == f.poly && m.poly == f.poly && hp(b, l.selector) && hp(b, m.selector) && l.selector.num_vars == f.selector.num_vars && m.selector.num_vars == f.selector.num_vars && l.selector.tracker == f.selector.tracker && m.selector.tracker == f.selector.tracker
    &&& forall|c: int| 0 <= c < p2(f.selector.num_vars as int) ==> #[trigger] pt_val(b, l.selector.id, at_bool(c)) == fmul(pt_val(a, f.selector.id, at_bool(c)), pt_val(a, s.id, at_bool(c)))
    &&& forall|c: int| 0 <= c < p2(f.selector.num_vars as int) ==> #[trigger] pt_val(b, m.selector.id, at_bool(c)) == fmul(pt_val(a, f.selector.id, at_bool(c)), selinv(pt_val(a, s.id, at_bool(c))))
    &&& forall|x: Seq<F>| x.len() == f.selector.num_vars ==> #[trigger] pt_val(b, l.selector.id, at_point(x)) == fmul(pt_val(a, f.selector.id, at_point(x)), pt_val(a, s.id, at_point(x)))
    &&& forall|x: Seq<F>| x.len() == f.selector.num_vars ==> #[trigger] pt_val(b, m.selector.id, at_point(x)) == fmul(pt_val(a, f.selector.id, at_point(x)), selinv(pt_val(a, s.id, at_point(x))))
}
pub open spec fn jr_split(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, ls: TrackedPoly, rs: TrackedPoly, l: Bag, r: Bag, ma: Bag, mb: Bag) -> bool { p_more(a, b, 10) && jr_part(a, b, f, ls, l, ma) && jr_part(a, b, g, rs, r, mb) }
pub open spec fn jr_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, ls: TrackedPoly, rs: TrackedPoly, rg: Bag, l: Bag, r: Bag, ma: Bag, mb: Bag, c: ProverTracker, c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, c4: ProverTracker, c5: ProverTracker, c6: ProverTracker) -> bool {
    jr_split(a, c, f, g, ls, rs, l, r, ma, mb) && selvalid_p(c, c1, ls) && selvalid_p(c1, c2, rs) && disjp(c2, c3, l, r, rg) && disjp(c3, c4, l, ma, rg) && disjp(c4, c5, r, mb, rg) && inclp(c5, c6, ma, mb) && inclp(c6, b, mb, ma)
}
/// both selectors 0/1; left and right, left and middle, right and middle disjoint; the two middles of the same support
pub open spec fn jr_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, ls: TrackedPoly, rs: TrackedPoly, rg: Bag) -> bool {
    exists|l: Bag, r: Bag, ma: Bag, mb: Bag, c: ProverTracker, c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, c4: ProverTracker, c5: ProverTracker, c6: ProverTracker| #[trigger] jr_mid(a, b, f, g, ls, rs, rg, l, r, ma, mb, c, c1, c2, c3, c4, c5, c6)
}
/// a 0/1 selector cuts every count in two
pub proof fn cut_counts(p: Seq<F>, s: Seq<F>, z: Seq<F>, y: Seq<F>, w: Seq<F>, v: F, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] z[i] == f0() || z[i] == f1()), forall|i: int| 0 <= i < n ==> #[trigger] y[i] == fmul(s[i], z[i]), forall|i: int| 0 <= i < n ==> #[trigger] w[i] == fmul(s[i], selinv(z[i]))
    ensures mcount(p, y, v, n) + mcount(p, w, v, n) == mcount(p, s, v, n) decreases n
{
    if n > 0 { cut_counts(p, s, z, y, w, v, n - 1); let i = n - 1; broadcast use funits, fhom; assert(z[i] == f0() || z[i] == f1()); assert(y[i] == fmul(s[i], z[i])); assert(w[i] == fmul(s[i], selinv(z[i])));
        assert(selinv(f0()) == f1()); f01(); assert(fadd(fmul(fneg(f1()), f1()), f1()) == fk(0)) by { assert(fmul(fneg(f1()), f1()) == fneg(f1())); reveal(f1); assert(fneg(fk(1)) == fk(-1)); } reveal(f0); assert(selinv(f1()) == f0());
        if z[i] == f0() { assert(y[i] == f0()); assert(w[i] == s[i]); } else { assert(y[i] == s[i]); assert(w[i] == f0()); } }
}
/// counts that the recorded relations allow: the left part is exactly what does not occur on the other side, the middle part what does
pub proof fn join_law(a: int, b: int, l: int, r: int, ma: int, mb: int)
    requires l >= 0, r >= 0, ma >= 0, mb >= 0, l + ma == a, r + mb == b, l == 0 || r == 0, l == 0 || ma == 0, r == 0 || mb == 0, ma > 0 <==> mb > 0
    ensures b == 0 ==> l == a && ma == 0, b > 0 ==> ma == a && l == 0, a == 0 ==> r == b && mb == 0, a > 0 ==> mb == b && r == 0
{ }
pub open spec fn jr_fits(a: ProverTracker, f: Bag, g: Bag, r: Bag) -> bool { disj_fits(a, f, g, max2(f.poly.num_vars as int, g.poly.num_vars as int) + 1, r) && disj_fits(a, f, f, f.poly.num_vars + 1, r) && disj_fits(a, g, g, g.poly.num_vars + 1, r) }
//@fn src/zksql_poly_iop/join_reduction/join_reduction.rs::JoinReductionIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 348), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who), bag_a.poly.num_vars < 62, bag_b.poly.num_vars < 62, hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
        hp(*old(zk_tr), *l_sel), l_sel.num_vars == bag_a.poly.num_vars, l_sel.tracker.who == old(prover_tracker).tracker_rc.who, hp(*old(zk_tr), *r_sel), r_sel.num_vars == bag_b.poly.num_vars, r_sel.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> jr_fits(*old(zk_tr), *bag_a, *bag_b, *range_bag),
        ret.is_ok() ==> jr_p(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *l_sel, *r_sel, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 348),
//@@ entry
    let ghost a = *zk_tr; let ghost who = prover_tracker.tracker_rc.who;
//@@ after-let ma_sel
    let ghost b1 = *zk_tr;
//@@ after-let mb_sel
    let ghost b2 = *zk_tr;
//@@ after-let l_bag
    let ghost b3 = *zk_tr;
//@@ after-let r_bag
    let ghost b4 = *zk_tr;
//@@ after-let ma_bag
    let ghost b5 = *zk_tr;
//@@ after-let mb_bag
    let ghost c = *zk_tr; proof { assert(p_more(a, c, 10)); assert(jr_part(a, c, *bag_a, *l_sel, l_bag, ma_bag)); assert(jr_part(a, c, *bag_b, *r_sel, r_bag, mb_bag)); assert(bagp(c, l_bag, who) && bagp(c, r_bag, who) && bagp(c, ma_bag, who) && bagp(c, mb_bag, who)); }
//@@ after-call prove
    let ghost c1 = *zk_tr;
//@@ after-call prove #2
    let ghost c2 = *zk_tr;
//@@ after-call prove #3
    let ghost c3 = *zk_tr;
//@@ after-call prove #4
    let ghost c4 = *zk_tr;
//@@ after-call prove #5
    let ghost c5 = *zk_tr;
//@@ after-call prove #6
    let ghost c6 = *zk_tr;
//@@ pretail
    proof { assert(jr_mid(a, *zk_tr, *bag_a, *bag_b, *l_sel, *r_sel, *range_bag, l_bag, r_bag, ma_bag, mb_bag, c, c1, c2, c3, c4, c5, c6)); }
//@end
