// ---- prover side of set_union, set_diff, set_intersect ----
pub struct SetUnionIOP { }
pub struct SetDiffIOP { }
pub struct SetIntersectIOP { }
//@threaded SetUnionIOP::prove SetDiffIOP::prove SetIntersectIOP::prove
/// one table holding a, then b, then zeros
pub open spec fn is_cat(d: DenseMultilinearExtension, x: Seq<F>, y: Seq<F>, nv: int) -> bool { dwf(d) && d.num_vars == nv && d.evaluations@ =~= cat0(x, y, p2(nv)) }
pub open spec fn sum_nv(f: Bag, g: Bag) -> int { max2(f.poly.num_vars as int, g.poly.num_vars as int) + 1 }
pub open spec fn union_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, h: Bag, r: Bag, c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, u: Bag, d: DenseMultilinearExtension, s: DenseMultilinearExtension) -> bool {
    is_cat(d, pvec(a, f.poly), pvec(a, g.poly), sum_nv(f, g)) && is_cat(s, pvec(a, f.selector), pvec(a, g.selector), sum_nv(f, g)) && p_commit(a, c1, u.poly, d) && p_commit(c1, c2, u.selector, s) && bagsum_p(c2, c3, f, g, u) && suppp(c3, b, u, h, r)
}
/// the concatenation is committed; it is the sum of both sets, and the union is its support
pub open spec fn union_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, h: Bag, r: Bag) -> bool { exists|c1: ProverTracker, c2: ProverTracker, c3: ProverTracker, u: Bag, d: DenseMultilinearExtension, s: DenseMultilinearExtension| #[trigger] union_mid(a, b, f, g, h, r, c1, c2, c3, u, d, s) }
pub open spec fn union_fits(a: ProverTracker, f: Bag, g: Bag, h: Bag, r: Bag) -> bool { setdis_fits(a, f, g, r) && pcs_fits(a.pcs_param, h.poly.num_vars as int) }
//@fn src/zksql_poly_iop/set_union/set_union.rs::SetUnionIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 110), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *union_bag, old(prover_tracker).tracker_rc.who), bag_a.poly.num_vars < 62, bag_b.poly.num_vars < 62, hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> union_fits(*old(zk_tr), *bag_a, *bag_b, *union_bag, *range_bag),
        ret.is_ok() ==> union_p(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *union_bag, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 110),
//@@ entry
    broadcast use pvec_still, ipow_p2;
    let ghost a = *zk_tr; let ghost ap = pvec(a, bag_a.poly); let ghost sa = pvec(a, bag_a.selector); let ghost bp = pvec(a, bag_b.poly); let ghost sb = pvec(a, bag_b.selector); let ghost nv = sum_nv(*bag_a, *bag_b); let ghost n = p2(nv);
    proof { reveal(f0); pt_nv_small(a, bag_a.poly.id); pt_nv_small(a, bag_b.poly.id); p2_64(); p2_mono(bag_a.poly.num_vars as int, nv - 1); p2_mono(bag_b.poly.num_vars as int, nv - 1); p2_mono(nv, 63); assert(n == 2 * p2(nv - 1)); p2_pos(bag_a.poly.num_vars as int); p2_pos(bag_b.poly.num_vars as int); assert(ap.len() == p2(bag_a.poly.num_vars as int)); assert(bp.len() == p2(bag_b.poly.num_vars as int)); }
//@@ inv 0
            zk_n0 == zk_s0@.len(), zk_s0@ =~= ap, zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == ap[j],
//@@ inv 1
            zk_n1 == zk_s1@.len(), zk_s1@ =~= bp, zk_acc1@.len() == zk_i1, forall|j: int| 0 <= j < zk_i1 ==> #[trigger] zk_acc1@[j] == bp[j],
//@@ inv 2
            zk_n2 == zk_s2@.len(), zk_s2@ =~= sa, zk_acc2@.len() == zk_i2, forall|j: int| 0 <= j < zk_i2 ==> #[trigger] zk_acc2@[j] == sa[j],
//@@ inv 3
            zk_n3 == zk_s3@.len(), zk_s3@ =~= sb, zk_acc3@.len() == zk_i3, forall|j: int| 0 <= j < zk_i3 ==> #[trigger] zk_acc3@[j] == sb[j],
//@@ after-let sum_sel_mle
    let ghost d = sum_mle; let ghost s = sum_sel_mle; proof { assert(is_cat(d, ap, bp, nv)); assert(is_cat(s, sa, sb, nv)); }
//@@ after-let sum_poly
    let ghost c1 = *zk_tr; proof { assert(p_commit(a, c1, sum_poly, d)); }
//@@ after-let sum_sel_poly
    let ghost c2 = *zk_tr; proof { assert(p_commit(c1, c2, sum_sel_poly, s)); }
//@@ after-call prove
    let ghost c3 = *zk_tr; proof { assert(bagsum_p(c2, c3, *bag_a, *bag_b, *sum_bag)); }
//@@ pretail
    proof { assert(union_mid(a, *zk_tr, *bag_a, *bag_b, *union_bag, *range_bag, c1, c2, c3, *sum_bag, d, s)); }
//@end
/// the concatenation has as its selected values exactly the union
pub proof fn union_support(ap: Seq<F>, sa: Seq<F>, bp: Seq<F>, sb: Seq<F>, nv: int, d: DenseMultilinearExtension, s: DenseMultilinearExtension) requires ap.len() == sa.len(), bp.len() == sb.len(), ap.len() + bp.len() <= p2(nv), is_cat(d, ap, bp, nv), is_cat(s, sa, sb, nv)
    ensures forall|v: F| #[trigger] mcount(d.evaluations@, s.evaluations@, v, p2(nv)) > 0 <==> mcount(ap, sa, v, ap.len() as int) > 0 || mcount(bp, sb, v, bp.len() as int) > 0
{
    assert forall|v: F| #[trigger] mcount(d.evaluations@, s.evaluations@, v, p2(nv)) > 0 <==> mcount(ap, sa, v, ap.len() as int) > 0 || mcount(bp, sb, v, bp.len() as int) > 0 by { cat_counts(ap, sa, bp, sb, v, p2(nv)); mcount_le(ap, sa, v, ap.len() as int); mcount_le(bp, sb, v, bp.len() as int); }
}
pub open spec fn diff_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, l: Bag, m: Bag, w: TrackedPoly, r: Bag, c1: ProverTracker, c2: ProverTracker) -> bool { setdis_p(a, c1, l, g, r) && bagsum_p(c1, c2, l, m, f) && incl_p(c2, b, m, g, w) }
/// left part and b share nothing, left and middle part make up a, the middle part lies in b
pub open spec fn diff_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, l: Bag, m: Bag, w: TrackedPoly, r: Bag) -> bool { exists|c1: ProverTracker, c2: ProverTracker| #[trigger] diff_mid(a, b, f, g, l, m, w, r, c1, c2) }
//@fn src/zksql_poly_iop/set_diff/set_diff.rs::SetDiffIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 132), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_l, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_m, old(prover_tracker).tracker_rc.who), bag_b.poly.num_vars < 62, bag_l.poly.num_vars < 62,
        hp(*old(zk_tr), *bm_multiplicities), bm_multiplicities.tracker.who == old(prover_tracker).tracker_rc.who, hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> setdis_fits(*old(zk_tr), *bag_l, *bag_b, *range_bag) && pcs_fits(old(zk_tr).pcs_param, bag_a.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, bag_m.poly.num_vars as int) && bag_b.poly.num_vars == bm_multiplicities.num_vars,
        ret.is_ok() ==> diff_p(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *bag_l, *bag_m, *bm_multiplicities, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 132),
//@@ entry
    let ghost a = *zk_tr;
//@@ after-call prove
    let ghost c1 = *zk_tr; proof { assert(setdis_p(a, c1, *bag_l, *bag_b, *range_bag)); }
//@@ after-call prove #2
    let ghost c2 = *zk_tr; proof { assert(bagsum_p(c1, c2, *bag_l, *bag_m, *bag_a)); }
//@@ pretail
    proof { assert(diff_mid(a, *zk_tr, *bag_a, *bag_b, *bag_l, *bag_m, *bm_multiplicities, *range_bag, c1, c2)); }
//@end
pub open spec fn inter_mid(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, l: Bag, m: Bag, e: Bag, r: Bag, c1: ProverTracker, c2: ProverTracker) -> bool { bagsum_p(a, c1, l, m, f) && bagsum_p(c1, c2, m, e, g) && setdis_p(c2, b, l, e, r) }
/// left and middle part make up a, middle and right part make up b, left and right part share nothing
pub open spec fn inter_p(a: ProverTracker, b: ProverTracker, f: Bag, g: Bag, l: Bag, m: Bag, e: Bag, r: Bag) -> bool { exists|c1: ProverTracker, c2: ProverTracker| #[trigger] inter_mid(a, b, f, g, l, m, e, r, c1, c2) }
//@fn src/zksql_poly_iop/set_intersect/set_intersect.rs::SetIntersectIOP::prove | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 142), bagp(*old(zk_tr), *bag_a, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_b, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_l, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_m, old(prover_tracker).tracker_rc.who), bagp(*old(zk_tr), *bag_r, old(prover_tracker).tracker_rc.who), bag_r.poly.num_vars < 62, bag_l.poly.num_vars < 62,
        hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker), ret.is_ok() <==> !old(zk_tr).transcript.is_empty && setdis_fits(*old(zk_tr), *bag_l, *bag_r, *range_bag) && pcs_fits(old(zk_tr).pcs_param, bag_a.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, bag_b.poly.num_vars as int) && pcs_fits(old(zk_tr).pcs_param, bag_m.poly.num_vars as int),
        ret.is_ok() ==> inter_p(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *bag_l, *bag_m, *bag_r, *range_bag) && p_grow(*old(zk_tr), *final(zk_tr), 142),
//@@ entry
    let ghost a = *zk_tr;
//@@ after-call prove
    let ghost c1 = *zk_tr; proof { assert(bagsum_p(a, c1, *bag_l, *bag_m, *bag_a)); }
//@@ after-call prove #2
    let ghost c2 = *zk_tr; proof { assert(bagsum_p(c1, c2, *bag_m, *bag_r, *bag_b)); }
//@@ pretail
    proof { assert(inter_mid(a, *zk_tr, *bag_a, *bag_b, *bag_l, *bag_m, *bag_r, *range_bag, c1, c2)); }
//@end
