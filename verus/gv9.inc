// ---- verifier side of set_union, set_diff, set_intersect ----
pub struct SetUnionIOP { }
pub struct SetDiffIOP { }
pub struct SetIntersectIOP { }
//@threaded SetUnionIOP::verify SetDiffIOP::verify SetIntersectIOP::verify
pub open spec fn union_vmid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, h: BagComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, u: BagComm) -> bool { sum_adv(a, c1, c2, f, g, u) && bagsum_v(c2, c3, f, g, u) && suppv(c3, b, u, h, r) }
/// the committed table is the sum of both sets, and the union is its support
pub open spec fn union_v(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, h: BagComm, r: BagComm) -> bool { exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, u: BagComm| #[trigger] union_vmid(a, b, f, g, h, r, c1, c2, c3, u) }
/// why the support gadget refuses
pub open spec fn suppv_bad(a: VerifierTracker, f: BagComm, s: BagComm, r: BagComm) -> bool { exists|c: VerifierTracker, m: TrackedComm| #[trigger] v_commit(a, c, m, a.proof.comms@[tid(a.id_counter as int)]) && supp_bad(c, f, s, m, r) }
pub open spec fn union_bad2(a: VerifierTracker, f: BagComm, g: BagComm, h: BagComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, u: BagComm) -> bool { sum_adv(a, c1, c2, f, g, u) && bagsum_v(c2, c3, f, g, u) && suppv_bad(c3, u, h, r) }
/// refused: declared sums differ in the sum or in the support
pub open spec fn union_bad(a: VerifierTracker, f: BagComm, g: BagComm, h: BagComm, r: BagComm) -> bool { (exists|c1: VerifierTracker, c2: VerifierTracker, u: BagComm| #[trigger] setdis_bad1(a, f, g, c1, c2, u)) || exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, u: BagComm| #[trigger] union_bad2(a, f, g, h, r, c1, c2, c3, u) }
//@fn src/zksql_poly_iop/set_union/set_union.rs::SetUnionIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 110), bagc(*old(zk_tr), *bag_a, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_b, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *union_bag, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag, old(verifier_tracker).tracker_rc.who), bag_a.num_vars < 61, bag_b.num_vars < 61, union_bag.num_vars < 62, range_bag.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> union_v(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *union_bag, *range_bag),
        ret.is_err() ==> union_bad(*old(zk_tr), *bag_a, *bag_b, *union_bag, *range_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 110 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-let sum_comm
    let ghost c1 = *zk_tr; proof { assert(v_take(a, c1, sum_comm)); }
//@@ after-let sum_sel_comm
    let ghost c2 = *zk_tr; proof { assert(v_take(c1, c2, sum_sel_comm)); }
//@@ after-let sum_bag
    proof { assert(sum_adv(a, c1, c2, *bag_a, *bag_b, *sum_bag)); assert(bagsum_bad(c2, *bag_a, *bag_b, *sum_bag) ==> setdis_bad1(a, *bag_a, *bag_b, c1, c2, *sum_bag)); }
//@@ after-call verify
    let ghost c3 = *zk_tr; proof { assert(suppv_bad(c3, *sum_bag, *union_bag, *range_bag) ==> union_bad2(a, *bag_a, *bag_b, *union_bag, *range_bag, c1, c2, c3, *sum_bag)); }
//@@ pretail
    proof { assert(union_vmid(a, *zk_tr, *bag_a, *bag_b, *union_bag, *range_bag, c1, c2, c3, *sum_bag)); }
//@end
pub open spec fn diff_vmid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, l: BagComm, m: BagComm, w: TrackedComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker) -> bool { setdis_v(a, c1, l, g, r) && bagsum_v(c1, c2, l, m, f) && incl_v(c2, b, m, g, w) }
/// left part and b share nothing, left and middle part make up a, the middle part lies in b
pub open spec fn diff_v(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, l: BagComm, m: BagComm, w: TrackedComm, r: BagComm) -> bool { exists|c1: VerifierTracker, c2: VerifierTracker| #[trigger] diff_vmid(a, b, f, g, l, m, w, r, c1, c2) }
pub open spec fn diff_bad(a: VerifierTracker, f: BagComm, g: BagComm, l: BagComm, m: BagComm, r: BagComm) -> bool {
    setdis_bad(a, l, g, r) || (exists|c1: VerifierTracker| #[trigger] setdis_v(a, c1, l, g, r) && bagsum_bad(c1, l, m, f)) || exists|c1: VerifierTracker, c2: VerifierTracker| #[trigger] setdis_v(a, c1, l, g, r) && #[trigger] bagsum_v(c1, c2, l, m, f) && incl_bad(c2, m, g)
}
//@fn src/zksql_poly_iop/set_diff/set_diff.rs::SetDiffIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 132), bagc(*old(zk_tr), *bag_a, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_b, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_l, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_m, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag, old(verifier_tracker).tracker_rc.who), hc(*old(zk_tr), *bm_multiplicities, old(verifier_tracker).tracker_rc.who),
        bag_a.num_vars < 61, bag_b.num_vars < 61, bag_l.num_vars < 61, bag_m.num_vars < 61, range_bag.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> diff_v(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *bag_l, *bag_m, *bm_multiplicities, *range_bag),
        ret.is_err() ==> diff_bad(*old(zk_tr), *bag_a, *bag_b, *bag_l, *bag_m, *range_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 132 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-call verify
    let ghost c1 = *zk_tr; proof { assert(setdis_v(a, c1, *bag_l, *bag_b, *range_bag)); }
//@@ after-call verify #2
    let ghost c2 = *zk_tr; proof { assert(bagsum_v(c1, c2, *bag_l, *bag_m, *bag_a)); }
//@@ pretail
    proof { assert(diff_vmid(a, *zk_tr, *bag_a, *bag_b, *bag_l, *bag_m, *bm_multiplicities, *range_bag, c1, c2)); }
//@end
pub open spec fn inter_vmid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, l: BagComm, m: BagComm, e: BagComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker) -> bool { bagsum_v(a, c1, l, m, f) && bagsum_v(c1, c2, m, e, g) && setdis_v(c2, b, l, e, r) }
/// left and middle part make up a, middle and right part make up b, left and right part share nothing
pub open spec fn inter_v(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, l: BagComm, m: BagComm, e: BagComm, r: BagComm) -> bool { exists|c1: VerifierTracker, c2: VerifierTracker| #[trigger] inter_vmid(a, b, f, g, l, m, e, r, c1, c2) }
pub open spec fn inter_bad(a: VerifierTracker, f: BagComm, g: BagComm, l: BagComm, m: BagComm, e: BagComm, r: BagComm) -> bool {
    bagsum_bad(a, l, m, f) || (exists|c1: VerifierTracker| #[trigger] bagsum_v(a, c1, l, m, f) && bagsum_bad(c1, m, e, g)) || exists|c1: VerifierTracker, c2: VerifierTracker| #[trigger] bagsum_v(a, c1, l, m, f) && #[trigger] bagsum_v(c1, c2, m, e, g) && setdis_bad(c2, l, e, r)
}
//@fn src/zksql_poly_iop/set_intersect/set_intersect.rs::SetIntersectIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 142), bagc(*old(zk_tr), *bag_a, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_b, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_l, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_m, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_r, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag, old(verifier_tracker).tracker_rc.who),
        bag_a.num_vars < 61, bag_b.num_vars < 61, bag_l.num_vars < 61, bag_m.num_vars < 61, bag_r.num_vars < 61, range_bag.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> inter_v(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *bag_l, *bag_m, *bag_r, *range_bag),
        ret.is_err() ==> inter_bad(*old(zk_tr), *bag_a, *bag_b, *bag_l, *bag_m, *bag_r, *range_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 142 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-call verify
    let ghost c1 = *zk_tr; proof { assert(bagsum_v(a, c1, *bag_l, *bag_m, *bag_a)); }
//@@ after-call verify #2
    let ghost c2 = *zk_tr; proof { assert(bagsum_v(c1, c2, *bag_m, *bag_r, *bag_b)); }
//@@ pretail
    proof { assert(inter_vmid(a, *zk_tr, *bag_a, *bag_b, *bag_l, *bag_m, *bag_r, *range_bag, c1, c2)); }
//@end
