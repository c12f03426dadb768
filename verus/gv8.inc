// ---- verifier side of set_disjoint ----
pub struct SetDisjointIOP { }
//@threaded SetDisjointIOP::verify
pub open spec fn v_take(a: VerifierTracker, b: VerifierTracker, h: TrackedComm) -> bool { a.proof.comms@.contains_key(tid(a.id_counter as int)) && v_commit(a, b, h, a.proof.comms@[tid(a.id_counter as int)]) }
pub open spec fn max2(a: int, b: int) -> int { if a >= b { a } else { b } }
/// why the sum gadget refuses
pub open spec fn bagsum_bad(a: VerifierTracker, f: BagComm, g: BagComm, h: BagComm) -> bool { a.transcript.is_empty || exists|c: VerifierTracker| v_more(a, c, 3) && !#[trigger] balanced(c, sq2(f, g), sq1(h)) }
/// the prover's sum table and its selector under the next handles
pub open spec fn sum_adv(a: VerifierTracker, c1: VerifierTracker, c2: VerifierTracker, f: BagComm, g: BagComm, u: BagComm) -> bool { v_take(a, c1, u.poly) && v_take(c1, c2, u.selector) && u.num_vars == max2(f.num_vars as int, g.num_vars as int) + 1 }
pub open spec fn setdis_vmid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, u: BagComm) -> bool { sum_adv(a, c1, c2, f, g, u) && bagsum_v(c2, c3, f, g, u) && sort_v(c3, b, u, r) }
/// the committed table is the sum of both sets and strictly sorted
pub open spec fn setdis_v(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, r: BagComm) -> bool { exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, u: BagComm| #[trigger] setdis_vmid(a, b, f, g, r, c1, c2, c3, u) }
pub open spec fn setdis_bad1(a: VerifierTracker, f: BagComm, g: BagComm, c1: VerifierTracker, c2: VerifierTracker, u: BagComm) -> bool { sum_adv(a, c1, c2, f, g, u) && bagsum_bad(c2, f, g, u) }
pub open spec fn setdis_bad2(a: VerifierTracker, f: BagComm, g: BagComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, u: BagComm) -> bool { sum_adv(a, c1, c2, f, g, u) && bagsum_v(c2, c3, f, g, u) && sort_bad(c3, u, r) }
/// refused: declared sums differ in the sum or in the order check
pub open spec fn setdis_bad(a: VerifierTracker, f: BagComm, g: BagComm, r: BagComm) -> bool { (exists|c1: VerifierTracker, c2: VerifierTracker, u: BagComm| #[trigger] setdis_bad1(a, f, g, c1, c2, u)) || exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, u: BagComm| #[trigger] setdis_bad2(a, f, g, r, c1, c2, c3, u) }
//@fn src/zksql_poly_iop/set_disjoint/set_disjoint.rs::SetDisjointIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 88), bagc(*old(zk_tr), *bag_a, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *bag_b, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag, old(verifier_tracker).tracker_rc.who), bag_a.num_vars < 61, bag_b.num_vars < 61, range_bag.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> setdis_v(*old(zk_tr), *final(zk_tr), *bag_a, *bag_b, *range_bag),
        ret.is_err() ==> setdis_bad(*old(zk_tr), *bag_a, *bag_b, *range_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 88 && !final(zk_tr).transcript.is_empty,
//@@ entry
    let ghost a = *zk_tr;
//@@ after-let sum_comm
    let ghost c1 = *zk_tr; proof { assert(v_take(a, c1, sum_comm)); }
//@@ after-let sum_sel_comm
    let ghost c2 = *zk_tr; proof { assert(v_take(c1, c2, sum_sel_comm)); }
//@@ after-let sum_bag
    proof { assert(sum_adv(a, c1, c2, *bag_a, *bag_b, *sum_bag)); assert(bagsum_bad(c2, *bag_a, *bag_b, *sum_bag) ==> setdis_bad1(a, *bag_a, *bag_b, c1, c2, *sum_bag)); }
//@@ after-call verify
    let ghost c3 = *zk_tr; proof { assert(sort_bad(c3, *sum_bag, *range_bag) ==> setdis_bad2(a, *bag_a, *bag_b, *range_bag, c1, c2, c3, *sum_bag)); }
//@@ pretail
    proof { assert(setdis_vmid(a, *zk_tr, *bag_a, *bag_b, *range_bag, c1, c2, c3, *sum_bag)); }
//@end
