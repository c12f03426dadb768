// ---- verifier side of selector_valid, bag_no_zeros, bag_sum, bag_eq ----
pub struct SelectorValidIOP { }
pub struct BagNoZerosIOP { }
pub struct BagSumIOP { }
pub struct BagEqIOP { }
//@threaded SelectorValidIOP::verify BagNoZerosIOP::verify BagSumIOP::verify BagEqIOP::verify
/// a zero claim about handle z was recorded; sum claims, log and commitments are as before
pub open spec fn v_zclaim(a: VerifierTracker, b: VerifierTracker, k: int, z: TrackerID) -> bool {
    &&& vt_wf(b) && vt_kept(a, b) && b.id_counter == a.id_counter + k && vt_has(b, z) && b.zero_check_claims@ == a.zero_check_claims@.push(TrackerZerocheckClaim { label: z })
    &&& b == (VerifierTracker { id_counter: b.id_counter, virtual_comms: b.virtual_comms, zero_check_claims: b.zero_check_claims, ..a })
}
/// s * (1 - s)
pub open spec fn selchk(s: F) -> F { fmul(s, fadd(fmul(fneg(f1()), s), f1())) }
pub open spec fn selvalid_v(a: VerifierTracker, b: VerifierTracker, s: TrackedComm) -> bool { let z = tid(a.id_counter + 3); v_zclaim(a, b, 4, z)
    && (forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, z, q, pt) == selchk(vt_val(a, s.id, q, pt))) && (forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, z, q, pt) == vt_def(a, s.id, q, pt)) }
//@fn src/zksql_poly_iop/selector_valid/selector_valid.rs::SelectorValidIOP::verify | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 4), hc(*old(zk_tr), *selector, old(verifier_tracker).tracker_rc.who),
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok(), selvalid_v(*old(zk_tr), *final(zk_tr), *selector),
//@@ entry
    let ghost a = *zk_tr; let ghost n = a.id_counter as int;
//@@ tail
    proof { let f = *zk_tr; assert(check_poly.id == tid(n + 3)); 
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(f, tid(n + 3), q, pt) == selchk(vt_val(a, selector.id, q, pt)) by { }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(f, tid(n + 3), q, pt) == vt_def(a, selector.id, q, pt) by { }
        assert(selvalid_v(a, f, *selector)); }
//@end
/// value * selector * inverse - selector
pub open spec fn nzchk(p: F, s: F, i: F) -> F { fsub(fmul(fmul(p, s), i), s) }
/// what BagNoZerosIOP::verify takes from the proof and records
pub open spec fn nozero_v(a: VerifierTracker, b: VerifierTracker, bag: BagComm) -> bool {
    let n = a.id_counter as int; let z = tid(n + 3); let h = tid(n);
    &&& v_grow(a, b) && b.id_counter == n + 4 && vt_has(b, z) && b.zero_check_claims@ == a.zero_check_claims@.push(TrackerZerocheckClaim { label: z }) && b.sum_check_claims@ == a.sum_check_claims@ && a.proof.comms@.contains_key(h)
    &&& b.materialized_comms@ == a.materialized_comms@.insert(h, a.proof.comms@[h]) && ilog(b.transcript) == ilog(a.transcript).push(TEv::Msg("comm"@, ser_comm(a.proof.comms@[h]))) && !b.transcript.is_empty
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, z, q, pt) == nzchk(vt_val(a, bag.poly.id, q, pt), vt_val(a, bag.selector.id, q, pt), q[(h, pt)])
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, z, q, pt) == (q.contains_key((h, pt)) && vt_def(a, bag.poly.id, q, pt) && vt_def(a, bag.selector.id, q, pt))
}
//@fn src/zksql_poly_iop/bag_no_zeros/mod.rs::BagNoZerosIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 4), bagc(*old(zk_tr), *bag, old(verifier_tracker).tracker_rc.who),
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok(), nozero_v(*old(zk_tr), *final(zk_tr), *bag),
//@@ entry
    let ghost a = *zk_tr; let ghost n = a.id_counter as int;
//@@ tail
    proof { let f = *zk_tr; let z = tid(n + 3); let h = tid(n); assert(inverses_poly.id == h); assert(no_dups_check_poly.id == z);
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(f, z, q, pt) == nzchk(vt_val(a, bag.poly.id, q, pt), vt_val(a, bag.selector.id, q, pt), q[(h, pt)]) by { }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(f, z, q, pt) == (q.contains_key((h, pt)) && vt_def(a, bag.poly.id, q, pt) && vt_def(a, bag.selector.id, q, pt)) by { }
        assert(nozero_v(a, f, *bag)); }
//@end
/// a closure that is one everywhere
pub open spec fn v_one(v: VerifierTracker, h: TrackedComm) -> bool { vt_has(v, h.id) && (forall|q: QM, pt: Seq<F>| #[trigger] vt_val(v, h.id, q, pt) == f1()) && (forall|q: QM, pt: Seq<F>| #[trigger] vt_def(v, h.id, q, pt)) }
/// k handles were issued without touching log, claims or commitments
pub open spec fn v_more(a: VerifierTracker, b: VerifierTracker, k: int) -> bool { vt_wf(b) && vt_kept(a, b) && vt_same_log(a, b) && b.id_counter == a.id_counter + k }
pub open spec fn short<T>(s: Seq<T>) -> bool { (s.len() == 1 ==> s == seq![s[0]]) && (s.len() == 2 ==> s == seq![s[0], s[1]]) && (s.len() == 3 ==> s == seq![s[0], s[1], s[2]]) }
pub proof fn short_all<T>(s: Seq<T>) ensures short(s) { if s.len() == 1 { assert(s =~= seq![s[0]]); } if s.len() == 2 { assert(s =~= seq![s[0], s[1]]); } if s.len() == 3 { assert(s =~= seq![s[0], s[1], s[2]]); } }
/// short lists are their elements
pub broadcast proof fn mt_v_short(a: VerifierTracker, b: VerifierTracker, fxs: Seq<BagComm>, gxs: Seq<BagComm>, mf: Seq<TrackedComm>, mg: Seq<TrackedComm>) ensures #[trigger] mt_v(a, b, fxs, gxs, mf, mg) ==> short(fxs) && short(gxs) && short(mf) && short(mg) { short_all(fxs); short_all(gxs); short_all(mf); short_all(mg); }
pub broadcast proof fn balanced_short(a: VerifierTracker, fxs: Seq<BagComm>, gxs: Seq<BagComm>) ensures (#[trigger] balanced(a, fxs, gxs) || true) && short(fxs) && short(gxs) { short_all(fxs); short_all(gxs); }
pub open spec fn sq1<T>(a: T) -> Seq<T> { seq![a] }
pub open spec fn sq2<T>(a: T, b: T) -> Seq<T> { seq![a, b] }
pub open spec fn bagsum_vmid(a: VerifierTracker, b: VerifierTracker, f0: BagComm, f1: BagComm, g: BagComm, c: VerifierTracker, m: TrackedComm) -> bool { v_more(a, c, 3) && v_one(c, m) && mt_v(c, b, seq![f0, f1], seq![g], seq![m, m], seq![m]) && balanced(c, seq![f0, f1], seq![g]) }
pub open spec fn bagsum_v(a: VerifierTracker, b: VerifierTracker, f0: BagComm, f1: BagComm, g: BagComm) -> bool { exists|c: VerifierTracker, m: TrackedComm| #[trigger] bagsum_vmid(a, b, f0, f1, g, c, m) }
//@fn src/zksql_poly_iop/bag_sum/bag_sum.rs::BagSumIOP::verify | thread=VerifierTracker maypanic vclos=One
//@@ requires
        v_room(*old(zk_tr), 27), bagc(*old(zk_tr), *fx0, old(tracker).tracker_rc.who), bagc(*old(zk_tr), *fx1, old(tracker).tracker_rc.who), bagc(*old(zk_tr), *gx, old(tracker).tracker_rc.who), fx0.num_vars < 62, fx1.num_vars < 62, gx.num_vars < 62,
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() ==> bagsum_v(*old(zk_tr), *final(zk_tr), *fx0, *fx1, *gx),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 27 && !final(zk_tr).transcript.is_empty,
        // refused only before a challenge can be drawn or when the declared sums differ
        ret.is_err() ==> old(zk_tr).transcript.is_empty || exists|c: VerifierTracker| v_more(*old(zk_tr), c, 3) && !#[trigger] balanced(c, sq2(*fx0, *fx1), sq1(*gx)),
//@@ entry
    broadcast use mt_v_short, balanced_short;
    let ghost a = *zk_tr; let ghost fs = seq![*fx0, *fx1]; let ghost gs = seq![*gx]; proof { assert(fs[0] == *fx0); assert(fs[1] == *fx1); assert(gs[0] == *gx); assert(gs == sq1(*gx)); assert(fs == sq2(*fx0, *fx1)); }
//@@ after-let one_comm
    let ghost c1 = *zk_tr; proof { assert(v_one(c1, one_comm)); }
//@@ after-call track_virtual_comm #2
    let ghost c2 = *zk_tr; proof { assert(v_one(c2, one_comm)); }
//@@ after-call track_virtual_comm #3
    let ghost c = *zk_tr; proof { assert(v_one(c, one_comm)); assert(v_more(a, c, 3)); let ms = seq![one_comm, one_comm]; assert(ms[0] == one_comm && ms[1] == one_comm); }
//@@ pretail
    proof { assert(bagsum_vmid(a, *zk_tr, *fx0, *fx1, *gx, c, one_comm)); }
//@end
pub open spec fn bageq_vmid(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm, c: VerifierTracker, m: TrackedComm) -> bool { v_more(a, c, 1) && v_one(c, m) && mt_v(c, b, seq![f], seq![g], seq![m], seq![m]) && balanced(c, seq![f], seq![g]) }
pub open spec fn bageq_v(a: VerifierTracker, b: VerifierTracker, f: BagComm, g: BagComm) -> bool { exists|c: VerifierTracker, m: TrackedComm| #[trigger] bageq_vmid(a, b, f, g, c, m) }
//@fn src/zksql_poly_iop/bag_eq/bag_eq.rs::BagEqIOP::verify | thread=VerifierTracker maypanic vclos=One
//@@ requires
        v_room(*old(zk_tr), 17), bagc(*old(zk_tr), *fx, old(tracker).tracker_rc.who), bagc(*old(zk_tr), *gx, old(tracker).tracker_rc.who), fx.num_vars < 62, gx.num_vars < 62,
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() ==> bageq_v(*old(zk_tr), *final(zk_tr), *fx, *gx),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 17 && !final(zk_tr).transcript.is_empty,
        ret.is_err() ==> old(zk_tr).transcript.is_empty || exists|c: VerifierTracker| v_more(*old(zk_tr), c, 1) && !#[trigger] balanced(c, sq1(*fx), sq1(*gx)),
//@@ entry
    broadcast use mt_v_short, balanced_short;
    let ghost a = *zk_tr; let ghost fs = seq![*fx]; let ghost gs = seq![*gx]; proof { assert(fs[0] == *fx); assert(gs[0] == *gx); assert(gs == sq1(*gx)); assert(fs == sq1(*fx)); }
//@@ after-let one_comm
    let ghost c = *zk_tr; proof { assert(v_one(c, one_comm)); assert(v_more(a, c, 1)); }
//@@ pretail
    proof { assert(bageq_vmid(a, *zk_tr, *fx, *gx, c, one_comm)); }
//@end
