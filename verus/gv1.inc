// ---- verifier side of the multiset gadget: src/zksql_poly_iop/bag_multitool ----
//@threaded BagMultitoolIOP::verify Self::verify_generate_subclaims BagMultitoolIOP::verify_generate_subclaims
pub struct BagMultitoolIOP { }
pub open spec fn tid(n: int) -> TrackerID { TrackerID(n as usize) }
pub open spec fn v_mid(c: VerifierTracker) -> bool { true }
/// only handles, commitments, claims and the log grow
pub open spec fn v_grow(a: VerifierTracker, b: VerifierTracker) -> bool { vt_wf(b) && vt_kept(a, b) && b == (VerifierTracker { id_counter: b.id_counter, virtual_comms: b.virtual_comms, materialized_comms: b.materialized_comms, transcript: b.transcript, sum_check_claims: b.sum_check_claims, zero_check_claims: b.zero_check_claims, ..a }) }
/// what one bag adds
pub open spec fn mv1(a: VerifierTracker, b: VerifierTracker, bag: BagComm, m: TrackedComm, g: F) -> bool {
    let n = a.id_counter as int; let h = tid(n);
    &&& v_grow(a, b) && b.id_counter == n + 8 && !b.transcript.is_empty && a.proof.comms@.contains_key(h) && a.proof.sumcheck_claims@.contains_key(tid(n + 2))
    &&& b.materialized_comms@ == a.materialized_comms@.insert(h, a.proof.comms@[h]) && ilog(b.transcript) == ilog(a.transcript).push(TEv::Msg("comm"@, ser_comm(a.proof.comms@[h])))
    // the prover's sum is claimed for inverse times multiplicity times selector
    &&& b.sum_check_claims@ == a.sum_check_claims@.push(TrackerSumcheckClaim { label: tid(n + 2), claimed_sum: a.proof.sumcheck_claims@[tid(n + 2)] })
    &&& vt_has(b, tid(n + 2)) && vt_has(b, tid(n + 7))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, tid(n + 2), q, pt) == fmul(fmul(q[(h, pt)], vt_val(a, m.id, q, pt)), vt_val(a, bag.selector.id, q, pt))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, tid(n + 2), q, pt) == (q.contains_key((h, pt)) && vt_def(a, m.id, q, pt) && vt_def(a, bag.selector.id, q, pt))
    // claimed: value times inverse minus challenge times inverse minus one vanishes
    &&& b.zero_check_claims@ == a.zero_check_claims@.push(TrackerZerocheckClaim { label: tid(n + 7) })
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, tid(n + 7), q, pt) == fadd(fsub(fmul(vt_val(a, bag.poly.id, q, pt), q[(h, pt)]), fmul(g, q[(h, pt)])), fneg(f1()))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, tid(n + 7), q, pt) == (q.contains_key((h, pt)) && vt_def(a, bag.poly.id, q, pt))
}
//@fn src/zksql_poly_iop/bag_multitool/bag_multitool.rs::BagMultitoolIOP::verify_generate_subclaims | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 8), bagc(*old(zk_tr), bag, old(tracker).tracker_rc.who), hc(*old(zk_tr), m, old(tracker).tracker_rc.who),
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok(), mv1(*old(zk_tr), *final(zk_tr), bag, m, gamma), ret.unwrap() == old(zk_tr).proof.sumcheck_claims@[tid(old(zk_tr).id_counter + 2)],
//@@ entry
    let ghost a = *zk_tr; let ghost n = a.id_counter as int; let ghost s = bag.selector; let ghost pid = bag.poly.id;
//@@ pretail
    proof {
        let f = *zk_tr;
        assert(phat.id == tid(n)); assert(sumcheck_challenge_comm.id == tid(n + 2)); assert(phat_check_poly.id == tid(n + 7));
        assert(vt_wf(f) && vt_kept(a, f));
        let h = tid(n);
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(f, tid(n + 2), q, pt) == fmul(fmul(q[(h, pt)], vt_val(a, m.id, q, pt)), vt_val(a, s.id, q, pt)) by { }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(f, tid(n + 7), q, pt) == fadd(fsub(fmul(vt_val(a, pid, q, pt), q[(h, pt)]), fmul(gamma, q[(h, pt)])), fneg(f1())) by { }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(f, tid(n + 2), q, pt) == (q.contains_key((h, pt)) && vt_def(a, m.id, q, pt) && vt_def(a, s.id, q, pt)) by { }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(f, tid(n + 7), q, pt) == (q.contains_key((h, pt)) && vt_def(a, pid, q, pt)) by { }
        assert(mv1(a, f, bag, m, gamma));
    }
//@end
/// iterator max
pub open spec fn nvmax(bags: Seq<BagComm>, k: int) -> int decreases k { if k <= 0 { 0 } else { imax(nvmax(bags, k - 1), bags[k - 1].num_vars as int) } }
pub proof fn nvmax_ge(bags: Seq<BagComm>, k: int, i: int) requires 0 <= i < k <= bags.len() ensures bags[i].num_vars <= nvmax(bags, k) decreases k { if i < k - 1 { nvmax_ge(bags, k - 1, i); } }
pub proof fn fk_p2_nz(k: int) requires 0 <= k < 64 ensures fk(p2(k)) != f0() { ax_fp(); p2_pos(k); p2_mono(k, 64); p2_64(); reveal(f0); ax_fk(0); ax_fk(p2(k)); lemma_small_mod(p2(k) as nat, fp() as nat); assert(0int % fp() == 0); }
pub open spec fn mvk(a: VerifierTracker, b: VerifierTracker, bags: Seq<BagComm>, ms: Seq<TrackedComm>, g: F, k: int) -> bool decreases k { if k <= 0 { b == a } else { exists|c: VerifierTracker| #[trigger] v_mid(c) && mvk(a, c, bags, ms, g, k - 1) && mv1(c, b, bags[k - 1], ms[k - 1], g) } }
pub proof fn mvk_kept(a: VerifierTracker, b: VerifierTracker, bags: Seq<BagComm>, ms: Seq<TrackedComm>, g: F, k: int) requires mvk(a, b, bags, ms, g, k), vt_wf(a), k >= 0 ensures v_grow(a, b), b.id_counter == a.id_counter + 8 * k, !a.transcript.is_empty ==> !b.transcript.is_empty decreases k {
    if k > 0 { let c = choose|c: VerifierTracker| #[trigger] v_mid(c) && mvk(a, c, bags, ms, g, k - 1) && mv1(c, b, bags[k - 1], ms[k - 1], g); mvk_kept(a, c, bags, ms, g, k - 1); }
}
pub open spec fn v_chal(a: VerifierTracker, c: VerifierTracker, label: Seq<char>) -> bool { c == (VerifierTracker { transcript: c.transcript, ..a }) && !a.transcript.is_empty && !c.transcript.is_empty && ilog(c.transcript) == after_chal(ilog(a.transcript), label) && vt_wf(c) && vt_kept(a, c) }
/// the i-th declared sum of a side, scaled down for the smaller bags
pub open spec fn scaled(a: VerifierTracker, n: int, bags: Seq<BagComm>, mx: int) -> spec_fn(int) -> F { |i: int| fdiv(a.proof.sumcheck_claims@[tid(n + 8 * i + 2)], fk(p2(mx - bags[i].num_vars))) }
/// the declared sums of both sides agree
pub open spec fn balanced(a: VerifierTracker, fxs: Seq<BagComm>, gxs: Seq<BagComm>) -> bool { let mx = imax(nvmax(fxs, fxs.len() as int), nvmax(gxs, gxs.len() as int)); fsum(fxs.len() as int, scaled(a, a.id_counter as int, fxs, mx)) == fsum(gxs.len() as int, scaled(a, a.id_counter + 8 * fxs.len(), gxs, mx)) }
pub open spec fn mt_v(a: VerifierTracker, b: VerifierTracker, fxs: Seq<BagComm>, gxs: Seq<BagComm>, mf: Seq<TrackedComm>, mg: Seq<TrackedComm>) -> bool {
    let g = chal(ilog(a.transcript), "gamma"@);
    v_grow(a, b) && b.id_counter == a.id_counter + 8 * fxs.len() + 8 * gxs.len() && !b.transcript.is_empty && exists|c: VerifierTracker, d: VerifierTracker| v_chal(a, c, "gamma"@) && #[trigger] mvk(c, d, fxs, mf, g, fxs.len() as int) && #[trigger] mvk(d, b, gxs, mg, g, gxs.len() as int)
}
pub open spec fn bagcs_ok(v: VerifierTracker, bags: Seq<BagComm>, ms: Seq<TrackedComm>, who: u64) -> bool { (forall|i: int| 0 <= i < bags.len() ==> bagc(v, #[trigger] bags[i], who) && bags[i].num_vars < 62) && (forall|i: int| 0 <= i < ms.len() ==> hc(v, #[trigger] ms[i], who)) }
//@fn src/zksql_poly_iop/bag_multitool/bag_multitool.rs::BagMultitoolIOP::verify | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), (8 * fxs@.len() + 8 * gxs@.len()) as int), bagcs_ok(*old(zk_tr), fxs@, mfxs@, old(tracker).tracker_rc.who), bagcs_ok(*old(zk_tr), gxs@, mgxs@, old(tracker).tracker_rc.who),
//@@ ensures
        *final(tracker) == *old(tracker), ret.is_ok() <==> fxs@.len() > 0 && fxs@.len() == mfxs@.len() && gxs@.len() > 0 && gxs@.len() == mgxs@.len() && !old(zk_tr).transcript.is_empty && balanced(*old(zk_tr), fxs@, gxs@),
        ret.is_ok() ==> mt_v(*old(zk_tr), *final(zk_tr), fxs@, gxs@, mfxs@, mgxs@),
//@@ entry
    broadcast use funits, ipow_p2;
    let ghost a = *zk_tr; let ghost who = tracker.tracker_rc.who; let ghost nf = fxs@.len() as int;
//@@ after-let gamma
    let ghost c = *zk_tr; proof { assert(v_chal(a, c, "gamma"@)); }
//@@ inv 0
            zk_n0 == fxs@.len(), zk_acc0 == (if zk_i0 == 0 { None } else { Some(nvmax(fxs@, zk_i0 as int) as usize) }), 0 <= nvmax(fxs@, zk_i0 as int) < 62,
//@@ inv 1
            zk_n1 == gxs@.len(), zk_acc1 == (if zk_i1 == 0 { None } else { Some(nvmax(gxs@, zk_i1 as int) as usize) }), 0 <= nvmax(gxs@, zk_i1 as int) < 62,
//@@ after-let rhs_v
    let ghost mx = max_nv as int; let ghost ft = scaled(a, a.id_counter as int, fxs@, mx); let ghost gt = scaled(a, a.id_counter + 8 * nf, gxs@, mx);
//@@ inv 2
            zk_n2 == fxs@.len(), *tracker == *old(tracker), mvk(c, *zk_tr, fxs@, mfxs@, gamma, zk_i2 as int), v_grow(c, *zk_tr), zk_tr.id_counter == c.id_counter + 8 * zk_i2, lhs_v == fsum(zk_i2 as int, ft),
//@@ start 2
        let ghost e = *zk_tr; proof { let b0 = fxs@[zk_i2 as int]; assert(bagc(a, b0, who)); assert(bagc(c, b0, who)); assert(hc(a, mfxs@[zk_i2 as int], who)); nvmax_ge(fxs@, fxs@.len() as int, zk_i2 as int); p2_64(); p2_pos(mx - b0.num_vars); p2_mono(mx - b0.num_vars, 62); fk_p2_nz(mx - b0.num_vars); }
//@@ end 2
        proof { assert(v_mid(e)); assert(mv1(e, *zk_tr, fxs@[zk_i2 - 1], mfxs@[zk_i2 - 1], gamma)); assert(fsum(zk_i2 as int, ft) == fadd(fsum(zk_i2 - 1, ft), ft(zk_i2 - 1))); }
//@@ after 2
    let ghost d = *zk_tr; proof { mvk_kept(c, d, fxs@, mfxs@, gamma, nf); }
//@@ inv 3
            zk_n3 == gxs@.len(), *tracker == *old(tracker), mvk(d, *zk_tr, gxs@, mgxs@, gamma, zk_i3 as int), v_grow(d, *zk_tr), zk_tr.id_counter == d.id_counter + 8 * zk_i3, rhs_v == fsum(zk_i3 as int, gt),
//@@ start 3
        let ghost e = *zk_tr; proof { let b0 = gxs@[zk_i3 as int]; assert(bagc(a, b0, who)); assert(bagc(d, b0, who)); assert(hc(a, mgxs@[zk_i3 as int], who)); nvmax_ge(gxs@, gxs@.len() as int, zk_i3 as int); p2_64(); p2_pos(mx - b0.num_vars); p2_mono(mx - b0.num_vars, 62); fk_p2_nz(mx - b0.num_vars); }
//@@ end 3
        proof { assert(v_mid(e)); assert(mv1(e, *zk_tr, gxs@[zk_i3 - 1], mgxs@[zk_i3 - 1], gamma)); assert(fsum(zk_i3 as int, gt) == fadd(fsum(zk_i3 - 1, gt), gt(zk_i3 - 1))); }
//@@ after 3
    proof { mvk_kept(d, *zk_tr, gxs@, mgxs@, gamma, gxs@.len() as int); }
//@end
