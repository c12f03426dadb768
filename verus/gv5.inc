// ---- verifier side of bag_sort (strict) ----
pub struct BagStrictSortIOP { }
//@threaded BagStrictSortIOP::verify
/// i -> i + 1, with wraparound
pub open spec fn is_shift(nv: int, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == nv && (forall|b: int| 0 <= b < p2(nv) - 1 ==> #[trigger] d.evaluations@[b] == fk(b + 1)) && d.evaluations@[p2(nv) - 1] == f0() }
/// one except at the last index
pub open spec fn is_most(nv: int, d: DenseMultilinearExtension) -> bool { dwf(d) && d.num_vars == nv && (forall|b: int| 0 <= b < p2(nv) - 1 ==> #[trigger] d.evaluations@[b] == f1()) && d.evaluations@[p2(nv) - 1] == f0() }
/// handle h evaluates the multilinear extension of table d
pub open spec fn v_table(v: VerifierTracker, h: TrackedComm, d: DenseMultilinearExtension) -> bool { vt_has(v, h.id) && (forall|q: QM, pt: Seq<F>| #[trigger] vt_val(v, h.id, q, pt) == mlev(d.evaluations@, pt)) && (forall|q: QM, pt: Seq<F>| #[trigger] vt_def(v, h.id, q, pt) == (pt.len() == d.num_vars)) }
pub open spec fn sort_vpre(a: VerifierTracker, c: VerifierTracker, s: BagComm, sh: DenseMultilinearExtension, one: TrackedComm, hs: TrackedComm, hq: TrackedComm) -> bool {
    let n = a.id_counter as int; let cq = a.proof.comms@[tid(n + 2)];
    &&& v_grow(a, c) && c.id_counter == n + 3 && !c.transcript.is_empty && c.sum_check_claims@ == a.sum_check_claims@ && c.zero_check_claims@ == a.zero_check_claims@ && is_shift(s.num_vars as int, sh)
    &&& a.proof.comms@.contains_key(tid(n + 2)) && c.materialized_comms@ == a.materialized_comms@.insert(tid(n + 2), cq) && ilog(c.transcript) == ilog(a.transcript).push(TEv::Msg("comm"@, ser_comm(cq)))
    &&& v_one(c, one) && v_table(c, hs, sh) && hq.id == tid(n + 2) && vt_has(c, hq.id)
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(c, hq.id, q, pt) == q[(hq.id, pt)]
}
/// most * (next - value) + 1 - most
pub open spec fn diffv(m: F, q: F, p: F) -> F { fsub(fadd(fmul(m, fsub(q, p)), f1()), m) }
pub open spec fn sort_vdiff(a: VerifierTracker, c: VerifierTracker, e: VerifierTracker, s: BagComm, hq: TrackedComm, ms: DenseMultilinearExtension, d: BagComm, rs: TrackedComm) -> bool {
    let m = c.id_counter as int;
    &&& v_more(c, e, 7) && d.num_vars == s.num_vars && d.selector.id == tid(m) && d.poly.id == tid(m + 5) && is_most(s.num_vars as int, ms) && v_table(e, d.selector, ms) && v_one(e, rs) && vt_has(e, d.poly.id)
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(e, d.poly.id, q, pt) == diffv(mlev(ms.evaluations@, pt), q[(hq.id, pt)], vt_val(a, s.poly.id, q, pt))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(e, d.poly.id, q, pt) == (pt.len() == s.num_vars && q.contains_key((hq.id, pt)) && vt_def(a, s.poly.id, q, pt))
}
pub open spec fn sort_vmid(a: VerifierTracker, b: VerifierTracker, s: BagComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, sh: DenseMultilinearExtension, ms: DenseMultilinearExtension, one: TrackedComm, hs: TrackedComm, hq: TrackedComm, d: BagComm, rs: TrackedComm) -> bool {
    &&& sort_vpre(a, c1, s, sh, one, hs, hq) && presc_v(c1, c2, s, BagComm { poly: hq, selector: one, num_vars: s.num_vars }, hs) && sort_vdiff(a, c2, c3, s, hq, ms, d, rs)
    &&& inclv(c3, c4, d, BagComm { poly: r.poly, selector: rs, num_vars: r.num_vars }) && nozero_v(c4, b, BagComm { poly: d.poly, selector: s.selector, num_vars: s.num_vars })
}
/// shifted copy by prescribed permutation; differences in the range; no selected difference is zero
pub open spec fn sort_v(a: VerifierTracker, b: VerifierTracker, s: BagComm, r: BagComm) -> bool { exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, sh: DenseMultilinearExtension, ms: DenseMultilinearExtension, one: TrackedComm, hs: TrackedComm, hq: TrackedComm, d: BagComm, rs: TrackedComm| #[trigger] sort_vmid(a, b, s, r, c1, c2, c3, c4, sh, ms, one, hs, hq, d, rs) }
/// refused by the permutation check
pub open spec fn sort_bad1(a: VerifierTracker, c1: VerifierTracker, s: BagComm, sh: DenseMultilinearExtension, one: TrackedComm, hs: TrackedComm, hq: TrackedComm) -> bool { sort_vpre(a, c1, s, sh, one, hs, hq) && presc_bad(c1, s, BagComm { poly: hq, selector: one, num_vars: s.num_vars }, hs) }
/// refused by the inclusion check
pub open spec fn sort_bad2(a: VerifierTracker, s: BagComm, r: BagComm, c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, sh: DenseMultilinearExtension, ms: DenseMultilinearExtension, one: TrackedComm, hs: TrackedComm, hq: TrackedComm, d: BagComm, rs: TrackedComm, m: TrackedComm) -> bool {
    &&& sort_vpre(a, c1, s, sh, one, hs, hq) && presc_v(c1, c2, s, BagComm { poly: hq, selector: one, num_vars: s.num_vars }, hs) && sort_vdiff(a, c2, c3, s, hq, ms, d, rs)
    &&& v_commit(c3, c4, m, c3.proof.comms@[tid(c3.id_counter as int)]) && incl_bad(c4, d, BagComm { poly: r.poly, selector: rs, num_vars: r.num_vars })
}
pub open spec fn sort_bad(a: VerifierTracker, s: BagComm, r: BagComm) -> bool {
    ||| exists|c1: VerifierTracker, sh: DenseMultilinearExtension, one: TrackedComm, hs: TrackedComm, hq: TrackedComm| #[trigger] sort_bad1(a, c1, s, sh, one, hs, hq)
    ||| exists|c1: VerifierTracker, c2: VerifierTracker, c3: VerifierTracker, c4: VerifierTracker, sh: DenseMultilinearExtension, ms: DenseMultilinearExtension, one: TrackedComm, hs: TrackedComm, hq: TrackedComm, d: BagComm, rs: TrackedComm, m: TrackedComm| #[trigger] sort_bad2(a, s, r, c1, c2, c3, c4, sh, ms, one, hs, hq, d, rs, m)
}
//@fn src/zksql_poly_iop/bag_sort/bag_sort.rs::BagStrictSortIOP::verify | thread=VerifierTracker maypanic vclos=Table,Table,One
//@@ requires
        v_room(*old(zk_tr), 59), bagc(*old(zk_tr), *sorted_bag_comm, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag, old(verifier_tracker).tracker_rc.who), sorted_bag_comm.num_vars < 62, range_bag.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker), ret.is_ok() ==> sort_v(*old(zk_tr), *final(zk_tr), *sorted_bag_comm, *range_bag),
        ret.is_err() ==> sort_bad(*old(zk_tr), *sorted_bag_comm, *range_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + 59 && !final(zk_tr).transcript.is_empty,
//@@ entry
    broadcast use ipow_p2;
    let ghost a = *zk_tr; let ghost n = a.id_counter as int; let ghost rb0 = *range_bag; let ghost sb = *sorted_bag_comm; let ghost nv = sb.num_vars as int; proof { p2_64(); p2_pos(nv); p2_mono(nv, 62); }
//@@ inv 0
            zk_n0 == p2(nv) - 1, zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == fk(j + 1),
//@@ after-let shift_perm_mle
    let ghost sh = shift_perm_mle; proof { reveal(f0); assert(is_shift(nv, sh)); }
//@@ after-let diff_sel_mle
    let ghost ms = diff_sel_mle; proof { assert(is_most(nv, ms)); }
//@@ after-let q_comm
    let ghost c1 = *zk_tr; proof { assert(v_one(c1, one_comm)); assert(v_table(c1, shift_perm_comm, sh)); assert(sort_vpre(a, c1, sb, sh, one_comm, shift_perm_comm, q_comm));
        assert(presc_bad(c1, sb, BagComm { poly: q_comm, selector: one_comm, num_vars: sb.num_vars }, shift_perm_comm) ==> sort_bad1(a, c1, sb, sh, one_comm, shift_perm_comm, q_comm)); }
//@@ after-call verify
    let ghost c2 = *zk_tr;
//@@ after-let diff_comm
    let ghost cd = *zk_tr; proof {
        let m = c2.id_counter as int;
        assert(diff_comm.id == tid(m + 5)); assert(diff_sel_comm.id == tid(m));
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(cd, tid(m + 5), q, pt) == diffv(mlev(ms.evaluations@, pt), q[(q_comm.id, pt)], vt_val(a, sb.poly.id, q, pt)) by { }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(cd, tid(m + 5), q, pt) == (pt.len() == nv && q.contains_key((q_comm.id, pt)) && vt_def(a, sb.poly.id, q, pt)) by { }
    }
//@@ after-let range_bag
    let ghost c3 = *zk_tr; proof { assert(v_one(c3, range_sel)); assert(v_table(c3, diff_bag.selector, ms)); assert(sort_vdiff(a, c2, c3, sb, q_comm, ms, diff_bag, range_sel)); 
        assert forall|c: VerifierTracker, m: TrackedComm| #[trigger] v_commit(c3, c, m, c3.proof.comms@[tid(c3.id_counter as int)]) && incl_bad(c, diff_bag, range_bag) implies sort_bad2(a, sb, rb0, c1, c2, c3, c, sh, ms, one_comm, shift_perm_comm, q_comm, diff_bag, range_sel, m) by { } }
//@@ after-call verify #2
    let ghost c4 = *zk_tr;
//@@ pretail
    proof { assert(sort_vmid(a, *zk_tr, sb, rb0, c1, c2, c3, c4, sh, ms, one_comm, shift_perm_comm, q_comm, diff_bag, range_sel)); }
//@end
