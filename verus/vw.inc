// ---- handles of the verifier tracker: src/tracker/verifier_wrapper.rs, the commitment side of src/tracker/bag.rs ----
//@typemap Rc<RefCell<ProverTracker<E,PCS>>> => ZkCell
//@typemap Rc<RefCell<VerifierTracker<E,PCS>>> => ZkCell
//@threaded track_mat_poly track_and_commit_poly get_mat_poly get_virt_poly get_and_append_challenge append_serializable_element add_sumcheck_claim add_zerocheck_claim get_next_id
//@threaded add_poly sub_poly mul_poly add_scalar mul_scalar increase_nv_front increase_nv_back evaluations to_arithmatic_virtual_poly
//@threaded track_mat_comm track_virtual_comm set_compiled_proof get_mat_comm get_prover_claimed_sum transfer_proof_poly_evals transfer_prover_comm verify_claims add_comms sub_comms mul_comms eval_virtual_comm
//@struct src/tracker/verifier_wrapper.rs::VerifierTrackerRef
//@struct src/tracker/verifier_wrapper.rs::TrackedComm
impl ZkClone for TrackedComm { fn zk_clone(&self) -> (r: TrackedComm) { TrackedComm { id: self.id, tracker: self.tracker } } }
impl ZkClone for VerifierTrackerRef { fn zk_clone(&self) -> (r: VerifierTrackerRef) { VerifierTrackerRef { tracker_rc: self.tracker_rc } } }
/// the handle is known to the tracker
pub open spec fn hc(v: VerifierTracker, c: TrackedComm, who: u64) -> bool { vt_has(v, c.id) && c.tracker.who == who }
/// room for n more handles
pub open spec fn v_room(v: VerifierTracker, n: int) -> bool { vt_wf(v) && v.id_counter + n < 0x7fff_ffff_ffff_ff00 }
/// n handles were issued, the last of them h; nothing but the table of closures changed
pub open spec fn v_op(a: VerifierTracker, b: VerifierTracker, h: TrackedComm, n: int) -> bool { vt_new(a, b, h.id, n) }
/// closures and handles as before
pub open spec fn v_still(a: VerifierTracker, b: VerifierTracker) -> bool { vt_wf(b) && vt_kept(a, b) && b.id_counter == a.id_counter && b.virtual_comms == a.virtual_comms }
/// a commitment was put under handle h, recorded and absorbed
pub open spec fn v_commit(a: VerifierTracker, b: VerifierTracker, h: TrackedComm, c: Commitment) -> bool {
    &&& vt_wf(b) && vt_kept(a, b) && h.id.0 == a.id_counter && b.id_counter == a.id_counter + 1 && vt_has(b, h.id) && !vt_has(a, h.id)
    &&& b == (VerifierTracker { id_counter: b.id_counter, virtual_comms: b.virtual_comms, materialized_comms: b.materialized_comms, transcript: b.transcript, ..a })
    &&& b.materialized_comms@ == a.materialized_comms@.insert(h.id, c) && !b.transcript.is_empty && ilog(b.transcript) == ilog(a.transcript).push(TEv::Msg("comm"@, ser_comm(c)))
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(b, h.id, q, pt) == q[(h.id, pt)]
    &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(b, h.id, q, pt) == q.contains_key((h.id, pt))
}
pub proof fn vt_frame_kept(a: VerifierTracker, b: VerifierTracker)
    requires a.virtual_comms == b.virtual_comms, a.id_counter == b.id_counter
    ensures vt_kept(a, b), vt_wf(a) ==> vt_wf(b)
{ }
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::new
//@@ ensures
        ret.tracker_rc == tracker_rc,
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::track_mat_comm | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 1),
//@@ ensures
        ret.is_ok(), v_commit(*old(zk_tr), *final(zk_tr), ret.unwrap(), comm), ret.unwrap().tracker == self.tracker_rc,
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::track_virtual_comm | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 1), vclosed(old(zk_tr).virtual_comms@, eval_fn), vrank(eval_fn) <= old(zk_tr).id_counter,
//@@ ensures
        v_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.tracker == self.tracker_rc,
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(zk_tr), ret.id, q, pt) == fval(old(zk_tr).virtual_comms@, q, eval_fn, pt), forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(zk_tr), ret.id, q, pt) == fdef(old(zk_tr).virtual_comms@, q, eval_fn, pt),
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::get_next_id | thread=VerifierTracker
//@@ ensures
        *final(zk_tr) == *old(zk_tr), *final(self) == *old(self), ret == TrackerID(old(zk_tr).id_counter),
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::set_compiled_proof | thread=VerifierTracker
//@@ ensures
        *final(self) == *old(self), *final(zk_tr) == (VerifierTracker { proof, ..*old(zk_tr) }),
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::get_mat_comm | thread=VerifierTracker
//@@ requires
        old(zk_tr).materialized_comms@.contains_key(id),
//@@ ensures
        *final(zk_tr) == *old(zk_tr), ret == old(zk_tr).materialized_comms@[id],
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::get_and_append_challenge | thread=VerifierTracker
//@@ requires
        vt_wf(*old(zk_tr)),
//@@ ensures
        *final(self) == *old(self), v_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (VerifierTracker { transcript: final(zk_tr).transcript, ..*old(zk_tr) }), final(zk_tr).transcript.is_empty == old(zk_tr).transcript.is_empty,
        old(zk_tr).transcript.is_empty ==> ret.is_err() && *final(zk_tr) == *old(zk_tr),
        !old(zk_tr).transcript.is_empty ==> ret.is_ok() && ret.unwrap() == chal(ilog(old(zk_tr).transcript), label@) && ilog(final(zk_tr).transcript) == after_chal(ilog(old(zk_tr).transcript), label@),
//@@ entry
    let ghost a = *zk_tr;
//@@ tail
    proof { vt_frame_kept(a, *zk_tr); }
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::append_serializable_element | generics=<S:ZkSer> thread=VerifierTracker
//@@ requires
        vt_wf(*old(zk_tr)),
//@@ ensures
        *final(self) == *old(self), ret.is_ok(), v_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (VerifierTracker { transcript: final(zk_tr).transcript, ..*old(zk_tr) }), !final(zk_tr).transcript.is_empty,
        ilog(final(zk_tr).transcript) == ilog(old(zk_tr).transcript).push(TEv::Msg(label@, group_elem.zk_ser())),
//@@ entry
    let ghost a = *zk_tr;
//@@ tail
    proof { vt_frame_kept(a, *zk_tr); }
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::add_sumcheck_claim | thread=VerifierTracker
//@@ requires
        vt_wf(*old(zk_tr)),
//@@ ensures
        *final(self) == *old(self), v_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (VerifierTracker { sum_check_claims: final(zk_tr).sum_check_claims, ..*old(zk_tr) }),
        final(zk_tr).sum_check_claims@ == old(zk_tr).sum_check_claims@.push(TrackerSumcheckClaim { label: poly_id, claimed_sum }),
//@@ entry
    let ghost a = *zk_tr;
//@@ tail
    proof { vt_frame_kept(a, *zk_tr); }
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::add_zerocheck_claim | thread=VerifierTracker
//@@ requires
        vt_wf(*old(zk_tr)),
//@@ ensures
        *final(self) == *old(self), v_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (VerifierTracker { zero_check_claims: final(zk_tr).zero_check_claims, ..*old(zk_tr) }),
        final(zk_tr).zero_check_claims@ == old(zk_tr).zero_check_claims@.push(TrackerZerocheckClaim { label: poly_id }),
//@@ entry
    let ghost a = *zk_tr;
//@@ tail
    proof { vt_frame_kept(a, *zk_tr); assert(zk_tr.zero_check_claims@ =~= a.zero_check_claims@.push(TrackerZerocheckClaim { label: poly_id })); }
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::get_prover_claimed_sum | thread=VerifierTracker maypanic
//@@ ensures
        *final(zk_tr) == *old(zk_tr), old(zk_tr).proof.sumcheck_claims@.contains_key(id), ret == old(zk_tr).proof.sumcheck_claims@[id],
//@end
//@fn src/tracker/verifier_wrapper.rs::VerifierTrackerRef::transfer_prover_comm | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), 1),
//@@ ensures
        *final(self) == *old(self), old(zk_tr).proof.comms@.contains_key(id), v_commit(*old(zk_tr), *final(zk_tr), ret, old(zk_tr).proof.comms@[id]), ret.tracker == final(self).tracker_rc,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::new
//@@ ensures
        ret == (TrackedComm { id, tracker }),
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::same_tracker | cells
//@@ ensures
        ret == (self.tracker.who == other.tracker.who),
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::assert_same_tracker
//@@ requires
        self.tracker.who == other.tracker.who,
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::add_comms | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 1), vt_has(*old(zk_tr), self.id), vt_has(*old(zk_tr), other.id), self.tracker.who == other.tracker.who,
//@@ ensures
        v_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.tracker == self.tracker,
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(zk_tr), ret.id, q, pt) == fadd(vt_val(*old(zk_tr), self.id, q, pt), vt_val(*old(zk_tr), other.id, q, pt)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(zk_tr), ret.id, q, pt) == (vt_def(*old(zk_tr), self.id, q, pt) && vt_def(*old(zk_tr), other.id, q, pt)),
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::sub_comms | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 1), vt_has(*old(zk_tr), self.id), vt_has(*old(zk_tr), other.id), self.tracker.who == other.tracker.who,
//@@ ensures
        v_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.tracker == self.tracker,
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(zk_tr), ret.id, q, pt) == fsub(vt_val(*old(zk_tr), self.id, q, pt), vt_val(*old(zk_tr), other.id, q, pt)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(zk_tr), ret.id, q, pt) == (vt_def(*old(zk_tr), self.id, q, pt) && vt_def(*old(zk_tr), other.id, q, pt)),
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::mul_comms | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 1), vt_has(*old(zk_tr), self.id), vt_has(*old(zk_tr), other.id), self.tracker.who == other.tracker.who,
//@@ ensures
        v_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.tracker == self.tracker,
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(zk_tr), ret.id, q, pt) == fmul(vt_val(*old(zk_tr), self.id, q, pt), vt_val(*old(zk_tr), other.id, q, pt)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(zk_tr), ret.id, q, pt) == (vt_def(*old(zk_tr), self.id, q, pt) && vt_def(*old(zk_tr), other.id, q, pt)),
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::add_scalar | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 2), vt_has(*old(zk_tr), self.id),
//@@ ensures
        v_op(*old(zk_tr), *final(zk_tr), ret, 2), ret.tracker == self.tracker,
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(zk_tr), ret.id, q, pt) == fadd(vt_val(*old(zk_tr), self.id, q, pt), c),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(zk_tr), ret.id, q, pt) == (vt_def(*old(zk_tr), self.id, q, pt)),
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::mul_scalar | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 1), vt_has(*old(zk_tr), self.id),
//@@ ensures
        v_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.tracker == self.tracker,
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(zk_tr), ret.id, q, pt) == fmul(c, vt_val(*old(zk_tr), self.id, q, pt)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(zk_tr), ret.id, q, pt) == (vt_def(*old(zk_tr), self.id, q, pt)),
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::increase_nv_front | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 1), vt_has(*old(zk_tr), self.id),
//@@ ensures
        v_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.tracker == self.tracker,
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(zk_tr), ret.id, q, pt) == vt_val(*old(zk_tr), self.id, q, pt.subrange(added_nv as int, pt.len() as int)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(zk_tr), ret.id, q, pt) == (added_nv <= pt.len() && vt_def(*old(zk_tr), self.id, q, pt.subrange(added_nv as int, pt.len() as int))),
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::increase_nv_back | thread=VerifierTracker
//@@ requires
        v_room(*old(zk_tr), 1), vt_has(*old(zk_tr), self.id),
//@@ ensures
        v_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.tracker == self.tracker,
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(zk_tr), ret.id, q, pt) == vt_val(*old(zk_tr), self.id, q, pt.subrange(0, pt.len() - added_nv)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(zk_tr), ret.id, q, pt) == (added_nv <= pt.len() && vt_def(*old(zk_tr), self.id, q, pt.subrange(0, pt.len() - added_nv))),
//@end
//@fn src/tracker/verifier_wrapper.rs::TrackedComm::eval_virtual_comm | thread=VerifierTracker
//@@ requires
        vt_wf(*old(zk_tr)), vt_has(*old(zk_tr), self.id), vt_def(*old(zk_tr), self.id, old(zk_tr).query_map@, point@),
//@@ ensures
        *final(zk_tr) == *old(zk_tr), ret.is_ok(), ret.unwrap() == vt_val(*old(zk_tr), self.id, old(zk_tr).query_map@, point@),
//@end
//@struct src/tracker/bag.rs::BagComm
impl ZkClone for BagComm { fn zk_clone(&self) -> (r: BagComm) { BagComm { poly: self.poly.zk_clone(), selector: self.selector.zk_clone(), num_vars: self.num_vars } } }
pub open spec fn bagc(v: VerifierTracker, b: BagComm, who: u64) -> bool { hc(v, b.poly, who) && hc(v, b.selector, who) }
//@fn src/tracker/bag.rs::BagComm::new
//@@ ensures
        ret == (BagComm { poly, selector, num_vars }),
//@end
//@fn src/tracker/bag.rs::BagComm::num_vars
//@@ ensures
        ret == self.num_vars,
//@end
//@struct src/tracker/bag.rs::TableComm
impl ZkClone for TableComm { fn zk_clone(&self) -> (r: TableComm) { TableComm { col_vals: self.col_vals.zk_clone(), selector: self.selector.zk_clone(), num_vars: self.num_vars } } }
pub open spec fn tablec(v: VerifierTracker, b: TableComm, who: u64) -> bool { hc(v, b.selector, who) && forall|i: int| 0 <= i < b.col_vals@.len() ==> hc(v, #[trigger] b.col_vals@[i], who) }
//@fn src/tracker/bag.rs::TableComm::new
//@@ ensures
        ret == (TableComm { col_vals, selector, num_vars }),
//@end
//@fn src/tracker/bag.rs::TableComm::num_vars
//@@ ensures
        ret == self.num_vars,
//@end
