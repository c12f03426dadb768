// ---- handles of the prover tracker: src/tracker/prover_wrapper.rs ----
//@include cells.inc
//@typemap Rc<RefCell<ProverTracker<E,PCS>>> => ZkCell
//@typemap Rc<RefCell<VerifierTracker<E,PCS>>> => ZkCell
//@threaded track_mat_poly track_and_commit_poly get_mat_poly get_virt_poly get_and_append_challenge append_serializable_element add_sumcheck_claim add_zerocheck_claim get_next_id
//@threaded add_poly sub_poly mul_poly add_scalar mul_scalar increase_nv_front increase_nv_back evaluations to_arithmatic_virtual_poly
//@threaded track_mat_comm track_virtual_comm set_compiled_proof get_mat_comm get_prover_claimed_sum transfer_proof_poly_evals transfer_prover_comm verify_claims add_comms sub_comms mul_comms eval_virtual_comm
//@struct src/tracker/prover_wrapper.rs::ProverTrackerRef
//@struct src/tracker/prover_wrapper.rs::TrackedPoly
impl ZkClone for TrackedPoly { fn zk_clone(&self) -> (r: TrackedPoly) { TrackedPoly { id: self.id, num_vars: self.num_vars, tracker: self.tracker } } }
/// the handle is known to the tracker and records the size of what it stands for
pub open spec fn hp(p: ProverTracker, h: TrackedPoly) -> bool { pt_has(p, h.id) && h.num_vars == pt_nv(p, h.id) }
/// n handles were issued, the last of them h; nothing but the polynomials changed, and those only grew
pub open spec fn p_op(a: ProverTracker, b: ProverTracker, h: TrackedPoly, n: int) -> bool { pt_wf(b) && pt_kept(a, b) && pt_same_log(a, b) && h.id.0 == a.id_counter + n - 1 && b.id_counter == a.id_counter + n && hp(b, h) }
/// room for n more handles
pub open spec fn p_room(p: ProverTracker, n: int) -> bool { pt_wf(p) && p.id_counter + n < 0x7fff_ffff_ffff_ff00 }
/// polynomials, sizes and handles as before
pub open spec fn p_still(a: ProverTracker, b: ProverTracker) -> bool { pt_wf(b) && pt_kept(a, b) && b.id_counter == a.id_counter }
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::new
//@@ ensures
        ret == (TrackedPoly { id, num_vars, tracker }),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::num_vars
//@@ ensures
        ret == self.num_vars,
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::same_tracker | cells
//@@ ensures
        ret == (self.tracker.who == other.tracker.who),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::assert_same_tracker
//@@ requires
        self.tracker.who == other.tracker.who,
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::add_poly | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), hp(*old(zk_tr), *self), hp(*old(zk_tr), *other), self.num_vars == other.num_vars, self.tracker.who == other.tracker.who,
//@@ ensures
        p_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.num_vars == self.num_vars, ret.tracker == self.tracker, forall|t: TVal| #[trigger] pt_val(*final(zk_tr), ret.id, t) == fadd(pt_val(*old(zk_tr), self.id, t), pt_val(*old(zk_tr), other.id, t)),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::sub_poly | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), hp(*old(zk_tr), *self), hp(*old(zk_tr), *other), self.num_vars == other.num_vars, self.tracker.who == other.tracker.who,
//@@ ensures
        p_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.num_vars == self.num_vars, ret.tracker == self.tracker, forall|t: TVal| #[trigger] pt_val(*final(zk_tr), ret.id, t) == fsub(pt_val(*old(zk_tr), self.id, t), pt_val(*old(zk_tr), other.id, t)),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::mul_poly | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), hp(*old(zk_tr), *self), hp(*old(zk_tr), *other), self.num_vars == other.num_vars, self.tracker.who == other.tracker.who,
//@@ ensures
        p_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.num_vars == self.num_vars, ret.tracker == self.tracker, forall|t: TVal| #[trigger] pt_val(*final(zk_tr), ret.id, t) == fmul(pt_val(*old(zk_tr), self.id, t), pt_val(*old(zk_tr), other.id, t)),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::add_scalar | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 2), hp(*old(zk_tr), *self),
//@@ ensures
        p_op(*old(zk_tr), *final(zk_tr), ret, 2), ret.num_vars == self.num_vars, ret.tracker == self.tracker,
        forall|b: int| 0 <= b < p2(self.num_vars as int) ==> #[trigger] pt_val(*final(zk_tr), ret.id, at_bool(b)) == fadd(pt_val(*old(zk_tr), self.id, at_bool(b)), c),
        forall|x: Seq<F>| x.len() == self.num_vars ==> #[trigger] pt_val(*final(zk_tr), ret.id, at_point(x)) == fadd(pt_val(*old(zk_tr), self.id, at_point(x)), c),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::mul_scalar | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), hp(*old(zk_tr), *self),
//@@ ensures
        p_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.num_vars == self.num_vars, ret.tracker == self.tracker, forall|t: TVal| #[trigger] pt_val(*final(zk_tr), ret.id, t) == fmul(c, pt_val(*old(zk_tr), self.id, t)),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::increase_nv_front | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), hp(*old(zk_tr), *self), self.num_vars + added_nv < 62,
//@@ ensures
        p_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.num_vars == self.num_vars + added_nv, ret.tracker == self.tracker,
        forall|b: int| 0 <= b < p2(ret.num_vars as int) ==> #[trigger] pt_val(*final(zk_tr), ret.id, at_bool(b)) == pt_val(*old(zk_tr), self.id, at_bool(b / p2(added_nv as int))),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::increase_nv_back | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), hp(*old(zk_tr), *self), self.num_vars + added_nv < 62,
//@@ ensures
        p_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.num_vars == self.num_vars + added_nv, ret.tracker == self.tracker,
        forall|b: int| 0 <= b < p2(ret.num_vars as int) ==> #[trigger] pt_val(*final(zk_tr), ret.id, at_bool(b)) == pt_val(*old(zk_tr), self.id, at_bool(b % p2(self.num_vars as int))),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::evaluate | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)), hp(*old(zk_tr), *self), pt@.len() == self.num_vars,
//@@ ensures
        *final(zk_tr) == *old(zk_tr), ret == Some(pt_val(*old(zk_tr), self.id, at_point(pt@))),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::evaluations | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)), hp(*old(zk_tr), *self),
//@@ ensures
        p_still(*old(zk_tr), *final(zk_tr)), pt_same_log(*old(zk_tr), *final(zk_tr)), ret@.len() == p2(self.num_vars as int), forall|b: int| 0 <= b < ret@.len() ==> #[trigger] ret@[b] == pt_val(*old(zk_tr), self.id, at_bool(b)),
//@end
//@fn src/tracker/prover_wrapper.rs::TrackedPoly::to_arithmatic_virtual_poly | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)), hp(*old(zk_tr), *self),
//@@ ensures
        *final(zk_tr) == *old(zk_tr), vp_wf(ret), ret.aux_info.num_variables == self.num_vars, forall|t: TVal| #[trigger] vpm(ret, t) == pt_val(*old(zk_tr), self.id, t), ret.aux_info.max_degree >= 1,
//@end
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::new
//@@ ensures
        ret.tracker_rc == tracker_rc,
//@end
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::track_mat_poly | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), dwf(polynomial),
//@@ ensures
        p_op(*old(zk_tr), *final(zk_tr), ret, 1), ret.num_vars == polynomial.num_vars, ret.tracker == final(self).tracker_rc, *final(self) == *old(self), forall|t: TVal| #[trigger] pt_val(*final(zk_tr), ret.id, t) == t(polynomial),
//@end
/// a table was put under handle h and its commitment recorded and absorbed
pub open spec fn p_commit(a: ProverTracker, b: ProverTracker, h: TrackedPoly, d: DenseMultilinearExtension) -> bool {
    let c = pcs_com(a.pcs_param, d);
    &&& pt_wf(b) && pt_kept(a, b) && h.id.0 == a.id_counter && b.id_counter == a.id_counter + 1 && hp(b, h) && h.num_vars == d.num_vars
    &&& forall|t: TVal| #[trigger] pt_val(b, h.id, t) == t(d)
    &&& b.materialized_comms@ == a.materialized_comms@.insert(h.id, c) && ilog(b.transcript) == ilog(a.transcript).push(TEv::Msg("comm"@, ser_comm(c))) && !b.transcript.is_empty
    &&& b.sum_check_claims@ == a.sum_check_claims@ && b.zero_check_claims@ == a.zero_check_claims@ && b.pcs_param == a.pcs_param
}
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::track_and_commit_poly | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), 1), dwf(polynomial),
//@@ ensures
        *final(self) == *old(self), ret.is_err() <==> !pcs_fits(old(zk_tr).pcs_param, polynomial.num_vars as int), ret.is_err() ==> *final(zk_tr) == *old(zk_tr),
        ret.is_ok() ==> p_commit(*old(zk_tr), *final(zk_tr), ret.unwrap(), polynomial) && ret.unwrap().tracker == final(self).tracker_rc,
//@end
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::get_mat_poly | thread=ProverTracker
//@@ requires
        old(zk_tr).materialized_polys@.contains_key(id),
//@@ ensures
        *final(zk_tr) == *old(zk_tr), ret == old(zk_tr).materialized_polys@[id],
//@end
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::get_virt_poly | thread=ProverTracker
//@@ requires
        old(zk_tr).virtual_polys@.contains_key(id),
//@@ ensures
        *final(zk_tr) == *old(zk_tr), ret@ == old(zk_tr).virtual_polys@[id]@,
//@end
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::get_next_id | thread=ProverTracker
//@@ ensures
        *final(zk_tr) == *old(zk_tr), *final(self) == *old(self), ret == TrackerID(old(zk_tr).id_counter),
//@end
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::get_and_append_challenge | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)),
//@@ ensures
        *final(self) == *old(self), p_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (ProverTracker { transcript: final(zk_tr).transcript, ..*old(zk_tr) }), final(zk_tr).transcript.is_empty == old(zk_tr).transcript.is_empty,
        old(zk_tr).transcript.is_empty ==> ret.is_err() && *final(zk_tr) == *old(zk_tr),
        !old(zk_tr).transcript.is_empty ==> ret.is_ok() && ret.unwrap() == chal(ilog(old(zk_tr).transcript), label@) && ilog(final(zk_tr).transcript) == after_chal(ilog(old(zk_tr).transcript), label@),
//@@ entry
    let ghost a = *zk_tr;
//@@ tail
    proof { pt_frame(a, *zk_tr); pt_frame_kept(a, *zk_tr); }
//@end
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::append_serializable_element | generics=<S:ZkSer> thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)),
//@@ ensures
        *final(self) == *old(self), ret.is_ok(), p_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (ProverTracker { transcript: final(zk_tr).transcript, ..*old(zk_tr) }), !final(zk_tr).transcript.is_empty,
        ilog(final(zk_tr).transcript) == ilog(old(zk_tr).transcript).push(TEv::Msg(label@, group_elem.zk_ser())),
//@@ entry
    let ghost a = *zk_tr;
//@@ tail
    proof { pt_frame(a, *zk_tr); pt_frame_kept(a, *zk_tr); }
//@end
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::add_sumcheck_claim | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)),
//@@ ensures
        *final(self) == *old(self), p_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (ProverTracker { sum_check_claims: final(zk_tr).sum_check_claims, ..*old(zk_tr) }),
        final(zk_tr).sum_check_claims@ == old(zk_tr).sum_check_claims@.push(TrackerSumcheckClaim { label: poly_id, claimed_sum }),
//@@ entry
    let ghost a = *zk_tr;
//@@ tail
    proof { pt_frame(a, *zk_tr); pt_frame_kept(a, *zk_tr); }
//@end
//@fn src/tracker/prover_wrapper.rs::ProverTrackerRef::add_zerocheck_claim | thread=ProverTracker
//@@ requires
        pt_wf(*old(zk_tr)),
//@@ ensures
        *final(self) == *old(self), p_still(*old(zk_tr), *final(zk_tr)), *final(zk_tr) == (ProverTracker { zero_check_claims: final(zk_tr).zero_check_claims, ..*old(zk_tr) }),
        final(zk_tr).zero_check_claims@ == old(zk_tr).zero_check_claims@.push(TrackerZerocheckClaim { label: poly_id }),
//@@ entry
    let ghost a = *zk_tr;
//@@ tail
    proof { pt_frame(a, *zk_tr); pt_frame_kept(a, *zk_tr); }
//@end
pub proof fn pt_frame_kept(a: ProverTracker, b: ProverTracker)
    requires a.materialized_polys == b.materialized_polys, a.virtual_polys == b.virtual_polys, a.id_counter == b.id_counter, a.cached_evaluations == b.cached_evaluations
    ensures pt_kept(a, b)
{ pt_frame(a, b); }
//@struct src/tracker/bag.rs::Bag
impl ZkClone for Bag { fn zk_clone(&self) -> (r: Bag) { Bag { poly: self.poly.zk_clone(), selector: self.selector.zk_clone() } } }
/// values and selector of one size, in one tracker
pub open spec fn bagp(p: ProverTracker, b: Bag, who: u64) -> bool { hp(p, b.poly) && hp(p, b.selector) && b.poly.num_vars == b.selector.num_vars && b.poly.tracker.who == who && b.selector.tracker.who == who }
//@fn src/tracker/bag.rs::Bag::new
//@@ requires
        poly.num_vars == selector.num_vars, poly.tracker.who == selector.tracker.who,
//@@ ensures
        ret == (Bag { poly, selector }),
//@end
//@fn src/tracker/bag.rs::Bag::num_vars
//@@ ensures
        ret == self.poly.num_vars,
//@end
//@fn src/tracker/bag.rs::Bag::tracker_ref
//@@ ensures
        ret.tracker_rc == self.poly.tracker,
//@end
//@struct src/tracker/bag.rs::Table
impl ZkClone for Table { fn zk_clone(&self) -> (r: Table) { Table { col_vals: self.col_vals.zk_clone(), selector: self.selector.zk_clone() } } }
pub open spec fn tablep(p: ProverTracker, b: Table, who: u64) -> bool { hp(p, b.selector) && b.selector.tracker.who == who && forall|i: int| 0 <= i < b.col_vals@.len() ==> hp(p, #[trigger] b.col_vals@[i]) && b.col_vals@[i].num_vars == b.selector.num_vars && b.col_vals@[i].tracker.who == who }
//@fn src/tracker/bag.rs::Table::new
//@@ requires
        forall|i: int| 0 <= i < col_vals@.len() ==> (#[trigger] col_vals@[i]).num_vars == selector.num_vars && col_vals@[i].tracker.who == selector.tracker.who,
//@@ ensures
        ret == (Table { col_vals, selector }),
//@end
//@fn src/tracker/bag.rs::Table::num_vars
//@@ ensures
        ret == self.selector.num_vars,
//@end
//@fn src/tracker/bag.rs::Table::tracker_ref
//@@ ensures
        ret.tracker_rc == self.selector.tracker,
//@end
