// ---- verifier tracker: src/tracker/verifier_tracker.rs ----
//@include tid.inc
//@include cells.inc
//@include iop.inc
//@include cproof.inc
/// the boxed evaluation closures of the crate, one constructor per closure expression, holding what it captures
pub enum VFn { Mat(TrackerID), Add(TrackerID, TrackerID), Sub(TrackerID, TrackerID), Mul(TrackerID, TrackerID), AddC(TrackerID, F), MulC(TrackerID, F), Front(TrackerID, usize), Back(TrackerID, usize), Zero, One, EqR(Vec<F>), Ordered, Table(DenseMultilinearExtension) }
impl ZkClone for VFn { #[verifier::external_body] fn zk_clone(&self) -> (r: VFn) { unimplemented!() } }
//@struct src/tracker/verifier_tracker.rs::VerifierTracker
pub type VM = Map<TrackerID, VFn>;
pub open spec fn tmax(a: TrackerID, b: TrackerID) -> nat { (if a.0 > b.0 { a.0 } else { b.0 }) as nat }
/// handles a closure refers to are below this
pub open spec fn vrank(f: VFn) -> nat { match f { VFn::Add(a, b) => tmax(a, b) + 1, VFn::Sub(a, b) => tmax(a, b) + 1, VFn::Mul(a, b) => tmax(a, b) + 1, VFn::AddC(a, c) => a.0 as nat + 1, VFn::MulC(a, c) => a.0 as nat + 1, VFn::Front(a, k) => a.0 as nat + 1, VFn::Back(a, k) => a.0 as nat + 1, _ => 0nat } }
pub open spec fn vclosed(m: VM, f: VFn) -> bool { match f { VFn::Add(a, b) => m.contains_key(a) && m.contains_key(b), VFn::Sub(a, b) => m.contains_key(a) && m.contains_key(b), VFn::Mul(a, b) => m.contains_key(a) && m.contains_key(b), VFn::AddC(a, c) => m.contains_key(a), VFn::MulC(a, c) => m.contains_key(a), VFn::Front(a, k) => m.contains_key(a), VFn::Back(a, k) => m.contains_key(a), VFn::Table(d) => dwf(d), _ => true } }
/// value of a closure at a point, for the query answers q
pub open spec fn fval(m: VM, q: QM, f: VFn, pt: Seq<F>) -> F decreases vrank(f), 1int {
    let n = vrank(f);
    match f {
        VFn::Mat(id) => q[(id, pt)],
        VFn::Add(a, b) => fadd(cval(m, q, a, pt, n), cval(m, q, b, pt, n)),
        VFn::Sub(a, b) => fsub(cval(m, q, a, pt, n), cval(m, q, b, pt, n)),
        VFn::Mul(a, b) => fmul(cval(m, q, a, pt, n), cval(m, q, b, pt, n)),
        VFn::AddC(a, c) => fadd(cval(m, q, a, pt, n), c),
        VFn::MulC(a, c) => fmul(c, cval(m, q, a, pt, n)),
        VFn::Front(a, k) => cval(m, q, a, pt.subrange(k as int, pt.len() as int), n),
        VFn::Back(a, k) => cval(m, q, a, pt.subrange(0, pt.len() - k), n),
        VFn::Zero => f0(), VFn::One => f1(), VFn::EqR(r) => eqpt(pt, r@), VFn::Ordered => weigh(pt), VFn::Table(d) => mlev(d.evaluations@, pt),
    }
}
pub open spec fn cval(m: VM, q: QM, id: TrackerID, pt: Seq<F>, n: nat) -> F decreases n, 0int { if m.contains_key(id) && vrank(m[id]) < n { fval(m, q, m[id], pt) } else { f0() } }
/// sum of 2^i x_i
pub open spec fn wterm(x: Seq<F>) -> spec_fn(int) -> F { |i: int| fmul(x[i], fk(p2(i))) }
pub open spec fn weigh(x: Seq<F>) -> F { fsum(x.len() as int, wterm(x)) }
/// the closure can be evaluated: every query it makes has an answer, every point it passes on has the right length
pub open spec fn fdef(m: VM, q: QM, f: VFn, pt: Seq<F>) -> bool decreases vrank(f), 1int {
    let n = vrank(f);
    match f {
        VFn::Mat(id) => q.contains_key((id, pt)),
        VFn::Add(a, b) => cdef(m, q, a, pt, n) && cdef(m, q, b, pt, n),
        VFn::Sub(a, b) => cdef(m, q, a, pt, n) && cdef(m, q, b, pt, n),
        VFn::Mul(a, b) => cdef(m, q, a, pt, n) && cdef(m, q, b, pt, n),
        VFn::AddC(a, c) => cdef(m, q, a, pt, n),
        VFn::MulC(a, c) => cdef(m, q, a, pt, n),
        VFn::Front(a, k) => k <= pt.len() && cdef(m, q, a, pt.subrange(k as int, pt.len() as int), n),
        VFn::Back(a, k) => k <= pt.len() && cdef(m, q, a, pt.subrange(0, pt.len() - k), n),
        VFn::EqR(r) => r@.len() == pt.len(), VFn::Ordered => pt.len() <= 63, VFn::Table(d) => d.num_vars == pt.len(),
        _ => true,
    }
}
pub open spec fn cdef(m: VM, q: QM, id: TrackerID, pt: Seq<F>, n: nat) -> bool decreases n, 0int { m.contains_key(id) && vrank(m[id]) < n && fdef(m, q, m[id], pt) }
#[verifier::inline] pub open spec fn vt_has(v: VerifierTracker, id: TrackerID) -> bool { v.virtual_comms@.contains_key(id) }
pub open spec fn mval(m: VM, id: TrackerID, q: QM, pt: Seq<F>) -> F { fval(m, q, m[id], pt) }
pub open spec fn mdef(m: VM, id: TrackerID, q: QM, pt: Seq<F>) -> bool { fdef(m, q, m[id], pt) }
/// what a handle evaluates to
#[verifier::inline] pub open spec fn vt_val(v: VerifierTracker, id: TrackerID, q: QM, pt: Seq<F>) -> F { mval(v.virtual_comms@, id, q, pt) }
#[verifier::inline] pub open spec fn vt_def(v: VerifierTracker, id: TrackerID, q: QM, pt: Seq<F>) -> bool { mdef(v.virtual_comms@, id, q, pt) }
pub open spec fn vm_wf(m: VM, n: int) -> bool { forall|id: TrackerID| #[trigger] m.contains_key(id) ==> id.0 < n && vrank(m[id]) <= id.0 && vclosed(m, m[id]) }
pub open spec fn vt_wf(v: VerifierTracker) -> bool { vm_wf(v.virtual_comms@, v.id_counter as int) }
pub open spec fn vt_room(v: VerifierTracker) -> bool { v.id_counter < 0x7fff_ffff_ffff_ffff }
/// earlier handles keep their meaning
pub open spec fn vt_kept(a: VerifierTracker, b: VerifierTracker) -> bool {
    &&& sub_map(a.virtual_comms@, b.virtual_comms@) && a.id_counter <= b.id_counter
    &&& forall|id: TrackerID| vt_has(a, id) ==> #[trigger] vt_has(b, id)
    &&& forall|id: TrackerID, q: QM, pt: Seq<F>| vt_has(a, id) ==> #[trigger] vt_val(b, id, q, pt) == vt_val(a, id, q, pt)
    &&& forall|id: TrackerID, q: QM, pt: Seq<F>| vt_has(a, id) ==> #[trigger] vt_def(b, id, q, pt) == vt_def(a, id, q, pt)
}
pub open spec fn vt_same_log(a: VerifierTracker, b: VerifierTracker) -> bool { b == (VerifierTracker { id_counter: b.id_counter, virtual_comms: b.virtual_comms, ..a }) }
/// n handles were issued, the last of them id; nothing but the table of closures changed
pub open spec fn vt_new(a: VerifierTracker, b: VerifierTracker, id: TrackerID, n: int) -> bool { vt_wf(b) && vt_kept(a, b) && vt_same_log(a, b) && id.0 == a.id_counter + n - 1 && b.id_counter == a.id_counter + n && vt_has(b, id) && !vt_has(a, id) }
pub proof fn fval_ext(m: VM, k: VM, n: int, q: QM, f: VFn, pt: Seq<F>) requires sub_map(m, k), vm_wf(m, n), vclosed(m, f) ensures fval(k, q, f, pt) == fval(m, q, f, pt), fdef(k, q, f, pt) == fdef(m, q, f, pt) decreases vrank(f), 1int {
    let r = vrank(f);
    match f {
        VFn::Add(a, b) => { cval_ext(m, k, n, q, a, pt, r); cval_ext(m, k, n, q, b, pt, r); }
        VFn::Sub(a, b) => { cval_ext(m, k, n, q, a, pt, r); cval_ext(m, k, n, q, b, pt, r); }
        VFn::Mul(a, b) => { cval_ext(m, k, n, q, a, pt, r); cval_ext(m, k, n, q, b, pt, r); }
        VFn::AddC(a, c) => { cval_ext(m, k, n, q, a, pt, r); }
        VFn::MulC(a, c) => { cval_ext(m, k, n, q, a, pt, r); }
        VFn::Front(a, l) => { cval_ext(m, k, n, q, a, pt.subrange(l as int, pt.len() as int), r); }
        VFn::Back(a, l) => { cval_ext(m, k, n, q, a, pt.subrange(0, pt.len() - l), r); }
        _ => {}
    }
}
pub proof fn cval_ext(m: VM, k: VM, n: int, q: QM, id: TrackerID, pt: Seq<F>, r: nat) requires sub_map(m, k), vm_wf(m, n), m.contains_key(id) ensures cval(k, q, id, pt, r) == cval(m, q, id, pt, r), cdef(k, q, id, pt, r) == cdef(m, q, id, pt, r) decreases r, 0int {
    if vrank(m[id]) < r { fval_ext(m, k, n, q, m[id], pt); }
}
/// a closure stored under a fresh handle
pub proof fn vt_put(a: VerifierTracker, b: VerifierTracker, id: TrackerID, n: int)
    requires vt_wf(a), vt_same_log(a, b), id.0 == a.id_counter + n - 1, n >= 1, b.id_counter == a.id_counter + n, b.virtual_comms@ == a.virtual_comms@.insert(id, b.virtual_comms@[id]), vclosed(a.virtual_comms@, b.virtual_comms@[id]), vrank(b.virtual_comms@[id]) <= id.0
    ensures vt_new(a, b, id, n)
{
    let m = a.virtual_comms@; let k = b.virtual_comms@; let w = a.id_counter as int;
    assert(!m.contains_key(id)); assert(sub_map(m, k));
    assert forall|i: TrackerID| vt_has(a, i) implies #[trigger] vt_has(b, i) by { assert(m.contains_key(i)); }
    assert forall|i: TrackerID, q: QM, pt: Seq<F>| vt_has(a, i) implies #[trigger] vt_val(b, i, q, pt) == vt_val(a, i, q, pt) by { assert(m.contains_key(i)); fval_ext(m, k, w, q, m[i], pt); }
    assert forall|i: TrackerID, q: QM, pt: Seq<F>| vt_has(a, i) implies #[trigger] vt_def(b, i, q, pt) == vt_def(a, i, q, pt) by { assert(m.contains_key(i)); fval_ext(m, k, w, q, m[i], pt); }
    assert forall|i: TrackerID| #[trigger] k.contains_key(i) implies i.0 < b.id_counter && vrank(k[i]) <= i.0 && vclosed(k, k[i]) by { if i != id { assert(m.contains_key(i)); assert(vclosed(m, m[i])); } }
}
/// value of a stored closure in terms of the values of the handles it refers to
pub proof fn vt_unfold(v: VerifierTracker, id: TrackerID, q: QM, pt: Seq<F>) requires vt_wf(v), vt_has(v, id)
    ensures match v.virtual_comms@[id] {
        VFn::Add(a, b) => vt_val(v, id, q, pt) == fadd(vt_val(v, a, q, pt), vt_val(v, b, q, pt)) && vt_def(v, id, q, pt) == (vt_def(v, a, q, pt) && vt_def(v, b, q, pt)),
        VFn::Sub(a, b) => vt_val(v, id, q, pt) == fsub(vt_val(v, a, q, pt), vt_val(v, b, q, pt)) && vt_def(v, id, q, pt) == (vt_def(v, a, q, pt) && vt_def(v, b, q, pt)),
        VFn::Mul(a, b) => vt_val(v, id, q, pt) == fmul(vt_val(v, a, q, pt), vt_val(v, b, q, pt)) && vt_def(v, id, q, pt) == (vt_def(v, a, q, pt) && vt_def(v, b, q, pt)),
        VFn::AddC(a, c) => vt_val(v, id, q, pt) == fadd(vt_val(v, a, q, pt), c) && vt_def(v, id, q, pt) == vt_def(v, a, q, pt),
        VFn::MulC(a, c) => vt_val(v, id, q, pt) == fmul(c, vt_val(v, a, q, pt)) && vt_def(v, id, q, pt) == vt_def(v, a, q, pt),
        VFn::Front(a, k) => vt_val(v, id, q, pt) == vt_val(v, a, q, pt.subrange(k as int, pt.len() as int)) && vt_def(v, id, q, pt) == (k <= pt.len() && vt_def(v, a, q, pt.subrange(k as int, pt.len() as int))),
        VFn::Back(a, k) => vt_val(v, id, q, pt) == vt_val(v, a, q, pt.subrange(0, pt.len() - k)) && vt_def(v, id, q, pt) == (k <= pt.len() && vt_def(v, a, q, pt.subrange(0, pt.len() - k))),
        _ => true,
    }
{ reveal_with_fuel(fval, 3); reveal_with_fuel(fdef, 3); reveal_with_fuel(cval, 2); reveal_with_fuel(cdef, 2); let m = v.virtual_comms@; assert(m.contains_key(id)); 
    match m[id] { VFn::Add(a, b) => { assert(m.contains_key(a) && m.contains_key(b)); } VFn::Sub(a, b) => { assert(m.contains_key(a) && m.contains_key(b)); } VFn::Mul(a, b) => { assert(m.contains_key(a) && m.contains_key(b)); } VFn::AddC(a, c) => { assert(m.contains_key(a)); } VFn::MulC(a, c) => { assert(m.contains_key(a)); } VFn::Front(a, c) => { assert(m.contains_key(a)); } VFn::Back(a, c) => { assert(m.contains_key(a)); } _ => {} } }
// -- the bodies of the closures --
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::track_mat_comm | n=0 as=zk_c_mat args=zid:TrackerID
//@@ requires
        fdef(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Mat(zid), zk_point@),
//@@ ensures
        ret.is_ok(), ret.unwrap() == fval(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Mat(zid), zk_point@),
//@end
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::add_comms | n=0 as=zk_c_add args=za:TrackerID;zb:TrackerID
//@@ requires
        vt_wf(*zk_vt), fdef(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Add(za, zb), zk_point@), zk_vt.virtual_comms@.contains_key(za), zk_vt.virtual_comms@.contains_key(zb),
//@@ ensures
        ret.is_ok(), ret.unwrap() == fval(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Add(za, zb), zk_point@),
//@@ decreases
        vrank(VFn::Add(za, zb)), 0int,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    broadcast use fadd_comm, fmul_comm;
//@end
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::sub_comms | n=0 as=zk_c_sub args=za:TrackerID;zb:TrackerID
//@@ requires
        vt_wf(*zk_vt), fdef(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Sub(za, zb), zk_point@), zk_vt.virtual_comms@.contains_key(za), zk_vt.virtual_comms@.contains_key(zb),
//@@ ensures
        ret.is_ok(), ret.unwrap() == fval(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Sub(za, zb), zk_point@),
//@@ decreases
        vrank(VFn::Sub(za, zb)), 0int,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    broadcast use fadd_comm, fmul_comm;
//@end
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::mul_comms | n=0 as=zk_c_mul args=za:TrackerID;zb:TrackerID
//@@ requires
        vt_wf(*zk_vt), fdef(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Mul(za, zb), zk_point@), zk_vt.virtual_comms@.contains_key(za), zk_vt.virtual_comms@.contains_key(zb),
//@@ ensures
        ret.is_ok(), ret.unwrap() == fval(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Mul(za, zb), zk_point@),
//@@ decreases
        vrank(VFn::Mul(za, zb)), 0int,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    broadcast use fadd_comm, fmul_comm;
//@end
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::add_scalar | n=0 as=zk_c_addc args=za:TrackerID;zb:F
//@@ requires
        vt_wf(*zk_vt), fdef(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::AddC(za, zb), zk_point@), zk_vt.virtual_comms@.contains_key(za),
//@@ ensures
        ret.is_ok(), ret.unwrap() == fval(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::AddC(za, zb), zk_point@),
//@@ decreases
        vrank(VFn::AddC(za, zb)), 0int,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    broadcast use fadd_comm, fmul_comm;
//@end
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::mul_scalar | n=0 as=zk_c_mulc args=za:TrackerID;zb:F
//@@ requires
        vt_wf(*zk_vt), fdef(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::MulC(za, zb), zk_point@), zk_vt.virtual_comms@.contains_key(za),
//@@ ensures
        ret.is_ok(), ret.unwrap() == fval(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::MulC(za, zb), zk_point@),
//@@ decreases
        vrank(VFn::MulC(za, zb)), 0int,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    broadcast use fadd_comm, fmul_comm;
//@end
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::increase_nv_front | n=0 as=zk_c_front args=za:TrackerID;zb:usize
//@@ requires
        vt_wf(*zk_vt), fdef(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Front(za, zb), zk_point@), zk_vt.virtual_comms@.contains_key(za),
//@@ ensures
        ret.is_ok(), ret.unwrap() == fval(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Front(za, zb), zk_point@),
//@@ decreases
        vrank(VFn::Front(za, zb)), 0int,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    broadcast use fadd_comm, fmul_comm;
//@end
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::increase_nv_back | n=0 as=zk_c_back args=za:TrackerID;zb:usize
//@@ requires
        vt_wf(*zk_vt), fdef(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Back(za, zb), zk_point@), zk_vt.virtual_comms@.contains_key(za),
//@@ ensures
        ret.is_ok(), ret.unwrap() == fval(zk_vt.virtual_comms@, zk_vt.query_map@, VFn::Back(za, zb), zk_point@),
//@@ decreases
        vrank(VFn::Back(za, zb)), 0int,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    broadcast use fadd_comm, fmul_comm;
//@end
impl VFn {
    /// calling the box
    pub fn zk_call(&self, zk_point: &[F], zk_vt: &VerifierTracker) -> (ret: Result<F, PolyIOPErrors>)
        requires vt_wf(*zk_vt), vclosed(zk_vt.virtual_comms@, *self), fdef(zk_vt.virtual_comms@, zk_vt.query_map@, *self, zk_point@)
        ensures ret.is_ok(), ret.unwrap() == fval(zk_vt.virtual_comms@, zk_vt.query_map@, *self, zk_point@)
        decreases vrank(*self), 1int
    {
        match self {
            VFn::Mat(id) => zk_c_mat(*id, zk_point, zk_vt),
            VFn::Add(a, b) => zk_c_add(*a, *b, zk_point, zk_vt), VFn::Sub(a, b) => zk_c_sub(*a, *b, zk_point, zk_vt), VFn::Mul(a, b) => zk_c_mul(*a, *b, zk_point, zk_vt),
            VFn::AddC(a, c) => zk_c_addc(*a, *c, zk_point, zk_vt), VFn::MulC(a, c) => zk_c_mulc(*a, *c, zk_point, zk_vt), VFn::Front(a, k) => zk_c_front(*a, *k, zk_point, zk_vt), VFn::Back(a, k) => zk_c_back(*a, *k, zk_point, zk_vt),
            VFn::Zero => zk_c_zero(zk_point, zk_vt), VFn::One => zk_c_one(zk_point, zk_vt), VFn::EqR(r) => zk_c_eqr(r, zk_point, zk_vt), VFn::Ordered => zk_c_ordered(zk_point, zk_vt), VFn::Table(d) => zk_c_table(d, zk_point, zk_vt),
        }
    }
}
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::convert_zerocheck_claims_to_sumcheck_claim | n=0 as=zk_c_zero
//@@ ensures
        ret.is_ok(), ret.unwrap() == f0(),
//@end
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::verify_claims | n=0 as=zk_c_zero2
//@@ ensures
        ret.is_ok(), ret.unwrap() == f0(),
//@end
//@closure src/zksql_poly_iop/bag_sum/bag_sum.rs::BagSumIOP::verify | n=0 as=zk_c_one
//@@ ensures
        ret.is_ok(), ret.unwrap() == f1(),
//@end
//@closure src/zksql_poly_iop/bag_eq/bag_eq.rs::BagEqIOP::verify | n=0 as=zk_c_one2
//@@ ensures
        ret.is_ok(), ret.unwrap() == f1(),
//@end
//@closure src/zksql_poly_iop/bag_inclusion/bag_inclusion.rs::BagInclusionIOP::verify_with_advice | n=0 as=zk_c_one3
//@@ ensures
        ret.is_ok(), ret.unwrap() == f1(),
//@end
//@closure src/zksql_poly_iop/bag_presc_perm/bag_presc_perm.rs::BagPrescPermIOP::verify | n=0 as=zk_c_one4
//@@ ensures
        ret.is_ok(), ret.unwrap() == f1(),
//@end
//@closure src/zksql_poly_iop/bag_sort/bag_sort.rs::BagStrictSortIOP::verify | n=2 as=zk_c_one5
//@@ ensures
        ret.is_ok(), ret.unwrap() == f1(),
//@end
//@closure src/tracker/verifier_tracker.rs::VerifierTracker::convert_zerocheck_claims_to_sumcheck_claim | n=1 as=zk_c_eqr args=zr:&Vec<F>
//@@ requires
        zr@.len() == zk_point@.len(),
//@@ ensures
        ret.is_ok(), ret.unwrap() == eqpt(zk_point@, zr@),
//@end
//@closure src/zksql_poly_iop/bag_presc_perm/bag_presc_perm.rs::BagPrescPermIOP::verify | n=1 as=zk_c_ordered
//@@ requires
        zk_point@.len() <= 63,
//@@ ensures
        ret.is_ok(), ret.unwrap() == weigh(zk_point@),
//@@ entry
    broadcast use funits, fmul_comm, fadd_comm;
//@@ inv 0
            zk_n0 == zk_point@.len(), pt@ == zk_point@, res == fsum(zk_i0 as int, wterm(zk_point@)),
//@@ start 0
        proof { ipow_p2(zk_i0 as int); p2_mono(zk_i0 as int, 63); p2_pos(zk_i0 as int); p2_64(); assert(fsum(zk_i0 + 1, wterm(zk_point@)) == fadd(fsum(zk_i0 as int, wterm(zk_point@)), wterm(zk_point@)(zk_i0 as int))); }
//@end
//@closure src/zksql_poly_iop/bag_sort/bag_sort.rs::BagStrictSortIOP::verify | n=0 as=zk_c_table args=zd:&DenseMultilinearExtension
//@@ requires
        dwf(*zd), zd.num_vars == zk_point@.len(),
//@@ ensures
        ret.is_ok(), ret.unwrap() == mlev(zd.evaluations@, zk_point@),
//@end
//@closure src/zksql_poly_iop/bag_sort/bag_sort.rs::BagStrictSortIOP::verify | n=1 as=zk_c_table2 args=zd:&DenseMultilinearExtension
//@@ requires
        dwf(*zd), zd.num_vars == zk_point@.len(),
//@@ ensures
        ret.is_ok(), ret.unwrap() == mlev(zd.evaluations@, zk_point@),
//@end
// -- the operations --
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::new | cells
//@@ ensures
        vt_wf(ret), ret.id_counter == 0, ret.virtual_comms@ == Map::<TrackerID, VFn>::empty(), ret.query_map@ == Map::<(TrackerID, Seq<F>), F>::empty(), ret.materialized_comms@ == Map::<TrackerID, Commitment>::empty(), ret.sum_check_claims@.len() == 0, ret.zero_check_claims@.len() == 0, ret.transcript.is_empty, ret.pcs_params == pcs_params, ret.proof.comms@ == Map::<TrackerID, Commitment>::empty(),
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::gen_id
//@@ requires
        old(self).id_counter < usize::MAX,
//@@ ensures
        ret == TrackerID(old(self).id_counter), *final(self) == (VerifierTracker { id_counter: (old(self).id_counter + 1) as usize, ..*old(self) }),
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::get_next_id
//@@ ensures
        ret == TrackerID(old(self).id_counter), *final(self) == *old(self),
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::track_mat_comm | vclos=Mat
//@@ requires
        vt_wf(*old(self)), vt_room(*old(self)),
//@@ ensures
        ret.is_ok(), ({ let id = ret.unwrap(); let f = *final(self);
            &&& vt_wf(f) && vt_kept(*old(self), f) && id.0 == old(self).id_counter && f.id_counter == old(self).id_counter + 1 && vt_has(f, id) && !vt_has(*old(self), id)
            &&& f == (VerifierTracker { id_counter: f.id_counter, virtual_comms: f.virtual_comms, materialized_comms: f.materialized_comms, transcript: f.transcript, ..*old(self) })
            // the commitment is recorded under the handle and absorbed
            &&& f.materialized_comms@ == old(self).materialized_comms@.insert(id, comm) && !f.transcript.is_empty && ilog(f.transcript) == ilog(old(self).transcript).push(TEv::Msg("comm"@, ser_comm(comm)))
            // it evaluates to the queried value
            &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_val(f, id, q, pt) == q[(id, pt)]
            &&& forall|q: QM, pt: Seq<F>| #[trigger] vt_def(f, id, q, pt) == q.contains_key((id, pt)) }),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ pretail
    proof { let b = VerifierTracker { id_counter: self.id_counter, virtual_comms: self.virtual_comms, ..a }; vt_put(a, b, id, 1); let f = *self;
        assert forall|i: TrackerID| vt_has(a, i) implies #[trigger] vt_has(f, i) by { assert(vt_has(b, i)); }
        assert forall|i: TrackerID, q: QM, pt: Seq<F>| vt_has(a, i) implies #[trigger] vt_val(f, i, q, pt) == vt_val(a, i, q, pt) by { assert(vt_val(b, i, q, pt) == vt_val(f, i, q, pt)); }
        assert forall|i: TrackerID, q: QM, pt: Seq<F>| vt_has(a, i) implies #[trigger] vt_def(f, i, q, pt) == vt_def(a, i, q, pt) by { assert(vt_def(b, i, q, pt) == vt_def(f, i, q, pt)); } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::track_virtual_comm | cells
//@@ requires
        vt_wf(*old(self)), vt_room(*old(self)), vclosed(old(self).virtual_comms@, eval_fn), vrank(eval_fn) <= old(self).id_counter,
//@@ ensures
        vt_new(*old(self), *final(self), ret, 1), forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(self), ret, q, pt) == fval(old(self).virtual_comms@, q, eval_fn, pt), forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(self), ret, q, pt) == fdef(old(self).virtual_comms@, q, eval_fn, pt),
        final(self).virtual_comms@[ret] == eval_fn,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ tail
    proof { vt_put(a, *self, zk_ret, 1); let m = a.virtual_comms@; let k = self.virtual_comms@; 
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zk_ret, q, pt) == fval(m, q, eval_fn, pt) by { fval_ext(m, k, a.id_counter as int, q, eval_fn, pt); }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*self, zk_ret, q, pt) == fdef(m, q, eval_fn, pt) by { fval_ext(m, k, a.id_counter as int, q, eval_fn, pt); } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::set_compiled_proof
//@@ ensures
        *final(self) == (VerifierTracker { proof, ..*old(self) }),
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::get_mat_comm
//@@ ensures
        ret.is_some() == self.materialized_comms@.contains_key(id), ret.is_some() ==> *ret.unwrap() == self.materialized_comms@[id],
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::add_comms | vclos=Add
//@@ requires
        vt_wf(*old(self)), vt_room(*old(self)), vt_has(*old(self), c1_id), vt_has(*old(self), c2_id),
//@@ ensures
        vt_new(*old(self), *final(self), ret, 1),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(self), ret, q, pt) == fadd(vt_val(*old(self), c1_id, q, pt), vt_val(*old(self), c2_id, q, pt)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(self), ret, q, pt) == (vt_def(*old(self), c1_id, q, pt) && vt_def(*old(self), c2_id, q, pt)),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ tail
    proof { assert(a.virtual_comms@.contains_key(c1_id)); assert(a.virtual_comms@.contains_key(c2_id)); vt_put(a, *self, zk_ret, 1); 
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zk_ret, q, pt) == fadd(vt_val(a, c1_id, q, pt), vt_val(a, c2_id, q, pt)) by { vt_unfold(*self, zk_ret, q, pt); }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*self, zk_ret, q, pt) == (vt_def(a, c1_id, q, pt) && vt_def(a, c2_id, q, pt)) by { vt_unfold(*self, zk_ret, q, pt); } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::sub_comms | vclos=Sub
//@@ requires
        vt_wf(*old(self)), vt_room(*old(self)), vt_has(*old(self), c1_id), vt_has(*old(self), c2_id),
//@@ ensures
        vt_new(*old(self), *final(self), ret, 1),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(self), ret, q, pt) == fsub(vt_val(*old(self), c1_id, q, pt), vt_val(*old(self), c2_id, q, pt)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(self), ret, q, pt) == (vt_def(*old(self), c1_id, q, pt) && vt_def(*old(self), c2_id, q, pt)),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ tail
    proof { assert(a.virtual_comms@.contains_key(c1_id)); assert(a.virtual_comms@.contains_key(c2_id)); vt_put(a, *self, zk_ret, 1); 
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zk_ret, q, pt) == fsub(vt_val(a, c1_id, q, pt), vt_val(a, c2_id, q, pt)) by { vt_unfold(*self, zk_ret, q, pt); }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*self, zk_ret, q, pt) == (vt_def(a, c1_id, q, pt) && vt_def(a, c2_id, q, pt)) by { vt_unfold(*self, zk_ret, q, pt); } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::mul_comms | vclos=Mul
//@@ requires
        vt_wf(*old(self)), vt_room(*old(self)), vt_has(*old(self), c1_id), vt_has(*old(self), c2_id),
//@@ ensures
        vt_new(*old(self), *final(self), ret, 1),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(self), ret, q, pt) == fmul(vt_val(*old(self), c1_id, q, pt), vt_val(*old(self), c2_id, q, pt)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(self), ret, q, pt) == (vt_def(*old(self), c1_id, q, pt) && vt_def(*old(self), c2_id, q, pt)),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ tail
    proof { assert(a.virtual_comms@.contains_key(c1_id)); assert(a.virtual_comms@.contains_key(c2_id)); vt_put(a, *self, zk_ret, 1); 
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zk_ret, q, pt) == fmul(vt_val(a, c1_id, q, pt), vt_val(a, c2_id, q, pt)) by { vt_unfold(*self, zk_ret, q, pt); }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*self, zk_ret, q, pt) == (vt_def(a, c1_id, q, pt) && vt_def(a, c2_id, q, pt)) by { vt_unfold(*self, zk_ret, q, pt); } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::add_scalar | vclos=AddC
//@@ requires
        vt_wf(*old(self)), vt_room(*old(self)), vt_has(*old(self), poly_id),
//@@ ensures
        vt_new(*old(self), *final(self), ret, 2),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(self), ret, q, pt) == fadd(vt_val(*old(self), poly_id, q, pt), c),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(self), ret, q, pt) == (vt_def(*old(self), poly_id, q, pt)),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ tail
    proof { assert(a.virtual_comms@.contains_key(poly_id));  vt_put(a, *self, zk_ret, 2); 
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zk_ret, q, pt) == fadd(vt_val(a, poly_id, q, pt), c) by { vt_unfold(*self, zk_ret, q, pt); }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*self, zk_ret, q, pt) == (vt_def(a, poly_id, q, pt)) by { vt_unfold(*self, zk_ret, q, pt); } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::mul_scalar | vclos=MulC
//@@ requires
        vt_wf(*old(self)), vt_room(*old(self)), vt_has(*old(self), poly_id),
//@@ ensures
        vt_new(*old(self), *final(self), ret, 1),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(self), ret, q, pt) == fmul(c, vt_val(*old(self), poly_id, q, pt)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(self), ret, q, pt) == (vt_def(*old(self), poly_id, q, pt)),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ tail
    proof { assert(a.virtual_comms@.contains_key(poly_id));  vt_put(a, *self, zk_ret, 1); 
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zk_ret, q, pt) == fmul(c, vt_val(a, poly_id, q, pt)) by { vt_unfold(*self, zk_ret, q, pt); }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*self, zk_ret, q, pt) == (vt_def(a, poly_id, q, pt)) by { vt_unfold(*self, zk_ret, q, pt); } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::increase_nv_front | vclos=Front
//@@ requires
        vt_wf(*old(self)), vt_room(*old(self)), vt_has(*old(self), poly_id),
//@@ ensures
        vt_new(*old(self), *final(self), ret, 1),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(self), ret, q, pt) == vt_val(*old(self), poly_id, q, pt.subrange(added_nv as int, pt.len() as int)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(self), ret, q, pt) == (added_nv <= pt.len() && vt_def(*old(self), poly_id, q, pt.subrange(added_nv as int, pt.len() as int))),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self; proof { assert(a.virtual_comms@.contains_key(poly_id)); }
//@@ tail
    proof {
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zk_ret, q, pt) == vt_val(a, poly_id, q, pt.subrange(added_nv as int, pt.len() as int)) by { vt_unfold(*self, zk_ret, q, pt); }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*self, zk_ret, q, pt) == (added_nv <= pt.len() && vt_def(a, poly_id, q, pt.subrange(added_nv as int, pt.len() as int))) by { vt_unfold(*self, zk_ret, q, pt); } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::increase_nv_back | vclos=Back
//@@ requires
        vt_wf(*old(self)), vt_room(*old(self)), vt_has(*old(self), poly_id),
//@@ ensures
        vt_new(*old(self), *final(self), ret, 1),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*final(self), ret, q, pt) == vt_val(*old(self), poly_id, q, pt.subrange(0, pt.len() - added_nv)),
        forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*final(self), ret, q, pt) == (added_nv <= pt.len() && vt_def(*old(self), poly_id, q, pt.subrange(0, pt.len() - added_nv))),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self; proof { assert(a.virtual_comms@.contains_key(poly_id)); }
//@@ tail
    proof {
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_val(*self, zk_ret, q, pt) == vt_val(a, poly_id, q, pt.subrange(0, pt.len() - added_nv)) by { vt_unfold(*self, zk_ret, q, pt); }
        assert forall|q: QM, pt: Seq<F>| #[trigger] vt_def(*self, zk_ret, q, pt) == (added_nv <= pt.len() && vt_def(a, poly_id, q, pt.subrange(0, pt.len() - added_nv))) by { vt_unfold(*self, zk_ret, q, pt); } }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::eval_virtual_comm | cells
//@@ requires
        vt_wf(*self), vt_has(*self, comm_id), vt_def(*self, comm_id, self.query_map@, point@),
//@@ ensures
        ret.is_ok(), ret.unwrap() == vt_val(*self, comm_id, self.query_map@, point@),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    proof { assert(self.virtual_comms@.contains_key(comm_id)); }
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::get_and_append_challenge
//@@ ensures
        *final(self) == (VerifierTracker { transcript: final(self).transcript, ..*old(self) }), final(self).transcript.is_empty == old(self).transcript.is_empty,
        old(self).transcript.is_empty ==> ret.is_err() && *final(self) == *old(self),
        !old(self).transcript.is_empty ==> ret.is_ok() && ret.unwrap() == chal(ilog(old(self).transcript), label@) && ilog(final(self).transcript) == after_chal(ilog(old(self).transcript), label@),
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::append_serializable_element | generics=<S:ZkSer>
//@@ ensures
        ret.is_ok(), *final(self) == (VerifierTracker { transcript: final(self).transcript, ..*old(self) }), !final(self).transcript.is_empty,
        ilog(final(self).transcript) == ilog(old(self).transcript).push(TEv::Msg(label@, group_elem.zk_ser())),
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::add_sumcheck_claim
//@@ ensures
        final(self).sum_check_claims@ == old(self).sum_check_claims@.push(TrackerSumcheckClaim { label: poly_id, claimed_sum }), *final(self) == (VerifierTracker { sum_check_claims: final(self).sum_check_claims, ..*old(self) }),
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::add_zerocheck_claim
//@@ ensures
        final(self).zero_check_claims@.len() == old(self).zero_check_claims@.len() + 1, final(self).zero_check_claims@.drop_last() == old(self).zero_check_claims@, final(self).zero_check_claims@.last().label == poly_id, *final(self) == (VerifierTracker { zero_check_claims: final(self).zero_check_claims, ..*old(self) }),
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::get_prover_comm
//@@ ensures
        ret.is_some() == self.proof.comms@.contains_key(id), ret.is_some() ==> *ret.unwrap() == self.proof.comms@[id],
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::get_prover_claimed_sum
//@@ ensures
        ret.is_some() == self.proof.sumcheck_claims@.contains_key(id), ret.is_some() ==> *ret.unwrap() == self.proof.sumcheck_claims@[id],
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
//@end
//@fn src/tracker/verifier_tracker.rs::VerifierTracker::transfer_proof_poly_evals | cells maps=self.proof.query_map
//@@ ensures
        // every value the proof supplies is now the answer to its query, other answers are untouched
        forall|k: (TrackerID, Seq<F>)| #[trigger] old(self).proof.query_map@.contains_key(k) ==> final(self).query_map@.contains_key(k) && final(self).query_map@[k] == old(self).proof.query_map@[k],
        forall|k: (TrackerID, Seq<F>)| !old(self).proof.query_map@.contains_key(k) ==> #[trigger] final(self).query_map@.contains_key(k) == old(self).query_map@.contains_key(k),
        forall|k: (TrackerID, Seq<F>)| !old(self).proof.query_map@.contains_key(k) && old(self).query_map@.contains_key(k) ==> #[trigger] final(self).query_map@[k] == old(self).query_map@[k],
        *final(self) == (VerifierTracker { query_map: final(self).query_map, ..*old(self) }),
//@@ inv 0
            *self == (VerifierTracker { query_map: self.query_map, ..*old(self) }), lists_q(old(self).proof.query_map@, zk_s0@), zk_n0 == zk_s0@.len(),
            forall|j: int| 0 <= j < zk_i0 ==> self.query_map@.contains_key(((#[trigger] zk_s0@[j]).0.0, zk_s0@[j].0.1@)) && self.query_map@[(zk_s0@[j].0.0, zk_s0@[j].0.1@)] == zk_s0@[j].1,
            forall|k: (TrackerID, Seq<F>)| !old(self).proof.query_map@.contains_key(k) ==> #[trigger] self.query_map@.contains_key(k) == old(self).query_map@.contains_key(k),
            forall|k: (TrackerID, Seq<F>)| !old(self).proof.query_map@.contains_key(k) && old(self).query_map@.contains_key(k) ==> #[trigger] self.query_map@[k] == old(self).query_map@[k],
//@end
