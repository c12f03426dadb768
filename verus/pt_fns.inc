// ---- prover tracker: src/tracker/prover_tracker.rs ----
//@include tid.inc
//@struct src/tracker/prover_tracker.rs::ProverTracker
pub type Mats = Map<TrackerID, Arc<DenseMultilinearExtension>>;
pub type Rep = Seq<(F, Vec<TrackerID>)>;
/// product of the values of the listed tables, and the weighted sum of such products
pub open spec fn term_val(m: Mats, ids: Seq<TrackerID>, t: TVal) -> F { fprod(ids.len() as int, |j: int| t(*m[ids[j]])) }
pub type ARep = Seq<(F, Seq<TrackerID>)>;
pub open spec fn arep(v: Rep) -> ARep { Seq::new(v.len(), |i: int| (v[i].0, v[i].1@)) }
pub open spec fn aval(m: Mats, a: ARep, t: TVal) -> F { fsum(a.len() as int, |i: int| fmul(a[i].0, term_val(m, a[i].1, t))) }
pub open spec fn rep_val(m: Mats, v: Rep, t: TVal) -> F { aval(m, arep(v), t) }
/// what a handle denotes, for any way t of giving a table a value
pub open spec fn pt_val(p: ProverTracker, id: TrackerID, t: TVal) -> F { if p.materialized_polys@.contains_key(id) { t(*p.materialized_polys@[id]) } else { rep_val(p.materialized_polys@, p.virtual_polys@[id]@, t) } }
pub open spec fn pt_has(p: ProverTracker, id: TrackerID) -> bool { p.materialized_polys@.contains_key(id) || p.virtual_polys@.contains_key(id) }
pub open spec fn ids_ok(m: Mats, ids: Seq<TrackerID>, nv: int) -> bool { forall|j: int| 0 <= j < ids.len() ==> m.contains_key(#[trigger] ids[j]) && m[ids[j]].num_vars == nv }
pub open spec fn arep_ok(m: Mats, a: ARep, nv: int) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1.len() > 0 && ids_ok(m, a[i].1, nv) }
pub open spec fn rep_ok(m: Mats, v: Rep, nv: int) -> bool { arep_ok(m, arep(v), nv) }
pub open spec fn rep_nv(m: Mats, v: Rep) -> int { m[v[0].1@[0]].num_vars as int }
pub open spec fn pt_nv(p: ProverTracker, id: TrackerID) -> int { if p.materialized_polys@.contains_key(id) { p.materialized_polys@[id].num_vars as int } else { rep_nv(p.materialized_polys@, p.virtual_polys@[id]@) } }
pub open spec fn mats_ok(p: ProverTracker) -> bool { forall|id: TrackerID| #[trigger] p.materialized_polys@.contains_key(id) ==> id.0 < p.id_counter && dwf(*p.materialized_polys@[id]) }
pub open spec fn virts_ok(p: ProverTracker) -> bool { forall|id: TrackerID| #[trigger] p.virtual_polys@.contains_key(id) ==> id.0 < p.id_counter && !p.materialized_polys@.contains_key(id) && p.virtual_polys@[id]@.len() > 0 && rep_ok(p.materialized_polys@, p.virtual_polys@[id]@, pt_nv(p, id)) }
/// a table holds the values of a handle on the hypercube
pub open spec fn is_table(d: DenseMultilinearExtension, p: ProverTracker, id: TrackerID) -> bool { dwf(d) && d.num_vars == pt_nv(p, id) && forall|b: int| 0 <= b < p2(d.num_vars as int) ==> #[trigger] d.evaluations@[b] == pt_val(p, id, at_bool(b)) }
pub open spec fn cache_ok(p: ProverTracker) -> bool { forall|id: TrackerID| #[trigger] p.cached_evaluations@.contains_key(id) ==> p.virtual_polys@.contains_key(id) && is_table(*p.cached_evaluations@[id], p, id) }
pub open spec fn pt_wf(p: ProverTracker) -> bool { mats_ok(p) && virts_ok(p) && cache_ok(p) }
/// nothing that existed changed: every table, every representation, the log, the claims and the commitments
pub open spec fn pt_ext(a: ProverTracker, b: ProverTracker) -> bool {
    &&& a.id_counter <= b.id_counter
    &&& sub_map(a.materialized_polys@, b.materialized_polys@) && sub_map(a.virtual_polys@, b.virtual_polys@)
    &&& forall|id: TrackerID| id.0 < a.id_counter ==> pt_has(a, id) == #[trigger] pt_has(b, id)
}
pub open spec fn pt_same_log(a: ProverTracker, b: ProverTracker) -> bool { a.transcript == b.transcript && a.sum_check_claims@ == b.sum_check_claims@ && a.zero_check_claims@ == b.zero_check_claims@ && a.materialized_comms@ == b.materialized_comms@ && a.pcs_param == b.pcs_param }
/// earlier handles keep their size and their value everywhere
pub proof fn pt_ext_val(a: ProverTracker, b: ProverTracker, id: TrackerID)
    requires pt_ext(a, b), pt_wf(a), pt_has(a, id), forall|i: TrackerID| #[trigger] b.virtual_polys@.contains_key(i) ==> !b.materialized_polys@.contains_key(i)
    ensures pt_has(b, id), pt_nv(b, id) == pt_nv(a, id), forall|t: TVal| #[trigger] pt_val(b, id, t) == pt_val(a, id, t)
{
    let m = a.materialized_polys@; let n = b.materialized_polys@;
    if m.contains_key(id) { assert(n[id] == m[id]); }
    else {
        assert(a.virtual_polys@.contains_key(id)); assert(b.virtual_polys@[id] == a.virtual_polys@[id]);
        let v = a.virtual_polys@[id]@; assert(arep(v)[0].1 == v[0].1@); assert(ids_ok(m, v[0].1@, pt_nv(a, id))); assert(m.contains_key(v[0].1@[0]));
        assert forall|t: TVal| #[trigger] pt_val(b, id, t) == pt_val(a, id, t) by { rep_val_ext(m, n, v, pt_nv(a, id), t); }
    }
}
pub proof fn rep_val_ext(m: Mats, n: Mats, v: Rep, nv: int, t: TVal) requires sub_map(m, n), rep_ok(m, v, nv) ensures rep_val(m, v, t) == rep_val(n, v, t), rep_ok(n, v, nv) {
    let a = arep(v);
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).1.len() > 0 && ids_ok(n, a[i].1, nv) && term_val(m, a[i].1, t) == term_val(n, a[i].1, t) by {
        let s = a[i].1; assert(ids_ok(m, s, nv));
        assert forall|j: int| 0 <= j < s.len() implies n.contains_key(#[trigger] s[j]) && n[s[j]] == m[s[j]] by { assert(m.contains_key(s[j])); }
        fprod_eq(s.len() as int, |j: int| t(*m[s[j]]), |j: int| t(*n[s[j]]));
    }
    fsum_eq(a.len() as int, |i: int| fmul(a[i].0, term_val(m, a[i].1, t)), |i: int| fmul(a[i].0, term_val(n, a[i].1, t)));
}
pub proof fn aval_cat(m: Mats, a: ARep, b: ARep, t: TVal) ensures aval(m, a + b, t) == fadd(aval(m, a, t), aval(m, b, t)) {
    let q = a + b; let f = |i: int| fmul(q[i].0, term_val(m, q[i].1, t)); let l = a.len() as int;
    fsum_split(l, b.len() as int, f); fsum_eq(l, f, |i: int| fmul(a[i].0, term_val(m, a[i].1, t))); fsum_eq(b.len() as int, |i: int| f(l + i), |i: int| fmul(b[i].0, term_val(m, b[i].1, t)));
}
pub proof fn aval1(m: Mats, c: F, ids: Seq<TrackerID>, t: TVal) ensures aval(m, seq![(c, ids)], t) == fmul(c, term_val(m, ids, t)) {
    broadcast use funits; let a: ARep = seq![(c, ids)]; let f = |i: int| fmul(a[i].0, term_val(m, a[i].1, t)); assert(fsum(1, f) == fadd(fsum(0, f), f(0)));
}
pub proof fn term_cat(m: Mats, a: Seq<TrackerID>, b: Seq<TrackerID>, t: TVal) ensures term_val(m, a + b, t) == fmul(term_val(m, a, t), term_val(m, b, t)) decreases b.len() {
    broadcast use funits;
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let c = b.drop_last(); let q = a + b; let q2 = a + c; term_cat(m, a, c, t); let n = q.len() as int; let l = b.len() as int;
        fprod_eq(n - 1, |j: int| t(*m[q[j]]), |j: int| t(*m[q2[j]])); fprod_eq(l - 1, |j: int| t(*m[b[j]]), |j: int| t(*m[c[j]]));
        assert(q[n - 1] == b[l - 1]); fmul_assoc(term_val(m, a, t), term_val(m, c, t), t(*m[b[l - 1]]));
    }
}
pub proof fn term1(m: Mats, id: TrackerID, t: TVal) ensures term_val(m, seq![id], t) == t(*m[id]) {
    broadcast use funits; let ids = seq![id]; let f = |j: int| t(*m[ids[j]]); assert(fprod(1, f) == fmul(fprod(0, f), f(0)));
}
pub open spec fn ascale(c: F, a: ARep) -> ARep { Seq::new(a.len(), |i: int| (fmul(c, a[i].0), a[i].1)) }
pub proof fn arep_push(v: Rep, x: (F, Vec<TrackerID>)) ensures arep(v.push(x)) == arep(v).push((x.0, x.1@)) { assert(arep(v.push(x)) =~= arep(v).push((x.0, x.1@))); }
pub proof fn ascale_push(c: F, a: ARep, i: int) requires 0 <= i < a.len() ensures ascale(c, a.subrange(0, i + 1)) == ascale(c, a.subrange(0, i)).push((fmul(c, a[i].0), a[i].1)) { assert(ascale(c, a.subrange(0, i + 1)) =~= ascale(c, a.subrange(0, i)).push((fmul(c, a[i].0), a[i].1))); }
/// every product of a times the product (c, ids)
pub open spec fn atimes(a: ARep, c: F, ids: Seq<TrackerID>) -> ARep { Seq::new(a.len(), |i: int| (fmul(c, a[i].0), ids + a[i].1)) }
pub proof fn ascale_val(m: Mats, c: F, a: ARep, t: TVal) ensures aval(m, ascale(c, a), t) == fmul(c, aval(m, a, t)) {
    let f = |i: int| fmul(a[i].0, term_val(m, a[i].1, t)); let s = ascale(c, a); let g = |i: int| fmul(s[i].0, term_val(m, s[i].1, t)); let h = |i: int| fmul(c, f(i));
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] g(i) == h(i) by { fmul_assoc(c, a[i].0, term_val(m, a[i].1, t)); }
    fsum_eq(a.len() as int, g, h); fsum_scale(a.len() as int, c, f);
}
/// a list whose products are those of a, each with the product (c, ids) multiplied in on either side
pub proof fn aval_times(m: Mats, a: ARep, q: ARep, c: F, ids: Seq<TrackerID>, t: TVal)
    requires q.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] q[i]).0 == fmul(c, a[i].0) && (q[i].1 == ids + a[i].1 || q[i].1 == a[i].1 + ids)
    ensures aval(m, q, t) == fmul(fmul(c, term_val(m, ids, t)), aval(m, a, t)) {
    let f = |i: int| fmul(a[i].0, term_val(m, a[i].1, t)); let g = |i: int| fmul(q[i].0, term_val(m, q[i].1, t)); let k = fmul(c, term_val(m, ids, t)); let h = |i: int| fmul(k, f(i));
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] g(i) == h(i) by {
        assert(q[i].0 == fmul(c, a[i].0)); term_cat(m, ids, a[i].1, t); term_cat(m, a[i].1, ids, t);
        broadcast use fhom; let (c, x, y, z) = (frep(c), frep(a[i].0), frep(term_val(m, ids, t)), frep(term_val(m, a[i].1, t)));
        assert((c * x) * (y * z) == (c * y) * (x * z)) by(nonlinear_arith); assert((c * x) * (z * y) == (c * y) * (x * z)) by(nonlinear_arith);
    }
    fsum_eq(a.len() as int, g, h); fsum_scale(a.len() as int, k, f);
}
/// the products a handle stands for
pub open spec fn pt_rep(p: ProverTracker, id: TrackerID) -> ARep { if p.materialized_polys@.contains_key(id) { seq![(f1(), seq![id])] } else { arep(p.virtual_polys@[id]@) } }
pub proof fn pt_rep_val(p: ProverTracker, id: TrackerID) requires pt_wf(p), pt_has(p, id) ensures pt_rep(p, id).len() > 0, arep_ok(p.materialized_polys@, pt_rep(p, id), pt_nv(p, id)), forall|t: TVal| #[trigger] aval(p.materialized_polys@, pt_rep(p, id), t) == pt_val(p, id, t) {
    let m = p.materialized_polys@;
    if m.contains_key(id) { assert forall|t: TVal| #[trigger] aval(m, pt_rep(p, id), t) == pt_val(p, id, t) by { broadcast use funits; aval1(m, f1(), seq![id], t); term1(m, id, t); } }
}
/// insertion of a fresh handle keeps the invariant and every earlier value
pub proof fn pt_step(a: ProverTracker, b: ProverTracker)
    requires pt_wf(a), pt_ext(a, b), mats_ok(b), forall|i: TrackerID| #[trigger] b.virtual_polys@.contains_key(i) ==> !b.materialized_polys@.contains_key(i), b.cached_evaluations@ == a.cached_evaluations@,
        forall|i: TrackerID| #[trigger] b.virtual_polys@.contains_key(i) && !a.virtual_polys@.contains_key(i) ==> i.0 < b.id_counter && b.virtual_polys@[i]@.len() > 0 && rep_ok(b.materialized_polys@, b.virtual_polys@[i]@, pt_nv(b, i)),
    ensures pt_wf(b), forall|id: TrackerID, t: TVal| pt_has(a, id) ==> #[trigger] pt_val(b, id, t) == pt_val(a, id, t), forall|id: TrackerID| pt_has(a, id) ==> #[trigger] pt_nv(b, id) == pt_nv(a, id), forall|id: TrackerID| pt_has(a, id) ==> #[trigger] pt_has(b, id)
{
    assert forall|id: TrackerID, t: TVal| pt_has(a, id) implies #[trigger] pt_val(b, id, t) == pt_val(a, id, t) by { pt_ext_val(a, b, id); }
    assert forall|id: TrackerID| pt_has(a, id) implies #[trigger] pt_nv(b, id) == pt_nv(a, id) by { pt_ext_val(a, b, id); }
    assert forall|id: TrackerID| pt_has(a, id) implies #[trigger] pt_has(b, id) by { pt_ext_val(a, b, id); }
    assert forall|id: TrackerID| #[trigger] b.virtual_polys@.contains_key(id) implies id.0 < b.id_counter && !b.materialized_polys@.contains_key(id) && b.virtual_polys@[id]@.len() > 0 && rep_ok(b.materialized_polys@, b.virtual_polys@[id]@, pt_nv(b, id)) by {
        if a.virtual_polys@.contains_key(id) { rep_val_ext(a.materialized_polys@, b.materialized_polys@, a.virtual_polys@[id]@, pt_nv(a, id), at_bool(0)); assert(b.virtual_polys@[id] == a.virtual_polys@[id]); assert(pt_has(a, id)); assert(pt_nv(b, id) == pt_nv(a, id)); }
    }
    assert forall|id: TrackerID| #[trigger] b.cached_evaluations@.contains_key(id) implies b.virtual_polys@.contains_key(id) && is_table(*b.cached_evaluations@[id], b, id) by {
        assert(pt_has(a, id)); assert(is_table(*a.cached_evaluations@[id], a, id)); let d = *b.cached_evaluations@[id];
        assert forall|x: int| 0 <= x < p2(d.num_vars as int) implies #[trigger] d.evaluations@[x] == pt_val(b, id, at_bool(x)) by { assert(pt_val(b, id, at_bool(x)) == pt_val(a, id, at_bool(x))); }
    }
}
pub open spec fn pt_room(p: ProverTracker) -> bool { p.id_counter < 0x7fff_ffff_ffff_ffff }
/// the operation made exactly one handle, ret, and changed nothing that existed
pub open spec fn pt_new(a: ProverTracker, b: ProverTracker, ret: TrackerID) -> bool { pt_wf(b) && pt_ext(a, b) && pt_same_log(a, b) && ret.0 >= a.id_counter && pt_has(b, ret) }
pub open spec fn pt_kept(a: ProverTracker, b: ProverTracker) -> bool {
    &&& forall|id: TrackerID, t: TVal| pt_has(a, id) ==> #[trigger] pt_val(b, id, t) == pt_val(a, id, t)
    &&& forall|id: TrackerID| pt_has(a, id) ==> #[trigger] pt_nv(b, id) == pt_nv(a, id)
    &&& forall|id: TrackerID| pt_has(a, id) ==> #[trigger] pt_has(b, id)
}
//@fn src/tracker/prover_tracker.rs::ProverTracker::new
//@@ ensures
        pt_wf(ret), ret.id_counter == 0, forall|id: TrackerID| !#[trigger] pt_has(ret, id), ret.sum_check_claims@.len() == 0, ret.zero_check_claims@.len() == 0, ret.materialized_comms@ == Map::<TrackerID, Commitment>::empty(), ret.transcript.is_empty, ret.pcs_param == pcs_param,
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::gen_id
//@@ requires
        pt_room(*old(self)),
//@@ ensures
        ret == TrackerID(old(self).id_counter), *final(self) == (ProverTracker { id_counter: (old(self).id_counter + 1) as usize, ..*old(self) }),
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::get_next_id
//@@ ensures
        ret == TrackerID(old(self).id_counter), *final(self) == *old(self),
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::track_mat_arc_poly
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), dwf(*polynomial),
//@@ ensures
        pt_new(*old(self), *final(self), ret), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1,
        final(self).materialized_polys@ == old(self).materialized_polys@.insert(ret, polynomial), pt_nv(*final(self), ret) == polynomial.num_vars,
        forall|t: TVal| #[trigger] pt_val(*final(self), ret, t) == t(*polynomial),
        final(self).virtual_polys@ == old(self).virtual_polys@, final(self).cached_evaluations@ == old(self).cached_evaluations@,
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ tail
    proof { assert(pt_has(*self, zk_ret)); pt_step(a, *self); }
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::track_mat_poly
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), dwf(polynomial),
//@@ ensures
        pt_new(*old(self), *final(self), ret), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1,
        pt_nv(*final(self), ret) == polynomial.num_vars, final(self).materialized_polys@.contains_key(ret),
        forall|t: TVal| #[trigger] pt_val(*final(self), ret, t) == t(polynomial),
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::track_virt_poly
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), virt@.len() > 0, rep_ok(old(self).materialized_polys@, virt@, rep_nv(old(self).materialized_polys@, virt@)),
//@@ ensures
        pt_new(*old(self), *final(self), ret), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1,
        pt_nv(*final(self), ret) == rep_nv(old(self).materialized_polys@, virt@),
        forall|t: TVal| #[trigger] pt_val(*final(self), ret, t) == rep_val(old(self).materialized_polys@, virt@, t),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ tail
    proof { assert(pt_has(*self, zk_ret)); pt_step(a, *self); }
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::get_mat_poly
//@@ ensures
        ret == (if self.materialized_polys@.contains_key(id) { Some(&self.materialized_polys@[id]) } else { None }),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::get_virt_poly
//@@ ensures
        ret == (if self.virtual_polys@.contains_key(id) { Some(&self.virtual_polys@[id]) } else { None }),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::get_poly_nv
//@@ requires
        pt_wf(*self), pt_has(*self, id),
//@@ ensures
        ret == pt_nv(*self, id),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    proof { if !self.materialized_polys@.contains_key(id) { let v = self.virtual_polys@[id]@; assert(arep(v)[0].1 == v[0].1@); assert(ids_ok(self.materialized_polys@, v[0].1@, pt_nv(*self, id))); assert(self.materialized_polys@.contains_key(v[0].1@[0])); } }
//@end
pub proof fn rep_sum(m: Mats, v: Rep, r1: ARep, r2: ARep, c: F, nv: int)
    requires r1.len() > 0, arep_ok(m, r1, nv), arep_ok(m, r2, nv), arep(v) =~= r1 + ascale(c, r2)
    ensures v.len() > 0, rep_ok(m, v, nv), rep_nv(m, v) == nv, forall|t: TVal| #[trigger] rep_val(m, v, t) == fadd(aval(m, r1, t), fmul(c, aval(m, r2, t)))
{
    let q = r1 + ascale(c, r2);
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).1.len() > 0 && ids_ok(m, q[i].1, nv) by { if i < r1.len() { assert(q[i] == r1[i]); } else { assert(q[i].1 == r2[i - r1.len()].1); } }
    rep_nv_ok(m, v, nv);
    assert forall|t: TVal| #[trigger] rep_val(m, v, t) == fadd(aval(m, r1, t), fmul(c, aval(m, r2, t))) by { aval_cat(m, r1, ascale(c, r2), t); ascale_val(m, c, r2, t); }
}
pub proof fn rep_nv_ok(m: Mats, v: Rep, nv: int) requires v.len() > 0, rep_ok(m, v, nv) ensures rep_nv(m, v) == nv { let a = arep(v); assert(a[0].1 == v[0].1@); assert(ids_ok(m, a[0].1, nv)); assert(m.contains_key(a[0].1[0])); }
pub open spec fn fsign(s: bool) -> F { if s { fneg(f1()) } else { f1() } }
//@fn src/tracker/prover_tracker.rs::ProverTracker::add_sub_polys
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), pt_has(*old(self), p1_id), pt_has(*old(self), p2_id), pt_nv(*old(self), p1_id) == pt_nv(*old(self), p2_id),
//@@ ensures
        pt_new(*old(self), *final(self), ret), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1,
        pt_nv(*final(self), ret) == pt_nv(*old(self), p1_id),
        forall|t: TVal| #[trigger] pt_val(*final(self), ret, t) == fadd(pt_val(*old(self), p1_id, t), fmul(fsign(do_sub), pt_val(*old(self), p2_id, t))),
//@@ vartype
new_virt_rep: Vec<(F, Vec<TrackerID>)>
//@@ entry
    broadcast use funits;
    let ghost a = *self; let ghost m = self.materialized_polys@; let ghost nv = pt_nv(*self, p1_id); let ghost sg = fsign(do_sub); let ghost r1 = pt_rep(*self, p1_id); let ghost r2 = pt_rep(*self, p2_id);
    proof { pt_rep_val(a, p1_id); pt_rep_val(a, p2_id); }
//@@ inv 0
                zk_s0@ == a.virtual_polys@[p2_id]@, zk_n0 == r2.len(), r2 == arep(a.virtual_polys@[p2_id]@), r1 == seq![(f1(), seq![p1_id])], sign_coeff == sg, arep(new_virt_rep@) == r1 + ascale(sg, r2.subrange(0, zk_i0 as int)),
//@@ before 0
            assert(arep(new_virt_rep@) =~~= r1 + ascale(sg, r2.subrange(0, 0)));
//@@ start 0
                let ghost v0 = new_virt_rep@;
//@@ end 0
                proof { arep_push(v0, new_virt_rep@.last()); ascale_push(sg, r2, zk_i0 - 1); assert(arep(new_virt_rep@) =~~= r1 + ascale(sg, r2.subrange(0, zk_i0 as int))); }
//@@ inv 1
                zk_s1@ == a.virtual_polys@[p1_id]@, zk_n1 == r1.len(), r1 == arep(a.virtual_polys@[p1_id]@), r2 == seq![(f1(), seq![p2_id])], sign_coeff == sg, arep(new_virt_rep@) == r1.subrange(0, zk_i1 as int),
//@@ before 1
            assert(arep(new_virt_rep@) =~~= r1.subrange(0, 0));
//@@ end 1
                assert(arep(new_virt_rep@) =~~= r1.subrange(0, zk_i1 as int));
//@@ inv 2
                zk_s2@ == a.virtual_polys@[p1_id]@, zk_n2 == r1.len(), r1 == arep(a.virtual_polys@[p1_id]@), r2 == arep(a.virtual_polys@[p2_id]@), p2_virt == Some(&a.virtual_polys@[p2_id]), sign_coeff == sg, arep(new_virt_rep@) == r1.subrange(0, zk_i2 as int),
//@@ before 2
            assert(arep(new_virt_rep@) =~~= r1.subrange(0, 0));
//@@ end 2
                assert(arep(new_virt_rep@) =~~= r1.subrange(0, zk_i2 as int));
//@@ inv 3
                zk_s3@ == a.virtual_polys@[p2_id]@, zk_n3 == r2.len(), r2 == arep(a.virtual_polys@[p2_id]@), sign_coeff == sg, arep(new_virt_rep@) == r1 + ascale(sg, r2.subrange(0, zk_i3 as int)),
//@@ before 3
            assert(arep(new_virt_rep@) =~~= r1 + ascale(sg, r2.subrange(0, 0)));
//@@ start 3
                let ghost v0 = new_virt_rep@;
//@@ end 3
                proof { arep_push(v0, new_virt_rep@.last()); ascale_push(sg, r2, zk_i3 - 1); assert(arep(new_virt_rep@) =~~= r1 + ascale(sg, r2.subrange(0, zk_i3 as int))); }
//@@ pretail
    proof { assert(r1.subrange(0, r1.len() as int) =~= r1); assert(r2.subrange(0, r2.len() as int) =~= r2); if m.contains_key(p2_id) { assert(arep(new_virt_rep@) =~~= r1 + ascale(sg, r2)); } rep_sum(m, new_virt_rep@, r1, r2, sg, nv); }
//@end

//@fn src/tracker/prover_tracker.rs::ProverTracker::add_polys
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), pt_has(*old(self), p1_id), pt_has(*old(self), p2_id), pt_nv(*old(self), p1_id) == pt_nv(*old(self), p2_id),
//@@ ensures
        pt_new(*old(self), *final(self), ret), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1,
        pt_nv(*final(self), ret) == pt_nv(*old(self), p1_id),
        forall|t: TVal| #[trigger] pt_val(*final(self), ret, t) == fadd(pt_val(*old(self), p1_id, t), pt_val(*old(self), p2_id, t)),
//@@ entry
    broadcast use funits;
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::sub_polys
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), pt_has(*old(self), p1_id), pt_has(*old(self), p2_id), pt_nv(*old(self), p1_id) == pt_nv(*old(self), p2_id),
//@@ ensures
        pt_new(*old(self), *final(self), ret), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1,
        pt_nv(*final(self), ret) == pt_nv(*old(self), p1_id),
        forall|t: TVal| #[trigger] pt_val(*final(self), ret, t) == fsub(pt_val(*old(self), p1_id, t), pt_val(*old(self), p2_id, t)),
//@@ entry
    let ghost a = *self;
    proof { assert forall|x: F, y: F| #[trigger] fadd(x, fmul(fneg(f1()), y)) == fsub(x, y) by { fsub_as_add(x, y); } }
//@end
pub proof fn fsub_as_add(a: F, b: F) ensures fadd(a, fmul(fneg(f1()), b)) == fsub(a, b) { broadcast use fhom; let (x, y) = (frep(a), frep(b)); assert(x + (-1) * y == x - y) by(nonlinear_arith); assert(f1() == fk(1)) by { reveal(f1); } }
pub open spec fn apost(a: ARep, ids: Seq<TrackerID>) -> ARep { Seq::new(a.len(), |i: int| (a[i].0, a[i].1 + ids)) }
pub proof fn apost_push(a: ARep, ids: Seq<TrackerID>, i: int) requires 0 <= i < a.len() ensures apost(a.subrange(0, i + 1), ids) == apost(a.subrange(0, i), ids).push((a[i].0, a[i].1 + ids)) { assert(apost(a.subrange(0, i + 1), ids) =~= apost(a.subrange(0, i), ids).push((a[i].0, a[i].1 + ids))); }
pub proof fn atimes_push(a: ARep, c: F, ids: Seq<TrackerID>, i: int) requires 0 <= i < a.len() ensures atimes(a.subrange(0, i + 1), c, ids) == atimes(a.subrange(0, i), c, ids).push((fmul(c, a[i].0), ids + a[i].1)) { assert(atimes(a.subrange(0, i + 1), c, ids) =~= atimes(a.subrange(0, i), c, ids).push((fmul(c, a[i].0), ids + a[i].1))); }
pub proof fn cat_ok(m: Mats, a: Seq<TrackerID>, b: Seq<TrackerID>, nv: int) requires ids_ok(m, a, nv), ids_ok(m, b, nv) ensures ids_ok(m, a + b, nv) { let q = a + b; assert forall|j: int| 0 <= j < q.len() implies m.contains_key(#[trigger] q[j]) && m[q[j]].num_vars == nv by { if j < a.len() { assert(q[j] == a[j]); } else { assert(q[j] == b[j - a.len()]); } } }
/// one more product of the left factor distributed over the right one
pub proof fn mul_block(m: Mats, done: ARep, r1: ARep, r2: ARep, i: int, nv: int)
    requires 0 <= i < r1.len(), r2.len() > 0, arep_ok(m, r1, nv), arep_ok(m, r2, nv), arep_ok(m, done, nv), forall|t: TVal| #[trigger] aval(m, done, t) == fmul(aval(m, r1.subrange(0, i), t), aval(m, r2, t))
    ensures ({ let q = done + atimes(r2, r1[i].0, r1[i].1); q.len() > 0 && arep_ok(m, q, nv) && forall|t: TVal| #[trigger] aval(m, q, t) == fmul(aval(m, r1.subrange(0, i + 1), t), aval(m, r2, t)) })
{
    let (c, ids) = r1[i]; let blk = atimes(r2, c, ids); let q = done + blk; assert(ids_ok(m, r1[i].1, nv));
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).1.len() > 0 && ids_ok(m, q[k].1, nv) by { if k < done.len() { assert(q[k] == done[k]); } else { let j = k - done.len(); assert(q[k].1 == ids + r2[j].1); assert(ids_ok(m, r2[j].1, nv)); cat_ok(m, ids, r2[j].1, nv); } }
    assert forall|t: TVal| #[trigger] aval(m, q, t) == fmul(aval(m, r1.subrange(0, i + 1), t), aval(m, r2, t)) by {
        aval_cat(m, done, blk, t); aval_times(m, r2, blk, c, ids, t); assert(r1.subrange(0, i + 1) =~= r1.subrange(0, i) + seq![(c, ids)]); aval_cat(m, r1.subrange(0, i), seq![(c, ids)], t); aval1(m, c, ids, t);
        fmul_distr_r(aval(m, r1.subrange(0, i), t), fmul(c, term_val(m, ids, t)), aval(m, r2, t)); assert(aval(m, done, t) == fmul(aval(m, r1.subrange(0, i), t), aval(m, r2, t)));
    }
}
pub proof fn fmul_distr_r(a: F, b: F, c: F) ensures fmul(fadd(a, b), c) == fadd(fmul(a, c), fmul(b, c)) { broadcast use fhom; let (x, y, z) = (frep(a), frep(b), frep(c)); assert((x + y) * z == x * z + y * z) by(nonlinear_arith); }
pub proof fn rep_post(m: Mats, r: ARep, id: TrackerID, nv: int)
    requires arep_ok(m, r, nv), m.contains_key(id), m[id].num_vars == nv
    ensures arep_ok(m, apost(r, seq![id]), nv), forall|t: TVal| #[trigger] aval(m, apost(r, seq![id]), t) == fmul(t(*m[id]), aval(m, r, t))
{
    broadcast use funits; let q = apost(r, seq![id]);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).1.len() > 0 && ids_ok(m, q[k].1, nv) by { assert(ids_ok(m, r[k].1, nv)); cat_ok(m, r[k].1, seq![id], nv); }
    assert forall|t: TVal| #[trigger] aval(m, q, t) == fmul(t(*m[id]), aval(m, r, t)) by { term1(m, id, t); aval_times(m, r, q, f1(), seq![id], t); }
}
//@fn src/tracker/prover_tracker.rs::ProverTracker::mul_polys
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), pt_has(*old(self), p1_id), pt_has(*old(self), p2_id), pt_nv(*old(self), p1_id) == pt_nv(*old(self), p2_id),
//@@ ensures
        pt_new(*old(self), *final(self), ret), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1,
        pt_nv(*final(self), ret) == pt_nv(*old(self), p1_id),
        forall|t: TVal| #[trigger] pt_val(*final(self), ret, t) == fmul(pt_val(*old(self), p1_id, t), pt_val(*old(self), p2_id, t)),
//@@ vartype
new_virt_rep: Vec<(F, Vec<TrackerID>)>
//@@ entry
    broadcast use funits;
    let ghost a = *self; let ghost m = self.materialized_polys@; let ghost nv = pt_nv(*self, p1_id); let ghost r1 = pt_rep(*self, p1_id); let ghost r2 = pt_rep(*self, p2_id);
    proof { pt_rep_val(a, p1_id); pt_rep_val(a, p2_id); assert forall|x: F, y: F| fmul(x, y) == #[trigger] fmul(y, x) by { fmul_comm(x, y); } }
//@@ inv 0
                p2_rep@ == a.virtual_polys@[p2_id]@, zk_n0 == r2.len(), r2 == arep(a.virtual_polys@[p2_id]@), arep(new_virt_rep@) == apost(r2.subrange(0, zk_i0 as int), seq![p1_id]),
//@@ before 0
            assert(arep(new_virt_rep@) =~~= apost(r2.subrange(0, 0), seq![p1_id]));
//@@ start 0
                let ghost v0 = new_virt_rep@;
//@@ end 0
                proof { arep_push(v0, new_virt_rep@.last()); apost_push(r2, seq![p1_id], zk_i0 - 1); assert(arep(new_virt_rep@) =~~= apost(r2.subrange(0, zk_i0 as int), seq![p1_id])); }
//@@ after 0
            proof { assert(r2.subrange(0, r2.len() as int) =~= r2); rep_post(m, r2, p1_id, nv); }
//@@ inv 1
                p1_rep@ == a.virtual_polys@[p1_id]@, zk_n1 == r1.len(), r1 == arep(a.virtual_polys@[p1_id]@), arep(new_virt_rep@) == apost(r1.subrange(0, zk_i1 as int), seq![p2_id]),
//@@ before 1
            assert(arep(new_virt_rep@) =~~= apost(r1.subrange(0, 0), seq![p2_id]));
//@@ start 1
                let ghost v0 = new_virt_rep@;
//@@ end 1
                proof { arep_push(v0, new_virt_rep@.last()); apost_push(r1, seq![p2_id], zk_i1 - 1); assert(arep(new_virt_rep@) =~~= apost(r1.subrange(0, zk_i1 as int), seq![p2_id])); }
//@@ after 1
            proof { assert(r1.subrange(0, r1.len() as int) =~= r1); rep_post(m, r1, p2_id, nv); }
//@@ inv 2
                p1_rep@ == a.virtual_polys@[p1_id]@, zk_n2 == r1.len(), r1 == arep(a.virtual_polys@[p1_id]@), r2 == arep(a.virtual_polys@[p2_id]@), p2_rep@ == a.virtual_polys@[p2_id]@, r2.len() > 0, arep_ok(m, r1, nv), arep_ok(m, r2, nv),
                zk_i2 > 0 ==> new_virt_rep@.len() > 0, arep_ok(m, arep(new_virt_rep@), nv), forall|t: TVal| #[trigger] aval(m, arep(new_virt_rep@), t) == fmul(aval(m, r1.subrange(0, zk_i2 as int), t), aval(m, r2, t)),
//@@ before 2
            proof { assert forall|t: TVal| #[trigger] aval(m, arep(new_virt_rep@), t) == fmul(aval(m, r1.subrange(0, 0), t), aval(m, r2, t)) by { broadcast use funits; } }
//@@ start 2
                let ghost done = arep(new_virt_rep@); let ghost i = zk_i2 as int;
//@@ inv 3
                    p2_rep@ == a.virtual_polys@[p2_id]@, zk_n3 == r2.len(), r2 == arep(a.virtual_polys@[p2_id]@), *p1_coeff == r1[i].0, p1_prod@ == r1[i].1,
                    arep(new_virt_rep@) == done + atimes(r2.subrange(0, zk_i3 as int), r1[i].0, r1[i].1),
//@@ before 3
                assert(arep(new_virt_rep@) =~~= done + atimes(r2.subrange(0, 0), r1[i].0, r1[i].1));
//@@ start 3
                    let ghost v0 = new_virt_rep@;
//@@ end 3
                    proof { arep_push(v0, new_virt_rep@.last()); atimes_push(r2, r1[i].0, r1[i].1, zk_i3 - 1); assert(arep(new_virt_rep@) =~~= done + atimes(r2.subrange(0, zk_i3 as int), r1[i].0, r1[i].1)); }
//@@ after 3
                proof { assert(r2.subrange(0, r2.len() as int) =~= r2); mul_block(m, done, r1, r2, i, nv); }
//@@ pretail
    proof { assert(r1.subrange(0, r1.len() as int) =~= r1); 
        if m.contains_key(p1_id) && m.contains_key(p2_id) { let ids = seq![p1_id, p2_id]; assert(arep(new_virt_rep@) =~~= apost(r1, seq![p2_id])); rep_post(m, r1, p2_id, nv); }
        rep_nv_ok(m, new_virt_rep@, nv); }
//@end
#[verifier::allow(undeclared_external_trait)] pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: std::marker::Destruct, ensures r == (if a.is_some() { a } else { b });
/// the first j factors of a product, the first n products of a sum
pub open spec fn tprod(m: Mats, ids: Seq<TrackerID>, j: int, t: TVal) -> F { fprod(j, |k: int| t(*m[ids[k]])) }
pub open spec fn apart(m: Mats, a: ARep, n: int, t: TVal) -> F { fsum(n, |i: int| fmul(a[i].0, term_val(m, a[i].1, t))) }
pub proof fn tprod_step(m: Mats, ids: Seq<TrackerID>, j: int, c: F, t: TVal) requires 0 <= j ensures fmul(fmul(c, tprod(m, ids, j, t)), t(*m[ids[j]])) == fmul(c, tprod(m, ids, j + 1, t)), tprod(m, ids, 0, t) == f1() { fmul_assoc(c, tprod(m, ids, j, t), t(*m[ids[j]])); }
pub proof fn tprod_all(m: Mats, ids: Seq<TrackerID>, t: TVal) ensures tprod(m, ids, ids.len() as int, t) == term_val(m, ids, t) { fprod_eq(ids.len() as int, |k: int| t(*m[ids[k]]), |j: int| t(*m[ids[j]])); }
pub proof fn apart_step(m: Mats, a: ARep, n: int, t: TVal) requires 0 <= n ensures apart(m, a, n + 1, t) == fadd(apart(m, a, n, t), fmul(a[n].0, term_val(m, a[n].1, t))), apart(m, a, 0, t) == f0() { }
pub proof fn apart_all(m: Mats, a: ARep, t: TVal) ensures apart(m, a, a.len() as int, t) == aval(m, a, t) { fsum_eq(a.len() as int, |i: int| fmul(a[i].0, term_val(m, a[i].1, t)), |i: int| fmul(a[i].0, term_val(m, a[i].1, t))); }
pub open spec fn pt_rank(p: ProverTracker, id: TrackerID) -> int { if p.materialized_polys@.contains_key(id) { 0 } else { 1 } }
/// only the cache of computed tables may differ
pub open spec fn pt_cached(a: ProverTracker, b: ProverTracker) -> bool { b == (ProverTracker { cached_evaluations: b.cached_evaluations, ..a }) }
//@fn src/tracker/prover_tracker.rs::ProverTracker::evaluation_table
//@@ requires
        pt_wf(*old(self)), pt_has(*old(self), id),
//@@ ensures
        pt_wf(*final(self)), pt_cached(*old(self), *final(self)), is_table(*ret, *final(self), id), is_table(*ret, *old(self), id), pt_kept(*old(self), *final(self)),
        old(self).materialized_polys@.contains_key(id) ==> *final(self) == *old(self) && ret == old(self).materialized_polys@[id],
//@@ decreases
        pt_rank(*old(self), id), 0int,
//@@ entry
    broadcast use funits, ipow_p2, vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self; let ghost m = self.materialized_polys@; let ghost nv0 = pt_nv(a, id); let ghost ar = arep(a.virtual_polys@[id]@);
    proof { if !m.contains_key(id) { let v = a.virtual_polys@[id]@; assert(rep_ok(m, v, nv0)); assert(ar[0].1 == v[0].1@); assert(ids_ok(m, ar[0].1, nv0)); assert(m.contains_key(v[0].1@[0])); assert(dwf(*m[v[0].1@[0]])); p2_mono(nv0, 62); p2_64(); p2_pos(nv0); } }
//@@ inv 0
            *self == a, virt_poly@ == a.virtual_polys@[id]@, zk_n0 == ar.len(), zk_acc0@.len() == zk_i0, nv == nv0,
            forall|i: int| 0 <= i < zk_i0 ==> (#[trigger] zk_acc0@[i])@.len() == p2(nv0),
            forall|i: int, b: int| 0 <= i < zk_i0 && 0 <= b < p2(nv0) ==> #[trigger] zk_acc0@[i]@[b] == fmul(ar[i].0, term_val(m, ar[i].1, at_bool(b))),
//@@ start 0
            let ghost ids = ar[zk_i0 as int].1; let ghost c = ar[zk_i0 as int].0; assert(ids_ok(m, ids, nv0));
//@@ inv 1
                *self == a, zk_n1 == ids.len(), prod@ == ids, res@.len() == p2(nv0), forall|b: int| 0 <= b < p2(nv0) ==> #[trigger] res@[b] == fmul(c, tprod(m, ids, zk_i1 as int, at_bool(b))),
//@@ start 1
                let ghost r0 = res@; assert(m.contains_key(ids[zk_i1 as int])); let ghost pe = m[ids[zk_i1 as int]].evaluations@;
//@@ inv 2
                    zk_n2 == p2(nv0), res@ == r0, poly_evals@ == pe, zk_acc1@.len() == zk_i2, forall|b: int| 0 <= b < zk_i2 ==> #[trigger] zk_acc1@[b] == fmul(r0[b], pe[b]),
//@@ end 1
                proof { assert forall|b: int| 0 <= b < p2(nv0) implies #[trigger] res@[b] == fmul(c, tprod(m, ids, zk_i1 as int, at_bool(b))) by { tprod_step(m, ids, zk_k1 as int, c, at_bool(b)); } }
//@@ after 1
            proof { assert forall|b: int| 0 <= b < p2(nv0) implies #[trigger] res@[b] == fmul(c, term_val(m, ids, at_bool(b))) by { tprod_all(m, ids, at_bool(b)); } }
//@@ after-let prod_evaluations
            let ghost pev = prod_evaluations@;
//@@ inv 3
        zk_n3 == ar.len(), prod_evaluations@ == pev, evals@.len() == p2(nv0), forall|b: int| 0 <= b < p2(nv0) ==> #[trigger] evals@[b] == apart(m, ar, zk_i3 as int, at_bool(b)),
//@@ start 3
        let ghost e0 = evals@; let ghost k3 = zk_i3 as int; assert(pev[k3]@.len() == p2(nv0));
//@@ inv 4
                zk_n4 == p2(nv0), evals@ == e0, prod_eval@ == pev[k3]@, zk_acc2@.len() == zk_i4, forall|b: int| 0 <= b < zk_i4 ==> #[trigger] zk_acc2@[b] == fadd(e0[b], pev[k3]@[b]),
//@@ end 3
        proof { assert forall|b: int| 0 <= b < p2(nv0) implies #[trigger] evals@[b] == apart(m, ar, zk_i3 as int, at_bool(b)) by { apart_step(m, ar, k3, at_bool(b)); } }
//@@ tail
    proof {
        let d = *zk_ret;
        assert forall|b: int| 0 <= b < p2(nv0) implies #[trigger] d.evaluations@[b] == pt_val(a, id, at_bool(b)) by { apart_all(m, ar, at_bool(b)); }
        assert(is_table(d, a, id));
        assert forall|i: TrackerID| #[trigger] self.cached_evaluations@.contains_key(i) implies self.virtual_polys@.contains_key(i) && is_table(*self.cached_evaluations@[i], *self, i) by { if i != id { assert(a.cached_evaluations@.contains_key(i)); assert(is_table(*a.cached_evaluations@[i], a, i)); } assert(is_table(*self.cached_evaluations@[i], a, i)); same_table(*self.cached_evaluations@[i], a, *self, i); }
        same_table(d, a, *self, id);
    }
//@end
pub proof fn same_table(d: DenseMultilinearExtension, a: ProverTracker, b: ProverTracker, id: TrackerID) requires is_table(d, a, id), a.materialized_polys == b.materialized_polys, a.virtual_polys == b.virtual_polys ensures is_table(d, b, id) {
    assert forall|x: int| 0 <= x < p2(d.num_vars as int) implies #[trigger] d.evaluations@[x] == pt_val(b, id, at_bool(x)) by { assert(d.evaluations@[x] == pt_val(a, id, at_bool(x))); }
}
//@fn src/tracker/prover_tracker.rs::ProverTracker::evaluations
//@@ requires
        pt_wf(*old(self)), pt_has(*old(self), id),
//@@ ensures
        pt_wf(*final(self)), pt_cached(*old(self), *final(self)), pt_kept(*old(self), *final(self)), ret@.len() == p2(pt_nv(*old(self), id)), forall|b: int| 0 <= b < ret@.len() ==> #[trigger] ret@[b] == pt_val(*old(self), id, at_bool(b)),
        old(self).materialized_polys@.contains_key(id) ==> *final(self) == *old(self) && ret@ == old(self).materialized_polys@[id].evaluations@,
//@@ decreases
        pt_rank(*old(self), id), 1int,
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::evaluate
//@@ requires
        pt_wf(*self), pt_has(*self, id), pt@.len() == pt_nv(*self, id),
//@@ ensures
        ret == Some(pt_val(*self, id, at_point(pt@))),
//@@ decreases
        pt_rank(*self, id),
//@@ entry
    broadcast use funits, vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost m = self.materialized_polys@; let ghost nv0 = pt_nv(*self, id); let ghost ar = arep(self.virtual_polys@[id]@); let ghost t = at_point(pt@);
    proof { if !m.contains_key(id) { assert(rep_ok(m, self.virtual_polys@[id]@, nv0)); } }
//@@ inv 0
            zk_n0 == ar.len(), virt_poly@ == self.virtual_polys@[id]@, zk_acc0@.len() == zk_i0, forall|i: int| 0 <= i < zk_i0 ==> #[trigger] zk_acc0@[i] == fmul(ar[i].0, term_val(m, ar[i].1, t)),
//@@ start 0
            let ghost ids = ar[zk_i0 as int].1; let ghost c = ar[zk_i0 as int].0; assert(ids_ok(m, ids, nv0));
//@@ inv 1
                zk_n1 == ids.len(), prod@ == ids, res == fmul(c, tprod(m, ids, zk_i1 as int, t)),
//@@ start 1
                assert(m.contains_key(ids[zk_i1 as int]));
//@@ end 1
                proof { tprod_step(m, ids, zk_k1 as int, c, t); }
//@@ after 1
            proof { tprod_all(m, ids, t); }
//@@ inv 2
        zk_n2 == ar.len(), prod_evals@.len() == ar.len(), eval == apart(m, ar, zk_i2 as int, t),
//@@ start 2
        proof { apart_step(m, ar, zk_i2 as int, t); }
//@@ after 2
    proof { apart_all(m, ar, t); }
//@end
// a vector's buffer is at most isize::MAX bytes and a shared pointer is 8 of them
#[verifier::external_body] pub proof fn vec_cap(v: &Vec<Arc<DenseMultilinearExtension>>) ensures v@.len() < 0x1000_0000_0000_0000 { }
//@fn src/tracker/prover_tracker.rs::ProverTracker::to_arithmatic_virtual_poly
//@@ requires
        pt_wf(*self), pt_has(*self, id),
//@@ ensures
        vp_wf(ret), ret.aux_info.num_variables == pt_nv(*self, id), forall|t: TVal| #[trigger] vpm(ret, t) == pt_val(*self, id, t), ret.aux_info.max_degree >= 1,
        nonempty_products(ret.products@), ret.aux_info.max_degree < 0x1000_0000_0000_0000,
//@@ entry
    broadcast use funits, vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost m = self.materialized_polys@; let ghost nv0 = pt_nv(*self, id); let ghost ar = arep(self.virtual_polys@[id]@);
    proof { if !m.contains_key(id) { let v = self.virtual_polys@[id]@; assert(rep_ok(m, v, nv0)); assert(ar[0].1 == v[0].1@); assert(ids_ok(m, ar[0].1, nv0)); assert(m.contains_key(v[0].1@[0])); } }
//@@ inv 0
            zk_n0 == ar.len(), vp_wf(arith_virt_poly), arith_virt_poly.aux_info.num_variables == nv0, zk_i0 > 0 ==> arith_virt_poly.aux_info.max_degree >= 1, nonempty_products(arith_virt_poly.products@), arith_virt_poly.aux_info.max_degree < 0x1000_0000_0000_0000,
            forall|t: TVal| #[trigger] vpm(arith_virt_poly, t) == apart(m, ar, zk_i0 as int, t),
//@@ start 0
            let ghost ids = ar[zk_i0 as int].1; let ghost c = ar[zk_i0 as int].0; assert(ids_ok(m, ids, nv0)); let ghost vp0 = arith_virt_poly;
//@@ inv 1
                zk_n1 == ids.len(), prod@ == ids, zk_acc0@.len() == zk_i1, forall|j: int| 0 <= j < zk_i1 ==> m.contains_key(ids[j]) && #[trigger] zk_acc0@[j] == m[ids[j]],
//@@ start 1
                assert(m.contains_key(ids[zk_i1 as int]));
//@@ after-let prod_mle_list
            proof { vec_cap(&prod_mle_list); } let ghost ml = prod_mle_list@; assert forall|i: int| 0 <= i < ml.len() implies dwf(*#[trigger] ml[i]) by { assert(m.contains_key(ids[i])); } assert forall|i: int| 0 <= i < ml.len() implies (#[trigger] ml[i]).num_vars == nv0 by { assert(m.contains_key(ids[i])); }
//@@ end 0
            proof { assert forall|t: TVal| #[trigger] vpm(arith_virt_poly, t) == apart(m, ar, zk_i0 as int, t) by { assert(vpm(vp0, t) == apart(m, ar, zk_k0 as int, t)); apart_step(m, ar, zk_k0 as int, t); fprod_eq(ml.len() as int, |j: int| t(*ml[j]), |j: int| t(*m[ids[j]])); } }
//@@ tail
    proof { assert forall|t: TVal| #[trigger] vpm(zk_ret, t) == pt_val(*self, id, t) by { apart_all(m, ar, t); } }
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::mul_scalar
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), pt_has(*old(self), poly_id),
//@@ ensures
        pt_new(*old(self), *final(self), ret), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1,
        pt_nv(*final(self), ret) == pt_nv(*old(self), poly_id),
        forall|t: TVal| #[trigger] pt_val(*final(self), ret, t) == fmul(c, pt_val(*old(self), poly_id, t)),
//@@ vartype
new_virt_rep: Vec<(F, Vec<TrackerID>)>
//@@ entry
    broadcast use funits;
    let ghost a = *self; let ghost m = self.materialized_polys@; let ghost nv = pt_nv(*self, poly_id); let ghost r = pt_rep(*self, poly_id);
    proof { pt_rep_val(a, poly_id); assert forall|x: F, y: F| fmul(x, y) == #[trigger] fmul(y, x) by { fmul_comm(x, y); } }
//@@ inv 0
            zk_s0@ == a.virtual_polys@[poly_id]@, zk_n0 == r.len(), r == arep(a.virtual_polys@[poly_id]@), arep(new_virt_rep@) == ascale(c, r.subrange(0, zk_i0 as int)),
//@@ before 0
            assert(arep(new_virt_rep@) =~~= ascale(c, r.subrange(0, 0)));
//@@ start 0
            let ghost v0 = new_virt_rep@;
//@@ end 0
            proof { arep_push(v0, new_virt_rep@.last()); ascale_push(c, r, zk_i0 - 1); assert(arep(new_virt_rep@) =~~= ascale(c, r.subrange(0, zk_i0 as int))); }
//@@ pretail
    proof { assert(r.subrange(0, r.len() as int) =~= r); assert(arep(new_virt_rep@) =~~= ascale(c, r));
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] arep(new_virt_rep@)[i]).1.len() > 0 && ids_ok(m, arep(new_virt_rep@)[i].1, nv) by { assert(r[i].1.len() > 0); }
        rep_nv_ok(m, new_virt_rep@, nv); assert forall|t: TVal| #[trigger] rep_val(m, new_virt_rep@, t) == fmul(c, pt_val(a, poly_id, t)) by { ascale_val(m, c, r, t); } }
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::add_scalar
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), old(self).id_counter < 0x7fff_ffff_ffff_fff0, pt_has(*old(self), poly_id),
//@@ ensures
        pt_new(*old(self), *final(self), ret), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter + 1, final(self).id_counter == old(self).id_counter + 2,
        pt_nv(*final(self), ret) == pt_nv(*old(self), poly_id),
        // on the hypercube and at every point
        forall|b: int| 0 <= b < p2(pt_nv(*old(self), poly_id)) ==> #[trigger] pt_val(*final(self), ret, at_bool(b)) == fadd(pt_val(*old(self), poly_id, at_bool(b)), c),
        forall|x: Seq<F>| x.len() == pt_nv(*old(self), poly_id) ==> #[trigger] pt_val(*final(self), ret, at_point(x)) == fadd(pt_val(*old(self), poly_id, at_point(x)), c),
//@@ entry
    broadcast use ipow_p2;
    let ghost a = *self; let ghost n = pt_nv(a, poly_id);
    proof { pt_nv_small(a, poly_id); p2_mono(n, 62); p2_64(); p2_pos(n); }
//@@ tail
    proof {
        assert forall|x: Seq<F>| x.len() == n implies #[trigger] pt_val(*self, zk_ret, at_point(x)) == fadd(pt_val(a, poly_id, at_point(x)), c) by { mle_const(Seq::new(p2(n) as nat, |i: int| c), x, c); }
    }
//@end
pub proof fn pt_nv_small(p: ProverTracker, id: TrackerID) requires pt_wf(p), pt_has(p, id) ensures 0 <= pt_nv(p, id) < 63 { let m = p.materialized_polys@; if !m.contains_key(id) { let v = p.virtual_polys@[id]@; assert(arep(v)[0].1 == v[0].1@); assert(ids_ok(m, v[0].1@, pt_nv(p, id))); assert(m.contains_key(v[0].1@[0])); assert(dwf(*m[v[0].1@[0]])); } else { assert(dwf(*m[id])); } }
//@fn src/tracker/prover_tracker.rs::ProverTracker::get_and_append_challenge
//@@ ensures
        *final(self) == (ProverTracker { transcript: final(self).transcript, ..*old(self) }), final(self).transcript.is_empty == old(self).transcript.is_empty,
        old(self).transcript.is_empty ==> ret.is_err() && *final(self) == *old(self),
        !old(self).transcript.is_empty ==> ret.is_ok() && ret.unwrap() == chal(ilog(old(self).transcript), label@) && ilog(final(self).transcript) == after_chal(ilog(old(self).transcript), label@),
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::append_serializable_element | generics=<S:ZkSer>
//@@ ensures
        ret.is_ok(), *final(self) == (ProverTracker { transcript: final(self).transcript, ..*old(self) }), !final(self).transcript.is_empty,
        ilog(final(self).transcript) == ilog(old(self).transcript).push(TEv::Msg(label@, group_elem.zk_ser())),
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::add_sumcheck_claim
//@@ ensures
        final(self).sum_check_claims@ == old(self).sum_check_claims@.push(TrackerSumcheckClaim { label: poly_id, claimed_sum }), *final(self) == (ProverTracker { sum_check_claims: final(self).sum_check_claims, ..*old(self) }),
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::add_zerocheck_claim
//@@ ensures
        final(self).zero_check_claims@.len() == old(self).zero_check_claims@.len() + 1, final(self).zero_check_claims@.drop_last() == old(self).zero_check_claims@, final(self).zero_check_claims@.last().label == poly_id, *final(self) == (ProverTracker { zero_check_claims: final(self).zero_check_claims, ..*old(self) }),
//@end

pub proof fn mle_const(ev: Seq<F>, x: Seq<F>, c: F) requires ev.len() == p2(x.len() as int), forall|i: int| 0 <= i < ev.len() ==> #[trigger] ev[i] == c ensures mlev(ev, x) == c decreases x.len() {
    if x.len() == 0 { mle_nil(ev, x); }
    else {
        mle_fold_lo(ev, x); let g = fold_lo(ev, x[0]); p2_pos(x.len() - 1);
        assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] == c by { assert(ev[2 * i] == c); assert(ev[2 * i + 1] == c); broadcast use fhom; let (y, z) = (frep(c), frep(x[0])); assert(y + (y - y) * z == y) by(nonlinear_arith); }
        mle_const(g, x.subrange(1, x.len() as int), c);
    }
}
//@fn src/tracker/prover_tracker.rs::ProverTracker::increase_nv_front
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), pt_has(*old(self), poly_id), pt_nv(*old(self), poly_id) + added_nv < 62,
//@@ ensures
        pt_wf(*final(self)), pt_ext(*old(self), *final(self)), pt_same_log(*old(self), *final(self)), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1, pt_has(*final(self), ret),
        final(self).materialized_polys@.contains_key(ret), pt_nv(*final(self), ret) == pt_nv(*old(self), poly_id) + added_nv,
        // the new low variables do not matter
        forall|b: int| 0 <= b < p2(pt_nv(*final(self), ret)) ==> #[trigger] pt_val(*final(self), ret, at_bool(b)) == pt_val(*old(self), poly_id, at_bool(b / p2(added_nv as int))),
//@@ entry
    let ghost a = *self; let ghost n = pt_nv(a, poly_id);
    proof { pt_nv_small(a, poly_id); }
//@@ tail
    proof {
        let d = self.materialized_polys@[zk_ret]; let k = p2(added_nv as int); p2_add(n, added_nv as int); p2_pos(n); p2_pos(added_nv as int);
        assert forall|b: int| 0 <= b < p2(n + added_nv) implies #[trigger] pt_val(*self, zk_ret, at_bool(b)) == pt_val(a, poly_id, at_bool(b / k)) by {
            assert(0 <= b / k < p2(n)) by { lemma_div_pos_is_pos(b, k); lemma_multiply_divide_lt(b, k, p2(n)); }
            assert(pt_val(*self, zk_ret, at_bool(b)) == d.evaluations@[b]);
        }
    }
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::increase_nv_back
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), pt_has(*old(self), poly_id), pt_nv(*old(self), poly_id) + added_nv < 62,
//@@ ensures
        pt_wf(*final(self)), pt_ext(*old(self), *final(self)), pt_same_log(*old(self), *final(self)), pt_kept(*old(self), *final(self)), ret.0 == old(self).id_counter, final(self).id_counter == old(self).id_counter + 1, pt_has(*final(self), ret),
        final(self).materialized_polys@.contains_key(ret), pt_nv(*final(self), ret) == pt_nv(*old(self), poly_id) + added_nv,
        // the new high variables do not matter
        forall|b: int| 0 <= b < p2(pt_nv(*final(self), ret)) ==> #[trigger] pt_val(*final(self), ret, at_bool(b)) == pt_val(*old(self), poly_id, at_bool(b % p2(pt_nv(*old(self), poly_id)))),
//@@ entry
    let ghost a = *self; let ghost n = pt_nv(a, poly_id);
    proof { pt_nv_small(a, poly_id); }
//@@ tail
    proof {
        let d = self.materialized_polys@[zk_ret]; let k = p2(n); p2_add(n, added_nv as int); p2_pos(n); p2_pos(added_nv as int);
        assert forall|b: int| 0 <= b < p2(n + added_nv) implies #[trigger] pt_val(*self, zk_ret, at_bool(b)) == pt_val(a, poly_id, at_bool(b % k)) by {
            lemma_mod_bound(b, k);
            assert(pt_val(*self, zk_ret, at_bool(b)) == d.evaluations@[b]);
        }
    }
//@end
//@fn src/tracker/prover_tracker.rs::ProverTracker::track_and_commit_mat_poly
//@@ requires
        pt_wf(*old(self)), pt_room(*old(self)), dwf(polynomial),
//@@ ensures
        ret.is_err() <==> !pcs_fits(old(self).pcs_param, polynomial.num_vars as int), ret.is_err() ==> *final(self) == *old(self),
        ret.is_ok() ==> {
            let c = pcs_com(old(self).pcs_param, polynomial); let id = ret.unwrap();
            &&& pt_wf(*final(self)) && pt_ext(*old(self), *final(self)) && pt_kept(*old(self), *final(self)) && id.0 == old(self).id_counter && final(self).id_counter == old(self).id_counter + 1
            &&& final(self).materialized_polys@.contains_key(id) && pt_nv(*final(self), id) == polynomial.num_vars && forall|t: TVal| #[trigger] pt_val(*final(self), id, t) == t(polynomial)
            // the commitment is recorded under the handle and absorbed
            &&& final(self).materialized_comms@ == old(self).materialized_comms@.insert(id, c)
            &&& ilog(final(self).transcript) == ilog(old(self).transcript).push(TEv::Msg("comm"@, ser_comm(c))) && !final(self).transcript.is_empty
            &&& final(self).sum_check_claims@ == old(self).sum_check_claims@ && final(self).zero_check_claims@ == old(self).zero_check_claims@ && final(self).pcs_param == old(self).pcs_param
        },
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ after-let poly_id
    let ghost b = *self;
//@@ tail
    proof { pt_frame(b, *self); assert(pt_kept(a, b)); assert forall|id: TrackerID, t: TVal| pt_has(a, id) implies #[trigger] pt_val(*self, id, t) == pt_val(a, id, t) by { assert(pt_val(b, id, t) == pt_val(a, id, t)); } 
        assert forall|id: TrackerID| pt_has(a, id) implies #[trigger] pt_nv(*self, id) == pt_nv(a, id) by { assert(pt_nv(b, id) == pt_nv(a, id)); } 
        assert forall|id: TrackerID| pt_has(a, id) implies #[trigger] pt_has(*self, id) by { assert(pt_has(b, id)); } }
//@end
/// the log, the claims and the commitments do not enter the meaning of a handle
pub proof fn pt_frame(a: ProverTracker, b: ProverTracker)
    requires a.materialized_polys == b.materialized_polys, a.virtual_polys == b.virtual_polys, a.id_counter == b.id_counter, a.cached_evaluations == b.cached_evaluations
    ensures pt_wf(a) ==> pt_wf(b), pt_ext(a, b), forall|id: TrackerID, t: TVal| #[trigger] pt_val(b, id, t) == pt_val(a, id, t), forall|id: TrackerID| #[trigger] pt_nv(b, id) == pt_nv(a, id), forall|id: TrackerID| #[trigger] pt_has(b, id) == pt_has(a, id)
{
    if pt_wf(a) { assert forall|i: TrackerID| #[trigger] b.cached_evaluations@.contains_key(i) implies b.virtual_polys@.contains_key(i) && is_table(*b.cached_evaluations@[i], b, i) by { assert(is_table(*a.cached_evaluations@[i], a, i)); same_table(*a.cached_evaluations@[i], a, b, i); } }
}
