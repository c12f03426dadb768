// ---- both trackers run side by side ----
pub open spec fn same_zero(c: Seq<TrackerZerocheckClaim>, d: Seq<TrackerZerocheckClaim>) -> bool { c.len() == d.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).label == d[i].label }
/// every committed table is a table of the prover
pub open spec fn coms_in(p: ProverTracker) -> bool { forall|id: TrackerID| #[trigger] p.materialized_comms@.contains_key(id) ==> p.materialized_polys@.contains_key(id) }
/// answers that give every committed table its true value at every point
pub open spec fn honest(p: ProverTracker, q: QM) -> bool { forall|id: TrackerID, x: Seq<F>| p.materialized_comms@.contains_key(id) && x.len() == pt_nv(p, id) ==> #[trigger] q.contains_key((id, x)) && q[(id, x)] == pt_val(p, id, at_point(x)) }
/// a handle of both sides whose derived commitment evaluates, at every corner, to the prover's polynomial
pub open spec fn ag(p: ProverTracker, v: VerifierTracker, id: TrackerID) -> bool { pt_has(p, id) && vt_has(v, id) && forall|q: QM, b: int| honest(p, q) && 0 <= b < p2(pt_nv(p, id)) ==> #[trigger] vt_val(v, id, q, fbits(b, pt_nv(p, id))) == pt_val(p, id, at_bool(b)) && vt_def(v, id, q, fbits(b, pt_nv(p, id))) }
/// ... and at every point
pub open spec fn agx(p: ProverTracker, v: VerifierTracker, id: TrackerID) -> bool { pt_has(p, id) && vt_has(v, id) && forall|q: QM, x: Seq<F>| honest(p, q) && x.len() == pt_nv(p, id) ==> #[trigger] vt_val(v, id, q, x) == pt_val(p, id, at_point(x)) && vt_def(v, id, q, x) }
/// same transcript, same next handle, same commitments and claims in the same order, each about a handle both sides agree on
pub open spec fn lk(p: ProverTracker, v: VerifierTracker) -> bool {
    &&& pt_wf(p) && vt_wf(v) && p.id_counter == v.id_counter && ilog(p.transcript) == ilog(v.transcript) && p.transcript.is_empty == v.transcript.is_empty
    &&& p.materialized_comms@ == v.materialized_comms@ && coms_in(p)
    &&& p.sum_check_claims@ == v.sum_check_claims@ && same_zero(v.zero_check_claims@, p.zero_check_claims@)
    &&& forall|i: int| 0 <= i < p.sum_check_claims@.len() ==> ag(p, v, (#[trigger] p.sum_check_claims@[i]).label)
    &&& forall|i: int| 0 <= i < p.zero_check_claims@.len() ==> ag(p, v, (#[trigger] p.zero_check_claims@[i]).label)
}
/// nothing either side knew was lost
pub open spec fn grows(p: ProverTracker, v: VerifierTracker, p1: ProverTracker, v1: VerifierTracker) -> bool {
    pt_kept(p, p1) && vt_kept(v, v1) && forall|id: TrackerID| #[trigger] p.materialized_comms@.contains_key(id) ==> p1.materialized_comms@.contains_key(id)
}
/// a step of both sides: still in lockstep, and every agreement stands
pub open spec fn step(p: ProverTracker, v: VerifierTracker, p1: ProverTracker, v1: VerifierTracker) -> bool {
    &&& lk(p1, v1) && grows(p, v, p1, v1)
    &&& forall|id: TrackerID| ag(p, v, id) ==> #[trigger] ag(p1, v1, id)
    &&& forall|id: TrackerID| agx(p, v, id) ==> #[trigger] agx(p1, v1, id)
}
pub proof fn honest_kept(p: ProverTracker, v: VerifierTracker, p1: ProverTracker, v1: VerifierTracker, q: QM) requires coms_in(p), grows(p, v, p1, v1), honest(p1, q) ensures honest(p, q) {
    assert forall|id: TrackerID, x: Seq<F>| p.materialized_comms@.contains_key(id) && x.len() == pt_nv(p, id) implies #[trigger] q.contains_key((id, x)) && q[(id, x)] == pt_val(p, id, at_point(x)) by {
        assert(p.materialized_polys@.contains_key(id)); assert(pt_has(p, id)); assert(pt_nv(p1, id) == pt_nv(p, id)); assert(pt_val(p1, id, at_point(x)) == pt_val(p, id, at_point(x))); assert(p1.materialized_comms@.contains_key(id)); assert(q.contains_key((id, x))); assert(q[(id, x)] == pt_val(p1, id, at_point(x)));
    }
}
pub proof fn ag_kept(p: ProverTracker, v: VerifierTracker, p1: ProverTracker, v1: VerifierTracker, id: TrackerID) requires coms_in(p), grows(p, v, p1, v1) ensures ag(p, v, id) ==> ag(p1, v1, id), agx(p, v, id) ==> agx(p1, v1, id) {
    if pt_has(p, id) && vt_has(v, id) {
        let nv = pt_nv(p, id); assert(pt_nv(p1, id) == nv); assert(vt_has(v1, id)); assert(pt_has(p1, id));
        if ag(p, v, id) {
            assert forall|q: QM, b: int| honest(p1, q) && 0 <= b < p2(nv) implies #[trigger] vt_val(v1, id, q, fbits(b, nv)) == pt_val(p1, id, at_bool(b)) && vt_def(v1, id, q, fbits(b, nv)) by {
                honest_kept(p, v, p1, v1, q); assert(vt_val(v1, id, q, fbits(b, nv)) == vt_val(v, id, q, fbits(b, nv))); assert(vt_def(v1, id, q, fbits(b, nv)) == vt_def(v, id, q, fbits(b, nv))); assert(pt_val(p1, id, at_bool(b)) == pt_val(p, id, at_bool(b))); }
        }
        if agx(p, v, id) {
            assert forall|q: QM, x: Seq<F>| honest(p1, q) && x.len() == nv implies #[trigger] vt_val(v1, id, q, x) == pt_val(p1, id, at_point(x)) && vt_def(v1, id, q, x) by {
                honest_kept(p, v, p1, v1, q); assert(vt_val(v1, id, q, x) == vt_val(v, id, q, x)); assert(vt_def(v1, id, q, x) == vt_def(v, id, q, x)); assert(pt_val(p1, id, at_point(x)) == pt_val(p, id, at_point(x))); }
        }
    }
}
/// both sides issued the same handles and left log, commitments and claims alone
pub proof fn step_quiet(p: ProverTracker, v: VerifierTracker, p1: ProverTracker, v1: VerifierTracker)
    requires lk(p, v), pt_wf(p1), vt_wf(v1), p1.id_counter == v1.id_counter, pt_same_log(p, p1), vt_same_log(v, v1), pt_kept(p, p1), vt_kept(v, v1), coms_in(p1)
    ensures step(p, v, p1, v1)
{
    assert(grows(p, v, p1, v1));
    assert forall|id: TrackerID| ag(p, v, id) implies #[trigger] ag(p1, v1, id) by { ag_kept(p, v, p1, v1, id); }
    assert forall|id: TrackerID| agx(p, v, id) implies #[trigger] agx(p1, v1, id) by { ag_kept(p, v, p1, v1, id); }
    assert forall|i: int| 0 <= i < p1.sum_check_claims@.len() implies ag(p1, v1, (#[trigger] p1.sum_check_claims@[i]).label) by { assert(ag(p, v, p.sum_check_claims@[i].label)); }
    assert forall|i: int| 0 <= i < p1.zero_check_claims@.len() implies ag(p1, v1, (#[trigger] p1.zero_check_claims@[i]).label) by { assert(ag(p, v, p.zero_check_claims@[i].label)); }
}
pub proof fn coms_ext(p: ProverTracker, p1: ProverTracker) requires coms_in(p), sub_map(p.materialized_polys@, p1.materialized_polys@), p1.materialized_comms@ == p.materialized_comms@ ensures coms_in(p1) {
    assert forall|id: TrackerID| #[trigger] p1.materialized_comms@.contains_key(id) implies p1.materialized_polys@.contains_key(id) by { assert(p.materialized_polys@.contains_key(id)); }
}
pub proof fn fbits_len(b: int, m: int) requires m >= 0 ensures fbits(b, m).len() == m decreases m { if m > 0 { fbits_len(b / 2, m - 1); } }
/// the high bits, the low bits
pub proof fn fbits_hi(b: int, m: int, k: int) requires 0 <= k <= m, 0 <= b ensures fbits(b, m).subrange(k, m) == fbits(b / p2(k), m - k), fbits(b, m).len() == m decreases k {
    fbits_len(b, m);
    if k == 0 { assert(fbits(b, m).subrange(0, m) =~= fbits(b, m)); assert(b / p2(0) == b); }
    else { fbits_hi(b / 2, m - 1, k - 1); p2_pos(k - 1); assert(p2(k) == 2 * p2(k - 1)); lemma_div_denominator(b, 2, p2(k - 1)); let t = fbits(b / 2, m - 1); let r = fbits(b, m); assert(r.subrange(k, m) =~= t.subrange(k - 1, m - 1)); }
}
pub proof fn fbits_lo(b: int, m: int, j: int) requires 0 <= j <= m, 0 <= b ensures fbits(b, m).subrange(0, j) == fbits(b % p2(j), j) decreases j {
    fbits_len(b, m);
    if j == 0 { assert(fbits(b, m).subrange(0, 0) =~= fbits(b % p2(0), 0)); }
    else {
        fbits_lo(b / 2, m - 1, j - 1); p2_pos(j - 1); let n = p2(j - 1); assert(p2(j) == 2 * n); let c = b % (2 * n);
        lemma_fundamental_div_mod(b, 2 * n); let h = b / (2 * n); lemma_mod_bound(b, 2 * n); assert(b == 2 * (n * h) + c) by(nonlinear_arith) requires b == (2 * n) * h + c; assert(c % 2 == b % 2); assert(b / 2 == n * h + c / 2);
        assert(n * h == h * n) by(nonlinear_arith); lemma_fundamental_div_mod_converse(b / 2, n, h, c / 2); assert((b / 2) % n == c / 2);
        let t = fbits(b / 2, m - 1); fbits_len(b / 2, m - 1); fbits_len(c, j); let r = fbits(b, m); assert(r.subrange(0, j) =~= fbits(c, j)) by { let u = t.subrange(0, j - 1); assert(u == fbits(c / 2, j - 1)); assert forall|i: int| 0 <= i < j implies r[i] == fbits(c, j)[i] by { if i > 0 { assert(r[i] == t[i - 1]); assert(u[i - 1] == t[i - 1]); } } }
    }
}
/// agreement at every point includes the corners when the prover's handle is a single table
pub proof fn agx_ag(p: ProverTracker, v: VerifierTracker, id: TrackerID) requires pt_wf(p), agx(p, v, id), p.materialized_polys@.contains_key(id) ensures ag(p, v, id) {
    let nv = pt_nv(p, id); let d = *p.materialized_polys@[id]; assert(dwf(d));
    assert forall|q: QM, b: int| honest(p, q) && 0 <= b < p2(nv) implies #[trigger] vt_val(v, id, q, fbits(b, nv)) == pt_val(p, id, at_bool(b)) && vt_def(v, id, q, fbits(b, nv)) by { mlev_bits(d.evaluations@, b, nv); assert(vt_val(v, id, q, fbits(b, nv)) == pt_val(p, id, at_point(fbits(b, nv)))); }
}
// -- each operation of the prover followed by its counterpart of the verifier --
pub open spec fn ls_room(p: ProverTracker) -> bool { p.id_counter < 0x7fff_ffff_ffff_fff0 }
pub proof fn mk_agx(p: ProverTracker, v: VerifierTracker, id: TrackerID) requires pt_has(p, id), vt_has(v, id), forall|q: QM, x: Seq<F>| honest(p, q) && x.len() == pt_nv(p, id) ==> #[trigger] vt_val(v, id, q, x) == pt_val(p, id, at_point(x)) && vt_def(v, id, q, x) ensures agx(p, v, id) { hide(pt_val); hide(mval); hide(mdef); hide(pt_nv); }
/// values at corners and at points combined alike on both sides
pub proof fn ag_bin(e: ProverTracker, w: VerifierTracker, p: ProverTracker, v: VerifierTracker, a: TrackerID, b: TrackerID, r: TrackerID, g: spec_fn(F, F) -> F)
    requires coms_in(e), grows(e, w, p, v), ag(e, w, a), ag(e, w, b), pt_has(p, r), vt_has(v, r), pt_nv(p, r) == pt_nv(e, a), pt_nv(e, a) == pt_nv(e, b),
        forall|t: TVal| #[trigger] pt_val(p, r, t) == g(pt_val(e, a, t), pt_val(e, b, t)),
        forall|q: QM, x: Seq<F>| #[trigger] vt_val(v, r, q, x) == g(vt_val(w, a, q, x), vt_val(w, b, q, x)), forall|q: QM, x: Seq<F>| #[trigger] vt_def(v, r, q, x) == (vt_def(w, a, q, x) && vt_def(w, b, q, x))
    ensures ag(p, v, r), agx(e, w, a) && agx(e, w, b) ==> agx(p, v, r)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    let nv = pt_nv(e, a);
    assert forall|q: QM, b0: int| honest(p, q) && 0 <= b0 < p2(nv) implies #[trigger] vt_val(v, r, q, fbits(b0, nv)) == pt_val(p, r, at_bool(b0)) && vt_def(v, r, q, fbits(b0, nv)) by { honest_kept(e, w, p, v, q); let t = fbits(b0, nv); assert(vt_val(w, a, q, t) == pt_val(e, a, at_bool(b0))); assert(vt_val(w, b, q, t) == pt_val(e, b, at_bool(b0))); assert(vt_def(v, r, q, t)); }
    assert(ag(p, v, r));
    if agx(e, w, a) && agx(e, w, b) {
        assert forall|q: QM, x: Seq<F>| honest(p, q) && x.len() == nv implies #[trigger] vt_val(v, r, q, x) == pt_val(p, r, at_point(x)) && vt_def(v, r, q, x) by { honest_kept(e, w, p, v, q); assert(vt_val(w, a, q, x) == pt_val(e, a, at_point(x))); assert(vt_val(w, b, q, x) == pt_val(e, b, at_point(x))); assert(vt_def(v, r, q, x)); }
        mk_agx(p, v, r);
    }
}
pub proof fn ag_un(e: ProverTracker, w: VerifierTracker, p: ProverTracker, v: VerifierTracker, a: TrackerID, r: TrackerID, g: spec_fn(F) -> F)
    requires coms_in(e), grows(e, w, p, v), ag(e, w, a), pt_has(p, r), vt_has(v, r), pt_nv(p, r) == pt_nv(e, a),
        forall|b: int| 0 <= b < p2(pt_nv(e, a)) ==> #[trigger] pt_val(p, r, at_bool(b)) == g(pt_val(e, a, at_bool(b))), forall|x: Seq<F>| x.len() == pt_nv(e, a) ==> #[trigger] pt_val(p, r, at_point(x)) == g(pt_val(e, a, at_point(x))),
        forall|q: QM, x: Seq<F>| #[trigger] vt_val(v, r, q, x) == g(vt_val(w, a, q, x)), forall|q: QM, x: Seq<F>| #[trigger] vt_def(v, r, q, x) == vt_def(w, a, q, x)
    ensures ag(p, v, r), agx(e, w, a) ==> agx(p, v, r)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    let nv = pt_nv(e, a);
    assert forall|q: QM, b0: int| honest(p, q) && 0 <= b0 < p2(nv) implies #[trigger] vt_val(v, r, q, fbits(b0, nv)) == pt_val(p, r, at_bool(b0)) && vt_def(v, r, q, fbits(b0, nv)) by { honest_kept(e, w, p, v, q); let t = fbits(b0, nv); assert(vt_val(w, a, q, t) == pt_val(e, a, at_bool(b0))); assert(vt_def(v, r, q, t)); }
    assert(ag(p, v, r));
    if agx(e, w, a) {
        assert forall|q: QM, x: Seq<F>| honest(p, q) && x.len() == nv implies #[trigger] vt_val(v, r, q, x) == pt_val(p, r, at_point(x)) && vt_def(v, r, q, x) by { honest_kept(e, w, p, v, q); assert(vt_val(w, a, q, x) == pt_val(e, a, at_point(x))); assert(vt_def(v, r, q, x)); }
        mk_agx(p, v, r);
    }
}
pub proof fn ag_front(e: ProverTracker, w: VerifierTracker, p: ProverTracker, v: VerifierTracker, a: TrackerID, r: TrackerID, k: int)
    requires pt_wf(e), pt_wf(p), coms_in(e), grows(e, w, p, v), ag(e, w, a), pt_has(p, r), vt_has(v, r), k >= 0, pt_nv(p, r) == pt_nv(e, a) + k, p.materialized_polys@.contains_key(r),
        forall|b: int| 0 <= b < p2(pt_nv(p, r)) ==> #[trigger] pt_val(p, r, at_bool(b)) == pt_val(e, a, at_bool(b / p2(k))),
        forall|q: QM, x: Seq<F>| #[trigger] vt_val(v, r, q, x) == vt_val(w, a, q, x.subrange(k, x.len() as int)), forall|q: QM, x: Seq<F>| #[trigger] vt_def(v, r, q, x) == (k <= x.len() && vt_def(w, a, q, x.subrange(k, x.len() as int)))
    ensures ag(p, v, r), agx(e, w, a) && e.materialized_polys@.contains_key(a) ==> agx(p, v, r)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    pt_nv_small(e, a); pad_front_x(e, p, a, r, k);
    let n0 = pt_nv(e, a); let nv = n0 + k; p2_pos(k); p2_pos(n0); p2_add(k, n0);
    assert forall|q: QM, b0: int| honest(p, q) && 0 <= b0 < p2(nv) implies #[trigger] vt_val(v, r, q, fbits(b0, nv)) == pt_val(p, r, at_bool(b0)) && vt_def(v, r, q, fbits(b0, nv)) by { honest_kept(e, w, p, v, q); fbits_len(b0, nv); let t = fbits(b0, nv); fbits_hi(b0, nv, k); lemma_div_pos_is_pos(b0, p2(k)); lemma_multiply_divide_lt(b0, p2(k), p2(n0)); let u = t.subrange(k, t.len() as int); let c = b0 / p2(k); assert(u == fbits(c, n0)); assert(vt_val(w, a, q, u) == pt_val(e, a, at_bool(c))); assert(vt_def(v, r, q, t)); }
    assert(ag(p, v, r));
    if agx(e, w, a) && e.materialized_polys@.contains_key(a) {
        assert forall|q: QM, x: Seq<F>| honest(p, q) && x.len() == nv implies #[trigger] vt_val(v, r, q, x) == pt_val(p, r, at_point(x)) && vt_def(v, r, q, x) by { honest_kept(e, w, p, v, q); let u = x.subrange(k, x.len() as int); assert(vt_val(w, a, q, u) == pt_val(e, a, at_point(u))); assert(pt_val(p, r, at_point(x)) == pt_val(e, a, at_point(u))); assert(vt_def(v, r, q, x)); }
        mk_agx(p, v, r);
    }
}
/// padding a single table pads its extension
pub proof fn pad_front_x(e: ProverTracker, p: ProverTracker, a: TrackerID, r: TrackerID, k: int)
    requires pt_wf(e), pt_wf(p), k >= 0, p.materialized_polys@.contains_key(r), pt_has(e, a), pt_nv(p, r) == pt_nv(e, a) + k, forall|b: int| 0 <= b < p2(pt_nv(p, r)) ==> #[trigger] pt_val(p, r, at_bool(b)) == pt_val(e, a, at_bool(b / p2(k)))
    ensures e.materialized_polys@.contains_key(a) ==> forall|x: Seq<F>| x.len() == pt_nv(p, r) ==> #[trigger] pt_val(p, r, at_point(x)) == pt_val(e, a, at_point(x.subrange(k, x.len() as int)))
{
    if e.materialized_polys@.contains_key(a) {
        let n0 = pt_nv(e, a); let nv = n0 + k; pt_nv_small(e, a); p2_pos(k); p2_pos(n0); p2_add(k, n0);
        let d = *e.materialized_polys@[a]; let o = *p.materialized_polys@[r]; assert(dwf(d)); assert(dwf(o)); let out = o.evaluations@; let ev = d.evaluations@; assert(p2(nv) == p2(n0) * p2(k)) by(nonlinear_arith) requires p2(k + n0) == p2(k) * p2(n0), nv == n0 + k;
        assert forall|i: int| 0 <= i < out.len() implies #[trigger] out[i] == ev[i / p2(k)] by { assert(pt_val(p, r, at_bool(i)) == pt_val(e, a, at_bool(i / p2(k)))); }
        assert forall|x: Seq<F>| x.len() == pt_nv(p, r) implies #[trigger] pt_val(p, r, at_point(x)) == pt_val(e, a, at_point(x.subrange(k, x.len() as int))) by { let u = x.subrange(k, x.len() as int); let z = x.subrange(0, k); assert(x =~= z + u); mle_padded_front(out, ev, z, u); assert(pt_val(p, r, at_point(x)) == at_point(x)(o)); assert(pt_val(e, a, at_point(u)) == at_point(u)(d)); }
    }
}
pub proof fn ag_back(e: ProverTracker, w: VerifierTracker, p: ProverTracker, v: VerifierTracker, a: TrackerID, r: TrackerID, k: int)
    requires pt_wf(e), pt_wf(p), coms_in(e), grows(e, w, p, v), ag(e, w, a), pt_has(p, r), vt_has(v, r), k >= 0, pt_nv(p, r) == pt_nv(e, a) + k, p.materialized_polys@.contains_key(r),
        forall|b: int| 0 <= b < p2(pt_nv(p, r)) ==> #[trigger] pt_val(p, r, at_bool(b)) == pt_val(e, a, at_bool(b % p2(pt_nv(e, a)))),
        forall|q: QM, x: Seq<F>| #[trigger] vt_val(v, r, q, x) == vt_val(w, a, q, x.subrange(0, x.len() - k)), forall|q: QM, x: Seq<F>| #[trigger] vt_def(v, r, q, x) == (k <= x.len() && vt_def(w, a, q, x.subrange(0, x.len() - k)))
    ensures ag(p, v, r), agx(e, w, a) && e.materialized_polys@.contains_key(a) ==> agx(p, v, r)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    pt_nv_small(e, a); pad_back_x(e, p, a, r, k);
    let n0 = pt_nv(e, a); let nv = n0 + k; p2_pos(k); p2_pos(n0); p2_add(k, n0);
    assert forall|q: QM, b0: int| honest(p, q) && 0 <= b0 < p2(nv) implies #[trigger] vt_val(v, r, q, fbits(b0, nv)) == pt_val(p, r, at_bool(b0)) && vt_def(v, r, q, fbits(b0, nv)) by { honest_kept(e, w, p, v, q); fbits_len(b0, nv); let t = fbits(b0, nv); fbits_lo(b0, nv, n0); lemma_mod_bound(b0, p2(n0)); let u = t.subrange(0, t.len() - k); let c = b0 % p2(n0); assert(u == fbits(c, n0)); assert(vt_val(w, a, q, u) == pt_val(e, a, at_bool(c))); assert(vt_def(v, r, q, t)); }
    assert(ag(p, v, r));
    if agx(e, w, a) && e.materialized_polys@.contains_key(a) {
        assert forall|q: QM, x: Seq<F>| honest(p, q) && x.len() == nv implies #[trigger] vt_val(v, r, q, x) == pt_val(p, r, at_point(x)) && vt_def(v, r, q, x) by { honest_kept(e, w, p, v, q); let u = x.subrange(0, x.len() - k); assert(vt_val(w, a, q, u) == pt_val(e, a, at_point(u))); assert(pt_val(p, r, at_point(x)) == pt_val(e, a, at_point(u))); assert(vt_def(v, r, q, x)); }
        mk_agx(p, v, r);
    }
}
/// padding a single table pads its extension
pub proof fn pad_back_x(e: ProverTracker, p: ProverTracker, a: TrackerID, r: TrackerID, k: int)
    requires pt_wf(e), pt_wf(p), k >= 0, p.materialized_polys@.contains_key(r), pt_has(e, a), pt_nv(p, r) == pt_nv(e, a) + k, forall|b: int| 0 <= b < p2(pt_nv(p, r)) ==> #[trigger] pt_val(p, r, at_bool(b)) == pt_val(e, a, at_bool(b % p2(pt_nv(e, a))))
    ensures e.materialized_polys@.contains_key(a) ==> forall|x: Seq<F>| x.len() == pt_nv(p, r) ==> #[trigger] pt_val(p, r, at_point(x)) == pt_val(e, a, at_point(x.subrange(0, x.len() - k)))
{
    if e.materialized_polys@.contains_key(a) {
        let n0 = pt_nv(e, a); let nv = n0 + k; pt_nv_small(e, a); p2_pos(k); p2_pos(n0); p2_add(k, n0);
        let d = *e.materialized_polys@[a]; let o = *p.materialized_polys@[r]; assert(dwf(d)); assert(dwf(o)); let out = o.evaluations@; let ev = d.evaluations@; assert(p2(nv) == p2(n0) * p2(k)) by(nonlinear_arith) requires p2(k + n0) == p2(k) * p2(n0), nv == n0 + k;
        assert forall|i: int| 0 <= i < out.len() implies #[trigger] out[i] == ev[i % (ev.len() as int)] by { assert(pt_val(p, r, at_bool(i)) == pt_val(e, a, at_bool(i % p2(pt_nv(e, a))))); }
        assert forall|x: Seq<F>| x.len() == pt_nv(p, r) implies #[trigger] pt_val(p, r, at_point(x)) == pt_val(e, a, at_point(x.subrange(0, x.len() - k))) by { let u = x.subrange(0, x.len() - k); let z = x.subrange(n0, nv); assert(x =~= u + z); mle_padded_back(out, ev, u, z); assert(pt_val(p, r, at_point(x)) == at_point(x)(o)); assert(pt_val(e, a, at_point(u)) == at_point(u)(d)); }
    }
}
pub fn ls_add(p: &mut ProverTracker, v: &mut VerifierTracker, a: TrackerID, b: TrackerID) -> (ret: (TrackerID, TrackerID))
    requires lk(*old(p), *old(v)), ls_room(*old(p)), ag(*old(p), *old(v), a), ag(*old(p), *old(v), b), pt_nv(*old(p), a) == pt_nv(*old(p), b)
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0 == ret.1, ag(*final(p), *final(v), ret.0), agx(*old(p), *old(v), a) && agx(*old(p), *old(v), b) ==> agx(*final(p), *final(v), ret.0)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    let ghost e = *p; let ghost w = *v;
    let r = p.add_polys(a, b); let s = v.add_comms(a, b);
    proof { coms_ext(e, *p); step_quiet(e, w, *p, *v); assert(grows(e, w, *p, *v)); assert(r == s); ag_bin(e, w, *p, *v, a, b, r, |x: F, y: F| fadd(x, y)); }
    (r, s)
}
pub fn ls_sub(p: &mut ProverTracker, v: &mut VerifierTracker, a: TrackerID, b: TrackerID) -> (ret: (TrackerID, TrackerID))
    requires lk(*old(p), *old(v)), ls_room(*old(p)), ag(*old(p), *old(v), a), ag(*old(p), *old(v), b), pt_nv(*old(p), a) == pt_nv(*old(p), b)
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0 == ret.1, ag(*final(p), *final(v), ret.0), agx(*old(p), *old(v), a) && agx(*old(p), *old(v), b) ==> agx(*final(p), *final(v), ret.0)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    let ghost e = *p; let ghost w = *v;
    let r = p.sub_polys(a, b); let s = v.sub_comms(a, b);
    proof { coms_ext(e, *p); step_quiet(e, w, *p, *v); assert(grows(e, w, *p, *v)); assert(r == s); ag_bin(e, w, *p, *v, a, b, r, |x: F, y: F| fsub(x, y)); }
    (r, s)
}
pub fn ls_mul(p: &mut ProverTracker, v: &mut VerifierTracker, a: TrackerID, b: TrackerID) -> (ret: (TrackerID, TrackerID))
    requires lk(*old(p), *old(v)), ls_room(*old(p)), ag(*old(p), *old(v), a), ag(*old(p), *old(v), b), pt_nv(*old(p), a) == pt_nv(*old(p), b)
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0 == ret.1, ag(*final(p), *final(v), ret.0), agx(*old(p), *old(v), a) && agx(*old(p), *old(v), b) ==> agx(*final(p), *final(v), ret.0)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    let ghost e = *p; let ghost w = *v;
    let r = p.mul_polys(a, b); let s = v.mul_comms(a, b);
    proof { coms_ext(e, *p); step_quiet(e, w, *p, *v); assert(grows(e, w, *p, *v)); assert(r == s); ag_bin(e, w, *p, *v, a, b, r, |x: F, y: F| fmul(x, y)); }
    (r, s)
}
pub fn ls_add_scalar(p: &mut ProverTracker, v: &mut VerifierTracker, a: TrackerID, c: F) -> (ret: (TrackerID, TrackerID))
    requires lk(*old(p), *old(v)), ls_room(*old(p)), ag(*old(p), *old(v), a)
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0 == ret.1, ag(*final(p), *final(v), ret.0), agx(*old(p), *old(v), a) ==> agx(*final(p), *final(v), ret.0)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    let ghost e = *p; let ghost w = *v;
    let r = p.add_scalar(a, c); let s = v.add_scalar(a, c);
    proof { coms_ext(e, *p); step_quiet(e, w, *p, *v); assert(grows(e, w, *p, *v)); assert(r == s); ag_un(e, w, *p, *v, a, r, |x: F| fadd(x, c)); }
    (r, s)
}
pub fn ls_mul_scalar(p: &mut ProverTracker, v: &mut VerifierTracker, a: TrackerID, c: F) -> (ret: (TrackerID, TrackerID))
    requires lk(*old(p), *old(v)), ls_room(*old(p)), ag(*old(p), *old(v), a)
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0 == ret.1, ag(*final(p), *final(v), ret.0), agx(*old(p), *old(v), a) ==> agx(*final(p), *final(v), ret.0)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    let ghost e = *p; let ghost w = *v;
    let r = p.mul_scalar(a, c); let s = v.mul_scalar(a, c);
    proof { coms_ext(e, *p); step_quiet(e, w, *p, *v); assert(grows(e, w, *p, *v)); assert(r == s); ag_un(e, w, *p, *v, a, r, |x: F| fmul(c, x)); }
    (r, s)
}
pub fn ls_increase_nv_front(p: &mut ProverTracker, v: &mut VerifierTracker, a: TrackerID, k: usize) -> (ret: (TrackerID, TrackerID))
    requires lk(*old(p), *old(v)), ls_room(*old(p)), ag(*old(p), *old(v), a), pt_nv(*old(p), a) + k < 62
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0 == ret.1, ag(*final(p), *final(v), ret.0), agx(*old(p), *old(v), a) && old(p).materialized_polys@.contains_key(a) ==> agx(*final(p), *final(v), ret.0)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    let ghost e = *p; let ghost w = *v;
    let r = p.increase_nv_front(a, k); let s = v.increase_nv_front(a, k);
    proof { coms_ext(e, *p); step_quiet(e, w, *p, *v); assert(grows(e, w, *p, *v)); assert(r == s); ag_front(e, w, *p, *v, a, r, k as int); }
    (r, s)
}
pub fn ls_increase_nv_back(p: &mut ProverTracker, v: &mut VerifierTracker, a: TrackerID, k: usize) -> (ret: (TrackerID, TrackerID))
    requires lk(*old(p), *old(v)), ls_room(*old(p)), ag(*old(p), *old(v), a), pt_nv(*old(p), a) + k < 62
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0 == ret.1, ag(*final(p), *final(v), ret.0), agx(*old(p), *old(v), a) && old(p).materialized_polys@.contains_key(a) ==> agx(*final(p), *final(v), ret.0)
{
    hide(pt_val); hide(mval); hide(mdef); hide(pt_nv);
    let ghost e = *p; let ghost w = *v;
    let r = p.increase_nv_back(a, k); let s = v.increase_nv_back(a, k);
    proof { coms_ext(e, *p); step_quiet(e, w, *p, *v); assert(grows(e, w, *p, *v)); assert(r == s); ag_back(e, w, *p, *v, a, r, k as int); }
    (r, s)
}
/// the prover commits to a table, the verifier takes over the commitment
pub fn ls_commit(p: &mut ProverTracker, v: &mut VerifierTracker, d: DenseMultilinearExtension, c: Commitment) -> (ret: Option<(TrackerID, TrackerID)>)
    requires lk(*old(p), *old(v)), ls_room(*old(p)), dwf(d), c == pcs_com(old(p).pcs_param, d)
    ensures ret.is_none() ==> *final(p) == *old(p) && *final(v) == *old(v), ret.is_none() <==> !pcs_fits(old(p).pcs_param, d.num_vars as int),
        ret.is_some() ==> { let (r, s) = ret.unwrap(); step(*old(p), *old(v), *final(p), *final(v)) && r == s && ag(*final(p), *final(v), r) && agx(*final(p), *final(v), r) }
{
    let ghost e = *p; let ghost w = *v;
    match p.track_and_commit_mat_poly(d) {
        Err(_) => None,
        Ok(r) => {
            let s = v.track_mat_comm(c).unwrap();
            proof {
                assert(!e.materialized_comms@.contains_key(r)) by { if e.materialized_comms@.contains_key(r) { assert(e.materialized_polys@.contains_key(r)); } }
                assert(p.materialized_comms@ =~= v.materialized_comms@); assert(grows(e, w, *p, *v));
                assert(coms_in(*p)) by { assert forall|id: TrackerID| #[trigger] p.materialized_comms@.contains_key(id) implies p.materialized_polys@.contains_key(id) by { if id != r { assert(e.materialized_polys@.contains_key(id)); } } }
                assert forall|id: TrackerID| ag(e, w, id) implies #[trigger] ag(*p, *v, id) by { ag_kept(e, w, *p, *v, id); }
                assert forall|id: TrackerID| agx(e, w, id) implies #[trigger] agx(*p, *v, id) by { ag_kept(e, w, *p, *v, id); }
                assert forall|i: int| 0 <= i < p.sum_check_claims@.len() implies ag(*p, *v, (#[trigger] p.sum_check_claims@[i]).label) by { assert(ag(e, w, e.sum_check_claims@[i].label)); }
                assert forall|i: int| 0 <= i < p.zero_check_claims@.len() implies ag(*p, *v, (#[trigger] p.zero_check_claims@[i]).label) by { assert(ag(e, w, e.zero_check_claims@[i].label)); }
                let nv = d.num_vars as int;
                assert forall|q: QM, x: Seq<F>| honest(*p, q) && x.len() == nv implies #[trigger] vt_val(*v, r, q, x) == pt_val(*p, r, at_point(x)) && vt_def(*v, r, q, x) by { assert(p.materialized_comms@.contains_key(r)); assert(q.contains_key((r, x))); }
                agx_ag(*p, *v, r);
            }
            Some((r, s))
        }
    }
}
/// an uncommitted table of the prover, evaluated by the verifier itself
pub fn ls_table(p: &mut ProverTracker, v: &mut VerifierTracker, d: DenseMultilinearExtension, f: VFn) -> (ret: (TrackerID, TrackerID))
    requires lk(*old(p), *old(v)), ls_room(*old(p)), dwf(d), vclosed(old(v).virtual_comms@, f), vrank(f) <= old(v).id_counter,
        forall|q: QM, x: Seq<F>| x.len() == d.num_vars ==> #[trigger] fval(old(v).virtual_comms@, q, f, x) == mlev(d.evaluations@, x) && fdef(old(v).virtual_comms@, q, f, x)
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0 == ret.1, ag(*final(p), *final(v), ret.0), agx(*final(p), *final(v), ret.0)
{
    let ghost e = *p; let ghost w = *v;
    let r = p.track_mat_poly(d); let s = v.track_virtual_comm(f);
    proof { coms_ext(e, *p); step_quiet(e, w, *p, *v); let nv = d.num_vars as int;
        assert forall|q: QM, x: Seq<F>| honest(*p, q) && x.len() == nv implies #[trigger] vt_val(*v, r, q, x) == pt_val(*p, r, at_point(x)) && vt_def(*v, r, q, x) by { assert(fval(w.virtual_comms@, q, f, x) == mlev(d.evaluations@, x)); assert(vt_val(*v, s, q, x) == fval(w.virtual_comms@, q, f, x)); assert(vt_def(*v, s, q, x) == fdef(w.virtual_comms@, q, f, x)); assert(pt_val(*p, r, at_point(x)) == at_point(x)(d)); }
        agx_ag(*p, *v, r);
    }
    (r, s)
}
pub proof fn lk_frame(e: ProverTracker, w: VerifierTracker, p: ProverTracker, v: VerifierTracker)
    requires lk(e, w), pt_wf(p), vt_wf(v), p.id_counter == v.id_counter, pt_kept(e, p), vt_kept(w, v), p.materialized_comms@ == e.materialized_comms@, v.materialized_comms@ == w.materialized_comms@, coms_in(p)
    ensures grows(e, w, p, v), forall|id: TrackerID| ag(e, w, id) ==> #[trigger] ag(p, v, id), forall|id: TrackerID| agx(e, w, id) ==> #[trigger] agx(p, v, id)
{
    assert forall|id: TrackerID| ag(e, w, id) implies #[trigger] ag(p, v, id) by { ag_kept(e, w, p, v, id); }
    assert forall|id: TrackerID| agx(e, w, id) implies #[trigger] agx(p, v, id) by { ag_kept(e, w, p, v, id); }
}
pub fn ls_challenge(p: &mut ProverTracker, v: &mut VerifierTracker, label: &'static str) -> (ret: (Result<F, TranscriptError>, Result<F, TranscriptError>))
    requires lk(*old(p), *old(v))
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0.is_ok() == ret.1.is_ok(), ret.0.is_ok() ==> ret.0.unwrap() == ret.1.unwrap()
{
    let ghost e = *p; let ghost w = *v;
    let r = p.get_and_append_challenge(label); let s = v.get_and_append_challenge(label);
    proof { pt_frame(e, *p); lk_frame(e, w, *p, *v); lk_claims(e, w, *p, *v); }
    (r, s)
}
pub fn ls_append<S: ZkSer>(p: &mut ProverTracker, v: &mut VerifierTracker, label: &'static str, x: &S) -> (ret: (Result<(), TranscriptError>, Result<(), TranscriptError>))
    requires lk(*old(p), *old(v))
    ensures step(*old(p), *old(v), *final(p), *final(v)), ret.0.is_ok() && ret.1.is_ok()
{
    let ghost e = *p; let ghost w = *v;
    let r = p.append_serializable_element(label, x); let s = v.append_serializable_element(label, x);
    proof { pt_frame(e, *p); lk_frame(e, w, *p, *v); lk_claims(e, w, *p, *v); }
    (r, s)
}
pub proof fn lk_claims(e: ProverTracker, w: VerifierTracker, p: ProverTracker, v: VerifierTracker)
    requires lk(e, w), forall|id: TrackerID| ag(e, w, id) ==> #[trigger] ag(p, v, id), p.sum_check_claims@ == e.sum_check_claims@, p.zero_check_claims@ == e.zero_check_claims@, v.sum_check_claims@ == w.sum_check_claims@, v.zero_check_claims@ == w.zero_check_claims@
    ensures same_zero(v.zero_check_claims@, p.zero_check_claims@), forall|i: int| 0 <= i < p.sum_check_claims@.len() ==> ag(p, v, (#[trigger] p.sum_check_claims@[i]).label), forall|i: int| 0 <= i < p.zero_check_claims@.len() ==> ag(p, v, (#[trigger] p.zero_check_claims@[i]).label)
{
    assert forall|i: int| 0 <= i < p.sum_check_claims@.len() implies ag(p, v, (#[trigger] p.sum_check_claims@[i]).label) by { assert(ag(e, w, e.sum_check_claims@[i].label)); }
    assert forall|i: int| 0 <= i < p.zero_check_claims@.len() implies ag(p, v, (#[trigger] p.zero_check_claims@[i]).label) by { assert(ag(e, w, e.zero_check_claims@[i].label)); }
}
pub fn ls_sum_claim(p: &mut ProverTracker, v: &mut VerifierTracker, a: TrackerID, s: F)
    requires lk(*old(p), *old(v)), ag(*old(p), *old(v), a)
    ensures step(*old(p), *old(v), *final(p), *final(v))
{
    let ghost e = *p; let ghost w = *v;
    p.add_sumcheck_claim(a, s); v.add_sumcheck_claim(a, s);
    proof { pt_frame(e, *p); lk_frame(e, w, *p, *v);
        assert forall|i: int| 0 <= i < p.sum_check_claims@.len() implies ag(*p, *v, (#[trigger] p.sum_check_claims@[i]).label) by { if i < e.sum_check_claims@.len() { assert(p.sum_check_claims@[i] == e.sum_check_claims@[i]); assert(ag(e, w, e.sum_check_claims@[i].label)); } else { assert(ag(e, w, a)); } }
        assert forall|i: int| 0 <= i < p.zero_check_claims@.len() implies ag(*p, *v, (#[trigger] p.zero_check_claims@[i]).label) by { assert(ag(e, w, e.zero_check_claims@[i].label)); } }
}
pub fn ls_zero_claim(p: &mut ProverTracker, v: &mut VerifierTracker, a: TrackerID)
    requires lk(*old(p), *old(v)), ag(*old(p), *old(v), a)
    ensures step(*old(p), *old(v), *final(p), *final(v))
{
    let ghost e = *p; let ghost w = *v;
    p.add_zerocheck_claim(a); v.add_zerocheck_claim(a);
    proof { pt_frame(e, *p); lk_frame(e, w, *p, *v); let zp = p.zero_check_claims@; let zv = v.zero_check_claims@; let n = zp.len() - 1;
        assert forall|i: int| 0 <= i < zv.len() implies (#[trigger] zv[i]).label == zp[i].label by { if i < n { assert(zv[i] == zv.drop_last()[i]); assert(zp[i] == zp.drop_last()[i]); assert(w.zero_check_claims@[i].label == e.zero_check_claims@[i].label); } }
        assert forall|i: int| 0 <= i < zp.len() implies ag(*p, *v, (#[trigger] zp[i]).label) by { if i < n { assert(zp[i] == zp.drop_last()[i]); assert(ag(e, w, e.zero_check_claims@[i].label)); } else { assert(ag(e, w, a)); } }
        assert forall|i: int| 0 <= i < p.sum_check_claims@.len() implies ag(*p, *v, (#[trigger] p.sum_check_claims@[i]).label) by { assert(ag(e, w, e.sum_check_claims@[i].label)); } }
}
/// computing tables on the prover's side is invisible
pub fn ls_evaluations(p: &mut ProverTracker, v: &VerifierTracker, a: TrackerID)
    requires lk(*old(p), *v), ag(*old(p), *v, a)
    ensures step(*old(p), *v, *final(p), *v)
{
    let ghost e = *p; let ghost w = *v;
    let _t = p.evaluations(a);
    proof { lk_frame(e, w, *p, *v); lk_claims(e, w, *p, *v); }
}
/// two fresh trackers with equal transcripts
pub proof fn ls_start(p: ProverTracker, v: VerifierTracker)
    requires pt_wf(p), vt_wf(v), p.id_counter == 0, v.id_counter == 0, ilog(p.transcript) == ilog(v.transcript), p.transcript.is_empty == v.transcript.is_empty, p.materialized_comms@ == Map::<TrackerID, Commitment>::empty(), v.materialized_comms@ == Map::<TrackerID, Commitment>::empty(), p.sum_check_claims@.len() == 0, v.sum_check_claims@.len() == 0, p.zero_check_claims@.len() == 0, v.zero_check_claims@.len() == 0
    ensures lk(p, v)
{ assert(p.sum_check_claims@ =~= v.sum_check_claims@); }
