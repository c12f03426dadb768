// ---- decision phase of the prover: equalize_materialized_poly_nv, convert_zerocheck_claims_to_sumcheck_claim, compile_proof ----
//@include cproof.inc
//@include claims.inc
/// the entries of a map visited through iter_mut: every key keeps its place, the visited values are written back
#[verifier::external_body] pub fn zk_put_values<K, V>(m: &mut HashMap<K, V>, s: Vec<(K, V)>) requires keys_of_map(old(m)@, s@) ensures final(m)@.dom() == old(m)@.dom(), forall|i: int| 0 <= i < s@.len() ==> final(m)@[(#[trigger] s@[i]).0] == s@[i].1 { unimplemented!() }
pub open spec fn keys_of_map<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool { (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0)) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0) && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k) }
pub open spec fn pt_roomn(p: ProverTracker, n: int) -> bool { p.id_counter + n < 0x7fff_ffff_ffff_ffff }
/// the sum of a handle over the hypercube
pub open spec fn pt_at(p: ProverTracker, id: TrackerID) -> spec_fn(int) -> F { |b: int| pt_val(p, id, at_bool(b)) }
pub open spec fn pt_sum(p: ProverTracker, id: TrackerID) -> F { fsum(p2(pt_nv(p, id)), pt_at(p, id)) }
pub open spec fn scl_has(p: ProverTracker) -> bool { forall|i: int| 0 <= i < p.sum_check_claims@.len() ==> pt_has(p, (#[trigger] p.sum_check_claims@[i]).label) }
pub open spec fn zcl_has(p: ProverTracker) -> bool { forall|i: int| 0 <= i < p.zero_check_claims@.len() ==> pt_has(p, (#[trigger] p.zero_check_claims@[i]).label) }
pub open spec fn all_nv(m: Mats, nv: int) -> bool { forall|id: TrackerID| #[trigger] m.contains_key(id) ==> m[id].num_vars == nv }
/// every table brought to nv variables, the added ones in front
pub open spec fn padded_mats(a: Mats, f: Mats, nv: int) -> bool { f.dom() == a.dom() && forall|id: TrackerID| #[trigger] a.contains_key(id) ==> dwf(*f[id]) && f[id].num_vars == nv && a[id].num_vars <= nv && padded_front(f[id].evaluations@, a[id].evaluations@, nv - a[id].num_vars) }
pub open spec fn max_nv(m: Mats, nv: int) -> bool { (exists|id: TrackerID| #[trigger] m.contains_key(id) && m[id].num_vars == nv) && forall|id: TrackerID| #[trigger] m.contains_key(id) ==> m[id].num_vars <= nv }
pub open spec fn equalized(a: ProverTracker, f: ProverTracker, nv: int) -> bool {
    &&& pt_wf(f) && f == (ProverTracker { materialized_polys: f.materialized_polys, cached_evaluations: f.cached_evaluations, sum_check_claims: f.sum_check_claims, ..a })
    &&& max_nv(a.materialized_polys@, nv) && padded_mats(a.materialized_polys@, f.materialized_polys@, nv)
    // every handle is the one it was, in more variables
    &&& forall|id: TrackerID| pt_has(a, id) ==> #[trigger] pt_has(f, id)
    &&& forall|id: TrackerID| pt_has(a, id) ==> #[trigger] pt_nv(f, id) == nv
    // each claim is about the same handle and states its true sum
    &&& f.sum_check_claims@.len() == a.sum_check_claims@.len()
    &&& forall|i: int| 0 <= i < f.sum_check_claims@.len() ==> (#[trigger] f.sum_check_claims@[i]).label == a.sum_check_claims@[i].label && f.sum_check_claims@[i].claimed_sum == pt_sum(f, f.sum_check_claims@[i].label)
}
pub open spec fn brought(d: DenseMultilinearExtension, e: DenseMultilinearExtension, nv: int) -> bool { dwf(e) && e.num_vars == nv && padded_front(e.evaluations@, d.evaluations@, nv - d.num_vars) }
pub proof fn padded_wf(a: ProverTracker, f: ProverTracker, nv: int)
    requires pt_wf(a), 0 <= nv < 63, padded_mats(a.materialized_polys@, f.materialized_polys@, nv), f.virtual_polys == a.virtual_polys, f.id_counter == a.id_counter, f.cached_evaluations@ == Map::<TrackerID, Arc<DenseMultilinearExtension>>::empty()
    ensures pt_wf(f), forall|id: TrackerID| pt_has(a, id) ==> #[trigger] pt_has(f, id), forall|id: TrackerID| pt_has(a, id) ==> #[trigger] pt_nv(f, id) == nv, all_nv(f.materialized_polys@, nv)
{
    let m = a.materialized_polys@; let n = f.materialized_polys@;
    assert forall|id: TrackerID| #[trigger] n.contains_key(id) implies m.contains_key(id) && dwf(*n[id]) && n[id].num_vars == nv by { assert(n.dom().contains(id)); }
    assert forall|id: TrackerID| #[trigger] f.virtual_polys@.contains_key(id) implies rep_ok(n, f.virtual_polys@[id]@, nv) && pt_nv(f, id) == nv && !n.contains_key(id) by {
        let v = a.virtual_polys@[id]@; let ar = arep(v); assert(rep_ok(m, v, pt_nv(a, id))); assert(n.dom().contains(id) == m.dom().contains(id));
        assert forall|i: int| 0 <= i < ar.len() implies (#[trigger] ar[i]).1.len() > 0 && ids_ok(n, ar[i].1, nv) by {
            assert(ids_ok(m, ar[i].1, pt_nv(a, id)));
            assert forall|j: int| 0 <= j < ar[i].1.len() implies n.contains_key(#[trigger] ar[i].1[j]) && n[ar[i].1[j]].num_vars == nv by { assert(m.contains_key(ar[i].1[j])); assert(n.dom().contains(ar[i].1[j])); }
        }
        rep_nv_ok(n, v, nv);
    }
    assert forall|id: TrackerID| pt_has(a, id) implies #[trigger] pt_has(f, id) && pt_nv(f, id) == nv by { if m.contains_key(id) { assert(n.dom().contains(id)); } }
}
//@fn src/tracker/prover_tracker.rs::ProverTracker::equalize_materialized_poly_nv | maps=self.materialized_polys
//@@ requires
        pt_wf(*old(self)), scl_has(*old(self)), exists|id: TrackerID| old(self).materialized_polys@.contains_key(id), forall|id: TrackerID| #[trigger] old(self).materialized_polys@.contains_key(id) ==> old(self).materialized_polys@[id].num_vars < 62,
//@@ ensures
        equalized(*old(self), *final(self), ret as int),
//@@ vartype
zk_acc0: Option<usize>
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self; let ghost m = self.materialized_polys@;
//@@ inv 0
            zk_n0 == zk_s0@.len(), lists_map(m, zk_s0@), zk_acc0.is_some() == (zk_i0 > 0),
            zk_i0 > 0 ==> (exists|j: int| 0 <= j < zk_i0 && (#[trigger] zk_s0@[j]).1.num_vars == zk_acc0.unwrap()) && (forall|j: int| 0 <= j < zk_i0 ==> (#[trigger] zk_s0@[j]).1.num_vars <= zk_acc0.unwrap()),
//@@ after-let nv
    proof { assert(max_nv(m, nv as int)); assert(nv < 62); }
//@@ before 1
    let ghost es = zk_s1@; assert(lists_map(m, es)); assert(zk_n1 == es.len());
//@@ inv 1
            zk_n1 == zk_s1@.len(), zk_s1@.len() == es.len(), forall|j: int| 0 <= j < es.len() ==> (#[trigger] zk_s1@[j]).0 == es[j].0, forall|j: int| zk_i1 <= j < es.len() ==> #[trigger] zk_s1@[j] == es[j],
            forall|j: int| 0 <= j < zk_i1 ==> brought(*es[j].1, *(#[trigger] zk_s1@[j]).1, nv as int),
//@@ start 1
        proof { assert(m.contains_key(es[zk_i1 as int].0)); assert(dwf(*es[zk_i1 as int].1)); p2_pos(es[zk_i1 as int].1.num_vars as int); pad0(es[zk_i1 as int].1.evaluations@); }
//@@ after 1
    let ghost fs = zk_s1@;
    proof { assert(keys_of_map(m, fs)) by {
        assert forall|i: int| 0 <= i < fs.len() implies m.contains_key((#[trigger] fs[i]).0) by { assert(m.contains_key(es[i].0)); }
        assert forall|i: int, j: int| 0 <= i < j < fs.len() implies (#[trigger] fs[i]).0 != (#[trigger] fs[j]).0 by { assert(es[i].0 != es[j].0); }
        assert forall|k: TrackerID| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).0 == k by { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k; assert(fs[i].0 == k); } } }
//@@ before 2
    let ghost b = *self;
    proof { let n = self.materialized_polys@; assert forall|id: TrackerID| #[trigger] m.contains_key(id) implies dwf(*n[id]) && n[id].num_vars == nv && m[id].num_vars <= nv && padded_front(n[id].evaluations@, m[id].evaluations@, nv - m[id].num_vars) by { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == id; assert(fs[i].0 == id); assert(n[fs[i].0] == fs[i].1); assert(m[es[i].0] == es[i].1); } }
    proof { padded_wf(a, b, nv as int); }
//@@ inv 2
            zk_n2 == old_sumcheck_claims@.len(), old_sumcheck_claims@ == a.sum_check_claims@, *self == (ProverTracker { cached_evaluations: self.cached_evaluations, ..b }), pt_wf(*self), zk_acc1@.len() == zk_i2,
            forall|j: int| 0 <= j < zk_i2 ==> #[trigger] zk_acc1@[j] == pt_sum(b, a.sum_check_claims@[j].label),
//@@ start 2
        proof { let lb = a.sum_check_claims@[zk_i2 as int].label; assert(pt_has(a, lb)); assert(pt_has(b, lb)); assert(pt_has(*self, lb)); }
//@@ inv 3
            zk_n3 == zk_s2@.len(), zk_s2@.len() == p2(pt_nv(b, claim.label)), forall|j: int| 0 <= j < zk_n3 ==> #[trigger] zk_s2@[j] == pt_val(b, claim.label, at_bool(j)), zk_acc2 == fsum(zk_i3 as int, pt_at(b, claim.label)),
            *self == (ProverTracker { cached_evaluations: self.cached_evaluations, ..b }), pt_wf(*self),
//@@ after 2
    proof { assert forall|j: int| 0 <= j < zk_n2 implies #[trigger] zk_acc1@[j] == pt_sum(*self, a.sum_check_claims@[j].label) by { let lb = a.sum_check_claims@[j].label; assert(pt_at(*self, lb) =~= pt_at(b, lb)); }
        assert forall|id: TrackerID| pt_has(a, id) implies #[trigger] pt_has(*self, id) && pt_nv(*self, id) == nv by { assert(pt_has(b, id)); assert(pt_nv(b, id) == nv); } }
//@@ before 4
    let ghost c = *self;
//@@ inv 4
            zk_n4 == a.sum_check_claims@.len(), true_sums@.len() == zk_n4, *self == (ProverTracker { sum_check_claims: self.sum_check_claims, ..c }), self.sum_check_claims@.len() == zk_n4,
            forall|j: int| 0 <= j < zk_n4 ==> (#[trigger] self.sum_check_claims@[j]).label == a.sum_check_claims@[j].label,
            forall|j: int| 0 <= j < zk_i4 ==> (#[trigger] self.sum_check_claims@[j]).claimed_sum == pt_sum(c, a.sum_check_claims@[j].label),
//@@ tail
    proof { pt_frame(c, *self); 
        assert forall|i: int| 0 <= i < self.sum_check_claims@.len() implies (#[trigger] self.sum_check_claims@[i]).claimed_sum == pt_sum(*self, self.sum_check_claims@[i].label) by { let lb = a.sum_check_claims@[i].label; assert(pt_at(*self, lb) =~= pt_at(c, lb)); } }
//@end
/// two ways of giving tables a value that agree on every table of n variables agree on every handle of n variables
pub proof fn same_terms(a: ProverTracker, f: ProverTracker, id: TrackerID, n: int, t: TVal, u: TVal)
    requires pt_wf(a), pt_has(a, id), pt_nv(a, id) == n, f.virtual_polys == a.virtual_polys, f.materialized_polys@.dom() == a.materialized_polys@.dom(),
        forall|d: TrackerID| #[trigger] a.materialized_polys@.contains_key(d) && a.materialized_polys@[d].num_vars == n ==> u(*f.materialized_polys@[d]) == t(*a.materialized_polys@[d]),
    ensures pt_val(f, id, u) == pt_val(a, id, t)
{
    let m = a.materialized_polys@; let k = f.materialized_polys@; assert(k.dom().contains(id) == m.dom().contains(id));
    if !m.contains_key(id) {
        let v = a.virtual_polys@[id]@; let ar = arep(v); assert(rep_ok(m, v, n));
        let g = |i: int| fmul(ar[i].0, term_val(m, ar[i].1, t)); let h = |i: int| fmul(ar[i].0, term_val(k, ar[i].1, u));
        assert forall|i: int| 0 <= i < ar.len() implies #[trigger] h(i) == g(i) by {
            assert(ids_ok(m, ar[i].1, n)); let ids = ar[i].1;
            assert forall|j: int| 0 <= j < ids.len() implies u(*k[#[trigger] ids[j]]) == t(*m[ids[j]]) by { assert(m.contains_key(ids[j])); }
            fprod_eq(ids.len() as int, |j: int| u(*k[ids[j]]), |j: int| t(*m[ids[j]]));
        }
        fsum_eq(ar.len() as int, h, g);
    }
}
/// bringing the tables to a common size changes no value: the added variables, in front, do not matter
pub proof fn equalized_val(a: ProverTracker, f: ProverTracker, nv: int, id: TrackerID, z: Seq<F>, x: Seq<F>)
    requires pt_wf(a), equalized(a, f, nv), pt_has(a, id), x.len() == pt_nv(a, id), z.len() == nv - x.len()
    ensures pt_val(f, id, at_point(z + x)) == pt_val(a, id, at_point(x))
{
    let m = a.materialized_polys@; let n = f.materialized_polys@;
    assert forall|d: TrackerID| #[trigger] m.contains_key(d) && m[d].num_vars == x.len() implies mlev(n[d].evaluations@, z + x) == mlev(m[d].evaluations@, x) by { mle_padded_front(n[d].evaluations@, m[d].evaluations@, z, x); }
    same_terms(a, f, id, x.len() as int, at_point(x), at_point(z + x));
}
pub proof fn equalized_bool(a: ProverTracker, f: ProverTracker, nv: int, id: TrackerID, b: int)
    requires pt_wf(a), equalized(a, f, nv), pt_has(a, id), 0 <= b < p2(nv)
    ensures 0 <= pt_nv(a, id) <= nv, 0 <= b / p2(nv - pt_nv(a, id)) < p2(pt_nv(a, id)), pt_val(f, id, at_bool(b)) == pt_val(a, id, at_bool(b / p2(nv - pt_nv(a, id))))
{
    let m = a.materialized_polys@; let n = f.materialized_polys@; let k = pt_nv(a, id); pt_nv_small(a, id);
    assert(k <= nv) by { if !m.contains_key(id) { let v = a.virtual_polys@[id]@; assert(rep_ok(m, v, k)); assert(arep(v)[0].1 == v[0].1@); assert(ids_ok(m, arep(v)[0].1, k)); assert(m.contains_key(v[0].1@[0])); } }
    let e = p2(nv - k); p2_pos(nv - k); p2_pos(k); p2_add(k, nv - k);
    assert(0 <= b / e < p2(k)) by { lemma_div_pos_is_pos(b, e); lemma_multiply_divide_lt(b, e, p2(k)); }
    assert forall|d: TrackerID| #[trigger] m.contains_key(d) && m[d].num_vars == k implies n[d].evaluations@[b] == m[d].evaluations@[b / e] by { assert(dwf(*n[d])); }
    same_terms(a, f, id, k, at_bool(b / e), at_bool(b));
}
pub proof fn fsum_rep(n: int, e: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F) requires n >= 0, e >= 1, forall|b: int| 0 <= b < n * e ==> #[trigger] f(b) == g(b / e) ensures fsum(n * e, f) == fmul(fk(e), fsum(n, g)) decreases n {
    broadcast use funits;
    if n == 0 { assert(0 * e == 0); }
    else {
        assert(n * e == (n - 1) * e + e) by(nonlinear_arith); let q = (n - 1) * e; assert(q >= 0) by(nonlinear_arith) requires q == (n - 1) * e, n >= 1, e >= 1;
        fsum_rep(n - 1, e, f, g); fsum_split(q, e, f); let h = |j: int| f(q + j);
        assert forall|j: int| 0 <= j < e implies #[trigger] h(j) == g(n - 1) by { lemma_fundamental_div_mod_converse(q + j, e, n - 1, j); }
        fsum_const_k(e, h, g(n - 1)); fmul_distr_l(fk(e), fsum(n - 1, g), g(n - 1));
    }
}
pub proof fn fmul_distr_l(c: F, a: F, b: F) ensures fmul(c, fadd(a, b)) == fadd(fmul(c, a), fmul(c, b)) { broadcast use fhom; let (x, y, z) = (frep(a), frep(b), frep(c)); assert(z * (x + y) == z * x + z * y) by(nonlinear_arith); }
pub proof fn fsum_const_k(n: int, f: spec_fn(int) -> F, c: F) requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f(i) == c ensures fsum(n, f) == fmul(fk(n), c) decreases n {
    broadcast use fhom; if n > 0 { fsum_const_k(n - 1, f, c); let y = frep(c); assert((n - 1) * y + y == n * y) by(nonlinear_arith); } else { let y = frep(c); assert(0 * y == 0); }
}
/// what a claim comes to: the sum over its own hypercube, once per assignment of the added variables
pub proof fn equalized_sum(a: ProverTracker, f: ProverTracker, nv: int, id: TrackerID)
    requires pt_wf(a), equalized(a, f, nv), pt_has(a, id)
    ensures 0 <= pt_nv(a, id) <= nv, pt_sum(f, id) == fmul(fk(p2(nv - pt_nv(a, id))), pt_sum(a, id))
{
    let k = pt_nv(a, id); p2_pos(nv); equalized_bool(a, f, nv, id, 0); let e = p2(nv - k); p2_pos(nv - k); p2_pos(k); p2_add(k, nv - k); assert(pt_nv(f, id) == nv);
    assert forall|b: int| 0 <= b < p2(k) * e implies #[trigger] pt_at(f, id)(b) == pt_at(a, id)(b / e) by { equalized_bool(a, f, nv, id, b); }
    fsum_rep(p2(k), e, pt_at(f, id), pt_at(a, id));
}
/// the i-th zero claim under its own challenge
pub open spec fn zp_term(a: ProverTracker, t: TVal) -> spec_fn(int) -> F { |i: int| fmul(chal(after_chals(ilog(a.transcript), "zerocheck challenge"@, i), "zerocheck challenge"@), pt_val(a, a.zero_check_claims@[i].label, t)) }
pub open spec fn zp_sum(a: ProverTracker, t: TVal) -> F { fsum(a.zero_check_claims@.len() as int, zp_term(a, t)) }
pub open spec fn p_zclaim(a: ProverTracker) -> TrackerSumcheckClaim { TrackerSumcheckClaim { label: TrackerID((a.id_counter + 2 * a.zero_check_claims@.len() + 2) as usize), claimed_sum: f0() } }
pub open spec fn zeros_hold(a: ProverTracker, nv: int) -> bool { forall|i: int, b: int| 0 <= i < a.zero_check_claims@.len() && 0 <= b < p2(nv) ==> #[trigger] pt_at(a, a.zero_check_claims@[i].label)(b) == f0() }
/// the zero claims folded, under challenges drawn after everything before, into the one claim that their combination times the
/// equality polynomial sums to zero
pub open spec fn converted(a: ProverTracker, f: ProverTracker, nv: int) -> bool {
    let k = a.zero_check_claims@.len() as int; let c = p_zclaim(a); let r = zc_r(ilog(a.transcript), k, nv);
    &&& pt_wf(f) && pt_ext(a, f) && pt_kept(a, f) && f.id_counter == a.id_counter + 2 * k + 3 && pt_has(f, c.label) && pt_nv(f, c.label) == nv && !f.transcript.is_empty
    &&& f.sum_check_claims@ == a.sum_check_claims@.push(c) && f.zero_check_claims@ == a.zero_check_claims@ && f.materialized_comms@ == a.materialized_comms@ && f.pcs_param == a.pcs_param
    &&& ilog(f.transcript) == zc_log(ilog(a.transcript), k, nv)
    &&& forall|pt: Seq<F>| pt.len() == nv ==> #[trigger] pt_val(f, c.label, at_point(pt)) == fmul(zp_sum(a, at_point(pt)), eqpt(pt, r))
    &&& forall|b: int| 0 <= b < p2(nv) ==> #[trigger] pt_val(f, c.label, at_bool(b)) == fmul(zp_sum(a, at_bool(b)), eqw(b, r))
}
pub proof fn zeros_fold(a: ProverTracker, f: ProverTracker, nv: int) requires converted(a, f, nv), zeros_hold(a, nv) ensures pt_sum(f, p_zclaim(a).label) == f0() {
    let c = p_zclaim(a); let k = a.zero_check_claims@.len() as int; broadcast use funits;
    assert forall|b: int| 0 <= b < p2(nv) implies #[trigger] pt_at(f, c.label)(b) == f0() by {
        let g = zp_term(a, at_bool(b));
        assert forall|i: int| 0 <= i < k implies #[trigger] g(i) == f0() by { assert(pt_at(a, a.zero_check_claims@[i].label)(b) == f0()); fmul_comm(f0(), chal(after_chals(ilog(a.transcript), "zerocheck challenge"@, i), "zerocheck challenge"@)); }
        fsum_zero(k, g);
    }
    fsum_zero(p2(nv), pt_at(f, c.label));
}
//@fn src/tracker/prover_tracker.rs::ProverTracker::convert_zerocheck_claims_to_sumcheck_claim | ren=build_eq_x_r:dmle_utils_build_eq_x_r
//@@ requires
        pt_wf(*old(self)), pt_roomn(*old(self), 2 * old(self).zero_check_claims@.len() as int + 4), !old(self).transcript.is_empty, zcl_has(*old(self)), 1 <= nv < 62,
        forall|i: int| 0 <= i < old(self).zero_check_claims@.len() ==> pt_nv(*old(self), (#[trigger] old(self).zero_check_claims@[i]).label) == nv,
//@@ ensures
        converted(*old(self), *final(self), nv as int),
//@@ entry
    broadcast use funits, ipow_p2;
    let ghost a = *self; let ghost k = self.zero_check_claims@.len() as int;
    proof { p2_64(); p2_mono(nv as int, 62); p2_pos(nv as int); }
//@@ before 0
    let ghost z = *self; let ghost zid = zerocheck_agg_poly;
    proof {
        let ev = z.materialized_polys@[zid].evaluations@; assert(ev.len() == p2(nv as int));
        assert forall|b: int| 0 <= b < p2(nv as int) implies #[trigger] ev[b] == f0() && pt_val(z, zid, at_bool(b)) == f0() by { let v = pt_val(z, zid, at_bool(b)); assert(v == ev[b]); }
        assert forall|pt: Seq<F>| pt.len() == nv implies #[trigger] pt_val(z, zid, at_point(pt)) == f0() by { mle_const(ev, pt, f0()); }
    }
//@@ inv 0
            zk_n0 == k, zero_check_claims@ == a.zero_check_claims@, pt_wf(*self), pt_ext(a, *self), pt_kept(a, *self), self.id_counter == a.id_counter + 1 + 2 * zk_i0, pt_has(*self, zerocheck_agg_poly), pt_nv(*self, zerocheck_agg_poly) == nv, !self.transcript.is_empty,
            ilog(self.transcript) == after_chals(ilog(a.transcript), "zerocheck challenge"@, zk_i0 as int),
            self.sum_check_claims@ == a.sum_check_claims@, self.zero_check_claims@ == a.zero_check_claims@, self.materialized_comms@ == a.materialized_comms@, self.pcs_param == a.pcs_param,
            forall|t: TVal| #[trigger] pt_val(*self, zerocheck_agg_poly, t) == fadd(pt_val(z, zid, t), fsum(zk_i0 as int, zp_term(a, t))),
//@@ start 0
        let ghost s = *self; let ghost g = zerocheck_agg_poly; let ghost lb = zero_check_claims@[zk_i0 as int].label;
        proof { assert(pt_has(a, a.zero_check_claims@[zk_i0 as int].label)); assert(pt_nv(s, lb) == pt_nv(a, lb)); }
//@@ after-let challenge
        let ghost s1 = *self; proof { pt_frame(s, s1); }
//@@ end 0
        proof { let n = zk_i0 as int;
            assert forall|t: TVal| #[trigger] pt_val(*self, zerocheck_agg_poly, t) == fadd(pt_val(z, zid, t), fsum(n, zp_term(a, t))) by {
                assert(pt_val(s, g, t) == fadd(pt_val(z, zid, t), fsum(n - 1, zp_term(a, t)))); assert(pt_val(s1, lb, t) == pt_val(a, lb, t)); assert(pt_val(s1, g, t) == pt_val(s, g, t));
                assert(fsum(n, zp_term(a, t)) == fadd(fsum(n - 1, zp_term(a, t)), zp_term(a, t)(n - 1)));
                fadd_assoc(pt_val(z, zid, t), fsum(n - 1, zp_term(a, t)), zp_term(a, t)(n - 1));
            } }
//@@ after 0
    let ghost u = *self;
//@@ after-let r
    let ghost w = *self; let ghost wid = zerocheck_agg_poly;
    proof { pt_frame(u, w);
        assert forall|pt: Seq<F>| pt.len() == nv implies #[trigger] pt_val(w, wid, at_point(pt)) == zp_sum(a, at_point(pt)) by { assert(pt_val(z, zid, at_point(pt)) == f0()); assert(pt_val(u, wid, at_point(pt)) == fadd(f0(), zp_sum(a, at_point(pt)))); }
        assert forall|b: int| 0 <= b < p2(nv as int) implies #[trigger] pt_val(w, wid, at_bool(b)) == zp_sum(a, at_bool(b)) by { assert(pt_val(z, zid, at_bool(b)) == f0()); assert(pt_val(u, wid, at_bool(b)) == fadd(f0(), zp_sum(a, at_bool(b)))); }
    }
//@@ after-let eq_x_r
    let ghost et = eq_x_r;
//@@ after-let eq_x_r_id
    let ghost e = *self;
//@@ after-let new_sc_claim_poly
    let ghost y = *self;
//@@ tail
    proof {
        let c = p_zclaim(a); pt_frame(y, *self); assert(c.label == new_sc_claim_poly);
        assert forall|id: TrackerID, t: TVal| pt_has(a, id) implies #[trigger] pt_val(*self, id, t) == pt_val(a, id, t) by { assert(pt_val(y, id, t) == pt_val(e, id, t)); assert(pt_val(e, id, t) == pt_val(w, id, t)); assert(pt_val(w, id, t) == pt_val(u, id, t)); assert(pt_val(u, id, t) == pt_val(a, id, t)); }
        assert forall|id: TrackerID| pt_has(a, id) implies #[trigger] pt_nv(*self, id) == pt_nv(a, id) && pt_has(*self, id) by { assert(pt_has(u, id)); assert(pt_has(w, id)); assert(pt_has(e, id)); assert(pt_has(y, id)); assert(pt_nv(y, id) == pt_nv(e, id)); assert(pt_nv(e, id) == pt_nv(w, id)); assert(pt_nv(w, id) == pt_nv(u, id)); assert(pt_nv(u, id) == pt_nv(a, id)); }
        assert forall|pt: Seq<F>| pt.len() == nv implies #[trigger] pt_val(*self, c.label, at_point(pt)) == fmul(zp_sum(a, at_point(pt)), eqpt(pt, r@)) by { eq_table_mle(et.evaluations@, r@, pt); assert(pt_val(w, wid, at_point(pt)) == zp_sum(a, at_point(pt))); assert(pt_val(y, c.label, at_point(pt)) == fmul(pt_val(e, wid, at_point(pt)), pt_val(e, eq_x_r_id, at_point(pt)))); assert(pt_val(e, eq_x_r_id, at_point(pt)) == mlev(et.evaluations@, pt)); }
        assert forall|b: int| 0 <= b < p2(nv as int) implies #[trigger] pt_val(*self, c.label, at_bool(b)) == fmul(zp_sum(a, at_bool(b)), eqw(b, r@)) by { assert(pt_val(w, wid, at_bool(b)) == zp_sum(a, at_bool(b))); assert(pt_val(y, c.label, at_bool(b)) == fmul(pt_val(e, wid, at_bool(b)), pt_val(e, eq_x_r_id, at_bool(b)))); assert(pt_val(e, eq_x_r_id, at_bool(b)) == et.evaluations@[b]); }
    }
//@end
/// batch opening: a function of everything it is given (None: an error)
pub uninterp spec fn pcs_mo(p: ProverParam, tabs: Seq<DenseMultilinearExtension>, pts: Seq<Seq<F>>, evals: Seq<F>, log: Seq<TEv>) -> Option<BatchProof>;
pub open spec fn derefs(s: Seq<Arc<DenseMultilinearExtension>>) -> Seq<DenseMultilinearExtension> { Seq::new(s.len(), |i: int| *s[i]) }
impl PCS {
    #[verifier::external_body] pub fn multi_open(p: &ProverParam, polys: &[Arc<DenseMultilinearExtension>], pts: &[Vec<F>], evals: &[F], t: &mut IOPTranscript) -> (r: Result<BatchProof, PCSError>)
        ensures r.is_ok() == pcs_mo(*p, derefs(polys@), vviews(pts@), evals@, ilog(*old(t))).is_some(), r.is_ok() ==> pcs_mo(*p, derefs(polys@), vviews(pts@), evals@, ilog(*old(t))) == Some(r.unwrap()) { unimplemented!() }
}
pub open spec fn c_log(b: ProverTracker) -> Seq<TEv> { sums_log(ilog(b.transcript), b.sum_check_claims@, b.sum_check_claims@.len() as int) }
pub open spec fn c_start(b: ProverTracker, nv: int, d: int) -> Seq<TEv> { sc_start(after_chals(c_log(b), "sumcheck challenge"@, b.sum_check_claims@.len() as int), nv, d) }
pub open spec fn c_term(b: ProverTracker, t: TVal) -> spec_fn(int) -> F { |i: int| fmul(sc_chal(c_log(b), i), pt_val(b, b.sum_check_claims@[i].label, t)) }
/// the value of the folded claim, the sum it has, the sum it is claimed to have
pub open spec fn c_val(b: ProverTracker, t: TVal) -> F { fsum(b.sum_check_claims@.len() as int, c_term(b, t)) }
pub open spec fn c_at(b: ProverTracker) -> spec_fn(int) -> F { |x: int| c_val(b, at_bool(x)) }
pub open spec fn c_true(b: ProverTracker, nv: int) -> F { fsum(p2(nv), c_at(b)) }
pub open spec fn c_sum(b: ProverTracker) -> F { agg_sum(b.sum_check_claims@, c_log(b)) }
pub open spec fn c_ids(b: ProverTracker) -> Seq<TrackerID> { ids_of(b.materialized_comms@.dom()) }
pub open spec fn c_tabs(b: ProverTracker) -> Seq<DenseMultilinearExtension> { Seq::new(c_ids(b).len(), |i: int| *b.materialized_polys@[c_ids(b)[i]]) }
pub open spec fn c_evals(b: ProverTracker, pt: Seq<F>) -> Seq<F> { Seq::new(c_ids(b).len(), |i: int| mlev(b.materialized_polys@[c_ids(b)[i]].evaluations@, pt)) }
pub open spec fn claim_map(c: Claims, k: int) -> Map<TrackerID, F> decreases k { if k <= 0 { Map::empty() } else { claim_map(c, k - 1).insert(c[k - 1].label, c[k - 1].claimed_sum) } }
/// an honest sum check of the folded claim
pub open spec fn sc_done(b: ProverTracker, nv: int, d: int, p: IOPProof) -> bool {
    let l = c_start(b, nv, d); let ms = msgs(p); let ch = sc_chs(l, ms, nv);
    &&& p.point@ == ch && ms.len() == nv && d >= 1
    &&& sc_accepts(c_sum(b), ms, nv, d, l)
    &&& sc_expect(ms, ch, c_sum(b), nv) == c_val(b, at_point(ch))
}
/// the opening of every committed table at the sum check point, at its value there
pub open spec fn c_open(b: ProverTracker, nv: int, d: int, p: IOPProof) -> Option<BatchProof> { let l = c_start(b, nv, d); let ms = msgs(p); let ch = sc_chs(l, ms, nv); pcs_mo(b.pcs_param, c_tabs(b), Seq::new(c_ids(b).len(), |i: int| ch), c_evals(b, ch), sc_log(l, ms, nv)) }
pub open spec fn compiled(b: ProverTracker, nv: int, p: CompiledZKSQLProof) -> bool {
    let d = p.sc_aux_info.max_degree as int;
    &&& p.sc_aux_info.num_variables == nv && sc_done(b, nv, d, p.sc_proof)
    &&& p.comms@ == b.materialized_comms@ && p.sumcheck_claims@ == claim_map(b.sum_check_claims@, b.sum_check_claims@.len() as int)
    &&& p.pcs_proof@.len() == 1 && c_open(b, nv, d, p.sc_proof) == Some(p.pcs_proof@[0])
    &&& forall|id: TrackerID, pt: Seq<F>| #[trigger] p.query_map@.contains_key((id, pt)) <==> b.materialized_comms@.contains_key(id) && pt == p.sc_proof.point@
}
pub open spec fn no_opening(b: ProverTracker, nv: int) -> bool { exists|d: int, p: IOPProof| #[trigger] sc_done(b, nv, d, p) && c_open(b, nv, d, p).is_none() }
/// the two steps before the claims are folded
pub open spec fn steps(a: ProverTracker, e: ProverTracker, b: ProverTracker, nv: int) -> bool { equalized(a, e, nv) && converted(e, b, nv) }
/// a proof is made exactly when the folded claim has the sum claimed for it and the commitment scheme opens
pub open spec fn outcome(a: ProverTracker, e: ProverTracker, b: ProverTracker, nv: int, r: Result<CompiledZKSQLProof, PolyIOPErrors>) -> bool {
    &&& r.is_ok() ==> c_true(b, nv) == c_sum(b) && compiled(b, nv, r.unwrap())
    &&& r.is_err() ==> c_true(b, nv) != c_sum(b) || no_opening(b, nv)
}
pub open spec fn comms_ok(p: ProverTracker) -> bool { forall|id: TrackerID| #[trigger] p.materialized_comms@.contains_key(id) ==> p.materialized_polys@.contains_key(id) }
pub open spec fn true_agg_ok(b: ProverTracker, nv: int) -> bool { c_true(b, nv) == c_sum(b) }
pub proof fn seq_push_has(s: Seq<TrackerID>, x: TrackerID, id: TrackerID) ensures s.push(x).contains(id) <==> s.contains(id) || id == x { let p = s.push(x); if s.contains(id) { let i = choose|i: int| 0 <= i < s.len() && s[i] == id; assert(p[i] == id); } if id == x { assert(p[s.len() as int] == id); } if p.contains(id) { let i = choose|i: int| 0 <= i < p.len() && p[i] == id; if i < s.len() { assert(s[i] == id); } } }
pub proof fn pt_frame_cached(a: ProverTracker, b: ProverTracker) requires pt_cached(a, b) ensures forall|id: TrackerID, t: TVal| #[trigger] pt_val(b, id, t) == pt_val(a, id, t), forall|id: TrackerID| #[trigger] pt_nv(b, id) == pt_nv(a, id), forall|id: TrackerID| #[trigger] pt_has(b, id) == pt_has(a, id) { }
//@fn src/tracker/prover_tracker.rs::ProverTracker::compile_proof | cells
//@@ requires
        pt_wf(*old(self)), pt_roomn(*old(self), 2 * old(self).zero_check_claims@.len() as int + 2 * old(self).sum_check_claims@.len() as int + 16), !old(self).transcript.is_empty, scl_has(*old(self)), zcl_has(*old(self)), comms_ok(*old(self)),
        exists|id: TrackerID| old(self).materialized_polys@.contains_key(id) && old(self).materialized_polys@[id].num_vars >= 1, forall|id: TrackerID| #[trigger] old(self).materialized_polys@.contains_key(id) ==> old(self).materialized_polys@[id].num_vars < 62,
//@@ ensures
        exists|e: ProverTracker, b: ProverTracker, nv: int| #[trigger] steps(*old(self), e, b, nv) && outcome(*old(self), e, b, nv, ret),
//@@ vartype
mat_polys: Vec<Arc<DenseMultilinearExtension>>
points: Vec<Vec<F>>
evals: Vec<F>
//@@ entry
    broadcast use funits, ipow_p2, vstd::std_specs::hash::group_hash_axioms, ax_tid;
    let ghost a = *self;
//@@ after-let nv
    let ghost e = *self;
    proof { let m = a.materialized_polys@; assert forall|i: int| 0 <= i < e.zero_check_claims@.len() implies pt_has(e, (#[trigger] e.zero_check_claims@[i]).label) && pt_nv(e, e.zero_check_claims@[i].label) == nv by { assert(pt_has(a, a.zero_check_claims@[i].label)); }
        let id = choose|id: TrackerID| #[trigger] m.contains_key(id) && m[id].num_vars == nv; assert(nv < 62); assert(nv >= 1); p2_64(); p2_mono(nv as int, 62); p2_pos(nv as int); }
//@@ after-call convert_zerocheck_claims_to_sumcheck_claim
    let ghost b = *self; let ghost cs = b.sum_check_claims@; let ghost l1 = c_log(b);
    proof { assert(steps(a, e, b, nv as int));
        assert forall|i: int| 0 <= i < cs.len() implies pt_has(b, (#[trigger] cs[i]).label) && pt_nv(b, cs[i].label) == nv by { if i < a.sum_check_claims@.len() { let lb = a.sum_check_claims@[i].label; assert(cs[i] == e.sum_check_claims@[i]); assert(pt_has(a, lb)); assert(pt_has(e, lb)); assert(pt_nv(e, lb) == nv); } } }
//@@ before 0
    let ghost z = *self; let ghost zid = sumcheck_poly;
    proof {
        let ev = z.materialized_polys@[zid].evaluations@; assert(ev.len() == p2(nv as int));
        assert forall|x: int| 0 <= x < p2(nv as int) implies #[trigger] ev[x] == f0() && pt_val(z, zid, at_bool(x)) == f0() by { let v = pt_val(z, zid, at_bool(x)); assert(v == ev[x]); }
        assert forall|pt: Seq<F>| pt.len() == nv implies #[trigger] pt_val(z, zid, at_point(pt)) == f0() by { mle_const(ev, pt, f0()); }
    }
//@@ inv 0
            zk_n0 == cs.len(), *self == (ProverTracker { transcript: self.transcript, ..z }), !self.transcript.is_empty, ilog(self.transcript) == sums_log(ilog(b.transcript), cs, zk_i0 as int),
//@@ after 0
    proof { pt_frame(z, *self); assert forall|id: TrackerID, t: TVal| pt_has(b, id) implies #[trigger] pt_val(*self, id, t) == pt_val(b, id, t) by { assert(pt_val(z, id, t) == pt_val(b, id, t)); } }
//@@ inv 1
            zk_n1 == cs.len(), zk_s0@ == cs, pt_wf(*self), pt_ext(b, *self), pt_kept(b, *self), self.id_counter == b.id_counter + 1 + 2 * zk_i1, pt_has(*self, sumcheck_poly), pt_nv(*self, sumcheck_poly) == nv, !self.transcript.is_empty,
            ilog(self.transcript) == after_chals(l1, "sumcheck challenge"@, zk_i1 as int), self.sum_check_claims@ == cs, self.materialized_comms@ == b.materialized_comms@, self.pcs_param == b.pcs_param,
            forall|t: TVal| #[trigger] pt_val(*self, sumcheck_poly, t) == fadd(pt_val(z, zid, t), fsum(zk_i1 as int, c_term(b, t))),
            sc_sum == fsum(zk_i1 as int, agg_term(cs, l1)),
//@@ start 1
        let ghost s = *self; let ghost g = sumcheck_poly; let ghost lb = zk_s0@[zk_i1 as int].label;
        proof { assert(pt_has(b, cs[zk_i1 as int].label)); assert(pt_nv(s, lb) == pt_nv(b, lb)); }
//@@ after-let challenge
        let ghost s1 = *self; proof { pt_frame(s, s1); }
//@@ end 1
        proof { let n = zk_i1 as int;
            assert forall|t: TVal| #[trigger] pt_val(*self, sumcheck_poly, t) == fadd(pt_val(z, zid, t), fsum(n, c_term(b, t))) by {
                assert(pt_val(s, g, t) == fadd(pt_val(z, zid, t), fsum(n - 1, c_term(b, t)))); assert(pt_val(s1, lb, t) == pt_val(b, lb, t)); assert(pt_val(s1, g, t) == pt_val(s, g, t));
                assert(fsum(n, c_term(b, t)) == fadd(fsum(n - 1, c_term(b, t)), c_term(b, t)(n - 1)));
                fadd_assoc(pt_val(z, zid, t), fsum(n - 1, c_term(b, t)), c_term(b, t)(n - 1));
            }
            assert(fsum(n, agg_term(cs, l1)) == fadd(fsum(n - 1, agg_term(cs, l1)), agg_term(cs, l1)(n - 1))); }
//@@ after 1
    let ghost u = *self; let ghost sp = sumcheck_poly;
    proof {
        assert forall|pt: Seq<F>| pt.len() == nv implies #[trigger] pt_val(u, sp, at_point(pt)) == c_val(b, at_point(pt)) by { assert(pt_val(z, zid, at_point(pt)) == f0()); assert(pt_val(u, sp, at_point(pt)) == fadd(f0(), c_val(b, at_point(pt)))); }
        assert forall|x: int| 0 <= x < p2(nv as int) implies #[trigger] pt_val(u, sp, at_bool(x)) == c_at(b)(x) by { assert(pt_val(z, zid, at_bool(x)) == f0()); assert(pt_val(u, sp, at_bool(x)) == fadd(f0(), c_val(b, at_bool(x)))); }
    }
//@@ inv 2
            zk_n2 == zk_s1@.len(), zk_s1@.len() == p2(nv as int), forall|j: int| 0 <= j < zk_n2 ==> #[trigger] zk_s1@[j] == c_at(b)(j), zk_acc0 == fsum(zk_i2 as int, c_at(b)),
//@@ before 2
            proof { assert forall|j: int| 0 <= j < zk_n2 implies #[trigger] zk_s1@[j] == c_at(b)(j) by { assert(zk_s1@[j] == pt_val(u, sp, at_bool(j))); } }
//@@ after-let sc_avp
    proof { assert(true_agg_ok(b, nv as int)); pt_frame_cached(u, *self);
        let f = |x: int| vpm(sc_avp, at_bool(x));
        assert forall|x: int| 0 <= x < p2(nv as int) implies #[trigger] f(x) == c_at(b)(x) by { assert(vpm(sc_avp, at_bool(x)) == pt_val(u, sp, at_bool(x))); }
        fsum_eq(p2(nv as int), f, c_at(b)); assert(vp_sum(sc_avp) == c_sum(b)); }
//@@ after-let sc_proof
    let ghost d = sc_avp.aux_info.max_degree as int; let ghost ch = sc_proof.point@; let ghost prf = sc_proof;
    proof { assert(ch.len() == nv); assert(vpm(sc_avp, at_point(ch)) == pt_val(u, sp, at_point(ch))); assert(sc_done(b, nv as int, d, prf)); }
//@@ inv 3
            zk_n3 == zk_s2@.len(), zk_acc1@ =~= zk_s2@.subrange(0, zk_i3 as int), zk_i3 == zk_n3 ==> zk_acc1@ =~= zk_s2@, zk_s2@.to_set() == b.materialized_comms@.dom(), zk_s2@.no_duplicates(),
//@@ end 3
            proof { assert(zk_s2@.subrange(0, zk_i3 as int) =~= zk_s2@.subrange(0, zk_i3 - 1).push(zk_s2@[zk_i3 - 1])); }
//@@ before 4
    let ghost ids = mat_comm_ids@; let ghost bm = b.materialized_polys@;
    proof { assert(ids_sorted(ids)) by { assert forall|i: int, j: int| 0 <= i < j < ids.len() implies (#[trigger] ids[i]).0 < (#[trigger] ids[j]).0 by { assert(ids[i] != ids[j]); } } ids_is(b.materialized_comms@.dom(), ids);
        assert forall|j: int| 0 <= j < ids.len() implies bm.contains_key(#[trigger] ids[j]) && bm[ids[j]].num_vars == nv && dwf(*bm[ids[j]]) && self.materialized_polys@.contains_key(ids[j]) && self.materialized_polys@[ids[j]] == bm[ids[j]] by {
            assert(ids.contains(ids[j])); assert(ids.to_set().contains(ids[j])); assert(b.materialized_comms@.contains_key(ids[j])); assert(a.materialized_comms@.contains_key(ids[j])); assert(a.materialized_polys@.contains_key(ids[j])); assert(e.materialized_polys@.dom().contains(ids[j])); assert(e.materialized_polys@.contains_key(ids[j]));
        } }
//@@ inv 4
            zk_n4 == ids.len(), mat_polys@.len() == zk_i4, points@.len() == zk_i4, evals@.len() == zk_i4,
            forall|j: int| 0 <= j < zk_i4 ==> *(#[trigger] mat_polys@[j]) == *bm[ids[j]], forall|j: int| 0 <= j < zk_i4 ==> (#[trigger] points@[j])@ == ch, forall|j: int| 0 <= j < zk_i4 ==> #[trigger] evals@[j] == mlev(bm[ids[j]].evaluations@, ch),
//@@ start 4
        proof { assert(bm.contains_key(ids[zk_i4 as int])); }
//@@ after 4
    proof { assert(derefs(mat_polys@) =~= c_tabs(b)); assert(vviews(points@) =~= Seq::new(c_ids(b).len(), |i: int| ch)); assert(evals@ =~= c_evals(b, ch)); }
//@@ after-let pcs_proof_res
    proof { if pcs_proof_res.is_err() { assert(sc_done(b, nv as int, d, prf) && c_open(b, nv as int, d, prf).is_none()); assert(no_opening(b, nv as int)); } }
//@@ inv 5
            zk_n5 == cs.len(), sumcheck_val_map@ == claim_map(cs, zk_i5 as int),
//@@ inv 6
            zk_n6 == ids.len(), forall|id: TrackerID, pt: Seq<F>| #[trigger] query_map@.contains_key((id, pt)) <==> ids.subrange(0, zk_i6 as int).contains(id) && pt == ch,
//@@ end 6
        proof { assert(ids.subrange(0, zk_i6 as int) =~= ids.subrange(0, zk_i6 - 1).push(ids[zk_i6 - 1])); assert forall|id: TrackerID| ids.subrange(0, zk_i6 as int).contains(id) <==> ids.subrange(0, zk_i6 - 1).contains(id) || id == ids[zk_i6 - 1] by { seq_push_has(ids.subrange(0, zk_i6 - 1), ids[zk_i6 - 1], id); } }
//@@ tail
    proof { assert(ids.subrange(0, ids.len() as int) =~= ids); assert forall|id: TrackerID| ids.contains(id) <==> #[trigger] b.materialized_comms@.contains_key(id) by { assert(ids.to_set().contains(id) == b.materialized_comms@.dom().contains(id)); } }
//@end
/// when every recorded zero claim vanishes on the hypercube the folded claim has the sum claimed for it: a proof is made
pub proof fn honest_sum(a: ProverTracker, e: ProverTracker, b: ProverTracker, nv: int)
    requires pt_wf(a), scl_has(a), steps(a, e, b, nv), zeros_hold(e, nv)
    ensures c_true(b, nv) == c_sum(b)
{
    let cs = b.sum_check_claims@; let n = cs.len() as int; let l = c_log(b); let m = p2(nv);
    zeros_fold(e, b, nv);
    let f = |x: int, i: int| c_term(b, at_bool(x))(i);
    let rows = |x: int| fsum(n, |i: int| f(x, i)); let cols = |i: int| fsum(m, |x: int| f(x, i));
    assert forall|x: int| 0 <= x < m implies #[trigger] c_at(b)(x) == rows(x) by { fsum_eq(n, c_term(b, at_bool(x)), |i: int| f(x, i)); }
    fsum_eq(m, c_at(b), rows);
    fsum_swap(m, n, f); fsum_eq(m, rows, |x: int| fsum(n, |i: int| f(x, i))); fsum_eq(n, cols, |i: int| fsum(m, |x: int| f(x, i)));
    assert forall|i: int| 0 <= i < n implies #[trigger] cols(i) == agg_term(cs, l)(i) by {
        let lb = cs[i].label; let g = pt_at(b, lb); let c = sc_chal(l, i); let h = |x: int| fmul(c, g(x));
        fsum_eq(m, |x: int| f(x, i), h); fsum_scale(m, c, g); fmul_comm(c, cs[i].claimed_sum);
        assert(fsum(m, g) == cs[i].claimed_sum) by {
            if i < n - 1 { assert(cs[i] == e.sum_check_claims@[i]); let lb0 = a.sum_check_claims@[i].label; assert(pt_has(a, lb0)); assert(pt_has(e, lb)); assert(pt_nv(e, lb) == nv); 
                fsum_eq(m, g, pt_at(e, lb)); }
            else { assert(cs[i] == p_zclaim(e)); }
        }
    }
    fsum_eq(n, cols, agg_term(cs, l));
}
/// a zero claim that holds for the tables as recorded holds for them brought to a common size
pub proof fn zeros_kept(a: ProverTracker, e: ProverTracker, nv: int)
    requires pt_wf(a), zcl_has(a), equalized(a, e, nv), forall|i: int, x: int| 0 <= i < a.zero_check_claims@.len() && 0 <= x < p2(pt_nv(a, a.zero_check_claims@[i].label)) ==> #[trigger] pt_at(a, a.zero_check_claims@[i].label)(x) == f0()
    ensures zeros_hold(e, nv)
{
    assert forall|i: int, b: int| 0 <= i < e.zero_check_claims@.len() && 0 <= b < p2(nv) implies #[trigger] pt_at(e, e.zero_check_claims@[i].label)(b) == f0() by {
        let lb = a.zero_check_claims@[i].label; assert(pt_has(a, a.zero_check_claims@[i].label)); equalized_bool(a, e, nv, lb, b); let x = b / p2(nv - pt_nv(a, lb)); assert(pt_at(a, lb)(x) == f0());
    }
}
