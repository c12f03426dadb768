// ---- batched openings, verifier: src/subroutines/pcs/multilinear_kzg/batching.rs ----
//@typemap PCS => MultilinearKzgPCS
//@typemap E => E
//@typemap PCS::VerifierParam => MultilinearVerifierParam
//@typemap PCS::ProverParam => MultilinearProverParam
//@typemap PCS::Proof => MultilinearKzgProof
//@typemap BatchProof<E,PCS> => BatchProof
//@struct src/subroutines/pcs/multilinear_kzg/batching.rs::BatchProof
impl From<TranscriptError> for PCSError { #[verifier::external_body] fn from(e: TranscriptError) -> (r: PCSError) { unimplemented!() } }
impl From<ArithErrors> for PCSError { #[verifier::external_body] fn from(e: ArithErrors) -> (r: PCSError) { unimplemented!() } }
/// equality by content
pub trait ZkEq<B> { spec fn zk_eqv(&self, b: &B) -> bool; fn zk_eq(&self, b: &B) -> (r: bool) ensures r == self.zk_eqv(b); }
impl ZkEq<usize> for usize { open spec fn zk_eqv(&self, b: &usize) -> bool { *self == *b } fn zk_eq(&self, b: &usize) -> (r: bool) { *self == *b } }
impl ZkEq<F> for F { open spec fn zk_eqv(&self, b: &F) -> bool { *self == *b } fn zk_eq(&self, b: &F) -> (r: bool) { *self == *b } }
impl<'a> ZkEq<&'a [F]> for Vec<F> { open spec fn zk_eqv(&self, b: &&'a [F]) -> bool { self@ == (**b)@ } #[verifier::external_body] fn zk_eq(&self, b: &&'a [F]) -> (r: bool) { unimplemented!() } }
impl ZkEq<Vec<F>> for Vec<F> { open spec fn zk_eqv(&self, b: &Vec<F>) -> bool { self@ == b@ } #[verifier::external_body] fn zk_eq(&self, b: &Vec<F>) -> (r: bool) { unimplemented!() } }
pub open spec fn vv(p: Seq<Vec<F>>) -> Seq<Seq<F>> { Seq::new(p.len(), |i: int| p[i]@) }
/// the serialization of a list of points is a function of their contents
pub uninterp spec fn ser_pts(p: Seq<Seq<F>>) -> Seq<u8>;
impl ZkSer for Vec<Vec<F>> { open spec fn zk_ser(&self) -> Seq<u8> { ser_pts(vv(self@)) } }
/// the log with the points and the claimed values absorbed: what the weights are drawn from
pub open spec fn b_log(log: Seq<TEv>, pts: Seq<Seq<F>>, e: Seq<F>) -> Seq<TEv> { log.push(TEv::Msg("points"@, ser_pts(pts))).push(TEv::Msg("evals"@, ser_fs(e))) }
pub open spec fn clog2(k: int) -> int decreases k { if k <= 1 { 0 } else { 1 + clog2((k + 1) / 2) } }
/// the weights' point, and the log the sumcheck runs on
pub open spec fn b_t(log: Seq<TEv>, pts: Seq<Seq<F>>, e: Seq<F>) -> Seq<F> { chals(b_log(log, pts, e), "t"@, clog2(pts.len() as int)) }
pub open spec fn b_log2(log: Seq<TEv>, pts: Seq<Seq<F>>, e: Seq<F>) -> Seq<TEv> { after_chals(b_log(log, pts, e), "t"@, clog2(pts.len() as int)) }
/// the claimed sum: the values weighted by eq(t, i)
pub open spec fn b_sum(t: Seq<F>, e: Seq<F>) -> F { fsum(e.len() as int, |i: int| fmul(eqw(i, t), e[i])) }
/// the (discrete log of the) commitment to g': the commitments weighted by eq(a2, point_i) eq(t, i)
pub open spec fn b_com(t: Seq<F>, a2: Seq<F>, pts: Seq<Seq<F>>, c: Seq<Commitment>) -> F { fsum(pts.len() as int, |i: int| fmul(fmul(eqpt(a2, pts[i]), eqw(i, t)), dl(c[i].0))) }
/// the batch is accepted
pub open spec fn b_accepts(v: MultilinearVerifierParam, c: Seq<Commitment>, pts: Seq<Seq<F>>, p: BatchProof, log: Seq<TEv>) -> bool {
    let e = p.f_i_eval_at_point_i@; let a2 = p.sum_check_proof.point@; let n = a2.len() as int; let t = b_t(log, pts, e); let ms = msgs(p.sum_check_proof); let l = sc_start(b_log2(log, pts, e), n, 2); let ch = sc_chs(l, ms, n);
    &&& c.len() >= 2 && pts.len() == c.len() && e.len() == c.len()
    &&& forall|i: int| 0 <= i < pts.len() ==> #[trigger] pts[i].len() == n
    &&& sc_accepts(b_sum(t, e), ms, n, 2, l)
    &&& ch == a2
    &&& n <= v.num_vars && p.g_prime_proof.proofs@.len() == n
    &&& vsum_d(v, b_com(t, a2, pts, c), a2, interp(ms[n - 1], ch[n - 1]), p.g_prime_proof.proofs@) == f0()
}
pub proof fn clog2_spec(k: int) requires k >= 1 ensures clog2(k) >= 0, k <= p2(clog2(k)), clog2(k) > 0 ==> p2(clog2(k) - 1) < k, k >= 2 <==> clog2(k) >= 1 decreases k {
    if k >= 2 { clog2_spec((k + 1) / 2); let r = clog2((k + 1) / 2); assert(p2(r + 1) == 2 * p2(r)); if r > 0 { assert(p2(r) == 2 * p2(r - 1)); } }
}
pub proof fn clog2_uniq(k: int, r: int) requires k >= 1, r >= 0, k <= p2(r), r > 0 ==> p2(r - 1) < k ensures r == clog2(k) { clog2_spec(k); if r < clog2(k) { p2_mono(r, clog2(k) - 1); } else if r > clog2(k) { p2_mono(clog2(k), r - 1); } }
//@fn src/subroutines/pcs/multilinear_kzg/batching.rs::batch_verify_internal | ren=log2:zk_log2 ren=eq_eval:kzg_eq_eval veq
//@@ requires
        shape_v(*verifier_param), f_i_commitments@.len() < 0x2000_0000_0000_0000, proof.sum_check_proof.point@.len() < 0x3fff_ffff_ffff_ffff,
        ({ let n = proof.sum_check_proof.point@.len() as int; msgs(proof.sum_check_proof).len() >= n ==> chs_off(sc_chs(sc_start(b_log2(ilog(*old(transcript)), vv(points@), proof.f_i_eval_at_point_i@), n, 2), msgs(proof.sum_check_proof), n), 2) }),
//@@ ensures
        (ret is Ok && ret->Ok_0) <==> b_accepts(*verifier_param, f_i_commitments@, vv(points@), *proof, ilog(*old(transcript))),
//@@ entry
    let ghost n = proof.sum_check_proof.point@.len() as int; let ghost pts = vv(points@); let ghost e = proof.f_i_eval_at_point_i@; let ghost lg = ilog(*transcript); let ghost kk = f_i_commitments@.len() as int;
    proof {
        if kk >= 1 { clog2_spec(kk); assert forall|r: int| #![trigger p2(r)] r >= 0 && kk <= p2(r) && (r > 0 ==> p2(r - 1) < kk) implies r == clog2(kk) by { clog2_uniq(kk, r); } }
        p2_64(); if clog2(kk) >= 62 { p2_mono(61, clog2(kk) - 1); assert(p2(62) == 2 * p2(61)); }
        assert(p2(0) == 1);
    }
//@@ inv 0
            zk_n0 == kk, scalars@.len() == zk_i0, bases@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] pts[j].len() == n,
            forall|j: int| 0 <= j < zk_i0 ==> #[trigger] scalars@[j] == fmul(eqpt(a2@, pts[j]), eqw(j, t@)), forall|j: int| 0 <= j < zk_i0 ==> #[trigger] bases@[j] == f_i_commitments@[j].0,
//@@ start 0
        proof { assert(pts[zk_i0 as int] == points@[zk_i0 as int]@); }
//@@ before 1
    let ghost cg = b_com(t@, a2@, pts, f_i_commitments@);
    proof {
        assert forall|j: int| 0 <= j < pts.len() implies #[trigger] pts[j].len() == n by { }
        fsum_eq(kk, |j: int| fmul(scalars@[j], dl(bases@[j])), |j: int| fmul(fmul(eqpt(a2@, pts[j]), eqw(j, t@)), dl(f_i_commitments@[j].0)));
        assert(dl(g_prime_commit) == cg);
        assert(a2@ =~= proof.sum_check_proof.point@); assert(pts.len() == kk);
    }
//@@ inv 1
            zk_n1 == kk, sum == fsum(zk_i1 as int, |j: int| fmul(eqw(j, t@), e[j])),
//@@ after 1
    proof { assert(sum == b_sum(t@, e)); }
//@end
//@typemap Self::BatchProof => BatchProof
//@typemap Self::Proof => MultilinearKzgProof
//@fn src/subroutines/pcs/multilinear_kzg/mod.rs::PolynomialCommitmentScheme for MultilinearKzgPCS::batch_verify
//@@ requires
        shape_v(*verifier_param), commitments@.len() < 0x2000_0000_0000_0000, batch_proof.sum_check_proof.point@.len() < 0x3fff_ffff_ffff_ffff,
        ({ let n = batch_proof.sum_check_proof.point@.len() as int; msgs(batch_proof.sum_check_proof).len() >= n ==> chs_off(sc_chs(sc_start(b_log2(ilog(*old(transcript)), vv(points@), batch_proof.f_i_eval_at_point_i@), n, 2), msgs(batch_proof.sum_check_proof), n), 2) }),
//@@ ensures
        (ret is Ok && ret->Ok_0) <==> b_accepts(*verifier_param, commitments@, vv(points@), *batch_proof, ilog(*old(transcript))),
//@end
