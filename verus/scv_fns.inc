// ---- sumcheck verification: src/subroutines/poly_iop/sum_check/{verifier,mod}.rs ----
//@include iop.inc
/// canonical serialization of a struct with one field is that of the field
impl ZkSer for IOPProverMessage { open spec fn zk_ser(&self) -> Seq<u8> { ser_fs(self.evaluations@) } }
pub open spec fn msgs(p: IOPProof) -> Seq<Seq<F>> { Seq::new(p.proofs@.len(), |i: int| p.proofs@[i].evaluations@) }
/// log once message m was absorbed, before its challenge is drawn
pub open spec fn sc_absorb(log: Seq<TEv>, m: Seq<F>) -> Seq<TEv> { log.push(TEv::Msg("prover msg"@, ser_fs(m))) }
pub open spec fn sc_log(log: Seq<TEv>, ms: Seq<Seq<F>>, k: int) -> Seq<TEv> decreases k { if k <= 0 { log } else { after_chal(sc_absorb(sc_log(log, ms, k - 1), ms[k - 1]), "Internal round"@) } }
/// challenge of round k: drawn after round k's message was absorbed
pub open spec fn sc_ch(log: Seq<TEv>, ms: Seq<Seq<F>>, k: int) -> F { chal(sc_absorb(sc_log(log, ms, k), ms[k]), "Internal round"@) }
pub open spec fn sc_chs(log: Seq<TEv>, ms: Seq<Seq<F>>, n: int) -> Seq<F> { Seq::new(n as nat, |k: int| sc_ch(log, ms, k)) }
/// value the k-th message must sum to (the claimed sum for k = 0, the previous message at its challenge otherwise)
pub open spec fn sc_expect(ms: Seq<Seq<F>>, ch: Seq<F>, sum: F, k: int) -> F { if k == 0 { sum } else { interp(ms[k - 1], ch[k - 1]) } }
pub open spec fn sc_round(ms: Seq<Seq<F>>, ch: Seq<F>, sum: F, d: int, k: int) -> bool { ms[k].len() == d + 1 && fadd(ms[k][0], ms[k][1]) == sc_expect(ms, ch, sum, k) }
/// the transcript is consistent: at least one round, degree at least one, and every round passes
pub open spec fn sc_ok(ms: Seq<Seq<F>>, ch: Seq<F>, sum: F, n: int, d: int) -> bool { n >= 1 && d >= 1 && forall|k: int| 0 <= k < n ==> #[trigger] sc_round(ms, ch, sum, d, k) }
/// no challenge falls on an interpolation node 0..d (each does with probability (d+1)/|F|; the code divides by the difference)
pub open spec fn chs_off(ch: Seq<F>, d: int) -> bool { forall|k: int| 0 <= k < ch.len() ==> off_nodes(#[trigger] ch[k], d + 1) }
pub open spec fn vs_msgs(v: IOPVerifierState) -> Seq<Seq<F>> { Seq::new(v.polynomials_received@.len(), |i: int| v.polynomials_received@[i]@) }
//@fn src/subroutines/poly_iop/sum_check/verifier.rs::SumCheckVerifier for IOPVerifierState::verifier_init
//@@ ensures
        ret.round == 1, ret.num_vars == index_info.num_variables, ret.max_degree == index_info.max_degree, !ret.finished, ret.polynomials_received@.len() == 0, ret.challenges@.len() == 0,
//@end
//@fn src/subroutines/poly_iop/sum_check/verifier.rs::SumCheckVerifier for IOPVerifierState::verify_round_and_update_state
//@@ requires
        !old(transcript).is_empty, old(self).round < usize::MAX,
//@@ ensures
        old(self).finished ==> ret.is_err(),
        !old(self).finished ==> ret.is_ok() && ret.unwrap() == chal(ilog(*old(transcript)), "Internal round"@)
            && ilog(*final(transcript)) == after_chal(ilog(*old(transcript)), "Internal round"@) && !final(transcript).is_empty
            && final(self).challenges@ == old(self).challenges@.push(ret.unwrap())
            && vs_msgs(*final(self)) == vs_msgs(*old(self)).push(prover_msg.evaluations@)
            && final(self).num_vars == old(self).num_vars && final(self).max_degree == old(self).max_degree
            && (if old(self).round == old(self).num_vars { final(self).finished && final(self).round == old(self).round } else { !final(self).finished && final(self).round == old(self).round + 1 }),
//@@ tail
    assert(!old(self).finished ==> vs_msgs(*self) =~= vs_msgs(*old(self)).push(prover_msg.evaluations@));
//@end
//@fn src/subroutines/poly_iop/sum_check/verifier.rs::SumCheckVerifier for IOPVerifierState::check_and_generate_subclaim
//@@ requires
        self.max_degree < 0x3fff_ffff_ffff_ffff, self.challenges@.len() == self.polynomials_received@.len(), chs_off(self.challenges@, self.max_degree as int), self.finished ==> self.num_vars >= 1,
//@@ ensures
        ret.is_ok() <==> self.finished && self.polynomials_received@.len() == self.num_vars && sc_ok(vs_msgs(*self), self.challenges@, *asserted_sum, self.num_vars as int, self.max_degree as int),
        ret.is_ok() ==> ret.unwrap().point@ == self.challenges@ && ret.unwrap().expected_evaluation == sc_expect(vs_msgs(*self), self.challenges@, *asserted_sum, self.num_vars as int),
//@@ entry
    let ghost ms = vs_msgs(*self); let ghost ch = self.challenges@; let ghost d = self.max_degree as int; let ghost n = self.num_vars as int;
//@@ inv 0
            zk_n0 == n, ch.len() == n, ms.len() == n, zk_acc0@.len() == zk_i0, forall|k: int| 0 <= k < zk_i0 ==> (#[trigger] ms[k]).len() == d + 1, forall|k: int| 0 <= k < zk_i0 ==> #[trigger] zk_acc0@[k] == interp(ms[k], ch[k]),
//@@ start 0
        proof { assert(off_nodes(ch[zk_i0 as int], d + 1)); assert(ms[zk_i0 as int].len() != d + 1 ==> !sc_round(ms, ch, *asserted_sum, d, zk_i0 as int)); }
//@@ item 0
                proof { assert(evaluations@ == ms[zk_k0 as int]); assert(challenge == ch[zk_k0 as int]); }
//@@ inv 1
            zk_n1 == n, expected_vec@.len() == n + 1, forall|k: int| 0 <= k <= n ==> #[trigger] expected_vec@[k] == sc_expect(ms, ch, *asserted_sum, k),
            forall|k: int| 0 <= k < n ==> (#[trigger] ms[k]).len() == d + 1, forall|k: int| 0 <= k < zk_i1 ==> d >= 1 && #[trigger] sc_round(ms, ch, *asserted_sum, d, k),
//@@ start 1
        assert(d >= 1 ==> (fadd(ms[zk_i1 as int][0], ms[zk_i1 as int][1]) == sc_expect(ms, ch, *asserted_sum, zk_i1 as int)) == sc_round(ms, ch, *asserted_sum, d, zk_i1 as int));
//@@ after 1
    proof { assert(sc_round(ms, ch, *asserted_sum, d, 0)); }
//@end
/// acceptance of sumcheck verification
pub open spec fn sc_accepts(sum: F, ms: Seq<Seq<F>>, nv: int, d: int, log: Seq<TEv>) -> bool {
    ms.len() >= nv && sc_ok(ms, sc_chs(log, ms, nv), sum, nv, d)
}
pub open spec fn sc_start(log: Seq<TEv>, nv: int, d: int) -> Seq<TEv> { log.push(TEv::Msg("aux info"@, ser_aux(d, nv))) }
pub open spec fn trunc(ms: Seq<Seq<F>>, n: int) -> Seq<Seq<F>> { ms.subrange(0, n) }
pub proof fn sc_log_prefix(log: Seq<TEv>, a: Seq<Seq<F>>, b: Seq<Seq<F>>, k: int) requires 0 <= k, forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures sc_log(log, a, k) == sc_log(log, b, k) decreases k { if k > 0 { sc_log_prefix(log, a, b, k - 1); } }
//@fn src/subroutines/poly_iop/sum_check/mod.rs::SumCheck for PolyIOP::extract_sum | free as=SumCheck__extract_sum
//@@ requires
        proof.proofs@.len() >= 1, proof.proofs@[0].evaluations@.len() >= 2,
//@@ ensures
        ret == fadd(msgs(*proof)[0][0], msgs(*proof)[0][1]),
//@end
//@fn src/subroutines/poly_iop/sum_check/mod.rs::SumCheck for PolyIOP::verify | free as=SumCheck__verify
//@@ requires
        aux_info.max_degree < 0x3fff_ffff_ffff_ffff, aux_info.num_variables < 0x3fff_ffff_ffff_ffff,
        proof.proofs@.len() >= aux_info.num_variables ==> chs_off(sc_chs(sc_start(ilog(*old(transcript)), aux_info.num_variables as int, aux_info.max_degree as int), msgs(*proof), aux_info.num_variables as int), aux_info.max_degree as int),
//@@ ensures
        ret.is_ok() <==> sc_accepts(claimed_sum, msgs(*proof), aux_info.num_variables as int, aux_info.max_degree as int, sc_start(ilog(*old(transcript)), aux_info.num_variables as int, aux_info.max_degree as int)),
        ret.is_ok() ==> {
            let n = aux_info.num_variables as int; let l = sc_start(ilog(*old(transcript)), n, aux_info.max_degree as int); let ms = msgs(*proof);
            &&& ret.unwrap().point@ == sc_chs(l, ms, n)
            &&& ret.unwrap().expected_evaluation == interp(ms[n - 1], sc_chs(l, ms, n)[n - 1])
            &&& ilog(*final(transcript)) == sc_log(l, ms, n) && !final(transcript).is_empty
        },
//@@ entry
    let ghost n = aux_info.num_variables as int; let ghost d = aux_info.max_degree as int; let ghost l = sc_start(ilog(*transcript), n, d); let ghost ms = msgs(*proof); let ghost ch = sc_chs(l, ms, n);
//@@ inv 0
            zk_n0 == n, !transcript.is_empty, ilog(*transcript) == sc_log(l, ms, zk_i0 as int), zk_i0 <= ms.len(),
            verifier_state.num_vars == n, verifier_state.max_degree == d, verifier_state.challenges@ == ch.subrange(0, zk_i0 as int), vs_msgs(verifier_state) == ms.subrange(0, zk_i0 as int),
            verifier_state.finished == (zk_i0 == n && n > 0), zk_i0 < n ==> verifier_state.round == zk_i0 + 1,
//@@ before 0
    assert(vs_msgs(verifier_state) =~= ms.subrange(0, 0)); assert(verifier_state.challenges@ =~= ch.subrange(0, 0));
//@@ end 0
        proof { assert(ms.subrange(0, zk_i0 as int) =~= ms.subrange(0, zk_i0 - 1).push(ms[zk_i0 - 1])); assert(ch.subrange(0, zk_i0 as int) =~= ch.subrange(0, zk_i0 - 1).push(ch[zk_i0 - 1])); }
//@@ after 0
    proof { assert(ch.subrange(0, n) =~= ch); let t = ms.subrange(0, n); 
        assert forall|k: int| 0 <= k < n implies sc_round(t, ch, claimed_sum, d, k) == #[trigger] sc_round(ms, ch, claimed_sum, d, k) by { assert(t[k] == ms[k]); if k > 0 { assert(t[k - 1] == ms[k - 1]); } }
        assert(sc_ok(t, ch, claimed_sum, n, d) == sc_ok(ms, ch, claimed_sum, n, d)) by {
            if sc_ok(t, ch, claimed_sum, n, d) { assert forall|k: int| 0 <= k < n implies #[trigger] sc_round(ms, ch, claimed_sum, d, k) by { assert(sc_round(t, ch, claimed_sum, d, k)); } }
            if sc_ok(ms, ch, claimed_sum, n, d) { assert forall|k: int| 0 <= k < n implies #[trigger] sc_round(t, ch, claimed_sum, d, k) by { assert(sc_round(ms, ch, claimed_sum, d, k)); } }
        }
    }
//@end
