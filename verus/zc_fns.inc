// ---- zero check: src/subroutines/poly_iop/zero_check/mod.rs ----
//@typemap Self::ZeroCheckProof => IOPProof
//@typemap Self::ZeroCheckSubClaim => ZeroCheckSubClaim
//@struct src/subroutines/poly_iop/zero_check/mod.rs::ZeroCheckSubClaim
/// challenges the zero check draws before the sum check, and the log the sum check starts from
pub open spec fn zc_r(log: Seq<TEv>, n: int) -> Seq<F> { chals(log, "0check r"@, n) }
pub open spec fn zc_start(log: Seq<TEv>, n: int, d: int) -> Seq<TEv> { sc_start(after_chals(log, "0check r"@, n), n, d + 1) }
/// acceptance of zero-check verification for a polynomial of degree d in n variables
pub open spec fn zc_accepts(ms: Seq<Seq<F>>, n: int, d: int, log: Seq<TEv>) -> bool { sc_accepts(f0(), ms, n, d + 1, zc_start(log, n, d)) }
/// the polynomial is zero on the whole hypercube
pub open spec fn vp_zero(v: VirtualPolynomial) -> bool { forall|b: int| 0 <= b < p2(v.aux_info.num_variables as int) ==> #[trigger] vpm(v, at_bool(b)) == f0() }
//@fn src/subroutines/poly_iop/zero_check/mod.rs::ZeroCheck for PolyIOP::prove | free as=ZeroCheck__prove
//@@ requires
        vp_wf(*poly), poly.aux_info.num_variables < 62, poly.aux_info.max_degree < 0x3fff_ffff_ffff_fffe,
//@@ ensures
        ret.is_ok() <==> !old(transcript).is_empty && poly.aux_info.num_variables >= 1,
        ret.is_ok() ==> {
            let n = poly.aux_info.num_variables as int; let d = poly.aux_info.max_degree as int; let log = ilog(*old(transcript)); let r = zc_r(log, n); let l = zc_start(log, n, d); let ms = msgs(ret.unwrap()); let ch = sc_chs(l, ms, n);
            let s = fsum(p2(n), |b: int| fmul(eqw(b, r), vpm(*poly, at_bool(b))));
            &&& ret.unwrap().point@ == ch && ms.len() == n
            &&& ilog(*final(transcript)) == sc_log(l, ms, n) && !final(transcript).is_empty
            &&& sc_accepts(s, ms, n, d + 1, l) && fadd(ms[0][0], ms[0][1]) == s
            &&& vp_zero(*poly) ==> zc_accepts(ms, n, d, log)
            &&& sc_expect(ms, ch, s, n) == fmul(eqpt(ch, r), vpm(*poly, at_point(ch)))
        },
//@@ entry
    let ghost n = poly.aux_info.num_variables as int; let ghost log = ilog(*transcript); let ghost rr = zc_r(log, n);
//@@ tail
    proof {
        let a = |b: int| fmul(eqw(b, rr), vpm(*poly, at_bool(b)));
        if n >= 1 {
            fsum_eq(p2(n), |b: int| vpm(f_hat, at_bool(b)), a);
            assert(vp_sum(f_hat) == fsum(p2(n), a));
            if vp_zero(*poly) { broadcast use funits; fsum_zero(p2(n), a); }
            let ms = msgs(zk_ret.unwrap()); let ch = sc_chs(zc_start(log, n, poly.aux_info.max_degree as int), ms, n);
            assert(sc_round(ms, ch, vp_sum(f_hat), poly.aux_info.max_degree + 1, 0));
        }
    }
//@end
//@fn src/subroutines/poly_iop/zero_check/mod.rs::ZeroCheck for PolyIOP::verify | free as=ZeroCheck__verify
//@@ requires
        fx_aux_info.max_degree < 0x3fff_ffff_ffff_fffe, fx_aux_info.num_variables < 0x3fff_ffff_ffff_ffff,
        proof.proofs@.len() >= fx_aux_info.num_variables ==> { let n = fx_aux_info.num_variables as int; let d = fx_aux_info.max_degree as int; let log = ilog(*old(transcript)); let ch = sc_chs(zc_start(log, n, d), msgs(*proof), n);
            chs_off(ch, d + 1) && eqpt(ch, zc_r(log, n)) != f0() },
//@@ ensures
        ret.is_ok() <==> !old(transcript).is_empty && zc_accepts(msgs(*proof), fx_aux_info.num_variables as int, fx_aux_info.max_degree as int, ilog(*old(transcript))),
        ret.is_ok() ==> {
            let n = fx_aux_info.num_variables as int; let d = fx_aux_info.max_degree as int; let log = ilog(*old(transcript)); let r = zc_r(log, n); let l = zc_start(log, n, d); let ms = msgs(*proof); let ch = sc_chs(l, ms, n);
            &&& ret.unwrap().point@ == ch && ret.unwrap().init_challenge@ == r
            &&& fmul(ret.unwrap().expected_evaluation, eqpt(ch, r)) == sc_expect(ms, ch, f0(), n)
            &&& ilog(*final(transcript)) == sc_log(l, ms, n) && !final(transcript).is_empty
        },
//@@ entry
    broadcast use funits;
    let ghost n = fx_aux_info.num_variables as int; let ghost d = fx_aux_info.max_degree as int; let ghost log = ilog(*transcript); let ghost ms = msgs(*proof); let ghost l = zc_start(log, n, d); let ghost ch = sc_chs(l, ms, n);
    proof { if zc_accepts(ms, n, d, log) { assert(sc_round(ms, ch, f0(), d + 1, 0)); assert(ms[0] == proof.proofs@[0].evaluations@); } }
//@@ tail
    proof { if eqpt(ch, zc_r(log, n)) != f0() { fdiv_mul(sc_expect(ms, ch, f0(), n), eqpt(ch, zc_r(log, n))); } }
//@end
/// an honestly produced proof of a polynomial that vanishes on the hypercube is accepted, and the claim handed back is the polynomial's value at the challenge point
pub proof fn zc_complete(v: VirtualPolynomial, log: Seq<TEv>, ms: Seq<Seq<F>>, e: F)
    requires ({ let n = v.aux_info.num_variables as int; let d = v.aux_info.max_degree as int; let r = zc_r(log, n); let ch = sc_chs(zc_start(log, n, d), ms, n);
        &&& sc_expect(ms, ch, f0(), n) == fmul(eqpt(ch, r), vpm(v, at_point(ch))) && fmul(e, eqpt(ch, r)) == sc_expect(ms, ch, f0(), n) && eqpt(ch, r) != f0() })
    ensures e == vpm(v, at_point(sc_chs(zc_start(log, v.aux_info.num_variables as int, v.aux_info.max_degree as int), ms, v.aux_info.num_variables as int)))
{
    let n = v.aux_info.num_variables as int; let d = v.aux_info.max_degree as int; let r = zc_r(log, n); let ch = sc_chs(zc_start(log, n, d), ms, n);
    let q = eqpt(ch, r); let m = vpm(v, at_point(ch));
    { broadcast use fhom; let (e1, q1, m1) = (frep(e), frep(q), frep(m)); assert((e1 - m1) * q1 == e1 * q1 - q1 * m1) by(nonlinear_arith); assert(fmul(fsub(e, m), q) == fsub(fmul(e, q), fmul(q, m))); }
    { broadcast use funits; assert(fmul(fsub(e, m), q) == f0()); } fmul_eq0(fsub(e, m), q);
    fsub_eq0(e, m);
}
