// ---- the multilinear KZG commitment ----
//@typemap Self::ProverParam => MultilinearProverParam
//@typemap Self::VerifierParam => MultilinearVerifierParam
//@typemap Self::Commitment => Commitment
//@typemap impl Borrow<Self::ProverParam> => &MultilinearProverParam
//@typemap C => G1A
//@typemap Evaluations<E::G1Affine> => Evaluations
//@typemap Evaluations<G1A> => Evaluations
//@struct src/subroutines/pcs/multilinear_kzg/srs.rs::Evaluations
//@struct src/subroutines/pcs/multilinear_kzg/srs.rs::MultilinearProverParam
//@struct src/subroutines/pcs/multilinear_kzg/srs.rs::MultilinearVerifierParam
//@struct src/subroutines/pcs/structs.rs::Commitment
//@struct src/subroutines/pcs/multilinear_kzg/mod.rs::MultilinearKzgProof
pub struct MultilinearKzgPCS { }
/// Borrow for a reference
impl MultilinearProverParam { pub fn borrow(&self) -> (r: &MultilinearProverParam) ensures *r == *self { self } }
/// level i of the setup: g scaled by the equality weights of the secrets t
pub open spec fn srs_level(b: Seq<G1A>, t: Seq<F>, dg: F) -> bool { b.len() == p2(t.len() as int) && forall|x: int| 0 <= x < b.len() ==> dl(#[trigger] b[x]) == fmul(eqw(x, t), dg) }
/// the prover key for the secrets t: level i holds the weights of t_i, t_{i+1}, ..
pub open spec fn srs_p(p: MultilinearProverParam, t: Seq<F>) -> bool {
    t.len() == p.num_vars && p.num_vars < 62 && p.powers_of_g@.len() == p.num_vars + 1 && forall|i: int| 0 <= i <= p.num_vars ==> srs_level((#[trigger] p.powers_of_g@[i]).evals@, t.subrange(i, t.len() as int), dl(p.g))
}
/// the verifier key for the secrets t
pub open spec fn srs_v(v: MultilinearVerifierParam, t: Seq<F>) -> bool {
    t.len() == v.num_vars && v.num_vars < 62 && v.h_mask@.len() == v.num_vars && forall|i: int| 0 <= i < v.num_vars ==> dl(#[trigger] v.h_mask@[i]) == fmul(t[i], dl(v.h))
}
/// the shape the functions need: enough tables, enough masks
pub open spec fn shape_p(p: MultilinearProverParam) -> bool { p.num_vars < 62 && p.powers_of_g@.len() == p.num_vars + 1 }
pub open spec fn shape_v(v: MultilinearVerifierParam) -> bool { v.num_vars < 62 && v.h_mask@.len() == v.num_vars }
pub open spec fn lin_all(b: Seq<G1A>, s: Seq<F>) -> F { lin(b, s, imin(b.len() as int, s.len() as int)) }
/// the i-th quotient table: the slope, in variable 0, of the table with its first i variables set to z
pub open spec fn slope(f: Seq<F>) -> Seq<F> { Seq::new(f.len() / 2, |b: int| fsub(f[2 * b + 1], f[2 * b])) }
pub open spec fn quot(ev: Seq<F>, z: Seq<F>, i: int) -> Seq<F> { slope(fold_lo_n(ev, z.subrange(0, i))) }
/// the left side of the verification equation, by discrete logarithms
pub open spec fn vterm(v: MultilinearVerifierParam, z: Seq<F>, pr: Seq<G1A>, i: int) -> F { fmul(dl(pr[i]), fsub(dl(v.h_mask@[v.num_vars - z.len() + i]), fmul(z[i], dl(v.h)))) }
pub open spec fn vsum_d(v: MultilinearVerifierParam, dc: F, z: Seq<F>, y: F, pr: Seq<G1A>) -> F {
    fadd(fsum(z.len() as int, |i: int| vterm(v, z, pr, i)), fmul(fsub(fmul(y, dl(v.g)), dc), dl(v.h)))
}
pub open spec fn vsum(v: MultilinearVerifierParam, c: Commitment, z: Seq<F>, y: F, pr: Seq<G1A>) -> F { vsum_d(v, dl(c.0), z, y, pr) }
//@fn src/subroutines/pcs/multilinear_kzg/mod.rs::PolynomialCommitmentScheme for MultilinearKzgPCS::commit
//@@ requires
        shape_p(*prover_param), dwf(*poly),
//@@ ensures
        ret is Err <==> poly.num_vars > prover_param.num_vars,
        // the combination, by the table's values, of the level for that many variables
        ret is Ok ==> dl(ret->Ok_0.0) == lin_all(prover_param.powers_of_g@[prover_param.num_vars - poly.num_vars].evals@, poly.evaluations@),
//@end
//@fn src/subroutines/pcs/multilinear_kzg/mod.rs::open_internal
//@@ requires
        shape_p(*prover_param), dwf(*polynomial),
//@@ ensures
        ret is Err <==> polynomial.num_vars > prover_param.num_vars || polynomial.num_vars != point@.len(),
        ret is Ok ==> ret->Ok_0.0.proofs@.len() == point@.len() && ret->Ok_0.1 == mlev(polynomial.evaluations@, point@),
        ret is Ok ==> forall|i: int| 0 <= i < point@.len() ==> dl(#[trigger] ret->Ok_0.0.proofs@[i]) == lin_all(prover_param.powers_of_g@[prover_param.num_vars - polynomial.num_vars + 1 + i].evals@, quot(polynomial.evaluations@, point@, i)),
//@@ entry
    broadcast use shifts;
    let ghost ev = polynomial.evaluations@; let ghost z = point@;
    assert(z.subrange(0, 0) =~= Seq::<F>::empty());
    proof { p2_mono(polynomial.num_vars as int, 62); p2_64(); }
//@@ inv 0
            zk_n0 == nv, f@ == fold_lo_n(ev, z.subrange(0, zk_i0 as int)), f@.len() == p2(nv - zk_i0), proofs@.len() == zk_i0,
            forall|j: int| 0 <= j < zk_i0 ==> dl(#[trigger] proofs@[j]) == lin_all(prover_param.powers_of_g@[ignored + j].evals@, quot(ev, z, j)),
//@@ start 0
        let ghost f0s = f@;
        proof { fold_lo_snoc(ev, z, zk_i0 as int); p2_mono(nv - zk_i0, nv as int); p2_pos(nv - zk_i0 - 1); p2_mono(nv as int, 62); p2_64(); assert(p2(nv - zk_i0) == 2 * p2(nv - zk_i0 - 1)); }
//@@ inv 1
                zk_n1 == p2(k as int), f0s.len() == 2 * zk_n1, q@.len() == zk_n1, r@.len() == zk_n1, f@ == f0s,
                forall|j: int| 0 <= j < zk_i1 ==> #[trigger] q@[j] == slope(f0s)[j],
                forall|j: int| 0 <= j < zk_i1 ==> #[trigger] r@[j] == fold_lo(f0s, point_at_k)[j],
//@@ after 1
        proof { assert(q@ =~= slope(f0s)); assert(r@ =~= fold_lo(f0s, point_at_k)); }
//@end
//@fn src/subroutines/pcs/multilinear_kzg/mod.rs::verify_internal
//@@ requires
        shape_v(*verifier_param), 
//@@ ensures
        ret is Err <==> point@.len() > verifier_param.num_vars || proof.proofs@.len() != point@.len(),
        ret is Ok ==> (ret->Ok_0 <==> vsum(*verifier_param, *commitment, point@, *value, proof.proofs@) == f0()),
//@@ vartype
    zk_acc0: Vec<G2>
    zk_acc1: Vec<(G1P, G2P)>
    zk_acc2: Vec<G1P>
    zk_acc3: Vec<G2P>
//@@ entry
    broadcast use groups;
//@@ inv 0
            zk_n0 == num_var, zk_acc0@.len() == zk_i0,
            forall|j: int| 0 <= j < zk_i0 ==> dl(#[trigger] zk_acc0@[j]) == fsub(dl(verifier_param.h_mask@[ignored + j]), fmul(point@[j], dl(verifier_param.h))),
//@@ inv 1
            zk_n1 == num_var, zk_acc1@.len() == zk_i1,
            forall|j: int| 0 <= j < zk_i1 ==> dl((#[trigger] zk_acc1@[j]).0) == dl(proof.proofs@[j]) && dl(zk_acc1@[j].1) == dl(h_vec@[j]),
//@@ inv 2
            zk_n2 == pairings@.len(), zk_acc2@.len() == zk_i2, forall|j: int| 0 <= j < zk_i2 ==> #[trigger] zk_acc2@[j] == pairings@[j].0,
//@@ inv 3
            zk_n3 == pairings@.len(), zk_acc3@.len() == zk_i3, forall|j: int| 0 <= j < zk_i3 ==> #[trigger] zk_acc3@[j] == pairings@[j].1,
//@@ after-let hs
    proof {
        let g = |i: int| fmul(dl(ps@[i]), dl(hs@[i])); let t = |i: int| vterm(*verifier_param, point@, proof.proofs@, i);
        fsum_eq(num_var as int, g, t);
        assert(pairing(ps@, hs@) == fadd(fsum(num_var as int, g), g(num_var as int)));
    }
//@end
//@typemap Self::Proof => MultilinearKzgProof
//@typemap Self::Evaluation => F
//@typemap Self::Point => Vec<F>
//@fn src/subroutines/pcs/multilinear_kzg/mod.rs::PolynomialCommitmentScheme for MultilinearKzgPCS::open
//@@ requires
        shape_p(*prover_param), dwf(*polynomial),
//@@ ensures
        ret is Err <==> polynomial.num_vars > prover_param.num_vars || polynomial.num_vars != point@.len(),
        ret is Ok ==> ret->Ok_0.0.proofs@.len() == point@.len() && ret->Ok_0.1 == mlev(polynomial.evaluations@, point@),
        ret is Ok ==> forall|i: int| 0 <= i < point@.len() ==> dl(#[trigger] ret->Ok_0.0.proofs@[i]) == lin_all(prover_param.powers_of_g@[prover_param.num_vars - polynomial.num_vars + 1 + i].evals@, quot(polynomial.evaluations@, point@, i)),
//@end
//@fn src/subroutines/pcs/multilinear_kzg/mod.rs::PolynomialCommitmentScheme for MultilinearKzgPCS::verify
//@@ requires
        shape_v(*verifier_param), 
//@@ ensures
        ret is Err <==> point@.len() > verifier_param.num_vars || proof.proofs@.len() != point@.len(),
        ret is Ok ==> (ret->Ok_0 <==> vsum(*verifier_param, *commitment, point@, *value, proof.proofs@) == f0()),
//@end
