use crate::common::*;
use crate::iop::{tr, Tr};
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
use zk_sql::subroutines::*;
use zk_sql::transcript::IOPTranscript;

pub type G1 = <E as Pairing>::G1;
pub type G2 = <E as Pairing>::G2;
pub type G1A = <E as Pairing>::G1Affine;
pub type G2A = <E as Pairing>::G2Affine;
pub type Srs = MultilinearUniversalParams<E>;

pub fn srs(c: &mut Ctx, n: usize) -> Srs {
    let mut rng = ChaCha20Rng::seed_from_u64(c.rng.next_u64());
    Pcs::gen_srs_for_testing(&mut rng, n).unwrap()
}
fn pair(a: G1, b: G2) -> ark_ec::pairing::PairingOutput<E> {
    E::pairing(a.into_affine(), b.into_affine())
}

/// Check one setup level by level with pairings, without knowing the secrets:
/// level n is the generator alone; entry b of level i with lowest bit 1 pairs
/// with h as entry b>>1 of level i+1 pairs with the mask of secret i, and the
/// entries of an index pair add up to the one below.
fn levels_ok(g: G1, h: G2, powers: &[Vec<G1A>], mask: &[G2A], n: usize) -> Result<(), String> {
    if mask.len() != n {
        return Err(format!("{} masks for {} variables", mask.len(), n));
    }
    if powers.len() < n + 1 {
        return Err(format!("{} levels for {} variables", powers.len(), n));
    }
    if powers[n].len() != 1 || powers[n][0] != g.into_affine() {
        return Err("last level is not the generator".into());
    }
    for i in (0..n).rev() {
        if powers[i].len() != 1 << (n - i) {
            return Err(format!("level {} has {} entries", i, powers[i].len()));
        }
        for b in 0..powers[i].len() / 2 {
            let (lo, hi) = (powers[i][2 * b].into_group(), powers[i][2 * b + 1].into_group());
            let up = powers[i + 1][b].into_group();
            if lo + hi != up {
                return Err(format!("level {} entries {},{} do not add up", i, 2 * b, 2 * b + 1));
            }
            if pair(hi, h) != pair(up, mask[i].into_group()) {
                return Err(format!("level {} entry {} is not scaled by secret {}", i, 2 * b + 1, i));
            }
        }
    }
    Ok(())
}
pub fn srs_structure(c: &mut Ctx, key: &str, nmax: usize) {
    for n in 1..=nmax {
        let Some(s) = c.guard(key, || format!("n={}", n), || ()).map(|_| srs(c, n)) else { continue };
        let pw: Vec<Vec<G1A>> = s.prover_param.powers_of_g.iter().map(|e| e.evals.clone()).collect();
        let r = levels_ok(s.prover_param.g.into_group(), s.prover_param.h.into_group(), &pw, &s.h_mask, n);
        let ok = r.is_ok() && s.prover_param.num_vars == n;
        c.check(ok, key, || format!("n={}: {:?}", n, r));
    }
}

pub fn p15(c: &mut Ctx) {
    srs_structure(c, "P15/levels", if c.thorough { 6 } else { 5 });
    let mut rng = ChaCha20Rng::seed_from_u64(3);
    let g = quiet(|| Pcs::gen_srs_for_testing(&mut rng, 0).is_err());
    c.check(g == Ok(true), "P15/zero-refused", || "n=0".into());
    let n = 4;
    let s = srs(c, n);
    for k in 1..=n {
        let t = quiet(|| Pcs::trim(&s, None, Some(k)).ok());
        let ok = matches!(&t, Ok(Some(_)));
        c.check(ok, "P15/trim-ok", || format!("n={} k={}", n, k));
        let Ok(Some((ck, vk))) = t else { continue };
        let pw: Vec<Vec<G1A>> = ck.powers_of_g.iter().map(|e| e.evals.clone()).collect();
        let same = ck.powers_of_g.len() == k + 1
            && (0..=k).all(|i| ck.powers_of_g[i].evals == s.prover_param.powers_of_g[n - k + i].evals)
            && vk.h_mask == s.h_mask[n - k..].to_vec()
            && ck.g == s.prover_param.g && ck.h == s.prover_param.h && vk.g == s.prover_param.g && vk.h == s.prover_param.h
            && ck.num_vars == k && vk.num_vars == k;
        c.check(same, "P15/trim-tail", || format!("n={} k={}", n, k));
        let r = levels_ok(ck.g.into_group(), ck.h.into_group(), &pw, &vk.h_mask, k);
        c.check(r.is_ok(), "P15/trim-levels", || format!("n={} k={}: {:?}", n, k, r));
        let pp = quiet(|| (s.extract_prover_param(k), s.extract_verifier_param(k)));
        let ok = match &pp {
            Ok((p, v)) => p.num_vars == k && v.num_vars == k && v.h_mask == vk.h_mask && v.g == vk.g && v.h == vk.h && p.g == ck.g && p.h == ck.h
                && p.powers_of_g.iter().map(|e| e.evals.clone()).collect::<Vec<_>>() == pw,
            Err(_) => false,
        };
        c.check(ok, "P15/extract", || format!("n={} k={}", n, k));
        // commitments and openings agree with the full setup
        let (fck, fvk) = Pcs::trim(&s, None, Some(n)).unwrap();
        for nv in 1..=k {
            let m = c.mle(nv);
            let x = c.fvec(nv);
            let a = Pcs::commit(&ck, &m).unwrap();
            let b = Pcs::commit(&fck, &m).unwrap();
            c.check(a == b, "P15/commit-agrees", || format!("k={} nv={}", k, nv));
            let (p1, v1) = Pcs::open(&ck, &m, &x).unwrap();
            let (p2, v2) = Pcs::open(&fck, &m, &x).unwrap();
            let cross = p1 == p2 && v1 == v2 && Pcs::verify(&fvk, &a, &x, &v1, &p1).unwrap() && Pcs::verify(&vk, &b, &x, &v2, &p2).unwrap();
            c.check(cross, "P15/open-agrees", || format!("k={} nv={}", k, nv));
        }
    }
    for k in [n + 1, n + 2, 40] {
        let g = quiet(|| Pcs::trim(&s, None, Some(k)).is_err());
        c.check(g == Ok(true), "P15/trim-refused", || format!("n={} k={}", n, k));
    }
    let g = quiet(|| Pcs::trim(&s, None, None).is_err());
    c.check(g == Ok(true), "P15/trim-none", || "no size".into());
}

pub fn p14(c: &mut Ctx) {
    let n = 4;
    let s = srs(c, n);
    for k in [n, 3] {
        let (ck, vk) = Pcs::trim(&s, None, Some(k)).unwrap();
        for nv in 1..=k {
            for it in 0..c.n(8) {
                let m = if it == 0 { c.rmle(nv) } else { c.mle(nv) };
                let x = if it == 1 { let b = c.below(1 << nv); bits_pt(b, nv) } else { c.fvec(nv) };
                let inp = || format!("setup={} table={} point={}", k, sv(&m.evaluations), sv(&x));
                let Some(Ok(com)) = c.guard("P14/commit", inp, || Pcs::commit(&ck, &m)) else {
                    c.check(false, "P14/commit", inp);
                    continue;
                };
                // against the definition
                let mut w = G1::zero();
                for (b, v) in m.evaluations.iter().enumerate() {
                    w += ck.powers_of_g[k - nv].evals[b] * v;
                }
                c.check(com.0 == w.into_affine(), "P14/commit-value", inp);
                let Some(Ok((pf, val))) = c.guard("P14/open", inp, || Pcs::open(&ck, &m, &x)) else {
                    c.check(false, "P14/open", inp);
                    continue;
                };
                c.check(val == o_mle(&m.evaluations, &x), "P14/opened-value", inp);
                let v = |com: &Commitment<E>, x: &[Fr], val: &Fr, pf: &MultilinearKzgProof<E>| quiet(|| Pcs::verify(&vk, com, x, val, pf).ok());
                c.check(v(&com, &x, &val, &pf) == Ok(Some(true)), "P14/verifies", inp);
                let d = { let t = c.fs(); if t.is_zero() { Fr::one() } else { t } };
                c.check(v(&com, &x, &(val + d), &pf) == Ok(Some(false)), "P14/other-value", inp);
                // altered commitment
                let c2 = Commitment::<E>((com.0.into_group() + ck.g.into_group()).into_affine());
                c.check(v(&c2, &x, &val, &pf) == Ok(Some(false)), "P14/other-commitment", inp);
                // shifting commitment and value together by the same constant is consistent
                c.check(v(&c2, &x, &(val + Fr::one()), &pf) == Ok(Some(true)), "P14/shifted-consistent", inp);
                for j in 0..nv {
                    let mut p2 = pf.clone();
                    p2.proofs[j] = (p2.proofs[j].into_group() + ck.g.into_group()).into_affine();
                    c.check(v(&com, &x, &val, &p2) == Ok(Some(false)), "P14/other-proof", || format!("{} element {}", inp(), j));
                    let mut x2 = x.clone();
                    x2[j] += d;
                    let want = {
                        // equation from the definition, with pairings
                        let ign = k - nv;
                        let mut acc = pair(ck.g * val - com.0.into_group(), vk.h.into_group());
                        for i in 0..nv {
                            acc += pair(pf.proofs[i].into_group(), vk.h_mask[ign + i].into_group() - vk.h * x2[i]);
                        }
                        acc.is_zero()
                    };
                    c.check(v(&com, &x2, &val, &pf) == Ok(Some(want)), "P14/equation-at-other-point", || format!("{} coord {}", inp(), j));
                }
                // wrong point length and oversized inputs are refused
                let g = quiet(|| Pcs::open(&ck, &m, &x[..nv - 1]).is_err());
                c.check(g == Ok(true), "P14/open-short-point", inp);
            }
        }
        let m = c.mle(k + 1);
        let x = c.fvec(k + 1);
        let g = quiet(|| Pcs::commit(&ck, &m).is_err());
        c.check(g == Ok(true), "P14/commit-too-large", || format!("setup={} nv={}", k, k + 1));
        let g = quiet(|| Pcs::open(&ck, &m, &x).is_err());
        c.check(g == Ok(true), "P14/open-too-large", || format!("setup={} nv={}", k, k + 1));
        let (pf, com) = (MultilinearKzgProof::<E> { proofs: vec![ck.g; k + 1] }, Commitment::<E>(ck.g));
        let g = quiet(|| Pcs::verify(&vk, &com, &x, &Fr::one(), &pf).is_err());
        c.check(g == Ok(true), "P14/verify-too-large", || format!("setup={} nv={}", k, k + 1));
    }
}

pub struct Batch {
    pub vk: MultilinearVerifierParam<E>,
    pub polys: Vec<Arc<Mle<Fr>>>,
    pub points: Vec<Vec<Fr>>,
    pub evals: Vec<Fr>,
    pub comms: Vec<Commitment<E>>,
    pub proof: BatchProof<E, Pcs>,
    pub after_prove: Tr,
}
pub fn mk_batch(c: &mut Ctx, nv: usize, k: usize, share: bool) -> Result<Batch, String> {
    let s = srs(c, nv + 1);
    let (ck, vk) = Pcs::trim(&s, None, Some(if share { nv } else { nv + 1 })).unwrap();
    let mut polys: Vec<Arc<Mle<Fr>>> = (0..k).map(|_| Arc::new(c.mle(nv))).collect();
    if k > 2 && share { polys[k - 1] = polys[0].clone(); }
    let p0 = c.rvec(nv);
        // shared points are equal in all, or in some of their coordinates
    let points: Vec<Vec<Fr>> = (0..k)
        .map(|i| {
            if !share { return c.rvec(nv); }
            if i % 2 == 0 { return p0.clone(); }
            let r = c.rvec(nv);
            let part = c.below(2) == 0;
            (0..nv).map(|j| if part && c.below(2) == 0 { p0[j] } else { r[j] }).collect()
        })
        .collect();
    let evals: Vec<Fr> = (0..k).map(|i| o_mle(&polys[i].evaluations, &points[i])).collect();
    let comms: Vec<_> = polys.iter().map(|p| Pcs::commit(&ck, p).unwrap()).collect();
    let mut t = tr();
    let proof = quiet(|| Pcs::multi_open(&ck, &polys, &points, &evals, &mut t)).map_err(|e| e)?.map_err(|e| e.to_string())?;
    Ok(Batch { vk, polys, points, evals, comms, proof, after_prove: t })
}
pub fn bv(b: &Batch, comms: &[Commitment<E>], points: &[Vec<Fr>], proof: &BatchProof<E, Pcs>, t: &mut Tr) -> Result<Option<bool>, String> {
    quiet(|| Pcs::batch_verify(&b.vk, comms, points, proof, t).ok())
}
pub fn batch_roundtrip(c: &mut Ctx, key: &str, nv: usize, k: usize) {
    match mk_batch(c, nv, k, true) {
        Err(e) => { c.check(false, key, || format!("nv={} k={} open failed {}", nv, k, e)); }
        Ok(b) => {
            let g = bv(&b, &b.comms, &b.points, &b.proof, &mut tr());
            c.check(g == Ok(Some(true)), key, || format!("nv={} k={} got {:?}", nv, k, g));
        }
    }
}

pub fn p16(c: &mut Ctx) {
    for it in 0..c.n(12) {
        let nv = 1 + it % 3;
        let k = 2 + (it / 2) % 5;
        let share = it % 2 == 0;
        let what = format!("nv={} k={} shared-points={}", nv, k, share);
        let b = match mk_batch(c, nv, k, share) {
            Ok(b) => b,
            Err(e) => { c.check(false, "P16/open", || format!("{}: {}", what, e)); continue; }
        };
        let mut t = tr();
        let g = bv(&b, &b.comms, &b.points, &b.proof, &mut t);
        c.check(g == Ok(Some(true)), "P16/accepted", || format!("{} got {:?}", what, g));
        let (x, y) = (t.get_and_append_challenge(b"z").unwrap(), b.after_prove.clone().get_and_append_challenge(b"z").unwrap());
        c.check(x == y, "P16/transcripts-agree", || what.clone());
        let rej = |g: &Result<Option<bool>, String>| matches!(g, Ok(None) | Ok(Some(false)));
        let (sc, gp) = { let (a, b) = b.proof.verif_parts(); (a.clone(), b.clone()) };
        for i in 0..k {
            let mut ev = b.evals.clone();
            ev[i] += c.f();
            let pf = BatchProof::verif_new(sc.clone(), ev, gp.clone());
            let g = bv(&b, &b.comms, &b.points, &pf, &mut tr());
            c.check(rej(&g), "P16/altered-value", || format!("{} value {}: {:?}", what, i, g));
            let mut cm = b.comms.clone();
            cm[i] = Commitment((cm[i].0.into_group() + b.vk.g.into_group()).into_affine());
            let g = bv(&b, &cm, &b.points, &b.proof, &mut tr());
            c.check(rej(&g), "P16/altered-commitment", || format!("{} commitment {}: {:?}", what, i, g));
            for j in 0..nv {
                let mut pts = b.points.clone();
                pts[i][j] += c.f();
                // the claim may stay true at the altered point (e.g. a constant polynomial)
                if o_mle(&b.polys[i].evaluations, &pts[i]) == b.evals[i] { continue; }
                let g = bv(&b, &b.comms, &pts, &b.proof, &mut tr());
                c.check(rej(&g), "P16/altered-point", || format!("{} point {} coord {}: {:?}", what, i, j, g));
            }
        }
        // two values moved so that their plain sum stays the same
        let mut ev = b.evals.clone();
        let d = c.f();
        ev[0] += d;
        ev[k - 1] -= d;
        let g = bv(&b, &b.comms, &b.points, &BatchProof::verif_new(sc.clone(), ev, gp.clone()), &mut tr());
        c.check(rej(&g), "P16/altered-two-values", || format!("{}: {:?}", what, g));
        // A forger who knows the weights before the values (or points) are fixed: move two
        // values so that the weighted sum stays the same; move a point so that its
        // equality weight stays the same.
        let ell = ark_std::log2(k) as usize;
        for absorbed in 0..3 {
            let mut t = tr();
            if absorbed > 0 { t.append_serializable_element(b"points", &b.points).unwrap(); }
            if absorbed > 1 { t.append_serializable_element(b"evals", &b.evals).unwrap(); }
            let tt = t.get_and_append_challenge_vectors(b"t", ell).unwrap();
            let w: Vec<Fr> = (0..k).map(|i| o_eq(&bits_pt(i, ell), &tt)).collect();
            let (x, y) = (c.below(k), c.below(k));
            if x == y { continue; }
            let d = c.f();
            let mut ev = b.evals.clone();
            ev[x] += d * w[y];
            ev[y] -= d * w[x];
            let g = bv(&b, &b.comms, &b.points, &BatchProof::verif_new(sc.clone(), ev.clone(), gp.clone()), &mut tr());
            c.check(rej(&g), "P16/adaptive-values", || format!("{}: claimed values {} instead of {} accepted, their weighted sum is the same: {:?}", what, sv(&ev), sv(&b.evals), g));
        }
        if nv >= 2 {
            let a2 = &sc.point;
            let i = c.below(k);
            let p = &b.points[i];
            let one = |x: Fr, y: Fr| o_eq(&[x], &[y]);
            // new first coordinate q0, then solve for q1 with one(a0,q0)*one(a1,q1) unchanged
            let q0 = c.f();
            let want = one(a2[0], p[0]) * one(a2[1], p[1]) / one(a2[0], q0);
            // one(a1,q) = (1-a1) + (2 a1 - 1) q
            let q1 = (want - (Fr::one() - a2[1])) / (a2[1] + a2[1] - Fr::one());
            let mut pts = b.points.clone();
            pts[i][0] = q0;
            pts[i][1] = q1;
            if o_mle(&b.polys[i].evaluations, &pts[i]) != b.evals[i] {
                let g = bv(&b, &b.comms, &pts, &b.proof, &mut tr());
                c.check(rej(&g), "P16/adaptive-point", || format!("{}: point {} moved to {} with the same equality weight: {:?}", what, i, sv(&pts[i]), g));
            }
        }
        for j in 0..nv {
            let mut s2 = sc.clone();
            let mut m = s2.proofs[j].verif_evaluations().clone();
            let q = c.below(3);
            m[q] += c.f();
            s2.proofs[j] = crate::iop::msg(&m);
            let g = bv(&b, &b.comms, &b.points, &BatchProof::verif_new(s2, b.evals.clone(), gp.clone()), &mut tr());
            c.check(rej(&g), "P16/altered-round", || format!("{} round {}: {:?}", what, j, g));
            let mut p2 = gp.clone();
            p2.proofs[j] = (p2.proofs[j].into_group() + b.vk.g.into_group()).into_affine();
            let g = bv(&b, &b.comms, &b.points, &BatchProof::verif_new(sc.clone(), b.evals.clone(), p2), &mut tr());
            c.check(rej(&g), "P16/altered-opening", || format!("{} element {}: {:?}", what, j, g));
        }
        // The reported sumcheck point is prover-supplied data: a forged one must not help.
        let mut s2 = sc.clone();
        for v in s2.point.iter_mut() { *v += c.f(); }
        let g = bv(&b, &b.comms, &b.points, &BatchProof::verif_new(s2, b.evals.clone(), gp.clone()), &mut tr());
        c.check(rej(&g), "P16/altered-sumcheck-point", || format!("{}: {:?}", what, g));
    }
    // A forger who invents every claimed value: run an honest sumcheck transcript
    // for the false values (random consistent messages), then open g' at a point
    // of the forger's own choosing where the equation can be met.
    for it in 0..c.n(4) {
        let nv = 1 + it % 2;
        let k = 2;
        forge_point(c, nv, k);
    }
}

/// Forge a batch proof for false values by choosing the reported point a2 so
/// that g'(a2) hits the value the (random, consistent) sumcheck ended with.
fn forge_point(c: &mut Ctx, nv: usize, k: usize) {
    use crate::iop::*;
    let s = srs(c, nv);
    let (ck, vk) = Pcs::trim(&s, None, Some(nv)).unwrap();
    let polys: Vec<Arc<Mle<Fr>>> = (0..k).map(|_| Arc::new(c.rmle(nv))).collect();
    let pt = bits_pt(1, nv);
    let points = vec![pt.clone(); k];
    let comms: Vec<_> = polys.iter().map(|p| Pcs::commit(&ck, p).unwrap()).collect();
    let mut t = tr();
    let false_vals = c.rvec(k);
    t.append_serializable_element(b"points", &points).unwrap();
    t.append_serializable_element(b"evals", &false_vals).unwrap();
    let tt = t.get_and_append_challenge_vectors(b"t", 1).unwrap();
    let w = [Fr::one() - tt[0], tt[0]];
    let sum = (0..k).map(|i| w[i] * false_vals[i]).sum::<Fr>();
    // consistent random messages under the real transcript
    let a = aux(nv, 2);
    let mut msgs: Vec<Vec<Fr>> = vec![];
    let mut exp = sum;
    for i in 0..nv {
        let mut v = c.rvec(3);
        v[1] = exp - v[0];
        msgs.push(v.clone());
        let ch = o_challenges(&a, &msgs, &mut t.clone());
        exp = o_interp(&v, ch[i]);
    }
    // g'(a2) = eq(a2, pt) * sum_i w_i f_i(a2) =: h(a2); vary the first coordinate:
    // a quadratic in it; look for a root of h - exp by sampling the quadratic.
    for _ in 0..40 {
        let rest = c.rvec(nv - 1);
        let h = |x0: Fr| {
            let mut a2 = vec![x0];
            a2.extend(rest.clone());
            let g: Fr = (0..k).map(|i| w[i] * o_mle(&polys[i].evaluations, &a2)).sum();
            o_eq(&a2, &pt) * g - exp
        };
        let v = [h(Fr::zero()), h(Fr::one()), h(Fr::from(2u64))];
        let two = Fr::from(2u64);
        let q2 = (v[2] - v[1] - v[1] + v[0]) / two;
        let q1 = v[1] - v[0] - q2;
        let q0 = v[0];
        let disc = q1 * q1 - Fr::from(4u64) * q2 * q0;
        let Some(sq) = disc.sqrt() else { continue };
        let x0 = (sq - q1) / (two * q2);
        let mut a2 = vec![x0];
        a2.extend(rest.clone());
        // open g' (same homomorphic combination the verifier forms) at a2
        let e = o_eq(&a2, &pt);
        let tab: Vec<Fr> = (0..1usize << nv).map(|b| (0..k).map(|i| e * w[i] * polys[i].evaluations[b]).sum()).collect();
        let (gp, val) = Pcs::open(&ck, &Mle::from_evaluations_vec(nv, tab), &a2).unwrap();
        if val != exp { continue; }
        let mut sc = proof_of(&msgs);
        sc.point = a2.clone();
        let pf = BatchProof::verif_new(sc, false_vals.clone(), gp);
        let g = quiet(|| Pcs::batch_verify(&vk, &comms, &points, &pf, &mut tr()).ok());
        c.check(g != Ok(Some(true)), "P16/forged-point", || {
            format!("nv={} k={} tables={:?} point={} claimed values {} accepted; reported point {}", nv, k, polys.iter().map(|p| sv(&p.evaluations)).collect::<Vec<_>>(), sv(&pt), sv(&false_vals), sv(&a2))
        });
        return;
    }
}

#[derive(Clone, Debug)]
enum Op {
    Msg(u8, Vec<u8>),
    El(u8, Fr),
    Ser(u8, Vec<Fr>),
    Ch(u8),
    ChV(u8, usize),
}
const LABELS: [&[u8]; 4] = [b"a", b"ab", b"comm", b"prover msg"];
fn run_ops(ops: &[Op]) -> Vec<Option<Fr>> {
    let mut t = IOPTranscript::<Fr>::new(b"tt");
    let mut out = vec![];
    for o in ops {
        match o {
            Op::Msg(l, m) => t.append_message(LABELS[*l as usize], m).unwrap(),
            Op::El(l, f) => t.append_field_element(LABELS[*l as usize], f).unwrap(),
            Op::Ser(l, v) => t.append_serializable_element(LABELS[*l as usize], v).unwrap(),
            Op::Ch(l) => out.push(t.get_and_append_challenge(LABELS[*l as usize]).ok()),
            Op::ChV(l, n) => match t.get_and_append_challenge_vectors(LABELS[*l as usize], *n) {
                Ok(v) => { out.extend(v.into_iter().map(Some)) }
                Err(_) => out.push(None),
            },
        }
    }
    out.push(t.get_and_append_challenge(b"end").ok());
    out
}
/// Reference transcript: merlin directly.
fn ref_ops(ops: &[Op]) -> Vec<Option<Fr>> {
    use ark_serialize::CanonicalSerialize;
    let mut t = merlin::Transcript::new(b"tt");
    let mut empty = true;
    let mut out = vec![];
    fn ch(t: &mut merlin::Transcript, l: &'static [u8]) -> Fr {
        let mut b = [0u8; 64];
        t.challenge_bytes(l, &mut b);
        let f = Fr::from_le_bytes_mod_order(&b);
        let mut v = vec![];
        f.serialize_compressed(&mut v).unwrap();
        t.append_message(l, &v);
        f
    }
    for o in ops {
        match o {
            Op::Msg(l, m) => { t.append_message(LABELS[*l as usize], m); empty = false; }
            Op::El(l, f) => { let mut v = vec![]; f.serialize_compressed(&mut v).unwrap(); t.append_message(LABELS[*l as usize], &v); empty = false; }
            Op::Ser(l, x) => { let mut v = vec![]; x.serialize_compressed(&mut v).unwrap(); t.append_message(LABELS[*l as usize], &v); empty = false; }
            Op::Ch(l) => out.push(if empty { None } else { Some(ch(&mut t, LABELS[*l as usize])) }),
            Op::ChV(l, n) => if empty { out.push(None) } else { for _ in 0..*n { out.push(Some(ch(&mut t, LABELS[*l as usize]))) } },
        }
    }
    out.push(if empty { None } else { Some(ch(&mut t, b"end")) });
    out
}
pub fn p17(c: &mut Ctx) {
    let rop = |c: &mut Ctx| -> Op {
        let l = c.below(4) as u8;
        match c.below(5) {
            0 => Op::Msg(l, { let n = c.below(40); (0..n).map(|_| c.rng.next_u32() as u8).collect() }),
            1 => Op::El(l, c.fs()),
            2 => Op::Ser(l, { let n = c.below(3); c.fvec(n) }),
            3 => Op::Ch(l),
            _ => Op::ChV(l, c.below(4)),
        }
    };
    for _ in 0..c.n(150) {
        let n = c.below(8);
        let ops: Vec<Op> = (0..n).map(|_| rop(c)).collect();
        let inp = || format!("{:?}", ops.iter().map(|o| match o { Op::El(l, f) => format!("El({},{})", l, sf(f)), Op::Ser(l, v) => format!("Ser({},{})", l, sv(v)), o => format!("{:?}", o) }).collect::<Vec<_>>());
        let Some(a) = c.guard("P17/run", inp, || run_ops(&ops)) else { continue };
        let first_app = ops.iter().position(|o| matches!(o, Op::Msg(..) | Op::El(..) | Op::Ser(..)));
        // refusal until something has been absorbed
        let mut k = 0;
        let mut ok = true;
        for (i, o) in ops.iter().enumerate() {
            let before = first_app.map_or(true, |f| i < f);
            match o {
                Op::Ch(_) => { ok &= a[k].is_none() == before; k += 1; }
                Op::ChV(_, n) => if before { ok &= a[k].is_none(); k += 1 } else { ok &= (0..*n).all(|j| a[k + j].is_some()); k += n },
                _ => {}
            }
        }
        c.check(ok, "P17/refused-when-empty", inp);
        c.check(a == run_ops(&ops), "P17/deterministic", inp);
        c.check(a == ref_ops(&ops), "P17/reference", inp);
        // vector = one by one
        let flat: Vec<Op> = ops.iter().flat_map(|o| match o { Op::ChV(l, n) => vec![Op::Ch(*l); *n], o => vec![o.clone()] }).collect();
        if let Some(f) = first_app {
            let early = ops[..f].iter().any(|o| matches!(o, Op::ChV(..)));
            if !early {
                c.check(a == run_ops(&flat), "P17/vector-is-sequence", inp);
            }
            // single changes are visible in the final challenge
            for i in 0..ops.len() {
                let mut o2 = ops.clone();
                let changed = match &mut o2[i] {
                    Op::Msg(l, m) => { if c.below(2) == 0 { m.push(0) } else { *l = (*l + 1) % 4 }; true }
                    Op::El(_, f) => { *f += Fr::one(); true }
                    Op::Ser(_, v) => { v.push(Fr::zero()); true }
                    Op::Ch(l) => { *l = (*l + 1) % 4; i > f }
                    Op::ChV(_, n) => { *n += 1; i > f }
                };
                if changed {
                    let b = run_ops(&o2);
                    c.check(a.last() != b.last(), "P17/bound", || format!("{} op {} changed", inp(), i));
                }
                if i + 1 < ops.len() && i > f {
                    let mut o3 = ops.clone();
                    o3.swap(i, i + 1);
                    if format!("{:?}", o3) != format!("{:?}", ops) {
                        let skip = matches!((&ops[i], &ops[i + 1]), (Op::ChV(_, 0), _) | (_, Op::ChV(_, 0)))
                            || matches!((&ops[i], &ops[i + 1]), (Op::ChV(a, _), Op::ChV(b, _)) if a == b)
                            || matches!((&ops[i], &ops[i + 1]), (Op::ChV(a, _), Op::Ch(b)) | (Op::Ch(a), Op::ChV(b, _)) if a == b);
                        if !skip {
                            c.check(a.last() != run_ops(&o3).last(), "P17/order-bound", || format!("{} swapped {}", inp(), i));
                        }
                    }
                }
            }
        }
    }
    // a challenge is absorbed: asking once or twice differs afterwards, and two
    // successive challenges under one label differ
    let base = vec![Op::Msg(0, vec![1])];
    let mut one = base.clone();
    one.push(Op::Ch(0));
    let mut two = one.clone();
    two.push(Op::Ch(0));
    let (a, b) = (run_ops(&one), run_ops(&two));
    c.check(a[0] == b[0] && b[0] != b[1] && a.last() != b.last(), "P17/challenge-absorbed", || "msg,ch vs msg,ch,ch".into());
}
