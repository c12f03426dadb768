use crate::arith::o_vp;
use crate::common::*;
use zk_sql::arithmetic::{VPAuxInfo, VirtualPolynomial};
use zk_sql::subroutines::poly_iop::structs::{IOPProof, IOPProverMessage};
use zk_sql::subroutines::poly_iop::zero_check::ZeroCheck;
use zk_sql::subroutines::poly_iop::{prelude::SumCheck, PolyIOP};
use zk_sql::transcript::IOPTranscript;

pub type Tr = IOPTranscript<Fr>;
pub type Iop = PolyIOP<Fr>;
pub fn aux(nv: usize, d: usize) -> VPAuxInfo<Fr> {
    VPAuxInfo { max_degree: d, num_variables: nv, phantom: Default::default() }
}
pub fn msg(v: &[Fr]) -> IOPProverMessage<Fr> {
    IOPProverMessage::verif_new(v.to_vec())
}
pub fn tr() -> Tr {
    let mut t = Tr::new(b"zkh");
    t.append_field_element(b"init", &Fr::from(7u64)).unwrap();
    t
}

/// Challenges of the Fiat-Shamir sumcheck for the given round messages.
pub fn o_challenges(a: &VPAuxInfo<Fr>, msgs: &[Vec<Fr>], t: &mut Tr) -> Vec<Fr> {
    t.append_serializable_element(b"aux info", a).unwrap();
    let mut r = vec![];
    for m in msgs.iter().take(a.num_variables) {
        t.append_serializable_element(b"prover msg", &msg(m)).unwrap();
        r.push(t.get_and_append_challenge(b"Internal round").unwrap());
    }
    r
}
/// Reference verifier.
pub fn o_verify(sum: Fr, a: &VPAuxInfo<Fr>, msgs: &[Vec<Fr>], t: &mut Tr) -> Option<(Vec<Fr>, Fr)> {
    if msgs.len() < a.num_variables || a.num_variables == 0 {
        return None;
    }
    let r = o_challenges(a, msgs, t);
    let mut exp = sum;
    for i in 0..a.num_variables {
        if msgs[i].len() != a.max_degree + 1 || msgs[i].len() < 2 {
            return None;
        }
        if msgs[i][0] + msgs[i][1] != exp {
            return None;
        }
        exp = o_interp(&msgs[i], r[i]);
    }
    Some((r, exp))
}
/// A consistent transcript for `sum`, with random messages.
pub fn consistent(c: &mut Ctx, sum: Fr, nv: usize, d: usize) -> Vec<Vec<Fr>> {
    let a = aux(nv, d);
    let mut exp = sum;
    let mut msgs: Vec<Vec<Fr>> = vec![];
    for i in 0..nv {
        let mut v = c.fvec(d + 1);
        v[1] = exp - v[0];
        msgs.push(v.clone());
        let r = o_challenges(&a, &msgs, &mut tr());
        exp = o_interp(&v, r[i]);
    }
    msgs
}
pub fn proof_of(msgs: &[Vec<Fr>]) -> IOPProof<Fr> {
    IOPProof { point: vec![], proofs: msgs.iter().map(|m| msg(m)).collect() }
}
fn show(sum: &Fr, nv: usize, d: usize, m: &[Vec<Fr>]) -> String {
    format!("sum={} nv={} deg={} msgs={:?}", sf(sum), nv, d, m.iter().map(|v| sv(v)).collect::<Vec<_>>())
}

fn cmp_verify(c: &mut Ctx, key: &str, sum: Fr, nv: usize, d: usize, msgs: &[Vec<Fr>]) {
    let a = aux(nv, d);
    let mut t1 = tr();
    let mut t2 = tr();
    let want = o_verify(sum, &a, msgs, &mut t1);
    let p = proof_of(msgs);
    let got = quiet(|| <Iop as SumCheck<Fr>>::verify(sum, &p, &a, &mut t2).ok());
    let ok = match (&want, &got) {
        (_, Err(_)) => false,
        (None, Ok(None)) => true,
        (Some((pt, e)), Ok(Some(s))) => s.point == *pt && s.expected_evaluation == *e,
        _ => false,
    };
    c.check(ok, key, || format!("{} want {:?} got {:?}", show(&sum, nv, d, msgs), want.as_ref().map(|w| sf(&w.1)), got));
    if want.is_some() && ok {
        let x = t1.get_and_append_challenge(b"after").unwrap();
        let y = t2.get_and_append_challenge(b"after").unwrap();
        c.check(x == y, "P01/transcript-state", || show(&sum, nv, d, msgs));
    }
}

pub fn p01(c: &mut Ctx) {
    for it in 0..c.n(60) {
        let nv = 1 + it % 5;
        let d = 1 + (it / 5) % 6;
        let sum = c.fs();
        let m = consistent(c, sum, nv, d);
        cmp_verify(c, "P01/accepts-consistent", sum, nv, d, &m);
        let delta = { let mut x = c.fs(); if x.is_zero() { x = Fr::one(); } x };
        cmp_verify(c, "P01/wrong-sum", sum + delta, nv, d, &m);
        for j in 0..nv {
            // break round j only, keeping later rounds as sent
            let mut b = m.clone();
            let k = c.below(d + 1);
            b[j][k] += delta;
            cmp_verify(c, "P01/perturbed-entry", sum, nv, d, &b);
            // keep p(0)+p(1) but change the message (later rounds then fail unless last)
            let mut b = m.clone();
            b[j][0] += delta;
            b[j][1] -= delta;
            cmp_verify(c, "P01/compensated", sum, nv, d, &b);
            // break round j and recompute everything after so that only round j is wrong
            let mut b: Vec<Vec<Fr>> = m[..j].to_vec();
            let a = aux(nv, d);
            for i in j..nv {
                let exp = if i == 0 { sum } else {
                    let r = o_challenges(&a, &b, &mut tr());
                    o_interp(&b[i - 1], r[i - 1])
                };
                let mut v = c.fvec(d + 1);
                v[1] = exp - v[0] + if i == j { delta } else { Fr::zero() };
                b.push(v);
            }
            cmp_verify(c, "P01/only-one-round-wrong", sum, nv, d, &b);
            // wrong message length with otherwise consistent values
            let mut b = m.clone();
            b[j].push(delta);
            cmp_verify(c, "P01/long-message", sum, nv, d, &b);
            if d >= 2 {
                let mut b = m.clone();
                b[j].pop();
                cmp_verify(c, "P01/short-message", sum, nv, d, &b);
            }
        }
    }
    for d in [12usize, 19, 20, 25, 32, 33, 40] {
        let sum = c.f();
        let m = consistent(c, sum, 2, d);
        cmp_verify(c, "P01/accepts-high-degree", sum, 2, d, &m);
        let mut b = m.clone();
        b[1][0] += Fr::one();
        cmp_verify(c, "P01/high-degree-wrong", sum, 2, d, &b);
    }
    // challenge order: the round challenge depends on the round's own message
    let a = aux(2, 2);
    let m = consistent(c, Fr::zero(), 2, 2);
    let mut b = m.clone();
    b[0][2] += Fr::one();
    let r1 = <Iop as SumCheck<Fr>>::verify(Fr::zero(), &proof_of(&m), &a, &mut tr()).unwrap();
    let (mut t1, mut t2) = (tr(), tr());
    let q1 = o_challenges(&a, &m, &mut t1);
    let q2 = o_challenges(&a, &b, &mut t2);
    c.check(r1.point == q1 && q1[0] != q2[0], "P01/challenge-order", || "nv=2 deg=2".into());
    for it in 0..c.n(10) {
        let m = c.fvec(3);
        let _ = it;
        let p = proof_of(&[m.clone()]);
        c.check(<Iop as SumCheck<Fr>>::extract_sum(&p) == m[0] + m[1], "P01/extract_sum", || sv(&m));
    }
}

pub fn p02(c: &mut Ctx) {
    let lens: Vec<usize> = (2..=if c.thorough { 90 } else { 45 }).collect();
    for n in lens {
        for k in 0..c.n(2) {
            let v = if k == 0 { (0..n).map(|_| -Fr::one()).collect() } else { c.fvec(n) };
            let sum = v[0] + v[1];
            let a = aux(1, n - 1);
            let p = proof_of(&[v.clone()]);
            let r = o_challenges(&a, &[v.clone()], &mut tr());
            let want = o_interp(&v, r[0]);
            let got = quiet(|| <Iop as SumCheck<Fr>>::verify(sum, &p, &a, &mut tr()));
            let ok = matches!(&got, Ok(Ok(s)) if s.expected_evaluation == want);
            c.check(ok, "P02/interpolate", || format!("values={} at {} want {} got {:?}", sv(&v), sf(&r[0]), sf(&want), got));
        }
    }
    // extrapolation inside the prover: one short product padded to a higher degree
    for k in 1..7usize {
        for d in k..8usize {
            let nv = 2;
            let mut p = VirtualPolynomial::<Fr>::new(nv);
            let l: Vec<_> = (0..k).map(|_| Arc::new(c.mle(nv))).collect();
            p.add_mle_list(l, c.f()).unwrap();
            let zero = Arc::new(Mle::from_evaluations_vec(nv, vec![Fr::zero(); 1 << nv]));
            p.add_mle_list(vec![zero; d], Fr::one()).unwrap();
            check_prover(c, "P02/extrapolate", &p, &format!("one product of {} tables, declared degree {}", k, d));
        }
    }
}

/// the prover's messages against partial sums computed from the definition
fn check_prover(c: &mut Ctx, key: &str, p: &VirtualPolynomial<Fr>, what: &str) {
    let nv = p.aux_info.num_variables;
    let d = p.aux_info.max_degree;
    let mut t = tr();
    let Some(pr) = c.guard(key, || what.into(), || <Iop as SumCheck<Fr>>::prove(p, &mut t)) else { return };
    let Ok(pr) = pr else {
        c.check(false, key, || format!("{}: prove failed", what));
        return;
    };
    let msgs: Vec<Vec<Fr>> = pr.proofs.iter().map(|m| m.verif_evaluations().clone()).collect();
    let mut t2 = tr();
    let ch = o_challenges(&p.aux_info, &msgs, &mut t2);
    c.check(pr.point == ch && msgs.len() == nv, "P03/point-is-challenges", || what.into());
    for i in 0..nv.min(msgs.len()) {
        let want: Vec<Fr> = (0..=d)
            .map(|t| {
                (0..1usize << (nv - 1 - i))
                    .map(|b| {
                        let mut x = ch[..i].to_vec();
                        x.push(Fr::from(t as u64));
                        x.extend(bits_pt(b, nv - 1 - i));
                        o_vp(p, &x)
                    })
                    .sum()
            })
            .collect();
        c.check(msgs[i] == want, key, || format!("{} round {} got {} want {}", what, i, sv(&msgs[i]), sv(&want)));
    }
    let total: Fr = (0..1usize << nv).map(|b| o_vp(p, &bits_pt(b, nv))).sum();
    c.check(<Iop as SumCheck<Fr>>::extract_sum(&pr) == total, "P03/extract-sum", || what.into());
    let mut t3 = tr();
    let g = quiet(|| <Iop as SumCheck<Fr>>::verify(total, &pr, &p.aux_info, &mut t3).ok());
    let ok = matches!(&g, Ok(Some(s)) if s.point == ch && s.expected_evaluation == o_vp(p, &ch));
    c.check(ok, "P03/prove-then-verify", || what.into());
    let (x, y) = (t.get_and_append_challenge(b"z").unwrap(), t3.get_and_append_challenge(b"z").unwrap());
    c.check(x == y, "P03/transcripts-agree", || what.into());
}

pub fn rand_vp(c: &mut Ctx, nv: usize) -> VirtualPolynomial<Fr> {
    let pool: Vec<Arc<Mle<Fr>>> = (0..4).map(|_| Arc::new(c.mle(nv))).collect();
    let mut p = VirtualPolynomial::<Fr>::new(nv);
    for _ in 0..1 + c.below(4) {
        let n = 1 + c.below(5);
        let l: Vec<_> = (0..n).map(|_| pool[c.below(4)].clone()).collect();
        let co = c.fs();
        p.add_mle_list(l, co).unwrap();
    }
    p
}

pub fn p03(c: &mut Ctx) {
    for it in 0..c.n(50) {
        let nv = 1 + it % 5;
        let p = rand_vp(c, nv);
        let what = format!("nv={} products={:?}", nv, p.products.iter().map(|(co, l)| (sf(co), l.clone())).collect::<Vec<_>>());
        check_prover(c, "P03/round-message", &p, &what);
    }
    // long products next to shorter ones
    for it in 0..c.n(5) {
        let nv = 1 + it % 2;
        let pool: Vec<Arc<Mle<Fr>>> = (0..5).map(|_| Arc::new(c.mle(nv))).collect();
        let mut p = VirtualPolynomial::<Fr>::new(nv);
        let top = 6 + c.below(20);
        for n in [top, top - 1 - c.below(3), 1 + c.below(top)] {
            let co = c.fs();
            p.add_mle_list((0..n).map(|_| pool[c.below(5)].clone()).collect::<Vec<_>>(), co).unwrap();
        }
        let what = format!("nv={} product lengths={:?}", nv, p.products.iter().map(|(_, l)| l.len()).collect::<Vec<_>>());
        check_prover(c, "P03/round-message-long-products", &p, &what);
    }
    // declared degree above every product
    for nv in 1..4 {
        let mut p = rand_vp(c, nv);
        p.aux_info.max_degree += 2;
        check_prover(c, "P03/round-message-extra-degree", &p, &format!("nv={} degree raised", nv));
    }
    // nv = 0 is refused
    let p = VirtualPolynomial::<Fr>::new(0);
    let g = quiet(|| <Iop as SumCheck<Fr>>::prove(&p, &mut tr()).is_err());
    c.check(g == Ok(true), "P03/constant-refused", || "nv=0".into());
    for nv in 1..5 {
        let mut rng = ChaCha20Rng::seed_from_u64(c.rng.next_u64());
        let (p, s) = VirtualPolynomial::<Fr>::rand(nv, (1, 4), 3, &mut rng).unwrap();
        let total: Fr = (0..1usize << nv).map(|b| o_vp(&p, &bits_pt(b, nv))).sum();
        c.check(s == total, "P03/rand-sum", || format!("nv={}", nv));
    }
}

fn zero_vp(c: &mut Ctx, nv: usize) -> VirtualPolynomial<Fr> {
    // products minus their own tables: zero on the hypercube, nonzero elsewhere
    let mut p = VirtualPolynomial::<Fr>::new(nv);
    for _ in 0..1 + c.below(3) {
        let n = 2 + c.below(3);
        let l: Vec<_> = (0..n).map(|_| Arc::new(c.mle(nv))).collect();
        let prod: Vec<Fr> = (0..1usize << nv).map(|b| l.iter().map(|m| m.evaluations[b]).product()).collect();
        let co = c.f();
        p.add_mle_list(l, co).unwrap();
        p.add_mle_list(vec![Arc::new(Mle::from_evaluations_vec(nv, prod))], -co).unwrap();
    }
    p
}

pub fn p04(c: &mut Ctx) {
    for it in 0..c.n(40) {
        let nv = 1 + it % 5;
        let p = zero_vp(c, nv);
        let what = format!("nv={} products={:?}", nv, p.products.iter().map(|(_, l)| l.len()).collect::<Vec<_>>());
        let (mut t1, mut t2, mut t3) = (tr(), tr(), tr());
        let pr = quiet(|| <Iop as ZeroCheck<Fr>>::prove(&p, &mut t1).ok());
        let Ok(Some(pr)) = pr else {
            c.check(false, "P04/prove", || what.clone());
            continue;
        };
        let r = t3.get_and_append_challenge_vectors(b"0check r", nv).unwrap();
        let g = quiet(|| <Iop as ZeroCheck<Fr>>::verify(&pr, &p.aux_info, &mut t2).ok());
        let ok = match &g {
            Ok(Some(s)) => {
                s.init_challenge == r
                    && s.expected_evaluation == o_vp(&p, &s.point)
                    && s.point == pr.point
            }
            _ => false,
        };
        c.check(ok, "P04/zero-accepted", || what.clone());
        let (x, y) = (t1.get_and_append_challenge(b"z").unwrap(), t2.get_and_append_challenge(b"z").unwrap());
        c.check(x == y, "P04/transcripts-agree", || what.clone());
        // first message against the definition: f * eq(x, r)
        let m0 = pr.proofs[0].verif_evaluations().clone();
        let want: Vec<Fr> = (0..=p.aux_info.max_degree + 1)
            .map(|t| {
                (0..1usize << (nv - 1))
                    .map(|b| {
                        let mut xx = vec![Fr::from(t as u64)];
                        xx.extend(bits_pt(b, nv - 1));
                        o_vp(&p, &xx) * o_eq(&xx, &r)
                    })
                    .sum()
            })
            .collect();
        c.check(m0 == want, "P04/first-message", || what.clone());
        // generic comparison with the reference verifier on arbitrary transcripts
        let d = 1 + c.below(4);
        let a = aux(nv, d);
        for mode in 0..4 {
            let mut tt = tr();
            let rr = tt.get_and_append_challenge_vectors(b"0check r", nv).unwrap();
            let sum0 = if mode == 1 { Fr::one() } else { Fr::zero() };
            let mut msgs: Vec<Vec<Fr>> = vec![];
            let mut exp = sum0;
            let ah = aux(nv, if mode == 2 { d } else { d + 1 });
            for i in 0..nv {
                let mut v = c.fvec(ah.max_degree + 1);
                v[1] = exp - v[0];
                if mode == 3 && i == nv - 1 && nv > 1 {
                    v[1] += Fr::one();
                }
                msgs.push(v.clone());
                let ch = o_challenges(&ah, &msgs, &mut tt.clone());
                exp = o_interp(&v, ch[i]);
            }
            let mut t4 = tt.clone();
            let want = if mode == 1 || mode == 2 { None } else { o_verify(Fr::zero(), &aux(nv, d + 1), &msgs, &mut t4) };
            let want = want.map(|(pt, e)| (pt.clone(), e * o_eq(&pt, &rr).inverse().unwrap()));
            let g = quiet(|| <Iop as ZeroCheck<Fr>>::verify(&proof_of(&msgs), &a, &mut tr()).ok());
            let ok = match (&want, &g) {
                (None, Ok(None)) => true,
                (Some((pt, e)), Ok(Some(s))) => s.point == *pt && s.expected_evaluation == *e && s.init_challenge == rr,
                _ => false,
            };
            c.check(ok, ["P04/reference-accept", "P04/nonzero-first", "P04/wrong-degree", "P04/last-round-wrong"][mode], || {
                show(&Fr::zero(), nv, d, &msgs)
            });
        }
        // a polynomial nonzero at exactly one hypercube vertex
        let mut q = p.clone();
        let b = c.below(1 << nv);
        let mut tb = vec![Fr::zero(); 1 << nv];
        tb[b] = c.f();
        q.add_mle_list(vec![Arc::new(Mle::from_evaluations_vec(nv, tb))], Fr::one()).unwrap();
        let (mut t1, mut t2) = (tr(), tr());
        if let Ok(Some(pr)) = quiet(|| <Iop as ZeroCheck<Fr>>::prove(&q, &mut t1).ok()) {
            let g = quiet(|| <Iop as ZeroCheck<Fr>>::verify(&pr, &q.aux_info, &mut t2).ok());
            let ok = match &g {
                Ok(None) => true,
                Ok(Some(s)) => s.expected_evaluation != o_vp(&q, &s.point),
                Err(_) => false,
            };
            c.check(ok, "P04/nonzero-rejected", || format!("{} nonzero at vertex {}", what, b));
        }
    }
}
