//! P26: proof objects of the wrong shape.
use crate::common::*;
use crate::iop::{aux, msg, tr, Iop};
use crate::pcs::{bv, mk_batch, srs};
use crate::track::{keys, PT, VT};
use zk_sql::subroutines::poly_iop::structs::IOPProof;
use zk_sql::subroutines::poly_iop::zero_check::ZeroCheck;
use zk_sql::subroutines::poly_iop::prelude::SumCheck;
use zk_sql::subroutines::*;

fn sc_proof(c: &mut Ctx, lens: &[usize], consistent0: bool) -> IOPProof<Fr> {
    let proofs = lens
        .iter()
        .map(|l| {
            let mut v = c.fvec(*l);
            if consistent0 && *l >= 2 { v[1] = -v[0]; }
            msg(&v)
        })
        .collect();
    let pl = c.below(5);
    IOPProof { point: c.fvec(pl), proofs }
}

pub fn p26(c: &mut Ctx) {
    // sumcheck and zero check: any number of rounds, any message lengths
    for it in 0..c.n(120) {
        let nv = 1 + it % 4;
        let d = (it / 4) % 5;
        let rounds = c.below(nv + 3);
        let lens: Vec<usize> = (0..rounds).map(|_| if c.below(3) == 0 { c.below(d + 4) } else { d + 1 }).collect();
        let z = c.below(2) == 0;
        let p = sc_proof(c, &lens, z);
        let sum = if z { Fr::zero() } else { c.fs() };
        let bad = rounds < nv || lens.iter().take(nv).any(|l| *l != d + 1) || d == 0;
        let what = format!("nv={} degree={} message lengths={:?} zero-sum={}", nv, d, lens, z);
        let g = quiet(|| <Iop as SumCheck<Fr>>::verify(sum, &p, &aux(nv, d), &mut tr()).is_ok());
        c.check(g.is_ok() && !(bad && g == Ok(true)), "P26/sumcheck", || format!("{} -> {:?}", what, g));
        let badz = rounds < nv || lens.iter().take(nv).any(|l| *l != d + 2);
        let g = quiet(|| <Iop as ZeroCheck<Fr>>::verify(&p, &aux(nv, d), &mut tr()).is_ok());
        c.check(g.is_ok() && !(badz && g == Ok(true)), "P26/zerocheck", || format!("{} -> {:?}", what, g));
    }
    // single opening: any number of proof elements and coordinates
    for it in 0..c.n(6) {
        let n = 1 + it % 3;
        let s = srs(c, n);
        let (ck, vk) = Pcs::trim(&s, None, Some(n)).unwrap();
        for nv in 1..=n {
            // a constant polynomial has the identity for every element, so that leaving some out changes no equation
            let v = c.f();
            let m = if it % 2 == 1 { ark_poly::DenseMultilinearExtension::from_evaluations_vec(nv, vec![v; 1 << nv]) } else { c.rmle(nv) };
            let x = c.rvec(nv);
            let cm = Pcs::commit(&ck, &m).unwrap();
            let (pf, v) = Pcs::open(&ck, &m, &x).unwrap();
            for k in 0..=n + 2 {
                let mut q = pf.clone();
                while q.proofs.len() > k { q.proofs.pop(); }
                while q.proofs.len() < k { q.proofs.push(if it % 2 == 1 { ck.g } else { <E as ark_ec::pairing::Pairing>::G1Affine::default() }); }
                let g = quiet(|| Pcs::verify(&vk, &cm, &x, &v, &q).ok());
                let ok = match &g { Err(_) => false, Ok(Some(true)) => k == nv, _ => k != nv };
                c.check(ok, "P26/opening", || format!("setup={} nv={} elements={} -> {:?}", n, nv, k, g));
                for pl in 0..=n + 2 {
                    // a constant has the same commitment and openings for every number of variables
                    if pl == nv || it % 2 == 1 { continue; }
                    let mut y = x.clone();
                    while y.len() > pl { y.pop(); }
                    while y.len() < pl { y.push(c.f()); }
                    let g = quiet(|| Pcs::verify(&vk, &cm, &y, &v, &q).ok());
                    let ok = matches!(g, Ok(None) | Ok(Some(false)));
                    c.check(ok, "P26/opening-point", || format!("setup={} nv={} elements={} coordinates={} -> {:?}", n, nv, k, pl, g));
                }
            }
        }
    }
    // batch opening
    for it in 0..c.n(6) {
        let nv = 1 + it % 3;
        let k = 2 + it % 4;
        let Ok(b) = mk_batch(c, nv, k, it % 2 == 0) else { c.check(false, "P26/batch-setup", || "open failed".into()); continue };
        let (sc, gp) = { let (a, b) = b.proof.verif_parts(); (a.clone(), b.clone()) };
        let mut cases: Vec<(String, Vec<Commitment<E>>, Vec<Vec<Fr>>, BatchProof<E, Pcs>)> = vec![];
        let mk = |s: &IOPProof<Fr>, e: &[Fr], g: &MultilinearKzgProof<E>| BatchProof::<E, Pcs>::verif_new(s.clone(), e.to_vec(), g.clone());
        for j in 0..=k + 1 {
            if j == k { continue; }
            let cut = |n: usize| -> usize { n.min(k) };
            let mut ev = b.evals[..cut(j)].to_vec();
            while ev.len() < j { ev.push(Fr::one()); }
            cases.push((format!("{} values", j), b.comms.clone(), b.points.clone(), mk(&sc, &ev, &gp)));
            let mut cm = b.comms[..cut(j)].to_vec();
            while cm.len() < j { cm.push(b.comms[0].clone()); }
            cases.push((format!("{} commitments", j), cm, b.points.clone(), b.proof.clone()));
            let mut ps = b.points[..cut(j)].to_vec();
            while ps.len() < j { ps.push(b.points[0].clone()); }
            cases.push((format!("{} points", j), b.comms.clone(), ps, b.proof.clone()));
        }
        for l in 0..=nv + 1 {
            if l == nv { continue; }
            for which in 0..k {
                let mut ps = b.points.clone();
                ps[which].resize(l, Fr::one());
                cases.push((format!("point {} of length {}", which, l), b.comms.clone(), ps, b.proof.clone()));
            }
            let mut s2 = sc.clone();
            s2.point.resize(l, Fr::one());
            cases.push((format!("sumcheck point of length {}", l), b.comms.clone(), b.points.clone(), mk(&s2, &b.evals, &gp)));
            let mut g2 = gp.clone();
            g2.proofs.resize(l, b.comms[0].0);
            cases.push((format!("{} opening elements", l), b.comms.clone(), b.points.clone(), mk(&sc, &b.evals, &g2)));
            if l < nv {
                let mut s2 = sc.clone();
                s2.proofs.truncate(l);
                cases.push((format!("{} rounds", l), b.comms.clone(), b.points.clone(), mk(&s2, &b.evals, &gp)));
                let mut g2 = gp.clone();
                g2.proofs.truncate(l);
                cases.push((format!("{} opening elements", l), b.comms.clone(), b.points.clone(), mk(&sc, &b.evals, &g2)));
            }
        }
        for r in 0..nv {
            for l in [0usize, 1, 2, 4] {
                let mut s2 = sc.clone();
                let mut m = s2.proofs[r].verif_evaluations().clone();
                m.resize(l, Fr::one());
                s2.proofs[r] = msg(&m);
                cases.push((format!("round {} with {} values", r, l), b.comms.clone(), b.points.clone(), mk(&s2, &b.evals, &gp)));
            }
        }
        cases.push(("nothing at all".into(), vec![], vec![], mk(&IOPProof { point: vec![], proofs: vec![] }, &[], &MultilinearKzgProof { proofs: vec![] })));
        for (d, cm, ps, pf) in cases {
            let g = bv(&b, &cm, &ps, &pf, &mut tr());
            let ok = matches!(g, Ok(None) | Ok(Some(false)));
            c.check(ok, "P26/batch", || format!("nv={} k={} {} -> {:?}", nv, k, d, g));
        }
    }
    // compiled proofs
    for it in 0..c.n(4) {
        let nv = 1 + it % 3;
        let (pk, vk) = keys(4);
        let mut pt = PT::new_from_pcs_params(pk);
        let (a, b) = (c.rmle(nv), c.rmle(nv));
        let pa = pt.track_and_commit_poly(a).unwrap();
        let pb = pt.track_and_commit_poly(b).unwrap();
        let s = pa.mul_poly(&pb);
        let z = s.sub_poly(&s);
        let sum: Fr = s.evaluations().iter().sum();
        pt.add_sumcheck_claim(s.id, sum);
        pt.add_zerocheck_claim(z.id);
        let Ok(pf) = pt.compile_proof() else { c.check(false, "P26/compile", || "compile failed".into()); continue };
        let run = |pf: &_| {
            let vk = vk.clone();
            quiet(|| {
                let mut vt = VT::new_from_pcs_params(vk);
                vt.set_compiled_proof(Clone::clone(pf));
                let mut t = vt.clone();
                let ca = t.transfer_prover_comm(pa.id);
                let cb = t.transfer_prover_comm(pb.id);
                let s = ca.mul_comms(&cb);
                let z = s.sub_comms(&s);
                vt.add_sumcheck_claim(s.id, sum);
                vt.add_zerocheck_claim(z.id);
                vt.verify_claims().is_ok()
            })
        };
        let g = run(&pf);
        c.check(g == Ok(true), "P26/compiled-honest", || format!("nv={}: {:?}", nv, g));
        let mut cases: Vec<(String, _)> = vec![];
        let mut q = pf.clone();
        q.pcs_proof.clear();
        cases.push(("no batch opening".to_string(), q));
        for l in 0..nv {
            let mut q = pf.clone();
            q.sc_proof.proofs.truncate(l);
            cases.push((format!("{} rounds", l), q));
        }
        for r in 0..nv {
            for l in [0usize, 1, 2, 9] {
                let mut q = pf.clone();
                let mut m = q.sc_proof.proofs[r].verif_evaluations().clone();
                if m.len() == l { continue; }
                m.resize(l, Fr::one());
                q.sc_proof.proofs[r] = msg(&m);
                cases.push((format!("round {} with {} values", r, l), q));
            }
        }
        let mut q = pf.clone();
        q.comms.insert(zk_sql::tracker::prelude::TrackerID(77), q.comms[&pa.id].clone());
        cases.push(("a commitment nobody tracks".into(), q));
        for n in 0..=2 {
            let mut q = pf.clone();
            let (sc, gp) = { let (a, b) = pf.pcs_proof[0].verif_parts(); (a.clone(), b.clone()) };
            let mut e = pf.pcs_proof[0].f_i_eval_at_point_i.clone();
            if n == e.len() { continue; }
            e.truncate(n);
            q.pcs_proof[0] = BatchProof::verif_new(sc, e, gp);
            cases.push((format!("{} opened values", n), q));
        }
        for (d, q) in cases {
            let g = run(&q);
            c.check(g == Ok(false), "P26/compiled", || format!("nv={} {} -> {:?}", nv, d, g));
        }
    }
}
