use crate::common::*;
use zk_sql::arithmetic::*;

pub fn p05(c: &mut Ctx) {
    for it in 0..c.n(60) {
        let nv = 1 + it % 6;
        let m = c.mle(nv);
        let mut x = c.fvec(nv);
        if it % 5 == 0 {
            let b = c.below(1 << nv);
            x = bits_pt(b, nv);
        }
        let want = o_mle(&m.evaluations, &x);
        let inp = || format!("table={} point={}", sv(&m.evaluations), sv(&x));
        if let Some(g) = c.guard("P05/evaluate_opt", inp, || evaluate_opt(&m, &x)) {
            c.check(g == want, "P05/evaluate_opt", || format!("{} got {} want {}", inp(), sf(&g), sf(&want)));
        }
        if let Some(g) = c.guard("P05/evaluate_no_par", inp, || evaluate_no_par(&m, &x)) {
            c.check(g == want, "P05/evaluate_no_par", || format!("{} got {} want {}", inp(), sf(&g), sf(&want)));
        }
        for k in 0..=nv {
            let part = c.fvec(k);
            let inp = || format!("table={} fixed={}", sv(&m.evaluations), sv(&part));
            // first k
            if let Some(g) = c.guard("P05/fix_variables", inp, || fix_variables(&m, &part)) {
                let want: Vec<Fr> = (0..1usize << (nv - k))
                    .map(|b| {
                        let mut p = part.clone();
                        p.extend(bits_pt(b, nv - k));
                        o_mle(&m.evaluations, &p)
                    })
                    .collect();
                c.check(g.num_vars == nv - k && g.evaluations == want, "P05/fix_variables", || {
                    format!("{} got {} want {}", inp(), sv(&g.evaluations), sv(&want))
                });
            }
            let want: Vec<Fr> = (0..1usize << (nv - k))
                .map(|b| {
                    let mut p = bits_pt(b, nv - k);
                    p.extend(part.clone());
                    o_mle(&m.evaluations, &p)
                })
                .collect();
            if let Some(g) = c.guard("P05/fix_last_variables", inp, || fix_last_variables(&m, &part)) {
                c.check(g.num_vars == nv - k && g.evaluations == want, "P05/fix_last_variables", || {
                    format!("{} got {} want {}", inp(), sv(&g.evaluations), sv(&want))
                });
            }
            if k > 0 {
                if let Some(g) = c.guard("P05/fix_last_variables_no_par", inp, || fix_last_variables_no_par(&m, &part)) {
                    c.check(g.num_vars == nv - k && g.evaluations == want, "P05/fix_last_variables_no_par", || {
                        format!("{} got {} want {}", inp(), sv(&g.evaluations), sv(&want))
                    });
                }
            }
        }
    }
    // larger tables
    for nv in [8usize, 10] {
        let m = c.mle(nv);
        let x = c.rvec(nv);
        let want = o_mle(&m.evaluations, &x);
        c.check(evaluate_opt(&m, &x) == want, "P05/evaluate_opt-large", || format!("nv={}", nv));
        c.check(evaluate_no_par(&m, &x) == want, "P05/evaluate_no_par-large", || format!("nv={}", nv));
        let f = fix_variables(&m, &x[..nv - 2]);
        c.check(o_mle(&f.evaluations, &x[nv - 2..]) == want, "P05/fix_variables-large", || format!("nv={}", nv));
        let f = fix_last_variables(&m, &x[2..]);
        c.check(o_mle(&f.evaluations, &x[..2]) == want, "P05/fix_last-large", || format!("nv={}", nv));
    }
}

pub fn p06(c: &mut Ctx) {
    for it in 0..c.n(60) {
        let n = 1 + it % 7;
        let r = c.fvec(n);
        let x = c.fvec(n);
        let want: Vec<Fr> = (0..1usize << n).map(|b| o_eq_at(&r, b)).collect();
        let inp = || format!("r={}", sv(&r));
        let vec = c.guard("P06/build_eq_x_r_vec", inp, || build_eq_x_r_vec(&r));
        if let Some(g) = vec {
            let ok = matches!(&g, Ok(v) if *v == want);
            c.check(ok, "P06/build_eq_x_r_vec", || format!("{} got {:?}", inp(), g.as_ref().map(|v| sv(v)).ok()));
        }
        if let Some(g) = c.guard("P06/build_eq_x_r", inp, || build_eq_x_r(&r)) {
            let ok = matches!(&g, Ok(v) if v.evaluations == want && v.num_vars == n);
            c.check(ok, "P06/build_eq_x_r", inp);
        }
        if let Some(g) = c.guard("P06/tracker-build_eq_x_r", inp, || zk_sql::tracker::prelude::build_eq_x_r(&r)) {
            let ok = matches!(&g, Ok(v) if v.evaluations == want && v.num_vars == n);
            c.check(ok, "P06/tracker-build_eq_x_r", inp);
        }
        let w = o_eq(&x, &r);
        let inp = || format!("x={} y={}", sv(&x), sv(&r));
        let g = eq_eval(&x, &r);
        c.check(matches!(g, Ok(v) if v == w), "P06/eq_eval", inp);
        let g = zk_sql::tracker::prelude::eq_eval(&x, &r);
        c.check(matches!(g, Ok(v) if v == w), "P06/tracker-eq_eval", inp);
        c.check(o_mle(&want, &x) == w, "P06/oracle", inp);
        // mismatched lengths are refused
        for d in [0usize, n - 1, n + 1] {
            if d == n { continue; }
            let y = c.rvec(d);
            let g = quiet(|| eq_eval(&x, &y).is_err());
            c.check(g == Ok(true), "P06/eq_eval-length", || format!("x={} y={}", sv(&x), sv(&y)));
            let g = quiet(|| zk_sql::tracker::prelude::eq_eval(&x, &y).is_err());
            c.check(g == Ok(true), "P06/tracker-eq_eval-length", || format!("x={} y={}", sv(&x), sv(&y)));
        }
    }
    let g = quiet(|| (build_eq_x_r::<Fr>(&[]).is_err(), build_eq_x_r_vec::<Fr>(&[]).is_err()));
    c.check(g == Ok((true, true)), "P06/empty-r", || "r=[]".into());
    // copies private to the KZG code: exercised through SRS generation and batching
    crate::pcs::srs_structure(c, "P06/kzg-eq_extension", 4);
    crate::pcs::batch_roundtrip(c, "P06/kzg-eq_eval", 2, 3);
}

/// meaning of a virtual polynomial, straight from its public fields
pub fn o_vp(p: &VirtualPolynomial<Fr>, x: &[Fr]) -> Fr {
    let mut s = Fr::zero();
    for (co, idx) in &p.products {
        let mut t = *co;
        for i in idx {
            t *= o_mle(&p.flattened_ml_extensions[*i].evaluations, x);
        }
        s += t;
    }
    s
}

fn vp_wf(p: &VirtualPolynomial<Fr>) -> bool {
    p.products.iter().all(|(_, l)| l.len() <= p.aux_info.max_degree && l.iter().all(|i| *i < p.flattened_ml_extensions.len()))
        && p.flattened_ml_extensions.iter().all(|m| m.num_vars == p.aux_info.num_variables)
}

/// explicit term list: the intended meaning
type Terms = Vec<(Fr, Vec<Arc<Mle<Fr>>>)>;
fn o_terms(t: &Terms, x: &[Fr]) -> Fr {
    t.iter().map(|(co, l)| l.iter().fold(*co, |a, m| a * o_mle(&m.evaluations, x))).sum()
}

pub fn p07(c: &mut Ctx) {
    for it in 0..c.n(60) {
        let nv = 1 + it % 4;
        let pool: Vec<Arc<Mle<Fr>>> = (0..4).map(|_| Arc::new(c.mle(nv))).collect();
        let pick = |c: &mut Ctx| -> Arc<Mle<Fr>> {
            match c.below(6) {
                5 => Arc::new(c.mle(nv)),
                4 => {
                    // an equal table behind a different pointer
                    let i = c.below(4);
                    Arc::new((*pool[i]).clone())
                }
                i => pool[i].clone(),
            }
        };
        let mut p = VirtualPolynomial::<Fr>::new(nv);
        let mut terms: Terms = vec![];
        let mut script = format!("nv={}; new", nv);
        if it % 3 == 0 {
            let m = pick(c);
            let co = c.fs();
            p = VirtualPolynomial::new_from_mle(&m, co);
            terms = vec![(co, vec![m])];
            script = format!("nv={}; new_from_mle", nv);
        }
        let steps = 1 + c.below(5);
        for _ in 0..steps {
            let x = c.fvec(nv);
            match c.below(6) {
                0 | 1 => {
                    let l: Vec<_> = { let n = 1 + c.below(4); (0..n).map(|_| pick(c)).collect() };
                    let co = c.fs();
                    script += &format!("; add_mle_list({})", l.len());
                    let r = quiet(|| p.add_mle_list(l.clone(), co).is_ok());
                    c.check(r == Ok(true), "P07/add_mle_list-accepts", || script.clone());
                    terms.push((co, l));
                }
                2 => {
                    let m = pick(c);
                    let co = c.fs();
                    script += "; mul_by_mle";
                    let r = quiet(|| p.mul_by_mle(m.clone(), co).is_ok());
                    c.check(r == Ok(true), "P07/mul_by_mle-accepts", || script.clone());
                    for t in terms.iter_mut() {
                        t.0 *= co;
                        t.1.push(m.clone());
                    }
                }
                3 => {
                    // add two polynomials, sharing tables or not
                    let mut q = VirtualPolynomial::<Fr>::new(nv);
                    let mut qt: Terms = vec![];
                    for _ in 0..1 + c.below(3) {
                        let l: Vec<_> = { let n = 1 + c.below(3); (0..n).map(|_| pick(c)).collect() };
                        let co = c.fs();
                        let _ = q.add_mle_list(l.clone(), co);
                        qt.push((co, l));
                    }
                    script += "; add";
                    if let Some(s) = c.guard("P07/add", || script.clone(), || &p + &q) {
                        p = s;
                    }
                    terms.extend(qt);
                }
                4 => {
                    let r = c.fvec(nv);
                    script += &format!("; build_f_hat({})", sv(&r));
                    if let Some(Ok(h)) = c.guard("P07/build_f_hat", || script.clone(), || p.build_f_hat(&r)) {
                        let w = o_terms(&terms, &x) * o_eq(&x, &r);
                        c.check(o_vp(&h, &x) == w && vp_wf(&h), "P07/build_f_hat", || format!("{} at {}", script, sv(&x)));
                        if c.below(2) == 0 {
                            let e = Arc::new(Mle::from_evaluations_vec(nv, (0..1usize << nv).map(|b| o_eq_at(&r, b)).collect()));
                            for t in terms.iter_mut() { t.1.push(e.clone()); }
                            p = h;
                        }
                    } else {
                        c.check(false, "P07/build_f_hat", || script.clone());
                    }
                    let bad = c.rvec(nv + 1);
                    let g = quiet(|| p.build_f_hat(&bad).is_err());
                    c.check(g == Ok(true), "P07/build_f_hat-refuses", || script.clone());
                }
                _ => {
                    // refused operations leave the meaning unchanged
                    let before = o_vp(&p, &x);
                    let bad = Arc::new(c.mle(nv + 1));
                    let g = match c.below(3) {
                        0 => quiet(|| p.add_mle_list(vec![pool[0].clone(), bad.clone()], Fr::one()).is_err()),
                        1 => quiet(|| p.add_mle_list(Vec::<Arc<Mle<Fr>>>::new(), Fr::one()).is_err()),
                        _ => quiet(|| p.mul_by_mle(bad.clone(), Fr::one()).is_err()),
                    };
                    script += "; refused-op";
                    c.check(g == Ok(true), "P07/mismatch-refused", || script.clone());
                    c.check(o_vp(&p, &x) == before, "P07/refused-unchanged", || script.clone());
                }
            }
            c.check(vp_wf(&p), "P07/wf", || script.clone());
            let w = o_terms(&terms, &x);
            c.check(o_vp(&p, &x) == w, "P07/meaning", || format!("{} at {}", script, sv(&x)));
            if let Some(g) = c.guard("P07/evaluate", || script.clone(), || p.evaluate(&x)) {
                c.check(matches!(g, Ok(v) if v == w), "P07/evaluate", || format!("{} at {}", script, sv(&x)));
            }
        }
        let x = c.rvec(nv + 1);
        let g = quiet(|| p.evaluate(&x).is_err());
        c.check(g == Ok(true), "P07/evaluate-refuses", || script.clone());
        if let Some(m) = c.guard("P07/materialize", || script.clone(), || p.materialize()) {
            let w: Vec<Fr> = (0..1usize << nv).map(|b| o_terms(&terms, &bits_pt(b, nv))).collect();
            c.check(m.num_vars == nv && m.evaluations == w, "P07/materialize", || script.clone());
        }
    }
}

pub fn p08(c: &mut Ctx) {
    let dec = |v: &[bool]| -> u64 { v.iter().enumerate().map(|(i, b)| (*b as u64) << i).sum() };
    for it in 0..c.n(400) {
        let n = it % 65;
        let mut x = c.rng.next_u64();
        if it % 7 == 0 { x = (1u64 << (n.min(63))).wrapping_sub(1); }
        if it % 11 == 0 { x = c.below(8) as u64; }
        let inp = || format!("x={} n={}", x, n);
        let m = if n >= 64 { x } else { x & ((1u64 << n) - 1) };
        if let Some(b) = c.guard("P08/bit_decompose", inp, || bit_decompose(x, n)) {
            c.check(b.len() == n && dec(&b) == m && (0..n).all(|i| b[i] == (x >> i & 1 == 1)), "P08/bit_decompose", inp);
        }
        if let Some(b) = c.guard("P08/tracker-bit_decompose", inp, || zk_sql::tracker::prelude::bit_decompose(x, n)) {
            c.check(b.len() == n && dec(&b) == m, "P08/tracker-bit_decompose", inp);
        }
        if let Some(b) = c.guard("P08/binary_decompose", inp, || zk_sql::tracker::prelude::binary_decompose::<Fr>(x, n)) {
            let ok = b.len() == n && (0..n).all(|i| b[i] == Fr::from(x >> i & 1));
            c.check(ok, "P08/binary_decompose", inp);
        }
        if n >= 1 && n <= 40 {
            let i = (m & ((1u64 << n) - 1)) as usize;
            if let Some((x0, x1, s)) = c.guard("P08/get_index", || format!("i={} n={}", i, n), || get_index(i, n)) {
                let low = i & ((1usize << (n - 1)) - 1);
                c.check(x0 == low << 1 && x1 == (low << 1) + 1 && s == (i >> (n - 1) & 1 == 1), "P08/get_index", || {
                    format!("i={} n={} got ({},{},{})", i, n, x0, x1, s)
                });
            }
        }
    }
    for it in 0..c.n(60) {
        let nv = 1 + it % 3;
        let k = 1 + (it / 3) % 6;
        let ms: Vec<Arc<Mle<Fr>>> = (0..k).map(|_| Arc::new(c.mle(nv))).collect();
        let inp = || format!("nv={} k={} tables={:?}", nv, k, ms.iter().map(|m| sv(&m.evaluations)).collect::<Vec<_>>());
        let mut l = 0;
        while (1usize << l) < k { l += 1; }
        c.check(quiet(|| get_batched_nv(nv, k)) == Ok(nv + l), "P08/get_batched_nv", || format!("nv={} k={}", nv, k));
        if let Some(Ok(g)) = c.guard("P08/merge", inp, || merge_polynomials(&ms)) {
            let mut w: Vec<Fr> = ms.iter().flat_map(|m| m.evaluations.clone()).collect();
            w.resize(1 << (nv + l), Fr::zero());
            c.check(g.num_vars == nv + l && g.evaluations == w, "P08/merge", inp);
            let x = c.fvec(nv);
            for i in 0..k {
                let p = gen_eval_point(i, l, &x);
                let ok = p.len() == nv + l && o_mle(&g.evaluations, &p) == o_mle(&ms[i].evaluations, &x);
                c.check(ok, "P08/gen_eval_point", || format!("{} i={} x={}", inp(), i, sv(&x)));
            }
        } else {
            c.check(false, "P08/merge", inp);
        }
        if k >= 2 {
            let mut bad = ms.clone();
            let j = 1 + c.below(k - 1);
            bad[j] = Arc::new(c.mle(nv + 1));
            let g = quiet(|| merge_polynomials(&bad).is_err());
            c.check(g == Ok(true), "P08/merge-refuses-mixed", || format!("nv={} k={} odd one at {}", nv, k, j));
        }
    }
}
