//! P18-P25: the relational gadgets. Every case carries the relation computed
//! from its mathematical definition; the real prover and verifier code run on
//! it and the registered claims are decided exactly.
use crate::common::*;
use crate::track::*;
use zk_sql::tracker::prelude::*;
use zk_sql::zksql_poly_iop::verif_hooks::*;

type PF = Box<dyn Fn(&mut PT, &[TP]) -> Result<Vec<TP>, PolyIOPErrors>>;
type VF = Box<dyn Fn(&mut VT, &[TC]) -> Result<Vec<TC>, PolyIOPErrors>>;

/// A selected multiset as two tables.
#[derive(Clone, Debug)]
struct B {
    nv: usize,
    v: Vec<Fr>,
    s: Vec<Fr>,
}
#[derive(Clone, Copy)]
struct BI {
    p: usize,
    s: usize,
    nv: usize,
}
impl BI {
    fn pb(&self, t: &[TP]) -> Bag<E, Pcs> { Bag::new(t[self.p].clone(), t[self.s].clone()) }
    fn vb(&self, t: &[TC]) -> BagComm<E, Pcs> { BagComm::new(t[self.p].clone(), t[self.s].clone(), self.nv) }
}
#[derive(Clone)]
struct TI {
    c: Vec<usize>,
    s: usize,
    nv: usize,
}
impl TI {
    fn pb(&self, t: &[TP]) -> Table<E, Pcs> { Table::new(self.c.iter().map(|i| t[*i].clone()).collect(), t[self.s].clone()) }
    fn vb(&self, t: &[TC]) -> TableComm<E, Pcs> { TableComm::new(self.c.iter().map(|i| t[*i].clone()).collect(), t[self.s].clone(), self.nv) }
}
#[derive(Default, Clone)]
struct Ins {
    ins: Vec<(usize, Vec<Fr>, bool)>,
    d: String,
}
impl Ins {
    fn poly(&mut self, n: &str, nv: usize, t: &[Fr]) -> usize {
        assert_eq!(t.len(), 1 << nv);
        self.ins.push((nv, t.to_vec(), true));
        self.d += &format!("{}={} ", n, sv(t));
        self.ins.len() - 1
    }
    fn bag(&mut self, n: &str, b: &B) -> BI {
        let p = self.poly(n, b.nv, &b.v);
        let s = self.poly(&format!("{}.sel", n), b.nv, &b.s);
        BI { p, s, nv: b.nv }
    }
    /// The table 0..2^nv with the constant-one selector.
    fn range(&mut self, nv: usize) -> BI {
        let t: Vec<Fr> = (0..1u64 << nv).map(Fr::from).collect();
        self.ins.push((nv, t, true));
        self.ins.push((nv, vec![Fr::one(); 1 << nv], false));
        self.d += &format!("range=2^{} ", nv);
        let n = self.ins.len();
        BI { p: n - 2, s: n - 1, nv }
    }
    fn table(&mut self, n: &str, nv: usize, cols: &[Vec<Fr>], s: &[Fr]) -> TI {
        let c = cols.iter().enumerate().map(|(i, t)| self.poly(&format!("{}[{}]", n, i), nv, t)).collect();
        let s = self.poly(&format!("{}.sel", n), nv, s);
        TI { c, s, nv }
    }
}
pub struct Case {
    gadget: &'static str,
    ins: Ins,
    want: bool,
    prove: PF,
    verify: VF,
    /// expected tables of the returned polynomials, if the relation holds
    out: Option<Vec<Vec<Fr>>>,
}
macro_rules! pf { ([$($c:ident),*] $e:expr) => {{ $(let $c = $c.clone();)* Box::new($e) }}; }

enum Out {
    Accept,
    Refused(String),
    /// accepted but something about the two sides does not correspond
    Bad(&'static str, String),
}
fn max_nv(case: &Case) -> usize { case.ins.ins.iter().map(|i| i.0).max().unwrap() + 1 }

fn run(c: &mut Ctx, case: &Case, full: bool) -> Out {
    let (mut pt, mut vt) = trackers(max_nv(case).max(5));
    let mut tp = vec![];
    for (nv, t, com) in &case.ins.ins {
        let m = Mle::from_evaluations_vec(*nv, t.clone());
        tp.push(if *com { pt.track_and_commit_poly(m).unwrap() } else { pt.track_mat_poly(m) });
    }
    let outp = match quiet(|| (case.prove)(&mut pt, &tp)) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => return Out::Refused(format!("prover: {}", e)),
        Err(m) => return Out::Refused(format!("prover panic: {}", m)),
    };
    // decide every registered claim exactly
    let mut t0 = pt.clone_underlying_tracker();
    let (zc, scl) = (t0.zero_check_claims.clone(), t0.sum_check_claims.clone());
    for (k, z) in zc.iter().enumerate() {
        if let Some(i) = t0.evaluations(z.label).iter().position(|x| !x.is_zero()) {
            return Out::Refused(format!("zero claim {} false at row {}", k, i));
        }
    }
    for (k, s) in scl.iter().enumerate() {
        if t0.evaluations(s.label).iter().sum::<Fr>() != s.claimed_sum {
            return Out::Refused(format!("sum claim {} false", k));
        }
    }
    let mut ptc = pt.deep_copy();
    let proof = match quiet(|| ptc.compile_proof()) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Out::Bad("compile", e.to_string()),
        Err(m) => return Out::Bad("compile", m),
    };
    vt.set_compiled_proof(proof);
    let r = quiet(|| {
        let mut tc: Vec<TC> = vec![];
        for (i, (nv, t, com)) in case.ins.ins.iter().enumerate() {
            tc.push(if *com {
                vt.transfer_prover_comm(tp[i].id)
            } else {
                let (nv, t) = (*nv, t.clone());
                vt.track_virtual_comm(Box::new(move |x: &[Fr]| Ok(o_mle(&t, &x[x.len() - nv..]))))
            });
        }
        (case.verify)(&mut vt, &tc)
    });
    let outv = match r {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => return Out::Refused(format!("verifier: {}", e)),
        Err(m) => return Out::Bad("verifier-panic", m),
    };
    let tv = vt.clone_underlying_tracker();
    if !same_ids(&pt, &vt) { return Out::Bad("lockstep-ids", format!("{} vs {}", t0.id_counter, tv.id_counter)); }
    if !same_challenge(&pt, &vt) { return Out::Bad("lockstep-challenges", String::new()); }
    macro_rules! lz { ($v:expr) => { $v.iter().map(|c| c.label).collect::<Vec<_>>() } }
    if lz!(zc) != lz!(tv.zero_check_claims) || lz!(scl) != lz!(tv.sum_check_claims) {
        return Out::Bad("lockstep-claims", format!("prover {:?} {:?} verifier {:?} {:?}", lz!(zc), lz!(scl), lz!(tv.zero_check_claims), lz!(tv.sum_check_claims)));
    }
    // every claimed polynomial is the one the verifier means, at a random point
    let mut pairs: Vec<(TrackerID, TrackerID)> = lz!(zc).into_iter().chain(lz!(scl)).map(|i| (i, i)).collect();
    if outp.len() != outv.len() { return Out::Bad("outputs", format!("{} vs {} columns", outp.len(), outv.len())); }
    pairs.extend(outp.iter().zip(&outv).map(|(a, b)| (a.id, b.id)));
    for (a, b) in pairs {
        let n = t0.evaluations(a).len().trailing_zeros() as usize;
        let x = c.rvec(n);
        {
            let mut q = tv.query_map.borrow_mut();
            for (id, m) in &t0.materialized_polys {
                if !t0.materialized_comms.contains_key(id) { continue; }
                for s in 0..=n.saturating_sub(m.num_vars) {
                    if s + m.num_vars <= n {
                        q.insert((*id, x[s..s + m.num_vars].to_vec()), o_mle(&m.evaluations, &x[s..s + m.num_vars]));
                    }
                }
            }
        }
        let p = t0.evaluate(a, &x);
        let v = quiet(|| tv.eval_virtual_comm(b, &x).ok());
        if p.is_none() || v != Ok(p) {
            return Out::Bad("lockstep-values", format!("handle {} prover {:?} verifier {:?}", a, p.map(|x| sf(&x)), v.map(|x| x.map(|x| sf(&x)))));
        }
    }
    if let Some(want) = &case.out {
        if want.len() != outp.len() { return Out::Bad("outputs", format!("{} columns returned, {} expected", outp.len(), want.len())); }
        for (k, w) in want.iter().enumerate() {
            let g = outp[k].evaluations();
            if g != *w { return Out::Bad("outputs", format!("column {} is {} but should be {}", k, sv(&g), sv(w))); }
        }
    }
    if full {
        tv.query_map.borrow_mut().clear();
        match quiet(|| vt.verify_claims()) {
            Ok(Ok(())) => {}
            o => return Out::Bad("verify-claims", format!("{:?}", o.map(|r| r.err().map(|e| e.to_string())))),
        }
    }
    Out::Accept
}
fn decide(c: &mut Ctx, pid: &str, case: &Case, full: bool) {
    let o = match quiet(|| run(c, case, full)) {
        Ok(o) => o,
        Err(m) => Out::Bad("panic", m),
    };
    let d = |x: &str| format!("{}: {} -> {}", case.gadget, case.ins.d, x);
    match o {
        Out::Accept => { c.check(case.want, &format!("{}/{}-{}", pid, case.gadget, if case.want { "complete" } else { "sound" }), || d("every claim true, verifier accepts; relation does not hold")); }
        Out::Refused(m) => { c.check(!case.want, &format!("{}/{}-{}", pid, case.gadget, if case.want { "complete" } else { "sound" }), || d(&m)); }
        Out::Bad(k, m) => { c.check(false, &format!("{}/{}-{}", pid, case.gadget, k), || d(&m)); }
    }
}

// ------------------------------------------------------------ generators
fn fr(x: u64) -> Fr { Fr::from(x) }
fn small(c: &mut Ctx, n: u64) -> Fr { fr(c.below(n as usize) as u64) }
/// A universe of `k` distinct values, some of them large.
fn universe(c: &mut Ctx, k: usize) -> Vec<Fr> {
    let mut u: Vec<Fr> = vec![];
    while u.len() < k {
        let x = c.fs();
        if !u.contains(&x) { u.push(x); }
    }
    u
}
fn shuffle<T>(c: &mut Ctx, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() { let j = c.below(i + 1); v.swap(i, j); }
}
fn sel(c: &mut Ctx, n: usize, p: usize) -> Vec<Fr> { (0..n).map(|_| if c.below(100) < p { Fr::one() } else { Fr::zero() }).collect() }
impl B {
    fn rand(c: &mut Ctx, nv: usize, u: &[Fr]) -> B {
        let n = 1 << nv;
        B { nv, v: (0..n).map(|_| u[c.below(u.len())]).collect(), s: sel(c, n, 70) }
    }
    /// Place the chosen values at random rows; the other rows are unselected and hold junk.
    fn place(c: &mut Ctx, nv: usize, vals: &[Fr], junk: &[Fr]) -> B {
        let n = 1 << nv;
        assert!(vals.len() <= n);
        let mut rows: Vec<(Fr, Fr)> = vals.iter().map(|v| (*v, Fr::one())).collect();
        while rows.len() < n { rows.push((junk[c.below(junk.len())], Fr::zero())); }
        shuffle(c, &mut rows);
        B { nv, v: rows.iter().map(|r| r.0).collect(), s: rows.iter().map(|r| r.1).collect() }
    }
    /// Zeros (unselected) first, then the values in the given order.
    fn tail(nv: usize, vals: &[Fr]) -> B {
        let n = 1usize << nv;
        let z = n - vals.len();
        B { nv, v: [vec![Fr::zero(); z], vals.to_vec()].concat(), s: [vec![Fr::zero(); z], vec![Fr::one(); vals.len()]].concat() }
    }
    fn chosen(&self) -> Vec<Fr> { self.v.iter().zip(&self.s).filter(|(_, s)| !s.is_zero()).map(|(v, _)| *v).collect() }
    fn count(&self) -> BTreeMap<Fr, u64> {
        let mut m = BTreeMap::new();
        for v in self.chosen() { *m.entry(v).or_insert(0) += 1; }
        m
    }
    fn set(&self) -> BTreeSet<Fr> { self.chosen().into_iter().collect() }
}
fn addc(a: &BTreeMap<Fr, u64>, b: &BTreeMap<Fr, u64>) -> BTreeMap<Fr, u64> {
    let mut m = a.clone();
    for (k, v) in b { *m.entry(*k).or_insert(0) += v; }
    m
}
fn weights(bs: &[B], ms: &[Vec<Fr>]) -> BTreeMap<Fr, Fr> {
    let mut w: BTreeMap<Fr, Fr> = BTreeMap::new();
    for (b, m) in bs.iter().zip(ms) {
        for i in 0..b.v.len() { *w.entry(b.v[i]).or_insert(Fr::zero()) += m[i] * b.s[i]; }
    }
    w.retain(|_, x| !x.is_zero());
    w
}
fn count_m(b: &B, sup: &B) -> Vec<Fr> {
    let cnt = b.count();
    let mut seen = BTreeSet::new();
    (0..sup.v.len())
        .map(|i| if sup.s[i].is_zero() || !seen.insert(sup.v[i]) { Fr::zero() } else { fr(*cnt.get(&sup.v[i]).unwrap_or(&0)) })
        .collect()
}
fn incl_rel(b: &B, sup: &B, m: &[Fr]) -> bool {
    weights(&[b.clone()], &[vec![Fr::one(); b.v.len()]]) == weights(&[sup.clone()], &[m.to_vec()])
}
/// Strictly increasing selected values (supported shape: unselected zeros first).
fn strict(b: &B) -> bool { b.chosen().windows(2).all(|w| w[0] < w[1]) }
fn distinct_small(c: &mut Ctx, k: usize, max: u64) -> Vec<Fr> {
    let mut s = BTreeSet::new();
    while s.len() < k { s.insert(small(c, max)); }
    s.into_iter().collect()
}

// P18
fn multitool(c: &mut Ctx, honest: bool) -> Case {
    let (nf, ng) = (1 + c.below(3), 1 + c.below(3));
    let k = 1 + c.below(3);
    let u = universe(c, k);
    let mut f: Vec<B> = vec![];
    let mut mf: Vec<Vec<Fr>> = vec![];
    for _ in 0..nf {
        let nv = 1 + c.below(3);
        f.push(B::rand(c, nv, &u));
        mf.push(c.fvec(1 << nv));
    }
    let mut g: Vec<B> = vec![];
    let mut mg: Vec<Vec<Fr>> = vec![];
    for i in 0..ng {
        let nv = if i == 0 { 2 + c.below(2) } else { 1 + c.below(3) };
        g.push(B::rand(c, nv, &u));
        mg.push(c.fvec(1 << nv));
    }
    // give every value of the universe one selected row on the right and fix its weight
    let mut rows: Vec<(usize, usize)> = (0..ng).flat_map(|i| (0..g[i].v.len()).map(move |j| (i, j))).collect();
    shuffle(c, &mut rows);
    let cov: Vec<(usize, usize)> = rows[..u.len()].to_vec();
    for (x, (i, j)) in cov.iter().enumerate() {
        g[*i].v[*j] = u[x];
        g[*i].s[*j] = Fr::one();
        mg[*i][*j] = Fr::zero();
    }
    let wf = weights(&f, &mf);
    let wg = weights(&g, &mg);
    for (x, (i, j)) in cov.iter().enumerate() {
        mg[*i][*j] = *wf.get(&u[x]).unwrap_or(&Fr::zero()) - wg.get(&u[x]).unwrap_or(&Fr::zero());
    }
    if !honest {
        let (i, j) = rows[c.below(rows.len())];
        match c.below(4) {
            0 => mg[i][j] += c.f(),
            1 => g[i].v[j] = c.f(),
            2 => g[i].s[j] = Fr::one() - g[i].s[j],
            _ => { let k = c.below(nf); let j = c.below(f[k].v.len()); mf[k][j] += Fr::one(); }
        }
    }
    let want = weights(&f, &mf) == weights(&g, &mg);
    let mut ins = Ins::default();
    let fi: Vec<BI> = f.iter().enumerate().map(|(i, b)| ins.bag(&format!("f{}", i), b)).collect();
    let gi: Vec<BI> = g.iter().enumerate().map(|(i, b)| ins.bag(&format!("g{}", i), b)).collect();
    let mfi: Vec<usize> = (0..nf).map(|i| ins.poly(&format!("mf{}", i), f[i].nv, &mf[i])).collect();
    let mgi: Vec<usize> = (0..ng).map(|i| ins.poly(&format!("mg{}", i), g[i].nv, &mg[i])).collect();
    let prove: PF = pf!([fi, gi, mfi, mgi] move |pt: &mut PT, t: &[TP]| {
        let f: Vec<_> = fi.iter().map(|b| b.pb(t)).collect();
        let g: Vec<_> = gi.iter().map(|b| b.pb(t)).collect();
        let mf: Vec<_> = mfi.iter().map(|i| t[*i].clone()).collect();
        let mg: Vec<_> = mgi.iter().map(|i| t[*i].clone()).collect();
        BagMultitoolIOP::<E, Pcs>::prove(pt, &f, &g, &mf, &mg)?;
        Ok(vec![])
    });
    let verify: VF = pf!([fi, gi, mfi, mgi] move |vt: &mut VT, t: &[TC]| {
        let f: Vec<_> = fi.iter().map(|b| b.vb(t)).collect();
        let g: Vec<_> = gi.iter().map(|b| b.vb(t)).collect();
        let mf: Vec<_> = mfi.iter().map(|i| t[*i].clone()).collect();
        let mg: Vec<_> = mgi.iter().map(|i| t[*i].clone()).collect();
        BagMultitoolIOP::<E, Pcs>::verify(vt, &f, &g, &mf, &mg)?;
        Ok(vec![])
    });
    Case { gadget: "multitool", ins, want, prove, verify, out: None }
}
fn bageq(c: &mut Ctx, honest: bool) -> Case {
    let nv = 1 + c.below(3);
    let k = 2 + c.below(4);
    let u = universe(c, k);
    let n = c.below((1 << nv) + 1);
    let vals: Vec<Fr> = (0..n).map(|_| u[c.below(k)]).collect();
    let (f, mut g) = (B::place(c, nv, &vals, &u), B::place(c, nv, &vals, &u));
    if !honest {
        let j = c.below(1 << nv);
        match c.below(3) {
            0 => g.s[j] = Fr::one() - g.s[j],
            1 => g.v[j] = u[c.below(k)],
            _ => { let i = c.below(1 << nv); g.v[j] = g.v[i]; g.s[j] = Fr::one(); }
        }
    }
    let want = f.count() == g.count();
    let mut ins = Ins::default();
    let (a, b) = (ins.bag("f", &f), ins.bag("g", &g));
    Case {
        gadget: "bageq", ins, want, out: None,
        prove: Box::new(move |pt, t| { BagEqIOP::<E, Pcs>::prove(pt, &a.pb(t), &b.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { BagEqIOP::<E, Pcs>::verify(vt, &a.vb(t), &b.vb(t))?; Ok(vec![]) }),
    }
}
fn prescperm(c: &mut Ctx, honest: bool) -> Case {
    let nv = 1 + c.below(3);
    let n = 1usize << nv;
    let u = universe(c, 4);
    let fv: Vec<Fr> = (0..n).map(|_| u[c.below(4)]).collect();
    let mut perm: Vec<usize> = (0..n).collect();
    shuffle(c, &mut perm);
    let mut pv: Vec<Fr> = perm.iter().map(|x| fr(*x as u64)).collect();
    let mut gv: Vec<Fr> = perm.iter().map(|x| fv[*x]).collect();
    if !honest {
        let (i, j) = (c.below(n), c.below(n));
        match c.below(4) {
            0 => gv.swap(i, j),
            1 => gv[i] = u[c.below(4)],
            2 => pv[i] = fr(j as u64),
            _ => { pv.swap(i, j); }
        }
    }
    let mut l: Vec<(Fr, Fr)> = (0..n).map(|i| (fr(i as u64), fv[i])).collect();
    let mut r: Vec<(Fr, Fr)> = (0..n).map(|i| (pv[i], gv[i])).collect();
    l.sort();
    r.sort();
    let want = l == r;
    let (f, g) = (B { nv, v: fv, s: sel(c, n, 60) }, B { nv, v: gv, s: sel(c, n, 60) });
    let mut ins = Ins::default();
    let (a, b) = (ins.bag("f", &f), ins.bag("g", &g));
    let p = ins.poly("perm", nv, &pv);
    Case {
        gadget: "prescperm", ins, want, out: None,
        prove: Box::new(move |pt, t| { BagPrescPermIOP::<E, Pcs>::prove(pt, &a.pb(t), &b.pb(t), &t[p])?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { BagPrescPermIOP::<E, Pcs>::verify(vt, &a.vb(t), &b.vb(t), &t[p])?; Ok(vec![]) }),
    }
}
// P19
fn bagsum(c: &mut Ctx, honest: bool) -> Case {
    let (n0, n1) = (1 + c.below(3), 1 + c.below(3));
    let k = 2 + c.below(3);
    let u = universe(c, k);
    let (f0, f1) = (B::rand(c, n0, &u), B::rand(c, n1, &u));
    let mut all = [f0.chosen(), f1.chosen()].concat();
    let gnv = n0.max(n1) + 1;
    if !honest {
        match c.below(4) {
            0 if !all.is_empty() => { all.pop(); }
            1 => { let x = u[c.below(k)]; if all.len() < 1 << gnv { all.push(x); } }
            2 if !all.is_empty() => { let i = c.below(all.len()); all[i] = u[c.below(k)]; }
            _ => { all = f0.chosen(); }
        }
    }
    let g = B::place(c, gnv, &all, &u);
    let want = addc(&f0.count(), &f1.count()) == g.count();
    let mut ins = Ins::default();
    let (a, b, d) = (ins.bag("f0", &f0), ins.bag("f1", &f1), ins.bag("g", &g));
    Case {
        gadget: "bagsum", ins, want, out: None,
        prove: Box::new(move |pt, t| { BagSumIOP::<E, Pcs>::prove(pt, &a.pb(t), &b.pb(t), &d.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { BagSumIOP::<E, Pcs>::verify(vt, &a.vb(t), &b.vb(t), &d.vb(t))?; Ok(vec![]) }),
    }
}
fn selvalid(c: &mut Ctx, honest: bool) -> Case {
    let nv = 1 + c.below(3);
    let mut s = sel(c, 1 << nv, 50);
    if !honest { let i = c.below(1 << nv); s[i] = match c.below(4) { 0 => Fr::from(2u64), 1 => -Fr::one(), 2 => Fr::from(2 + c.below(6) as u64), _ => c.fs() }; }
    let want = s.iter().all(|x| x.is_zero() || x.is_one());
    let mut ins = Ins::default();
    let p = ins.poly("sel", nv, &s);
    // a compiled proof opens at least two polynomials (P16)
    let other = c.fvec(1 << nv);
    ins.poly("other", nv, &other);
    Case {
        gadget: "selvalid", ins, want, out: None,
        prove: Box::new(move |pt, t| { SelectorValidIOP::<E, Pcs>::prove(pt, &t[p])?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { SelectorValidIOP::<E, Pcs>::verify(vt, &t[p])?; Ok(vec![]) }),
    }
}
fn nozeros(c: &mut Ctx, honest: bool) -> Case {
    let nv = 1 + c.below(3);
    let n = 1usize << nv;
    let mut b = B { nv, v: c.fvec(n), s: sel(c, n, 60) };
    for i in 0..n { if !b.s[i].is_zero() && b.v[i].is_zero() { b.v[i] = Fr::one(); } }
    let i = c.below(n);
    b.v[i] = Fr::zero();
    b.s[i] = if honest { Fr::zero() } else if c.below(2) == 0 { c.f() } else { Fr::one() };
    let want = (0..n).all(|i| b.s[i].is_zero() || !b.v[i].is_zero());
    let mut ins = Ins::default();
    let a = ins.bag("bag", &b);
    Case {
        gadget: "nozeros", ins, want, out: None,
        prove: Box::new(move |pt, t| { BagNoZerosIOP::<E, Pcs>::prove(pt, &a.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { BagNoZerosIOP::<E, Pcs>::verify(vt, &a.vb(t))?; Ok(vec![]) }),
    }
}
// P20
fn inclusion(c: &mut Ctx, honest: bool) -> Case {
    let (na, nb) = (1 + c.below(3), 1 + c.below(3));
    let k = 2 + c.below(3);
    let mut u = universe(c, k);
    let sup = { let mut b = B::rand(c, nb, &u); if b.set().is_empty() { b.s[0] = Fr::one(); } b };
    let inside: Vec<Fr> = sup.set().into_iter().collect();
    let m = c.below((1 << na) + 1);
    let mut vals: Vec<Fr> = (0..m).map(|_| inside[c.below(inside.len())]).collect();
    u.push(c.f());
    if !honest && !vals.is_empty() { let i = c.below(vals.len()); vals[i] = u[c.below(u.len())]; }
    let b = B::place(c, na, &vals, &u);
    let want = b.set().is_subset(&sup.set());
    let mut ins = Ins::default();
    let (a, s) = (ins.bag("included", &b), ins.bag("super", &sup));
    Case {
        gadget: "inclusion", ins, want, out: None,
        prove: Box::new(move |pt, t| { BagInclusionIOP::<E, Pcs>::prove(pt, &a.pb(t), &s.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { BagInclusionIOP::<E, Pcs>::verify(vt, &a.vb(t), &s.vb(t))?; Ok(vec![]) }),
    }
}
fn inclusion_adv(c: &mut Ctx, honest: bool) -> Case {
    let (na, nb) = (1 + c.below(3), 1 + c.below(3));
    let u = universe(c, 3);
    let sup = { let mut b = B::rand(c, nb, &u); if b.set().is_empty() { b.s[0] = Fr::one(); } b };
    let inside: Vec<Fr> = sup.set().into_iter().collect();
    let k = c.below((1 << na) + 1);
    let vals: Vec<Fr> = (0..k).map(|_| inside[c.below(inside.len())]).collect();
    let b = B::place(c, na, &vals, &u);
    let mut m = count_m(&b, &sup);
    if !honest { let i = c.below(m.len()); m[i] = if c.below(2) == 0 { m[i] + Fr::one() } else { c.f() }; }
    let want = incl_rel(&b, &sup, &m);
    let mut ins = Ins::default();
    let (a, s) = (ins.bag("included", &b), ins.bag("super", &sup));
    let m = ins.poly("m", nb, &m);
    Case {
        gadget: "inclusion-advice", ins, want, out: None,
        prove: Box::new(move |pt, t| { BagInclusionIOP::<E, Pcs>::prove_with_advice(pt, &a.pb(t), &s.pb(t), &t[m])?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { BagInclusionIOP::<E, Pcs>::verify_with_advice(vt, &a.vb(t), &s.vb(t), &t[m])?; Ok(vec![]) }),
    }
}
const RN: usize = 4;
const RM: u64 = 1 << RN;
fn small_bag(c: &mut Ctx, nv: usize) -> B {
    let k = 1 + c.below(5);
    let u: Vec<Fr> = (0..k).map(|_| small(c, RM)).collect();
    B::rand(c, nv, &u)
}
fn supp(c: &mut Ctx, honest: bool) -> Case {
    let nv = 1 + c.below(3);
    let b = small_bag(c, nv);
    let adv = c.below(2) == 0;
    let mut vals: Vec<Fr> = b.set().into_iter().collect();
    let snv = (0..).find(|k| 1usize << k >= vals.len()).unwrap().max(1) + c.below(2);
    if !honest {
        match c.below(4) {
            0 if !vals.is_empty() => { let i = c.below(vals.len()); vals.remove(i); }
            1 if vals.len() < 1 << snv => { vals.push(small(c, RM)); vals.sort(); }
            2 if vals.len() > 1 => { let i = c.below(vals.len() - 1); vals.swap(i, i + 1); }
            _ if !vals.is_empty() => { let i = c.below(vals.len()); vals[i] = small(c, RM); vals.sort(); }
            _ => {}
        }
    }
    let s = B::tail(snv, &vals);
    let mut m = count_m(&b, &s);
    let mut want = strict(&s) && s.set() == b.set();
    if adv {
        // advice that may be wrong, or right but split over equal values
        if !honest {
            match c.below(3) {
                0 => { let i = c.below(m.len()); m[i] += Fr::one(); }
                1 => { let i = c.below(m.len()); m[i] = -m[i]; }
                _ => {
                    // split the count of a repeated value over its rows
                    for i in 1..m.len() { if s.v[i] == s.v[i - 1] && !s.s[i - 1].is_zero() && m[i].is_zero() { m[i] = -Fr::one(); m[i - 1] += Fr::one(); } }
                }
            }
        }
        want = strict(&s) && incl_rel(&b, &s, &m) && (0..m.len()).all(|i| s.s[i].is_zero() || !m[i].is_zero());
    }
    let mut ins = Ins::default();
    let (a, s, r) = (ins.bag("bag", &b), ins.bag("supp", &s), ins.range(RN));
    if adv {
        let m = ins.poly("m", snv, &m);
        Case {
            gadget: "supp-advice", ins, want, out: None,
            prove: Box::new(move |pt, t| { BagSuppIOP::<E, Pcs>::prove_with_advice(pt, &a.pb(t), &s.pb(t), &t[m], &r.pb(t))?; Ok(vec![]) }),
            verify: Box::new(move |vt, t| { BagSuppIOP::<E, Pcs>::verify_with_advice(vt, &a.vb(t), &s.vb(t), &t[m], &r.vb(t))?; Ok(vec![]) }),
        }
    } else {
        Case {
            gadget: "supp", ins, want, out: None,
            prove: Box::new(move |pt, t| { BagSuppIOP::<E, Pcs>::prove(pt, &a.pb(t), &s.pb(t), &r.pb(t))?; Ok(vec![]) }),
            verify: Box::new(move |vt, t| { BagSuppIOP::<E, Pcs>::verify(vt, &a.vb(t), &s.vb(t), &r.vb(t))?; Ok(vec![]) }),
        }
    }
}
fn two_disjoint(c: &mut Ctx, na: usize, nb: usize, overlap: bool, dups: bool) -> (B, B) {
    let mut pool: Vec<Fr> = (0..RM).map(fr).collect();
    shuffle(c, &mut pool);
    let (l, r) = pool.split_at(6);
    let ka = c.below((1 << na) + 1);
    let kb = c.below((1 << nb) + 1);
    let pick = |c: &mut Ctx, p: &[Fr], k: usize| -> Vec<Fr> {
        if dups { (0..k).map(|_| p[c.below(p.len())]).collect() } else { p[..k.min(p.len())].to_vec() }
    };
    let va = pick(c, l, ka);
    let mut vb = pick(c, r, kb);
    if overlap && !va.is_empty() && !vb.is_empty() { let i = c.below(vb.len()); vb[i] = va[c.below(va.len())]; }
    (B::place(c, na, &va, &pool), B::place(c, nb, &vb, &pool))
}
fn disjoint(c: &mut Ctx, honest: bool) -> Case {
    let (na, nb) = (1 + c.below(3), 1 + c.below(3));
    let (a, b) = two_disjoint(c, na, nb, !honest, true);
    let dis = a.set().is_disjoint(&b.set());
    let mut ins = Ins::default();
    let (ia, ib, r) = (ins.bag("a", &a), ins.bag("b", &b), ins.range(RN));
    if c.below(2) == 0 {
        return Case {
            gadget: "disjoint", ins, want: dis, out: None,
            prove: Box::new(move |pt, t| { BagDisjointIOP::<E, Pcs>::prove(pt, &ia.pb(t), &ib.pb(t), &r.pb(t))?; Ok(vec![]) }),
            verify: Box::new(move |vt, t| { BagDisjointIOP::<E, Pcs>::verify(vt, &ia.vb(t), &ib.vb(t), &r.vb(t))?; Ok(vec![]) }),
        };
    }
    let cnv = na.max(nb) + 1;
    let mut un: Vec<Fr> = a.set().union(&b.set()).copied().collect();
    let split = !honest && !dis && c.below(2) == 0;
    if split {
        // list each common value twice, one row for each side
        let common: Vec<Fr> = a.set().intersection(&b.set()).copied().collect();
        un.extend(common);
        un.sort();
    } else if !honest && dis && !un.is_empty() && c.below(2) == 0 {
        let i = c.below(un.len());
        un.remove(i);
    }
    un.truncate(1 << cnv);
    let cc = B::tail(cnv, &un);
    let (mut ma, mut mb) = (count_m(&a, &cc), count_m(&b, &cc));
    if split {
        for i in 1..cc.v.len() {
            if cc.v[i] == cc.v[i - 1] && !cc.s[i - 1].is_zero() { mb[i] = mb[i - 1]; mb[i - 1] = Fr::zero(); ma[i] = Fr::zero(); }
        }
    } else if !honest && c.below(2) == 0 {
        let i = c.below(ma.len());
        if c.below(2) == 0 { ma[i] += Fr::one(); } else { mb[i] = c.f(); }
    }
    let want = strict(&cc) && incl_rel(&a, &cc, &ma) && incl_rel(&b, &cc, &mb) && (0..ma.len()).all(|i| (ma[i] * mb[i]).is_zero());
    assert!(!want || dis);
    let ic = ins.bag("c", &cc);
    let (ma, mb) = (ins.poly("ma", cnv, &ma), ins.poly("mb", cnv, &mb));
    Case {
        gadget: "disjoint-advice", ins, want, out: None,
        prove: Box::new(move |pt, t| { BagDisjointIOP::<E, Pcs>::prove_with_advice(pt, &ia.pb(t), &ib.pb(t), &ic.pb(t), &t[ma], &t[mb], &r.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { BagDisjointIOP::<E, Pcs>::verify_with_advice(vt, &ia.vb(t), &ib.vb(t), &ic.vb(t), &t[ma], &t[mb], &r.vb(t))?; Ok(vec![]) }),
    }
}
fn setdisjoint(c: &mut Ctx, honest: bool) -> Case {
    let (na, nb) = (1 + c.below(3), 1 + c.below(3));
    let (a, b) = two_disjoint(c, na, nb, !honest, false);
    let want = a.set().is_disjoint(&b.set()) && a.set().len() == a.chosen().len() && b.set().len() == b.chosen().len();
    let mut ins = Ins::default();
    let (ia, ib, r) = (ins.bag("a", &a), ins.bag("b", &b), ins.range(RN));
    Case {
        gadget: "setdisjoint", ins, want, out: None,
        prove: Box::new(move |pt, t| { SetDisjointIOP::<E, Pcs>::prove(pt, &ia.pb(t), &ib.pb(t), &r.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { SetDisjointIOP::<E, Pcs>::verify(vt, &ia.vb(t), &ib.vb(t), &r.vb(t))?; Ok(vec![]) }),
    }
}
// P21
fn sort(c: &mut Ctx, honest: bool) -> Case {
    let nv = 1 + c.below(4);
    let n = 1usize << nv;
    let k = c.below(n.min(12) + 1);
    let mut v = distinct_small(c, k, RM);
    if !honest && k > 1 {
        let i = c.below(k - 1);
        match c.below(4) {
            0 => v[i + 1] = v[i],
            1 => v.swap(i, i + 1),
            2 => { let j = c.below(k); v[j] = small(c, RM); }
            _ => { let l = v[k - 1]; v[k - 1] = v[0]; v[0] = l; }
        }
    }
    let b = B::tail(nv, &v);
    let want = strict(&b);
    let mut ins = Ins::default();
    let (a, r) = (ins.bag("sorted", &b), ins.range(RN));
    Case {
        gadget: "sort", ins, want, out: None,
        prove: Box::new(move |pt, t| { BagStrictSortIOP::<E, Pcs>::prove(pt, &a.pb(t), &r.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { BagStrictSortIOP::<E, Pcs>::verify(vt, &a.vb(t), &r.vb(t))?; Ok(vec![]) }),
    }
}
// P22
fn sets(c: &mut Ctx) -> (B, B) {
    let (na, nb) = (1 + c.below(3), 1 + c.below(3));
    let ka = c.below((1 << na) + 1);
    let kb = c.below((1 << nb) + 1);
    let m = 9.max(ka.max(kb) as u64);
    let va = distinct_small(c, ka, m);
    let vb = distinct_small(c, kb, m);
    let junk: Vec<Fr> = (0..RM).map(fr).collect();
    (B::place(c, na, &va, &junk), B::place(c, nb, &vb, &junk))
}
fn union(c: &mut Ctx, honest: bool) -> Case {
    let (a, b) = sets(c);
    let mut u: Vec<Fr> = a.set().union(&b.set()).copied().collect();
    let un = a.nv.max(b.nv) + 1;
    if !honest {
        match c.below(4) {
            0 if !u.is_empty() => { let i = c.below(u.len()); u.remove(i); }
            1 if u.len() < 1 << un => { u.push(small(c, RM)); u.sort(); }
            2 if u.len() > 1 => { let i = c.below(u.len() - 1); u[i] = u[i + 1]; }
            _ if !u.is_empty() => { let i = c.below(u.len()); u[i] = small(c, RM); u.sort(); }
            _ => {}
        }
    }
    let ub = B::tail(un, &u);
    let want = strict(&ub) && ub.set() == a.set().union(&b.set()).copied().collect();
    let mut ins = Ins::default();
    let (ia, ib, iu, r) = (ins.bag("a", &a), ins.bag("b", &b), ins.bag("union", &ub), ins.range(RN));
    Case {
        gadget: "union", ins, want, out: None,
        prove: Box::new(move |pt, t| { SetUnionIOP::<E, Pcs>::prove(pt, &ia.pb(t), &ib.pb(t), &iu.pb(t), &r.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { SetUnionIOP::<E, Pcs>::verify(vt, &ia.vb(t), &ib.vb(t), &iu.vb(t), &r.vb(t))?; Ok(vec![]) }),
    }
}
/// Random damage to the parts of a split.
fn damage(c: &mut Ctx, l: &mut Vec<Fr>, m: &mut Vec<Fr>, cap: usize) {
    match c.below(6) {
        0 if !m.is_empty() && l.len() < cap => { let x = m.remove(0); l.push(x); }
        1 if !l.is_empty() && m.len() < cap => { let x = l.remove(0); m.push(x); }
        2 if !l.is_empty() => { l.pop(); }
        3 if !m.is_empty() => { m.pop(); }
        4 if l.len() < cap => { let x = small(c, RM); l.push(x); }
        _ if !m.is_empty() => { let i = c.below(m.len()); m[i] = small(c, RM); }
        _ => {}
    }
}
fn diff(c: &mut Ctx, honest: bool) -> Case {
    let (a, b) = sets(c);
    let mut l: Vec<Fr> = a.set().difference(&b.set()).copied().collect();
    let mut m: Vec<Fr> = a.set().intersection(&b.set()).copied().collect();
    let mode = c.below(3);
    if !honest && mode > 0 { damage(c, &mut l, &mut m, 1 << a.nv); }
    let junk: Vec<Fr> = (0..RM).map(fr).collect();
    let (lb, mb) = (B::place(c, a.nv, &l, &junk), B::place(c, a.nv, &m, &junk));
    let mut mu = count_m(&mb, &b);
    if !honest && mode == 0 { let i = c.below(mu.len()); mu[i] += Fr::one(); }
    let uniq = |x: &B| x.set().len() == x.chosen().len();
    let want = uniq(&lb) && lb.set().is_disjoint(&b.set()) && addc(&lb.count(), &mb.count()) == a.count() && incl_rel(&mb, &b, &mu);
    let mut ins = Ins::default();
    let (ia, ib, il, im) = (ins.bag("a", &a), ins.bag("b", &b), ins.bag("l", &lb), ins.bag("m", &mb));
    let (mu, r) = (ins.poly("mult", b.nv, &mu), ins.range(RN));
    Case {
        gadget: "diff", ins, want, out: None,
        prove: Box::new(move |pt, t| { SetDiffIOP::<E, Pcs>::prove(pt, &ia.pb(t), &ib.pb(t), &il.pb(t), &im.pb(t), &t[mu], &r.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { SetDiffIOP::<E, Pcs>::verify(vt, &ia.vb(t), &ib.vb(t), &il.vb(t), &im.vb(t), &t[mu], &r.vb(t))?; Ok(vec![]) }),
    }
}
fn intersect(c: &mut Ctx, honest: bool) -> Case {
    let (a, b) = sets(c);
    let mut l: Vec<Fr> = a.set().difference(&b.set()).copied().collect();
    let mut m: Vec<Fr> = a.set().intersection(&b.set()).copied().collect();
    let mut r: Vec<Fr> = b.set().difference(&a.set()).copied().collect();
    let mnv = a.nv.min(b.nv);
    if !honest {
        match c.below(4) {
            0 if !m.is_empty() => { let x = m.pop().unwrap(); if l.len() < 1 << a.nv { l.push(x); } if r.len() < 1 << b.nv { r.push(x); } }
            1 => damage(c, &mut l, &mut m, 1 << mnv),
            2 => damage(c, &mut r, &mut m, 1 << mnv),
            _ if !r.is_empty() => { let i = c.below(r.len()); r[i] = small(c, RM); }
            _ => {}
        }
    }
    let junk: Vec<Fr> = (0..RM).map(fr).collect();
    let (lb, mb, rb) = (B::place(c, a.nv, &l, &junk), B::place(c, mnv, &m, &junk), B::place(c, b.nv, &r, &junk));
    let uniq = |x: &B| x.set().len() == x.chosen().len();
    let want = uniq(&lb) && uniq(&rb) && lb.set().is_disjoint(&rb.set()) && addc(&lb.count(), &mb.count()) == a.count() && addc(&mb.count(), &rb.count()) == b.count();
    let mut ins = Ins::default();
    let (ia, ib, il, im, ir) = (ins.bag("a", &a), ins.bag("b", &b), ins.bag("l", &lb), ins.bag("m", &mb), ins.bag("r", &rb));
    let rg = ins.range(RN);
    Case {
        gadget: "intersect", ins, want, out: None,
        prove: Box::new(move |pt, t| { SetIntersectIOP::<E, Pcs>::prove(pt, &ia.pb(t), &ib.pb(t), &il.pb(t), &im.pb(t), &ir.pb(t), &rg.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { SetIntersectIOP::<E, Pcs>::verify(vt, &ia.vb(t), &ib.vb(t), &il.vb(t), &im.vb(t), &ir.vb(t), &rg.vb(t))?; Ok(vec![]) }),
    }
}
// P23
fn joinred(c: &mut Ctx, honest: bool) -> Case {
    let (na, nb) = (1 + c.below(2), 1 + c.below(3));
    let u = distinct_small(c, 5, RM);
    let (a, b) = (B::rand(c, na, &u), B::rand(c, nb, &u));
    let lr = |x: &B, y: &B| -> Vec<Fr> { let s = y.set(); x.v.iter().map(|v| if s.contains(v) { Fr::zero() } else { Fr::one() }).collect() };
    let (mut ls, mut rs) = (lr(&a, &b), lr(&b, &a));
    if !honest {
        let (i, j) = (c.below(ls.len()), c.below(rs.len()));
        match c.below(4) {
            0 => ls[i] = Fr::one() - ls[i],
            1 => rs[j] = Fr::one() - rs[j],
            2 => { ls[i] = Fr::one() - ls[i]; rs[j] = Fr::one() - rs[j]; }
            _ => if c.below(2) == 0 { ls[i] = fr(2) } else { rs[j] = -Fr::one() },
        }
    }
    let part = |x: &B, s: &[Fr], inv: bool| -> BTreeSet<Fr> { (0..x.v.len()).filter(|i| !x.s[*i].is_zero() && (s[*i].is_one() != inv)).map(|i| x.v[i]).collect() };
    let (l, ma, r, mb) = (part(&a, &ls, false), part(&a, &ls, true), part(&b, &rs, false), part(&b, &rs, true));
    let bin = |s: &[Fr]| s.iter().all(|x| x.is_zero() || x.is_one());
    let want = bin(&ls) && bin(&rs) && l.is_disjoint(&r) && l.is_disjoint(&ma) && r.is_disjoint(&mb) && ma == mb;
    let mut ins = Ins::default();
    let (ia, ib) = (ins.bag("a", &a), ins.bag("b", &b));
    let (il, ir, rg) = (ins.poly("l_sel", na, &ls), ins.poly("r_sel", nb, &rs), ins.range(RN));
    Case {
        gadget: "joinreduction", ins, want, out: None,
        prove: Box::new(move |pt, t| { JoinReductionIOP::<E, Pcs>::prove(pt, &ia.pb(t), &ib.pb(t), &t[il], &t[ir], &rg.pb(t))?; Ok(vec![]) }),
        verify: Box::new(move |vt, t| { JoinReductionIOP::<E, Pcs>::verify(vt, &ia.vb(t), &ib.vb(t), &t[il], &t[ir], &rg.vb(t))?; Ok(vec![]) }),
    }
}
fn cross(c: &mut Ctx, _honest: bool) -> Case {
    let (na, nb) = (1 + c.below(2), 1 + c.below(2));
    let (ka, kb) = (1 + c.below(2), 1 + c.below(2));
    let ca: Vec<Vec<Fr>> = (0..ka).map(|_| c.fvec(1 << na)).collect();
    let cb: Vec<Vec<Fr>> = (0..kb).map(|_| c.fvec(1 << nb)).collect();
    let (sa, sb) = (sel(c, 1 << na, 60), sel(c, 1 << nb, 60));
    // row k of the result pairs left row k / |B| with right row k mod |B|
    let n = 1usize << (na + nb);
    let l = |t: &[Fr]| -> Vec<Fr> { (0..n).map(|k| t[k >> nb]).collect() };
    let r = |t: &[Fr]| -> Vec<Fr> { (0..n).map(|k| t[k & ((1 << nb) - 1)]).collect() };
    let mut out: Vec<Vec<Fr>> = ca.iter().map(|t| l(t)).collect();
    out.extend(cb.iter().map(|t| r(t)));
    out.push(l(&sa).iter().zip(r(&sb)).map(|(x, y)| *x * y).collect());
    let mut ins = Ins::default();
    let (ta, tb) = (ins.table("a", na, &ca, &sa), ins.table("b", nb, &cb, &sb));
    Case {
        gadget: "cross", ins, want: true, out: Some(out),
        prove: pf!([ta, tb] move |_pt: &mut PT, t: &[TP]| {
            let r = CrossProductIOP::<E, Pcs>::prover_cross_product(&ta.pb(t), &tb.pb(t))?;
            Ok([r.col_vals.clone(), vec![r.selector.clone()]].concat())
        }),
        verify: pf!([ta, tb] move |_vt: &mut VT, t: &[TC]| {
            let r = CrossProductIOP::<E, Pcs>::verifier_cross_product(&ta.vb(t), &tb.vb(t))?;
            if r.num_vars() != ta.nv + tb.nv { return Err(PolyIOPErrors::InvalidVerifier("result size".into())); }
            Ok([r.col_vals.clone(), vec![r.selector.clone()]].concat())
        }),
    }
}
fn finaljoin(c: &mut Ctx, honest: bool) -> Case {
    let (na, nb) = (1 + c.below(2), 1 + c.below(3));
    let (la, lb) = (1usize << na, 1usize << nb);
    let (ka, kb) = (1 + c.below(3), 1 + c.below(2));
    let (ja, jb) = (c.below(ka), c.below(kb));
    let keys = universe(c, la + 2);
    let mut ca: Vec<Vec<Fr>> = (0..ka).map(|_| c.fvec(la)).collect();
    ca[ja] = keys[..la].to_vec();
    let mut sa = sel(c, la, 70);
    sa[c.below(la)] = Fr::one();
    let on: Vec<usize> = (0..la).filter(|i| sa[*i].is_one()).collect();
    // keys are distinct among the active rows only: inactive rows may repeat any of them
    for i in 0..la { if sa[i].is_zero() && c.below(2) == 0 { ca[ja][i] = keys[c.below(la)]; } }
    let mut cb: Vec<Vec<Fr>> = (0..kb).map(|_| c.fvec(lb)).collect();
    let sb = sel(c, lb, 70);
    let mut rows: Vec<usize> = (0..lb).map(|_| on[c.below(on.len())]).collect();
    for i in 0..lb { cb[jb][i] = if sb[i].is_one() { ca[ja][rows[i]] } else { keys[c.below(keys.len())] }; }
    let adv = c.below(2) == 0;
    if !honest && !adv {
        // a selected right row with no active match
        let i = c.below(lb);
        cb[jb][i] = keys[la + c.below(2)];
    }
    let mut tr: Vec<Vec<Fr>> = (0..ka).map(|k| (0..lb).map(|i| if sb[i].is_one() { ca[k][rows[i]] } else { Fr::zero() }).collect()).collect();
    if !honest && adv {
        let i = c.below(lb);
        match c.below(4) {
            0 => { rows[i] = c.below(la); for k in 0..ka { tr[k][i] = ca[k][rows[i]]; } }
            1 => { let k = c.below(ka); tr[k][i] += Fr::one(); }
            2 => { let k = c.below(ka); tr[k][i] = ca[k][c.below(la)]; }
            _ => { let (x, y) = (c.below(ka), c.below(ka)); let t = tr[x][i]; tr[x][i] = tr[y][i]; tr[y][i] = t; }
        }
    }
    let row_ok = |i: usize| on.iter().any(|r| (0..ka).all(|k| ca[k][*r] == tr[k][i])) && tr[ja][i] == cb[jb][i];
    let want = if adv { (0..lb).all(|i| sb[i].is_zero() || row_ok(i)) } else { (0..lb).all(|i| sb[i].is_zero() || on.iter().any(|r| ca[ja][*r] == cb[jb][i])) };
    let mut out = tr.clone();
    out.extend(cb.clone());
    out.push(sb.clone());
    let mut ins = Ins::default();
    let (ta, tb) = (ins.table("a", na, &ca, &sa), ins.table("b", nb, &cb, &sb));
    ins.d += &format!("join a[{}]=b[{}] ", ja, jb);
    let ti: Vec<usize> = if adv { (0..ka).map(|k| ins.poly(&format!("row[{}]", k), nb, &tr[k])).collect() } else { vec![] };
    Case {
        gadget: if adv { "finaljoin-advice" } else { "finaljoin" }, ins, want, out: if want { Some(out) } else { None },
        prove: pf!([ta, tb, ti] move |pt: &mut PT, t: &[TP]| {
            let (a, b) = (ta.pb(t), tb.pb(t));
            let r = if adv {
                FinalJoinOneToManyIOP::<E, Pcs>::prove_with_advice(pt, &a, &b, ja, jb, &ti.iter().map(|i| t[*i].clone()).collect())?
            } else {
                FinalJoinOneToManyIOP::<E, Pcs>::prove(pt, &a, &b, ja, jb)?
            };
            Ok([r.col_vals.clone(), vec![r.selector.clone()]].concat())
        }),
        verify: pf!([ta, tb, ti] move |vt: &mut VT, t: &[TC]| {
            let (a, b) = (ta.vb(t), tb.vb(t));
            let r = if adv {
                FinalJoinOneToManyIOP::<E, Pcs>::verify_with_advice(vt, &a, &b, ja, jb, &ti.iter().map(|i| t[*i].clone()).collect())?
            } else {
                FinalJoinOneToManyIOP::<E, Pcs>::verify(vt, &a, &b, ja, jb)?
            };
            Ok([r.col_vals.clone(), vec![r.selector.clone()]].concat())
        }),
    }
}
// P24
fn indextr(c: &mut Ctx, honest: bool) -> Case {
    let (na, nb) = (1 + c.below(3), 1 + c.below(3));
    let (la, lb) = (1usize << na, 1usize << nb);
    let k = 1 + c.below(3);
    let u = universe(c, 3);
    let ca: Vec<Vec<Fr>> = (0..k).map(|_| (0..la).map(|_| u[c.below(3)]).collect()).collect();
    let mut sa = sel(c, la, 60);
    sa[c.below(la)] = Fr::one();
    let on: Vec<usize> = (0..la).filter(|i| sa[*i].is_one()).collect();
    let sb = sel(c, lb, 70);
    let mut cb: Vec<Vec<Fr>> = vec![vec![Fr::zero(); lb]; k];
    for i in 0..lb {
        let r = if sb[i].is_one() { on[c.below(on.len())] } else { c.below(la) };
        for q in 0..k { cb[q][i] = ca[q][r]; }
    }
    if !honest {
        let i = c.below(lb);
        match c.below(4) {
            0 => { let q = c.below(k); cb[q][i] = u[c.below(3)]; }
            1 => { let r = c.below(la); for q in 0..k { cb[q][i] = ca[q][r]; } }
            2 => { let (x, y) = (c.below(k), c.below(k)); let t = cb[x][i]; cb[x][i] = cb[y][i]; cb[y][i] = t; }
            _ => { // keep the plain sum of the row
                let (x, y) = (c.below(k), c.below(k)); let d = c.f(); cb[x][i] += d; cb[y][i] -= d; }
        }
    }
    let want = (0..lb).all(|i| sb[i].is_zero() || on.iter().any(|r| (0..k).all(|q| ca[q][*r] == cb[q][i])));
    let mut ins = Ins::default();
    let (ta, tb) = (ins.table("in", na, &ca, &sa), ins.table("out", nb, &cb, &sb));
    Case {
        gadget: "indextransform", ins, want, out: None,
        prove: pf!([ta, tb] move |pt: &mut PT, t: &[TP]| { IndexTransformIOP::<E, Pcs>::prove(pt, &ta.pb(t), &tb.pb(t))?; Ok(vec![]) }),
        verify: pf!([ta, tb] move |vt: &mut VT, t: &[TC]| { IndexTransformIOP::<E, Pcs>::verify(vt, &ta.vb(t), &tb.vb(t))?; Ok(vec![]) }),
    }
}
fn groupby(c: &mut Ctx, honest: bool) -> Case {
    let nv = 1 + c.below(3);
    let n = 1usize << nv;
    let b = small_bag(c, nv);
    let k = 1 + c.below(2); // value columns
    let vals: Vec<Vec<Fr>> = (0..k).map(|_| c.fvec(n)).collect();
    let gpos = c.below(k + 1); // where the grouping column sits
    let mut cols = vals.clone();
    cols.insert(gpos, b.v.clone());
    let keys: Vec<Fr> = b.set().into_iter().collect();
    let mut kv = keys.clone();
    let mut s = B::tail(nv, &kv);
    let mut m = count_m(&b, &s);
    let na = 1 + c.below(3);
    // aggregations over any column
    let ag: Vec<(usize, bool)> = (0..na).map(|_| (c.below(k + 1), c.below(3) > 0)).collect();
    let sums = |col: &[Fr], s: &B| -> Vec<Fr> {
        (0..n).map(|i| if s.s[i].is_zero() { Fr::zero() } else { (0..n).filter(|j| !b.s[*j].is_zero() && b.v[*j] == s.v[i]).map(|j| col[j]).sum() }).collect()
    };
    let mut aggs: Vec<Vec<Fr>> = ag.iter().map(|(q, sum)| if *sum { sums(&cols[*q], &s) } else { m.clone() }).collect();
    if !honest {
        match c.below(5) {
            0 => { let (q, i) = (c.below(na), c.below(n)); aggs[q][i] += Fr::one(); }
            1 => { let i = c.below(n); m[i] += Fr::one(); }
            2 if !kv.is_empty() => { let i = c.below(kv.len()); kv.remove(i); s = B::tail(nv, &kv); }
            3 if kv.len() < n => { kv.push(small(c, RM)); kv.sort(); s = B::tail(nv, &kv); }
            4 => { let (q, i, j) = (c.below(na), c.below(n), c.below(n)); let t = aggs[q][i]; aggs[q][i] = aggs[q][j]; aggs[q][j] = t; }
            _ => { let i = c.below(n); s.s[i] = Fr::one() - s.s[i]; }
        }
        if c.below(2) == 0 { m = count_m(&b, &s); }
    }
    // the relation, over selected rows
    let selw = |x: &B, w: &[Fr]| weights(&[x.clone()], &[w.to_vec()]);
    let mut want = strict(&s) && s.v.windows(2).all(|w| w[0] <= w[1]) && incl_rel(&b, &s, &m) && (0..n).all(|i| s.s[i].is_zero() || !m[i].is_zero());
    for (q, (col, sum)) in ag.iter().enumerate() {
        if *sum { want &= selw(&b, &cols[*col]) == selw(&s, &aggs[q]); }
    }
    let mut out = vec![s.v.clone()];
    for (q, (_, sum)) in ag.iter().enumerate() { out.push(if *sum { aggs[q].clone() } else { m.clone() }); }
    out.push(s.s.clone());
    let mut ins = Ins::default();
    let t = ins.table("t", nv, &cols, &b.s);
    let si = ins.bag("groups", &s);
    let mi = ins.poly("mult", nv, &m);
    let ai: Vec<(usize, bool, usize)> = ag.iter().enumerate().map(|(q, (col, sum))| (*col, *sum, ins.poly(&format!("{}{}", if *sum { "sum" } else { "count" }, col), nv, &aggs[q]))).collect();
    let r = ins.range(RN);
    ins.d += &format!("group by column {} ", gpos);
    let ty = |s: bool| if s { AggregationType::Sum } else { AggregationType::Count };
    Case {
        gadget: "groupby", ins, want, out: if want { Some(out) } else { None },
        prove: { let (tt, ai) = (t.clone(), ai.clone()); Box::new(move |pt, t| {
            let i = GroupByInstructionWithProvingAdvice { grouping_cols: vec![gpos], support_cols: vec![t[si.p].clone()], support_sel: t[si.s].clone(), support_multiplicity: t[mi].clone(), agg_instr: ai.iter().map(|(q, s, p)| (*q, ty(*s), t[*p].clone())).collect() };
            let r = GroupByIOP::<E, Pcs>::prove_with_advice(pt, &tt.pb(t), &i, &r.pb(t))?;
            Ok([r.col_vals.clone(), vec![r.selector.clone()]].concat())
        }) },
        verify: { let (tt, ai) = (t.clone(), ai.clone()); Box::new(move |vt, t| {
            let i = GroupByInstructionWithVerifyingAdvice { grouping_cols: vec![gpos], support_cols: vec![t[si.p].clone()], support_sel: t[si.s].clone(), support_multiplicity: t[mi].clone(), agg_instr: ai.iter().map(|(q, s, p)| (*q, ty(*s), t[*p].clone())).collect() };
            let r = GroupByIOP::<E, Pcs>::verify_with_advice(vt, &tt.vb(t), &i, &r.vb(t))?;
            Ok([r.col_vals.clone(), vec![r.selector.clone()]].concat())
        }) },
    }
}

type Gen = fn(&mut Ctx, bool) -> Case;
fn drive(c: &mut Ctx, pid: &str, gens: &[(Gen, usize)]) {
    for (g, q) in gens {
        for it in 0..c.n(*q) {
            let honest = it % 3 == 0;
            let case = g(c, honest);
            decide(c, pid, &case, it % 6 == 0);
        }
    }
}

pub fn p18(c: &mut Ctx) {
    drive(c, "P18", &[(multitool, 10), (bageq, 8), (prescperm, 8)]);
    // wrong shapes are refused by both sides
    let mut ins = Ins::default();
    let (b, d) = (B::rand(c, 2, &[Fr::one()]), B::rand(c, 2, &[Fr::one()]));
    let (x, y) = (ins.bag("f", &b), ins.bag("g", &d));
    let m = ins.poly("m", 2, &[Fr::one(); 4]);
    for k in 0..4 {
        let sh = move |k: usize| -> (usize, usize, usize, usize) { [(0, 1, 0, 1), (1, 0, 1, 0), (1, 1, 0, 1), (1, 1, 1, 0)][k] };
        let (a, bb, cc, dd) = sh(k);
        let (mut pt, mut vt) = trackers(3);
        let r = quiet(|| {
            let tp: Vec<TP> = ins.ins.iter().map(|(nv, t, _)| pt.track_and_commit_poly(Mle::from_evaluations_vec(*nv, t.clone())).unwrap()).collect();
            let p = BagMultitoolIOP::<E, Pcs>::prove(&mut pt, &vec![x.pb(&tp); a], &vec![y.pb(&tp); bb], &vec![tp[m].clone(); cc], &vec![tp[m].clone(); dd]).is_err();
            let t = pt.clone_underlying_tracker();
            let tc: Vec<TC> = tp.iter().map(|p| vt.track_mat_comm(t.materialized_comms[&p.id]).unwrap()).collect();
            let v = BagMultitoolIOP::<E, Pcs>::verify(&mut vt, &vec![x.vb(&tc); a], &vec![y.vb(&tc); bb], &vec![tc[m].clone(); cc], &vec![tc[m].clone(); dd]).is_err();
            (p, v)
        });
        c.check(r == Ok((true, true)), "P18/wrong-shape-refused", || format!("counts f,g,mf,mg = {:?}: {:?}", sh(k), r));
    }
}
pub fn p19(c: &mut Ctx) { drive(c, "P19", &[(bagsum, 10), (selvalid, 10), (nozeros, 10)]); }
pub fn p20(c: &mut Ctx) { drive(c, "P20", &[(inclusion, 7), (inclusion_adv, 7), (supp, 10), (disjoint, 10), (setdisjoint, 5)]); }
pub fn p21(c: &mut Ctx) { drive(c, "P21", &[(sort, 20)]); }
pub fn p22(c: &mut Ctx) { drive(c, "P22", &[(union, 8), (diff, 9), (intersect, 9)]); }
pub fn p23(c: &mut Ctx) { drive(c, "P23", &[(joinred, 6), (cross, 8), (finaljoin, 14)]); }

pub fn p24(c: &mut Ctx) {
    drive(c, "P24", &[(indextr, 14), (groupby, 14)]);
    for _ in 0..c.n(4) {
        let k = 1 + c.below(5);
        let nv = 1 + c.below(3);
        let cols: Vec<Vec<Fr>> = (0..k).map(|_| c.fvec(1 << nv)).collect();
        let s = sel(c, 1 << nv, 60);
        let co = c.rvec(k);
        let mut ins = Ins::default();
        let t = ins.table("t", nv, &cols, &s);
        let r = quiet(|| {
            let (mut pt, mut vt) = trackers(4);
            let tp: Vec<TP> = ins.ins.iter().map(|(nv, t, _)| pt.track_and_commit_poly(Mle::from_evaluations_vec(*nv, t.clone())).unwrap()).collect();
            let tr = pt.clone_underlying_tracker();
            let tc: Vec<TC> = tp.iter().map(|p| vt.track_mat_comm(tr.materialized_comms[&p.id]).unwrap()).collect();
            let pb = table_row_prover_agg(&t.pb(&tp), &co).unwrap();
            let vb = table_row_verifier_agg(&t.vb(&tc), &co).unwrap();
            let want: Vec<Fr> = (0..1 << nv).map(|i| (0..k).map(|q| co[q] * cols[q][i]).sum()).collect();
            let x = c.rvec(nv);
            {
                let q = vt.clone_underlying_tracker();
                let mut q = q.query_map.borrow_mut();
                for (i, (_, t, _)) in ins.ins.iter().enumerate() { q.insert((tc[i].id, x.clone()), o_mle(t, &x)); }
            }
            let a = pb.poly.evaluations() == want && pb.selector.evaluations() == s;
            let b = vb.poly.eval_virtual_comm(&x).ok() == Some(o_mle(&want, &x)) && vb.selector.eval_virtual_comm(&x).ok() == Some(o_mle(&s, &x)) && vb.num_vars() == nv;
            let (p1, v1) = (prover_sample_rand_powers(&mut pt, k).unwrap(), verifier_sample_rand_powers(&mut vt, k).unwrap());
            let pw = p1 == v1 && p1.len() == k && p1[0].is_one() && (1..k).all(|i| p1[i] == p1[i - 1] * p1[1.min(k - 1)]) && (k < 2 || (!p1[1].is_one() && !p1[1].is_zero()));
            let (p2, v2) = (prover_sample_rands(&mut pt, k).unwrap(), verifier_sample_rands(&mut vt, k).unwrap());
            let rs = p2 == v2 && p2.len() == k && (1..k).all(|i| p2[i] != p2[i - 1]) && same_challenge(&pt, &vt);
            (a, b, pw, rs)
        });
        c.check(r == Ok((true, true, true, true)), "P24/aggregate", || format!("{} coefficients {}: (prover aggregate, verifier aggregate, powers, samples) = {:?}", ins.d, sv(&co), r));
    }
    // group-by refuses instructions naming missing columns or several keys
    let (mut pt, _) = trackers(4);
    let r = quiet(|| {
        let b = B::tail(2, &[fr(1), fr(2)]);
        let mut ins = Ins::default();
        let t = ins.table("t", 2, &[b.v.clone()], &b.s);
        let m = ins.poly("m", 2, &[Fr::zero(), Fr::zero(), Fr::one(), Fr::one()]);
        let rg = ins.range(2);
        let tp: Vec<TP> = ins.ins.iter().map(|(nv, t, _)| pt.track_and_commit_poly(Mle::from_evaluations_vec(*nv, t.clone())).unwrap()).collect();
        let mk = |g: Vec<usize>, a: usize| GroupByInstructionWithProvingAdvice { grouping_cols: g, support_cols: vec![tp[0].clone()], support_sel: tp[1].clone(), support_multiplicity: tp[m].clone(), agg_instr: vec![(a, AggregationType::Sum, tp[m].clone())] };
        let tb = t.pb(&tp);
        [mk(vec![0, 0], 0), mk(vec![1], 0), mk(vec![0], 1)].iter().map(|i| GroupByIOP::<E, Pcs>::prove_with_advice(&mut pt, &tb, i, &rg.pb(&tp)).is_err()).collect::<Vec<_>>()
    });
    c.check(r == Ok(vec![true; 3]), "P24/bad-instruction-refused", || format!("{:?}", r));
}

/// P25: advice calculators against brute force.
pub fn p25(c: &mut Ctx) {
    let pad = |v: &[Fr], n: usize| -> Vec<Fr> { let mut v = v.to_vec(); v.resize(n, Fr::zero()); v };
    let ones = |k: usize, n: usize| -> Vec<Fr> { (0..n).map(|i| if i < k { Fr::one() } else { Fr::zero() }).collect() };
    for it in 0..c.n(20) {
        let (na, nb) = (1 + c.below(4), 1 + c.below(4));
        let k = 1 + c.below(7);
        let u = if it % 2 == 0 { universe(c, k) } else { (0..k).map(|_| small(c, RM)).collect() };
        let mut a = B::rand(c, na, &u);
        let mut b = B::rand(c, nb, &u);
        match it % 7 {
            0 => a.s = vec![Fr::zero(); 1 << na],
            1 => b.s = vec![Fr::zero(); 1 << nb],
            2 => { a.s = vec![Fr::one(); 1 << na]; b.s = vec![Fr::one(); 1 << nb]; }
            _ => {}
        }
        let (ca, cb) = (a.count(), b.count());
        let (la, lb) = (1usize << na, 1usize << nb);
        let only = |x: &BTreeMap<Fr, u64>, keep: &dyn Fn(&Fr) -> bool| -> Vec<Fr> { x.iter().filter(|(v, _)| keep(v)).flat_map(|(v, n)| vec![*v; *n as usize]).collect() };
        let l = only(&ca, &|v| !cb.contains_key(v));
        let ma = only(&ca, &|v| cb.contains_key(v));
        let mb = only(&cb, &|v| ca.contains_key(v));
        let r = only(&cb, &|v| !ca.contains_key(v));
        let d = format!("a={} a.sel={} b={} b.sel={}", sv(&a.v), sv(&a.s), sv(&b.v), sv(&b.s));
        let mk = |pt: &mut PT, b: &B| Bag::new(pt.track_mat_poly(Mle::from_evaluations_vec(b.nv, b.v.clone())), pt.track_mat_poly(Mle::from_evaluations_vec(b.nv, b.s.clone())));
        let mut res: Vec<(&'static str, Result<bool, String>)> = vec![];
        {
            let (a2, b2) = (&a, &b);
            let hm = |m: HashMap<Fr, u64>| -> BTreeMap<Fr, u64> { m.into_iter().collect() };
            res.push(("P25/count", quiet(|| {
                let (mut pt, _) = trackers(4);
                let bag = mk(&mut pt, a2);
                hm(vec_multiplicity_count::<E>(&a2.v, &a2.s)) == ca
                    && hm(bag_multiplicity_count(&bag)) == ca
                    && hm(mle_multiplicity_count::<E>(&Mle::from_evaluations_vec(na, a2.v.clone()), &Mle::from_evaluations_vec(na, a2.s.clone()))) == ca
            })));
            let want = |b: &Bag<E, Pcs>, v: &[Fr], n: usize| b.poly.evaluations() == pad(v, n) && b.selector.evaluations() == ones(v.len(), n);
            res.push(("P25/bag-split", quiet(|| {
                let (mut pt, _) = trackers(4);
                let (x, y) = (mk(&mut pt, a2), mk(&mut pt, b2));
                let (gl, gma, gmb, gr) = bag_lmr_split(&mut pt, &x, &y).unwrap();
                want(&gl, &l, la) && want(&gma, &ma, la) && want(&gmb, &mb, lb) && want(&gr, &r, lb)
            })));
            res.push(("P25/set-split", quiet(|| {
                let (mut pt, _) = trackers(4);
                let (x, y) = (mk(&mut pt, a2), mk(&mut pt, b2));
                let (gl, gm, gr) = set_lmr_split(&mut pt, &x, &y).unwrap();
                want(&gl, &l, la) && want(&gr, &r, lb) && if na < nb { want(&gm, &ma, la) } else { want(&gm, &mb, lb) }
            })));
            res.push(("P25/multiplicity-split", quiet(|| {
                let (mut pt, _) = trackers(4);
                let (x, y) = (mk(&mut pt, a2), mk(&mut pt, b2));
                let (gl, gm, gr, lm, m_a, m_b, rm) = bag_lmr_multiplicity_split(&mut pt, &x, &y).unwrap();
                let keys = |x: &BTreeMap<Fr, u64>, k: &dyn Fn(&Fr) -> bool| -> Vec<Fr> { x.keys().filter(|v| k(v)).copied().collect() };
                let lk = keys(&ca, &|v| !cb.contains_key(v));
                let mk2 = keys(&ca, &|v| cb.contains_key(v));
                let rk = keys(&cb, &|v| !ca.contains_key(v));
                let mults = |k: &[Fr], m: &BTreeMap<Fr, u64>, n: usize| pad(&k.iter().map(|v| fr(m[v])).collect::<Vec<_>>(), n);
                let mn = la.max(lb);
                want(&gl, &lk, la) && want(&gm, &mk2, mn) && want(&gr, &rk, lb)
                    && lm.evaluations() == mults(&lk, &ca, la) && m_a.evaluations() == mults(&mk2, &ca, mn)
                    && m_b.evaluations() == mults(&mk2, &cb, mn) && rm.evaluations() == mults(&rk, &cb, lb)
            })));
            res.push(("P25/inclusion", quiet(|| {
                let (mut pt, _) = trackers(4);
                let (x, y) = (mk(&mut pt, a2), mk(&mut pt, b2));
                let w = count_m(a2, b2);
                let t = |n, v: &Vec<Fr>| Mle::from_evaluations_vec(n, v.clone());
                let g = calc_bag_inclusion_advice_from_bag(&x, &y);
                let h = calc_bag_inclusion_advice_from_mle::<E>(&t(na, &a2.v), &t(na, &a2.s), &t(nb, &b2.v), &t(nb, &b2.s));
                // any advice with the right total per value is right
                let tot = |m: &[Fr]| weights(&[b2.clone()], &[m.to_vec()]);
                g.num_vars == nb && tot(&g.evaluations) == tot(&w) && tot(&h.evaluations) == tot(&w) && g.evaluations == w
            })));
            res.push(("P25/supp", quiet(|| {
                let (mut pt, _) = trackers(4);
                let x = mk(&mut pt, a2);
                let (s, ss, m) = calc_bag_supp_advice(&x).unwrap();
                let vals: Vec<Fr> = ca.keys().copied().collect();
                let e = B::tail(na, &vals);
                let em: Vec<Fr> = [vec![Fr::zero(); la - vals.len()], ca.values().map(|n| fr(*n)).collect()].concat();
                s.evaluations == e.v && ss.evaluations == e.s && m.evaluations == em && s.num_vars == na
            })));
            res.push(("P25/disjoint", quiet(|| {
                let (mut pt, _) = trackers(4);
                let (x, y) = (mk(&mut pt, a2), mk(&mut pt, b2));
                let (s, ss, m_a, m_b) = calc_bag_disjoint_advice(&x, &y).unwrap();
                let vals: Vec<Fr> = addc(&ca, &cb).keys().copied().collect();
                let nv = na.max(nb) + 1;
                let e = B::tail(nv, &vals);
                let z = (1 << nv) - vals.len();
                let mm = |m: &BTreeMap<Fr, u64>| -> Vec<Fr> { [vec![Fr::zero(); z], vals.iter().map(|v| fr(*m.get(v).unwrap_or(&0))).collect()].concat() };
                s.num_vars == nv && s.evaluations == e.v && ss.evaluations == e.s && m_a.evaluations == mm(&ca) && m_b.evaluations == mm(&cb)
            })));
            res.push(("P25/join", quiet(|| {
                let t = |n, v: &Vec<Fr>| Mle::from_evaluations_vec(n, v.clone());
                let (ls, rs) = calc_join_reduction_lr_sel_advice::<E>(&t(na, &a2.v), &t(na, &a2.s), &t(nb, &b2.v), &t(nb, &b2.s));
                let w = |x: &B, m: &BTreeMap<Fr, u64>| -> Vec<Fr> { x.v.iter().map(|v| if m.contains_key(v) { Fr::zero() } else { Fr::one() }).collect() };
                ls.evaluations == w(a2, &cb) && rs.evaluations == w(b2, &ca)
            })));
            // one-to-many join: a gets unique keys
            res.push(("P25/final-join", quiet(|| {
                let (mut pt, _) = trackers(4);
                let keys = universe(c, la);
                let mut sa = sel(c, la, 70);
                sa[0] = Fr::one();
                let on: Vec<usize> = (0..la).filter(|i| sa[*i].is_one()).collect();
                let rows: Vec<usize> = (0..lb).map(|_| on[c.below(on.len())]).collect();
                let kb: Vec<Fr> = (0..lb).map(|i| if b2.s[i].is_one() { keys[rows[i]] } else { c.f() }).collect();
                let tm = |pt: &mut PT, n: usize, v: &Vec<Fr>| pt.track_mat_poly(Mle::from_evaluations_vec(n, v.clone()));
                let (pk, pa, ps, qk, qs) = (tm(&mut pt, na, &keys), tm(&mut pt, na, &a2.v), tm(&mut pt, na, &sa), tm(&mut pt, nb, &kb), tm(&mut pt, nb, &b2.s));
                let ta = Table::new(vec![pa.clone(), pk], ps);
                let tb = Table::new(vec![qk], qs.clone());
                let ix = calc_final_join_one_to_many_index_transform(&ta, &tb, 1, 0).unwrap();
                let ok = ix.len() == lb && (0..lb).all(|i| b2.s[i].is_zero() && ix[i] < la || ix[i] == rows[i]);
                let g = calc_index_transformed_bag(&ix, &pa, &qs).unwrap();
                let want: Vec<Fr> = (0..lb).map(|i| if b2.s[i].is_one() { a2.v[rows[i]] } else { Fr::zero() }).collect();
                ok && g.evaluations == want && g.num_vars == nb
            })));
            res.push(("P25/alias", quiet(|| {
                let (mut pt, _) = trackers(4);
                let p = pt.track_mat_poly(Mle::from_evaluations_vec(na, a2.v.clone()));
                let add = 1 + it % 3;
                let f = front_alias_tracked_poly(&mut pt, &p, add);
                let k = back_alias_tracked_poly(&mut pt, &p, add);
                let n = la << add;
                f.num_vars() == na + add && k.num_vars() == na + add
                    && f.evaluations() == (0..n).map(|i| a2.v[i >> add]).collect::<Vec<_>>()
                    && k.evaluations() == (0..n).map(|i| a2.v[i % la]).collect::<Vec<_>>()
            })));
        }
        for (k, r) in res { c.check(r == Ok(true), k, || format!("{}: {:?}", d, r)); }
    }
}

/// Every gadget's honest run: same handles, challenges, claims and values on both sides (P12).
pub fn lockstep_all(c: &mut Ctx) {
    let gens: &[Gen] = &[multitool, bageq, prescperm, bagsum, selvalid, nozeros, inclusion, inclusion_adv, supp, disjoint, setdisjoint, sort, union, diff, intersect, joinred, cross, finaljoin, indextr, groupby];
    for g in gens {
        for _ in 0..c.n(1) {
            let case = g(c, true);
            let o = match quiet(|| run(c, &case, false)) {
                Ok(o) => o,
                Err(m) => Out::Bad("panic", m),
            };
            // refusals and wrong outputs are the gadget properties' business
            let bad = match &o { Out::Bad(k, m) if k.starts_with("lockstep") => Some(format!("{}: {}", k, m)), _ => None };
            c.check(bad.is_none(), &format!("P12/gadget-{}", case.gadget), || format!("{}: {} -> {:?}", case.gadget, case.ins.d, bad));
        }
    }
}
