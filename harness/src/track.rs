//! P09-P13: trackers. Oracle: an expression tree evaluated from its definition.
use crate::common::*;
use std::cell::RefCell;
use zk_sql::subroutines::*;
use zk_sql::tracker::prelude::*;

pub type PT = ProverTrackerRef<E, Pcs>;
pub type VT = VerifierTrackerRef<E, Pcs>;
pub type TP = TrackedPoly<E, Pcs>;
pub type TC = TrackedComm<E, Pcs>;
pub const MAXNV: usize = 6;

thread_local! {
    static KEYS: RefCell<BTreeMap<usize, (MultilinearProverParam<E>, MultilinearVerifierParam<E>)>> = RefCell::new(BTreeMap::new());
}
/// Setup for exactly `n` variables, made once.
pub fn keys(n: usize) -> (MultilinearProverParam<E>, MultilinearVerifierParam<E>) {
    KEYS.with(|k| {
        k.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                let mut rng = ChaCha20Rng::seed_from_u64(77 + n as u64);
                let s = Pcs::gen_srs_for_testing(&mut rng, n).unwrap();
                Pcs::trim(&s, None, Some(n)).unwrap()
            })
            .clone()
    })
}
pub fn trackers(n: usize) -> (PT, VT) {
    let (pk, vk) = keys(n);
    (PT::new_from_pcs_params(pk), VT::new_from_pcs_params(vk))
}

#[derive(Clone)]
pub enum Ex {
    Base(Arc<Mle<Fr>>),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    AddS(usize, Fr),
    MulS(usize, Fr),
    Front(usize, usize),
    Back(usize, usize),
}
/// One handle of the history: both sides and the oracle expression.
pub struct H {
    pub e: Ex,
    pub nv: usize,
    pub deg: usize,
    pub terms: usize,
    pub p: TP,
    pub v: Option<TC>,
}
pub fn ev(hs: &[H], i: usize, pt: &[Fr]) -> Fr {
    match &hs[i].e {
        Ex::Base(m) => o_mle(&m.evaluations, pt),
        Ex::Add(a, b) => ev(hs, *a, pt) + ev(hs, *b, pt),
        Ex::Sub(a, b) => ev(hs, *a, pt) - ev(hs, *b, pt),
        Ex::Mul(a, b) => ev(hs, *a, pt) * ev(hs, *b, pt),
        Ex::AddS(a, s) => ev(hs, *a, pt) + s,
        Ex::MulS(a, s) => ev(hs, *a, pt) * s,
        Ex::Front(a, k) => ev(hs, *a, &pt[*k..]),
        Ex::Back(a, k) => ev(hs, *a, &pt[..pt.len() - *k]),
    }
}
pub fn show(hs: &[H], i: usize) -> String {
    match &hs[i].e {
        Ex::Base(m) => format!("base#{}(nv={})", hs[i].p.id.0, m.num_vars),
        Ex::Add(a, b) => format!("({} + {})", show(hs, *a), show(hs, *b)),
        Ex::Sub(a, b) => format!("({} - {})", show(hs, *a), show(hs, *b)),
        Ex::Mul(a, b) => format!("({} * {})", show(hs, *a), show(hs, *b)),
        Ex::AddS(a, s) => format!("({} + {})", show(hs, *a), sf(s)),
        Ex::MulS(a, s) => format!("({} . {})", show(hs, *a), sf(s)),
        Ex::Front(a, k) => format!("front({}, {})", show(hs, *a), k),
        Ex::Back(a, k) => format!("back({}, {})", show(hs, *a), k),
    }
}
pub fn tables_of(hs: &[H]) -> String {
    hs.iter()
        .filter_map(|h| if let Ex::Base(m) = &h.e { Some(format!("base#{}={}", h.p.id.0, sv(&m.evaluations))) } else { None })
        .collect::<Vec<_>>()
        .join(" ")
}
/// Give the verifier the true values of base handle `i` at every window of pt of its size.
pub fn feed(hs: &[H], vt: &VT, pt: &[Fr]) {
    let t = vt.clone_underlying_tracker();
    let mut q = t.query_map.borrow_mut();
    for h in hs {
        if let (Ex::Base(m), Some(_)) = (&h.e, &h.v) {
            for s in 0..=(pt.len().saturating_sub(m.num_vars)) {
                if s + m.num_vars <= pt.len() {
                    let w = pt[s..s + m.num_vars].to_vec();
                    let v = o_mle(&m.evaluations, &w);
                    q.insert((h.p.id, w), v);
                }
            }
        }
    }
}

pub struct World {
    pub pt: PT,
    pub vt: VT,
    pub hs: Vec<H>,
    pub both: bool,
}
impl World {
    pub fn new(n: usize, both: bool) -> Self {
        let (pt, vt) = trackers(n);
        World { pt, vt, hs: vec![], both }
    }
    pub fn base(&mut self, m: Mle<Fr>, commit: bool) -> usize {
        let nv = m.num_vars;
        let a = Arc::new(m.clone());
        let (p, v) = if commit {
            let p = self.pt.track_and_commit_poly(m.clone()).unwrap();
            let v = if self.both {
                let c = Pcs::commit(keys_for(&self.pt), &m).unwrap();
                Some(self.vt.track_mat_comm(c).unwrap())
            } else {
                None
            };
            (p, v)
        } else {
            let p = self.pt.track_mat_poly(m.clone());
            let v = if self.both {
                let t = m.evaluations.clone();
                Some(self.vt.track_virtual_comm(Box::new(move |x: &[Fr]| Ok(o_mle(&t, x)))))
            } else {
                None
            };
            (p, v)
        };
        self.hs.push(H { e: Ex::Base(a), nv, deg: 1, terms: 1, p, v });
        self.hs.len() - 1
    }
    pub fn op(&mut self, e: Ex) -> usize {
        let (p, v, nv, deg, terms);
        {
            let hs = &self.hs;
            let vv = |i: usize| hs[i].v.clone();
            macro_rules! two {
                ($a:expr,$b:expr,$f:ident,$g:ident) => {{
                    (hs[$a].p.$f(&hs[$b].p), if self.both { Some(vv($a).unwrap().$g(&vv($b).unwrap())) } else { None })
                }};
            }
            macro_rules! one {
                ($a:expr,$s:expr,$f:ident,$g:ident) => {{
                    (hs[$a].p.$f($s), if self.both { Some(vv($a).unwrap().$g($s)) } else { None })
                }};
            }
            let r = match &e {
                Ex::Base(_) => unreachable!(),
                Ex::Add(a, b) => two!(*a, *b, add_poly, add_comms),
                Ex::Sub(a, b) => two!(*a, *b, sub_poly, sub_comms),
                Ex::Mul(a, b) => two!(*a, *b, mul_poly, mul_comms),
                Ex::AddS(a, s) => one!(*a, *s, add_scalar, add_scalar),
                Ex::MulS(a, s) => one!(*a, *s, mul_scalar, mul_scalar),
                Ex::Front(a, k) => one!(*a, *k, increase_nv_front, increase_nv_front),
                Ex::Back(a, k) => one!(*a, *k, increase_nv_back, increase_nv_back),
            };
            p = r.0;
            v = r.1;
            match &e {
                Ex::Add(a, b) | Ex::Sub(a, b) => {
                    nv = hs[*a].nv;
                    deg = hs[*a].deg.max(hs[*b].deg);
                    terms = hs[*a].terms + hs[*b].terms;
                }
                Ex::Mul(a, b) => {
                    nv = hs[*a].nv;
                    deg = hs[*a].deg + hs[*b].deg;
                    terms = hs[*a].terms * hs[*b].terms;
                }
                Ex::AddS(a, _) => {
                    nv = hs[*a].nv;
                    deg = hs[*a].deg;
                    terms = hs[*a].terms + 1;
                }
                Ex::MulS(a, _) => {
                    nv = hs[*a].nv;
                    deg = hs[*a].deg;
                    terms = hs[*a].terms;
                }
                Ex::Front(a, k) | Ex::Back(a, k) => {
                    nv = hs[*a].nv + k;
                    deg = 1;
                    terms = 1;
                }
                Ex::Base(_) => unreachable!(),
            }
        }
        self.hs.push(H { e, nv, deg, terms, p, v });
        self.hs.len() - 1
    }
    /// A random operation on existing handles (padding of base handles only).
    pub fn rand_op(&mut self, c: &mut Ctx, maxnv: usize) -> usize {
        for _ in 0..50 {
            let k = c.below(9);
            let a = c.below(self.hs.len());
            let same: Vec<usize> = (0..self.hs.len()).filter(|i| self.hs[*i].nv == self.hs[a].nv).collect();
            let b = same[c.below(same.len())];
            let s = c.fs();
            let e = match k {
                0 | 1 => Ex::Add(a, b),
                2 => Ex::Sub(a, b),
                3 | 4 => {
                    if self.hs[a].deg + self.hs[b].deg > 5 || self.hs[a].terms * self.hs[b].terms > 24 {
                        continue;
                    }
                    Ex::Mul(a, b)
                }
                5 => Ex::AddS(a, s),
                6 => Ex::MulS(a, s),
                _ => {
                    let base = matches!(self.hs[a].e, Ex::Base(_));
                    if !base || self.hs[a].nv >= maxnv {
                        continue;
                    }
                    let add = 1 + c.below(maxnv - self.hs[a].nv);
                    if k == 7 { Ex::Front(a, add) } else { Ex::Back(a, add) }
                }
            };
            if matches!(e, Ex::Add(..) | Ex::Sub(..)) && self.hs[a].terms + self.hs[b].terms > 24 {
                continue;
            }
            return self.op(e);
        }
        let s = c.fs();
        self.op(Ex::MulS(0, s))
    }
}
fn keys_for(pt: &PT) -> MultilinearProverParam<E> {
    pt.clone_underlying_tracker().pcs_param
}

pub fn p09(c: &mut Ctx) {
    for nv in 1..=4usize {
        for new in nv..=7 {
            let m = Arc::new(c.mle(nv));
            let (f, b) = match (quiet(|| dmle_increase_nv_front(&m, new)), quiet(|| dmle_increase_nv_back(&m, new))) {
                (Ok(f), Ok(b)) => (f, b),
                (f, b) => {
                    c.check(false, "P09/panic", || format!("nv={} new={} {:?} {:?}", nv, new, f.err(), b.err()));
                    continue;
                }
            };
            let x = c.rvec(new);
            let want_f = o_mle(&m.evaluations, &x[new - nv..]);
            let want_b = o_mle(&m.evaluations, &x[..nv]);
            let len_ok = |t: &Mle<Fr>| t.num_vars == new && t.evaluations.len() == 1 << new;
            c.check(len_ok(&f) && o_mle(&f.evaluations, &x) == want_f, "P09/table-front", || format!("table={} new nv={} x={}", sv(&m.evaluations), new, sv(&x)));
            c.check(len_ok(&b) && o_mle(&b.evaluations, &x) == want_b, "P09/table-back", || format!("table={} new nv={} x={}", sv(&m.evaluations), new, sv(&x)));
        }
        let m = Arc::new(c.mle(nv));
        if nv > 1 {
            let g = quiet(|| dmle_increase_nv_front(&m, nv - 1)).is_err() && quiet(|| dmle_increase_nv_back(&m, nv - 1)).is_err();
            c.check(g, "P09/shrink-refused", || format!("nv={} to {}", nv, nv - 1));
        }
    }
    for it in 0..c.n(24) {
        let nv = 1 + it % 4;
        let add = 1 + (it / 4) % 3;
        let front = it % 2 == 0;
        let r = quiet(|| {
            let mut w = World::new(MAXNV + 1, true);
            let m = c.mle(nv);
            let commit = it % 3 != 0;
            w.base(m, commit);
            let i = w.op(if front { Ex::Front(0, add) } else { Ex::Back(0, add) });
            let x = c.rvec(nv + add);
            feed(&w.hs, &w.vt, &x);
            let want = ev(&w.hs, i, &x);
            let p = w.hs[i].p.evaluate(&x);
            let tab = w.hs[i].p.evaluations();
            let v = w.hs[i].v.as_ref().unwrap().eval_virtual_comm(&x).ok();
            let tab_ok = tab.len() == 1 << (nv + add) && (0..tab.len()).all(|b| tab[b] == ev(&w.hs, i, &bits_pt(b, nv + add)));
            (p == Some(want), tab_ok, v == Some(want), w.hs[i].p.num_vars() == nv + add, tables_of(&w.hs))
        });
        let key = if front { "front" } else { "back" };
        match r {
            Ok((a, b, d, e, t)) => {
                let what = || format!("nv={} added={} {} {}", nv, add, key, t);
                c.check(a && b, &format!("P09/prover-{}", key), what);
                c.check(d, &format!("P09/verifier-{}", key), what);
                c.check(e, "P09/prover-num-vars", what);
            }
            Err(m) => {
                c.check(false, &format!("P09/panic-{}", key), || format!("nv={} added={}: {}", nv, add, m));
            }
        }
    }
}

fn table_ok(hs: &[H], i: usize) -> bool {
    let t = hs[i].p.evaluations();
    t.len() == 1 << hs[i].nv && (0..t.len()).all(|b| t[b] == ev(hs, i, &bits_pt(b, hs[i].nv)))
}
fn export_ok(c: &mut Ctx, hs: &[H], i: usize) -> bool {
    let vp = hs[i].p.to_arithmatic_virtual_poly();
    let x = c.rvec(hs[i].nv);
    let t: Fr = vp
        .products
        .iter()
        .map(|(co, l)| *co * l.iter().map(|j| o_mle(&vp.flattened_ml_extensions[*j].evaluations, &x)).product::<Fr>())
        .sum();
    vp.aux_info.num_variables == hs[i].nv && vp.products.iter().all(|(_, l)| l.len() <= vp.aux_info.max_degree) && t == ev(hs, i, &x)
}

pub fn p10(c: &mut Ctx) {
    for it in 0..c.n(24) {
        let mut log = String::new();
        let r = quiet(|| {
            let mut w = World::new(4, false);
            let nv = 1 + it % 3;
            for j in 0..2 + it % 3 {
                let m = c.mle(nv);
                w.base(m, j % 2 == 0);
            }
            if it % 2 == 0 {
                let m = c.mle(4);
                w.base(m, false);
            }
            let mut fails: Vec<(String, String)> = vec![];
            let mut ok_count: BTreeMap<&'static str, u64> = BTreeMap::new();
            for step in 0..10 + it % 8 {
                let before = w.pt.clone_underlying_tracker();
                if c.below(3) == 0 {
                    let i = c.below(w.hs.len());
                    w.pt.add_zerocheck_claim(w.hs[i].p.id);
                    let s = c.fs();
                    w.pt.add_sumcheck_claim(w.hs[i].p.id, s);
                }
                let cl0 = w.pt.clone_underlying_tracker();
                let i = w.rand_op(c, 4);
                log = format!("{}\n   {} := {}", log, w.hs[i].p.id.0, show(&w.hs, i));
                let fresh = (0..i).all(|j| w.hs[j].p.id != w.hs[i].p.id) && w.hs[i].p.id.0 >= before.id_counter && w.hs[i].p.id.0 < w.pt.clone_underlying_tracker().id_counter;
                let x = c.rvec(w.hs[i].nv);
                let mut res: Vec<(&'static str, bool, usize)> = vec![("P10/fresh", fresh, i), ("P10/new-value", w.hs[i].p.evaluate(&x) == Some(ev(&w.hs, i, &x)), i)];
                // reading a table (and caching it) must not change anything
                let j = c.below(w.hs.len());
                res.push(("P10/table", table_ok(&w.hs, j), j));
                let x = c.rvec(w.hs[j].nv);
                res.push(("P10/value-after-table", w.hs[j].p.evaluate(&x) == Some(ev(&w.hs, j, &x)), j));
                let j = c.below(w.hs.len());
                res.push(("P10/export", export_ok(c, &w.hs, j), j));
                let x = c.rvec(w.hs[j].nv);
                res.push(("P10/old-value", w.hs[j].p.evaluate(&x) == Some(ev(&w.hs, j, &x)), j));
                let cl1 = w.pt.clone_underlying_tracker();
                res.push(("P10/claims-untouched", cl0.sum_check_claims == cl1.sum_check_claims && cl0.zero_check_claims == cl1.zero_check_claims, i));
                for (k, ok, j) in res {
                    *ok_count.entry(k).or_insert(0) += 1;
                    if !ok {
                        fails.push((k.to_string(), format!("step {} handle {} = {}; history:{}; {}", step, w.hs[j].p.id.0, show(&w.hs, j), log, tables_of(&w.hs))));
                    }
                }
                if !fails.is_empty() { break; }
            }
            for i in 0..w.hs.len() {
                let x = c.rvec(w.hs[i].nv);
                let ok = w.hs[i].p.evaluate(&x) == Some(ev(&w.hs, i, &x)) && table_ok(&w.hs, i) && export_ok(c, &w.hs, i);
                *ok_count.entry("P10/final-sweep").or_insert(0) += 1;
                if !ok {
                    fails.push(("P10/final-sweep".into(), format!("handle {} = {}; history:{}; {}", w.hs[i].p.id.0, show(&w.hs, i), log, tables_of(&w.hs))));
                }
            }
            (fails, ok_count)
        });
        match r {
            Ok((fails, cnt)) => {
                for (k, n) in cnt {
                    for _ in 0..n.saturating_sub(fails.iter().filter(|f| f.0 == k).count() as u64) {
                        c.check(true, k, || log.clone());
                    }
                }
                for (k, d) in fails { c.check(false, &k, || d); }
            }
            Err(m) => { c.check(false, "P10/panic", || format!("history:{} PANIC {}", log, m)); }
        }
    }
    // misuse is refused
    let r = quiet(|| {
        let mut w = World::new(3, false);
        let a = c.mle(2);
        let b = c.mle(3);
        let d = c.mle(2);
        w.base(a, false);
        w.base(b, false);
        let mut w2 = World::new(3, false);
        w2.base(d, false);
        let (x, y, z) = (w.hs[0].p.clone(), w.hs[1].p.clone(), w2.hs[0].p.clone());
        [quiet(|| x.add_poly(&y)).is_err(), quiet(|| x.sub_poly(&y)).is_err(), quiet(|| x.mul_poly(&y)).is_err(), quiet(|| x.add_poly(&z)).is_err(), quiet(|| x.sub_poly(&z)).is_err(), quiet(|| x.mul_poly(&z)).is_err()]
    });
    c.check(r == Ok([true; 6]), "P10/misuse-refused", || format!("{:?}", r));
}

/// P11: the verifier side alone, with arbitrary supplied evaluations.
pub fn p11(c: &mut Ctx) {
    for it in 0..c.n(30) {
        let nb = 2 + it % 3;
        let len = 1 + it % 4;
        let mut log = String::new();
        let r = quiet(|| {
            let (pk, vk) = keys(4);
            let vt = VT::new_from_pcs_params(vk);
            #[derive(Clone)]
            enum O { B, Add(usize, usize), Sub(usize, usize), Mul(usize, usize), AS(usize, Fr), MS(usize, Fr), F(usize, usize), K(usize, usize) }
            let mut ids: Vec<(TC, O)> = vec![];
            for _ in 0..nb {
                let m = c.mle(2);
                let cm = Pcs::commit(&pk, &m).unwrap();
                ids.push((vt.track_mat_comm(cm).unwrap(), O::B));
            }
            // arbitrary supplied answers for (handle, window of the point)
            let x = c.rvec(len);
            let ans: BTreeMap<(usize, usize, usize), Fr> = (0..nb)
                .flat_map(|b| (0..len).flat_map(move |s| (s + 1..=len).map(move |e| (b, s, e))))
                .map(|k| (k, Fr::rand(&mut c.rng)))
                .collect();
            {
                let t = vt.clone_underlying_tracker();
                let mut q = t.query_map.borrow_mut();
                for ((b, s, e), v) in &ans { q.insert((ids[*b].0.id, x[*s..*e].to_vec()), *v); }
                // answers for another point must not be used
                for b in 0..nb { let y = Fr::rand(&mut c.rng); q.insert((ids[b].0.id, vec![y; len]), Fr::rand(&mut c.rng)); }
            }
            fn want(ids: &[(TC, O)], ans: &BTreeMap<(usize, usize, usize), Fr>, i: usize, s: usize, e: usize) -> Option<Fr> {
                let w = |j: usize| want(ids, ans, j, s, e);
                Some(match &ids[i].1 {
                    O::B => return ans.get(&(i, s, e)).copied(),
                    O::Add(a, b) => w(*a)? + w(*b)?,
                    O::Sub(a, b) => w(*a)? - w(*b)?,
                    O::Mul(a, b) => w(*a)? * w(*b)?,
                    O::AS(a, k) => w(*a)? + k,
                    O::MS(a, k) => w(*a)? * k,
                    O::F(a, k) => { if s + k > e { return None; } want(ids, ans, *a, s + k, e)? }
                    O::K(a, k) => { if s + k > e { return None; } want(ids, ans, *a, s, e - k)? }
                })
            }
            let mut bad: Vec<(&'static str, String)> = vec![];
            let mut cnt: BTreeMap<&'static str, u64> = BTreeMap::new();
            for _ in 0..12 {
                let (a, b) = (c.below(ids.len()), c.below(ids.len()));
                let s = c.fs();
                let k = 1 + c.below(2);
                let n0 = vt.clone_underlying_tracker().id_counter;
                let (t, o, nm) = match c.below(7) {
                    0 => (ids[a].0.add_comms(&ids[b].0), O::Add(a, b), format!("add({},{})", a, b)),
                    1 => (ids[a].0.sub_comms(&ids[b].0), O::Sub(a, b), format!("sub({},{})", a, b)),
                    2 => (ids[a].0.mul_comms(&ids[b].0), O::Mul(a, b), format!("mul({},{})", a, b)),
                    3 => (ids[a].0.add_scalar(s), O::AS(a, s), format!("adds({},{})", a, sf(&s))),
                    4 => (ids[a].0.mul_scalar(s), O::MS(a, s), format!("muls({},{})", a, sf(&s))),
                    5 => (ids[a].0.increase_nv_front(k), O::F(a, k), format!("front({},{})", a, k)),
                    _ => (ids[a].0.increase_nv_back(k), O::K(a, k), format!("back({},{})", a, k)),
                };
                log = format!("{} #{}={}", log, ids.len(), nm);
                let fresh = t.id.0 >= n0 && ids.iter().all(|q| q.0.id != t.id);
                *cnt.entry("P11/fresh").or_insert(0) += 1;
                if !fresh { bad.push(("P11/fresh", log.clone())); }
                ids.push((t, o));
                for i in [ids.len() - 1, c.below(ids.len())] {
                    if let Some(wv) = want(&ids, &ans, i, 0, len) {
                        *cnt.entry("P11/value").or_insert(0) += 1;
                        let g = ids[i].0.eval_virtual_comm(&x).ok();
                        if g != Some(wv) { bad.push(("P11/value", format!("handle #{} at point of length {}; {} supplied={}", i, len, log, ans.iter().map(|(k, v)| format!("{:?}:{}", k, sf(v))).collect::<Vec<_>>().join(" ")))); }
                    }
                }
            }
            for i in 0..ids.len() {
                if let Some(wv) = want(&ids, &ans, i, 0, len) {
                    *cnt.entry("P11/final-sweep").or_insert(0) += 1;
                    if ids[i].0.eval_virtual_comm(&x).ok() != Some(wv) { bad.push(("P11/final-sweep", format!("handle #{}; {}", i, log))); }
                }
            }
            (bad, cnt)
        });
        match r {
            Ok((bad, cnt)) => {
                for (k, n) in cnt { for _ in 0..n.saturating_sub(bad.iter().filter(|b| b.0 == k).count() as u64) { c.check(true, k, || log.clone()); } }
                for (k, d) in bad { c.check(false, k, || d); }
            }
            Err(m) => { c.check(false, "P11/panic", || format!("{} PANIC {}", log, m)); }
        }
    }
    // values transferred from a compiled proof, other-tracker refusal
    let r = quiet(|| {
        let (mut pt, mut vt) = trackers(3);
        let (_, vt2) = trackers(3);
        let (a, b) = (c.mle(2), c.mle(2));
        let pa = pt.track_and_commit_poly(a.clone()).unwrap();
        pt.track_and_commit_poly(b.clone()).unwrap();
        let z = pa.sub_poly(&pa);
        pt.add_zerocheck_claim(z.id);
        let mut proof = pt.compile_proof().unwrap();
        let x = c.rvec(2);
        let (va, vb) = (c.f(), c.f());
        proof.query_map.insert((TrackerID(0), x.clone()), va);
        proof.query_map.insert((TrackerID(1), x.clone()), vb);
        vt.set_compiled_proof(proof.clone());
        let ca = vt.transfer_prover_comm(TrackerID(0));
        let cb = vt.transfer_prover_comm(TrackerID(1));
        vt.transfer_proof_poly_evals();
        let same = vt.get_mat_comm(TrackerID(0)) == proof.comms[&TrackerID(0)] && vt.get_mat_comm(TrackerID(1)) == proof.comms[&TrackerID(1)];
        let o = vt2.track_mat_comm(proof.comms[&TrackerID(0)]).unwrap();
        (ca.eval_virtual_comm(&x).ok() == Some(va) && cb.eval_virtual_comm(&x).ok() == Some(vb), same, quiet(|| ca.add_comms(&o)).is_err() && quiet(|| ca.sub_comms(&o)).is_err() && quiet(|| ca.mul_comms(&o)).is_err())
    });
    c.check(r == Ok((true, true, true)), "P11/transfer", || format!("{:?}", r));
}

/// Next challenge of both sides agrees (on clones).
pub fn same_challenge(pt: &PT, vt: &VT) -> bool {
    let mut a = pt.clone_underlying_tracker();
    let mut b = vt.clone_underlying_tracker();
    match (a.get_and_append_challenge(b"zkh"), b.get_and_append_challenge(b"zkh")) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
pub fn same_ids(pt: &PT, vt: &VT) -> bool {
    pt.clone_underlying_tracker().id_counter == vt.clone_underlying_tracker().id_counter
}

pub fn p12(c: &mut Ctx) {
    for it in 0..c.n(20) {
        let mut log = String::new();
        let r = quiet(|| {
            let mut w = World::new(4, true);
            let nv = 1 + it % 3;
            for j in 0..2 + it % 2 {
                let m = c.mle(nv);
                w.base(m, j != 1 || it % 3 != 0);
            }
            let mut bad: Vec<(&'static str, String)> = vec![];
            let mut cnt: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut chk = |k: &'static str, ok: bool, d: String, bad: &mut Vec<(&'static str, String)>| { *cnt.entry(k).or_insert(0) += 1; if !ok { bad.push((k, d)); } };
            for _ in 0..10 {
                let kind = c.below(8);
                if kind == 0 {
                    let m = c.mle(nv);
                    w.base(m, true);
                } else if kind == 1 {
                    let (a, b) = (w.pt.get_and_append_challenge(b"x"), w.vt.get_and_append_challenge(b"x"));
                    chk("P12/challenge", a.is_ok() == b.is_ok() && a.ok() == b.ok(), log.clone(), &mut bad);
                } else if kind == 2 {
                    let f = c.f();
                    w.pt.append_serializable_element(b"y", &f).unwrap();
                    w.vt.append_serializable_element(b"y", &f).unwrap();
                } else {
                    w.rand_op(c, 4);
                }
                let i = w.hs.len() - 1;
                log = format!("{} {}:={}", log, w.hs[i].p.id.0, show(&w.hs, i));
                let h = &w.hs[i];
                chk("P12/same-id", h.p.id == h.v.as_ref().unwrap().id && same_ids(&w.pt, &w.vt), log.clone(), &mut bad);
                chk("P12/same-challenges", same_challenge(&w.pt, &w.vt), log.clone(), &mut bad);
                let j = c.below(w.hs.len());
                if c.below(3) == 0 { w.hs[j].p.evaluations(); }
                let j = c.below(w.hs.len());
                let x = c.rvec(w.hs[j].nv);
                feed(&w.hs, &w.vt, &x);
                let a = w.hs[j].p.evaluate(&x);
                let b = w.hs[j].v.as_ref().unwrap().eval_virtual_comm(&x).ok();
                chk("P12/same-value", a.is_some() && a == b, format!("handle {} = {}; {}", w.hs[j].p.id.0, show(&w.hs, j), log), &mut bad);
            }
            (bad, cnt)
        });
        match r {
            Ok((bad, cnt)) => {
                for (k, n) in cnt { for _ in 0..n.saturating_sub(bad.iter().filter(|b| b.0 == k).count() as u64) { c.check(true, k, || log.clone()); } }
                for (k, d) in bad { c.check(false, k, || d); }
            }
            Err(m) => { c.check(false, "P12/panic", || format!("{} PANIC {}", log, m)); }
        }
    }
    // Known limit: padding a derived (product) handle.
    let r = quiet(|| {
        let mut w = World::new(4, true);
        let (a, b) = (c.rmle(2), c.rmle(2));
        w.base(a, true);
        w.base(b, true);
        let m = w.op(Ex::Mul(0, 1));
        let f = w.op(Ex::Front(m, 1));
        let x = c.rvec(3);
        feed(&w.hs, &w.vt, &x);
        w.hs[f].p.evaluate(&x) == w.hs[f].v.as_ref().unwrap().eval_virtual_comm(&x).ok()
    });
    c.check(r == Ok(true), "P12/padded-product-value", || format!("front padding of a product of two tables: {:?}", r));
    crate::gadget::lockstep_all(c);
}

struct Claims {
    w: World,
    sums: Vec<usize>,
    zeros: Vec<usize>,
}
fn circuit(c: &mut Ctx, it: usize) -> Claims {
    let mut w = World::new(4, true);
    let nv = 2 + it % 2;
    let nb = 2 + it % 3;
    for j in 0..nb {
        let m = c.rmle(if it % 4 == 3 && j == 0 { nv - 1 } else { nv });
        w.base(m, true);
    }
    let (x, y, z) = (1, nb - 1, c.below(nb - 1) + 1);
    let s = c.f();
    // (x+y)*z + s  -  (x*z + y*z) - s   is zero everywhere
    let a = w.op(Ex::Add(x, y));
    let b = w.op(Ex::Mul(a, z));
    let b = w.op(Ex::AddS(b, s));
    let p = w.op(Ex::Mul(x, z));
    let q = w.op(Ex::Mul(y, z));
    let r = w.op(Ex::Add(p, q));
    let r = w.op(Ex::AddS(r, s));
    let d = w.op(Ex::Sub(b, r));
    let dd = w.op(Ex::MulS(d, s));
    let mut sums = vec![];
    if it % 3 != 0 { sums.push(b); }
    if it % 3 == 2 { sums.push(p); sums.push(0); }
    let mut zeros = vec![d];
    if it % 2 == 1 { zeros.push(dd); }
    Claims { w, sums, zeros }
}
pub fn p13(c: &mut Ctx) {
    use ark_ec::{AffineRepr, CurveGroup};
    for it in 0..c.n(8) {
        let what = format!("circuit kind {}", it % 12);
        let r = quiet(|| {
            let mut res: Vec<(&'static str, bool, String)> = vec![];
            let k = circuit(c, it);
            let w = k.w;
            let mut pt = w.pt.clone();
            for i in &k.zeros { pt.add_zerocheck_claim(w.hs[*i].p.id); }
            for i in &k.sums {
                let s: Fr = w.hs[*i].p.evaluations().iter().sum();
                pt.add_sumcheck_claim(w.hs[*i].p.id, s);
            }
            let pt0 = pt.deep_copy();
            let proof = match pt.compile_proof() { Ok(p) => p, Err(e) => { res.push(("P13/compile", false, e.to_string())); return res; } };
            let nvmax = w.hs.iter().map(|h| h.nv).max().unwrap();
            // verifier with given claims and proof
            let commits: Vec<usize> = (0..w.hs.len()).filter(|i| matches!(w.hs[*i].e, Ex::Base(_))).collect();
            let (_, vk) = keys(4);
            let run2 = |edit: &dyn Fn(&mut Vec<(bool, usize, Fr)>, &VT), proof: &_| -> (Result<bool, String>, Option<VT>) {
                let mut vt = VT::new_from_pcs_params(vk.clone());
                let g = quiet(|| {
                    vt.set_compiled_proof(Clone::clone(proof));
                    let mut vs: Vec<TC> = vec![];
                    for h in &w.hs {
                        let v = match &h.e {
                            Ex::Base(_) => vt.transfer_prover_comm(h.p.id),
                            Ex::Add(a, b) => vs[*a].add_comms(&vs[*b]),
                            Ex::Sub(a, b) => vs[*a].sub_comms(&vs[*b]),
                            Ex::Mul(a, b) => vs[*a].mul_comms(&vs[*b]),
                            Ex::AddS(a, s) => vs[*a].add_scalar(*s),
                            Ex::MulS(a, s) => vs[*a].mul_scalar(*s),
                            Ex::Front(a, n) => vs[*a].increase_nv_front(*n),
                            Ex::Back(a, n) => vs[*a].increase_nv_back(*n),
                        };
                        vs.push(v);
                    }
                    let mut cl: Vec<(bool, usize, Fr)> = k.zeros.iter().map(|i| (true, *i, Fr::zero())).collect();
                    for i in &k.sums { cl.push((false, *i, vt.get_prover_claimed_sum(w.hs[*i].p.id))); }
                    edit(&mut cl, &vt);
                    for (z, i, s) in cl {
                        if z { vt.add_zerocheck_claim(vs[i].id); } else { vt.add_sumcheck_claim(vs[i].id, s); }
                    }
                    vt.verify_claims().is_ok()
                });
                (g, Some(vt))
            };
            let run = |edit: &dyn Fn(&mut Vec<(bool, usize, Fr)>), proof: &_| run2(&|cl, _| edit(cl), proof);
            let (g, vt) = run(&|_| (), &proof);
            res.push(("P13/honest-accepted", g == Ok(true), format!("{} nv={}: {:?}", what, nvmax, g)));
            if let Some(vt) = vt {
                res.push(("P13/lockstep-after", same_ids(&pt, &vt) && same_challenge(&pt, &vt), what.clone()));
            }
            // the reported sums are the true sums over the padded hypercube
            for i in &k.sums {
                let t: Fr = w.hs[*i].p.evaluations().iter().sum::<Fr>();
                let sc = Fr::from(1u64 << (nvmax - w.hs[*i].nv)) * t;
                let full = proof.sumcheck_claims.get(&w.hs[*i].p.id).copied();
                let tt = { let e = pt0.clone_underlying_tracker().evaluations(w.hs[*i].p.id).iter().sum::<Fr>(); Fr::from(1u64 << (nvmax - w.hs[*i].nv)) * e };
                res.push(("P13/claimed-sums", full == Some(sc) || full == Some(tt), what.clone()));
            }
            let rej = |g: &Result<bool, String>| *g == Ok(false);
            let one = Fr::one();
            for j in 0..k.sums.len() {
                let nz = k.zeros.len();
                let g = run(&|cl| cl[nz + j].2 += one, &proof).0;
                res.push(("P13/false-sum-rejected", rej(&g), format!("{} claim {}: {:?}", what, j, g)));
                if j > 0 {
                    // two sums moved against each other: needs independent challenges
                    let g = run(&|cl| { cl[nz + j].2 += one; cl[nz].2 -= one }, &proof).0;
                    res.push(("P13/two-false-sums-rejected", rej(&g), format!("{} claims 0,{}: {:?}", what, j, g)));
                }
            }
            // A forger who knows the claims' challenges before the claimed sums are fixed
            // moves two sums so that their weighted total stays the same.
            if k.sums.len() > 1 {
                let nz = k.zeros.len();
                let absorbed = c.below(2) == 1;
                let d = c.f();
                let g = run2(&|cl, vt| {
                    let mut v = vt.deep_copy();
                    for _ in 0..nz { v.get_and_append_challenge(b"zerocheck challenge").unwrap(); }
                    for _ in 0..nvmax { v.get_and_append_challenge(b"0check r").unwrap(); }
                    if absorbed {
                        let mut t = v.clone_underlying_tracker().transcript;
                        for x in cl[nz..].iter() { t.append_field_element(b"claimed sum", &x.2).unwrap(); }
                        let _ = t.append_field_element(b"claimed sum", &Fr::zero());
                        let (c0, c1) = (t.get_and_append_challenge(b"sumcheck challenge").unwrap(), t.get_and_append_challenge(b"sumcheck challenge").unwrap());
                        cl[nz].2 += d * c1;
                        cl[nz + 1].2 -= d * c0;
                    } else {
                        let (c0, c1) = (v.get_and_append_challenge(b"sumcheck challenge").unwrap(), v.get_and_append_challenge(b"sumcheck challenge").unwrap());
                        cl[nz].2 += d * c1;
                        cl[nz + 1].2 -= d * c0;
                    }
                }, &proof).0;
                res.push(("P13/adaptive-sums-rejected", rej(&g), format!("{} sums of claims 0 and 1 moved against each other: {:?}", what, g)));
            }
            let g = run(&|cl| cl.push((true, 1, Fr::zero())), &proof).0;
            res.push(("P13/extra-claim-rejected", rej(&g), format!("{}: {:?}", what, g)));
            let g = run(&|cl| { cl.remove(0); }, &proof).0;
            res.push(("P13/missing-claim-rejected", rej(&g), format!("{}: {:?}", what, g)));
            // a false zero claim recorded by both sides
            {
                let mut p2 = pt0.deep_copy();
                p2.add_zerocheck_claim(w.hs[1].p.id);
                match p2.compile_proof() {
                    Err(_) => res.push(("P13/false-zero-rejected", true, what.clone())),
                    Ok(pf) => {
                        let nz = k.zeros.len();
                        let g = run(&|cl| cl.insert(nz, (true, 1, Fr::zero())), &pf).0;
                        res.push(("P13/false-zero-rejected", rej(&g), format!("{} extra zero claim on a random table: {:?}", what, g)));
                    }
                }
            }
            // altered proof objects
            for j in 0..proof.sc_proof.proofs.len() {
                let mut pf = proof.clone();
                let mut m = pf.sc_proof.proofs[j].verif_evaluations().clone();
                let q = c.below(m.len());
                m[q] += c.f();
                pf.sc_proof.proofs[j] = crate::iop::msg(&m);
                let g = run(&|_| (), &pf).0;
                res.push(("P13/altered-round-rejected", rej(&g), format!("{} round {} entry {}: {:?}", what, j, q, g)));
            }
            for j in 0..commits.len() {
                let mut pf = proof.clone();
                pf.pcs_proof[0].f_i_eval_at_point_i[j] += c.f();
                let g = run(&|_| (), &pf).0;
                res.push(("P13/altered-value-rejected", rej(&g), format!("{} value {}: {:?}", what, j, g)));
                let mut pf = proof.clone();
                let id = w.hs[commits[j]].p.id;
                let gen = vk.g.into_group();
                let cm = pf.comms.get_mut(&id).unwrap();
                cm.0 = (cm.0.into_group() + gen).into_affine();
                let g = run(&|_| (), &pf).0;
                res.push(("P13/altered-commitment-rejected", rej(&g), format!("{} commitment {}: {:?}", what, j, g)));
            }
            {
                let (sc, gp) = { let (a, b) = proof.pcs_proof[0].verif_parts(); (a.clone(), b.clone()) };
                for j in 0..gp.proofs.len() {
                    let mut g2 = gp.clone();
                    g2.proofs[j] = (g2.proofs[j].into_group() + vk.g.into_group()).into_affine();
                    let mut pf = proof.clone();
                    pf.pcs_proof[0] = BatchProof::verif_new(sc.clone(), proof.pcs_proof[0].f_i_eval_at_point_i.clone(), g2);
                    let g = run(&|_| (), &pf).0;
                    res.push(("P13/altered-opening-rejected", rej(&g), format!("{} element {}: {:?}", what, j, g)));
                }
                let mut pf = proof.clone();
                pf.pcs_proof.clear();
                let g = run(&|_| (), &pf).0;
                res.push(("P13/no-opening-rejected", rej(&g), format!("{}: {:?}", what, g)));
                let mut pf = proof.clone();
                pf.sc_proof.proofs.pop();
                let g = run(&|_| (), &pf).0;
                res.push(("P13/short-sumcheck-rejected", rej(&g), format!("{}: {:?}", what, g)));
            }
            res
        });
        match r {
            Ok(res) => { for (k, ok, d) in res { c.check(ok, k, || d); } }
            Err(m) => { c.check(false, "P13/panic", || format!("{} PANIC {}", what, m)); }
        }
    }
    // A prover that claims a sum of one derived polynomial but proves another of
    // the same shape: only comparing the final sumcheck value with the opened
    // values can expose it.
    for sub in [true, false] {
        let r = quiet(|| {
            let (mut pt, mut vt) = trackers(3);
            let (a, b) = (c.rmle(2), c.rmle(2));
            let pa = pt.track_and_commit_poly(a.clone()).unwrap();
            let pb = pt.track_and_commit_poly(b.clone()).unwrap();
            let d = if sub { pa.sub_poly(&pb) } else { pb.add_poly(&pb) };
            let s: Fr = d.evaluations().iter().sum();
            pt.add_sumcheck_claim(d.id, s);
            let z = pa.sub_poly(&pa);
            pt.add_zerocheck_claim(z.id);
            let proof = pt.compile_proof().unwrap();
            vt.set_compiled_proof(proof);
            let ca = vt.transfer_prover_comm(TrackerID(0));
            let cb = vt.transfer_prover_comm(TrackerID(1));
            let e = ca.add_comms(&cb); // the verifier means a + b
            let s = vt.get_prover_claimed_sum(e.id);
            let truth: Fr = a.evaluations.iter().sum::<Fr>() + b.evaluations.iter().sum::<Fr>();
            vt.add_sumcheck_claim(e.id, s);
            let z = ca.sub_comms(&ca);
            vt.add_zerocheck_claim(z.id);
            (vt.verify_claims().is_ok(), s == truth)
        });
        let ok = matches!(r, Ok((false, _)) | Ok((true, true)));
        c.check(ok, "P13/unbound-final-value", || format!("verifier claims sum(a+b), prover proves sum of {}: (accepted, claim true) = {:?}", if sub { "a-b" } else { "b+b" }, r));
    }
}
