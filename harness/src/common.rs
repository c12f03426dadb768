//! Shared pieces of the concrete-execution harness: reference oracles written
//! from the mathematical definitions, and the failure collector.
pub use ark_bls12_381::{Bls12_381, Fr};
pub use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
pub use ark_poly::{DenseMultilinearExtension as Mle, MultilinearExtension};
pub use ark_std::rand::{Rng, RngCore, SeedableRng};
pub use rand_chacha::ChaCha20Rng;
pub use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use std::sync::Arc;
pub use zk_sql::subroutines::MultilinearKzgPCS;
pub type E = Bls12_381;
pub type Pcs = MultilinearKzgPCS<E>;

pub struct Fail {
    pub key: String,
    pub input: String,
}

pub struct Ctx {
    pub rng: ChaCha20Rng,
    pub thorough: bool,
    pub evals: u64,
    pub by_kind: BTreeMap<String, u64>,
    pub fails: Vec<Fail>,
    pub samples: Vec<String>,
    /// fingerprints of (kind, written-out case)
    pub seen: std::collections::HashSet<u64>,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Ctx { rng: ChaCha20Rng::seed_from_u64(seed), thorough, evals: 0, by_kind: BTreeMap::new(), fails: vec![], samples: vec![], seen: Default::default() }
    }
    pub fn n(&self, q: usize) -> usize {
        if self.thorough { q * 60 } else { q * 6 }
    }
    /// Record one evaluated case; `ok == false` is a violation.
    pub fn check(&mut self, ok: bool, key: &str, input: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            let s = input();
            s.hash(&mut h);
            self.seen.insert(h.finish());
            let input = move || s;
            return self.check_inner(ok, key, input);
        }
    }
    fn check_inner(&mut self, ok: bool, key: &str, input: impl FnOnce() -> String) -> bool {
        let c = self.by_kind.entry(key.to_string()).or_insert(0);
        *c += 1;
        if *c == 1 && self.samples.len() < 6 {
            // keep the first case of a few kinds as written-out samples
            let s = input();
            self.samples.push(format!("{}: {}", key, clip(&s)));
            if !ok {
                self.push_fail(key, s);
            }
            return ok;
        }
        if !ok {
            let s = input();
            self.push_fail(key, s);
        }
        ok
    }
    fn push_fail(&mut self, key: &str, input: String) {
        if self.fails.iter().filter(|f| f.key == key).count() < 3 {
            self.fails.push(Fail { key: key.to_string(), input });
        }
    }
    /// Run code that must not panic.
    pub fn guard<T>(&mut self, key: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match quiet(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.check(false, key, || format!("{} PANIC: {}", input(), m));
                None
            }
        }
    }
    pub fn f(&mut self) -> Fr {
        Fr::rand(&mut self.rng)
    }
    /// A field element, sometimes small or special.
    pub fn fs(&mut self) -> Fr {
        match self.rng.next_u32() % 8 {
            0 => Fr::zero(),
            1 => Fr::one(),
            2 => -Fr::one(),
            3 => Fr::from(self.rng.next_u32() as u64 % 7),
            4 => [Fr::from(2u64), Fr::from(2u64).inverse().unwrap(), -Fr::from(2u64)][self.below(3)],
            _ => Fr::rand(&mut self.rng),
        }
    }
    /// A vector of field elements of one of several shapes: mixed, a tiny alphabet,
    /// a constant or repeating pattern with a few exceptions, equal ends.
    pub fn fvec(&mut self, n: usize) -> Vec<Fr> {
        if n < 2 {
            return (0..n).map(|_| self.fs()).collect();
        }
        match self.rng.next_u32() % 8 {
            0 | 1 => {
                let k = 2 + self.below(2);
                (0..n).map(|_| Fr::from(self.below(k) as u64)).collect()
            }
            2 | 3 => {
                let p = 1 + self.below(4);
                let base: Vec<Fr> = (0..p).map(|_| self.fs()).collect();
                let mut v: Vec<Fr> = (0..n).map(|i| base[i % p]).collect();
                for _ in 0..self.below(3) {
                    let i = self.below(n);
                    v[i] = self.fs();
                }
                v
            }
            4 => {
                let mut v: Vec<Fr> = (0..n).map(|_| self.fs()).collect();
                v[n - 1] = v[0];
                v
            }
            _ => (0..n).map(|_| self.fs()).collect(),
        }
    }
    pub fn rvec(&mut self, n: usize) -> Vec<Fr> {
        (0..n).map(|_| Fr::rand(&mut self.rng)).collect()
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.rng.next_u64() % n as u64) as usize
    }
    pub fn mle(&mut self, nv: usize) -> Mle<Fr> {
        let v = self.fvec(1 << nv);
        Mle::from_evaluations_vec(nv, v)
    }
    pub fn rmle(&mut self, nv: usize) -> Mle<Fr> {
        let v = self.rvec(1 << nv);
        Mle::from_evaluations_vec(nv, v)
    }
}

pub fn clip(s: &str) -> String {
    if s.len() > 400 { format!("{}...", &s.chars().take(400).collect::<String>()) } else { s.to_string() }
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }),
    }
}

/// Print a field element in decimal, short when small (or small negative).
pub fn sf(x: &Fr) -> String {
    let b = x.into_bigint();
    if b.0[1] == 0 && b.0[2] == 0 && b.0[3] == 0 {
        return format!("{}", b.0[0]);
    }
    let m = (-*x).into_bigint();
    if m.0[1] == 0 && m.0[2] == 0 && m.0[3] == 0 {
        return format!("-{}", m.0[0]);
    }
    format!("{}", b)
}
pub fn sv(v: &[Fr]) -> String {
    format!("[{}]", v.iter().map(sf).collect::<Vec<_>>().join(", "))
}

// ---------------------------------------------------------------- oracles

/// Value at `x` of the multilinear polynomial with table `t` (variable 0 is
/// the lowest index bit): sum_b t[b] * prod_i (b_i ? x_i : 1-x_i).
pub fn o_mle(t: &[Fr], x: &[Fr]) -> Fr {
    assert_eq!(t.len(), 1 << x.len());
    let mut s = Fr::zero();
    for (b, v) in t.iter().enumerate() {
        if v.is_zero() {
            continue;
        }
        s += *v * o_eq_at(x, b);
    }
    s
}
pub fn o_eq_at(r: &[Fr], b: usize) -> Fr {
    let mut p = Fr::one();
    for (i, ri) in r.iter().enumerate() {
        p *= if b >> i & 1 == 1 { *ri } else { Fr::one() - ri };
    }
    p
}
pub fn o_eq(x: &[Fr], y: &[Fr]) -> Fr {
    x.iter().zip(y).map(|(a, b)| *a * b + (Fr::one() - a) * (Fr::one() - b)).product()
}
/// Lagrange interpolation through (0,v0),(1,v1),... evaluated at x.
pub fn o_interp(v: &[Fr], x: Fr) -> Fr {
    let mut s = Fr::zero();
    for i in 0..v.len() {
        let mut num = Fr::one();
        let mut den = Fr::one();
        for j in 0..v.len() {
            if i != j {
                num *= x - Fr::from(j as u64);
                den *= Fr::from(i as u64) - Fr::from(j as u64);
            }
        }
        s += v[i] * num * den.inverse().unwrap();
    }
    s
}
pub fn bits_pt(b: usize, n: usize) -> Vec<Fr> {
    (0..n).map(|i| if b >> i & 1 == 1 { Fr::one() } else { Fr::zero() }).collect()
}
