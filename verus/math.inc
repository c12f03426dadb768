// ---- powers of two, shifts, sums, equality weights, multilinear evaluation (all proved) ----
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
pub proof fn p2_pos(n: int) ensures p2(n) >= 1 decreases n { if n > 0 { p2_pos(n - 1); } }
pub proof fn p2_mono(a: int, b: int) requires a <= b ensures p2(a) <= p2(b) decreases b - a { if a < b { p2_mono(a, b - 1); p2_pos(b - 1); } }
pub proof fn p2_add(a: int, b: int) requires a >= 0, b >= 0 ensures p2(a + b) == p2(a) * p2(b) decreases b {
    if b > 0 { p2_add(a, b - 1); assert(p2(a) * (2 * p2(b - 1)) == 2 * (p2(a) * p2(b - 1))) by(nonlinear_arith); } else { assert(p2(a) * 1 == p2(a)); }
}
pub proof fn p2_64() ensures p2(63) == 0x8000_0000_0000_0000, p2(64) == 0x1_0000_0000_0000_0000, p2(62) == 0x4000_0000_0000_0000, p2(1) == 2, p2(0) == 1, p2(32) == 0x1_0000_0000 {
    assert(p2(64) == 0x1_0000_0000_0000_0000) by(compute); assert(p2(63) == 0x8000_0000_0000_0000) by(compute); assert(p2(62) == 0x4000_0000_0000_0000) by(compute); assert(p2(32) == 0x1_0000_0000) by(compute);
}
pub broadcast proof fn shl1_usize(n: usize) ensures n < 64 ==> #[trigger] (1usize << n) == p2(n as int) decreases n {
    if n < 64 {
        if n == 0 { assert(1usize << 0usize == 1) by(bit_vector); }
        else {
            let m = (n - 1) as usize; shl1_usize(m);
            assert(1usize << n == mul(2, 1usize << m)) by(bit_vector) requires n < 64usize, n > 0usize, m == sub(n, 1);
            p2_mono(m as int, 62); p2_64();
        }
    }
}
pub broadcast proof fn shl1_u64(n: u64) ensures n < 64 ==> #[trigger] (1u64 << n) == p2(n as int) decreases n {
    if n < 64 {
        if n == 0 { assert(1u64 << 0u64 == 1) by(bit_vector); }
        else {
            let m = (n - 1) as u64; shl1_u64(m);
            assert(1u64 << n == mul(2, 1u64 << m)) by(bit_vector) requires n < 64u64, n > 0u64, m == sub(n, 1);
            p2_mono(m as int, 62); p2_64();
        }
    }
}
pub broadcast proof fn shl1_u64_usize(n: usize) ensures n < 64 ==> #[trigger] (1u64 << n) == p2(n as int) {
    if n < 64 { shl1_u64(n as u64); assert(1u64 << n == 1u64 << (n as u64)) by(bit_vector) requires n < 64; }
}
pub broadcast proof fn shl_one(x: usize) ensures x < 0x8000_0000_0000_0000 ==> #[trigger] (x << 1) == 2 * x {
    if x < 0x8000_0000_0000_0000usize { assert(x << 1 == mul(2, x)) by(bit_vector) requires x < 0x8000_0000_0000_0000usize; }
}
pub broadcast proof fn shl_one_u64(x: u64) ensures x < 0x8000_0000_0000_0000 ==> #[trigger] (x << 1) == 2 * x {
    if x < 0x8000_0000_0000_0000u64 { assert(x << 1 == mul(2, x)) by(bit_vector) requires x < 0x8000_0000_0000_0000u64; }
}
pub broadcast proof fn shr_one(x: usize) ensures #[trigger] (x >> 1) == x / 2 { assert(x >> 1 == x / 2) by(bit_vector); }
pub broadcast proof fn shr_one_u64(x: u64) ensures #[trigger] (x >> 1) == x / 2 { assert(x >> 1 == x / 2) by(bit_vector); }
pub broadcast proof fn and_one_u64(x: u64) ensures #[trigger] (x & 1) == x % 2 { assert(x & 1 == x % 2) by(bit_vector); }
pub broadcast proof fn and_one(x: usize) ensures #[trigger] (x & 1) == x % 2 { assert(x & 1 == x % 2) by(bit_vector); }
pub broadcast group shifts { shl1_usize, shl1_u64, shl1_u64_usize, shl_one, shl_one_u64, shr_one, shr_one_u64, and_one, and_one_u64 }
/// bit i of x
pub open spec fn bit(x: int, i: int) -> bool decreases i { if i <= 0 { x % 2 == 1 } else { bit(x / 2, i - 1) } }
/// little-endian value of a boolean sequence
pub open spec fn le(s: Seq<bool>) -> int decreases s.len() { if s.len() == 0 { 0 } else { (if s[0] { 1int } else { 0int }) + 2 * le(s.subrange(1, s.len() as int)) } }
pub proof fn le_bound(s: Seq<bool>) ensures 0 <= le(s) < p2(s.len() as int) decreases s.len() { if s.len() > 0 { le_bound(s.subrange(1, s.len() as int)); } }
pub proof fn le_bits(x: int, s: Seq<bool>) requires x >= 0, forall|i: int| 0 <= i < s.len() ==> s[i] == bit(x, i) ensures le(s) == x % p2(s.len() as int) decreases s.len() {
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        assert forall|i: int| 0 <= i < t.len() implies t[i] == bit(x / 2, i) by { assert(t[i] == s[i + 1]); }
        le_bits(x / 2, t);
        let m = p2(t.len() as int); p2_pos(t.len() as int);
        mod_split(x, m);
    } else { assert(x % 1 == 0); }
}
pub proof fn mod_split(x: int, m: int) requires x >= 0, m >= 1 ensures x % (2 * m) == x % 2 + 2 * ((x / 2) % m) {
    let q = (x / 2) / m; let r = (x / 2) % m;
    lemma_fundamental_div_mod(x / 2, m);
    assert(x == 2 * (x / 2) + x % 2);
    assert(x == q * (2 * m) + (2 * r + x % 2)) by(nonlinear_arith) requires x == 2 * (x / 2) + x % 2, x / 2 == m * q + r;
    lemma_fundamental_div_mod_converse(x, 2 * m, q, 2 * r + x % 2);
}

// finite sums
pub open spec fn fsum(n: int, f: spec_fn(int) -> F) -> F decreases n { if n <= 0 { f0() } else { fadd(fsum(n - 1, f), f(n - 1)) } }
pub open spec fn fprod(n: int, f: spec_fn(int) -> F) -> F decreases n { if n <= 0 { f1() } else { fmul(fprod(n - 1, f), f(n - 1)) } }
pub proof fn fsum_eq(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures fsum(n, f) == fsum(n, g) decreases n { if n > 0 { fsum_eq(n - 1, f, g); } }
pub proof fn fprod_eq(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures fprod(n, f) == fprod(n, g) decreases n { if n > 0 { fprod_eq(n - 1, f, g); } }
pub proof fn fsum_add(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F) ensures fsum(n, |i: int| fadd(f(i), g(i))) == fadd(fsum(n, f), fsum(n, g)) decreases n {
    broadcast use fhom;
    if n > 0 { fsum_add(n - 1, f, g);
        let (a, b, c, d) = (frep(fsum(n - 1, f)), frep(fsum(n - 1, g)), frep(f(n - 1)), frep(g(n - 1)));
        assert((a + b) + (c + d) == (a + c) + (b + d));
    }
}
pub proof fn fsum_scale(n: int, c: F, f: spec_fn(int) -> F) ensures fsum(n, |i: int| fmul(c, f(i))) == fmul(c, fsum(n, f)) decreases n {
    broadcast use funits;
    if n > 0 { fsum_scale(n - 1, c, f); fmul_dist(c, fsum(n - 1, f), f(n - 1)); }
}
pub proof fn fsum_zero(n: int, f: spec_fn(int) -> F) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == f0() ensures fsum(n, f) == f0() decreases n { broadcast use funits; if n > 0 { fsum_zero(n - 1, f); } }
/// pairwise regrouping: sum over 2n = sum over pairs
pub proof fn fsum_pairs(n: int, f: spec_fn(int) -> F) requires n >= 0 ensures fsum(2 * n, f) == fsum(n, |i: int| fadd(f(2 * i), f(2 * i + 1))) decreases n {
    if n > 0 { fsum_pairs(n - 1, f);
        let g = |i: int| fadd(f(2 * i), f(2 * i + 1));
        assert(fsum(2 * n - 1, f) == fadd(fsum(2 * n - 2, f), f(2 * n - 2)));
        assert(fsum(2 * n, f) == fadd(fadd(fsum(2 * n - 2, f), f(2 * n - 2)), f(2 * n - 1)));
        fadd_assoc(fsum(2 * n - 2, f), f(2 * n - 2), f(2 * n - 1));
        assert(g(n - 1) == fadd(f(2 * (n - 1)), f(2 * (n - 1) + 1)));
    }
}
/// halves: sum over m+n = sum over m + shifted sum over n
pub proof fn fsum_split(m: int, n: int, f: spec_fn(int) -> F) requires m >= 0, n >= 0 ensures fsum(m + n, f) == fadd(fsum(m, f), fsum(n, |i: int| f(m + i))) decreases n {
    broadcast use funits;
    if n > 0 { fsum_split(m, n - 1, f); fadd_assoc(fsum(m, f), fsum(n - 1, |i: int| f(m + i)), f(m + n - 1)); }
}
/// exchange of two finite sums
pub proof fn fsum_swap(n: int, m: int, f: spec_fn(int, int) -> F) ensures fsum(n, |i: int| fsum(m, |j: int| f(i, j))) == fsum(m, |j: int| fsum(n, |i: int| f(i, j))) decreases n {
    let inner = |i: int| fsum(m, |j: int| f(i, j));
    if n > 0 {
        fsum_swap(n - 1, m, f);
        let a = |j: int| fsum(n - 1, |i: int| f(i, j)); let b = |j: int| f(n - 1, j);
        fsum_add(m, a, b);
        let g = |j: int| fsum(n, |i: int| f(i, j));
        assert forall|j: int| 0 <= j < m implies #[trigger] g(j) == (|j: int| fadd(a(j), b(j)))(j) by { }
        fsum_eq(m, g, |j: int| fadd(a(j), b(j)));
        assert(inner(n - 1) == fsum(m, |j: int| f(n - 1, j)));
        fsum_eq(m, b, |j: int| f(n - 1, j));
    } else {
        fsum_zero(m, |j: int| fsum(n, |i: int| f(i, j)));
    }
}

// equality weights and multilinear evaluation
/// eq(b, r) = prod_i (bit_i(b) ? r_i : 1 - r_i), variable 0 = least significant bit
pub open spec fn eqw(b: int, r: Seq<F>) -> F decreases r.len() {
    if r.len() == 0 { f1() } else { fmul(if b % 2 == 1 { r[0] } else { fsub(f1(), r[0]) }, eqw(b / 2, r.subrange(1, r.len() as int))) }
}
/// the multilinear extension of the table ev (2^n values) at the point r (n coordinates)
pub open spec fn mlev(ev: Seq<F>, r: Seq<F>) -> F { fsum(p2(r.len() as int), |b: int| fmul(ev[b], eqw(b, r))) }
/// table after setting variable 0 (least significant) to x
pub open spec fn fold_lo(ev: Seq<F>, x: F) -> Seq<F> { Seq::new(ev.len() / 2, |i: int| fadd(ev[2 * i], fmul(fsub(ev[2 * i + 1], ev[2 * i]), x))) }
/// table after setting the last variable (most significant) to x
pub open spec fn fold_hi(ev: Seq<F>, x: F) -> Seq<F> { Seq::new(ev.len() / 2, |i: int| fadd(ev[i], fmul(fsub(ev[i + ev.len() / 2], ev[i]), x))) }
pub open spec fn fold_lo_n(ev: Seq<F>, r: Seq<F>) -> Seq<F> decreases r.len() { if r.len() == 0 { ev } else { fold_lo_n(fold_lo(ev, r[0]), r.subrange(1, r.len() as int)) } }
pub proof fn ring_fold(a: F, b: F, x: F, w: F) ensures fadd(fmul(a, fmul(fsub(f1(), x), w)), fmul(b, fmul(x, w))) == fmul(fadd(a, fmul(fsub(b, a), x)), w) {
    broadcast use fhom;
    let (a, b, x, w) = (frep(a), frep(b), frep(x), frep(w));
    assert(a * ((1 - x) * w) + b * (x * w) == (a + (b - a) * x) * w) by(nonlinear_arith);
}
/// fixing variable 0 first does not change the multilinear extension
pub proof fn mle_fold_lo(ev: Seq<F>, r: Seq<F>) requires r.len() > 0, ev.len() == p2(r.len() as int)
    ensures mlev(ev, r) == mlev(fold_lo(ev, r[0]), r.subrange(1, r.len() as int)), fold_lo(ev, r[0]).len() == p2(r.len() - 1) {
    let n = r.len() as int; let m = p2(n - 1); p2_pos(n - 1);
    let t = r.subrange(1, n);
    let f = |b: int| fmul(ev[b], eqw(b, r));
    fsum_pairs(m, f);
    let g = |i: int| fadd(f(2 * i), f(2 * i + 1));
    let h = |b: int| fmul(fold_lo(ev, r[0])[b], eqw(b, t));
    assert forall|i: int| 0 <= i < m implies #[trigger] g(i) == h(i) by {
        assert((2 * i) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) / 2 == i && (2 * i + 1) % 2 == 1);
        ring_fold(ev[2 * i], ev[2 * i + 1], r[0], eqw(i, t));
    }
    fsum_eq(m, g, h);
}
/// index with the top bit split off
pub proof fn eqw_top(b: int, r: Seq<F>) requires r.len() > 0, 0 <= b < p2(r.len() as int)
    ensures eqw(b, r) == fmul(if b >= p2(r.len() - 1) { r[r.len() - 1] } else { fsub(f1(), r[r.len() - 1]) }, eqw(if b >= p2(r.len() - 1) { b - p2(r.len() - 1) } else { b }, r.subrange(0, r.len() - 1))) decreases r.len() {
    let n = r.len() as int; let d = r.subrange(0, n - 1);
    if n == 1 { assert(p2(0) == 1); assert(p2(1) == 2); assert(r.subrange(1, 1) =~= Seq::empty()); assert(d =~= Seq::empty()); assert(b % 2 == b); }
    else {
        let t = r.subrange(1, n);
        assert(p2(n) == 2 * p2(n - 1) && p2(n - 1) == 2 * p2(n - 2));
        eqw_top(b / 2, t);
        let hi = b >= p2(n - 1); let b2 = if hi { b - p2(n - 1) } else { b };
        assert(hi == (b / 2 >= p2(n - 2)));
        assert(b2 % 2 == b % 2);
        assert(b2 / 2 == if hi { b / 2 - p2(n - 2) } else { b / 2 });
        assert(t.subrange(0, n - 2) =~= d.subrange(1, n - 1));
        assert(t[n - 2] == r[n - 1]); assert(d[0] == r[0]);
        let x = if b % 2 == 1 { r[0] } else { fsub(f1(), r[0]) };
        let y = if hi { r[n - 1] } else { fsub(f1(), r[n - 1]) };
        let z = eqw(b2 / 2, d.subrange(1, n - 1));
        assert(eqw(b, r) == fmul(x, fmul(y, z)));
        assert(eqw(b2, d) == fmul(x, z));
        fmul_assoc(x, y, z); fmul_comm(x, y); fmul_assoc(y, x, z);
    }
}
pub proof fn mle_fold_hi(ev: Seq<F>, r: Seq<F>) requires r.len() > 0, ev.len() == p2(r.len() as int)
    ensures mlev(ev, r) == mlev(fold_hi(ev, r[r.len() - 1]), r.subrange(0, r.len() - 1)), fold_hi(ev, r[r.len() - 1]).len() == p2(r.len() - 1) {
    let n = r.len() as int; let m = p2(n - 1); p2_pos(n - 1);
    let d = r.subrange(0, n - 1); let x = r[n - 1];
    let f = |b: int| fmul(ev[b], eqw(b, r));
    fsum_split(m, m, f);
    let f2 = |i: int| f(m + i);
    fsum_add(m, f, f2);
    let g = |i: int| fadd(f(i), f2(i));
    let h = |b: int| fmul(fold_hi(ev, x)[b], eqw(b, d));
    assert forall|i: int| 0 <= i < m implies #[trigger] g(i) == h(i) by {
        eqw_top(i, r); eqw_top(m + i, r);
        assert(m + i == i + m);
        ring_fold(ev[i], ev[i + m], x, eqw(i, d));
    }
    fsum_eq(m, g, h);
}
pub proof fn mle_nil(ev: Seq<F>, r: Seq<F>) requires r.len() == 0, ev.len() >= 1 ensures mlev(ev, r) == ev[0] {
    broadcast use funits; assert(p2(0) == 1);
    let f = |b: int| fmul(ev[b], eqw(b, r)); assert(fsum(1, f) == fadd(fsum(0, f), f(0)));
}
pub broadcast proof fn ipow_p2(e: int) ensures #[trigger] ipow(2, e) == p2(e) decreases e { if e > 0 { ipow_p2(e - 1); } }
pub proof fn p2_div(a: int, b: int) requires 0 <= a <= b ensures p2(b) / p2(a) == p2(b - a), p2(b) == p2(a) * p2(b - a) { p2_add(a, b - a); p2_pos(a); assert(p2(a) * p2(b - a) == p2(b - a) * p2(a)) by(nonlinear_arith); lemma_fundamental_div_mod_converse(p2(b), p2(a), p2(b - a), 0); }
/// table padded with a extra low variables
pub open spec fn padded_front(out: Seq<F>, ev: Seq<F>, a: int) -> bool { out.len() == ev.len() * p2(a) && forall|k: int| 0 <= k < out.len() ==> #[trigger] out[k] == ev[k / p2(a)] }
/// table padded with extra high variables
pub open spec fn padded_back(out: Seq<F>, ev: Seq<F>, a: int) -> bool { out.len() == ev.len() * p2(a) && forall|k: int| 0 <= k < out.len() ==> #[trigger] out[k] == ev[k % (ev.len() as int)] }
pub proof fn mle_padded_front(out: Seq<F>, ev: Seq<F>, z: Seq<F>, x: Seq<F>) requires padded_front(out, ev, z.len() as int), ev.len() == p2(x.len() as int) ensures mlev(out, z + x) == mlev(ev, x) decreases z.len() {
    broadcast use funits;
    let a = z.len() as int;
    if a == 0 { assert(z + x =~= x); assert(p2(a) == 1); assert(ev.len() * 1 == ev.len()); assert(out.len() == ev.len()); assert forall|k: int| 0 <= k < ev.len() implies out[k] == ev[k] by { assert(k / 1 == k); assert(out[k] == ev[k / p2(a)]); } assert(out =~= ev); }
    else {
        let t = z.subrange(1, a); let r = z + x; p2_pos(a - 1); p2_pos(x.len() as int);
        assert(ev.len() * (2 * p2(a - 1)) == 2 * (ev.len() * p2(a - 1))) by(nonlinear_arith);
        p2_add(x.len() as int, a); p2_add(x.len() as int, a - 1);
        mle_fold_lo(out, r);
        assert(r.subrange(1, r.len() as int) =~= t + x);
        let fl = fold_lo(out, z[0]);
        assert forall|k: int| 0 <= k < fl.len() implies #[trigger] fl[k] == ev[k / p2(a - 1)] by {
            lemma_div_denominator(2 * k, 2, p2(a - 1)); lemma_div_denominator(2 * k + 1, 2, p2(a - 1));
            assert((2 * k) / 2 == k && (2 * k + 1) / 2 == k);
            assert(out[2 * k] == out[2 * k + 1]);
        }
        mle_padded_front(fl, ev, t, x);
    }
}
pub proof fn mle_padded_back(out: Seq<F>, ev: Seq<F>, x: Seq<F>, z: Seq<F>) requires padded_back(out, ev, z.len() as int), ev.len() == p2(x.len() as int) ensures mlev(out, x + z) == mlev(ev, x) decreases z.len() {
    broadcast use funits;
    let a = z.len() as int; let n = x.len() as int; let m = ev.len() as int; p2_pos(n);
    if a == 0 { assert(x + z =~= x); assert(p2(a) == 1); assert(ev.len() * 1 == ev.len()); assert(out.len() == ev.len()); assert forall|k: int| 0 <= k < ev.len() implies out[k] == ev[k] by { lemma_small_mod(k as nat, m as nat); assert(out[k] == ev[k % m]); } assert(out =~= ev); }
    else {
        let t = z.subrange(0, a - 1); let r = x + z; p2_pos(a - 1);
        assert(m * (2 * p2(a - 1)) == 2 * (m * p2(a - 1))) by(nonlinear_arith);
        p2_add(n, a); p2_add(n, a - 1);
        mle_fold_hi(out, r);
        assert(r.subrange(0, r.len() - 1) =~= x + t);
        let fl = fold_hi(out, z[a - 1]); let h = out.len() as int / 2;
        assert(h == m * p2(a - 1));
        assert forall|k: int| 0 <= k < fl.len() implies #[trigger] fl[k] == ev[k % m] by {
            lemma_mod_multiples_vanish(p2(a - 1), k, m);
            assert(out[k + h] == out[k]);
        }
        mle_padded_back(fl, ev, x, t);
    }
}
pub proof fn bit_div(x: int, i: int) requires x >= 0, i >= 0 ensures bit(x, i) == ((x / p2(i)) % 2 == 1) decreases i {
    if i > 0 { bit_div(x / 2, i - 1); p2_pos(i - 1); lemma_div_denominator(x, 2, p2(i - 1)); assert(2 * p2(i - 1) == p2(i)); } else { assert(x / 1 == x); }
}
