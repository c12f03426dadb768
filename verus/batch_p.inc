// ---- batched openings, prover: src/subroutines/pcs/multilinear_kzg/batching.rs ----
//@typemap iter::repeat_with => zk_repeat_with
// ordered maps: a map from key contents
pub trait ZkKey { type C; spec fn zk_key(&self) -> Self::C; }
impl ZkKey for usize { type C = usize; open spec fn zk_key(&self) -> usize { *self } }
impl<'a> ZkKey for &'a Vec<F> { type C = Seq<F>; open spec fn zk_key(&self) -> Seq<F> { (**self)@ } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct BTreeMap<K, V> { x: Vec<(K, V)> }
impl<K: ZkKey, V> View for BTreeMap<K, V> { type V = Map<K::C, V>; uninterp spec fn view(&self) -> Map<K::C, V>; }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct ZkVals<V> { x: Vec<V> }
impl<V> View for ZkVals<V> { type V = Seq<V>; uninterp spec fn view(&self) -> Seq<V>; }
pub trait ZkFromVals<V>: Sized { spec fn zk_is(&self, s: Seq<V>) -> bool; fn zk_mk(v: ZkVals<V>) -> (r: Self) ensures r.zk_is(v@); }
impl<V> ZkFromVals<V> for Vec<V> { open spec fn zk_is(&self, s: Seq<V>) -> bool { self@ == s } #[verifier::external_body] fn zk_mk(v: ZkVals<V>) -> (r: Self) { unimplemented!() } }
impl<V> ZkVals<V> { pub fn collect<C: ZkFromVals<V>>(self) -> (r: C) ensures r.zk_is(self@) { C::zk_mk(self) } }
pub open spec fn asc(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
/// the values of an ordered map with number keys, in the order of the keys
pub open spec fn in_order<V>(m: Map<usize, V>, ks: Seq<usize>, r: Seq<V>) -> bool { asc(ks) && ks.len() == r.len() && (forall|k: usize| m.contains_key(k) <==> ks.contains(k)) && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == m[ks[i]] }
pub open spec fn vals_of<V>(m: Map<usize, V>, r: Seq<V>) -> bool { exists|ks: Seq<usize>| in_order(m, ks, r) }
pub open spec fn from_list<K: ZkKey, V>(v: Seq<(K, V)>, m: Map<K::C, V>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0.zk_key())
    &&& forall|k: K::C| m.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0.zk_key() == k && v[i].1 == m[k]
}
pub open spec fn swapped(s: Seq<(&Vec<F>, usize)>) -> Seq<(usize, &Vec<F>)> { Seq::new(s.len(), |i: int| (s[i].1, s[i].0)) }
impl<K: ZkKey, V> BTreeMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::C, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn from_iter(v: Vec<(K, V)>) -> (r: Self) ensures from_list(v@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn zk_at(&self, k: K) -> (r: &V) requires self@.contains_key(k.zk_key()) ensures *r == self@[k.zk_key()] { unimplemented!() }
}
impl<V> BTreeMap<usize, V> { #[verifier::external_body] pub fn into_values(self) -> (r: ZkVals<V>) ensures vals_of(self@, r@) { unimplemented!() } }
/// m.entry(k).or_insert(d): the entry's value, in place
#[verifier::external_body] pub fn zk_entry_or<'a, K: ZkKey, V>(m: &'a mut BTreeMap<K, V>, k: K, d: V) -> (ret: &'a mut V) ensures *ret == (if old(m)@.contains_key(k.zk_key()) { old(m)@[k.zk_key()] } else { d }), final(m)@ == old(m)@.insert(k.zk_key(), *final(ret)) { unimplemented!() }
#[verifier::external_body] pub fn zk_entries<K: ZkKey, V>(m: &BTreeMap<K, V>) -> (r: Vec<(K, V)>) ensures forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).0.zk_key()) && m@[r@[i].0.zk_key()] == r@[i].1, forall|k: K::C| m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0.zk_key() == k { unimplemented!() }
pub proof fn asc_id(ks: Seq<usize>, n: int) requires asc(ks), forall|k: usize| ks.contains(k) <==> 0 <= k < n, 0 <= n <= usize::MAX ensures ks.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] ks[i] == i {
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] >= i by { asc_ge(ks, i); }
    assert forall|i: int| 0 <= i < n implies i < ks.len() && #[trigger] ks[i] == i by { asc_at(ks, n, i); }
    if ks.len() > n { assert(ks[n] >= n); assert(ks.contains(ks[n])); } if n > 0 { assert(ks[n - 1] == n - 1); }
}
pub proof fn asc_ge(ks: Seq<usize>, i: int) requires asc(ks), 0 <= i < ks.len() ensures ks[i] >= i decreases i { if i > 0 { asc_ge(ks, i - 1); assert(ks[i - 1] < ks[i]); } }
pub proof fn asc_at(ks: Seq<usize>, n: int, i: int) requires asc(ks), forall|k: usize| ks.contains(k) <==> 0 <= k < n, n <= usize::MAX, 0 <= i < n ensures i < ks.len(), ks[i] == i decreases i {
    assert forall|j: int| 0 <= j < i implies j < ks.len() && #[trigger] ks[j] == j by { asc_at(ks, n, j); }
    assert(ks.contains(i as usize)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == i as usize; asc_ge(ks, j);
    if j < i { assert(ks[j] == j); }
}
// iter::repeat_with(f).map(g).take(n).collect(): n results of g on results of f
#[verifier::reject_recursive_types(T)] pub struct ZkRep<T> { pub p: Ghost<spec_fn(T) -> bool>, pub n: Ghost<int>, pub x: Option<T> }
#[verifier::external_body] pub fn zk_repeat_with<T, G: Fn() -> T>(g: G) -> (r: ZkRep<T>) requires g.requires(()) ensures forall|x: T| #[trigger] (r.p@)(x) ==> g.ensures((), x) { unimplemented!() }
impl<T> ZkRep<T> {
    #[verifier::external_body] pub fn map<U, G: Fn(T) -> U>(self, g: G) -> (r: ZkRep<U>) requires forall|x: T| (self.p@)(x) ==> #[trigger] g.requires((x,)) ensures forall|u: U| #[trigger] (r.p@)(u) ==> exists|x: T| #[trigger] (self.p@)(x) && g.ensures((x,), u) { unimplemented!() }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: ZkRep<T>) ensures r.p@ == self.p@, r.n@ == n { unimplemented!() }
    #[verifier::external_body] pub fn collect<C: ZkFromVals<T>>(self) -> (r: C) ensures exists|s: Seq<T>| r.zk_is(s) && s.len() == self.n@ && forall|i: int| 0 <= i < s.len() ==> (self.p@)(#[trigger] s[i]) { unimplemented!() }
}
pub trait ZkDeref { type T; spec fn zk_dr(&self) -> Self::T; fn zk_deref(&self) -> (r: &Self::T) ensures *r == self.zk_dr(); }
impl<T> ZkDeref for Arc<T> { type T = T; open spec fn zk_dr(&self) -> T { **self } fn zk_deref(&self) -> (r: &T) { &**self } }
// ark_poly: the zero table is the constant 0; adding a multiple of a table treats a zero constant as neutral
pub open spec fn d_zero(nv: int, ev: Seq<F>) -> bool { nv == 0 && ev[0] == f0() }
pub open spec fn scaled(c: F, ev: Seq<F>) -> Seq<F> { Seq::new(ev.len(), |x: int| fmul(c, ev[x])) }
/// b is a plus c times p
pub open spec fn added(a: DenseMultilinearExtension, c: F, p: DenseMultilinearExtension, b: DenseMultilinearExtension) -> bool {
    if d_zero(p.num_vars as int, scaled(c, p.evaluations@)) { b.num_vars == a.num_vars && b.evaluations@ == a.evaluations@ }
    else if d_zero(a.num_vars as int, a.evaluations@) { b.num_vars == p.num_vars && b.evaluations@ == scaled(c, p.evaluations@) }
    else { b.num_vars == a.num_vars && b.evaluations@ == Seq::new(a.evaluations@.len(), |x: int| fadd(a.evaluations@[x], fmul(c, p.evaluations@[x]))) }
}
impl DenseMultilinearExtension {
    #[verifier::external_body] pub fn zero() -> (r: DenseMultilinearExtension) ensures r.num_vars == 0, r.evaluations@ == seq![f0()] { unimplemented!() }
    #[verifier::external_body] pub fn zk_add_assign(&self, r: (F, &DenseMultilinearExtension)) -> (ret: DenseMultilinearExtension)
        requires dwf(*self), dwf(*r.1), r.1.num_vars == self.num_vars || d_zero(self.num_vars as int, self.evaluations@) || d_zero(r.1.num_vars as int, scaled(r.0, r.1.evaluations@)),
        ensures added(*self, r.0, *r.1, ret),
    { unimplemented!() }
}
pub open spec fn tabs(p: Seq<Arc<DenseMultilinearExtension>>) -> Seq<Seq<F>> { Seq::new(p.len(), |i: int| p[i].evaluations@) }
/// what the terms with point z add up to
pub open spec fn gterm(pts: Seq<Seq<F>>, z: Seq<F>, w: spec_fn(int) -> F, h: spec_fn(int) -> F) -> spec_fn(int) -> F { |i: int| if pts[i] == z { fmul(w(i), h(i)) } else { f0() } }
pub open spec fn gsum(m: int, pts: Seq<Seq<F>>, z: Seq<F>, w: spec_fn(int) -> F, h: spec_fn(int) -> F) -> F { fsum(m, gterm(pts, z, w, h)) }
pub open spec fn wt(t: Seq<F>) -> spec_fn(int) -> F { |i: int| eqw(i, t) }
pub open spec fn col(fs: Seq<Seq<F>>, x: int) -> spec_fn(int) -> F { |i: int| fs[i][x] }
pub open spec fn mls(fs: Seq<Seq<F>>, u: Seq<F>) -> spec_fn(int) -> F { |i: int| mlev(fs[i], u) }
/// the weighted sum of the values at their points
pub open spec fn wsum(m: int, pts: Seq<Seq<F>>, c: spec_fn(Seq<F>) -> F, w: spec_fn(int) -> F, h: spec_fn(int) -> F) -> F { fsum(m, |i: int| fmul(fmul(c(pts[i]), w(i)), h(i))) }
pub open spec fn pdist(dd: Seq<Seq<F>>) -> bool { forall|i: int, j: int| 0 <= i < j < dd.len() ==> #[trigger] dd[i] != #[trigger] dd[j] }
pub proof fn fsum_single(n: int, f: spec_fn(int) -> F, j: int) requires 0 <= j < n, forall|i: int| 0 <= i < n && i != j ==> #[trigger] f(i) == f0() ensures fsum(n, f) == f(j) decreases n {
    broadcast use funits;
    if j == n - 1 { fsum_zero(n - 1, f); } else { fsum_single(n - 1, f, j); }
}
/// grouping the terms by their point does not change the sum
pub proof fn collapse(m: int, pts: Seq<Seq<F>>, dd: Seq<Seq<F>>, c: spec_fn(Seq<F>) -> F, w: spec_fn(int) -> F, h: spec_fn(int) -> F)
    requires 0 <= m <= pts.len(), pdist(dd), forall|i: int| 0 <= i < m ==> dd.contains(#[trigger] pts[i])
    ensures fsum(dd.len() as int, |j: int| fmul(c(dd[j]), gsum(m, pts, dd[j], w, h))) == wsum(m, pts, c, w, h) decreases m {
    broadcast use funits;
    let n = dd.len() as int; let l = |j: int| fmul(c(dd[j]), gsum(m, pts, dd[j], w, h));
    if m == 0 { fsum_zero(n, l); }
    else {
        collapse(m - 1, pts, dd, c, w, h);
        let a = |j: int| fmul(c(dd[j]), gsum(m - 1, pts, dd[j], w, h)); let b = |j: int| fmul(c(dd[j]), gterm(pts, dd[j], w, h)(m - 1)); let s = |j: int| fadd(a(j), b(j));
        assert forall|j: int| 0 <= j < n implies #[trigger] l(j) == s(j) by { fmul_distl(c(dd[j]), gsum(m - 1, pts, dd[j], w, h), gterm(pts, dd[j], w, h)(m - 1)); }
        fsum_eq(n, l, s); fsum_add(n, a, b);
        let j0 = choose|j: int| 0 <= j < n && dd[j] == pts[m - 1]; assert(dd.contains(pts[m - 1]));
        assert forall|j: int| 0 <= j < n && j != j0 implies #[trigger] b(j) == f0() by { if j < j0 { assert(dd[j] != dd[j0]); } else { assert(dd[j0] != dd[j]); } }
        fsum_single(n, b, j0); fmul_assoc(c(pts[m - 1]), w(m - 1), h(m - 1));
        let q = |i: int| fmul(fmul(c(pts[i]), w(i)), h(i)); assert(fsum(m, q) == fadd(fsum(m - 1, q), q(m - 1)));
    }
}
pub proof fn fmul_distl(a: F, b: F, c: F) ensures fmul(a, fadd(b, c)) == fadd(fmul(a, b), fmul(a, c)) { broadcast use fhom; let x = frep(a); let y = frep(b); let z = frep(c); assert(x * (y + z) == x * y + x * z) by(nonlinear_arith); }
/// a table of sums a_i f_i[x] has the value sum a_i f_i(u) at u
pub proof fn lin_mlev(m: int, fs: Seq<Seq<F>>, a: spec_fn(int) -> F, g: Seq<F>, u: Seq<F>) requires forall|x: int| 0 <= x < p2(u.len() as int) ==> #[trigger] g[x] == fsum(m, |i: int| fmul(a(i), fs[i][x]))
    ensures mlev(g, u) == fsum(m, |i: int| fmul(a(i), mlev(fs[i], u))) {
    let n = p2(u.len() as int); let f = |x: int, i: int| fmul(fmul(a(i), fs[i][x]), eqw(x, u));
    let l = |x: int| fmul(g[x], eqw(x, u)); let l2 = |x: int| fsum(m, |i: int| f(x, i));
    assert forall|x: int| 0 <= x < n implies #[trigger] l(x) == l2(x) by {
        let p = |i: int| fmul(a(i), fs[i][x]); let q = |i: int| fmul(eqw(x, u), p(i)); fsum_scale(m, eqw(x, u), p); fmul_comm(g[x], eqw(x, u));
        let r = |i: int| f(x, i);
        assert forall|i: int| 0 <= i < m implies #[trigger] q(i) == r(i) by { fmul_comm(eqw(x, u), p(i)); } fsum_eq(m, q, r);
    }
    fsum_eq(n, l, l2); fsum_swap(n, m, f);
    let r = |i: int| fsum(n, |x: int| f(x, i)); let r2 = |i: int| fmul(a(i), mlev(fs[i], u));
    assert forall|i: int| 0 <= i < m implies #[trigger] r(i) == r2(i) by {
        let p = |x: int| fmul(fs[i][x], eqw(x, u)); let q = |x: int| fmul(a(i), p(x)); fsum_scale(n, a(i), p); let s = |x: int| f(x, i);
        assert forall|x: int| 0 <= x < n implies #[trigger] q(x) == s(x) by { fmul_assoc(a(i), fs[i][x], eqw(x, u)); } fsum_eq(n, q, s);
    }
    fsum_eq(m, r, r2);
}
/// the same for the terms of one point
pub proof fn gsum_mlev(m: int, pts: Seq<Seq<F>>, z: Seq<F>, w: spec_fn(int) -> F, fs: Seq<Seq<F>>, g: Seq<F>, u: Seq<F>) requires forall|x: int| 0 <= x < p2(u.len() as int) ==> #[trigger] g[x] == gsum(m, pts, z, w, col(fs, x))
    ensures mlev(g, u) == gsum(m, pts, z, w, mls(fs, u)) {
    broadcast use funits;
    let a = |i: int| if pts[i] == z { w(i) } else { f0() };
    assert forall|x: int| 0 <= x < p2(u.len() as int) implies #[trigger] g[x] == fsum(m, |i: int| fmul(a(i), fs[i][x])) by { fsum_eq(m, gterm(pts, z, w, col(fs, x)), |i: int| fmul(a(i), fs[i][x])); }
    lin_mlev(m, fs, a, g, u); fsum_eq(m, gterm(pts, z, w, mls(fs, u)), |i: int| fmul(a(i), mlev(fs[i], u)));
}
pub open spec fn eqc(a2: Seq<F>) -> spec_fn(Seq<F>) -> F { |z: Seq<F>| eqpt(a2, z) }
pub open spec fn eqx(x: int) -> spec_fn(Seq<F>) -> F { |z: Seq<F>| eqw(x, z) }
/// the table that is opened: sum_i eq(a2, point_i) eq(t, i) f_i
pub open spec fn gtab(fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, t: Seq<F>, a2: Seq<F>) -> Seq<F> { Seq::new(p2(a2.len() as int) as nat, |x: int| wsum(fs.len() as int, pts, eqc(a2), wt(t), col(fs, x))) }
pub proof fn gtab_mlev(fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, t: Seq<F>, a2: Seq<F>, u: Seq<F>) requires u.len() == a2.len() ensures mlev(gtab(fs, pts, t, a2), u) == wsum(fs.len() as int, pts, eqc(a2), wt(t), mls(fs, u)) {
    let m = fs.len() as int; let a = |i: int| fmul(eqpt(a2, pts[i]), eqw(i, t)); let g = gtab(fs, pts, t, a2);
    assert forall|x: int| 0 <= x < p2(u.len() as int) implies #[trigger] g[x] == fsum(m, |i: int| fmul(a(i), fs[i][x])) by { fsum_eq(m, |i: int| fmul(fmul(eqc(a2)(pts[i]), wt(t)(i)), col(fs, x)(i)), |i: int| fmul(a(i), fs[i][x])); }
    lin_mlev(m, fs, a, g, u); fsum_eq(m, |i: int| fmul(fmul(eqc(a2)(pts[i]), wt(t)(i)), mls(fs, u)(i)), |i: int| fmul(a(i), mlev(fs[i], u)));
}
/// the values the polynomials have at their points
pub open spec fn true_vals(fs: Seq<Seq<F>>, pts: Seq<Seq<F>>) -> Seq<F> { Seq::new(fs.len(), |i: int| mlev(fs[i], pts[i])) }
/// summing eq(x, point_i) eq(t, i) f_i[x] over the hypercube gives the weighted sum of the values
pub proof fn cube_sum(fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, t: Seq<F>, n: int) requires forall|i: int| 0 <= i < fs.len() ==> #[trigger] pts[i].len() == n
    ensures fsum(p2(n), |x: int| wsum(fs.len() as int, pts, eqx(x), wt(t), col(fs, x))) == b_sum(t, true_vals(fs, pts)) {
    let m = fs.len() as int; let f = |x: int, i: int| fmul(fmul(eqw(x, pts[i]), eqw(i, t)), fs[i][x]);
    let l = |x: int| wsum(m, pts, eqx(x), wt(t), col(fs, x)); let l2 = |x: int| fsum(m, |i: int| f(x, i));
    assert forall|x: int| 0 <= x < p2(n) implies #[trigger] l(x) == l2(x) by { fsum_eq(m, |i: int| fmul(fmul(eqx(x)(pts[i]), wt(t)(i)), col(fs, x)(i)), |i: int| f(x, i)); }
    fsum_eq(p2(n), l, l2); fsum_swap(p2(n), m, f);
    let r = |i: int| fsum(p2(n), |x: int| f(x, i)); let r2 = |i: int| fmul(eqw(i, t), true_vals(fs, pts)[i]);
    assert forall|i: int| 0 <= i < m implies #[trigger] r(i) == r2(i) by {
        assert(pts[i].len() == n);
        let p = |x: int| fmul(fs[i][x], eqw(x, pts[i])); let q = |x: int| fmul(eqw(i, t), p(x)); fsum_scale(p2(n), eqw(i, t), p); let s = |x: int| f(x, i);
        assert forall|x: int| 0 <= x < p2(n) implies #[trigger] q(x) == s(x) by { ring_ewf(eqw(x, pts[i]), eqw(i, t), fs[i][x]); } fsum_eq(p2(n), q, s);
    }
    fsum_eq(m, r, r2);
}
pub proof fn ring_ewf(e: F, w: F, f: F) ensures fmul(w, fmul(f, e)) == fmul(fmul(e, w), f) { broadcast use fhom; let (e, w, f) = (frep(e), frep(w), frep(f)); assert(w * (f * e) == (e * w) * f) by(nonlinear_arith); }
/// the map sends the j-th distinct point to j; the first i points have been seen, oc[j] is where the j-th first occurs
pub open spec fn idx_map(mp: Map<Seq<F>, usize>, dd: Seq<Seq<F>>, oc: Seq<int>, pts: Seq<Seq<F>>, i: int) -> bool {
    &&& mp.dom().finite() && mp.dom().len() == dd.len() && oc.len() == dd.len() && dd.len() <= i
    &&& forall|k: Seq<F>| #[trigger] mp.contains_key(k) ==> 0 <= mp[k] < dd.len() && dd[mp[k] as int] == k
    &&& forall|j: int| 0 <= j < dd.len() ==> mp.contains_key(#[trigger] dd[j]) && mp[dd[j]] == j
    &&& forall|j: int| 0 <= j < dd.len() ==> 0 <= #[trigger] oc[j] < i && pts[oc[j]] == dd[j]
    &&& forall|j: int, q: int| 0 <= j < dd.len() && 0 <= q < oc[j] ==> #[trigger] pts[q] != #[trigger] dd[j]
    &&& forall|q: int| 0 <= q < i ==> mp.contains_key(#[trigger] pts[q])
}
pub proof fn idx_map_push(mp: Map<Seq<F>, usize>, dd: Seq<Seq<F>>, oc: Seq<int>, pts: Seq<Seq<F>>, i: int) requires idx_map(mp, dd, oc, pts, i), 0 <= i < pts.len(), i < usize::MAX, !mp.contains_key(pts[i])
    ensures idx_map(mp.insert(pts[i], dd.len() as usize), dd.push(pts[i]), oc.push(i), pts, i + 1) {
    let k = pts[i]; let m2 = mp.insert(k, dd.len() as usize); let d2 = dd.push(k); let o2 = oc.push(i);
    assert(m2.dom() =~= mp.dom().insert(k));
    assert forall|x: Seq<F>| #[trigger] m2.contains_key(x) implies 0 <= m2[x] < d2.len() && d2[m2[x] as int] == x by { if x != k { assert(mp.contains_key(x)); } }
    assert forall|j: int| 0 <= j < d2.len() implies m2.contains_key(#[trigger] d2[j]) && m2[d2[j]] == j by { if j < dd.len() { assert(mp.contains_key(dd[j])); } }
    assert forall|j: int| 0 <= j < d2.len() implies 0 <= #[trigger] o2[j] < i + 1 && pts[o2[j]] == d2[j] by { if j < dd.len() { assert(0 <= oc[j] < i); } }
    assert forall|j: int, q: int| 0 <= j < d2.len() && 0 <= q < o2[j] implies #[trigger] pts[q] != #[trigger] d2[j] by { if j < dd.len() { assert(pts[q] != dd[j]); } else { assert(mp.contains_key(pts[q])); } }
    assert forall|q: int| 0 <= q < i + 1 implies m2.contains_key(#[trigger] pts[q]) by { if q < i { assert(mp.contains_key(pts[q])); } }
}
pub proof fn idx_distinct(mp: Map<Seq<F>, usize>, dd: Seq<Seq<F>>, oc: Seq<int>, pts: Seq<Seq<F>>, i: int) requires idx_map(mp, dd, oc, pts, i) ensures pdist(dd), forall|q: int| 0 <= q < i ==> dd.contains(#[trigger] pts[q]) {
    assert forall|a: int, b: int| 0 <= a < b < dd.len() implies #[trigger] dd[a] != #[trigger] dd[b] by { assert(mp[dd[a]] == a); assert(mp[dd[b]] == b); }
    assert forall|q: int| 0 <= q < i implies dd.contains(#[trigger] pts[q]) by { assert(mp.contains_key(pts[q])); assert(dd[mp[pts[q]] as int] == pts[q]); }
}
/// the deduplicated points: values of the inverted map in order
pub proof fn dedup_ok(mp: Map<Seq<F>, usize>, dd: Seq<Seq<F>>, oc: Seq<int>, pts: Seq<Seq<F>>, i: int, s: Seq<(&Vec<F>, usize)>, m2: Map<usize, &Vec<F>>, r: Seq<&Vec<F>>)
    requires idx_map(mp, dd, oc, pts, i), i <= usize::MAX,
        forall|j: int| 0 <= j < s.len() ==> mp.contains_key((#[trigger] s[j]).0.zk_key()) && mp[s[j].0.zk_key()] == s[j].1,
        forall|k: Seq<F>| mp.contains_key(k) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.zk_key() == k,
        from_list(swapped(s), m2), vals_of(m2, r),
    ensures r.len() == dd.len(), forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j])@ == dd[j] {
    let ks = choose|ks: Seq<usize>| in_order(m2, ks, r); let n = dd.len() as int;
    assert forall|k: usize| ks.contains(k) <==> 0 <= k < n by {
        if m2.contains_key(k) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] swapped(s)[j]).0.zk_key() == k && swapped(s)[j].1 == m2[k]; assert(mp.contains_key(s[j].0.zk_key())); }
        if 0 <= k < n { assert(mp.contains_key(dd[k as int])); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.zk_key() == dd[k as int]; assert(m2.contains_key(swapped(s)[j].0.zk_key())); }
    }
    asc_id(ks, n);
    assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j])@ == dd[j] by {
        let k = ks[j]; assert(ks.contains(k)); let a = choose|a: int| 0 <= a < s.len() && (#[trigger] swapped(s)[a]).0.zk_key() == k && swapped(s)[a].1 == m2[k]; assert(mp.contains_key(s[a].0.zk_key()));
        assert(s[a].0.zk_key() == dd[k as int]);
    }
}
/// what a proof for the tables fs at the points pts contains
pub open spec fn opens(p: BatchProof, pp: MultilinearProverParam, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, e: Seq<F>, n: int, lg: Seq<TEv>) -> bool {
    let t = b_t(lg, pts, e); let ms = msgs(p.sum_check_proof); let l = sc_start(b_log2(lg, pts, e), n, 2); let ch = sc_chs(l, ms, n); let g = gtab(fs, pts, t, ch);
    &&& p.f_i_eval_at_point_i@ == e && p.sum_check_proof.point@ == ch && ms.len() == n && ch.len() == n
    // the sum check runs on the weighted sum of the values the polynomials have, down to the value at its point of the table that is opened
    &&& sc_accepts(b_sum(t, true_vals(fs, pts)), ms, n, 2, l)
    &&& interp(ms[n - 1], ch[n - 1]) == mlev(g, ch)
    &&& p.g_prime_proof.proofs@.len() == n
    &&& forall|i: int| 0 <= i < n ==> dl(#[trigger] p.g_prime_proof.proofs@[i]) == lin_all(pp.powers_of_g@[pp.num_vars - n + 1 + i].evals@, quot(g, ch, i))
}
/// the table for the distinct point z after m polynomials: still the zero constant, or the sum of the terms with that point
pub open spec fn mg_done(d: DenseMultilinearExtension, m: int, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, z: Seq<F>, t: Seq<F>, n: int) -> bool { dwf(d) && d.num_vars == n && forall|x: int| 0 <= x < p2(n) ==> #[trigger] d.evaluations@[x] == gsum(m, pts, z, wt(t), col(fs, x)) }
pub open spec fn mg_ok(d: DenseMultilinearExtension, m: int, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, o: int, z: Seq<F>, t: Seq<F>, n: int) -> bool {
    if m <= o { d.num_vars == 0 && d.evaluations@ == seq![f0()] && forall|q: int| 0 <= q < m ==> #[trigger] pts[q] != z } else { mg_done(d, m, fs, pts, z, t, n) }
}
pub proof fn mg_skip(d: DenseMultilinearExtension, m: int, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, o: int, z: Seq<F>, t: Seq<F>, n: int) requires mg_ok(d, m, fs, pts, o, z, t, n), 0 <= m < pts.len(), 0 <= o < pts.len(), pts[o] == z, pts[m] != z ensures mg_ok(d, m + 1, fs, pts, o, z, t, n) {
    broadcast use funits;
    if m > o { assert forall|x: int| 0 <= x < p2(n) implies #[trigger] d.evaluations@[x] == gsum(m + 1, pts, z, wt(t), col(fs, x)) by { let g = gterm(pts, z, wt(t), col(fs, x)); assert(fsum(m + 1, g) == fadd(fsum(m, g), g(m))); } }
}
pub proof fn pair_val(s: Seq<Arc<DenseMultilinearExtension>>, tv: TVal) requires s.len() == 2 ensures fmul(f1(), list_val(s, tv)) == fmul(tv(*s[1]), tv(*s[0])) {
    broadcast use funits;
    let f = |j: int| tv(*s[j]); assert(fprod(0, f) == f1()); assert(fprod(1, f) == fmul(fprod(0, f), f(0))); assert(fprod(2, f) == fmul(fprod(1, f), f(1)));
    fmul_comm(f(0), f(1));
}
pub proof fn mg_add(d: DenseMultilinearExtension, d2: DenseMultilinearExtension, p: DenseMultilinearExtension, m: int, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, o: int, z: Seq<F>, t: Seq<F>, n: int)
    requires mg_ok(d, m, fs, pts, o, z, t, n), 0 <= m < pts.len(), 0 <= o < pts.len(), forall|q: int| 0 <= q < o ==> #[trigger] pts[q] != z, pts[m] == z, 1 <= n < 62, dwf(p), p.num_vars == n, fs[m] == p.evaluations@, added(d, eqw(m, t), p, d2)
    ensures mg_ok(d2, m + 1, fs, pts, o, z, t, n) {
    broadcast use funits;
    assert(m >= o);
    assert forall|x: int| 0 <= x < p2(n) implies #[trigger] d2.evaluations@[x] == gsum(m + 1, pts, z, wt(t), col(fs, x)) by {
        let g = gterm(pts, z, wt(t), col(fs, x)); assert(fsum(m + 1, g) == fadd(fsum(m, g), g(m)));
        if m <= o { assert forall|q: int| 0 <= q < m implies #[trigger] g(q) == f0() by { assert(pts[q] != z); } fsum_zero(m, g); }
    }
}
pub open spec fn vterms(te: Seq<Arc<DenseMultilinearExtension>>, mg: Seq<Arc<DenseMultilinearExtension>>, tv: TVal) -> spec_fn(int) -> F { |j: int| fmul(tv(*te[j]), tv(*mg[j])) }
/// the sum check polynomial sums, over the hypercube, to the weighted sum of the values
pub proof fn vp_total(v: VirtualPolynomial, mg: Seq<Arc<DenseMultilinearExtension>>, te: Seq<Arc<DenseMultilinearExtension>>, dd: Seq<Seq<F>>, m: int, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, t: Seq<F>, n: int)
    requires m == fs.len(), m == pts.len(), v.aux_info.num_variables == n, pdist(dd), forall|i: int| 0 <= i < m ==> dd.contains(#[trigger] pts[i]), forall|i: int| 0 <= i < m ==> #[trigger] pts[i].len() == n, mg.len() == dd.len(), te.len() == dd.len(), n >= 0,
        forall|j: int| 0 <= j < dd.len() ==> #[trigger] dd[j].len() == n,
        forall|j: int| 0 <= j < dd.len() ==> mg_done(*#[trigger] mg[j], m, fs, pts, dd[j], t, n), forall|j: int| 0 <= j < dd.len() ==> is_eq_table((#[trigger] te[j]).evaluations@, dd[j]),
        forall|tv: TVal| #[trigger] vpm(v, tv) == fsum(dd.len() as int, vterms(te, mg, tv)),
    ensures vp_sum(v) == b_sum(t, true_vals(fs, pts)) {
    let l = |x: int| vpm(v, at_bool(x)); let r = |x: int| wsum(fs.len() as int, pts, eqx(x), wt(t), col(fs, x));
    assert forall|x: int| 0 <= x < p2(n) implies #[trigger] l(x) == r(x) by {
        let h = col(fs, x); let q = |j: int| fmul(eqx(x)(dd[j]), gsum(m, pts, dd[j], wt(t), h)); let f = vterms(te, mg, at_bool(x));
        assert forall|j: int| 0 <= j < dd.len() implies #[trigger] f(j) == q(j) by { assert(mg_done(*mg[j], m, fs, pts, dd[j], t, n)); assert(is_eq_table(te[j].evaluations@, dd[j])); assert(dd[j].len() == n); assert(mg[j].evaluations@[x] == gsum(m, pts, dd[j], wt(t), h)); }
        fsum_eq(dd.len() as int, f, q); collapse(m, pts, dd, eqx(x), wt(t), h);
    }
    fsum_eq(p2(n), l, r); cube_sum(fs, pts, t, n);
}
/// its value at a point is that of the table that is opened there
pub proof fn vp_at(v: VirtualPolynomial, mg: Seq<Arc<DenseMultilinearExtension>>, te: Seq<Arc<DenseMultilinearExtension>>, dd: Seq<Seq<F>>, m: int, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, t: Seq<F>, a2: Seq<F>, n: int)
    requires m == fs.len(), m == pts.len(), pdist(dd), forall|i: int| 0 <= i < m ==> dd.contains(#[trigger] pts[i]), mg.len() == dd.len(), te.len() == dd.len(), a2.len() == n,
        forall|j: int| 0 <= j < dd.len() ==> #[trigger] dd[j].len() == n,
        forall|j: int| 0 <= j < dd.len() ==> mg_done(*#[trigger] mg[j], m, fs, pts, dd[j], t, n), forall|j: int| 0 <= j < dd.len() ==> is_eq_table((#[trigger] te[j]).evaluations@, dd[j]),
        forall|tv: TVal| #[trigger] vpm(v, tv) == fsum(dd.len() as int, vterms(te, mg, tv)),
    ensures vpm(v, at_point(a2)) == mlev(gtab(fs, pts, t, a2), a2) {
    let h = mls(fs, a2); let f = vterms(te, mg, at_point(a2)); let q = |j: int| fmul(eqc(a2)(dd[j]), gsum(m, pts, dd[j], wt(t), h));
    assert forall|j: int| 0 <= j < dd.len() implies #[trigger] f(j) == q(j) by {
        assert(mg_done(*mg[j], m, fs, pts, dd[j], t, n)); assert(dd[j].len() == n); assert(is_eq_table(te[j].evaluations@, dd[j]));
        eq_table_mle(te[j].evaluations@, dd[j], a2); gsum_mlev(m, pts, dd[j], wt(t), fs, mg[j].evaluations@, a2);
    }
    fsum_eq(dd.len() as int, f, q); collapse(m, pts, dd, eqc(a2), wt(t), h); gtab_mlev(fs, pts, t, a2, a2);
}
pub open spec fn drf(a: Arc<DenseMultilinearExtension>) -> DenseMultilinearExtension { *a }
/// g' after j of the merged tables
pub open spec fn gterms(mg: Seq<Arc<DenseMultilinearExtension>>, dd: Seq<Seq<F>>, a2: Seq<F>, x: int) -> spec_fn(int) -> F { |j: int| fmul(eqpt(a2, dd[j]), mg[j].evaluations@[x]) }
pub open spec fn gp_ok(g: DenseMultilinearExtension, j: int, mg: Seq<Arc<DenseMultilinearExtension>>, dd: Seq<Seq<F>>, a2: Seq<F>, n: int) -> bool {
    if j == 0 { g.num_vars == 0 && g.evaluations@ == seq![f0()] } else { dwf(g) && g.num_vars == n && forall|x: int| 0 <= x < p2(n) ==> #[trigger] g.evaluations@[x] == fsum(j, gterms(mg, dd, a2, x)) }
}
pub proof fn gp_add(g: DenseMultilinearExtension, g2: DenseMultilinearExtension, j: int, mg: Seq<Arc<DenseMultilinearExtension>>, dd: Seq<Seq<F>>, a2: Seq<F>, n: int)
    requires gp_ok(g, j, mg, dd, a2, n), 0 <= j < mg.len(), 1 <= n < 62, dwf(*mg[j]), mg[j].num_vars == n, added(g, eqpt(a2, dd[j]), *mg[j], g2) ensures gp_ok(g2, j + 1, mg, dd, a2, n) {
    broadcast use funits;
    assert forall|x: int| 0 <= x < p2(n) implies #[trigger] g2.evaluations@[x] == fsum(j + 1, gterms(mg, dd, a2, x)) by { let f = gterms(mg, dd, a2, x); assert(fsum(j + 1, f) == fadd(fsum(j, f), f(j))); assert(j == 0 ==> fsum(0, f) == f0()); }
}
pub proof fn gp_final(g: DenseMultilinearExtension, mg: Seq<Arc<DenseMultilinearExtension>>, dd: Seq<Seq<F>>, m: int, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, t: Seq<F>, a2: Seq<F>, n: int)
    requires gp_ok(g, dd.len() as int, mg, dd, a2, n), dd.len() > 0, m == fs.len(), m == pts.len(), pdist(dd), forall|i: int| 0 <= i < m ==> dd.contains(#[trigger] pts[i]), mg.len() == dd.len(), a2.len() == n,
        forall|j: int| 0 <= j < dd.len() ==> mg_done(*#[trigger] mg[j], m, fs, pts, dd[j], t, n),
    ensures g.evaluations@ == gtab(fs, pts, t, a2), g.num_vars == n, dwf(g) {
    p2_pos(n);
    assert forall|x: int| 0 <= x < p2(n) implies #[trigger] g.evaluations@[x] == gtab(fs, pts, t, a2)[x] by {
        let h = col(fs, x); let f = gterms(mg, dd, a2, x); let q = |j: int| fmul(eqc(a2)(dd[j]), gsum(m, pts, dd[j], wt(t), h));
        assert forall|j: int| 0 <= j < dd.len() implies #[trigger] f(j) == q(j) by { assert(mg_done(*mg[j], m, fs, pts, dd[j], t, n)); }
        fsum_eq(dd.len() as int, f, q); collapse(m, pts, dd, eqc(a2), wt(t), h);
    }
    assert(g.evaluations@ =~= gtab(fs, pts, t, a2));
}
//@fn src/subroutines/pcs/multilinear_kzg/batching.rs::multi_open_internal | ren=log2:zk_log2 ren=eq_eval:kzg_eq_eval veq maps=point_indices
//@@ requires
        shape_p(*prover_param), 2 <= polynomials@.len() < 0x2000_0000_0000_0000, points@.len() == polynomials@.len(), 1 <= polynomials@[0].num_vars <= prover_param.num_vars,
        forall|i: int| 0 <= i < polynomials@.len() ==> dwf(*#[trigger] polynomials@[i]) && polynomials@[i].num_vars == polynomials@[0].num_vars,
        forall|i: int| 0 <= i < points@.len() ==> (#[trigger] points@[i])@.len() == polynomials@[0].num_vars,
//@@ ensures
        ret is Ok, opens(ret->Ok_0, *prover_param, tabs(polynomials@), vv(points@), evals@, polynomials@[0].num_vars as int, ilog(*old(transcript))),
//@@ vartype
    zk_acc0: BTreeMap<&Vec<F>, usize>
    zk_acc1: Vec<(usize, &Vec<F>)>
    zk_acc2: Vec<Arc<DenseMultilinearExtension>>
    zk_acc3: Vec<Arc<DenseMultilinearExtension>>
//@@ entry
    let ghost n = polynomials@[0].num_vars as int; let ghost pts = vv(points@); let ghost fs = tabs(polynomials@); let ghost lg = ilog(*transcript); let ghost kk = polynomials@.len() as int; let ghost m = kk;
    proof {
        clog2_spec(kk); assert forall|r: int| #![trigger p2(r)] r >= 0 && kk <= p2(r) && (r > 0 ==> p2(r - 1) < kk) implies r == clog2(kk) by { clog2_uniq(kk, r); }
        p2_64(); if clog2(kk) >= 62 { p2_mono(61, clog2(kk) - 1); assert(p2(62) == 2 * p2(61)); }
        assert(p2(0) == 1); p2_mono(n, 62);
    }
    let ghost mut dd: Seq<Seq<F>> = Seq::empty(); let ghost mut oc: Seq<int> = Seq::empty(); let ghost mut gs: Seq<(&Vec<F>, usize)> = Seq::empty();
//@@ inv 0
            zk_n0 == m, points@.len() == m, pts == vv(points@), idx_map(zk_acc0@, dd, oc, pts, zk_i0 as int),
//@@ end 0
        proof {
            let k = pts[zk_i0 - 1]; assert(k == points@[zk_i0 - 1]@);
            if !m0.contains_key(k) { dd = dd.push(k); oc = oc.push(zk_i0 - 1); idx_map_push(m0, dd0, oc0, pts, zk_i0 - 1); } else { assert(m0.insert(k, m0[k]) =~= m0); }
        }
//@@ start 0
        let ghost m0 = zk_acc0@; let ghost dd0 = dd; let ghost oc0 = oc;
//@@ before 1
    proof { gs = zk_s0@; }
//@@ after 1
    proof { assert(zk_acc1@ =~= swapped(gs)); }
//@@ inv 1
            zk_n1 == zk_s0@.len(), gs == zk_s0@, zk_acc1@.len() == zk_i1, forall|j: int| 0 <= j < zk_i1 ==> #[trigger] zk_acc1@[j] == (zk_s0@[j].1, zk_s0@[j].0),
//@@ after-let deduped_points
    proof {
        let m2 = choose|m2: Map<usize, &Vec<F>>| #[trigger] from_list(swapped(gs), m2) && vals_of(m2, deduped_points@);
        dedup_ok(point_indices@, dd, oc, pts, m, gs, m2, deduped_points@);
        idx_distinct(point_indices@, dd, oc, pts, m);
        assert forall|j: int| 0 <= j < dd.len() implies #[trigger] dd[j].len() == n by { assert(0 <= oc[j] < m); assert(points@[oc[j]]@.len() == n); }
    }
//@@ before 2
    proof { assert forall|j: int| 0 <= j < dd.len() implies mg_ok(*#[trigger] zk_acc2@[j], 0, fs, pts, oc[j], dd[j], t@, n) by { assert(0 <= oc[j]); assert(zk_acc2@[j].num_vars == 0); } }
//@@ inv 2
            zk_n2 == m, polynomials@.len() == m, points@.len() == m, eq_t_i_list@.len() >= m, zk_acc2@.len() == dd.len(), idx_map(point_indices@, dd, oc, pts, m), pdist(dd), pts == vv(points@), fs == tabs(polynomials@), 1 <= n < 62,
            forall|i: int| 0 <= i < m ==> dwf(*#[trigger] polynomials@[i]) && polynomials@[i].num_vars == n,
            forall|i: int| 0 <= i < m ==> #[trigger] eq_t_i_list@[i] == eqw(i, t@),
            forall|j: int| 0 <= j < dd.len() ==> mg_ok(*#[trigger] zk_acc2@[j], zk_i2 as int, fs, pts, oc[j], dd[j], t@, n),
//@@ start 2
        let ghost a0 = zk_acc2@;
        proof { let i = zk_i2 as int; assert(pts[i] == points@[i]@); assert(point_indices@.contains_key(pts[i])); let j0 = point_indices@[pts[i]] as int; assert(dd[j0] == pts[i]); assert(mg_ok(*a0[j0], i, fs, pts, oc[j0], dd[j0], t@, n)); }
//@@ end 2
        proof {
            let i = zk_i2 - 1; let j0 = point_indices@[pts[i]] as int; assert(point_indices@.contains_key(pts[i])); assert(pts[i] == points@[i]@); assert(dd[j0] == pts[i]);
            assert forall|j: int| 0 <= j < dd.len() implies mg_ok(*#[trigger] zk_acc2@[j], i + 1, fs, pts, oc[j], dd[j], t@, n) by {
                assert(mg_ok(*a0[j], i, fs, pts, oc[j], dd[j], t@, n)); assert(0 <= oc[j] < m);
                if j != j0 { if j < j0 { assert(dd[j] != dd[j0]); } else { assert(dd[j0] != dd[j]); } assert(*zk_acc2@[j] == *a0[j]); mg_skip(*a0[j], i, fs, pts, oc[j], dd[j], t@, n); }
                else { assert forall|q: int| 0 <= q < oc[j] implies #[trigger] pts[q] != dd[j] by { } mg_add(*a0[j], *zk_acc2@[j], *polynomials@[i], i, fs, pts, oc[j], dd[j], t@, n); }
            }
        }
//@@ after-let merged_tilde_gs
    let ghost mg = merged_tilde_gs@;
    proof { assert forall|j: int| 0 <= j < dd.len() implies mg_done(*#[trigger] mg[j], m, fs, pts, dd[j], t@, n) by { assert(mg_ok(*mg[j], m, fs, pts, oc[j], dd[j], t@, n)); assert(0 <= oc[j] < m); } }
//@@ inv 3
            zk_n3 == dd.len(), zk_acc3@.len() == zk_i3, deduped_points@.len() == dd.len(), num_var == n, 1 <= n < 62, forall|j: int| 0 <= j < dd.len() ==> (#[trigger] deduped_points@[j])@ == dd[j], forall|j: int| 0 <= j < dd.len() ==> #[trigger] dd[j].len() == n,
            forall|j: int| 0 <= j < zk_i3 ==> dwf(*#[trigger] zk_acc3@[j]) && zk_acc3@[j].num_vars == n && is_eq_table(zk_acc3@[j].evaluations@, dd[j]),
//@@ inv 4
            zk_n4 == dd.len(), merged_tilde_gs@ == mg, mg.len() == dd.len(), tilde_eqs@.len() == dd.len(), vp_wf(sum_check_vp), nonempty_products(sum_check_vp.products@), sum_check_vp.aux_info.num_variables == n, sum_check_vp.aux_info.max_degree == (if zk_i4 == 0 { 0int } else { 2int }), 1 <= n < 62,
            forall|j: int| 0 <= j < dd.len() ==> mg_done(*#[trigger] mg[j], m, fs, pts, dd[j], t@, n),
            forall|j: int| 0 <= j < dd.len() ==> dwf(*#[trigger] tilde_eqs@[j]) && tilde_eqs@[j].num_vars == n && is_eq_table(tilde_eqs@[j].evaluations@, dd[j]),
            forall|tv: TVal| #[trigger] vpm(sum_check_vp, tv) == fsum(zk_i4 as int, vterms(tilde_eqs@, mg, tv)),
//@@ start 4
        let ghost v0 = sum_check_vp; 
        proof { assert(mg_done(*mg[zk_i4 as int], m, fs, pts, dd[zk_i4 as int], t@, n)); assert(is_eq_table(tilde_eqs@[zk_i4 as int].evaluations@, dd[zk_i4 as int])); }
//@@ end 4
        proof {
            let j = zk_i4 - 1;
            assert forall|tv: TVal| #[trigger] vpm(sum_check_vp, tv) == fsum(zk_i4 as int, vterms(tilde_eqs@, mg, tv)) by {
                let s = seq![mg[j], tilde_eqs@[j]]; assert(vpm(v0, tv) == fsum(j, vterms(tilde_eqs@, mg, tv))); pair_val(s, tv);
                let f = vterms(tilde_eqs@, mg, tv); assert(fsum(j + 1, f) == fadd(fsum(j, f), f(j)));
            }
        }
//@@ after 4
    let ghost pv = sum_check_vp; let ghost te = tilde_eqs@;
    proof {
        assert(dd.len() > 0) by { assert(dd.contains(pts[0])); }
        vp_total(pv, mg, te, dd, m, fs, pts, t@, n);
    }
//@@ inv 5
            zk_n5 == dd.len(), merged_tilde_gs@ == mg, mg.len() == dd.len(), deduped_points@.len() == dd.len(), a2@.len() == n, 1 <= n < 62, forall|j: int| 0 <= j < dd.len() ==> (#[trigger] deduped_points@[j])@ == dd[j], forall|j: int| 0 <= j < dd.len() ==> #[trigger] dd[j].len() == n,
            forall|j: int| 0 <= j < dd.len() ==> mg_done(*#[trigger] mg[j], m, fs, pts, dd[j], t@, n),
            gp_ok(*g_prime, zk_i5 as int, mg, dd, a2@, n),
//@@ start 5
        let ghost g0 = g_prime; proof { assert(mg_done(*mg[zk_i5 as int], m, fs, pts, dd[zk_i5 as int], t@, n)); }
//@@ end 5
        let ghost g1 = g_prime; proof { gp_add(drf(g0), drf(g1), zk_i5 - 1, mg, dd, a2@, n); }
//@@ after 5
    let ghost gq = g_prime;
    proof {
        assert(a2@ =~= proof.point@);
        gp_final(drf(gq), mg, dd, m, fs, pts, t@, a2@, n);
        vp_at(pv, mg, te, dd, m, fs, pts, t@, a2@, n);
    }
//@end
//@typemap BatchProof<E,Self> => BatchProof
//@typemap Self::BatchProof => BatchProof
//@typemap Self::Proof => MultilinearKzgProof
//@fn src/subroutines/pcs/multilinear_kzg/mod.rs::PolynomialCommitmentScheme for MultilinearKzgPCS::multi_open
//@@ requires
        shape_p(*prover_param), 2 <= polynomials@.len() < 0x2000_0000_0000_0000, points@.len() == polynomials@.len(), 1 <= polynomials@[0].num_vars <= prover_param.num_vars,
        forall|i: int| 0 <= i < polynomials@.len() ==> dwf(*#[trigger] polynomials@[i]) && polynomials@[i].num_vars == polynomials@[0].num_vars,
        forall|i: int| 0 <= i < points@.len() ==> (#[trigger] points@[i])@.len() == polynomials@[0].num_vars,
//@@ ensures
        ret is Ok, opens(ret->Ok_0, *prover_param, tabs(polynomials@), vv(points@), evals@, polynomials@[0].num_vars as int, ilog(*old(transcript))),
//@end
