// ---- claims, the order they are absorbed in, commitments in handle order ----
pub type Claims = Seq<TrackerSumcheckClaim>;
pub open spec fn zc_log(log: Seq<TEv>, k: int, nv: int) -> Seq<TEv> { after_chals(after_chals(log, "zerocheck challenge"@, k), "0check r"@, nv) }
/// the point the equality polynomial is taken at: drawn after the zero claims' challenges
pub open spec fn zc_r(log: Seq<TEv>, k: int, nv: int) -> Seq<F> { chals(after_chals(log, "zerocheck challenge"@, k), "0check r"@, nv) }
/// every claimed sum is absorbed, in order, before any of their challenges
pub open spec fn sums_log(log: Seq<TEv>, c: Claims, k: int) -> Seq<TEv> decreases k { if k <= 0 { log } else { sums_log(log, c, k - 1).push(TEv::Msg("claimed sum"@, ser_f(c[k - 1].claimed_sum))) } }
pub open spec fn sc_chal(log: Seq<TEv>, i: int) -> F { chal(after_chals(log, "sumcheck challenge"@, i), "sumcheck challenge"@) }
pub open spec fn agg_term(c: Claims, log: Seq<TEv>) -> spec_fn(int) -> F { |i: int| fmul(c[i].claimed_sum, sc_chal(log, i)) }
/// the sum the folded claim must have
pub open spec fn agg_sum(c: Claims, log: Seq<TEv>) -> F { fsum(c.len() as int, agg_term(c, log)) }
/// all claims once the zero claims are folded in
pub open spec fn all_claims(c: Claims, z: TrackerSumcheckClaim) -> Claims { c.push(z) }
// commitments in handle order
pub open spec fn ids_sorted(s: Seq<TrackerID>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
pub open spec fn ids_list(d: Set<TrackerID>, s: Seq<TrackerID>) -> bool { ids_sorted(s) && s.to_set() == d }
pub open spec fn ids_of(d: Set<TrackerID>) -> Seq<TrackerID> { choose|s: Seq<TrackerID>| ids_list(d, s) }
pub proof fn ids_unique(a: Seq<TrackerID>, b: Seq<TrackerID>) requires ids_sorted(a), ids_sorted(b), a.to_set() == b.to_set() ensures a == b decreases a.len() {
    if a.len() == 0 { if b.len() > 0 { assert(b.to_set().contains(b[0])); assert(a.to_set().contains(b[0])); assert(false); } assert(a =~= b); }
    else {
        let x = a.last(); assert(a.to_set().contains(x)); assert(b.to_set().contains(x)); assert(b.contains(x));
        let y = b.last(); assert(b.to_set().contains(y)); assert(a.to_set().contains(y)); assert(a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x; let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        assert(x.0 <= y.0) by { if i < b.len() - 1 { assert(b[i].0 < b[b.len() - 1].0); } }
        assert(y.0 <= x.0) by { if j < a.len() - 1 { assert(a[j].0 < a[a.len() - 1].0); } }
        let c = a.drop_last(); let d = b.drop_last();
        assert forall|t: TrackerID| c.to_set().contains(t) == d.to_set().contains(t) by {
            if c.to_set().contains(t) { let k = choose|k: int| 0 <= k < c.len() && c[k] == t; assert(a[k].0 < a[a.len() - 1].0); assert(a.contains(a[k])); assert(a.to_set().contains(t)); assert(b.contains(t)); let m = choose|m: int| 0 <= m < b.len() && b[m] == t; assert(d[m] == t); assert(d.contains(t)); }
            if d.to_set().contains(t) { let k = choose|k: int| 0 <= k < d.len() && d[k] == t; assert(b[k].0 < b[b.len() - 1].0); assert(b.contains(b[k])); assert(b.to_set().contains(t)); assert(a.contains(t)); let m = choose|m: int| 0 <= m < a.len() && a[m] == t; assert(c[m] == t); assert(c.contains(t)); }
        }
        assert(c.to_set() =~= d.to_set());
        assert(ids_sorted(c)) by { assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0 < (#[trigger] c[j]).0 by { assert(a[i].0 < a[j].0); } }
        assert(ids_sorted(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 < (#[trigger] d[j]).0 by { assert(b[i].0 < b[j].0); } }
        ids_unique(c, d);
        assert(a =~= c.push(x)); assert(b =~= d.push(y));
    }
}
pub proof fn ids_is(d: Set<TrackerID>, s: Seq<TrackerID>) requires ids_list(d, s) ensures ids_of(d) == s { let t = ids_of(d); assert(ids_list(d, t)); ids_unique(s, t); }
pub trait ZkSort { spec fn zk_sorted(&self, old: &Self) -> bool; fn zk_sort(&mut self) ensures final(self).zk_sorted(old(self)); }
impl ZkSort for Vec<TrackerID> {
    open spec fn zk_sorted(&self, o: &Self) -> bool { self@.to_multiset() == o@.to_multiset() && self@.len() == o@.len() && self@.to_set() == o@.to_set() && (forall|i: int, j: int| 0 <= i < j < self@.len() ==> (#[trigger] self@[i]).0 <= (#[trigger] self@[j]).0) && (o@.no_duplicates() ==> self@.no_duplicates()) }
    #[verifier::external_body] fn zk_sort(&mut self) { unimplemented!() }
}
pub open spec fn vviews(s: Seq<Vec<F>>) -> Seq<Seq<F>> { Seq::new(s.len(), |i: int| s[i]@) }
impl ZkClone for BatchProof { #[verifier::external_body] fn zk_clone(&self) -> (r: BatchProof) { unimplemented!() } }
impl ZkClone for TrackerSumcheckClaim { #[verifier::external_body] fn zk_clone(&self) -> (r: TrackerSumcheckClaim) { unimplemented!() } }
impl ZkClone for TrackerZerocheckClaim { #[verifier::external_body] fn zk_clone(&self) -> (r: TrackerZerocheckClaim) { unimplemented!() } }
