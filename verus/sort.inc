// ---- order of field elements (ark_ff: that of the canonical integers), std sorts, HashSet contents ----
use std::cmp::Ordering;
use std::collections::HashSet;
pub open spec fn fcmp(a: F, b: F) -> Ordering { if fv(a) < fv(b) { Ordering::Less } else if fv(a) == fv(b) { Ordering::Equal } else { Ordering::Greater } }
impl PartialOrdSpecImpl for F { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, r: &F) -> Option<Ordering> { Some(fcmp(*self, *r)) } }
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, r: &F) -> (b: Option<Ordering>) { unimplemented!() } }
/// tuples compare lexicographically
#[verifier::external_body] pub fn zk_cmp2(a: F, b: F, c: F, d: F) -> (r: Ordering) ensures r == (if fv(a) == fv(c) { fcmp(b, d) } else { fcmp(a, c) }) { unimplemented!() }
/// the comparator is a total preorder on the elements of s
pub open spec fn cmp_ok<T, C: Fn(&T, &T) -> Ordering>(c: C, le: spec_fn(T, T) -> bool, s: Seq<T>) -> bool {
    &&& forall|a: T, b: T| s.contains(a) && s.contains(b) ==> #[trigger] c.requires((&a, &b))
    &&& forall|a: T, b: T, o: Ordering| s.contains(a) && s.contains(b) && #[trigger] c.ensures((&a, &b), o) ==> (o != Ordering::Greater <==> le(a, b)) && (o != Ordering::Less <==> le(b, a))
    &&& forall|a: T, b: T, d: T| #[trigger] le(a, b) && #[trigger] le(b, d) ==> le(a, d)
}
/// slice::sort_by: a permutation, in order
#[verifier::external_body] pub fn zk_sort_by<T, C: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, c: C, Ghost(le): Ghost<spec_fn(T, T) -> bool>)
    requires cmp_ok(c, le, old(v)@)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> le(#[trigger] final(v)@[i], #[trigger] final(v)@[j])
{ unimplemented!() }
pub open spec fn fsorted(s: Seq<F>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> fv(#[trigger] s[i]) <= fv(#[trigger] s[j]) }
pub trait ZkSort { spec fn zk_sv(&self) -> Seq<F>; fn zk_sort(&mut self) ensures fsorted(final(self).zk_sv()), final(self).zk_sv().to_multiset() == old(self).zk_sv().to_multiset(), final(self).zk_sv().len() == old(self).zk_sv().len(); }
impl ZkSort for Vec<F> { open spec fn zk_sv(&self) -> Seq<F> { self@ } #[verifier::external_body] fn zk_sort(&mut self) { unimplemented!() } }
#[verifier::external_body] pub fn zk_elems<K: ZkClone>(m: &HashSet<K>) -> (r: Vec<K>) ensures r@.no_duplicates(), r@.to_set() == m@ { unimplemented!() }
/// reordering keeps membership
pub proof fn perm_contains<T>(a: Seq<T>, b: Seq<T>, v: T) requires a.to_multiset() == b.to_multiset() ensures a.contains(v) <==> b.contains(v) {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a.to_multiset().count(v) > 0 <==> a.contains(v)); assert(b.to_multiset().count(v) > 0 <==> b.contains(v));
}
pub proof fn perm_nodup<T>(a: Seq<T>, b: Seq<T>) requires a.to_multiset() == b.to_multiset(), a.no_duplicates() ensures b.no_duplicates() {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    a.lemma_multiset_has_no_duplicates();
    assert forall|v: T| b.to_multiset().contains(v) implies b.to_multiset().count(v) == 1 by { }
    b.lemma_multiset_has_no_duplicates_conv();
}
/// sorted without duplicates is strictly increasing
pub open spec fn fstrict(s: Seq<F>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> fv(#[trigger] s[i]) < fv(#[trigger] s[j]) }
pub proof fn fstrict_of(s: Seq<F>) requires fsorted(s), s.no_duplicates() ensures fstrict(s) {
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies fv(#[trigger] s[i]) < fv(#[trigger] s[j]) by { ax_fv(s[i]); ax_fv(s[j]); }
}
/// a list without duplicates drawn from t is no longer than t
pub proof fn nodup_len<T>(s: Seq<T>, t: Seq<T>) requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i]) ensures s.len() <= t.len() {
    s.unique_seq_to_set(); t.lemma_cardinality_of_set();
    assert(s.to_set().subset_of(t.to_set()));
    vstd::set_lib::lemma_len_subset(s.to_set(), t.to_set());
}
pub proof fn fv_inj() ensures forall|x: F, y: F| #![trigger fv(x), fv(y)] fv(x) == fv(y) ==> x == y { assert forall|x: F, y: F| #![trigger fv(x), fv(y)] fv(x) == fv(y) implies x == y by { ax_fv(x); ax_fv(y); } }
