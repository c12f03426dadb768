// ---- src/arithmetic/virtual_polynomial.rs: sums of products of tables ----
//@typemap *constDenseMultilinearExtension<F> => PKey
//@typemap *constDenseMultilinearExtension => PKey
//@struct src/arithmetic/virtual_polynomial.rs::VPAuxInfo
//@struct src/arithmetic/virtual_polynomial.rs::VirtualPolynomial
impl ZkClone for VirtualPolynomial { #[verifier::external_body] fn zk_clone(&self) -> (r: VirtualPolynomial) { unimplemented!() } }
impl ZkClone for VPAuxInfo { fn zk_clone(&self) -> (r: VPAuxInfo) { VPAuxInfo { max_degree: self.max_degree, num_variables: self.num_variables } } }
/// a way of assigning a value to a table: evaluation at any point, or reading any hypercube entry
pub type TVal = spec_fn(DenseMultilinearExtension) -> F;
pub open spec fn prod_val(fl: Seq<Arc<DenseMultilinearExtension>>, idx: Seq<usize>, t: TVal) -> F { fprod(idx.len() as int, |j: int| t(*fl[idx[j] as int])) }
pub open spec fn list_val(l: Seq<Arc<DenseMultilinearExtension>>, t: TVal) -> F { fprod(l.len() as int, |j: int| t(*l[j])) }
pub open spec fn prods_val(fl: Seq<Arc<DenseMultilinearExtension>>, ps: Seq<(F, Vec<usize>)>, t: TVal) -> F { fsum(ps.len() as int, |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, t))) }
/// meaning of a virtual polynomial
pub open spec fn vpm(v: VirtualPolynomial, t: TVal) -> F { prods_val(v.flattened_ml_extensions@, v.products@, t) }
pub open spec fn at_point(pt: Seq<F>) -> TVal { |d: DenseMultilinearExtension| mlev(d.evaluations@, pt) }
pub open spec fn at_bool(b: int) -> TVal { |d: DenseMultilinearExtension| d.evaluations@[b] }
pub open spec fn prods_ok(ps: Seq<(F, Vec<usize>)>, nfl: int, deg: int) -> bool {
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).1@.len() <= deg && idx_ok(ps[i].1@, nfl)
}
pub open spec fn idx_ok(s: Seq<usize>, nfl: int) -> bool { forall|j: int| 0 <= j < s.len() ==> 0 <= #[trigger] s[j] < nfl }
pub open spec fn fl_ok(fl: Seq<Arc<DenseMultilinearExtension>>, nv: int) -> bool { forall|j: int| 0 <= j < fl.len() ==> dwf(*#[trigger] fl[j]) && fl[j].num_vars == nv }
pub open spec fn tab_ok(m: Map<PKey, usize>, fl: Seq<Arc<DenseMultilinearExtension>>) -> bool { forall|k: PKey| #[trigger] m.contains_key(k) ==> 0 <= m[k] < fl.len() && *fl[m[k] as int] == pk_val(k) }
pub open spec fn vp_wf(v: VirtualPolynomial) -> bool {
    &&& prods_ok(v.products@, v.flattened_ml_extensions@.len() as int, v.aux_info.max_degree as int)
    &&& fl_ok(v.flattened_ml_extensions@, v.aux_info.num_variables as int)
    &&& tab_ok(v.raw_pointers_lookup_table@, v.flattened_ml_extensions@)
}
pub open spec fn is_prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i] }
pub open spec fn nonempty_products(ps: Seq<(F, Vec<usize>)>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).1@.len() >= 1 }
