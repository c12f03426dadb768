//@include vpstruct.inc
pub proof fn prods_val_ext(fl: Seq<Arc<DenseMultilinearExtension>>, fl2: Seq<Arc<DenseMultilinearExtension>>, ps: Seq<(F, Vec<usize>)>, deg: int, t: TVal)
    requires is_prefix(fl, fl2), prods_ok(ps, fl.len() as int, deg) ensures prods_val(fl, ps, t) == prods_val(fl2, ps, t) {
    let f = |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, t)); let g = |i: int| fmul(ps[i].0, prod_val(fl2, ps[i].1@, t));
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] f(i) == g(i) by {
        let idx = ps[i].1@; fprod_eq(idx.len() as int, |j: int| t(*fl[idx[j] as int]), |j: int| t(*fl2[idx[j] as int])); }
    fsum_eq(ps.len() as int, f, g);
}
pub proof fn prods_val_push(fl: Seq<Arc<DenseMultilinearExtension>>, ps: Seq<(F, Vec<usize>)>, x: (F, Vec<usize>), t: TVal)
    ensures prods_val(fl, ps.push(x), t) == fadd(prods_val(fl, ps, t), fmul(x.0, prod_val(fl, x.1@, t))) {
    let q = ps.push(x);
    fsum_eq(ps.len() as int, |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, t)), |i: int| fmul(q[i].0, prod_val(fl, q[i].1@, t)));
}
//@fn src/arithmetic/virtual_polynomial.rs::VirtualPolynomial::new
//@@ ensures
        vp_wf(ret), ret.aux_info.num_variables == num_variables, ret.aux_info.max_degree == 0, ret.products@.len() == 0,
        forall|t: TVal| #[trigger] vpm(ret, t) == f0(),
//@end
//@fn src/arithmetic/virtual_polynomial.rs::VirtualPolynomial::new_from_mle
//@@ requires
        dwf(**mle),
//@@ ensures
        vp_wf(ret), ret.aux_info.num_variables == mle.num_vars, ret.aux_info.max_degree == 1, nonempty_products(ret.products@),
        forall|t: TVal| #[trigger] vpm(ret, t) == fmul(coefficient, t(**mle)),
//@@ entry
    broadcast use funits, vstd::std_specs::hash::group_hash_axioms, ax_pkey;
//@@ tail
    proof { assert forall|t: TVal| #[trigger] vpm(zk_ret, t) == fmul(coefficient, t(**mle)) by {
        let fl = zk_ret.flattened_ml_extensions@; let ps = zk_ret.products@;
        let f = |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, t)); assert(fsum(1, f) == fadd(fsum(0, f), f(0)));
        let idx = ps[0].1@; let g = |j: int| t(*fl[idx[j] as int]); assert(fprod(1, g) == fmul(fprod(0, g), g(0)));
    } }
//@end
//@fn src/arithmetic/virtual_polynomial.rs::VirtualPolynomial::add_mle_list
//@@ requires
        vp_wf(*old(self)), forall|i: int| 0 <= i < mle_list@.len() ==> dwf(*#[trigger] mle_list@[i]),
//@@ ensures
        vp_wf(*final(self)), final(self).aux_info.num_variables == old(self).aux_info.num_variables,
        ret.is_err() <==> (mle_list@.len() == 0 || exists|i: int| 0 <= i < mle_list@.len() && (#[trigger] mle_list@[i]).num_vars != old(self).aux_info.num_variables),
        ret.is_err() ==> forall|t: TVal| #[trigger] vpm(*final(self), t) == vpm(*old(self), t),
        ret.is_err() ==> final(self).products@ == old(self).products@,
        ret.is_ok() ==> forall|t: TVal| #[trigger] vpm(*final(self), t) == fadd(vpm(*old(self), t), fmul(coefficient, list_val(mle_list@, t))),
        ret.is_ok() ==> final(self).aux_info.max_degree == imax(old(self).aux_info.max_degree as int, mle_list@.len() as int),
        ret.is_ok() ==> final(self).products@.len() == old(self).products@.len() + 1 && (nonempty_products(old(self).products@) ==> nonempty_products(final(self).products@)),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_pkey;
    let ghost ml = mle_list@; let ghost fl0 = self.flattened_ml_extensions@; let ghost ps0 = self.products@; let ghost s0 = *self;
//@@ inv 0
            zk_n0 == ml.len(), zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> zk_acc0@[j] == ml[j],
//@@ before 1
        assert(mle_list@ =~= ml);
        let ghost d1 = self.aux_info.max_degree;
//@@ inv 1
            zk_n1 == ml.len(), mle_list@ == ml, vp_wf(*self), self.products@ == ps0, is_prefix(fl0, self.flattened_ml_extensions@),
            self.aux_info.max_degree == d1, self.aux_info.num_variables == s0.aux_info.num_variables,
            indexed_product@.len() == zk_i1, idx_ok(indexed_product@, self.flattened_ml_extensions@.len() as int),
            forall|j: int| 0 <= j < zk_i1 ==> *self.flattened_ml_extensions@[#[trigger] indexed_product@[j] as int] == *ml[j],
            forall|j: int| 0 <= j < zk_i1 ==> (#[trigger] ml[j]).num_vars == s0.aux_info.num_variables,
            forall|t: TVal| #[trigger] prods_val(self.flattened_ml_extensions@, ps0, t) == vpm(s0, t),
//@@ end 1
            proof { assert forall|t: TVal| #[trigger] prods_val(self.flattened_ml_extensions@, ps0, t) == vpm(s0, t) by { prods_val_ext(fl0, self.flattened_ml_extensions@, ps0, s0.aux_info.max_degree as int, t); } }
//@@ after 1
        let ghost ip = indexed_product;
        let ghost fl = self.flattened_ml_extensions@;
//@@ tail
    proof {
        assert forall|t: TVal| #[trigger] vpm(*self, t) == fadd(vpm(s0, t), fmul(coefficient, list_val(ml, t))) by {
            prods_val_push(fl, ps0, (coefficient, ip), t);
            fprod_eq(ml.len() as int, |j: int| t(*fl[ip@[j] as int]), |j: int| t(*ml[j]));
        }
    }
//@end
pub proof fn ring_scale4(a: F, k: F, p: F, v: F) ensures fmul(fmul(a, k), fmul(p, v)) == fmul(fmul(k, v), fmul(a, p)) {
    broadcast use fhom; let (a, k, p, v) = (frep(a), frep(k), frep(p), frep(v)); assert((a * k) * (p * v) == (k * v) * (a * p)) by(nonlinear_arith);
}
//@fn src/arithmetic/virtual_polynomial.rs::VirtualPolynomial::mul_by_mle
//@@ requires
        vp_wf(*old(self)), dwf(*mle), old(self).aux_info.max_degree < usize::MAX,
//@@ ensures
        vp_wf(*final(self)), final(self).aux_info.num_variables == old(self).aux_info.num_variables,
        ret.is_err() <==> mle.num_vars != old(self).aux_info.num_variables,
        ret.is_err() ==> *final(self) == *old(self),
        ret.is_ok() ==> forall|t: TVal| #[trigger] vpm(*final(self), t) == fmul(fmul(coefficient, t(*mle)), vpm(*old(self), t)),
        ret.is_ok() ==> final(self).aux_info.max_degree == old(self).aux_info.max_degree + 1,
        ret.is_ok() ==> final(self).products@.len() == old(self).products@.len() && nonempty_products(final(self).products@),
//@@ entry
    broadcast use vstd::std_specs::hash::group_hash_axioms, ax_pkey;
    let ghost fl0 = self.flattened_ml_extensions@; let ghost ps0 = self.products@; let ghost s0 = *self; let ghost m0 = mle;
//@@ before 0
    let ghost fl = self.flattened_ml_extensions@;
    assert(is_prefix(fl0, fl)); assert(*fl[mle_index as int] == *m0); assert(fl_ok(fl, s0.aux_info.num_variables as int)); assert(tab_ok(self.raw_pointers_lookup_table@, fl));
//@@ inv 0
            zk_n0 == ps0.len(), self.products@.len() == ps0.len(), self.flattened_ml_extensions@ == fl, self.aux_info == s0.aux_info, tab_ok(self.raw_pointers_lookup_table@, fl),
            forall|i: int| 0 <= i < zk_i0 ==> (#[trigger] self.products@[i]).0 == fmul(ps0[i].0, coefficient) && self.products@[i].1@ == ps0[i].1@.push(mle_index),
            forall|i: int| zk_i0 <= i < ps0.len() ==> #[trigger] self.products@[i] == ps0[i],
//@@ tail
    proof {
        let ps = self.products@;
        assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).1@.len() <= self.aux_info.max_degree && idx_ok(ps[i].1@, fl.len() as int) by { assert(ps0[i].1@.len() <= s0.aux_info.max_degree); assert(idx_ok(ps0[i].1@, fl0.len() as int)); }
        assert forall|t: TVal| #[trigger] vpm(*self, t) == fmul(fmul(coefficient, t(*m0)), vpm(s0, t)) by {
            prods_val_ext(fl0, fl, ps0, s0.aux_info.max_degree as int, t);
            let k = fmul(coefficient, t(*m0));
            let f = |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, t)); let g = |i: int| fmul(ps0[i].0, prod_val(fl, ps0[i].1@, t));
            assert forall|i: int| 0 <= i < ps.len() implies #[trigger] f(i) == (|i: int| fmul(k, g(i)))(i) by {
                let idx = ps0[i].1@; let idx2 = ps[i].1@; 
                fprod_eq(idx.len() as int, |j: int| t(*fl[idx2[j] as int]), |j: int| t(*fl[idx[j] as int]));
                assert(prod_val(fl, idx2, t) == fmul(prod_val(fl, idx, t), t(*m0)));
                ring_scale4(ps0[i].0, coefficient, prod_val(fl, idx, t), t(*m0));
            }
            fsum_eq(ps.len() as int, f, |i: int| fmul(k, g(i))); fsum_scale(ps.len() as int, k, g);
        }
    }
//@end
//@fn src/arithmetic/virtual_polynomial.rs::VirtualPolynomial::evaluate
//@@ requires
        vp_wf(*self),
//@@ ensures
        ret.is_err() <==> point@.len() != self.aux_info.num_variables,
        ret.is_ok() ==> ret.unwrap() == vpm(*self, at_point(point@)),
//@@ entry
    let ghost fl = self.flattened_ml_extensions@; let ghost ps = self.products@; let ghost t = at_point(point@);
//@@ inv 0
            zk_n0 == fl.len(), zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == t(*fl[j]),
//@@ inv 1
            zk_n1 == ps.len(), evals@.len() == fl.len(), forall|j: int| 0 <= j < fl.len() ==> #[trigger] evals@[j] == t(*fl[j]),
            zk_acc1 == fsum(zk_i1 as int, |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, t))),
//@@ inv 2
                    zk_n2 == p@.len(), zk_acc2 == fprod(zk_i2 as int, |j: int| t(*fl[p@[j] as int])), idx_ok(p@, fl.len() as int),
//@end
//@fn src/arithmetic/virtual_polynomial.rs::VirtualPolynomial::build_f_hat
//@@ requires
        vp_wf(*self), r@.len() < 62, self.aux_info.max_degree < usize::MAX,
//@@ ensures
        ret.is_err() <==> (r@.len() != self.aux_info.num_variables || r@.len() == 0),
        ret.is_ok() ==> vp_wf(ret.unwrap()) && ret.unwrap().aux_info.num_variables == self.aux_info.num_variables && ret.unwrap().aux_info.max_degree == self.aux_info.max_degree + 1 && ret.unwrap().products@.len() == self.products@.len() && nonempty_products(ret.unwrap().products@),
        ret.is_ok() ==> forall|x: Seq<F>| x.len() == r@.len() ==> #[trigger] vpm(ret.unwrap(), at_point(x)) == fmul(eqpt(x, r@), vpm(*self, at_point(x))),
        ret.is_ok() ==> forall|b: int| 0 <= b < p2(r@.len() as int) ==> #[trigger] vpm(ret.unwrap(), at_bool(b)) == fmul(eqw(b, r@), vpm(*self, at_bool(b))),
//@@ entry
    broadcast use funits;
//@@ after-let eq_x_r
    let ghost em = eq_x_r;
    proof { assert forall|x: Seq<F>| x.len() == r@.len() implies #[trigger] mlev(em.evaluations@, x) == eqpt(x, r@) by { eq_table_mle(em.evaluations@, r@, x); } }
//@@ tail
    proof { assert forall|x: Seq<F>| x.len() == r@.len() implies #[trigger] vpm(res, at_point(x)) == fmul(eqpt(x, r@), vpm(*self, at_point(x))) by { assert((at_point(x))(*em) == mlev(em.evaluations@, x)); }
        assert forall|b: int| 0 <= b < p2(r@.len() as int) implies #[trigger] vpm(res, at_bool(b)) == fmul(eqw(b, r@), vpm(*self, at_bool(b))) by { assert((at_bool(b))(*em) == em.evaluations@[b]); } }
//@end
//@fn src/arithmetic/virtual_polynomial.rs::VirtualPolynomial::materialize
//@@ requires
        vp_wf(*self), self.aux_info.num_variables < 62,
//@@ ensures
        ret.num_vars == self.aux_info.num_variables, dwf(ret),
        forall|b: int| 0 <= b < p2(self.aux_info.num_variables as int) ==> #[trigger] ret.evaluations@[b] == vpm(*self, at_bool(b)),
//@@ entry
    broadcast use ipow_p2;
    let ghost fl = self.flattened_ml_extensions@; let ghost ps = self.products@; 
    proof { p2_mono(self.aux_info.num_variables as int, 62); p2_64(); ipow_p2(self.aux_info.num_variables as int); assert(((self.aux_info.num_variables as u32) as int) == self.aux_info.num_variables); assert(p2(self.aux_info.num_variables as int) <= usize::MAX); assert(p2(self.aux_info.num_variables as int) >= 0) by { p2_pos(self.aux_info.num_variables as int); } assert(2usize.zk_pow_v(self.aux_info.num_variables as u32) as int == p2(self.aux_info.num_variables as int)); }
//@@ inv 0
            zk_n0 == p2(self.aux_info.num_variables as int), eval_vec@.len() == zk_i0, forall|b: int| 0 <= b < zk_i0 ==> #[trigger] eval_vec@[b] == vpm(*self, at_bool(b)),
//@@ start 0
        let ghost t = at_bool(zk_i0 as int);
//@@ inv 1
            zk_n1 == ps.len(), zk_acc0 == fsum(zk_i1 as int, |i: int| fmul(ps[i].0, prod_val(fl, ps[i].1@, t))),
//@@ inv 2
                    zk_n2 == prod@.len(), zk_acc1 == fprod(zk_i2 as int, |j: int| t(*fl[prod@[j] as int])), idx_ok(prod@, fl.len() as int),
//@end
//@fn src/arithmetic/virtual_polynomial.rs::Add for VirtualPolynomial::add
//@@ requires
        vp_wf(*self), vp_wf(*other), self.aux_info.num_variables == other.aux_info.num_variables, forall|i: int| 0 <= i < other.products@.len() ==> (#[trigger] other.products@[i]).1@.len() > 0,
//@@ ensures
        vp_wf(ret), ret.aux_info.num_variables == self.aux_info.num_variables,
        forall|t: TVal| #[trigger] vpm(ret, t) == fadd(vpm(*self, t), vpm(*other, t)),
//@@ entry
    broadcast use funits;
    let ghost fl = other.flattened_ml_extensions@; let ghost ps = other.products@;
//@@ before 0
    assert(ps.subrange(0, 0) =~= Seq::empty());
//@@ inv 0
            zk_n0 == ps.len(), vp_wf(res), res.aux_info.num_variables == self.aux_info.num_variables,
            forall|t: TVal| #[trigger] vpm(res, t) == fadd(vpm(*self, t), prods_val(fl, ps.subrange(0, zk_i0 as int), t)),
//@@ start 0
        let ghost r0 = res;
//@@ inv 1
                zk_n1 == products.1@.len(), zk_acc0@.len() == zk_i1, idx_ok(products.1@, fl.len() as int),
                forall|j: int| 0 <= j < zk_i1 ==> #[trigger] zk_acc0@[j] == fl[products.1@[j] as int],
//@@ after-let cur
        let ghost cl = cur@;
//@@ end 0
        proof {
            let i = zk_k0 as int;
            assert forall|t: TVal| #[trigger] vpm(res, t) == fadd(vpm(*self, t), prods_val(fl, ps.subrange(0, i + 1), t)) by {
                assert(vpm(res, t) == fadd(vpm(r0, t), fmul(ps[i].0, list_val(cl, t))));
                prods_val_push(fl, ps.subrange(0, i), ps[i], t); assert(ps.subrange(0, i).push(ps[i]) =~= ps.subrange(0, i + 1));
                let idx = ps[i].1@; fprod_eq(idx.len() as int, |j: int| t(*fl[idx[j] as int]), |j: int| t(*cl[j]));
                fadd_assoc(vpm(*self, t), prods_val(fl, ps.subrange(0, i), t), fmul(ps[i].0, list_val(cl, t)));
            }
        }
//@@ after 0
    assert(ps.subrange(0, ps.len() as int) =~= ps);
//@end
