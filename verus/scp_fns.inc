// ---- sumcheck proving: src/subroutines/poly_iop/sum_check/{prover,mod}.rs ----
//@typemap Self::ProverMessage => IOPProverMessage
//@struct src/subroutines/poly_iop/structs.rs::IOPProverState
pub open spec fn aux_ok(a: Seq<(Vec<F>, Vec<F>)>, d: int) -> bool { a.len() == (if d >= 1 { d - 1 } else { 0 }) && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0@ == inodes(i + 2) && is_bary(a[i].0@, a[i].1@) }
pub open spec fn sp_tabs(s: IOPProverState) -> Tabs { tabs_of(s.poly.flattened_ml_extensions@) }
/// state of a prover that has sent s.round messages
pub open spec fn sp_inv(s: IOPProverState) -> bool {
    let n = s.poly.aux_info.num_variables as int; let d = s.poly.aux_info.max_degree as int; let folded = if s.round == 0 { 0 } else { s.round - 1 };
    &&& 1 <= n < 63 && d < 0x3fff_ffff_ffff_ffff && s.round <= n
    &&& prods_ok(s.poly.products@, s.poly.flattened_ml_extensions@.len() as int, d) && nonempty_products(s.poly.products@)
    &&& fl_ok(s.poly.flattened_ml_extensions@, n - folded)
    &&& aux_ok(s.extrapolation_aux@, d) && s.challenges@.len() == folded
}
pub proof fn fl_tabs_ok(fl: Seq<Arc<DenseMultilinearExtension>>, m: int) requires fl_ok(fl, m) ensures tabs_ok(tabs_of(fl), m) { assert forall|j: int| 0 <= j < fl.len() implies (#[trigger] tabs_of(fl)[j]).len() == p2(m) by { assert(dwf(*fl[j])); } }
pub proof fn prods_ps_ok(ps: Seq<(F, Vec<usize>)>, n: int, d: int) requires prods_ok(ps, n, d) ensures ps_ok(ps, n) { }
pub proof fn fold_lo_n1(ev: Seq<F>, r: F) ensures fold_lo_n(ev, seq![r]) == fold_lo(ev, r) { assert(seq![r].subrange(1, 1) =~= Seq::<F>::empty()); assert(fold_lo_n(fold_lo(ev, r), Seq::<F>::empty()) == fold_lo(ev, r)); }
pub proof fn lo_at_step(t: Seq<F>, b: int, s: int) ensures fadd(lo_at(t, b, fk(s)), fsub(t[2 * b + 1], t[2 * b])) == lo_at(t, b, fk(s + 1)) {
    broadcast use fhom; let (p, q) = (frep(t[2 * b]), frep(t[2 * b + 1])); assert(p + (q - p) * s + (q - p) == p + (q - p) * (s + 1)) by(nonlinear_arith);
}
//@fn src/subroutines/poly_iop/sum_check/prover.rs::SumCheckProver for IOPProverState::prover_init
//@@ requires
        polynomial.aux_info.max_degree < 0x3fff_ffff_ffff_ffff, polynomial.aux_info.num_variables < 63, prods_ok(polynomial.products@, polynomial.flattened_ml_extensions@.len() as int, polynomial.aux_info.max_degree as int),
        fl_ok(polynomial.flattened_ml_extensions@, polynomial.aux_info.num_variables as int), nonempty_products(polynomial.products@),
//@@ ensures
        ret.is_ok() <==> polynomial.aux_info.num_variables >= 1,
        ret.is_ok() ==> sp_inv(ret.unwrap()) && ret.unwrap().round == 0 && ret.unwrap().poly == *polynomial && ret.unwrap().challenges@.len() == 0,
//@@ vartype
zk_acc0: Vec<(Vec<F>, Vec<F>)>
//@@ inv 0
            zk_a0 == 1, zk_b0 == polynomial.aux_info.max_degree, zk_n0 == (if zk_b0 >= 1 { zk_b0 - 1 } else { 0 }), zk_acc0@.len() == zk_i0,
            forall|i: int| 0 <= i < zk_i0 ==> (#[trigger] zk_acc0@[i]).0@ == inodes(i + 2) && is_bary(zk_acc0@[i].0@, zk_acc0@[i].1@),
//@@ inv 1
                    zk_n1 == 1 + degree, zk_acc1@ == inodes(zk_i1 as int),
//@@ before 1
                assert(zk_acc1@ =~= inodes(0));
//@@ end 1
                    assert(zk_acc1@ =~= inodes(zk_i1 as int));
//@@ after 1
                proof { inodes_distinct(degree + 1); }
//@end
pub open spec fn per_prod(tb: Tabs, idx: Seq<usize>, lo: int, hi: int, t: int) -> F { fsum(hi - lo, |b: int| pterm(tb, idx, lo + b, fk(t))) }
pub open spec fn sp_next(tb: Tabs, c: Option<F>) -> Tabs { match c { Some(r) => fold_tabs(tb, r), None => tb } }
pub open spec fn is_buf(buf: Seq<(F, F)>, tb: Tabs, idx: Seq<usize>, b: int, lim: int, s: int) -> bool {
    buf.len() == idx.len() && forall|j: int| 0 <= j < idx.len() ==> (#[trigger] buf[j]).1 == fsub(tb[idx[j] as int][2 * b + 1], tb[idx[j] as int][2 * b]) && buf[j].0 == lo_at(tb[idx[j] as int], b, fk(if j < lim { s + 1 } else { s }))
}
//@fn src/subroutines/poly_iop/sum_check/prover.rs::SumCheckProver for IOPProverState::prove_round_and_update_state
//@@ requires
        sp_inv(*old(self)),
//@@ ensures
        ret.is_ok() <==> old(self).round < old(self).poly.aux_info.num_variables && (challenge.is_some() <==> old(self).round > 0),
        ret.is_ok() ==> sp_inv(*final(self)) && final(self).round == old(self).round + 1 && final(self).poly.products == old(self).poly.products && final(self).poly.aux_info == old(self).poly.aux_info
            && sp_tabs(*final(self)) == sp_next(sp_tabs(*old(self)), *challenge) && final(self).challenges@ == (match *challenge { Some(r) => old(self).challenges@.push(r), None => old(self).challenges@ }),
        ret.is_ok() ==> ret.unwrap().evaluations@.len() == old(self).poly.aux_info.max_degree + 1
            && forall|t: int| 0 <= t <= old(self).poly.aux_info.max_degree ==> #[trigger] ret.unwrap().evaluations@[t] == ssum(sp_tabs(*final(self)), old(self).poly.products@, old(self).poly.aux_info.num_variables - old(self).round, fk(t)),
//@@ entry
    broadcast use shifts, funits;
    let ghost n = self.poly.aux_info.num_variables as int; let ghost d = self.poly.aux_info.max_degree as int; let ghost fl0 = self.poly.flattened_ml_extensions@; let ghost r0 = self.round as int; let ghost nf = fl0.len() as int;
    let ghost m0 = if r0 == 0 { n } else { n - r0 + 1 }; let ghost m = n - r0; let ghost ps = self.poly.products@;
    proof { p2_64(); }
//@@ inv 0
            zk_n0 == nf, zk_acc0@.len() == zk_i0, forall|j: int| 0 <= j < zk_i0 ==> #[trigger] zk_acc0@[j] == *fl0[j],
//@@ inv 1
            zk_n1 == nf, flattened_ml_extensions@.len() == nf, r == *chal,
            forall|j: int| 0 <= j < zk_i1 ==> dwf(#[trigger] flattened_ml_extensions@[j]) && flattened_ml_extensions@[j].num_vars == m && flattened_ml_extensions@[j].evaluations@ == fold_lo(fl0[j].evaluations@, r),
            forall|j: int| zk_i1 <= j < nf ==> #[trigger] flattened_ml_extensions@[j] == *fl0[j],
//@@ start 1
        proof { assert(dwf(*fl0[zk_i1 as int]) && fl0[zk_i1 as int].num_vars == m0); fold_lo_n1(fl0[zk_i1 as int].evaluations@, r); assert([r]@ =~= seq![r]); }
//@@ after-let products_list
    let ghost tb = Seq::new(nf as nat, |j: int| flattened_ml_extensions@[j].evaluations@);
    proof {
        assert(tb =~= sp_next(tabs_of(fl0), *challenge));
        assert forall|j: int| 0 <= j < nf implies dwf(#[trigger] flattened_ml_extensions@[j]) && flattened_ml_extensions@[j].num_vars == m && flattened_ml_extensions@[j].evaluations@ == tb[j] by { if challenge.is_none() { assert(dwf(*fl0[j])); } }
        p2_pos(m - 1); p2_mono(m - 1, 61); assert(p2(62) == 2 * p2(61));
    }
//@@ inv 2
            zk_n2 == ps.len(), products_sum@.len() == d + 1, forall|t: int| 0 <= t <= d ==> #[trigger] products_sum@[t] == ssum_n(tb, ps, zk_i2 as int, m, fk(t)),
//@@ item 2
        let ghost idx = ps[zk_k2 as int].1@; let ghost cf = ps[zk_k2 as int].0; let ghost len = idx.len() as int; let ghost ps0 = products_sum@; let ghost pf = |x: F| fmul(psum(tb, idx, m, x), cf);
        assert(idx_ok(idx, nf) && 1 <= len <= d);
//@@ inv 3
            zk_n3 == p2(m - 1), zk_acc1@.len() == len + 1, forall|t: int| 0 <= t <= len ==> #[trigger] zk_acc1@[t] == per_prod(tb, idx, 0, zk_i3 as int, t),
//@@ start 3
                let ghost acc0 = zk_acc1@; let ghost lo = zk_i3 as int;
//@@ inv 4
                    lo <= zk_i4, zk_n4 <= p2(m - 1), zk_acc2.0@.len() == len, zk_acc2.1@.len() == len + 1, forall|t: int| 0 <= t <= len ==> #[trigger] zk_acc2.1@[t] == per_prod(tb, idx, lo, zk_i4 as int, t),
//@@ start 4
                    let ghost accb = zk_acc2.1@; let ghost bi = zk_i4 as int;
//@@ inv 5
                        zk_n5 == len, buf@.len() == len, b == bi, forall|j: int| 0 <= j < zk_i5 ==> (#[trigger] buf@[j]).1 == fsub(tb[idx[j] as int][2 * b + 1], tb[idx[j] as int][2 * b]) && buf@[j].0 == tb[idx[j] as int][2 * b],
//@@ start 5
                        proof { assert(p2(m) == 2 * p2(m - 1)); assert(0 <= idx[zk_i5 as int] < nf); assert(dwf(flattened_ml_extensions@[idx[zk_i5 as int] as int])); assert(tb[idx[zk_i5 as int] as int].len() == p2(m)); }
//@@ after 5
                    proof { assert forall|j: int| 0 <= j < len implies (#[trigger] buf@[j]).0 == lo_at(tb[idx[j] as int], bi, fk(0)) by { reveal(f0); lo_at_01(tb[idx[j] as int], bi); } assert(is_buf(buf@, tb, idx, bi, 0, 0)); }
//@@ inv 6
                                zk_n6 == len, zk_acc3 == fprod(zk_i6 as int, |j: int| lo_at(tb[idx[j] as int], bi, fk(0))),
//@@ inv 7
                        zk_n7 == len, zk_o0 == 1, acc@.len() == len + 1, is_buf(buf@, tb, idx, bi, 0, zk_i7 as int),
                        forall|t: int| 0 <= t <= zk_i7 ==> #[trigger] acc@[t] == fadd(accb[t], pterm(tb, idx, bi, fk(t))), forall|t: int| zk_i7 < t <= len ==> #[trigger] acc@[t] == accb[t],
//@@ inv 8
                            zk_n8 == len, is_buf(buf@, tb, idx, bi, zk_i8 as int, zk_k7 as int),
//@@ start 8
                            proof { lo_at_step(tb[idx[zk_i8 as int] as int], bi, zk_k7 as int); }
//@@ after 8
                        assert(is_buf(buf@, tb, idx, bi, 0, zk_k7 + 1));
//@@ inv 9
                                    zk_n9 == len, zk_acc4 == fprod(zk_i9 as int, |j: int| lo_at(tb[idx[j] as int], bi, fk(zk_k7 + 1))),
//@@ end 4
                    proof { assert forall|t: int| 0 <= t <= len implies #[trigger] zk_acc2.1@[t] == per_prod(tb, idx, lo, zk_i4 as int, t) by { assert(lo + (bi - lo) == bi); } }
//@@ inv 10
                    zk_n10 == len + 1, sum@.len() == len + 1, forall|t: int| 0 <= t < zk_i10 ==> #[trigger] sum@[t] == per_prod(tb, idx, 0, zk_h0 as int, t), forall|t: int| zk_i10 <= t <= len ==> #[trigger] sum@[t] == acc0[t],
//@@ start 10
                    proof { let t = zk_i10 as int; let f = |b: int| pterm(tb, idx, 0 + b, fk(t)); let h = zk_h0 as int; fsum_split(lo, h - lo, f); fsum_eq(h - lo, |b: int| pterm(tb, idx, lo + b, fk(t)), |i: int| f(lo + i)); }
//@@ after 3
            proof { assert forall|t: int| 0 <= t <= len implies #[trigger] zk_acc1@[t] == psum(tb, idx, m, fk(t)) by { fsum_eq(p2(m - 1), |b: int| pterm(tb, idx, 0 + b, fk(t)), |b: int| pterm(tb, idx, b, fk(t))); } }
//@@ inv 11
            zk_n11 == len + 1, sum@.len() == len + 1, forall|t: int| 0 <= t < zk_i11 ==> #[trigger] sum@[t] == fmul(psum(tb, idx, m, fk(t)), cf), forall|t: int| zk_i11 <= t <= len ==> #[trigger] sum@[t] == psum(tb, idx, m, fk(t)),
//@@ before 12
            proof { psum_poly(tb, idx, p2(m - 1)); let q = |x: F| fsum(p2(m - 1), |b: int| pterm(tb, idx, b, x)); poly_scale(q, cf, len + 1); poly_ext(|x: F| fmul(q(x), cf), pf, len + 1); }
//@@ inv 12
                zk_n12 == d - len, zk_acc5@.len() == zk_i12, forall|i: int| 0 <= i < zk_i12 ==> #[trigger] zk_acc5@[i] == pf(fk(len + 1 + i)),
//@@ start 12
                proof {
                    let x = fk(len + 1 + zk_i12); let a = self.extrapolation_aux@[len - 1]; assert(a.0@ == inodes(len + 1)); inodes_distinct(len + 1); ax_fp();
                    assert forall|i: int| 0 <= i < len + 1 implies x != #[trigger] inodes(len + 1)[i] by { if x == fk(i) { fk_inj(len + 1 + zk_i12, i); } }
                    let c = choose|c: Seq<F>| #[trigger] is_coeffs(c, pf, len + 1);
                    assert(pvals(c, inodes(len + 1)) =~= sum@) by { assert forall|t: int| 0 <= t < len + 1 implies pvals(c, inodes(len + 1))[t] == sum@[t] by { assert(pf(fk(t)) == pval(c, fk(t))); } }
                    assert(pf(x) == pval(c, x));
                }
//@@ inv 13
            zk_n13 == d + 1, products_sum@.len() == d + 1, zk_l15 == len + 1, zk_l16 == d - len, forall|t: int| 0 <= t < zk_i13 ==> #[trigger] products_sum@[t] == ssum_n(tb, ps, zk_k2 + 1, m, fk(t)), forall|t: int| zk_i13 <= t <= d ==> #[trigger] products_sum@[t] == ps0[t],
//@@ start 13
            proof { let t = zk_i13 as int; assert(ssum_n(tb, ps, zk_k2 + 1, m, fk(t)) == fadd(ssum_n(tb, ps, zk_k2 as int, m, fk(t)), fmul(psum(tb, idx, m, fk(t)), cf))); if t > len { assert(extraploation@[t - len - 1] == pf(fk(len + 1 + (t - len - 1)))); } }
//@@ inv 14
        zk_n14 == nf, zk_acc6@.len() == zk_i14, forall|j: int| 0 <= j < zk_i14 ==> *#[trigger] zk_acc6@[j] == flattened_ml_extensions@[j],
//@@ vartype
zk_acc6: Vec<Arc<DenseMultilinearExtension>>
//@@ tail
    assert(sp_tabs(*self) =~= tb);
//@end
pub proof fn sc_chs_prefix(log: Seq<TEv>, a: Seq<Seq<F>>, b: Seq<Seq<F>>, k: int) requires 0 <= k, forall|i: int| 0 <= i <= k ==> a[i] == b[i] ensures sc_ch(log, a, k) == sc_ch(log, b, k) { sc_log_prefix(log, a, b, k); }
//@fn src/subroutines/poly_iop/sum_check/mod.rs::SumCheck for PolyIOP::prove | free as=SumCheck__prove
//@@ requires
        vp_wf(*poly), nonempty_products(poly.products@), poly.aux_info.num_variables < 63, poly.aux_info.max_degree < 0x3fff_ffff_ffff_ffff,
//@@ ensures
        ret.is_ok() <==> poly.aux_info.num_variables >= 1,
        ret.is_ok() ==> {
            let n = poly.aux_info.num_variables as int; let d = poly.aux_info.max_degree as int; let l = sc_start(ilog(*old(transcript)), n, d); let ms = msgs(ret.unwrap()); let ch = sc_chs(l, ms, n); let tb = tabs_of(poly.flattened_ml_extensions@);
            &&& ret.unwrap().point@ == ch && ms.len() == n
            &&& ilog(*final(transcript)) == sc_log(l, ms, n) && !final(transcript).is_empty
            &&& forall|k: int| 0 <= k < n ==> #[trigger] honest_msg(tb, poly.products@, n, d, ms, ch, k)
            &&& forall|k: int, t: int| 0 <= k < n && 0 <= t <= d ==> #[trigger] ms[k][t] == partial_sum(*poly, ch.subrange(0, k), fk(t))
            &&& d >= 1 ==> sc_accepts(vp_sum(*poly), ms, n, d, l)
            &&& d >= 1 ==> sc_expect(ms, ch, vp_sum(*poly), n) == vpm(*poly, at_point(ch))
        },
//@@ vartype
prover_msgs: Vec<IOPProverMessage>
challenge: Option<F>
//@@ entry
    let ghost n = poly.aux_info.num_variables as int; let ghost d = poly.aux_info.max_degree as int; let ghost l = sc_start(ilog(*transcript), n, d); let ghost tb = tabs_of(poly.flattened_ml_extensions@); let ghost ps = poly.products@;
    let ghost mut ms: Seq<Seq<F>> = Seq::empty(); let ghost mut ch: Seq<F> = Seq::empty();
    proof { fl_tabs_ok(poly.flattened_ml_extensions@, n); prods_ps_ok(ps, tb.len() as int, d); fold_tabs_nil(tb); }
//@@ inv 0
            zk_n0 == n, !transcript.is_empty, ms.len() == zk_i0, ch.len() == zk_i0, prover_msgs@.len() == zk_i0, ilog(*transcript) == sc_log(l, ms, zk_i0 as int),
            sp_inv(prover_state), prover_state.round == zk_i0, prover_state.poly.products == poly.products, prover_state.poly.aux_info == poly.aux_info,
            challenge == (if zk_i0 == 0 { None } else { Some(ch[zk_i0 - 1]) }), prover_state.challenges@ == (if zk_i0 == 0 { ch } else { ch.subrange(0, zk_i0 - 1) }),
            sp_tabs(prover_state) == fold_tabs_n(tb, prover_state.challenges@),
            forall|k: int| 0 <= k < zk_i0 ==> (#[trigger] prover_msgs@[k]).evaluations@ == ms[k], forall|k: int| 0 <= k < zk_i0 ==> #[trigger] ch[k] == sc_ch(l, ms, k),
            forall|k: int| 0 <= k < zk_i0 ==> #[trigger] honest_msg(tb, ps, n, d, ms, ch, k),
//@@ start 0
        let ghost ms0 = ms; let ghost ch0 = ch; let ghost i = zk_i0 as int; let ghost st0 = prover_state;
//@@ after-let prover_msg
        proof {
            ms = ms0.push(prover_msg.evaluations@);
            sc_log_prefix(l, ms0, ms, i);
            if i > 0 { assert(prover_state.challenges@ =~= ch0); fold_tabs_snoc(tb, ch0, i - 1); assert(ch0.subrange(0, i) =~= ch0); }
            ch = ch0.push(sc_ch(l, ms, i));
            assert(ch.subrange(0, i) =~= ch0);
            assert(sp_tabs(prover_state) == fold_tabs_n(tb, ch.subrange(0, i)));
        }
//@@ end 0
        proof {
            assert(ch.subrange(0, zk_i0 - 1) =~= ch0);
            assert forall|k: int| 0 <= k < zk_i0 implies #[trigger] ch[k] == sc_ch(l, ms, k) by { if k < i { assert(ch0[k] == sc_ch(l, ms0, k)); sc_chs_prefix(l, ms0, ms, k); } }
            assert forall|k: int| 0 <= k < zk_i0 implies #[trigger] honest_msg(tb, ps, n, d, ms, ch, k) by { if k < i { assert(honest_msg(tb, ps, n, d, ms0, ch0, k)); assert(ch.subrange(0, k) =~= ch0.subrange(0, k)); } }
        }
//@@ tail
    proof {
        let p = zk_ret.unwrap();
        assert(p.point@ =~= ch); assert(msgs(p) =~= ms); assert(sc_chs(l, ms, n) =~= ch);
        assert forall|k: int, t: int| 0 <= k < n && 0 <= t <= d implies #[trigger] ms[k][t] == partial_sum(*poly, ch.subrange(0, k), fk(t)) by { assert(honest_msg(tb, ps, n, d, ms, ch, k)); partial_sum_ssum(*poly, ch.subrange(0, k), fk(t)); }
        if d >= 1 { honest_accepts(tb, ps, n, d, ms, ch); vp_sum_hsum(*poly); hsum_point(*poly, ch); }
    }
//@end
