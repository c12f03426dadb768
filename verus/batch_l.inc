// ---- batched openings: what the two contracts give together (lemmas only) ----
/// the setup's two keys for the secrets s
pub open spec fn keys(pp: MultilinearProverParam, v: MultilinearVerifierParam, s: Seq<F>) -> bool { srs_p(pp, s) && srs_v(v, s) && pp.num_vars == v.num_vars && pp.g == v.g }
/// the commitments are those of the tables
pub open spec fn coms(pp: MultilinearProverParam, c: Seq<Commitment>, fs: Seq<Seq<F>>, n: int) -> bool { c.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> dl((#[trigger] c[i]).0) == lin_all(pp.powers_of_g@[pp.num_vars - n].evals@, fs[i]) }
/// the combined commitment is that of the table that is opened
pub proof fn com_gtab(pp: MultilinearProverParam, v: MultilinearVerifierParam, s: Seq<F>, c: Seq<Commitment>, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, t: Seq<F>, a2: Seq<F>)
    requires keys(pp, v, s), a2.len() <= pp.num_vars, coms(pp, c, fs, a2.len() as int), pts.len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).len() == p2(a2.len() as int)
    ensures b_com(t, a2, pts, c) == fmul(mlev(gtab(fs, pts, t, a2), s.subrange(v.num_vars - a2.len(), v.num_vars as int)), dl(v.g)) {
    let nv = v.num_vars as int; let n = a2.len() as int; let u = s.subrange(nv - n, nv); let m = fs.len() as int; let dg = dl(v.g);
    let f = |i: int| fmul(fmul(eqpt(a2, pts[i]), eqw(i, t)), dl(c[i].0)); let q = |i: int| fmul(fmul(eqc(a2)(pts[i]), wt(t)(i)), mls(fs, u)(i)); let r = |i: int| fmul(dg, q(i));
    assert forall|i: int| 0 <= i < m implies #[trigger] f(i) == r(i) by {
        assert(fs[i].len() == p2(n)); lin_level(pp.powers_of_g@[nv - n].evals@, fs[i], u, dg); assert(dl(c[i].0) == fmul(mlev(fs[i], u), dg));
        let a = fmul(eqpt(a2, pts[i]), eqw(i, t)); fmul_assoc(a, mlev(fs[i], u), dg); fmul_comm(q(i), dg);
    }
    fsum_eq(m, f, r); fsum_scale(m, dg, q); gtab_mlev(fs, pts, t, a2, u); fmul_comm(dg, fsum(m, q));
}
/// completeness: a batch opened for the values the polynomials have is accepted, for every setup, list of polynomials and points, and log
pub proof fn batch_complete(pp: MultilinearProverParam, v: MultilinearVerifierParam, s: Seq<F>, c: Seq<Commitment>, fs: Seq<Seq<F>>, pts: Seq<Seq<F>>, n: int, p: BatchProof, lg: Seq<TEv>)
    requires keys(pp, v, s), 1 <= n <= pp.num_vars, fs.len() >= 2, pts.len() == fs.len(), coms(pp, c, fs, n), opens(p, pp, fs, pts, true_vals(fs, pts), n, lg),
        forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).len() == p2(n), forall|i: int| 0 <= i < pts.len() ==> (#[trigger] pts[i]).len() == n,
    ensures b_accepts(v, c, pts, p, lg) {
    broadcast use funits;
    let e = true_vals(fs, pts); let a2 = p.sum_check_proof.point@; let t = b_t(lg, pts, e); let g = gtab(fs, pts, t, a2); let pr = p.g_prime_proof.proofs@; let nv = v.num_vars as int; let u = s.subrange(nv - n, nv);
    p2_pos(n); com_gtab(pp, v, s, c, fs, pts, t, a2); let dc = b_com(t, a2, pts, c);
    assert forall|i: int| 0 <= i < n implies dl(#[trigger] pr[i]) == fmul(mlev(quot(g, a2, i), u.subrange(i + 1, n)), dl(v.g)) by {
        assert(u.subrange(i + 1, n) =~= s.subrange(nv - n + 1 + i, nv)); quot_len(g, a2, i); lin_level(pp.powers_of_g@[nv - n + 1 + i].evals@, quot(g, a2, i), u.subrange(i + 1, n), dl(pp.g));
    }
    assert(honest_d(v, dc, pr, g, a2, s));
    let y = mlev(g, a2); kzg_sum_d(v, s, dc, pr, g, a2, y); kz_sub0(y, y);
}
/// a claimed point that is not the sum check's is rejected
pub proof fn batch_bad_point(v: MultilinearVerifierParam, c: Seq<Commitment>, pts: Seq<Seq<F>>, p: BatchProof, q: BatchProof, lg: Seq<TEv>)
    requires b_accepts(v, c, pts, p, lg), q.f_i_eval_at_point_i@ == p.f_i_eval_at_point_i@, msgs(q.sum_check_proof) == msgs(p.sum_check_proof), q.sum_check_proof.point@ != p.sum_check_proof.point@
    ensures !b_accepts(v, c, pts, q, lg) { assert(pts[0].len() == p.sum_check_proof.point@.len()); }
/// an altered element of the opening is rejected (unless the sum check's point has hit a secret of the setup)
pub proof fn batch_bad_opening(v: MultilinearVerifierParam, s: Seq<F>, c: Seq<Commitment>, pts: Seq<Seq<F>>, p: BatchProof, q: BatchProof, lg: Seq<TEv>, j: int)
    requires srs_v(v, s), dl(v.h) != f0(), b_accepts(v, c, pts, p, lg), q.f_i_eval_at_point_i == p.f_i_eval_at_point_i, q.sum_check_proof == p.sum_check_proof,
        0 <= j < p.g_prime_proof.proofs@.len(), q.g_prime_proof.proofs@.len() == p.g_prime_proof.proofs@.len(), dl(q.g_prime_proof.proofs@[j]) != dl(p.g_prime_proof.proofs@[j]),
        s[v.num_vars - p.g_prime_proof.proofs@.len() + j] != p.sum_check_proof.point@[j], forall|i: int| 0 <= i < p.g_prime_proof.proofs@.len() && i != j ==> #[trigger] q.g_prime_proof.proofs@[i] == p.g_prime_proof.proofs@[i],
    ensures !b_accepts(v, c, pts, q, lg) {
    let e = p.f_i_eval_at_point_i@; let a2 = p.sum_check_proof.point@; let t = b_t(lg, pts, e); let n = a2.len() as int; let dc = b_com(t, a2, pts, c); let ms = msgs(p.sum_check_proof);
    let ch = sc_chs(sc_start(b_log2(lg, pts, e), n, 2), ms, n);
    kzg_altered_d(v, s, dc, dc, p.g_prime_proof.proofs@, q.g_prime_proof.proofs@, a2, interp(ms[n - 1], ch[n - 1]), j);
}
/// an altered commitment is rejected (unless its weight is zero)
pub proof fn batch_bad_commitment(v: MultilinearVerifierParam, s: Seq<F>, c: Seq<Commitment>, c2: Seq<Commitment>, pts: Seq<Seq<F>>, p: BatchProof, lg: Seq<TEv>, j: int)
    requires srs_v(v, s), dl(v.h) != f0(), b_accepts(v, c, pts, p, lg), c2.len() == c.len(), 0 <= j < c.len(), dl(c2[j].0) != dl(c[j].0), forall|i: int| 0 <= i < c.len() && i != j ==> #[trigger] c2[i] == c[i],
        fmul(eqpt(p.sum_check_proof.point@, pts[j]), eqw(j, b_t(lg, pts, p.f_i_eval_at_point_i@))) != f0(),
    ensures !b_accepts(v, c2, pts, p, lg) {
    let e = p.f_i_eval_at_point_i@; let a2 = p.sum_check_proof.point@; let t = b_t(lg, pts, e); let n = a2.len() as int; let ms = msgs(p.sum_check_proof);
    let ch = sc_chs(sc_start(b_log2(lg, pts, e), n, 2), ms, n); let m = c.len() as int;
    let f = |i: int| fmul(fmul(eqpt(a2, pts[i]), eqw(i, t)), dl(c[i].0)); let g = |i: int| fmul(fmul(eqpt(a2, pts[i]), eqw(i, t)), dl(c2[i].0));
    fsum_one(m, f, g, j); let w = fmul(eqpt(a2, pts[j]), eqw(j, t)); let x = dl(c[j].0); let y = dl(c2[j].0);
    if fsum(m, f) == fsum(m, g) {
        kz_sub0(fsum(m, g), fsum(m, f)); assert(fsub(fmul(w, y), fmul(w, x)) == fmul(w, fsub(y, x))) by { broadcast use fhom; let (ww, xx, yy) = (frep(w), frep(x), frep(y)); assert(ww * yy - ww * xx == ww * (yy - xx)) by(nonlinear_arith); }
        fmul_eq0(w, fsub(y, x)); kz_sub0(y, x);
    }
    kzg_altered_d(v, s, b_com(t, a2, pts, c), b_com(t, a2, pts, c2), p.g_prime_proof.proofs@, p.g_prime_proof.proofs@, a2, interp(ms[n - 1], ch[n - 1]), 0);
}
