// ---- verifier side of group_by ----
pub struct GroupByIOP { }
//@threaded GroupByIOP::verify_with_advice
//@struct src/zksql_poly_iop/group_by/group_by.rs::AggregationType | derive=Clone,Copy
//@struct src/zksql_poly_iop/group_by/group_by.rs::GroupByInstructionWithVerifyingAdvice
pub type VIns = (usize, AggregationType, TrackedComm);
/// number of sums among the first n instructions
pub open spec fn gsums(s: Seq<VIns>, n: int) -> int decreases n { if n <= 0 { 0 } else { gsums(s, n - 1) + (if s[n - 1].1 is Sum { 1int } else { 0 }) } }
pub proof fn gsums_le(s: Seq<VIns>, n: int) ensures 0 <= gsums(s, n), n >= 0 ==> gsums(s, n) <= n decreases n { if n > 0 { gsums_le(s, n - 1); } }
/// the prover's gb_step, with commitments
pub open spec fn gb_vstep(a: VerifierTracker, b: VerifierTracker, x: TableComm, pre: BagComm, g: BagComm, m: TrackedComm, ins: VIns, col: TrackedComm) -> bool {
    match ins.1 { AggregationType::Count => b == a && col == m, AggregationType::Sum => balanced(a, sq1(pre), sq1(g)) && mt_v(a, b, sq1(pre), sq1(g), sq1(x.col_vals@[ins.0 as int]), sq1(ins.2)) && col == ins.2, _ => false }
}
pub open spec fn gb_pre(x: TableComm, k: int) -> BagComm { BagComm { poly: x.col_vals@[k], selector: x.selector, num_vars: x.num_vars } }
/// the result has the size of the input
pub open spec fn gb_grp(x: TableComm, gi: GroupByInstructionWithVerifyingAdvice) -> BagComm { BagComm { poly: gi.support_cols@[0], selector: gi.support_sel, num_vars: x.num_vars } }
pub open spec fn gb_vrun(st: Seq<VerifierTracker>, x: TableComm, gi: GroupByInstructionWithVerifyingAdvice, cols: Seq<TrackedComm>, n: int) -> bool {
    st.len() == n + 1 && cols.len() == n + 1 && cols[0] == gi.support_cols@[0] && forall|i: int| 0 <= i < n ==> gb_vstep(#[trigger] st[i], st[i + 1], x, gb_pre(x, gi.grouping_cols@[0] as int), gb_grp(x, gi), gi.support_multiplicity, gi.agg_instr@[i], cols[i + 1])
}
pub open spec fn gb_vmid(a: VerifierTracker, b: VerifierTracker, x: TableComm, gi: GroupByInstructionWithVerifyingAdvice, r: BagComm, res: TableComm, st: Seq<VerifierTracker>) -> bool {
    let n = gi.agg_instr@.len() as int; supp_v(a, st[0], gb_pre(x, gi.grouping_cols@[0] as int), gb_grp(x, gi), gi.support_multiplicity, r) && gb_vrun(st, x, gi, res.col_vals@, n) && st[n] == b && res.selector == gi.support_sel && res.num_vars == x.num_vars
}
/// the groups are checked to be the support of the grouping column, then every instruction in order
pub open spec fn gb_v(a: VerifierTracker, b: VerifierTracker, x: TableComm, gi: GroupByInstructionWithVerifyingAdvice, r: BagComm, res: TableComm) -> bool { exists|st: Seq<VerifierTracker>| #[trigger] gb_vmid(a, b, x, gi, r, res, st) }
/// one grouping column, every named column exists
pub open spec fn gb_shape(x: TableComm, gi: GroupByInstructionWithVerifyingAdvice) -> bool { gi.grouping_cols@.len() == 1 && gi.grouping_cols@[0] < x.col_vals@.len() && forall|i: int| 0 <= i < gi.agg_instr@.len() ==> (#[trigger] gi.agg_instr@[i]).0 < x.col_vals@.len() }
/// a sum's declared sums differ, after k good instructions
pub open spec fn gb_bad1(a: VerifierTracker, x: TableComm, gi: GroupByInstructionWithVerifyingAdvice, r: BagComm, cols: Seq<TrackedComm>, st: Seq<VerifierTracker>, k: int) -> bool {
    0 <= k < gi.agg_instr@.len() && supp_v(a, st[0], gb_pre(x, gi.grouping_cols@[0] as int), gb_grp(x, gi), gi.support_multiplicity, r) && gb_vrun(st, x, gi, cols, k) && gi.agg_instr@[k].1 is Sum && !balanced(st[k], sq1(gb_pre(x, gi.grouping_cols@[0] as int)), sq1(gb_grp(x, gi)))
}
/// refused: the instruction names a column that does not exist, the support is refused, or a sum's declared sums differ
pub open spec fn gb_bad(a: VerifierTracker, x: TableComm, gi: GroupByInstructionWithVerifyingAdvice, r: BagComm) -> bool {
    !gb_shape(x, gi) || supp_bad(a, gb_pre(x, gi.grouping_cols@[0] as int), gb_grp(x, gi), gi.support_multiplicity, r) || exists|cols: Seq<TrackedComm>, st: Seq<VerifierTracker>, k: int| #[trigger] gb_bad1(a, x, gi, r, cols, st, k)
}
pub open spec fn gb_cost(gi: GroupByInstructionWithVerifyingAdvice) -> int { 80 + 16 * gsums(gi.agg_instr@, gi.agg_instr@.len() as int) }
pub open spec fn gb_ok(a: VerifierTracker, x: TableComm, gi: GroupByInstructionWithVerifyingAdvice, who: u64) -> bool {
    // averages, minima and maxima are todo!() in the code; no grouping column at all indexes out of bounds
    &&& tablec(a, x, who) && x.num_vars < 62 && gi.grouping_cols@.len() > 0 && gi.support_cols@.len() > 0 && hc(a, gi.support_cols@[0], who) && hc(a, gi.support_sel, who) && hc(a, gi.support_multiplicity, who) && gi.agg_instr@.len() < 0x7fff_ffff
    &&& forall|i: int| 0 <= i < gi.agg_instr@.len() ==> ((#[trigger] gi.agg_instr@[i]).1 is Count || gi.agg_instr@[i].1 is Sum) && hc(a, gi.agg_instr@[i].2, who)
}
//@fn src/zksql_poly_iop/group_by/group_by.rs::GroupByIOP::verify_with_advice | thread=VerifierTracker maypanic
//@@ requires
        v_room(*old(zk_tr), (80 + 16 * group_by_instructions.agg_instr@.len()) as int), gb_ok(*old(zk_tr), *input_table, *group_by_instructions, old(verifier_tracker).tracker_rc.who), bagc(*old(zk_tr), *range_bag, old(verifier_tracker).tracker_rc.who), range_bag.num_vars < 62,
//@@ ensures
        *final(verifier_tracker) == *old(verifier_tracker),
        ret.is_ok() ==> gb_shape(*input_table, *group_by_instructions) && gb_v(*old(zk_tr), *final(zk_tr), *input_table, *group_by_instructions, *range_bag, ret.unwrap()),
        ret.is_err() ==> gb_bad(*old(zk_tr), *input_table, *group_by_instructions, *range_bag),
        ret.is_ok() ==> v_grow(*old(zk_tr), *final(zk_tr)) && final(zk_tr).id_counter == old(zk_tr).id_counter + gb_cost(*group_by_instructions) && !final(zk_tr).transcript.is_empty,
//@@ entry
    broadcast use mt_v_short, balanced_short;
    let ghost a = *zk_tr; let ghost who = verifier_tracker.tracker_rc.who; let ghost x = *input_table; let ghost gi = *group_by_instructions; let ghost ag = gi.agg_instr@; let ghost n = ag.len() as int;
//@@ inv 0
            zk_n0 == n, forall|i: int| 0 <= i < zk_i0 ==> (#[trigger] ag[i]).0 < x.col_vals@.len(),
//@@ after-let pre_grouping_col_bag
    proof { assert(hc(a, x.col_vals@[grouping_col_idx as int], who)); assert(gb_shape(x, gi)); }
    let ghost pre = pre_grouping_col_bag; proof { assert(pre == gb_pre(x, gi.grouping_cols@[0] as int)); assert(bagc(a, pre, who)); }
//@@ after-let grouped_col_bag
    let ghost grp = grouped_col_bag; proof { assert(grp == gb_grp(x, gi)); assert(bagc(a, grp, who)); }
//@@ after-call verify_with_advice
    let ghost mut st = Seq::<VerifierTracker>::empty().push(*zk_tr); let ghost b0 = *zk_tr;
//@@ inv 1
            zk_n1 == n, *verifier_tracker == *old(verifier_tracker), st[zk_i1 as int] == *zk_tr, st[0] == b0, gb_vrun(st, x, gi, res_table.col_vals@, zk_i1 as int), res_table.selector == gi.support_sel, res_table.num_vars == x.num_vars, v_grow(a, *zk_tr), zk_tr.id_counter == a.id_counter + 80 + 16 * gsums(ag, zk_i1 as int), !zk_tr.transcript.is_empty,
//@@ start 1
        let ghost c1 = *zk_tr; let ghost i1 = zk_i1 as int; let ghost t1 = res_table.col_vals@; let ghost st1 = st; proof { let ins = ag[i1]; assert(ins.0 < x.col_vals@.len()); assert(hc(a, x.col_vals@[ins.0 as int], who)); assert(bagc(c1, pre, who)); assert(bagc(c1, grp, who)); gsums_le(ag, i1);
            let fs = sq1(pre); let gs = sq1(grp); let mf = sq1(x.col_vals@[ins.0 as int]); let mg = sq1(ins.2); assert(fs[0] == pre && gs[0] == grp && mf[0] == x.col_vals@[ins.0 as int] && mg[0] == ins.2);
            assert(ins.1 is Sum && !balanced(c1, fs, gs) ==> gb_bad1(a, x, gi, *range_bag, t1, st1, i1)); }
//@@ end 1
        proof { let ins = ag[i1]; st = st.push(*zk_tr);
            assert(gb_vstep(c1, *zk_tr, x, pre, grp, gi.support_multiplicity, ins, res_table.col_vals@[i1 + 1]));
            assert forall|i: int| 0 <= i < i1 + 1 implies gb_vstep(#[trigger] st[i], st[i + 1], x, pre, grp, gi.support_multiplicity, ag[i], res_table.col_vals@[i + 1]) by { if i < i1 { assert(res_table.col_vals@[i + 1] == t1[i + 1]); assert(st[i] == st1[i] && st[i + 1] == st1[i + 1]); } }
            assert(res_table.col_vals@[0] == t1[0]); }
//@@ pretail
    proof { assert(gb_vmid(a, *zk_tr, x, gi, *range_bag, res_table, st)); }
//@end
