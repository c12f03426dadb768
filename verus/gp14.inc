// ---- prover side of group_by ----
pub struct GroupByIOP { }
//@threaded GroupByIOP::prove_with_advice
//@struct src/zksql_poly_iop/group_by/group_by.rs::AggregationType | derive=Clone,Copy
//@struct src/zksql_poly_iop/group_by/group_by.rs::GroupByInstructionWithProvingAdvice
pub open spec fn sq1<T>(a: T) -> Seq<T> { seq![a] }
pub type PIns = (usize, AggregationType, TrackedPoly);
/// number of sums among the first n instructions
pub open spec fn gsums(s: Seq<PIns>, n: int) -> int decreases n { if n <= 0 { 0 } else { gsums(s, n - 1) + (if s[n - 1].1 is Sum { 1int } else { 0 }) } }
pub proof fn gsums_le(s: Seq<PIns>, n: int) ensures 0 <= gsums(s, n), n >= 0 ==> gsums(s, n) <= n decreases n { if n > 0 { gsums_le(s, n - 1); } }
/// a count shows the multiplicities; a sum shows the claimed column, and the grouping columns weighted with the summed and the claimed column are claimed equal as multisets
pub open spec fn gb_step(a: ProverTracker, b: ProverTracker, x: Table, pre: Bag, g: Bag, m: TrackedPoly, ins: PIns, col: TrackedPoly) -> bool {
    match ins.1 { AggregationType::Count => b == a && col == m, AggregationType::Sum => mt_p(a, b, sq1(pre), sq1(g), sq1(x.col_vals@[ins.0 as int]), sq1(ins.2)) && col == ins.2, _ => false }
}
pub open spec fn gb_pre(x: Table, k: int) -> Bag { Bag { poly: x.col_vals@[k], selector: x.selector } }
pub open spec fn gb_grp(gi: GroupByInstructionWithProvingAdvice) -> Bag { Bag { poly: gi.support_cols@[0], selector: gi.support_sel } }
pub open spec fn gb_run(st: Seq<ProverTracker>, x: Table, gi: GroupByInstructionWithProvingAdvice, cols: Seq<TrackedPoly>, n: int) -> bool {
    st.len() == n + 1 && cols.len() == n + 1 && cols[0] == gi.support_cols@[0] && forall|i: int| 0 <= i < n ==> gb_step(#[trigger] st[i], st[i + 1], x, gb_pre(x, gi.grouping_cols@[0] as int), gb_grp(gi), gi.support_multiplicity, gi.agg_instr@[i], cols[i + 1])
}
pub open spec fn gb_mid(a: ProverTracker, b: ProverTracker, x: Table, gi: GroupByInstructionWithProvingAdvice, r: Bag, res: Table, st: Seq<ProverTracker>) -> bool {
    let n = gi.agg_instr@.len() as int; supp_p(a, st[0], gb_pre(x, gi.grouping_cols@[0] as int), gb_grp(gi), gi.support_multiplicity, r) && gb_run(st, x, gi, res.col_vals@, n) && st[n] == b && res.selector == gi.support_sel
}
/// the groups are claimed to be the support of the grouping column, then every instruction in order
pub open spec fn gb_p(a: ProverTracker, b: ProverTracker, x: Table, gi: GroupByInstructionWithProvingAdvice, r: Bag, res: Table) -> bool { exists|st: Seq<ProverTracker>| #[trigger] gb_mid(a, b, x, gi, r, res, st) }
/// one grouping column, every named column exists
pub open spec fn gb_shape(x: Table, gi: GroupByInstructionWithProvingAdvice) -> bool { gi.grouping_cols@.len() == 1 && gi.grouping_cols@[0] < x.col_vals@.len() && forall|i: int| 0 <= i < gi.agg_instr@.len() ==> (#[trigger] gi.agg_instr@[i]).0 < x.col_vals@.len() }
pub open spec fn gb_sizes(gi: GroupByInstructionWithProvingAdvice, n: int) -> bool { forall|i: int| 0 <= i < n && (#[trigger] gi.agg_instr@[i]).1 is Sum ==> gi.agg_instr@[i].2.num_vars == gi.support_sel.num_vars }
pub open spec fn gb_cost(gi: GroupByInstructionWithProvingAdvice) -> int { 80 + 16 * gsums(gi.agg_instr@, gi.agg_instr@.len() as int) }
pub open spec fn gb_ok(a: ProverTracker, x: Table, gi: GroupByInstructionWithProvingAdvice, who: u64) -> bool {
    // averages, minima and maxima are todo!() in the code; no grouping column at all indexes out of bounds
    &&& tablep(a, x, who) && gi.grouping_cols@.len() > 0 && gi.support_cols@.len() > 0 && bagp(a, gb_grp(gi), who) && hp(a, gi.support_multiplicity) && gi.support_multiplicity.tracker.who == who && gi.agg_instr@.len() < 0x7fff_ffff
    &&& forall|i: int| 0 <= i < gi.agg_instr@.len() ==> ((#[trigger] gi.agg_instr@[i]).1 is Count || gi.agg_instr@[i].1 is Sum) && hp(a, gi.agg_instr@[i].2) && gi.agg_instr@[i].2.tracker.who == who
}
//@fn src/zksql_poly_iop/group_by/group_by.rs::GroupByIOP::prove_with_advice | thread=ProverTracker
//@@ requires
        p_room(*old(zk_tr), (80 + 16 * group_by_instructions.agg_instr@.len()) as int), gb_ok(*old(zk_tr), *input_table, *group_by_instructions, old(prover_tracker).tracker_rc.who), hp(*old(zk_tr), range_bag.poly), range_bag.poly.tracker.who == old(prover_tracker).tracker_rc.who,
//@@ ensures
        *final(prover_tracker) == *old(prover_tracker),
        ret.is_ok() <==> gb_shape(*input_table, *group_by_instructions) && group_by_instructions.support_sel.num_vars == group_by_instructions.support_multiplicity.num_vars && !old(zk_tr).transcript.is_empty && supp_fits(*old(zk_tr), gb_pre(*input_table, group_by_instructions.grouping_cols@[0] as int), gb_grp(*group_by_instructions), *range_bag) && gb_sizes(*group_by_instructions, group_by_instructions.agg_instr@.len() as int),
        ret.is_ok() ==> gb_p(*old(zk_tr), *final(zk_tr), *input_table, *group_by_instructions, *range_bag, ret.unwrap()) && p_grow(*old(zk_tr), *final(zk_tr), gb_cost(*group_by_instructions)),
//@@ entry
    broadcast use ipow_p2, mt_p_short;
    let ghost a = *zk_tr; let ghost who = prover_tracker.tracker_rc.who; let ghost x = *input_table; let ghost gi = *group_by_instructions; let ghost ag = gi.agg_instr@; let ghost n = ag.len() as int;
//@@ inv 0
            zk_n0 == n, forall|i: int| 0 <= i < zk_i0 ==> (#[trigger] ag[i]).0 < x.col_vals@.len(),
//@@ after-let pre_grouping_col_bag
    proof { assert(hp(a, x.col_vals@[grouping_col_idx as int])); assert(gb_shape(x, gi)); }
    let ghost pre = pre_grouping_col_bag; proof { assert(pre == gb_pre(x, gi.grouping_cols@[0] as int)); assert(bagp(a, pre, who)); }
//@@ after-let grouped_col_bag
    let ghost grp = grouped_col_bag; proof { assert(grp == gb_grp(gi)); }
//@@ after-call prove_with_advice
    let ghost mut st = Seq::<ProverTracker>::empty().push(*zk_tr); let ghost b0 = *zk_tr;
//@@ inv 1
            zk_n1 == n, *prover_tracker == *old(prover_tracker), st[zk_i1 as int] == *zk_tr, st[0] == b0, gb_run(st, x, gi, res_table.col_vals@, zk_i1 as int), res_table.selector == gi.support_sel, gb_sizes(gi, zk_i1 as int), p_grow(a, *zk_tr, 80 + 16 * gsums(ag, zk_i1 as int)),
//@@ start 1
        let ghost c1 = *zk_tr; let ghost i1 = zk_i1 as int; let ghost t1 = res_table.col_vals@; let ghost st1 = st; proof { let ins = ag[i1]; assert(ins.0 < x.col_vals@.len()); assert(hp(a, x.col_vals@[ins.0 as int])); assert(bagp(c1, pre, who)); assert(bagp(c1, grp, who)); gsums_le(ag, i1);
            let fs = sq1(pre); let gs = sq1(grp); let mf = sq1(x.col_vals@[ins.0 as int]); let mg = sq1(ins.2); assert(fs[0] == pre && gs[0] == grp && mf[0] == x.col_vals@[ins.0 as int] && mg[0] == ins.2); }
//@@ end 1
        proof { let ins = ag[i1]; st = st.push(*zk_tr);
            assert(gb_step(c1, *zk_tr, x, pre, grp, gi.support_multiplicity, ins, res_table.col_vals@[i1 + 1]));
            assert forall|i: int| 0 <= i < i1 + 1 implies gb_step(#[trigger] st[i], st[i + 1], x, pre, grp, gi.support_multiplicity, ag[i], res_table.col_vals@[i + 1]) by { if i < i1 { assert(res_table.col_vals@[i + 1] == t1[i + 1]); assert(st[i] == st1[i] && st[i + 1] == st1[i + 1]); } }
            assert(res_table.col_vals@[0] == t1[0]); }
//@@ pretail
    proof { assert(gb_mid(a, *zk_tr, x, gi, *range_bag, res_table, st)); }
//@end
