#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well-formed)."""
import json, os
A='src/arithmetic/'; S='src/subroutines/'; SC=S+'poly_iop/sum_check/'; ZC=S+'poly_iop/zero_check/'
K=S+'pcs/multilinear_kzg/'; T='src/tracker/'; Z='src/zksql_poly_iop/'
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a))
IN=["inputs"]
p("P01","Sumcheck verification accepts exactly the consistent transcripts",
  "Sumcheck verification succeeds exactly when every round message has one evaluation more than the declared degree and its values at 0 and 1 add up to the previous round's message evaluated at that round's challenge (the claimed sum for the first round). On success the returned point is the list of round challenges and the returned value is the last message evaluated at the last challenge; each challenge is drawn after its own round's message is absorbed.",
  IN,"every claimed sum, every proof of any number of rounds, every declared degree >= 1 and number of variables, every transcript",
  "The tests only run honest proofs of a few random polynomials and one wrong sum; almost every dishonest transcript is unexplored and acceptance of a single one breaks soundness.",
  [SC+'verifier.rs',SC+'mod.rs'],[("round consistency chain and subclaim",SC+'verifier.rs:check_and_generate_subclaim'),("per-round absorb/challenge",SC+'verifier.rs:verify_round_and_update_state'),("driver",SC+'mod.rs:verify')],
  ["result of sumcheck verification"],"access to the verifier state functions is public already")
p("P02","Round-message interpolation equals the unique interpolating polynomial",
  "Given the values of a polynomial at 0, 1, ..., n-1, evaluating the interpolant at any field point outside those nodes gives the value of the unique polynomial of degree below n through those values, for every n and whichever numeric fast path the length selects, without overflow. The prover-side extrapolation of a low-degree factor to a further point with its precomputed weights gives the same value.",
  IN,"every number n >= 1 of nodes that fits the field, every list of values, every evaluation point outside the nodes",
  "A test uses one random polynomial at three lengths (one per fast path); interpolation is wrong if any length near a fast-path boundary overflows or takes the wrong sign.",
  [SC+'verifier.rs',SC+'prover.rs'],[("three-branch interpolation",SC+'verifier.rs:interpolate_uni_poly'),("factorials",SC+'verifier.rs:u64_factorial/u128_factorial/field_factorial'),("barycentric weights and extrapolation",SC+'prover.rs:barycentric_weights/extrapolate')],
  None,"interpolation and extrapolation are private: guarded re-export")
p("P03","Sumcheck prover messages are the true partial sums",
  "In every round the prover's message is the list of sums, over all assignments of the remaining variables, of the polynomial with the earlier variables fixed to the challenges received and the current one set to 0, 1, ..., degree; hence proving then verifying with the true sum always succeeds and yields the polynomial's value at the challenge point. Proving a sum returns exactly the sum over the hypercube.",
  IN,"every sum of at least one coefficient-weighted product of multilinear tables, with any number of variables >= 1, products, factors, degree, repeated factors, and every challenge sequence",
  "Tests use a few random shapes; the message correctness per round for every shape and challenge is an unbounded claim.",
  [SC+'prover.rs',SC+'mod.rs'],[("round message and state update",SC+'prover.rs:prove_round_and_update_state'),("driver",SC+'mod.rs:prove'),("sum extraction",SC+'mod.rs:extract_sum')])
p("P04","Zero check accepts exactly when its randomised sum check does",
  "The prover proves that the polynomial times the equality polynomial at a transcript-drawn random point sums to zero; the verifier draws the same point, rejects a first message not summing to zero, requires degree one higher, and returns the sumcheck point with the sumcheck value divided by the equality polynomial at that point. A polynomial zero on the whole hypercube is always accepted with a value equal to its true evaluation, and a nonzero one is rejected or yields a value different from its true evaluation unless the draw is a root.",
  IN,"every polynomial given as sums of products of tables, every proof, every transcript",
  "Tests run one zero and one nonzero family; they cannot settle acceptance for every proof.",
  [ZC+'mod.rs',A+'virtual_polynomial.rs'],[("prove",ZC+'mod.rs:prove'),("verify",ZC+'mod.rs:verify'),("times eq",A+'virtual_polynomial.rs:build_f_hat')])
p("P05","Evaluating and partially evaluating a table agree with its multilinear extension",
  "Evaluating a table of 2^n values at a point gives the value of the unique multilinear polynomial with those values on the hypercube (variable 0 = lowest index bit), by every evaluation routine offered. Fixing the first k, or the last k, variables yields the table of the restricted polynomial on the remaining variables, in the parallel and sequential variants alike.",
  IN,"every table size 2^n, every k <= n, every point",
  "There are no direct unit tests of partial evaluation against the definition; indirect tests only cover random tables of one or two sizes.",
  [A+'multilinear_polynomial.rs',T+'prover_tracker.rs'],[("fix first variables",A+'multilinear_polynomial.rs:fix_variables/fix_one_variable_helper'),("fix last variables",A+'multilinear_polynomial.rs:fix_last_variables/fix_last_variable_helper'),("evaluate",A+'multilinear_polynomial.rs:evaluate_opt/evaluate_no_par')],
  None,"single-variable helpers are private")
p("P06","Equality polynomials are exact",
  "The table built for a point r holds at index b the product over i of (r_i if bit i of b is set, else 1 - r_i), for every nonempty r, and the succinct evaluation of eq(x,y) equals the product over i of (x_i*y_i + (1-x_i)*(1-y_i)) and fails when lengths differ; every copy of these routines in the code base agrees. In particular the table's multilinear extension at any point equals the succinct evaluation.",
  IN,"every vector length >= 1, every field values",
  "One test compares against a slow builder for one random length-4 vector.",
  [A+'virtual_polynomial.rs',T+'dmle_utils.rs',K+'util.rs',K+'srs.rs'],[("eq table",A+'virtual_polynomial.rs:build_eq_x_r(_vec,_helper), '+T+'dmle_utils.rs:build_eq_x_r'),("eq evaluation",A+'virtual_polynomial.rs:eq_eval, '+T+'dmle_utils.rs:eq_eval, '+K+'util.rs:eq_eval'),("eq extension",K+'util.rs:eq_extension')])
p("P07","Virtual polynomial operations match polynomial algebra",
  "A virtual polynomial denotes the coefficient-weighted sum of products of its tables: adding a product, multiplying by a table and scalar, adding two polynomials, multiplying by the equality polynomial, evaluating and materialising all agree pointwise with that meaning for every point, sharing or not of tables. The declared degree always bounds the longest product, product indices always refer to stored tables, and an operation refused for a size mismatch leaves the meaning of the polynomial unchanged.",
  ["inputs","histories"],"every sequence of operations on tables of matching or mismatching sizes, every point",
  "Tests check one addition and one multiplication on random shapes at one random point.",
  [A+'virtual_polynomial.rs'],[("construction and algebra",A+'virtual_polynomial.rs:add_mle_list/mul_by_mle/Add::add/new_from_mle'),("evaluation",A+'virtual_polynomial.rs:evaluate/materialize/build_f_hat')],
  None,None,[("aux_info/products/flattened tables/pointer table","sum of products representation",A+'virtual_polynomial.rs:VirtualPolynomial')])
p("P08","Bit decomposition, indexing and table merging preserve positions",
  "Decomposing an integer into n bits and projecting the bits back is the identity below 2^n (low bit first); the round-index helper returns the two child indices and parity that the bit layout implies. Merging k equal-size tables lays them out consecutively and zero-pads to the smallest power of two, and a point for table i is the point followed by the bits of i, so evaluating the merged table there gives table i's value.",
  IN,"every integer, width, list of equal-size tables and point",
  "Tests cover one random decomposition and a few index values.",
  [A+'util.rs',A+'multilinear_polynomial.rs',T+'dmle_utils.rs'],[("bit_decompose/project/get_index/gen_eval_point/get_batched_nv",A+'util.rs'),("merge",A+'multilinear_polynomial.rs:merge_polynomials')])
p("P09","Padding with unused variables preserves values",
  "Padding a polynomial with extra leading (or trailing) variables gives one whose value at any point is the original's value at that point with the extra leading (respectively trailing) coordinates dropped, for tables, for table polynomials held by the prover and for commitments held by the verifier. Prover and verifier agree on which coordinates are dropped for every original and added size.",
  IN,"every table, original size, added size and point, including unequal original and added sizes",
  "Tests use equal original and added sizes only, where dropping by the wrong count is invisible.",
  [T+'dmle_utils.rs',T+'prover_tracker.rs',T+'verifier_tracker.rs'],[("table padding",T+'dmle_utils.rs:dmle_increase_nv_front/back'),("prover padding",T+'prover_tracker.rs:increase_nv_front/back'),("verifier padding",T+'verifier_tracker.rs:increase_nv_front/back')])
p("P10","Prover-side derived polynomials denote exactly what was requested",
  "On the prover side, the handle returned by adding, subtracting, multiplying, adding a constant, scaling or padding evaluates, at every point and over the whole hypercube, to that operation on the operands' values, whatever mix of base and derived operands is used (padding a handle whose value is a product of several tables is claimed over the hypercube only). Every handle is fresh, and no operation, including computing and caching evaluations, changes the value of any previously issued handle, its export for the sumcheck, or the claims recorded.",
  ["inputs","histories"],"every sequence of tracker operations on polynomials of matching size, every evaluation point",
  "Tests exercise a handful of fixed expressions; the frame condition over arbitrary histories (shared caching, representation switches) cannot be sampled away.",
  [T+'prover_tracker.rs',T+'prover_wrapper.rs'],[("operations",T+'prover_tracker.rs:add_sub_polys/mul_polys/add_scalar/mul_scalar'),("caching",T+'prover_tracker.rs:evaluations/evaluation_table'),("evaluation/export",T+'prover_tracker.rs:evaluate/to_arithmatic_virtual_poly')],
  None,None,[("materialised and virtual maps","a virtual entry refers only to materialised ids",T+'prover_tracker.rs:ProverTracker')])
p("P11","Verifier-side derived commitments evaluate exactly as requested",
  "On the verifier side, the handle returned by adding, subtracting, multiplying, adding a constant or scaling evaluates at every point to that operation on the operands' evaluations, and a received commitment evaluates to the queried value supplied for that handle and point. Every handle is fresh and no operation changes the evaluation of a previously issued handle.",
  ["inputs","histories"],"every sequence of verifier operations, every table of supplied evaluations, every point",
  "One test evaluates one expression at one point.",
  [T+'verifier_tracker.rs',T+'verifier_wrapper.rs'],[("closures per operation",T+'verifier_tracker.rs:add_comms/sub_comms/mul_comms/add_scalar/mul_scalar'),("query lookup",T+'verifier_tracker.rs:track_mat_comm/eval_virtual_comm')])
p("P12","Prover and verifier bookkeeping advance in lockstep",
  "For every operation and every protocol, running the prover side and then the verifier side on corresponding inputs allocates the same handles in the same order, absorbs the same commitments and draws the same challenges, and records claims about corresponding handles in the same order. Each verifier-side derived commitment evaluates to the prover's polynomial of the same handle at every point.",
  ["inputs","histories","programs"],"every sequence of tracker operations and every gadget on valid inputs",
  "A test compares ids only where a gadget happens to look a commitment up, in one configuration per gadget, and nothing compares derived handles' values.",
  [T+'prover_tracker.rs',T+'verifier_tracker.rs',Z],[("id allocation",T+'prover_tracker.rs:gen_id, '+T+'verifier_tracker.rs:gen_id'),("burned id for constants",T+'verifier_tracker.rs:add_scalar'),("commitment transfer",T+'verifier_wrapper.rs:transfer_prover_comm')])
p("P13","A compiled proof is accepted only if every recorded claim is backed",
  "Compiling a proof from recorded claims and verifying it succeeds for honest claims, with every recorded zero and sum claim folded in under its own transcript challenge. Verification rejects when a recorded claim is false, when the final sumcheck value differs from the claimed combination of the opened values, when an opened value differs from the committed polynomial's value, or when the opening proof does not check.",
  ["inputs","histories"],"every set of recorded claims over committed polynomials and every proof object",
  "Tests only compile honest proofs and one or two wrong witnesses that already fail in the prover.",
  [T+'prover_tracker.rs',T+'verifier_tracker.rs',T+'tracker_structs.rs'],[("compile",T+'prover_tracker.rs:compile_proof'),("verify",T+'verifier_tracker.rs:verify_claims'),("zero claims folding",T+'verifier_tracker.rs:convert_zerocheck_claims_to_sumcheck_claim')])
p("P14","Commitment openings verify exactly for the true value",
  "Committing to a table, opening it at any point and verifying with the returned value always succeeds, the returned value is the polynomial's value at the point, and any other value is rejected for that proof. The verifier's equation accepts exactly when commitment minus value equals the combination of the proof elements with the setup's secrets minus the point's coordinates, also for polynomials with fewer variables than the setup supports.",
  IN,"every setup size, polynomial with at most that many variables, point, claimed value and proof",
  "Tests cover two sizes with honest proofs and one shifted value.",
  [K+'mod.rs'],[("commit",K+'mod.rs:commit'),("open",K+'mod.rs:open_internal'),("verify",K+'mod.rs:verify_internal')])
p("P15","Setup keys hold the equality-basis powers and trimming keeps the right tail",
  "The generated setup's level-i table is, for every index, the generator scaled by the equality polynomial of the last n-i secrets at that index, and the masks are the second generator scaled by each secret in order. Trimming to fewer variables keeps exactly the tables, and the masks, for that many variables, so commitments and openings under trimmed keys agree with the full setup; asking for more variables than the setup has is refused.",
  IN,"every setup size and trimmed size",
  "A test only checks that setup generation succeeds.",
  [K+'srs.rs'],[("generation",K+'srs.rs:gen_srs_for_testing'),("trim",K+'srs.rs:trim/extract_prover_param/extract_verifier_param')])
p("P16","Batched openings are sound and complete",
  "A batch opening of two or more polynomials of equal size at one point each, produced for the true values, is always accepted; the verifier recomputes the combination weights from the transcript, the claimed values and the commitments, and rejects if any claimed value, point, round message or opening is altered, or any commitment fixed before the call, even by a forger who can predict the challenges drawn before those are absorbed.",
  IN,"every list of at least two polynomials of equal size, points (shared or not), values and every alteration of the proof",
  "One test runs the honest path and one wrong evaluation.",
  [K+'batching.rs'],[("prove",K+'batching.rs:multi_open_internal'),("verify",K+'batching.rs:batch_verify_internal')])
p("P17","Challenges are bound to everything absorbed before them",
  "A challenge is refused until something has been absorbed, and every challenge is a deterministic function of the ordered labels and messages absorbed so far, including earlier challenges; two transcripts fed the same sequence agree and a transcript fed a different sequence of messages, labels or earlier challenges disagrees. Requesting a vector of challenges equals requesting them one by one.",
  ["inputs","histories"],"every sequence of absorb and challenge calls",
  "There are no transcript tests.",
  ['src/transcript/mod.rs'],[("absorb",'src/transcript/mod.rs:append_message/append_field_element/append_serializable_element'),("challenge",'src/transcript/mod.rs:get_and_append_challenge(_vectors)')])
p("P18","The multiset identity gadgets register exactly the rational-sum identity",
  "The multiset-equality argument commits, for each input, to the inverses of (challenge - value), registers that those are inverses everywhere, registers the sum of inverse times multiplicity times selector with the sum declared by the prover, and accepts only if both sides' declared sums agree after scaling for unequal sizes. Hence two selected multisets with multiplicities are accepted when equal and never when different (unless the challenge is unlucky), for any number of bags per side.",
  IN,"every list of bags on each side with arbitrary values, selectors, multiplicities and sizes",
  "Tests use one or two permutations of one size; unequal sizes, zero selectors, field-sized multiplicities are sampled once.",
  [Z+'bag_multitool/bag_multitool.rs',Z+'bag_eq/bag_eq.rs',Z+'bag_presc_perm/bag_presc_perm.rs'],[("multitool",Z+'bag_multitool/bag_multitool.rs'),("equality",Z+'bag_eq/bag_eq.rs'),("prescribed permutation",Z+'bag_presc_perm/bag_presc_perm.rs')],None,"gadget modules are private: guarded re-export")
p("P19","Sum, selector and non-zero gadgets register exactly their relation",
  "The bag-sum gadget accepts its third bag exactly when that bag's selected multiset is the multiset sum of the two input bags' selected multisets (unless the challenge is unlucky); the selector gadget is satisfied exactly by selectors that are 0 or 1 everywhere; the non-zero gadget is satisfied exactly when no selected value is zero, and its inverse advice never panics on a zero value that is not selected.",
  IN,"every bag, selector and claimed multiset sum",
  "Tests use one table of one size and one negative case each.",
  [Z+'bag_multitool/bag_sum.rs' if False else Z+'bag_sum/bag_sum.rs',Z+'selector_valid/selector_valid.rs',Z+'bag_no_zeros/mod.rs'],[("sum",Z+'bag_sum/bag_sum.rs'),("selector",Z+'selector_valid/selector_valid.rs'),("no zeros",Z+'bag_no_zeros/mod.rs')],None,"gadget modules are private: guarded re-export")
p("P20","Inclusion, support and disjointness gadgets decide their relation",
  "Inclusion is accepted exactly when every selected value of the included bag occurs among the selected values of the other, support exactly when the second bag lists each selected value of the first exactly once, and disjointness exactly when no value is selected in both; the variants without advice and those with correct advice agree. A wrong relation or wrong advice always leaves some registered claim false or is refused.",
  IN,"every pair of bags, sizes, selectors, multiplicities and advice",
  "Each test has one positive and a few negative instances at one size.",
  [Z+'bag_inclusion/bag_inclusion.rs',Z+'bag_supp/bag_supp.rs',Z+'bag_disjoint/bag_disjoint.rs',Z+'set_disjoint/set_disjoint.rs'],[("inclusion",Z+'bag_inclusion/'),("support",Z+'bag_supp/'),("disjointness",Z+'bag_disjoint/, '+Z+'set_disjoint/')],None,"gadget modules are private: guarded re-export")
p("P21","Strict-order gadget accepts exactly strictly increasing selected sequences",
  "The strict-sort gadget accepts a bag exactly when its selected values, read in index order as small integers, are strictly increasing, with the shifted copy tied to the original by the prescribed one-step permutation. Any equal or decreasing adjacent pair among the selected values leaves some registered claim false or is refused.",
  IN,"every bag whose values lie in the supported range and every selector of the supported shape",
  "The test has one sorted and few unsorted instances at one size.",
  [Z+'bag_sort/bag_sort.rs',Z+'bag_presc_perm/bag_presc_perm.rs'],[("sort",Z+'bag_sort/bag_sort.rs')],None,"gadget modules are private: guarded re-export")
p("P22","Set operation gadgets decide union, difference and intersection",
  "For sets without duplicates, the union, difference and intersection gadgets accept exactly when the claimed result set equals the mathematical union, difference or intersection of the selected values of the inputs. A result with a missing, extra or duplicated element always leaves some registered claim false or is refused.",
  IN,"every pair of duplicate-free input sets and every claimed result",
  "One positive and a few negative instances per gadget at one size.",
  [Z+'set_union/set_union.rs',Z+'set_diff/set_diff.rs',Z+'set_intersect/set_intersect.rs',Z+'set_disjoint/set_disjoint.rs'],[("union",Z+'set_union/'),("difference",Z+'set_diff/'),("intersection",Z+'set_intersect/')],None,"gadget modules are private: guarded re-export")
p("P23","Join gadgets decide the join relation",
  "Join reduction accepts exactly when each side splits into a part matched in the other and the unmatched rest with the shared middle equal in support; the cross product pairs every left row with every right row, in both directions of padding and for unequal sizes; and the one-to-many join accepts exactly the rows pairing each right row with the left row of equal key.",
  IN,"every pair of tables with selectors and the sizes supported",
  "Tests use equal-size tables of one size; unequal sizes never occur.",
  [Z+'join_reduction/join_reduction.rs',Z+'cross_product/cross_product.rs',Z+'cross_product/utils.rs',Z+'final_join_one_to_many/final_join_one_to_many.rs',Z+'final_join_one_to_many/utils.rs'],[("reduction",Z+'join_reduction/'),("cross product",Z+'cross_product/'),("one-to-many",Z+'final_join_one_to_many/')],None,"gadget modules are private: guarded re-export")
p("P24","Row aggregation, index transform and group-by bind whole rows",
  "The aggregate of a table's columns under transcript-drawn coefficients is their linear combination, computed identically by prover and verifier, so that a table is accepted as an index transform of another only if every selected row of the one occurs as a whole row of the other. Group-by accepts a result exactly when its groups are the distinct key rows and each aggregate is the count or sum over the group.",
  IN,"every table with any number of columns and every claimed transform or grouping",
  "Tests permute rows consistently or change single values; tables whose columns are permuted independently, or rows with equal products or equal sums, are never tried.",
  [Z+'index_transform/utils.rs',Z+'index_transform/index_transform.rs',Z+'group_by/group_by.rs'],[("row aggregation",Z+'index_transform/utils.rs:table_row_prover_agg/table_row_verifier_agg'),("transform",Z+'index_transform/index_transform.rs'),("group by",Z+'group_by/group_by.rs')],None,"gadget modules are private: guarded re-export")
p("P25","Advice calculators compute the multisets they are named for",
  "Counting multiplicities, splitting two bags into left-only, common and right-only parts (as sets or with multiplicities), and the inclusion, support, disjointness and join advice compute exactly the mathematically defined values over the selected elements, for every order of the input and every selector, with unselected rows ignored. They never index out of bounds on any input of matching sizes.",
  IN,"every pair of tables and selectors, in any order, with any repetition",
  "Tests use one small already-sorted example per calculator; unsorted input, duplicates across unselected rows and unequal sizes are not covered, and the claim is over all inputs.",
  [Z+'util/intermed_bag_calc.rs',Z+'util/multiplicity_count.rs',Z+'bag_inclusion/utils.rs',Z+'bag_supp/utils.rs',Z+'bag_disjoint/utils.rs',Z+'join_reduction/utils.rs'],[("splits",Z+'util/intermed_bag_calc.rs'),("counts",Z+'util/multiplicity_count.rs'),("gadget advice",Z+'*/utils.rs')],None,"private modules: guarded re-export")
p("P26","Malformed proofs are rejected, never crash the verifier",
  "Sumcheck, zero-check, opening and batch-opening verification return an error or a negative answer, and never panic, for every proof object of the wrong shape: too few rounds, empty or wrong-length round messages, missing or surplus opening elements, values, points or commitments. Verifying a compiled proof likewise reports an error for missing rounds, openings or untracked commitments.",
  IN,"every structurally arbitrary proof object checked against the number of variables and the degree the verifier declares",
  "No test feeds a malformed proof.",
  [SC+'mod.rs',SC+'verifier.rs',ZC+'mod.rs',K+'mod.rs',K+'batching.rs',T+'verifier_tracker.rs'],[("round driver",SC+'mod.rs:verify'),("subclaim length checks",SC+'verifier.rs:check_and_generate_subclaim'),("zero check",ZC+'mod.rs:verify'),("opening",K+'mod.rs:verify_internal'),("batch",K+'batching.rs:batch_verify_internal'),("compiled proof",T+'verifier_tracker.rs:verify_claims')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sch)
except ImportError: pass
for x in P:
    assert len(x['title'])<=80,x['title']
print(len(P),'properties')
