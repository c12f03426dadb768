"""Which Verus units decide each property, and what stays trusted."""
# pid -> (units, extra assumptions)
FIELD = "the scalar field and the curve groups are ghost-modelled: field elements obey the field axioms (prelude.inc), groups are discrete logs"
SEQ = "rayon's parallel iterators compute what the sequential iterators compute"
EXTR = "tools/zkextract: the mechanical rewriting of the listed functions (DESIGN.md section 3 lists every rule and what it drops)"
VERUS = "Verus 0.2026.09.13 and Z3 are sound; rustc compiles what Verus verified"
INTS = "allocation never fails"
OFF = "no sumcheck challenge equals one of the interpolation nodes 0..degree (probability (degree+1)/|F| each)"
RO = "merlin::Transcript is an append-only log and a challenge is a fixed function of the log; ark-serialize is total and deterministic on the values used"
UNITS = {
    "P01": ["u_scv"],
    "P02": ["u_interp"],
    "P03": ["u_scp"],
    "P04": ["u_zc"],
    "P05": ["u_mle"],
    "P06": ["u_eq"],
    "P07": ["u_vp"],
    "P08": ["u_bits"],
    "P09": ["u_pad"],
    "P10": ["u_pt", "u_pw"],
    "P11": ["u_vt", "u_vw"],
    "P12": ["u_ls", "u_pt", "u_vt"],
    "P13": ["u_vc", "u_pc", "u_cl"],
    "P14": ["u_kzg", "u_mle"],
    "P15": ["u_srs", "u_eq"],
    "P16": ["u_batchv", "u_batchp", "u_batchl", "u_kzg"],
    "P17": ["u_trans"],
    "P18": ["u_gp1", "u_gv1", "u_gp2", "u_gv2"],
    "P19": ["u_gp2", "u_gv2"],
    "P20": ["u_gp3", "u_gv3", "u_gp6", "u_gv6", "u_disj", "u_gp7", "u_gv7"],
    "P21": ["u_gp4", "u_gp5", "u_gv4", "u_gv5"],
    "P22": ["u_gp8", "u_gv8", "u_gp9", "u_gv9", "u_lmr"],
    "P23": ["u_gp11", "u_gv11", "u_gp12", "u_gv12", "u_fj", "u_gp13", "u_gv13", "u_mult"],
    "P24": ["u_gp10", "u_gv10", "u_gp14", "u_gv14"],
    "P25": ["u_mult", "u_gp3", "u_disj", "u_supp", "u_lmr", "u_lmrm", "u_fj"],
    "P26": ["u_scv", "u_vc"],
}
CHUNK = "rayon's fold/reduce splits the range into consecutive chunks, folds each from the identity and combines the results left to right (any chunking)"
EQNZ = "eq(point, r) is not zero at the zero check's challenges (probability at most n/|F|; the code divides by it)"
TID = "std HashMap with TrackerID keys behaves as a map (vstd HashMap model; derived Hash/Eq of TrackerID agree)"
PCSM = "PolynomialCommitmentScheme::commit is a function of the key and the table that fails exactly when the key is too small (opaque here; P14)"
CELL = "Rc<RefCell<..>> cells are erased: a double borrow (a panic) is not modelled, a map shared between a tracker and its closures is the tracker's own map; the crate's evaluation closures are the constructors of VFn, their bodies are extracted and proved equal to fval"
QKEY = "HashMap keyed by (handle, point) compares points by content"
PCSV = "PolynomialCommitmentScheme::batch_verify is a function of its arguments and the log that does not panic (opaque here; P16, P26)"
IMP = "contracts of imported units (marked so in functions_under_contract) are discharged by the checks of their own properties on the same tree"
BINV = "ark_ff::batch_inversion inverts every non-zero entry and leaves zeros alone (opaque here)"
VMAY = "verifier-side gadget contracts are partial: a compiled proof that lacks a commitment or claimed sum makes the accessor panic (bounded stand-in P26)"
FKEY = "std HashMap with field-element keys behaves as a map (vstd HashMap model; derived Hash/Eq of the field element agree)"
SRT = "std sort and sort_by permute a slice into the order their comparison defines, the order of field elements is that of the canonical integers, and iterating a HashSet yields its elements in some order"
BIG = "tables have fewer than 2^61 entries (2^62 on the prover side): larger ones cannot be held in memory"
GAD = [TID, RO, CELL, PCSM, QKEY, IMP, BINV, VMAY]
ENT = "HashMap::entry(k).or_insert(d) is lookup-or-insert (zk_entry_or)"
POW = "ark_ff::Field::pow on little-endian 64-bit limbs is repeated multiplication (opaque here)"
GRP = "elements of the pairing groups are their discrete logarithms: arkworks' group operations, MSM (the shorter list counts), fixed-base MSM, batch normalisation and multi-pairing compute these, and the groups have the prime order of the scalar field"
LNK = "std LinkedList is the sequence of its elements, usize::is_power_of_two and ark_std::log2 have their documented meaning; the random source returns some draws"
ASSUME = {"P16": [GRP, RO, LNK, IMP, "BTreeMap is an ordered map on key contents (inverting it lists the values in key order); ark_poly's += of a scaled table treats the zero constant as neutral; setups of fewer than 62 variables, fewer than 2^61 polynomials; == on vectors and slices compares contents; no sum check challenge is one of the points 0..2"], "P14": [GRP, "setups of fewer than 62 variables; that a setup has the stated shape is P15"], "P15": [GRP, LNK, "setups of fewer than 29 variables (gen_srs_for_testing counts table indices in an i32 and its total in a usize)", IMP], "P23": GAD + [FKEY, SRT, BIG, POW, ENT], "P24": GAD + [FKEY, POW, SRT, BIG], "P20": GAD + [FKEY, SRT, BIG], "P22": GAD + [FKEY, SRT, BIG], "P21": GAD + [FKEY], "P25": [FKEY, SRT, BIG, TID, RO, CELL, IMP], "P18": GAD, "P19": GAD, "P13": [TID, RO, CELL, QKEY, OFF, PCSV, IMP, "a vector of reference counted tables has fewer than 2^60 elements (no allocation exceeds isize::MAX bytes); committed tables have fewer than 62 variables; the prover's multi_open is an opaque call whose result honest_accepted assumes to verify; HashMap::iter_mut visits every entry once (rewritten to a loop over the entries, written back)"], "P12": [TID, PCSM, RO, CELL, QKEY, IMP, "a query answer the prover supplies for a committed table is that table's value (P16: the opening proof checks it)"], "P10": [TID, PCSM, RO, CELL, IMP], "P11": [TID, RO, CELL, QKEY, IMP], "P01": [OFF, RO], "P03": [RO, CHUNK], "P04": [OFF, RO, CHUNK, EQNZ], "P26": [OFF, RO, TID, CELL, QKEY, PCSV, IMP], "P17": [RO]}
LEVEL = {"P26": "exploration"}
TECH = {}
NOTE = {
    "P01": "Proved: IOPVerifierState::{verifier_init, verify_round_and_update_state, check_and_generate_subclaim} and SumCheck::{verify, extract_sum} against sc_accepts (round-length and round-sum conditions, challenge of round k drawn from the log holding messages 0..k), including Ok <=> accepts and the returned point and value. Bounded: replay of the same statement on the real code, with an independent interpolation.",
    "P02": "Proved: interpolate_uni_poly (all three numeric paths: u64, u128 and field factorials, every overflow excluded), barycentric_weights and extrapolate return the Lagrange value, and lagr_exact proves that this is the value of every polynomial with at most n coefficients through the values. Bounded: replay on the real code.",
    "P03": "Proved: prover_init, prove_round_and_update_state (any rayon chunking of the inner sum) and SumCheck::prove: every message holds the values at 0..d of the partial sum of the polynomial, the point is the transcript's challenges, the verifier's acceptance predicate holds for the hypercube sum, and the final expected value is the polynomial's value at the point (the partial sums are shown to be polynomials of degree at most d, so interpolation is exact). Bounded: replay on the real code against brute-force sums.",
    "P04": "Proved: ZeroCheck::prove and ZeroCheck::verify, with everything they call (build_f_hat, eq_eval, SumCheck::{prove, verify}, the transcript): verification is Ok exactly when the sum check of 0 with degree d+1 is consistent under the challenges drawn after r, and hands back the point, r and the value v with v*eq(point,r) = last message at the last challenge; the prover's messages are those of the eq-weighted sum over the cube, are accepted when the polynomial vanishes there, and zc_complete shows that v is then the polynomial's value at the point. Bounded: an independent recomputation of the challenge, the eq-multiplied polynomial and the acceptance condition on the real code.",
    "P05": "Proved: fix_one_variable_helper, fix_variables, fix_last_variables(_no_par), fix_last_variable_helper and every evaluate routine, for all sizes, against the recursive multilinear extension mlev. Bounded: replay on the real code.",
    "P06": "Proved: build_eq_x_r, build_eq_x_r_vec, build_eq_x_r_helper, eq_eval and the KZG copy (eq_extension's table) against eqw; error on unequal lengths. Bounded: agreement of all copies on the real code.",
    "P07": "Proved: new_from_mle, add_mle_list, mul_by_mle, add, build_f_hat, evaluate, print-free materialisation against vpm (the coefficient-weighted sum of products), with the structural invariant vp_wf and frame on error. Bounded: replay on the real code.",
    "P08": "Proved: bit_decompose, project, get_index, merge_polynomials, get_batched_nv, gen_eval_point against bit/p2 arithmetic and mlev. Bounded: replay on the real code.",
    "P09": "Proved: the padding of tables (front/back), of prover table polynomials and of the verifier's evaluation windows. Bounded: tracker-level agreement.",
    "P10": "Proved: ProverTracker::{new, gen_id, track_mat_poly, track_and_commit_mat_poly, track_virt_poly, add_polys, sub_polys, mul_polys, add_scalar, mul_scalar, increase_nv_front/back, get_poly_nv, evaluation_table, evaluations, evaluate, to_arithmatic_virtual_poly, get_and_append_challenge, append_serializable_element, add_sumcheck_claim, add_zerocheck_claim}: every handle denotes a weighted sum of products of tables, each operation makes one fresh handle with the requested meaning at every point and every hypercube index, and keeps every earlier handle's meaning, size, the log, the claims and the commitments (pt_new, pt_kept). Also the public handles of prover_wrapper.rs (u_pw: TrackedPoly arithmetic, Bag and Table, ProverTrackerRef), threading the tracker the Rc<RefCell> cell points at. Bounded: random operation programs over a ProverTracker replayed against a reference evaluator; every earlier handle re-evaluated after every operation.",
    "P11": "Proved: VerifierTracker::{new, gen_id, get_next_id, track_mat_comm, track_virtual_comm, set_compiled_proof, get_mat_comm, add_comms, sub_comms, mul_comms, add_scalar, mul_scalar, increase_nv_front/back, eval_virtual_comm, get_and_append_challenge, append_serializable_element, add_sumcheck_claim, add_zerocheck_claim, get_prover_comm, get_prover_claimed_sum, transfer_proof_poly_evals} and the bodies of all its evaluation closures: each operation makes one fresh handle whose value at every point, for every assignment of query answers, is that operation on the operands' values (and is defined exactly when theirs are), earlier handles keep their values, nothing else changes (vt_new, vt_kept). Also the public handles of verifier_wrapper.rs (u_vw: TrackedComm arithmetic, BagComm and TableComm, VerifierTrackerRef), threading the tracker the Rc<RefCell> cell points at. Bounded: random operation programs over a VerifierTracker replayed against a reference evaluator.",
    "P12": "Proved (lemmas over the contracts of P10 and P11, u_ls): the lockstep relation lk (same next handle, same transcript, same commitments, same claims in the same order, each about a handle on which both sides agree) holds for fresh trackers, and each operation of the prover followed by its counterpart of the verifier (add, sub, mul, add_scalar, mul_scalar, increase_nv_front/back, commit / take over the commitment, track an uncommitted table / a closure, challenge, append, sum claim, zero claim, evaluations) returns the same handle on both sides and keeps lk, so it holds after every program of operations; the verifier's derived commitment evaluates to the prover's polynomial of the same handle at every corner, and at every point unless a product was padded (the listed finding). Bounded: the same over every gadget, as whole protocols.",
    "P13": "Proved, verifier side (any compiled proof): VerifierTracker::{convert_zerocheck_claims_to_sumcheck_claim, verify_claims}, VerifierTrackerRef::{verify_claims, transfer_proof_poly_evals}: the new claim is the challenge-weighted sum of every zero claim times the equality polynomial at a point drawn afterwards; verify_claims never panics and is Ok exactly when the sum check of the challenge-weighted claimed sums is consistent (all sums absorbed before any challenge, every claim under its own), every listed commitment is tracked by the verifier, and the batch opening of the verifier's own commitments at the sum check point verifies. Proved, prover side: ProverTracker::{equalize_materialized_poly_nv, convert_zerocheck_claims_to_sumcheck_claim, compile_proof}, ProverTrackerRef::compile_proof: every recorded claim is folded under its own challenge after all sums are absorbed, the sum check runs on exactly that combination, every committed table is opened in handle order at the sum check point to its true value, and it fails only if the opening scheme does. Proved, both: honest_accepted, a proof compiled from true claims is accepted by every verifier in step with the prover, given that the opening scheme opens what it commits to. Not proved: that the final sum check value is the combination of the opened values (it is not, see the known finding) and the probabilistic rejection of false claims. Bounded: false claims, altered sums, altered opened values, altered openings and transcript-predicting forgeries are rejected.",
    "P14": "commit, open_internal, verify_internal and the trait's open/verify under contract in the exponent; completeness, exactness in the value, the stated equation and rejection of an altered element or commitment are lemmas over those contracts for every setup, size, point and proof (a changed element goes unnoticed exactly where a secret equals the coordinate). Harness repeats it on the real curve.",
    "P15": "gen_srs_for_testing, remove_dummy_variable, eq_extension, both trims and both extract functions under contract: the key of exactly the scalars drawn; trimming keeps the tail, which is the key of the last secrets. Harness recomputes the tables in the exponent on the real curve.",
    "P16": "Proved: batch_verify_internal and the trait's batch_verify accept exactly when at least two commitments come with as many points and values, the values and points are absorbed before the weights are drawn, the sum check accepts the weighted sum of the values, and the opening of the weighted commitment to the sum check's last value satisfies the pairing equation (b_accepts), for every size, proof and log; multi_open_internal and multi_open, for any list of at least two equal-size polynomials and points (shared or not: grouping by point is proved not to change any sum), run the sum check honestly on the weighted sum of the values the polynomials have and open the combined table at its point (opens); batch_complete: a batch for the true values is accepted; batch_bad_point, batch_bad_opening, batch_bad_commitment: an altered sum check point, opening element or commitment is rejected unless a challenge is unlucky. That a false value is rejected is the sum check's probability argument (b_sum is the sum the sum check is run on). Bounded: honest batches, altered components, and forgeries that predict challenges drawn too early.",
    "P17": "Proved: every IOPTranscript function against the log model: refused while empty, challenge = function of the whole ordered log, appended to the log, vector = one by one; log_inj: different sequences give different logs. Bounded: equal/different histories on real transcripts, including empty messages and label changes.",
    "P18": "Proved: BagMultitoolIOP::{prove_generate_subclaims, prove, verify_generate_subclaims, verify} and BagEqIOP::{prove, verify}: one challenge drawn before any inverse table is committed; per bag the prover commits the table of inverses of value minus challenge, claims the sum over the hypercube of inverse times multiplicity times selector (the rational sum) and the zero claim value*inverse - challenge*inverse - 1; the verifier registers the same two claims under the same handle numbers for the prover's commitment, and accepts exactly when the claimed sums, scaled by 2^(max - nv), balance. Not proved: that differing multisets have differing rational sums except with probability degree/|F| (mathematics, not code). Bounded: registered claims compared with the rational-sum identity on equal and unequal multisets.",
    "P19": "Proved: SelectorValidIOP, BagNoZerosIOP, BagSumIOP, BagEqIOP prove and verify: the zero claim of a selector vanishes exactly when the selector is 0/1 everywhere; the zero claim of the non-zero gadget vanishes (with the committed inverses) exactly when no selected value is zero; sum and equality are the multiset gadget with all multiplicities one over exactly the bags named. Bounded: both sides run on real data, with honest and wrong tables.",
    "P20": "Proved: BagInclusionIOP, BagSuppIOP and BagDisjointIOP (prove, prove_with_advice, verify, verify_with_advice) and their advice (inclusion: the table of multiplicities; disjointness: the increasing list of the values selected on either side, its selector and each value's two counts). Inclusion is the multiset gadget over exactly the two bags with the included bag's multiplicities one and the other's the advice; support is inclusion, no selected multiplicity zero and strict order; disjointness is strict order of the union, a zero claim on the product of the two counts, and inclusion of either side in the union; for honest advice that zero claim is satisfiable exactly when no selected value is shared (any bags). Both sides register the same claims under the same handle numbers; prove is prove_with_advice on the calculated advice; the verifier refuses only when declared sums do not balance. Not proved: that unequal rational sums differ at the challenge except with small probability. Bounded: all three on real data, right and wrong relations and advice.",
    "P21": "Proved: BagPrescPermIOP::{prove, verify} and BagStrictSortIOP::{prove, verify}: the shifted copy is committed and tied to the original by the permutation i -> i+1 mod 2^n (two batched tables, equal as multisets, both defined by zero claims), the difference table most*(next - value) + 1 - most is included in the range bag under the selector that drops the last row, and the same table under the bag's own selector goes to the non-zero gadget; both sides register the same claims under the same handle numbers, the prover's debug check of the difference table never fires, and the verifier refuses only when declared sums do not balance. Not proved: that differing multisets have differing rational sums except with small probability. Bounded: both sides on real data, sorted and unsorted.",
    "P22": "Proved: SetDisjointIOP, SetUnionIOP, SetDiffIOP and SetIntersectIOP (prove, verify) and set_lmr_split: disjointness commits the sum of both sets in order of value then selector (every value selected as often as in both together, unselected rows zero) and records the sum gadget and strict order; union commits the concatenation and records the sum gadget and the support gadget; difference records disjointness of left part and b, sum of left and middle part, inclusion of the middle part with the given multiplicities; intersection records both sums and disjointness of the rests. Both sides register the same claims under the same handle numbers; the verifier refuses only when declared sums do not balance. Lemmas: the honest sorted sum is strictly increasing exactly when no value occurs twice; for duplicate-free inputs the recorded relations between counts hold exactly for the difference, the intersection and the union. Not proved: that unequal rational sums differ at the challenge except with small probability. Bounded: all gadgets on real data, right and wrong results.",
    "P23": "Proved: JoinReductionIOP (prove, verify): both sides cut each bag by its selector into matched and unmatched rows, record the two selector gadgets, the disjointness of left and right rests, of left rest and left middle, of right rest and right middle, and the mutual inclusion of the two middles, under the same handles; the verifier refuses only with one of these. Lemmas: a 0/1 selector cuts every count in two; the recorded relations between counts hold exactly for the matched and unmatched parts. CrossProductIOP (prover_cross_product, front_alias_tracked_poly, back_alias_tracked_poly, verifier_cross_product): every row pair occurs once, active when both rows are; the same handles on both sides. FinalJoinOneToManyIOP (prove, prove_with_advice, verify, verify_with_advice) and its two calculators: the committed columns are the rows of the left table with the key of the right row, the rows are claimed to come from the left table and the keys to agree on active rows, under the same handles; the prover refuses exactly when an active right row has no partner, an active key occurs twice on the left, or a table does not fit the parameters. The contracts read the code with debug assertions on; the bounded run is made both with them on and off. Bounded: all three gadgets on real data with unequal sizes, right and wrong results.", "P24": "Proved: IndexTransformIOP (prove, verify), table_row_prover_agg, table_row_verifier_agg, the four samplers of row coefficients: one challenge, its powers 1, r, r^2, .. over the columns of the input table, both tables folded row by row with the same coefficients under their own selectors, the output's bag included in the input's; both sides register the same claims under the same handles and refuse only with the inclusion. Lemmas: equal rows fold to equal values; rows that differ in one column fold to different values unless r = 0. GroupByIOP (prove_with_advice, verify_with_advice): the groups are claimed to be the support of the grouping column with the given multiplicities, then instruction by instruction a count shows the multiplicities and a sum shows a column for which the grouping values weighted with the summed column and the groups weighted with that column are claimed equal as multisets, under the same handles on both sides; refused exactly (verifier: only) for more than one grouping column, a column that does not exist, or one of these gadgets. Averages, minima and maxima are todo!() in the code and outside the contract. Not proved: that different rows fold to different values except with small probability. Bounded: both gadgets on real data, right and wrong results.", "P25": "Proved: vec_multiplicity_count, mle_multiplicity_count, bag_multiplicity_count, calc_bag_inclusion_advice_from_mle and _from_bag, calc_join_reduction_lr_sel_advice, calc_bag_disjoint_advice, calc_bag_supp_advice, bag_lmr_split, set_lmr_split and bag_lmr_multiplicity_split against the counting function mcount (selected rows only, any order, any selector, no index out of bounds, the committed tables hold exactly these values and counts); calc_final_join_one_to_many_index_transform and calc_index_transformed_bag: every active row of the right table is matched with the last active row of the left table holding its key (an error exactly when there is none), and the gathered column holds that row's value. Bounded: every calculator against a reference on random multisets.",
    "P26": "Proved: SumCheck::verify never panics and never accepts a message list of the wrong shape (u_scv); VerifierTracker::verify_claims never panics whatever the compiled proof holds (u_vc; batch_verify opaque). Bounded: zerocheck, single and batch openings and compiled proofs, with every component truncated, extended, emptied or exchanged.",
}
CAUGHT = {}
NOT_APPLICABLE = {}
