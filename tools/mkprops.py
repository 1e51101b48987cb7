#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["dsrg_generator/" + f if not f.startswith(("/", "Space")) else f.lstrip("/") for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

add("C01", "Operator products expand into the complete generalized Wick series",
    "Contracting any list of normal-ordered second-quantized operators (disconnected contractions included) yields every non-vanishing contraction allowed by the generalized Wick theorem exactly once, with the right fermionic sign, density tensors and remaining normal-ordered operator, and nothing else. "
    "The requested limits are honoured exactly: only cumulants up to the requested level and only results whose number of open indices lies in the requested window. "
    "With and without expansion of hole densities (eta = delta - gamma) the results describe the same operator.",
    ["inputs"], "all lists of one or more operators over general, hole, particle, core, active and virtual labels, any index numbers, any rank (including unequal numbers of creators and annihilators and diagonal labels), all cumulant limits, open-index windows and the hole-expansion option",
    "The tests compare counts or a few hand-picked terms for about ten operator lists; signs and completeness over label spaces, ranks, limits and hole expansion are not reached.",
    ["sqop_contraction.py"],
    [("elementary pairwise and cumulant contractions", "sqop_contraction.compute_elementary_contractions_*"),
     ("backtracking over compatible elementary contractions", "sqop_contraction.composite_contractions_backtrack"),
     ("sign from the operator-order permutation, hole expansion", "sqop_contraction.process_composite_contractions / expand_hole_densities")],
    ["return values of compute_operator_contractions(for_commutator=False)"])

add("C02", "Commutator-mode contractions are exactly the connected ones",
    "In commutator mode, contracting a list of normal-ordered operators yields exactly those contractions of the full Wick series in which all operators are linked together and at least one pairwise contraction is present, each exactly once and with the right sign, densities and remaining operator. "
    "The limits on cumulant level and on the number of open indices, and hole-density expansion, act exactly as in the full series.",
    ["inputs"], "all lists of two or more operators over all label spaces and ranks, all cumulant limits and open-index windows, both settings of hole expansion",
    "The tests pin total counts for four lists (one of which pins a known shortfall) and a handful of two-operator results.",
    ["sqop_contraction.py"],
    [("category backtracking over macro operators", "sqop_contraction.contracted_operator_backtrack_macro"),
     ("selection of compatible contractions per category", "sqop_contraction.ElementaryContractionCategorized"),
     ("sign and open operators", "sqop_contraction.process_composite_categorized")],
    ["return values of compute_operator_contractions(for_commutator=True)"])

add("C03", "Simplification and canonicalization preserve the value of a term",
    "Simplifying or canonicalizing a contraction result never changes the operator or number it stands for: for every choice of tensor values with the assumed symmetries (antisymmetry, optional Hermiticity, zero all-active amplitudes, core/active/virtual structure of densities) the result evaluates to the same value as the input, and a term is dropped only if its value is zero. "
    "This holds for every combination of the options (core-cumulant simplification, removal of all-active amplitudes, Hermitian or non-Hermitian tensors) and for spin-orbital, spin-integrated and spin-adapted indices. No delta is left afterwards; in terms without diagonal labels, cumulants with core labels are resolved exactly when that option is on.",
    ["inputs", "configurations"], "all terms built from Hamiltonian, amplitude, cumulant, hole-density-free contraction patterns and Kronecker deltas, with open operators of any rank, and all option settings",
    "The tests check the exact canonical string of a few dozen terms; sign errors that need repeated tensors, many indices, mixed spaces, vanishing terms or non-default options are out of reach.",
    ["Term.py", "IndicesPair.py", "Tensor.py"],
    [("delta removal and density index downgrading", "Term.simplify"),
     ("group-theoretic canonical labelling with sign", "Term.canonicalize_sympy"),
     ("tensor symmetry groups", "IndicesPair.base_strong_generating_set"),
     ("relabelling and index sorting", "Term.canonicalize_simple")],
    ["terms before and after canonicalize / canonicalize_sympy / canonicalize_simple / simplify"])

add("C04", "Equal terms have one canonical form",
    "Two contraction results that differ only by renaming summed indices, by reordering antisymmetric indices (with its sign), by swapping upper and lower indices of Hermitian tensors, or by reordering the tensors canonicalize to identical terms, with coefficients that agree including the sign. "
    "Canonicalizing a canonical term (the zero term included) changes nothing, a term that vanishes by symmetry canonicalizes to the empty term, and unless Hermiticity is assumed no upper/lower swap is identified.",
    ["inputs"], "all terms and all symmetry-equivalent rewritings of them, for spin-orbital, spin-integrated and spin-adapted indices",
    "The tests canonicalize one representative of each term; whether another representative reaches the same form is only sampled a few times.",
    ["Term.py", "IndicesPair.py", "Tensor.py", "Index.py"],
    [("double-coset canonical form over tensor symmetries and dummies", "Term.canonicalize_sympy"),
     ("minimal index labels", "Term._minimal_indices"),
     ("tensor ordering", "Term.__init__ / Tensor.comparison_tuple")],
    ["canonicalize on randomly rewritten copies of the same term"])

add("C05", "Combining terms conserves the sum and leaves one sorted entry per term",
    "Combining a list of terms returns, for each distinct product of tensors and operator in the input, exactly one term whose coefficient is the sum of all input coefficients for that product, omits products whose coefficients cancel, and adds nothing else. "
    "The returned list is in ascending term order and does not depend on the order of the input beyond rounding.",
    ["inputs", "histories"], "all lists of terms of any length, with repeats, cancellations, zeros, mixed ranks and index numbers, in any order",
    "The tests combine at most a few terms per call; cancellations, near-collisions between different terms and long lists are not exercised.",
    ["phys_op_contraction.py", "Term.py"],
    [("grouping by textual key and summation", "phys_op_contraction.combine_terms"), ("textual key", "Term.hash_term"), ("term ordering", "Term.comparison_tuple")],
    ["arguments and result of combine_terms"])

add("C06", "Products and commutators of physical operators are algebraically exact",
    "The product or single commutator of physical operators (tensor times normal-ordered operator) that the generator returns equals, as an operator on Fock space for every correlated reference state and all tensor values, the true product AB or commutator AB - BA, times the requested scale factor, when the cumulant and open-index limits do not truncate. "
    "With limits, the result is exactly the part of that expansion inside the limits; sums of operators are handled linearly, and scalar operators and single-operator products are passed through exactly (scalars commute with everything). No returned list contains two terms that differ only in their coefficient.",
    ["inputs", "configurations"], "all pairs and short lists of operator terms of any rank and label spaces, limits, scale factors, Hermitian or non-Hermitian tensors, connected-only shortcut on or off",
    "The tests compare a few canonical results with reference equations; equality as operators for arbitrary states, limits and options is never evaluated.",
    ["phys_op_contraction.py", "sqop_contraction.py", "Term.py"],
    [("contraction, canonicalization in batches, combination", "phys_op_contraction.contract_terms"),
     ("AB - BA", "phys_op_contraction.single_commutator"), ("double loop over operator sums", "phys_op_contraction.linear_commutator / linear_commutator_amp")],
    ["arguments and results of contract_terms, single_commutator, linear_commutator(_amp)"])

add("C07", "Nested commutators give the true BCH terms",
    "The nested commutators generated for a bare Hamiltonian with cluster operators equal 1/k! [...[[H, A], A]..., A] with A = T (or T - T^+ in the unitary form) for each requested level, for single- and multi-reference labels, whether computed by symbolic expansion or by recursive single commutators. "
    "Recursive single commutators of an arbitrary sequence of operators equal the left-nested commutator at every level, with each level's own cumulant and open-index limits applied. No returned level contains two terms that differ only in their coefficient.",
    ["inputs", "configurations"], "nesting levels >= 1, sets of cluster ranks, single/multi-reference, unitary or not, per-level limits, all tensor values and reference states (symbolic expansion of four or more multi-reference/unitary factors inherits the recorded shortfall of C02)",
    "The tests reproduce a few single-reference equations and compare the two routes for one case.",
    ["phys_op_contraction.py"],
    [("symbolic expansion of the nested commutator", "phys_op_contraction.nested_commutator_cc / sympy_nested_commutator_recursive"),
     ("recursive commutators with 1/k factors", "phys_op_contraction.bch_cc_rsc"), ("generic recursion", "phys_op_contraction.recursive_single_commutator")],
    ["results of nested_commutator_cc, bch_cc_rsc, recursive_single_commutator"])

add("C08", "Results do not depend on parallelism, chunking, hash seed or call history",
    "For the same inputs and limits, contraction and commutator functions return the same terms with the same coefficients (up to rounding) whatever the number of worker processes, batch size, scheduling of the workers, string-hash seed, or the calls made before in the same process; the text emitted for given terms is the same as well. "
    "None of these functions, nor printing, code emission or the term transformations that return new terms, alters the terms and operators passed to it.",
    ["schedules", "configurations", "histories"], "all process counts and batch sizes, worker schedules, hash seeds, and sequences of prior calls",
    "The suite runs nearly everything with one process, one hash seed and fresh inputs.",
    ["phys_op_contraction.py", "sqop_contraction.py", "helper/multiprocess_helper.py", "Term.py"],
    [("process pools with unordered results", "sqop_contraction.compute_operator_contractions_* / phys_op_contraction.canonicalize_contractions_batch"),
     ("order-independent combination", "phys_op_contraction.combine_terms")],
    ["same call repeated under different process counts, batch sizes, delays, hash seeds and histories; inputs re-read after each call"])

add("C09", "Printed tensor-contraction code computes the terms it came from",
    "Executing the contraction statements emitted for a canonical spin-orbital or spin-integrated term, or printed for a list of such terms, fills result tensors that are antisymmetric in each group of open indices and whose operator (with the 1/(n!)^2 prefactor) equals the sum of the input terms, for all tensor values; scalars are accumulated into the rank-zero target. "
    "Temporaries are initialised before use and never mix contributions that need different permutations, and the variants that skip permutations or temporaries differ only in that documented respect.",
    ["inputs", "programs"], "all lists of canonical terms (spin-orbital and spin-integrated) of any rank, mix of blocks and permutation patterns, and all emission options",
    "The tests compare the text of a few statements; nobody executes the emitted program.",
    ["Term.py", "phys_op_contraction.py", "Indices.py", "SQOperator.py", "Tensor.py"],
    [("statement emission and permutation expansion", "Term.ambit"), ("grouping by block and permutation", "phys_op_contraction.categorize_contractions / print_terms_ambit"),
     ("permutation enumeration with signs", "Indices.ambit_permute_format / SQOperator.permute_indices"), ("amplitude index order", "Tensor.ClusterAmplitude.ambit")],
    ["text returned by ambit and printed by print_terms_ambit, executed by an independent interpreter"])

add("C10", "Generated C++ source files are complete and compute the scaled equations",
    "The C++ files written for a list of canonical spin-orbital terms over Hamiltonian (H), amplitude (T) and cumulant (L) tensors define every function they call and declare, use only declared variables, and, when run, set each target tensor to the given factor times the sum of the input terms, plus the Hermitian conjugate when requested, whatever the targets held before. "
    "The function signatures in the header match the definitions, and the triples-amplitude file accumulates exactly the given terms into its target.",
    ["inputs", "programs"], "all lists of canonical spin-orbital terms up to nine-body tensors, with any mix of scalar and tensor targets, both settings of the Hermitian-conjugate and scratch-reuse options, any factor",
    "One smoke test runs the writer; no test reads, compiles or executes what it wrote.",
    ["write_forte_functions.py", "helper/file_utils.py", "/dsrg_generator/forte_templates/ambit_template", "/dsrg_generator/forte_templates/direct_t3_template"],
    [("driver function: zero, calls, scale, add conjugate", "write_forte_functions.save_terms_ambit_functions"),
     ("per-block functions", "write_forte_functions.save_terms_blocks_ambit_function"), ("triples file", "write_forte_functions.save_direct_t3")],
    ["files written to a scratch directory, executed by an interpreter and compiled against a reference tensor library under sanitizers"])

add("C11", "LaTeX output is a faithful transcription of the terms",
    "Reading back the LaTeX of a term gives the same coefficient, tensors, operator and index order; in permutation form the printed coefficient times the signed sum over the printed permutations is the same operator as the term. "
    "Printing a list shows every term exactly once, grouped by operator block, inside well-formed align environments.",
    ["inputs"], "all terms with rational coefficients, any index numbers and ranks, all formatting options",
    "The tests compare a few literal strings.",
    ["Term.py", "Tensor.py", "SQOperator.py", "Indices.py", "Index.py", "phys_op_contraction.py"],
    [("term formatting and coefficient fractions", "Term.latex / Term.format_coeff"), ("permutation operator text", "Indices.latex_permute_format"), ("list printing", "phys_op_contraction.print_terms_latex")],
    ["text returned by latex and printed by print_terms_latex, parsed back"])

add("C12", "Spin integration preserves the value of a term",
    "The spin-integrated terms generated from a spin-orbital term sum to the same operator or number as the original when every spin-orbital tensor is replaced by its spin blocks, and each generated term conserves spin in every factor. "
    "Equivalently each spin-conserving assignment of spins to the indices of the term is represented exactly once.",
    ["inputs"], "all spin-orbital terms (any rank, open or scalar, with amplitudes, cumulants and Hamiltonian tensors) and all spin-conserving tensor values",
    "The tests check a few expansions by count or literal result.",
    ["Term.py", "IndicesPair.py", "Indices.py", "Tensor.py", "SQOperator.py"],
    [("product over spin cases with consistency filter", "Term.generate_spin_cases_naive"), ("spin-conserving pairs", "IndicesPair.generate_spin_cases_indices"), ("spin cases of an index list", "Indices.generate_spin_cases")],
    ["generated terms evaluated with spin-blocked tensors"])

add("C13", "Singlet adaptation preserves closed-shell values",
    "For tensors of a spin singlet, the spin-adapted terms generated from a spin-integrated scalar term sum to the same value when each spin block is expressed through the spin-free tensor. "
    "For terms whose operator is a one-body alpha block or a two-body alpha-beta block, the spin-free result tensor equals that spin block of the spin-integrated result.",
    ["inputs"], "all spin-integrated scalar terms and alpha / alpha-beta block terms built from Hamiltonian, amplitude and cumulant tensors up to three-body, both alpha-major settings",
    "The tests check a few literal results.",
    ["Term.py", "IndicesPair.py", "Indices.py"],
    [("replacement of spin labels and sign of permutations", "Term.generate_singlet_adaptation / IndicesPair.generate_singlet_adaptation"), ("pair-permutation symmetry in canonicalization", "IndicesPair.sym_bsgs")],
    ["generated terms evaluated with singlet spin-blocked tensors"])

add("C14", "Space-block operations select exactly the requested blocks",
    "Expanding composite labels of the operator part, restricting it to at most given numbers of core and virtual labels, projecting to excitations, and taking the block-diagonal one-body part each return terms whose sum equals the input with its open indices restricted to exactly the documented elementary-space blocks (all of them for the unrestricted expansion, those without active labels in single-reference mode), each block appearing once. "
    "The Hamiltonian, cluster, block-diagonal Fock, Dyall and Fink operator builders return the operators they document, with the 1/(k!)^2 prefactor.",
    ["inputs", "configurations"], "all terms with open operators of any rank and label spaces, all limits, label offsets and reference modes; all builder arguments",
    "The tests check the number of blocks or literal terms for a few operators.",
    ["Term.py", "mo_space.py"],
    [("block enumeration", "Term.make_ddca / expand_composite_indices"), ("excitation projection", "Term.make_excitation"), ("diagonal part", "Term.make_one_body_diagonal"), ("operator builders", "Term.hamiltonian_operator / cluster_operator / diagonal_fock_operator / dyall_hamiltonian / fink_hamiltonian")],
    ["generated terms evaluated blockwise"])

add("C15", "Amplitude gradients are the true derivatives",
    "The gradient terms generated from a fully contracted term are its exact derivative with respect to the cluster amplitudes: contracting their open operator with any amplitude variation gives the first-order change of the term's value, for all tensor values. "
    "Terms without amplitudes give no gradient terms, and terms with an open operator are refused.",
    ["inputs"], "all scalar terms with any number of amplitudes of any rank, repeated or distinct, and all tensor values",
    "No test covers gradients.",
    ["Term.py"], [("product rule over amplitude factors", "Term.gradient_t")],
    ["gradient terms evaluated against a numerical directional derivative"])

add("C16", "Reported contraction cost is the true optimum and its path realises it",
    "For a term of any number of tensors, the reported optimal computational and storage costs are the minima over all pairwise contraction orders of the largest step in that order, under the documented cost order (total scaling first, then virtual, core and active counts), and the returned path achieves the reported cost. "
    "The enumeration of paths covers every pairwise order, each with its true costs.",
    ["inputs"], "all terms with one or more tensors, any shared or open index pattern and label spaces",
    "The tests check the cost of a few terms.",
    ["Term.py", "mo_space.py"],
    [("path enumeration", "Term.contraction_paths / _contraction_path"), ("cost of a step", "Term._contraction_cost"), ("selection", "Term.optimal_contraction_cost"), ("cost order", "mo_space.MOSpaceCounter")],
    ["reported costs and paths against independent enumeration"])

add("C17", "Ordering, equality, hashing and validation are consistent",
    "Indices, index lists, index pairs, operators, tensors and terms are totally ordered within a kind, consistently with equality (exactly one of <, =, > holds, order is transitive, and equal objects hash equally), independent of how the object was constructed. "
    "Malformed input - unknown space labels, missing or non-integer numbers, repeated indices in one list, beta labels in spin-orbital lists, spin-violating tensors, mixed hole and particle labels in an amplitude group, wrong ranks, unbalanced or disconnected terms, mixed index kinds - is always rejected with an error, and well-formed input is always accepted.",
    ["inputs"], "all label strings, index lists, pairs, tensors and terms, valid and invalid, in all accepted construction formats",
    "The tests check single examples of each rejection and a few comparisons.",
    ["Index.py", "Indices.py", "IndicesPair.py", "Tensor.py", "SQOperator.py", "Term.py"],
    [("rich comparisons and hashes", "Index / Indices / IndicesPair / Tensor / Term comparison methods"), ("constructor validation", "Index.__init__ / Indices.__init__ / Tensor subclasses / Term.__init__")],
    ["outcomes of construction, comparison and hashing against a reference model"])

add("C18", "Antisymmetric index algebra has the right signs and multiplicities",
    "Sorting an antisymmetric index list returns the sorted list with the parity of the permutation, the number of transpositions counted between two orderings has that parity, and the permutation forms of a partitioned list enumerate each distinct arrangement exactly once with its sign (those preserving the spin pattern for spin-labelled lists), the stated count being the multinomial one. "
    "Spin cases of an index list or pair enumerate each (spin-conserving) assignment exactly once, and the symmetry group given for a pair is exactly the group of signed index permutations that its symmetry allows.",
    ["inputs"], "all index lists and pairs up to large sizes, all partitions, all symmetry options",
    "The tests check a few lists of length up to four or so.",
    ["Indices.py", "IndicesPair.py", "SQOperator.py", "Tensor.py"],
    [("merge sort with inversion count", "Indices.sort_and_count_inversions / canonicalize"), ("parity", "Indices.count_permutations"), ("multiset permutations", "Indices.ambit_permute_format / n_multiset_permutation"), ("spin cases", "Indices.generate_spin_cases / IndicesPair.generate_spin_cases_indices"), ("symmetry groups", "IndicesPair.asym_bsgs / sym_bsgs")],
    ["return values against brute-force enumeration"])

add("C19", "Space bookkeeping and partition helpers are exact",
    "Cost counters add up the labels given (upper and lower case alike), compare by total scaling and then by virtual, core and active counts, and are equal only when their label counts agree; counters of shared indices between two tensors report exactly the shared labels per space in each direction. "
    "Integer partitions enumerate every partition of a positive integer exactly once, two-part separations enumerate every ordered pair, and the composite label for a set of elementary spaces is the one containing exactly those spaces; the label left for a one-body cumulant, hole density or delta is the one containing exactly the spaces its two labels share (hole spaces for a cumulant, particle spaces for a hole density), or none.",
    ["inputs"], "all label counts, tensor pairs, positive integers and sets of elementary labels",
    "The tests check one or two examples; shared-index counting currently has failing tests and integers are sampled once.",
    ["mo_space.py", "helper/integer_partition.py", "SpaceCounter.py"],
    [("cost counter", "mo_space.MOSpaceCounter"), ("label lookup", "mo_space.find_space_label"), ("partitions", "helper.integer_partition"), ("shared-index counter", "SpaceCounter.SpaceCounter")],
    ["return values against reference models"])

add("C20", "Copies, conjugates and negations are exact and independent",
    "A copy of an index list, pair, operator, tensor or term equals the original, keeps its kind, index type, name and priority, and reports the labels, sizes and next free numbers of its content; conjugating a copy swaps creators and annihilators of the operator and changes nothing else, and negating it flips only the sign of the coefficient. "
    "Changing a term (coefficient, simplification, canonicalization, voiding) never shows in copies made before, nor a change of a copy in the original, and the descriptive queries stay in step with the content after each change; the list of tensors a term is built from is neither reordered nor kept by it. An index list can be traversed from several places at once, each traversal visiting every index in order. "
    "The empty counterpart of a term has coefficient zero, no tensors and an empty operator of the same index type.",
    ["inputs", "histories"], "all objects of all index types and kinds, all copy options, all sequences of changes to either side",
    "The tests copy a few objects and never change one side while watching the other.",
    ["Term.py", "Tensor.py", "IndicesPair.py", "Indices.py", "SQOperator.py"],
    [("term copies", "Term.from_term / void / make_empty"), ("pair and operator copies", "IndicesPair.clone"), ("tensor copies", "Tensor.clone / from_indices"), ("state kept by a term", "Term.simplify / void_self / indices_set / next_index_number")],
    ["copies and originals re-read after every change"])

add("C21", "File writing stays inside the requested directory",
    "Writing the generated sources creates or replaces exactly the documented files (driver, header, one file per operator block, or the triples file) in the requested directory, leaves every other file, directory and the working directory as they were, and gives the same contents whatever the directory held before and wherever it is called from. "
    "The directory helper enters the named subdirectory, creating it if missing and refusing if it cannot exist, and always restores the previous working directory, also when an exception is raised inside.",
    ["inputs", "histories", "fault_sequences"], "all lists of terms, relative and absolute target directories, prior contents, working directories, nesting and exceptions inside",
    "The tests write one set of files into a fresh directory and do not look at what else changed.",
    ["write_forte_functions.py", "helper/file_utils.py"],
    [("file names and writing", "write_forte_functions.save_terms_ambit_functions / save_terms_blocks_ambit_function / save_direct_t3"), ("directory helper", "helper.file_utils.ChangeDir"), ("template filling", "helper.file_utils.multi_gsub")],
    ["whole directory tree, working directory and files opened for writing, before and after"])

add("C22", "Index lists are faithful sequences and printed forms are faithful",
    "An index list, however given (names, index objects, a mixture, comma-separated text), behaves as that sequence: length, iteration, positions, slices, membership and spin counts agree with it. "
    "Printing an index, an index list, a pair, operator, tensor or term and reading the text gives back exactly its name, labels, order, upper and lower groups and coefficient, so terms print alike exactly if their content is the same; the labelled-tensor text lists the labels in the requested order. "
    "Switching an index to alpha or beta changes only its spin.",
    ["inputs"], "all lists, pairs, operators, tensors and terms of all index types, all labels and numbers",
    "The tests print and index a few fixed objects.",
    ["Index.py", "Indices.py", "IndicesPair.py", "SQOperator.py", "Tensor.py", "Term.py"],
    [("sequence protocol", "Indices.__iter__ / __getitem__ / __contains__ / __len__"), ("text", "Index / Indices / IndicesPair / SecondQuantizedOperator / Tensor / Term .latex, .ambit, __repr__"), ("spin conversion", "Index.to_alpha / to_beta / is_beta")],
    ["text read back by an independent parser, sequence operations against the plain list"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
