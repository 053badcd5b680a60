"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os

P = []
SRC = "src/python/zquantum/core/"


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [f if f.startswith(("steps", "subtrees")) else SRC + f for f in files],
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe or [],
                "hook_needed": None,
            },
        }
    )


I, H, C, Pg, F = "inputs", "histories", "configurations", "programs", "fault_sequences"

prop("C01", "Circuit unitary is the ordered product of its embedded gates",
 "For every circuit the unitary - numeric, or symbolic and then evaluated - equals the product, in order of application, of its gates' matrices, each acting on the qubits it lists in the order it lists them, with qubit 0 the most significant bit, and unlisted qubits untouched. Applying an operation or a circuit to a state vector gives exactly what multiplying by that unitary gives. Every built-in gate's matrix is its documented unitary for every parameter value.",
 [Pg, I], "all circuits over built-in, user-defined, controlled and daggered gates on any qubit tuples (unordered, non-adjacent, padded to a larger register), all angles, numeric or symbolic",
 "Tests check a few fixed circuits and gate matrices at sampled angles; qubit orders, gaps and mixtures of gates are a product space they only sample.",
 ["circuits/_circuit.py", "circuits/_gates.py", "circuits/_matrices.py", "circuits/_builtin_gates.py", "circuits/_unitary_tools.py", "circuits/_wavefunction_operations.py"],
 [("lifting of a gate matrix to the register", "circuits/_unitary_tools.py:_lift_matrix_numpy/_lift_matrix_sympy"), ("product over operations", "circuits/_circuit.py:Circuit.to_unitary"), ("matrix factories", "circuits/_matrices.py")],
 observe=["Circuit.to_unitary", "GateOperation.lifted_matrix", "GateOperation.apply", "gate.matrix"])

prop("C02", "Gate dagger and control laws hold for any nesting",
 "For every gate, its dagger's matrix is the conjugate transpose of the gate's matrix, and the dagger of the dagger has the gate's matrix; a k-controlled gate applies the gate on its targets exactly when all k controls are 1 and is the identity otherwise. These laws compose under any nesting of dagger and control, and the qubit count and parameters reported for the result agree with its matrix. Equal gates and operations have equal matrices, and gates with different matrices are not equal.",
 [Pg, I], "all built-in and user-defined gates, all parameter values, all nestings of dagger and control, all control counts",
 "Tests pin single dagger/controlled applications for listed gates; nesting, merging of controls and equality between independently built gates are not enumerated.",
 ["circuits/_gates.py", "circuits/_builtin_gates.py", "circuits/_matrices.py"],
 [("Dagger", "circuits/_gates.py:Dagger"), ("ControlledGate", "circuits/_gates.py:ControlledGate"), ("gate equality", "circuits/_gates.py:MatrixFactoryGate.__eq__")],
 observe=["gate.matrix", "gate.dagger", "gate.controlled", "gate.num_qubits", "gate.params", "=="])

prop("C03", "Binding parameters substitutes values simultaneously, everywhere",
 "Binding symbols in a gate, operation or circuit gives the object whose matrix equals the original symbolic matrix with exactly those symbols replaced, all at once, so the order of the assignments and of repeated partial bindings does not matter. Symbols without a value stay free, values for unknown symbols are ignored, and the original object is unchanged. The reported free symbols are exactly those on which the parameters depend, listed operation by operation in order of first use.",
 [Pg, I, H], "all parametrized circuits (built-in, custom, controlled, daggered gates, wavefunction operations), all symbol maps including partial, overlapping and swapping ones, any split into successive bindings",
 "Tests bind a handful of fixed maps; simultaneous substitution with overlapping names and nested gates is an input space they do not sample.",
 ["circuits/_circuit.py", "circuits/_gates.py", "circuits/_operations.py", "circuits/_wavefunction_operations.py"],
 [("parameter substitution", "circuits/_operations.py:sub_symbols"), ("gate binding", "circuits/_gates.py:MatrixFactoryGate.bind and wrappers"), ("free symbols", "circuits/_circuit.py:Circuit.free_symbols")],
 observe=["bind", "replace_params", "free_symbols", "to_unitary"])

prop("C04", "Circuits survive serialization unchanged",
 "Writing any circuit, list of circuits or custom gate definition to its dictionary form, to JSON text or to a file and reading it back yields an equal object: the same operations in the same order on the same qubits, the same register size, equal parameters including symbolic ones, and equal custom gate definitions. The result also has the same unitary as the original.",
 [Pg, I], "all circuits built from built-in gates, custom gates (with or without parameters, used several times, nested under control or dagger), numeric or symbolic parameters with any legal symbol name, any register size; all lists of such circuits",
 "Tests round-trip a fixed list of example circuits; names, nesting and shared custom definitions form an unbounded space.",
 ["circuits/_serde.py", "circuits/_gates.py", "circuits/_circuit.py"],
 [("to_dict", "circuits/_serde.py:to_dict"), ("from_dict", "circuits/_serde.py:circuit_from_dict"), ("expression (de)serialization", "circuits/_serde.py:serialize_expr/deserialize_expr"), ("custom definitions", "circuits/_circuit.py:collect_custom_gate_definitions")],
 observe=["to_dict", "circuit_from_dict", "save_circuit", "load_circuit", "save_circuitset", "load_circuitset"])

prop("C05", "Combining and generating circuits preserves operations and registers",
 "Appending an operation or concatenating circuits yields the operations of the parts in order on a register large enough for both, and its unitary is the product of the parts' unitaries. Layer generators and ancilla registers put exactly the requested gates, with the requested parameters, on exactly the requested qubits, and splitting by a predicate loses, duplicates and reorders nothing.",
 [Pg, H], "all sequences of appends, concatenations, layers, ancilla additions and splits, for all circuits",
 "Tests look at single fixed combinations, not at sequences of them or at register sizes that differ between parts.",
 ["circuits/_circuit.py", "circuits/_generators.py", "circuits/_gates.py"],
 [("concatenation", "circuits/_circuit.py:Circuit.__add__"), ("layers and ancillas", "circuits/_generators.py"), ("splitting", "circuits/_circuit.py:split_circuit")],
 observe=["Circuit.operations", "Circuit.n_qubits", "Circuit.__add__", "create_layer_of_gates", "apply_gate_to_qubits", "add_ancilla_register", "split_circuit"])

prop("C06", "Simulated states and exact observables match linear algebra",
 "For every circuit and initial state, the simulated state is the circuit's unitary applied to that state (phase operations multiply each amplitude by its own phase), whatever mixture of natively supported and unsupported operations the circuit has and in whatever way they interleave. Exact expectation values equal the quadratic form of the operator in that state, with the same qubit convention as the state, and the exact outcome distribution equals the squared amplitudes. Simulators count the circuits and jobs they ran and reject malformed requests.",
 [Pg, I, H], "all circuits with bound parameters, all normalized initial states, all splits of the operations into native and non-native ones, all operators on at most the register, sequences of calls on one simulator",
 "The contract tests run a short fixed list of circuits and observables on one backend class.",
 ["symbolic_simulator.py", "interfaces/backend.py", "circuits/_wavefunction_operations.py", "wavefunction.py"],
 [("native splitting", "interfaces/backend.py:QuantumSimulator.get_wavefunction"), ("state evolution", "symbolic_simulator.py:SymbolicSimulator._get_wavefunction_from_native_circuit"), ("exact expectation", "interfaces/backend.py:QuantumSimulator.get_exact_expectation_values"), ("call bookkeeping", "interfaces/backend.py:QuantumBackend")],
 observe=["get_wavefunction", "get_exact_expectation_values", "get_bitstring_distribution", "number_of_circuits_run", "number_of_jobs_run"])

prop("C07", "A wavefunction object is always a valid normalized state",
 "A state object only ever holds a vector of length 2^n whose numeric amplitudes can still be completed to unit norm: constructing or writing anything else fails and leaves the object as it was, and binding symbols gives exactly the substituted amplitudes or fails. Probabilities and outcome tables report the squared magnitudes in the documented bit order. The predefined states, the bit-order flip (an involution) and saving followed by loading give exactly the amplitudes they describe.",
 [H, I], "all sequences of construction, reads, element and slice writes, symbol bindings, flips and file round trips, with numeric and symbolic amplitudes, valid and invalid",
 "Tests apply one mutation at a time to small fixed vectors; failure atomicity has to hold after any history.",
 ["wavefunction.py"],
 [("norm check", "wavefunction.py:Wavefunction._check_sanity/_check_normalization"), ("rollback of bad writes", "wavefunction.py:Wavefunction.__setitem__"), ("bit order flip", "wavefunction.py:flip_wavefunction"), ("dicke state", "wavefunction.py:Wavefunction.dicke_state")],
 observe=["Wavefunction", "__setitem__", "bind", "get_probabilities", "get_outcome_probs", "flip_wavefunction", "save_wavefunction", "load_wavefunction"])

prop("C08", "Samples and measurement records faithfully represent the distribution",
 "Sampling a state or a distribution returns exactly the requested number of outcomes, each of the right length and of non-zero probability, the same for the same seed, and with frequencies that converge to the probabilities. A measurement record converts between bitstrings, counts and distributions without losing or inventing an outcome, keeps every outcome through appending, counts and file round trips, and a record built to represent a distribution holds exactly the requested number of samples, all of possible outcomes: each outcome's rounded share, corrected at random only as far as the total requires and never where the share is a whole number.",
 [I, H], "all states and distributions (any support, skew and width), all sample counts and seeds, all sequences of additions and conversions of records",
 "Tests sample from a few states and check loose frequencies; exact count, support and rounding have to hold for every distribution and sample count.",
 ["wavefunction.py", "measurement.py", "utils.py", "bitstring_distribution.py"],
 [("state sampling", "wavefunction.py:sample_from_wavefunction"), ("record container", "measurement.py:Measurements"), ("representing a distribution", "measurement.py:Measurements.get_measurements_representing_distribution"), ("distribution sampling", "utils.py:sample_from_probability_distribution")],
 observe=["sample_from_wavefunction", "Measurements.from_counts/get_counts/add_counts/get_distribution/save/load_from_file", "run_circuit_and_measure"])

prop("C09", "Expectation values from samples equal direct averages over the samples",
 "For every diagonal operator and every non-empty set of samples, each term's expectation value is its coefficient times the average of its +1/-1 parity over the samples, correlations and covariances are the corresponding sample averages with the documented normalization, and even/odd parity tallies count each sample exactly once. The result depends only on how often each outcome occurs, not on the order of the samples, and combining or concatenating expectation values preserves every term and value in order.",
 [I], "all operators built from Z products and a constant, with any real coefficients and any term order, on any qubits of the register; all sample multisets",
 "Tests use short hand-written sample lists; the bit convention, signs and normalization need all operator supports and outcome multisets.",
 ["measurement.py", "cost_function.py"],
 [("expectation values", "measurement.py:Measurements.get_expectation_values"), ("parities", "measurement.py:get_parities_from_measurements/check_parity"), ("values from parities", "measurement.py:get_expectation_values_from_parities"), ("concatenation", "measurement.py:concatenate_expectation_values")],
 observe=["get_expectation_values", "get_expectation_values_from_parities", "expectation_values_to_real", "sum_expectation_values"])

prop("C10", "Outcome distributions are valid, normalized and preserved by I/O",
 "An outcome distribution accepts exactly the mappings whose keys all describe outcomes of one common length and whose probabilities are non-negative, and holds the same outcomes and probabilities, normalized when asked to, whichever way the keys were written. Building one from a probability vector assigns each probability to its own bitstring, and writing distributions, singly or as a set, to text keys or files and reading them back keeps every outcome and its probability.",
 [I, H], "all mappings from digit texts, comma-separated texts or tuples to weights, valid or not, for any number of subsystems and any outcome values, any normalization state",
 "Tests enumerate a few small dictionaries; key forms, lengths and normalization tolerance form a large space.",
 ["distribution/_measurement_outcome_distribution.py", "bitstring_distribution.py"],
 [("validation", "distribution/_measurement_outcome_distribution.py:is_measurement_outcome_distribution and predicates"), ("normalization", "distribution/_measurement_outcome_distribution.py:normalize_measurement_outcome_distribution"), ("from probabilities", "distribution/_measurement_outcome_distribution.py:create_bitstring_distribution_from_probability_distribution"), ("I/O", "distribution/_measurement_outcome_distribution.py:save/load")],
 observe=["MeasurementOutcomeDistribution", "save_measurement_outcome_distribution", "load_measurement_outcome_distribution", "change_tuple_dict_keys_to_comma_separated_integers"])

prop("C11", "Distribution distances equal their definitions and are true distances",
 "The clipped negative log-likelihood, its symmetrized form (the library's Jensen-Shannon divergence) and the single- and multi-kernel maximum mean discrepancy of bitstrings equal their documented formulas over the union of outcomes, whatever the order in which the outcomes are listed and whatever the outcome width. All are non-negative, the symmetric ones are symmetric, the discrepancy of a distribution with itself is zero, and comparing distributions over different numbers of subsystems, a normalized with an unnormalized one, or things that are not distributions is rejected.",
 [I], "all pairs of distributions with any, also disjoint, supports and any outcome width, all clipping constants and kernel widths",
 "Tests compare two-outcome distributions of a few bits with one or two parameter values.",
 ["distribution/clipped_negative_log_likelihood.py", "distribution/jensen_shannon_divergence.py", "distribution/mmd.py", "distribution/_measurement_outcome_distribution.py"],
 [("NLL", "distribution/clipped_negative_log_likelihood.py"), ("JSD", "distribution/jensen_shannon_divergence.py"), ("MMD", "distribution/mmd.py"), ("dispatch and checks", "distribution/_measurement_outcome_distribution.py:evaluate_distribution_distance")],
 observe=["compute_clipped_negative_log_likelihood", "compute_jensen_shannon_divergence", "compute_mmd", "evaluate_distribution_distance"])

prop("C12", "Result artifacts survive being saved and loaded",
 "Every result artifact - arrays (real or complex, any shape), value estimates, expectation values, measurement-count estimates, parities, lists, dictionaries, orderings, noise and timing records, optimization results with their recorded history - is read back equal to what was written, from file or from JSON text, including when artifacts are nested inside plain dictionaries and lists. Plain data in the same document comes back as plain data (unless it has the very form in which an artifact is written), and saving does not change what is saved.",
 [I], "all artifact values: all shapes and number types, extreme and negative numbers, empty and nested containers",
 "Tests round-trip one literal value per artifact type.",
 ["serialization.py", "utils.py", "measurement.py", "interfaces/optimizer.py"],
 [("encoder", "serialization.py:OrquestraEncoder"), ("decoder", "serialization.py:OrquestraDecoder"), ("array form", "serialization.py:convert_array_to_dict"), ("value estimates", "utils.py:ValueEstimate"), ("expectation values", "measurement.py:ExpectationValues.to_dict/from_dict")],
 observe=["save_*/load_* functions", "OrquestraEncoder", "OrquestraDecoder"])

prop("C13", "Operator arithmetic is exact linear and multiplicative algebra",
 "For qubit, Ising and fermion operators, sums, differences, negation, scalar and operator products, division and powers represent exactly the corresponding matrix operations, operands are never modified by non-in-place operations, and in-place forms give the same result. Equality and closeness tests agree with term-wise comparison of coefficients, removing negligible terms drops only those below the tolerance, and rebuilding an operator from its terms or groups of terms gives it back.",
 [Pg, I], "all operators on a few modes with real, complex and symbolic coefficients, all expression trees over them, all tolerances",
 "Tests compute a list of fixed products and sums; the algebra must hold for every expression and every term overlap.",
 ["openfermion/ops/operators/symbolic_operator.py", "openfermion/ops/operators/qubit_operator.py", "openfermion/ops/operators/ising_operator.py", "openfermion/ops/operators/fermion_operator.py"],
 [("arithmetic", "openfermion/ops/operators/symbolic_operator.py"), ("Pauli simplification", "openfermion/ops/operators/qubit_operator.py:_simplify"), ("Ising simplification", "openfermion/ops/operators/ising_operator.py:_simplify"), ("closeness", "openfermion/ops/operators/symbolic_operator.py:isclose")],
 observe=["+ - * / ** == isclose compress get_operators get_operator_groups renormalize"])

prop("C14", "Operators survive text, dictionary and file forms",
 "Printing any numeric-coefficient operator and parsing the text gives back the same operator, and every accepted way of naming a term (text, tuple, list) names the same operator. Saving and loading a qubit operator, an operator set, an Ising operator, an interaction operator, an interaction density matrix or a stored fermion operator gives back an equal object with equal coefficients. Malformed terms are rejected.",
 [I], "all operators: any terms, real or complex coefficients of any magnitude and sign, constants and zero, any number of modes, any file format offered",
 "Tests round-trip a few literal operators.",
 ["openfermion/zapata_utils/_io.py", "openfermion/ops/operators/symbolic_operator.py", "openfermion/utils/operator_utils.py"],
 [("parsing", "openfermion/ops/operators/symbolic_operator.py:_long_string_init/_parse_string"), ("dict form", "openfermion/zapata_utils/_io.py:convert_dict_to_qubitop/convert_qubitop_to_dict"), ("file form", "openfermion/zapata_utils/_io.py"), ("marshal/plain-text store", "openfermion/utils/operator_utils.py:save_operator/load_operator")],
 observe=["str(operator)", "save_*/load_*"])

prop("C15", "Fermion-to-qubit encodings preserve the operator algebra",
 "The Jordan-Wigner and Bravyi-Kitaev images of any fermion operator satisfy the canonical anticommutation relations: the map is linear, multiplicative, preserves Hermitian conjugation, and the image has the same spectrum as the operator itself. Encoding a Hermitian interaction operator directly gives the same result as encoding its fermion form, and the reverse Jordan-Wigner map undoes the Jordan-Wigner map up to normal ordering and, the other way round, exactly.",
 [I], "all fermion operators and all Hermitian interaction operators on a few modes with complex coefficients, all admissible register sizes, all qubit operators",
 "Tests check listed terms and a few molecules; index coincidences and parity cases of the transforms are combinatorial.",
 ["openfermion/transforms/opconversions/jordan_wigner.py", "openfermion/transforms/opconversions/bravyi_kitaev.py", "openfermion/transforms/opconversions/reverse_jordan_wigner.py"],
 [("JW", "openfermion/transforms/opconversions/jordan_wigner.py"), ("BK", "openfermion/transforms/opconversions/bravyi_kitaev.py"), ("reverse JW", "openfermion/transforms/opconversions/reverse_jordan_wigner.py")],
 observe=["jordan_wigner", "bravyi_kitaev", "reverse_jordan_wigner"])

prop("C16", "Reordering, conjugation and commutators preserve operator meaning",
 "Normal ordering and chemist ordering return the same operator written in the promised order, and equal operators get the same normal form. Hermitian conjugation, the Hermiticity test, commutators and anticommutators agree with matrix algebra, mode relabelling applies exactly the given permutation and is undone by its reverse, and freezing orbitals keeps every expectation value in the frozen configuration.",
 [I], "all fermion, interaction and qubit operators with real or complex coefficients and any product length on a few modes, all mode permutations, all sets of frozen orbitals",
 "Tests use listed short products.",
 ["openfermion/transforms/opconversions/term_reordering.py", "openfermion/utils/operator_utils.py", "openfermion/utils/commutators.py", "openfermion/transforms/repconversions/operator_tapering.py", "openfermion/utils/indexing.py"],
 [("normal ordering", "openfermion/transforms/opconversions/term_reordering.py:normal_ordered"), ("conjugation", "openfermion/utils/operator_utils.py:hermitian_conjugated"), ("freezing", "openfermion/transforms/repconversions/operator_tapering.py:freeze_orbitals")],
 observe=["normal_ordered", "chemist_ordered", "reorder", "hermitian_conjugated", "is_hermitian", "commutator", "anticommutator", "double_commutator", "freeze_orbitals", "prune_unused_indices"])

prop("C17", "Sparse matrices, spectra and states agree with dense linear algebra",
 "The sparse matrix of any qubit or fermion operator on any register equals the one obtained from explicit tensor products, its spectrum, ground state, expectation values and density matrices are those of that matrix, and particle-number restriction picks exactly the block with that number (and spin, and excitation level, where requested).",
 [I], "all operators on a few modes with any coefficients, all register sizes, states, particle numbers, reference determinants and excitation levels",
 "Tests look at a few operators and particle numbers.",
 ["openfermion/linalg/sparse_tools.py", "openfermion/zapata_utils/_utils.py"],
 [("sparse construction", "openfermion/linalg/sparse_tools.py:qubit_operator_sparse/jordan_wigner_sparse"), ("number sector", "openfermion/linalg/sparse_tools.py:get_number_preserving_sparse_operator"), ("expectation", "openfermion/linalg/sparse_tools.py:expectation and zapata_utils/_utils.py:get_expectation_value")],
 observe=["get_sparse_operator", "eigenspectrum", "get_ground_state", "expectation", "jw_get_ground_state_at_particle_number", "get_number_preserving_sparse_operator", "get_expectation_value"])

prop("C18", "Tensor-form operators denote the same operator through every change",
 "A polynomial tensor or interaction operator and its fermion form are the same operator: element access, conversion in either direction, arithmetic, projection, element-wise maps and basis rotation all agree with the corresponding action on the fermion form, and no operation modifies its operands or the arrays they were made from. Splitting off the diagonal part, number operators, mode reorderings and removal of inactive orbitals preserve the matrix elements they promise to preserve.",
 [I, H], "all tensors on a few modes, real or complex, all orthogonal and unitary rotations, all permutations of modes, all numbers of core and active orbitals, all sequences of arithmetic",
 "Tests use a few literal tensors.",
 ["openfermion/ops/representations/polynomial_tensor.py", "openfermion/ops/representations/interaction_operator.py", "openfermion/transforms/repconversions/conversions.py", "openfermion/zapata_utils/_utils.py", "hamiltonian.py"],
 [("tensor algebra", "openfermion/ops/representations/polynomial_tensor.py"), ("to interaction operator", "openfermion/transforms/repconversions/conversions.py:get_interaction_operator"), ("rotation", "openfermion/ops/representations/polynomial_tensor.py:general_basis_change"), ("diagonal part / mode reordering", "openfermion/zapata_utils/_utils.py:get_diagonal_component, hamiltonian.py:reorder_fermionic_modes")],
 observe=["PolynomialTensor operators", "get_interaction_operator", "get_fermion_operator", "rotate_basis", "get_diagonal_component", "reorder_fermionic_modes", "remove_inactive_orbitals"])

prop("C19", "Hamiltonian grouping and measurement-cost estimates are exact",
 "Grouping a qubit operator into co-measurable groups puts every term (with a non-negligible coefficient) in exactly one group with its coefficient, and all terms of a group commute qubit by qubit. Precision and shot-count estimates equal the variance formulas they document for the given groups and expectation values, with missing expectation values treated as maximal variance, and expectation values computed from density matrices are those of the state they came from.",
 [I], "all qubit operators, all groupings, all prior expectation values, both sorting choices, all tolerances, all low-particle states",
 "Tests check a few Hamiltonians; the assignment of terms to groups depends on all pairs of terms.",
 ["hamiltonian.py", "openfermion/ops/representations/interaction_rdm.py", "openfermion/measurements/get_interaction_rdm.py"],
 [("greedy grouping", "hamiltonian.py:group_comeasureable_terms_greedy"), ("cost estimates", "hamiltonian.py:estimate_nmeas_for_frames/compute_group_variances/get_expectation_values_from_rdms"), ("RDM expectation", "openfermion/ops/representations/interaction_rdm.py")],
 observe=["group_comeasureable_terms_greedy", "is_comeasureable", "compute_group_variances", "estimate_nmeas_for_frames", "get_expectation_values_from_rdms", "InteractionRDM.expectation"])

prop("C20", "Estimation preprocessing keeps totals and respects shot budgets",
 "Splitting, grouping, context selection, evaluation and shot allocation turn estimation tasks into tasks whose operators and circuits together have the same total expectation value, result values in the order of the tasks given, and never mix one task's operator with another's circuit or shots. Context-selection circuits rotate each term's measurement basis so that the measured diagonal term has the original term's expectation value. Shot allocations are non-negative integers that follow the documented proportions and total, and tasks that cannot be measured are evaluated exactly without using shots.",
 [I, H], "all lists of tasks (operators with constant, repeated and mixed-basis terms; circuits; shot numbers), all allocation budgets and priors, all compositions of preprocessors",
 "Tests use two or three fixed tasks per preprocessor.",
 ["estimation/_estimation.py", "interfaces/estimation.py"],
 [("context selection", "estimation/_estimation.py:perform_context_selection/get_context_selection_circuit_for_group"), ("grouping", "estimation/_estimation.py:group_individually/group_greedily"), ("shot allocation", "estimation/_estimation.py:allocate_shots_*"), ("averaging and exact estimation", "estimation/_estimation.py:estimate_expectation_values_by_averaging/calculate_exact_expectation_values"), ("splitting off non-measured tasks", "estimation/_estimation.py:split_estimation_tasks_to_measure")],
 observe=["the preprocessors and estimators"])

prop("C21", "Cost functions, ansatze and numerical gradients mean what they say",
 "A cost function built from an operator and an ansatz or circuit returns the operator's expectation value (plus any constant terms) in the circuit bound to the given parameters, with fixed parameters in place and noise reproducible, and never carries state from one call into the next. Ansatz parameters are consumed in the documented order, circuits are rebuilt whenever an ansatz property changes, and finite-difference gradients equal the difference quotients they document.",
 [I, H], "all operators, parametrized circuits, parameter vectors, fixed parameters, sequences of evaluations and of ansatz property changes, all smooth functions and step sizes",
 "Tests evaluate fixed ansatze at one or two points and never long histories of calls.",
 ["cost_function.py", "gradients.py", "interfaces/ansatz.py", "interfaces/ansatz_utils.py", "interfaces/functions.py", "interfaces/cost_function.py", "bitstring_distribution.py"],
 [("cost functions", "cost_function.py"), ("ansatz cache", "interfaces/ansatz_utils.py:ansatz_property/invalidates_parametrized_circuit"), ("symbol order", "interfaces/ansatz_utils.py/circuits/symbolic/_sorting.py"), ("finite differences", "gradients.py")],
 observe=["create_cost_function", "fix_parameters", "add_normal_noise", "AnsatzBasedCostFunction", "Ansatz.get_executable_circuit", "finite_differences_gradient"])

prop("C22", "Time-evolution circuits approximate the exact propagator as promised",
 "The circuit generated for a single Pauli term is exactly the exponential of that term for the given time, and the circuit for a sum is the documented ordered product of term exponentials, repeated for the requested number of steps, so that it equals the exact propagator for commuting sums. Each derivative circuit set returned for the evolution gives, combined with its factors, the derivative of any expectation value with respect to the evolution time.",
 [I], "all Hamiltonians with real coefficients over any qubits, all evolution times (numeric or symbolic), all step counts",
 "Tests use a few two- or three-qubit Hamiltonians.",
 ["evolution.py"],
 [("term exponential", "evolution.py:time_evolution_for_term"), ("Trotter product", "evolution.py:time_evolution"), ("derivatives", "evolution.py:time_evolution_derivatives")],
 observe=["time_evolution", "time_evolution_for_term", "time_evolution_derivatives", "generate_circuit_sequence"])

prop("C23", "Recorders, optimizer histories and augmentations reflect every call faithfully",
 "A recorded function returns exactly what the function returns, keeps exposing its gradient, and its history holds, in call order, the arguments, values, artifacts and call numbers of precisely the calls selected by the save condition, unaffected by later mutation of the arguments and kept by copies of the recorder. An optimizer's result has histories that hold exactly the calls it made of the cost function and of its gradient when history is asked for, and empty ones otherwise, also across the iterations of a nested optimizer, and the initial parameters given are left as they are. Augmenting a cost function or its gradient leaves the values as they are and triggers each side effect for exactly the calls selected by its condition, in the order given.",
 [H, I], "all sequences of calls with any arguments and save conditions, all combinations of value, gradient and artifact recording, all optimizers built on the template, all augmentations",
 "Tests record short fixed call sequences.",
 ["history/recorder.py", "history/save_conditions.py", "interfaces/optimizer.py", "interfaces/functions.py", "cost_function_augmentations.py", "interfaces/mock_objects.py"],
 [("recorders", "history/recorder.py"), ("save conditions", "history/save_conditions.py"), ("optimizer template method", "interfaces/optimizer.py:Optimizer.minimize"), ("optimization result", "interfaces/optimizer.py:optimization_result/construct_history_info"), ("augmentations", "cost_function_augmentations.py")],
 observe=["recorder", "history", "Optimizer.minimize", "NestedOptimizer", "optimization_result", "augment_cost_function"])

prop("C24", "Measurement tracking is transparent and complete",
 "Wrapping a backend for tracking changes nothing in what any call returns, in what the wrapped backend is asked to run or in its bookkeeping, and after any sequence of calls the tracking file holds, in order, one record for each circuit run through the tracker since it was made, describing that circuit, device, sample number and outcome counts or distribution (and each outcome where asked for) correctly.",
 [H, I], "all sequences of single runs, batch runs and distribution requests with any circuits, sample numbers and recording options",
 "Tests perform one call of each kind and look at the file once.",
 ["trackers.py", "interfaces/backend.py", "interfaces/mock_objects.py"],
 [("delegation and recording", "trackers.py:MeasurementTrackingBackend")],
 observe=["MeasurementTrackingBackend", "raw-data JSON file"])

prop("C25", "Circuit layouts cover each requested interaction and round-trip",
 "Circuit layers generated for a qubit count and layer style contain only disjoint qubit pairs within each layer and connect exactly the pairs the style promises, the connectivity agrees with the layers, every pair equally often, and unknown styles or impossible arrays are rejected. Layers and connectivities are equal after saving and loading, in dictionary form or in a file.",
 [I, C], "all register sizes, layer counts and styles, all pair lists",
 "Tests check the listed small sizes.",
 ["circuits/layouts.py"],
 [("layer builders", "circuits/layouts.py:build_circuit_layers_and_connectivity*"), ("I/O", "circuits/layouts.py:save/load functions")],
 observe=["build_circuit_layers_and_connectivity", "CircuitLayers", "CircuitConnectivity", "load/save functions"])

prop("C26", "Symbolic expression translation preserves value",
 "Translating any supported symbolic expression into the neutral expression tree and out again gives an expression with the same value for every assignment of its symbols, in every dialect offered, and unsupported constructs are rejected rather than altered. Natural ordering of symbol names (numbers written without leading zeros) is a total order that sorts numeric suffixes by value and does not depend on the input order.",
 [I], "all expression trees over the supported functions, constants, integers, rationals, floats, negative and nested powers, all assignments; all sets of symbol names",
 "Tests translate a list of fixed expressions.",
 ["circuits/symbolic/expressions.py", "circuits/symbolic/sympy_expressions.py", "circuits/symbolic/translations.py", "circuits/symbolic/_sorting.py"],
 [("from sympy", "circuits/symbolic/sympy_expressions.py:expression_from_sympy"), ("translation", "circuits/symbolic/translations.py:translate_expression"), ("natural key", "circuits/symbolic/_sorting.py:natural_key")],
 observe=["expression_from_sympy", "translate_expression", "natural_key", "natural_key_revlex", "natural_key_fixed_names_order"])

prop("C27", "Gate decompositions preserve the circuit's action",
 "Decomposing a circuit with any list of rules gives a circuit on the same register with the same unitary up to a global phase, leaves operations no rule applies to untouched and in place, applies the rules in the given order, and leaves no operation that the last applied rules were asked to replace. The input circuit is not changed.",
 [Pg, I], "all circuits over supported gates, including controlled and symbolic ones, all angles, all rule sequences",
 "Tests decompose single gates at a few angles.",
 ["decompositions/_decomposition.py", "decompositions/_zquantum_decompositions.py"],
 [("rule driver", "decompositions/_decomposition.py:decompose_operations"), ("U3 rule", "decompositions/_zquantum_decompositions.py:U3GateToRotation")],
 observe=["decompose_zquantum_circuit", "decompose_operations", "U3GateToRotation"])

prop("C28", "Graph generation, encoding and comparison are faithful",
 "Graphs generated from a specification have exactly the requested number of nodes, structure and admissible weights, are reproducible under a seed, and are equal after being saved and loaded. Comparing two graphs says they are the same exactly when nodes, edges and weights coincide.",
 [I], "all graph specifications (sizes, densities, degrees, weight specs, seeds), all weighted graphs",
 "Tests generate a few graphs of each kind.",
 ["graph.py"],
 [("generators", "graph.py:generate_*"), ("weight specs", "graph.py:_weight_from_specs/_uniform_generator"), ("I/O", "graph.py:save_graph/load_graph"), ("comparison", "graph.py:compare_graphs")],
 observe=["generate_graph_from_specs and helpers", "save_graph", "load_graph", "compare_graphs"])

prop("C29", "Numeric and conversion helpers are exact inverses or true predicates",
 "Integer/bit-string conversions are mutual inverses of the documented length and order, comparison of unitaries up to global phase accepts exactly the pairs that differ by a phase, discretization returns integers that total what was asked and deviate from the exact share by less than one with the largest remainders rounded up, objects created from a specification get exactly the arguments given, and symbol, basis-state and tuple conversions preserve every element.",
 [I], "all integers, lengths, bit lists, unitaries, value lists, totals and dictionaries",
 "Tests use single examples; off-by-one lengths and ties need the whole range.",
 ["utils.py", "wip/compatibility_tools.py", "typing.py", "bitstring_distribution.py"],
 [("bit conversion", "utils.py:dec2bin/bin2dec/convert_tuples_to_bitstrings/..."), ("phase comparison", "utils.py:compare_unitary"), ("discretization", "utils.py:scale_and_discretize"), ("object creation", "utils.py:create_object/get_func_from_specs")],
 observe=["dec2bin", "bin2dec", "compare_unitary", "scale_and_discretize", "convert_bitstrings_to_tuples", "get_ordered_list_of_bitstrings", "RNDSEED-free helpers"])

prop("C30", "Model and chemistry Hamiltonians equal their defining sums",
 "The Hubbard model on any grid, the spin-orbital Hamiltonian of any set of orbital integrals, its active-space and reduced forms and the coupled-cluster generators equal the sums that define them: correct neighbours without double counting, correct spin structure, correct core energy, same energies in the stated sector, and anti-Hermitian spin- and number-conserving generators. Molecule data is equal after being saved and loaded.",
 [I], "all grid sizes, boundary conditions and couplings, all integrals with the required symmetries, all active and occupied index sets, all amplitudes",
 "Tests use 2x2-like grids and two stored molecules.",
 ["openfermion/hamiltonians/hubbard.py", "openfermion/hamiltonians/special_operators.py", "openfermion/hamiltonians/general_hubbard.py", "openfermion/chem/molecular_data.py", "openfermion/chem/reduced_hamiltonian.py", "openfermion/circuits/unitary_cc.py", "openfermion/ops/representations/interaction_operator.py"],
 [("Hubbard", "openfermion/hamiltonians/hubbard.py"), ("integrals to tensors", "openfermion/ops/representations/interaction_operator.py:get_tensors_from_integrals/get_active_space_integrals"), ("UCC", "openfermion/circuits/unitary_cc.py"), ("reduced Hamiltonian", "openfermion/chem/reduced_hamiltonian.py")],
 observe=["fermi_hubbard", "get_active_space_integrals", "make_reduced_hamiltonian", "uccsd_generator", "uccsd_singlet_generator", "MolecularData"])

prop("C31", "Workflow steps write what the library functions compute",
 "Each workflow step, given input files, writes output files whose loaded content equals what the corresponding library functions compute on the loaded inputs, whichever accepted form (file name, JSON text, object) an input takes. Steps never alter their input files and concatenation steps keep every element in order.",
 [I, C], "all circuits, operators, parameters, graphs and specifications the steps accept, in every accepted input form",
 "Step tests run one or two examples, several steps have none.",
 ["steps/circuit.py", "steps/measure.py", "steps/operators.py", "steps/graph.py", "steps/utils.py", "steps/evaluation.py", "steps/optimize.py", "steps/transforms.py"],
 [("steps", "steps/*.py")],
 observe=["files written by the steps"])

prop("C32", "Release version parsing and bumping are faithful",
 "Parsing any version text of the form major.minor[.patch][.-pre] recovers its components, and rendering them gives an equivalent version. The next version has the same major, minor one higher, patch zero and no pre-release part, and is larger than the current one. Texts that do not begin with major.minor are rejected.",
 [I], "all version texts",
 "Tests list a few versions.",
 ["subtrees/z_quantum_actions/bin/get_next_version.py"],
 [("parser and bump", "subtrees/z_quantum_actions/bin/get_next_version.py:parse_version_str/Semver")],
 observe=["parse_version_str", "Semver.bump_minor", "Semver.version_str"])

prop("C33", "Contracts and random test objects are what they are named for",
 "Each published estimator contract accepts every estimator that returns one result per task, in the order of the tasks, with coefficients and constant terms taken into account, and rejects one that breaks the rule the contract is named for. Random circuits, operators, states and matrices for tests have the requested size, lie on the requested qubits, have the named structure (Hermitian, unitary, antisymmetric, symmetric interaction tensors, spin expansion) and are the same again for the same seed. The equality tester rejects exactly the groups that overlap, differ within or break hashing, and example functions have the gradients and artifacts they document.",
 [I, Pg], "all estimators with or without one of the named faults, all sizes and seeds, all groups of objects, all parameters of the example functions",
 "Tests try each contract on one good and one bad estimator and each generator at one or two sizes.",
 ["interfaces/estimator_contract.py", "circuits/_testing.py", "testing/_initialize.py", "openfermion/testing/testing_utils.py", "openfermion/testing/random.py", "history/example_functions.py"],
 [("contracts", "interfaces/estimator_contract.py:ESTIMATOR_CONTRACTS"), ("random circuits", "circuits/_testing.py:create_random_circuit"), ("random operators", "testing/_initialize.py, openfermion/testing/testing_utils.py"), ("equality tester", "openfermion/testing/testing_utils.py:EqualsTester")],
 observe=["ESTIMATOR_CONTRACTS", "create_random_circuit", "create_random_qubitop", "random_interaction_operator", "EqualsTester"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
