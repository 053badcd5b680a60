"""Hand-written parts of DESIGN.md (tools/mk_design.py adds the tables)."""

HEAD = """# Property-based testing of z-quantum-core

Generated by `tools/mk_design.py` from `tools/design_text.py` (prose), the check modules (sub-checks,
numbers of cases, assumptions) and `seeded/*/meta.json` (planted bugs). Numbers of cases that were
really run, non-trivial cases, label distributions and samples are in `evidence/<id>.json`, which every
run rewrites.

## 1. How a property is decided

Every property in properties.jsonl is decided by generated-input search against an explicit oracle.
Nothing else decides: no property is not_applicable, and there are no hooks in /repo.

    bash check.sh C07                        quick tier (seed VERIF_SEED, default 1)
    bash check.sh C07 --tier thorough        the same strategies, many more cases
    bash check.sh C07 --only history --seed 9
    bash check.sh C07 --replay replays/...json

* A **case** is a JSON-able description (a circuit as a list of operation descriptions, an operator as
  a list of terms, a history as a list of steps). A Hypothesis strategy draws it; `check(case)` builds the
  real objects, runs the real code from /repo's working tree and compares it with the oracle. The check
  function draws no randomness of its own: whatever is seed-driven is expanded with a
  `RandomState(case["seed"])`, so a case alone reproduces a failure. Before it is checked a case goes
  through `json.dumps/loads`, so the replay file is exactly the case that was run.
* A **failure** (a Violation raised by a comparison, or any unexpected exception) is shrunk by
  Hypothesis; the minimal case is written to `replays/<id>-<sub>-<n>.json` and printed as
  `VIOLATION property=<id> replay=<path>`, exit 1.
* **Oracles** are written without the code under test: numpy Kronecker products and embeddings
  (`pbt/ref.py`), an own small expression language with its own evaluator (`pbt/expr.py`), an own Pauli
  algebra on bit masks and occupation-number matrices (`pbt/ops.py`, exact Jordan-Wigner images for up to
  70 modes), list/dictionary models of histories. Where a relation decides by itself (a round trip, an
  algebra law, a metamorphic relation) it is used in addition to, not instead of, a value oracle whenever
  the value can be computed.
* **Running**: `pbt/run.py` splits each sub-check in shards (different derived seeds), forks them over 8
  processes, gives a quick check a soft budget of 330 s (hard limit 750 s; all but a few need 15-60 s),
  and writes the evidence: cases generated, non-trivial cases by the rule stated per sub-check, labels,
  samples, excluded known findings. A sub-check that could not run its stated minimum says so. One case
  hanging is reported by name after its shard's limit instead of eating the whole budget.
* **Environment**: the interpreter of /opt/vp (PyPy 3.9), Hypothesis from its site-packages. Coverage-
  guided fuzzing (atheris) is for CPython only; the package's pinned dependencies are installed for PyPy
  only, so it cannot be used here. Line coverage of the checks was measured instead (a settrace run, not
  part of the machinery) and used to find code the generators did not reach.
* **Judging behaviour, not text**: the checks use public entry points and the values and files they give.
  Nothing is monkeypatched in the package except through documented extension points (backends, loggers,
  save conditions, preprocessors are generated stand-ins).

### Generators and their biases

Hypothesis' own small bias is good for shrinking and poor for finding size-dependent faults. Therefore
most properties have a second family of sub-checks with names such as `many_...`, `wide_...`, `dense_...`,
`long_...` whose cases are a size from a `sampled_from` list plus a seed. Planted bugs which need nine qubits,
sixty-five calls, eight terms in a group or ten tasks were found to be out of reach of the small generators
and are the reason for these sub-checks. Special values (0, multiples of pi/2, 1, -1, seed 0, empty lists,
repeated objects, equal parameters) are given their own weight; coefficients are kept away from the
library's documented tolerance of 1e-8 so that neither outcome of a borderline case can raise an alarm.

### What the unit tests cannot settle

The repository's tests sample fixed circuits, operators and files. Each property below quantifies over
programs, inputs or histories; the last sentence of each section says what product space is searched.

## 2. Strength

Level "exploration" for all: a property held on every case explored. Bounds per property are stated below
and in each check's ASSUMPTIONS. Statistical comparisons (samples, noise) use Hoeffding bounds with failure
probability 1e-12 per comparison, so that no run is expected to raise an alarm by chance; with fixed seeds
they are deterministic anyway.

Quick costs about 15-18 min for all 32 checks on 8 cores (15-75 s each); thorough up to 50 min per check.

"""

S = {}
S["C01"] = """A circuit is generated as a list of (gate, qubits), gates from all built-ins, custom definitions
(random unitaries and symbolic matrices), phase operations, any nesting of control and dagger, any qubit order with
gaps, register padded or not. Oracle: own 2^n matrices - own closed-form gate matrices, embedded by index arithmetic,
multiplied in order. Applying to a state is compared with the product on random complex states (also symbolic
entries). Built-in matrices are compared with independently written formulas at special and random angles.
Product space: gate kind x qubit order x gaps x nesting x register."""
S["C02"] = """Random chains of `.controlled(k)` and `.dagger` (up to five) over every gate; oracle: numpy conjugate
transpose and block matrices; reported qubit count, parameters and free symbols follow from the chain. Control
semantics are checked by acting on every basis state. Equality: pairs of gates described twice, or perturbed in one
respect (angle by 1e-3, name, definition entry, control count); equal gates must have equal matrices and vice versa."""
S["C03"] = """Circuits with symbolic parameters (expressions over up to six symbols, custom gates whose definition
symbols share the names of outer symbols, repeated symbols, wrapped gates, phase operations) and symbol maps that bind
to numbers, to other expressions, to each other ({a: b, b: a}) and to unused symbols. Oracle: simultaneous substitution
in the own expression tree, then own matrices. Binding in parts must equal binding at once when the values are numbers."""
S["C04"] = """Random circuits (also lists and sets) to dictionary, JSON text and file, and back; compared as objects,
gate by gate, and by unitary; custom definitions - several, with parameters, with names that extend each other, with
symbol names that clash with sympy names (beta, S, I, lambda), indexed names x[3]. Expressions go through the
serialization of expressions alone with an own evaluator as oracle. Known finding F04 is excluded by the exact condition
(a float that 15 digits do not represent)."""
S["C05"] = """A history of circuit-building steps (append an operation, append or prepend a circuit, double it, ancilla register,
layer of gates, gate to listed qubits) runs next to a model that is a list of operations and a register size;
after every step operations and registers agree, and operands are unchanged. Concatenation is also checked by unitary;
splitting by predicates is checked to partition the operations in order. Register sizes come as numbers of every type accepted."""
S["C06"] = """Simulators: the symbolic simulator, stand-ins with every choice of natively supported operations (random
predicates), batching backends. Final states and exact expectation values against own linear algebra; counters of
circuits and jobs against a counting model over generated call sequences, including rejected requests (zero
samples, wrong list lengths, unbound symbols)."""
S["C07"] = """Histories of writes (index, negative index, slice), bindings (numbers and symbols), flips, copies and file round trips
on a wavefunction against a plain list; the invariant - normalized, or completable when symbolic - is checked after each
step, and rejected steps must leave the state as it was. Predefined states (zero, Dicke, amplitudes) against their
definition. `many_qubits` goes to 12 qubits for outcome tables and flips."""
S["C08"] = """Sampling of states and of dictionaries: support, count, width, order of bits, reproducibility per seed (0 included),
frequencies within Hoeffding bounds (up to 20,000 samples). Records: histories of additions and conversions against a
list/Counter model. A record representing a distribution has exactly the requested size, meets whole shares exactly, holds no impossible
outcome, and is no further from the distribution than rounding explains."""
S["C09"] = """Diagonal (Ising) operators and sample multisets; oracle: for each term the average of the product of its values
over the samples in plain Python, correlations and covariances likewise, with and without the Bessel correction; parities
and their combination; concatenation of frames, reused operands. `many_samples` reaches 10^5 per outcome."""
S["C10"] = """Mappings with keys in every accepted form (text, tuples, comma text), valid and invalid in one respect (length, type,
negative weight, sum), against an independent acceptance-and-value model; normalization; files (single and lists) incl.
outcomes of several digits and zero probabilities; distributions from probability vectors (bit order)."""
S["C11"] = """Pairs of distributions (same, nested and disjoint supports, up to 70 bits wide): clipped log likelihood, Jensen-
Shannon, MMD for single and several bandwidths against textbook sums in exact integers; symmetry, zero at equality,
independence of listing order; rejection of unlike widths. Kernels are compared alone on integers up to 2^40."""
S["C12"] = """Every artifact type (arrays, value estimates, expectation values, parities, distributions, histories, optimization
results, wavefunctions, circuits, lists of these) nested in documents, written by the encoder and read back; the result is
compared with the description, not with another library call. The object saved must be unchanged."""
S["C13"] = """Expression trees over generated operators (+, -, *, /, scalar, power, in-place forms, negation, sum of lists) in
pure and in-place form against dense matrices; operands of pure forms unchanged; symbolic coefficients by evaluation;
closeness/compress term-wise near the tolerance (a tenth away from it); integer-exact cancellation of huge terms;
long terms with repeated factors (Pauli algebra mod 4). Results are written into afterwards: no operand may change (aliasing)."""
S["C14"] = """Operators printed and parsed, given as text/tuple/list/dictionary in all spellings, texts from a grammar whose
meaning is known, mutated texts which must be rejected; all save/load functions for operators (qubit, Ising, lists, sets,
interaction operators, RDMs, parameter grids). Python's str(complex) under PyPy prints 12 digits, hence complex
coefficients in text are compared to that."""
S["C15"] = """Jordan-Wigner and Bravyi-Kitaev (general, tree and interaction forms) against occupation-number matrices and the
Fenwick basis change for up to 6 modes; above that, anticommutation relations and products in the bit-mask Pauli algebra
up to 70 modes; one- and two-body pieces for all index patterns; reversal (JW backwards), normal ordering of what comes
back. `dense_interaction_operators` has all tensor entries set, so that dropping any family of elements shows."""
S["C16"] = """Matrix before = matrix after for normal ordering of fermion operators, chemist ordering, interaction operators
in both index orders; random rewritings of one operator have one normal form; conjugation and Hermiticity tests;
commutators, double commutators with their shortcuts; relabelling against permutation models; freezing/pruning against
matrix blocks. Wide variants (up to 12 modes) use exact Jordan-Wigner images. Results are written into afterwards: no operand may change (aliasing)."""
S["C17"] = """Sparse matrices of all operator kinds, on the asked-for register, against Kronecker products; spectra, ground
states, expectation values, density matrices, variance, number/spin sectors (index sets computed from the definition of
electron number and S_z), restricted operators and their term action incl. three-body terms. Results are written into afterwards: no operand may change (aliasing)."""
S["C18"] = """Histories over tensor operators (arithmetic in place or not, reading and writing single elements, rotation of basis,
projection, permutation, splitting, freezing) next to a model: dictionary of all tensor elements; the matrix of the
denoted operator is compared after each step; arrays handed in must not change. `dense_operators` up to 7 modes."""
S["C19"] = """Every grouping function: groups partition the terms (multiset), all members of a group pairwise share a qubit-wise
basis (own check); estimates of shots/variances against the defining sums with given or default expectation values;
`grouping_of_many_terms`, `cost_of_many_groups` use up to 90 terms. Results are written into afterwards: no operand may change (aliasing)."""
S["C20"] = """Estimation tasks through generated pipelines of preprocessing steps: splitting, context selection (checked by
unitary conjugation: rotated term equals the Ising term), grouping, allocation (uniform, proportional; sums and
proportionality by exact integers), binding, averaging against exact values. Shared circuit objects, 11-14 tasks and
up to 8 qubits in `contexts`."""
S["C21"] = """Cost functions (all factories, old and new) against dense expectation values of the circuit with the parameters
substituted in natural name order; recorded backend requests; noise by seed and spread; gradients against the same
central difference on an own function; ansatz histories (mutating a property invalidates the cached circuit)."""
S["C22"] = """exp(-i t c P) for single terms, ordered products for sums, repeated steps, against closed-form exponentials applied to random states
(up to 12 qubits); exact propagators within the Trotter error bound computed from commutators, and exactly when terms
commute; derivatives: the weighted sum of the derivative circuits equals the derivative of the expectation value (by exact
differentiation of the product); sequences with and without inputs reused."""
S["C23"] = """Histories of calls to recorders (save conditions, gradients, artifacts, copies, nested recorders), optimizers with
keep_history, nested optimizers and augmentations, against a list of the calls that really happened (own counting
function inside). `long_histories` goes to 520 calls. Functions that raise after storing an artifact leave nothing behind for the next call."""
S["C24"] = """Histories of runs through the measurement tracker against an untracked twin backend (same results) and against a
model of the tracking file, read after each run: one record per circuit, in order, complete bitstrings when asked. `long_sessions` tracks hundreds of runs; `backends_from_specifications` builds trackers from specifications."""
S["C25"] = """All array sizes up to 14 x 14 (lattice layers) and 40 (chains): union of layers is exactly the lattice's edge set
computed from coordinates, no qubit twice in a layer, round trip by dictionary/file, unknown types rejected."""
S["C26"] = """Random sympy expressions, built so that auto-simplification is known, translated into the native tree and on into
quil/qiskit-like/numpy dialects; native trees translated to sympy; evaluated by the own evaluator at generic points. Natural
ordering of names against a tuple model (digit groups as integers)."""
S["C27"] = """U3 decompositions (free symbols, controls, daggers) by unitary up to global phase and register size; lists of generated
rules (identity, swaps, own decompositions) against a rewriting model: each rule is applied once, in order, to every operation
its predicate accepts."""
S["C28"] = """Graph specifications (regular, Erdos-Renyi, ladder, caveman, complete, barbell) against structural models (degrees, node
and edge counts, 7-sigma bound for random edges), weights by sampler and seed; JSON round trips with attributes; compare_graphs
against a model of what it can decide (F28 excluded exactly)."""
S["C29"] = """Bits <-> integers up to 80 bits, endianness; unitary comparison up to phase; scale_and_discretize against exact rational
largest-remainder; creating objects by specification; maps and noise; argument compatibility; old distributions."""
S["C30"] = """Hubbard and number-operator Hamiltonians against sums over sites applied to all states of at most two particles (this
determines an operator of two-body terms); molecular data: active spaces, tensors and RDMs against direct contraction;
UCCSD generators; molecule files: round trips, histories of edits, injected failures (unwritable, missing groups)."""
S["C31"] = """Every step in steps/ is called with inputs as files, JSON text or objects, in a scratch directory; outputs are loaded and
compared with own values or the library functions (verified by the other properties); inputs are unchanged, seeds reproduce,
errors are errors. `wiring` replaces the backends, ansatzes, optimizers and estimation stages by classes which record what the step gives to them (noise model, connectivity, prior values, order of the stages)."""
S["C32"] = """Version texts made from components; parse, bump and order against tuples; texts which are no version must be rejected."""
S["C33"] = """Estimators generated with or without one of the faults the contracts are named for (and with harmless differences: order of evaluation, totals, scale, type of the result); random circuits, operators, states, matrices and interaction operators of generated size and seed against the structure their names promise; groups of objects with and without flaws for the equality tester; example functions against closed forms."""

TAIL = """## 4. Statements weakened and false alarms corrected

A check that disagreed with the code was settled by working out which of the two was wrong. Where the library breaks the
property, see section 5. Where the property as first written was too strong, or the oracle was wrong:

* C14: complex coefficients in printed text: 12 digits (PyPy's `str(complex)`), not exact.
* C15: coefficients within an order of magnitude of 1e-8 are not generated (encodings drop such terms by design).
* C18: subtraction with a missing key (F18, asserted by a test) and integer arrays handed in as floats.
* C19, C20: terms with negligible (< 1e-8) or zero coefficients may be dropped, in particular when converting to Ising operators.
* C21: the gradient oracle first used another step than the library's 1e-5, which differs at rounding level for steep
  functions (alarm at seed 5); it now takes the same step.
* C23: the first statement demanded copies to share the history; what users rely on (and now stated) is that each copy has
  its own complete history.
* C24: circuits with multi-phase operations cannot be written to the file at all; excluded from the statement.
* C25: nearest-neighbour layouts of non-positive size give empty layers; accepted.
* C26: values are compared at generic assignments; a few cases where sympy's own simplification changes the value at
  branch cuts are skipped and counted; names which differ in leading zeros only are not ordered by the statement.
* C27, C28: see F27, F28 in known_findings.txt.
* C30: with complex tunnelling only Hermiticity is claimed; the name of a charged molecule ("-1-") follows the code.
* C31: F31; products of several complex factors on one qubit are skipped.
* C31: circuits read back are compared up to the digits in which symbolic parameters are saved (F04); a symbol that cancels
  out of its parameter (`0*a`) has no value to be given (alarms at seeds 5 to 8, corrected).
* C32: only texts which do not begin with major.minor are claimed to be rejected (the parser is a prefix match by design).

## 5. Defects found

`known_findings.txt` lists every genuine defect: `fixed:` lines name the commit in /repo that repairs it (each a minimal
"fix:" commit; the existing tests pass unedited), `KNOWN` lines those recorded only, because an existing test asserts
the behaviour or the repair is an API decision. A KNOWN entry excludes exactly its input class; each run of the check
re-runs the listed input and prints `KNOWN-FINDING: ...` while it still fails.

Noted on the way, outside the listed statements: `circuit + MultiPhaseOperation` raises NotImplementedError; numpy integers as
numbers of samples cannot be written by the tracker; `ExpectationValues.__eq__` is ambiguous for arrays; loaders do not take
pathlib paths everywhere; `get_sparse_operator(IsingOperator)` raises TypeError; `get_qubitop_from_matrix` fails for 1x1;
`create_object` drops keyword arguments for functions that take **kwargs; steps modify the specification dictionaries they are
given; MolecularData leaves a temporary file after a failed save and cannot write non-ASCII descriptions.

## 6. Planted bugs

Written from the property text and the code; each passes the stable tests, and has a demonstration that fails only with it
(`seeded/<id>/`). `tools/plant.py` confirms them in a scratch copy under /tmp and runs the checks on them. Bugs a check missed
at first were the reason for the strengthened sub-checks (marked by the "needs" column: nine qubits, sixty-five calls...).
All listed bugs are caught now, by the check of their property (the second column; `tools/plant.py --recheck` repeats
this). Missed at first in the last round: c31d (sorted terms of a list, values all alike), an order of preprocessing steps,
unlikely outcomes dropped from a distribution, long lists of integers, noise model together with connectivity.

"""
