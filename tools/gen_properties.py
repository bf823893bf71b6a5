#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

U = "stoqcompiler/unitary/"
P = []


def prop(pid, title, statement, over, quant, why, files, mech, observe, state=None):
    assert len(title) <= 80, (pid, len(title))
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    P.append(d)


prop("C01", "A sequence's product is always the ordered product of its entries",
     "After any history of constructing a sequence, appending and removing entries at either end, undoing, inverting, combining and asking for the product, the reported product equals (up to global phase) the product of the full-system unitaries of the entries currently reported, the first entry being applied first. The reported length and entries are exactly those the history prescribes: an append puts the given entry at the named end, a remove drops the entry at the named end, and removing from an empty sequence changes nothing. When, how often or whether the product was asked for earlier never changes any later answer.",
     ["histories", "inputs"],
     "every finite history of sequence operations over every gate set, qubit assignment and pattern of intermediate product queries",
     "test_append_and_remove and test_undo run two fixed histories of one-qubit gates, always with the product queried after each step, so the cached and not-cached variants and their mixtures are never compared.",
     [U + "unitary_sequence.py", U + "unitary_sequence_entry.py"],
     [("incremental update of the cached product on append/remove", U + "unitary_sequence.py append_first/append_last/remove_first/remove_last"),
      ("lazy recomputation", U + "unitary_sequence.py product")],
     ["UnitarySequence.product()", "UnitarySequence.get_sequence_entries()", "UnitarySequence.get_length()"],
     [("sequence_entries", "the current entries", U + "unitary_sequence.py"),
      ("sequence_product", "cached product or None", U + "unitary_sequence.py")])

prop("C02", "Undo restores exactly the state before the last recorded change, once",
     "Undoing returns a sequence to exactly the entries and the product it had just before the most recent change that was recorded as undoable, which also rolls back every later change made without recording. Each record can be undone once: an undo with nothing recorded (never recorded, or already undone) raises an error and leaves the sequence as it was. A remove on an empty sequence is not a change and records nothing.",
     ["histories"],
     "every interleaving of recorded and unrecorded appends and removes, product queries and undos",
     "test_undo covers two histories without any unrecorded change and always with the product already cached; multi-entry (layer) rollback and undo of a sequence whose product was never computed are untested.",
     [U + "unitary_sequence.py"],
     [("snapshot of entries and product", U + "unitary_sequence.py _save_undo_state"), ("restore", U + "unitary_sequence.py undo")],
     ["UnitarySequence.undo()", "UnitarySequence.get_sequence_entries()", "UnitarySequence.product()"],
     [("previous_entries", "snapshot of the entries", U + "unitary_sequence.py"),
      ("previous_sequence_product", "snapshot of the cached product", U + "unitary_sequence.py")])

prop("C03", "Inverting a sequence reverses the order and inverts every entry",
     "The inverse of a sequence has the same length; its i-th entry acts on the same qubits, in the same qubit order, as the i-th entry from the end of the original and is that entry's inverse; its product is the inverse of the original's product. This holds however the sequence was built - from a list or an array, with the same entry object used at several positions, after any edits, or by an earlier inversion - and inverting twice gives back the original operations. The original sequence is not changed, and the inverse can be edited, undone and combined like any other sequence.",
     ["histories", "inputs"],
     "every sequence over every gate set, every way of building it, and every later edit of the inverse",
     "test_inverse inverts one two-entry sequence of distinct entries on one qubit and only looks at the product.",
     [U + "unitary_sequence.py", U + "unitary_sequence_entry.py", U + "unitary.py"],
     [("entry-wise inversion and reversal", U + "unitary_sequence.py inverse"), ("matrix adjoint", U + "unitary.py inverse")],
     ["UnitarySequence.inverse()", "UnitarySequence.get_sequence_entries()", "UnitarySequence.product()"])

prop("C04", "Combining sequences is exact concatenation",
     "Combining one or more sequences of equal dimension yields a sequence whose entries are those of the arguments in argument order and whose product applies the first argument first. It does not depend on which of the arguments (possibly the same sequence several times) had been multiplied out before, leaves all of them unchanged, and later edits of the result or of an argument do not show in the other. Sequences of different dimension are refused.",
     ["histories", "inputs"],
     "every tuple of sequences in every caching state, repeated arguments included, and every later edit of result or arguments",
     "test_combine joins one pair of sequences and checks only length and product.",
     [U + "unitary_sequence.py"],
     [("concatenate entries, accumulate product", U + "unitary_sequence.py combine")],
     ["UnitarySequence.combine()", "UnitarySequence.product()"])

prop("C05", "Values are isolated: no operation changes its operands or earlier results",
     "No library call changes the observable value of an object that was passed to it as an argument or returned by an earlier call, other than the sequence an edit is called on. After constructing a unitary, parameterized unitary, primitive, sequence entry, sequence, Hamiltonian term, Hamiltonian or compiler, the caller may modify the list, dictionary or array it passed in (matrix, qubit list, lists of allowed qubits, parameters, entry list, term list, primitive list, probability list), and may modify an entry list received from a sequence, without changing the constructed object.",
     ["histories", "inputs"],
     "every sequence of API calls over a shared pool of objects, and every later in-place modification of the arguments",
     "No test modifies an argument after use or re-reads an operand after an operation.",
     [U + "unitary.py", U + "unitary_primitive.py", U + "parameterized_unitary.py", U + "parameterized_unitary_definitions.py", U + "unitary_sequence.py", U + "unitary_sequence_entry.py", "stoqcompiler/hamiltonian/hamiltonian.py", "stoqcompiler/hamiltonian/hamiltonian_term.py", "stoqcompiler/compiler/compiler.py"],
     [("defensive copies", U + "unitary_sequence.py __init__, get_sequence_entries; compiler.py __init__; hamiltonian.py __init__"), ("fresh arrays", U + "unitary.py __init__")],
     ["get_matrix()", "get_sequence_entries()", "get_display_output()", "compile()"])

prop("C06", "An operation is embedded on exactly the qubits it is applied to, in order",
     "Applying a k-qubit operation to an ordered list of k distinct qubits of an n-qubit system yields the n-qubit operation that acts as the given operation with its j-th qubit identified with the j-th listed qubit (qubit 0 most significant) and as the identity on all other qubits. This holds for every ordered choice of qubits and every system size that contains them, and is the same whatever sizes the same entry was asked for before.",
     ["inputs", "histories"],
     "every operation, every ordered choice of distinct qubits, every system size, every order of requests to one entry",
     "Tests embed the identity and CNOT on [0,1] and [1,0] only; permutations of three or more qubits (where a permutation differs from its inverse) and gaps are never reached.",
     [U + "unitary_sequence_entry.py", U + "unitary.py"],
     [("permutation matrix construction", U + "unitary_sequence_entry.py get_permute_matrix"), ("tensor with identity and conjugate, cached per dimension", U + "unitary_sequence_entry.py get_full_unitary")],
     ["UnitarySequenceEntry.get_full_unitary()", "UnitarySequenceEntry.get_permute_matrix()"],
     [("full_unitary_by_dimension", "per-dimension cache", U + "unitary_sequence_entry.py")])

prop("C07", "Unitary objects obey matrix algebra up to global phase",
     "A unitary built from a matrix represents that matrix up to a global phase, normalised to determinant one. Left and right multiplication, tensor product and inverse of unitaries equal the corresponding matrix operations up to global phase, in the documented order, for every dimension and any chain of such operations; the inverse of the inverse is the original, display flag included.",
     ["inputs", "histories"],
     "every unitary matrix of every dimension and every finite chain of multiply, tensor and inverse",
     "Tests multiply a handful of Pauli matrices (which commute up to phase, so operand order is invisible) and one random matrix with its own inverse.",
     [U + "unitary.py"],
     [("phase balancing and unitarity check", U + "unitary.py __init__"), ("multiply/tensor/inverse", U + "unitary.py left_multiply, right_multiply, tensor, inverse")],
     ["Unitary.get_matrix()", "Unitary.left_multiply()", "Unitary.right_multiply()", "Unitary.tensor()", "Unitary.inverse()"])

prop("C08", "Distance is a phase-blind overlap measure; closeness follows the threshold",
     "The distance between two unitaries is one minus the absolute value of their normalised Hilbert-Schmidt overlap: between 0 and 1, 0 exactly for operators equal up to global phase, symmetric, and unchanged when both are multiplied by a common unitary on either side. Two unitaries are close at a threshold exactly when their overlap is at least the threshold, up to numerical tolerance, so every unitary is close to itself at every threshold from 0 to 1; no threshold means the same as threshold 1.",
     ["inputs"],
     "all pairs of unitaries of equal dimension, given as objects or plain matrices, and all thresholds including 0, 1 and none",
     "test_close_to tries thresholds None, 0.999 and 0.0 on one random operator and T; threshold 1.0, boundary overlaps and complex overlaps are not tried.",
     [U + "unitary.py"],
     [("trace overlap", U + "unitary.py distance_from"), ("threshold comparison", U + "unitary.py close_to")],
     ["Unitary.distance_from()", "Unitary.close_to()"])

prop("C09", "Every named gate is the operation its documentation says, at every angle",
     "For every angle, each named gate equals its defining operation up to global phase: Rx, Ry, Rz and the in-plane rotation are exp(-i theta/2 times the axis), XX is exp(-i theta X x X), the n-qubit global gate is the product of XX over all qubit pairs, and H, T, X, Y, Z, CNOT, CCNOT and the phase-flip code operation are the standard matrices; time evolution under H for time t is exp(iHt). Each gate carries its name and its angle values, and each parameterized gate agrees with the fixed gate at every parameter value in its range.",
     ["inputs"],
     "every gate, every angle (negative and beyond one turn included), every number of qubits and Hermitian matrix",
     "Tests compare gates only with each other at a few angles (rphi with rx/ry at six angles, powers equal to the identity), which a consistent sign or scale error survives.",
     [U + "unitary_definitions.py", U + "parameterized_unitary_definitions.py"],
     [("gate formulas", U + "unitary_definitions.py"), ("parameterized wrappers", U + "parameterized_unitary_definitions.py")],
     ["UnitaryDefinitions.*", "ParameterizedUnitaryDefinitions.*", "Unitary.get_parameter_value()"])

prop("C10", "Parameterized operations honour their parameter values and ranges",
     "Fixing a parameterized operation at a list of values yields the unitary its matrix function gives for exactly those values in order, recording every parameter's name, value and angle flag. Values inside a parameter's closed range, ends included, are accepted and any value outside it is refused, as is a list of the wrong length. A randomly drawn parameter value is always inside the range, is spread uniformly over it, and is therefore always accepted.",
     ["inputs", "fault_sequences"],
     "every parameter list, range and value, and every value the random source can deliver, extremes included",
     "Tests fix one rotation at zero and one random draw and try one out-of-range time.",
     [U + "parameterized_unitary.py", U + "parameterized_unitary_parameter.py"],
     [("range check", U + "parameterized_unitary.py as_unitary; parameterized_unitary_parameter.py is_valid"), ("random draw", U + "parameterized_unitary_parameter.py random_value")],
     ["ParameterizedUnitary.as_unitary()", "ParameterizedUnitaryParameter.random_value()", "ParameterizedUnitaryParameter.is_valid()"])

prop("C11", "A compilation's sequence, cost trace and stopping point always agree",
     "Whatever random choices are made, compiling returns a sequence over the whole system together with one cost per step taken, where each cost is the distance of the sequence held after that step from the target, so that the last cost is the distance of the returned sequence. It stops at the first moment the held sequence meets the threshold (no threshold meaning exact) or when the maximum number of steps has been taken, whichever comes first, and at no other time. A rejected change leaves the held sequence exactly as before, and a step changes it by at most one entry at one end.",
     ["schedules", "inputs", "configurations"],
     "every outcome of every random choice of the search, every target, threshold, step limit, append probability and annealing rate",
     "Tests look at one random path each, check only the final closeness and that the cost trace is a list; no test sets a step limit or inspects a cost.",
     ["stoqcompiler/compiler/compiler.py", U + "unitary_sequence.py"],
     [("propose/accept/undo loop", "stoqcompiler/compiler/compiler.py _compile"), ("random change", "stoqcompiler/compiler/compiler.py _make_random_change")],
     ["Compiler.compile()", "CompilerResult.compiled_sequence", "CompilerResult.cost_by_step", "CompilerResult.total_elapsed_time"],
     [("beta", "annealing parameter", "stoqcompiler/compiler/compiler.py")])

prop("C12", "Compiled sequences use only the permitted gates, qubits and parameters",
     "Every entry of a compiled sequence is one of the given primitives applied to one of the qubit lists that primitive allows (any ordered choice of distinct system qubits when it names none), with every parameter inside its range and recorded under its name. Primitives with an empty list of allowed qubits or zero probability are never used, whether the primitives are given as a list or an array and with or without probabilities; the primitives passed in are not altered.",
     ["schedules", "inputs", "configurations"],
     "every outcome of the random choices and every set of primitives, restrictions and probabilities",
     "No test uses restricted qubit lists or probabilities with the compiler, or looks at which gates and qubits the result uses.",
     ["stoqcompiler/compiler/compiler.py", U + "unitary_primitive.py", U + "parameterized_unitary.py"],
     [("random entry creation", "stoqcompiler/compiler/compiler.py create_random_sequence_entry"), ("allowed qubit lists", U + "unitary_primitive.py")],
     ["CompilerResult.compiled_sequence.get_sequence_entries()"])

prop("C13", "Compilation follows the documented annealed Metropolis search",
     "At each step the proposal is an append with the configured append probability and otherwise a removal, either end being equally likely, and an appended gate follows the configured primitive probabilities (uniform when none), uniform qubit choice and uniform parameters. A proposal that does not raise the cost is always accepted, and one that raises it by d is accepted with probability exp(-b d), where b is the annealing rate times the step number since the start of that compilation (capped). Plain and layered compilation obey the same law, a layer being proposed or removed as a unit.",
     ["schedules", "configurations"],
     "the exact probability of every outcome, for every configuration and every number of steps",
     "Acceptance and proposal probabilities cannot be seen in single random runs; every existing test passes with a greedy search or a biased proposal.",
     ["stoqcompiler/compiler/compiler.py", "stoqcompiler/compiler/compiler_action.py"],
     [("action choice", "stoqcompiler/compiler/compiler.py _make_random_change, _make_random_change_layered"), ("acceptance rule and annealing", "stoqcompiler/compiler/compiler.py _accept_proposed_change, _compile")],
     ["Compiler.compile()", "Compiler.compile_layered()"],
     [("beta", "annealing parameter", "stoqcompiler/compiler/compiler.py")])

prop("C14", "A compiler can be reused: every compilation starts afresh",
     "A compilation depends only on the compiler's configuration, its own arguments and the random numbers it draws: repeating it on a compiler that has already compiled other targets, with any mix of plain and layered compilations, thresholds and step limits, behaves exactly as on a newly built compiler. Earlier results are not changed by later compilations.",
     ["histories", "schedules"],
     "every history of earlier compilations on the same object and every random path of the last one",
     "Each test compiles once per compiler object.",
     ["stoqcompiler/compiler/compiler.py"],
     [("per-compilation state", "stoqcompiler/compiler/compiler.py compile, compile_layered")],
     ["Compiler.compile()", "Compiler.compile_layered()"],
     [("beta", "annealing parameter kept on the object", "stoqcompiler/compiler/compiler.py")])

prop("C15", "Layered compilation only ever returns whole layers",
     "A layered compilation returns a sequence that is a concatenation of whole layers, each containing exactly the configured number of each primitive, on every random path and after any pattern of accepted and rejected layer appends and removals. One cost is reported per step, each being the distance of the sequence held after that step; a rejected step restores the sequence exactly, and a step adds or removes at most one whole layer at one end. It stops exactly when the threshold is met or the step limit is reached.",
     ["schedules", "inputs", "configurations"],
     "every outcome of the random choices, every layer composition, target, threshold and step limit",
     "test_layered_rav checks one random path and only that the length is a multiple of the layer length.",
     ["stoqcompiler/compiler/compiler.py", U + "unitary_sequence.py"],
     [("layer append/remove recording only the first edit", "stoqcompiler/compiler/compiler.py _make_random_change_layered"), ("layered loop", "stoqcompiler/compiler/compiler.py _compile_layered")],
     ["Compiler.compile_layered()"])

prop("C16", "Random entries and layers are drawn from exactly the documented distribution",
     "A random entry uses each primitive with its given probability (uniform when none are given; primitives that allow no qubits are left out and the others' probabilities rescaled), each allowed qubit list of that primitive - or each ordered choice of distinct system qubits when unrestricted - with equal probability, and parameter values spread uniformly over their ranges. A random layer contains exactly the requested number of each primitive, every order being equally likely.",
     ["schedules", "configurations"],
     "the exact probability of every outcome, for every set of primitives, probabilities, restrictions and counts",
     "No test calls the random entry or layer generator directly, and single draws cannot reveal a bias or a missing outcome.",
     ["stoqcompiler/compiler/compiler.py", U + "unitary_primitive.py", U + "parameterized_unitary_parameter.py"],
     [("entry generator", "stoqcompiler/compiler/compiler.py create_random_sequence_entry"), ("layer generator", "stoqcompiler/compiler/compiler.py create_random_layer")],
     ["Compiler.create_random_sequence_entry()", "Compiler.create_random_layer()"])

prop("C17", "A RAV sequence is a random prefix followed by its compiled inverse",
     "A generated randomized-analog-verification sequence begins with exactly the requested number of random entries and continues with a compilation of the inverse of their product, all from the permitted primitives, so that unless the step limit was exhausted the whole sequence is the identity within the threshold. The reported costs are those of the inverse compilation and the last one is the distance of the whole sequence from the identity. A zero threshold or zero step limit returns the random entries alone with no costs; a threshold of none means exact; thresholds outside 0 to 1, negative lengths and oversized primitives are refused.",
     ["schedules", "inputs", "configurations"],
     "every outcome of the random choices, every length, threshold, step limit, append probability and primitive probabilities",
     "test_rav checks one random path for closeness only, and test_rav_no_inverse only the length.",
     ["stoqcompiler/verification/verification.py", "stoqcompiler/compiler/compiler.py", U + "unitary_sequence.py"],
     [("random prefix, inverse target, combine", "stoqcompiler/verification/verification.py generate_rav_sequence")],
     ["Verification.generate_rav_sequence()"])

prop("C18", "Layered RAV and XEB sequences have exactly the requested layer structure",
     "A layered verification sequence begins with exactly the requested number of random layers, each holding exactly the requested count of each primitive, followed by a layered compilation of the inverse of their product, so that unless the step limit was exhausted the whole is the identity within the threshold and consists of whole layers. A cross-entropy benchmarking sequence is exactly the requested number of random layers and nothing else, with no costs. The last reported cost is the distance of the whole sequence from the identity.",
     ["schedules", "inputs", "configurations"],
     "every outcome of the random choices, every layer composition and count, threshold and step limit",
     "test_layered_rav and test_xeb check one path each for total length and closeness; the composition of the layers is not looked at.",
     ["stoqcompiler/verification/verification.py", "stoqcompiler/compiler/compiler.py"],
     [("layered prefix, inverse target, combine", "stoqcompiler/verification/verification.py generate_layered_rav_sequence"), ("XEB", "stoqcompiler/verification/verification.py generate_xeb_sequence")],
     ["Verification.generate_layered_rav_sequence()", "Verification.generate_xeb_sequence()"])

prop("C19", "Hamiltonian time evolution is exact and composes in time",
     "A Hamiltonian term splits its matrix into a positive real coefficient and a matrix of unit largest singular value whose product is the original matrix. A Hamiltonian's time-evolution operator for time t is exp(i H t) with H the sum of its terms, whatever their number, order or repetition, so that evolutions compose additively in time, zero time is the identity and negative time the inverse. The ideal sequence for a number of steps consists of exactly that many equal full-system entries whose product is the evolution for the whole time.",
     ["inputs"],
     "every list of Hermitian terms, every time (negative and zero included) and every number of steps",
     "Tests use one or two fixed term lists and positive times; sign and order of the exponent cannot be seen because everything is compared with itself.",
     ["stoqcompiler/hamiltonian/hamiltonian.py", "stoqcompiler/hamiltonian/hamiltonian_term.py", U + "unitary_definitions.py"],
     [("normalisation by singular value", "stoqcompiler/hamiltonian/hamiltonian_term.py __init__"), ("sum and exponentiate", "stoqcompiler/hamiltonian/hamiltonian.py get_time_evolution_operator, get_ideal_sequence")],
     ["Hamiltonian.get_time_evolution_operator()", "Hamiltonian.get_ideal_sequence()", "HamiltonianTerm.get_matrix()"])

prop("C20", "Trotter sequences apply every term exactly once per step",
     "A Trotter sequence with N steps for time t consists of N consecutive blocks, each applying every Hamiltonian term exactly once, in term order, as its evolution for time t/N. With randomised order each block is an independent, uniformly distributed permutation of the terms. The sequence acts on the full system and each entry is labelled with its term and time.",
     ["inputs", "schedules"],
     "every term list, time, number of steps, and every outcome of the random ordering",
     "Tests check length and 95% closeness, which a sequence with skipped, repeated or half-randomised terms can still meet.",
     ["stoqcompiler/hamiltonian/hamiltonian.py"],
     [("per-step loop over (shuffled) terms", "stoqcompiler/hamiltonian/hamiltonian.py get_trotter_sequence")],
     ["Hamiltonian.get_trotter_sequence()"])

prop("C21", "QDRIFT samples normalised terms with probability equal to their weight",
     "A QDRIFT sequence with N repetitions for time t has exactly N entries, each the evolution for time L t/N of the normalised form of one term, where L is the sum of the term coefficients. Each entry's term is drawn independently with probability equal to its coefficient divided by L, so that the average generator is the Hamiltonian. Each entry is labelled with its term.",
     ["inputs", "schedules"],
     "every term list (negative, complex, repeated terms included), time and number of repetitions, and the exact probability of every outcome",
     "Tests check length and closeness of one random sequence with one dominant term.",
     ["stoqcompiler/hamiltonian/hamiltonian.py", "stoqcompiler/hamiltonian/hamiltonian_term.py"],
     [("weighted sampling and scaled time", "stoqcompiler/hamiltonian/hamiltonian.py get_qdrift_sequence")],
     ["Hamiltonian.get_qdrift_sequence()"])

prop("C22", "Hamiltonian compilation uses only bounded evolutions of its own terms",
     "Compiling a Hamiltonian's time evolution returns a sequence in which every entry is the full-system evolution of a single term - or, when simultaneous terms are allowed, of the sum of any non-empty subset of distinct terms - for a time between minus and plus the maximum step time, every such choice being equally likely. The sequence reaches overlap with exp(iHt) at least the threshold, unless the built-in step limit is exhausted, and each reported cost is the distance of the sequence then held.",
     ["schedules", "inputs", "configurations"],
     "every outcome of the random choices, every term list, time, step bound and threshold",
     "test_stoq checks the closeness of one random result per mode; the entries' terms, subsets and times are not inspected.",
     ["stoqcompiler/hamiltonian/hamiltonian.py", "stoqcompiler/compiler/compiler.py"],
     [("primitives from term subsets", "stoqcompiler/hamiltonian/hamiltonian.py _get_unitary_primitives, _get_term_subsets"), ("compile", "stoqcompiler/hamiltonian/hamiltonian.py compile_stoq_sequence")],
     ["Hamiltonian.compile_stoq_sequence()"])

prop("C23", "Hamiltonian RAV evolves randomly for the asked time, then returns",
     "A Hamiltonian verification sequence begins with random single steps (term evolutions within the maximum step time, forward with probability 0.8 and backward otherwise) drawn until their absolute times first add up to at least the requested time and no further. It continues with a compilation of the inverse, so that unless the built-in step limit is exhausted the whole sequence is the identity within the threshold, and the last reported cost is the distance of the whole sequence from the identity. It always ends: a positive time with no positive step time is refused.",
     ["schedules", "inputs", "configurations"],
     "every outcome of the random choices, every term list, time, step bound and threshold",
     "test_rav checks the closeness of one random result.",
     ["stoqcompiler/hamiltonian/hamiltonian.py", U + "unitary_sequence.py"],
     [("random forward/backward walk", "stoqcompiler/hamiltonian/hamiltonian.py compile_rav_sequence"), ("combine", U + "unitary_sequence.py combine")],
     ["Hamiltonian.compile_rav_sequence()"])

prop("C24", "Exported text describes the sequence faithfully, line by line",
     "The QASM-like, JAQAL-like and display outputs of a sequence consist of a heading and one line per entry in sequence order, each giving the operation's name, the qubits in the order they are applied to, and every parameter in order - angles as multiples of pi in QASM and display, plain numbers in JAQAL - rounded to seven decimals (three for angles and four for other values in display). Reading a QASM or JAQAL program of named gates back therefore gives the sequence's product up to that rounding, and an inverted operation is distinguishable from the original.",
     ["inputs", "histories"],
     "every sequence of named gates on every qubit list, every parameter value, every way the sequence was produced (compiled, inverted, combined)",
     "Tests check that the outputs are non-empty, plus one parameterless one-qubit line.",
     [U + "unitary.py", U + "unitary_sequence.py", U + "unitary_sequence_entry.py"],
     [("formatters", U + "unitary.py get_qasm, get_jaqal, get_display_name"), ("per-entry lines", U + "unitary_sequence.py get_qasm, get_jaqal, get_display_output"), ("name/parameters/qubits carried to the full-system unitary", U + "unitary_sequence_entry.py get_full_unitary")],
     ["UnitarySequence.get_qasm()", "UnitarySequence.get_jaqal()", "UnitarySequence.get_display_output()", "Unitary.get_display_name()"])

prop("C25", "Results depend only on arguments and random state, not on earlier calls",
     "With the Python and numpy random generators in a given state, every library call gives the same result whatever library calls were made before it in the process, in whatever order, on whatever other objects. The library never reseeds or replaces the global generators, and calls documented without randomness do not advance them.",
     ["histories"],
     "every history of earlier API calls, every call and every generator state",
     "Each test runs a few calls from a fresh seed and compares with fixed expectations; no test repeats a call after different histories.",
     [U + "unitary.py", U + "unitary_sequence.py", U + "unitary_sequence_entry.py", "stoqcompiler/compiler/compiler.py", "stoqcompiler/hamiltonian/hamiltonian.py", "stoqcompiler/verification/verification.py"],
     [("no module-level mutable state; per-object caches only", "whole package")],
     ["all public calls"])

prop("C26", "Malformed input is refused and leaves existing objects untouched",
     "Non-square, wrongly sized or non-unitary matrices, non-Hermitian Hamiltonian terms, repeated, negative or wrongly many qubits, qubits outside the system, mismatched dimensions, inverted parameter ranges and missing targets, primitives or terms are refused with an error at the call that introduces them; every well-formed input is accepted. A refused call leaves every existing object - in particular the sequence it was made on, its product and its undo record - exactly as it was.",
     ["inputs", "histories"],
     "every malformed or well-formed argument at every public entry point, in every state of the receiving object",
     "Tests try about ten malformed constructor calls and never look at the receiving object afterwards.",
     [U + "unitary.py", U + "unitary_sequence.py", U + "unitary_sequence_entry.py", U + "unitary_primitive.py", "stoqcompiler/hamiltonian/hamiltonian.py", "stoqcompiler/hamiltonian/hamiltonian_term.py", "stoqcompiler/compiler/compiler.py", "stoqcompiler/verification/verification.py"],
     [("argument assertions before any state change", "constructors; unitary_sequence.py _assert_is_entry_valid")],
     ["exceptions raised", "state after a refused call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
