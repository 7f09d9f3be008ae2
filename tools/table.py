TECH = "TLA+ specification; TLC-generated programs with exact expected results replayed into the implementation"
TRUST = (" Trusts TLC, the specification's own definitions (checked by exhaustive meta-invariants) and the replay "
         "adapter; bounded sampling, not a proof over all inputs.")
ROWS = [
P("P01", "Gate programs have their exact quantum meaning",
  "For every circuit made of the documented gates (any angles, any number of controls, any control state, any register size the simulator accepts), the statevector, the unitary, the exact outcome distribution and the sampled outcomes reported by Qrisp are those of the product of the gates' textbook matrices, including relative phases. The same holds whether the program is written with circuit methods or with gate functions on quantum variables.",
  ["programs", "inputs"], "all gate programs over all gate kinds, control patterns, angles and register sizes",
  "Tests run a few dozen fixed circuits; the interplay of gate grouping, sparse/dense kernels, control synthesis and compile-time optimisation is only exercised by arbitrary programs.",
  ["simulator/simulator.py", "simulator/circuit_preprocessing.py", "simulator/quantum_state.py", "simulator/bi_arrays.py", "circuit/operation.py", "circuit/controlled_operations.py", "circuit/standard_operations.py", "core/gate_application_functions.py"],
  [("statevector_sim / run", "simulator/simulator.py"), ("U3Gate, PTControlledOperation, ControlledOperation", "circuit/operation.py")],
  observe=["QuantumCircuit.statevector_array", "QuantumCircuit.get_unitary", "QuantumCircuit.run", "QuantumSession.statevector", "QuantumVariable.get_measurement"],
  technique=TECH, note="Random programs up to 28 qubits from GateProg.tla, exact amplitudes in Z[w8][1/sqrt2,1/5]; semantics meta-checked exhaustively on small programs." + TRUST),
P("P02", "Mid-circuit measurement, reset and classical control are exact",
  "For every circuit that interleaves gates with measurements, resets and operations conditioned on classical bits, the exact distribution over the classical bits equals the one obtained by following all measurement branches, and bits are reported at the position of their classical bit. Sampling with a shot number returns exactly that many shots, all on outcomes of non-zero probability.",
  ["programs", "histories"], "all interleavings of gates, measure, reset and classically controlled gates",
  "A handful of tests measure mid-circuit; branch bookkeeping depends on the whole history.",
  ["simulator/simulator.py", "simulator/quantum_state.py", "simulator/circuit_preprocessing.py", "circuit/operation.py", "circuit/quantum_circuit.py"],
  [("run: branching on measurement", "simulator/simulator.py"), ("ClControlledOperation", "circuit/operation.py")],
  observe=["QuantumCircuit.run"], technique=TECH,
  note="MeasProg.tla keeps the ensemble of unnormalised branches; the emitted outcome distribution is compared with run()." + TRUST),
P("P03", "Circuit transformations preserve meaning",
  "Copying, extending, composing, wrapping as a gate, inverting, controlling (any control number and control state), transpiling to any depth and binding symbolic parameters of a circuit give a circuit or operation whose unitary is the one derived from the original by the corresponding mathematical operation. The original circuit is left unchanged.",
  ["programs"], "all circuits and all finite sequences of transformations",
  "Tests apply single transformations to single circuits; nested wrappers and combinations are unbounded.",
  ["circuit/quantum_circuit.py", "circuit/operation.py", "circuit/controlled_operations.py", "circuit/instruction.py"],
  [("QuantumCircuit.inverse/control/to_gate/compose/extend/bind_parameters", "circuit/quantum_circuit.py"), ("Operation.inverse/control/bind_parameters", "circuit/operation.py")],
  observe=["QuantumCircuit.get_unitary", "QuantumCircuit.statevector_array"], technique=TECH,
  note="TransProg.tla builds circuit values as trees of transformations and denotes them as gate sequences." + TRUST),
P("P04", "Compiler passes never change what a circuit computes",
  "Every circuit pass, alone or in any pipeline, returns a circuit with the same effect as its input: same unitary up to a global phase, same outcome distribution for the same classical bits, for passes that keep the qubit order. A pass that promises a restricted gate set delivers one, and the input circuit is not modified.",
  ["programs", "configurations"], "all circuits, all sequences of passes",
  "Pass tests use small hand-made circuits designed for each pass; fusions and cancellations are triggered by gate neighbourhoods that tests never contain.",
  ["circuit/pass_management/pass_manager.py", "circuit/pass_management/passes/fuse_adjacents.py", "circuit/pass_management/passes/combine_single_qubit_gates.py", "circuit/pass_management/passes/convert_to_cx.py", "circuit/pass_management/passes/convert_to_cz.py", "circuit/pass_management/passes/decompose.py"],
  [("PassManager.run", "circuit/pass_management/pass_manager.py"), ("fuse_adjacents", "circuit/pass_management/passes/fuse_adjacents.py")],
  observe=["QuantumCircuit.get_unitary", "QuantumCircuit.run", "QuantumCircuit.count_ops"], technique=TECH,
  note="PassProg.tla generates neighbourhood-rich circuits and pass pipelines with the exact state before and after." + TRUST),
P("P05", "Export and import keep the circuit",
  "Converting a circuit to OpenQASM, Qiskit, Cirq, PennyLane, pytket or Stim (where the gate set allows it) yields a program in the target that prepares the same state up to global phase and measures the same classical bits; importing it back gives an equivalent circuit.",
  ["programs"], "all circuits over the exportable gate set, including controlled gates with control states, nested gates and measurements",
  "Converter tests check a handful of circuits per target.",
  ["interface/converter/qiskit_converter.py", "interface/converter/cirq_converter.py", "interface/converter/pennylane_converter.py", "interface/converter/pytket_converter.py", "interface/converter/stim_converter.py", "circuit/quantum_circuit.py"],
  [("to_qiskit/from_qiskit/to_qasm2/to_cirq/to_stim", "circuit/quantum_circuit.py")],
  observe=["converted circuit's own simulator"], technique=TECH,
  note="GateProg.tla programs with exact states; each target's own simulator or unitary is the observer." + TRUST),
P("P06", "Quantum environments compose like their definitions",
  "Code inside nested control, inversion, conjugation, condition, gate-wrapping and custom environments acts exactly as the flattened program: controlled blocks act only where all enclosing controls hold in their control state, inverted blocks run reversed and adjointed, conjugated blocks are surrounded by the conjugator and its inverse. This holds for any nesting depth and order, for variables that exist when the environment is entered or that interact with it inside, and code after the block is not affected.",
  ["programs"], "all nestings of environments around all gate programs",
  "Tests nest two or three environments in fixed ways; the compile rules of an environment depend on what is around and inside it.",
  ["environments/quantum_environments.py", "environments/control_environment.py", "environments/quantum_inversion.py", "environments/conjugation_environment.py", "environments/quantum_conditionals.py", "environments/gate_wrap_environment.py", "environments/custom_control_environment.py"],
  [("QuantumEnvironment.compile", "environments/quantum_environments.py"), ("ControlEnvironment.compile", "environments/control_environment.py")],
  observe=["QuantumSession.statevector"], technique=TECH,
  note="EnvProg.tla: program trees with an open-frame stack as state, flattened by the denotation; statevector compared after the session is compiled." + TRUST),
P("P07", "Uncomputation is exact or refused",
  "When a quantum variable is uncomputed (by call, by the automatic decorator or by recomputation), it ends in the zero state and the joint state of all remaining variables is exactly what it was; a variable that cannot be uncomputed without changing the remaining state is refused with an error instead of being silently corrupted. Variables whose bits were each computed by (multi-)controlled NOT gates from values that are kept can always be uncomputed.",
  ["programs", "histories"], "all programs that compute temporaries and all choices of what is uncomputed when",
  "The dependency analysis runs over a permeability DAG of the whole program; tests cover a few shapes.",
  ["permeability/qc_transformations/unqomp.py", "permeability/uncomputation.py", "permeability/permeability_dag.py", "core/quantum_variable.py"],
  [("uncompute", "permeability/uncomputation.py"), ("permeability DAG", "permeability/permeability_dag.py")],
  observe=["QuantumVariable.uncompute", "auto_uncompute", "QuantumSession.statevector"], technique=TECH,
  note="UncompProg.tla: the oracle is the projection of the un-uncomputed state on the zero state of the temporaries; refusal is allowed except on classes proved uncomputable." + TRUST),
P("P08", "Compilation and session merging keep every live variable's state",
  "Quantum variables created separately and entangled later, deleted and re-used, in any order, behave as one global register: the joint state of all live variables after compilation equals the state of the uncompiled program for every combination of compile options. Qubits handed out again after a deletion are in the zero state, and deleting with verification detects a variable that is not.",
  ["histories", "configurations"], "all creation, entangling, deletion histories and all compile options",
  "Allocation reuse, ancilla borrowing and light-cone reduction depend on global program order; tests only look at qubit counts and a few outputs.",
  ["core/compilation.py", "core/quantum_session.py", "core/session_merging_tools.py", "core/quantum_variable.py", "permeability/qc_transformations/allocation_optimization.py"],
  [("qompiler", "core/compilation.py"), ("merge_sessions", "core/session_merging_tools.py")],
  observe=["QuantumSession.compile", "QuantumSession.statevector", "QuantumVariable.get_measurement"], technique=TECH,
  note="SessProg.tla: variable lifecycle state machine with allocate/merge/gate/delete steps and the exact joint state." + TRUST),
P("P09", "Every multi-controlled gate method implements the same gate",
  "For every synthesis method offered for multi-controlled X, Z and phase gates, every number of controls and every control state, the gate flips (or phases) exactly the selected basis states, leaves all others and all helper qubits unchanged, and adds no stray phase unless the method is documented as phase tolerant (then its inverse undoes it).",
  ["configurations", "inputs"], "all methods, control counts, control states, helper counts and superposition inputs",
  "Tests check few control counts with the default control state and mostly basis inputs.",
  ["core/gate_application_functions.py", "alg_primitives/mcx_algs/balauca.py", "alg_primitives/mcx_algs/maslov.py", "alg_primitives/mcx_algs/yong.py", "alg_primitives/mcx_algs/khattar.py", "alg_primitives/mcx_algs/gidney.py", "alg_primitives/mcx_algs/jones.py", "alg_primitives/mcx_algs/amy.py", "alg_primitives/mcx_algs/gray.py"],
  [("mcx / mcz / mcp", "core/gate_application_functions.py")],
  observe=["QuantumSession.statevector", "QuantumVariable.get_measurement"], technique=TECH,
  note="CtrlProg.tla enumerates methods x control counts x control states inside gate programs with exact states." + TRUST),
P("P10", "Quantum number arithmetic equals integer arithmetic in superposition",
  "Addition, subtraction, multiplication, squaring, negation, shifting, division and in-place forms on quantum floats (signed or unsigned, any exponent, mixed sizes, quantum or classical operands) give, for every branch of a superposition, the mathematically correct value in the documented result format; operands keep their values and branches keep their phases.",
  ["inputs", "configurations"], "all operand values, sizes, exponents, signs and operator combinations",
  "Tests cover a few sizes with basis inputs; most value/sign/exponent combinations are untouched and superposition phases are rarely checked.",
  ["qtypes/quantum_float.py", "alg_primitives/arithmetic/SBP_arithmetic.py", "alg_primitives/arithmetic/ripple_mult.py", "alg_primitives/arithmetic/ripple_division.py", "alg_primitives/arithmetic/arithmetic_tools.py"],
  [("QuantumFloat operators", "qtypes/quantum_float.py"), ("sbp_add, sbp_mult, polynomial encoders", "alg_primitives/arithmetic/SBP_arithmetic.py")],
  observe=["multi_measurement", "QuantumSession.statevector"], technique=TECH,
  note="ArithProg.tla evaluates expressions over formats (mantissa, exponent, sign); the full superposed graph is compared." + TRUST),
P("P11", "Every adder adds modulo the register size",
  "Each in-place adder (Fourier, Cuccaro, Gidney, venting, carry look-ahead, Thapliyal, Remaud and incrementers), with quantum or classical addend, with or without control and carry-in/out, maps the target to target plus addend modulo its size on every branch, leaves addend, control and helper qubits unchanged and introduces no phase; inverted it subtracts.",
  ["inputs", "configurations"], "all register sizes, operand values, control states and adders",
  "Adder tests are slow and mostly excluded or cover few sizes; unequal sizes, wrap-around and controls are sparse.",
  ["alg_primitives/arithmetic/adders/cuccaro_adder.py", "alg_primitives/arithmetic/adders/gidney_adder.py", "alg_primitives/arithmetic/adders/fourier_adder.py", "alg_primitives/arithmetic/qcla_adder.py", "alg_primitives/arithmetic/adders/thapliyal_adder.py", "alg_primitives/arithmetic/adders/remaud.py", "alg_primitives/arithmetic/adders/incrementation.py", "alg_primitives/arithmetic/adders/gidney_venting_adder.py"],
  [("adders", "alg_primitives/arithmetic/adders")],
  observe=["QuantumSession.statevector"], technique=TECH,
  note="AdderProg.tla: histories of in-place additions over several registers with exact superposed value tables." + TRUST),
P("P12", "Modular arithmetic is arithmetic modulo N",
  "Quantum modulus variables added, subtracted, multiplied (in place or out of place, with classical or quantum operands) and compared take the value computed modulo their modulus on every branch of a superposition, stay reduced, and leave helper qubits clean.",
  ["inputs", "configurations"], "all moduli, operand values, inversion/Montgomery representations and operation histories",
  "Modular tests are slow and excluded or use a few fixed values.",
  ["qtypes/quantum_modulus.py", "alg_primitives/arithmetic/modular_arithmetic"],
  [("QuantumModulus operators", "qtypes/quantum_modulus.py")],
  observe=["multi_measurement"], technique=TECH,
  note="ModProg.tla: histories of operations modulo N evaluated over all branches." + TRUST),
P("P13", "Encoding, initialisation and measurement are inverse to each other",
  "For every quantum type (float, integer, bool, modulus, char, string, array and user-defined types) each value written is the value measured; writing a superposition of values reproduces the requested amplitudes including phases; decoder and encoder invert each other on the whole label set; and measurement results are normalised, ordered by probability and labelled consistently for one or several variables.",
  ["inputs", "configurations"], "all types, sizes, values and superpositions",
  "Tests write single values of typical types.",
  ["core/quantum_variable.py", "qtypes/quantum_float.py", "qtypes/quantum_bool.py", "qtypes/quantum_char.py", "qtypes/quantum_string.py", "qtypes/quantum_modulus.py", "misc/utility.py", "alg_primitives/state_preparation"],
  [("encode / init_state / get_measurement", "core/quantum_variable.py"), ("multi_measurement", "misc/utility.py")],
  observe=["QuantumVariable.get_measurement", "multi_measurement", "QuantumSession.statevector"], technique=TECH,
  note="TypeProg.tla defines the label set and code of every type." + TRUST),
P("P14", "Comparisons and boolean logic give exact truth values",
  "Equality and order comparisons between quantum numbers and quantum or classical numbers (any signs, sizes and exponents) and boolean expressions over quantum bools return a quantum bool that is true exactly on the branches where the relation holds, with operands and phases unchanged; used as a condition they act exactly on those branches and leave no residue.",
  ["inputs", "programs"], "all relations, formats, values and boolean expressions",
  "Tests use few formats; mixed exponents and signs are hardly touched.",
  ["qtypes/quantum_float.py", "qtypes/quantum_bool.py", "alg_primitives/arithmetic/comparisons.py", "alg_primitives/arithmetic/uint_clifford_t_comparisons.py", "environments/quantum_conditionals.py"],
  [("comparison operators", "qtypes/quantum_float.py"), ("ConditionEnvironment", "environments/quantum_conditionals.py")],
  observe=["multi_measurement", "QuantumSession.statevector"], technique=TECH,
  note="CmpProg.tla compares values over a common exponent and evaluates boolean expression trees." + TRUST),
P("P15", "Quantum arrays behave like arrays",
  "Creating, slicing, reshaping, transposing, concatenating, swapping, writing, copying and measuring quantum arrays, and indexing them with quantum integers, addresses the same elements as the same operations on a classical array, on every branch; views share their elements with the original.",
  ["programs", "inputs"], "all shapes, view chains, index expressions and element types",
  "Tests run single operations on fixed shapes.",
  ["core/quantum_array.py", "alg_primitives/iterable_processing.py"],
  [("QuantumArray", "core/quantum_array.py")],
  observe=["QuantumArray.get_measurement", "QuantumArray.most_likely"], technique=TECH,
  note="ArrayProg.tla models arrays as index maps over cells; chains of view operations and writes are replayed." + TRUST),
P("P16", "Truth tables and quantum dictionaries are loaded exactly",
  "Evaluating a classical function or a lookup table on a quantum input (dictionary lookup, truth-table synthesis by any method, controlled or inverted) yields on every branch the table entry for that input, with the input unchanged and no relative phase.",
  ["inputs", "configurations"], "all tables, key and value types, synthesis methods",
  "Tests use a few tables.",
  ["core/quantum_dictionary.py", "alg_primitives/logic_synthesis/truth_tables.py", "alg_primitives/logic_synthesis/gray_synthesis.py", "alg_primitives/logic_synthesis/pprm_synthesis.py"],
  [("QuantumDictionary.load", "core/quantum_dictionary.py"), ("TruthTable.q_synth", "alg_primitives/logic_synthesis/truth_tables.py")],
  observe=["multi_measurement", "QuantumSession.statevector"], technique=TECH,
  note="TableProg.tla generates tables and superposed keys." + TRUST),
P("P17", "Traced programs compute what the interpreted program computes",
  "A Qrisp function run through the tracing pipeline (simulated execution, terminal sampling, circuit extraction, boolean simulation) yields the same quantum state, measurement results and classical return values as the same function run eagerly, for gates, environments, subroutines, arithmetic and loops over static or dynamic bounds.",
  ["programs", "inputs"], "all programs in the common language of both modes",
  "Tests compare single functions; the tracing interpreters re-implement every construct.",
  ["jasp/evaluation_tools/jaspification.py", "jasp/evaluation_tools/terminal_sampling.py", "jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py", "jasp/interpreter_tools/interpreters/control_flow_interpretation.py", "jasp/evaluation_tools/boolean_simulation.py", "jasp/jasp_expression/centerclass.py"],
  [("make_jaspr / jaspify / terminal_sampling / boolean_simulation", "jasp")],
  observe=["jaspify", "terminal_sampling", "Jaspr.to_qc", "boolean_simulation"], technique=TECH,
  note="JaspProg.tla: structured programs (gates, control, inversion, conjugation, dynamic loops, subroutines) with exact results." + TRUST),
P("P18", "Real-time classical control follows the measured values",
  "In traced programs, classical branches, loops and computations that depend on measurement results act exactly as the measured values dictate: in every run the returned classical data and the remaining quantum state are one of the outcomes allowed by the program's branching semantics, with the right probabilities for deterministic branches.",
  ["programs", "histories"], "all programs mixing measurement, classical computation and quantum gates",
  "Tests assert on a few deterministic feedback programs.",
  ["jasp/program_control/prefix_control.py", "jasp/program_control/jrange_iterator.py", "environments/classical_control_environment.py", "jasp/interpreter_tools/interpreters/control_flow_interpretation.py"],
  [("q_cond / q_while_loop / q_fori_loop", "jasp/program_control/prefix_control.py")],
  observe=["jaspify"], technique=TECH,
  note="FeedProg.tla explores all measurement branches; recorded runs must be accepted by the specification." + TRUST),
P("P19", "Resource estimates count what the program executes",
  "Gate counts, depth and qubit counts reported by the profilers for a traced program equal those of the circuit that the same program with the same arguments extracts to, gate by gate, including controlled, inverted and looped code and classically controlled code driven by the stated measurement behaviour.",
  ["programs", "inputs"], "all programs and arguments",
  "Profilers interpret the program symbolically through a separate path; tests compare a few functions.",
  ["jasp/evaluation_tools/profiler.py", "jasp/interpreter_tools/interpreters/profiling_interpreter.py", "jasp/interpreter_tools/interpreters"],
  [("count_ops / depth / num_qubits", "jasp/evaluation_tools/profiler.py")],
  observe=["count_ops", "depth", "num_qubits"], technique=TECH,
  note="JaspProg.tla additionally counts executed gates and computes the depth of the flattened program." + TRUST),
P("P20", "Backends and batched execution keep the result contract",
  "Running circuits through a backend, a batched backend or jobs returns one result per circuit in submission order with the requested shots, never before it is available; queued work is executed exactly once by the next dispatch (or discarded by clear), errors reach every affected result and only those, and options change only by their documented update rule.",
  ["histories", "fault_sequences"], "all interleavings of run, dispatch, clear, option updates, failures and result reads",
  "Tests exercise short happy paths and single failures.",
  ["interface/backend.py", "interface/batched_backend.py", "interface/job.py", "interface/measurement_result.py", "interface/virtual_backend.py", "interface/simulators/qrisp_simulator_backend.py"],
  [("BatchedBackend.run/dispatch/clear", "interface/batched_backend.py"), ("Job status machine", "interface/job.py"), ("MeasurementResult lazy population", "interface/measurement_result.py")],
  state=[("queue", "circuits waiting for dispatch", "interface/batched_backend.py"), ("populated/error", "state of a lazy result", "interface/measurement_result.py")],
  observe=["BatchedBackend", "Backend.run", "Job.result", "MeasurementResult"], technique="TLA+ state machine explored exhaustively; TLC behaviours with faults replayed step by step",
  note="Backend.tla is explored exhaustively for its invariants; its simulated behaviours are replayed call by call with injected backend failures." + TRUST),
P("P21", "Qubit operator algebra is exact matrix algebra",
  "Sums, products, scalar multiples, adjoints, powers, commutators, simplification and comparison of qubit operators (Pauli, ladder and projector factors) denote exactly the corresponding matrices, conversion to and from matrices or Pauli form is lossless, and commutation and grouping predicates agree with the matrices.",
  ["inputs", "programs"], "all operator expressions",
  "Tests check selected identities.",
  ["operators/qubit/qubit_operator.py", "operators/qubit/qubit_term.py", "operators/qubit/operator_factors.py", "operators/hamiltonian_tools.py"],
  [("QubitOperator, QubitTerm", "operators/qubit")],
  observe=["QubitOperator.to_sparse_matrix", "QubitOperator.to_array"], technique=TECH,
  note="OpAlg.tla evaluates expressions to exact Gaussian-rational matrices." + TRUST),
P("P22", "Fermionic operators obey the anticommutation algebra",
  "Expressions over creation and annihilation operators keep the canonical anticommutation relations under sums, products, adjoints, reordering and simplification, and their mapping to qubits denotes the same matrices on every number of modes; evolution under a fermionic operator is a product of the exact evolutions of its terms.",
  ["inputs", "programs"], "all fermionic expressions and mode sets",
  "Tests check selected molecules.",
  ["operators/fermionic/fermionic_operator.py", "operators/fermionic/fermionic_term.py", "operators/fermionic/transformations.py"],
  [("FermionicOperator, FermionicTerm, jordan_wigner", "operators/fermionic")],
  observe=["FermionicOperator.to_qubit_operator", "to_sparse_matrix"], technique=TECH,
  note="FermiAlg.tla acts on occupation states with explicit sign strings; FermiTrot.tla evolves exact states under ladder terms." + TRUST),
P("P23", "Measured expectation values equal the exact expectation value",
  "The expectation value an operator reports for a state prepared by a program equals the quadratic form of its matrix in that state, up to the requested precision, whatever grouping, diagonalisation and measurement method is used; single-term changes of basis diagonalise every term of a group.",
  ["inputs", "configurations"], "all operators, states and measurement settings",
  "The grouping/diagonalisation tests are slow and excluded from the regular suite.",
  ["operators/qubit/measurement.py", "operators/qubit/commutativity_tools.py", "operators/qubit/qubit_operator.py", "operators/qubit/jasp_measurement.py"],
  [("get_measurement / expectation_value", "operators/qubit/measurement.py"), ("change of basis", "operators/qubit/commutativity_tools.py")],
  observe=["QubitOperator.expectation_value"], technique=TECH,
  note="ExpVal.tla: exact states from gate programs, operators as matrices, expectation values as ring elements." + TRUST),
P("P24", "Hamiltonian simulation is exact for commuting terms and a product formula otherwise",
  "Simulating an operator whose terms commute for time t applies exp(-i t H) exactly (up to global phase) for any number of steps, including ladder and projector terms, controlled execution and negative times; diagonal and arbitrary single-term evolutions are exact. For non-commuting terms the evolution is the stated first or second order product formula over some order of the terms.",
  ["inputs", "programs"], "all commuting operator sets, times, step counts and input states",
  "Tests compare a few Hamiltonians against numerical exponentials.",
  ["operators/qubit/qubit_operator.py", "operators/qubit/qubit_term.py", "operators/fermionic/trotterization.py"],
  [("trotterization / simulate", "operators/qubit/qubit_term.py")],
  observe=["QuantumSession.statevector"], technique=TECH,
  note="TrotProg.tla evolves exact states with Pythagorean angles term by term." + TRUST),
P("P25", "Quantum subroutine library meets its specification",
  "State preparation, Fourier transform (with all options), phase estimation of exactly representable phases, reflections and amplitude amplification, Dicke and W states, quantum switch and iterable shifts, demultiplexing and permutation act exactly as documented on every input branch, and their inverses undo them.",
  ["inputs", "configurations"], "all inputs and options of the library routines",
  "Tests check one or two instances of each routine.",
  ["alg_primitives/qft.py", "alg_primitives/qpe.py", "alg_primitives/reflection.py", "alg_primitives/amplitude_amplification.py", "alg_primitives/dicke_state_prep.py", "alg_primitives/program_control/switch_case.py", "alg_primitives/iterable_processing.py", "alg_primitives/state_preparation"],
  [("QFT, QPE, prepare, qswitch, cyclic_shift, demux", "alg_primitives")],
  observe=["QuantumSession.statevector"], technique=TECH,
  note="PrimProg.tla specifies each routine's action on basis states exactly." + TRUST),
P("P26", "Block encodings encode their operator",
  "A block encoding built from an operator, a matrix, or a linear combination, and any sum, difference, product, scaling, tensor product, adjoint or polynomial of block encodings, applied to a state with successful post-selection, yields the state transformed by the corresponding matrix expression up to the documented normalisation.",
  ["inputs", "programs"], "all operators, states and encoding expressions",
  "Arithmetic tests of block encodings are slow and excluded from the regular suite.",
  ["block_encodings/block_encoding_base.py", "block_encodings/block_encoding.py", "block_encodings/constructors"],
  [("BlockEncoding", "block_encodings/block_encoding_base.py")],
  observe=["BlockEncoding.apply / apply_rus"], technique=TECH,
  note="BlockEnc.tla evaluates encoding expressions as exact matrices." + TRUST),
P("P27", "Parity and detector annotations reflect measured bits",
  "Parity, detector and observable annotations in traced or circuit programs return the exclusive-or of the referenced measurement results (compared with the stated expectation), and the exported stabiliser circuit has the same measurement record, detectors and observables for every measurement order.",
  ["programs", "histories"], "all Clifford programs with measurements and parity annotations",
  "Tests cover single codes.",
  ["jasp/evaluation_tools/stim_extraction.py", "interface/converter/stim_converter.py", "misc/stim_tools", "circuit/quantum_circuit.py"],
  [("to_stim / parity", "circuit/quantum_circuit.py"), ("extract_stim", "jasp/evaluation_tools/stim_extraction.py")],
  observe=["to_stim", "extract_stim"], technique=TECH,
  note="MeasProg.tla restricted to Clifford programs with parity annotations." + TRUST),
]
