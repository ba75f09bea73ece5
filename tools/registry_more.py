P("C06", "QASM text and circuits denote each other",
  "Reading a DITQASM program yields exactly the registers, dimensions, gates, parameters, targets, controls and levels it states, with comments "
  "ignored and unreadable or unknown statements refused; writing a circuit states exactly its gates; reading back what was written gives a circuit "
  "with the same registers and operators.",
  ["programs", "inputs"], "all circuits over the named gates, register splits, control sets and layouts of the text",
  "Tests read one or two fixed programs; the reader is a set of regular expressions per construct and the writer one formatter for all gates.",
  ["quantum_circuit/qasm.py", "quantum_circuit/circuit.py", "quantum_circuit/gate.py", "quantum_circuit/components/quantum_register.py"],
  [("reader", "quantum_circuit/qasm.py parse_ditqasm2_str"), ("gate construction", "quantum_circuit/circuit.py from_qasm"), ("writer", "quantum_circuit/gate.py __qasm__")],
  ["QuantumCircuit.from_qasm(text)", "QuantumCircuit.to_qasm()"],
  "TLA+ printer and loader state machine (Qasm.tla, RoundTrip/PrefixOK); its texts are read by the code and the code's text compared statement by statement", TRUST +
  " Known finding: a daggered gate is written as the plain gate.")

P("C07", "Saving to a file and loading restores the circuit",
  "Saving a circuit and loading the file gives a circuit with the same registers and the same operators, custom matrices included, from any working "
  "directory, and the circuit saved is left unchanged.",
  ["programs"], "all circuits, with any number of custom gates, and any target directory",
  "The tests save circuits without comparing custom matrices; the matrices travel in side files whose names must not collide.",
  ["quantum_circuit/circuit.py", "quantum_circuit/gate.py", "quantum_circuit/qasm.py"],
  [("save", "quantum_circuit/circuit.py save_to_file"), ("side files", "quantum_circuit/gate.py return_custom_data"), ("load", "quantum_circuit/circuit.py load_from_file")],
  ["circuit loaded by load_from_file()", "to_matrix of its gates"],
  "programs with exact custom matrices from TLC (Programs.tla), saved and reloaded, compared with the exact state", TRUST)

P("C08", "Circuit objects keep their books",
  "After every history of appending registers and gates, controlling, daggering, replacing, setting, resetting and copying, a circuit reports exactly the "
  "registers, line maps, dimensions, gates, gate count and mappings that history implies, refused operations change nothing, and copies are independent.",
  ["histories"], "all histories of circuit edits on up to two circuits related by copying",
  "Tests perform short fixed edits; counts, line maps and shared mutable state go wrong only along particular histories.",
  ["quantum_circuit/circuit.py", "quantum_circuit/gate.py", "quantum_circuit/components/quantum_register.py", "quantum_circuit/components/classic_register.py"],
  [("circuit edits", "quantum_circuit/circuit.py append/replace_gate/set_instructions/reset/copy"), ("controls", "quantum_circuit/gate.py control")],
  ["QuantumCircuit attributes and instructions"],
  "TLA+ state machine (CircuitBook.tla): exhaustive short histories and simulated long ones replayed step by step into the code",
  "TLC exhaustive to depth 2-3 over all edits, simulation to depth 12; invariants WellFormed, Isolated. Trusted: TLC, the projection of the objects.",
  state=[("registers and line maps", "which line every named qudit is", "quantum_circuit/circuit.py sitemap"), ("gate list", "the gates in order", "quantum_circuit/circuit.py instructions")])

DEV = ("TLC draws programs together with random devices (Device.tla: connected level graph, placement, start level per line; invariants DeviceOK, PlacedOK) "
       "and computes the exact placed unitary; the compiled gates are read back and multiplied")
P("C09", "O0 compilation realises the circuit on the device's levels",
  "For every circuit and every machine whose ions have as many levels as the circuit uses (connected level graph and placement of logical on physical levels per line), the O0 compilation, and the same passes "
  "run as a pipeline, yield a circuit whose operator is the original one carried to the placed levels, up to a global phase; the announced mappings are the "
  "machine's placement and the input circuit is untouched.",
  ["programs", "configurations"], "all circuits on all level graphs and placements",
  "Tests compile one circuit with two gates for one machine; routing, pulse signs and placements depend on the level graph.",
  ["compiler/dit_compiler.py", "compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py", "compiler/onedit/local_operation_swap/swap_routine.py",
   "compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py", "compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py", "core/level_graph.py"],
  [("pipeline", "compiler/dit_compiler.py compile_O0"), ("routing", "compiler/onedit/local_operation_swap/swap_routine.py route_states2rotate_basic"),
   ("entangling gates", "compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py transpile_gate")],
  ["operator of the compiled circuit", "mappings of the compiled circuit"], DEV,
  "Dimensions 2-6, up to 3 lines; circuits use the full dimension of each line. Compiled angles are compared at 2e-4. Trusted: TLC, refsem (pinned by C01).")

P("C10", "O1 compilation and local resynthesis keep the circuit",
  "Resynthesis of runs of single-qudit gates keeps the operator of every circuit exactly, keeps every multi-qudit gate, and leaves no two consecutive single-qudit gates on a "
  "line; the O1 compilation realises the circuit on the placed levels of every machine with as many levels per ion as the circuit uses.",
  ["programs", "configurations"], "all interleavings of local and entangling gates over all lines",
  "Tests merge one fixed three-line circuit; grouping by lines goes wrong only for particular interleavings, controls or repeated gates.",
  ["compiler/naive_local_resynth/local_resynth.py", "core/lanes.py", "compiler/dit_compiler.py"],
  [("lanes", "core/lanes.py create_lanes/extract_instructions"), ("merging", "compiler/naive_local_resynth/local_resynth.py transpile"), ("pipeline", "compiler/dit_compiler.py compile_O1")],
  ["operator of the transpiled circuit", "its gate sequence"], DEV, "Up to 4 lines for resynthesis, 3 for O1. " + TRUST)

P("C11", "O2 and adaptive compilation realise the circuit and say where its levels end",
  "For every circuit and machine with as many levels per ion, the O2 compilation and the adaptive pass in a pipeline yield a circuit that carries the machine's placement to the announced final "
  "mappings by the original operator, up to a global phase, including phases deferred from one gate to the next; the machine's own graphs are left as they were.",
  ["programs", "configurations", "histories"], "all circuits on all level graphs; moved levels and pending phases depend on the whole history of the line",
  "Tests decompose one gate on one graph; ordering of moves and the propagation of pending phases show only over sequences of gates.",
  ["compiler/dit_compiler.py", "compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py", "compiler/onedit/local_operation_swap/swap_routine.py", "core/dfs_tree.py", "core/level_graph.py"],
  [("pipeline", "compiler/dit_compiler.py compile_O2"), ("search", "compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py dfs"),
   ("pending phases", "compiler/onedit/local_operation_swap/swap_routine.py graph_rule_update/graph_rule_ongate")],
  ["operator of the compiled circuit", "mappings of the compiled circuit", "backend.energy_level_graphs"], DEV,
  "Dimensions 2-4 (the search is exponential). Compiled angles are compared at 2e-4. Trusted: TLC, refsem (pinned by C01).")

P("C12", "Compiled single-qudit gates use only what the device offers",
  "Compiling circuits of single-qudit gates at O0, O1 and O2 emits only uncontrolled virtual phases and rotations between physical levels that the device's level graph joins.",
  ["programs", "configurations"], "all circuits on all level graphs and placements",
  "No test looks at the transitions used; a rotation across a missing edge simulates perfectly and cannot run.",
  ["compiler/onedit/local_operation_swap/swap_routine.py", "compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py",
   "compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py", "core/level_graph.py"],
  [("routing", "compiler/onedit/local_operation_swap/swap_routine.py route_states2rotate_basic"), ("level exchange", "core/level_graph.py swap_nodes")],
  ["levels of the R gates of the compiled circuit"], "devices drawn by TLC (Device.tla) with their physical transitions; every emitted gate is checked against them",
  "The local gates inside entangling decompositions are outside the claim: the code does not route them.")

P("C13", "Logical decompositions keep the operator",
  "Decomposing single-qudit gates (QR or adaptive) and two-qudit gates, controlled single-qudit gates included, on the logical levels yields the original operator up to a global phase; "
  "applied to a gate, the entangling decomposition reduces it to the identity.",
  ["programs", "inputs"], "all gates on all dimensions and line orders",
  "Tests decompose a handful of fixed gates, mostly on equal dimensions and in line order.",
  ["compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py", "compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py",
   "compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py", "compiler/twodit/blocks/crot.py", "compiler/twodit/blocks/pswap.py", "compiler/twodit/blocks/czrot.py"],
  [("local QR", "compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py"), ("entangling QR", "compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py execute"),
   ("blocks", "compiler/twodit/blocks")],
  ["operator of the decomposed circuit"], "programs with exact unitaries from TLC; the decomposed gates are read back and multiplied",
  "Dimensions 2-6 (entangling: up to 5x2). Angles compared at 2e-4. Trusted: TLC, refsem (pinned by C01).")

P("C14", "Phase propagation keeps the operator",
  "Propagating phases through a circuit, to the back or to the front, keeps the operator of every circuit exactly, leaves every gate that is no uncontrolled "
  "phase or two-level rotation as and where it is, and brings the phases of every run of such gates on one line behind (or in front of) its rotations.",
  ["programs"], "all circuits, with daggers, controls and entangling gates between the runs",
  "Tests push phases through one fixed line; signs, daggers and the boundaries of runs matter only for particular sequences.",
  ["compiler/onedit/local_phases_transpilation/propagate_virtrz.py", "core/lanes.py"],
  [("pushing a phase through a rotation", "compiler/onedit/local_phases_transpilation/propagate_virtrz.py"), ("runs", "core/lanes.py")],
  ["operator and gate sequence of ZPropagationOptPass(None, back).transpile(circuit)"],
  "TLA+ (Phases.tla): the pushed form of every program is computed and proved equal in the exact semantics (PushOK, NormalOK); the pass's output is read back, multiplied and compared with TLC's exact unitary", TRUST)

P("C15", "Phase removal changes no outcome",
  "Removing the phases at the beginning and the end of a circuit drops exactly the uncontrolled phase gates before the first and after the last other gate of their line: "
  "outcome probabilities stay the same for every circuit started in |0...0>, a removal at the beginning even keeps the state up to a global phase, and the input circuit is untouched.",
  ["programs"], "all circuits, including those where a phase at the edge of a line controls or is controlled",
  "Tests remove phases from one fixed circuit of single-qudit gates.",
  ["compiler/onedit/local_phases_transpilation/remove_phase_rotations.py"],
  [("removal", "compiler/onedit/local_phases_transpilation/remove_phase_rotations.py")],
  ["state and gate sequence of ZRemovalOptPass(None).transpile(circuit)"],
  "TLA+ (Phases.tla, StripOK): stripped forms computed and proved outcome-equal by TLC; the pass must return exactly these gates, and its exact probabilities", TRUST)

P("C18", "State preparation reaches the state",
  "For every register and every normalised state, the circuit synthesised by state preparation (also through set_initial_state of an empty circuit) takes |0...0> to that state, phase included; "
  "the approximate synthesis reaches it with fidelity at least 0.99.",
  ["inputs"], "all states: sparse, product, entangled, with repeated subtrees and with levels left out",
  "Tests prepare GHZ, W and a few random dense states; the reduction of shared subtrees acts only on structured states.",
  ["compiler/state_compilation/state_preparation.py", "core/micro_dd.py", "quantum_circuit/circuit.py"],
  [("decision tree", "core/micro_dd.py create_decision_tree, dd_reduction_hashing, dd_reduction_aggregation"), ("synthesis", "compiler/state_compilation/state_preparation.py synthesis"),
   ("approximation", "core/micro_dd.py cut_branches")],
  ["state of StatePrep(circuit, state, approx).compile_state()"],
  "TLA+ (StateTree.tla): TLC grows exact states as decision trees with shared subtrees and empty levels (LengthOK), and takes more from Programs.tla; every state is prepared by the code and the circuit read back",
  "Angles below 1e-5 are dropped by the code, so states are compared at 1e-4. Up to 4 qudits, dimensions 2-7. " + TRUST)

P("C21", "Noise models keep their books",
  "After every history of adding noise to gates and gate groups of a noise model, and of editing the noise objects handed over, the model states for every gate name exactly the noise added "
  "for it in each mode, its basis gates are the gates with noise, and level pairs that coincide, repeat or mix named with dynamic ones are refused.",
  ["histories"], "all histories of additions and edits over gates, modes and shared noise objects",
  "Tests add fixed noise once and read it back; sharing between gates and overwriting need several steps.",
  ["simulation/noise_tools/noise.py"],
  [("noise model", "simulation/noise_tools/noise.py NoiseModel"), ("noise objects", "simulation/noise_tools/noise.py Noise, SubspaceNoise")],
  ["NoiseModel.quantum_errors, basis_gates", "SubspaceNoise.subspace_w_probs"],
  "TLA+ state machine (NoiseBook.tla; WellFormed, Local): every history to depth 4, every sequence of additions of two noises, and simulated histories to depth 14 are replayed step by step into the code",
  "Trusted: TLC, the projection of the objects.",
  state=[("noise objects", "what each object handed over says now", "simulation/noise_tools/noise.py"), ("model", "gate and mode -> noise", "simulation/noise_tools/noise.py quantum_errors")])

P("C22", "A noisy circuit is the circuit plus the noise of its model",
  "A circuit made noisy for a noise model keeps all its gates in order and has behind each of them exactly the error operations its model states: independently drawn generalised Pauli errors on the qudits the mode names "
  "(local, target, control, non-local, all), level errors only on the levels named or, for dynamic level noise, the levels of the gate, with the probabilities of the model.",
  ["programs", "configurations", "random draws"], "all circuits, noise models and outcomes of the random draws",
  "Tests run a noise model once and look at the length of the result; which qudit is hit, and how often, is never settled.",
  ["simulation/noise_tools/noisy_circuit_factory.py", "simulation/noise_tools/noise.py"],
  [("placing noise", "simulation/noise_tools/noisy_circuit_factory.py")],
  ["NoisyCircuitFactory(model, circuit).generate_circuit()"],
  "TLA+ probabilistic state machine (Noise.tla: one weighted branch per draw; WeightsOK, KeepsProgram, ModelOK) gives the exact distribution over noisy circuits; thousands of circuits generated by the code are tested against it "
  "(impossible ones at once, frequencies at p < 1e-10)",
  "Distribution tests: a deviation below a few percent of a probability is not seen. Dephasing of a whole-qudit noise is left out: the code does not draw it for circuits. Trusted: TLC, the random source.")

P("C23", "Shots are independent samples of the noisy outcome distribution",
  "Running a circuit with a noise model returns exactly the number of shots asked for, each drawn independently from the outcome distribution the model implies for the backend's noise (or, with full state memory, noisy states with the "
  "probabilities the model implies), saves the same results to file, and still reports the noiseless state vector.",
  ["programs", "configurations", "random draws"], "all circuits, noise models, numbers of shots and outcomes of the random draws",
  "Tests check the number of results; correlated random streams of parallel workers or a wrong distribution pass.",
  ["simulation/backends/stochastic_sim.py", "simulation/backends/tnsim.py", "simulation/backends/misim.py", "simulation/save_info.py", "simulation/noise_tools/noisy_circuit_factory.py"],
  [("shots", "simulation/backends/stochastic_sim.py"), ("saving", "simulation/save_info.py")],
  ["backend.run(circuit, noise_model=model, shots=n).result()", "saved .h5 file"],
  "exact outcome distribution by TLC (Noise.tla, with the noise conventions of each engine); counts of real runs are tested against it by an exact-tail chi-square at p < 1e-10",
  "Noise conventions: tnsim draws per qudit; misim draws one X and one Z per gate and mode for all its qudits and simulates no controls (known finding of C03). Trusted: TLC, the random source.")

P("C16", "The verifier accepts exactly the sequences that realise their target",
  "Given a sequence of gates, a target operator and the placement of logical levels before and after it, the unitary verifier answers yes exactly when final placement undone, sequence, initial placement and target together are the identity up to one "
  "global phase, answers the same when asked again, and the small simulators beside it compute the operator and the final state of a circuit.",
  ["programs", "inputs"], "all sequences, targets, placements and listings of the levels",
  "Tests ask only about sequences that are right; a verifier that always agrees, forgets a placement or compares too loosely would pass them and everything that is checked with it.",
  ["compiler/compilation_minitools/naive_unitary_verifier.py"],
  [("verifier", "compiler/compilation_minitools/naive_unitary_verifier.py UnitaryVerifier"), ("small simulators", "compiler/compilation_minitools/naive_unitary_verifier.py mini_unitary_sim, mini_sim, phy_sdit_sim")],
  ["UnitaryVerifier(...).verify()", "mini_unitary_sim, mini_sim, phy_sdit_sim"],
  "TLA+ (Verifier.tla): TLC draws programs and placements, drops, exchanges or replaces gates, and decides the verdict exactly in the ring (UnalteredOK, NormOK); every case is put to the code's verifier",
  "Single-qudit sequences with placements, one- and two-qudit sequences without. " + TRUST)

P("C24", "Jobs, backends and options follow the calls made",
  "Waiting for a job reports every status it polls, in order, and returns at the first final one or gives up at the timeout; every job has an id of its own and keeps its result; an option given with a run holds for that run, otherwise the one the backend was given, "
  "otherwise the default, unknown options are refused and backends share none; a name finds the backend it means or is refused.",
  ["histories", "schedules"], "all interleavings of job progress with polling, all histories of making, configuring and running backends, all queries for a name",
  "Tests run one job on one backend; timing of status changes, option precedence over several runs and sharing between instances need histories.",
  ["simulation/jobs/job.py", "simulation/jobs/job_result.py", "simulation/backends/backendv2.py", "simulation/qudit_provider.py", "simulation/backends/tnsim.py", "simulation/backends/misim.py"],
  [("waiting", "simulation/jobs/job.py _wait_for_final_state, in_final_state"), ("options", "simulation/backends/backendv2.py options, set_options"), ("lookup", "simulation/qudit_provider.py get_backend, backends")],
  ["Job._wait_for_final_state, result, job_id, status predicates", "Backend.run, set_options, options", "MQTQuditProvider.get_backend, backends"],
  "TLA+ state machines (Jobs.tla, Backends.tla, Provider.tla) model-checked by TLC; every script of status changes is replayed against the real waiting loop under a virtual clock, option histories and lookups are replayed on real backends",
  "Whether an option given with one run stays for the next is left open. Trusted: TLC, the virtual clock.",
  state=[("job script", "which status the environment shows at a time", "simulation/jobs/job.py status"), ("waiter", "pc, clock, reports so far", "simulation/jobs/job.py _wait_for_final_state"),
         ("options of each backend", "given at construction, by set_options, by a run", "simulation/backends/backendv2.py")])

P("C26", "What is read out is the logical register",
  "Reduced states of every set of qudits, histograms and density matrices from counts, and the plotted states and counts carry the numbers of the outcome they are labelled with, for every dimension, and results of a device are mapped back to the logical levels before they are shown.",
  ["inputs", "configurations"], "all states, outcome lists, sets of kept qudits, registers and placements",
  "Tests read out one or two symmetric registers; label order, mixed dimensions, dimensions above nine and non-trivial placements are not looked at.",
  ["visualisation/mini_quantum_information.py", "visualisation/plot_information.py"],
  [("reduced states", "visualisation/mini_quantum_information.py partial_trace, get_density_matrix_from_counts"), ("plots", "visualisation/plot_information.py plot_state, plot_counts, HistogramWithErrors"), ("mapping back", "visualisation/plot_information.py remap_result")],
  ["partial_trace(...), get_density_matrix_from_counts(...)", "bars and labels drawn by plot_state, plot_counts", "remap_result(...)"],
  "TLA+ (Readout.tla): TLC computes exact reduced states of every keep set, histograms, marginals and device relabellings (ReducedOK, CountsOK, ReadBackOK); they are compared with what the code returns and draws",
  "Reduced states up to dimension 6. " + TRUST)

P("C27", "Decision diagrams agree with linear algebra and are canonical",
  "Diagrams of states and operators over mixed dimensions have the entries of the vectors and matrices they stand for, sums, products, tensor products, transposes, adjoints and inner products of diagrams are those of the vectors and matrices, "
  "equal objects give the same diagram with the least number of nodes, and the state-spreading routine produces the equal superposition it promises.",
  ["programs", "inputs", "histories"], "all pairs of programs over a register, and every order of operations on one package (cache contents)",
  "Tests build two or three states; wrong cache keys, normalisation and edge order only show for particular diagrams and after other operations.",
  ["include/dd/MDDPackage.hpp", "include/dd/Edge.hpp", "include/dd/UniqueTable.hpp", "include/dd/ComputeTable.hpp", "include/dd/GateMatrixDefinitions.hpp"],
  [("package", "include/dd/MDDPackage.hpp makeGateDD, add, multiply, innerProduct, kronecker, transpose, conjugateTranspose, normalize"), ("spreading", "include/dd/MDDPackage.hpp spread2, spread3, spread5")],
  ["entries, getVector, getValueByPath, size of diagrams through a C++ driver over the public headers"],
  "TLA+ (Diagrams.tla): TLC grows two programs over one register and states entries, sums, inner products, products and the size of the canonical diagram (classes of proportional parts; SpreadOK); a C++ driver compiled from the current headers with assertions on answers the same questions",
  "Registers up to 4-5 qudits, dimensions 2-6. " + TRUST)

P("C17", "A circuit survives every route through the workflow",
  "Whatever sequence of steps a circuit goes through - copied, written as text or to a file and read back, inverted twice, resynthesised, decomposed on its logical levels, phases propagated, compiled once for a device by any compiler, idle phases removed - "
  "it stays the same program (operator, operator up to a phase, or outcomes, whichever the steps promise), carries the placement it was given, and running it and reading it back gives the outcomes of the program.",
  ["histories", "programs", "configurations"], "all programs, all devices and all sequences of workflow steps",
  "Tests use one step at a time on fresh circuits; what one step leaves behind (owners of gates, placements, gate kinds, daggers) only matters to the next.",
  ["quantum_circuit/circuit.py", "quantum_circuit/gate.py", "compiler/dit_compiler.py", "compiler/compiler_pass.py", "compiler/naive_local_resynth/local_resynth.py", "visualisation/plot_information.py"],
  [("workflow", "quantum_circuit/circuit.py copy, to_qasm, from_qasm, save_to_file, load_from_file, simulate"), ("compilers", "compiler/dit_compiler.py compile, compile_O0, compile_O1, compile_O2")],
  ["instructions, dimensions, mappings after every step", "simulate() and tnsim run", "remap_result(...)"],
  "TLA+ (Pipeline.tla): TLC draws programs, devices and routes, keeps the strength of equivalence, the place of the levels and what may come next per step (RouteOK, ReadOK), and computes exact logical and placed operators; every route is replayed and judged after each step",
  "Routes up to 7 steps, registers up to dimension 12. Steps that write text are skipped on circuits with daggers (finding of C06). " + TRUST,
  state=[("circuit at hand", "the gates after the steps so far", "quantum_circuit/circuit.py instructions"), ("placement", "logical or device levels", "quantum_circuit/circuit.py mappings"),
         ("promise", "operator, phase, outcome", "compiler passes")])

P("C19", "A level graph describes the same machine under every relabelling",
  "However the labels of a level graph are swapped and phases stored on them, every physical level keeps its couplings, sensitivities, pending phase and role, placement, distances and costs are those of the machine, the phases come out as gates on the right levels, and copies are independent.",
  ["histories", "configurations"], "all level graphs and all histories of swaps and phases",
  "Tests swap two nodes of one graph; bookkeeping goes wrong after several swaps on other shapes.",
  ["core/level_graph.py"],
  [("relabelling", "core/level_graph.py swap_nodes, swap_node_attributes, swap_node_attr_simple, update_list"), ("questions", "core/level_graph.py distance_nodes, log_phy_map, get_vrz_gates, get_node_sensitivity_cost, fst_inode, fst_rnode")],
  ["LevelGraph attributes and answers after every step", "get_vrz_gates()"],
  "TLA+ state machine (LevelBook.tla): TLC draws machines and histories, invariants say that the book always describes the same machine; every history is replayed on the real graph and compared step by step",
  "Graphs of 2-8 levels, histories up to 8 steps. " + TRUST,
  state=[("placement", "physical level of every label", "core/level_graph.py log_phy_map"), ("edges", "couplings between labels", "core/level_graph.py edges"), ("phases", "pending phase of every label", "core/level_graph.py phase_storage")])

P("C20", "Lanes and decomposition trees keep what was put into them",
  "A circuit cut into lanes is put together again as the same operator with every gate once and every lane in its order, also after runs of local gates were replaced; groups and neighbours are those of the circuit; "
  "a decomposition tree finds every node, counts them, and retrieves a cheapest path to a finished leaf.",
  ["programs", "histories"], "all circuits and sequences of replacements; all trees",
  "Tests cut one circuit of distinct gates; repeated gates, gates over several lanes and replaced intervals in the middle are not put together again.",
  ["core/lanes.py", "core/dfs_tree.py"],
  [("lanes", "core/lanes.py create_lanes, extract_instructions, extract_lane, find_consecutive_singles, replace_gates_in_lane, next_is_local"), ("trees", "core/dfs_tree.py add, find_node, depth, size_refresh, found_checker, min_cost_decomp, retrieve_decomposition")],
  ["Lanes views and extracted instructions", "NAryTree answers"],
  "TLA+ state machines (LaneBook.tla, TreeBook.tla): TLC draws programs and replacements, checks MergeOK, OnceOK, OrderOK, and enumerates all trees up to a size (PathOK, SizeOK, BestOK); all are replayed on the real objects",
  "Programs up to 12 gates, trees up to 5 nodes (thorough 6). " + TRUST,
  state=[("items", "the gates and merged gates of the circuit in order", "core/lanes.py index_dict"), ("tree", "parents, costs, finished leaves", "core/dfs_tree.py Node")])

P("C25", "Variational compilation returns the circuit of the ansatz it found",
  "The layered ansatz is the product of local unitaries and primitives it is defined as, the fidelity is the overlap with the target, the circuit built from a solution is the ansatz on the lines of the target, the search for the number of layers "
  "keeps the last solution it found and reports when there is none, and what is returned implements the target gate as well as it says.",
  ["inputs", "schedules", "programs"], "all parameter vectors, layers, primitives, targets and lines; all outcomes (hit, miss, timeout) of every solver call",
  "Tests let the optimiser run on one gate and look at the fidelity it reports; order of factors, lines in a larger register, daggers and timeouts are not looked at.",
  ["compiler/twodit/variational_twodit_compilation/layered_compilation.py", "compiler/twodit/variational_twodit_compilation/sparsifier.py", "compiler/twodit/variational_twodit_compilation/parametrize.py",
   "compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py", "compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen_utils.py", "compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py",
   "compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py", "compiler/twodit/variational_twodit_compilation/opt/optimizer.py", "compiler/twodit/variational_twodit_compilation/opt/distance_measures.py", "compiler/compilation_minitools/numerical_ansatz_utils.py"],
  [("ansatz", "ansatz/ansatz_gen.py, parametrize.py"), ("search", "ansatz/ansatz_solve_n_search.py interrupt_function, binary_search_compile, run"), ("circuit", "ansatz/instantiate.py, sparsifier.py, layered_compilation.py")],
  ["ms_ansatz, ls_ansatz, cu_ansatz, fidelity", "binary_search_compile, run", "create_*_instance, variational_compile, sparsify"],
  "TLA+ (Ansatz.tla, LayerSearch.tla): TLC computes exact ansatz operators and overlaps for drawn parameters (AnsatzOK, ShapeOK) and explores the layer search against every oracle of hits, misses and timeouts; both are replayed into the code, with the solver replaced by the oracle for the search",
  "Two-qudit gates up to dimension 16. Which minimum the optimiser finds is not specified. " + TRUST,
  state=[("interval", "low, high, best of the layer search", "ansatz/ansatz_solve_n_search.py binary_search_compile"), ("oracle", "outcome of every solver call", "opt/optimizer.py solve_anneal")])

P("C28", "Routing brings two levels together with the fewest pulses and keeps the book",
  "To rotate two levels that are not coupled, routing pulses couplings only, pi each, as few as the levels' distance needs, and leaves the two levels coupled and the graph describing where every level now is; the cost reported is that of the pulses and the rotation on the machine. "
  "After every pulse and turned rotation, the places and pending phases kept for the labels are those of the hardware, so that the adaptive decomposition with pending phases realises its gate. Reducing an angle keeps the rotation.",
  ["inputs", "histories", "configurations"], "all level graphs, placements, pending phases, level pairs, angles and sequences of pulses and rotations",
  "Tests fix one graph and one rotation; signs and phases of a chain of pulses only show on paths of three and more levels with phases pending.",
  ["compiler/onedit/local_operation_swap/swap_routine.py", "compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py", "compiler/compilation_minitools/local_compilation_minitools.py", "core/level_graph.py"],
  [("routing", "compiler/onedit/local_operation_swap/swap_routine.py route_states2rotate_basic, cost_calculator, gate_chain_condition"), ("book", "compiler/onedit/local_operation_swap/swap_routine.py graph_rule_update, graph_rule_ongate; core/level_graph.py swap_nodes"),
   ("angles", "compiler/compilation_minitools/local_compilation_minitools.py new_mod, pi_mod, regulate_theta, theta_cost, phi_cost, rotation_cost_calc")],
  ["cost_calculator(gate, graph, weight)", "graph_rule_update, graph_rule_ongate, swap_nodes", "PhyLocAdaPass(backend, vrz_prop=True).transpile_gate", "new_mod, pi_mod, regulate_theta, costs"],
  "TLA+ (Routing.tla, Angles.tla): TLC keeps book and exact hardware side by side over drawn machines, pulses and rotations (BookOK, OfferedOK), proves that no order of pulses is shorter than the distance (FewestOK, all pulse sequences), and computes costs exactly; "
  "the code's book is stepped through the same pulses, its routes are judged on the specification's machine, and the adaptive pass against the exact operator",
  "Ions of up to seven levels; the adaptive pass with up to three rotations on three levels, two on four, one on more, cut off after five seconds. " + TRUST,
  state=[("place", "physical level of every label", "core/level_graph.py log_phy_map"), ("pending", "phase per label", "core/level_graph.py phase_storage")])

P("C29", "States known by name are what they are called",
  "For every register, the GHZ, qudit W and embedded W states are the equal superpositions of exactly the basis states of their definition in the index order of the register, other names are refused, and preparing them reaches them; levels name the basis vector with those levels; "
  "random states have the register's size, are normalised and drawn afresh and uniformly; the normalisation test accepts exactly normalised vectors.",
  ["inputs", "configurations"], "all registers and names, all random draws",
  "Tests look at one register with equal dimensions per name; unequal dimensions decide which levels take part.",
  ["compiler/state_compilation/retrieve_state.py", "quantum_circuit/components/extensions/matrix_factory.py", "compiler/state_compilation/state_preparation.py"],
  [("named states", "compiler/state_compilation/retrieve_state.py generate_uniform_state"), ("random states", "compiler/state_compilation/retrieve_state.py generate_random_quantum_state"), ("basis vectors", "quantum_circuit/components/extensions/matrix_factory.py from_dirac_to_basis")],
  ["generate_uniform_state(dimensions, name)", "from_dirac_to_basis(levels, dimensions)", "generate_random_quantum_state(dimensions)", "verify_normalized_state(vector)"],
  "TLA+ (Named.tla): TLC walks the whole basis of every register and collects the members of every name (CountOK, SymmetryOK, IndexOK); vectors, basis states and preparations of the code are compared with them; moments of random states against exact values",
  "Exhaustive over the registers listed (one to three qudits of two to four levels, four of two or three, and larger ones). Moments at eight standard deviations. " + TRUST)
