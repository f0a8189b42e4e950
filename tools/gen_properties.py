"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

L = "surface_sim/layouts/"
CB = "surface_sim/circuit_blocks/"
EX = "surface_sim/experiments/"
FAM = ["rot_surface_code_css", "rot_surface_code_css_pipelined", "rot_surface_code_xzzx", "rot_surface_code_xzzx_pipelined", "rot_surface_code_xzzx_google", "unrot_surface_code_css"]

prop("C01", "Generated layouts are valid stabilizer codes with the declared distances",
 "For every generated rotated or unrotated surface-code layout, the stabilizers read off from the ancilla neighbours commute, are independent and number one less than the data qubits, and the declared logical X and Z commute with all stabilizers and anticommute with each other. The minimum weight of an undetected logical X (Z) operator equals the declared X (Z) distance, and each declared logical operator attains it.",
 ["configurations", "inputs"], "all code sizes (distance_x, distance_z), and for each every Pauli operator on the data qubits",
 "Tests build distance 3 (and one rectangle) and compare counts or YAML; no test checks commutation, independence or that no lower-weight logical operator exists, which quantifies over 4^n Paulis.",
 [L + "library/rot_surface_codes.py", L + "library/unrot_surface_codes.py", L + "library/util.py"],
 [("rectangle generators", L + "library/rot_surface_codes.py: rot_surface_code_rectangle"), ("rectangle generators", L + "library/unrot_surface_codes.py: unrot_surface_code_rectangle")],
 ["Layout.get_qubits / get_neighbors / log_x / log_z / distance_x / distance_z"])

prop("C02", "Layout labels, indices, coordinates and directions are mutually consistent",
 "For any size, origin, first data/ancilla label numbers and first index, a generated layout has unique labels, unique coordinates and consecutive indices starting at the given first index, and its qubits, roles, neighbours and logical operators are those of the default layout with numbers and coordinates shifted accordingly. A qubit lists another as neighbour in a direction exactly when the other lists it in the opposite direction, and all neighbours in one direction lie at the same geometric offset.",
 ["configurations", "inputs"], "all code sizes, all real origins and all integer label/index offsets",
 "Tests use the defaults or one fixed set of offsets; consistency must hold for every offset and origin.",
 [L + "library/rot_surface_codes.py", L + "library/unrot_surface_codes.py", L + "layout.py"],
 [("label and index counters", L + "library/*.py"), ("neighbour construction", L + "library/*.py: shift_direction, invert_shift, is_valid"), ("graph loading", L + "layout.py: Layout._load_layout")])

prop("C03", "Layout queries, matrices and serialisation agree with the layout definition",
 "For any valid layout definition, qubit selection by attributes, neighbour queries, indices, coordinates and attribute lookups return exactly what the definition states, malformed definitions are rejected, and dictionary, YAML and copy round-trips give an equal layout, including transversal-gate attributes and non-contiguous or negative indices and coordinates. The adjacency and projection matrices match the neighbour relation, and the expansion matrix places every ancilla on the grid in the order of its coordinates. Editing a copy, an exported dictionary or the source dictionary never changes the layout, and derived coordinates give every direction one offset.",
 ["configurations", "inputs"], "all layout definitions (labels, roles, indices, coordinates, neighbour relations, extra attributes)",
 "Tests query the distance-3 rotated layout only; the queries must hold for any definition including user-supplied dictionaries with arbitrary coordinates and missing data.",
 [L + "layout.py", L + "util.py"],
 [("queries", L + "layout.py: get_qubits, get_neighbors, get_inds, get_coords, param"), ("matrices", L + "layout.py: adjacency_matrix, expansion_matrix, projection_matrix, index_coords"), ("serialisation", L + "layout.py: to_dict, from_yaml, to_yaml, __copy__"), ("derived attributes", L + "util.py: set_coords, index_chain")])

prop("C04", "A QEC round measures exactly the code's stabilizers and nothing else",
 "For every provided circuit family, code size and ancilla-reset option, one noiseless QEC round acts on every input state of the data qubits as the projective measurement of all stabilizers of the code: each ancilla outcome is the eigenvalue of its own stabilizer (XORed with the ancilla's previous state when ancillas are not reset), and the logical state and everything commuting with the stabilizers is left untouched. For the family that interleaves a logical measurement or echo pulses, the same holds up to the documented Pauli frame.",
 ["inputs", "configurations"], "all input states of the data qubits and ancillas, all measurement outcomes, all code sizes, both reset modes, all six circuit families",
 "Tests only check that circuits build and that an error model can be generated while gauge detectors are allowed, so a round measuring the wrong operators passes; no test enumerates input states.",
 [CB + f + ".py" for f in FAM],
 [("QEC round builders", CB + "*.py: qec_round_iterator, qec_round, coherent_qec_part"), ("interaction order", L + "library/*.py: interaction_order")])

prop("C05", "Memory-experiment detectors are deterministic except the announced gauge ones",
 "In a noiseless memory experiment every detector has one value for every choice of random measurement outcomes, in every frame, basis, reset mode and number of rounds, except the first-round detectors of the opposite basis when gauge detectors are requested. That value is 0 for the all-zero bitstring (up to a fixed flip for the family with echo pulses); initial bits enter only the first detector of each stabilizer of the chosen basis, as the parity of the bits on it. When gauge detectors are not requested, or are outside the requested ancilla subset, there is no non-deterministic detector and the remaining detectors are unchanged.",
 ["inputs", "histories", "configurations"], "all measurement randomness, all initial bitstrings, all round counts, bases, reset modes, frames, ancilla subsets and families within the stated sizes",
 "Tests call the error-model generator with gauge detectors allowed and always initialise to all zeros, so a randomly firing or always-firing detector goes unnoticed.",
 [EX + f + ".py" for f in FAM] + ["surface_sim/detectors/detectors.py"],
 [("memory experiments", EX + "*.py: memory_experiment"), ("detector construction", "surface_sim/detectors/detectors.py: build_from_anc, build_from_data"), ("record lookup", "surface_sim/models/model.py: meas_target")])

prop("C06", "The memory observable equals the encoded logical value",
 "In a noiseless memory experiment there is exactly one logical observable, it is deterministic for every choice of random measurement outcomes, and its value is the parity of the initial bits on the support of the logical operator of the chosen basis, independently of the number of rounds, reset mode and frame (up to a fixed flip for the family with echo pulses). Its recorded outcomes are the final measurements of exactly those data qubits.",
 ["inputs", "histories", "configurations"], "all initial bitstrings, all measurement randomness, all round counts, bases and families within the stated sizes",
 "Tests never evaluate the observable for a non-zero initial bitstring.",
 [EX + f + ".py" for f in FAM] + [CB + "util.py"],
 [("initialisation", CB + "util.py: init_qubits*"), ("logical measurement", CB + "util.py: log_meas*")])

prop("C07", "No undetected logical error below the code distance in memory experiments",
 "In every memory experiment with circuit-level noise, no combination of fewer faults than the code distance of the protected logical operator (data, idle, gate, reset, readout or classical assignment faults) flips the logical observable while leaving all detectors silent, and every single fault that flips the observable is detected. Every detector is sensitive to at least one fault and at least one combination of exactly distance many faults is a logical error.",
 ["fault_sequences", "configurations"], "all sets of at most d-1 elementary faults over all locations and rounds",
 "Tests only generate an error model; the number of fault combinations is exponential.",
 [CB + f + ".py" for f in FAM] + ["surface_sim/models/library.py", "surface_sim/detectors/detectors.py"],
 [("interaction order", L + "library/*.py: interaction_order"), ("QEC rounds", CB + "*.py"), ("noise insertion", "surface_sim/models/library.py")])

prop("C08", "Transversal S, H and CNOT are logical gates that map stabilizers as declared",
 "For every size and every allowed corner or pair of layouts, placed anywhere, the noiseless transversal gate maps each stabilizer exactly (including sign) to the product of stabilizers declared to the detector machinery, and maps the logical Pauli operators as the logical S (or its inverse), Hadamard or CNOT does. Layouts for which the gate is not valid are rejected, and qubits outside the layouts are untouched.",
 ["inputs", "configurations"], "all input states, code sizes, fold corners and relative placements",
 "Tests fix distance 3, one corner, and compare stored attributes; they do not check that the physical gates have this action.",
 ["surface_sim/log_gates/rot_surface_code_css.py", "surface_sim/log_gates/unrot_surface_code_css.py", CB + "util.py"],
 [("gate attributes", "surface_sim/log_gates/*.py: set_trans_s, set_trans_h, set_trans_cnot"), ("gate circuits", CB + "util.py: log_trans_s, log_trans_h, log_trans_cnot"), ("declared map", "surface_sim/detectors/detectors.py: get_new_stab_dict_from_layout")])

prop("C09", "Logical Pauli gates, initialisation and logical measurement act as specified",
 "For every input state the logical X (Z) block acts as the logical X (Z) of the code and as the identity on all stabilizers; initialisation prepares, for every initial bitstring, the product state of the chosen basis with those bits and all ancillas in the zero state; and a logical measurement reads every data qubit so that the reconstructed stabilizers and the observable equal the eigenvalues of the stabilizers and the logical operator of the chosen basis.",
 ["inputs", "configurations"], "all input states, all initial bitstrings, all code sizes, both bases, CSS and XZZX families",
 "Tests check instruction lists for one bitstring, not the action on states.",
 [CB + "util.py"],
 [("blocks", CB + "util.py: log_x, log_z, init_qubits, log_meas and their _xzzx variants")])

prop("C10", "Detectors stay deterministic through every history of rounds and logical gates",
 "For every sequence of QEC rounds, logical Pauli gates, transversal gates and logical measurements (final, or of single blocks that may be initialised again) on one or two code blocks, in every detector frame that follows the gates and with or without ancilla reset, all detectors after the announced gauge ones are noiselessly deterministic. The pre-gate and post-gate frames define, round by round, the same set of parities up to recombination, and the logical observables stay deterministic whenever the logical state is an eigenstate.",
 ["histories", "inputs", "configurations"], "all operation sequences up to the stated length, all measurement randomness",
 "Tests run a few fixed gate sequences with gauge detectors allowed, and never evaluate the detectors.",
 ["surface_sim/detectors/detectors.py", CB + "util.py", "surface_sim/util/circuit_operations.py", EX + "rot_surface_code_css.py", EX + "unrot_surface_code_css.py"],
 [("generator bookkeeping", "surface_sim/detectors/detectors.py: update, update_from_dict, build_from_anc, build_from_data")],
 state=[("curr_gen / prev_gen", "cumulative stabilizer-generator transformation", "surface_sim/detectors/detectors.py: Detectors")])

prop("C11", "Each noisy operation is the ideal operation plus its specified noise channel",
 "For every noise model, every operation and every list of qubits, the produced circuit applies exactly the named ideal operation to exactly those qubits in order (measurements and resets in the named basis), together with one noise channel of the model's kind per qubit or pair, placed on the correct side, whose probabilities are exactly the ones the setup assigns to that operation on that qubit or pair, for all parameter values. Measurement noise flips the measured or prepared state, classical assignment errors appear if and only if flagged, and time-based models idle every qubit for the full gate duration.",
 ["inputs", "configurations"], "all noise-parameter values, all assignments of different parameters to different qubits and pairs, all qubit lists within the bound, all models and operations",
 "Tests check names of instructions for one qubit list with equal parameters; a wrong parameter, side or qubit is invisible when all values coincide.",
 ["surface_sim/models/library.py", "surface_sim/models/util.py", "surface_sim/models/model.py"],
 [("model operations", "surface_sim/models/library.py: *NoiseModel methods")])

prop("C12", "Every qubit gets exactly one operation or idle, with its noise, per time step",
 "In every circuit built for QEC rounds, initialisation, logical gates and logical measurements, sequential or pipelined, each time step applies to every qubit of the involved layouts exactly one operation or exactly one idling period, never two. Consequently each qubit or qubit pair contributes exactly one noise event per time step with its own parameter, two-qubit gates act only on neighbouring (or gate-declared) pairs, and data qubits receive the incoming noise exactly once per round or logical operation.",
 ["configurations", "inputs"], "all families, code sizes, reset modes, blocks and noise parameters",
 "Tests check that no qubit is operated twice in some circuits for distance 3 but not that idling qubits are covered, in all families and blocks.",
 [CB + f + ".py" for f in FAM] + [CB + "util.py"],
 [("time-step construction", CB + "*.py: *_iterator")])

prop("C13", "Measurement-record lookups always point at the requested measurement",
 "After any history of measurements over any qubits, looking up the k-th most recent (or k-th) measurement of a qubit resolves to exactly the record entry that measurement produced, in every circuit assembled in the order in which operations were requested, and lookups of measurements that did not happen are rejected. Starting a new circuit forgets all previous records.",
 ["histories", "inputs"], "all measurement histories up to the stated length over all qubits, all relative indices",
 "Tests cover two short fixed histories.",
 ["surface_sim/models/model.py", "surface_sim/models/library.py"],
 [("record bookkeeping", "surface_sim/models/model.py: add_meas, meas_target, new_circuit")],
 state=[("measurement order", "absolute record positions per qubit", "surface_sim/models/model.py: Model")])

prop("C14", "Noise-parameter lookup follows the documented precedence for all setups",
 "Looking up a noise parameter for a qubit or pair returns the value given for that qubit or pair if any, otherwise the global value, otherwise the value of the parameter's documented parent looked up the same way, and fails if none is given. A value that names a free parameter resolves to that parameter's current value, is reported as free until set, and later changes of parameters or free parameters take effect on every later lookup and on nothing else.",
 ["inputs", "configurations", "histories"], "all parameter values (real, integer, boolean, free-parameter names), all presence/absence combinations, all orders of setting",
 "Tests use a few fixed dictionaries.",
 ["surface_sim/setup/setup.py", "surface_sim/setup/library.py"],
 [("resolution", "surface_sim/setup/setup.py: param, var_param, set_param, set_var_param, free_params, gate_duration")])

prop("C15", "Setups survive serialisation and never alias their source",
 "Exporting a setup to a dictionary or YAML and loading it back gives a setup with the same name, description, gate durations, free parameters and, once these are given the same values, the same value for every parameter lookup, for every setup. Building a setup does not modify the given dictionary, later edits of that dictionary or of an export do not change the setup, and repeated definitions for the same qubit or pair are rejected.",
 ["inputs", "configurations"], "all setups over the parameter kinds, with global, one-qubit and two-qubit entries",
 "Tests round-trip one fixed setup.",
 ["surface_sim/setup/setup.py"],
 [("serialisation", "surface_sim/setup/setup.py: __init__, _load_setup, to_dict, to_yaml, from_yaml")])

prop("C16", "Derived error channels are valid probability distributions with the stated bias",
 "For every bias and biased Pauli, the biased channel's factors are non-negative, sum to one, and every operator containing the biased Pauli is exactly the bias factor times as likely as any other, reducing to depolarizing noise at bias one. For all positive times with T2 below twice T1, the idling channel is the Pauli twirl of amplitude and phase damping, its probabilities are non-negative, sum to less than one, vanish with the duration, compose over consecutive periods, and non-positive times are rejected.",
 ["inputs"], "all real bias factors, all real relaxation/dephasing times and durations",
 "Tests check a handful of values.",
 ["surface_sim/models/util.py"],
 [("biased channel", "surface_sim/models/util.py: biased_prefactors"), ("idling channel", "surface_sim/models/util.py: idle_error_probs")])

prop("C17", "Detector lists are complete, ordered, placed and restricted as requested",
 "For every history of rounds, activations, deactivations and measurements, every round emits exactly one detector per ancilla in a fixed order with that ancilla's coordinates and the round number as time, logical measurements emit one per reconstructable stabilizer half a step later, and ancillas that are inactive or not requested get a detector with no outcomes while the others are unaffected. Activating active, deactivating inactive or naming unknown ancillas is rejected, non-invertible stabilizer updates are rejected, and starting a new circuit restores the initial state.",
 ["histories", "configurations"], "all histories of detector operations up to the stated length over all ancilla subsets",
 "Tests exercise a few fixed call sequences.",
 ["surface_sim/detectors/detectors.py"],
 [("state machine", "surface_sim/detectors/detectors.py: activate_detectors, deactivate_detectors, build_from_anc, build_from_data, update, update_from_dict, new_circuit")])

prop("C18", "Merging circuits in parallel preserves what each circuit does",
 "Merging circuits that act on disjoint qubits with the same number of time steps yields, for every content, a circuit that in every time step does to each qubit exactly what the individual circuit does, including the order of noise relative to gates and measurements and all noise probabilities, with the outcomes of the individual circuits in order. Circuits that differ in number of time steps, or whose measurements do not fit in one common time step when this is checked, are rejected.",
 ["programs", "inputs"], "all pairs of circuits over the supported operations with all noise parameters, within the stated length",
 "Tests merge one pair of noiseless circuits and compare the text.",
 ["surface_sim/util/circuit_operations.py"],
 [("merging", "surface_sim/util/circuit_operations.py: merge_circuits")])

prop("C19", "Parallel rounds and measurements of several blocks equal the separate ones",
 "Running QEC rounds or logical measurements on several blocks in parallel acts on each block, for all noise parameters and ancilla subsets, exactly as running it on that block alone, and all detectors and observables refer to the outcomes of the right qubits even when the blocks or qubits have different noise parameters. Observables are numbered in the order of the given layouts with the requested basis each.",
 ["configurations", "inputs"], "all noise-parameter assignments, all measurement randomness, reset modes, bases and ancilla subsets, for two and three blocks",
 "Tests merge two blocks with identical noise parameters and only check that the circuit builds.",
 ["surface_sim/util/circuit_operations.py", CB + "util.py"],
 [("merging", "surface_sim/util/circuit_operations.py: merge_tick_blocks, merge_qec_rounds, merge_log_meas")])

prop("C20", "Layouts that share anything are rejected, disjoint ones accepted",
 "The overlap check accepts a collection of layouts exactly when no two of them share a qubit label, a qubit index, a coordinate or a logical-qubit label, for any number, order and relative placement of layouts. Two-block gates refuse overlapping or differently sized layouts.",
 ["configurations", "inputs"], "all label, index and coordinate offsets between two or more layouts",
 "Tests try a few fixed offsets for two layouts.",
 [L + "operations.py", "surface_sim/log_gates/rot_surface_code_css.py", "surface_sim/log_gates/unrot_surface_code_css.py"],
 [("overlap check", L + "operations.py: check_overlap_layouts")])

prop("C21", "Sampled memory data carries every outcome under the right label",
 "For all measurement outcomes and all numbers of rounds and shots, sampling a memory experiment files every ancilla outcome under its own shot, round and ancilla and every final outcome under its own shot and data qubit, and the ideal outcomes are those of the same circuit with all noise removed. The detectors and the logical value recomputed from the labelled data therefore equal those of the circuit, and the same seed gives the same data.",
 ["inputs", "configurations"], "all measurement outcomes, initial states, round counts and shot counts within the bound",
 "Tests sample one configuration and only look at array shapes.",
 ["surface_sim/util/data_gen.py"],
 [("sampling", "surface_sim/util/data_gen.py: sample_memory_experiment")])

prop("C22", "Building an experiment is repeatable and leaves its inputs unchanged",
 "Building any experiment twice, with fresh or reused model and detector objects and whatever was built before with them, gives the same circuit. The layout, setup, initial bitstring and requested ancilla lists passed in are not modified.",
 ["histories", "configurations"], "all sequences of experiment constructions up to the stated length",
 "Tests build each experiment once with fresh objects.",
 [EX + f + ".py" for f in FAM] + ["surface_sim/models/model.py", "surface_sim/detectors/detectors.py"],
 [("restart", EX + "*.py: new_circuit calls")])

prop("C23", "The choice of noise model never changes the ideal circuit",
 "Removing all noise from any experiment built with any noise model gives, time step by time step, the same operations on the same qubits, the same measurement order, the same detectors and the same observables as the noiseless model gives, for all noise parameters. Setting all noise parameters to zero gives a circuit without any error mechanism.",
 ["configurations", "inputs"], "all noise models, noise parameters, families and experiments within the bound",
 "Tests build experiments with the noiseless model almost exclusively.",
 ["surface_sim/models/library.py"] + [EX + f + ".py" for f in FAM],
 [("model operations", "surface_sim/models/library.py"), ("merging", "surface_sim/util/circuit_operations.py")])

prop("C24", "Repeated-gate experiments apply the requested gates and track the logical state",
 "Repeated-S, repeated-H and repeated-CNOT experiments apply exactly the requested number of logical gates with the requested number of QEC rounds after each, in the requested orientation (constant, or alternating control and target), and in the noiseless case every detector except announced gauge ones is deterministic and every observable is deterministic and equals the ideal logical evolution of the initial state, for every initial bitstring and all measurement randomness. Observables keep the numbering of the layouts passed in.",
 ["inputs", "histories", "configurations"], "all initial bitstrings, measurement randomness, gate counts, round counts, bases, frames and reset modes within the bound",
 "Tests only check that an error model can be built with gauge detectors allowed.",
 [EX + "rot_surface_code_css.py", EX + "rot_surface_code_css_pipelined.py", EX + "unrot_surface_code_css.py"],
 [("repeated-gate experiments", EX + "*.py: repeated_s_experiment, repeated_h_experiment, repeated_cnot_experiment")])

prop("C25", "Invalid experiment requests are rejected instead of silently mis-built",
 "Experiments and circuit blocks reject negative or non-integer round and gate counts, wrongly typed layouts or initial bitstrings, layouts of a code the block does not support, unknown ancillas in the requested subset, odd qubit lists for two-qubit gates, and accept every valid request. A rejected request does not yield a circuit.",
 ["inputs", "configurations"], "all integer counts and all listed kinds of invalid arguments",
 "Tests try none or a few invalid values per function.",
 [EX + f + ".py" for f in FAM] + [CB + f + ".py" for f in FAM] + ["surface_sim/models/library.py"],
 [("argument checks", EX + "*.py"), ("argument checks", CB + "*.py")])

prop("C26", "Layout plots draw every qubit and connection at its coordinates",
 "Plotting a layout draws each qubit at its coordinates with its label, each stabilizer patch on its data qubits in the colour of its type, and each connection once, the axis limits contain every qubit, and drawing parameters given for one qubit apply to that qubit only.",
 ["configurations"], "all layouts",
 "Tests only call the plotting function.",
 [L + "plotter.py"],
 [("plotting", L + "plotter.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
