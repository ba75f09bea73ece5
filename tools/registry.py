"""Single source of properties.jsonl and MANIFEST.json: python3 tools/registry.py rewrites both."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
Q = "src/mqt/qudits/"
PROPS, CHECKS, NA = [], [], []
WIDE = set("C02 C03 C04 C05 C06 C07 C09 C10 C11 C13 C14 C15 C16 C18 C20 C23".split())
TRUST = ("Exact TLC evaluation of the specification on a bounded corpus, replayed into the code; trusted: TLC, the specification's reading of the "
         "gate conventions, float tolerance 1e-6..1e-9 at the comparison.")


def P(pid, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None, claim=True, reason=""):
    assert len(title) <= 80, (pid, len(title))
    a = {"files": [f if f.startswith(("include", "src")) else Q + f for f in files],
         "mechanism": [{"name": n, "where": w if w.startswith(("include", "src")) else Q + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": Q + w} for n, m, w in state]
    if pid in WIDE:
        technique += "; long programs on wide registers are followed branch by branch (Trail.tla)"
    PROPS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})
    if claim:
        CHECKS.append({"property": pid, "quick_cmd": f"bin/check {pid} quick", "thorough_cmd": f"bin/check {pid} thorough",
                       "technique": technique, "level": "model_checking", "level_note": note})
    else:
        NA.append({"property": pid, "reason": reason})


P("C01", "Every library gate denotes its defining unitary",
  "For every gate of the library, every qudit dimension, every level choice and every angle, the matrix the gate reports equals the gate's "
  "textbook definition, is unitary, and the gates satisfy their defining algebra (orders, Weyl commutation, Clifford conjugations, additivity of rotations). "
  "A random unitary denotes one fixed unitary for the lifetime of the gate.",
  ["inputs"], "all gates, dimensions, level pairs and angles",
  "The tests compare a few gates at one or two dimensions and angles; the formulas are indexed by dimension, level pair and angle.",
  ["quantum_circuit/gates/", "quantum_circuit/gate.py"],
  [("gate matrices", "quantum_circuit/gates/*.py __array__"), ("dagger handling", "quantum_circuit/components/extensions/matrix_factory.py generate_matrix")],
  ["Gate.to_matrix()"],
  "TLA+ gate table (GateTable.tla) evaluated exactly by TLC, compared entry by entry with the real matrices; algebra as invariants and on the code",
  TRUST + " Dimensions 2-8, level pairs exhaustive for the main ring, angle grid of ring units.")

P("C02", "Tensor-network simulation returns the state of the circuit",
  "Running a circuit on the tensor-network backend returns the amplitudes obtained by applying its gates in order to |0...0>, indexed with the "
  "first qudit most significant, for any mix of dimensions, targets, controls and daggered gates.",
  ["programs"], "all circuits over the gate set on mixed-dimension registers",
  "Tests simulate a handful of fixed circuits; line orders, non-adjacent targets, controls and mixed dimensions interact combinatorially.",
  ["simulation/backends/tnsim.py", "quantum_circuit/components/extensions/matrix_factory.py"],
  [("network contraction", "simulation/backends/tnsim.py execute"), ("matrix embedding", "quantum_circuit/components/extensions/matrix_factory.py")],
  ["backend.run(circuit).result().get_state_vector()"],
  "programs generated and evaluated exactly by TLC (Programs.tla), and every gate of each register on a state that occupies all levels (Sweep.tla, SpreadOK), replayed into the simulator", TRUST)

P("C03", "Decision-diagram simulation returns the state of the circuit",
  "For circuits over the gates the decision-diagram backend supports, the state it returns equals the amplitudes of applying the gates in order to "
  "|0...0>, whatever circuits were run before; gates it does not support are rejected rather than simulated wrongly.",
  ["programs", "histories"], "all circuits over the supported gates, dimensions 2-7, and sequences of runs",
  "Tests use a few circuits; the gate matrices are separate C++ functions per dimension and level pair and the diagram cache depends on history.",
  ["simulation/backends/misim.py", "src/python/bindings.cpp", "include/dd/MDDPackage.hpp", "include/dd/GateMatrixDefinitions.hpp"],
  [("gate to diagram", "src/python/bindings.cpp getGate"), ("diagram algebra", "include/dd/MDDPackage.hpp"), ("axis reversal", "simulation/backends/misim.py execute")],
  ["backend.run(circuit).result().get_state_vector()"],
  "programs generated and evaluated exactly by TLC (Programs.tla), and every gate on every pair of supported dimensions on a state that occupies all levels (Sweep.tla, SpreadOK), replayed into the C++ simulator compiled from the tree", TRUST +
  " Known finding: controls of controlled gates are ignored by this backend.")

P("C04", "dag() is the inverse, per gate and per circuit",
  "Daggering a gate turns its operator into the adjoint and daggering it again restores it; a circuit followed by its gates in reverse order, each "
  "daggered, returns every register to the initial state.",
  ["programs"], "all gates with all parameters, including controlled, reversed-target and already daggered ones, and all circuits of them",
  "Tests dagger a few isolated gates; the dagger flag passes through embedding, controls, simulation and repeated daggering.",
  ["quantum_circuit/gate.py", "quantum_circuit/components/extensions/matrix_factory.py"],
  [("dagger flag", "quantum_circuit/gate.py dag"), ("adjoint", "quantum_circuit/components/extensions/matrix_factory.py generate_matrix")],
  ["Gate.to_matrix(2)", "tnsim state of the echo circuit"],
  "echo programs from TLC (Programs.tla, invariants EchoHome/NormOK) replayed as circuit plus inverse", TRUST)

P("C05", "A gate acts on its lines under its controls and nowhere else",
  "The full-register operator of a gate equals the gate on its target lines in the named order, applied exactly when every control qudit is in its "
  "control level, and the identity otherwise; the spanned-lines and own-lines matrices and the reported lines and range flag agree with it.",
  ["inputs", "configurations"], "all registers, target choices and orders, controls and control levels",
  "Tests embed a few gates on equal-dimension neighbours; controls on other dimensions, gaps and reversed targets are index arithmetic over all cases.",
  ["quantum_circuit/components/extensions/matrix_factory.py", "quantum_circuit/gate.py"],
  [("embedding", "quantum_circuit/components/extensions/matrix_factory.py apply_identities_and_controls"), ("controls", "quantum_circuit/gate.py control")],
  ["Gate.to_matrix(0|1|2)", "Gate.reference_lines", "Gate.is_long_range"],
  "TLC enumerates every gate placement of small registers plus sampled wider ones with the exact unitary; compared with to_matrix(0/1/2)", TRUST)

exec(compile((Path(__file__).parent / "registry_more.py").read_text(), "registry_more", "exec"))

have = {c["property"] for c in CHECKS if (V / "harness/checks" / f"{c['property'].lower()}.py").exists()}
for c in list(CHECKS):
    if c["property"] not in have:
        CHECKS.remove(c)
        NA.append({"property": c["property"], "reason": "check not built yet"})
(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in PROPS))
(V / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "bin/setup", "checks": CHECKS, "not_applicable": NA,
    "notes": "bin/check <id> quick|thorough; no hooks in /repo. See DESIGN.md."}, indent=1) + "\n")
print(len(PROPS), "properties,", len(CHECKS), "checks,", len(NA), "not applicable")
