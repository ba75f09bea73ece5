"""C18: state preparation reaches the given state, for every state of every register."""
import numpy as np
import compiled
import refsem
import vlib

PERM = ["x", "x", "pm", "csum", "cx"]
CONFIGS = [
    # ring, registers, families, controls %, programs, lengths
    (24, [[2], [3], [4], [6]], ["h", "x", "rxy", "virtrz", "z", "s"], 0, 24, 0, 4),
    # sparse and structured states: permutations, uniform superpositions, entangled and product states
    (24, [[3, 2], [2, 2], [2, 3], [3, 3], [4, 2]], PERM + ["h", "h", "rxy", "virtrz"], 40, 120, 1, 6),
    (24, [[2, 3, 2], [3, 2, 2], [2, 2, 3], [2, 2, 2]], PERM + ["h", "h", "rxy", "z", "virtrz"], 40, 120, 2, 8),
    (24, [[3, 2, 3], [2, 2, 2, 2], [2, 4, 2]], vlib.ALL_FAMS, 40, 40, 3, 8),
    (40, [[5, 2], [2, 5]], vlib.ALL_FAMS, 40, 20, 2, 6),
]

TREES = [
    # registers, states, percent of empty levels, percent of common subtrees, percent of flat weights
    ([[2], [3], [5], [7]], 20, 30, 0, 30),
    ([[3, 3], [3, 2], [2, 3], [2, 2], [4, 2]], 120, 35, 30, 50),
    ([[3, 2, 2], [3, 3, 2], [2, 3, 3], [2, 2, 2]], 160, 40, 45, 50),
    ([[2, 3, 2, 2], [3, 2, 2, 3], [4, 3, 2]], 60, 40, 45, 40),
    ([[5, 3], [7, 2], [3, 5, 2]], 30, 50, 40, 40),
]


def state_of(qc):
    return refsem.run(qc.instructions, qc.dimensions)


def judge(ck, rec):
    from mqt.qudits.compiler.state_compilation.state_preparation import StatePrep
    from mqt.qudits.quantum_circuit import QuantumCircuit
    dims, psi = list(rec["dims"]), rec["state"]
    sh = {"dims": dims, "prog": rec.get("prog"), "state": psi}
    for name, fn in [("StatePrep.compile_state", lambda: StatePrep(QuantumCircuit(len(dims), dims, 0), psi.copy()).compile_state()),
                     ("QuantumCircuit.set_initial_state", lambda: initial(dims, psi.copy()))]:
        ok, qc = ck.guard(name, fn, sh)
        if not ok:
            continue
        got = state_of(qc)
        if not np.allclose(got, psi, atol=1e-4):
            ck.violation(f"{name} on dims {dims} does not reach the state (overlap {abs(np.vdot(got, psi)):.4f})",
                         {**sh, "got": got, "circuit": compiled.vlib_instr(qc)})
        if qc.number_gates != len(qc.instructions) or list(qc.dimensions) != dims:
            ck.violation(f"{name}: the circuit reports {qc.number_gates} gates and dimensions {qc.dimensions}", sh)
    ok, qc = ck.guard("StatePrep with approximation", lambda: StatePrep(QuantumCircuit(len(dims), dims, 0), psi.copy(), True).compile_state(), sh)
    if ok:
        got = state_of(qc)
        if abs(np.vdot(got, psi)) ** 2 < 0.99 - 1e-4:
            ck.violation(f"approximate preparation on dims {dims} has fidelity {abs(np.vdot(got, psi)) ** 2:.4f}, less than 0.99",
                         {**sh, "got": got, "circuit": compiled.vlib_instr(qc)})
        ck.extra["approximated"] = ck.extra.get("approximated", 0) + (not np.allclose(got, psi, atol=1e-4))
    ck.ok()


def initial(dims, psi):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    qc = QuantumCircuit(len(dims), dims, 0)
    out = qc.set_initial_state(psi)
    assert out is qc
    return qc


def run(ck):
    vlib.load_repo()
    scale = 1 if ck.quick else 10
    for i, (n, dims, fams, ctl, num, lo, hi) in enumerate(CONFIGS):
        t = ck.used(vlib.programs(n, dims, fams, ck.seed + 800 + i, num * scale, lo, hi, dag=30, ctl=ctl, rev=50, max_ctl=2))
        for rec in t.records:
            rec["state"] = rec["states"][0]
            judge(ck, rec)
            ck.sample(vlib.show(rec))
    for i, (dims, num, zero, same, flat) in enumerate(TREES):
        t = ck.used(vlib.tree_states(24, dims, ck.seed + 850 + i, num * scale, zero=zero, same=same, flat=flat))
        for rec in t.records:
            judge(ck, rec)
            ck.sample({"dims": rec["dims"], "kind": rec["kind"], "occupied": rec["occupied"], "length squared": rec["len2"]})
    # sparse states of wide registers
    t = ck.used(vlib.trails(840, [[2] * 7, [3, 2, 3, 2, 3], [2, 3, 2, 2, 2, 2], [2, 9, 2, 3], [12, 5], [4, 2, 3, 5]], vlib.TRAIL_FAMS, ck.seed + 890, 24 * scale, 5, 20, branches=9))
    for rec in t.records:
        rec["state"] = vlib.trail_state(rec)
        judge(ck, rec)
