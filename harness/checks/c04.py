"""C04: dag() is the inverse: per gate (adjoint operator, involution) and per program (the echo returns to |0...0>)."""
import numpy as np
import vlib

CONFIGS = [
    (24, [[2, 3], [3, 2, 2], [2, 2, 3], [4, 3], [2, 3, 4], [6, 2]], 120),
    (24, [[2, 3, 2, 3], [2, 4, 3, 2], [3, 2, 2, 4]], 40),
    (40, [[5, 2], [2, 5, 2]], 30),
]


def run(ck):
    vlib.load_repo()
    from mqt.qudits.simulation import MQTQuditProvider
    tn = MQTQuditProvider().get_backend("tnsim")
    k = 1 if ck.quick else 10
    for i, (n, dl, num) in enumerate(CONFIGS):
        t = ck.used(vlib.programs(n, dl, vlib.ALL_FAMS, ck.seed + 40 + i, num * k, 1, 6, dag=40, ctl=40, levrev=20, echo=True))
        for rec in t.records:
            one(ck, rec, tn)
            ck.sample(vlib.show(rec))
    # long programs on wide registers
    t = ck.used(vlib.trails(840, [[2] * 8, [3, 2, 3, 2, 3], [7, 2, 5], [2, 11, 3], [12, 4, 2]], vlib.TRAIL_FAMS, ck.seed + 90, 10 * k, 20, 40, levrev=20))
    for rec in t.records:
        sh = vlib.show(rec)

        def there_and_back():
            qc = vlib.build(rec)  # noqa: B023
            undo = [{**op, "dag": not op["dag"]} for op in reversed(rec["prog"])]  # noqa: B023
            for op in undo:
                vlib.add_op(qc, op, rec["N"])  # noqa: B023
            return np.asarray(tn.run(qc).result().get_state_vector()).reshape(-1)
        ok, got = ck.guard("echo", there_and_back, sh)
        if ok and not np.allclose(got, np.eye(len(got))[0], atol=1e-6):
            ck.violation(f"a program of {len(rec['prog'])} gates followed by its inverse does not return to |0...0> on dims {rec['dims']}", sh)
        ck.ok()


def one(ck, rec, tn):
    sh = vlib.show(rec)
    dims = rec["dims"]
    undo = [{**op, "dag": not op["dag"]} for op in reversed(rec["prog"])]
    ok, pair = ck.guard("building", lambda: (vlib.build(rec), vlib.build({**rec, "prog": rec["prog"] + undo})), sh)
    if not ok:
        return
    qc, echo = pair
    ok, got = ck.guard("echo", lambda: np.asarray(tn.run(echo).result().get_state_vector()).reshape(-1), sh)
    if ok and not np.allclose(got, np.eye(len(got))[0], atol=1e-7):
        ck.violation(f"program followed by its inverse does not return to |0...0> on dims {dims}", {**sh, "got": got})
    # the same echo obtained by calling dag() on the gate objects of the circuit itself
    import copy

    def self_echo():
        back = [copy.copy(g).dag() for g in reversed(qc.instructions)]
        n0 = len(qc.instructions)
        c2 = qc.copy()
        c2.set_instructions(list(qc.instructions) + back)
        st = np.asarray(tn.run(c2).result().get_state_vector()).reshape(-1)
        return n0 == len(qc.instructions), st

    ok, res = ck.guard("echo of the gate objects", self_echo, sh)
    if ok and not np.allclose(res[1], np.eye(len(res[1]))[0], atol=1e-7):
        ck.violation(f"gates followed by their dag()s do not return to |0...0> on dims {dims}", {**sh, "got": res[1]})
    for g in qc.instructions:
        def adj():
            m = np.asarray(g.to_matrix(2))
            r = g.dag()
            md = np.asarray(g.to_matrix(2))
            g.dag()
            return r is g, m, md, np.asarray(g.to_matrix(2))
        ok, res = ck.guard("dag", adj, sh)
        if not ok:
            continue
        same, m, md, mdd = res
        if not np.allclose(md, m.conj().T, atol=1e-9):
            ck.violation(f"dag of {g.qasm_tag} is not the adjoint operator on dims {dims}", sh)
        if not np.allclose(mdd, m, atol=1e-9):
            ck.violation(f"dag twice of {g.qasm_tag} is not the gate itself on dims {dims}", sh)
        ck.ok()
    ck.ok()
