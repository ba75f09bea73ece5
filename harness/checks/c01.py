"""C01: every library gate has exactly the matrix of the specification's gate table, and obeys its algebra."""
import cmath, math
import numpy as np
import refsem
import vlib

TABLES = [  # ring, single dims, pairs, angle grid (ring units)
    (24, [2, 3, 4, 6, 8], [[2, 2], [2, 3], [3, 2], [4, 3], [2, 6]], [0, 1, 5, 6, 13, 23]),
    (40, [5], [[5, 2], [3, 5]], [0, 1, 9, 10, 27]),
    (56, [7], [[2, 7]], [0, 1, 13, 14, 41]),
]




def run(ck):
    vlib.load_repo()
    from mqt.qudits.quantum_circuit import QuantumCircuit
    for n, sd, td, angs in TABLES:
        if not ck.quick:
            angs = sorted(set(angs) | set(range(0, n, 3 if n == 24 else 7)))
        t = ck.used(vlib.run_tlc("GateTable", dict(N=n, CycPoly=vlib.cyc_poly(n), SDims=sd, TDims=td, Angs=angs, Full=not ck.quick or n == 24),
                                 spec="Spec", invariants=["Unitary", "RelOK", "GellOK"], extra="ASSUME CycloOK"))
        for r in t.records:
            if r["kind"] == "gate":
                table(ck, r, n, QuantumCircuit)
            else:
                relation(ck, r, n, QuantumCircuit)
    special(ck, QuantumCircuit)


def table(ck, r, n, QC):
    ld, g, p = r["ld"], r["g"], r["p"]
    exp = np.stack([vlib.vec(v, s, n) for v, s in zip(r["v"], r["s2"])], axis=1)
    what = {"gate": g, "dims": ld, "params": p, "ring": n}
    if g.startswith("gell"):
        kind = {"gells": "s", "gella": "a", "gelld": "z"}[g]
        ok, got = ck.guard(f"{g}{p}", lambda: QC(1, ld).gellmann(0, [p[0], p[1], kind]).to_matrix(), what)
    else:
        op = {"g": g, "q": list(range(len(ld))), "p": p, "dag": False, "ctl": [], "cus": False}
        ref = refsem.gate(g, ld[0] if len(ld) == 1 else ld, vlib.real_params(op, n))
        if not np.allclose(ref, exp, atol=1e-9):
            raise vlib.MachineryError(f"refsem disagrees with the specification on {what}")
        qc = QC(len(ld), ld, 0)
        ok, got = ck.guard(f"{g}{p} on {ld}", lambda: np.asarray(vlib.add_op(qc, op, n).to_matrix()), what)
        if ok and not np.allclose(got @ got.conj().T, np.eye(len(exp)), atol=1e-9):
            ck.violation(f"matrix of {g}{p} on dims {ld} is not unitary", {**what, "got": got})
    if ok and (got.shape != exp.shape or not np.allclose(got, exp, atol=1e-9)):
        ck.violation(f"matrix of {g}{p} on dims {ld} differs from the gate table", {**what, "got": got, "expected": exp})
    ck.ok()
    if len(ck.samples) < 3:
        ck.sample(what)


def relation(ck, r, n, QC):
    ld = r["ld"]

    def prod(ops):
        qc = QC(len(ld), ld, 0)
        m = np.eye(int(np.prod(ld)), dtype=complex)
        for op in ops:
            m = vlib.add_op(qc, op, n).to_matrix(2) @ m
        return m

    what = {"relation": r["name"], "dims": ld, "lhs": r["lhs"], "rhs": r["rhs"]}
    ok, sides = ck.guard(f"{r['name']} on {ld}", lambda: (prod(r["lhs"]), prod(r["rhs"])), what)
    if ok and not np.allclose(*sides, atol=1e-9):
        ck.violation(f"gate algebra broken: {r['name']} on dims {ld}", what)
    ck.ok()


def special(ck, QC):
    """Default parameters, the noisez alias and random unitaries (contract: one fixed unitary per gate object)."""
    for d0, d1 in [(2, 2), (3, 4), (4, 2)]:
        m = QC(2, [d0, d1], 0).cx([0, 1]).to_matrix()
        if not np.allclose(m, refsem.gate("cx", [d0, d1], [0, 1, 1, 0.0]), atol=1e-9):
            ck.violation(f"default cx on dims {[d0, d1]} is not the gate with levels 0,1, control 1, phase 0", {"dims": [d0, d1]})
        ck.ok()
    for d in (2, 3, 5):
        for lev in range(d):
            m = QC(1, [d], 0).noisez(0, lev).to_matrix()
            if not np.allclose(m, refsem.gate("virtrz", d, [lev, math.pi]), atol=1e-9):
                ck.violation(f"noisez({lev}) on dimension {d} is not the phase flip of its level", {"d": d, "level": lev})
            ck.ok()
    for ld in ([2, 2], [2, 3], [3, 2, 2]):
        qc = QC(len(ld), ld, 0)
        g, h = qc.randu(list(range(len(ld)))), qc.randu(list(range(len(ld))))
        a, b = np.asarray(g.to_matrix()), np.asarray(g.to_matrix())
        if not np.allclose(a @ a.conj().T, np.eye(len(a)), atol=1e-9) or len(a) != int(np.prod(ld)):
            ck.violation(f"randu on dims {ld} is not unitary", {"dims": ld})
        if not np.allclose(a, b):
            ck.violation(f"randu on dims {ld} denotes a different matrix on every read", {"dims": ld})
        if np.allclose(a, h.to_matrix()):
            ck.violation("two randu gates denote the same unitary", {"dims": ld})
        ck.ok()
