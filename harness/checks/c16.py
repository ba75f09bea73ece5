"""C16: the verifier accepts exactly the sequences that realise their target, and the small simulators compute the specified operators."""
import numpy as np
import vlib

ONE = ["h", "x", "z", "s", "rxy", "rz", "rh", "virtrz", "pm", "noisex", "cuone", "rxy", "rz"]
TWO = ["csum", "cx", "ls", "ms", "cutwo", "mono2"]
ANY = ["h", "x", "z", "rxy", "rz", "rh", "virtrz", "csum", "cx", "ls", "ms", "cuone", "cutwo"]


def run(ck):
    vlib.load_repo()
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import UnitaryVerifier, mini_sim, mini_unitary_sim, phy_sdit_sim
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    k = 1 if ck.quick else 10
    answers = {True: 0, False: 0}

    def drawn(dims, fams, num, seed, placed, ctl=0, rev=0, n=24, depth=5):
        t = ck.used(vlib.run_tlc("Verifier", dict(N=n, CycPoly=vlib.cyc_poly(n), NProg=num, Seed=seed, MinDepth=1, Depth=depth, DimsList=dims, Fams=fams,
                                                  DagPct=30, CtlPct=ctl, RevPct=rev, LevRevPct=0, MaxCtl=1, AllCols=True, Echo=False, Emit=True,
                                                  Placed=placed),
                                 spec="SpecV", invariants=["NormOK", "UnalteredOK"], extra="ASSUME CycloOK"))
        t.records.sort(key=lambda r: r["id"])
        for r in t.records:
            r["N"] = n
            r["unitary"] = np.array([vlib.vec(v, s, n) for v, s in zip(r["v"], r["s2"])]).T
            r["target"] = np.array([vlib.vec(v, s, n) for v, s in zip(r["tv"], r["ts2"])]).T
        return t.records

    def ask(rec, placed):
        d = rec["dims"]
        sh = {**vlib.show(rec), "kind": rec["kind"], "ini": rec["ini"], "fin": rec["fin"]}
        qc = vlib.build(rec)
        other = QuantumCircuit(QuantumRegister("t", len(d), list(d)))
        target = other.cu_one(0, rec["target"]) if len(d) == 1 else other.cu_two([0, 1], rec["target"])
        kw = {}
        if placed:
            # any listing of the levels: nodes[i] is stored in mapping[i]
            nodes = list(np.random.default_rng(rec["id"]).permutation(d[0]))
            nodes = [int(x) for x in nodes]
            kw = dict(nodes=nodes, initial_map=[rec["ini"][x] for x in nodes], final_map=[rec["fin"][x] for x in nodes])
        ok, v = ck.guard("UnitaryVerifier", lambda: UnitaryVerifier(list(qc.instructions), target, list(d), **kw), sh)
        if not ok:
            return
        for turn in (1, 2):
            ok, got = ck.guard("verify", v.verify, sh)
            if ok and bool(got) != rec["verdict"]:
                ck.violation(f"the verifier answers {bool(got)} where the sequence {'realises' if rec['verdict'] else 'does not realise'} its target, "
                             f"dims {d}, call {turn}", sh)
        answers[rec["verdict"]] += 1
        ck.ok()
        ck.sample(sh)

    with np.errstate(all="ignore"):
        for rec in drawn([[2], [3], [4], [6]], ONE, 160 * k, ck.seed + 1600, False):
            ask(rec, False)
        for rec in drawn([[2], [3], [4], [6]], ONE, 160 * k, ck.seed + 1601, True):
            ask(rec, True)
        for rec in drawn([[2, 3], [3, 2], [2, 2], [3, 3]], TWO, 100 * k, ck.seed + 1602, False):
            ask(rec, False)
    # the small simulators
    for rec in drawn([[2, 3], [3, 2, 2], [2, 2], [4, 3], [3], [2, 3, 2]], ANY, 120 * k, ck.seed + 1603, False, ctl=30, rev=50):
        sh = vlib.show(rec)
        qc = vlib.build(rec)
        ok, u = ck.guard("mini_unitary_sim", lambda: mini_unitary_sim(qc, qc.instructions), sh)
        if ok and not np.allclose(u, rec["unitary"], atol=1e-7):
            ck.violation(f"mini_unitary_sim differs from the specification on dims {rec['dims']}", sh)
        ok, s = ck.guard("mini_sim", lambda: mini_sim(qc), sh)
        if ok and not np.allclose(s, rec["unitary"][:, 0], atol=1e-7):
            ck.violation(f"mini_sim differs from the specification on dims {rec['dims']}", sh)
        ck.ok()
    t = ck.used(vlib.trails(840, [[2] * 8, [3, 2, 3, 2, 3], [5, 2, 7, 2], [2, 2, 3, 2, 2, 2], [12, 2, 3]], vlib.TRAIL_FAMS, ck.seed + 1690, 10 * k, 20, 40))
    for rec in t.records:
        sh, exp = vlib.show(rec), vlib.trail_state(rec)
        qc = vlib.build(rec)
        ok, s = ck.guard("mini_sim", lambda: mini_sim(qc), sh)
        if ok and not np.allclose(s, exp, atol=1e-6):
            ck.violation(f"mini_sim: a program of {len(rec['prog'])} gates on dims {rec['dims']} ends in another state than specified", sh)
        ok, u = ck.guard("mini_unitary_sim", lambda: mini_unitary_sim(qc, qc.instructions), sh)
        if ok and not np.allclose(u[:, 0], exp, atol=1e-6):
            ck.violation(f"mini_unitary_sim: a program of {len(rec['prog'])} gates on dims {rec['dims']} is another operator than specified", sh)
        ck.ok()
    for rec in drawn([[2], [3], [4], [6]], ONE, 80 * k, ck.seed + 1604, True):
        sh = {**vlib.show(rec), "place": rec["ini"]}
        qc = vlib.build(rec)
        qc.set_mapping([list(rec["ini"])])
        ok, s = ck.guard("phy_sdit_sim", lambda: phy_sdit_sim(qc), sh)
        if ok and not np.allclose(s, rec["unitary"][:, rec["ini"][0]], atol=1e-7):
            ck.violation(f"phy_sdit_sim does not start from the placed ground level on dims {rec['dims']}", {**sh, "got": s})
        ck.ok()
    ck.extra["verdicts"] = {str(a): n for a, n in answers.items()}
