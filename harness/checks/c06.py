"""C06: DITQASM text and circuits denote each other (reader against the specification's text, writer against its statements, round trip)."""
import math, re
import numpy as np
import vlib

FAMS = [f for f in vlib.ALL_FAMS if not f.startswith(("cu", "mono"))]
CONFIGS = [
    (24, [[2, 3], [3, 2, 4], [2, 2], [4], [2, 2, 3, 2], [3, 3, 2], [6, 2]], 200),
    (40, [[5, 2], [2, 5, 2]], 40),
]


def corpus(ck, n, dl, num, seed, ctl=40):
    return ck.used(vlib.run_tlc("Qasm", dict(N=n, CycPoly=vlib.cyc_poly(n), NProg=num, Seed=seed, MinDepth=1, Depth=7,
                   DimsList=dl, Fams=FAMS, DagPct=0, CtlPct=ctl, RevPct=50, LevRevPct=30, MaxCtl=2, AllCols=False, Echo=False, Emit=True),
                   spec="SpecQ", invariants=["RoundTrip", "PrefixOK"], extra="ASSUME CycloOK"))


def register_circuit(rec):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    qc, at = None, 0
    for name, size in rec["regs"]:
        qr = QuantumRegister(name, size, list(rec["dims"][at:at + size]))
        at += size
        if qc is None:
            qc = QuantumCircuit(qr)
        else:
            qc.append(qr)
    for i, op in enumerate(rec["prog"]):
        vlib.add_op(qc, {**op, "nudge": vlib.NUDGES[(rec["id"] + i) % len(vlib.NUDGES)]}, rec["N"])
    return qc


REF = r"\w+\s*\[\s*\d+\s*\]"
STMT = re.compile(rf"^(\w+)\s*(?:\((.*)\))?\s*({REF}(?:\s*,\s*{REF})*)\s*(?:ctl\s+({REF}(?:\s+{REF})*)\s*\[([\d,\s]*)\])?\s*;$")


def normal(stmt):
    """One gate statement -> (tag, numeric params, refs, control refs, levels); independent of spacing and angle spelling."""
    m = STMT.match(stmt.strip())
    if not m:
        return ("unreadable", stmt)
    tag, params, refs, crefs, levs = m.groups()
    ps = [round(float(eval(p.replace("[", "").replace("]", ""), {"__builtins__": {}}, {"pi": math.pi})), 9) for p in params.split(",")] if params else []
    squeeze = lambda s: re.sub(r"\s", "", s)  # noqa: E731
    rs = [squeeze(x) for x in refs.split(",")]
    cs = [squeeze(x) for x in re.findall(REF, crefs)] if crefs else []
    ls = [int(x) for x in levs.split(",")] if levs else []
    return (tag, ps, rs, cs, ls)


def gate_statements(text):
    return [ln.strip() for ln in text.split("\n") if ln.strip() and not re.match(r"(DITQASM|qreg|creg|measure|barrier|//)", ln.strip())]


def frame(lines):
    """Header, declarations and measurements, independent of spacing and of spelling out qubit dimensions."""
    out = []
    for ln in lines:
        ln = ln.strip()
        if not re.match(r"(DITQASM|qreg|creg|measure)", ln):
            continue
        m = re.match(r"qreg\s+(\w+)\s*\[\s*(\d+)\s*\]\s*(?:\[([\d,\s]*)\])?\s*;$", ln)
        out.append(("qreg", m[1], int(m[2]), [int(x) for x in m[3].split(",")] if m[3] else [2] * int(m[2])) if m else re.sub(r"\s+", "", ln))
    return out


def run(ck):
    vlib.load_repo()
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.simulation import MQTQuditProvider
    tn = MQTQuditProvider().get_backend("tnsim")
    k = 1 if ck.quick else 10

    def same(a, b, rec, what, sh):
        if list(a.dimensions) != list(rec["dims"]) or len(a.instructions) != len(b.instructions) or a.number_gates != len(b.instructions) or a.num_qudits != len(rec["dims"]):
            ck.violation(f"{what}: dimensions {a.dimensions}, {len(a.instructions)} gates (number_gates {a.number_gates}); expected {rec['dims']}, {len(b.instructions)}", sh)
            return
        for i, (g, h) in enumerate(zip(a.instructions, b.instructions)):
            if g.qasm_tag != h.qasm_tag or sorted(g.reference_lines) != sorted(h.reference_lines) or not np.allclose(g.to_matrix(2), h.to_matrix(2), atol=1e-9):
                ck.violation(f"{what}: gate {i} ({sh['prog'][i]}) denotes another operator on dims {rec['dims']}", sh)
                return
        st = np.asarray(tn.run(a).result().get_state_vector()).reshape(-1)
        if not np.allclose(st, rec["states"][0], atol=1e-7):
            ck.violation(f"{what}: simulated state differs from the specification on dims {rec['dims']}", sh)

    used = QuantumCircuit(2, [3, 3], 0)
    used.h(0)
    for i, (n, dl, num) in enumerate(CONFIGS):
        t = corpus(ck, n, dl, num * k, ck.seed + 600 + i)
        for rec in t.records:
            rec["N"] = n
            rec["states"] = [vlib.vec(v, s, n) for v, s in zip(rec["v"], rec["s2"])]
            text = "\n".join(rec["text"])
            sh = {**vlib.show(rec), "text": text}
            ok, qc = ck.guard("building the circuit", lambda: register_circuit(rec), sh)
            if not ok:
                continue
            target = used if rec["id"] % 3 == 0 else QuantumCircuit()

            def read(tx, tgt):
                tgt.from_qasm(tx)
                return tgt
            ok, got = ck.guard("from_qasm of the specification's text", lambda: read(text, target), sh)
            if ok:
                ck.guard("reading back", lambda: same(got, qc, rec, "from_qasm", sh), sh)
                regs = [[r.label, r.size, list(r.dimensions)] for r in got.quantum_registers]
                at, want = 0, []
                for nm, sz in rec["regs"]:
                    want.append([nm, sz, list(rec["dims"][at:at + sz])])
                    at += sz
                if regs != want:
                    ck.violation(f"from_qasm: registers {regs}, expected {want}", sh)
                if [[r.label, r.size] for r in got.classic_registers] != [["meas", len(rec["dims"])]]:
                    ck.violation(f"from_qasm: classical registers {[[r.label, r.size] for r in got.classic_registers]}", sh)
            ok, out = ck.guard("to_qasm", qc.to_qasm, sh)
            if ok:
                a, b = [normal(s) for s in gate_statements(out)], [normal(s) for s in rec["stmts"]]
                if a != b:
                    j = next((j for j in range(max(len(a), len(b))) if j >= len(a) or j >= len(b) or a[j] != b[j]), 0)
                    ck.violation(f"to_qasm writes {a[j] if j < len(a) else None}, expected {b[j] if j < len(b) else None}", {**sh, "out": out})
                fa, fb = frame(out.split("\n")), frame(rec["frame"])
                if fa != fb:
                    ck.violation(f"to_qasm declares and measures {[x for x in fa if x not in fb][:2]}, expected {[x for x in fb if x not in fa][:2]}", {**sh, "out": out})
                ok, back = ck.guard("from_qasm of to_qasm", lambda: read(out, QuantumCircuit()), {**sh, "out": out})
                if ok:
                    ck.guard("reading back", lambda: same(back, qc, rec, "round trip", sh), sh)
                    if back.to_qasm() != out:
                        ck.violation("to_qasm of the reloaded circuit differs from the text it was loaded from", {**sh, "out": out})
            ck.ok()
            ck.sample({**vlib.show(rec), "text": rec["text"]})
    wide(ck, QuantumCircuit)
    daggers(ck, tn, QuantumCircuit)
    rejected(ck, QuantumCircuit)


def wide(ck, QC):
    """Registers of a dozen lines, levels and lines of two digits, texts of many statements (spec/Trail.tla)."""
    import refsem

    def data(g):
        tag, lines, d, p, dag, ctl = refsem.read_gate(g)
        return tag, list(lines), dag, sorted(map(tuple, ctl))
    fams = ["x", "z", "s", "pm", "rxy", "rz", "virtrz", "noisex", "noisey", "csum", "cx", "ls"]
    t = ck.used(vlib.trails(840, [[2] * 13, [2, 3] * 6, [2, 12, 11], [15, 14, 2], [3] * 8], fams, ck.seed + 690, 15 if ck.quick else 120, 20, 50,
                            text=True, dag=0, ctl=40, levrev=30))
    for rec in t.records:
        text = "\n".join(rec["text"])
        sh = {**vlib.show(rec), "text": text}
        qc = register_circuit(rec)
        got = QC()
        ok, _ = ck.guard("from_qasm of the specification's text", lambda: got.from_qasm(text), sh)  # noqa: B023
        if ok:
            judge_wide(ck, rec, got, qc, data, "from_qasm", sh)
        ok, out = ck.guard("to_qasm", qc.to_qasm, sh)
        if not ok:
            continue
        a, b = [normal(s) for s in gate_statements(out)], [normal(s) for s in rec["stmts"]]
        if a != b:
            ck.violation(f"to_qasm writes {[x for x in a if x not in b][:1]}, expected {[x for x in b if x not in a][:1]}", {**sh, "out": out})
        back = QC()
        ok, _ = ck.guard("from_qasm of to_qasm", lambda: back.from_qasm(out), {**sh, "out": out})  # noqa: B023
        if ok:
            judge_wide(ck, rec, back, qc, data, "round trip", sh)
        ck.ok()


def judge_wide(ck, rec, got, qc, data, what, sh):
    import refsem
    if list(got.dimensions) != rec["dims"] or len(got.instructions) != len(qc.instructions) or got.num_qudits != len(rec["dims"]):
        ck.violation(f"{what}: dimensions {got.dimensions}, {len(got.instructions)} gates; expected {rec['dims']}, {len(qc.instructions)}", sh)
        return
    for i, (g, h) in enumerate(zip(got.instructions, qc.instructions)):
        if data(g) != data(h) or not np.allclose(refsem.gate_matrix(g), refsem.gate_matrix(h), atol=1e-9):
            ck.violation(f"{what}: gate {i} ({sh['prog'][i]}) is {data(g)} {g.params if hasattr(g, 'params') else ''}, expected {data(h)}, on dims {rec['dims']}", sh)
            return
    if not np.allclose(refsem.run(got.instructions, rec["dims"]), vlib.trail_state(rec), atol=1e-6):
        ck.violation(f"{what}: another program than specified on dims {rec['dims']}", sh)


def daggers(ck, tn, QC):
    """Recorded finding: the text has no notion of a daggered gate; the observed behaviour is 'the dagger is dropped'."""
    t = ck.used(vlib.programs(24, [[3, 2], [2, 3, 2]], FAMS, ck.seed + 650, 30 if ck.quick else 200, 1, 3, dag=60, ctl=0))
    for rec in t.records:
        sh = vlib.show(rec)

        def go(r):
            c = QC()
            c.from_qasm(vlib.build(r).to_qasm())
            return np.asarray(tn.run(c).result().get_state_vector()).reshape(-1)
        ok, got = ck.guard("round trip", lambda: go(rec), sh)
        if ok and not np.allclose(got, rec["states"][0], atol=1e-7):
            plain = {**rec, "prog": [{**o, "dag": False} for o in rec["prog"]]}
            dropped = any(o["dag"] for o in rec["prog"]) and np.allclose(
                got, np.asarray(tn.run(vlib.build(plain)).result().get_state_vector()).reshape(-1), atol=1e-7)
            ck.violation("QASM round trip of daggered gates changes the circuit", sh, "qasm-dagger-dropped" if dropped else None)
        ck.ok()


def rejected(ck, QC):
    """Statements outside the format are refused, never skipped."""
    head = "DITQASM 2.0;\nqreg q [2][3,3];\ncreg meas [2];\n"
    for bad in ["foo q[0];", "xx (1) q[0], q[1];", "x q[0]", "x q[5];", "x r[0];", "rxy (0, 3, 1.0, 1.0) q[0];", "rz (0, 0, 1.0) q[1];",
                "x q[0] ctl q[1] [3];", "x q[0] ctl q[0] [1];", "hello world;"]:
        c = QC()
        try:
            c.from_qasm(head + bad + "\n")
        except Exception:  # noqa: BLE001
            ck.ok()
            continue
        ck.violation(f"from_qasm silently accepts {bad!r}", {"text": head + bad, "gates": len(c.instructions)})
