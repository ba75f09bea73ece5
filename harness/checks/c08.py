"""C08: circuit objects keep their books: every history of edits leaves the registers, maps and gate list the specification says."""
import numpy as np
import vlib

ALL = {"reg", "gate", "ctl", "dag", "edit", "reset", "copy"}


def observe(qc, regs):
    gates = []
    for g in qc.instructions:
        q = [g.target_qudits] if isinstance(g.target_qudits, int) else list(g.target_qudits)
        c = g.control_info["controls"]
        gates.append({"t": g.qasm_tag, "q": q, "ctl": [] if c is None else [list(x) for x in zip(c.indices, c.ctrl_states)], "dag": bool(g.dagger)})
        if g.parent_circuit is not qc:
            gates[-1]["foreign"] = True
    return {"regs": [[r.label, list(r.dimensions)] for r in qc.quantum_registers], "cl": [[r.label, r.size] for r in qc.classic_registers],
            "dims": list(qc.dimensions), "gates": gates, "map": qc.mappings or []}


def derived(qc, exp):
    """Everything else a user reads off the circuit follows from the observation."""
    bad = []
    if qc.num_qudits != len(exp["dims"]):
        bad.append(f"num_qudits {qc.num_qudits}")
    if qc.number_gates != len(exp["gates"]):
        bad.append(f"number_gates {qc.number_gates}, gates {len(exp['gates'])}")
    site, inv, line = {}, {}, 0
    for nm, ds in exp["regs"]:
        for i, d in enumerate(ds):
            site[nm, i] = (line, d)
            inv[line] = (nm, i)
            line += 1
    if dict(qc.sitemap) != site:
        bad.append(f"sitemap {qc.sitemap}")
    if dict(qc.inverse_sitemap) != inv:
        bad.append(f"inverse_sitemap {qc.inverse_sitemap}")
    cs, n = {}, 0
    for nm, size in exp["cl"]:
        for i in range(size):
            cs[nm, i] = (n,)
            n += 1
    if dict(qc.classic_site_map) != cs or qc.num_cl != n:
        bad.append(f"classical map {qc.classic_site_map}, num_cl {qc.num_cl}")
    if {k: v for k, v in qc.cl_inverse_sitemap.items()} != {v[0]: k for k, v in cs.items()}:
        bad.append(f"classical inverse map {qc.cl_inverse_sitemap}")
    for r, (nm, ds) in zip(qc.quantum_registers, exp["regs"]):
        want = [site[nm, i][0] for i in range(len(ds))]
        if [r[i] for i in range(len(ds))] != want or r[0:len(ds)] != want:
            bad.append(f"register {nm} indexes lines {[r[i] for i in range(len(ds))]}, expected {want}")
    for g, e in zip(qc.instructions, exp["gates"]):
        lines = [c[0] for c in e["ctl"]] + e["q"]
        if list(g.reference_lines) != lines:
            bad.append(f"reference_lines {g.reference_lines}, expected {lines}")
        want = {1: "SINGLE", 2: "TWO"}.get(len(lines), "MULTI")
        if g.gate_type.name != want:
            bad.append(f"gate type {g.gate_type.name} on lines {lines}")
    return bad


def start(first):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    regs = first
    qc = QuantumCircuit(QuantumRegister(regs[0][0], len(regs[0][1]), list(regs[0][1])))
    for nm, ds in regs[1:]:
        qc.append(QuantumRegister(nm, len(ds), list(ds)))
    return qc


def replay(ck, rec):
    from mqt.qudits.quantum_circuit import QuantumRegister
    from mqt.qudits.quantum_circuit.components import ClassicRegister
    log = [s for s in rec["log"] if s["op"] != "end"]
    hist = [{k: v for k, v in s.items() if k != "obs"} for s in log]
    dims0 = rec["dims0"]
    circ = [start(dims0), None]
    for n, s in enumerate(log):
        i, a = s["i"] - 1, s["arg"]
        qc = circ[i]
        out = "ok"
        try:
            if s["op"] == "append":
                qc.append(QuantumRegister(a["name"], len(a["dims"]), list(a["dims"])))
            elif s["op"] == "append_classic":
                qc.append_classic(ClassicRegister(a["name"], a["size"]))
            elif s["op"] == "gate":
                getattr(qc, a["t"])(a["q"][0] if len(a["q"]) == 1 else list(a["q"]))
            elif s["op"] == "control":
                qc.instructions[a["k"]].control([a["l"]], [a["lev"]])
            elif s["op"] == "dag":
                qc.instructions[a["k"]].dag()
            elif s["op"] == "replace":
                scratch = qc.copy()
                n0 = len(scratch.instructions)
                for g in a["new"]:
                    getattr(scratch, g["t"])(g["q"][0])
                new = scratch.instructions[n0:]
                for g in new:
                    g.parent_circuit = qc
                qc.replace_gate(a["k"], new)
            elif s["op"] == "set_reversed":
                qc.set_instructions(list(reversed(qc.instructions)))
            elif s["op"] == "set_empty":
                qc.set_instructions([])
            elif s["op"] == "set_mapping":
                qc.set_mapping([list(x) for x in a["m"]])
            elif s["op"] == "reset":
                qc.reset()
            elif s["op"] == "copy":
                circ[i] = circ[1 - i].copy()
        except Exception as e:  # noqa: BLE001
            out = type(e).__name__
        rp = {"start": dims0, "history": hist[:n + 1]}
        if (out == "ok") != (s["out"] == "ok") or (s["out"] == "IndexError" and out != "IndexError"):
            ck.violation(f"step {n} {s['op']} {a}: outcome {out}, specified {s['out']}", rp)
            return
        for j in (0, 1):
            e = s["obs"][j]
            if not e["live"]:
                continue
            exp = {k: e[k] for k in ("regs", "cl", "dims", "gates", "map")}
            try:
                got, bad = observe(circ[j], exp["regs"]), derived(circ[j], exp)
            except Exception as ex:  # noqa: BLE001
                ck.violation(f"reading the circuit after step {n} {s['op']}: {type(ex).__name__}: {ex}", rp)
                return
            if got != exp:
                f = next(k for k in exp if got[k] != exp[k])
                ck.violation(f"after {s['op']} on circuit {i + 1}, circuit {j + 1} has {f} = {got[f]}, specified {exp[f]}", rp)
                return
            if bad:
                ck.violation(f"after {s['op']}: {bad[0]}", rp)
                return
    ck.ok()


def run(ck):
    vlib.load_repo()
    runs = [vlib.run_tlc("CircuitBook", dict(MaxLen=2 if ck.quick else 3, MaxGates=4, MaxLines=5, Kinds=ALL), spec="Spec",
                         invariants=["WellFormed"], properties=["Isolated"]),
            vlib.simulate("CircuitBook", dict(MaxLen=12, MaxGates=6, MaxLines=6, Kinds=ALL), 400 if ck.quick else 8000, 14, ck.seed, invariants=["WellFormed"]),
            vlib.simulate("CircuitBook", dict(MaxLen=10, MaxGates=6, MaxLines=5, Kinds={"gate", "ctl", "dag", "copy", "edit"}), 400 if ck.quick else 8000, 12,
                          ck.seed + 1, invariants=["WellFormed"])]
    for t in runs:
        ck.used(t)
        for rec in t.records:
            rec["dims0"] = rec["regs0"]
            replay(ck, rec)
            ck.sample([{k: v for k, v in s.items() if k != "obs"} for s in rec["log"][:-1]])
    constructors(ck)


def constructors(ck):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    for n, ds in [(1, [3]), (2, [2, 5]), (3, [4, 2, 3]), (3, None)]:
        want = [2] * n if ds is None else ds
        qc = QuantumCircuit(n, ds, 0)
        bad = derived(qc, {"regs": [["q", want]], "cl": [], "dims": want, "gates": [], "map": []})
        if list(qc.dimensions) != want or bad:
            ck.violation(f"QuantumCircuit({n}, {ds}, 0): {bad or qc.dimensions}", {"n": n, "dims": ds})
        ck.ok()
    e = QuantumCircuit()
    if e.num_qudits or e.dimensions or e.instructions:
        ck.violation("QuantumCircuit() is not empty", {})
    a, b = QuantumCircuit(QuantumRegister("q", 2)), QuantumCircuit(QuantumRegister("q", 1, [3]))
    a.x(0)
    if list(a.dimensions) != [2, 2] or list(b.dimensions) != [3] or b.instructions:
        ck.violation("two fresh circuits share state", {})
    ck.ok()
