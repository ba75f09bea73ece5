"""C17: a circuit survives every route through the workflow: copying, text, files, rewriting, compiling, running, reading out."""
import os
import pathlib
import tempfile
import numpy as np
import compiled
import refsem
import vlib
from checks.c09 import FAMS, LOCAL

CONFIGS = [
    # registers, families, controls %, programs, program lengths, route lengths
    ([[2, 3], [3, 2], [2, 2], [3, 3]], FAMS, 25, 70, 1, 5, 2, 6),
    ([[2, 3, 2], [3, 2, 2]], LOCAL + ["cx", "csum", "ls", "cutwo"], 20, 16, 2, 6, 2, 5),
    ([[3], [4]], LOCAL, 0, 30, 1, 5, 2, 7),
]


def passes(backend, odd):
    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
    from mqt.qudits.compiler.onedit import LogLocAdaPass, LogLocQRPass, ZPropagationOptPass, ZRemovalOptPass
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass
    return {
        "O0": lambda qc: QuditCompiler().compile_O0(backend, qc),
        "O1": lambda qc: QuditCompiler.compile_O1(backend, qc),
        "O2": lambda qc: QuditCompiler.compile_O2(backend, qc),
        "custom-passes": lambda qc: QuditCompiler().compile(backend, qc, ["PhyEntQRCEXPass", "LocQRPass"]),
        "copy": copied,
        "text": through_text,
        "file": through_file,
        "twice": inverted_twice,
        "resynth": lambda qc: NaiveLocResynthOptPass(backend).transpile(qc),
        "loc": lambda qc: QuditCompiler().compile(backend, qc, ["LogLocQRPass"]) if odd else LogLocQRPass(backend).transpile(qc),
        "loc-ada": lambda qc: LogLocAdaPass(backend).transpile(qc),
        "ent": lambda qc: QuditCompiler().compile(backend, qc, ["LogEntQRCEXPass"]) if odd else LogEntQRCEXPass(backend).transpile(qc),
        "push-back": lambda qc: ZPropagationOptPass(backend, True).transpile(qc),
        "push-front": lambda qc: ZPropagationOptPass(backend, False).transpile(qc),
        "strip": lambda qc: ZRemovalOptPass(backend).transpile(qc),
    }


def copied(qc):
    """Work on with a copy; what then happens to the original is its own business."""
    out = qc.copy()
    qc.x(0)
    for g in qc.instructions:
        g.dag()
    return out


def through_text(qc):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    new = QuantumCircuit()
    new.from_qasm(qc.to_qasm())
    return new


def through_file(qc):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    with tempfile.TemporaryDirectory(prefix="c17-") as d:
        path = qc.save_to_file("circ", d)
        assert pathlib.Path(path).parent == pathlib.Path(d)
        new = QuantumCircuit()
        new.load_from_file(path)
    return new


def inverted_twice(qc):
    for _ in range(2):
        qc.set_instructions([g.dag() for g in reversed(qc.instructions)])
    return qc


def journey(ck, rec, num):
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.visualisation.plot_information import remap_result
    dims = list(rec["dims"])
    place = [list(line["place"]) for line in rec["dev"]]
    U = np.array([vlib.vec(v, s, rec["N"]) for v, s in zip(rec["v"], rec["s2"])]).T
    V = np.array([vlib.vec(v, s, rec["N"]) for v, s in zip(rec["pv"], rec["ps"])]).T
    backend = vlib.device_backend(rec["dev"])
    do = passes(backend, num % 2)
    sh = {**vlib.show(rec), "route": [s["step"] for s in rec["route"]]}
    nudged = [{**op, "nudge": vlib.NUDGES[(num + i) % len(vlib.NUDGES)]} for i, op in enumerate(rec["prog"])]
    ok, qc = ck.guard("building the circuit", lambda: vlib.build({**rec, "prog": nudged}), sh)
    if not ok:
        return
    want, maps = U, None
    for i, st in enumerate(rec["route"]):
        name = st["step"]
        here = {**sh, "step": i + 1, "before": compiled.vlib_instr(qc)}
        if name in ("text", "file") and any(g.dagger for g in qc.instructions):
            continue   # known: text has no daggers
        ok, out = ck.guard(f"step {name}", lambda: do[name](qc), here)  # noqa: B023
        if not ok:
            return
        if st["at"] == "device" and maps is None:
            maps = None if out.mappings is None else [list(m) for m in out.mappings]
            if maps is None or [sorted(m) for m in maps] != [sorted(p) for p in place]:
                ck.violation(f"compiling with {name} on dims {dims} announces level mappings {maps}", here)
                return
            want = compiled.place_matrix(maps) @ compiled.place_matrix(place).T @ V
        elif name in ("text", "file"):
            if out.mappings is not None:
                ck.violation(f"a circuit read back from {name} has level mappings {out.mappings}", here)
            out.set_mapping(maps) if maps is not None else None
        elif (None if out.mappings is None else [list(m) for m in out.mappings]) not in ([maps] if maps else [None, []]):
            ck.violation(f"{name} changes the level mappings from {maps} to {out.mappings}", here)
        if list(out.dimensions) != dims or out.num_qudits != len(dims) or out.number_gates != len(out.instructions):
            ck.violation(f"after {name} the circuit has dimensions {out.dimensions} and {out.number_gates} gates for {len(out.instructions)} instructions", here)
        ok, got = ck.guard(f"reading the circuit after {name}", lambda: compiled.operator(out), here)  # noqa: B023
        if not ok:
            return
        if got.shape != want.shape:
            ck.violation(f"after {name} the circuit has {got.shape[0]} levels, not {want.shape[0]}", here)
            return
        same = {"operator": lambda: np.allclose(got, want, atol=1e-6), "phase": lambda: vlib.same_up_to_phase(got, want, 5e-4),  # noqa: B023
                "outcome": lambda: np.allclose(abs(got) ** 2, abs(want) ** 2, atol=1e-3)}[st["keep"]]()  # noqa: B023
        if not same:
            ck.violation(f"after the route {[s['step'] for s in rec['route'][:i + 1]]} on dims {dims} the circuit is no longer the program ({st['keep']})",
                         {**here, "after": compiled.vlib_instr(out)})
            return
        qc = out
    # run what came out, and read it back on the logical levels
    tn = MQTQuditProvider().get_backend("tnsim")
    ok, psi = ck.guard("running the result", lambda: np.asarray(tn.run(qc).result().get_state_vector()).reshape(-1), sh)
    if ok:
        ref = want[:, 0]
        if not np.allclose(abs(psi) ** 2, abs(ref) ** 2, atol=1e-3):
            ck.violation(f"running the result of the route on dims {dims} gives other outcomes", {**sh, "got": psi})
        if num % 3 == 0 and not np.allclose(np.asarray(qc.simulate()).reshape(-1), psi, atol=1e-9):
            ck.violation("simulate() and running the circuit disagree", sh)
        back = np.asarray(remap_result(abs(psi) ** 2, qc)).reshape(-1)
        exp = abs(compiled.place_matrix(maps).T @ ref) ** 2 if maps else abs(ref) ** 2
        if not np.allclose(back, exp, atol=1e-3):
            ck.violation(f"reading the result back on the logical levels of {dims} gives other outcomes", {**sh, "mappings": maps})
    if [list(g.log_phy_map) for g in backend.energy_level_graphs] != place:
        ck.violation("the route moved the levels of the backend", sh)
    ck.ok(len(rec["route"]) + 1)


def run(ck):
    vlib.load_repo()
    scale = 1 if ck.quick else 10
    steps = {}
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="c17-cwd-") as d:
        os.chdir(d)
        try:
            for i, (dims, fams, ctl, num, lo, hi, rlo, rhi) in enumerate(CONFIGS):
                t = ck.used(vlib.run_tlc("Pipeline", dict(N=24, CycPoly=vlib.cyc_poly(24), NProg=num * scale, Seed=ck.seed + 1700 + i, MinDepth=lo, Depth=hi,
                                                          DimsList=dims, Fams=fams, DagPct=8, CtlPct=ctl, RevPct=50, LevRevPct=20, MaxCtl=1, AllCols=True,
                                                          Echo=False, Emit=False, Identity=False, MinRoute=rlo, MaxRoute=rhi), spec="SpecP",
                                         invariants=["NormOK", "DeviceOK", "RouteOK", "ReadOK"], extra="ASSUME CycloOK"))
                for k, rec in enumerate(sorted({r["id"]: r for r in t.records}.values(), key=lambda r: r["id"])):
                    rec["N"] = 24
                    ck.guard("replay", lambda: journey(ck, rec, k), vlib.show(rec))  # noqa: B023
                    ck.sample({**vlib.show(rec), "route": rec["route"]})
                    for s in rec["route"]:
                        steps[s["step"]] = steps.get(s["step"], 0) + 1
        finally:
            os.chdir(cwd)
    ck.extra["steps"] = steps
