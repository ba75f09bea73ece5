"""C03: the decision-diagram simulator returns the state the specification assigns to the circuit."""
import numpy as np
import vlib

FAMS = ["h", "x", "z", "s", "rxy", "rz", "rh", "virtrz", "csum", "cx", "csum", "cx"]
CONFIGS = [
    (24, [[2, 3], [3, 2, 2], [2, 3, 4], [4, 3], [2, 2, 2, 2], [3, 3, 3], [2], [3], [4], [2, 2, 3], [6, 2], [6]], 260),
    (40, [[5, 2], [2, 5], [5, 4], [5]], 60),
    (56, [[7, 2], [2, 7], [7]], 24),
]
# every gate of the simulator on every pair of dimensions it supports, on a register that occupies every basis state
SWEEPS = [
    (24, [[a, b] for a in range(2, 8) for b in range(2, 8)], ["cx", "csum"], 3),
    (24, [[3, 2, 4], [4, 3, 2], [2, 5, 3], [6, 2, 2], [2, 2, 6]], ["cx", "csum"], 5),
    (24, [[d] for d in range(2, 8)], ["x", "rxy", "rz", "rh", "virtrz"], 1),
    (24, [[2], [3], [4], [6]], ["h", "z", "s"], 1),
    (40, [[5]], ["h", "z", "s"], 1),
    (56, [[7]], ["h", "z", "s"], 1),
]
UNSUPPORTED = ["ls", "ms", "pm", "noisex", "noisey", "cuone", "cutwo", "mono3"]


def run(ck):
    vlib.load_repo(cpp=True)
    from mqt.qudits.simulation import MQTQuditProvider
    mi = MQTQuditProvider().get_backend("misim")
    k = 1 if ck.quick else 12

    def state(qc):
        return np.asarray(mi.run(qc).result().get_state_vector()).reshape(-1)

    for i, (n, dims, num) in enumerate(CONFIGS):
        t = ck.used(vlib.programs(n, dims, FAMS, ck.seed + 300 + i, num * k, 1, 9, ctl=0, levrev=8))
        for rec in t.records:
            exp, sh = rec["states"][0], vlib.show(rec)
            if any(o["g"] in ("rxy", "rz", "rh") and o["p"][0] > o["p"][1] for o in rec["prog"]):
                try:  # levels in descending order: rejected, or simulated correctly
                    ok, got = True, state(vlib.build(rec))
                except ValueError:
                    ck.ok()
                    continue
            else:
                ok, got = ck.guard("misim", lambda: state(vlib.build(rec)), sh)
            if ok and (got.shape != exp.shape or not np.allclose(got, exp, atol=1e-6)):
                ck.violation(f"misim state differs from the specification on dims {rec['dims']}", {**sh, "got": got, "expected": exp})
            ck.ok()
            ck.sample(sh)
    for n, dims, fams, thin in SWEEPS:
        t = ck.used(vlib.sweep(n, dims, fams, ck.seed, thin if ck.quick else 1))
        for rec in t.records:
            exp, sh = rec["states"][0], vlib.show(rec)
            ok, got = ck.guard("misim", lambda: state(vlib.build(rec)), sh)
            if ok and (got.shape != exp.shape or not np.allclose(got, exp, atol=1e-6)):
                ck.violation(f"misim: {sh['prog'][-1]} on dims {rec['dims']} differs from the specification", {**sh, "got": got, "expected": exp})
            ck.ok()
    # long programs on wide registers, followed branch by branch
    t = ck.used(vlib.trails(840, [[2, 3, 4, 5, 2, 3], [2] * 10, [7, 2, 5, 3], [6, 3, 4, 7], [3] * 6, [2] * 12, [5, 7, 6]],
                            ["x", "z", "s", "rxy", "rz", "virtrz", "csum", "cx", "csum", "cx"], ck.seed + 340, 21 * k, 40, 120, ctl=0))
    for rec in t.records:
        sh = vlib.show(rec)
        ok, got = ck.guard("misim", lambda: state(vlib.build(rec)), sh)
        if ok and not np.allclose(got, vlib.trail_state(rec), atol=1e-6):
            ck.violation(f"misim: a program of {len(rec['prog'])} gates on dims {rec['dims']} ends in another state than specified", sh)
        ck.ok()
    # controlled gates: recorded finding; the observed behaviour is exactly "controls dropped"
    dims = [[2, 3], [3, 2, 2], [2, 2, 3]]
    t = ck.used(vlib.programs(24, dims, FAMS[:8], ck.seed + 350, 60 * k, 1, 4, ctl=60, levrev=0))
    for rec in t.records:
        exp, sh = rec["states"][0], vlib.show(rec)
        ok, got = ck.guard("misim", lambda: state(vlib.build(rec)), sh)
        if not ok:
            continue
        if not np.allclose(got, exp, atol=1e-6):
            dropped = vlib.build({**rec, "prog": [{**o, "ctl": []} for o in rec["prog"]]})
            import refsem
            want = refsem.run(dropped.instructions, rec["dims"])
            key = "misim-controls-ignored" if any(o["ctl"] for o in rec["prog"]) and np.allclose(got, want, atol=1e-6) else None
            ck.violation(f"misim state of a controlled program differs from the specification on dims {rec['dims']}",
                         {**sh, "got": got, "expected": exp}, key)
        ck.ok()
    # gates the diagram simulator does not implement are rejected, never mis-simulated
    t = ck.used(vlib.programs(24, [[2, 3, 2], [3, 3, 2]], UNSUPPORTED, ck.seed + 360, 40 * k, 1, 1, ctl=0))
    for rec in t.records:
        op = rec["prog"][0]
        if op["g"] == "x" and not op["cus"]:
            continue
        sh = vlib.show(rec)
        try:
            got = state(vlib.build(rec))
        except Exception:  # noqa: BLE001
            ck.ok()
            continue
        if not np.allclose(got, rec["states"][0], atol=1e-6):
            ck.violation(f"misim accepts {sh['prog'][0]} and returns another state than the specification", {**sh, "got": got})
        ck.ok()
    # a run does not remember the previous one
    t = ck.used(vlib.programs(24, [[2, 3]], FAMS, ck.seed + 370, 6, 3, 6, ctl=0))
    built = [(r, vlib.build(r)) for r in t.records]
    for r, qc in built + built[::-1]:
        ok, got = ck.guard("misim rerun", lambda: state(qc), vlib.show(r))
        if ok and not np.allclose(got, r["states"][0], atol=1e-6):
            ck.violation("misim rerun of a circuit differs from the specification", vlib.show(r))
        ck.ok()
