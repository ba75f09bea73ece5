"""C02: the tensor-network simulator returns the state the specification assigns to the circuit."""
import numpy as np
import vlib

CONFIGS = [
    # ring, registers, families
    (24, [[2, 3], [3, 2, 2], [2, 3, 4], [4, 3], [2, 2, 2, 2], [6, 2], [3, 3, 3], [2, 4, 3, 2]], vlib.ALL_FAMS),
    # wide mixed registers: gates over gaps of several unequal lines
    (24, [[2, 3, 2, 3], [2, 4, 3, 2, 2], [3, 2, 2, 4, 2], [2, 3, 4, 2, 2]], ["csum", "cx", "csum", "cutwo", "ls", "ms", "mono2", "x", "h", "rxy"]),
    (40, [[5, 2], [2, 5], [5, 4], [2, 2, 5]], vlib.ALL_FAMS),
    (56, [[7, 2], [2, 7]], [f for f in vlib.ALL_FAMS if f != "h"] + ["h"]),
]

# every gate on a register that occupies every basis state: neighbours, a line between, a line before, a line behind
SWEEPS = [
    (24, [[a, b] for a in (2, 3, 4) for b in (2, 3, 4)] + [[2, 3, 4], [4, 2, 3], [3, 4, 2], [2, 2, 2]], ["cx", "csum", "ls", "ms"], 7),
    (24, [[2, 3], [3, 4], [6, 2]], ["h", "z", "x", "pm", "rxy", "rz", "rh", "virtrz", "noisex", "noisey"], 4),
    (24, [[5, 3], [3, 5], [7, 2]], ["cx", "csum", "x", "virtrz"], 7),
]


def run(ck):
    vlib.load_repo()
    from mqt.qudits.simulation import MQTQuditProvider
    tn = MQTQuditProvider().get_backend("tnsim")
    scale = 1 if ck.quick else 12
    for n, dims, fams, thin in SWEEPS:
        t = ck.used(vlib.sweep(n, dims, fams, ck.seed, thin if ck.quick else 1))
        for rec in t.records:
            exp, sh = rec["states"][0], vlib.show(rec)
            ok, got = ck.guard("tnsim", lambda: np.asarray(tn.run(vlib.build(rec)).result().get_state_vector()).reshape(-1), sh)
            if ok and (got.shape != exp.shape or not np.allclose(got, exp, atol=1e-7)):
                ck.violation(f"tnsim: {sh['prog'][-1]} on dims {rec['dims']} differs from the specification", {**sh, "got": got, "expected": exp})
            ck.ok()
    # long programs on wide registers and large dimensions, followed branch by branch
    t = ck.used(vlib.trails(840, [[2, 3, 4, 5, 2, 3], [2] * 9, [7, 2, 5, 3], [10, 3, 4], [3] * 6, [2, 12, 2], [8, 5, 6], [2, 11, 3]], vlib.TRAIL_FAMS,
                            ck.seed + 60, 16 * scale, 40, 90))
    for rec in t.records:
        sh = vlib.show(rec)
        ok, got = ck.guard("tnsim", lambda: np.asarray(tn.run(vlib.build(rec)).result().get_state_vector()).reshape(-1), sh)
        if ok and not np.allclose(got, vlib.trail_state(rec), atol=1e-6):
            ck.violation(f"tnsim: a program of {len(rec['prog'])} gates on dims {rec['dims']} ends in another state than specified", sh)
        ck.ok()
    for i, (n, dims, fams) in enumerate(CONFIGS):
        t = ck.used(vlib.programs(n, dims, fams, ck.seed + 10 * i, [240, 80, 60, 24][i] * scale, 2, 8, echo=False))
        for rec in t.records:
            exp = rec["states"][0]
            ok, qc = ck.guard("building the circuit", lambda: vlib.build(rec), vlib.show(rec))
            if not ok:
                continue
            ok, got = ck.guard("tnsim", lambda: np.asarray(tn.run(qc).result().get_state_vector()).reshape(-1), vlib.show(rec))
            if not ok:
                continue
            if got.shape != exp.shape or not np.allclose(got, exp, atol=1e-7):
                ck.violation(f"tnsim state differs from the specification on dims {rec['dims']}",
                             {**vlib.show(rec), "got": got, "expected": exp})
            ck.ok()
            ck.sample(vlib.show(rec))
