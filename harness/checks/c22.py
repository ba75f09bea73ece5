"""C22: a noisy circuit is the circuit with noise of the model behind its gates, in the distribution the model states."""
import collections
import multiprocessing as mp
import numpy as np
import compiled
import noisy
import vlib

FAMS = ["h", "x", "rxy", "rxy", "rz", "rh", "virtrz", "s", "z", "cx", "cx", "csum", "ls", "ms", "cuone", "cutwo"]
MODES = ["local", "all", "nonlocal", "control", "target", "control", "target"]
CONFIGS = [
    # registers, families, kinds, controls %, programs, lengths
    ([[2], [3], [4]], FAMS, ["math", "sub", "dyn"], 0, 12, 1, 2),
    ([[2, 3], [3, 3], [3, 2]], FAMS, ["math", "sub", "dyn"], 50, 24, 1, 3),
    ([[3, 2, 2], [2, 2, 2], [3, 3, 3]], FAMS, ["math", "sub", "dyn"], 60, 24, 1, 3),
    ([[3, 3], [4, 4]], ["rxy", "rz", "rh", "cx"], ["dyn", "sub"], 30, 16, 1, 2),
]
ALPHA = 1e-10


def sample(args):
    rec, n, seed = args
    from mqt.qudits.simulation.noise_tools import NoisyCircuitFactory
    qc = vlib.build(rec)
    before = compiled.vlib_instr(qc)
    factory = NoisyCircuitFactory(noisy.model_of(rec), qc)
    if hasattr(factory, "rng"):
        factory.rng = np.random.default_rng(seed)
    counts, faults = collections.Counter(), set()
    for _ in range(n):
        out = factory.generate_circuit()
        counts[noisy.key(out.instructions)] += 1
        if out.number_gates != len(out.instructions):
            faults.add(f"the noisy circuit counts {out.number_gates} gates but has {len(out.instructions)}")
        if list(out.dimensions) != list(rec["dims"]):
            faults.add(f"the noisy circuit has dimensions {out.dimensions}")
    if compiled.vlib_instr(qc) != before or qc.number_gates != len(rec["prog"]):
        faults.add("generating a noisy circuit changed the circuit")
    return counts, sorted(faults)


def guarded(args):
    try:
        return sample(args)
    except Exception as e:  # noqa: BLE001
        return None, [f"generating a noisy circuit raised {type(e).__name__}: {str(e)[:200]}"]


def run(ck):
    vlib.load_repo()
    scale, n = (1, 1200) if ck.quick else (5, 4000)
    jobs = []
    for i, (dims, fams, kinds, ctl, num, lo, hi) in enumerate(CONFIGS):
        t = ck.used(vlib.noise_programs("tn", 24, dims, fams, ck.seed + 600 + i, num * scale, lo, hi, MODES, kinds, ctl=ctl, max_draws=150))
        jobs += [(rec, n, ck.seed * 1000 + i * 100 + k) for k, rec in enumerate(t.records) if rec["model"]]
    with mp.Pool(8) as pool:
        results = pool.map(guarded, jobs, chunksize=1)
    low = 1.0
    for (rec, _, _), (counts, faults) in zip(jobs, results):
        sh = noisy.show(rec)
        for f in faults:
            ck.violation(f, sh)
        if counts is None:
            continue
        probs = collections.Counter()
        for r in rec["runs"]:
            probs[noisy.key(vlib.build({**rec, "prog": r["noisy"]}).instructions)] += r["w"]
        p, bad = noisy.surprise(counts, probs, n)
        low = min(low, p) if not bad else low
        if bad:
            ck.violation(f"the noise model cannot produce this noisy circuit from {sh['prog']}", {**sh, "circuit": bad[0]})
        elif p < ALPHA:
            top = sorted(probs, key=lambda k: -abs(counts.get(k, 0) - n * probs[k]))[:3]
            ck.violation(f"noisy circuits of {sh['prog']} do not follow the noise model (p = {p:.2g})",
                         {**sh, "seen/expected": [(k, counts.get(k, 0), round(n * probs[k], 1)) for k in top]})
        ck.ok()
        ck.sample({**sh, "noisy programs": len(probs)})
    ck.extra.update({"noisy_circuits_sampled": n * len(jobs), "noise_entries": sum(len(j[0]["model"]) for j in jobs), "smallest_p_value": low})
