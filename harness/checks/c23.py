"""C23: the shots of a noisy run are independent samples of the outcome distribution the noise model implies."""
import collections
import tempfile
from pathlib import Path
import h5py
import numpy as np
import noisy
import vlib

ALPHA = 1e-10
TN = [
    ([[3], [2, 3], [2, 2]], ["h", "x", "rxy", "rz", "cx", "csum", "z", "virtrz"], ["math", "sub", "dyn"], 30, 14, 1, 4),
    ([[2, 3, 2]], ["h", "x", "rxy", "cx", "csum", "ls"], ["math", "sub"], 30, 6, 2, 4),
    ([[2] * 9], ["h", "h", "x", "rxy", "z", "cx", "csum"], ["sub", "math"], 0, 6, 7, 11),  # outcomes above 255
]
MI = [
    ([[3], [4], [2]], ["h", "x", "rxy", "rz", "z", "virtrz", "s"], ["math"], 0, 8, 1, 4),
    ([[2, 3], [3, 2], [2, 2, 3]], ["h", "x", "rxy", "cx", "cx", "csum", "csum", "z"], ["math"], 0, 14, 1, 4),
]
MODES = ["local", "all", "nonlocal", "control", "target"]


def by_state(states):
    return [np.round(np.asarray(s).ravel(), 5) + (0.0 + 0.0j) for s in states]


def judge(ck, name, rec, shots, full, tmp):
    from mqt.qudits.simulation import MQTQuditProvider
    rec = {**rec, "engine": "mi" if name == "misim" else "tn"}
    sh = {**noisy.show(rec), "backend": name, "shots": shots, "full_state_memory": full}
    qc, model = vlib.build(rec), noisy.model_of(rec)
    backend = MQTQuditProvider().get_backend(name)
    opts = {"full_state_memory": True} if full else {"memory": True}
    fname = f"r{rec['id']}{name}{int(full)}.h5"
    ok, res = ck.guard(f"running {name} with noise", lambda: backend.run(qc, noise_model=model, shots=shots, file_path=str(tmp), file_name=fname, **opts).result(), sh)
    if not ok:
        return 1.0
    counts = list(res.get_counts())
    if len(counts) != shots:
        ck.violation(f"{name}: {shots} shots asked, {len(counts)} returned", sh)
        return 1.0
    psi0 = np.asarray(res.get_state_vector()).ravel()
    if not np.allclose(psi0, clean(rec), atol=1e-6):
        ck.violation(f"{name}: the state vector of a noisy run is not the state without noise", sh)
    size = int(np.prod(rec["dims"]))
    if full:
        refs, probs = [], []
        for r in rec["runs"]:
            for i, s in enumerate(refs):
                if np.allclose(s, r["psi"], atol=1e-6):
                    probs[i] += r["w"]
                    break
            else:
                refs.append(r["psi"])
                probs.append(r["w"])
        refs_m = np.stack(refs)
        seen = collections.Counter()
        for c in counts:
            d = abs(refs_m - np.asarray(c).ravel()[None, :]).max(axis=1)
            i = int(np.argmin(d))
            seen[i if d[i] < 1e-5 else "a state the noise model cannot produce"] += 1
        p, bad = noisy.surprise(seen, dict(enumerate(probs)), shots)
        what = "noisy states"
    else:
        if not all(isinstance(c, (int, np.integer)) and 0 <= c < size for c in counts):
            ck.violation(f"{name}: shots are not basis states of the register", {**sh, "counts": counts[:10]})
            return 1.0
        dist = sum(r["w"] * abs(r["psi"]) ** 2 for r in rec["runs"])
        p, bad = noisy.surprise(collections.Counter(int(c) for c in counts), dict(enumerate(dist)), shots)
        what = "shots"
        sh["expected"] = [round(float(x), 4) for x in dist]
        sh["seen"] = [round(float(x), 4) for x in np.bincount(counts, minlength=size) / shots]
    if bad:
        ck.violation(f"{name}: {what} the noise model rules out", {**sh, "impossible": bad[:3]})
    elif p < ALPHA:
        ck.violation(f"{name}: {what} do not follow the distribution of the noise model (p = {p:.2g})", sh)
    ok, data = ck.guard("reading the saved results", lambda: stored(tmp / fname), sh)
    if ok:
        if full:
            same = data[0] == "vectors" and len(data[1]) == shots and all(np.allclose(a["vector_data"], np.asarray(b)) for a, b in zip(data[1], counts))
        else:
            same = data[0] == "shots" and [int(a["shot"]) for a in data[1]] == [int(c) for c in counts] and [int(a["nr"]) for a in data[1]] == list(range(shots))
        if not same:
            ck.violation(f"{name}: the saved results are not the results of the run", sh)
    ck.ok()
    return 1.0 if bad else p


def clean(rec):
    import refsem
    return refsem.run(vlib.build(rec).instructions, rec["dims"])


def stored(path):
    with h5py.File(path, "r") as f:
        (k,) = list(f.keys())
        return k, f[k][:]


def ideal(ck, scale):
    """Wide registers, noise that never strikes: every shot is one of the branches of the final state (spec/Trail.tla), each as often as any other."""
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.noise_tools.noise import Noise, NoiseModel
    for name, fams, dims in (("tnsim", [f for f in vlib.TRAIL_FAMS if not f.startswith("noise")], [[2] * 8, [3, 5, 2, 7], [2, 12, 11], [4, 3, 2, 3]]),
                             ("misim", ["x", "z", "s", "rxy", "rz", "virtrz", "csum", "cx"], [[2] * 10, [3, 5, 2, 7], [7, 6, 5], [4, 3, 2, 3]])):
        t = ck.used(vlib.trails(840, dims, fams, ck.seed + 780, 8 * scale, 8, 16, branches=7, ctl=0))
        for rec in t.records:
            sh = {**vlib.show(rec), "backend": name}
            model = NoiseModel()
            model.add_quantum_error_locally(Noise(0.0, 0.0), ["h", "x", "rxy", "z"])
            shots = 150
            ok, counts = ck.guard(f"running {name} with noise", lambda: list(MQTQuditProvider().get_backend(name).run(vlib.build(rec), noise_model=model, shots=shots).result().get_counts()), sh)  # noqa: B023
            if not ok:
                continue
            want = {int(np.ravel_multi_index(b[0], rec["dims"])): abs(b[1]) ** 2 for b in rec["branches"]}
            p, bad = noisy.surprise(collections.Counter(int(c) for c in counts), want, shots)
            if len(counts) != shots or bad or p < ALPHA:
                ck.violation(f"{name}: {len(counts)} shots of {shots}, impossible {bad[:3]}, p = {p:.2g} on dims {rec['dims']}", sh)
            ck.ok()


def run(ck):
    vlib.load_repo(cpp=True)
    scale, shots = (1, 2500) if ck.quick else (5, 20000)
    low, n = 1.0, 0
    with tempfile.TemporaryDirectory(prefix="c23-") as tmp:
        for name, eng, configs in (("tnsim", "tn", TN), ("misim", "mi", MI)):
            for i, (dims, fams, kinds, ctl, num, lo, hi) in enumerate(configs):
                t = ck.used(vlib.noise_programs(eng, 24, dims, fams, ck.seed + 700 + 10 * i, num * scale, lo, hi, MODES, kinds, ctl=ctl, max_draws=150))
                for rec in t.records:
                    if rec["model"]:
                        low = min(low, judge(ck, name, rec, shots if len(rec["dims"]) < 5 else shots // 8, n % 3 == 2, Path(tmp)))
                        n += 1
                        ck.sample(noisy.show(rec))
    ideal(ck, scale)
    ck.extra.update({"runs": n, "shots_per_run": shots, "shots_per_run_of_large_registers": shots // 8, "smallest_p_value": low})
