"""C21: a noise model says of every gate exactly what was added for that gate."""
import vlib

METHODS = {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
           "target": "add_nonlocal_quantum_error_on_target", "control": "add_nonlocal_quantum_error_on_control"}
P = 1 / 64


def noise_obs(x):
    from mqt.qudits.simulation.noise_tools import Noise
    if isinstance(x, Noise):
        return ["math", round(x.probability_depolarizing / P), round(x.probability_dephasing / P * 2), []]
    return ["sub", 0, 0, [[a, b, round(n.probability_depolarizing / P), round(n.probability_dephasing / P * 2)] for (a, b), n in x.subspace_w_probs.items()]]


def want(x):
    return ["math", x["a"], x["a"], []] if x["kind"] == "math" else ["sub", 0, 0, [[a, b, p, p] for a, b, p in x["lv"]]]


def text(x):
    f = lambda a: f"{a * P} {a * P / 2}"
    return f(x["a"]) if x["kind"] == "math" else "".join(f"{a}<->{b}:{f(p)}, " for a, b, p in x["lv"])


def replay(ck, rec):
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, SubspaceNoise
    log = [s for s in rec["log"] if s["op"] != "end"]
    hist = [{"op": s["op"], **s["arg"], "ok": s["ok"]} for s in log]
    objs, model = [], NoiseModel()
    for n, s in enumerate(log):
        a, err = s["arg"], None
        try:
            if s["op"] == "math":
                objs.append(Noise(a["a"] * P, a["a"] * P / 2))
            elif s["op"] == "sub":
                lv = [tuple(x) for x in a["levels"]]
                objs.append(SubspaceNoise(a["a"] * P, a["a"] * P / 2, lv[0] if len(lv) == 1 else lv))
            elif s["op"] == "edit":
                objs[a["i"]].add_noise(*a["level"], Noise(a["a"] * P, a["a"] * P / 2))
            elif s["op"] in ("setmath", "setlevel"):
                x = objs[a["i"]] if s["op"] == "setmath" else list(objs[a["i"]].subspace_w_probs.values())[a["k"]]
                x.probability_depolarizing, x.probability_dephasing = a["a"] * P, a["a"] * P / 2
            else:
                getattr(model, METHODS[a["mode"]])(objs[a["i"]], list(a["tags"]))
        except Exception as e:  # noqa: BLE001
            err = e
        if (err is None) != s["ok"]:
            ck.violation(f"step {n + 1} {s['op']} {a}: " + (f"raised {type(err).__name__}: {err}" if err else "was not refused"), {"history": hist})
            return
        if err is not None:
            break
        got = [[t, [[m, noise_obs(x)] for m, x in es.items()]] for t, es in model.quantum_errors.items()]
        exp = [[t["tag"], [[e["mode"], want(e["noise"])] for e in t["es"]]] for t in s["book"]]
        if got != exp:
            ck.violation(f"after step {n + 1} {s['op']} {a} the model says {got}, expected {exp}", {"history": hist})
            return
        if [noise_obs(x) for x in objs] != [want(x) for x in s["objs"]]:
            ck.violation(f"after step {n + 1} {s['op']} {a} the noise objects of the user are {[noise_obs(x) for x in objs]}", {"history": hist, "expected": s["objs"]})
            return
        if list(model.basis_gates) != [t["tag"] for t in s["book"]]:
            ck.violation(f"basis gates {model.basis_gates}", {"history": hist})
            return
        if n == len(log) - 1:
            lines = str(model).splitlines()[1:]
            exp = [f"Gate: {t['tag']}, Mode: {e['mode']}, SubspaceNoise: {text(e['noise'])}" for t in s["book"] for e in t["es"]]
            if [x.strip() for x in lines] != [x.strip() for x in exp]:
                ck.violation(f"the printed model {lines} is not {exp}", {"history": hist})
    ck.ok()


def run(ck):
    vlib.load_repo()
    args = dict(TagLists=frozenset([("x",), ("h", "x"), ("cx",)]), ModeSet=frozenset(["local", "all"]),
                LevelArgs=frozenset([((0, 1),), (), ((1, 0), (1, 2))]), EditLevels=frozenset([(0, 2), (1, 0)]), Accepted=False, Staged=False)
    t = ck.used(vlib.run_tlc("NoiseBook", dict(MaxLen=4 if ck.quick else 5, MaxObjs=2, **args), spec="Spec", invariants=["WellFormed"], properties=["Local"]))
    for rec in t.records:
        replay(ck, rec)
    exhaustive = len(t.records)
    # two noises at hand, then every sequence of additions
    staged = dict(TagLists=frozenset([("x",), ("x", "cx")]), ModeSet=frozenset(["local", "target"]), LevelArgs=frozenset([((0, 1),), ((1, 2), (0, 2))]),
                  EditLevels=frozenset([(0, 2)]), Accepted=True, Staged=True)
    t = ck.used(vlib.run_tlc("NoiseBook", dict(MaxLen=5 if ck.quick else 6, MaxObjs=2, **staged), spec="Spec", invariants=["WellFormed"], properties=["Local"]))
    for rec in t.records:
        replay(ck, rec)
    exhaustive += len(t.records)
    args = dict(TagLists=frozenset([("x",), ("h", "x"), ("cx",), ("cx", "x", "h"), ("h",), ()]), ModeSet=frozenset(["local", "all", "nonlocal", "target", "control"]),
                LevelArgs=frozenset([((0, 1),), (), ((1, 0), (1, 2)), ((2, 0),), ((1, 1),), ((0, 1), (1, 0)), ((2, 3), (0, 3), (1, 3))]),
                EditLevels=frozenset([(0, 2), (1, 0), (3, 4), (2, 2), (-2, -1), (4, 2)]), Accepted=False, Staged=False)
    t = ck.used(vlib.simulate("NoiseBook", dict(MaxLen=14, MaxObjs=5, **args), 1500 if ck.quick else 15000, 16, ck.seed, invariants=["WellFormed"]))
    for rec in t.records:
        replay(ck, rec)
        ck.sample([{"op": s["op"], **s["arg"], "ok": s["ok"]} for s in rec["log"] if s["op"] != "end"])
    simulated = len(t.records)
    t = ck.used(vlib.simulate("NoiseBook", dict(MaxLen=14, MaxObjs=5, **{**args, "Accepted": True}), 1000 if ck.quick else 10000, 16, ck.seed + 1, invariants=["WellFormed"]))
    for rec in t.records:
        replay(ck, rec)
    ck.extra.update({"exhaustive_histories": exhaustive, "simulated_histories": simulated, "simulated_histories_without_refusal": len(t.records)})
