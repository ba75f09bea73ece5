"""Shared machinery of the checks: running TLC, reading its output, binding to the real code."""
from __future__ import annotations
import cmath, glob, hashlib, importlib.machinery, importlib.util, json, math, os, re, shutil, subprocess, sys, tempfile, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"


class MachineryError(Exception):
    """The framework itself failed (TLC error, spec invariant broken): no answer, exit 2."""


# ----------------------------------------------------------------------------- ring
def cyc_poly(n):
    """Coefficients (low to high) of the n-th cyclotomic polynomial."""
    def div(a, b):
        a, q = a[:], [0] * (len(a) - len(b) + 1)
        for i in range(len(q) - 1, -1, -1):
            q[i] = a[i + len(b) - 1] // b[-1]
            for j, c in enumerate(b):
                a[i + j] -= q[i] * c
        return q
    p = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            p = div(p, cyc_poly(d))
    return p


def vec(v, s2, n):
    """Exact ring tuple list -> complex numpy vector."""
    import numpy as np
    a = np.asarray(v, dtype=float)
    z = np.exp(2j * np.pi * np.arange(a.shape[1]) / n)
    return (a @ z) / math.sqrt(s2)


# ----------------------------------------------------------------------------- TLA+ literals
def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x) if x >= 0 else f"(0-{-x})"
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(e) for e in x) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(tla(e) for e in sorted(x, key=repr)) + "}"
    if isinstance(x, dict):
        return "[" + ", ".join(f"{k} |-> {tla(v)}" for k, v in x.items()) + "]"
    raise TypeError(type(x))


def simulate(module, consts, n, depth, seed, spec="Spec", invariants=(), **kw):
    """n random behaviours of the specification (one worker: reproducible from the seed)."""
    return run_tlc(module, consts, spec=spec, invariants=invariants, workers=1,
                   args=("-simulate", f"num={n}", "-depth", str(depth), "-seed", str(seed)), **kw)


class Tlc:
    """One TLC run; .records are the JSON values the specification printed."""
    def __init__(self, records, generated, distinct, depth, text, wall):
        self.records, self.generated, self.distinct, self.depth, self.text, self.wall = (
            records, generated, distinct, depth, text, wall)


def run_tlc(module, consts=None, spec=None, init=None, next_=None, invariants=(), properties=(), constraints=(),
            postcondition=None, extra="", deadlock=False, workers=8, heap="6g", timeout=800, files=None, args=(),
            allow_violation=False, view=None):
    """Model check `module` with an MC module generated from `consts` (python values) in a scratch directory."""
    t0 = time.time()
    d = Path(tempfile.mkdtemp(prefix="tlc-"))
    try:
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, d)
        for name, content in (files or {}).items():
            (d / name).write_text(content)
        body, cfg = [], []
        for k, v in (consts or {}).items():
            if isinstance(v, (bool, int, str)) and not (isinstance(v, int) and not isinstance(v, bool) and v < 0):
                cfg.append(f"  {k} = {tla(v)}")
            else:
                body.append(f"c_{k} == {tla(v)}")
                cfg.append(f"  {k} <- c_{k}")
        (d / "MC.tla").write_text(f"---- MODULE MC ----\nEXTENDS {module}\n" + "\n".join(body) + "\n" + extra + "\n====\n")
        lines = []
        if cfg:
            lines.append("CONSTANTS\n" + "\n".join(cfg))
        if spec:
            lines.append(f"SPECIFICATION {spec}")
        if init:
            lines.append(f"INIT {init}\nNEXT {next_}")
        lines += [f"INVARIANT {i}" for i in invariants]
        lines += [f"PROPERTY {i}" for i in properties]
        lines += [f"CONSTRAINT {i}" for i in constraints]
        if view:
            lines.append(f"VIEW {view}")
        if postcondition:
            lines.append(f"POSTCONDITION {postcondition}")
        lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        (d / "MC.cfg").write_text("\n".join(lines) + "\n")
        jars = "/opt/veriftools/tla/tla2tools.jar"
        cm = [p for p in glob.glob("/opt/veriftools/tla/*.jar") if not p.endswith("tla2tools.jar")]
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", f"-Xmx{heap}", "-Xss64m", "-cp", ":".join([jars, *cm]), "tlc2.TLC",
               "-workers", str(workers), "-metadir", str(d / "states"), "-noGenerateSpecTE", "-config", "MC.cfg", *args, "MC.tla"]
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
        out = r.stdout
        recs, rest = [], []
        for line in out.splitlines():
            if line.startswith('"@@'):
                recs.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        text = "\n".join(rest)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m and (ms := re.findall(r"The number of states generated: (\d+)", text)):
            gen = dis = int(ms[-1])
        m = re.search(r"depth of the complete state graph search is (\d+)", text)
        dep = int(m.group(1)) if m else 0
        ok = "No error has been found" in text or (args and r.returncode == 0)
        if not ok and not allow_violation:
            raise MachineryError(f"TLC failed on {module}:\n{(text[text.find("Error"):] or text)[:1500]}\n{r.stderr[-2000:]}")
        res = Tlc(recs, gen, dis, dep, text, time.time() - t0)
        res.ok = ok
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ----------------------------------------------------------------------------- program corpora
ALL_FAMS = ["h", "x", "z", "s", "pm", "rxy", "rz", "rh", "virtrz", "noisex", "noisey", "csum", "cx", "ls", "ms",
            "cuone", "cutwo", "mono2", "mono3"]


def programs(n, dims_list, fams, seed, nprog, min_depth, depth, dag=30, ctl=30, rev=50, levrev=0, max_ctl=2,
             all_cols=False, echo=False, exhaustive=False, **kw):
    """Programs with the exact final state (or unitary), generated and evaluated by TLC (spec/Programs.tla)."""
    inv = ["RingOK"] if nprog <= 1 else []
    inv += ["NormOK"]
    if echo:
        inv.append("EchoHome")
        if all_cols:
            inv.append("UnitaryOK")
    t = run_tlc("Programs", dict(N=n, CycPoly=cyc_poly(n), NProg=nprog, Seed=seed, MinDepth=min_depth, Depth=depth,
                                 DimsList=[list(x) for x in dims_list], Fams=list(fams), DagPct=dag, CtlPct=ctl, RevPct=rev,
                                 LevRevPct=levrev, MaxCtl=max_ctl, AllCols=all_cols, Echo=echo, Emit=True),
                spec="SpecAll" if exhaustive else "SpecSampled", invariants=inv, extra="ASSUME CycloOK", **kw)
    t.records.sort(key=lambda r: (r["id"], json.dumps(r["prog"])))
    for r in t.records:
        r["N"] = n
        r["states"] = [vec(v, s, n) for v, s in zip(r["v"], r["s2"])]
    return t


def sweep(n, dims_list, fams, seed=0, thin=1, dag=30, **kw):
    """Every gate of the finite gate set of each register, behind a preparation that occupies every basis state (spec/Sweep.tla)."""
    t = run_tlc("Sweep", dict(N=n, CycPoly=cyc_poly(n), NProg=1, Seed=seed, MinDepth=1, Depth=1, DimsList=[list(x) for x in dims_list],
                              Fams=list(fams), DagPct=dag, CtlPct=0, RevPct=0, LevRevPct=0, MaxCtl=1, AllCols=False, Echo=False, Emit=True,
                              Thin=thin), spec="SpecSweep", invariants=["NormOK", "SpreadOK"], extra="ASSUME CycloOK", **kw)
    seen = {(r["id"], json.dumps(r["prog"][-1])): r for r in t.records}
    t.records = [seen[k] for k in sorted(seen)]
    for r in t.records:
        r["N"] = n
        r["states"] = [vec(v, s, n) for v, s in zip(r["v"], r["s2"])]
    return t


TRAIL_FAMS = ["x", "z", "s", "pm", "rxy", "rz", "virtrz", "noisex", "noisey", "csum", "cx", "ls", "csum", "cx", "mono1", "mono2", "mono3"]


def trails(n, dims_list, fams, seed, nprog, min_depth, depth, branches=24, text=False, dag=30, ctl=30, rev=50, levrev=0, max_ctl=2, identity=False, **kw):
    """Long monomial programs on wide registers, followed branch by branch (spec/Trail.tla); rec['branches'] = [(digits, phase)], all of the same modulus."""
    t = run_tlc("Trail", dict(N=n, CycPoly=[1], NProg=nprog, Seed=seed, MinDepth=min_depth, Depth=depth, DimsList=[list(x) for x in dims_list],
                              Fams=list(fams), DagPct=dag, CtlPct=ctl, RevPct=rev, LevRevPct=levrev, MaxCtl=max_ctl, AllCols=False, Echo=not text,
                              Emit=True, MaxBranch=branches, Text=text, Identity=identity), spec="SpecTrail",
                invariants=["ApartOK", "DigitsOK", "DeviceOK"] + (["RoundTrip", "PrefixOK"] if text else ["HomeOK"]), **kw)
    seen = {r["id"]: r for r in t.records}
    t.records = [seen[k] for k in sorted(seen)]
    for r in t.records:
        r["N"] = n
        for key, got in (("branches", r["v"][0]), ("placed", r.get("pv", []))):
            r[key] = [(tuple(b[0]), cmath.exp(1j * TAU * b[1] / n) / math.sqrt(r["s2"][0])) for b in got]
    return t


def trail_state(rec, which="branches"):
    """The dense state of a trail; for registers small enough to hold it."""
    import numpy as np
    psi = np.zeros(rec["dims"], dtype=complex)
    for digits, amp in rec[which]:
        psi[digits] = amp
    return psi.reshape(-1)


def device_programs(n, dims_list, fams, seed, nprog, min_depth, depth, identity=False, all_cols=True, dag=30, ctl=20, rev=50,
                    max_ctl=1, levrev=0, **kw):
    """Programs together with a random device (level graph and placement per line) and the exact placed unitary (spec/Device.tla)."""
    t = run_tlc("Device", dict(N=n, CycPoly=cyc_poly(n), NProg=nprog, Seed=seed, MinDepth=min_depth, Depth=depth,
                               DimsList=[list(x) for x in dims_list], Fams=list(fams), DagPct=dag, CtlPct=ctl, RevPct=rev,
                               LevRevPct=levrev, MaxCtl=max_ctl, AllCols=all_cols, Echo=False, Emit=True, Identity=identity),
                spec="SpecD", invariants=["NormOK", "DeviceOK", "PlacedOK"], extra="ASSUME CycloOK", **kw)
    t.records.sort(key=lambda r: (r["id"], json.dumps(r["prog"])))
    for r in t.records:
        r["N"] = n
        r["states"] = [vec(v, s, n) for v, s in zip(r["v"], r["s2"])]
    return t


def tree_states(n, dims_list, seed, num, pool=2, zero=35, same=30, flat=40, max_weight=3, **kw):
    """Exact register states built as decision trees with shared subtrees (spec/StateTree.tla)."""
    t = run_tlc("StateTree", dict(N=n, CycPoly=cyc_poly(n), NStates=num, Seed=seed, DimsList=[list(x) for x in dims_list], Pool=pool,
                                  ZeroPct=zero, SamePct=same, FlatPct=flat, MaxWeight=max_weight, Emit=True),
                spec="SpecT", invariants=["LengthOK"], extra="ASSUME CycloOK", **kw)
    t.records.sort(key=lambda r: r["id"])
    for r in t.records:
        v = vec(r["v"], 1, n)
        r["state"] = v / math.sqrt(r["len2"])
    return t


def phase_programs(n, dims_list, fams, seed, nprog, min_depth, depth, all_cols=True, dag=30, ctl=20, rev=50, max_ctl=2, levrev=30, **kw):
    """Programs with their pushed and stripped forms and the exact operator or final state (spec/Phases.tla)."""
    t = run_tlc("Phases", dict(N=n, CycPoly=cyc_poly(n), NProg=nprog, Seed=seed, MinDepth=min_depth, Depth=depth,
                               DimsList=[list(x) for x in dims_list], Fams=list(fams), DagPct=dag, CtlPct=ctl, RevPct=rev,
                               LevRevPct=levrev, MaxCtl=max_ctl, AllCols=all_cols, Echo=False, Emit=True),
                spec="SpecP", invariants=["NormOK", "PushOK", "StripOK", "NormalOK"], extra="ASSUME CycloOK", **kw)
    t.records.sort(key=lambda r: (r["id"], json.dumps(r["prog"])))
    for r in t.records:
        r["N"] = n
        r["states"] = [vec(v, s, n) for v, s in zip(r["v"], r["s2"])]
    return t


def noise_programs(engine, n, dims_list, fams, seed, nprog, min_depth, depth, modes, kinds, den=8, max_draws=200, dag=30, ctl=30, rev=50,
                   max_ctl=2, levrev=0, **kw):
    """Programs with a noise model and the whole distribution of their noisy runs (spec/Noise.tla), one dict per program."""
    t = run_tlc("Noise", dict(N=n, CycPoly=cyc_poly(n), NProg=nprog, Seed=seed, MinDepth=min_depth, Depth=depth,
                              DimsList=[list(x) for x in dims_list], Fams=list(fams), DagPct=dag, CtlPct=ctl, RevPct=rev,
                              LevRevPct=levrev, MaxCtl=max_ctl, AllCols=False, Echo=False, Emit=True, Engine=engine, Modes=list(modes),
                              Kinds=list(kinds), Den=den, MaxDraws=max_draws),
                spec="SpecN", invariants=["WeightsOK", "KeepsProgram", "ModelOK", "NormN"], extra="ASSUME CycloOK", **kw)
    out = {}
    for r in t.records:
        p = out.setdefault(r["id"], {"id": r["id"], "dims": r["dims"], "prog": r["prog"], "model": r["model"], "N": n, "den": den, "runs": []})
        w = 1.0
        for num, d, _ in r["draws"]:
            w *= num / d
        p["runs"].append({"noisy": r["noisy"], "w": w, "path": [d[2] for d in r["draws"]], "psi": vec(r["v"], r["s2"], n)})
    t.records = [out[k] for k in sorted(out)]
    for p in t.records:
        p["runs"].sort(key=lambda r: r["path"])
        assert abs(sum(r["w"] for r in p["runs"]) - 1) < 1e-9, p["id"]
    return t


def ansatz_records(prim, n, dims_list, lines_list, seed, num, min_layers, max_layers, fams, min_depth=1, depth=3, spare=40, enddag=False, **kw):
    """Layered ansaetze with their exact operator, and the overlap with the operator of a drawn program (spec/Ansatz.tla)."""
    t = run_tlc("Ansatz", dict(N=n, CycPoly=cyc_poly(n), NProg=num, Seed=seed, MinDepth=min_depth, Depth=depth,
                               DimsList=[list(x) for x in dims_list], Fams=list(fams), DagPct=30, CtlPct=20, RevPct=50, LevRevPct=30,
                               MaxCtl=1, AllCols=True, Echo=False, Emit=False, Prim=prim, MinLayers=min_layers, MaxLayers=max_layers,
                               SparePct=spare, LinesList=[list(x) for x in lines_list], EndDag=enddag),
                spec="SpecA", invariants=["AnsatzOK", "ShapeOK"], extra="ASSUME CycloOK", **kw)
    t.records.sort(key=lambda r: r["id"])
    import numpy as np
    for r in t.records:
        r["N"] = n
        r["U"] = np.array([vec(v, s, n) for v, s in zip(r["v"], r["s2"])]).T
        r["G"] = np.array([vec(v, s, n) for v, s in zip(r["gv"], r["gs"])]).T
        r["overlap"] = np.array([vec([o], s, n)[0] for o, s in zip(r["ov"], r["os"])])
        r["angles"] = [TAU * k / n for block in r["pars"] for k in block]
    return t


def level_graph(line):
    """A real LevelGraph for one line of a drawn device."""
    from mqt.qudits.core import LevelGraph
    edges = [(a, b, {"delta_m": 0, "sensitivity": 1 + (a * 3 + b) % 4}) for a, b in line["edges"]]
    return LevelGraph(edges, list(range(len(line["place"]))), list(line["place"]), [line["init"]])


def device_backend(dev):
    """A backend with the drawn level graphs (a user-defined machine on the tensor-network simulator)."""
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.backends import TNSim
    graphs = [level_graph(line) for line in dev]

    class Drawn(TNSim):
        @property
        def energy_level_graphs(self):
            return graphs

    return Drawn(MQTQuditProvider())


class OutOfTime(BaseException):
    """The adaptive search is exponential: a run that takes too long is no answer, and no alarm."""


def within(seconds, fn):
    """fn() in at most this many seconds, or OutOfTime."""
    import signal

    def stop(*_):
        raise OutOfTime
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def same_up_to_phase(a, b, tol=1e-6):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    i = np.unravel_index(np.argmax(abs(b)), b.shape)
    if abs(a[i]) < 1e-9:
        return False
    ph = (a[i] / b[i]) / abs(a[i] / b[i])
    return bool(np.allclose(a, ph * b, atol=tol))


# ----------------------------------------------------------------------------- binding to the real code
_loaded = {}


def load_repo(cpp=False):
    """Import mqt.qudits from REPO/src; with cpp=True the extension is compiled from REPO's current sources."""
    if "pkg" not in _loaded:
        sys.meta_path[:] = [f for f in sys.meta_path if "ScikitBuild" not in type(f).__name__]
        sys.path[:] = [p for p in sys.path if p != "/repo/src"]
        sys.path.insert(0, str(REPO / "src"))
        if cpp:
            import misim_build
            _loaded["so"] = misim_build.install()
        else:
            _stub_ext()
        import mqt.qudits
        assert str(Path(mqt.qudits.__file__).resolve()).startswith(str(REPO.resolve())), mqt.qudits.__file__
        _loaded["pkg"] = True
    return True


def _stub_ext():
    """Checks that do not touch the C++ simulator load the already built extension only to satisfy the import."""
    cands = glob.glob("/opt/venv/lib/python3*/site-packages/mqt/qudits/_qudits*.so")
    if not cands:
        import misim_build
        misim_build.install()
        return
    import mqt.qudits  # noqa: F401
    loader = importlib.machinery.ExtensionFileLoader("mqt.qudits._qudits", cands[0])
    spec = importlib.util.spec_from_file_location("mqt.qudits._qudits", cands[0], loader=loader)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["mqt.qudits._qudits"] = mod
    spec.loader.exec_module(mod)
    sys.modules.setdefault("mqt.qudits._qudits.misim", mod.misim)


TAU = 2 * math.pi
# rounding errors: the angle is the same for every purpose of a user, its digits are not
NUDGES = [0.0, 2.5e-13, -3.1e-14, 4e-17, -1.2e-300]


def real_params(op, n):
    """Spec integer parameters -> the parameter list a user hands to the circuit API.  A nudge is a rounding error on the angles, inside the range the gate takes."""
    g, p, e = op["g"], op["p"], op.get("nudge", 0.0)
    if g == "rxy":
        return [p[0], p[1], 2 * TAU * p[2] / n + e, TAU * p[3] / n + e]
    if g == "rz":
        return [p[0], p[1], 2 * TAU * p[2] / n + e]
    if g == "virtrz":
        return [p[0], TAU * p[1] / n + e]
    if g == "cx":
        return [p[0], p[1], p[2], min(TAU, TAU * p[3] / n + abs(e))]
    if g == "ls":
        return [min(TAU, TAU * p[0] / n + abs(e))]
    if g == "ms":
        return [min(TAU, 4 * TAU * p[0] / n + abs(e)) if e else 4 * TAU * p[0] / n]
    return list(p)


def op_matrix(op, dims, n):
    """Float matrix of a spec op (undaggered) on its own lines; used to hand custom gates an explicit matrix."""
    import numpy as np
    import refsem
    ld = [dims[q] for q in op["q"]]
    if op["g"] == "mono":
        perm, ph = op["p"]
        k = len(perm)
        u = np.zeros((k, k), dtype=complex)
        for c in range(k):
            u[perm[c] - 1, c] = cmath.exp(1j * TAU * ph[c] / n)
        return u
    return refsem.gate(op["g"], ld[0] if len(ld) == 1 else ld, real_params(op, n))


def add_op(qc, op, n):
    """Append one spec op to a real circuit, through the public API."""
    g = op["g"]
    q = op["q"][0] if len(op["q"]) == 1 else list(op["q"])
    if op["cus"]:
        m = op_matrix(op, qc.dimensions, n)
        gate = (qc.cu_one if len(op["q"]) == 1 else qc.cu_two if len(op["q"]) == 2 else qc.cu_multi)(q, m)
    elif g in ("h", "x", "z", "s", "csum"):
        gate = getattr(qc, g)(q)
    else:
        gate = getattr(qc, "r" if g == "rxy" else g)(q, real_params(op, n))
    if op["ctl"]:
        gate.control([c[0] for c in op["ctl"]], [c[1] for c in op["ctl"]])
    if op["dag"]:
        gate.dag()
    return gate


def build(rec, name="q"):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    qc = QuantumCircuit(QuantumRegister(name, len(rec["dims"]), list(rec["dims"])))
    for op in rec["prog"]:
        add_op(qc, op, rec["N"])
    return qc


def show(rec):
    return {"dims": rec["dims"], "prog": [f"{'cu:' if o['cus'] else ''}{o['g']}{'†' if o['dag'] else ''} q{o['q']} {o['p']}"
                                           + (f" ctl{o['ctl']}" if o["ctl"] else "") for o in rec["prog"]], "N": rec.get("N"), **({"device": rec["dev"]} if "dev" in rec else {})}


# ----------------------------------------------------------------------------- checks
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.viol, self.known_hits = [], {}
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.exhaustive = None
        kf = json.loads((VERIF / "known_findings.json").read_text()) if (VERIF / "known_findings.json").exists() else {"findings": []}
        self.known = {f["key"]: f for f in kf["findings"] if f["property"] == pid and f.get("status", "open") == "open"}

    def used(self, t):
        self.states += t.distinct
        self.transitions += t.generated
        return t

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def ok(self, n=1):
        self.traces += n

    def violation(self, msg, replay, key=None):
        """Report a disagreement between the code and the specification; `key` names a listed known finding."""
        if key is not None and key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        self.viol.append((msg, replay))

    def guard(self, what, fn, replay, key=None):
        """Run code under test: an exception it raises is a violation (the input is one the property covers)."""
        try:
            return True, fn()
        except Exception as e:  # noqa: BLE001
            self.violation(f"{what}: raised {type(e).__name__}: {str(e)[:200]}", {**replay, "traceback": traceback.format_exc()[-1500:]}, key)
            return False, None

    def finish(self, level="model_checking"):
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, **self.extra}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        if self.known_hits:
            cov["known_finding_hits"] = self.known_hits
        rec = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        (ev / f"{self.pid}.json").write_text(json.dumps(rec, indent=1, default=str) + "\n")
        for k, f in self.known.items():
            print(f"KNOWN-FINDING: property={self.pid} {f['what']} (seen {self.known_hits.get(k, 0)}x)")
        if self.viol:
            rp = ev / f"replay-{self.pid}.json"
            rp.write_text(json.dumps([{"message": m, "replay": r} for m, r in self.viol[:20]], indent=1, default=str) + "\n")
            for m, _ in self.viol[:5]:
                print("  " + m)
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.states} traces={self.traces} wall={rec['wall_s']}s")
        return 0
