"""C24: jobs, backends and their options behave as the history of calls says."""
import time
import numpy as np
import vlib

UNIT = 0.25
KINDS = [("tnsim", "TNSim"), ("misim", "MISim"), ("innsbruck01", "Innsbruck01"), ("faketraps2trits", "FakeIonTraps2Trits"),
         ("faketraps2six", "FakeIonTraps2Six"), ("faketraps3six", "FakeIonTraps3Six")]
FIELDS = [(), (("shots", 60),), (("noise_model", 1),), (("shots", 50), ("noise_model", 1)), (("shots", 40),), (("noise_model", 0),), (("memory", 1),),
          (("full_state_memory", 1),), (("noise_model", 1), ("full_state_memory", 1), ("shots", 70)), (("full_state_memory", 0),), (("shoots", 60),),
          (("shots", 64), ("no_such_option", 1)), (("shots", 40), ("noise_model", 1))]


class Clock:
    """A clock for the code under test: while it is on, sleeping only advances it."""
    on, now = False, 0.0
    asleep = 0


def install_clock():
    real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "sleep")}
    for n in ("time", "monotonic", "perf_counter"):
        setattr(time, n, lambda n=n: Clock.now if Clock.on else real[n]())

    def sleep(s):
        if not Clock.on:
            return real["sleep"](s)
        Clock.now += s
        Clock.asleep += 1
        if Clock.asleep > 1000:
            raise RuntimeError("waits for ever")
        return None
    time.sleep = sleep


def wait_for(ck, rec):
    from mqt.qudits.exceptions import JobTimeoutError
    from mqt.qudits.simulation.jobs import Job, JobStatus
    steps = [(JobStatus[s], d * UNIT) for s, d in rec["script"]]
    start = 1000.0

    class Scripted(Job):
        def status(self):
            t = Clock.now - start
            for s, d in steps[:-1]:
                if t < d - 1e-9:
                    return s
                t -= d
            return steps[-1][0]
    job = Scripted(None, "j1")
    reports = []
    for with_callback in (True, False):
        Clock.on, Clock.now, Clock.asleep = True, start, 0
        reports.clear()
        outcome = "returned"
        try:
            kw = {"callback": lambda jid, s, j: reports.append((jid, s, j))} if with_callback else {}
            job.wait_for_final_state(timeout=None if rec["timeout"] < 0 else rec["timeout"] * UNIT, wait=rec["wait"] * UNIT, **kw)
        except JobTimeoutError:
            outcome = "timeout"
        except Exception as e:  # noqa: BLE001
            outcome = f"{type(e).__name__}: {e}"
        finally:
            Clock.on = False
        spent = round((Clock.now - start) / UNIT, 6)
        sh = {**{k: rec[k] for k in ("script", "wait", "timeout")}, "unit": UNIT}
        if outcome != rec["outcome"] or spent != rec["clock"]:
            ck.violation(f"wait_for_final_state: {outcome} after {spent} units, expected {rec['outcome']} after {rec['clock']}", sh)
        if with_callback and ([s.name for _, s, _ in reports] != rec["reports"] or any(j != "j1" or o is not job for j, _, o in reports)):
            ck.violation(f"wait_for_final_state reports {[s.name for _, s, _ in reports]}, expected {rec['reports']}", sh)
    # the questions a user asks about the job agree with its status at every moment
    Clock.on, end = True, sum(d for _, d in steps)
    try:
        t = 0.0
        while t <= end:
            Clock.now = start + t
            s = job.status()
            said = (job.done(), job.running(), job.cancelled(), job.in_final_state(), s.is_final)
            fin = s.name in ("DONE", "CANCELLED", "ERROR")
            if said != (s.name == "DONE", s.name == "RUNNING", s.name == "CANCELLED", fin, fin):
                ck.violation(f"a job that is {s.name} says done/running/cancelled/final = {said}", {"status": s.name})
            t += UNIT
    finally:
        Clock.on = False
    ck.ok()


def statuses(ck):
    from mqt.qudits.simulation.jobs import JobStatus
    final = {"DONE", "CANCELLED", "ERROR"}
    names = {s.name for s in JobStatus}
    if names != {"INITIALIZING", "QUEUED", "VALIDATING", "RUNNING"} | final or {s.name for s in JobStatus.non_final_states()} != names - final:
        ck.violation(f"statuses {names}, non-final {JobStatus.non_final_states()}", {})
    for n in sorted(names):
        for text in (n.lower(), n, n.capitalize()):
            ok, s = ck.guard("JobStatus.from_string", lambda: JobStatus.from_string(text), {"text": text})
            if ok and s is not JobStatus[n]:
                ck.violation(f"from_string({text!r}) is {s!r}", {"text": text})
        for text in (n[:-1], n + "x", " " + n, ""):
            try:
                s = JobStatus.from_string(text)
            except ValueError:
                continue
            ck.violation(f"from_string({text!r}) is {s!r}", {"text": text})
    if len({str(s) for s in JobStatus}) != len(names):
        ck.violation("two statuses have the same description", {})
    ck.ok()


def lookup(ck, rec):
    from mqt.qudits.simulation import MQTQuditProvider
    q, want = "".join(rec["q"]), [KINDS[k - 1] for k in rec["m"]]
    p = MQTQuditProvider()
    got = p.backends(q)
    if sorted(got) != sorted(n for n, _ in want):
        ck.violation(f"backends({q!r}) lists {got}", {"query": q, "expected": want})
    try:
        b = p.get_backend(q)
    except Exception as e:  # noqa: BLE001
        b = e
    if len(want) == 1:
        if type(b).__name__ != want[0][1] or b.provider is not p:
            ck.violation(f"get_backend({q!r}) gives {b!r}", {"query": q, "expected": want})
        elif p.get_backend(q) is b:
            ck.violation(f"get_backend({q!r}) hands out one backend twice", {"query": q})
    elif not isinstance(b, ValueError):
        ck.violation(f"get_backend({q!r}) gives {b!r} although {len(want)} backends match", {"query": q, "expected": want})
    ck.ok()


def history(ck, rec, model):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.simulation import MQTQuditProvider
    conv = lambda fs: {o: (model if v else None) if o == "noise_model" else bool(v) if o in ("memory", "full_state_memory") else v for o, v in fs}
    qc = QuantumCircuit(1, [3], 0)
    qc.h(0)
    provider, inst, jobs, ids = MQTQuditProvider(), [], [], set()
    log = [s for s in rec["log"] if s["op"] != "end"]
    hist = {"history": [{k: v for k, v in s.items() if k not in ("outcomes", "shows")} for s in log]}
    for n, s in enumerate(log):
        fs = conv(s["fields"])
        if s["op"] == "new":
            ok, b = ck.guard("get_backend with options", lambda: provider.get_backend(s["name"], **fs), hist)
            if not ok:
                return
            inst.append(b)
            shows = s["fields"]
        elif s["op"] == "set":
            b = inst[s["i"]]
            before = dict(b.options)
            try:
                b.set_options(**fs)
                err = None
            except AttributeError as e:
                err = e
            except Exception as e:  # noqa: BLE001
                ck.violation(f"step {n + 1}: set_options({fs}) raised {type(e).__name__}: {e}", hist)
                return
            if (err is not None) != s["refused"]:
                ck.violation(f"step {n + 1}: set_options({fs}) was {'refused' if err else 'not refused'}", hist)
                return
            if err is not None and dict(b.options) != before:
                ck.violation(f"step {n + 1}: a refused set_options changed the options", hist)
            shows = s["shows"]
        else:
            b, shows = inst[s["i"]], []
            try:
                job = b.run(qc, **fs)
                res = job.result()
                counts = list(res.get_counts())
                got = {"refused": False, "n": len(counts), "full": int(any(np.ndim(c) > 0 for c in counts))}
            except Exception as e:  # noqa: BLE001
                got, err = {"refused": True, "n": 0, "full": 0}, e
            if got not in s["outcomes"]:
                ck.violation(f"step {n + 1}: the run gave {got}{f' ({err!r})' if got['refused'] else ''}, allowed are {s['outcomes']}", hist)
                return
            if not got["refused"]:
                if job.backend() is not b:
                    ck.violation(f"step {n + 1}: the job does not know its backend", hist)
                if job.job_id() in ids:
                    ck.violation(f"step {n + 1}: job id {job.job_id()} was used before", hist)
                ids.add(job.job_id())
                if not np.allclose(np.asarray(res.get_state_vector()).ravel(), np.ones(3) / np.sqrt(3), atol=1e-9):
                    ck.violation(f"step {n + 1}: wrong state vector", hist)
                jobs.append((job, res, np.array(res.get_state_vector()), [np.array(c) for c in counts]))
        for o, v in shows:
            if inst[s["i"]].options.get(o) != conv([(o, v)])[o]:
                ck.violation(f"step {n + 1}: option {o} shows {inst[s['i']].options.get(o)!r}", hist)
    for job, res, psi, counts in jobs:
        again = job.result()
        if again is not res or not np.array_equal(np.asarray(again.get_state_vector()), psi) or len(again.get_counts()) != len(counts) or \
                any(not np.array_equal(a, b) for a, b in zip(again.get_counts(), counts)):
            ck.violation("a later call changed the result of an earlier job", hist)
    ck.ok()


def run(ck):
    install_clock()
    vlib.load_repo()
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel
    consts = dict(MaxLen=3 if ck.quick else 4, Durations=frozenset([1, 2, 5]), Waits=frozenset([1, 2, 3]), Timeouts=frozenset([-1, 0, 1, 4, 7]))
    consts["NoTimeout"] = -1
    t = ck.used(vlib.run_tlc("Jobs", consts, spec="Spec", invariants=["ReturnsWhenOver", "GivesUpLate", "ReportsOpen"], properties=["Terminates"]))
    for rec in t.records:
        wait_for(ck, rec)
        if len(rec["script"]) == consts["MaxLen"]:
            ck.sample(rec)
    waits = len(t.records)
    statuses(ck)
    extra = frozenset(tuple(x) for x in ("tnsimx", "sim2", "traps4", "TNSim", "x", "three"))
    t = ck.used(vlib.run_tlc("Provider", dict(Table=[[list(n), k] for n, k in KINDS], Extra=extra), spec="Spec", invariants=["Findable", "Narrowing"]))
    for rec in t.records:
        lookup(ck, rec)
    ck.extra.update({"waits": waits, "queries": len(t.records)})
    model = NoiseModel()
    model.add_quantum_error_locally(Noise(0.1, 0.1), ["h"])
    t = ck.used(vlib.simulate("Backends", dict(MaxLen=9, MaxInst=3, Names=frozenset(["tnsim"]), FieldSets=frozenset(FIELDS)), 60 if ck.quick else 600, 11,
                              ck.seed, invariants=["Decided"], properties=["RunWins", "Apart"]))
    for rec in t.records:
        history(ck, rec, model)
        ck.sample([{k: v for k, v in s.items() if k != "outcomes"} for s in rec["log"] if s["op"] != "end"])
    ck.extra["option_histories"] = len(t.records)
