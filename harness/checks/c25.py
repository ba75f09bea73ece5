"""C25: variational compilation of two-qudit gates returns the circuit of the ansatz it found."""
import os
import signal
import threading
import types
import numpy as np
import compiled
import refsem
import vlib

GOAL = ["rxy", "virtrz", "csum", "cx", "ls", "rxy", "mono2"]
ANSATZ = [
    # primitive, ring, registers, the two lines, records, fewest and most layers, daggered custom primitive, percent of zero angles
    ("cu", 24, [[2, 2], [3, 2], [2, 3]], [[0, 1]], 24, 0, 2, False, 40),
    ("cu", 24, [[2, 3], [3, 2], [2, 2]], [[0, 1]], 9, 0, 1, True, 40),
    ("cu", 24, [[3, 3], [4, 2], [2, 4]], [[0, 1]], 9, 0, 0, False, 60),
    ("ms", 48, [[2, 2], [3, 2], [2, 3]], [[0, 1]], 12, 0, 1, False, 40),
    ("ms", 48, [[3, 3], [2, 4]], [[0, 1]], 4, 0, 0, False, 60),
    ("ls", 24, [[2, 2], [3, 2], [2, 3]], [[0, 1]], 12, 0, 2, False, 40),
    ("ls", 24, [[3, 3], [4, 4], [4, 3], [3, 4]], [[0, 1]], 8, 0, 0, False, 70),
    # the pair inside a larger register
    ("cu", 24, [[2, 3, 2], [3, 2, 2], [2, 2, 3]], [[0, 2], [1, 2], [0, 1]], 9, 0, 1, False, 40),
    ("ls", 24, [[2, 3, 2], [3, 2, 2], [2, 2, 3]], [[1, 2], [0, 2], [0, 1]], 9, 0, 1, False, 40),
    ("ms", 48, [[2, 3, 2], [3, 2, 2], [2, 2, 3]], [[0, 2], [1, 2]], 4, 0, 1, False, 50),
]


class Stuck(BaseException):
    """The code under test did not come back."""


def limited(fn, seconds=60):
    def ring(*_):
        raise Stuck
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(seconds)
    try:
        return fn()
    except Stuck:
        raise RuntimeError(f"did not return within {seconds} s") from None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def pair_matrix(full, dims, lines):
    """The operator on the pair of lines, read off where every other line is in |0>."""
    ld = [dims[q] for q in lines]
    idx = []
    for a in range(ld[0]):
        for b in range(ld[1]):
            d = [0] * len(dims)
            d[lines[0]], d[lines[1]] = a, b
            idx.append(int(np.ravel_multi_index(d, dims)))
    return full[np.ix_(idx, idx)]


def operator(instr, dims):
    k = int(np.prod(dims))
    return np.array([refsem.run(instr, dims, np.eye(k, dtype=complex)[i]) for i in range(k)]).T


def product(instr, dims):
    """The same from the matrices of the gates (C01), for custom gates on lines named in reverse order."""
    u = np.eye(int(np.prod(dims)), dtype=complex)
    for g in instr:
        u = g.to_matrix(identities=2) @ u
    return u


def circuit(dims):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    return QuantumCircuit(len(dims), list(dims), 0)


def modules():
    import scipy.optimize
    from mqt.qudits.compiler.twodit.variational_twodit_compilation import ansatz, layered_compilation, opt, parametrize, sparsifier
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz import ansatz_gen_utils, ansatz_solve_n_search
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import distance_measures, optimizer
    return types.SimpleNamespace(scipy=scipy.optimize, ansatz=ansatz, layered=layered_compilation, opt=opt, par=parametrize, sparse=sparsifier,
                                 prim=ansatz_gen_utils.Primitive, search=ansatz_solve_n_search, dist=distance_measures, optimizer=optimizer)


def primitive(rec, qc, lines):
    """The custom primitive of a record as a gate."""
    g = pair_matrix(rec["G"], rec["dims"], lines)
    gate = qc.cu_two(list(lines), g)
    return gate.dag() if rec["enddag"] else gate


def show(rec):
    return {"dims": rec["dims"], "lines": rec["lines"], "primitive": rec["prim"], "layers": rec["layers"], "angles": rec["pars"],
            "program": vlib.show(rec)["prog"], "N": rec["N"], "daggered primitive": rec["enddag"]}


def ansatz(ck, m, rec):
    dims, lines, kind, sh = list(rec["dims"]), list(rec["lines"]), rec["prim"], show(rec)
    ld = [dims[q] for q in lines]
    U, x = rec["U"], list(rec["angles"])
    pair = pair_matrix(U, dims, lines)
    qc = circuit(dims)
    m.prim.set_class_variables(primitive(rec, qc, lines) if kind == "cu" else None)
    fn = getattr(m.ansatz, f"{kind}_ansatz")
    ok, got = ck.guard(f"{kind}_ansatz", lambda: fn(x, ld), sh)
    if ok and not np.allclose(got, pair, atol=1e-7):
        ck.violation(f"{kind}_ansatz on dims {ld} with {rec['layers']} layers is not the operator of its angles", {**sh, "got": got, "expected": pair})
    ok, gates = ck.guard(f"create_{kind}_instance", lambda: list(getattr(m.ansatz, f"create_{kind}_instance")(circuit(dims), x, ld, *([] if lines == [0, 1] else [lines]))), sh)
    if ok:
        op = operator(gates, dims)
        if not np.allclose(op, U, atol=1e-7):
            ck.violation(f"create_{kind}_instance on dims {dims}, lines {lines}: the circuit is not the ansatz of its angles",
                         {**sh, "fidelity": abs(np.trace(op.conj().T @ U)) / len(U), "gates": [f"{g.qasm_tag} {g.reference_lines}" for g in gates]})
    # one generic rotation at a time
    for i, block in enumerate(rec["pars"][:2]):
        d = ld[i % 2]
        ok, su = ck.guard("generic_sud", lambda: m.par.generic_sud([vlib.TAU * k / rec["N"] for k in block], d), sh)
        if ok and not (np.allclose(su @ su.conj().T, np.eye(d), atol=1e-9) and abs(np.linalg.det(su) - 1) < 1e-7):
            ck.violation(f"generic_sud on dimension {d} is not a special unitary", sh)
    # the search space has the shape of the ansatz
    m.opt.Optimizer.set_class_variables(pair, 1e-4, *ld)
    b = m.opt.Optimizer.return_bounds(rec["layers"])
    want = [(0, 2 * np.pi) if r == c else (0, np.pi) if r > c else (0, np.pi / 2)
            for _ in range(rec["layers"] + 2) for d in ld for r in range(d) for c in range(d) if (r, c) != (d - 1, d - 1)]
    if len(b) != len(x) or not np.allclose(b, want):
        ck.violation(f"return_bounds({rec['layers']}) on dims {ld}: {len(b)} bounds for {len(x)} angles, or other ranges", {**sh, "got": b, "expected": want})
    fidelities(ck, m, rec, sh)
    if kind == "cu" and rec["layers"] == 0 and len(dims) == 2:
        rotations(ck, m, rec, sh)
    ck.ok()


def fidelities(ck, m, rec, sh):
    U, G, ov = rec["U"], rec["G"], rec["overlap"]
    want = abs(ov.sum()) / len(U)
    vals = {"fidelity_on_unitares": m.dist.fidelity_on_unitares(G, U), "fidelity_on_operator": m.dist.fidelity_on_operator(G, U),
            "fidelity_on_operator of multiples": m.dist.fidelity_on_operator(3 * G, (0.5 + 0.5j) * U)}
    for name, got in vals.items():
        if abs(got - want) > 1e-7:
            ck.violation(f"{name} on dims {rec['dims']} is {got}, the overlap of the operators is {want}", sh)
    for c in (0, len(U) - 1):
        w = abs(ov[c]) ** 2
        a, b = G[:, c], U[:, c]
        got = {"naive_state_fidelity": m.dist.naive_state_fidelity(a, b),
               "fidelity_on_density_operator": m.dist.fidelity_on_density_operator(np.outer(a, a.conj()), np.outer(b, b.conj()))}
        for name, g in got.items():
            if abs(g - w) > 1e-7:
                ck.violation(f"{name} on dims {rec['dims']} is {g}, the states overlap by {w}", sh)
    for bad in (G[:-1, :-1], G[:, :-1]):
        for f in (m.dist.fidelity_on_unitares, m.dist.fidelity_on_operator, m.dist.fidelity_on_density_operator):
            try:
                f(G, bad)
                ck.violation(f"{f.__name__} compares matrices of different shapes", sh)
            except ValueError:
                pass


def rotations(ck, m, rec, sh):
    """The sparsifier rotates a gate on both sides: the same operator as an ansatz without layers."""
    dims, U, x = list(rec["dims"]), rec["U"], list(rec["angles"])
    g = rec["G"].conj().T if rec["enddag"] else rec["G"]
    ok, got = ck.guard("apply_rotations", lambda: m.sparse.apply_rotations(g, x, dims), sh)
    if ok and not np.allclose(got, U, atol=1e-7):
        ck.violation(f"apply_rotations on dims {dims} is not R1 R2 M R3 R4", {**sh, "got": got, "expected": U})
    for lines in ([0, 1], [1, 0]):
        qc = circuit(dims)
        gate = qc.cu_two(lines, rec["G"])
        if rec["enddag"]:
            gate.dag()
        ok, gates = ck.guard("instantiate_rotations", lambda: m.sparse.instantiate_rotations(circuit(dims), gate, x), sh)
        if ok and not np.allclose(product(gates, dims), U, atol=1e-7):
            ck.violation(f"instantiate_rotations on dims {dims}: the circuit is not the rotated gate", {**sh, "lines": lines})
        # the whole pass, with an optimiser that finds these angles
        solved = lambda f, x0, args=(), bounds=None, **kw: types.SimpleNamespace(x=np.array(x + list(x0)[len(x):]), fun=f(np.array(x + list(x0)[len(x):]), *args))  # noqa: E731
        ok, out = ck.guard("sparsify", lambda: patched([(m.sparse, "minimize"), (m.scipy, "minimize")], solved, lambda: m.sparse.sparsify(gate)), sh)
        if ok and not np.allclose(product(out.instructions, dims), U, atol=1e-7):
            ck.violation(f"sparsify on dims {dims}: the circuit is not the gate with the rotations found", {**sh, "lines": lines})
        if ok and (qc.number_gates != 1 or out is qc or list(out.dimensions) != dims):
            ck.violation(f"sparsify on dims {dims} changed its argument or the register", sh)


def patched(places, new, fn):
    old = [(o, n, getattr(o, n)) for o, n in places if hasattr(o, n)]
    for o, n, _ in old:
        setattr(o, n, new)
    try:
        return fn()
    finally:
        for o, n, v in old:
            setattr(o, n, v)


def timers():
    return [t for t in threading.enumerate() if isinstance(t, threading.Timer) and not t.finished.is_set()]


def compile_with(m, oracle, target, tol, kind, layers, custom=None):
    """variational_compile with a solver that follows the oracle: layer -> ("hit" | "miss" | "time", angles)."""
    seen = []

    def anneal(func, bounds=None, **kw):
        per = sum(d * d - 1 for d in (m.opt.Optimizer.SINGLE_DIM_0, m.opt.Optimizer.SINGLE_DIM_1))
        layer = len(bounds) // per - 2
        seen.append(layer)
        what, x = oracle(layer)
        x = np.array(x)
        if what == "time":
            m.search.interrupt_function()
        return types.SimpleNamespace(x=x, fun=func(x))
    return patched([(m.optimizer, "dual_annealing"), (m.scipy, "dual_annealing")], anneal,
                   lambda: limited(lambda: m.layered.variational_compile(target, tol, kind.upper(), layers, custom))), seen


def whole(ck, m, rec):
    """The whole pass on a target that exactly this ansatz reaches."""
    dims, lines, sh = list(rec["dims"]), list(rec["lines"]), show(rec)
    pair = pair_matrix(rec["U"], dims, lines)
    x, layers = list(rec["angles"]), rec["layers"]
    for order in (lines, lines[::-1]):
        qc = circuit(dims)
        qc.cu_two(order, np.eye(len(pair), dtype=complex))
        target = qc.cu_two(order, pair)
        custom = primitive(rec, circuit(dims), lines) if rec["prim"] == "cu" else None
        off = np.array(x) + 0.37
        per = sum(dims[q] ** 2 - 1 for q in lines)
        oracle = lambda layer: ("hit", x) if layer == layers else ("miss", off[:per * (layer + 2)])  # noqa: E731, B023
        ok, out = ck.guard(f"variational_compile({rec['prim']})", lambda: compile_with(m, oracle, target, 1e-6, rec["prim"], layers, custom), sh)
        if not ok:
            continue
        out = out[0]
        op = operator(out.instructions, dims)
        if not np.allclose(op, rec["U"], atol=1e-6):
            ck.violation(f"variational_compile({rec['prim']}) on dims {dims}, lines {order}: the circuit has fidelity "
                         f"{abs(np.trace(op.conj().T @ rec['U'])) / len(op):.4f} with its target", sh)
        if list(out.dimensions) != dims or out is qc or len(qc.instructions) != 2:
            ck.violation(f"variational_compile on dims {dims} changed its argument or the register", sh)
    ck.ok()


def search(ck, m, recs, oracles):
    """Every oracle: the answer is the one of the specification's search."""
    for i, o in enumerate(oracles):
        rec, other = recs[i % len(recs)], recs[(i + 1) % len(recs)]
        dims = list(rec["dims"])
        lim, best, oracle = o["lim"], o["best"], o["oracle"]
        hits = [k for k in range(lim + 1) if oracle[k] == "hit"]
        monotone = all(k in hits for h in hits for k in range(h, lim + 1))
        sh = {**show(rec), "limit": lim, "solver": oracle}
        per = sum(d * d - 1 for d in dims)
        answer = lambda layer: (oracle[layer], (list(rec["angles"]) if oracle[layer] == "hit" else list(other["angles"])) + [0.0] * (per * layer))  # noqa: E731, B023
        qc = circuit(dims)
        target = qc.cu_two([0, 1], rec["U"])
        custom = circuit(dims).cu_two([0, 1], np.eye(len(rec["U"]), dtype=complex))
        before = len(timers())
        try:
            out, seen = compile_with(m, answer, target, 1e-4, "CU", lim, custom)
        except Exception as e:  # noqa: BLE001
            if best != -1 and (monotone or "time" not in oracle):
                ck.violation(f"variational_compile on dims {dims} raised {type(e).__name__} ({e}) although {best} layers reach the tolerance", sh)
            elif isinstance(e, RuntimeError) and "did not return" in str(e):
                ck.violation(f"variational_compile on dims {dims} {e}", sh)
            out = None
        if out is not None:
            op = operator(out.instructions, dims)
            fid = abs(np.trace(op.conj().T @ rec["U"])) / len(op)
            used = sum(len(g.reference_lines) == 2 for g in out.instructions) - 1
            if fid < 1 - 1e-4 - 1e-9:
                ck.violation(f"variational_compile on dims {dims} returned a circuit of fidelity {fid:.4f} for a tolerance of 1e-4", sh)
            elif monotone and used != best:
                ck.violation(f"variational_compile on dims {dims} uses {used} layers, {best} are enough", {**sh, "probed": seen})
            if len(seen) > len(o["seen"]) and monotone:
                ck.violation(f"the layer search ran the solver {len(seen)} times for {lim} layers", {**sh, "probed": seen})
        if len(timers()) > before:
            ck.violation("variational_compile leaves its timer running", sh)
            for t in timers():
                t.cancel()
        ck.ok()


def real(ck, m, rec, tol, lim):
    """The real solver, from a fixed starting seed."""
    dims, sh = list(rec["dims"]), show(rec)
    solver = m.scipy.dual_annealing
    seeded = lambda func, bounds=None, **kw: solver(func, bounds=bounds, **{**kw, "seed": 7})  # noqa: E731
    target = circuit(dims).cu_two([0, 1], rec["U"])
    ok, out = ck.guard("variational_compile with the real solver", lambda: patched([(m.optimizer, "dual_annealing")], seeded,
                       lambda: limited(lambda: m.layered.variational_compile(target, tol, rec["prim"].upper(), lim), 400)), sh)
    if ok:
        fid = abs(np.trace(operator(out.instructions, dims).conj().T @ rec["U"])) / len(rec["U"])
        ck.extra["real solver fidelity"] = round(float(fid), 4)
        if fid < 1 - tol - 1e-9:
            ck.violation(f"variational_compile on dims {dims} returned a circuit of fidelity {fid:.4f} for a tolerance of {tol}", sh)
    ck.ok()


def sparse_real(ck, m, rec):
    """The real optimiser: the circuit is exactly as sparse as the optimiser says, and sparser than where it started."""
    dims, sh = list(rec["dims"]), show(rec)
    solver, found = m.scipy.minimize, []

    def short(f, x0, args=(), bounds=None, **kw):
        r = solver(f, x0, args=args, bounds=bounds, options={"maxiter": 3})
        found.append((r.fun, f(x0, *args)))
        return r
    ok, out = ck.guard("sparsify", lambda: patched([(m.sparse, "minimize")], short, lambda: m.sparse.sparsify(circuit(dims).cu_two([0, 1], rec["U"]))), sh)
    if ok and found:
        op = operator(out.instructions, dims)
        ghost = abs(op.real) + abs(op.imag)
        got = m.sparse.compute_f(ghost) * m.sparse.density(ghost)
        if abs(got - found[0][0]) > 1e-5 or found[0][0] > found[0][1] + 1e-9:
            ck.violation(f"sparsify on dims {dims}: the circuit has sparsity {got:.5f}, the optimiser found {found[0][0]:.5f} from {found[0][1]:.5f}", sh)
    ck.ok()


def measure(ck, m, recs):
    """Hoyer's measure: 0 for one entry, 1 for a flat matrix, in between otherwise, blind to order, sign and scale."""
    for rec in recs:
        U = rec["U"]
        k = len(U)
        one = np.zeros((k, k))
        one[k - 1, 0] = 2.5
        perm = np.arange(k)[::-1]
        f = m.sparse.compute_f
        if abs(f(one)) > 1e-9 or abs(f(np.full((k, k), 0.3)) - 1) > 1e-9 or not -1e-9 <= f(U) <= 1 + 1e-9 \
           or abs(f(U) - f(-3j * U[perm][:, perm])) > 1e-9 or f(np.eye(k)) > f(np.fft.fft(np.eye(k))) - 1e-9:
            ck.violation(f"compute_f on dims {rec['dims']} is not a sparsity measure", show(rec))
    ck.ok()


def expansions(ck, t):
    from mqt.qudits.compiler.compilation_minitools import apply_gate_to_tlines, gate_expand_to_circuit, on0, on1
    for rec in t.records:
        if len(rec["prog"]) != 1:
            continue
        op, dims = rec["prog"][0], list(rec["dims"])
        sh = vlib.show(rec)
        full = np.array(rec["states"]).T
        small = vlib.op_matrix(op, dims, rec["N"])
        if op["dag"]:
            small = small.conj().T
        line = op["q"][0]
        ok, got = ck.guard("gate_expand_to_circuit", lambda: gate_expand_to_circuit(small, len(dims), line, dims), sh)
        if ok and not np.allclose(got, full, atol=1e-9):
            ck.violation(f"gate_expand_to_circuit on dims {dims}, line {line}, is not the gate on that line", sh)
        if line == 0:
            got = on0(small, int(np.prod(dims[1:])))
            if not np.allclose(got, full, atol=1e-9):
                ck.violation(f"on0 on dims {dims} is not the gate on the first line", sh)
        if line == len(dims) - 1:
            got = on1(small, int(np.prod(dims[:-1])))
            if not np.allclose(got, full, atol=1e-9):
                ck.violation(f"on1 on dims {dims} is not the gate on the last line", sh)
        same = [q for q in range(len(dims)) if dims[q] == dims[line]]
        want = sum(full if q == line else pulled(full, dims, line, q) for q in same)
        for targets, w in ((line, full), (same, want), *(((None, want),) if len(same) == len(dims) else ())):
            ok, got = ck.guard("apply_gate_to_tlines", lambda: apply_gate_to_tlines(small, len(dims), targets, dims), sh)
            if ok and not np.allclose(got, w, atol=1e-9):
                ck.violation(f"apply_gate_to_tlines on dims {dims}, lines {targets}, is not the sum over the lines", sh)
        ck.ok()


def pulled(full, dims, a, b):
    """The operator with lines a and b of equal dimension exchanged."""
    n, k = len(dims), len(full)
    order = list(range(n))
    order[a], order[b] = b, a
    return full.reshape(dims * 2).transpose(order + [n + q for q in order]).reshape(k, k)


def run(ck):
    vlib.load_repo()
    m = modules()
    scale = 1 if ck.quick else 8
    try:
        pairs = []
        for i, (prim, n, dims, lines, num, lo, hi, dag, spare) in enumerate(ANSATZ):
            t = ck.used(vlib.ansatz_records(prim, n, dims, lines, ck.seed + 950 + i, num * scale, lo, hi, GOAL, spare=spare, enddag=dag))
            for rec in t.records:
                ck.guard("replay", lambda: ansatz(ck, m, rec), show(rec))  # noqa: B023
                ck.guard("replay", lambda: whole(ck, m, rec), show(rec))  # noqa: B023
                ck.sample(show(rec))
            if i == 0:
                pairs = t.records
            if prim == "ls" and i == 5:
                small = [r for r in t.records if r["dims"] == [2, 2]]
                real(ck, m, small[0], 0.2, 1)
                if not ck.quick:
                    for r in small[1:6]:
                        real(ck, m, r, 0.1, 2)
        ck.guard("compute_f", lambda: measure(ck, m, pairs), {"records": len(pairs)})
        for rec in pairs[:3 if ck.quick else 12]:
            ck.guard("sparsify", lambda: sparse_real(ck, m, rec), show(rec))  # noqa: B023
        # the layer search under every solver
        local = ck.used(vlib.ansatz_records("cu", 24, [[2, 2]], [[0, 1]], ck.seed + 970, 8, 0, 0, GOAL, min_depth=0, depth=0, spare=20)).records
        local = [r for i, r in enumerate(local) if abs(np.trace(r["U"].conj().T @ local[(i + 1) % len(local)]["U"])) < 0.99 * len(r["U"])]
        t = ck.used(vlib.run_tlc("LayerSearch", dict(MaxL=4 if ck.quick else 6, Outcomes={"hit", "miss", "time"}), spec="Spec",
                                 invariants=["SoundOK", "LeastOK", "CheapOK", "EmptyOK"], properties=["Answered"]))
        # two neighbours must not reach each other's target
        good = [r for i, r in enumerate(local) if abs(np.trace(r["U"].conj().T @ local[(i + 1) % len(local)]["U"])) < 0.99 * len(r["U"])]
        assert len(good) == len(local) >= 2
        search(ck, m, local, sorted(t.records, key=lambda r: (r["lim"], r["oracle"])))
        t = ck.used(vlib.programs(24, [[2, 3], [3, 2], [3, 3], [2, 3, 2], [3, 2, 3], [2, 2, 2], [4, 3]], ["h", "x", "z", "s", "rxy", "rh", "virtrz", "pm"],
                                  ck.seed + 980, 60 * scale, 1, 1, dag=30, ctl=0, levrev=20, all_cols=True))
        ck.guard("expansion", lambda: expansions(ck, t), {"records": len(t.records)})
    finally:
        for t in timers():
            t.cancel()
