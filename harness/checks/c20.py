"""C20: lanes and decomposition trees keep what was put into them."""
import numpy as np
import compiled
import refsem
import vlib

FAMS = ["h", "rxy", "rz", "virtrz", "x", "csum", "cx", "pm", "mono2", "mono3"]
LANES = [
    # registers, programs, shortest, longest, merges, percent of repeated gate objects
    ([[3, 2], [2, 3], [2, 2]], 32, 3, 10, 3, 0),
    ([[2, 3, 2], [3, 2, 2], [2, 2, 2]], 12, 5, 12, 4, 0),
    ([[3, 2], [2, 2, 2]], 16, 4, 10, 3, 35),
]


def real_circuit(rec):
    """The program as a circuit; a repeated gate is the same object again."""
    from mqt.qudits.quantum_circuit import QuantumCircuit
    qc = QuantumCircuit(len(rec["dims"]), list(rec["dims"]), 0)
    gates = []
    for op, again in zip(rec["prog"], rec["again"]):
        gates.append(gates[again - 1] if again else vlib.add_op(qc, op, rec["N"]))
    qc.set_instructions(gates)
    return qc, gates


def single(op):
    return len(op["q"]) == 1 and not op["ctl"]


def product(rec, idx):
    u = None
    for i in idx:
        op = rec["prog"][i - 1]
        m = vlib.op_matrix(op, rec["dims"], rec["N"])
        m = m.conj().T if op["dag"] else m
        u = m if u is None else m @ u
    return u


def operator(instr, dims):
    k = int(np.prod(dims))
    return np.array([refsem.run(instr, dims, np.eye(k, dtype=complex)[i]) for i in range(k)]).T


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def cut(ck, rec):
    from mqt.qudits.core.lanes import Lanes
    from mqt.qudits.quantum_circuit.gates import CustomOne
    dims = list(rec["dims"])
    sh = {**vlib.show(rec), "again": rec["again"], "merges": rec["merges"]}
    U = np.array([vlib.vec(v, s, rec["N"]) for v, s in zip(rec["v"], rec["s2"])]).T
    qc, gates = real_circuit(rec)
    ok, lanes = ck.guard("Lanes", lambda: Lanes(qc), sh)
    if not ok:
        return
    for line, runs in enumerate(rec["runs"]):
        if not runs:
            continue
        want = [gates[i - 1] for r in runs for i in r]
        ok, got = ck.guard("extract_lane", lambda: lanes.extract_lane(line), sh)
        if ok and not same(got, want):
            ck.violation(f"extract_lane({line}) on dims {dims} is not the gates on the line in their order", sh)
        groups = [[t[1] for t in g] for g in lanes.consecutive_view.get(line, [])]
        if len(groups) != len(runs) or not all(same(g, [gates[i - 1] for i in r]) for g, r in zip(groups, runs)):
            ck.violation(f"the consecutive groups of line {line} on dims {dims} are {[len(g) for g in groups]}, not {[len(r) for r in runs]}", sh)
        if any(rec["again"]):
            continue
        for r in runs:
            for j, i in enumerate(r):
                if single(rec["prog"][i - 1]) and lanes.next_is_local(gates[i - 1]) != (j < len(r) - 1):
                    ck.violation(f"next_is_local on dims {dims}, gate {i}, is {j == len(r) - 1}", sh)
    reassembled(ck, rec, lanes, [[(i,) for r in runs for i in r] for runs in rec["runs"]], {(i,): gates[i - 1] for i in range(1, len(gates) + 1)}, U, sh, "cutting")
    if not same(qc.instructions, gates):
        ck.violation(f"cutting a circuit on dims {dims} into lanes changed it", sh)
    made = {(i,): g for i, g in enumerate(gates, 1)}
    for m in rec["merges"]:
        line, idx = m["line"], tuple(m["seg"])
        made[idx] = CustomOne(qc, f"merged{len(made)}", line, product(rec, idx), dims[line])
        ok, _ = ck.guard("replace_gates_in_lane", lambda: lanes.replace_gates_in_lane(line, m["from"], m["to"], made[idx]), sh)  # noqa: B023
        if not ok:
            return
    if rec["merges"]:
        reassembled(ck, rec, lanes, [[tuple(it) for it in lane] for lane in rec["lanes"]], made, U, sh, "replacing gates")
    ck.ok()


def reassembled(ck, rec, lanes, want, made, U, sh, what):
    dims = list(rec["dims"])
    for line, items in enumerate(want):
        if items and not same(lanes.extract_lane(line), [made[it] for it in items]):
            ck.violation(f"after {what} on dims {dims}, lane {line} is not what was put into it", sh)
            return
    ok, instr = ck.guard(f"extract_instructions after {what}", lanes.extract_instructions, sh)
    if not ok:
        return
    total = len({it for items in want for it in items})
    if len(instr) != total:
        ck.violation(f"after {what} on dims {dims}, {len(instr)} gates come out of the lanes, {total} are in them", sh)
    elif not np.allclose(operator(instr, dims), U, atol=1e-7):
        ck.violation(f"after {what} on dims {dims}, the gates from the lanes are another operator", {**sh, "order": [g.name if hasattr(g, 'name') else g.qasm_tag for g in instr]})
    for line, items in enumerate(want):
        if not same([g for g in instr if line in g.reference_lines], [made[it] for it in items]):
            ck.violation(f"after {what} on dims {dims}, the gates of line {line} come out in another order", sh)


def tree(ck, rec):
    from mqt.qudits.core import NAryTree
    n = len(rec["parent"])
    key = lambda i: 3 * i + 2  # noqa: E731
    t = NAryTree()
    sh = {"parents": rec["parent"], "costs": rec["cost"], "finished": rec["fin"]}
    if not t.is_empty():
        ck.violation("a new tree is not empty", sh)
    marks = [object() for _ in range(n + 1)]
    for i in range(1, n + 1):
        p = rec["parent"][i - 1]
        t.add(key(i), marks[i], None, ("graph", i), rec["cost"][i - 1], 10 - rec["cost"][i - 1], (99, 99), [i], key(p) if p else None)
        if t.size != i or t.is_empty():
            ck.violation(f"a tree with {i} nodes counts {t.size}", sh)
    for i in range(1, n + 1):
        node = t.find_node(t.root, key(i))
        p = rec["parent"][i - 1]
        if node is None or node.key != key(i) or node.rotation is not marks[i] or node.parent_key != (key(p) if p else None) or node.PI_PULSES != [i]:
            ck.violation(f"find_node does not find node {i}", sh)
            return
        if [c.key for c in node.children] != [key(j) for j in range(1, n + 1) if rec["parent"][j - 1] == i]:
            ck.violation(f"node {i} has the wrong children", sh)
        if t.depth(key(i)) != rec["depth"][i - 1] or t.size_refresh(node) != rec["below"][i - 1]:
            ck.violation(f"node {i}: depth {t.depth(key(i))} and {t.size_refresh(node)} nodes below, not {rec['depth'][i - 1]} and {rec['below'][i - 1]}", sh)
    if t.find_node(t.root, 1) is not None or t.total_size != n:
        ck.violation(f"a tree with {n} nodes has total size {t.total_size}, or finds a node that is not there", sh)
    from mqt.qudits.exceptions import NodeNotFoundError
    for fn in (lambda: t.depth(1), lambda: t.add(key(n + 1), None, None, None, 0, 0, (0, 0), [], 1)):
        try:
            fn()
            ck.violation("a missing node is not reported", sh)
        except NodeNotFoundError:
            pass
    for i in rec["fin"]:
        t.find_node(t.root, key(i)).finished = True
    # every subtree before the whole: retrieving marks the nodes on the way
    for i in range(n, 0, -1):
        node = t.find_node(t.root, key(i))
        path, cost, graph = t.retrieve_decomposition(node)
        best = [p[p.index(i):] for p in rec["best"][i - 1]]
        if node.finished != rec["found"][i - 1]:
            ck.violation(f"below node {i} a finished leaf is {'' if rec['found'][i - 1] else 'not '}there, the tree says otherwise", sh)
        elif not best:
            if path != [] or cost != (float("inf"), float("inf")):
                ck.violation(f"below node {i} nothing is finished, but a decomposition of cost {cost} is retrieved", sh)
        else:
            keys = [(x.key - 2) // 3 for x in path]
            leaf = keys[-1] if keys else 0
            if keys not in best or cost != (rec["cost"][leaf - 1], 10 - rec["cost"][leaf - 1]) or graph != ("graph", leaf):
                ck.violation(f"from node {i} the path {keys} with cost {cost} is retrieved, the cheapest are {best}", sh)
    text = str(t)
    if any(f"N{key(i)}" not in text for i in range(1, n + 1)):
        ck.violation("the printed tree misses a node", sh)
    ck.ok()


def cut_wide(ck, rec):
    from mqt.qudits.core.lanes import Lanes
    sh = vlib.show(rec)
    qc = vlib.build(rec)
    gates = list(qc.instructions)
    lanes = Lanes(qc)
    instr = lanes.extract_instructions()
    if sorted(map(id, instr)) != sorted(map(id, gates)):
        ck.violation(f"{len(instr)} gates come out of the lanes of a circuit of {len(gates)} gates on dims {rec['dims']}", sh)
        return
    for line in range(len(rec["dims"])):
        on = lambda gs: [g for g in gs if line in g.reference_lines]  # noqa: E731, B023
        if on(gates) and not (same(lanes.extract_lane(line), on(gates)) and same(on(instr), on(gates))):
            ck.violation(f"the gates of line {line} on dims {rec['dims']} come out in another order", sh)
    if not np.allclose(refsem.run(instr, rec["dims"]), vlib.trail_state(rec), atol=1e-6):
        ck.violation(f"the gates from the lanes of a circuit on dims {rec['dims']} are another program", sh)
    ck.ok()


def run(ck):
    vlib.load_repo()
    scale = 1 if ck.quick else 8
    for i, (dims, num, lo, hi, merges, again) in enumerate(LANES):
        t = ck.used(vlib.run_tlc("LaneBook", dict(N=24, CycPoly=vlib.cyc_poly(24), NProg=num * scale, Seed=ck.seed + 2000 + i, MinDepth=lo, Depth=hi,
                                                  DimsList=dims, Fams=FAMS, DagPct=30, CtlPct=20, RevPct=50, LevRevPct=20, MaxCtl=1, AllCols=True,
                                                  Echo=False, Emit=False, MaxMerge=merges, AgainPct=again), spec="SpecL",
                                 invariants=["MergeOK", "OnceOK", "OrderOK"], extra="ASSUME CycloOK"))
        for rec in sorted({r["id"]: r for r in t.records}.values(), key=lambda r: r["id"]):
            rec["N"] = 24
            ck.guard("replay", lambda: cut(ck, rec), vlib.show(rec))  # noqa: B023
            ck.sample({**vlib.show(rec), "merges": rec["merges"]})
    # long programs on wide registers: every gate once, every line in its order, the same state
    t = ck.used(vlib.trails(840, [[2, 3, 4, 5, 2, 3], [2] * 10, [7, 2, 5, 3], [10, 3, 4], [3] * 6], vlib.TRAIL_FAMS, ck.seed + 2090, 20 * scale, 30, 90))
    for rec in t.records:
        ck.guard("replay", lambda: cut_wide(ck, rec), vlib.show(rec))  # noqa: B023
    t = ck.used(vlib.run_tlc("TreeBook", dict(MaxNodes=5 if ck.quick else 6, Costs={1, 2}), spec="Spec", invariants=["PathOK", "SizeOK", "BestOK"]))
    for rec in t.records:
        ck.guard("replay", lambda: tree(ck, rec), {"tree": rec})  # noqa: B023
