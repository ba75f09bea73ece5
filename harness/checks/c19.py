"""C19: a level graph describes the same machine under every relabelling."""
import math
import numpy as np
import vlib

CONFIGS = [
    # registers, graphs, steps
    ([[2], [3]], 24, 6),
    ([[4], [5], [6]], 60, 8),
    ([[7], [8]], 20, 8),
]


def base(seed, **kw):
    return {"N": 24, "CycPoly": vlib.cyc_poly(24), "Seed": seed, "Fams": ["x"], "DagPct": 0, "CtlPct": 0, "RevPct": 0, "LevRevPct": 0,
            "MaxCtl": 1, "Echo": False, "Emit": False, **kw}


def view(g, d):
    """What the real graph says, in the words of the specification."""
    return {"place": list(g.log_phy_map),
            "edges": sorted((min(a, b), max(a, b), g.get_edge_sensitivity(a, b)) for a, b in g.edges),
            "init": [x for x in range(d) if g.is_inode(x)], "first": [g.fst_inode, *([g.fst_rnode] if d > 1 else [])],
            "rest": [x for x in range(d) if g.is_irnode(x)],
            "ph": [g.nodes[x].get("phase_storage") for x in range(d)],
            "dist": [[g.distance_nodes(x, y) for y in range(d)] for x in range(d)],
            "cost": [g.get_node_sensitivity_cost(x) for x in range(d)]}


def wanted(v, d, n):
    rest = [x for x in range(d) if x != v["init"]]
    return {"place": v["place"], "edges": sorted((a, b, s) for a, b, s in v["edges"]), "init": [v["init"]], "first": [v["init"], *rest[:1]],
            "rest": rest, "ph": v["ph"], "dist": v["dist"], "cost": v["cost"]}


def turn(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi) < 1e-9


def compare(ck, g, v, d, n, sh, what):
    ok, got = ck.guard(f"level graph after {what}", lambda: view(g, d), sh)
    if not ok:
        return False
    want = wanted(v, d, n)
    for field in want:
        if field == "ph":
            same = all(turn(a, vlib.TAU * b / n) for a, b in zip(got["ph"], want["ph"]))
        else:
            same = got[field] == want[field]
        if not same:
            ck.violation(f"a level graph of {d} levels after {what}: {field} is {got[field]}, not {want[field]}", {**sh, "got": got, "expected": want})
            return False
    return True


def gates(ck, g, qc, line, v, n, sh, what):
    """The pending phases as gates: one virtual rotation per label with a phase, on the physical level of the label."""
    ok, out = ck.guard(f"get_vrz_gates after {what}", g.get_vrz_gates, sh)
    if not ok:
        return
    d = len(v["place"])
    diag = np.ones(d, dtype=complex)
    for gate in out:
        if gate.reference_lines != [line] or gate.qasm_tag != "virtrz":
            ck.violation(f"get_vrz_gates after {what} puts {gate.qasm_tag} on {gate.reference_lines}", sh)
            return
        diag = np.diag(gate.to_matrix()) * diag
    want = np.ones(d, dtype=complex)
    for x in range(d):
        want[v["place"][x]] = np.exp(-1j * vlib.TAU * v["ph"][x] / n)
    if not np.allclose(diag, want, atol=1e-6):
        ck.violation(f"get_vrz_gates on dims {d}, after {what}: the gates are not the pending phases", {**sh, "got": diag, "expected": want})


def play(ck, rec):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    d, n = rec["d"], 24
    sh = {"line": rec["line"], "actions": rec["acts"]}
    qc = QuantumCircuit(2, [d + 1, d], 0)
    g = vlib.level_graph(rec["line"])
    g.set_circuit(qc)
    g.set_qudits_index(1)
    g.phase_storing_setup()
    what = "construction"
    for i, v in enumerate(rec["log"]):
        if not compare(ck, g, v, d, n, sh, what):
            return
        gates(ck, g, qc, 1, v, n, sh, what)
        if i == len(rec["acts"]):
            break
        act = rec["acts"][i]
        what = f"{act[0]}({act[1]}, {act[2]})"
        if act[0] == "swap":
            old = g
            ok, g = ck.guard(what, lambda: old.swap_nodes(act[1], act[2]), sh)  # noqa: B023
            if not ok or not compare(ck, old, v, d, n, sh, f"{what}, the graph it was called on"):
                return
        elif act[0] == "trade":
            g.swap_node_attr_simple(act[1], act[2])
        else:
            g.nodes[act[1]]["phase_storage"] += vlib.TAU * act[2] / n
            g.phase_storing_setup()  # keeps what is stored
    ck.ok()


def devices(ck):
    """The shipped machines: connected graphs, placements that are permutations, sizes that fit the register."""
    from mqt.qudits.simulation import MQTQuditProvider
    p = MQTQuditProvider()
    for name in [*p.backends("fake"), "innsbruck01"]:
        b = p.get_backend(str(name))
        graphs = b.energy_level_graphs
        for i, g in enumerate(graphs):
            d = len(g.nodes)
            sh = {"backend": str(name), "line": i}
            labels = list(g.nodes)
            if sorted(g.log_phy_map) != list(range(d)) or labels != list(range(d)):
                ck.violation(f"{name}: line {i} places its levels on {g.log_phy_map}", sh)
            for x in labels:
                for y in labels:
                    ok, s = ck.guard(f"{name}: distance", lambda: g.distance_nodes(x, y), sh)  # noqa: B023
                    if ok and (s == 0) != (x == y):
                        ck.violation(f"{name}: line {i}, distance of {x} and {y} is {s}", sh)
            if sum(g.is_inode(x) for x in labels) < 1 or any(g.is_inode(x) == g.is_irnode(x) for x in labels):
                ck.violation(f"{name}: line {i} does not tell initial levels from the others", sh)
            if hasattr(b, "edge_to_carrier"):
                for x, y, data in g.edges(data=True):
                    for u, v in ((x, y), (y, x)):
                        ok, c = ck.guard("edge_to_carrier", lambda: b.edge_to_carrier(u, v, i), sh)  # noqa: B023
                        if ok and c != data["carrier"]:
                            ck.violation(f"{name}: the carrier of levels {u} and {v} on line {i} is {c}, not {data['carrier']}", sh)
            ck.ok()


def run(ck):
    vlib.load_repo()
    scale = 1 if ck.quick else 10
    for i, (dims, num, steps) in enumerate(CONFIGS):
        t = ck.used(vlib.run_tlc("LevelBook", base(ck.seed + 1900 + i, NProg=num * scale, MinDepth=0, Depth=0, DimsList=dims, AllCols=False,
                                                   Identity=False, Steps=steps), spec="SpecG", invariants=["MachineOK", "MetricOK", "DeviceOK"]))
        for rec in sorted({r["id"]: r for r in t.records}.values(), key=lambda r: r["id"]):
            ck.guard("replay", lambda: play(ck, rec), {"line": rec["line"], "actions": rec["acts"]})  # noqa: B023
            ck.sample({"line": rec["line"], "actions": rec["acts"]})
    devices(ck)
