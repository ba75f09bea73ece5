"""C28: rotating levels that are not coupled: routing pulses, their cost, and the book of places and pending phases."""
import numpy as np
import vlib
from checks.c19 import base, turn

CONFIGS = [
    # registers, programs, rotations
    ([[3], [4], [5]], 66, 1, 3),
    ([[6], [7]], 24, 1, 2),
]


def book(rec, pending, place=None, circuit=None):
    """The real level graph of the record's machine with pending phases, on line 1 of a circuit."""
    g = vlib.level_graph(rec["line"])
    g.set_circuit(circuit)
    g.set_qudits_index(1)
    g.phase_storing_setup()
    for x, v in enumerate(pending):
        g.nodes[x]["phase_storage"] = vlib.TAU * v / 24
    return g


def same_book(g, place, ph):
    return list(g.log_phy_map) == place and all(turn(g.nodes[x]["phase_storage"], vlib.TAU * v / 24) for x, v in enumerate(ph))


def stored(g):
    return [g.nodes[x]["phase_storage"] for x in g.nodes]


def machine(g):
    """Couplings of the physical levels with their sensitivity, and the physical level the ion starts in."""
    at = g.log_phy_map
    return {(frozenset((at[a], at[b])), g.get_edge_sensitivity(a, b)) for a, b in g.edges}, at[g.fst_inode]


def follow(ck, rec, circuit, sh):
    """The book kept pulse by pulse: swap_nodes and graph_rule_update, and rotations turned by graph_rule_ongate."""
    from mqt.qudits.compiler.onedit.local_operation_swap import swap_routine as sr
    from mqt.qudits.quantum_circuit import gates
    d = rec["d"]
    g = book(rec, rec["ph"], circuit=circuit)
    for i, act in enumerate(rec["acts"]):
        here = {**sh, "acts": rec["acts"][:i + 1]}
        if act["do"] == "pulse":
            x, y = act["labels"]
            g = g.swap_nodes(x, y)
            back = gates.R(circuit, "R", 1, [act["p"], act["q"], np.pi if act["fwd"] else -np.pi, -vlib.TAU * act["f"] / 24], d)
            # the book is told the pulse that undoes it
            ok, _ = ck.guard("graph_rule_update", lambda: sr.graph_rule_update(back, g), here)  # noqa: B023
            if not ok:
                return
            if not same_book(g, act["place"], act["ph"]):
                ck.violation(f"after a pi pulse on levels {act['p']}, {act['q']} of {d} the book has places {g.log_phy_map} and phases {stored(g)}", {**here, "expected": act})
                return
        else:
            x, y = act["labels"]
            p, q = act["p"], act["q"]
            ok, found = ck.guard("find_logic_from_phys", lambda: sr.find_logic_from_phys(p, q, g), here)  # noqa: B023
            if ok and list(found) != [x, y]:
                ck.violation(f"find_logic_from_phys({p}, {q}) is {found}, the labels there are {[x, y]}", here)
            phi = vlib.TAU * act["b"] / 24 * (1 if (x < y) == (p < q) else -1)
            lo, hi = min(p, q), max(p, q)
            gate = gates.R(circuit, "R", 1, [lo, hi, 2 * vlib.TAU * act["a"] / 24, phi], d)
            ok, out = ck.guard("graph_rule_ongate", lambda: sr.graph_rule_ongate(gate, g), here)  # noqa: B023
            if ok and not (turn(out.phi, vlib.TAU * act["f"] / 24) and [out.lev_a, out.lev_b, out.target_qudits] == [lo, hi, 1]
                           and abs(out.theta - gate.theta) < 1e-9):
                ck.violation(f"graph_rule_ongate turns R({lo}, {hi}, {gate.theta:.4f}, {phi:.4f}) into R({out.lev_a}, {out.lev_b}, {out.theta:.4f}, {out.phi:.4f})", {**here, "expected": act})
            if not same_book(g, act["place"], act["ph"]):
                ck.violation("turning a rotation changes the book", here)
    ck.ok()


def routed(ck, rec, circuit, sh, pending):
    """cost_calculator: pulses on couplings, as few as possible, that bring the two levels together; and what that costs."""
    from mqt.qudits.compiler.onedit.local_operation_swap import swap_routine as sr
    from mqt.qudits.quantum_circuit import gates
    d = rec["d"]
    x, y, a, b = rec["rots"][0]
    g = book(rec, pending, circuit=circuit)
    was = machine(g), stored(g), list(g.log_phy_map)
    gate = gates.R(circuit, "R", 1, [x, y, 2 * vlib.TAU * a / 24, vlib.TAU * b / 24], d)
    weight = 1 + rec["id"] % 5
    ok, got = ck.guard("cost_calculator", lambda: sr.cost_calculator(gate, g, weight), sh)
    if not ok:
        return
    total, pulses, new, pulse_cost, gate_cost = got
    what = f"routing levels {x} and {y} of {d}"
    if (machine(g), stored(g), list(g.log_phy_map)) != was:
        ck.violation(f"{what} changes the graph it was given", sh)
        return
    couples = {frozenset(c) for c in rec["couples"]}
    place = list(rec["line"]["place"])
    cost = 0
    for n, pulse in enumerate(pulses):
        p, q = pulse.lev_a, pulse.lev_b
        if frozenset((p, q)) not in couples or pulse.target_qudits != 1 or pulse.dimensions != d or pulse.control_info["controls"] is not None:
            ck.violation(f"{what} pulses levels {p} and {q}, which are not coupled", {**sh, "pulses": [v._params for v in pulses]})
            return
        if not turn(pulse.theta, np.pi) and not turn(pulse.theta, -np.pi):
            ck.violation(f"{what}: pulse {n} rotates by {pulse.theta}, not by pi", sh)
            return
        place = [q if v == p else p if v == q else v for v in place]
        cost += rec["pen"][p][q] * rec["pulse"]
    if list(new.log_phy_map) != place:
        ck.violation(f"{what}: the pulses leave the levels at {place}, the graph says {new.log_phy_map}", sh)
        return
    if machine(new) != was[0]:
        ck.violation(f"{what} describes another machine afterwards", {**sh, "got": machine(new), "expected": was[0]})
    if frozenset((place[x], place[y])) not in couples or new.distance_nodes(x, y) != 1:
        ck.violation(f"{what} leaves them at {place[x]} and {place[y]}, which are not coupled", sh)
        return
    if len(pulses) != rec["dist"] - 1:
        ck.violation(f"{what} takes {len(pulses)} pulses at distance {rec['dist']}", sh)
    unit = 1e-4 / 96
    own = rec["angle"] * rec["pen"][place[x]][place[y]]
    for name, value, want in (("of the pulses", pulse_cost, cost), ("of the rotation", gate_cost, own), ("weighted", total, weight * (cost + own))):
        if abs(value - want * unit) > 1e-9:
            ck.violation(f"{what}: the cost {name} is {value}, not {want * unit}", {**sh, "weight": weight})
    ck.ok()


def adaptive(ck, rec, circuit, sh):
    """The adaptive pass with pending phases: hardware, places and phases together are the program."""
    from mqt.qudits.compiler.onedit import PhyLocAdaPass
    d = rec["d"]
    full = np.array([vlib.vec(v, s, 24) for v, s in zip(rec["v"], rec["s2"])]).T
    start = np.array([vlib.TAU * v / 24 for v in rec["ph"]])
    U = full * np.exp(1j * start)[None, :]
    backend = vlib.device_backend([{"edges": [[0, 1]] + [[k, k + 1] for k in range(1, d)], "place": list(range(d + 1)), "init": 0}, rec["line"]])
    backend.energy_level_graphs[1] = book(rec, rec["ph"], circuit=circuit)
    gate = circuit.cu_one(1, U)
    ok, out = ck.guard("adaptive decomposition with pending phases", lambda: PhyLocAdaPass(backend, vrz_prop=True).transpile_gate(gate), sh)
    if not ok:
        return
    new = backend.energy_level_graphs[1]
    couples = {frozenset(c) for c in rec["couples"]}
    M = np.eye(d, dtype=complex)
    for k, v in enumerate(rec["line"]["place"]):
        M[:, k] = 0
        M[v, k] = 1
    for v in out:
        if v.qasm_tag == "rxy" and frozenset((v.lev_a, v.lev_b)) not in couples:
            ck.violation(f"the adaptive pass rotates levels {v.lev_a} and {v.lev_b} of {d}, which are not coupled", sh)
        M = np.asarray(v.to_matrix(0)) @ M
    ph = stored(new)
    seen = np.array([np.exp(-1j * ph[x]) * M[new.log_phy_map[x], :] for x in range(d)])
    if not vlib.same_up_to_phase(seen, full, 5e-4):
        ck.violation(f"the adaptive pass on a line of {d} levels: pulses, places and pending phases together are not the gate",
                     {**sh, "places": new.log_phy_map, "phases": ph, "out": [[v.qasm_tag, v._params] for v in out]})
    if machine(new) != machine(book(rec, rec["ph"])):
        ck.violation("the adaptive pass describes another machine afterwards", sh)
    ck.ok()


def angles(ck, rec):
    """Reducing and pricing an angle."""
    from mqt.qudits.compiler.compilation_minitools import local_compilation_minitools as lm
    unit = np.pi / 60
    a = rec["h"] * unit
    sh = {"angle": f"{rec['h']} pi/60"}
    for name, fn, want in (("new_mod", lm.new_mod, rec["newmod"] * unit), ("pi_mod", lm.pi_mod, rec["pimod"] * unit),
                           ("regulate_theta", lm.regulate_theta, rec["regulate"] * unit),
                           ("phi_cost", lm.phi_cost, rec["phi"] * 1e-4 / 60), ("theta_cost", lm.theta_cost, rec["theta"] * 1e-4 / 60)):
        ok, got = ck.guard(name, lambda: float(fn(a)), sh)  # noqa: B023
        if ok and abs(got - want) > 1e-9:
            ck.violation(f"{name}({rec['h']} pi/60) is {got}, not {want}", sh)
    ck.ok()


def run(ck):
    vlib.load_repo()
    from mqt.qudits.quantum_circuit import QuantumCircuit
    scale = 1 if ck.quick else 10
    for i, (dims, num, lo, hi) in enumerate(CONFIGS):
        t = ck.used(vlib.run_tlc("Routing", base(ck.seed + 2800 + i, NProg=num * scale, MinDepth=lo, Depth=hi, DimsList=dims, AllCols=True, Identity=False),
                                 spec="SpecR", invariants=["BookOK", "PlacesOK", "OfferedOK", "DeviceOK"]))
        for rec in sorted({r["id"]: r for r in t.records}.values(), key=lambda r: r["id"]):
            d = rec["d"]
            sh = {"line": rec["line"], "pending": rec["ph"], "rotations": rec["rots"]}
            circuit = QuantumCircuit(2, [d + 1, d], 0)
            ck.guard("replay", lambda: follow(ck, rec, circuit, sh), sh)  # noqa: B023
            ck.guard("replay", lambda: routed(ck, rec, circuit, sh, rec["ph"]), sh)  # noqa: B023
            if len(rec["rots"]) <= (3 if d < 4 else 2 if d < 5 else 1):
                try:
                    vlib.within(5, lambda: ck.guard("replay", lambda: adaptive(ck, rec, circuit, sh), sh))  # noqa: B023
                except vlib.OutOfTime:
                    ck.extra["searches_cut_off"] = ck.extra.get("searches_cut_off", 0) + 1
            ck.sample(sh)
    t = ck.used(vlib.run_tlc("Angles", {"Most": 400 if ck.quick else 4000}, spec="SpecH", invariants=["AnglesOK"]))
    for rec in t.records:
        ck.guard("replay", lambda: angles(ck, rec), {"angle": rec["h"]})  # noqa: B023
    ck.used(vlib.run_tlc("Routing", base(ck.seed + 2890, NProg=9 if ck.quick else 40, MinDepth=1, Depth=3 if ck.quick else 4, DimsList=[[3], [4], [5]], AllCols=True,
                                         Identity=False), spec="SpecAny", invariants=["FewestOK", "PlacesOK"]))
