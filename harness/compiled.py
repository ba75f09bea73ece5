"""Reading a compiled circuit back: its operator on the physical levels and the transitions it uses."""
import numpy as np
import refsem
import vlib


def expected(rec):
    return np.stack(rec["states"], axis=1)


def operator(qc):
    return refsem.unitary(qc.instructions, qc.dimensions)


def place_matrix(places):
    """|placed x><x| for one placement (physical level of every logical level) per line."""
    m = np.eye(1)
    for pl in places:
        one = np.zeros((len(pl), len(pl)))
        for i, j in enumerate(pl):
            one[j, i] = 1
        m = np.kron(m, one)
    return m


def judge(ck, what, rec, backend_of, compile_, key=None, moves=False):
    """Compile the program on its device and compare operator, announced placement and (optionally) the transitions used."""
    replay = {**vlib.show(rec), "compiler": what}
    ok, qc = ck.guard("building the circuit", lambda: vlib.build(rec), replay)
    if not ok:
        return None
    before = vlib_instr(qc)
    backend = backend_of(rec)
    ok, out = ck.guard(what, lambda: compile_(backend, qc), replay, key)
    if not ok:
        return None
    exp = expected(rec)
    place = [list(line["place"]) for line in rec["dev"]]
    maps = None if out.mappings is None else [list(m) for m in out.mappings]
    if moves and maps is not None and [sorted(m) for m in maps] == [sorted(p) for p in place]:
        # the compiled circuit may leave the levels somewhere else, as long as it says where
        exp = place_matrix(maps) @ place_matrix(place).T @ exp
    ok, got = ck.guard(f"reading the result of {what}", lambda: operator(out), replay, key)
    if not ok:
        return None
    if not vlib.same_up_to_phase(got, exp, 2e-4):
        ck.violation(f"{what} changes the operator on dims {rec['dims']} (largest deviation {abs(abs(got) - abs(exp)).max():.3g} in modulus)",
                     {**replay, "compiled": [describe(g) for g in out.instructions]}, key)
    if moves:
        if maps is None or [sorted(m) for m in maps] != [sorted(p) for p in place]:
            ck.violation(f"{what} announces level mappings {maps} on a device with dims {rec['dims']}", replay)
        if [list(g.log_phy_map) for g in backend.energy_level_graphs] != place:
            ck.violation(f"{what} moves the levels of the backend it compiles for", replay)
    elif maps != place:
        ck.violation(f"{what} announces level mappings {maps}, the device places levels at {place}", replay)
    if vlib_instr(qc) != before:
        ck.violation(f"{what} changed the circuit it was given", replay)
    if list(out.dimensions) != list(rec["dims"]) or out.num_qudits != len(rec["dims"]):
        ck.violation(f"{what} returns a register {out.dimensions} for {rec['dims']}", replay)
    ck.ok()
    return out


def vlib_instr(qc):
    return [describe(g) for g in qc.instructions]


def describe(g):
    try:
        tag, lines, d, p, dag, ctl = refsem.read_gate(g)
    except Exception:  # noqa: BLE001
        return repr(g)
    p = [round(float(x), 9) if not isinstance(x, (list, np.ndarray)) else np.asarray(x).round(9).tolist() for x in p] if not isinstance(p, np.ndarray) and p is not None else None if p is None else p.round(9).tolist()
    return [tag, list(lines), p, dag, [list(c) for c in ctl]]


def logical(ck, what, rec, run_, exact=False, merged=False):
    """A pass that stays on the logical levels: same register, same operator, no placement announced."""
    replay = {**vlib.show(rec), "pass": what}
    ok, qc = ck.guard("building the circuit", lambda: vlib.build(rec), replay)
    if not ok:
        return None
    before = vlib_instr(qc)
    ok, out = ck.guard(what, lambda: run_(qc), replay)
    if not ok:
        return None
    ok, got = ck.guard(f"reading the result of {what}", lambda: operator(out), replay)
    if not ok:
        return None
    exp = expected(rec)
    same = got.shape == exp.shape and (np.allclose(got, exp, atol=1e-6) if exact else vlib.same_up_to_phase(got, exp, 2e-4))
    if not same:
        ck.violation(f"{what} changes the operator on dims {rec['dims']}", {**replay, "result": vlib_instr(out)})
    if out.mappings:
        ck.violation(f"{what} announces level mappings {out.mappings} for a circuit it leaves on logical levels", replay)
    if vlib_instr(qc) != before:
        ck.violation(f"{what} changed the circuit it was given", replay)
    if list(out.dimensions) != list(rec["dims"]) or out.num_qudits != len(rec["dims"]):
        ck.violation(f"{what} returns a register {out.dimensions} for {rec['dims']}", replay)
    if merged:
        # no two gates that could be merged are left next to each other on a line
        last = {}
        for g in out.instructions:
            tag, lines, d, p, dag, ctl = refsem.read_gate(g)
            mine = sorted(set(lines) | {c[0] for c in ctl})
            if len(mine) == 1 and last.get(mine[0]) == 1:
                ck.violation(f"{what} leaves two consecutive single-qudit gates on line {mine[0]}", {**replay, "result": vlib_instr(out)})
                break
            for q in mine:
                last[q] = len(mine)
    ck.ok()
    return out


# ----------------------------------------------------------------------------- long programs on wide registers (spec/Trail.tla)
def wide_device(ck, what, rec, compile_, moves=False):
    """A trail compiled for its device: from the placed ground state to the placed branches of the specification."""
    dims, dev = rec["dims"], rec["dev"]
    replay = {**vlib.show(rec), "compiler": what}
    ok, qc = ck.guard("building the circuit", lambda: vlib.build(rec), replay)
    if not ok:
        return None
    backend = vlib.device_backend(dev)
    ok, out = ck.guard(what, lambda: compile_(backend, qc), replay)
    if not ok:
        return None
    place = [list(line["place"]) for line in dev]
    maps = None if out.mappings is None else [list(m) for m in out.mappings]
    if maps is None or [sorted(m) for m in maps] != [sorted(p) for p in place] or (not moves and maps != place):
        ck.violation(f"{what} announces level mappings {maps}, the device places levels at {place}", replay)
        return None
    if moves:
        exp = np.zeros(dims, dtype=complex)
        for digits, amp in rec["branches"]:
            exp[tuple(m[x] for m, x in zip(maps, digits))] = amp
        exp = exp.reshape(-1)
    else:
        exp = vlib.trail_state(rec, "placed")
    start = np.zeros(dims, dtype=complex)
    start[tuple(p[0] for p in place)] = 1
    ok, got = ck.guard(f"reading the result of {what}", lambda: refsem.run(out.instructions, dims, start.reshape(-1)), replay)
    if ok and not vlib.same_up_to_phase(got, exp, 1e-3):
        ck.violation(f"{what} changes the final state of a program of {len(rec['prog'])} gates on dims {dims}", replay)
    if list(out.dimensions) != list(dims):
        ck.violation(f"{what} returns a register {out.dimensions} for {dims}", replay)
    if [list(g.log_phy_map) for g in backend.energy_level_graphs] != place:
        ck.violation(f"{what} moves the levels of the backend it compiles for", replay)
    ck.ok()
    return out


def wide_logical(ck, what, rec, run_, compare="phase"):
    """A trail through a pass on logical levels; compare: exact state, state up to a phase, or outcome probabilities only."""
    replay = {**vlib.show(rec), "pass": what}
    ok, qc = ck.guard("building the circuit", lambda: vlib.build(rec), replay)
    if not ok:
        return None
    before = vlib_instr(qc)
    ok, out = ck.guard(what, lambda: run_(qc), replay)
    if not ok:
        return None
    ok, got = ck.guard(f"reading the result of {what}", lambda: refsem.run(out.instructions, out.dimensions), replay)
    if not ok:
        return None
    exp = vlib.trail_state(rec)
    same = got.shape == exp.shape and {"exact": lambda: np.allclose(got, exp, atol=1e-6), "phase": lambda: vlib.same_up_to_phase(got, exp, 5e-4),
                                       "outcomes": lambda: np.allclose(abs(got) ** 2, abs(exp) ** 2, atol=1e-6)}[compare]()
    if not same:
        ck.violation(f"{what} changes the final state of a program of {len(rec['prog'])} gates on dims {rec['dims']}", {**replay, "result": vlib_instr(out)})
    if vlib_instr(qc) != before:
        ck.violation(f"{what} changed the circuit it was given", replay)
    ck.ok()
    return out
