"""C29: states known by name, basis states, random states, the normalisation test, and preparing them."""
import itertools
import math
import numpy as np
import refsem
import vlib


def registers(quick):
    out = [list(r) for n in (1, 2, 3) for r in itertools.product((2, 3, 4), repeat=n)]
    out += [[5], [7], [5, 2], [2, 7], [3, 5], [6, 4], [2, 2, 5], [5, 3, 2]]
    out += [list(r) for r in itertools.product((2, 3), repeat=4)]
    if not quick:
        out += [list(r) for r in itertools.product((2, 3), repeat=5)] + [list(r) for r in itertools.permutations((2, 3, 4, 5))]
    return out


def named(ck, rec, k):
    from mqt.qudits.compiler.state_compilation.retrieve_state import generate_uniform_state, verify_normalized_state
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.components.extensions.matrix_factory import from_dirac_to_basis
    dims, name = list(rec["dims"]), rec["name"]
    sh = {"dims": dims, "name": name}
    given = list(dims)
    ok, psi = ck.guard("generate_uniform_state", lambda: np.asarray(generate_uniform_state(given, name)), sh)
    if not ok:
        return
    want = np.zeros(math.prod(dims), dtype=complex)
    want[[m - 1 for m in rec["members"]]] = 1 / math.sqrt(len(rec["members"]))
    if psi.shape != want.shape or not np.allclose(psi, want, atol=1e-9):
        ck.violation(f"generate_uniform_state({dims}, {name!r}) is not the superposition of its {len(rec['members'])} basis states",
                     {**sh, "got": np.flatnonzero(abs(psi) > 1e-9), "expected": [m - 1 for m in rec["members"]]})
        return
    if given != dims:
        ck.violation("generate_uniform_state changes the register it is given", sh)
    for m, levels in zip(rec["members"], rec["levels"]):
        ok, one = ck.guard("from_dirac_to_basis", lambda: np.asarray(from_dirac_to_basis(list(levels), list(dims))), sh)  # noqa: B023
        if ok and (one.shape != want.shape or one[m - 1] != 1 or np.count_nonzero(one) != 1):
            ck.violation(f"from_dirac_to_basis({levels}, {dims}) is not basis state {m - 1}", sh)
    if len(set(dims)) == 1 and not np.array_equal(from_dirac_to_basis(list(levels), dims[0]), from_dirac_to_basis(list(levels), dims)):
        ck.violation("from_dirac_to_basis with one size for all qudits gives another state", sh)
    # the test for normalised vectors: amplitudes m of squared scale s are normalised exactly if there are s of them
    for s in range(1, len(rec["members"]) + 3):
        vec = want * math.sqrt(len(rec["members"]) / s) * np.exp(1j * np.arange(len(want)))
        for arg in (vec, list(vec)):
            ok, said = ck.guard("verify_normalized_state", lambda: verify_normalized_state(arg), sh)  # noqa: B023
            if ok and bool(said) != (s == len(rec["members"])):
                ck.violation(f"verify_normalized_state says {said} for {len(rec['members'])} amplitudes of squared size 1/{s}", sh)
    if len(want) <= 36:
        qc = QuantumCircuit(len(dims), dims, 0)
        ok, _ = ck.guard("set_initial_state", lambda: qc.set_initial_state(psi), sh)
        if ok:
            got = refsem.run(qc.instructions, qc.dimensions)
            if not np.allclose(got, want, atol=1e-4):
                ck.violation(f"preparing the {name} of {dims} does not reach it", {**sh, "got": got})
    ck.ok()


def drawn(ck, dims, num):
    """Random states: of the register's size, normalised, new every time, the same in every direction."""
    from mqt.qudits.compiler.state_compilation.retrieve_state import generate_random_quantum_state, verify_normalized_state
    D = math.prod(dims)
    sh = {"dims": dims}
    ok, many = ck.guard("generate_random_quantum_state", lambda: np.array([generate_random_quantum_state(list(dims)) for _ in range(num)]), sh)
    if not ok:
        return
    if many.shape != (num, D):
        ck.violation(f"generate_random_quantum_state({dims}) has {many.shape[1:]} entries", sh)
        return
    if not np.allclose((abs(many) ** 2).sum(axis=1), 1) or not all(verify_normalized_state(v) for v in many[:20]):
        ck.violation(f"generate_random_quantum_state({dims}) is not normalised", sh)
    if len({tuple(np.round(v, 12)) for v in many}) != num:
        ck.violation(f"generate_random_quantum_state({dims}) repeats itself", sh)
    # second moments of a uniformly drawn state: E |a_k|^2 = 1/D, E a_j conj(a_k) = 0, E a_j a_k = 0; deviations of six sigma
    sigma = 1 / (D * math.sqrt(num))
    for what, mom, exp in (("second moments", many.T @ many.conj() / num, np.eye(D) / D), ("phases", many.T @ many / num, np.zeros((D, D)))):
        if abs(mom - exp).max() > 8 * sigma:
            ck.violation(f"generate_random_quantum_state({dims}): the {what} are not those of uniformly drawn states (off by {abs(mom - exp).max() / sigma:.1f} sigma)", sh)
    # E |a_k|^4 = 2 / (D (D + 1)) tells a uniform draw from other ones with the same second moments
    fourth = (abs(many) ** 4).mean(axis=0)
    exp = 2 / (D * (D + 1))
    if D > 1 and abs(fourth - exp).max() > 8 * 5 * exp / math.sqrt(num):
        ck.violation(f"generate_random_quantum_state({dims}): fourth moments {fourth}, not {exp:.4g}", sh)
    ck.ok()


def run(ck):
    vlib.load_repo()
    from mqt.qudits.compiler.state_compilation.retrieve_state import generate_uniform_state
    regs = registers(ck.quick)
    t = ck.used(vlib.run_tlc("Named", {"N": 24, "CycPoly": vlib.cyc_poly(24), "Registers": regs}, spec="SpecN", invariants=["CountOK", "SymmetryOK", "IndexOK"]))
    seen = {(tuple(r["dims"]), r["name"]): r for r in t.records}
    if len(seen) != 3 * len(regs):
        raise RuntimeError(f"{len(seen)} named states for {len(regs)} registers")
    for k, rec in enumerate(seen.values()):
        ck.guard("replay", lambda: named(ck, rec, k), {"dims": rec["dims"], "name": rec["name"]})  # noqa: B023
        ck.sample(rec)
    for dims in ([2], [3], [2, 3], [4, 2], [3, 2, 2], [5], [3, 3]):
        drawn(ck, dims, 3000 if ck.quick else 40000)
    for bad in ("w", "", "cat", "product"):
        try:
            generate_uniform_state([2, 2], bad)
        except Exception:  # noqa: BLE001
            ck.ok()
            continue
        ck.violation(f"generate_uniform_state accepts the name {bad!r}", {"name": bad})
