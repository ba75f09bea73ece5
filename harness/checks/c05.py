"""C05: a gate acts on its own lines, under its own controls, and on nothing else (full-register operators)."""
import numpy as np
import refsem
import vlib

SAMPLED = [
    (24, [[2, 3, 2], [3, 2, 4], [2, 2, 3, 2], [4, 3], [3, 2], [2, 4, 2, 3], [6, 2, 2]], vlib.ALL_FAMS, 160),
    (40, [[5, 2, 2], [2, 5], [2, 2, 5]], vlib.ALL_FAMS, 40),
    # wide registers: two controls, the target between them, idle lines on both sides of it
    (24, [[2, 3, 2, 2, 2], [2, 2, 2, 3, 2]], ["x", "rxy", "x", "cx"], 300),
]


def compare(ck, rec):
    exp = np.stack(rec["states"], axis=1)
    dims, op = rec["dims"], rec["prog"][0]
    sh = vlib.show(rec)
    ok, qc = ck.guard("building the gate", lambda: vlib.build(rec), sh)
    if not ok:
        return
    g = qc.instructions[0]
    ok, ms = ck.guard("to_matrix", lambda: [np.asarray(g.to_matrix(k)) for k in (0, 1, 2)], sh)
    if not ok:
        return
    m0, m1, m2 = ms
    if m2.shape != exp.shape or not np.allclose(m2, exp, atol=1e-9):
        ck.violation(f"full-register operator of {sh['prog'][0]} on dims {dims} differs from the specification", {**sh, "got": m2, "expected": exp})
    lines = sorted(op["q"] + [c[0] for c in op["ctl"]])
    lo, hi = lines[0], lines[-1]
    wide = np.kron(np.kron(np.eye(int(np.prod(dims[:lo]))), m1), np.eye(int(np.prod(dims[hi + 1:]))))
    if wide.shape != exp.shape or not np.allclose(wide, exp, atol=1e-9):
        ck.violation(f"to_matrix(1) of {sh['prog'][0]} on dims {dims} is not the operator on the spanned lines", {**sh, "got": m1})
    if not op["ctl"]:
        own = sorted(op["q"])
        full = np.stack([refsem.apply(np.eye(len(exp))[:, i], dims, m0, own) for i in range(len(exp))], axis=1)
        if not np.allclose(full, exp, atol=1e-9):
            ck.violation(f"to_matrix(0) of {sh['prog'][0]} on dims {dims} is not the operator on its own lines", {**sh, "got": m0})
    if len(g.reference_lines) != len(lines) or sorted(g.reference_lines) != lines:
        ck.violation(f"reference lines of {sh['prog'][0]} are {g.reference_lines}, expected {lines}", sh)
    if sorted(g.get_control_lines) != sorted(c[0] for c in op["ctl"]):
        ck.violation("control lines changed by reading the matrix", sh)
    if bool(g.is_long_range) != any(b - a > 1 for a, b in zip(lines, lines[1:])):
        ck.violation(f"long-range flag of {sh['prog'][0]} on lines {lines} is {g.is_long_range}", sh)
    ck.ok()


def run(ck):
    vlib.load_repo()
    k = 1 if ck.quick else 8
    # exhaustive: every gate of the finite gate set, every line choice, every single control, on a mixed register
    for dims, fams in [([2, 3, 2], ["x", "rxy", "virtrz", "csum", "cx", "ls", "ms"]), ([3, 2], vlib.ALL_FAMS)]:
        t = ck.used(vlib.programs(24, [dims], fams, ck.seed, 1, 1, 1, dag=0 if len(dims) == 3 else 1, ctl=1, all_cols=True, exhaustive=True))
        for rec in t.records:
            compare(ck, rec)
            ck.sample(vlib.show(rec))
    # gate after gate on wide registers: every gate by its full-register operator
    t = ck.used(vlib.trails(840, [[2] * 8, [3, 2, 3, 2, 3], [5, 2, 7, 2], [2, 2, 3, 2, 2, 2], [12, 2, 3], [2, 11, 3]], vlib.TRAIL_FAMS, ck.seed + 190,
                            18 * k, 20, 40, ctl=50, levrev=30))
    # levels of two digits on both lines of a gate, every basis state of the register followed
    t2 = ck.used(vlib.trails(840, [[12, 2, 12], [14, 11], [11, 2, 13]], ["z", "s", "csum", "cx", "ls", "csum", "mono2", "rz", "x"], ck.seed + 191,
                             6 * k, 12, 16, branches=300, ctl=50, levrev=30))
    for rec in t.records + t2.records:
        sh = vlib.show(rec)

        def by_operators():
            psi = np.zeros(int(np.prod(rec["dims"])), dtype=complex)
            psi[0] = 1
            for g in vlib.build(rec).instructions:
                psi = np.asarray(g.to_matrix(2)) @ psi
            return psi
        ok, got = ck.guard("to_matrix", by_operators, sh)
        if ok and not np.allclose(got, vlib.trail_state(rec), atol=1e-6):
            ck.violation(f"the full-register operators of a program of {len(rec['prog'])} gates on dims {rec['dims']} lead to another state than specified", sh)
        ck.ok()
    for i, (n, dl, fams, num) in enumerate(SAMPLED):
        t = ck.used(vlib.programs(n, dl, fams, ck.seed + 100 + i, num * k, 1, 1, dag=30, ctl=80 if i < 2 else 100, rev=60, levrev=30, all_cols=True))
        for rec in t.records:
            compare(ck, rec)
