"""C15: dropping phase gates at the edges of a circuit changes no outcome probability and drops nothing else."""
import numpy as np
import compiled
import refsem
import vlib

EDGE = ["virtrz", "rz", "z"] * 2 + ["h", "rxy", "x"]
CONFIGS = [
    # ring, registers, families, controls %, programs, lengths
    (24, [[2], [3], [4]], EDGE, 0, 60, 1, 6),
    (40, [[5, 2]], EDGE, 30, 30, 2, 7),
    (24, [[3, 2], [2, 2], [2, 4]], EDGE + ["cx", "csum"], 30, 140, 2, 8),
    (24, [[2, 3, 2], [3, 2, 2], [2, 2, 2]], EDGE + ["cx", "ls", "ms"], 40, 120, 3, 9),
    (24, [[2, 3, 2], [3, 3]], EDGE + vlib.ALL_FAMS, 30, 80, 3, 9),
]


def judge(ck, rec):
    from mqt.qudits.compiler.onedit import ZRemovalOptPass
    dims = rec["dims"]
    psi = rec["states"][0]
    for name, fn, form, whole in [("ZRemovalOptPass.transpile", lambda p, qc: p.transpile(qc), "both", False),
                                  ("ZRemovalOptPass.remove_initial_rz", lambda p, qc: p.remove_initial_rz(qc), "lead", True),
                                  ("ZRemovalOptPass.remove_trailing_rz_sequence", lambda p, qc: p.remove_trailing_rz_sequence(qc), "trail", False)]:
        replay = {**vlib.show(rec), "pass": name}
        qc = vlib.build(rec)
        before = compiled.vlib_instr(qc)
        ok, out = ck.guard(name, lambda: fn(ZRemovalOptPass(None), qc), replay)
        if not ok:
            continue
        replay["result"] = compiled.vlib_instr(out)
        got = refsem.run(out.instructions, dims)
        if not np.allclose(abs(got) ** 2, abs(psi) ** 2, atol=1e-9):
            ck.violation(f"{name} changes the outcome probabilities on dims {dims}", replay)
        elif whole and not vlib.same_up_to_phase(got, psi, 1e-7):
            ck.violation(f"{name} changes the state on dims {dims}", replay)
        expected = compiled.vlib_instr(vlib.build({**rec, "prog": rec[form]}))
        if compiled.vlib_instr(out) != expected:
            ck.violation(f"{name} does not drop exactly the phases at the edge of the circuit on dims {dims}", {**replay, "expected": expected})
        if compiled.vlib_instr(qc) != before:
            ck.violation(f"{name} changed the circuit it was given", replay)
        if list(out.dimensions) != list(dims):
            ck.violation(f"{name} returns a register {out.dimensions} for {dims}", replay)
        ck.ok()


def run(ck):
    vlib.load_repo()
    scale = 1 if ck.quick else 10
    for i, (n, dims, fams, ctl, num, lo, hi) in enumerate(CONFIGS):
        t = ck.used(vlib.phase_programs(n, dims, fams, ck.seed + 500 + i, num * scale, lo, hi, all_cols=False, ctl=ctl))
        for rec in t.records:
            judge(ck, rec)
            ck.sample(vlib.show(rec))
    # long programs on wide registers, phases in front of and behind everything else
    from mqt.qudits.compiler.onedit import ZRemovalOptPass
    t = ck.used(vlib.trails(840, [[2, 3, 4, 5, 2, 3], [2] * 10, [7, 2, 5, 3], [10, 3, 4], [3] * 6], ["virtrz", "rz", "z"] * 6 + vlib.TRAIL_FAMS, ck.seed + 590,
                            20 * scale, 30, 80))
    for rec in t.records:
        compiled.wide_logical(ck, "ZRemovalOptPass.transpile", rec, lambda qc: ZRemovalOptPass(None).transpile(qc), "outcomes")
        compiled.wide_logical(ck, "ZRemovalOptPass.remove_initial_rz", rec, lambda qc: ZRemovalOptPass(None).remove_initial_rz(qc), "phase")
