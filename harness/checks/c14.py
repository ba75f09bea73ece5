"""C14: moving phases through a circuit keeps its operator and gathers the phases of every run at one end."""
import numpy as np
import compiled
import refsem
import vlib

RUN = ["virtrz"] * 4 + ["rxy"] * 4
CONFIGS = [
    # ring, registers, families, controls %, programs, lengths
    (24, [[2], [3], [4], [6]], RUN, 0, 60, 2, 10),
    (40, [[5]], RUN + ["rz"], 0, 20, 2, 8),
    (24, [[3, 2], [2, 2], [3, 3]], RUN * 2 + ["h", "cx", "rz"], 10, 110, 3, 10),
    (24, [[3, 2], [2, 3, 2], [2, 2, 2]], RUN + vlib.ALL_FAMS, 30, 80, 3, 9),
]


def runs(gates):
    """The circuit as a list of runs (line, gates) of movable gates and single other gates."""
    out = []
    for g in gates:
        tag, lines, d, p, dag, ctl = refsem.read_gate(g)
        if tag in {"rxy", "virtrz"} and not ctl:
            if out and out[-1][0] == lines[0]:
                out[-1][1].append((tag, g))
            else:
                out.append((lines[0], [(tag, g)]))
        else:
            out.append((None, [(tag, g)]))
    return out


def judge(ck, rec, back):
    from mqt.qudits.compiler.onedit import ZPropagationOptPass
    name = f"ZPropagationOptPass(back={back})"
    qc_out = compiled.logical(ck, name, rec, lambda qc: ZPropagationOptPass(None, back).transpile(qc), exact=True)
    if qc_out is None:
        return
    replay = {**vlib.show(rec), "pass": name, "result": compiled.vlib_instr(qc_out)}
    before, after = runs(vlib.build(rec).instructions), runs(qc_out.instructions)
    if [r[0] for r in before] != [r[0] for r in after]:
        ck.violation(f"{name} moves gates out of their runs", replay)
        return
    for (line, old), (_, new) in zip(before, after):
        if line is None:
            if compiled.describe(old[0][1]) != compiled.describe(new[0][1]):
                ck.violation(f"{name} changes a gate that is no phase or rotation", replay)
            continue
        tags = [t for t, _ in new]
        if tags.count("rxy") != [t for t, _ in old].count("rxy"):
            ck.violation(f"{name} changes the number of rotations of a run", replay)
        if len(old) > 1 and tags != sorted(tags, reverse=back):
            ck.violation(f"{name} leaves a phase {'behind' if back else 'in front of'} a rotation of its run on line {line}", replay)


def run(ck):
    vlib.load_repo()
    scale = 1 if ck.quick else 10
    for i, (n, dims, fams, ctl, num, lo, hi) in enumerate(CONFIGS):
        t = ck.used(vlib.phase_programs(n, dims, fams, ck.seed + 400 + i, num * scale, lo, hi, ctl=ctl))
        for k, rec in enumerate(t.records):
            for back in (True, False):
                judge(ck, rec, back)
            ck.sample(vlib.show(rec))
    # long programs on wide registers
    from mqt.qudits.compiler.onedit import ZPropagationOptPass
    t = ck.used(vlib.trails(840, [[2, 3, 4, 5, 2, 3], [2] * 10, [7, 2, 5, 3], [10, 3, 4], [3] * 6], RUN * 3 + vlib.TRAIL_FAMS, ck.seed + 490, 20 * scale, 40, 100))
    for rec in t.records:
        for back in (True, False):
            compiled.wide_logical(ck, f"ZPropagationOptPass(back={back})", rec, lambda qc: ZPropagationOptPass(None, back).transpile(qc), "exact")
