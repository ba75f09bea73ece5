"""C10: compiling at O1 (resynthesis of local gates, then mapping) realises the circuit; resynthesis alone keeps the operator."""
import vlib
import compiled
from checks.c09 import FAMS, LOCAL, WIDE, WIDE_FAMS, shipped

CONFIGS = [
    (24, [[2], [3], [4], [6]], LOCAL, 0, 24, 2, 6),
    # runs of local gates between few entangling ones: what resynthesis merges and what it must keep apart
    (24, [[2, 3], [3, 3], [3, 2], [2, 4]], LOCAL + ["cx", "csum", "ls"], 15, 60, 4, 9),
    (24, [[2, 3, 2], [3, 2, 3], [2, 2, 2]], LOCAL + ["cx", "csum", "ms"], 15, 24, 5, 10),
]
LOCAL_MONO = ["x", "z", "s", "pm", "rxy", "rz", "virtrz", "noisex", "noisey"]


def run(ck):
    vlib.load_repo()
    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
    scale = 1 if ck.quick else 10
    for i, (n, dims, fams, ctl, num, lo, hi) in enumerate(CONFIGS):
        t = ck.used(vlib.device_programs(n, dims, fams, ck.seed + 200 + 10 * i, num * scale, lo, hi, ctl=ctl))
        for rec in t.records:
            compiled.judge(ck, "compile_O1", rec, lambda r: vlib.device_backend(r["dev"]), lambda b, qc: QuditCompiler.compile_O1(b, qc))
            ck.sample(vlib.show(rec))
    # wide registers, long programs
    t = ck.used(vlib.trails(840, WIDE, WIDE_FAMS, ck.seed + 290, 8 * scale, 6, 14, max_ctl=1))
    for rec in t.records:
        compiled.wide_device(ck, "compile_O1", rec, lambda b, qc: QuditCompiler.compile_O1(b, qc))
    t = ck.used(vlib.trails(840, [[2, 3, 4, 5, 2, 3], [2] * 10, [7, 2, 5, 3], [10, 3, 4], [3] * 6], LOCAL_MONO * 2 + vlib.TRAIL_FAMS, ck.seed + 291,
                            30 * scale, 40, 100))
    for rec in t.records:
        compiled.wide_logical(ck, "NaiveLocResynthOptPass", rec, lambda qc: NaiveLocResynthOptPass(vlib.device_backend([])).transpile(qc), "exact")
    shipped(ck, "compile_O1", lambda b, qc: QuditCompiler.compile_O1(b, qc), num=6 * scale)
    # resynthesis alone: wide registers, gates on any number of lines, operator exactly the same
    for i, (dims, fams) in enumerate([([[2, 3, 2], [3, 2, 2, 2], [2, 2, 2, 2], [4, 3]], FAMS + ["mono3"]),
                                      ([[2, 2, 3], [2, 3, 2, 2]], LOCAL * 2 + ["cx", "csum", "mono3", "mono2"])]):
        t = ck.used(vlib.programs(24, dims, fams, ck.seed + 260 + i, 60 * scale, 4, 12, ctl=35, all_cols=True))
        for rec in t.records:
            compiled.logical(ck, "NaiveLocResynthOptPass", rec, lambda qc: NaiveLocResynthOptPass(vlib.device_backend([])).transpile(qc),
                             exact=True, merged=True)
