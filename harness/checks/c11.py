"""C11: compiling at O2 (adaptive local decomposition, moving levels, pending phases) realises the circuit."""
import vlib
import compiled
from checks.c09 import FAMS, LOCAL, WIDE, WIDE_FAMS, shipped

# the adaptive search is exponential in the dimension: up to four levels
CONFIGS = [
    (24, [[2], [3], [4], [3], [4]], LOCAL, 0, 100, 1, 5),
    (24, [[2, 2], [3, 3], [2, 3], [3, 2], [4, 3], [2, 4]], LOCAL + FAMS, 20, 60, 2, 6),
    (24, [[2, 3, 2], [3, 2, 3], [2, 2, 4]], LOCAL + ["cx", "csum", "cx"], 10, 24, 4, 8),
]


def by_hand(backend, qc):
    """The adaptive pass on a whole circuit of single-qudit gates: where the levels end is what its graphs say afterwards."""
    from copy import deepcopy
    from mqt.qudits.compiler.onedit import PhyLocAdaPass
    graphs = list(backend.energy_level_graphs)
    backend.energy_level_graphs[:] = deepcopy(graphs)
    out = PhyLocAdaPass(backend).transpile(qc)
    out.set_mapping([list(g.log_phy_map) for g in backend.energy_level_graphs][:qc.num_qudits])
    backend.energy_level_graphs[:] = graphs
    return out


def run(ck):
    vlib.load_repo()
    from mqt.qudits.compiler import QuditCompiler
    scale = 1 if ck.quick else 8
    o2 = ("compile_O2", lambda b, qc: QuditCompiler.compile_O2(b, qc))
    ada = ("compile PhyLocAdaPass+PhyEntQRCEXPass", lambda b, qc: QuditCompiler().compile(b, qc, ["PhyLocAdaPass", "PhyEntQRCEXPass"]))
    hand = ("PhyLocAdaPass by hand", by_hand)
    for i, (n, dims, fams, ctl, num, lo, hi) in enumerate(CONFIGS):
        t = ck.used(vlib.device_programs(n, dims, fams, ck.seed + 300 + 10 * i, num * scale, lo, hi, ctl=ctl))
        for k, rec in enumerate(t.records):
            name, fn = (hand if i == 0 and k % 10 == 0 else ada) if k % 5 == 0 else o2
            try:
                vlib.within(60, lambda: compiled.judge(ck, name, rec, lambda r: vlib.device_backend(r["dev"]), fn, moves=True))  # noqa: B023
            except vlib.OutOfTime:
                ck.extra["searches_cut_off"] = ck.extra.get("searches_cut_off", 0) + 1
            ck.sample(vlib.show(rec))
    # wide registers, long programs
    t = ck.used(vlib.trails(840, WIDE, WIDE_FAMS, ck.seed + 390, 10 * scale, 6, 14, max_ctl=1))
    for k, rec in enumerate(t.records):
        name, fn = ada if k % 3 == 0 else o2
        try:
            vlib.within(60, lambda: compiled.wide_device(ck, name, rec, fn, moves=True))  # noqa: B023
        except vlib.OutOfTime:
            ck.extra["searches_cut_off"] = ck.extra.get("searches_cut_off", 0) + 1
    shipped(ck, "compile_O2", o2[1], moves=True, top=3, num=8 * scale)
