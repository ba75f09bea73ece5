"""C09: compiling at O0 realises the circuit on the physical levels of the device."""
import numpy as np
import vlib
import compiled

FAMS = [f for f in vlib.ALL_FAMS if f != "mono3"]
LOCAL = ["h", "x", "z", "s", "pm", "rxy", "rz", "rh", "virtrz", "cuone", "noisex", "noisey"]
CONFIGS = [
    # ring, registers, families, controls %, programs, lengths
    (24, [[2], [3], [4], [6]], LOCAL, 0, 60, 1, 3),
    (40, [[5], [5, 2]], LOCAL + ["cx", "csum"], 10, 12, 1, 3),
    (24, [[2, 2], [3, 3], [2, 3], [3, 2], [4, 3], [2, 4]], FAMS, 25, 90, 1, 4),
    (24, [[2, 3, 2], [3, 2, 3], [2, 2, 4]], FAMS, 25, 30, 2, 5),
    # three-qudit gates are left to the device: only where levels keep their places
    (24, [[2, 3, 2]], FAMS + ["mono3"] * 4, 25, 6, 2, 4),
]
WIDE = [[2, 3, 2, 3, 2], [2] * 6, [3, 2, 3, 2, 2], [4, 2, 3, 2], [2, 2, 3, 2, 2, 2]]
WIDE_FAMS = [f for f in vlib.TRAIL_FAMS if f != "mono3"]
SHIPPED = [("innsbruck01", [3, 3]), ("faketraps2trits", [3, 3]), ("faketraps2six", [6, 6]), ("faketraps3six", [6, 6, 6])]


def by_hand(backend, qc):
    """The passes on whole circuits, one after the other; where the levels are is the machine's placement."""
    from mqt.qudits.compiler.onedit import PhyLocQRPass
    from mqt.qudits.compiler.twodit.entanglement_qr.phy_ent_qr_cex_decomp import PhyEntQRCEXPass
    out = PhyEntQRCEXPass(backend).transpile(PhyLocQRPass(backend).transpile(qc))
    out.set_mapping([list(g.log_phy_map) for g in backend.energy_level_graphs][:qc.num_qudits])
    return out


def pipelines():
    from mqt.qudits.compiler import QuditCompiler
    return [("compile_O0", lambda b, qc: QuditCompiler().compile_O0(b, qc)),
            ("compile PhyLocQRPass+PhyEntQRCEXPass", lambda b, qc: QuditCompiler().compile(b, qc, ["PhyLocQRPass", "PhyEntQRCEXPass"])),
            ("PhyLocQRPass, then PhyEntQRCEXPass, by hand", by_hand),
            ("compile LocQRPass+PhyEntQRCEXPass", lambda b, qc: QuditCompiler().compile(b, qc, ["PhyEntQRCEXPass", "LocQRPass"]))]


def shipped(ck, name, compile_, moves=False, top=None, num=10):
    """The machines that come with the package: identity devices from TLC, conjugated with the machine's own placement."""
    from mqt.qudits.simulation import MQTQuditProvider
    for bname, dims in SHIPPED:
        if max(dims) > 3:
            if top is not None and top < 6:
                continue
            dims = [6] if len(dims) == 2 else [6, 2]   # only the first line of these machines fits a small state space
            if len(dims) == 2:
                continue
        t = ck.used(vlib.device_programs(24, [dims], LOCAL if len(dims) == 1 else FAMS, ck.seed + 7 + len(bname), num, 1, 4, identity=True, ctl=20))
        for k, rec in enumerate(t.records):
            backend = MQTQuditProvider().get_backend(bname)
            fn, title = compile_, f"{name} for {bname}"
            if k % 3 == 1 and name in ("compile_O0", "compile_O1"):
                # the shortcut of the circuit itself
                short = name.replace("_", "")
                fn, title = (lambda b, qc, short=short, bname=bname: getattr(qc, short)(bname)), f"circuit.{short}({bname!r})"
            place = [list(g.log_phy_map) for g in backend.energy_level_graphs][:len(dims)]
            pm = compiled.place_matrix(place)
            rec = {**rec, "states": list((pm @ np.stack(rec["states"], axis=1) @ pm.T).T), "machine": bname,
                   "dev": [{"place": p, "phys": [[p[a], p[b]] for a, b in g.edges]} for p, g in zip(place, backend.energy_level_graphs)]}
            compiled.judge(ck, title, rec, lambda r, b=backend: b, fn, moves=moves)


def run(ck):
    vlib.load_repo()
    scale = 1 if ck.quick else 10
    pipes = pipelines()
    for i, (n, dims, fams, ctl, num, lo, hi) in enumerate(CONFIGS):
        t = ck.used(vlib.device_programs(n, dims, fams, ck.seed + 100 + 10 * i, num * scale, lo, hi, ctl=ctl, levrev=20,
                                         identity="mono3" in fams))
        for k, rec in enumerate(t.records):
            name, fn = pipes[0] if k % 4 else pipes[1 + (k // 4) % 3]
            compiled.judge(ck, name, rec, lambda r: vlib.device_backend(r["dev"]), fn)
            ck.sample(vlib.show(rec))
    # wide registers, long programs
    t = ck.used(vlib.trails(840, WIDE, WIDE_FAMS, ck.seed + 190, 10 * scale, 6, 14, max_ctl=1))
    for rec in t.records:
        compiled.wide_device(ck, "compile_O0", rec, pipes[0][1])
    shipped(ck, "compile_O0", pipes[0][1], num=8 * scale)
