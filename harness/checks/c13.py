"""C13: the logical decompositions (local QR, local adaptive, entangling QR) keep the operator of the circuit."""
import numpy as np
import vlib
import compiled
import refsem
from checks.c09 import FAMS, LOCAL, WIDE, WIDE_FAMS

CONFIGS = [
    # name, ring, registers, families, controls, programs, depth
    ("local", 24, [[2], [3], [4], [6], [2, 3]], LOCAL, 0, 50, 1, 4),
    ("adaptive", 24, [[2], [3], [4], [3, 2]], LOCAL, 0, 40, 1, 4),
    ("entangling", 24, [[2, 2], [3, 3], [2, 3], [3, 2], [4, 2], [2, 4]], ["csum", "cx", "ls", "ms", "cutwo", "mono2", "cx", "csum", "h"], 100, 90, 1, 2),
    ("entangling", 24, [[2, 3, 2], [3, 2, 3], [2, 2, 3]], ["csum", "cx", "ls", "mono2", "x", "rxy"], 100, 30, 1, 3),
    ("entangling", 40, [[5, 2], [2, 5]], ["csum", "cx", "ls", "x"], 100, 6, 1, 1),
    ("both", 24, [[2, 3], [3, 2], [2, 2, 3]], FAMS, 30, 30, 2, 5),
]


def run(ck):
    vlib.load_repo()
    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.compiler.onedit import LogLocAdaPass, LogLocQRPass
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass
    from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
    scale = 1 if ck.quick else 10
    for i, (kind, n, dims, fams, ctl, num, lo, hi) in enumerate(CONFIGS):
        t = ck.used(vlib.device_programs(n, dims, fams, ck.seed + 500 + 10 * i, num * scale, lo, hi, identity=True, ctl=ctl, levrev=20))
        for k, rec in enumerate(t.records):
            backend = vlib.device_backend(rec["dev"])
            run_ = {"local": lambda qc: LogLocQRPass(backend).transpile(qc),
                    "adaptive": lambda qc: LogLocAdaPass(backend).transpile(qc),
                    "entangling": lambda qc: LogEntQRCEXPass(backend).transpile(qc),
                    "both": lambda qc: QuditCompiler().compile(backend, qc, ["LogLocQRPass", "LogEntQRCEXPass"])}[kind]
            compiled.logical(ck, f"logical {kind} decomposition", rec, run_)
            if kind in ("local", "adaptive") and [list(g.log_phy_map) for g in backend.energy_level_graphs] != [list(range(d)) for d in rec["dims"]]:
                ck.violation("a logical decomposition moves the levels of the backend", vlib.show(rec))
            ck.sample(vlib.show(rec))
            if kind == "entangling" and k % 3 == 0:
                # the decomposition as returned reduces the gate to the identity, and counts the gates it uses
                for g in vlib.build(rec).instructions:
                    if len(set(g.reference_lines)) != 2:
                        continue
                    ok, res = ck.guard("EntangledQRCEX.execute", lambda: EntangledQRCEX(g).execute(), {**vlib.show(rec), "gate": compiled.describe(g)})
                    if ok:
                        u = refsem.unitary([g], rec["dims"])
                        d = refsem.unitary(res[0], rec["dims"])
                        if not vlib.same_up_to_phase(d @ u, np.eye(len(u)), 1e-3):
                            ck.violation("EntangledQRCEX does not reduce the gate to the identity", {**vlib.show(rec), "gate": compiled.describe(g)})
                        ck.ok()
    # wide registers, long programs
    t = ck.used(vlib.trails(840, WIDE, WIDE_FAMS, ck.seed + 590, 10 * scale, 6, 14, max_ctl=1))
    for k, rec in enumerate(t.records):
        backend = vlib.device_backend(rec["dev"])
        what, run_ = [("LogEntQRCEXPass", lambda qc: LogEntQRCEXPass(backend).transpile(qc)),  # noqa: B023
                      ("LogLocQRPass+LogEntQRCEXPass", lambda qc: QuditCompiler().compile(backend, qc, ["LogLocQRPass", "LogEntQRCEXPass"])),  # noqa: B023
                      ("LogLocAdaPass", lambda qc: LogLocAdaPass(backend).transpile(qc))][k % 3]  # noqa: B023
        compiled.wide_logical(ck, what, rec, run_)
