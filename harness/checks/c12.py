"""C12: compiled single-qudit gates use only virtual phases and the transitions of the device."""
import vlib
import compiled
from checks.c09 import LOCAL

CONFIGS = [
    (24, [[3], [4], [6], [4, 3], [3, 4, 2]], 60, True, ("O0", "O1")),
    (40, [[5], [5, 3]], 16, True, ("O0",)),
    (24, [[2], [3], [4], [4, 3]], 60, True, ("O2",)),
]


def check(ck, what, rec, out):
    edges = [{frozenset(e) for e in line["phys"]} for line in rec["dev"]]
    for g in out.instructions:
        tag, lines, d, p, dag, ctl = compiled.refsem.read_gate(g)
        replay = {**vlib.show(rec), "compiler": what, "gate": compiled.describe(g)}
        if tag not in ("rxy", "virtrz") or ctl:
            ck.violation(f"{what} of single-qudit gates emits a {tag} gate", replay)
            return
        if tag == "rxy" and frozenset(p[:2]) not in edges[lines[0]]:
            ck.violation(f"{what} rotates levels {p[0]} and {p[1]} of line {lines[0]}, between which the device has no transition", replay)
            return
        if tag == "virtrz" and not 0 <= p[0] < d:
            ck.violation(f"{what} emits a phase on level {p[0]} of a line of dimension {d}", replay)
            return


def run(ck):
    vlib.load_repo()
    from mqt.qudits.compiler import QuditCompiler
    comp = {"O0": lambda b, qc: QuditCompiler().compile_O0(b, qc), "O1": lambda b, qc: QuditCompiler.compile_O1(b, qc),
            "O2": lambda b, qc: QuditCompiler.compile_O2(b, qc)}
    scale = 1 if ck.quick else 12
    for i, (n, dims, num, _, which) in enumerate(CONFIGS):
        t = ck.used(vlib.device_programs(n, dims, LOCAL, ck.seed + 400 + 10 * i, num * scale, 1, 4, ctl=0, levrev=20, all_cols=False))
        for rec in t.records:
            for w in which:
                ok, out = ck.guard(f"compile_{w}", lambda: comp[w](vlib.device_backend(rec["dev"]), vlib.build(rec)), vlib.show(rec))
                if ok:
                    check(ck, f"compile_{w}", rec, out)
                    ck.ok()
            ck.sample(vlib.show(rec))
