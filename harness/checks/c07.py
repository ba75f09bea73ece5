"""C07: saving a circuit to a file and loading it back gives the same circuit, custom matrices included."""
import os, tempfile
from pathlib import Path
import numpy as np
import vlib

FAMS = ["cuone", "cutwo", "mono2", "mono3", "cuone", "cutwo", "mono3", "h", "rxy", "cx", "noisex", "pm", "csum", "virtrz"]
CONFIGS = [(24, [[2, 3, 2], [3, 2], [2, 2, 3], [4, 2, 2], [3, 3]], 120), (40, [[5, 2, 2], [2, 5]], 30)]


def run(ck):
    vlib.load_repo()
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.simulation import MQTQuditProvider
    tn = MQTQuditProvider().get_backend("tnsim")
    k = 1 if ck.quick else 8
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="c07 dir-") as tmp:
        for i, (n, dl, num) in enumerate(CONFIGS):
            t = ck.used(vlib.programs(n, dl, FAMS, ck.seed + 700 + i, num * k, 1, 6, dag=0, ctl=40))
            for rec in t.records:
                sh = vlib.show(rec)
                ok, qc = ck.guard("building", lambda: vlib.build(rec), sh)
                if not ok:
                    continue
                sub = Path(tmp) / f"d{rec['id'] % 5}"
                sub.mkdir(exist_ok=True)

                def trip():
                    before = [np.asarray(g.to_matrix(2)) for g in qc.instructions]
                    if rec["id"] % 2:
                        os.chdir(sub)  # default directory: the current one
                        f = qc.save_to_file(f"c{rec['id'] % 3}")
                    else:
                        f = qc.save_to_file(f"c{rec['id'] % 3}", str(sub))
                    c2 = QuantumCircuit()
                    c2.load_from_file(f)
                    return before, c2, Path(f).exists()
                try:
                    ok, res = ck.guard("save_to_file / load_from_file", trip, sh)
                finally:
                    os.chdir(here)
                if not ok:
                    continue
                before, c2, there = res
                if not there:
                    ck.violation("save_to_file returns a path that does not exist", sh)
                if list(c2.dimensions) != rec["dims"] or [g.qasm_tag for g in c2.instructions] != [g.qasm_tag for g in qc.instructions]:
                    ck.violation(f"loaded circuit has dims {c2.dimensions} and gates {[g.qasm_tag for g in c2.instructions]}", sh)
                    continue
                for j, (g, m, o) in enumerate(zip(c2.instructions, before, qc.instructions)):
                    if not np.allclose(g.to_matrix(2), m, atol=1e-9):
                        ck.violation(f"gate {j} ({sh['prog'][j]}) denotes another operator after loading, dims {rec['dims']}", sh)
                        break
                    if not np.allclose(o.to_matrix(2), m, atol=1e-9):
                        ck.violation(f"saving changed gate {j} ({sh['prog'][j]}) of the circuit itself", sh)
                        break
                st = np.asarray(tn.run(c2).result().get_state_vector()).reshape(-1)
                if not np.allclose(st, rec["states"][0], atol=1e-7):
                    ck.violation(f"state of the loaded circuit differs from the specification on dims {rec['dims']}", sh)
                ck.ok()
                ck.sample(sh)
        # long circuits on wide registers, many custom matrices in one file
        import refsem
        t = ck.used(vlib.trails(840, [[2, 3, 2, 5, 2, 3], [2] * 12, [11, 2, 3], [3] * 6], vlib.TRAIL_FAMS + ["mono1", "mono2", "mono3"], ck.seed + 790, 8 * k, 15, 40, dag=0))
        for rec in t.records:
            sh = vlib.show(rec)

            def wide_trip():
                f = vlib.build(rec).save_to_file(f"w{rec['id']}", tmp)  # noqa: B023
                c2 = QuantumCircuit()
                c2.load_from_file(f)
                return list(c2.dimensions), refsem.run(c2.instructions, rec["dims"])  # noqa: B023
            ok, res = ck.guard("save_to_file / load_from_file", wide_trip, sh)
            if ok and (res[0] != rec["dims"] or not np.allclose(res[1], vlib.trail_state(rec), atol=1e-6)):
                ck.violation(f"a saved circuit of {len(rec['prog'])} gates on dims {rec['dims']} is another program when loaded", sh)
            ck.ok()
        # text written without a directory holds no matrices: loading it must fail, not invent one
        t = ck.used(vlib.programs(24, [[2, 3, 2]], ["cuone", "cutwo", "mono3"], ck.seed + 750, 12, 1, 2, dag=0, ctl=0))
        for rec in t.records:
            if not any(o["cus"] for o in rec["prog"]):
                continue
            text = vlib.build(rec).to_qasm()
            try:
                c = QuantumCircuit()
                c.from_qasm(text)
                [g.to_matrix(2) for g in c.instructions]
            except Exception:  # noqa: BLE001
                ck.ok()
                continue
            ck.violation("text without custom data loads as a circuit", {**vlib.show(rec), "text": text})
