"""C27: the decision-diagram package agrees with linear algebra, and its diagrams are canonical."""
import json, subprocess, tempfile
from pathlib import Path
import numpy as np
import vlib, misim_build, refsem

FAMS = ["h", "x", "z", "s", "rxy", "rz", "rh", "virtrz", "csum", "cx", "csum", "cx", "pm"]
# ring, registers, programs, whole operators?, lines to spread over
CONFIGS = [
    (24, [[2, 3], [3, 2], [2, 2], [3, 3], [2, 2, 2], [4], [6], [4, 2], [2, 4], [3, 4]], 150, True, []),
    (24, [[2, 2], [3, 3], [2], [3], [4], [2, 2, 2]], 60, True, []),
    (24, [[2, 3, 2], [3, 2, 4], [2, 2, 2, 2], [3, 3, 3], [4, 3, 2], [2, 2, 3, 2], [6, 3], [3, 3, 2], [2, 3, 3]], 180, False,
     [[0, 2], [0, 1], [1, 3], [0, 1, 2], [], [0, 1], [], [], [0, 1, 2]]),
    (40, [[5, 2], [2, 5], [5], [5, 5, 2]], 40, False, [[], [], [], []]),
    (56, [[7, 2], [2, 7], [7]], 20, False, [[], [], []]),
]


def draw(ck, i, num):
    n, dims, _, wm, sp = CONFIGS[i]
    t = vlib.run_tlc("Diagrams", dict(N=n, CycPoly=vlib.cyc_poly(n), NProg=num, Seed=ck.seed + 2700 + i, MinDepth=1, Depth=4 if wm else 6,
                                      DimsList=dims, Fams=FAMS, DagPct=30, CtlPct=40, RevPct=50, LevRevPct=0, MaxCtl=2, AllCols=wm,
                                      Echo=False, Emit=True, WithMatrix=wm, SpreadLines=sp),
                     spec="SpecG", invariants=["NormOK", "SizeOK"], extra="ASSUME CycloOK\nASSUME SpreadOK")
    t.records.sort(key=lambda r: r["id"])
    return ck.used(t)


def op_text(op, dims, n):
    """One gate for the driver; line 0 of the specification is the most significant register of the package."""
    reg = lambda q: len(dims) - 1 - q  # noqa: E731
    dag = int(op["dag"])
    if op["g"] == "csum" and not op["cus"]:
        return f"csum {reg(op['q'][1])} {dag} {reg(op['q'][0])}"
    if op["g"] == "cx" and not op["cus"]:
        la, lb, lev, phi = vlib.real_params(op, n)
        return f"cex {reg(op['q'][1])} {dag} {reg(op['q'][0])} {lev} {phi!r} {la} {lb}"
    m = vlib.op_matrix(op, dims, n).reshape(-1)
    ctl = " ".join(f"{reg(c)} {lev}" for c, lev in op["ctl"])
    return f"mat {reg(op['q'][0])} {dag} {len(op['ctl'])} {ctl} {len(m)} " + " ".join(f"{z.real!r} {z.imag!r}" for z in m.astype(complex).tolist())


def rec_text(rec, n, wm):
    d = rec["dims"]
    out = [f"rec {rec['id']} {len(d)} {int(wm)}", " ".join(map(str, d[::-1]))]
    for side in ("left", "right"):
        prog = rec[side]["prog"]
        out.append(str(len(prog)))
        out += [op_text(o, d, n) for o in prog]
    sp = [len(d) - 1 - q for q in rec["spreadlines"]]
    out.append(f"{len(sp)} " + " ".join(map(str, sp)))
    return "\n".join(out)


def cpx(x):
    a = np.asarray(x, dtype=float)
    return a[:, 0] + 1j * a[:, 1]


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, atol=1e-8))


def compare(ck, rec, got, n, wm):
    d = rec["dims"]
    sh = {"dims": d, "left": vlib.show({"dims": d, "prog": rec["left"]["prog"]})["prog"],
          "right": vlib.show({"dims": d, "prog": rec["right"]["prog"]})["prog"], "N": n}
    bad = lambda what, **kw: ck.violation(f"decision diagrams: {what} on dims {d}", {**sh, **kw})  # noqa: E731
    if "error" in got:
        bad(f"the package failed with {got['error']}")
        return
    dim = int(np.prod(d))
    st, op = [], []
    for side in ("left", "right"):
        cols = [vlib.vec(v, s, n) for v, s in zip(rec[side]["v"], rec[side]["s2"])]
        st.append(cols[0])
        op.append(np.array(cols).T)
    ab = np.array([vlib.vec(v, s, n) for v, s in zip(rec["ab"]["v"], rec["ab"]["s2"])]).T
    e0 = np.zeros(dim)
    e0[0] = 1
    for s, side in enumerate(("left", "right")):
        g = got[side]
        for key in ("v", "path"):
            if not near(cpx(g[key]), st[s]):
                bad(f"state of the {side} program ({key})", got=g[key], expected=st[s])
        if g["nodes"] != rec[side]["vnodes"]:
            bad(f"the {side} state takes {g['nodes']} nodes, its canonical diagram has {rec[side]['vnodes']}")
        if not near(cpx(g["echo"]), e0):
            bad(f"undoing the {side} program does not return to |0...0>", got=g["echo"])
        if not g["home"]:
            bad(f"undoing the {side} program returns to a different diagram of |0...0>")
        if not g["again"]:
            bad(f"running the {side} program twice gives two diagrams")
        if wm:
            for key, want in (("m", op[s]), ("md", op[s].conj().T), ("mt", op[s].T), ("unit", np.eye(dim))):
                if not near(cpx(g[key]).reshape(dim, dim), want):
                    bad(f"operator of the {side} program ({key})", got=g[key], expected=want)
            if not near(cpx(g["mv"]), st[s]):
                bad(f"{side} operator applied to |0...0>", got=g["mv"], expected=st[s])
            if g["mnodes"] != rec[side]["mnodes"]:
                bad(f"the {side} operator takes {g['mnodes']} nodes, its canonical diagram has {rec[side]['mnodes']}")
            if not g["samenode"]:
                bad(f"the {side} state reached by the whole operator is another diagram than gate by gate")
            for key, what in (("farnode", "multiplied up from its last gate"), ("dagnode", "inverted gate by gate"), ("backnode", "inverted twice")):
                if not g[key]:
                    bad(f"the {side} operator {what} is another diagram")
            if not g["unitnode"]:
                bad(f"the inverse of the {side} operator times the operator is not the identity diagram")
    want = vlib.vec(rec["sum"]["v"], rec["sum"]["s2"], n)
    for key in ("sum", "mus"):
        if not near(cpx(got[key]), want):
            bad(f"sum of the two states ({key})", got=got[key], expected=want)
    if got["sumnodes"] != rec["sum"]["nodes"]:
        bad(f"the sum takes {got['sumnodes']} nodes, its canonical diagram has {rec['sum']['nodes']}")
    if not got["comm"]:
        bad("the sum depends on the order of the operands")
    ip = vlib.vec([rec["inner"]["v"]], rec["inner"]["s2"], n)[0]
    if not near(cpx([got["inner"]])[0], ip) or not near(cpx([got["renni"]])[0], ip.conjugate()):
        bad("inner product", got=[got["inner"], got["renni"]], expected=ip)
    if abs(got["fid"] - abs(ip) ** 2) > 1e-8:
        bad("fidelity", got=got["fid"], expected=abs(ip) ** 2)
    if not got["chains"]:
        bad("basis states")
    if wm:
        if not near(cpx(got["ab"]).reshape(dim, dim), ab):
            bad("product of the two operators", got=got["ab"], expected=ab)
        if got["abnodes"] != rec["ab"]["mnodes"]:
            bad(f"the product takes {got['abnodes']} nodes, its canonical diagram has {rec['ab']['mnodes']}")
        if not near(cpx(got["msum"]).reshape(dim, dim), op[0] + op[1]):
            bad("sum of the two operators", got=got["msum"])
    if rec["spread"]:
        want = vlib.vec(rec["spread"][0]["v"], rec["spread"][0]["s2"], n)
        if not near(cpx(got["spread"]), want):
            bad(f"spreading over lines {rec['spreadlines']}", got=got["spread"], expected=want)
    if "kron" in got:
        if not near(cpx(got["kron"]), np.kron(st[0], st[1])):
            bad("tensor product of the two states", got=got["kron"])
        if wm:
            start = np.kron(st[1], st[0])
            one = np.eye(dim)
            for key, m in (("mkron", np.kron(op[0], op[1])), ("top", np.kron(op[0], one)), ("bottom", np.kron(one, op[1])),
                           ("ext", np.kron(one, op[0])), ("factor", (0.5 + 0.25j) * np.kron(one, op[1]))):
                if not near(cpx(got[key]), m @ start):
                    bad(f"tensor product of operators ({key})", got=got[key], expected=m @ start)
    ck.ok()
    ck.sample(sh)


def run(ck):
    exe = misim_build.build_driver(vlib.VERIF / "harness" / "ddriver.cpp")
    for i, (n, _, num, wm, _) in enumerate(CONFIGS):
        t = draw(ck, i, num * (1 if ck.quick else 8))
        text = "\n".join(rec_text(r, n, wm) for r in t.records) + "\n"
        r = subprocess.run([str(exe)], input=text, capture_output=True, text=True, timeout=600)
        lines = r.stdout.splitlines()
        for k, rec in enumerate(t.records):
            if k >= len(lines) or not lines[k].endswith("}"):
                ck.violation(f"decision diagrams: the package ended with {r.returncode} on dims {rec['dims']}: {r.stderr[-300:]}",
                             {"dims": rec["dims"], "left": rec["left"]["prog"], "right": rec["right"]["prog"]})
                break
            compare(ck, rec, json.loads(lines[k]), n, wm)
