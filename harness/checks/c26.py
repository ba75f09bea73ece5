"""C26: reduced states, outcome statistics and plots show the logical register the specification describes."""
import numpy as np
import vlib

FAMS = ["h", "x", "z", "rxy", "rh", "csum", "cx", "csum", "ls", "ms", "mono2", "virtrz", "h"]
CONFIGS = [(24, [[2, 3], [3, 2, 2], [2, 2, 2], [4, 3], [2, 3, 4], [3, 3], [6], [2, 2, 2, 2], [2, 3, 2, 2]], 90),
           (40, [[5, 2], [2, 5]], 10)]
# dimensions of ten and more: only the labels and the counts, no gates
WIDE = [[12], [2, 11], [12, 12], [10, 2], [13, 2]]


def drawn(ck, n, dims, num, seed, depth=5, keepmax=6):
    t = vlib.run_tlc("Readout", dict(N=n, CycPoly=vlib.cyc_poly(n), NProg=num, Seed=seed, MinDepth=1, Depth=depth, DimsList=dims, Fams=FAMS,
                                     DagPct=30, CtlPct=20, RevPct=50, LevRevPct=0, MaxCtl=1, AllCols=False, Echo=False, Emit=True,
                                     Identity=False, KeepMax=keepmax, Shots=40),
                     spec="SpecR", invariants=["NormOK", "ReducedOK", "CountsOK", "ReadBackOK"], extra="ASSUME CycloOK")
    t.records.sort(key=lambda r: r["id"])
    for r in t.records:
        r["N"] = n
        r["states"] = [vlib.vec(v, s, n) for v, s in zip(r["v"], r["s2"])]
        r["physstate"] = vlib.vec(r["phys"], r["s2"][0], n)
    return ck.used(t)


def bars():
    """Labels and heights of the bars on the current axes, in plotting order."""
    import matplotlib.pyplot as plt
    ax = plt.gca()
    ax.figure.canvas.draw()
    names = [t.get_text() for t in ax.get_xticklabels()]
    out = []
    for p in ax.patches:
        x = p.get_x() + p.get_width() / 2
        out.append((names[int(round(x))], p.get_height()))
    plt.close("all")
    return out


def run(ck):
    vlib.load_repo()
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import warnings
    warnings.simplefilter("ignore")
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    from mqt.qudits.visualisation.mini_quantum_information import get_density_matrix_from_counts, partial_trace
    from mqt.qudits.visualisation.plot_information import HistogramWithErrors, plot_counts, plot_state, remap_result, state_labels

    def circuit(dims, place=None):
        qc = QuantumCircuit(QuantumRegister("q", len(dims), list(dims)))
        if place is not None:
            qc.set_mapping(place) if hasattr(qc, "set_mapping") else setattr(qc, "mappings", place)
        return qc

    def check(rec, quantum):
        d, n = rec["dims"], rec["N"]
        sh = {**vlib.show(rec), "place": rec["place"]}
        D = int(np.prod(d))
        qc = circuit(d)
        logical = circuit(d, [list(p) for p in rec["place"]])
        shots = len(rec["outcomes"])
        outcomes = list(rec["outcomes"]) if rec["id"] % 2 else np.array(rec["outcomes"])
        hist = np.array(rec["hist"])
        # labels name the levels of the lines, in order, and never coincide
        lab = state_labels(qc)
        digits = [list(np.unravel_index(i, d)) for i in range(D)]
        if len(set(lab)) != D or len(lab) != D:
            ck.violation(f"two outcomes share a label on dims {d}", {**sh, "labels": lab})
        elif max(d) <= 10 and lab != ["".join(map(str, x)) for x in digits]:
            ck.violation(f"labels are not the levels of the lines on dims {d}", {**sh, "labels": lab})
        # density matrix of a list of outcomes and its marginals
        ok, rho = ck.guard("get_density_matrix_from_counts", lambda: get_density_matrix_from_counts(outcomes, qc), sh)
        if ok:
            if not np.allclose(rho, np.diag(hist / shots), atol=1e-9):
                ck.violation(f"density matrix of the counts is not their distribution on dims {d}", {**sh, "outcomes": rec["outcomes"]})
            for red in rec["reduced"]:
                ok2, m = ck.guard("partial_trace", lambda: partial_trace(np.array(rho), list(red["keep"]), list(d)), sh)
                if ok2 and not np.allclose(m, np.diag(np.array(red["counts"]) / shots), atol=1e-9):
                    ck.violation(f"marginal of the counts on lines {red['keep']} of dims {d}", {**sh, "outcomes": rec["outcomes"], "got": m})
        # counts on a device come back as logical counts
        ok, got = ck.guard("plot_counts", lambda: plot_counts(list(rec["physoutcomes"]), logical), sh)
        if ok:
            seen = bars() if D < 40 else plt.close("all")
            if not np.allclose(got, hist):
                ck.violation(f"plot_counts does not give the logical counts on dims {d}", {**sh, "got": got, "expected": hist})
            if max(d) <= 10 and D < 40 and (len(seen) != D or [x for x, _ in seen] != lab or not np.allclose([h for _, h in seen], hist)):
                ck.violation(f"the bars of plot_counts are not the logical counts on dims {d}", {**sh, "bars": seen, "expected": hist})
        if rec["id"] % 4 == 0:
            ok, got = ck.guard("plot_counts", lambda: plot_counts(outcomes, qc), sh)
            plt.close("all")
            if ok and not np.allclose(got, hist):
                ck.violation(f"plot_counts does not give the counts on dims {d}", {**sh, "got": got, "expected": hist})
        ck.ok()
        if not quantum:
            return
        psi, phys = rec["states"][0], rec["physstate"]
        before = phys.copy()
        rho = np.outer(psi, psi.conj())
        for red in rec["reduced"]:
            k = len(red["m"])
            want = np.array([vlib.vec(row, rec["s2"][0] ** 2, n) for row in red["m"]]).reshape(k, k)
            ok, m = ck.guard("partial_trace", lambda: partial_trace(rho.copy(), list(red["keep"]), list(d)), sh)
            if ok and not np.allclose(m, want, atol=1e-7):
                ck.violation(f"reduced state of lines {red['keep']} on dims {d}", {**sh, "got": m, "expected": want})
        for shape in [((D,), (1, D), (D, 1))[rec["id"] % 3]]:
            ok, got = ck.guard("plot_state", lambda: plot_state(phys.reshape(shape), logical), sh)
            if ok:
                seen = bars()
                if not np.allclose(got, abs(psi), atol=1e-7) or not np.allclose([h for _, h in seen], abs(psi), atol=1e-7):
                    ck.violation(f"plot_state does not show the logical amplitudes on dims {d}", {**sh, "got": got, "expected": abs(psi)})
        ok, got = ck.guard("remap_result", lambda: remap_result(phys, logical), sh)
        if ok and not (np.allclose(got, psi, atol=1e-7) and np.array_equal(phys, before)):
            ck.violation(f"remap_result does not read the logical state back on dims {d}", {**sh, "got": got, "expected": psi})
        ok, got = ck.guard("remap_result", lambda: remap_result(psi, qc), sh)
        if ok and not np.allclose(got, psi):
            ck.violation(f"remap_result changes a state without placements on dims {d}", {**sh, "got": got})
        ck.ok()
        ck.sample(sh)

    k = 1 if ck.quick else 8
    for i, (n, dims, num) in enumerate(CONFIGS):
        for rec in drawn(ck, n, dims, num * k, ck.seed + 2600 + i).records:
            check(rec, True)
    for rec in drawn(ck, 24, WIDE, 10 * k, ck.seed + 2650, depth=1, keepmax=13).records:
        check(rec, False)
    # error bars and the saved picture carry the same numbers
    import tempfile
    from pathlib import Path
    with tempfile.TemporaryDirectory() as tmp:
        h = HistogramWithErrors(["00", "01", "10"], [3, 0, 2], [0.5, 0.25, 0.0], title="t", xlabel="x", ylabel="y")
        for draw in (h.generate_histogram, lambda: h.save_to_png(str(Path(tmp) / "a.png"))):
            ok, _ = ck.guard("histogram", draw, {})
            if ok and draw is h.generate_histogram:
                if bars() != [("00", 3), ("01", 0), ("10", 2)]:
                    ck.violation("histogram bars", {})
        if not (Path(tmp) / "a.png").is_file():
            ck.violation("save_to_png writes no picture", {})
