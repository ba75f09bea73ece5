"""Noise models and noisy circuits of the code, and the comparison of samples with an exact distribution."""
import math
import numpy as np
import compiled
import vlib

METHODS = {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
           "target": "add_nonlocal_quantum_error_on_target", "control": "add_nonlocal_quantum_error_on_control"}
TAGS = {"cuone": "cuone", "cutwo": "cutwo"}


def model_of(rec):
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, SubspaceNoise
    m, den = NoiseModel(), rec["den"]
    for i, e in enumerate(rec["model"]):
        add = getattr(m, METHODS[e["mode"]])
        tags = [TAGS.get(e["tag"], e["tag"])]
        if e["kind"] == "math":
            add(Noise(e["a"] / den, e["b"] / den if rec.get("engine") == "mi" else 0.0), tags)
        elif e["kind"] == "dyn":
            add(SubspaceNoise(e["a"] / den, e["b"] / den, []), tags)
        elif len(e["lev"]) == 1 and i % 2:
            add(SubspaceNoise(e["a"] / den, e["b"] / den, tuple(e["lev"][0])), tags)
        elif i % 3:
            add(SubspaceNoise(e["a"] / den, e["b"] / den, [tuple(x) for x in e["lev"]]), tags)
        else:
            for x in e["lev"]:
                add(SubspaceNoise(e["a"] / den, e["b"] / den, (x[1], x[0])), tags)
    return m


def show(rec):
    return {**vlib.show(rec), "model": rec["model"], "den": rec["den"]}


def key(gates):
    return repr([compiled.describe(g) for g in gates])


def surprise(counts, probs, n):
    """(chi-square p-value of the counts, impossible outcomes). counts, probs: dicts over the same keys."""
    from scipy.stats import chi2
    bad = [k for k in counts if probs.get(k, 0.0) < 1e-12]
    if bad:
        return 0.0, bad
    stat, bins, rest_o, rest_e = 0.0, 0, 0, 0.0
    for k, p in probs.items():
        e, o = n * p, counts.get(k, 0)
        if e < 8:
            rest_o, rest_e = rest_o + o, rest_e + e
            continue
        stat += (o - e) ** 2 / e
        bins += 1
    if rest_e > 1e-9:
        if rest_e >= 8:
            stat += (rest_o - rest_e) ** 2 / rest_e
            bins += 1
        elif rest_o > rest_e + 12 * math.sqrt(rest_e + 1) + 12:
            return 0.0, ["rare outcomes"]
    return (1.0 if bins < 2 else float(chi2.sf(stat, bins - 1))), []
