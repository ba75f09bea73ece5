"""Float evaluation of the gate semantics that spec/QuditSem.tla defines exactly.

This is the harness' abstraction function: it gives meaning to *observed* gate objects whose
angles are arbitrary reals (compiled circuits).  It never imports the repository.  Check C01 pins
it to the specification (TLC prints exact matrices, both this module and the real code must agree).
"""
from __future__ import annotations
import cmath, math
import numpy as np


def two_level(d, a, b, m):
    u = np.eye(d, dtype=complex)
    u[a, a], u[a, b], u[b, a], u[b, b] = m[0][0], m[0][1], m[1][0], m[1][1]
    return u


def R(d, la, lb, theta, phi):
    if la > lb:
        la, lb = lb, la
    c, s = math.cos(theta / 2), math.sin(theta / 2)
    return two_level(d, la, lb, [[c, -1j * cmath.exp(-1j * phi) * s], [-1j * cmath.exp(1j * phi) * s, c]])


def gate(tag, d, params):
    """Matrix of gate `tag` on dims d (int, or list in the gate's own target order)."""
    if tag == "h":
        w = cmath.exp(2j * math.pi / d)
        return np.array([[w ** (i * j) for j in range(d)] for i in range(d)]) / math.sqrt(d)
    if tag == "x":
        u = np.zeros((d, d), dtype=complex)
        for i in range(d):
            u[(i + 1) % d, i] = 1
        return u
    if tag == "z":
        return np.diag([cmath.exp(2j * math.pi * i / d) for i in range(d)])
    if tag == "s":
        if d == 2:
            return np.diag([1, 1j])
        return np.diag([cmath.exp(2j * math.pi * ((i * (i + 1) // 2) % d) / d) for i in range(d)])
    if tag == "pm":
        u = np.zeros((d, d), dtype=complex)
        for i in range(d):
            u[int(params[i]), i] = 1
        return u
    if tag == "rxy":
        return R(d, *params)
    if tag == "rz":
        a, b, t = params
        if a > b:
            a, b = b, a
        return two_level(d, a, b, [[cmath.exp(-0.5j * t), 0], [0, cmath.exp(0.5j * t)]])
    if tag == "virtrz":
        u = np.eye(d, dtype=complex)
        u[params[0], params[0]] = cmath.exp(-1j * params[1])
        return u
    if tag == "csum":
        d0, d1 = d
        u = np.zeros((d0 * d1,) * 2, dtype=complex)
        for c in range(d0):
            for t in range(d1):
                u[c * d1 + (t + c) % d1, c * d1 + t] = 1
        return u
    if tag == "cx":
        d0, d1 = d
        a, b, c, phi = params
        u = np.eye(d0 * d1, dtype=complex)
        i, j = c * d1 + a, c * d1 + b
        u[i, i] = u[j, j] = 0
        u[i, j] = -1j * cmath.exp(-1j * phi)
        u[j, i] = -1j * cmath.exp(1j * phi)
        return u
    if tag == "ls":
        d0, d1 = d
        u = np.eye(d0 * d1, dtype=complex)
        for i in range(min(d0, d1)):
            u[i * d1 + i, i * d1 + i] = cmath.exp(-1j * params[0])
        return u
    if tag == "ms":
        # exp(-i t (S1+S2)^2/4) with S = |0><1|+|1><0|, in the basis of eigenvectors of S
        d0, d1 = d
        t = params[0]

        def eig(n):
            v = np.eye(n, dtype=complex)
            v[0, 0] = v[1, 0] = v[0, 1] = 1 / math.sqrt(2)
            v[1, 1] = -1 / math.sqrt(2)
            return v, [1, -1] + [0] * (n - 2)

        v0, e0 = eig(d0)
        v1, e1 = eig(d1)
        v = np.kron(v0, v1)
        ph = [cmath.exp(-0.25j * t * (a + b) ** 2) for a in e0 for b in e1]
        return v @ np.diag(ph) @ v.conj().T
    if tag == "rh":
        a, b = sorted(params)
        r = 1j / math.sqrt(2)
        return two_level(d, a, b, [[r, r], [r, -r]])
    if tag == "noisex":
        a, b = sorted(params)
        return two_level(d, a, b, [[0, 1], [1, 0]])
    if tag == "noisey":
        a, b = sorted(params)
        return two_level(d, a, b, [[0, -1j], [1j, 0]])
    if tag in ("cuone", "cutwo", "cumulti"):
        return np.asarray(params, dtype=complex)
    raise KeyError(tag)


def apply(state, dims, mat, lines, ctrl=()):
    """mat acts on `lines` (in the order the caller names them), ctrl = [(line, level), ...]."""
    psi = np.asarray(state, dtype=complex).reshape(dims)
    sub = [slice(None)] * len(dims)
    for q, lev in ctrl:
        sub[q] = slice(lev, lev + 1)
    block = psi[tuple(sub)]
    moved = np.moveaxis(block, lines, range(len(lines)))
    shp = moved.shape
    k = int(np.prod([dims[q] for q in lines]))
    new = (mat @ moved.reshape(k, -1)).reshape(shp)
    out = psi.copy()
    out[tuple(sub)] = np.moveaxis(new, range(len(lines)), lines)
    return out.reshape(-1)


def read_gate(g):
    """Abstraction function: a real gate object -> (tag, lines, dims, params, dagger, controls)."""
    tag = g.qasm_tag
    tq = g.target_qudits
    lines = [tq] if isinstance(tq, int) else list(tq)
    alld = g.parent_circuit.dimensions
    d = alld[tq] if isinstance(tq, int) else [alld[q] for q in tq]
    if tag == "rxy":
        p = (g.lev_a, g.lev_b, g.theta, g.phi)
    elif tag == "rz":
        p = (g.lev_a, g.lev_b, g.phi)
    elif tag == "virtrz":
        p = (g.lev_a, g.phi)
    elif tag in ("rh", "noisex", "noisey"):
        p = (g.lev_a, g.lev_b)
    elif tag in ("ls", "ms"):
        p = (g.theta,)
    else:
        p = g._params
    c = g._controls_data
    ctrl = list(zip(c.indices, c.ctrl_states)) if c is not None else []
    return tag, lines, d, p, bool(g.dagger), ctrl


def gate_matrix(g):
    tag, lines, d, p, dag, ctrl = read_gate(g)
    if isinstance(d, list) and len(d) == 1:
        d = d[0]
    m = gate(tag, d, p)
    return m.conj().T if dag else m


def run(gates, dims, state=None):
    n = int(np.prod(dims))
    if state is None:
        state = np.zeros(n, dtype=complex)
        state[0] = 1
    for g in gates:
        tag, lines, d, p, dag, ctrl = read_gate(g)
        state = apply(state, dims, gate_matrix(g), lines, ctrl)
    return state


def unitary(gates, dims):
    n = int(np.prod(dims))
    return np.stack([run(gates, dims, np.eye(n, dtype=complex)[:, i]) for i in range(n)], axis=1)
