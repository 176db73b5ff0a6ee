"""Independent reference model: a small dense quantum simulator in numpy complex128.

Nothing here imports the code under test.  Qubit 0 is the most significant bit of a
basis index.  An operation is described by a *spec*, a plain JSON-able dict:

    {"k": kind, "w": wires, "p": params, ...}

`expand(spec)` turns it into a list of (matrix, wires) elementary steps, first applied
first; everything else (state evolution, full matrices, expectation values, derivatives)
is derived from that list.
"""
import math
import numpy as np

C = np.complex128
I2 = np.eye(2, dtype=C)
X = np.array([[0, 1], [1, 0]], dtype=C)
Y = np.array([[0, -1j], [1j, 0]], dtype=C)
Z = np.array([[1, 0], [0, -1]], dtype=C)
H = np.array([[1, 1], [1, -1]], dtype=C) / math.sqrt(2.0)
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}


def rot(P, t):
    n = P.shape[0]
    return math.cos(t / 2) * np.eye(n, dtype=C) - 1j * math.sin(t / 2) * P


def rx(t): return rot(X, t)
def ry(t): return rot(Y, t)
def rz(t): return rot(Z, t)


def phase(t):
    return np.array([[1, 0], [0, complex(math.cos(t), math.sin(t))]], dtype=C)


def u3(t, p, l):
    return rz(p) @ rx(-math.pi / 2) @ rz(t) @ rx(math.pi / 2) @ rz(l)


def controlled(U, nc=1):
    d = U.shape[0]
    n = d * 2 ** nc
    M = np.eye(n, dtype=C)
    M[n - d:, n - d:] = U
    return M


SWAPM = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=C)

SINGLE_FIXED = {"Hadamard": H, "PauliX": X, "PauliY": Y, "PauliZ": Z}
SINGLE_ROT = {"rx": rx, "ry": ry, "rz": rz, "u1": phase}
TWO_FIXED = {"cnot": controlled(X), "cz": controlled(Z), "SWAP": SWAPM}
TWO_ROT = {"rxx": lambda t: rot(np.kron(X, X), t),
           "ryy": lambda t: rot(np.kron(Y, Y), t),
           "rzz": lambda t: rot(np.kron(Z, Z), t),
           "cphase": lambda t: controlled(phase(t))}
LAYER_AXES = {"XYZLayer": "XYZ", "ZYXLayer": "ZYX", "YZYLayer": "YZY",
              "XZXLayer": "XZX", "XZLayer": "XZ", "ZXLayer": "ZX"}
ROT1 = {"X": rx, "Y": ry, "Z": rz}

GATES1 = ["Hadamard", "PauliX", "PauliY", "PauliZ", "rx", "ry", "rz", "u1", "u3"]
GATES2 = ["rxx", "ryy", "rzz", "cnot", "cz", "cphase", "cu3", "SWAP"]
GATES3 = ["toffoli"]
GATESM = ["multi_control_cnot"]
LAYERS_ROT = list(LAYER_AXES)
LAYERS_FIX = ["HLayer", "ring_of_cnot", "ring_of_cnot_dagger", "ring_of_cnot2"]
LAYERS = LAYERS_ROT + LAYERS_FIX + ["BasicEntangleLayer"]


def nparams(kind, nw, repeat=1):
    if kind in ("rx", "ry", "rz", "u1", "rxx", "ryy", "rzz", "cphase"):
        return 1
    if kind in ("u3", "cu3"):
        return 3
    if kind in LAYER_AXES:
        return len(LAYER_AXES[kind]) * nw
    if kind == "BasicEntangleLayer":
        return 3 * nw * repeat
    if kind == "PauliEncoding":
        return None
    return 0


def expand(spec):
    """spec -> [(matrix, wires)], first applied first."""
    k, w, p = spec["k"], list(spec["w"]), spec.get("p") or []
    if k in SINGLE_FIXED:
        return [(SINGLE_FIXED[k], w)]
    if k in SINGLE_ROT:
        return [(SINGLE_ROT[k](p[0]), w)]
    if k == "u3":
        return [(u3(*p), w)]
    if k in TWO_FIXED:
        return [(TWO_FIXED[k], w)]
    if k in TWO_ROT:
        return [(TWO_ROT[k](p[0]), w)]
    if k == "cu3":
        return [(controlled(u3(*p)), w)]
    if k in ("toffoli", "multi_control_cnot"):
        return [(controlled(X, len(w) - 1), w)]
    if k in LAYER_AXES:
        ax = LAYER_AXES[k]
        n = len(ax)
        out = []
        for i, q in enumerate(w):
            for j, a in enumerate(ax):
                out.append((ROT1[a](p[n * i + j]), [q]))
        return out
    if k == "HLayer":
        return [(H, [q]) for q in w]
    if k in ("ring_of_cnot", "ring_of_cnot_dagger", "ring_of_cnot2"):
        L = len(w)
        if L == 2:
            return [(TWO_FIXED["cnot"], [w[0], w[1]])]
        hop = 2 if k == "ring_of_cnot2" else 1
        out = [(TWO_FIXED["cnot"], [w[i], w[(i + hop) % L]]) for i in range(L)]
        return out[::-1] if k == "ring_of_cnot_dagger" else out
    if k == "BasicEntangleLayer":
        rep = spec.get("r", 1)
        n = 3 * len(w)
        out = []
        for i in range(rep):
            out += expand({"k": "YZYLayer", "w": w, "p": p[i * n:(i + 1) * n]})
            out += expand({"k": "ring_of_cnot", "w": w})
        return out
    if k == "PauliEncoding":
        f = ROT1[spec["axis"]]
        return [(f(p[i % len(p)]), [q]) for i, q in enumerate(w)]
    raise KeyError(k)


def apply_step(M, wires, T, N):
    """T: array with N leading axes of size 2 (extra trailing axes allowed)."""
    k = len(wires)
    G = M.reshape((2,) * (2 * k))
    T = np.tensordot(G, T, axes=(list(range(k, 2 * k)), list(wires)))
    return np.moveaxis(T, list(range(k)), list(wires))


def evolve(specs, psi, N):
    """psi: length 2^N vector (or [2^N, m] matrix of columns)."""
    psi = np.asarray(psi, dtype=C)
    shp = psi.shape
    T = psi.reshape((2,) * N + shp[1:])
    for s in specs:
        for M, w in expand(s):
            T = apply_step(M, w, T, N)
    return np.ascontiguousarray(T).reshape(shp)


def sparse_evolve(spec, amps, N, limit=4096):
    """amps: {basis index (qubit 0 most significant): amplitude}, for registers too wide for a vector.  None: support beyond the limit."""
    for M, w in expand(spec):
        M = np.asarray(M, dtype=C)
        k = len(w)
        sh = [N - 1 - q for q in w]
        mask = sum(1 << x for x in sh)
        place = [sum(((j >> (k - 1 - a)) & 1) << x for a, x in enumerate(sh)) for j in range(2 ** k)]
        out = {}
        for b, a in amps.items():
            i = 0
            for x in sh:
                i = 2 * i + ((b >> x) & 1)
            for j in np.nonzero(np.abs(M[:, i]) > 1e-15)[0]:
                c = (b & ~mask) | place[j]
                out[c] = out.get(c, 0) + M[j, i] * a
        amps = {b: a for b, a in out.items() if abs(a) > 1e-13}
        if len(amps) > limit:
            return None
    return amps


def matrix(spec, N):
    return evolve([spec], np.eye(2 ** N, dtype=C), N)


def circuit_matrix(specs, N):
    return evolve(specs, np.eye(2 ** N, dtype=C), N)


def kron_all(ms):
    out = np.eye(1, dtype=C)
    for m in ms:
        out = np.kron(out, m)
    return out


def op_on(M, wires, N):
    """Full 2^N matrix of M on wires."""
    return apply_step(np.asarray(M, dtype=C), wires,
                      np.eye(2 ** N, dtype=C).reshape((2,) * N + (2 ** N,)), N).reshape(2 ** N, 2 ** N)


def expect(M, psi):
    psi = np.asarray(psi, dtype=C).reshape(-1)
    return float(np.real(np.conj(psi) @ (np.asarray(M, dtype=C) @ psi)))


def ptrace_ref(rho, N, trace):
    """Reduced density matrix of the qubits not in `trace`, original order."""
    T = np.asarray(rho, dtype=C).reshape((2,) * (2 * N))
    keep = [q for q in range(N) if q not in set(trace)]
    letters = [chr(97 + i) for i in range(26)] + [chr(65 + i) for i in range(26)]
    row = [letters[i] for i in range(N)]
    col = [letters[N + i] for i in range(N)]
    for q in trace:
        col[q] = row[q]
    out = [row[q] for q in keep] + [col[q] for q in keep]
    R = np.einsum("".join(row + col) + "->" + "".join(out), T)
    d = 2 ** len(keep)
    return R.reshape(d, d)


def flat_params(specs):
    """[(op index, param index)] in circuit order."""
    return [(i, j) for i, s in enumerate(specs) for j in range(len(s.get("p") or []))]


def with_param(specs, i, j, val):
    out = list(specs)
    s = dict(out[i])
    p = list(s["p"])
    p[j] = val
    s["p"] = p
    out[i] = s
    return out


def gradient(f, specs, h=1e-5):
    """d f(specs) / d every parameter, by a 4th-order central difference in double
    precision (the functions are trigonometric polynomials of frequency <= a few)."""
    h = 1e-3
    g = []
    for (i, j) in flat_params(specs):
        t = specs[i]["p"][j]
        v = [f(with_param(specs, i, j, t + d * h)) for d in (-2, -1, 1, 2)]
        g.append((v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h))
    return np.array(g)
