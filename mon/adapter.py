"""Builds objects of the code under test from specs, through its public API only."""
import numpy as np
import torch
import deepquantum  # noqa: F401
from deepquantum.gates import qcircuit as qc, qoperator as qo, qtensornetwork as tn, qmath as qm
from deepquantum.layers import qlayers as ql
from deepquantum.embeddings import qembedding as qe
from . import ref

Circuit = qc.Circuit
LAYER = set(ref.LAYERS)
ONEP = set(["rx", "ry", "rz", "u1", "rxx", "ryy", "rzz", "cphase"])
VECP = set(["u3", "cu3"]) | set(ref.LAYERS_ROT) | set(["BasicEntangleLayer"])

PSTYLES1 = ["float", "t0", "t1", "grad", "nonleaf", "np64", "np32", "param"]
PSTYLESV = ["list", "tensor", "grad", "nonleaf", "strided", "tensors", "nplist", "param"]
WSTYLES = ["list", "tuple", "range", "npint"]


def cls(kind):
    return getattr(ql, kind) if kind in LAYER else getattr(qe, kind) if kind == "PauliEncoding" else getattr(qo, kind)


def par(kind, p, style="plain"):
    """Parameter object for a constructor or params_update in the given style."""
    if kind in ONEP:
        x = p[0]
        if style in ("float", "plain", "list"):
            return float(x)
        if style == "int":
            return int(x)
        if style in ("np64", "nplist"):
            return np.float64(x)
        if style == "np32":
            return np.float32(x)
        if style == "param":
            return torch.nn.Parameter(torch.tensor(x, dtype=torch.float32))
        if style == "t64":
            return torch.tensor(x, dtype=torch.float64)
        if style == "tint":
            return torch.tensor(int(x))
        if style == "t1":
            return torch.tensor([x], dtype=torch.float32)
        if style == "grad":
            return torch.tensor(x, dtype=torch.float32, requires_grad=True)
        if style == "nonleaf":
            return torch.tensor([x, 0.0], dtype=torch.float32, requires_grad=True)[0]
        return torch.tensor(x, dtype=torch.float32)
    if style in ("list", "float", "int"):
        return [float(x) for x in p]
    if style in ("nplist", "np64", "np32"):
        return [np.float64(x) for x in p]
    if style == "tensors":
        return [torch.tensor(float(x), dtype=torch.float32, requires_grad=i % 2 == 0) for i, x in enumerate(p)]
    t = torch.tensor([float(x) for x in p], dtype=torch.float32)
    if style == "grad":
        return t.requires_grad_(True)
    if style == "param":
        return torch.nn.Parameter(t)
    if style == "nonleaf":
        return t.requires_grad_(True) * 1.0
    if style == "strided":
        big = torch.full((2 * len(p),), 9.0)
        big[::2] = t
        return big[::2]
    return t


def wir1(w, style="list"):
    return np.int64(w) if style == "npint" else w


def wir(w, style="list"):
    if style == "npint":
        return [np.int64(x) for x in w]
    if style == "tuple":
        return tuple(w)
    if style == "range" and list(w) == list(range(w[0], w[0] + len(w))):
        return range(w[0], w[0] + len(w))
    return list(w)


def build(s, N, ps="plain", ws="list", P=None, W=None):
    """spec -> operation object.  P overrides the parameter object, W the wires object."""
    k = s["k"]
    if k in ref.GATES1:
        w = wir1(s["w"][0], ws) if W is None else W
    else:
        w = wir(s["w"], ws) if W is None else W
    C = cls(k)
    if s.get("p") is not None and P is None:
        P = par(k, s["p"], ps)
    if k in LAYER:
        if k == "BasicEntangleLayer":
            return C(N, w, P, s.get("r", 1)) if s.get("r", 1) != 1 else C(N, w, P)
        return C(N, w, P) if P is not None else C(N, w)
    if P is not None:
        return C(P, N, w)
    return C(N, w)


BUILDER_LAYERS = set(ref.LAYERS) - set(["ring_of_cnot_dagger"])


def add_to(cir, s, via="add", ps="plain", ws="list", P=None, obj=None):
    """Append the operation of a spec to a circuit, with builder method or generic add."""
    N = cir.nqubits
    k = s["k"]
    if via == "add" or k == "ring_of_cnot_dagger" or obj is not None:
        cir.add(build(s, N, ps, ws, P) if obj is None else obj)
        return
    if s.get("p") is not None and P is None:
        P = par(k, s["p"], ps)
    w = wir1(s["w"][0], ws) if k in ref.GATES1 else wir(s["w"], ws)
    if k == "HLayer":
        cir.Hadamard(w)
    elif k == "BasicEntangleLayer":
        if s.get("r", 1) != 1:
            cir.BasicEntangleLayer(w, P, s["r"])
        else:
            cir.BasicEntangleLayer(w, P)
    elif k in LAYER:
        if P is not None:
            getattr(cir, k)(w, P)
        else:
            getattr(cir, k)(w)
    elif P is not None:
        getattr(cir, k)(P, w)
    else:
        getattr(cir, k)(w)


def mkcircuit(specs, N, rng=None, ps="plain", ws="list", via=None):
    cir = Circuit(N)
    for s in specs:
        v = via or ("add" if rng is None or rng.random() < 0.5 else "builder")
        add_to(cir, s, v, ps, ws)
    return cir


# ------------------------------------------------------------------ states in torch form
def tvec(v):
    return torch.from_numpy(np.ascontiguousarray(np.asarray(v), dtype=np.complex64))


def mps_of(v, N):
    return tn.StateVec2MPS(tvec(v).view(1, -1), N)


def tensor_of(v, N):
    return tvec(v).reshape([2] * N)


def npy(t):
    return t.detach().cpu().resolve_conj().resolve_neg().numpy().astype(np.complex128)


def mps_dense(mps):
    """Harness-side contraction of an MPS list (does not trust the library)."""
    T = np.ones((1, 1), dtype=np.complex128)      # [phys, bond]
    for t in mps:
        a = npy(t)                                # [2, Dl, Dr]
        T = np.einsum("pl,slr->psr", T, a).reshape(-1, a.shape[2])
    return T.reshape(-1)


def mps_shape_problem(mps, N):
    """None if the MPS invariants hold, else a description of the broken one."""
    import numbers  # noqa: F401
    if not isinstance(mps, (list, tuple)):
        return "not a list but %s" % type(mps).__name__
    if len(mps) != N:
        return "%d tensors for %d qubits" % (len(mps), N)
    prev = 1
    for q, t in enumerate(mps):
        if not torch.is_tensor(t) or t.dim() != 3:
            return "tensor %d has shape %s, not rank 3" % (q, tuple(getattr(t, "shape", ())))
        p, l, r = t.shape
        if p != 2:
            return "tensor %d has physical dimension %d" % (q, p)
        if l != prev:
            return "bond between %d and %d does not match (%d vs %d)" % (q - 1, q, prev, l)
        bound = 2 ** min(q + 1, N - q - 1)
        if r > bound:
            return "bond after qubit %d is %d, above the exact bound %d" % (q, r, bound)
        prev = r
    if prev != 1:
        return "outer right bond is %d" % prev
    return None


def wide_mps(amps, N):
    """MPS of a product/GHZ-like superposition of at most a few basis states (bond = number of terms), for any number of qubits."""
    items = sorted(amps.items())
    D = len(items)
    out = []
    for q in range(N):
        t = np.zeros((2, 1 if q == 0 else D, 1 if q == N - 1 else D), dtype=np.complex64)
        for m, (b, a) in enumerate(items):
            t[(b >> (N - 1 - q)) & 1, 0 if q == 0 else m, 0 if q == N - 1 else m] += a if q == 0 else 1
        out.append(t.astype(np.complex128))
    if D > 2:                                      # bonds near the ends are no larger than they can be
        for q in range(N - 1):
            p, l, r = out[q].shape
            Q, R = np.linalg.qr(out[q].reshape(p * l, r))
            out[q] = Q.reshape(p, l, -1)
            out[q + 1] = np.einsum("ab,pbc->pac", R, out[q + 1])
        for q in range(N - 1, 0, -1):
            p, l, r = out[q].shape
            Q, R = np.linalg.qr(out[q].transpose(0, 2, 1).reshape(p * r, l))
            out[q] = Q.reshape(p, r, -1).transpose(0, 2, 1)
            out[q - 1] = out[q - 1] @ R.T
    return [torch.from_numpy(np.ascontiguousarray(t).astype(np.complex64)) for t in out]


def mps_amplitudes(mps, keys, N):
    """Amplitudes of the given basis states, contracted here site by site."""
    v = np.ones((len(keys), 1), dtype=np.complex128)
    for q, t in enumerate(mps):
        a = npy(t)
        bits = np.array([(k >> (N - 1 - q)) & 1 for k in keys])
        v = np.where(bits[:, None] == 0, v @ a[0], v @ a[1])
    return v.reshape(-1)


def mps_norm(mps):
    e = np.ones((1, 1), dtype=np.complex128)
    for t in mps:
        a = npy(t)
        e = sum(a[s].conj().T @ e @ a[s] for s in (0, 1))
    return float(np.sqrt(abs(e.reshape(-1)[0])))
