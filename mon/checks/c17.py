"""C17: multi_kron, dag and the matrix predicates."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import npy, qm

PROP = "C17"
REPEAT = 5                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (helper, size, matrix family, kind, place and size of the planted violation); the true defect of every input is "
        "computed in double precision first, and only inputs clearly inside (<3e-7) or clearly outside (>2.5e-6 in single, >1.5e-6 in double precision) the tolerance of 1e-6 are judged")
REQUIRED = ["drove multi_kron", "drove dag", "drove unitary accepted", "drove unitary rejected", "drove hermitian accepted",
            "drove hermitian rejected", "drove normalized accepted", "drove normalized rejected", "drove nan", "drove shape error"] + ["drove factors: " + f for f in ["unit diagonal", "upper", "nilpotent", "near identity", "identity", "same"]]
LO = 3e-7
DTS = {"c64": np.complex64, "c128": np.complex128, "f32": np.float32, "f64": np.float64}


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(**k):
        k["seed"] = int(rng.integers(1 << 30))
        out.append(k)

    for _ in range(1500 if deep else 150):
        mk(t="kron", shapes=[[int(rng.integers(1, 5)), int(rng.integers(1, 5))] for _ in range(int(rng.integers(1, 6)))],
           cplx=bool(rng.random() < 0.7), fam=FAC[int(rng.integers(len(FAC)))] if rng.random() < 0.6 else "random")
    for f in FAC:                                # square factors of one family, next to others
        for n in (1, 2, 3, 4):
            for _ in range(6 if deep else 2):
                mk(t="kron", shapes=[[n, n]] * int(rng.integers(1, 4)) + [[2, 2]] * int(rng.integers(0, 2)), cplx=bool(rng.random() < 0.7), fam=f)
    for m in range(6, 15 if deep else 13):       # many small factors
        for _ in range(20 if deep else 8):
            sh, a, b = [], 1, 1
            for _ in range(m):
                s = [int(rng.integers(1, 4)), int(rng.integers(1, 4))]
                while a * s[0] * b * s[1] > 1 << (22 if deep else 19):
                    s = [[1, 1], [2, 1], [1, 2]][int(rng.integers(3))] if a * b * 2 <= 1 << 19 else [1, 1]
                sh.append(s)
                a, b = a * s[0], b * s[1]
            mk(t="kron", shapes=[sh[i] for i in rng.permutation(m)], cplx=bool(rng.random() < 0.7), fam=FAC[int(rng.integers(len(FAC)))] if rng.random() < 0.3 else "random")
        mk(t="kron", shapes=[[2, 2]] * min(m, 10), cplx=True, fam=["random", "gate", "near identity"][m % 3])
    for n in (17, 24, 32) + ((33, 48, 64) if deep else ()):      # registers of five and six qubits
        for _ in range(24 if deep else 8):
            i, j = [int(x) for x in rng.permutation(n)[:2]]
            mk(t="U", n=n, fam=["random", "identity", "perm"][int(rng.integers(3))], bad=["mix", "entry", "zero", "same"][int(rng.integers(4))], i=i, j=j, eps=10 ** rng.uniform(-3, 0))
            mk(t="H", n=n, fam="random", bad=["entry", "swapphase"][int(rng.integers(2))], i=i, j=j, eps=10 ** rng.uniform(-3, 0))
        for i, j in ((0, n - 1), (n - 1, 0)):
            mk(t="U", n=n, fam="random", bad="same", i=i, j=j, eps=0.0)
        mk(t="U", n=n, fam="random", bad=None)
        mk(t="H", n=n, fam="random", bad=None)
    for _ in range(800 if deep else 80):
        mk(t="dag", shape=[int(rng.integers(1, 9)), int(rng.integers(1, 9))], dt=list(DTS)[int(rng.integers(4))])
    sizes = [1, 2, 3, 4, 5, 7, 8] + ([13, 16] if deep else [12])
    for n in sizes:
        for fam in ("identity", "random", "perm", "diag", "real", "gates"):
            for _ in range(3 if deep else 2):
                mk(t="U", n=n, fam=fam, bad=None)
        mk(t="U", n=n, fam="random", bad=None, dt="c128")
        # every row scaled, every entry perturbed, every pair of rows made non-orthogonal
        places = [(i, j) for i in range(n) for j in range(n)]
        if n > 4 and not deep:
            places = [(i, j) for i, j in places if i in (0, n // 2, n - 2, n - 1) and j in (0, n // 2, n - 2, n - 1)]
        for i, j in places:
            for bad in ("entry", "imag", "nan", "zero") + (("mix",) if i != j else ("row", "phase_ok", "inf")):
                eps = 10 ** rng.uniform(-5.7, 0)
                mk(t="U", n=n, fam=["identity", "random", "perm", "real"][int(rng.integers(4))], bad=bad, i=i, j=j, eps=eps,
                   dt=["c64", "c64", "c128"][int(rng.integers(3))])
    for n in sizes:
        for fam in ("random", "real", "diag", "zero", "big", "pauli"):
            for _ in range(3 if deep else 2):
                mk(t="H", n=n, fam=fam, bad=None)
        for i in range(n):
            for j in range(n):
                if n > 5 and not deep and not ({i, j} & {0, n // 2, n - 1}):
                    continue
                for bad in ("entry", "imag", "nan") + (("swapphase",) if i != j else ()):
                    mk(t="H", n=n, fam=["random", "real", "zero"][int(rng.integers(3))], bad=bad, i=i, j=j, eps=10 ** rng.uniform(-5.6, 1),
                       dt=["c64", "c64", "c128"][int(rng.integers(3))])
    for n in (2, 3, 5, 8):                       # large entries, and a violation small next to them
        for _ in range(12 if deep else 5):
            i, j = [int(x) for x in rng.permutation(n)[:2]]
            mk(t="H", n=n, fam="big", bad=["entry", "imag"][int(rng.integers(2))], i=i, j=j, eps=10 ** rng.uniform(-5, -2.5), dt="c128")
            mk(t="U", n=n, fam="random", bad="mix", i=i, j=j, eps=10 ** rng.uniform(-5, -3), dt="c128")
    for n in (200, 257, 300, 512, 1000) + ((2048, 5000) if deep else ()):     # long vectors
        for _ in range(2):
            mk(t="N", n=n, fam="random", bad=None, dt="c128")
            mk(t="N", n=n, fam="basis", bad=None)
        for i in (n - 1, n // 2, int(rng.integers(n)), int(rng.integers(max(0, n - 60), n))):
            for bad in ("entry", "nan", "drop", "scale", "imag"):
                mk(t="N", n=n, fam=["basis", "random"][int(rng.integers(2))], bad=bad, i=i, eps=10 ** rng.uniform(-2, 0), dt="c128")
    for n in [1, 2, 3, 4, 6, 8, 16, 64]:
        for fam in ("basis", "random", "real", "phase"):
            for _ in range(4 if deep else 2):
                mk(t="N", n=n, fam=fam, bad=None)
        for i in sorted({0, 1 % n, n // 2, n - 1}):
            for bad in ("entry", "nan", "drop", "scale", "imag", "inf"):
                mk(t="N", n=n, fam=["basis", "random", "real", "phase"][int(rng.integers(4))], bad=bad, i=i, eps=10 ** rng.uniform(-5.8, 0),
                   dt=["c64", "c64", "c128"][int(rng.integers(3))])
            for _ in range(3):              # just outside the tolerance
                mk(t="N", n=n, fam="random", bad="scale", i=i, eps=float((-1) ** int(rng.integers(2)) * 10 ** rng.uniform(-5.8, -4.5)),
                   dt=["c64", "c128"][int(rng.integers(2))])
    mk(t="shape")
    return out


FAC = ["unit diagonal", "upper", "ones", "zero rows", "zero", "traceless", "integer", "identity", "projector", "nilpotent", "near identity", "permutation",
       "gate", "diagonal", "scalar", "same"]


def factor(fam, a, b, r):
    """One factor of a Kronecker product, of a given family (a by b)."""
    m = r.normal(size=(a, b)) + 1j * r.normal(size=(a, b))
    k = min(a, b)
    e = np.zeros((a, b), dtype=complex)
    e[:k, :k] = np.eye(k)
    if fam == "unit diagonal":
        m[np.arange(k), np.arange(k)] = 1
    elif fam == "upper":
        m = np.triu(m)
    elif fam == "ones":
        m[:] = 1
    elif fam == "zero rows":
        m[int(r.integers(a))] = 0
    elif fam == "zero":
        m[:] = 0
    elif fam == "traceless":
        m[0, 0] -= np.trace(m)
    elif fam == "integer":
        m = r.integers(-2, 3, (a, b)) + 0j
    elif fam == "identity":
        m = e
    elif fam == "projector":
        m[:] = 0
        m[int(r.integers(a)), int(r.integers(b))] = 1
    elif fam == "nilpotent":
        m = np.triu(m, 1)
    elif fam == "near identity":
        m = e + 10 ** r.uniform(-4, -1) * m
    elif fam == "permutation":
        m = e[r.permutation(a)]
    elif fam == "gate":
        m = [ref.X, ref.Y, ref.Z, ref.H][int(r.integers(4))].astype(complex) if (a, b) == (2, 2) else e
    elif fam == "diagonal":
        m = e * m
    elif fam == "scalar":
        m = e * [2, -1, 1j, 0.5][int(r.integers(4))]
    return m


def base_unitary(fam, n, r):
    if fam == "identity":
        return np.eye(n, dtype=complex)
    if fam == "perm":
        return np.eye(n, dtype=complex)[r.permutation(n)] * np.exp(1j * r.uniform(0, 6.28, n))[:, None]
    if fam == "diag":
        return np.diag(np.exp(1j * r.uniform(0, 6.28, n)))
    if fam == "gates":
        m = np.eye(1, dtype=complex)
        while m.shape[0] * 2 <= n:
            m = np.kron(m, ref.u3(*r.uniform(-6, 6, 3)))
        k = n - m.shape[0]
        return np.block([[m, np.zeros((m.shape[0], k))], [np.zeros((k, m.shape[0])), np.eye(k)]]) if k else m
    A = r.normal(size=(n, n)) + (0 if fam == "real" else 1j * r.normal(size=(n, n)))
    q, s = np.linalg.qr(A)
    return (q * np.exp(1j * r.uniform(0, 6.28, n)) if fam != "real" else q).astype(complex)


def verdict(rec, nm, got, want, tag):
    rec.ok(isinstance(got, (bool, np.bool_)) or (torch.is_tensor(got) and got.numel() == 1), "%s: not a truth value (%r): %s" % (nm, got, tag))
    rec.ok(bool(got) == want, "%s: returned %s, expected %s: %s" % (nm, got, want, tag))


def run(case, rec):
    r = np.random.default_rng(case["seed"])
    t = case["t"]
    if t == "kron":
        ms = []
        fam = case.get("fam", "random")
        rec.ev("drove factors: " + fam)
        for a, b in case["shapes"]:
            m = factor(fam if fam == "random" or r.random() < 0.8 else FAC[int(r.integers(len(FAC)))], a, b, r)
            if fam == "same" and ms and ms[-1].shape == (a, b):
                m = ms[-1].astype(complex)
            ms.append((m if case["cplx"] else m.real).astype(np.complex64 if case["cplx"] else np.float32))
        ts = [torch.from_numpy(m.copy()) for m in ms]
        held = list(ts)
        want = np.array(ms[0], dtype=complex)
        for m in ms[1:]:
            want = np.kron(want, m.astype(complex))
        rec.ev("drove multi_kron")
        got = qm.multi_kron(ts)
        rec.close("multi_kron: shapes %s" % case["shapes"], got, want, 2e-6 * max(1.0, np.abs(want).max()) * len(ms))
        rec.ok(len(ts) == len(held) and all(a is b for a, b in zip(ts, held)) and all(np.array_equal(a.numpy(), m) for a, m in zip(ts, ms)),
               "multi_kron changed its argument")
        rec.seen("kron", str(case["shapes"]), case["cplx"], fam)
        return
    if t == "dag":
        a, b = case["shape"]
        dt = DTS[case["dt"]]
        m = r.normal(size=(a, b))
        if np.issubdtype(dt, np.complexfloating):
            m = m + 1j * r.normal(size=(a, b))
        m = m.astype(dt)
        x = torch.from_numpy(m.copy())
        rec.ev("drove dag")
        rec.close("dag: %dx%d %s" % (a, b, case["dt"]), qm.dag(x), m.conj().T.astype(complex), 0.0)
        rec.close("dag of dag: %dx%d" % (a, b), qm.dag(qm.dag(x)), m.astype(complex), 0.0)
        rec.ok(np.array_equal(x.numpy(), m), "dag changed its argument")
        rec.seen("dag", a, b, case["dt"])
        return
    if t == "shape":
        rec.ev("drove shape error")
        for sh in ((2, 3), (3, 2), (1, 2), (4, 1), (8, 7)):
            z = torch.zeros(sh) + 0j
            rec.raises("IsUnitary: %s matrix" % (sh,), lambda: qm.IsUnitary(z))
            rec.raises("IsHermitian: %s matrix" % (sh,), lambda: qm.IsHermitian(z))
            z[0, 0] = 1
            rec.raises("IsNormalized: %s matrix" % (sh,), lambda: qm.IsNormalized(z))
            rec.raises("IsUnitary: eye(%s)" % (sh,), lambda: qm.IsUnitary(torch.eye(*sh)))
            rec.raises("IsHermitian: eye(%s)" % (sh,), lambda: qm.IsHermitian(torch.eye(*sh)))
        for sh in ((1, 1), (2, 2), (2, 1), (1, 2, 2)):
            z = torch.zeros(sh) + 0j
            z.view(-1)[0] = 1
            rec.raises("IsNormalized: shape %s" % (sh,), lambda: qm.IsNormalized(z))
        for sh in ((2,), (2, 2, 2), (1, 2, 2)):
            rec.raises("dag: shape %s" % (sh,), lambda: qm.dag(torch.zeros(sh) + 0j))
        rec.seen("shape")
        return
    n, bad = case["n"], case["bad"]
    i, j, eps = case.get("i", 0), case.get("j", 0), case.get("eps", 0.0)
    dt = DTS[case.get("dt", "c64")]
    hi = 2.5e-6 if case.get("dt", "c64") in ("c64", "f32") else 1.5e-6
    if t == "U":
        m = base_unitary(case["fam"], n, r)
        if bad == "entry":
            m[i, j] += eps * np.exp(1j * r.uniform(0, 6.28))
        elif bad == "imag":
            m[i, j] += 1j * eps
        elif bad == "nan":
            m[i, j] = [complex(np.nan, 0), complex(0, np.nan)][int(r.integers(2))]
        elif bad == "inf":
            m[i, j] = np.inf
        elif bad == "zero":
            m[i, j] = 0
        elif bad == "row":
            m[i] *= 1 + eps
        elif bad == "phase_ok":
            m[i] *= np.exp(1j * r.uniform(0, 6.28))
        elif bad == "same":     # one row twice
            m[i] = m[j]
        elif bad == "mix":      # rows i and j stay normalised but are no longer orthogonal
            th = min(eps, 0.7)
            m[i] = np.cos(th) * m[i] + np.sin(th) * np.exp(1j * r.uniform(0, 6.28)) * m[j]
        m = m.astype(dt)
        with np.errstate(all="ignore"):
            e = np.abs(m.astype(complex) @ m.astype(complex).conj().T - np.eye(n))
        nan = not np.all(np.isfinite(e))
        d = np.inf if nan else e.max()
        if LO < d < hi:
            return
        f, nm, w = qm.IsUnitary, "IsUnitary", "unitary"
        where = np.argwhere(np.triu(~(e < 2e-6)))[:4].tolist()
    elif t == "H":
        fam = case["fam"]
        A = r.normal(size=(n, n)) + (0 if fam == "real" else 1j * r.normal(size=(n, n)))
        m = (A + A.conj().T) / 2
        if fam == "diag":
            m = np.diag(r.normal(size=n)).astype(complex)
        elif fam == "zero":
            m = np.zeros((n, n), dtype=complex)
        elif fam == "big":
            m = m * 1e4
        elif fam == "pauli":
            m = np.eye(n, dtype=complex)
            for (a, b) in ((0, n - 1),):
                m[a, b], m[b, a] = -1j, 1j
            if n == 1:
                m = np.ones((1, 1), dtype=complex)
        m = np.array(m, dtype=complex)
        if bad == "entry":
            m[i, j] += eps * (1j if i == j else np.exp(1j * r.uniform(0, 6.28)))
        elif bad == "imag":
            m[i, j] += 1j * eps
        elif bad == "nan":
            m[i, j] = [complex(np.nan, 0), complex(0, np.nan)][int(r.integers(2))]
        elif bad == "swapphase":
            m[i, j] = m[j, i] + 0j
        m = m.astype(dt)
        with np.errstate(all="ignore"):
            e = np.abs(m.astype(complex) - m.astype(complex).conj().T)
        d = e.max() if np.all(np.isfinite(e)) else np.inf
        if LO < d < hi:
            return
        nan = not np.isfinite(d)
        f, nm, w = qm.IsHermitian, "IsHermitian", "hermitian"
        where = [[i, j]]
    else:
        fam = case["fam"]
        m = np.zeros(n, dtype=complex)
        if fam == "basis":
            m[int(r.integers(n))] = np.exp(1j * r.uniform(0, 6.28))
        elif fam == "phase":
            m = np.exp(1j * r.uniform(0, 6.28, n))
        else:
            m = r.normal(size=n) + (0 if fam == "real" else 1j * r.normal(size=n)) + 0j
        m = m / np.linalg.norm(m)
        if bad == "entry":
            m[i] += eps
        elif bad == "imag":
            m[i] += 1j * eps
        elif bad == "nan":
            m[i] = [complex(np.nan, 0), complex(0, np.nan)][int(r.integers(2))]
        elif bad == "inf":
            m[i] = np.inf
        elif bad == "drop":
            m[i] = 0
        elif bad == "scale":
            m = m * (1 + eps)
        m = m.astype(dt)
        with np.errstate(all="ignore"):
            d = abs(np.sum(np.abs(m.astype(complex)) ** 2) - 1)
        nan = not np.isfinite(d)
        d = np.inf if nan else d
        if LO < d < hi:
            return
        f, nm, w = qm.IsNormalized, "IsNormalized", "normalized"
        where = [[i]]
    good = bool(d <= LO)
    x = torch.from_numpy(np.ascontiguousarray(m))
    rec.ev("drove %s %s" % (w, "accepted" if good else "rejected"))
    if nan:
        rec.ev("drove nan")
    tag = "%s n=%d violation=%s at %s, true defect %.3g" % (case["fam"], n, bad, where if not good else None, d)
    verdict(rec, nm, f(x), good, tag)
    if t == "U" and not nan:
        c = m.astype(complex)
        dt_ = np.abs(c.conj().T @ c - np.eye(n)).max()      # defect of the columns
        if dt_ <= LO or dt_ >= hi:
            verdict(rec, nm, f(qm.dag(x)), bool(dt_ <= LO), "conjugate transpose of " + tag)
    if np.all(np.isreal(m)) and not nan:
        verdict(rec, nm + " of a real tensor", f(torch.from_numpy(np.ascontiguousarray(m.real))), good, tag)
    rec.seen(t, n, case["fam"], bad, i, j)
