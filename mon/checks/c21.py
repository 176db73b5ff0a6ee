"""C21: functional layer builders."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import npy
from deepquantum.layers import qlayer as fl

PROP = "C21"
REPEAT = 2                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (builder, N, direction or inner gates, form of the parameter list); judged: the whole matrix, unitarity, repetition, "
        "caller's parameters unchanged, gradient with respect to every angle, rejection of parameter lists of wrong length and of registers too small")
ROT = {"XYZLayer": "XYZ", "YZYLayer": "YZY", "XZXLayer": "XZX", "XZLayer": "XZ"}
DIR = ["ring_of_cnot", "ring_of_cnot2", "ring_of_cz", "nearest_neighbor_cnot", "nearest_neighbor_cz", "all2all_cnot"]
COMP = ["basic_entangle_layer", "basic_entangle_layer2", "strong_entangle_layer"]
TWO = ["RxxLayer", "RyyLayer", "RzzLayer"]
REQUIRED = ["drove " + k for k in list(ROT) + ["HLayer"] + COMP + TWO] + ["drove %s %s" % (k, d) for k in DIR for d in ("up", "down")] + \
           ["drove reject " + k for k in list(ROT) + COMP + TWO] + ["drove gradient of " + k for k in list(ROT) + COMP + TWO] + ["drove register too small", "drove unknown single gate"]
FORMS = ["list", "tensor", "grad", "tensors", "strided", "mixed"]
TOL = 4e-6


def nparam(k, N, sg="YZY"):
    if k in ROT:
        return len(ROT[k]) * N
    if k in TWO:
        return N - 1
    if k == "basic_entangle_layer":
        return len(sg) * N
    if k in COMP:
        return 2 * len(sg) * N
    return 0


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(k, N, **kw):
        n = nparam(k, N, kw.get("sg") or "YZY")
        c = {"k": k, "N": N, "seed": int(rng.integers(1 << 30)), "f": kw.get("f") or FORMS[int(rng.integers(6))], "p": gen.angles(rng, n)}
        c.update(kw)
        out.append(c)

    for N in range(1, 11 if deep else 10):
        rep = (60 if deep else 6) if N < 7 else 2 if N < 9 else 0
        mk("HLayer", N)
        for k in ROT:
            for f in FORMS:
                mk(k, N, f=f)
            for _ in range(rep):
                mk(k, N)
        if N < 2:
            continue
        for k in DIR:
            for up in (True, False, None):
                mk(k, N, up=up)
        for k in TWO:
            for f in FORMS:
                mk(k, N, f=f)
            for _ in range(rep):
                mk(k, N)
        for k in COMP:
            for sg in ("YZY", "XZX", "XYZ", "XZ", None):
                for _ in range(rep // 2 + 1):
                    mk(k, N, sg=sg)
    for k in list(ROT) + ["HLayer"] + COMP + DIR + TWO:
        for N in (-2, -1, 0) + (() if k in ROT or k == "HLayer" else (1,)):
            out.append({"k": k, "N": N, "small": True})
    for N in range(1, 6):
        for k in list(ROT) + (TWO + COMP if N > 1 else []):
            for sg in (("YZY", "XZX", "XYZ", "XZ") if k in COMP else (None,)):
                n = nparam(k, N, sg or "YZY")
                for m in sorted({0, n - 1, n + 1, n + 3, 2 * n, n // 2, 2 * N, 3 * N, 4 * N, 6 * N} - {n}):
                    if m >= 0:
                        out.append({"k": k, "N": N, "sg": sg, "reject": int(m)})
    for N in (2, 3, 4):                          # names that are not a documented choice
        for k in COMP:
            for sg in ("YZX", "ZXZ", "ZYZ", "XYX", "xyz", "ZX", "XX", "YZ", "X", "", "XYZY"):
                out.append({"k": k, "N": N, "badsg": sg, "ms": sorted({len(sg) * N, 2 * len(sg) * N, 3 * N, 6 * N, 2 * N, 4 * N})})
    return out


def ring(gate, N, hop, up):
    if N == 2:
        return [(gate, [0, 1] if up else [1, 0])]
    r = range(N) if up else range(N - 1, -1, -1)
    return [(gate, [i, (i + (hop if up else -hop)) % N]) for i in r]


def steps(c):
    k, N, p = c["k"], c["N"], c["p"]
    cn, cz = ref.TWO_FIXED["cnot"], ref.TWO_FIXED["cz"]
    up = c.get("up") is not False
    if k == "HLayer":
        return [(ref.H, [q]) for q in range(N)]
    if k in ROT:
        return ref.expand({"k": k, "w": list(range(N)), "p": p})
    if k == "ring_of_cnot":
        return ring(cn, N, 1, up)
    if k == "ring_of_cnot2":
        return ring(cn, N, 2, up)
    if k == "ring_of_cz":
        return ring(cz, N, 1, up)
    if k in ("nearest_neighbor_cnot", "nearest_neighbor_cz"):
        g = cn if k.endswith("cnot") else cz
        if up:
            return [(g, [i, i + 1]) for i in list(range(0, N - 1, 2)) + list(range(1, N - 1, 2))]
        return [(g, [i, i - 1]) for i in list(range(N - 1, 0, -2)) + list(range(N - 2, 0, -2))]
    if k == "all2all_cnot":
        if N == 2:
            return [(cn, [0, 1] if up else [1, 0])]
        r = list(range(N)) if up else list(range(N - 1, -1, -1))
        return [(cn, [i, j]) for i in r for j in r if i != j]
    if k in TWO:
        f = ref.TWO_ROT[k[:3].lower()]
        pairs = [(i, i + 1) for i in range(0, N - 1, 2)] + [(i, i + 1) for i in range(1, N - 1, 2)]
        return [(f(t), list(w)) for t, w in zip(p, pairs)]
    sg = c.get("sg") or "YZY"
    n = len(sg) * N
    rot = lambda q: ref.expand({"k": sg + "Layer", "w": list(range(N)), "p": q})
    if k == "basic_entangle_layer":
        return rot(p) + ring(cn, N, 1, True)
    if k == "basic_entangle_layer2":
        return rot(p[:n]) + ring(cn, N, 1, True) + rot(p[n:]) + ring(cn, N, 1, True)
    return rot(p[:n]) + ring(cn, N, 1, True) + rot(p[n:]) + ring(cn, N, 2, True)


def whole(case, p):
    N = case["N"]
    T = np.eye(2 ** N, dtype=complex).reshape((2,) * N + (2 ** N,))
    for M, w in steps(dict(case, p=p)):
        T = ref.apply_step(M, w, T, N)
    return T.reshape(2 ** N, 2 ** N)


def gradient(case, rec, f, p, tag):
    """Back-propagation through the builder reaches every angle."""
    N, k = case["N"], case["k"]
    rec.ev("drove gradient of " + k)
    r = np.random.default_rng(case["seed"])
    W = (r.normal(size=(2 ** N,) * 2) + 1j * r.normal(size=(2 ** N,) * 2)).astype(np.complex64)
    if case["f"] == "tensors":
        Q = [torch.tensor(x, dtype=torch.float32, requires_grad=True) for x in p]
        leaves = Q
    elif case["f"] == "mixed":
        on = [(case["seed"] >> i % 24) & 1 for i in range(len(p))]
        on[case["seed"] % len(p)] = 1
        Q = [torch.tensor(x, dtype=torch.float32, requires_grad=True) if o else float(x) for x, o in zip(p, on)]
        leaves = [q for q in Q if torch.is_tensor(q)]
        rec.ev("drove partly trained list")
    else:
        leaf = torch.tensor(p, dtype=torch.float32, requires_grad=True)
        Q, leaves = leaf if case["f"] == "grad" else torch.stack([leaf, leaf], 1)[:, 0], [leaf]
    y = f(N, Q, case["sg"]) if case.get("sg") else f(N, Q)
    if not rec.ok(y.requires_grad, "%s detached from its parameters: %s" % (k, tag)):
        return
    g = torch.autograd.grad((y * torch.from_numpy(W)).real.sum(), leaves, allow_unused=True)
    if not rec.ok(all(x is not None for x in g), "%s: some parameter is detached: %s" % (k, tag)):
        return
    want = np.zeros(len(p))
    for a in range(len(p)):
        v = []
        for m in (-2, -1, 1, 2):
            t = list(p)
            t[a] += m * 1e-3
            v.append(float(np.sum(W * whole(case, t)).real))
        want[a] = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * 1e-3)
    if case["f"] == "mixed":
        want = want[np.array(on) == 1]
    rec.close("%s gradient: %s" % (k, tag), np.concatenate([npy(x).reshape(-1) for x in g]), want.astype(complex), 1e-5 * 2 ** N)


def run(case, rec):
    k, N = case["k"], case["N"]
    f = getattr(fl, k)
    if case.get("small"):
        rec.ev("drove register too small")
        for n in sorted({0, max(0, nparam(k, N)), 2, 3}):
            for up in (True, False):
                args = () if k == "HLayer" else (up,) if k in DIR else (torch.arange(n) * 0.1,)
                rec.raises("%s(N=%d)%s" % (k, N, " with %d parameters" % n if args and k not in DIR else ""), lambda: f(N, *args))
        rec.seen("small", k, N)
        return
    if "badsg" in case:
        rec.ev("drove unknown single gate")
        for m in case["ms"]:
            tag = "%s(N=%d, single_gate=%r) with %d parameters" % (k, N, case["badsg"], m)
            rec.raises(tag + " (list)", lambda: f(N, [0.1 * i for i in range(m)], case["badsg"]))
            rec.raises(tag + " (tensor)", lambda: f(N, torch.arange(m) * 0.1, case["badsg"]))
        rec.seen("badsg", k, N, case["badsg"])
        return
    if "reject" in case:
        rec.ev("drove reject " + k)
        m = case["reject"]
        extra = (case["sg"],) if case["sg"] else ()
        tag = "%s(N=%d) with %d parameters %s" % (k, N, m, case["sg"] or "")
        rec.raises(tag + " (list)", lambda: f(N, [0.1 * i for i in range(m)], *extra))
        rec.raises(tag + " (tensor)", lambda: f(N, torch.arange(m) * 0.1, *extra))
        rec.seen("reject", k, N, m, case["sg"])
        return
    p = case["p"]
    P = torch.tensor(p, dtype=torch.float32)
    if case["f"] == "list":
        P = [float(x) for x in p]
    elif case["f"] == "grad":
        P = P.requires_grad_(True)
    elif case["f"] == "tensors":
        P = [torch.tensor(x, dtype=torch.float32) for x in p]
    elif case["f"] == "mixed":                   # numbers and tensors in one list
        P = [torch.tensor(x, dtype=torch.float32) if (case["seed"] >> i % 24) & 1 else float(x) for i, x in enumerate(p)]
    elif case["f"] == "strided":
        b = torch.full((2 * len(p),), 9.0)
        b[::2] = P
        P = b[::2]
    T = np.eye(2 ** N, dtype=complex).reshape((2,) * N + (2 ** N,))
    for M, w in steps(case):
        T = ref.apply_step(M, w, T, N)
    want = T.reshape(2 ** N, 2 ** N)
    if k == "HLayer":
        go = lambda: f(N)
        rec.ev("drove HLayer")
    elif k in DIR:
        up = case["up"]
        go = (lambda: f(N)) if up is None else (lambda: f(N, up2down=up)) if case["seed"] % 2 else (lambda: f(N, up))
        rec.ev("drove %s %s" % (k, "down" if up is False else "up"))
    elif case.get("sg"):
        go = (lambda: f(N, P, single_gate=case["sg"])) if case["seed"] % 2 else (lambda: f(N, P, case["sg"]))
        rec.ev("drove " + k)
    else:
        go = lambda: f(N, P)
        rec.ev("drove " + k)
    tag = "%s N=%d %s %s" % (k, N, case.get("sg") or case.get("up", ""), case["f"] if p else "")
    tol = TOL * (1 + 0.25 * N)
    U = rec.arr(go(), k)
    rec.close("%s matrix: %s" % (k, tag), U, want, tol)
    rec.close("%s unitarity: %s" % (k, tag), U @ U.conj().T if U.ndim == 2 else U, np.eye(2 ** N, dtype=complex), tol)
    rec.close("%s second call: %s" % (k, tag), go(), want, tol)
    if p and case["f"] in ("grad", "tensors", "strided", "mixed") and N <= 5:
        gradient(case, rec, f, p, tag)
    if p:
        rec.close("%s caller's parameters: %s" % (k, tag), np.array([float(x) for x in P], dtype=complex), np.array(p, dtype=complex), 0.0)
    rec.seen(k, N, case.get("sg"), case.get("up"), case["f"])
