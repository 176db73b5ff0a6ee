"""C18: data encodings and state preparation."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import npy, tvec, qe, mps_of, mps_dense, mps_shape_problem, tensor_of
from deepquantum.embeddings import qstate as qs

PROP = "C18"
REPEAT = 8                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (encoder, N, input length, dtype/container/sign family, axis, wires); judged: every amplitude or matrix entry, all "
        "evaluation paths of Pauli encoding, repetition, caller's data unchanged, oversized inputs rejected")
REQUIRED = ["drove amplitude", "drove pauli X", "drove pauli Y", "drove pauli Z", "drove fewer inputs than wires", "drove prepare state",
            "drove prepare rho", "drove gram", "drove oversize", "drove pad", "drove data changed in place", "drove other encoder alive"]
TOL = 3e-6
AMP = ["real", "negative", "complex", "imag", "single", "int", "small", "big", "unit", "zeros", "f64"]


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(**k):
        k["seed"] = int(rng.integers(1 << 30))
        out.append(k)

    for N in range(1, 6 if deep else 5):
        for n in range(1, 2 ** N + 1):
            for fam in (AMP if n in (1, 2, 3, 2 ** N - 1, 2 ** N) or deep else [AMP[int(rng.integers(len(AMP)))] for _ in range(3)]):
                mk(t="amp", N=N, n=n, fam=fam)
        for over in (1, 2, 2 ** N):
            mk(t="ampover", N=N, n=2 ** N + over)
        for over in (1, 2, 5):
            for ax in "XYZ":
                mk(t="pauliover", N=N, n=N + over, axis=ax)
    for _ in range(2000 if deep else 700):
        N = int(rng.integers(1, 9)) if rng.random() < 0.95 else int(rng.integers(9, 13))
        mk(t="amp", N=N, n=int(rng.integers(1, 2 ** N + 1)), fam=AMP[int(rng.integers(len(AMP)))])
    for N in range(1, 6 if deep else 5):
        for ax in "XYZ":
            for k in range(1, N + 1):
                for n in range(1, N + 1):
                    for _ in range(3 if deep else 2):
                        mk(t="pauli", N=N, w=gen.wires(rng, N, k), n=n, axis=ax, c=["tensor", "list", "grad", "strided"][int(rng.integers(4))])
    for _ in range(4000 if deep else 1000):
        N = int(rng.integers(1, 8)) if rng.random() < 0.97 else int(rng.integers(8, 10))
        mk(t="pauli", N=N, w=gen.wires(rng, N, int(rng.integers(1, N + 1))), n=int(rng.integers(1, N + 1)), axis="XYZ"[int(rng.integers(3))],
           c=["tensor", "list", "grad", "strided", "tensors"][int(rng.integers(5))])
    for _ in range(1500 if deep else 500):
        mk(t="prep", n=int(rng.integers(1, 33)), fam=["real", "complex", "int", "mixed", "t32", "tc64", "numpy"][int(rng.integers(7))])
    for _ in range(1500 if deep else 500):
        mk(t="gram", n=int(rng.integers(1, 17)), fam=["pos", "signed", "unit", "unitbasis", "zeros", "big", "small", "single", "ones", "integers", "halves", "tiny"][int(rng.integers(12))])
    return out


def run(case, rec):
    r = np.random.default_rng(case["seed"])
    t = case["t"]
    if t == "ampover":
        rec.ev("drove oversize")
        for x in (torch.ones(case["n"]), torch.ones(case["n"]) + 0j):
            rec.raises("AmplitudeEncoding: %d inputs for %d qubits" % (case["n"], case["N"]),
                       lambda: qe.AmplitudeEncoding(case["N"], x).encoded_state())
        rec.seen(t, case["N"], case["n"])
        return
    if t == "pauliover":
        rec.ev("drove oversize")
        x = torch.ones(case["n"])
        rec.raises("PauliEncoding: %d inputs for %d qubits" % (case["n"], case["N"]),
                   lambda: qe.PauliEncoding(case["N"], x, list(range(case["N"])), case["axis"]).U_expand())
        for bad in ("W", "", "I", "XY"):
            rec.raises("PauliEncoding: unknown axis %r" % bad, lambda: qe.PauliEncoding(case["N"], x[:1], list(range(case["N"])), bad).U_expand())
        rec.seen(t, case["N"], case["n"], case["axis"])
        return
    if t == "amp":
        N, n, fam = case["N"], case["n"], case["fam"]
        x = r.normal(size=n)
        x[int(r.integers(n))] += 3
        dt = np.float32
        if fam == "negative":
            x = -np.abs(x)
        elif fam in ("complex", "unit"):
            x, dt = x + 1j * r.normal(size=n), np.complex64
        elif fam == "imag":
            x, dt = 1j * x, np.complex64
        elif fam == "single":
            k = int(r.integers(n))
            x = np.where(np.arange(n) == k, -2.5, 0.0)
        elif fam == "int":
            x, dt = r.integers(-4, 5, n), np.int64
            x[0] = 3
        elif fam == "small":
            x = x * 1e-3
        elif fam == "big":
            x = x * 1e4
        elif fam == "zeros":
            x[1:][r.random(n - 1) < 0.5] = 0
            x[0] = -1.5
        elif fam == "f64":
            dt = np.float64
        if fam == "unit":
            x = x / np.linalg.norm(x)
        x = x.astype(dt)
        X = torch.from_numpy(x.copy())
        want = np.zeros(2 ** N, dtype=complex)
        want[:n] = x.astype(complex) / np.linalg.norm(x.astype(complex))
        rec.ev("drove amplitude")
        if n < 2 ** N:
            rec.ev("drove pad")
        enc = qe.AmplitudeEncoding(N, X)
        tag = "N=%d %d inputs %s" % (N, n, fam)
        for again in ("", " (second call)"):
            g = enc.encoded_state()
            rec.ok(torch.is_tensor(g) and torch.is_complex(g), "AmplitudeEncoding: not complex: " + tag)
            rec.close("AmplitudeEncoding: %s%s" % (tag, again), npy(g).reshape(-1), want, TOL)
        rec.ok(np.array_equal(X.numpy(), x), "AmplitudeEncoding changed the input: " + tag)
        # another encoder, and a new one over the same tensor after the caller has written new data into it
        y = np.where(np.arange(n) == n - 1, 2, r.integers(-3, 4, n)).astype(dt)
        for name, shape in (("state0", (2 ** N,)), ("rho0", (2 ** N, 2 ** N))):
            if hasattr(enc, name):                 # the |0...0> it carries along
                zero = np.zeros(shape, complex)
                zero.reshape(-1)[0] = 1
                rec.close("AmplitudeEncoding.%s: %s" % (name, "N=%d" % N), getattr(enc, name), zero, 0.0)
        oth = qe.AmplitudeEncoding(N, torch.from_numpy(y.copy()))
        wo = np.zeros(2 ** N, dtype=complex)
        wo[:n] = y.astype(complex) / np.linalg.norm(y.astype(complex))
        rec.close("AmplitudeEncoding of other data: " + tag, npy(oth.encoded_state()).reshape(-1), wo, TOL)
        rec.close("AmplitudeEncoding after another encoder: " + tag, npy(enc.encoded_state()).reshape(-1), want, TOL)
        rec.ev("drove other encoder alive")
        X.copy_(torch.from_numpy(y))
        rec.ev("drove data changed in place")
        rec.close("AmplitudeEncoding of a tensor with new contents: " + tag, npy(qe.AmplitudeEncoding(N, X).encoded_state()).reshape(-1), wo, TOL)
        rec.seen(t, N, n, fam)
        return
    if t == "pauli":
        N, w, n, ax = case["N"], case["w"], case["n"], case["axis"]
        p = gen.angles(r, n)
        P = torch.tensor(p, dtype=torch.float32)
        if case["c"] == "list":
            P = list(p)
        elif case["c"] == "grad":
            P = P.requires_grad_(True)
        elif case["c"] == "tensors":
            P = [torch.tensor(x, dtype=torch.float32) for x in p]
        elif case["c"] == "strided":
            b = torch.full((2 * n,), 9.0)
            b[::2] = P
            P = b[::2]
        spec = {"k": "PauliEncoding", "w": w, "p": p, "axis": ax}
        M = ref.matrix(spec, N)
        rec.ev("drove pauli " + ax)
        if n < len(w):
            rec.ev("drove fewer inputs than wires")
        ws = list(w)
        e = qe.PauliEncoding(N, P, ws, ax) if ax != "X" or case["seed"] % 2 else qe.PauliEncoding(N, P, ws)
        tag = "N=%d wires=%s %d inputs axis %s" % (N, w, n, ax)
        v = gen.state(gen.state_desc(r, N), N)
        want = M @ v.astype(complex)
        for again in ("", " (second call)"):
            rec.close("PauliEncoding.U_expand: %s%s" % (tag, again), e.U_expand(), M, TOL)
            with torch.no_grad():
                m = e.TN_operation(mps_of(v, N))
                bad = mps_shape_problem(m, N)
                if rec.ok(bad is None, "PauliEncoding.TN_operation: %s: %s" % (tag, bad)):
                    rec.close("PauliEncoding.TN_operation: " + tag, mps_dense(m), want, 1.2e-5)
                rec.close("PauliEncoding.TN_contract: " + tag, npy(e.TN_contract(tensor_of(v, N))).reshape(-1), want, TOL)
                x = np.stack([v, v[::-1]])
                g = e.TN_contract(torch.from_numpy(x).reshape([2] + [2] * N), batch_mod=True)
                rec.close("PauliEncoding.TN_contract batch: " + tag, npy(g).reshape(2, -1), (M @ x.T.astype(complex)).T, TOL)
        rec.ok(ws == list(w), "PauliEncoding changed the wires: " + tag)
        rec.close("PauliEncoding inputs afterwards: " + tag, np.array([float(a) for a in P], dtype=complex), np.array(p, dtype=complex), 0.0)
        if torch.is_tensor(P):
            q = gen.angles(r, n)
            with torch.no_grad():
                P.copy_(torch.tensor(q, dtype=torch.float32))
            rec.ev("drove data changed in place")
            ax2 = "XYZ"[case["seed"] % 3]
            w2 = gen.wires(r, N, len(w))
            for e2, aa, ww in ((qe.PauliEncoding(N, P, list(w), ax), ax, w), (qe.PauliEncoding(N, P, list(w2), ax2), ax2, w2)):
                M2 = ref.matrix({"k": "PauliEncoding", "w": ww, "p": q, "axis": aa}, N)
                rec.close("PauliEncoding of a tensor with new contents: %s then axis %s on %s" % (tag, aa, ww), e2.U_expand(), M2, TOL)
                with torch.no_grad():
                    rec.close("PauliEncoding.TN_contract of a tensor with new contents: " + tag, npy(e2.TN_contract(tensor_of(v, N))).reshape(-1),
                              M2 @ v.astype(complex), TOL)
        rec.seen(t, N, tuple(w), n, ax, case["c"])
        return
    if t == "prep":
        n, fam = case["n"], case["fam"]
        x = r.normal(size=n) + (1j * r.normal(size=n) if fam in ("complex", "tc64", "mixed", "numpy") else 0)
        x = x / np.linalg.norm(x)
        if fam == "int":
            x = r.integers(-2, 3, n)
            arg = [int(a) for a in x]
        elif fam == "real":
            arg = [float(a) for a in x.real]
        elif fam == "mixed":
            arg = [complex(a) if i % 2 else float(a.real) for i, a in enumerate(x)]
            x = np.array(arg, dtype=complex)
        elif fam == "t32":
            arg = torch.from_numpy(np.asarray(x).real.astype(np.float32))
        elif fam == "tc64":
            arg = torch.from_numpy(x.astype(np.complex64))
        elif fam == "numpy":
            arg = x.astype(np.complex128)
        else:
            arg = [complex(a) for a in x]
        x = np.asarray(x).astype(complex)
        tag = "%d amplitudes %s" % (n, fam)
        rec.ev("drove prepare state")
        s = qs.PrepareState(arg)
        rec.ok(torch.is_tensor(s) and torch.is_complex(s), "PrepareState: not complex: " + tag)
        tol = 1e-6 * max(1.0, np.abs(x).max() ** 2)
        rec.close("PrepareState: " + tag, s, x, tol)
        rec.ev("drove prepare rho")
        g = rec.arr(qs.PrepareRho(arg), "PrepareRho")
        rec.close("PrepareRho: " + tag, g, np.outer(x, x.conj()), 3 * tol)
        rec.close("PrepareRho hermiticity: " + tag, g, g.conj().T, 3 * tol)
        rec.seen(t, n, fam)
        return
    n, fam = case["n"], case["fam"]
    x = r.normal(size=n)
    x[int(r.integers(n))] += 2
    if fam == "pos":
        x = np.abs(x) + 0.1
    elif fam == "unit":
        x = np.full(n, 1.0)
        x = x / np.linalg.norm(x)
    elif fam == "unitbasis":
        x = np.zeros(n)
        x[int(r.integers(n))] = [-1.0, 1.0][int(r.integers(2))]
    elif fam == "zeros":
        x[r.random(n) < 0.5] = 0
        x[0] = 1.5
    elif fam == "big":
        x = x * 1e3
    elif fam == "small":
        x = x * 1e-2
    elif fam == "tiny":
        x = x * 1e-4
    elif fam == "ones":                            # (norms that are whole numbers)
        x = r.choice([-1.0, 1.0], n)
    elif fam in ("integers", "halves"):
        x = r.integers(-2, 3, n).astype(float)
        x[int(r.integers(n))] = 2
        x = x / 2 if fam == "halves" else x
    elif fam == "single":
        x = np.where(np.arange(n) == n - 1, -2.5, 0.0)
    x = x.astype(np.float32)
    X = torch.from_numpy(x.copy()).view(1, -1)
    tag = "row vector of %d, %s" % (n, fam)
    rec.ev("drove gram")
    for again in ("", " (second call)"):
        g = qe.gram_encoding(X)
        rec.ok(torch.is_complex(g), "gram_encoding: not complex: " + tag)
        g = rec.arr(g, "gram_encoding")
        if not rec.ok(g.shape == (n, n), "gram_encoding: shape %s: %s" % (g.shape, tag)):
            return
        xd = x.astype(float)
        rec.close("gram_encoding populations: %s%s" % (tag, again), np.diag(g), (xd ** 2 / np.sum(xd ** 2)).astype(complex), TOL)
        rec.close("gram_encoding hermiticity: " + tag, g, g.conj().T, TOL)
        rec.ok(np.linalg.eigvalsh((g + g.conj().T) / 2)[0] > -TOL, "gram_encoding: not positive: " + tag)
    rec.ok(np.array_equal(X.numpy()[0], x), "gram_encoding changed its input: " + tag)
    y = (r.normal(size=n) + np.where(np.arange(n) == 0, 3, 0)).astype(np.float32)
    X.copy_(torch.from_numpy(y).view(1, -1))
    rec.close("gram_encoding populations of new contents: " + tag, np.diag(rec.arr(qe.gram_encoding(X), "gram_encoding")),
              (y.astype(float) ** 2 / np.sum(y.astype(float) ** 2)).astype(complex), TOL)
    rec.seen(t, n, fam)
