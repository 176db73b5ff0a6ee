"""C08: MPS inner products and local expectations."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import tn, tvec, npy, mps_of, mps_dense, wide_mps, build
from .c04 import right_mps, other_mps, uniform

PROP = "C08"
REPEAT = 6                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (function, N, families of the two states, how the MPS was obtained, wire order); judged: the value "
        "against dense algebra and bit-for-bit preservation of the caller's lists and tensors")
SRC = ["lib", "right", "evolved", "same", "mixed", "fat", "uniform"]
REQUIRED = ["drove state with itself", "drove one list twice"] + ["drove MPS " + s for s in SRC] + ["drove inner product", "drove expectation", "drove N=1", "drove evolved MPS", "drove norm other than one", "drove special observable", "drove wide register"] + ["drove other contents: " + h for h in ("evolved", "site", "exchanged", "observable", "wires", "partner")]


def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    for N in range(1, 11 if deep else 9):
        for k in gen.STATE_KINDS:
            for _ in range(12 if deep else 4):
                out.append({"N": N, "a": gen.state_desc(rng, N, k), "b": gen.state_desc(rng, N),
                            "src": SRC[int(rng.integers(len(SRC)))],
                            "wires": gen.wires(rng, N, int(rng.integers(0 if rng.random() < 0.05 else 1, N + 1))),
                            "seed": int(rng.integers(1 << 30))})
    for N in range(1, 5):
        for n in range(1, N + 1):
            for w in gen.all_wire_tuples(N, n):
                for _ in range(3 if deep else 1):
                    out.append({"N": N, "a": gen.state_desc(rng, N), "b": gen.state_desc(rng, N), "src": "lib", "wires": w,
                                "seed": int(rng.integers(1 << 30))})
    for _ in range(6000 if deep else 800):
        N = int(rng.integers(1, 9))
        out.append({"N": N, "a": gen.state_desc(rng, N), "b": gen.state_desc(rng, N),
                    "src": SRC[int(rng.integers(len(SRC)))],
                    "wires": gen.wires(rng, N, int(rng.integers(1, N + 1))), "seed": int(rng.integers(1 << 30))})
    for N in (10, 11, 12):
        for k in ("random", "phase", "bellpair", "ghz"):
            out.append({"N": N, "a": gen.state_desc(rng, N, k), "b": gen.state_desc(rng, N), "src": ["lib", "same"][int(rng.integers(2))],
                        "wires": gen.wires(rng, N, int(rng.integers(1, N + 1))), "seed": int(rng.integers(1 << 30))})
    for N in (13, 14, 15, 16, 20, 25, 32, 40):      # registers too wide for (or just within) a state vector
        for _ in range(20 if deep else 3):
            a, b = gen.wide_terms(rng, N), gen.wide_terms(rng, N)
            if rng.random() < 0.5:                  # overlapping
                b = {k: complex(x) for k, x in zip(list(a) + list(b), rng.normal(size=len(a) + len(b)) * 0.5)}
            out.append({"N": N, "wide": [[[str(k), x.real, x.imag] for k, x in t.items()] for t in (a, b)],
                        "wires": gen.wires(rng, N, int(rng.integers(1, 5))), "seed": int(rng.integers(1 << 30))})
    return out


def wide(case, rec):
    N = case["N"]
    a, b = [{int(k): complex(np.complex64(complex(x, y))) for k, x, y in t} for t in case["wide"]]
    A, B = wide_mps(a, N), wide_mps(b, N)
    keep = [t.clone() for t in A + B]
    sc = max(1.0, sum(abs(x) ** 2 for x in a.values()), sum(abs(x) ** 2 for x in b.values()))
    tag = "wide register, N=%d" % N

    def dot(x, y):
        return sum(np.conj(x[k]) * y[k] for k in x if k in y)

    rec.ev("drove wide register")
    rec.close("MPS_inner_product: " + tag, npy(tn.MPS_inner_product(A, B)).reshape(()), dot(b, a), 1e-5 * sc)
    rec.close("MPS_inner_product: the other way round, " + tag, npy(tn.MPS_inner_product(B, A)).reshape(()), dot(a, b), 1e-5 * sc)
    rec.close("MPS_inner_product: with itself, " + tag, npy(tn.MPS_inner_product(A, A)).reshape(()), dot(a, a), 1e-5 * sc)
    if N <= 16:
        w = case["wires"]
        mats = [gen.hermitian(case["seed"] + i, 2, "mix") for i in range(len(w))]
        phi = dict(a)
        for q, m in zip(w, mats):
            out = {}
            sh = N - 1 - q
            for k, x in phi.items():
                i = (k >> sh) & 1
                for j in (0, 1):
                    kk = (k & ~(1 << sh)) | (j << sh)
                    out[kk] = out.get(kk, 0) + complex(m[j, i]) * x
            phi = out
        rec.close("MPS_expec: %s wires=%s" % (tag, w), npy(tn.MPS_expec(A, list(w), [torch.from_numpy(m.copy()) for m in mats])).reshape(()),
                  dot(a, phi).real, 1e-5 * sc * max(1.0, np.prod([np.abs(m).sum(1).max() for m in mats])))
    rec.ok(all(torch.equal(x, y) for x, y in zip(A + B, keep)), "MPS_inner_product/MPS_expec: modified the caller's MPS: " + tag)
    rec.seen(N, "wide", len(a), len(b), tuple(case["wires"]))


def special(f, m, eps):
    e = np.float32(eps)
    I = np.eye(2)
    out = [I + e * m, -I + e * m, e * m, ref.Z + e * m, ref.X + e * m, np.diag(np.diag(m)), I * m[0, 0].real, np.diag([1, 0]) + e * m][f]
    return out.astype(np.complex64)


def run(case, rec):
    if "wide" in case:
        wide(case, rec)
        return
    N = case["N"]
    r = np.random.default_rng(case["seed"])
    va, vb = gen.state(case["a"], N), gen.state(case["b"], N)
    sc = 1.0
    if case["seed"] % 4 == 1:                    # states that are not normalised
        fa, fb = [float(x) for x in 2.0 ** r.uniform(-1.5, 1.5, 2)]
        va, vb = (va * np.float32(fa)).astype(np.complex64), (vb * np.float32(fb)).astype(np.complex64)
        sc = max(1, fa, fb) ** 2
        rec.ev("drove norm other than one")
    A, B = mps_of(va, N), mps_of(vb, N)
    if case["src"] == "right":
        A, B = right_mps(va, N), mps_of(vb, N)
    elif case["src"] in ("mixed", "fat"):
        A, B = other_mps(va / sc ** 0.5, N, case["seed"], case["src"] == "fat"), other_mps(vb, N, case["seed"] + 1, False)
        A[0] = A[0] * sc ** 0.5
    elif case["src"] == "same":
        B, vb = A, va
    elif case["src"] == "evolved":
        for s in gen.circuit(r, N, 4, gen.TN_ALL, tn=True):
            A = build(s, N).TN_operation(A)
        rec.ev("drove evolved MPS")
    elif case["src"] == "uniform":
        A, va = uniform(case["seed"], N)
        if case["seed"] % 3 == 0:
            B, vb = uniform(case["seed"] + 1, N)
    rec.ev("drove MPS " + case["src"])
    if case["seed"] % 5 == 2:                    # one state on both sides, as the same list or as another list of the same tensors
        B = A if case["seed"] % 2 else list(A)
        vb = va
        rec.ev("drove one list twice")
    a, b = mps_dense(A), mps_dense(B)
    ka, kb = [t.clone() for t in A], [t.clone() for t in B]
    ida = [id(t) for t in A]
    got = tn.MPS_inner_product(A, B)
    rec.ev("drove inner product")
    if N == 1:
        rec.ev("drove N=1")
    rec.close("MPS_inner_product: N=%d %s/%s" % (N, case["a"]["t"], case["b"]["t"]), npy(got).reshape(()), np.vdot(b, a), 4e-6 * sc * max(1.5, N - 2))
    rec.close("MPS_inner_product: with itself, N=%d %s %s" % (N, case["a"]["t"], case["src"]), npy(tn.MPS_inner_product(A, A)).reshape(()), np.vdot(a, a), 4e-6 * sc * max(1.5, N - 2))
    rec.close("MPS_inner_product: with its tensors, N=%d %s %s" % (N, case["a"]["t"], case["src"]), npy(tn.MPS_inner_product(B, [t.clone() for t in B])).reshape(()),
              np.vdot(b, b), 4e-6 * sc * max(1.5, N - 2))
    rec.ev("drove state with itself")
    rec.ok(got.numel() == 1, "MPS_inner_product: returned shape %s" % (tuple(got.shape),))
    w = list(case["wires"])
    mats = [gen.hermitian(case["seed"] + i, 2, "real" if (case["seed"] + i) % 5 == 0 else "mix") for i in range(len(w))]
    if case["seed"] % 4 == 0:
        mats = [[ref.X, ref.Y, ref.Z, ref.I2][int(r.integers(4))].astype(np.complex64) for _ in w]
    if case["seed"] % 6 == 1:                    # next to, or of the form of, something special
        rec.ev("drove special observable")
        mats = [special(int(r.integers(8)), m, 10 ** r.uniform(-3.6, -0.5)) for m in mats]
    obs = [torch.from_numpy(m.copy()) for m in mats]
    kobs = [o.clone() for o in obs]
    e = tn.MPS_expec(A, w, obs)
    rec.ev("drove expectation")
    phi = a.copy()
    for q, m in zip(w, mats):
        phi = ref.apply_step(m.astype(complex), [q], phi.reshape((2,) * N), N).reshape(-1)
    rec.close("MPS_expec: N=%d wires=%s" % (N, w), npy(e).reshape(()), np.vdot(a, phi).real, 4e-6 * sc * max(1.5, N - 2))
    rec.ok(not torch.is_complex(e), "MPS_expec: returned a complex value")
    rec.ok(w == list(case["wires"]) and all(torch.equal(x, y) for x, y in zip(obs, kobs)), "MPS_expec: modified wires or observables")
    same = len(A) == N and len(B) == N and all(torch.equal(x, y) for x, y in zip(A, ka)) and all(torch.equal(x, y) for x, y in zip(B, kb)) \
        and [id(t) for t in A] == ida
    rec.ok(same, "MPS_inner_product/MPS_expec: modified the caller's MPS (N=%d wires=%s)" % (N, w))
    e2 = tn.MPS_expec(A, w, obs)
    rec.close("MPS_expec repeated: N=%d" % N, npy(e2).reshape(()), npy(e).reshape(()), 1e-6 * sc)
    if N <= 8:
        again(case, rec, N, A, B, w, mats, obs, r, sc)
    rec.seen(N, case["a"]["t"], case["b"]["t"], case["src"], tuple(w))


def again(case, rec, N, A, B, w, mats, obs, r, sc):
    """The very same lists and tensors, with other contents: evolved in place, overwritten, exchanged, observables and wires replaced."""
    for _ in range(2):
        how = ["evolved", "site", "exchanged", "observable", "wires", "partner"][int(r.integers(6))]
        with torch.no_grad():
            if how == "evolved":
                s = gen.circuit(r, N, 1, gen.TN_ALL, tn=True)[0]
                A[:] = build(s, N).TN_operation(A)
            elif how == "site":
                q = int(r.integers(N))
                A[q].copy_((A[q].clone() * complex(*r.normal(size=2)) / 1.5).flip(0))
            elif how == "exchanged":
                A[:] = mps_of(gen.state(gen.state_desc(r, N), N), N)
            elif how == "observable" and obs:
                i = int(r.integers(len(obs)))
                mats[i] = gen.hermitian(int(r.integers(1 << 30)), 2, "mix")
                obs[i].copy_(torch.from_numpy(mats[i].copy()))
            elif how == "wires":
                w[:] = gen.wires(r, N, len(w)) if w else w
            elif how == "partner":
                B[:] = mps_of(gen.state(gen.state_desc(r, N), N), N)
        rec.ev("drove other contents: " + how)
        a, b = mps_dense(A), mps_dense(B)
        phi = a.copy()
        for q, m in zip(w, mats):
            phi = ref.apply_step(m.astype(complex), [q], phi.reshape((2,) * N), N).reshape(-1)
        tol = 5e-6 * max(1.5, N - 2) * max(sc, float(np.vdot(a, a).real), float(np.vdot(b, b).real)) * max(1.0, float(np.prod([np.abs(m).sum(1).max() for m in mats])))
        rec.close("MPS_expec: same objects, %s, N=%d wires=%s" % (how, N, w), npy(tn.MPS_expec(A, w, obs)).reshape(()), np.vdot(a, phi).real, tol)
        rec.close("MPS_inner_product: same objects, %s, N=%d" % (how, N), npy(tn.MPS_inner_product(A, B)).reshape(()), np.vdot(b, a), tol)
