"""C14: circuit expectation values, both paths."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import npy, tvec, mkcircuit
from .c11 import observable

PROP = "C14"
REPEAT = 4                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, operation kinds in order, observable family, state family, path availability); judged: value with TN "
        "requested / default / not requested, agreement, repeated calls, arguments and circuit unchanged, wrong shapes rejected")
REQUIRED = ["drove TN available", "drove TN unavailable", "drove reject", "drove empty circuit", "drove tensors with new contents"]


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(N, specs, **kw):
        out.append({"N": N, "ops": specs, "psi": gen.state_desc(rng, N, kw.get("psi")), "obs": ["herm", "pauli", "local", "real"][int(rng.integers(4))],
                    "seed": int(rng.integers(1 << 30)), "ps": ["plain", "grad", "t0"][int(rng.integers(3))]})
    for k in gen.EVERY:
        for N in range(1, 5):
            if gen.any_kind_ok(k, N):
                for _ in range(6 if deep else 3):
                    pre = gen.circuit(rng, N, int(rng.integers(0, 3)), gen.TN_ALL, tn=True)
                    mk(N, pre + [gen.op(rng, N, k)])
    for N in range(1, 5):
        mk(N, [])
        for kk in gen.STATE_KINDS:
            mk(N, gen.circuit(rng, N, 3, gen.TN_ALL, tn=True), psi=kk)
    for _ in range(6000 if deep else 700):
        N = int(rng.integers(1, 8 if deep else 7))
        t = rng.random() < 0.6
        mk(N, gen.circuit(rng, N, int(rng.integers(1, 30 if deep else 18)), gen.TN_ALL if t else gen.EVERY, tn=t))
    for N in (7, 8, 9, 10):
        for _ in range(4 if N < 10 else 2):
            t = rng.random() < 0.6
            mk(N, gen.circuit(rng, N, int(rng.integers(1, 6)), gen.TN_ALL if t else gen.EVERY, tn=t), psi="random")
    for n in (40, 70, 110):
        for N in (2, 3, 4):
            for t in (True, False):
                mk(N, gen.circuit(rng, N, n, gen.TN_ALL if t else gen.EVERY, tn=t))
    for N in range(1, 4):
        out.append({"N": N, "reject": 1, "ops": gen.circuit(rng, N, 2, gen.TN_ALL, tn=True)})
    return out


def run(case, rec):
    N = case["N"]
    d = 2 ** N
    if "reject" in case:
        cir = mkcircuit(case["ops"], N)
        e = torch.zeros(1, d) + 0j
        e[0, 0] = 1
        M = torch.eye(d) + 0j
        rec.ev("drove reject")
        for TN in (True, False):
            for bad in (e.view(-1), e.view(-1, 1), torch.cat([e, e], 1), torch.cat([e, e], 0), e[:, :-1]):
                rec.raises("cir_expectation: state of shape %s for N=%d" % (tuple(bad.shape), N), lambda: cir.cir_expectation(bad, M, TN=TN))
            for bad in (M[:-1], M[:, :-1], torch.eye(2 * d) + 0j, torch.cat([M, M], 1)):
                rec.raises("cir_expectation: observable of shape %s for N=%d" % (tuple(bad.shape), N), lambda: cir.cir_expectation(e, bad, TN=TN))
        rec.seen("reject", N)
        return
    specs = case["ops"]
    v = gen.state(case["psi"], N)
    M = observable(case["obs"], case["seed"], N)
    cir = mkcircuit(specs, N, np.random.default_rng(case["seed"]), ps=case["ps"])
    x, Mt = tvec(v).view(1, -1), torch.from_numpy(M.copy())
    kx, kM = x.clone(), Mt.clone()
    want = ref.expect(M, ref.evolve(specs, v.astype(complex), N))
    n = sum(len(ref.expand(s)) for s in specs)
    tol = 5e-6 * (1 + 0.05 * n) * (1 + 0.2 * max(0, N - 2))
    tag = "N=%d %s %s %s" % (N, [s["k"] for s in specs], case["obs"], case["psi"]["t"])
    U0 = npy(cir.U())
    av = cir.TN_check()
    rec.ev("drove TN available" if av else "drove TN unavailable")
    if not specs:
        rec.ev("drove empty circuit")
    calls = [("TN=True", {"TN": True}), ("TN=False", {"TN": False}), ("default", {}), ("TN=True again", {"TN": True}), ("TN=False again", {"TN": False})]
    r = np.random.default_rng(case["seed"] + 1)
    vals = []
    for i in r.permutation(len(calls)):
        nm, kw = calls[int(i)]
        e = cir.cir_expectation(x, Mt, **kw)
        rec.ok(torch.is_tensor(e) and e.numel() == 1 and not torch.is_complex(e), "cir_expectation(%s): not a real scalar: %s" % (nm, tag))
        rec.close("cir_expectation(%s): %s" % (nm, tag), npy(e).reshape(()), np.array(want), tol)
        vals.append(float(e.detach()))
    rec.ok(max(vals) - min(vals) <= tol, "cir_expectation: paths or repetitions disagree: %s: %s" % (vals, tag))
    rec.ok(torch.equal(x, kx) and torch.equal(Mt, kM), "cir_expectation modified its arguments: " + tag)
    rec.close("circuit after cir_expectation: " + tag, cir.U(), U0, 1e-6)
    # the caller writes another state and another observable into the same tensors
    for j in range(2):
        v = gen.state({"t": "random", "s": case["seed"] + j}, N)
        x.copy_(tvec(v).view(1, -1))
        if j:
            M = observable("herm", case["seed"] + 3, N)
            Mt.copy_(torch.from_numpy(M))
        want = ref.expect(M, ref.evolve(specs, v.astype(complex), N))
        rec.ev("drove tensors with new contents")
        for TN in (True, False):
            rec.close("cir_expectation with new contents in the same tensors (TN=%s): %s" % (TN, tag),
                      npy(cir.cir_expectation(x, Mt, TN=TN)).reshape(()), np.array(want), tol)
    rec.seen(N, tuple(s["k"] for s in specs), case["obs"], case["psi"]["t"], av)
