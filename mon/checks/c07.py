"""C07: conversions between vector / MPS / tensor and density matrix / MPDO forms."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import tn, tvec, npy, mps_dense, mps_shape_problem
from .c05 import layout, LAYOUTS

PROP = "C07"
REPEAT = 6                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (conversion, N, state or density family, memory layout, drawn instance); judged: the round trip, "
        "the intermediate form and its invariants, rejection of wrong shapes, arguments unchanged")
REQUIRED = ["drove vector round trip", "drove rank-N form", "drove rank-N form of a strided row", "drove density round trip", "drove rank-2N form", "drove reject", "drove basis state", "drove real vector", "drove tensor with new contents", "drove norm other than one", "drove MPS of strided tensors"]


def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    for N in range(1, 13 if deep else 11):
        for k in gen.STATE_KINDS:
            for _ in range((40 if deep else 12) if N < 9 else 4):
                out.append({"m": "vec", "N": N, "psi": gen.state_desc(rng, N, k)})
        for _ in range(20):
            out.append({"m": "vec", "N": N, "psi": gen.state_desc(rng, N, "basis")})
    for N in (12, 13, 14):                      # bonds beyond 32
        for k in ("random", "phase", "bellpair", "sparse", "real"):
            for _ in range(3 if deep else 1):
                out.append({"m": "vec", "N": N, "psi": gen.state_desc(rng, N, k)})
    for N in range(1, 4):
        for b in range(2 ** N):
            out.append({"m": "vec", "N": N, "b": b})
    for N in range(1, 6 if deep else 5):
        for k in gen.DENSITY_KINDS:
            for _ in range(60 if deep else 15):
                out.append({"m": "rho", "N": N, "rho": gen.density_desc(rng, k)})
    for N in ((6, 7) if deep else (5, 6)):      # operator bonds beyond 64
        for k in gen.DENSITY_KINDS:
            for _ in range(4 if deep else 2):
                out.append({"m": "rho", "N": N, "rho": gen.density_desc(rng, k)})
    for N in range(1, 6):
        out.append({"m": "reject", "N": N})
    return out


def viewable(x, N):
    try:
        x.view([2] * N)
        return True
    except RuntimeError:
        return False


def run(case, rec):
    N, m = case["N"], case["m"]
    if m == "vec":
        if "b" in case:
            v = np.zeros(2 ** N, dtype=np.complex64)
            v[case["b"]] = 1
            kind, s = "basis", case["b"]
        else:
            v = gen.state(case["psi"], N)
            kind, s = case["psi"]["t"], case["psi"]["s"]
            if s % 5 == 2:                       # a vector of another norm
                v = (v * np.float32(2.0 ** np.random.default_rng(s).uniform(-2, 2))).astype(np.complex64)
                rec.ev("drove norm other than one")
        T = 3e-6 * (1 + 0.2 * max(0, N - 4)) * max(1.0, float(np.linalg.norm(v)))
        x = tvec(v.copy()).view(1, -1)
        if s % 4 == 0:
            x = layout(v.reshape(1, -1), "sliced", s)
        elif s % 4 == 1:
            x = layout(v.reshape(1, -1), "conj", s)
        elif s % 4 == 2 and np.abs(v.imag).max() == 0:
            x = torch.from_numpy(v.real.copy()).view(1, -1)
            rec.ev("drove real vector")
        keep = x.clone()
        mps = tn.StateVec2MPS(x, N)
        p = mps_shape_problem(mps, N)
        rec.ev("drove vector round trip")
        if rec.ok(p is None, "StateVec2MPS invariant: N=%d %s: %s" % (N, kind, p)):
            rec.close("StateVec2MPS: N=%d %s" % (N, kind), mps_dense(mps), v.astype(complex), T)
            if kind == "basis" and np.abs(v).max() == 1:
                rec.ev("drove basis state")
                b = [t.shape[2] for t in mps]
                rec.ok(all(d == 1 for d in b), "StateVec2MPS: bonds %s for a basis state" % b)
        copy = [t.clone() for t in mps]
        back = tn.MPS2StateVec(mps)
        rec.ok(tuple(back.shape) == (1, 2 ** N), "MPS2StateVec: shape %s" % (tuple(back.shape),))
        rec.close("MPS2StateVec: N=%d %s" % (N, kind), npy(back).reshape(-1), v.astype(complex), T)
        ten = tn.MPS2StateVec(mps, return_sv=False)
        rec.ok(tuple(ten.shape) == (2,) * N, "MPS2StateVec tensor form: shape %s" % (tuple(ten.shape),))
        rec.close("MPS2StateVec(tensor): N=%d %s" % (N, kind), npy(ten).reshape(-1), v.astype(complex), T)
        big = []                                 # the same tensors as slices of larger ones
        for i, t in enumerate(mps):
            e = torch.full(tuple(t.shape) + (3,), 9.0, dtype=t.dtype)
            e[..., 1] = t
            big.append(e[..., 1] if (s + i) % 3 else t)
        rec.ev("drove MPS of strided tensors")
        rec.close("MPS2StateVec of strided tensors: N=%d %s" % (N, kind), npy(tn.MPS2StateVec(big)).reshape(-1), v.astype(complex), T)
        rec.close("MPS2StateVec(tensor) of strided tensors: N=%d %s" % (N, kind), npy(tn.MPS2StateVec(big, return_sv=False)).reshape(-1), v.astype(complex), T)
        rec.ok(len(mps) == len(copy) and all(torch.equal(a, b) for a, b in zip(mps, copy)), "MPS2StateVec: modified its argument")
        rec.ok(torch.equal(x, keep), "StateVec2MPS: modified its argument")
        if viewable(x, N):
            if not x.is_contiguous():
                rec.ev("drove rank-N form of a strided row")
            t = tn.MatrixProductState(x, N)
            rec.ev("drove rank-N form")
            rec.ok(tuple(t.shape) == (2,) * N, "MatrixProductState: shape %s" % (tuple(t.shape),))
            rec.close("MatrixProductState: N=%d" % N, npy(t), v.astype(complex).reshape((2,) * N), 0)
        if s % 3 == 0 and N < 11:
            # the caller writes another state into the same tensor and converts again
            v2 = gen.state({"t": ["random", "basis", "real", "ghz", "product"][s % 5], "s": s ^ 5}, N)
            if x.is_complex():
                rec.ev("drove tensor with new contents")
                x.copy_(tvec(v2).view(1, -1))
                mps2 = tn.StateVec2MPS(x, N)
                rec.close("StateVec2MPS of a tensor with new contents: N=%d" % N, mps_dense(mps2), v2.astype(complex), T)
                rec.close("MPS2StateVec after other contents: N=%d" % N, npy(tn.MPS2StateVec(mps2)).reshape(-1), v2.astype(complex), T)
                rec.close("MPS of the former contents: N=%d" % N, mps_dense(mps), v.astype(complex), T)
                for i in range(N):               # tensors of the MPS overwritten in place
                    if mps[i].shape == mps2[i].shape and not mps[i].requires_grad:
                        mps[i] = mps[i].contiguous()
                i = s % N
                mps[i].mul_(-0.5)
                rec.close("MPS2StateVec of an MPS scaled in place: N=%d" % N, npy(tn.MPS2StateVec(mps)).reshape(-1), mps_dense(mps), T)
        rec.seen("vec", N, kind, s)
    elif m == "rho":
        R = gen.density(case["rho"], N)
        lay = LAYOUTS[case["rho"]["s"] % len(LAYOUTS)]
        x = layout(R, lay, case["rho"]["s"])
        if np.abs(R.imag).max() == 0 and case["rho"]["s"] % 2:
            x = x.real
            rec.ev("drove real density matrix")
        rec.ev("drove layout " + lay)
        keep = x.clone()
        mpo = tn.Rho2MPS(x, N)
        rec.ev("drove density round trip")
        rec.ok(len(mpo) == N, "Rho2MPS: %d tensors for %d qubits" % (len(mpo), N))
        back = tn.MPS2Rho(mpo)
        rec.close("MPS2Rho: N=%d %s layout=%s" % (N, case["rho"]["t"], lay), back, R.astype(complex), 3e-6)
        rec.ok(abs(np.trace(npy(back)) - 1) < 1e-5, "MPS2Rho: trace %s" % np.trace(npy(back)))
        t = tn.MatrixProductDensityOperator(x, N)
        rec.ev("drove rank-2N form")
        rec.close("MatrixProductDensityOperator: N=%d" % N, t, R.astype(complex).reshape((2,) * (2 * N)), 0)
        rec.ok(torch.equal(x, keep), "Rho2MPS/MatrixProductDensityOperator: modified the argument")
        if lay == "plain" and x.is_complex():
            R2 = gen.density({"t": "mixed", "s": case["rho"]["s"] ^ 9}, N)
            x.copy_(torch.from_numpy(R2))
            rec.close("MPS2Rho of a matrix with new contents: N=%d" % N, tn.MPS2Rho(tn.Rho2MPS(x, N)), R2.astype(complex), 3e-6)
            rec.close("MatrixProductDensityOperator of a matrix with new contents: N=%d" % N, tn.MatrixProductDensityOperator(x, N),
                      R2.astype(complex).reshape((2,) * (2 * N)), 0)
        rec.seen("rho", N, case["rho"]["t"], case["rho"]["s"], lay)
    else:
        d = 2 ** N
        z = lambda *s: torch.ones(*s) / 2 + 0j
        rec.ev("drove reject")
        for name in ("StateVec2MPS", "MatrixProductState"):
            f = getattr(tn, name)
            for bad in (z(d), z(d, 1), z(1, 2 * d), z(1, d - 1), z(2, d), z(1, d, 1), z(1, d + 1)):
                rec.raises("%s: shape %s for N=%d" % (name, tuple(bad.shape), N), lambda: f(bad, N))
        for name in ("Rho2MPS", "MatrixProductDensityOperator"):
            f = getattr(tn, name)
            for bad in (z(d), z(d, 2 * d), z(2 * d, d), z(2 * d, 2 * d), z(1, d), z(d * d, 1), z(1, d * d), z(1, d, d), z(d - 1, d - 1)):
                rec.raises("%s: shape %s for N=%d" % (name, tuple(bad.shape), N), lambda: f(bad, N))
        rec.seen("reject", N)
