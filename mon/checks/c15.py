"""C15: measure (Pauli-Z expectations per requested qubit) and expval (dense observables)."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import npy, qm
from .c05 import layout, LAYOUTS

PROP = "C15"
REPEAT = 8                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, input form flat/row/column/density/strided/batched-away, state or density family, qubit selection form "
        "and length, observable family); judged: value, order, count, realness, arguments unchanged, non-unit trace rejected")
FORMS = ["flat", "row", "column", "density"]
SELS = ["default", "None", "emptylist", "int", "list1", "list", "tuple", "range", "full", "rev", "repeat"]
REQUIRED = ["drove " + f for f in FORMS] + ["drove selection " + s for s in SELS] + [
    "drove index 0", "drove expval vector", "drove expval density", "drove reject trace", "drove vector of another norm", "drove tensor with new contents"]
TOL0 = 3e-6


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(N, form, sel, **kw):
        # the requested qubits
        if sel in ("default", "None", "emptylist", "full"):
            w = list(range(N))
        elif sel == "int" or sel == "list1":
            w = [kw["q"] if "q" in kw else int(rng.integers(N))]
        elif sel == "range":
            a = int(rng.integers(N))
            w = list(range(a, int(rng.integers(a + 1, N + 1))))
        elif sel == "rev":
            w = list(range(N))[::-1]
        elif sel == "repeat":
            w = [int(x) for x in rng.integers(0, N, size=N + 1)]
        else:
            w = gen.wires(rng, N, int(rng.integers(1, N + 1)))
        out.append({"N": N, "form": form, "sel": sel, "w": w, "psi": gen.state_desc(rng, N, kw.get("psi")),
                    "rho": gen.density_desc(rng, kw.get("rho")), "obs": ["random", "real", "diag", "pauli", "scaled"][int(rng.integers(5))],
                    "seed": int(rng.integers(1 << 30))})

    NMAX = 6 if deep else 5
    for N in range(1, NMAX + 1):
        for form in FORMS:
            for sel in SELS:
                for _ in range(3 if deep else 2):
                    mk(N, form, sel)
            for q in range(N):
                mk(N, form, "int", q=q)
                mk(N, form, "list1", q=q)
        for k in gen.STATE_KINDS:
            for form in FORMS[:3]:
                mk(N, form, "default", psi=k)
        for k in gen.DENSITY_KINDS:
            for sel in ("default", "list", "int"):
                mk(N, "density", sel, rho=k)
    for _ in range(8000 if deep else 2500):
        N = int(rng.integers(1, (8 if deep else 7)))
        mk(N, FORMS[int(rng.integers(4))], SELS[int(rng.integers(len(SELS)))])
    for N in (7, 8, 9) if not deep else (7, 8, 9, 10):
        for form in FORMS:
            if form == "density" and N > 8:
                continue
            mk(N, form, "default")
            for _ in range(3):
                mk(N, form, SELS[int(rng.integers(len(SELS)))])
                mk(N, form, "list")
    for N in range(1, 5):
        for c in (0.0, 0.5, 0.99, 1.01, 2.0, -1.0, 1.001, 0.999, [0, 1], [0, -1], [1, .4], [1, -.01], [.6, .8], [.921061, .389418], [.999, .001]):
            out.append({"N": N, "scale": c, "rho": gen.density_desc(rng), "seed": int(rng.integers(1 << 30))})
    return out


def observable(kind, seed, N):
    d = 2 ** N
    r = np.random.default_rng(seed)
    if kind == "diag":
        return np.diag(r.normal(size=d)).astype(np.complex64)
    if kind == "pauli":
        return ref.kron_all([ref.PAULI["IXYZ"[int(r.integers(4))]] for _ in range(N)]).astype(np.complex64)
    if kind == "scaled":
        return (gen.hermitian(seed, d) * np.float32(7.0)).astype(np.complex64)
    return gen.hermitian(seed, d, "mix" if kind == "random" else kind)


def run(case, rec):
    N = case["N"]
    d = 2 ** N
    if "scale" in case:
        R = gen.density(case["rho"], N)
        M = torch.from_numpy(gen.hermitian(case["seed"], d))
        z = complex(*case["scale"]) if isinstance(case["scale"], list) else complex(case["scale"])
        bad = torch.from_numpy(R * np.complex64(z))
        if z.imag and case["seed"] % 2:                  # the trace spoilt through a single entry
            b = R.copy()
            b[case["seed"] % d, case["seed"] % d] += np.complex64(z - 1)
            bad = torch.from_numpy(b)
        rec.ev("drove reject trace")
        rec.raises("expval: density matrix of trace %s" % z, lambda: qm.expval(bad, M, rho=True))
        rec.raises("measure: density matrix of trace %s" % z, lambda: qm.measure(N, bad))
        rec.raises("measure one qubit: density matrix of trace %s" % z, lambda: qm.measure(N, bad, 0))
        rec.close("expval of the valid matrix", qm.expval(torch.from_numpy(R), M, rho=True),
                  np.array(np.trace(R.astype(complex) @ npy(M)).real), TOL0)
        rec.seen("reject", N, str(z))
        return
    form, sel, w = case["form"], case["sel"], case["w"]
    sc = 1.0
    if form == "density":
        R = gen.density(case["rho"], N)
        lay = LAYOUTS[case["seed"] % len(LAYOUTS)] if case["seed"] % 2 else "plain"
        x = layout(R, lay, case["seed"])
        rec.ev("drove layout " + lay)
        Rc = R.astype(complex)
        fam = case["rho"]["t"]
    else:
        v = gen.state(case["psi"], N)
        if case["seed"] % 5 == 2:                        # <psi|M|psi> of a vector of any norm
            f = np.float32(2.0 ** (case["seed"] % 401 / 100 - 2))
            v = (v * f).astype(np.complex64)
            sc = max(1.0, float(f) ** 2)
            rec.ev("drove vector of another norm")
        lay = LAYOUTS[case["seed"] % len(LAYOUTS)] if case["seed"] % 2 else "plain"
        x = layout(v.reshape(1, -1) if form == "row" else v.reshape(-1, 1) if form == "column" else v, lay, case["seed"])
        rec.ev("drove layout " + lay)
        vc = v.astype(complex)
        Rc = np.outer(vc, vc.conj())
        fam = case["psi"]["t"]
    keep = x.clone()
    TOL = TOL0 * sc * (1 + 0.2 * max(0, N - 2))
    tag = "N=%d %s %s selection %s=%s" % (N, form, fam, sel, w)
    diag = np.real(np.diag(Rc)).reshape((2,) * N)
    want = []
    for q in w:
        p = diag.sum(axis=tuple(a for a in range(N) if a != q))
        want.append(p[0] - p[1])
    arg = {"default": (), "None": (None,), "emptylist": ([],), "int": (w[0],), "tuple": (tuple(w),),
           "range": (range(w[0], w[0] + len(w)),)}.get(sel, (list(w),))
    snap = list(arg[0]) if arg and isinstance(arg[0], list) else None
    rec.ev("drove " + form)
    rec.ev("drove selection " + sel)
    if sel == "int" and w == [0]:
        rec.ev("drove index 0")
    for again in ("", " (second call)"):
        m = qm.measure(N, x, *arg)
        rec.ok(torch.is_tensor(m) and not torch.is_complex(m), "measure: result not real: " + tag)
        rec.ok(m.numel() == len(w), "measure: %d values for %d requested qubits: %s" % (m.numel(), len(w), tag))
        rec.close("measure: %s%s" % (tag, again), npy(m).reshape(-1), np.array(want), TOL)
    rec.ok(torch.equal(x, keep), "measure modified the state: " + tag)
    if snap is not None:
        rec.ok(arg[0] == snap, "measure modified the index list: " + tag)
    if lay == "plain" and x.is_contiguous():
        # new contents in the same tensor
        if form == "density":
            R2 = gen.density({"t": "mixed", "s": case["seed"]}, N)
        else:
            v2 = gen.state({"t": "random", "s": case["seed"]}, N)
            R2 = np.outer(v2.astype(complex), v2.astype(complex).conj())
        x.copy_(torch.from_numpy(R2 if form == "density" else v2).reshape(x.shape))
        dg = np.real(np.diag(R2.astype(complex))).reshape((2,) * N)
        w2 = [(lambda p: p[0] - p[1])(dg.sum(axis=tuple(a for a in range(N) if a != q))) for q in w]
        rec.ev("drove tensor with new contents")
        rec.close("measure of new contents: %s" % tag, npy(qm.measure(N, x, *arg)).reshape(-1), np.array(w2), TOL)
        x.copy_(keep)
    # expectation of a dense observable
    M = observable(case["obs"], case["seed"], N)
    Mt = torch.from_numpy(M.copy())
    want = np.trace(Rc @ M.astype(complex)).real
    tol = TOL * (8 if case["obs"] == "scaled" else 1)
    if form == "density":
        e = qm.expval(x, Mt, rho=True)
        rec.ev("drove expval density")
    else:
        e = qm.expval(x, Mt) if case["seed"] % 2 else qm.expval(x, Mt, rho=False)
        rec.ev("drove expval vector")
    rec.ok(torch.is_tensor(e) and not torch.is_complex(e), "expval: result not real: " + tag)
    rec.close("expval: %s observable %s" % (tag, case["obs"]), npy(e).reshape(-1), np.array([want]), tol)
    rec.ok(torch.equal(x, keep) and np.array_equal(Mt.numpy(), M), "expval modified its arguments: " + tag)
    Mt.copy_(torch.from_numpy(observable("random", case["seed"] + 1, N)))
    kw = {"rho": True} if form == "density" else {}
    rec.close("expval of new contents: %s" % tag, npy(qm.expval(x, Mt, **kw)).reshape(-1), np.array([np.trace(Rc @ npy(Mt)).real]), TOL)
    rec.seen(N, form, fam, sel, len(w), case["obs"])
