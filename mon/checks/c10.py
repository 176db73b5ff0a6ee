"""C10: params_update is equivalent to constructing anew, over arbitrary update histories."""
import copy
import numpy as np
import torch
from .. import gen, ref
from ..adapter import build, par, mps_of, mps_dense, tensor_of, npy, ONEP, Circuit

PROP = "C10"
REPEAT = 2                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (kind, N, wires, sequence of forms in which parameters were given at construction and at each "
        "update); after every update the object is judged against the reference with the new values, bystanders against the old ones")
REQUIRED = ["drove update " + k for k in gen.PARAM_KINDS] + ["drove bystander", "drove update inside circuit", "drove small step",
                                                               "drove update of an adjoint", "drove update of a deep copy"]
F1 = ["float", "int", "t0", "grad", "nonleaf", "np64", "param", "own", "same tensor"]
FV = ["list", "tensor", "grad", "nonleaf", "strided", "tensors", "nplist", "param", "own", "same tensor"]
TOL = 4e-6


def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    for k in gen.PARAM_KINDS:
        fs = F1 if k in ONEP else FV
        ini = [f for f in fs if f not in ("own", "same tensor")]
        todo = [(a, [b]) for a in ini for b in fs]
        todo += [(ini[int(rng.integers(len(ini)))], ["t0" if k in ONEP else "tensor", "same tensor", "same tensor"]) for _ in range(3)]
        todo += [(ini[int(rng.integers(len(ini)))], [fs[int(rng.integers(len(fs)))] for _ in range(int(rng.integers(0, 6) if rng.random() < 0.95 else rng.integers(10, 17)))])
                 for _ in range(400 if deep else 110)]
        for first, forms in todo:
            lo = max(gen.nw(k) or (2 if k == "BasicEntangleLayer" else 1), 1)
            N = int(rng.integers(lo, lo + (4 if deep else 3))) if rng.random() < 0.93 else int(rng.integers(5, 9))
            s = gen.op(rng, N, k)
            n = len(s["p"])
            hist = [gen.angles(rng, n) for _ in forms]
            if first == "int":
                s["p"] = [float(int(rng.integers(-5, 6)))]
            hist = [[float(int(rng.integers(-5, 6)))] if f == "int" else h for f, h in zip(forms, hist)]
            out.append({"N": N, "s": s, "first": first, "forms": forms, "hist": hist, "psi": gen.state_desc(rng, N)})
        for a in (ini[0], ini[int(rng.integers(len(ini)))]) if not deep else ini * 3:   # many small steps, as in training
            lo = max(gen.nw(k) or (2 if k == "BasicEntangleLayer" else 1), 1)
            N = int(rng.integers(lo, lo + 2))
            s = gen.op(rng, N, k)
            forms = [[f for f in fs if f not in ("own", "int")][int(rng.integers(len(fs) - 2 if "int" in fs else len(fs) - 1))] for _ in range(6)]
            if rng.random() < 0.5:
                forms = ["same tensor" if i % 3 else forms[0] for i in range(6)]
            p, hist = s["p"], []
            for _ in forms:
                q = list(p)
                for i in range(len(q)) if rng.random() < 0.5 else [int(rng.integers(len(q)))]:
                    q[i] = gen.near(rng, q[i])
                hist.append(q)
                p = q if rng.random() < 0.8 else p
            if a == "int":
                a = "float"
            out.append({"N": N, "s": s, "first": a, "forms": forms, "hist": hist, "psi": gen.state_desc(rng, N), "small": 1})
    return out


def judge(op, s, N, v, rec, tag):
    k = s["k"]
    M = ref.matrix(s, N)
    if s["p"] and int(abs(s["p"][0]) * 1e4) % 2:
        with torch.no_grad():
            rec.close("U_expand without gradients: " + tag, op.U_expand(), M, TOL)
    rec.close("U_expand: " + tag, op.U_expand(), M, TOL)
    if op.supportTN:
        with torch.no_grad():
            rec.close("TN_operation: " + tag, mps_dense(op.TN_operation(mps_of(v, N))), M @ v.astype(complex), 1.2e-5)
            rec.close("TN_contract: " + tag, npy(op.TN_contract(tensor_of(v, N))).reshape(-1), M @ v.astype(complex), TOL)
            x = np.stack([v, v[::-1], v])
            t = op.TN_contract(torch.from_numpy(x).reshape([3] + [2] * N), batch_mod=True)
            rec.close("TN_contract batch: " + tag, npy(t).reshape(3, -1), (M @ x.T.astype(complex)).T, TOL)
    if k != "BasicEntangleLayer":
        rec.close("adjoint: " + tag, op.operation_dagger().U_expand(), M.conj().T, TOL)
    want = np.array(s["p"])
    tolp = 1e-6 * (1 + np.max(np.abs(want)))
    for nm, p in (("params", op.params), ("info params", op.info()["params"])):
        if torch.is_tensor(p):
            rec.close("%s: %s" % (nm, tag), npy(p).reshape(-1), want, tolp)
        else:
            rec.close("%s: %s" % (nm, tag), np.array(p, dtype=complex).reshape(-1), want, tolp)
    rec.ok(op.num_params == len(want), "num_params: %s is %s" % (tag, op.num_params))
    if hasattr(op, "matrix"):
        loc = ref.matrix({**s, "w": list(range(len(s["w"])))}, len(s["w"]))
        rec.close("matrix: " + tag, op.matrix, loc, TOL)


def run(case, rec):
    N, s, k = case["N"], dict(case["s"]), case["s"]["k"]
    v = gen.state(case["psi"], N)
    P = par(k, s["p"], case["first"])
    op = build(s, N, P=P)
    twin = build(s, N, P=P)                  # shares the parameter object
    other = build(s, N, case["first"])
    cir = Circuit(N)
    pre = gen.circuit(np.random.default_rng(case["psi"]["s"]), N, 2, [x for x in gen.EVERY])
    cir.add(build(pre[0], N))
    cir.add(op)
    cir.add(build(pre[1], N))
    s0 = dict(s)
    last = None
    tag = "%s N=%d wires=%s" % (k, N, s["w"])
    judge(op, s, N, v, rec, tag + " fresh(%s)" % case["first"])
    for i, (f, p) in enumerate(zip(case["forms"], case["hist"])):
        if f == "own":                           # its own parameters
            op.params_update(op.params)
            p = s["p"]
        elif f == "same tensor" and last is not None:        # the tensor it was given before, with other contents
            with torch.no_grad():
                (last.data if i % 2 else last).copy_(torch.tensor(p, dtype=torch.float32).reshape(last.shape))
            op.params_update(last)
        else:
            Q = par(k, p, "t0" if f == "same tensor" else f)
            last = Q if torch.is_tensor(Q) and Q.is_leaf and f != "strided" else None
            op.params_update(Q)
        s = {**s, "p": p}
        rec.ev("drove update " + k)
        if case.get("small"):
            rec.ev("drove small step")
        judge(op, s, N, v, rec, tag + " update %d (%s after %s)" % (i, f, case["first"] if i == 0 else case["forms"][i - 1]))
        rec.close("circuit with updated operation: " + tag, cir.U(), ref.circuit_matrix([pre[0], s, pre[1]], N), 2e-5)
        rec.ev("drove update inside circuit")
    if case["forms"]:
        M0 = ref.matrix(s0, N)
        rec.ev("drove bystander")
        rec.close("object sharing the parameters after update of another: " + tag, twin.U_expand(), M0, TOL)
        rec.close("independent object after update of another: " + tag, other.U_expand(), M0, TOL)
        if twin.supportTN:
            rec.close("object sharing the parameters, contraction: " + tag,
                      npy(twin.TN_contract(tensor_of(v, N))).reshape(-1), M0 @ v.astype(complex), TOL)
    if case["psi"]["s"] % 2:
        relatives(op, s, N, v, rec, tag, case)
    rec.seen(k, N, tuple(s["w"]), case["first"], tuple(case["forms"]))


def relatives(op, s, N, v, rec, tag, case):
    """Operations made from this one (its adjoint, a deep copy) are objects of their own."""
    k = s["k"]
    r = np.random.default_rng(case["psi"]["s"])
    q = gen.angles(r, len(s["p"]))
    forms = [f for f in (F1 if k in ONEP else FV) if f not in ("own", "same tensor", "int")]
    f = forms[int(r.integers(len(forms)))]
    kin = []
    if k != "BasicEntangleLayer":
        d = op.operation_dagger()
        kd = type(d).__name__
        if kd in gen.PARAM_KINDS:
            kin.append((d, {**s, "k": kd, "p": q, "w": [d.wires] if isinstance(d.wires, int) else [int(x) for x in d.wires]}, "adjoint", ref.matrix(s, N).conj().T))
    try:
        kin.append((copy.deepcopy(op), {**s, "p": q}, "deep copy", ref.matrix(s, N)))
    except RuntimeError:                         # torch copies only leaves
        pass
    for o, so, what, M in kin:
        rec.close("%s: %s" % (what, tag), o.U_expand(), M, TOL)
        o.params_update(par(so["k"], q, f))
        rec.ev("drove update of an adjoint" if what == "adjoint" else "drove update of a deep copy")
        judge(o, so, N, v, rec, "%s updated (%s) of %s" % (what, f, tag))
        judge(op, s, N, v, rec, "%s after update of its %s" % (tag, what))
    p = gen.angles(r, len(s["p"]))
    op.params_update(par(k, p, f))
    judge(op, {**s, "p": p}, N, v, rec, "%s updated (%s) after its adjoint and copy" % (tag, f))
    for o, so, what, M in kin:
        rec.close("%s after update of the original: %s" % (what, tag), o.U_expand(), ref.matrix(so, N), TOL)
