"""C09: the adjoint of an operation is its inverse, in every evolution mode."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import build, par, mps_of, mps_dense, mps_shape_problem, tensor_of, npy, PSTYLES1, PSTYLESV, ONEP

PROP = "C09"
REPEAT = 5                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (kind, N, wires, parameter form, number of updates before, state family); judged: expanded adjoint, "
        "undoing on MPS and in contraction (both orders), wires, gradients through the adjoint, original unchanged")
REQUIRED = ["drove adjoint " + k for k in gen.EVERY if k not in ("ring_of_cnot2", "BasicEntangleLayer")] + \
    ["drove adjoint after update", "drove gradient through adjoint"] + ["drove gradient through adjoint: " + w for w in ("built", "updated", "model", "twice", "contracted")] + [ "drove adjoint before and after an update"]
TOL = 4e-6


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(N, s):
        k = s["k"]
        st = PSTYLES1 if k in ONEP else PSTYLESV
        st = [x for x in st if x != "t1"]
        out.append({"N": N, "s": s, "ps": st[int(rng.integers(len(st)))] if s.get("p") else "plain",
                    "upd": [gen.angles(rng, len(s["p"])) for _ in range(int(rng.integers(0, 3) if rng.random() < 0.9 else rng.integers(3, 8)))] if s.get("p") else [],
                    "psi": gen.state_desc(rng, N), "ws": "tuple" if rng.random() < .2 and k not in gen.TWOQ_RING else "list"})
    for k in gen.EVERY:
        for N in range(1, 5):
            if not gen.any_kind_ok(k, N):
                continue
            n = gen.nw(k)
            if n:
                for w in gen.all_wire_tuples(N, n):
                    for _ in range(6 if deep else 2):
                        mk(N, gen.gate(rng, N, k, w))
            else:
                for _ in range(20 if deep else 8):
                    mk(N, gen.op(rng, N, k))
        for _ in range(150 if deep else 20):
            N = int(rng.integers(3, 8 if deep else 7))
            mk(N, gen.op(rng, N, k))
    for k in gen.EVERY:                          # large registers
        for N in (7, 8, 9):
            for _ in range(3 if deep else 1):
                if N == 9 and not deep and rng.random() < 0.5:
                    continue
                mk(N, gen.op(rng, N, k))
    return out


def run(case, rec):
    N, s, k = case["N"], dict(case["s"]), case["s"]["k"]
    op = build(s, N, case["ps"], case["ws"])
    for p in case["upd"]:
        if case["psi"]["s"] % 2:                      # an adjoint taken, and used, before the update
            early = op.operation_dagger()
            if early is not None:
                rec.ev("drove adjoint before and after an update")
                E = ref.matrix(s, N).conj().T
                rec.close("adjoint before the update: %s N=%d" % (k, N), early.U_expand(), E, TOL)
                early.operation_dagger()
        op.params_update(par(k, p, case["ps"]))
        s["p"] = p
    M = ref.matrix(s, N)
    before = npy(op.U_expand())
    pb = op.params.detach().clone() if s.get("p") else None
    d = op.operation_dagger()
    if not rec.ok(d is not None and hasattr(d, "U_expand"), "operation_dagger: %s returned %s" % (k, d), key="adjoint-none:" + k):
        return
    rec.ev("drove adjoint " + k)
    if case["upd"]:
        rec.ev("drove adjoint after update")
    tag = "%s N=%d wires=%s updates=%d form=%s" % (k, N, s["w"], len(case["upd"]), case["ps"])
    D = d.U_expand()
    rec.close("adjoint matrix: " + tag, D, M.conj().T, TOL)
    rec.close("adjoint of adjoint: " + tag, d.operation_dagger().U_expand(), M, TOL)
    dw = [d.wires] if isinstance(d.wires, int) else list(d.wires)
    rec.ok(sorted(dw) == sorted(s["w"]), "adjoint wires: %s acts on %s" % (tag, dw))
    rec.ok(d.nqubits == N, "adjoint nqubits: %s" % tag)
    v = gen.state(case["psi"], N)
    with torch.no_grad():
        if getattr(op, "supportTN", False):
            rec.ok(getattr(d, "supportTN", False) is True, "adjoint supportTN: %s" % tag)
            for first, second, nm in ((op, d, "op,adjoint"), (d, op, "adjoint,op")):
                mps = second.TN_operation(first.TN_operation(mps_of(v, N)))
                p = mps_shape_problem(mps, N)
                if rec.ok(p is None, "adjoint on MPS: %s: %s" % (tag, p)):
                    rec.close("adjoint undoes on MPS (%s): %s" % (nm, tag), mps_dense(mps), v.astype(complex), 1.2e-5)
                t = second.TN_contract(first.TN_contract(tensor_of(v, N)))
                rec.close("adjoint undoes in contraction (%s): %s" % (nm, tag), npy(t).reshape(-1), v.astype(complex), TOL)
            mps = d.TN_operation(mps_of(v, N))
            rec.close("adjoint on MPS alone: " + tag, mps_dense(mps), M.conj().T @ v.astype(complex), 1.2e-5)
            x = np.stack([v, v[::-1]])
            t = d.TN_contract(torch.from_numpy(x.copy()).reshape([2] + [2] * N), batch_mod=True)
            rec.close("adjoint in batch contraction: " + tag, npy(t).reshape(2, -1), (M.conj().T @ x.T.astype(complex)).T, TOL)
    rec.close("original after adjoint: " + tag, op.U_expand(), before, 1e-7)
    if pb is not None:
        rec.ok(torch.equal(op.params.detach(), pb), "original parameters after adjoint: %s" % tag)
        if N > 6:
            return rec.seen(k, N, tuple(s["w"]), case["ps"], len(case["upd"]), case["psi"]["t"])
        # the adjoint must stay connected to the parameters
        ways = ["built", "updated", "model", "twice", "contracted"]
        way = ways[case["psi"]["s"] % len(ways)]
        rec.ev("drove gradient through adjoint: " + way)
        tag = way + ": " + tag
        leaf = par(k, s["p"], "t0" if k in ONEP else "tensor").requires_grad_(True)
        if way == "updated":                          # the operation gets its tensor later
            o2 = build(dict(s, p=[gen.f32(x + 1) for x in s["p"]]), N)
            o2.params_update(leaf)
        elif way == "model":                          # parameters computed by something else
            o2 = build(s, N, P=leaf * 1.0)
        else:
            o2 = build(s, N, P=leaf)
        da = o2.operation_dagger()
        if way == "twice":
            da = da.operation_dagger().operation_dagger()
        if way == "contracted" and getattr(da, "supportTN", False):
            eye = torch.eye(2 ** N, dtype=torch.complex64).reshape([2 ** N] + [2] * N)
            D = da.TN_contract(eye, batch_mod=True).reshape(2 ** N, 2 ** N).T
        else:
            D = da.U_expand()
        W = np.random.default_rng(case["psi"]["s"]).normal(size=(2, 2 ** N, 2 ** N)).astype(np.float32)
        Wt = torch.from_numpy(W[0] + 1j * W[1])
        loss = (Wt * D).real.sum()
        rec.ev("drove gradient through adjoint")
        if rec.ok(loss.requires_grad, "adjoint detached from its parameters: %s" % tag):
            loss.backward()
            if rec.ok(leaf.grad is not None, "adjoint detached from its parameters: %s" % tag):
                Wc = (W[0] + 1j * W[1]).astype(complex)
                g = ref.gradient(lambda sp: float(np.real(np.sum(Wc * ref.matrix(sp[0], N).conj().T))), [s])
                rec.close("gradient through adjoint: " + tag, npy(leaf.grad).reshape(-1), g, 4e-6 * 2 ** N)
    rec.seen(k, N, tuple(s["w"]), case["ps"], len(case["upd"]), case["psi"]["t"])
