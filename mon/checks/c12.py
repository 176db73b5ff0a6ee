"""C12: gradients from saved forward/backward matrix-product states."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import qc, npy, tvec, build, mps_dense, mps_shape_problem
from . import c11

PROP = "C12"
REPEAT = 2                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, operation kinds in order, Pauli observable and qubit, parameter form, updates before, state family); "
        "judged: every gradient entry against an independent double-precision derivative, the returned final state, purity and restoration")
REQUIRED = ["drove gradient of " + k for k in gen.PARAM_TN] + ["drove after update", "drove requires_grad", "drove gradient object kept over changes", "drove one tensor in several operations of a kind", "drove PauliX", "drove PauliY", "drove PauliZ"]


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(N, specs):
        c = c11.case(rng, N, specs, True)
        c["ps"] = ["plain", "t0", "grad", "nonleaf", "tensors"][int(rng.integers(5))]
        c["M"] = ["PauliX", "PauliY", "PauliZ"][int(rng.integers(3))]
        c["q"] = int(rng.integers(N))
        out.append(c)
    for c in c11.tied(rng, gen.PARAM_TN, 8 if deep else 3):
        mk(c["N"], c["ops"])
        out[-1].update(tie=c["tie"], ps=c["ps"])
    for k in gen.PARAM_TN:
        for N in range(1, 6 if deep else 5):
            if gen.any_kind_ok(k, N):
                for j in range(12 if deep else 5):
                    pre = gen.circuit(rng, N, j % 3, gen.TN_ALL, tn=True)
                    post = gen.circuit(rng, N, int(rng.integers(0, 3)), gen.TN_ALL, tn=True)
                    mk(N, pre + [gen.op(rng, N, k, tn=True)] + post)
    for _ in range(2500 if deep else 260):
        N = int(rng.integers(1, 7 if deep else 6))
        mk(N, gen.circuit(rng, N, int(rng.integers(1, 14 if deep else 9)), gen.TN_ALL, tn=True, pbias=0.4))
    for N in (6, 7, 8) + ((9,) if deep else ()):
        for n in (2, 5, 8):
            mk(N, gen.circuit(rng, N, n, gen.TN_ALL, tn=True, pbias=0.3))
    for N in (1, 2, 3, 4):
        for n in (20, 30) + ((50,) if deep else ()):
            mk(N, gen.circuit(rng, N, n, gen.TN_ALL, tn=True, pbias=0.4))
    return out


def run(case, rec):
    N = case["N"]
    cir, specs, leaves = c11.prepare(case)
    v = gen.state(case["psi"], N)
    M = ref.op_on({"PauliX": ref.X, "PauliY": ref.Y, "PauliZ": ref.Z}[case["M"]], [case["q"]], N).astype(np.complex64)
    x, Mt = tvec(v).view(1, -1), torch.from_numpy(M.copy())
    kx = x.clone()
    U0 = npy(cir.U())
    P0 = [(g.params.detach().clone(), g.params.requires_grad) if s.get("p") else None for g, s in zip(cir.gate, specs)]
    want = ref.gradient(lambda sp: ref.expect(M, ref.evolve(sp, v.astype(complex), N)), specs)
    tag = "N=%d %s M=%s(%d)" % (N, [s["k"] for s in specs], case["M"], case["q"])
    c11.flags(rec, case, specs, None)
    rec.ev("drove " + case["M"])
    ps = qc.parameter_shift(cir, x, Mt)
    oper = build({"k": case["M"], "w": [case["q"]]}, N)
    save, svf = ps.save_mid_MPS(oper)
    rec.close("final state from save_mid_MPS: " + tag, npy(svf).reshape(-1), ref.evolve(specs, v.astype(complex), N), 1.2e-5)
    snap = {k: [t.detach().clone() for t in m] for k, m in save.items()}
    g = ps.cal_params_grad2(save)
    rec.close("saved-state gradient: " + tag, npy(g).reshape(-1), want, 1.5e-5)
    same = set(save) == set(snap) and all(len(save[k]) == len(snap[k]) and all(torch.equal(a.detach(), b) for a, b in zip(save[k], snap[k])) for k in snap)
    rec.ok(same, "cal_params_grad2 modified the saved states: " + tag)
    c11.restored(rec, cir, U0, P0, specs, case, tag, "cal_params_grad2")
    rec.ok(torch.equal(x, kx), "save_mid_MPS/cal_params_grad2 modified the initial state: " + tag)
    if case["seed"] % 3 == 0:
        rec.close("saved-state gradient repeated: " + tag, npy(ps.cal_params_grad2(save)).reshape(-1), want, 1.5e-5)
        save2, _ = ps.save_mid_MPS(oper)
        rec.close("saved-state gradient from fresh saved states: " + tag, npy(ps.cal_params_grad2(save2)).reshape(-1), want, 1.5e-5)
    c11.afterwards(rec, case, cir, specs, leaves, want, v, M, tag)
    if case["seed"] % 5 < 2 and N < 6 and len(specs) < 14:
        for what, sp, _, v2, _ in c11.changes(rec, case, cir, specs, x, Mt, v, None):
            f = lambda q: ref.expect(M, ref.evolve(q, v2.astype(complex), N))
            save, svf = ps.save_mid_MPS(oper)
            rec.close("final state by the same object after %s: %s" % (what, tag), npy(svf).reshape(-1), ref.evolve(sp, v2.astype(complex), N), 1.2e-5)
            rec.close("saved-state gradient by the same object after %s: %s" % (what, tag), npy(ps.cal_params_grad2(save)).reshape(-1), ref.gradient(f, sp), 1.5e-5)
    rec.seen(N, tuple(s["k"] for s in specs), case["M"], case["q"], case["ps"], len(case["upd"]), case["psi"]["t"])
