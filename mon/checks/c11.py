"""C11: parameter-shift gradients and restoration of the circuit."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import qc, mkcircuit, build, par, npy, tvec, ONEP, Circuit, add_to

PROP = "C11"
REPEAT = 2                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, operation kinds in order, parameter form, updates before, observable family, state family); judged: "
        "every gradient entry against the double-precision derivative of an independent simulator, its order and count, exact restoration")
OBS = ["herm", "pauli", "local", "real", "zlocal", "zstring", "diag"]
REQUIRED = ["drove gradient of " + k for k in gen.PARAM_KINDS] + ["drove after update", "drove requires_grad", "drove gradient object kept over changes", "drove backward afterwards", "drove one tensor in several operations", "drove one tensor in several operations of a kind",
                                                               "drove TN circuit", "drove dense circuit"] + ["drove observable " + o for o in OBS]


def case(rng, N, specs, tnonly):
    upd = []
    for i, s in enumerate(specs):
        if s.get("p") and rng.random() < 0.3:
            upd.append([i, gen.angles(rng, len(s["p"]))])
    return {"N": N, "ops": specs, "upd": upd, "psi": gen.state_desc(rng, N), "seed": int(rng.integers(1 << 30)),
            "ps": ["plain", "t0", "grad", "t1", "nonleaf", "tensors"][int(rng.integers(6))],
            "obs": OBS[int(rng.integers(len(OBS)))]}


def tied(rng, kinds, n):
    """The very same tensor in several operations of a kind."""
    out = []
    for k in kinds:
        for _ in range(n):
            N = int(rng.integers(max(1, gen.nw(k) or (2 if k == "BasicEntangleLayer" else 1)), 5))
            specs = gen.circuit(rng, N, int(rng.integers(0, 3)), gen.TN_ALL, tn=True)
            first = gen.op(rng, N, k, tn=True)
            specs = specs + [first]
            for _ in range(8):
                s = gen.op(rng, N, k, tn=True)
                if len(s["p"]) == len(first["p"]) and sum(1 for t in specs if t["k"] == k) < 3:
                    specs.append(s)
            if sum(1 for t in specs if t["k"] == k) < 2:
                continue
            c = case(rng, N, [specs[i] for i in rng.permutation(len(specs))], False)
            c["tie"] = k
            c["ps"] = ["t0", "grad", "nonleaf"][int(rng.integers(3))]
            out.append(c)
    return out


def cases(rng, tier, kinds=None, tn=False):
    deep = tier == "thorough"
    out = []
    for k in gen.PARAM_KINDS:
        for N in range(1, 5 if deep else 4):
            if gen.any_kind_ok(k, N):
                for _ in range(10 if deep else 4):
                    pre = gen.circuit(rng, N, 1, gen.TN_ALL, tn=True)
                    post = gen.circuit(rng, N, int(rng.integers(0, 2)), gen.TN_ALL, tn=True)
                    out.append(case(rng, N, pre + [gen.op(rng, N, k)] + post, False))
    for _ in range(2500 if deep else 260):
        N = int(rng.integers(1, 6 if deep else 5))
        t = rng.random() < 0.5
        out.append(case(rng, N, gen.circuit(rng, N, int(rng.integers(1, 12 if deep else 8)), gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.5), t))
    out += tied(rng, gen.PARAM_KINDS, 8 if deep else 3)
    diagonal = ["rz", "u1", "rzz", "cphase", "crz", "PauliZ", "ZXLayer", "XZLayer", "cz"]       # almost everything commutes with the observable
    moving = ["SWAP", "cnot", "ring_of_cnot", "rx", "Hadamard", "HLayer", "u3", "toffoli", "ring_of_cnot_dagger", "multi_control_cnot", "ryy"]
    for _ in range(600 if deep else 90):
        N = int(rng.integers(1, 5))
        t = rng.random() < 0.6
        specs = []
        for _ in range(int(rng.integers(2, 7))):
            ks = [k for k in (diagonal if rng.random() < 0.6 else moving) if k in (gen.TN_ALL if t else gen.EVERY) and gen.any_kind_ok(k, N)]
            specs += gen.circuit(rng, N, 1, ks, tn=t, pbias=0.5)
        c = case(rng, N, specs, t)
        c["obs"] = ["zlocal", "zstring", "diag"][int(rng.integers(3))]
        c["psi"] = gen.state_desc(rng, N, ["zero", "basis", "random", "ghz", "product"][int(rng.integers(5))])
        out.append(c)
    for N in (5, 5, 6, 6, 7, 8):        # larger registers and longer circuits
        for n in (2, 5, 10) if N < 7 else (1, 3):
            t = rng.random() < 0.5
            out.append(case(rng, N, gen.circuit(rng, N, n, gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.5), t))
    for N in (1, 2, 3):
        for n in (20, 35) + ((60,) if deep else ()):
            for _ in range(4 if deep else 2):
                t = rng.random() < 0.5
                out.append(case(rng, N, gen.circuit(rng, N, n, gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.4), t))
    return out


def observable(kind, seed, N):
    r = np.random.default_rng(seed)
    if kind == "pauli":
        M = ref.kron_all([[ref.X, ref.Y, ref.Z, ref.I2][int(r.integers(4))] for _ in range(N)])
    elif kind == "zlocal":
        M = ref.op_on(ref.Z, [int(r.integers(N))], N)
    elif kind == "zstring":
        M = ref.kron_all([[ref.Z, ref.Z, ref.I2][int(r.integers(3))] for _ in range(N)])
    elif kind == "diag":
        M = np.diag(r.normal(size=2 ** N)).astype(complex)
    elif kind == "local":
        q = int(r.integers(N))
        M = ref.op_on([ref.X, ref.Y, ref.Z][int(r.integers(3))], [q], N)
    else:
        M = gen.hermitian(seed, 2 ** N, "real" if kind == "real" else "mix")
    return M.astype(np.complex64)


def prepare(case):
    """Circuit with leaves, after the updates -> (circuit, specs, leaves)."""
    N = case["N"]
    r = np.random.default_rng(case["seed"])
    cir = Circuit(N)
    specs = [dict(s) for s in case["ops"]]
    leaves = []
    for s in specs:
        P = None
        if s.get("p"):
            P = par(s["k"], s["p"], case["ps"])
            if case["seed"] % 4 == 0 and torch.is_tensor(P):         # one tensor given to several operations
                twin = [L for L, t in zip(leaves, specs) if torch.is_tensor(L) and len(t["p"]) == len(s["p"]) and L.shape == P.shape]
                if twin:
                    P = twin[-1]
                    s["p"] = [float(x) for x in P.detach().reshape(-1)]
        add_to(cir, s, "add" if r.random() < 0.5 else "builder", P=P)
        leaves.append(P)
    for i, p in case["upd"]:
        P = par(specs[i]["k"], p, case["ps"])
        cir.gate[i].params_update(P)
        specs[i]["p"] = p
        leaves[i] = P
    if case.get("tie"):
        own = [i for i, s in enumerate(specs) if s["k"] == case["tie"]]
        p = [float(x) for x in specs[own[0]]["p"]]
        P = par(case["tie"], p, case["ps"])
        for i in own:
            if len(specs[i]["p"]) == len(p):
                cir.gate[i].params_update(P)
                specs[i]["p"], leaves[i] = p, P
    return cir, specs, leaves


def flags(rec, case, specs, cir):
    for s in specs:
        if s.get("p"):
            rec.ev("drove gradient of " + s["k"])
    if case["upd"]:
        rec.ev("drove after update")
    if case.get("tie"):
        rec.ev("drove one tensor in several operations of a kind")
    if case["ps"] in ("grad", "nonleaf", "tensors"):
        rec.ev("drove requires_grad")
    if cir is not None:
        rec.ev("drove TN circuit" if cir.TN_check() else "drove dense circuit")


def restored(rec, cir, U0, P0, specs, case, tag, name):
    rec.close("circuit matrix after %s: %s" % (name, tag), cir.U(), U0, 1e-6)
    for i, s in enumerate(specs):
        if s.get("p"):
            p = cir.gate[i].params
            same = torch.is_tensor(p) and torch.equal(p.detach(), P0[i][0]) and p.requires_grad == P0[i][1]
            rec.ok(same, "parameters after %s: %s operation %d (%s) is %s, was %s" % (name, tag, i, s["k"], p, P0[i]))


def changes(rec, case, cir, specs, x, Mt, v, M):
    """The caller changes things between two computations by the same gradient object."""
    N = case["N"]
    r = np.random.default_rng(case["seed"] ^ 77)
    sp = [dict(s) for s in specs]
    for what in r.permutation(["update", "new state", "new observable", "longer circuit"]):
        rec.ev("drove gradient object kept over changes")
        if what == "update":
            for i, s in enumerate(sp):
                if s.get("p") and r.random() < 0.6:
                    s["p"] = gen.angles(r, len(s["p"]))
                    cir.gate[i].params_update(par(s["k"], s["p"], case["ps"]))
        elif what == "new state":
            v = gen.state(gen.state_desc(r, N), N)
            x.copy_(tvec(v).view(1, -1))
        elif what == "new observable":
            if M is not None:
                M = observable(case["obs"], int(r.integers(1 << 30)), N)
                Mt.copy_(torch.from_numpy(M))
        else:
            new = gen.circuit(r, N, 1, gen.TN_ALL, tn=True, pbias=0.7)
            for s in new:
                add_to(cir, s, P=par(s["k"], s["p"], case["ps"]) if s.get("p") else None)
            sp += new
        yield str(what), sp, x, v, M


def run(case, rec):
    N = case["N"]
    cir, specs, leaves = prepare(case)
    v = gen.state(case["psi"], N)
    M = observable(case["obs"], case["seed"], N)
    x, Mt = tvec(v).view(1, -1), torch.from_numpy(M.copy())
    kx, kM = x.clone(), Mt.clone()
    U0 = npy(cir.U())
    P0 = [(g.params.detach().clone(), g.params.requires_grad) if s.get("p") else None for g, s in zip(cir.gate, specs)]
    f = lambda sp: ref.expect(M, ref.evolve(sp, v.astype(complex), N))
    want = ref.gradient(f, specs)
    tag = "N=%d %s" % (N, [s["k"] for s in specs])
    flags(rec, case, specs, cir)
    rec.ev("drove observable " + case["obs"])
    ps = qc.parameter_shift(cir, x, Mt)
    g = ps.cal_params_grad()
    rec.close("parameter-shift gradient: " + tag, npy(g).reshape(-1), want, 8e-6)
    restored(rec, cir, U0, P0, specs, case, tag, "cal_params_grad")
    rec.ok(torch.equal(x, kx) and torch.equal(Mt, kM), "cal_params_grad modified state or observable: " + tag)
    if case["seed"] % 3 == 0:
        rec.close("parameter-shift gradient repeated: " + tag, npy(ps.cal_params_grad()).reshape(-1), want, 8e-6)
    afterwards(rec, case, cir, specs, leaves, want, v, M, tag)
    if case["seed"] % 5 < 2 and N < 5 and len(specs) < 12:
        M2 = M
        for what, sp, x2, v2, M2 in changes(rec, case, cir, specs, x, Mt, v, M):
            want = ref.gradient(lambda q: ref.expect(M2, ref.evolve(q, v2.astype(complex), N)), sp)
            rec.close("parameter-shift gradient by the same object after %s: %s" % (what, tag), npy(ps.cal_params_grad()).reshape(-1), want, 8e-6)
            if cir.gate:
                rec.close("circuit matrix after that: " + tag, cir.U(), ref.circuit_matrix(sp, N), 2e-5)
    rec.seen(N, tuple(s["k"] for s in specs), case["ps"], len(case["upd"]), case["obs"], case["psi"]["t"])


def afterwards(rec, case, cir, specs, leaves, want, v, M, tag):
    """The circuit is still differentiable with respect to the original leaves."""
    if case["ps"] == "grad" and any(s.get("p") for s in specs):
        psi = cir.U() @ tvec(v).view(-1, 1)
        e = (psi.conj().view(1, -1) @ torch.from_numpy(M.copy()) @ psi).real.squeeze()
        if not rec.ok(e.requires_grad, "circuit detached from its parameters afterwards: " + tag):
            return
        e.backward()
        rec.ev("drove backward afterwards")
        gs, ws, off = {}, {}, 0
        for P, s in zip(leaves, specs):
            if s.get("p"):
                n = len(s["p"])
                gs[id(P)] = npy(P.grad).reshape(-1) if P.grad is not None else np.full(n, np.nan)
                ws[id(P)] = ws.get(id(P), 0) + want[off:off + n]
                off += n
        if len(gs) < sum(1 for s in specs if s.get("p")):
            rec.ev("drove one tensor in several operations")
        rec.close("backward after gradient computation: " + tag, np.concatenate(list(gs.values())), np.concatenate([ws[i] for i in gs]), 8e-6)
