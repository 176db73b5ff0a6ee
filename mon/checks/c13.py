"""C13: back-propagation through every differentiable route."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import qc, qm, qe, npy, tvec, par, add_to, Circuit, ONEP, build

PROP = "C13"
REPEAT = 2                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (route, N, operation kinds in order, updates before, leaf layout); judged: every entry of every leaf's "
        ".grad against the double-precision derivative of an independent simulator")
ROUTES = ["U", "Urev", "state", "contract", "batch", "measure", "measure_rho", "expect", "input", "shared"]
DATA = ["pauli U", "pauli contract", "pauli batch", "amplitude", "partial_trace", "partial_trace_old", "ptrace", "expval", "expval rho", "observable",
        "inner layers", "initial state", "initial state of a model", "real initial state"]
JOINT = ["expectation", "expval", "density", "partial_trace", "partial_trace_old", "ptrace", "measure", "measure density", "amplitude", "pauli"]
AGAIN = ["amplitude", "pauli"]
SECOND = ["U", "contract", "batch", "measure", "expect", "shared"]
OPTS = ["SGD", "Adam", "add_", "update", "adjoint", "data", "tiny"]
REQUIRED = ["drove second derivative of route " + s for s in SECOND] + ["drove training by " + o for o in OPTS] + ["drove route " + r for r in ROUTES] + ["drove gradient of " + k for k in gen.PARAM_KINDS] + ["drove after update", "drove list of tensors"] + ["drove data route " + d for d in DATA] + ["drove joint route " + j for j in JOINT] + \
    ["drove encoder asked again " + a for a in AGAIN] + ["drove partly trained list"] + ["drove jointly trained " + x for x in ("angles", "input", "observable")]


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(N, specs, route):
        upd = [[i, gen.angles(rng, len(s["p"]))] for i, s in enumerate(specs) if s.get("p") and rng.random() < 0.3]
        out.append({"N": N, "ops": specs, "upd": upd, "route": route, "psi": gen.state_desc(rng, N), "seed": int(rng.integers(1 << 30)),
                    "B": int([1, 2, 3, 4][int(rng.integers(4))] if rng.random() < 0.9 or N > 4 else [6, 9, 17][int(rng.integers(3))])})
    for k in gen.PARAM_KINDS:
        for route in ROUTES:
            if route in ("contract", "batch", "input") and k not in gen.TN_ALL:
                continue
            for N in range(1, 5 if deep else 4):
                if gen.any_kind_ok(k, N):
                    for _ in range(4 if deep else 1):
                        pre = gen.circuit(rng, N, 1, gen.TN_ALL, tn=True)
                        post = gen.circuit(rng, N, int(rng.integers(0, 2)), gen.TN_ALL, tn=True)
                        mk(N, pre + [gen.op(rng, N, k, tn=True)] + post, route)
    for how in JOINT:                            # several of angles, input and observable trained together
        for N in range(1, 4):
            for _ in range(25 if deep else 10):
                specs = gen.circuit(rng, N, int(rng.integers(1, 10 - 2 * N)), gen.TN_ALL, tn=True, pbias=0.4)
                specs.insert(int(rng.integers(len(specs) + 1)), gen.op(rng, N, ["rx", "ry", "rz", "u3", "XYZLayer", "XZLayer"][int(rng.integers(6))]))
                k = int(rng.integers(1, N + 1))
                out.append({"joint": how, "N": N, "ops": specs, "psi": gen.state_desc(rng, N), "w": gen.wires(rng, N, k), "n": int(rng.integers(1, N + 1)),
                            "on": [[1, 1, 1], [0, 1, 1], [1, 1, 0], [1, 0, 1], [1, 1, 1]][int(rng.integers(5))], "axis": "XYZ"[int(rng.integers(3))],
                            "seed": int(rng.integers(1 << 30))})
    for how in AGAIN:                            # one encoder, its input changed in place between the rounds of a loop
        for N in range(1, 5):
            for _ in range(20 if deep else 6):
                out.append({"again": how, "N": N, "w": gen.wires(rng, N, int(rng.integers(1, N + 1))), "n": int(rng.integers(1, N + 1)),
                            "axis": "XYZ"[int(rng.integers(3))], "seed": int(rng.integers(1 << 30))})
    for k in gen.PARAM_KINDS:                    # training loops: the same tensors, changed in place between evaluations
        for N in range(1, 5 if deep else 4):
            if gen.any_kind_ok(k, N):
                for opt in OPTS:
                    specs = [gen.op(rng, N, k, tn=True)] + gen.circuit(rng, N, int(rng.integers(0, 3)), gen.TN_ALL if rng.random() < 0.7 else gen.EVERY, tn=True)
                    out.append({"N": N, "ops": [specs[i] for i in rng.permutation(len(specs))], "train": opt, "psi": gen.state_desc(rng, N),
                                "seed": int(rng.integers(1 << 30))})
    for how in DATA:
        for _ in range(150 if deep else 16):
            N = int(rng.integers(1, 6 if deep else 5))
            out.append({"N": N, "data": how, "ops": gen.circuit(rng, N, int(rng.integers(0, 5)), gen.TN_ALL, tn=True), "psi": gen.state_desc(rng, N),
                        "n": int(rng.integers(1, N + 1)), "w": gen.wires(rng, N, int(rng.integers(1, N + 1))), "axis": "XYZ"[int(rng.integers(3))],
                        "seed": int(rng.integers(1 << 30))})
    for _ in range(1500 if deep else 100):
        N = int(rng.integers(1, 5))
        out.append({"N": N, "ops": gen.circuit(rng, N, int(rng.integers(1, 8)), gen.EVERY, pbias=0.6), "train": OPTS[int(rng.integers(len(OPTS)))],
                    "psi": gen.state_desc(rng, N), "seed": int(rng.integers(1 << 30))})
    for k in gen.PARAM_KINDS:
        for route in SECOND:
            if route in ("contract", "batch") and k not in gen.TN_ALL:
                continue
            for _ in range(5 if deep else 1):
                N = int(rng.integers(max(1, gen.nw(k) or (2 if k == "BasicEntangleLayer" else 1)), 4))
                rest = gen.circuit(rng, N, int(rng.integers(0, 3)), gen.TN_ALL, tn=True, pbias=0.5)
                specs = rest + [gen.op(rng, N, k, tn=True)]
                mk(N, [specs[i] for i in rng.permutation(len(specs))], route)
                out[-1]["second"] = 1
    for N in (5, 6) if not deep else (5, 6, 7):  # larger registers: data, training, second derivatives
        for how in DATA:
            for _ in range(2 if N == 5 else 1):
                out.append({"N": N, "data": how, "ops": gen.circuit(rng, N, int(rng.integers(0, 4)), gen.TN_ALL, tn=True), "psi": gen.state_desc(rng, N),
                            "n": int(rng.integers(1, N + 1)), "w": gen.wires(rng, N, int(rng.integers(1, N + 1))), "axis": "XYZ"[int(rng.integers(3))],
                            "seed": int(rng.integers(1 << 30))})
        for opt in OPTS:
            out.append({"N": N, "ops": gen.circuit(rng, N, int(rng.integers(1, 5)), gen.EVERY, pbias=0.3), "train": opt,
                        "psi": gen.state_desc(rng, N), "seed": int(rng.integers(1 << 30))})
        for route in SECOND:
            t = route in ("contract", "batch")
            mk(N, gen.circuit(rng, N, int(rng.integers(1, 4)), gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.3), route)
            out[-1]["second"] = 1
    for N in (5, 6, 7, 8) if not deep else (5, 6, 7, 8, 9):  # larger registers, longer circuits
        for route in ROUTES:
            t = route in ("contract", "batch", "input")
            mk(N, gen.circuit(rng, N, int(rng.integers(2, 6)), gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.3), route)
    for N in (1, 2, 3):
        for route in ROUTES:
            t = route in ("contract", "batch", "input")
            mk(N, gen.circuit(rng, N, int(rng.integers(15, 30)), gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.3), route)
    for _ in range(3000 if deep else 400):
        N = int(rng.integers(1, 6 if deep else 5))
        route = ROUTES[int(rng.integers(len(ROUTES)))]
        t = route in ("contract", "batch", "input")
        mk(N, gen.circuit(rng, N, int(rng.integers(1, 14 if deep else 9)), gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.5), route)
    return out


def train(case, rec):
    """A training loop.  The parameter tensors are the same objects throughout, their contents change in
    place; the circuit is rebuilt from them every time (as the models of this library do), or kept and given
    the tensors again with params_update."""
    N, specs, how = case["N"], [dict(s) for s in case["ops"]], case["train"]
    r = np.random.default_rng(case["seed"])
    grad = how in ("SGD", "Adam") or case["seed"] % 3 == 0
    leaves = [None if not s.get("p") else torch.tensor(s["p"][0] if s["k"] in ONEP else s["p"], dtype=torch.float32, requires_grad=grad) for s in specs]
    own = [x for x in leaves if x is not None]
    if not own:
        return
    opt = {"SGD": torch.optim.SGD, "Adam": torch.optim.Adam}.get(how)
    opt = opt(own, lr=0.3) if opt else None
    x = tvec(gen.state(case["psi"], N).copy()).view(1, -1)
    Mt = torch.from_numpy(gen.hermitian(case["seed"], 2 ** N))
    v, M = npy(x).reshape(-1), npy(Mt)
    keep = None
    rec.ev("drove training by " + how)
    n = sum(len(ref.expand(s)) for s in specs)
    tol = 6e-6 * (1 + 0.05 * n)
    for step in range(4):
        if how == "update" and keep is not None:
            cir = keep
            for g, P in zip(cir.gate, leaves):
                if P is not None:
                    g.params_update(P)
        else:
            cir = Circuit(N)
            for s, P in zip(specs, leaves):
                add_to(cir, s, "add" if r.random() < 0.5 else "builder", P=P)
            keep = cir
        tag = "step %d by %s: N=%d %s grad=%s" % (step, how, N, [s["k"] for s in specs], grad)
        W = ref.circuit_matrix(specs, N)
        if step and r.random() < 0.5:
            rec.ev("drove evaluation without gradients")
            with torch.no_grad():
                rec.close("matrix without gradients in a training loop: " + tag, cir.U(), W, tol)
                rec.close("expectation without gradients in a training loop: " + tag, npy(cir.cir_expectation(x, Mt)).reshape(()), np.array(ref.expect(M, W @ v)), tol)
        order = r.permutation(4)
        for a in order:
            if a == 0:
                rec.close("matrix in a training loop: " + tag, cir.U(), W, tol)
            elif a == 1 and cir.TN_check():
                rec.close("contraction in a training loop: " + tag, npy(cir.TN_contract_evolution(x.reshape([2] * N))).reshape(-1), W @ v, tol)
            elif a == 2:
                rec.close("expectation in a training loop: " + tag, npy(cir.cir_expectation(x, Mt)).reshape(()), np.array(ref.expect(M, W @ v)), tol)
            elif a == 3:
                for g, s in zip(cir.gate, specs):
                    if s["k"] in ("ring_of_cnot2", "BasicEntangleLayer"):
                        continue
                    rec.close("adjoint in a training loop: %s: %s" % (s["k"], tag), g.operation_dagger().U_expand(), ref.matrix(s, N).conj().T, tol)
        loss = cir.cir_expectation(x, Mt, TN=False)
        if grad:
            for P in own:
                P.grad = None
            loss.backward()
            g = ref.gradient(lambda sp: ref.expect(M, ref.evolve(sp, v, N)), specs)
            if not rec.ok(all(P.grad is not None for P in own), "a parameter is detached in a training loop: " + tag):
                return
            rec.close("gradient in a training loop: " + tag, np.concatenate([npy(P.grad).reshape(-1) for P in own]), g, 4e-6 * (N + 4))
        with torch.no_grad():
            if opt:
                opt.step()
            elif how == "data":                  # (does not count as an in-place change for autograd)
                for P in own:
                    P.data.copy_(torch.from_numpy(np.asarray(r.uniform(-6, 6, size=tuple(P.shape))).astype(np.float32)))
            elif how == "tiny":
                for P in own:
                    P.data.add_(float(10 ** r.uniform(-3, -2)))
            else:
                for P in own:
                    if how != "adjoint" or step % 2 == 0:
                        P.add_(torch.from_numpy(np.asarray(r.normal(size=tuple(P.shape))).astype(np.float32)))
                    else:
                        P.copy_(torch.from_numpy(np.asarray(r.uniform(-6, 6, size=tuple(P.shape))).astype(np.float32)))
        for s, P in zip(specs, leaves):
            if P is not None:
                s["p"] = [float(z) for z in P.detach().reshape(-1)]
    rec.seen("train", how, N, tuple(s["k"] for s in specs), grad)


def second(case, rec, loss, leaves, f, specs, r, tag, scale):
    """Second derivatives: back-propagation through the back-propagated gradient, in a random direction."""
    rec.ev("drove second derivative of route " + case["route"])
    g = torch.autograd.grad(loss, leaves, create_graph=True)
    n = sum(x.numel() for x in leaves)
    u = r.normal(size=n)
    u = (u / np.linalg.norm(u)).astype(np.float32)
    off, tot = 0, 0
    for x in g:
        tot = tot + (torch.from_numpy(u[off:off + x.numel()]).reshape(x.shape) * x).sum()
        off += x.numel()
    if not rec.ok(tot.requires_grad, "gradient detached, no second derivative: " + tag):
        return
    hv = torch.autograd.grad(tot, leaves, allow_unused=True)
    hv = np.concatenate([np.zeros(P.numel()) if x is None else npy(x).reshape(-1).real for x, P in zip(hv, leaves)])

    def moved(t):
        q, off = [], 0
        for s in specs:
            k = len(s.get("p") or [])
            q.append(dict(s, p=[float(a) + t * float(b) for a, b in zip(s["p"], u[off:off + k])]) if k else s)
            off += k
        return q
    h = 2e-3
    G = [ref.gradient(f, moved(m * h)) for m in (-2, -1, 1, 2)]
    want = (G[0] - 8 * G[1] + 8 * G[2] - G[3]) / (12 * h)
    rec.close("second derivative: " + tag, hv.astype(complex), want.astype(complex), 8e-6 * scale * (1 + len(specs)))
    rec.seen("second", case["N"], case["route"], tuple(s["k"] for s in specs))


def wirtinger(f, x, h=1e-4):
    """torch's convention for the gradient of a real function: df/d(re) + i df/d(im)."""
    g = np.zeros(x.shape, dtype=complex if np.iscomplexobj(x) else float)
    for i in np.ndindex(x.shape):
        for z in ((1, 1j) if np.iscomplexobj(x) else (1,)):
            y = []
            for m in (-2, -1, 1, 2):
                t = x.copy()
                t[i] += m * h * z
                y.append(f(t))
            g[i] += z * (y[0] - 8 * y[1] + 8 * y[2] - y[3]) / (12 * h)
    return g


def data(case, rec):
    """Gradients with respect to what the user feeds in: encoded data, states, density matrices, observables."""
    N, how, specs = case["N"], case["data"], case["ops"]
    d = 2 ** N
    r = np.random.default_rng(case["seed"])
    U = ref.circuit_matrix(specs, N)
    cir = Circuit(N)
    for s in specs:
        add_to(cir, s)
    v = gen.state(case["psi"], N)
    vc = v.astype(complex)
    w = (r.normal(size=d) + 1j * r.normal(size=d)).astype(np.complex64)
    wc = w.astype(complex)
    rec.ev("drove data route " + how)
    tag = "%s N=%d %s wires=%s %d inputs axis %s" % (how, N, [s["k"] for s in specs], case["w"], case["n"], case["axis"])
    if how.startswith("pauli"):
        p = np.array(gen.angles(r, case["n"]))
        leaf = torch.tensor(p, dtype=torch.float32, requires_grad=True)
        e = qe.PauliEncoding(N, leaf, list(case["w"]), case["axis"])
        if how == "pauli U":
            y = cir.U() @ (e.U_expand() @ tvec(v))
        elif how == "pauli contract":
            y = cir.TN_contract_evolution(e.TN_contract(tvec(v).reshape([2] * N))).reshape(-1)
        else:
            y = cir.TN_contract_evolution(e.TN_contract(torch.stack([tvec(v).reshape([2] * N)] * 2), batch_mod=True), batch_mod=True)[1].reshape(-1)
        f = lambda q: float(np.real(wc @ U @ ref.matrix({"k": "PauliEncoding", "w": case["w"], "p": [float(t) for t in q], "axis": case["axis"]}, N) @ vc))
        loss = (torch.from_numpy(w) * y).real.sum()
        x0 = leaf.detach().numpy().astype(float)
    elif how == "amplitude":
        n = int(r.integers(1, d + 1))
        x0 = r.normal(size=n)
        x0[int(r.integers(n))] += 2
        x0 = x0.astype(np.float32).astype(float)
        leaf = torch.tensor(x0, dtype=torch.float32, requires_grad=True)
        y = cir.U() @ qe.AmplitudeEncoding(N, leaf).encoded_state()
        loss = (torch.from_numpy(w) * y).real.sum()

        def f(q):
            t = np.zeros(d, dtype=complex)
            t[:n] = q / np.linalg.norm(q)
            return float(np.real(wc @ U @ t))
    elif how in ("partial_trace", "partial_trace_old", "ptrace", "expval rho"):
        # a unit-trace matrix that depends on the leaf: R + (A - A.T)-like trace-free part
        R = gen.density({"t": "mixed", "s": case["seed"]}, N)
        W = (r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))).astype(np.complex64)
        leaf = torch.from_numpy(R.copy()).requires_grad_(True)
        x0 = R.astype(complex)
        lst = list(case["w"])
        kA = case["n"]
        if how == "expval rho":
            H = gen.hermitian(case["seed"], d)
            loss = qm.expval(leaf, torch.from_numpy(H), rho=True)
            want = H.astype(complex).conj().T
            f = None
        else:
            y = qm.ptrace(leaf, kA, N - kA) if how == "ptrace" else getattr(qm, how)(leaf, N, lst)
            tr = list(range(kA, N)) if how == "ptrace" else lst
            m = 2 ** (N - len(tr))
            Wm = W[:m, :m]
            loss = (torch.from_numpy(Wm.copy()) * y).real.sum()
            # d/dR of Re sum(W * Tr(R)) = conj(W) on the diagonal blocks
            keep = [q for q in range(N) if q not in tr]
            want = np.zeros((d, d), dtype=complex)
            for a in range(d):
                for b in range(d):
                    ba, bb = [(a >> (N - 1 - q)) & 1 for q in range(N)], [(b >> (N - 1 - q)) & 1 for q in range(N)]
                    if all(ba[q] == bb[q] for q in tr):
                        i = int("".join(str(ba[q]) for q in keep) or "0", 2)
                        j = int("".join(str(bb[q]) for q in keep) or "0", 2)
                        want[a, b] = np.conj(Wm[i, j])
            f = None
    elif how == "expval":
        H = gen.hermitian(case["seed"], d)
        leaf = torch.from_numpy(v.copy()).requires_grad_(True)
        x0 = vc
        loss = qm.expval(leaf, torch.from_numpy(H))
        want = 2 * H.astype(complex) @ vc
        f = None
    elif how == "observable":
        H = gen.hermitian(case["seed"], d)
        leaf = torch.from_numpy(H.copy()).requires_grad_(True)
        x0 = H.astype(complex)
        loss = cir.cir_expectation(tvec(v).view(1, -1), leaf, TN=False) if case["seed"] % 2 else qm.expval(torch.from_numpy((U @ vc).astype(np.complex64)), leaf)
        o = U @ vc
        want = np.outer(o, o.conj())
        f = None
    elif "initial state" in how:                 # expectation values of a dense evolution
        H = gen.hermitian(case["seed"], d)
        if how == "initial state":
            x0 = vc
            leaf = torch.from_numpy(v.copy()).view(1, -1).requires_grad_(True)
            x = leaf if case["seed"] % 2 else leaf * 1.0
        elif how == "real initial state":
            x0 = r.normal(size=d).astype(np.float32).astype(float)
            leaf = torch.tensor(x0, dtype=torch.float32, requires_grad=True)
            x = leaf.view(1, -1) + 0j
        else:                                    # made by another circuit
            c2, q = Circuit(N), [float(t) for t in gen.angles(r, 3)]
            x0 = np.array(q, dtype=np.float32).astype(float)
            leaf = torch.tensor(x0, dtype=torch.float32, requires_grad=True)
            c2.u3(leaf, 0)
            if N > 1:
                c2.ring_of_cnot(list(range(N)))
            c2.ry(leaf[1], N - 1)
            x = (c2.U() @ tvec(v)).view(1, -1)
        loss = cir.cir_expectation(x, torch.from_numpy(H.copy()), TN=False)

        def f(q):
            if "model" in how:
                q = ref.evolve([{"k": "u3", "w": [0], "p": list(q)}] + ([{"k": "ring_of_cnot", "w": list(range(N))}] if N > 1 else []) +
                               [{"k": "ry", "w": [N - 1], "p": [q[1]]}], vc, N)
            return ref.expect(H, U @ q.reshape(-1).astype(complex))
    else:                                        # parameters made by a classical network from the data, hybrid training as in the examples
        leaf = torch.tensor(r.normal(size=3), dtype=torch.float32, requires_grad=True)
        x0 = leaf.detach().numpy().astype(float)
        A = r.normal(size=(3 * N, 3)).astype(np.float32)
        p = torch.tanh(torch.from_numpy(A) @ leaf)
        c2 = Circuit(N)
        kind = ["XYZLayer", "YZYLayer", "XZXLayer"][case["seed"] % 3]
        getattr(c2, kind)(list(range(N)), p)
        if N > 1:
            c2.ring_of_cnot(list(range(N)))
        c2.ry(p[0] * 2, N - 1)
        x = tvec(v)
        y = c2.TN_contract_evolution(x.reshape([2] * N)).reshape(-1) if case["seed"] % 2 else (c2.U() @ x.view(-1, 1)).reshape(-1)
        loss = (torch.from_numpy(w) * y).real.sum() + qm.measure(N, y)[0]

        def f(q):
            t = [float(z) for z in np.tanh(A.astype(float) @ q)]
            sp = [{"k": kind, "w": list(range(N)), "p": t}] + ([{"k": "ring_of_cnot", "w": list(range(N))}] if N > 1 else []) + \
                [{"k": "ry", "w": [N - 1], "p": [2 * t[0]]}]
            o = ref.evolve(sp, vc, N)
            return float(np.real(wc @ o)) + ref.expect(ref.op_on(ref.Z, [0], N), o)
    if not rec.ok(loss.requires_grad, "result detached from the data: " + tag):
        return
    loss.backward()
    if f is not None:
        want = wirtinger(f, x0)
    if rec.ok(leaf.grad is not None, "data silently detached: " + tag):
        rec.close("autograd, data: " + tag, npy(leaf.grad).reshape(np.shape(want)), want, 8e-6 * max(1.0, np.abs(want).max()))
    rec.seen("data", how, N, tuple(s["k"] for s in specs), tuple(case["w"]), case["n"])


def joint(case, rec):
    """Angles, input and observable trained together: every one of them gets its own gradient."""
    N, how, specs = case["N"], case["joint"], case["ops"]
    d = 2 ** N
    r = np.random.default_rng(case["seed"])
    on_a, on_x, on_h = case["on"]
    v = gen.state(case["psi"], N)
    lst, kA = sorted(case["w"]), case["n"]
    red = how in ("partial_trace", "partial_trace_old", "ptrace")
    tr = list(range(kA, N)) if how == "ptrace" else lst
    m = N - len(tr) if red else N
    H = gen.hermitian(case["seed"], 2 ** m) if m else np.array([[1.25]], dtype=np.complex64)
    cs = r.normal(size=N).astype(np.float32)
    cir, A = Circuit(N), []
    for s in specs:
        if s.get("p"):
            n, z = len(s["p"]), r.random()
            if not on_a or z < 0.15:             # an operation that is not trained
                P = par(s["k"], s["p"], "plain" if s["k"] in ONEP else "tensor")
                A += [None] * n
            elif z < 0.5 and s["k"] not in ONEP:  # a list in which some angles are trained and others are numbers
                P = [torch.tensor(q, dtype=torch.float32, requires_grad=True) if r.random() < 0.5 else float(np.float32(q)) for q in s["p"]]
                A += [(s, q, ()) if torch.is_tensor(q) else None for q in P]
                rec.ev("drove partly trained list")
            else:
                P = par(s["k"], s["p"], "grad")
                A += [(s, P, i) for i in range(n)]
            add_to(cir, s, "builder", P=P)
        else:
            add_to(cir, s, "builder")
    if how == "amplitude":
        x0 = r.normal(size=int(r.integers(1, d + 1)))
        x0[0] += 2
        x0 = x0.astype(np.float32)
    elif how == "pauli":
        x0 = np.array(gen.angles(r, case["n"]), dtype=np.float32)
    elif red or "density" in how:
        x0 = gen.density({"t": "mixed", "s": case["seed"]}, N)
    else:
        x0 = v
    X = torch.from_numpy(x0.copy()).requires_grad_(bool(on_x))
    Ht = torch.from_numpy(H.copy()).requires_grad_(bool(on_h))
    rec.ev("drove joint route " + how)
    tag = "%s N=%d %s trained: angles %d input %d observable %d" % (how, N, [s["k"] for s in specs], on_a, on_x, on_h)
    wires = list(case["w"])
    if how == "expectation":
        loss = cir.cir_expectation(X.view(1, -1), Ht, TN=False)
    elif how == "expval":
        loss = qm.expval(cir.U() @ X.view(-1, 1), Ht).sum()
    elif how == "measure":
        loss = (qm.measure(N, cir.U() @ X.view(-1, 1)).view(-1) * torch.from_numpy(cs)).sum()
    elif how == "amplitude":
        loss = qm.expval(cir.U() @ qe.AmplitudeEncoding(N, X).encoded_state(), Ht).sum()
    elif how == "pauli":
        loss = qm.expval(cir.U() @ (qe.PauliEncoding(N, X, wires, case["axis"]).U_expand() @ tvec(v).view(-1, 1)), Ht).sum()
    else:
        U = cir.U()
        R = U @ X @ qm.dag(U)
        if how == "density":
            loss = qm.expval(R, Ht, rho=True)
        elif how == "measure density":
            loss = (qm.measure(N, R).view(-1) * torch.from_numpy(cs)).sum()
        else:
            loss = qm.expval(qm.ptrace(R, kA, N - kA) if how == "ptrace" else getattr(qm, how)(R, N, lst), Ht, rho=True)
    known = {}

    def circ(angles):
        key = angles.tobytes()
        if key not in known:
            known.clear()
            sp, off = [], 0
            for s in specs:
                n = len(s.get("p") or ())
                sp.append(dict(s, p=[float(z) for z in angles[off:off + n]]) if n else s)
                off += n
            known[key] = ref.circuit_matrix(sp, N)
        return known[key]
    Z = sum(c * ref.op_on(ref.Z, [q], N) for q, c in enumerate(cs.astype(float)))

    def f(angles, x, h):
        U = circ(angles)
        if "density" in how or red:
            R = U @ x @ U.conj().T
            if how == "measure density":
                return float(np.trace(R @ Z).real)
            return float(np.trace((ref.ptrace_ref(R, N, tr) if red else R) @ h).real)
        if how == "amplitude":
            y = np.zeros(d, dtype=complex)
            y[:x.size] = x / np.linalg.norm(x)
        elif how == "pauli":
            y = ref.matrix({"k": "PauliEncoding", "w": wires, "p": [float(z) for z in x], "axis": case["axis"]}, N) @ v.astype(complex)
        else:
            y = x
        y = U @ y
        return float(np.vdot(y, (Z if how == "measure" else h) @ y).real)
    big = complex if np.iscomplexobj(x0) else float
    a0 = np.array([z for s in specs for z in (s.get("p") or ())], dtype=float)
    x0, h0 = x0.astype(big), H.astype(complex)
    rec.close("joint value: " + tag, npy(loss).reshape(()), np.array(f(a0, x0, h0)), 2e-5 * max(1.0, np.abs(h0).sum(1).max()))
    uses_h = "measure" not in how
    if not (any(A) or on_x or (on_h and uses_h)) or not rec.ok(loss.requires_grad, "joint result detached: " + tag):
        return
    loss.backward()
    tol = 1.5e-5 * max(1.0, float(np.abs(h0).sum(1).max()))
    if any(A):
        rec.ev("drove jointly trained angles")
        g = wirtinger(lambda q: f(q, x0, h0), a0)
        for a, want in zip(A, g):
            if a is None:
                continue
            s, P, i = a
            if rec.ok(P.grad is not None, "joint: angle of %s detached: %s" % (s["k"], tag)):
                got = npy(P.grad)
                rec.close("joint, angle of %s: %s" % (s["k"], tag), np.array(got.reshape(-1)[0 if i == () else i]), np.array(want), tol)
    if on_x:
        rec.ev("drove jointly trained input")
        if rec.ok(X.grad is not None, "joint: input detached: " + tag):
            rec.close("joint, input: " + tag, npy(X.grad), wirtinger(lambda q: f(a0, q, h0), x0), tol)
    if on_h and uses_h:
        rec.ev("drove jointly trained observable")
        if rec.ok(Ht.grad is not None, "joint: observable detached: " + tag):
            rec.close("joint, observable: " + tag, npy(Ht.grad), wirtinger(lambda q: f(a0, x0, q), h0), tol)
    rec.seen("joint", how, N, tuple(s["k"] for s in specs), tuple(case["on"]))


def again(case, rec):
    """The same encoder object evaluated in every round of a training loop of its input."""
    N, how, d = case["N"], case["again"], 2 ** case["N"]
    r = np.random.default_rng(case["seed"])
    wires, ax = list(case["w"]), case["axis"]
    x = r.normal(size=case["n"] if how == "pauli" else int(r.integers(1, d + 1))).astype(np.float32)
    x[0] += 2
    w = (r.normal(size=d) + 1j * r.normal(size=d)).astype(np.complex64)
    X = torch.from_numpy(x.copy()).requires_grad_(True)
    enc = qe.PauliEncoding(N, X, wires, ax) if how == "pauli" else qe.AmplitudeEncoding(N, X)
    rec.ev("drove encoder asked again " + how)

    def f(q):
        if how == "pauli":
            return float(np.real(w.astype(complex) @ ref.matrix({"k": "PauliEncoding", "w": wires, "p": [float(z) for z in q], "axis": ax}, N)[:, 0]))
        return float(np.real(w.astype(complex)[:q.size] @ (q / np.linalg.norm(q))))
    held = []
    for step in range(3):
        tag = "%s N=%d, %d inputs, round %d" % (how, N, x.size, step)
        X.grad = None
        try:
            y = enc.U_expand()[:, 0] if how == "pauli" else enc.encoded_state().reshape(-1)
            loss = (torch.from_numpy(w) * y).real.sum()
            loss.backward()
        except Exception as e:
            rec.fail("encoder asked again raised %s: %s" % (repr(e)[:160], tag))
            return
        q = X.detach().numpy().astype(float)
        rec.close("encoder asked again, value: " + tag, npy(loss).reshape(()), np.array(f(q)), 2e-5)
        if rec.ok(X.grad is not None, "encoder asked again, input detached: " + tag):
            rec.close("encoder asked again, gradient: " + tag, npy(X.grad), wirtinger(f, q), 2e-5)
        for o, c in held:
            rec.ok(torch.equal(o.detach(), c), "a state encoded earlier changed: " + tag)
        held.append((y, y.detach().clone()))
        with torch.no_grad():
            X += torch.from_numpy((.3 * r.normal(size=x.size)).astype(np.float32))
    rec.seen("again", how, N, x.size, tuple(wires), ax)


def run(case, rec):
    if "joint" in case:
        return joint(case, rec)
    if "again" in case:
        return again(case, rec)
    if "train" in case:
        return train(case, rec)
    if "data" in case:
        return data(case, rec)
    N, route = case["N"], case["route"]
    r = np.random.default_rng(case["seed"])
    specs = [dict(s) for s in case["ops"]]
    for i, p in case["upd"]:
        specs[i]["p"] = p
    orig = case["ops"]
    d = 2 ** N
    # leaves: one per operation, or a single shared vector that operations take slices of
    flat = [x for s in specs for x in (s.get("p") or [])]
    shared = torch.tensor(flat, dtype=torch.float32, requires_grad=True) if route == "shared" else None
    cir = Circuit(N)
    leaves, off = [], 0
    for i, s in enumerate(specs):
        P = None
        if s.get("p"):
            n = len(s["p"])
            if shared is not None:
                P = shared[off] if s["k"] in ONEP else shared[off:off + n] if (case["seed"] + i) % 3 else list(shared[off:off + n])
                if isinstance(P, list):
                    rec.ev("drove list of tensors")
            else:
                P = par(s["k"], s["p"], "grad")
            off += n
        updated = any(j == i for j, _ in case["upd"])
        first = par(s["k"], orig[i]["p"], "grad") if updated else P
        add_to(cir, s, "add" if r.random() < 0.5 else "builder", P=first)
        if updated:
            cir.gate[i].params_update(P)
        leaves.append(P)
    v = gen.state(case["psi"], N)
    B = case["B"] if route in ("batch", "input") else 1
    vs = np.stack([v] + [gen.state({"t": "random", "s": case["seed"] + b}, N) for b in range(1, B)])
    w = r.normal(size=(B, d)) + 1j * r.normal(size=(B, d))
    w = w.astype(np.complex64)
    wc = w.astype(complex)
    W = (r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))).astype(np.complex64)
    H = gen.hermitian(case["seed"], d)
    cs = r.normal(size=N).astype(np.float32)
    zs = [ref.op_on(ref.Z, [q], N) for q in range(N)]
    xin = None
    scale = 1.0
    if route in ("U", "Urev"):
        lr = route == "U"
        loss = (torch.from_numpy(W) * cir.U(left_to_right=lr)).real.sum()
        f = lambda sp: float(np.real(np.sum(W.astype(complex) * (ref.circuit_matrix(sp, N) if lr else ref.circuit_matrix(sp[::-1], N)))))
        if not lr:
            f = lambda sp: float(np.real(np.sum(W.astype(complex) * np.linalg.multi_dot([np.eye(d), np.eye(d)] + [ref.matrix(s, N) for s in sp]))))
        scale = d * 4
    elif route == "shared" and case.get("second"):
        loss = cir.cir_expectation(tvec(v).view(1, -1), torch.from_numpy(H.copy()), TN=False)
        f = lambda sp: ref.expect(H, ref.evolve(sp, v.astype(complex), N))
    elif route in ("state", "shared"):
        out = cir.U() @ tvec(v).view(-1, 1)
        loss = (torch.from_numpy(w[0]).view(-1, 1) * out).real.sum() + (out.abs() ** 2 * torch.from_numpy(np.abs(w[0])).view(-1, 1)).sum()
        f = lambda sp: float(np.real(wc[0] @ ref.evolve(sp, v.astype(complex), N)) + np.sum(np.abs(wc[0]) * np.abs(ref.evolve(sp, v.astype(complex), N)) ** 2))
        scale = 8
    elif route in ("contract", "batch", "input"):
        x = torch.from_numpy(vs.copy())
        if route == "input":
            x.requires_grad_(True)
            xin = x
        if route == "contract":
            y = cir.TN_contract_evolution(x[0].reshape([2] * N)).reshape(1, -1)
        else:
            y = cir.TN_contract_evolution(x.reshape([B] + [2] * N), batch_mod=True).reshape(B, -1)
        loss = (torch.from_numpy(w) * y).real.sum()
        f = lambda sp: float(np.real(np.sum(wc * ref.evolve(sp, vs.T.astype(complex), N).T)))
        scale = 8
    elif route in ("measure", "measure_rho"):
        psi = cir.U() @ tvec(v).view(-1, 1)
        m = qm.measure(N, psi if route == "measure" else psi @ psi.conj().T)
        loss = (torch.from_numpy(cs) * m.reshape(-1)).sum()
        f = lambda sp: sum(float(c) * ref.expect(z, ref.evolve(sp, v.astype(complex), N)) for c, z in zip(cs, zs))
        scale = N
    else:
        loss = cir.cir_expectation(tvec(v).view(1, -1), torch.from_numpy(H.copy()), TN=False)
        f = lambda sp: ref.expect(H, ref.evolve(sp, v.astype(complex), N))
    rec.ev("drove route " + route)
    if case["upd"]:
        rec.ev("drove after update")
    tag = "route=%s N=%d %s updates=%s" % (route, N, [s["k"] for s in specs], [i for i, _ in case["upd"]])
    tol = 4e-6 * scale
    if case.get("second") and flat:
        return second(case, rec, loss, [shared] if shared is not None else [P for P in leaves if P is not None], f, specs, r, tag, scale)
    if flat:
        if not rec.ok(loss.requires_grad, "result detached from all parameters: " + tag):
            return
        loss.backward()
        want = ref.gradient(f, specs)
        off = 0
        for i, (s, P) in enumerate(zip(specs, leaves)):
            n = len(s.get("p") or [])
            if not n:
                continue
            rec.ev("drove gradient of " + s["k"])
            if shared is None:
                if rec.ok(P.grad is not None, "parameter of operation %d (%s) silently detached: %s" % (i, s["k"], tag)):
                    rec.close("autograd, operation %d (%s): %s" % (i, s["k"], tag), npy(P.grad).reshape(-1), want[off:off + n], tol)
            off += n
        if shared is not None:
            rec.close("autograd, shared leaf: " + tag, npy(shared.grad), want, tol)
    elif xin is not None:
        loss.backward()
    if xin is not None:
        Um = ref.circuit_matrix(specs, N)
        if rec.ok(xin.grad is not None, "input silently detached: " + tag):
            rec.close("autograd, input: " + tag, npy(xin.grad), np.conj(wc @ Um), tol)
    rec.seen(route, N, tuple(s["k"] for s in specs), len(case["upd"]), B)
