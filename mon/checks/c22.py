"""C22: purity - histories of read-only calls over several live circuits that share operations."""
import random
import numpy as np
import torch
from .. import gen, ref
from ..adapter import Circuit, build, par, npy, tvec, tn, qc, qm, qe, ONEP, tensor_of
from deepquantum.nn.modules import quanv

PROP = "C22"
REPEAT = 2                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (circuits, shared operation objects, sequence of read-only calls); after EVERY call: value equal to that of the same "
        "call on an isolated freshly built circuit, and all caller-owned states, observables, wires and parameters, the random generators, the default "
        "dtype and the gradient mode unchanged")
ACTIONS = ["U", "Urev", "contract", "batch", "expTN", "expU", "measure", "expval", "ptrace", "partial", "partial_old", "grad1", "grad2", "opU", "opdag",
           "info", "mpsconv", "backward", "tncheck", "init", "inner", "conv", "amplitude", "paulienc", "gram"]
CHANGES = ["new state", "new observable", "new density", "new batch", "new list", "params_update", "same tensor"]
REQUIRED = ["drove change " + c for c in CHANGES] + ["drove " + a for a in ACTIONS] + ["drove shared operation", "drove threads", "drove history without gradients", "drove results overwritten by the caller", "drove circuit without operations", "thread switches observed", "judged against the reference", "judged against an isolated circuit"]
TOL = 3e-6


def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    for j in range(4000 if deep else 430):
        N = int(rng.integers(1, 6 if deep else 5)) if j % 43 else 5 + j % 2
        nc = int(rng.integers(2, 5))
        circs = []
        for _ in range(nc):
            t = rng.random() < 0.7
            circs.append(gen.circuit(rng, N, int(rng.integers(1, 6)) if rng.random() < 0.85 else 0, gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.4))
        share = []
        for c in range(1, nc):
            if rng.random() < 0.7:
                a = int(rng.integers(c))
                if not circs[a]:
                    continue
                share.append([c, int(rng.integers(len(circs[c]) + 1)), a, int(rng.integers(len(circs[a])))])
        acts = [[int(rng.integers(nc)), ACTIONS[int(rng.integers(len(ACTIONS)))], int(rng.integers(3))] for _ in range(int(rng.integers(6, 40 if deep else 25)))]
        if rng.random() < 0.5:       # a third of the calls repeat an earlier one; between two calls the caller may change its own objects
            new = []
            for a in acts:
                if rng.random() < 0.3:
                    new.append([int(rng.integers(nc)), "!" + CHANGES[int(rng.integers(len(CHANGES)))], int(rng.integers(3))])
                    if new[:-1] and rng.random() < 0.6:
                        a = [x for x in new if x[1][0] != "!"][-1] if any(x[1][0] != "!" for x in new) else a
                new.append(a)
            acts = new
        out.append({"N": N, "circs": circs, "share": share, "acts": acts, "seed": int(rng.integers(1 << 30)), "ps": ["plain", "t0", "grad"][int(rng.integers(3))]})
    # one operation after the other: evaluate, change its parameters (or the inputs), evaluate again
    for k in gen.EVERY:
        for X in ("U", "contract", "batch", "expTN", "expU", "grad1", "grad2", "opU", "opdag", "measure"):
            for quiet in (0, 1):
                if rng.random() > (1.0 if deep else 0.5 if k in gen.PARAM_KINDS else 0.15):
                    continue
                N = int(rng.integers(3, 5))
                ops = gen.circuit(rng, N, int(rng.integers(0, 3)), gen.TN_ALL, tn=True)
                ops.insert(int(rng.integers(len(ops) + 1)), gen.op(rng, N, k, tn=True))
                acts = [[0, X, 0]]
                for _ in range(int(rng.integers(3, 6))):
                    what = CHANGES[5 + int(rng.integers(2))] if k in gen.PARAM_KINDS and rng.random() < 0.8 else CHANGES[int(rng.integers(len(CHANGES)))]
                    acts += [[0, "!" + what, 0], [0, X, 0]]
                seed = int(rng.integers(1 << 29)) * 6 + (0 if quiet else 2)
                out.append({"N": N, "circs": [ops], "share": [], "acts": acts, "seed": seed, "ps": ["t0", "t0", "grad", "plain"][int(rng.integers(4))]})
    for _ in range(300 if deep else 40):
        ths = []
        for _ in range(int(rng.integers(2, 5))):
            N = int(rng.integers(1, 5))
            nc = int(rng.integers(1, 3))
            t = rng.random() < 0.8
            circs = [gen.circuit(rng, N, int(rng.integers(1, 6)), gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.4) for _ in range(nc)]
            acts = [[int(rng.integers(nc)), READS[int(rng.integers(len(READS)))], int(rng.integers(3))] for _ in range(int(rng.integers(8, 25)))]
            ths.append({"N": N, "circs": circs, "acts": acts, "seed": int(rng.integers(1 << 30)), "ps": ["plain", "t0"][int(rng.integers(2))]})
        out.append({"N": 0, "threads": ths, "common": bool(rng.random() < 0.4), "seed": int(rng.integers(1 << 30))})
    return out


WRITE = [a for a in ACTIONS if a not in ("info", "mpsconv")]     # (those may hand out views)
READS = [a for a in ACTIONS if a not in ("grad1", "grad2", "backward")]


def threads(case, rec):
    """Several threads at work at once, each on circuits of its own, or all of them reading the same circuits."""
    import sys, threading
    ths = case["threads"]
    if case["common"]:
        ths = [dict(ths[0], acts=[[a[0] % len(ths[0]["circs"]), a[1], a[2]] for a in t["acts"]]) for t in ths]
    worlds, cirs, specs, out, log = [], [], [], [], []
    for i, t in enumerate(ths):
        if case["common"] and i:
            worlds.append(worlds[0]), cirs.append(cirs[0]), specs.append(specs[0])
        else:
            w = World(t)
            worlds.append(w), specs.append(t["circs"]), cirs.append([w.make(c, t) for c in t["circs"]])
        out.append([])
    start = threading.Barrier(len(ths))

    def work(i):
        start.wait()
        for n, (c, name, j) in enumerate(ths[i]["acts"]):
            log.append(i)
            try:
                out[i].append(act(worlds[i], cirs[i][c], specs[i][c], name, j))
            except Exception as e:                                        # noqa: BLE001
                out[i].append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(ths))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    rec.ev("drove threads")
    rec.ev("thread switches observed", sum(1 for a, b in zip(log, log[1:]) if a != b))
    for i, t in enumerate(ths):
        memo = {}
        for (c, name, j), got in zip(t["acts"], out[i]):
            tag = "%s of circuit %d input %d in thread %d of %d%s: N=%d %s" % (name, c, j, i, len(ths), " (shared circuits)" if case["common"] else "", t["N"],
                                                                       [[s["k"] for s in x] for x in specs[i]])
            if not rec.ok(not isinstance(got, Exception), "raised %r in threads: %s" % (got, tag)):
                return
            if got is None:
                continue
            truth = oracle(worlds[i], specs[i][c], name, j, memo)
            if truth is None:
                w2 = worlds[i].copy()
                truth = act(w2, w2.make(specs[i][c], t), specs[i][c], name, j)
            n = sum(len(ref.expand(s)) for s in specs[i][c])
            if not rec.close("threads: " + tag, got, truth, 8e-6 * (1 + 0.05 * n) * (1 + (np.abs(truth).max() if truth.size else 0))):
                return
        bad = worlds[i].disturbed()
        rec.ok(bad is None, "threads: changed %s" % bad)
    rec.seen("threads", case["common"], str(log), tuple(tuple(tuple(s["k"] for s in c) for c in x) for x in specs))


def put_data(t, new):
    """Other contents in the same tensor, unseen by autograd's version counter."""
    t.data.copy_(new)


class World(object):
    """Caller-owned inputs and the circuits built from them."""

    def __init__(self, case):
        N = self.N = case["N"]
        d = 2 ** N
        r = np.random.default_rng(case["seed"])
        self.v = [gen.state(gen.state_desc(r, N), N) for _ in range(3)]
        self.psi = [tvec(v) for v in self.v]
        self.row = [p.clone().view(1, -1) for p in self.psi]
        self.ten = [p.clone().reshape([2] * N) for p in self.psi]
        self.bat = [torch.stack([t, self.ten[0]]) for t in self.ten]
        self.M = [torch.from_numpy(gen.hermitian(int(r.integers(1 << 30)), d)) for _ in range(3)]
        self.rho = [torch.from_numpy(gen.density(gen.density_desc(r), N)) for _ in range(3)]
        self.img = [torch.from_numpy(r.uniform(0, 1, size=(1 + i % 2, 1, 2, 3 - i % 2)).astype(np.float32)) for i in range(3)]
        self.dat = [torch.from_numpy((r.normal(size=d) + 1.5 * (i == 0)).astype(np.float32)) for i in range(3)]
        with torch.random.fork_rng():
            self.net = quanv.QuanConv2D(4, 1, 2)
        with torch.no_grad():
            self.net.weight.copy_(torch.from_numpy(r.uniform(-3, 3, 12).astype(np.float32)))
        self.lists = [gen.wires(r, N, int(r.integers(0, N + 1))) for _ in range(3)]
        self.tens = self.psi + self.row + self.ten + self.bat + self.M + self.rho + self.img + self.dat + [self.net.weight]
        self.snap = [t.clone() for t in self.tens]
        self.lsnap = [list(l) for l in self.lists]
        self.params, self.wires = [], []
        self.ps = case["ps"]
        self.k = 0

    def change(self, what, j, cirs, specs, case):
        """The caller changes one of its own objects, in place, between two calls."""
        N = self.N
        self.k += 1
        r = np.random.default_rng([case["seed"], self.k])
        if what == "new state":
            self.v[j] = gen.state(gen.state_desc(r, N), N)
            put = put_data if r.random() < 0.5 else torch.Tensor.copy_
            t = tvec(self.v[j].copy())
            put(self.psi[j], t)
            put(self.row[j], t.view(1, -1))
            put(self.ten[j], t.reshape([2] * N))
        elif what == "new observable":
            put = put_data if r.random() < 0.5 else torch.Tensor.copy_
            put(self.M[j], torch.from_numpy(gen.hermitian(int(r.integers(1 << 30)), 2 ** N)))
        elif what == "new density":
            put = put_data if r.random() < 0.5 else torch.Tensor.copy_
            put(self.rho[j], torch.from_numpy(gen.density(gen.density_desc(r), N)))
        elif what == "new batch":
            self.bat[j].copy_(torch.stack([self.ten[j], self.ten[0]]))
        elif what == "new list":
            self.lists[j][:] = gen.wires(r, N, int(r.integers(0, N + 1)))
            self.lsnap[j] = list(self.lists[j])
        else:
            c = j % len(cirs)
            at = [i for i, s in enumerate(specs[c]) if s.get("p")]
            if not at:
                return
            i = at[int(r.integers(len(at)))]
            s = specs[c][i]
            g = cirs[c].gate[i]
            Q = getattr(g, "params", None)
            if what == "same tensor" and torch.is_tensor(Q) and any(Q is p for p, _ in self.params):
                # the caller's own tensor gets new contents and is given to the operation again
                v = torch.tensor(gen.angles(r, len(s["p"])), dtype=torch.float32).reshape(Q.shape)
                if r.random() < 0.4:
                    v = Q.detach() + float(10 ** r.uniform(-4.5, -1.5))
                with torch.no_grad():
                    (put_data if r.random() < 0.5 else torch.Tensor.copy_)(Q, v)
                s["p"] = [float(x) for x in Q.detach().reshape(-1)]
                g.params_update(Q)
                self.params = [(p, Q.detach().clone() if p is Q else k) for p, k in self.params]
                self.snap = [t.clone() for t in self.tens]
                return
            new = gen.angles(r, len(s["p"]))
            if r.random() < 0.4:                               # a small step
                new = [gen.f32(x + t) for x, t in zip(s["p"], 10 ** r.uniform(-4.5, -1.5) * r.choice([-1, 1], len(s["p"])))]
            P = par(s["k"], new, self.ps)
            s["p"] = [float(x) for x in (torch.as_tensor(P).detach().reshape(-1))]     # (the spec is shared between circuits like the object)
            cirs[c].gate[i].params_update(P)
            self.params.append((P, P.detach().clone() if torch.is_tensor(P) else list(P) if isinstance(P, list) else P))
        self.snap = [t.clone() for t in self.tens]

    def copy(self):
        """Fresh tensors with the present contents."""
        import copy
        w = copy.copy(self)
        w.psi, w.row, w.ten, w.bat, w.M, w.rho, w.img, w.dat = [[t.clone() for t in l] for l in (self.psi, self.row, self.ten, self.bat, self.M, self.rho, self.img, self.dat)]
        w.lists = [list(l) for l in self.lists]
        w.params, w.wires = [], []
        return w

    def make(self, specs, case):
        cir = Circuit(self.N)
        for s in specs:
            P = None
            if s.get("p"):
                P = par(s["k"], s["p"], case["ps"])
                self.params.append((P, P.detach().clone() if torch.is_tensor(P) else list(P) if isinstance(P, list) else P))
            W = s["w"][0] if s["k"] in ref.GATES1 else list(s["w"])
            if isinstance(W, list):
                self.wires.append((W, list(W)))
            cir.add(build(s, self.N, P=P, W=W))
        return cir

    def disturbed(self):
        for t, s in zip(self.tens, self.snap):
            if t.shape != s.shape or not torch.equal(t, s):
                return "a caller-owned state, observable or density matrix"
        for l, s in zip(self.lists, self.lsnap):
            if l != s:
                return "a caller-owned index list (%s -> %s)" % (s, l)
        for w, s in self.wires:
            if w != s:
                return "a caller-owned wire list (%s -> %s)" % (s, w)
        for p, s in self.params:
            if torch.is_tensor(p):
                if not torch.equal(p.detach(), s):
                    return "a caller-owned parameter tensor (%s -> %s)" % (s, p)
            elif p != s:
                return "a caller-owned parameter (%s -> %s)" % (s, p)
        return None


SCRIBBLE = []                                  # set for one call: the caller then writes into what it was given


def owned(w, cir):
    """Storage that is not the result's own: the caller's tensors, and the parameters and matrices of the operations."""
    ts = list(w.tens) + [p for p, _ in w.params] + [getattr(g, a, None) for g in cir.gate for a in ("params", "matrix")]
    return {t.untyped_storage().data_ptr() for t in ts if torch.is_tensor(t)}


def flat(x):
    out = npy(x).reshape(-1)
    if SCRIBBLE and torch.is_tensor(x):
        with torch.no_grad():
            if x.is_contiguous() and x.untyped_storage().data_ptr() not in SCRIBBLE[0]:      # (a swap may return its input, rearranged)
                x.fill_(7.25)
    return out


def act(w, cir, specs, name, j):
    """One read-only call -> complex vector."""
    N = w.N
    if name == "U":
        return flat(cir.U())
    if name == "Urev":
        return flat(cir.U(left_to_right=False))
    if name == "contract":
        return flat(cir.TN_contract_evolution(w.ten[j])) if cir.TN_check() else None
    if name == "batch":
        return flat(cir.TN_contract_evolution(w.bat[j], batch_mod=True)) if cir.TN_check() else None
    if name == "expTN":
        return flat(cir.cir_expectation(w.row[j], w.M[j]))
    if name == "expU":
        return flat(cir.cir_expectation(w.row[j], w.M[j], TN=False))
    if name == "measure":
        return np.concatenate([flat(qm.measure(N, w.psi[j], w.lists[j])), flat(qm.measure(N, w.rho[j])),
                               flat(qm.measure(N, (cir.U() @ w.psi[j]).view(1, -1)))])
    if name == "expval":
        return np.concatenate([flat(qm.expval(w.psi[j], w.M[j])), flat(qm.expval(w.rho[j], w.M[j], rho=True))])
    if name == "ptrace":
        return flat(qm.ptrace(w.rho[j], j % (N + 1), N - j % (N + 1)))
    if name == "partial":
        return flat(qm.partial_trace(w.rho[j], N, w.lists[j]))
    if name == "partial_old":
        return flat(qm.partial_trace_old(w.rho[j], N, w.lists[j]))
    if name == "grad1":
        return flat(qc.parameter_shift(cir, w.row[j], w.M[j]).cal_params_grad())
    if name == "grad2":
        if not cir.TN_check() or not cir.gate:
            return None
        M = build({"k": ["PauliX", "PauliY", "PauliZ"][j], "w": [j % N]}, N)
        p = qc.parameter_shift(cir, w.row[j], w.M[j])
        save, _ = p.save_mid_MPS(M)
        return flat(p.cal_params_grad2(save))
    if name == "opU":
        return np.concatenate([flat(g.U_expand()) for g in cir.gate] or [np.zeros(1, complex)])
    if name == "opdag":
        out = [g.operation_dagger() for g in cir.gate]
        return np.concatenate([flat(d.U_expand()) for d in out if d is not None] or [np.zeros(1, complex)])
    if name == "info":
        out = []
        for g in cir.gate:
            i = g.info()
            out += list(i["contral_lst"]) + list(i["target_lst"])
            if i["params"] is not None:
                out += list(np.real(flat(torch.as_tensor(i["params"]))))
        return np.array(out, dtype=complex)
    if name == "mpsconv":
        m = tn.StateVec2MPS(w.row[j], N)
        return np.concatenate([flat(tn.MPS2StateVec(m)), flat(tn.MPS2StateVec(m))])
    if name == "inner":
        a, b = tn.StateVec2MPS(w.row[j], N), tn.StateVec2MPS(w.row[(j + 1) % 3], N)
        one = tn.MPS_inner_product(a, b)
        two = tn.MPS_inner_product(a, b)
        return np.concatenate([flat(one), flat(two)])
    if name == "backward":
        ps = [g.params for g in cir.gate if getattr(g, "num_params", 0) and torch.is_tensor(g.params) and g.params.requires_grad]
        if not ps:
            return None
        e = cir.cir_expectation(w.row[j], w.M[j], TN=False)
        return np.concatenate([flat(x) for x in torch.autograd.grad(e, ps, retain_graph=True)])
    if name == "tncheck":
        return np.array([complex(bool(cir.TN_check()))])
    if name == "init":
        return flat(cir.state_init())
    if name == "conv":
        return flat(w.net(w.img[j]))
    if name == "amplitude":
        return flat(qe.AmplitudeEncoding(N, w.dat[j]).encoded_state())
    if name == "paulienc":
        e = qe.PauliEncoding(N, w.dat[j][:max(1, N - 1)], w.lists[j], "XYZ"[j])
        return np.concatenate([flat(e.U_expand()), flat(e.TN_contract(w.ten[j]))])
    if name == "gram":
        return flat(qe.gram_encoding(w.dat[j].view(1, -1)))
    raise KeyError(name)


def zs(R, N, sel):
    d = np.real(np.diag(R)).reshape((2,) * N)
    out = []
    for q in (sel or range(N)):
        p = d.sum(axis=tuple(a for a in range(N) if a != q))
        out.append(p[0] - p[1])
    return np.array(out, dtype=complex)


def oracle(w, specs, name, j, memo):
    """The value of a call from the independent reference model (None: no reference for it)."""
    N = w.N
    key = (id(specs), name, j)
    if key in memo:
        return memo[key]
    v, v2 = w.v[j].astype(complex), w.v[(j + 1) % 3].astype(complex)
    M, R = npy(w.snap[12 + j]), npy(w.snap[15 + j])
    ev = lambda x: ref.evolve(specs, x, N)
    r = None
    if name == "U":
        r = ref.circuit_matrix(specs, N)
    elif name == "Urev":
        r = np.eye(2 ** N, dtype=complex)
        for s in specs:
            r = r @ ref.matrix(s, N)
    elif name == "contract":
        r = ev(v)
    elif name == "batch":
        b = npy(w.snap[9 + j]).reshape(2, -1)
        r = np.stack([ev(b[0]), ev(b[1])])
    elif name in ("expTN", "expU"):
        r = np.array([ref.expect(M, ev(v))])
    elif name == "measure":
        o = ev(v)
        r = np.concatenate([zs(np.outer(v, v.conj()), N, w.lsnap[j]), zs(R, N, None), zs(np.outer(o, o.conj()), N, None)])
    elif name == "expval":
        r = np.array([ref.expect(M, v), np.trace(R @ M).real])
    elif name == "ptrace":
        r = ref.ptrace_ref(R, N, list(range(j % (N + 1), N)))
    elif name in ("partial", "partial_old"):
        r = ref.ptrace_ref(R, N, w.lsnap[j])
    elif name in ("grad1", "grad2", "backward"):
        if len(ref.flat_params(specs)) <= 16 and not (name == "backward" and w.ps != "grad"):
            O = ref.op_on([ref.X, ref.Y, ref.Z][j], [j % N], N) if name == "grad2" else M
            r = ref.gradient(lambda sp: ref.expect(O, ref.evolve(sp, v, N)), specs)
    elif name == "opU":
        r = np.concatenate([ref.matrix(s, N).reshape(-1) for s in specs] or [np.zeros(1)])
    elif name == "opdag":
        if not any(s["k"] in ("ring_of_cnot2", "BasicEntangleLayer") for s in specs):
            r = np.concatenate([ref.matrix(s, N).conj().T.reshape(-1) for s in specs] or [np.zeros(1)])
    elif name == "mpsconv":
        r = np.concatenate([v, v])
    elif name == "tncheck":
        if not any("ring" in s["k"] or "Entangle" in s["k"] for s in specs):     # (those only on the whole register: C23's subject)
            r = np.array([float(all(s["k"] in gen.TN_ALL for s in specs))])
    elif name == "inner":
        r = np.array([np.vdot(v2, v)] * 2)
    elif name == "amplitude":
        r = npy(w.snap[21 + j])
        r = r / np.linalg.norm(r)
    elif name == "paulienc":
        E = ref.matrix({"k": "PauliEncoding", "w": list(w.lsnap[j]), "p": [float(x) for x in npy(w.snap[21 + j]).real[:max(1, N - 1)]], "axis": "XYZ"[j]}, N)
        r = np.concatenate([E.reshape(-1), E @ v])
    elif name == "init":
        r = np.eye(2 ** N)[0]
    memo[key] = None if r is None else np.asarray(r, dtype=complex).reshape(-1)
    return memo[key]


def environment():
    return (torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_rng_state().numpy().tobytes(),
            str(np.random.get_state()), str(random.getstate()))


ENV = ["default dtype", "gradient mode", "torch random generator", "numpy random generator", "python random generator"]


def run(case, rec):
    if "threads" in case:
        return threads(case, rec)
    N = case["N"]
    w = World(case)
    specs = [[dict(s) for s in c] for c in case["circs"]]
    # shared objects: circuit c gets, at a position, the very object number o of circuit a
    cirs = [w.make(c, case) for c in specs]
    for c, pos, a, o in case["share"]:
        obj = cirs[a].gate[o]
        new = Circuit(N)
        objs = list(cirs[c].gate)
        if any(x is obj for x in objs):
            continue
        objs.insert(pos, obj)
        for x in objs:
            new.add(x)
        cirs[c] = new
        specs[c].insert(pos, specs[a][o])
        rec.ev("drove shared operation")
    # values of the same calls on isolated, freshly built circuits
    base = {}
    tag = "N=%d circuits %s" % (N, [[s["k"] for s in c] for c in specs])
    done = []
    memo = {}
    for c, name, j in case["acts"]:
        if name[0] == "!":
            w.change(name[1:], j, cirs, specs, case)
            rec.ev("drove change " + name[1:])
            done.append(("", name, j))
            base, memo = {}, {}
            continue
        quiet = name != "backward" and (case["seed"] // 2) % 3 == 0          # the whole history without gradients, as in inference
        write = quiet and name in WRITE and (cirs[c].gate or "batch" != name != "contract") and (case["seed"] // 7) % 2 == 0
        with torch.set_grad_enabled(not quiet):
            env = environment()
            SCRIBBLE[:] = [owned(w, cirs[c])] * bool(write)
            try:
                got = act(w, cirs[c], specs[c], name, j)
            finally:
                del SCRIBBLE[:]
            now = environment()
        if write:
            rec.ev("drove results overwritten by the caller")
        if quiet:
            rec.ev("drove history without gradients")
        if got is None:
            continue
        rec.ev("drove " + name)
        if not cirs[c].gate:
            rec.ev("drove circuit without operations")
        done.append((c, name, j))
        at = "call %d %s(circuit %d, input %d) after %s: %s" % (len(done), name, c, j, done[-4:-1], tag)
        truth = oracle(w, specs[c], name, j, memo)
        if truth is None or case["seed"] % 2:     # (otherwise nothing comes between two calls of the history)
            if (c, name, j) not in base:
                w2 = w.copy()
                base[c, name, j] = act(w2, w2.make(specs[c], case), specs[c], name, j)
            want = base[c, name, j]
            scale = 1 + (np.abs(want).max() if want.size else 0)
            rec.ev("judged against an isolated circuit")
            if not rec.close("%s in a history: %s" % (name, at), got, want, TOL * scale * (3 if name.startswith("grad") or name == "backward" else 1)):
                return
        if truth is not None:
            rec.ev("judged against the reference")
            n = sum(len(ref.expand(s)) for s in specs[c])
            if not rec.close("%s against the reference: %s" % (name, at), got, truth, 8e-6 * (1 + 0.05 * n) * (1 + (np.abs(truth).max() if truth.size else 0))):
                return
        for e, (x, y) in enumerate(zip(env, now)):
            rec.ok(x == y, "%s changed the %s: %s" % (name, ENV[e], at))
        bad = w.disturbed()
        if not rec.ok(bad is None, "%s changed %s: %s" % (name, bad, at)):
            return
    for c, cir in enumerate(cirs):
        rec.close("matrix after the history: circuit %d %s" % (c, tag), cir.U(), ref.circuit_matrix(specs[c], N), 3e-5)
    rec.seen(N, tuple(tuple(s["k"] for s in c) for c in specs), tuple(done), str(case["share"]))
