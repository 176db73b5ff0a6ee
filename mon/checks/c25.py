"""C25: whole training runs.  A monitor watches every step of a hybrid training loop (loss, every gradient entry,
the parameters before and after) against a double-precision model of the same loop."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import qc, qm, qe, npy, tvec, add_to, Circuit, build, ONEP

PROP = "C25"
REPEAT = 4                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (model, N, operation kinds in order, optimiser, source of the gradients, circuit kept or rebuilt); judged: loss and "
        "every gradient entry at every step, loss without gradients, parameters untouched by the evaluation, parameters after the optimiser's steps")
MODELS = ["vqe", "classifier", "born", "reduced", "hybrid", "kernel", "reupload", "siamese"]
SOURCES = ["auto", "shift", "saved", "mixed"]
OPTS = ["SGD", "momentum", "Adam", "LBFGS"]
REQUIRED = ["drove model " + m for m in MODELS] + ["drove gradients from " + s for s in SOURCES] + ["drove optimiser " + o for o in OPTS] + \
    ["drove kept circuit", "drove rebuilt circuit", "drove validation without gradients", "drove checkpoint restored", "drove small steps", "drove minibatch of changing size"]


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(model, src="auto", opt=None):
        N = int(rng.integers(2 if model in ("reduced",) else 1, 5 if deep else 4))
        if rng.random() < 0.06:
            N = int(rng.integers(4, 7))
        t = model in ("classifier", "kernel", "siamese") or src in ("saved", "mixed")
        n = int(rng.integers(1, 7 if deep else 5))
        specs = gen.circuit(rng, N, n, gen.TN_ALL if t else gen.EVERY, tn=t, pbias=0.6)
        if not any(s.get("p") for s in specs):
            specs.append(gen.op(rng, N, "ry"))
        out.append({"model": model, "src": src, "opt": opt or OPTS[int(rng.integers(4))], "N": N, "ops": specs, "psi": gen.state_desc(rng, N),
                    "keep": bool(rng.random() < 0.5), "B": int(rng.integers(1, 4) if rng.random() < 0.9 or N > 3 else rng.integers(4, 8)), "F": int(rng.integers(1, N + 1)), "axis": "XYZ"[int(rng.integers(3))],
                    "w": gen.wires(rng, N, int(rng.integers(1, N + 1))), "steps": 12 if rng.random() < 0.05 and N < 4 and src == "auto" else 6 if deep else 4,
                    "lr": [0.15, 0.15, 0.02, 2e-3, 2e-4][int(rng.integers(5))], "seed": int(rng.integers(1 << 30))})
    for _ in range(60 if deep else 8):
        for m in MODELS:
            for o in OPTS[:3]:
                mk(m, "auto", o)
    for _ in range(60 if deep else 8):
        for s in SOURCES[1:]:
            for o in OPTS[:3]:
                mk("vqe", s, o)
    for _ in range(30 if deep else 3):
        for m in MODELS:
            mk(m, "auto", "LBFGS")
    return out


def setp(specs, vecs):
    """specs with the parameters of `vecs` (one array per parametrised operation)."""
    it = iter(vecs)
    return [dict(s, p=[float(x) for x in np.reshape(next(it), -1)]) if s.get("p") else s for s in specs]


class Model(object):
    """`leaves` (what is trained), `loss()` on the code under test, `f(values)` in double precision."""

    def __init__(self, case):
        self.c, self.N, self.specs = case, case["N"], case["ops"]
        self.r = r = np.random.default_rng(case["seed"])
        N = self.N
        self.leaves = []
        self.q = []                                   # one leaf per parametrised operation
        for s in self.specs:
            if s.get("p"):
                self.q.append(self.leaf(s["p"][0] if s["k"] in ONEP else s["p"]))
        self.psi = gen.state(case["psi"], N)
        self.kept = None
        self.W = r.normal(size=(2, N))
        self.data()

    def leaf(self, x):
        t = torch.tensor(np.asarray(x), dtype=torch.float32, requires_grad=True)
        self.leaves.append(t)
        return t

    def data(self):
        pass

    def batch(self):
        """called at the beginning of every step"""

    def circuit(self, own=None):
        own = self.q if own is None else own
        N, it = self.N, iter(own)
        P = [next(it) if s.get("p") else None for s in self.specs]
        if self.c["keep"] and self.kept is not None:
            for g, p in zip(self.kept.gate, P):
                if p is not None:
                    g.params_update(p)
            return self.kept
        cir = Circuit(N)
        for s, p in zip(self.specs, P):
            add_to(cir, s, "add" if self.r.random() < 0.5 else "builder", P=p)
        self.kept = cir
        return cir

    def x(self):
        return tvec(self.psi).view(1, -1)


class vqe(Model):
    def data(self):
        N = self.N
        if self.c["src"] in ("saved", "mixed"):
            self.ax, self.at = ["PauliX", "PauliY", "PauliZ"][int(self.r.integers(3))], int(self.r.integers(N))
            M = ref.op_on({"PauliX": ref.X, "PauliY": ref.Y, "PauliZ": ref.Z}[self.ax], [self.at], N)
        else:
            M = gen.hermitian(self.c["seed"], 2 ** N)
        self.M = np.asarray(M, dtype=np.complex64)

    def loss(self):
        return self.circuit().cir_expectation(self.x(), torch.from_numpy(self.M.copy()), TN=False)

    def f(self, v):
        return ref.expect(self.M, ref.evolve(setp(self.specs, v), self.psi, self.N))

    def shift(self, src):
        ps = qc.parameter_shift(self.circuit(), self.x(), torch.from_numpy(self.M.copy()))
        if src == "shift":
            g = ps.cal_params_grad()
        else:
            save, _ = ps.save_mid_MPS(build({"k": self.ax, "w": [self.at]}, self.N))
            g = ps.cal_params_grad2(save)
        g = g.detach().reshape(-1).float()
        off = 0
        for P in self.q:
            P.grad = g[off:off + P.numel()].reshape(P.shape).clone()
            off += P.numel()
        return off == g.numel()


class classifier(Model):
    """encode -> circuit on the whole batch -> measure -> linear layer -> squared error, on minibatches"""

    def data(self):
        self.w1 = self.leaf(self.r.normal(size=(2, self.N)))
        self.b1 = self.leaf(self.r.normal(size=2))
        self.batch()

    def batch(self):
        B = int(self.r.integers(1, 4))
        self.X = np.float32(self.r.uniform(-3, 3, size=(B, self.c["F"])))
        if B > 1 and self.r.random() < 0.3:
            self.X[-1] = self.X[0]
        self.Y = np.float32(self.r.normal(size=(B, 2)))

    def encode(self, x, T):
        return qe.PauliEncoding(self.N, torch.from_numpy(x.copy()), list(self.c["w"]), self.c["axis"]).TN_contract(T)

    def loss(self):
        N = self.N
        T = torch.stack([self.encode(x, tvec(self.psi).reshape([2] * N)) for x in self.X])
        out = self.circuit().TN_contract_evolution(T, batch_mod=True)
        z = torch.stack([qm.measure(N, o.reshape(-1)).reshape(-1) for o in out])
        return ((z @ self.w1.T + self.b1 - torch.from_numpy(self.Y)) ** 2).mean()

    def pre(self, x, psi):
        return ref.evolve([{"k": "PauliEncoding", "w": self.c["w"], "p": [float(t) for t in x], "axis": self.c["axis"]}], psi, self.N)

    def f(self, v):
        N, sp = self.N, setp(self.specs, v[:-2])
        z = []
        for x in self.X:
            o = ref.evolve(sp, self.pre(x, self.psi), N)
            p = np.abs(o) ** 2
            z.append([float(np.sum(p.reshape(2 ** q, 2, -1)[:, 0]) - np.sum(p.reshape(2 ** q, 2, -1)[:, 1])) for q in range(N)])
        return float(np.mean((np.array(z) @ v[-2].T + v[-1] - self.Y) ** 2))


class born(Model):
    """learn a probability distribution"""

    def data(self):
        p = self.r.random(2 ** self.N)
        self.t = np.float32(p / p.sum())

    def loss(self):
        y = self.circuit().U() @ self.x().view(-1, 1)
        return ((y.abs() ** 2 - torch.from_numpy(self.t).view(-1, 1)) ** 2).sum()

    def f(self, v):
        o = ref.evolve(setp(self.specs, v), self.psi, self.N)
        return float(np.sum((np.abs(o) ** 2 - self.t) ** 2))


class reduced(Model):
    """amplitude-encoded data -> density matrix -> circuit -> partial trace -> second, smaller circuit -> measurement"""

    def data(self):
        N = self.N
        self.th = self.leaf(self.r.uniform(-3, 3, size=3))
        self.out = sorted(int(q) for q in self.r.permutation(N)[:int(self.r.integers(1, N))])
        self.batch()

    def batch(self):
        d = np.float32(self.r.normal(size=int(self.r.integers(1, 2 ** self.N + 1))))
        d[0] += 1
        self.d = d

    def loss(self):
        N, k = self.N, self.N - len(self.out)
        s = qe.AmplitudeEncoding(N, torch.from_numpy(self.d.copy())).encoded_state().view(-1, 1)
        rho = s @ s.conj().T
        U = self.circuit().U()
        red = qm.partial_trace(U @ rho @ qm.dag(U), N, list(self.out))
        c2 = Circuit(k)
        c2.u3(self.th, k - 1)
        if k > 1:
            c2.cnot([k - 1, 0])
        V = c2.U()
        z = qm.measure(k, V @ red @ qm.dag(V)).reshape(-1)
        return (z * torch.arange(1, k + 1)).sum() + z[0] ** 2

    def f(self, v):
        N, k = self.N, self.N - len(self.out)
        s = np.zeros(2 ** N, dtype=complex)
        s[:len(self.d)] = self.d.astype(float) / np.linalg.norm(self.d.astype(float))
        o = ref.evolve(setp(self.specs, v[:-1]), s, N)
        red = ref.ptrace_ref(np.outer(o, o.conj()), N, self.out)
        sp = [{"k": "u3", "w": [k - 1], "p": [float(t) for t in v[-1]]}] + ([{"k": "cnot", "w": [k - 1, 0]}] if k > 1 else [])
        V = ref.circuit_matrix(sp, k)
        R = V @ red @ V.conj().T
        z = [float(np.real(np.trace(R @ ref.op_on(ref.Z, [q], k)))) for q in range(k)]
        return float(sum((q + 1) * a for q, a in enumerate(z)) + z[0] ** 2)


class hybrid(vqe):
    """all angles made by a classical network from data, one sample after the other through the same circuit"""

    def data(self):
        vqe.data(self)
        self.leaves = []
        n = sum(P.numel() for P in self.q)
        self.shapes = [tuple(P.shape) for P in self.q]
        self.A = self.leaf(self.r.normal(size=(n, 2)))
        self.bias = self.leaf(self.r.normal(size=n))
        self.batch()

    def batch(self):
        self.X = np.float32(self.r.normal(size=(int(self.r.integers(1, 4)), 2)))

    def loss(self):
        tot = 0
        for x in self.X:
            a = torch.tanh(self.A @ torch.from_numpy(x.copy()) + self.bias) * 3
            own, off = [], 0
            for s in self.shapes:
                n = int(np.prod(s))
                own.append(a[off:off + n].reshape(s))
                off += n
            tot = tot + self.circuit(own).cir_expectation(self.x(), torch.from_numpy(self.M.copy()), TN=False)
        return tot

    def f(self, v):
        tot = 0
        for x in self.X:
            a = np.tanh(v[0] @ x.astype(float) + v[1]) * 3
            own, off = [], 0
            for s in self.shapes:
                n = int(np.prod(s))
                own.append(a[off:off + n])
                off += n
            tot += vqe.f(self, own)
        return tot


class kernel(classifier):
    """squared overlaps between all pairs of encoded samples against a target"""

    def data(self):
        self.batch()

    def states(self):
        N = self.N
        for x in self.X:
            T = self.circuit().TN_contract_evolution(self.encode(x, tvec(self.psi).reshape([2] * N)))
            yield self.encode(x, T).reshape(-1)

    def loss(self):
        s = list(self.states())
        t = 0
        for i in range(len(s)):
            for j in range(len(s)):
                t = t + (torch.vdot(s[i], s[j]).abs() ** 2 - float((i + 2 * j) % 3) / 2) ** 2
        return t + torch.vdot(torch.arange(1, len(s[0]) + 1) + 0j, s[0]).real

    def f(self, v):
        sp = setp(self.specs, v)
        s = [self.pre(x, ref.evolve(sp, self.pre(x, self.psi), self.N)) for x in self.X]
        t = 0.0
        for i in range(len(s)):
            for j in range(len(s)):
                t += (abs(np.vdot(s[i], s[j])) ** 2 - float((i + 2 * j) % 3) / 2) ** 2
        return t + float(np.real(np.sum(np.arange(1, len(s[0]) + 1) * s[0])))


class reupload(Model):
    """the same trained angles used several times between encodings of the data, in one circuit"""

    def data(self):
        self.H = gen.hermitian(self.c["seed"], 2 ** self.N)
        self.batch()

    def batch(self):
        self.X = np.float32(self.r.uniform(-3, 3, size=3))

    def loss(self):
        cir = Circuit(self.N)
        for x in self.X:
            cir.rx(torch.tensor(x), 0)
            it = iter(self.q)
            for s in self.specs:
                add_to(cir, s, "builder" if s["w"][0] % 2 else "add", P=next(it) if s.get("p") else None)
        y = cir.U() @ self.x().view(-1, 1)
        return qm.expval(y.reshape(-1), torch.from_numpy(np.array(self.H)))

    def f(self, v):
        sp = setp(self.specs, v)
        o = self.psi
        for x in self.X:
            o = ref.evolve([{"k": "rx", "w": [0], "p": [float(x)]}] + sp, o, self.N)
        return ref.expect(self.H, o)


class siamese(classifier):
    """two circuits with the same trained tensors, one of them adjoint: |<phi|V^dagger U|psi>| and its measurement"""

    def data(self):
        self.batch()

    def loss(self):
        N = self.N
        a = self.circuit().TN_contract_evolution(self.encode(self.X[0], tvec(self.psi).reshape([2] * N)))
        b = Circuit(N)
        it = iter(self.q)
        for s in self.specs:
            add_to(b, s, P=next(it) * 2 if s.get("p") else None)
        b = b.TN_contract_evolution(self.encode(self.X[-1], tvec(self.psi).reshape([2] * N)))
        z = qm.measure(N, a.reshape(-1), 0).reshape(-1)[0] + 2 * qm.measure(N, b.reshape(-1), [N - 1]).reshape(-1)[0]
        return torch.vdot(a.reshape(-1), b.reshape(-1)).real + z

    def f(self, v):
        N = self.N
        a = ref.evolve(setp(self.specs, v), self.pre(self.X[0], self.psi), N)
        b = ref.evolve(setp(self.specs, [2 * np.asarray(t) for t in v]), self.pre(self.X[-1], self.psi), N)
        return float(np.real(np.vdot(a, b))) + ref.expect(ref.op_on(ref.Z, [0], N), a) + 2 * ref.expect(ref.op_on(ref.Z, [N - 1], N), b)


def numgrad(f, vals):
    h, out = 1e-3, []
    for a, v in enumerate(vals):
        g = np.zeros(np.shape(v))
        for i in np.ndindex(np.shape(v)):
            y = []
            for m in (-2, -1, 1, 2):
                t = np.array(v, dtype=float)
                t[i] += m * h
                y.append(f(vals[:a] + [t] + vals[a + 1:]))
            g[i] = (y[0] - 8 * y[1] + 8 * y[2] - y[3]) / (12 * h)
        out.append(g)
    return out


def run(case, rec):
    m = {"vqe": vqe, "classifier": classifier, "born": born, "reduced": reduced, "hybrid": hybrid, "kernel": kernel, "reupload": reupload,
         "siamese": siamese}[case["model"]](case)
    how, src = case["opt"], case["src"]
    lr = case.get("lr", 0.15)
    opt = {"SGD": lambda: torch.optim.SGD(m.leaves, lr=lr), "momentum": lambda: torch.optim.SGD(m.leaves, lr=lr, momentum=0.9),
           "Adam": lambda: torch.optim.Adam(m.leaves, lr=lr), "LBFGS": lambda: torch.optim.LBFGS(m.leaves, lr=lr, max_iter=2)}[how]()
    rec.ev("drove model " + case["model"])
    rec.ev("drove gradients from " + src)
    rec.ev("drove optimiser " + how)
    if lr < 0.01:
        rec.ev("drove small steps")
    rec.ev("drove kept circuit" if case["keep"] else "drove rebuilt circuit")
    r = np.random.default_rng(case["seed"] + 1)
    vals = lambda: [P.detach().numpy().astype(float) for P in m.leaves]
    ours, vel, saved = [v.copy() for v in vals()], [0 * v for v in vals()], None
    sizes = set()
    for step in range(case["steps"]):
        tag = "step %d of %s by %s, gradients %s, circuit %s: N=%d %s" % (step, case["model"], how, src, "kept" if case["keep"] else "rebuilt", case["N"],
                                                                       [s["k"] for s in m.specs])
        m.batch()
        sizes.add(len(getattr(m, "X", ())))
        v0 = vals()
        want = m.f(v0)
        g = numgrad(m.f, v0)
        scale = max(1.0, abs(want), max(float(np.abs(x).max()) for x in g))
        tol = 8e-6 * (1 + 0.1 * len(m.specs)) * scale
        if r.random() < 0.5:
            rec.ev("drove validation without gradients")
            with torch.no_grad():
                rec.close("loss without gradients: " + tag, npy(m.loss()).reshape(()), np.array(want), tol)
        now = src if src in ("auto", "shift", "saved") else ["auto", "saved", "shift"][step % 3]
        opt.zero_grad()
        loss = m.loss()
        if not rec.close("loss: " + tag, npy(loss).reshape(()), np.array(want), tol):
            return
        if now == "auto":
            if not rec.ok(loss.requires_grad, "loss detached from what is trained: " + tag):
                return
            loss.backward()
        elif not rec.ok(m.shift(now), "wrong number of gradient entries: " + tag):
            return
        for i, (P, w) in enumerate(zip(m.leaves, g)):
            if P.grad is None:                        # (never reached from the loss: only right when it does not matter)
                rec.ok(np.abs(w).max() < tol, "a trained tensor is detached: tensor %d: %s" % (i, tag))
            else:
                rec.close("gradient: tensor %d: %s" % (i, tag), P.grad, w.astype(complex), tol)
        rec.ok(all(np.array_equal(a, b) for a, b in zip(v0, vals())), "evaluating the model changed the trained tensors: " + tag)
        if how == "LBFGS":
            def closure():
                opt.zero_grad()
                y = m.loss()
                rec.close("loss inside a line search: " + tag, npy(y).reshape(()), np.array(m.f(vals())), 3 * tol)
                y.backward()
                return y
            opt.step(closure)
        else:
            opt.step()
        if how in ("SGD", "momentum"):
            for i in range(len(ours)):
                vel[i] = (0.9 if how == "momentum" else 0.0) * vel[i] + g[i]
                ours[i] = ours[i] - lr * vel[i]
            for a, b in zip(vals(), ours):
                rec.close("parameters after the optimiser's steps: " + tag, a.astype(complex), b.astype(complex), 1e-3 * scale)
        if step == 1:
            saved = [P.detach().clone() for P in m.leaves]
            oursaved = [v.copy() for v in ours]
        elif saved is not None and r.random() < 0.3:
            rec.ev("drove checkpoint restored")
            with torch.no_grad():
                for P, s in zip(m.leaves, saved):
                    P.copy_(s)
            ours, vel = [v.copy() for v in oursaved], None
            if how == "momentum":
                break
            vel = [0 * v for v in ours]
    if len(sizes) > 1:
        rec.ev("drove minibatch of changing size")
    rec.seen(case["model"], case["N"], tuple(s["k"] for s in m.specs), how, src, case["keep"])
