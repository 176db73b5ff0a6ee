"""C26: a call that is rejected, or that fails half way, leaves no trace."""
import random
import warnings
import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from .. import gen, ref
from ..adapter import Circuit, build, add_to, cls, par, npy, tvec, mps_of, tensor_of, tn, qc, qm, qe, ql, ONEP, mps_dense
from .c23 import bad_wires
from deepquantum.gates import qgate

PROP = "C26"
REPEAT = 4                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (operations in order, N, rejected call or place of the failure, way it was made); judged after every rejected or failed "
        "call: the circuit's operations one by one (identity, parameters bit by bit, connection to the trained leaves, matrices), its bookkeeping, the "
        "caller's tensors and lists, generators, default dtype and gradient mode; then the next valid call against the reference")
EVALS = ["U", "Urev", "contract", "batch", "expTN", "expU", "opU", "opdag", "measure", "expval", "ptrace", "partial", "conv", "inner", "encode", "amplitude"]
REQUIRED = (["rejected builder wires", "rejected builder count", "rejected builder object", "rejected update count", "rejected update shape", "rejected update value",
             "rejected expectation", "rejected evolution", "rejected gradient shift", "rejected gradient saved", "failed gradient shift", "failed gradient saved",
             "failed forward pass", "interrupted", "rejected legacy", "rejected helper", "rejected convolution", "failures injected"]
            + ["failed evaluation " + e for e in EVALS] + ["rejected update of " + k for k in gen.PARAM_KINDS])
TOL = 6e-6


# ------------------------------------------------------------------ workload
def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    R = lambda: int(rng.integers(1 << 30))

    def circ(tn_=False, pbias=0.5, hi=5, need=False, n=None):
        N = int(rng.integers(1, hi))
        if rng.random() < 0.04:
            N = int(rng.integers(5, 8))
        specs = gen.circuit(rng, N, int(rng.integers(1, 6)) if n is None else n, gen.TN_ALL if tn_ else gen.EVERY, tn=tn_, pbias=pbias)
        if need and not any(s.get("p") for s in specs):
            specs.append(gen.op(rng, N, "ry"))
        return N, specs

    for _ in range(2500 if deep else 160):
        N, specs = circ()
        k = gen.EVERY[int(rng.integers(len(gen.EVERY)))]
        bw = bad_wires(rng, N, k) if gen.any_kind_ok(k, N) else [("too few qubits", list(range(gen.nw(k) or 2)))]
        what, w = bw[int(rng.integers(len(bw)))]
        s = {"k": k, "w": w}
        m = ref.nparams(k, len(w))
        if m:
            s["p"] = gen.angles(rng, m)
        out.append({"t": "builder", "how": "wires", "N": N, "ops": specs, "bad": s, "why": what, "via": ["builder", "add"][int(rng.integers(2))], "seed": R()})
    for _ in range(1500 if deep else 100):
        N, specs = circ()
        ks = [k for k in gen.PARAM_KINDS if gen.any_kind_ok(k, N)]
        s = gen.op(rng, N, ks[int(rng.integers(len(ks)))])
        n = len(s["p"])
        qs = [q for q in {0, 1, 2, n - 1, n + 1, 2 * n, 3} if q >= 0 and q != n]
        out.append({"t": "builder", "how": "count", "N": N, "ops": specs, "bad": s, "q": int(qs[int(rng.integers(len(qs)))]), "f": ["list", "tensor"][int(rng.integers(2))],
                    "via": ["builder", "add"][int(rng.integers(2))], "seed": R()})
    for _ in range(400 if deep else 40):
        for o in ("None", "number", "string", "class", "encoding", "tensor", "list"):
            if _ % 7 == 0 or rng.random() < 0.3:
                N, specs = circ()
                out.append({"t": "builder", "how": "object", "N": N, "ops": specs, "bad": o, "seed": R()})
    for k in gen.PARAM_KINDS:
        for _ in range(40 if deep else 6):
            N = int(rng.integers(1 if gen.any_kind_ok(k, 1) else 2 if gen.any_kind_ok(k, 2) else 3, 5))
            s = gen.op(rng, N, k)
            pre = gen.circuit(rng, N, int(rng.integers(0, 3)), gen.EVERY)
            post = gen.circuit(rng, N, int(rng.integers(0, 3)), gen.EVERY)
            out.append({"t": "update", "N": N, "ops": pre + [s] + post, "i": len(pre), "ps": ["plain", "tensor", "grad", "nonleaf"][int(rng.integers(4))],
                        "again": bool(rng.random() < 0.5), "seed": R()})
    for _ in range(800 if deep else 70):
        N, specs = circ(tn_=bool(rng.random() < 0.7))
        out.append({"t": "evaluate", "N": N, "ops": specs, "ps": ["plain", "grad"][int(rng.integers(2))], "seed": R()})
    for _ in range(1500 if deep else 110):
        saved = rng.random() < 0.45
        N, specs = circ(tn_=saved or bool(rng.random() < 0.6), pbias=0.7, hi=4, need=True)
        out.append({"t": "gradient", "N": N, "ops": specs, "saved": bool(saved), "ps": ["plain", "grad", "nonleaf", "grad"][int(rng.integers(4))],
                    "interrupt": bool(rng.random() < 0.3), "nograd": bool(rng.random() < 0.2), "psi": gen.state_desc(rng, N), "seed": R()})
    for _ in range(60 if deep else 6):
        for e in EVALS:
            N, specs = circ(tn_=bool(e not in ("U", "Urev", "expU", "opU", "opdag") or rng.random() < 0.5), hi=4)
            out.append({"t": "fault", "e": e, "N": N, "ops": specs, "ps": ["plain", "grad", "tensor"][int(rng.integers(3))], "seed": R()})
    for _ in range(600 if deep else 60):
        out.append({"t": "legacy", "N": int(rng.integers(1, 5)), "n": int(rng.integers(0, 5)), "seed": R()})
    for N in range(1, 5):
        for _ in range(20 if deep else 4):
            out.append({"t": "helper", "N": N, "seed": R()})
    for k in (2,):
        for _ in range(10 if deep else 2):
            out.append({"t": "conv", "k": k, "seed": R()})
    return out


# ------------------------------------------------------------------ monitors
class Ground(object):
    """What belongs to the process rather than to any object."""

    def __init__(self):
        self.s = self.now()

    def now(self):
        return (torch.is_grad_enabled(), torch.get_default_dtype(), torch.get_rng_state().numpy().tobytes(), np.random.get_state()[1].tobytes(),
                np.random.get_state()[2], random.getstate(), torch.is_inference_mode_enabled())

    def check(self, rec, tag):
        for nm, a, b in zip(("gradient mode", "default dtype", "torch's generator", "numpy's generator", "numpy's generator position", "python's generator", "inference mode"),
                            self.s, self.now()):
            rec.ok(a == b, "%s changed by %s" % (nm, tag))


class Owned(object):
    """The caller's tensors and lists, bit by bit."""

    def __init__(self, **kw):
        self.kw = kw
        self.snap = {k: self.copy(v) for k, v in kw.items()}

    def copy(self, v):
        if torch.is_tensor(v):
            return ("t", tuple(v.shape), v.dtype, v.requires_grad, v.detach().clone())
        if isinstance(v, (list, tuple)):
            return ("l", type(v), [self.copy(x) for x in v])
        if isinstance(v, dict):
            return ("d", {k: self.copy(x) for k, x in v.items()})
        return ("o", v)

    def eq(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "t":
            return a[1:4] == b[1:4] and torch.equal(torch.view_as_real(a[4]) if a[4].is_complex() else a[4], torch.view_as_real(b[4]) if b[4].is_complex() else b[4])
        if a[0] == "l":
            return a[1] is b[1] and len(a[2]) == len(b[2]) and all(self.eq(x, y) for x, y in zip(a[2], b[2]))
        if a[0] == "d":
            return a[1].keys() == b[1].keys() and all(self.eq(a[1][k], b[1][k]) for k in a[1])
        return a[1] is b[1] or a[1] == b[1]

    def check(self, rec, tag):
        for k, v in self.kw.items():
            rec.ok(self.eq(self.snap[k], self.copy(v)), "%s changed by %s" % (k, tag))


def params_of(g):
    return g.params if getattr(g, "num_params", 0) else None


def same(a, b):
    """Matrices may have been worked out again (parameters may not have been)."""
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 2e-6))
    return a == b


class Watch(object):
    """Everything observable of a circuit and of its operations."""

    def __init__(self, cir, specs, leaves):
        self.cir, self.specs, self.leaves = cir, specs, leaves
        self.N = cir.nqubits
        self.a = self.look()

    def look(self):
        c = self.cir
        ops = []
        for g in c.gate:
            p = params_of(g)
            ops.append({"id": id(g), "label": g.label, "num_params": g.num_params, "nqubits": g.nqubits, "supportTN": g.supportTN,
                        "wires": g.wires if isinstance(g.wires, int) else tuple(int(w) for w in g.wires),
                        "params": None if p is None else (tuple(p.shape), p.detach().numpy().tobytes(), p.requires_grad),
                        "info": None if p is None else npy(g.info()["params"]).tobytes(), "matrix": npy(g.U_expand())})
        par_ = {}
        for i, p in c.cir_params.items():
            par_[i] = None if p is None else npy(p).tobytes() if torch.is_tensor(p) else repr(p)
        return {"operations": ops, "cir_num_params": int(c.cir_num_params), "cir_params": par_, "TN_check": c.TN_check(), "nqubits": c.nqubits}

    def check(self, rec, tag):
        b = self.look()
        good = True
        for k in self.a:
            if k == "operations":
                good &= rec.ok(len(self.a[k]) == len(b[k]), "%d operations in the circuit, %d before %s" % (len(b[k]), len(self.a[k]), tag))
                for i, (x, y) in enumerate(zip(self.a[k], b[k])):
                    for f in x:
                        good &= rec.ok(same(x[f], y[f]), "%s of operation %d (%s) changed by %s" % (f, i, x["label"], tag))
            else:
                good &= rec.ok(self.a[k] == b[k], "%s changed by %s: %s was %s" % (k, tag, b[k], self.a[k]))
        return good

    def right(self, rec, tag):
        """The next valid calls: matrix, a contraction, and gradients reaching the leaves."""
        rec.close("circuit matrix after " + tag, self.cir.U(), ref.circuit_matrix(self.specs, self.N), TOL * (1 + len(self.specs)))
        ls = [(p, s) for p, s in zip(self.leaves, self.specs) if s.get("p") and torch.is_tensor(p) and p.requires_grad]
        if ls:
            r = np.random.default_rng(len(self.specs) + self.N)
            W = r.normal(size=(2 ** self.N,) * 2)
            loss = (self.cir.U().real * torch.from_numpy(np.float32(W))).sum()
            if not rec.ok(loss.requires_grad, "circuit detached from what is trained after " + tag):
                return
            gs = torch.autograd.grad(loss, [p for p, _ in ls], allow_unused=True)
            want = ref.gradient(lambda sp: float(np.sum(ref.circuit_matrix(sp, self.N).real * np.float32(W))), self.specs)
            off, k = 0, 0
            for p, s in zip(self.leaves, self.specs):
                n = len(s.get("p") or ())
                if n and torch.is_tensor(p) and p.requires_grad:
                    rec.ok(gs[k] is not None, "operation %s detached after %s" % (s["k"], tag))
                    if gs[k] is not None:
                        rec.close("gradient after " + tag, npy(gs[k]).reshape(-1), want[off:off + n].astype(complex), 3e-5 * 2 ** self.N)
                    k += 1
                off += n
        if self.cir.TN_check() and all(s["k"] not in gen.TWOQ_RING or list(s["w"]) == list(range(self.N)) for s in self.specs):
            v = gen.state({"t": "random", "s": 5}, self.N)
            rec.close("contraction after " + tag, self.cir.TN_contract_evolution(tensor_of(v, self.N)).reshape(-1), ref.evolve(self.specs, v.astype(complex), self.N), TOL * 4)


def prepare(case):
    """(circuit, parameter objects) in the style of the case."""
    N, specs, ps = case["N"], case["ops"], case.get("ps", "plain")
    r = np.random.default_rng(case["seed"])
    cir, leaves = Circuit(N), []
    for s in specs:
        P = par(s["k"], s["p"], ps) if s.get("p") else None
        add_to(cir, s, "add" if r.random() < 0.5 else "builder", P=P)
        leaves.append(P)
    return cir, leaves


def attempt(rec, fn, name):
    """Did fn fail?  (Whether it should have is the business of C23; what is left behind is judged here.)"""
    try:
        fn()
    except Exception:                                                   # noqa: BLE001
        rec.ev(name)
        return True
    return False


class Boom(RuntimeError):
    pass


class Strike(TorchFunctionMode):
    """Counts torch calls and fails at the k-th one."""

    def __init__(self, k=None):
        super().__init__()
        self.k, self.n, self.hit = k, 0, False

    def __torch_function__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.n == self.k:
            self.hit = True
            raise Boom("injected failure in torch call %d" % self.k)
        return func(*args, **(kwargs or {}))


# ------------------------------------------------------------------ cases
def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["t"]](case, rec)


def run_builder(case, rec):
    N, specs = case["N"], case["ops"]
    cir, leaves = prepare(case)
    w = Watch(cir, specs, leaves)
    how, bad = case["how"], case["bad"]
    if how == "wires":
        wires = list(bad["w"])
        P = par(bad["k"], bad["p"], "tensor") if bad.get("p") else None
        own = Owned(wires=wires, params=P)
        W = wires[0] if bad["k"] in ref.GATES1 and len(wires) == 1 else wires
        tag = "rejected %s of %s on %s wires %s, N=%d after %s" % (case["via"], bad["k"], case["why"], wires, N, [s["k"] for s in specs])

        def call():
            if case["via"] == "add":
                cir.add(build(bad, N, P=P, W=W))
            elif P is None:
                getattr(cir, "Hadamard" if bad["k"] == "HLayer" else bad["k"])(W)
            elif bad["k"] in ONEP or bad["k"] in ("u3", "cu3"):
                getattr(cir, bad["k"])(P, W)
            else:
                getattr(cir, bad["k"])(W, P)
        if bad["k"] == "ring_of_cnot_dagger" and case["via"] != "add":
            case = dict(case, via="add")
    elif how == "count":
        q = case["q"]
        P = [0.1 * (i + 1) for i in range(q)]
        if case["f"] == "tensor":
            P = torch.tensor(P)
        own = Owned(params=P)
        tag = "rejected %s of %s with %d parameters, N=%d after %s" % (case["via"], bad["k"], q, N, [s["k"] for s in specs])
        call = lambda: add_to(cir, bad, case["via"], P=P)
    else:
        o = {"None": lambda: None, "number": lambda: 3, "string": lambda: "rx", "class": lambda: cls("rx"), "tensor": lambda: torch.eye(2 ** N) + 0j,
             "list": lambda: [build({"k": "PauliX", "w": [0]}, N)], "encoding": lambda: qe.PauliEncoding(N, torch.tensor([0.3]), [0], "X")}[bad]()
        own = Owned()
        tag = "rejected add(%s), N=%d after %s" % (bad, N, [s["k"] for s in specs])
        call = lambda: cir.add(o)
    g = Ground()
    if not attempt(rec, call, "rejected builder " + how):
        rec.ev("accepted: not judged here")
        return
    g.check(rec, tag)
    own.check(rec, tag)
    if w.check(rec, tag):
        w.right(rec, tag)
        r = np.random.default_rng(case["seed"] + 1)
        s = gen.op(r, N, ["rx", "PauliY", "XZLayer", "HLayer"][int(r.integers(4))])
        before = cir.cir_num_params
        add_to(cir, s, "builder")
        rec.close("matrix with a valid operation added after " + tag, cir.U(), ref.circuit_matrix(specs + [s], N), TOL * (2 + len(specs)))
        rec.ok(cir.cir_num_params == before + len(s.get("p") or ()) and len(cir.gate) == len(specs) + 1 and sorted(cir.cir_params) == list(range(len(specs) + 1)),
               "bookkeeping of a valid operation added after " + tag)
    rec.seen(how, N, tuple(s["k"] for s in specs), str(bad), case.get("why"), case.get("q"), case.get("via"))


def run_update(case, rec):
    N, specs, i = case["N"], case["ops"], case["i"]
    cir, leaves = prepare(case)
    s, op = specs[i], cir.gate[i]
    n = len(s["p"])
    r = np.random.default_rng(case["seed"] + 2)
    if case["again"]:                                     # the operation has been updated before
        s = dict(s, p=[gen.f32(x) for x in r.uniform(-3, 3, size=n)])
        specs = specs[:i] + [s] + specs[i + 1:]
        leaves[i] = par(s["k"], s["p"], case["ps"] if case["ps"] != "plain" or s["k"] not in ONEP else "t0")
        op.params_update(leaves[i])
    w = Watch(cir, specs, leaves)
    bad = []
    for q in sorted({0, 1, 2, 3, n - 1, n + 1, 2 * n, 3 * n} - {n}):
        bad += [("count", [0.1 * (j + 1) for j in range(q)]), ("count", torch.arange(q) * 0.1 + 0.2), ("count", (torch.arange(q) * 0.1 + 0.2).requires_grad_(True))]
    if n > 1:
        bad += [("shape", torch.rand(1, n, generator=torch.Generator().manual_seed(1))), ("shape", torch.ones(n, n)), ("count", 0.7), ("count", torch.tensor(0.7))]
        bad += [("value", [0.1] * (n - 1) + [None]), ("value", [None] + [0.1] * (n - 1)), ("value", ["a"] * n)]
    bad += [("value", None), ("value", "x" * (n + 1)), ("value", object())]
    for how, P in bad:
        own = Owned(params=P)
        shp = tuple(P.shape) if torch.is_tensor(P) else P
        tag = "params_update of %s (%d parameters) with %s %s, N=%d in %s" % (s["k"], n, how, shp, N, [x["k"] for x in specs])
        g = Ground()
        if not attempt(rec, lambda: op.params_update(P), "rejected update " + how):
            if how == "count":
                rec.fail("accepted: " + tag)
                return
            rec.ok(how == "value" or not _broken(op), "accepted, and the operation cannot be evaluated any more: " + tag)
            if _differs(op, w, i):
                return
            continue
        rec.ev("rejected update of " + s["k"])
        g.check(rec, tag)
        own.check(rec, tag)
        if not w.check(rec, tag):
            return
    w.right(rec, "rejected updates of %s, N=%d in %s" % (s["k"], N, [x["k"] for x in specs]))
    # and the operation still takes a valid update
    s2 = dict(s, p=[gen.f32(x) for x in r.uniform(-3, 3, size=n)])
    op.params_update(par(s["k"], s2["p"], "tensor"))
    rec.close("matrix updated after rejected updates: %s N=%d" % (s["k"], N), cir.U(), ref.circuit_matrix(specs[:i] + [s2] + specs[i + 1:], N), TOL * (2 + len(specs)))
    rec.seen("update", N, tuple(x["k"] for x in specs), i, case["ps"], case["again"])


def _broken(op):
    try:
        op.U_expand()
        return False
    except Exception:                                                   # noqa: BLE001
        return True


def _differs(op, w, i):
    try:
        return not same(npy(op.U_expand()), w.a["operations"][i]["matrix"])
    except Exception:                                                   # noqa: BLE001
        return True


def run_evaluate(case, rec):
    N, specs = case["N"], case["ops"]
    cir, leaves = prepare(case)
    w = Watch(cir, specs, leaves)
    d = 2 ** N
    r = np.random.default_rng(case["seed"] + 3)
    v = gen.state({"t": "random", "s": case["seed"]}, N)
    x, M = tvec(v).view(1, -1), torch.from_numpy(gen.hermitian(case["seed"], d))
    big, small = torch.zeros(1, 2 * d) + 0j, torch.zeros(1, max(1, d // 2)) + 0j
    bad = []
    for TN in (True, False):
        for nm, a in (("a state of twice the size", big), ("a column state", x.reshape(-1, 1)) if N else None, ("two states", torch.cat([x, x])), ("a flat state", x.reshape(-1)),
                      ("a state that is too small", small)):
            if nm == "a column state" and d == 1:
                continue
            bad.append(("rejected expectation", "cir_expectation of %s, TN=%s" % (nm, TN), lambda a=a, TN=TN: cir.cir_expectation(a, M, TN=TN), dict(state=a, M=M)))
        for nm, B in (("a rectangular observable", torch.ones(d, d + 1) + 0j), ("a larger observable", torch.eye(2 * d) + 0j), ("a real double observable", torch.eye(d + 1).double()),
                      ("no observable", None)):
            bad.append(("rejected expectation", "cir_expectation with %s, TN=%s" % (nm, TN), lambda B=B, TN=TN: cir.cir_expectation(x, B, TN=TN), dict(state=x, M=B)))
    mp = mps_of(gen.state({"t": "random", "s": 1}, N + 1), N + 1)
    bad.append(("rejected evolution", "TN_evolution of a longer MPS", lambda: cir.TN_evolution(mp), dict(mps=mp)))
    mp2 = mps_of(v, N)[:-1]
    bad.append(("rejected evolution", "TN_evolution of a shorter MPS", lambda: cir.TN_evolution(mp2), dict(mps=mp2)))
    T = tensor_of(v, N)
    for nm, t, b in (("a tensor of lower rank", T.reshape(-1) if N > 1 else torch.tensor(1 + 0j), False), ("a batch without batch_mod", torch.stack([T, T]), False),
                     ("a single state with batch_mod", T, True)):
        bad.append(("rejected evolution", "TN_contract_evolution of " + nm, lambda t=t, b=b: cir.TN_contract_evolution(t, batch_mod=b), dict(tensor=t)))
    if not cir.TN_check():
        bad.append(("rejected evolution", "TN_contract_evolution with an unsupported operation", lambda: cir.TN_contract_evolution(T), dict(tensor=T)))
    for j in r.permutation(len(bad))[:8]:
        ev, nm, f, own = bad[int(j)]
        tag = "%s, N=%d %s" % (nm, N, [s["k"] for s in specs])
        o, g = Owned(**own), Ground()
        if not attempt(rec, f, ev):
            rec.ev("accepted: not judged here")
            continue
        g.check(rec, tag)
        o.check(rec, tag)
        if not w.check(rec, tag):
            return
    tag = "rejected evaluations, N=%d %s" % (N, [s["k"] for s in specs])
    w.right(rec, tag)
    e = ref.expect(npy(M), ref.evolve(specs, v.astype(complex), N))
    rec.close("expectation after " + tag, cir.cir_expectation(x, M).reshape(()), np.array(e), 2e-5 * (1 + abs(e)))
    rec.seen("evaluate", N, tuple(s["k"] for s in specs), case["ps"], case["seed"])


def sabotage(g, k, exc, log):
    """Makes operation g fail at its k-th evaluation (k=None: only counts)."""
    for nm in ("U_expand", "TN_operation", "TN_contract"):
        f = getattr(g, nm, None)
        if f is None:
            continue

        def wrapped(*a, _f=f, **kw):
            log[0] += 1
            if log[0] == k:
                raise exc("injected failure at evaluation %d" % k)
            return _f(*a, **kw)
        g.__dict__[nm] = wrapped


def mend(g):
    for nm in ("U_expand", "TN_operation", "TN_contract"):
        g.__dict__.pop(nm, None)


def run_gradient(case, rec):
    N, specs, saved = case["N"], case["ops"], case["saved"]
    cir, leaves = prepare(case)
    w = Watch(cir, specs, leaves)
    r = np.random.default_rng(case["seed"] + 4)
    v = gen.state(case["psi"], N)
    x = tvec(v).view(1, -1)
    obs = build({"k": ["PauliX", "PauliY", "PauliZ"][int(r.integers(3))], "w": [int(r.integers(N))]}, N)
    M = obs.U_expand() if saved else torch.from_numpy(gen.hermitian(case["seed"], 2 ** N))
    Mn = npy(M)
    want = ref.gradient(lambda sp: ref.expect(Mn, ref.evolve(sp, v.astype(complex), N)), specs)
    d = 2 ** N
    ctx = torch.no_grad if case["nograd"] else torch.enable_grad
    what = "saved" if saved else "shift"

    def grad(M=M, x=x, save=None):
        ps = qc.parameter_shift(cir, x, M)
        with ctx():
            if not saved:
                return ps.cal_params_grad()
            if save is None:
                save, _ = ps.save_mid_MPS(obs)
            return ps.cal_params_grad2(save)

    def judge(tag, fn, own, ev):
        o, g = Owned(**own), Ground()
        try:
            fn()
        except KeyboardInterrupt:
            rec.ev("interrupted")
            rec.ev(ev)
        except Exception:                                               # noqa: BLE001
            rec.ev(ev)
        else:
            rec.ev("accepted: not judged here")
            return True
        tag = "%s, N=%d %s" % (tag, N, [s["k"] for s in specs])
        g.check(rec, tag)
        o.check(rec, tag)
        return w.check(rec, tag)

    # arguments that cannot work
    if not saved:
        for nm, a, B in (("a larger observable", x, torch.eye(2 * d) + 0j), ("a rectangular observable", x, torch.ones(d, d + 1) + 0j), ("no observable", x, None),
                         ("a larger state", torch.zeros(1, 2 * d) + 0j, M), ("two states", torch.cat([x, x]), M)):
            if not judge("cal_params_grad with " + nm, lambda: grad(B, a), dict(state=a, M=B), "rejected gradient shift"):
                return
    else:
        ps = qc.parameter_shift(cir, x, M)
        save, _ = ps.save_mid_MPS(obs)
        for key in list(save):
            for nm in ("missing", "shorter", "wrong"):
                d2 = {k: list(t) for k, t in save.items()}
                if nm == "missing":
                    del d2[key]
                elif nm == "shorter":
                    d2[key] = d2[key][:-1]
                else:
                    d2[key] = [torch.ones(3, 1, 5) + 0j for _ in d2[key]]
                if not judge("cal_params_grad2 with a %s saved state" % nm, lambda: grad(save=d2), dict(saved=d2, state=x), "rejected gradient saved"):
                    return
    # an operation fails while it is evaluated
    exc = KeyboardInterrupt if case["interrupt"] else Boom
    for i in r.permutation(len(cir.gate))[:3]:
        g = cir.gate[int(i)]
        log = [0]
        sabotage(g, None, exc, log)
        grad()
        mend(g)
        n = log[0]
        if not w.check(rec, "%s gradient, N=%d %s" % (what, N, [s["k"] for s in specs])):
            return
        for k in sorted({1, n, int(r.integers(1, n + 1)), int(r.integers(1, n + 1))}) if n else ():
            log = [0]
            own = dict(state=x, M=M)

            def broken(k=k, log=log):
                sabotage(g, k, exc, log)
                try:
                    grad()
                finally:
                    mend(g)
            if not judge("%s gradient in which operation %d (%s) fails at its evaluation %d of %d" % (what, i, specs[int(i)]["k"], k, n), broken, own, "failed gradient " + what):
                return
        # the forward pass of the same circuit
        log = [0]

        def forward():
            sabotage(g, 1, exc, log)
            try:
                cir.cir_expectation(x, M)
            finally:
                mend(g)
        if not judge("expectation in which operation %d (%s) fails" % (i, specs[int(i)]["k"]), forward, dict(state=x, M=M), "failed forward pass"):
            return
    tag = "failed %s gradients, N=%d %s" % (what, N, [s["k"] for s in specs])
    rec.close("gradient after " + tag, grad().reshape(-1), want.astype(complex), 3e-5)
    w.check(rec, "gradient after " + tag)
    w.right(rec, tag)
    rec.seen("gradient", what, N, tuple(s["k"] for s in specs), case["ps"], case["psi"]["t"], case["interrupt"], case["nograd"])


def run_fault(case, rec):
    N, specs, e = case["N"], case["ops"], case["e"]
    cir, leaves = prepare(case)
    w = Watch(cir, specs, leaves)
    r = np.random.default_rng(case["seed"] + 5)
    d = 2 ** N
    v = gen.state(gen.state_desc(r, N), N)
    x, T, M = tvec(v).view(1, -1), tensor_of(v, N), torch.from_numpy(gen.hermitian(case["seed"], d))
    B = torch.stack([T, tensor_of(gen.state({"t": "random", "s": 3}, N), N)])
    rho = torch.from_numpy(gen.density(gen.density_desc(r), N))
    lst = gen.wires(r, N, int(r.integers(0, N)))
    i = int(r.integers(len(specs)))
    ang = torch.tensor([float(t) for t in r.uniform(-3, 3, size=min(N, 2))])
    amp = torch.from_numpy(np.float32(r.normal(size=max(1, d - 1))))
    f = {"U": lambda: cir.U(), "Urev": lambda: cir.U(left_to_right=False), "contract": lambda: cir.TN_contract_evolution(T),
         "batch": lambda: cir.TN_contract_evolution(B, batch_mod=True), "expTN": lambda: cir.cir_expectation(x, M), "expU": lambda: cir.cir_expectation(x, M, TN=False),
         "opU": lambda: cir.gate[i].U_expand(), "opdag": lambda: cir.gate[i].operation_dagger().U_expand(), "measure": lambda: qm.measure(N, rho, lst or None),
         "expval": lambda: qm.expval(x.reshape(-1), M), "ptrace": lambda: qm.ptrace(rho, max(1, N - 1), N - max(1, N - 1)), "partial": lambda: qm.partial_trace(rho, N, list(lst)),
         "conv": lambda: tn.MPS2StateVec(tn.StateVec2MPS(x, N)), "inner": lambda: tn.StateVec2MPS(x, N),
         "encode": lambda: qe.PauliEncoding(N, ang, list(range(len(ang))), "Y").TN_contract(T), "amplitude": lambda: qe.AmplitudeEncoding(N, amp).encoded_state()}[e]
    if e == "opdag" and specs[i]["k"] in ("ring_of_cnot2", "BasicEntangleLayer"):
        rec.ev("failed evaluation opdag", 0)
        return
    own = Owned(state=x, tensor=T, batch=B, observable=M, density=rho, list=lst, angles=ang, amplitudes=amp)
    with Strike() as st:
        good = f()
    out = (lambda y: mps_dense(y)) if e == "inner" else npy       # (the sites themselves are free up to a gauge)
    good = out(good)
    n = st.n
    if e == "partial" and not lst and n == 0:
        return
    for k in sorted({1, n} | {int(t) for t in r.integers(1, n + 1, size=6)}) if n else ():
        tag = "%s failing in its torch call %d of %d, N=%d %s" % (e, k, n, N, [s["k"] for s in specs])
        g = Ground()
        st = Strike(k)
        got = None
        try:
            with st:
                got = f()
        except Boom:
            rec.ev("failed evaluation " + e)
        rec.ev("failures injected", int(st.hit))
        g.check(rec, tag)
        own.check(rec, tag)
        if got is not None:                                           # it went on: then with the right result
            rec.close("result in spite of a failure: " + tag, out(got), good, 1e-5 * (1 + float(np.abs(good).max())))
        if not w.check(rec, tag):
            return
    tag = "failed evaluations (%s), N=%d %s" % (e, N, [s["k"] for s in specs])
    rec.close("the same call after " + tag, out(f()), good, 1e-5 * (1 + float(np.abs(good).max())))
    w.right(rec, tag)
    rec.seen("fault", e, N, tuple(s["k"] for s in specs), case["ps"], n)


def run_legacy(case, rec):
    from .c20 import ALL, CALLS1, CALLS2, steps, call as legacy_call, spec as spec_of
    N = case["N"]
    r = np.random.default_rng(case["seed"])
    c = qgate.Circuit(N)
    good = steps(r, N, ALL if N > 1 else list(CALLS1), case["n"])
    for s in good:
        legacy_call(c, s)
    want = ref.circuit_matrix([spec_of(s) for s in good], N)
    look = lambda: ([(id(g), repr(g["gate"]), str(g["theta"]), str(g["which_qubit"])) for g in c.gate_list], [npy(u).tobytes() for u in c.u], c.n_qubits,
                    npy(c.gate_sequence_product()).tobytes())
    before = look()
    phis = [0.4, torch.tensor(0.4)]
    bad = []
    for nm in ALL:
        if nm in CALLS1:
            qs = [(N,), (N + 2,), (-1,), (-N - 1,), ("a",), (None,), (0.5,)]
        elif nm in CALLS2:
            qs = [(0, N), (N, 0), (0, 0), (-1, 0), (0, -1), (None, 0), (0, "a")]
        else:
            qs = [([0], 0), ([0, N], 1), ([N], 0), ([0], N), ([-1], 0), ([], 0), (None, 0), ([0], None)]
        for q in qs:
            a = ([phis[int(r.integers(2))]] if nm in ("rx", "ry", "rz") or nm in ("rxx", "ryy", "rzz") else [])
            bad.append((nm, a, q))
        if nm[0] == "r":
            q = (0,) if nm in CALLS1 else (0, 1)
            for a in ("x", None, [0.1, 0.2]):
                bad.append((nm, [a], q))
    for j in r.permutation(len(bad))[:25]:
        nm, a, q = bad[int(j)]
        m = getattr(c, nm)
        tag = "legacy %s%s after %d calls, N=%d" % (nm, (a, q), len(good), N)
        f = lambda: m(*q, *a)
        g, o = Ground(), Owned(q=list(q), a=list(a))
        if not attempt(rec, f, "rejected legacy"):
            rec.ev("accepted: not judged here")
            return
        g.check(rec, tag)
        o.check(rec, tag)
        if not rec.ok(look() == before, "the record or the matrices changed by the rejected " + tag):
            return
    rec.close("legacy matrix after rejected calls, N=%d" % N, c.gate_sequence_product(), want, TOL * (1 + len(good)))
    more = steps(r, N, ALL if N > 1 else list(CALLS1), 2)
    for s in more:
        legacy_call(c, s)
    rec.close("legacy matrix with calls after rejected ones, N=%d" % N, c.gate_sequence_product(), ref.circuit_matrix([spec_of(s) for s in good + more], N), TOL * (3 + len(good)))
    rec.ok(len(c.gate_list) == len(good) + len(more), "legacy record after rejected calls, N=%d" % N)
    rec.seen("legacy", N, tuple(s["c"] for s in good), case["seed"])


def run_helper(case, rec):
    N = case["N"]
    r = np.random.default_rng(case["seed"])
    d = 2 ** N
    rho = torch.from_numpy(gen.density(gen.density_desc(r), N))
    v = tvec(gen.state(gen.state_desc(r, N), N))
    M = torch.from_numpy(gen.hermitian(case["seed"], d))
    lst = [0, N]
    neg = [-1]
    x = torch.from_numpy(np.float32(r.normal(size=2 * d)))
    x1 = x[:N + 1].clone()
    mp = mps_of(npy(v), N)
    bent = [t.clone() for t in mp[:-1]] + [torch.ones(2, 3, 7) + 0j]
    own = dict(rho=rho, v=v, M=M, lst=lst, neg=neg, x=x, x1=x1, mps=mp, bent=bent)
    bad = [("measure", lambda: qm.measure(N + 1, rho)), ("measure", lambda: qm.measure(N, rho, lst)), ("measure", lambda: qm.measure(N, v, neg)),
           ("expval", lambda: qm.expval(v, torch.eye(2 * d) + 0j)), ("expval", lambda: qm.expval(rho, torch.eye(2 * d) + 0j, rho=True)),
           ("partial_trace", lambda: qm.partial_trace(rho, N, lst)), ("partial_trace", lambda: qm.partial_trace(rho, N, neg)),
           ("partial_trace", lambda: qm.partial_trace(2 * rho, N, [0])), ("partial_trace", lambda: qm.partial_trace(rho, N + 1, [0])),
           ("partial_trace_old", lambda: qm.partial_trace_old(rho, N, lst)), ("ptrace", lambda: qm.ptrace(rho, N, 1)), ("ptrace", lambda: qm.ptrace(v, N, 0)),
           ("dag", lambda: qm.dag(v)), ("IsUnitary", lambda: qm.IsUnitary(torch.ones(d, d + 1))), ("IsNormalized", lambda: qm.IsNormalized(rho)),
           ("IsHermitian", lambda: qm.IsHermitian(torch.ones(d + 1, d))), ("StateVec2MPS", lambda: tn.StateVec2MPS(v.view(1, -1), N + 1)),
           ("MPS2StateVec", lambda: tn.MPS2StateVec(bent)), ("amplitude", lambda: qe.AmplitudeEncoding(N, x).encoded_state()),
           ("encoding", lambda: qe.PauliEncoding(N, x1, list(range(N)), "X").U_expand()), ("encoding", lambda: qe.PauliEncoding(N, x[:1], [0], "Q").U_expand()),
           ("inner product", lambda: tn.inner_product(mp, bent) if hasattr(tn, "inner_product") else None)]
    o = Owned(**own)
    for nm, f in bad:
        tag = "rejected %s, N=%d" % (nm, N)
        g = Ground()
        if attempt(rec, f, "rejected helper"):
            g.check(rec, tag)
            o.check(rec, tag)
    R = npy(rho)
    rec.close("measure after rejected calls, N=%d" % N, qm.measure(N, rho).reshape(-1), np.array([np.trace(R @ ref.op_on(ref.Z, [q], N)).real for q in range(N)]).astype(complex), 1e-5)
    rec.close("expval after rejected calls, N=%d" % N, qm.expval(v, M).reshape(()), np.array(ref.expect(npy(M), npy(v))), 3e-5)
    rec.close("partial trace after rejected calls, N=%d" % N, qm.partial_trace(rho, N, [0]) if N > 1 else rho, ref.ptrace_ref(R, N, [0]) if N > 1 else R, 1e-5)
    rec.close("conversions after rejected calls, N=%d" % N, tn.MPS2StateVec(tn.StateVec2MPS(v.view(1, -1), N)).reshape(-1), npy(v), 1e-5)
    rec.seen("helper", N, case["seed"])


def run_conv(case, rec):
    from deepquantum.nn.modules import quanv
    k = case["k"]
    r = np.random.default_rng(case["seed"])
    q = quanv.QuanConv2D(n_qubits=k * k, stride=1, kernel_size=k)
    img = torch.from_numpy(np.float32(r.random((1, 1, k + 1, k + 1))))
    good = npy(q(img))
    W = Owned(weight=q.weight, M=list(q.M_lst), img=img)
    for nm, x in (("a flat image", img.reshape(-1)), ("no batch", img[0]), ("nothing", None), ("no channel", img[:, :0]), ("an array", npy(img))):
        g = Ground()
        if attempt(rec, lambda: q(x), "rejected convolution"):
            tag = "convolution of " + nm
            g.check(rec, tag)
            W.check(rec, tag)
    for n in (-1, 0, k * k + 1):
        g = Ground()
        if attempt(rec, lambda: quanv.QuanConv2D(n_qubits=n, stride=1, kernel_size=k), "rejected convolution"):
            W.check(rec, "rejected second convolution")
    with Strike() as st:
        q(img)
    for j in sorted({1, st.n} | {int(t) for t in r.integers(1, st.n + 1, size=5)}):
        g, s2 = Ground(), Strike(j)
        try:
            with s2:
                q(img)
        except Boom:
            rec.ev("failures injected")
        tag = "convolution failing in its torch call %d" % j
        g.check(rec, tag)
        W.check(rec, tag)
    rec.close("convolution after failures, kernel %d" % k, q(img), good, 1e-5)
    rec.seen("conv", k, case["seed"])
