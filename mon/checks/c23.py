"""C23: invalid wires, sizes and parameter counts are rejected."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import Circuit, build, add_to, cls, par, npy, tvec, mps_of, tensor_of, tn, qc, qe, LAYER, BUILDER_LAYERS
from deepquantum.gates import qoperator as qo

PROP = "C23"
REPEAT = 8                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (operation kind, N, kind and place of the defect, entry point: expansion / MPS / contraction / batch / circuit builder "
        "with matrix, evolution, contraction, expectation); every one must raise, and the repaired form of the same call must succeed")
ENTRY = ["U", "TN", "contract", "batch", "cirU", "cirTN", "circontract", "cirexp"]
REQUIRED = ["drove bad wires " + k for k in gen.EVERY + ["PauliEncoding"]] + ["drove " + x for x in
           ("layer parameter count", "layer wire count", "repeat", "circuit size MPS", "circuit size tensor", "gate without N", "gate without wires",
            "unsupported", "control accepted", "expansion helper")] + \
    ["drove parameter count of " + k for k in gen.PARAM_KINDS if k not in ref.LAYERS] + ["drove update count of " + k for k in gen.PARAM_KINDS]


def bad_wires(rng, N, k):
    """[(defect, wires)] for a gate/layer of kind k in N qubits."""
    out = []
    n = gen.nw(k)
    if n == 1:
        return [("beyond", [N]), ("beyond", [N + 3]), ("negative", [-2]), ("negative", [-N - 1])] + ([("negative", [-N])] if N > 1 else [])
    lo = n or (1 if k in ref.LAYERS_ROT + ["HLayer"] else 2)
    sizes = [n] if n else sorted({lo, N, min(N, lo + 1)})
    for m in sizes:
        if m > N or m < 1:
            continue
        for pos in range(m):
            for b in (N, N + 2, -1, -N):
                w = gen.wires(rng, N, m)
                w[pos] = b
                out.append(("negative" if b < 0 else "beyond", w))
        if m >= 2:
            for i in range(m):
                for j in range(m):
                    if i != j:
                        w = gen.wires(rng, N, m)
                        w[i] = w[j]
                        out.append(("repeated", w))
    if n:
        for m in (n - 1, n + 1):
            if m >= 1 and m <= N:
                out.append(("count", gen.wires(rng, N, m)))
    if k not in gen.TWOQ_RING and not n:
        out.append(("repeated", [0] * (N + 1)))
    elif not n:
        out.append(("repeated", list(range(N)) + [0]))
    return out


def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    for k in gen.EVERY:
        for N in range(1, 6 if deep else 5):
            if not gen.any_kind_ok(k, N):
                continue
            for _ in range(4 if deep else 1):
                for what, w in bad_wires(rng, N, k):
                    L = len(w)
                    s = {"k": k, "w": w}
                    m = ref.nparams(k, L)
                    if m:
                        s["p"] = gen.angles(rng, m)
                    out.append({"t": "wires", "N": N, "s": s, "what": what, "ws": "tuple" if rng.random() < 0.3 else "list"})
            # the same call with valid wires must work
            for _ in range(6):
                out.append({"t": "good", "N": N, "s": gen.op(rng, N, k)})
        for N in (6, 7, 8):
            bw = bad_wires(rng, N, k)
            for i in rng.permutation(len(bw))[:12 if deep else 4]:
                what, w = bw[int(i)]
                s = {"k": k, "w": w}
                m = ref.nparams(k, len(w))
                if m:
                    s["p"] = gen.angles(rng, m)
                out.append({"t": "wires", "N": N, "s": s, "what": what, "ws": "list"})
            out.append({"t": "good", "N": N, "s": gen.op(rng, N, k)})
    for N in range(1, 5):
        for axis in "XYZ":
            for what, w in bad_wires(rng, N, "HLayer"):
                out.append({"t": "encoding", "N": N, "w": w, "axis": axis, "what": what, "x": gen.angles(rng, int(rng.integers(1, N + 1)))})
    for k in ref.LAYERS_ROT + ["BasicEntangleLayer"]:
        for N in range(1, 8):
            for m in range(1, N + 1):
                if k == "BasicEntangleLayer" and m < 2:
                    continue
                w = gen.wires(rng, N, m)
                for rep in ((1, 2, 3) if k == "BasicEntangleLayer" else (1,)):
                    n = ref.nparams(k, m, rep)
                    for q in sorted({0, 1, n - 1, n + 1, n - m, n + m, 2 * n, 2 * m, 3 * m, n // 2} - {n}):
                        if q >= 0:
                            out.append({"t": "pcount", "N": N, "k": k, "w": w, "r": rep, "q": int(q)})
    for k in gen.PARAM_KINDS:
        for N in range(1, 5):
            if not gen.any_kind_ok(k, N):
                continue
            for _ in range(6 if deep else 2):
                s = gen.op(rng, N, k)
                n = len(s["p"])
                for q in sorted({0, 1, 2, 3, 4, n - 1, n + 1, 2 * n, 3 * n} - {n}):
                    if q or n > 1:
                        out.append({"t": "gcount", "N": N, "s": s, "q": q})
    for k in ("ring_of_cnot", "ring_of_cnot_dagger", "ring_of_cnot2", "BasicEntangleLayer"):
        for N in range(1, 5):
            for w in [[q] for q in range(N)] + [[]]:
                out.append({"t": "wcount", "N": N, "k": k, "w": w})
    for N in range(2, 5):
        for r in (0, -1, -3):
            out.append({"t": "repeat", "N": N, "r": r})
    for _ in range(400 if deep else 80):
        N = int(rng.integers(1, 6))
        out.append({"t": "size", "N": N, "ops": gen.circuit(rng, N, int(rng.integers(0, 4)), gen.TN_ALL, tn=True),
                    "n": [x for x in range(1, 8) if x != N][int(rng.integers(6))], "s": int(rng.integers(1 << 30))})
    for N in range(1, 6):
        for _ in range(6 if deep else 2):
            out.append({"t": "helper", "N": N, "s": int(rng.integers(1 << 30))})
    for k in ref.GATES1 + ref.GATES2 + ref.GATES3 + ref.GATESM:
        out.append({"t": "default", "k": k})
    for k in ("multi_control_cnot", "ring_of_cnot2", "BasicEntangleLayer", "ring_of_cnot", "ring_of_cnot_dagger"):
        for N in range(2, 6):
            for _ in range(6 if deep else 3):
                if k in gen.TWOQ_RING:
                    w = gen.wires(rng, N, int(rng.integers(2, N + 1)))
                    if w == list(range(N)):
                        continue
                    s = gen.layer(rng, N, k, w=w)
                else:
                    s = gen.op(rng, N, k)
                pre = gen.circuit(rng, N, int(rng.integers(0, 3)), gen.TN_ALL, tn=True)
                post = gen.circuit(rng, N, int(rng.integers(0, 3)), gen.TN_ALL, tn=True)
                out.append({"t": "unsupported", "N": N, "ops": pre + [s] + post, "k": k})
    return out


def zero(N):
    v = np.zeros(2 ** N, dtype=np.complex64)
    v[0] = 1
    return v


def drive(entry, s, N, ws="list"):
    """Build the operation of the spec and take it to a matrix or an evolved state."""
    k = s["k"]
    v = zero(N)
    if entry in ("U", "TN", "contract", "batch"):
        op = build(s, N, ws=ws)
        if entry == "U":
            return op.U_expand()
        if entry == "TN":
            return op.TN_operation(mps_of(v, N))
        if entry == "contract":
            return op.TN_contract(tensor_of(v, N))
        return op.TN_contract(torch.stack([tensor_of(v, N)] * 2), batch_mod=True)
    cir = Circuit(N)
    add_to(cir, s, "builder", ws=ws)
    if entry == "cirU":
        return cir.U()
    if entry == "cirTN":
        return cir.TN_evolution(mps_of(v, N))
    if entry == "circontract":
        return cir.TN_contract_evolution(tensor_of(v, N))
    return cir.cir_expectation(tvec(v).view(1, -1), torch.eye(2 ** N) + 0j)


def run(case, rec):
    t = case["t"]
    if t == "wires":
        s, N = case["s"], case["N"]
        rec.ev("drove bad wires " + s["k"])
        for e in ENTRY:
            if s["k"] == "HLayer" and e.startswith("cir") and len(s["w"]) == 0:
                continue
            rec.raises("%s with %s wires %s on %d qubits (%s)" % (s["k"], case["what"], s["w"], N, e), lambda: drive(e, s, N, case["ws"]))
        rec.seen(t, s["k"], N, case["what"], tuple(s["w"]))
        return
    if t == "encoding":
        N, w = case["N"], case["w"]
        rec.ev("drove bad wires PauliEncoding")
        v = zero(N)
        mk = lambda: qe.PauliEncoding(N, torch.tensor(case["x"]), list(w), case["axis"])

        def viacir():
            c = Circuit(N)
            c.add(mk())
            return c.U()
        tag = "PauliEncoding %s with %s wires %s on %d qubits" % (case["axis"], case["what"], w, N)
        for e, f in (("U", lambda: mk().U_expand()), ("TN", lambda: mk().TN_operation(mps_of(v, N))), ("contract", lambda: mk().TN_contract(tensor_of(v, N))),
                     ("batch", lambda: mk().TN_contract(torch.stack([tensor_of(v, N)] * 2), batch_mod=True)), ("circuit", viacir)):
            rec.raises("%s: %s" % (tag, e), f)
        rec.seen(t, N, case["axis"], case["what"], tuple(w))
        return
    if t == "good":
        s, N = case["s"], case["N"]
        rec.close("%s with valid wires %s on %d qubits: U" % (s["k"], s["w"], N), drive("U", s, N), ref.matrix(s, N), 1e-5)
        rec.close("%s with valid wires %s on %d qubits: circuit" % (s["k"], s["w"], N), drive("cirU", s, N), ref.matrix(s, N), 1e-5)
        rec.ev("drove control accepted")
        rec.seen(t, s["k"], N, tuple(s["w"]))
        return
    if t == "pcount":
        N, k, w, q = case["N"], case["k"], case["w"], case["q"]
        rec.ev("drove layer parameter count")
        for P in ([0.1 * (i + 1) for i in range(q)], torch.arange(q) * 0.1):
            s = {"k": k, "w": w, "r": case["r"], "p": [0.0] * q}
            f = "list" if isinstance(P, list) else "tensor"
            rec.raises("%s on %s of %d, repeat %d, with %d parameters (%s)" % (k, w, N, case["r"], q, f), lambda: build(s, N, P=P).U_expand())

            def viacir():
                c = Circuit(N)
                add_to(c, s, "builder", P=P)
                return c.U()
            rec.raises("Circuit.%s on %s of %d, repeat %d, with %d parameters (%s)" % (k, w, N, case["r"], q, f), viacir)
        rec.seen(t, k, N, tuple(w), case["r"], q)
        return
    if t == "gcount":
        N, s, q = case["N"], case["s"], case["q"]
        k, n = s["k"], len(s["p"])
        forms = [("list", [0.1 * (i + 1) for i in range(q)]), ("tensor", torch.arange(q) * 0.1 + 0.3), ("trained tensor", (torch.arange(q) * 0.1).requires_grad_(True))]
        if n > 1 and q == 1:
            forms += [("row", torch.ones(1, n)), ("square", torch.ones(n, n)), ("number", 0.4), ("scalar tensor", torch.tensor(0.4))]
        for f, P in forms:
            if k not in LAYER:
                rec.ev("drove parameter count of " + k)
                rec.raises("%s on %s of %d with %d parameters (%s)" % (k, s["w"], N, q, f), lambda: build(s, N, P=P).U_expand())
                rec.raises("%s without N and wires, with %d parameters (%s)" % (k, q, f), lambda: cls(k)(P).matrix)

                def viacir():
                    c = Circuit(N)
                    add_to(c, s, "builder", P=P)
                    return c.U()
                rec.raises("Circuit.%s on %s of %d with %d parameters (%s)" % (k, s["w"], N, q, f), viacir)
            rec.ev("drove update count of " + k)
            c = Circuit(N)
            add_to(c, s)
            rec.raises("params_update of %s on %s of %d with %d parameters (%s)" % (k, s["w"], N, q, f), lambda: c.gate[0].params_update(P))
        c.gate[0].params_update(par(k, s["p"], "tensor"))
        rec.close("%s on %s of %d updated with as many parameters as it has" % (k, s["w"], N), c.U(), ref.matrix(s, N), 1e-5)
        rec.seen(t, N, k, tuple(s["w"]), q)
        return
    if t == "wcount":
        N, k, w = case["N"], case["k"], case["w"]
        rec.ev("drove layer wire count")
        s = {"k": k, "w": w}
        if k == "BasicEntangleLayer":
            s["p"] = [0.3] * (3 * len(w))
        rec.raises("%s on %s of %d qubits" % (k, w, N), lambda: drive("U", s, N))
        rec.raises("Circuit.%s on %s of %d qubits" % (k, w, N), lambda: drive("cirU", s, N))
        rec.seen(t, k, N, tuple(w))
        return
    if t == "repeat":
        N, r = case["N"], case["r"]
        rec.ev("drove repeat")
        w = list(range(N))
        for n in sorted({0, 3 * N, abs(3 * N * r)}):
            P = torch.zeros(n)
            rec.raises("BasicEntangleLayer with repeat %d and %d parameters" % (r, n), lambda: cls("BasicEntangleLayer")(N, w, P, r).U_expand())

            def viacir():
                c = Circuit(N)
                c.BasicEntangleLayer(w, P, r)
                return c.U()
            rec.raises("Circuit.BasicEntangleLayer with repeat %d and %d parameters" % (r, n), viacir)
        rec.seen(t, N, r)
        return
    if t == "size":
        N, n = case["N"], case["n"]
        cir = Circuit(N)
        for s in case["ops"]:
            add_to(cir, s)
        rec.ev("drove circuit size MPS")
        v = gen.state({"t": "random", "s": case["s"]}, n)
        tag = "circuit of %d qubits %s given %d qubits" % (N, [s["k"] for s in case["ops"]], n)
        rec.raises("TN_evolution: " + tag, lambda: cir.TN_evolution(mps_of(v, n)))
        rec.ev("drove circuit size tensor")
        T = tensor_of(v, n)
        rec.raises("TN_contract_evolution: " + tag, lambda: cir.TN_contract_evolution(T))
        if n != N + 1:
            rec.raises("TN_contract_evolution(batch_mod=True): " + tag, lambda: cir.TN_contract_evolution(T, batch_mod=True))
        rec.raises("TN_contract_evolution(batch_mod=True): %s in a batch" % tag,
                   lambda: cir.TN_contract_evolution(torch.stack([T, T]), batch_mod=True))
        G = tensor_of(gen.state({"t": "random", "s": case["s"]}, N), N)
        rec.raises("TN_contract_evolution: a batch given without batch_mod to a circuit of %d qubits" % N,
                   lambda: cir.TN_contract_evolution(torch.stack([G, G])))
        rec.raises("TN_contract_evolution(batch_mod=True): a single state without batch index, %d qubits" % N,
                   lambda: cir.TN_contract_evolution(G, batch_mod=True))
        rec.raises("TN_evolution: too short list, %d qubits" % N, lambda: cir.TN_evolution(mps_of(zero(N), N)[:-1]))
        rec.seen(t, N, n, tuple(s["k"] for s in case["ops"]))
        return
    if t == "helper":
        N = case["N"]
        r = np.random.default_rng(case["s"])
        rec.ev("drove expansion helper")
        u = np.linalg.qr(r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2)))[0]
        U = torch.from_numpy(u.astype(np.complex64))
        u = U.numpy().astype(complex)
        for q in range(N):
            rec.close("gate_expand_1toN on %d of %d" % (q, N), qo.Operation.gate_expand_1toN(U, N, q), ref.op_on(u, [q], N), 2e-6)
        for q in (N, N + 2, -1, -N):
            rec.raises("gate_expand_1toN on %d of %d" % (q, N), lambda: qo.Operation.gate_expand_1toN(U, N, q))
        for n in (0, -1):
            rec.raises("gate_expand_1toN with N=%d" % n, lambda: qo.Operation.gate_expand_1toN(U, n, 0))
            rec.raises("two_qubit_control_gate with N=%d" % n, lambda: qo.Operation.two_qubit_control_gate(U, n, 0, 1))
            rec.raises("multi_control_gate with N=%d" % n, lambda: qo.Operation.multi_control_gate(U, n, [0], 1))
        cu = np.eye(4, dtype=complex)
        cu[2:, 2:] = u
        for a in range(-2, N + 2):
            for b in range(-2, N + 2):
                ok = 0 <= a < N and 0 <= b < N and a != b
                for nm, f in (("two_qubit_control_gate", lambda: qo.Operation.two_qubit_control_gate(U, N, a, b)), ("multi_control_gate", lambda: qo.Operation.multi_control_gate(U, N, [a], b))):
                    if ok:
                        rec.close("%s %d, %d of %d" % (nm, a, b, N), f(), ref.op_on(cu, [a, b], N), 2e-6)
                    else:
                        rec.raises("%s %d, %d of %d" % (nm, a, b, N), f)
        for _ in range(6):
            if N < 3:
                break
            w = gen.wires(r, N, int(r.integers(3, N + 1)))
            d = 2 ** len(w)
            mu = np.eye(d, dtype=complex)
            mu[d - 2:, d - 2:] = u
            rec.close("multi_control_gate %s of %d" % (w, N), qo.Operation.multi_control_gate(U, N, w[:-1], w[-1]), ref.op_on(mu, w, N), 2e-6)
            i = int(r.integers(len(w)))
            for b in (N, -1) + ((w[-1],) if i < len(w) - 1 else (w[0],)):
                x = list(w)
                x[i] = b
                rec.raises("multi_control_gate %s of %d" % (x, N), lambda: qo.Operation.multi_control_gate(U, N, x[:-1], x[-1]))
        rec.seen(t, N, case["s"])
        return
    if t == "default":
        k = case["k"]
        C = cls(k)
        n = gen.nw(k) or 3
        N = 4
        w = 1 if n == 1 else list(range(n))
        p = ref.nparams(k, n)
        P = () if not p else (par(k, [0.3, 0.2, 0.1][:p], "tensor"),)
        m, T = mps_of(zero(N), N), tensor_of(zero(N), N)
        makers = [("N", "without N", (lambda: C(*P, wires=w)))]
        if k != "multi_control_cnot":
            makers += [("wires", "without wires", (lambda: C(*P, N=N))), ("wires", "without N and wires", (lambda: C(*P)))]
        else:
            makers += [("wires", "without wires", (lambda: C(N=N)))]
        for what, nm, make in makers:
            rec.ev("drove gate without " + what)
            for e, f in (("U_expand", lambda o: o.U_expand()), ("TN_operation", lambda o: o.TN_operation(mps_of(zero(N), N))),
                         ("TN_contract", lambda o: o.TN_contract(T)), ("TN_contract batch", lambda o: o.TN_contract(torch.stack([T, T]), batch_mod=True))):
                rec.raises("%s %s: %s" % (k, nm, e), lambda: f(make()))
        rec.seen(t, k)
        return
    if t == "unsupported":
        N = case["N"]
        rec.ev("drove unsupported")
        v = zero(N)

        def mk():
            c = Circuit(N)
            for s in case["ops"]:
                add_to(c, s)
            return c
        tag = "N=%d %s" % (N, [(s["k"], s["w"]) for s in case["ops"]])
        rec.raises("TN_evolution with an unsupported operation: " + tag, lambda: mk().TN_evolution(mps_of(v, N)))
        rec.raises("TN_contract_evolution with an unsupported operation: " + tag, lambda: mk().TN_contract_evolution(tensor_of(v, N)))
        rec.raises("TN_contract_evolution batch with an unsupported operation: " + tag,
                   lambda: mk().TN_contract_evolution(torch.stack([tensor_of(v, N)] * 2), batch_mod=True))
        M = build({"k": "PauliZ", "w": [0]}, N)
        rec.raises("save_mid_MPS with an unsupported operation: " + tag,
                   lambda: qc.parameter_shift(mk(), tvec(v).view(1, -1), M.U_expand()).save_mid_MPS(M))
        rec.ok(mk().TN_check() is False, "TN_check with an unsupported operation: " + tag)
        rec.seen(t, N, tag)
        return
    raise KeyError(t)
