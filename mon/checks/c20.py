"""C20: the legacy gate-by-gate circuit class (deepquantum.gates.qgate.Circuit)."""
import contextlib
import io
import numpy as np
import torch
from .. import gen, ref
from ..adapter import npy
from deepquantum.gates import qgate

PROP = "C20"
REPEAT = 8                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, sequence of calls with their qubits, angle containers, how the matrix is read); judged: matrix after the calls "
        "and at intermediate points, both orders, unitarity, gate list entry by entry, gradient with respect to every trained angle, rejection of every out-of-range index, measurement helper")
CALLS1 = {"rx": "rx", "ry": "ry", "rz": "rz", "x_gate": "PauliX", "y_gate": "PauliY", "z_gate": "PauliZ", "Hadamard": "Hadamard"}
CALLS2 = {"cnot": "cnot", "cz": "cz", "rxx": "rxx", "ryy": "ryy", "rzz": "rzz"}
NAME = {"x_gate": "X", "y_gate": "Y", "z_gate": "Z", "Hadamard": "H"}
ALL = list(CALLS1) + list(CALLS2) + ["multi_control_cnot"]
REQUIRED = ["drove call " + c for c in ALL] + ["drove reject " + c for c in ALL] + ["drove reversed product", "drove second qubit 0",
                                                                                 "drove measure", "drove gradient", "drove intermediate matrix"]
HELPERS = ["multi_kron", "gate_expand_1toN", "two_qubit_control_gate", "two_qubit_rotation_gate", "multi_control_gate"]
REQUIRED += ["drove helper " + h for h in HELPERS]
TOL = 4e-6


def step(rng, N, c):
    if c in CALLS1:
        w = [int(rng.integers(N))]
    elif c in CALLS2:
        w = gen.wires(rng, N, 2)
    else:
        w = gen.wires(rng, N, int(rng.integers(2, N + 1)))
    s = {"c": c, "w": w}
    if c[0] == "r":
        s["p"] = gen.angle(rng)
        s["f"] = ["float", "t0", "grad", "int", "nonleaf"][int(rng.integers(5))]
        if s["f"] == "int":
            s["p"] = float(int(rng.integers(-6, 7)))
    elif c == "multi_control_cnot":
        s["f"] = ["list", "tuple"][int(rng.integers(2))]
    return s


def steps(rng, N, cs, n):
    """A sequence of calls; in some, calls related to the one before."""
    out = []
    rel = rng.random() < 0.35
    for _ in range(n):
        if rel and out and rng.random() < 0.5:
            s = dict(out[-1] if rng.random() < 0.6 else out[int(rng.integers(len(out)))])
            u = rng.random()
            if u < 0.4:
                s["w"] = [s["w"][int(i)] for i in rng.permutation(len(s["w"]))]
            elif u < 0.6:
                s["w"] = gen.wires(rng, N, len(s["w"]))
            if "p" in s:
                u = rng.random()
                if u < 0.4:
                    s["p"] = -s["p"]
                elif u < 0.7 and s["f"] != "int":
                    s["p"] = gen.near(rng, s["p"])
            out.append(s)
        else:
            out.append(step(rng, N, cs[int(rng.integers(len(cs)))]))
    return out


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(N, steps):
        out.append({"N": N, "steps": steps, "rev": bool(rng.random() < 0.5), "peek": int(rng.integers(0, len(steps) + 1)),
                    "seed": int(rng.integers(1 << 30))})

    for N in range(1, 5 if not deep else 6):       # every call on every qubit tuple
        for c in CALLS1:
            for q in range(N):
                mk(N, [{**step(rng, N, c), "w": [q]}])
        if N < 2:
            continue
        for c in CALLS2:
            for w in gen.all_wire_tuples(N, 2):
                for f in (("float", "t0", "int") if c[0] == "r" else (None,)):
                    s = {**step(rng, N, c), "w": w}
                    if f:
                        s["f"] = f
                        if f == "int":
                            s["p"] = float(int(rng.integers(-6, 7)))
                    mk(N, [s])
        for k in range(2, N + 1):
            for w in gen.all_wire_tuples(N, k):
                mk(N, [{**step(rng, N, "multi_control_cnot"), "w": w}])
    for N in range(1, 4):
        mk(N, [])
    for _ in range(6000 if deep else 2000):
        N = int(rng.integers(1, 7 if deep else 6))
        cs = ALL if N > 1 else list(CALLS1)
        mk(N, steps(rng, N, cs, int(rng.integers(1, 25))))
    for N in (6, 7, 8, 9):
        for _ in range(12 if deep else 20 if N < 8 else 8):
            mk(N, [step(rng, N, ALL[int(rng.integers(len(ALL)))]) for _ in range(int(rng.integers(1, 6)))])
    for n in (50, 90):
        for N in (2, 3, 4):
            mk(N, steps(rng, N, ALL, n))
    for N in range(1, 6):
        for c in ALL:
            out.append({"N": N, "reject": c, "seed": int(rng.integers(1 << 30))})
    for h in HELPERS:                               # the expansion helpers, with any matrix
        for _ in range(400 if deep else 90):
            N = int(rng.integers(1 if h in ("multi_kron", "gate_expand_1toN") else 2, 7)) if rng.random() < 0.9 else int(rng.integers(7, 9))
            out.append({"N": N, "helper": h, "w": gen.wires(rng, N, {"multi_control_gate": int(rng.integers(2, N + 1)) if N > 1 else 2,
                                                                    "gate_expand_1toN": 1, "multi_kron": 1}.get(h, 2)),
                        "p": gen.angle(rng), "seed": int(rng.integers(1 << 30))})
    for N in range(1, 6):
        for kind in gen.DENSITY_KINDS:
            out.append({"N": N, "meas": gen.density_desc(rng, kind), "seed": 0})
    return out


def angle(s):
    p = s["p"]
    if s["f"] == "float":
        return float(p)
    if s["f"] == "int":
        return int(p)
    if s["f"] == "grad":
        return torch.tensor(p, dtype=torch.float32, requires_grad=True)
    if s["f"] == "nonleaf":
        return torch.tensor([p, 1.0], dtype=torch.float32, requires_grad=True)[0]
    return torch.tensor(p, dtype=torch.float32)


def call(cir, s):
    c, w = s["c"], s["w"]
    if c == "multi_control_cnot":
        ctl = w[:-1] if s["f"] == "list" else tuple(w[:-1])
        keep = list(ctl)
        cir.multi_control_cnot(ctl, w[-1])
        return list(ctl) == keep
    if c[0] == "r":
        getattr(cir, c)(*w, angle(s))
    else:
        getattr(cir, c)(*w)
    return True


def spec(s):
    k = CALLS1.get(s["c"]) or CALLS2.get(s["c"]) or "multi_control_cnot"
    d = {"k": k, "w": s["w"]}
    if "p" in s:
        d["p"] = [s["p"]]
    return d


def gradient(case, rec, steps, specs, tag):
    """Back-propagation through the legacy circuit reaches every trained angle."""
    N = case["N"]
    rec.ev("drove gradient")
    leaves, at, cir = [], [], qgate.Circuit(N)
    for i, s in enumerate(steps):
        if "p" in s and s["f"] in ("grad", "nonleaf"):
            L = torch.tensor(s["p"], dtype=torch.float32, requires_grad=True)
            leaves.append(L)
            at.append(i)
            getattr(cir, s["c"])(*s["w"], L if s["f"] == "grad" else torch.stack([L, L * 2])[0])
        else:
            call(cir, s)
    W = np.random.default_rng(case["seed"]).normal(size=(2, 2 ** N, 2 ** N)).astype(np.float32)
    W = W[0] + 1j * W[1]
    y = (cir.U() * torch.from_numpy(W)).real.sum()
    if not rec.ok(y.requires_grad, "legacy circuit detached from its angles: " + tag):
        return
    g = torch.autograd.grad(y, leaves, allow_unused=True)
    if not rec.ok(all(x is not None for x in g), "legacy circuit: some angle is detached: " + tag):
        return
    want = []
    for i in at:
        v = []
        for m in (-2, -1, 1, 2):
            sp = specs[:i] + [dict(specs[i], p=[specs[i]["p"][0] + m * 1e-3])] + specs[i + 1:]
            v.append(float(np.sum(W * ref.circuit_matrix(sp, N)).real))
        want.append((v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * 1e-3))
    rec.close("legacy gradient: " + tag, np.array([complex(x) for x in g]), np.array(want, dtype=complex), 1e-5 * 2 ** N)


def helper(case, rec, r):
    h, N, w = case["helper"], case["N"], case["w"]
    rec.ev("drove helper " + h)
    real = bool(r.random() < 0.3)
    u = (r.normal(size=(2, 2)) + (0 if real else 1j * r.normal(size=(2, 2)))).astype(np.float32 if real else np.complex64)
    U = torch.from_numpy(u.copy())
    cir = qgate.Circuit(N)
    tag = "legacy %s: N=%d %s" % (h, N, w)
    if h == "multi_kron":
        ms = [r.normal(size=tuple(r.integers(1, 4, 2))).astype(np.float32) for _ in range(int(r.integers(1, 5)))]
        want = np.ones((1, 1))
        for m in ms:
            want = np.kron(want, m.astype(float))
        xs = [torch.from_numpy(m.copy()) for m in ms]
        rec.close(tag + " %s" % [m.shape for m in ms], cir.multi_kron(xs) + 0j, want.astype(complex), TOL * (1 + np.abs(want).max()))
        rec.ok(len(xs) == len(ms) and all(np.array_equal(x.numpy(), m) for x, m in zip(xs, ms)), tag + " changed its list")
        rec.raises(tag + " of nothing", lambda: cir.multi_kron([]))
    elif h == "gate_expand_1toN":
        rec.close(tag, cir.gate_expand_1toN(U, N, w[0]) + 0j, ref.op_on(u.astype(complex), w, N), TOL * 4)
        for bad in (N, N + 2):
            rec.raises(tag + " target %d" % bad, lambda: cir.gate_expand_1toN(U, N, bad))
    elif h == "two_qubit_rotation_gate":
        way = ["rxx", "ryy", "rzz"][int(r.integers(3))]
        t = torch.tensor(case["p"], dtype=torch.float32)
        want = ref.circuit_matrix([{"k": way, "w": w, "p": [case["p"]]}], N)
        rec.close(tag + " " + way, cir.two_qubit_rotation_gate(t, N, w[0], w[1], way), want, TOL)
        for bad in (N, -1, N + 3):
            rec.raises(tag + " first %d" % bad, lambda: cir.two_qubit_rotation_gate(t, N, bad, w[1], way))
            rec.raises(tag + " second %d" % bad, lambda: cir.two_qubit_rotation_gate(t, N, w[0], bad, way))
        rec.raises(tag + " same qubit twice", lambda: cir.two_qubit_rotation_gate(t, N, w[0], w[0], way))
        rec.raises(tag + " unknown kind", lambda: cir.two_qubit_rotation_gate(t, N, w[0], w[1], "rxy"))
    else:
        C = np.eye(2 ** len(w), dtype=complex)
        C[-2:, -2:] = u
        want = ref.op_on(C, w, N)
        if h == "two_qubit_control_gate":
            f = lambda c, t: cir.two_qubit_control_gate(U, N, c, t)
            rec.close(tag, f(*w) + 0j, want, TOL * 4)
            rec.raises(tag + " same qubit twice", lambda: f(w[0], w[0]))
            for bad in (N, N + 2):
                rec.raises(tag + " control %d" % bad, lambda: f(bad, w[1]))
                rec.raises(tag + " target %d" % bad, lambda: f(w[0], bad))
        else:
            c = list(w[:-1])
            rec.close(tag, cir.multi_control_gate(U, N, c, w[-1]) + 0j, want, TOL * 4)
            rec.ok(c == list(w[:-1]), tag + " changed its list of controls")
            rec.raises(tag + " target among the controls", lambda: cir.multi_control_gate(U, N, c, c[0]))
            for bad in (N, -1, N + 2):
                rec.raises(tag + " control %d" % bad, lambda: cir.multi_control_gate(U, N, c[:-1] + [bad], w[-1]))
                rec.raises(tag + " target %d" % bad, lambda: cir.multi_control_gate(U, N, c, bad))
    rec.ok(np.array_equal(U.numpy(), u), tag + " changed the matrix given")
    rec.ok(len(cir.gate_list) == 0, tag + " recorded a gate")
    rec.close(tag + ": the circuit itself", cir.U(), np.eye(2 ** N, dtype=complex), 0.0)
    rec.seen("helper", h, N, tuple(w), real)


def run(case, rec):
    N = case["N"]
    d = 2 ** N
    r = np.random.default_rng(case["seed"])
    if "helper" in case:
        helper(case, rec, r)
        return
    if "meas" in case:
        R = gen.density(case["meas"], N)
        x = torch.from_numpy(R.copy())
        cir = qgate.Circuit(N)
        with contextlib.redirect_stdout(io.StringIO()):
            m = cir.measure(x, N)
            one = [cir.expecval_ZI(x, N, q) for q in range(N)]
        want = np.array([np.trace(R.astype(complex) @ ref.op_on(ref.Z, [q], N)).real for q in range(N)])
        rec.ev("drove measure")
        rec.close("legacy measure: N=%d %s" % (N, case["meas"]["t"]), npy(m).reshape(-1), want.astype(complex), TOL)
        rec.close("legacy expecval_ZI: N=%d %s" % (N, case["meas"]["t"]), np.array([complex(o) for o in one]), want.astype(complex), TOL)
        rec.ok(np.array_equal(x.numpy(), R), "legacy measure changed the density matrix")
        rec.seen("measure", N, case["meas"]["t"])
        return
    if "reject" in case:
        c = case["reject"]
        rec.ev("drove reject " + c)
        cir = qgate.Circuit(N)
        pre = [step(r, N, k) for k in (["rx", "cnot"] if N > 1 else ["rx"])]
        for s in pre:
            call(cir, s)
        U0 = ref.circuit_matrix([spec(s) for s in pre], N)
        for bad in (N, N + 1, N + 7, -1, -N, -N - 1):
            if c in CALLS1:
                ws = [[bad]]
            elif c in CALLS2:
                ws = [[bad, q] for q in range(N)] + [[q, bad] for q in range(N)]
            else:
                ws = [[bad, q] for q in range(N)] + [[q, bad] for q in range(N)] + ([[0, bad, 1], [0, 1, bad], [bad, 0, 1]] if N > 2 else [])
            for w in ws:
                s = {**step(r, max(N, 2), c), "w": w}
                rec.raises("legacy %s on %s of %d qubits" % (c, w, N), lambda: call(cir, s))
        rec.close("legacy matrix after rejected calls of %s" % c, cir.U(), U0, TOL)
        rec.seen("reject", N, c)
        return
    steps = case["steps"]
    cir = qgate.Circuit(N)
    other = qgate.Circuit(N)                     # a second circuit must not be affected
    specs = [spec(s) for s in steps]
    tag = "N=%d %s" % (N, [(s["c"], s["w"]) for s in steps])
    for i, s in enumerate(steps):
        if i == case["peek"]:
            rec.ev("drove intermediate matrix")
            rec.close("legacy U() between calls: " + tag, cir.U(), ref.circuit_matrix(specs[:i], N), TOL * (1 + 0.1 * i))
        rec.ok(call(cir, s), "legacy call changed the caller's list: " + tag)
        rec.ev("drove call " + s["c"])
        if len(s["w"]) == 2 and s["w"][1] == 0:
            rec.ev("drove second qubit 0")
    n = len(steps)
    tol = TOL * (1 + 0.1 * n)
    fwd = ref.circuit_matrix(specs, N)
    bwd = ref.circuit_matrix(specs[::-1], N)
    if case["rev"]:
        rec.ev("drove reversed product")
        rec.close("legacy gate_sequence_product(left_to_right=False): " + tag, cir.gate_sequence_product(left_to_right=False), bwd, tol)
    U = rec.arr(cir.U(), "U")
    rec.close("legacy U(): " + tag, U, fwd, tol)
    rec.close("legacy unitarity: " + tag, U @ U.conj().T, np.eye(d, dtype=complex), tol)
    rec.close("legacy gate_sequence_product(): " + tag, cir.gate_sequence_product(), fwd, tol)
    rec.ev("drove reversed product")
    rec.close("legacy gate_sequence_product(False): " + tag, cir.gate_sequence_product(False), bwd, tol)
    rec.close("legacy U() again: " + tag, cir.U(), fwd, tol)
    if n <= 12 and N <= 4 and any(s.get("f") in ("grad", "nonleaf") for s in steps):
        gradient(case, rec, steps, specs, tag)
    gl = cir.gate_list
    if rec.ok(len(gl) == n, "legacy gate_list: %d entries for %d calls: %s" % (len(gl), n, tag)):
        for i, (g, s) in enumerate(zip(gl, steps)):
            rec.ok(g["gate"] == NAME.get(s["c"], s["c"]), "legacy gate_list: entry %d is %r: %s" % (i, g["gate"], tag))
            q = g["which_qubit"]
            q = [q] if isinstance(q, int) else list(q)
            rec.ok(q == s["w"], "legacy gate_list: entry %d has qubits %s: %s" % (i, q, tag))
            if "p" in s:
                rec.ok(g["theta"] is not None and abs(float(g["theta"]) - s["p"]) <= 1e-6 * (1 + abs(s["p"])),
                       "legacy gate_list: entry %d has angle %s, given %s: %s" % (i, g["theta"], s["p"], tag))
            else:
                rec.ok(g["theta"] is None, "legacy gate_list: entry %d has angle %s for a gate without one: %s" % (i, g["theta"], tag))
    rec.ok(len(other.gate_list) == 0, "legacy gate_list shared between circuits: " + tag)
    rec.close("legacy other circuit: " + tag, other.U(), np.eye(d, dtype=complex), TOL)
    rec.seen(N, tuple((s["c"], tuple(s["w"]), s.get("f")) for s in steps), case["rev"])
