"""C24: what operations and circuits report about themselves."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import Circuit, build, par, npy, mps_of, mps_dense, mps_shape_problem, tensor_of, ONEP, PSTYLES1, PSTYLESV

PROP = "C24"
REPEAT = 6                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (kind, N, wires, parameter form, number of updates); judged: num_params, num_wires, nqubits, wires, info roles and "
        "parameters, self_inverse, diagonal, matrix, supportTN against what evolution really does; circuits: TN_check against their operations")
REQUIRED = ["drove " + k for k in gen.EVERY] + ["drove after update", "drove TN_check true", "drove TN_check false", "drove flagged unsupported", "drove TN_check of a growing circuit"]
TOL = 4e-6


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(N, s):
        st = PSTYLES1 if s["k"] in ONEP else PSTYLESV
        out.append({"N": N, "s": s, "ps": st[int(rng.integers(len(st)))], "psi": gen.state_desc(rng, N),
                    "upd": [gen.angles(rng, len(s["p"])) for _ in range(int(rng.integers(0, 3) if rng.random() < 0.9 else rng.integers(3, 8)))] if s.get("p") else []})
    for k in gen.EVERY:
        for N in range(1, 6 if deep else 5):
            if not gen.any_kind_ok(k, N):
                continue
            n = gen.nw(k)
            if n:
                for w in gen.all_wire_tuples(N, n):
                    for _ in range(4 if deep else 1):
                        mk(N, gen.gate(rng, N, k, w))
            for _ in range(30 if deep else 8):
                mk(N, gen.op(rng, N, k))
    for k in gen.EVERY:
        for N in (6, 7, 8):
            for _ in range(3 if N < 8 else 1):
                mk(N, gen.op(rng, N, k))
    for _ in range(3000 if deep else 1000):
        N = int(rng.integers(1, 6)) if rng.random() < 0.95 else int(rng.integers(6, 9))
        bad = rng.random() < 0.5
        specs = gen.circuit(rng, N, int(rng.integers(0, 7)), gen.TN_ALL, tn=True)
        if bad and N > 1:
            specs.insert(int(rng.integers(len(specs) + 1)), gen.op(rng, N, ["multi_control_cnot", "ring_of_cnot2", "BasicEntangleLayer"][int(rng.integers(3))]))
        if N > 2 and rng.random() < 0.4:             # the same kind on a few wires only, flagged otherwise
            for _ in range(int(rng.integers(1, 3))):
                specs.insert(int(rng.integers(len(specs) + 1)), gen.op(rng, N, ["ring_of_cnot", "ring_of_cnot_dagger"][int(rng.integers(2))]))
        out.append({"N": N, "ops": specs, "psi": gen.state_desc(rng, N)})
    return out


def roles(s):
    """(controls, targets) as the textbook has them; None = not judged."""
    k, w = s["k"], list(s["w"])
    if k in ("cnot", "cz", "cphase", "cu3", "toffoli", "multi_control_cnot"):
        return "gate", (sorted(w[:-1]), [w[-1]])
    if k in ("ring_of_cnot", "ring_of_cnot_dagger", "ring_of_cnot2"):
        hop = 2 if k == "ring_of_cnot2" else 1
        if len(w) == 2:
            return "pairs", [(w[0], w[1])]
        return "pairs", sorted((w[i], w[(i + hop) % len(w)]) for i in range(len(w)))
    return "gate", ([], sorted(w))


def works(op, s, N, v, rec, tag):
    """Does MPS evolution and contraction of the operation really work?"""
    want = ref.evolve([s], v.astype(complex), N)
    with torch.no_grad():
        m = op.TN_operation(mps_of(v, N))
        p = mps_shape_problem(m, N)
        if rec.ok(p is None, "flagged as supporting TN, MPS malformed: %s: %s" % (tag, p)):
            rec.close("flagged as supporting TN, TN_operation: " + tag, mps_dense(m), want, 1.2e-5)
        rec.close("flagged as supporting TN, TN_contract: " + tag, npy(op.TN_contract(tensor_of(v, N))).reshape(-1), want, TOL)


def run(case, rec):
    N = case["N"]
    if "ops" in case:
        cir = Circuit(N)
        flags = []
        for n, s in enumerate(case["ops"]):
            o = build(s, N)
            flags.append(bool(o.supportTN))
            cir.add(o)
            if (case["psi"]["s"] >> (n % 8)) & 1:      # asked while the circuit grows
                rec.ev("drove TN_check of a growing circuit")
                got = cir.TN_check()
                rec.ok(bool(got) is all(flags), "TN_check after %d operations: %s for %s with flags %s" % (n + 1, got, [s["k"] for s in case["ops"]], flags))
        want = all(flags)
        got = cir.TN_check()
        rec.ev("drove TN_check " + ("true" if want else "false"))
        rec.ok(bool(got) is want, "TN_check: %s for operations %s with flags %s" % (got, [s["k"] for s in case["ops"]], flags))
        if got:
            with torch.no_grad():
                cir.TN_evolution(mps_of(gen.state({"t": "random", "s": 5}, N), N))
        rec.seen("circuit", N, tuple(s["k"] for s in case["ops"]))
        return
    s = dict(case["s"])
    k = s["k"]
    op = build(s, N, case["ps"])
    rec.ev("drove " + k)
    v = gen.state(case["psi"], N)
    for u in range(len(case["upd"]) + 1):
        if u:
            s["p"] = case["upd"][u - 1]
            op.params_update(par(k, s["p"], case["ps"]))
            rec.ev("drove after update")
        tag = "%s N=%d wires=%s form=%s after %d updates" % (k, N, s["w"], case["ps"], u)
        M = ref.matrix(s, N)
        n = len(s.get("p") or [])
        rec.ok(op.num_params == n, "num_params: %s is %s, takes %d" % (tag, op.num_params, n))
        rec.ok(op.nqubits == N, "nqubits: %s is %s" % (tag, op.nqubits))
        w = [op.wires] if isinstance(op.wires, int) else list(op.wires)
        rec.ok(w == s["w"], "wires: %s reports %s" % (tag, w))
        if hasattr(op, "num_wires"):
            rec.ok(op.num_wires == len(s["w"]), "num_wires: %s is %s" % (tag, op.num_wires))
        i = op.info()
        c, t = list(i["contral_lst"]), list(i["target_lst"])
        kind, want = roles(s)
        if kind == "gate":
            rec.ok((sorted(c), sorted(t)) == want, "info roles: %s reports controls %s targets %s" % (tag, c, t))
        else:
            rec.ok(len(c) == len(t) and sorted(zip(c, t)) == want, "info roles: %s reports controls %s targets %s" % (tag, c, t))
        if n:
            p = i["params"]
            ok = p is not None
            if rec.ok(ok, "info params: %s reports none" % tag):
                p = npy(p) if torch.is_tensor(p) else np.asarray(p, dtype=complex)
                rec.close("info params: " + tag, p.reshape(-1), np.array(s["p"], dtype=complex), 1e-6 * (1 + np.abs(s["p"]).max()))
        else:
            rec.ok(i["params"] is None or len(i["params"]) == 0, "info params: %s reports %s" % (tag, i["params"]))
        U = rec.arr(op.U_expand(), "U_expand")
        if getattr(op, "self_inverse", None):
            rec.close("flagged self-inverse: " + tag, U @ U, np.eye(2 ** N, dtype=complex), TOL)
        if getattr(op, "diagonal", None):
            rec.ok(np.abs(U - np.diag(np.diag(U))).max() <= 1e-7, "flagged diagonal: %s has off-diagonal entries" % tag)
        if hasattr(op, "matrix"):
            L = len(s["w"])
            rec.close("matrix: " + tag, op.matrix, ref.matrix({**s, "w": list(range(L))}, L), TOL)
        if op.supportTN:
            works(op, s, N, v, rec, tag)
        else:
            rec.ev("drove flagged unsupported")
    rec.seen(k, N, tuple(s["w"]), case["ps"], len(case["upd"]))
