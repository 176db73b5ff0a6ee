"""C03: circuits = ordered product, bookkeeping, clear()."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import Circuit, add_to, npy, PSTYLESV, WSTYLES

PROP = "C03"
REPEAT = 2                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, sequence of operation kinds, builder/add pattern, number of clear() calls before); "
        "judged after every history: U in both orders, unitarity, parameter total, parameter record, initial state")
REQUIRED = ["drove the same object again"] + ["drove %s via %s" % (k, v) for k in gen.EVERY for v in ("add", "builder")] + ["drove clear"]
KINDS = gen.EVERY


def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    # every kind once alone through both routes, at several sizes
    for k in KINDS:
        for via in ("add", "builder"):
            for N in (2, 3, 4):
                if gen.any_kind_ok(k, N):
                    out.append({"N": N, "segs": [[gen.op(rng, N, k)]], "via": [via], "ps": "list", "ws": "list", "seed": 0})
    # every ordered pair of kinds
    N = 3
    for a in KINDS:
        for b in KINDS:
            out.append({"N": N, "segs": [[gen.op(rng, N, a), gen.op(rng, N, b)]], "via": ["mix"], "ps": "list",
                        "ws": "list", "seed": int(rng.integers(1 << 30))})
    for _ in range(25000 if deep else 4000):
        N = int(rng.integers(1, 8 if deep else 6))
        nseg = 1 if rng.random() < 0.6 else int(rng.integers(2, 4))
        segs = [gen.circuit(rng, N, int(rng.integers(0, 40 if deep else 16)), KINDS) for _ in range(nseg)]
        out.append({"N": N, "segs": segs, "via": [["add", "builder", "mix"][int(rng.integers(3))] for _ in segs],
                    "ps": PSTYLESV[int(rng.integers(len(PSTYLESV)))], "ws": WSTYLES[int(rng.integers(len(WSTYLES)))],
                    "seed": int(rng.integers(1 << 30))})
    for n in ((60, 90, 130, 200, 260) if deep else (60, 90, 130)):        # long circuits, larger registers
        for N in (1, 2, 3, 4):
            long(rng, out, N, n)
    for N in (6, 7, 8, 9):
        for _ in range(20 if deep else 12 if N < 9 else 4):
            long(rng, out, N, int(rng.integers(1, 12)))
    for _ in range(3):
        long(rng, out, 10, int(rng.integers(2, 6)))
    return out


def long(rng, out, N, n):
    out.append({"N": N, "segs": [gen.circuit(rng, N, n, KINDS)], "via": ["mix"], "ps": PSTYLESV[int(rng.integers(len(PSTYLESV)))], "ws": "list",
                "seed": int(rng.integers(1 << 30))})


def judge(cir, N, specs, rec, tag, extra=True):
    tol = 4e-6 * (1 + 0.1 * sum(len(ref.expand(s)) for s in specs))
    U = npy(cir.U())
    W = ref.circuit_matrix(specs, N)
    rec.close("U: %s %s" % (tag, [s["k"] for s in specs]), U, W, tol)
    rec.rel("U: %s %s" % (tag, [s["k"] for s in specs]), U, W, tol * 0.5)
    if not extra:
        return
    rec.ok(np.max(np.abs(U.conj().T @ U - np.eye(2 ** N))) <= tol, "U not unitary: %s" % tag)
    V = np.eye(2 ** N, dtype=complex)
    for s in specs:
        V = V @ ref.matrix(s, N)
    rec.close("U(left_to_right=False): %s" % tag, npy(cir.U(left_to_right=False)), V, tol)
    total = sum(len(s.get("p") or []) for s in specs)
    rec.ok(cir.cir_num_params == total, "cir_num_params: %s is %s, expected %d" % (tag, cir.cir_num_params, total))
    rec.ok(len(cir.gate) == len(specs), "gate list: %s has %d entries, expected %d" % (tag, len(cir.gate), len(specs)))
    rec.ok(sorted(cir.cir_params) == list(range(len(specs))), "cir_params keys: %s are %s" % (tag, sorted(cir.cir_params)))
    for i, s in enumerate(specs):
        got = cir.cir_params.get(i, "missing")
        if s.get("p"):
            if torch.is_tensor(got):
                rec.close("cir_params entry: %s position %d (%s)" % (tag, i, s["k"]), npy(got).reshape(-1),
                          np.array(s["p"]), 1e-6 * (1 + max(abs(x) for x in s["p"])))
            else:
                rec.ok(False, "cir_params entry: %s position %d (%s) is %s" % (tag, i, s["k"], got))
        else:
            rec.ok(got is None, "cir_params entry: %s position %d (%s) is %s, expected None" % (tag, i, s["k"], got))
    e0 = np.zeros(2 ** N)
    e0[0] = 1
    rec.close("state_init: %s" % tag, npy(cir.state_init()), e0, 0)


def run(case, rec):
    N = case["N"]
    r = np.random.default_rng(case["seed"])
    cir = Circuit(N)
    other = Circuit(N)              # a bystander that must stay empty
    for j, (specs, via) in enumerate(zip(case["segs"], case["via"])):
        if j:
            cir.clear()
            rec.ev("drove clear")
            judge(cir, N, [], rec, "cleared")
        done = []
        for i, s in enumerate(specs):
            v = via if via != "mix" else ("add" if r.random() < 0.5 else "builder")
            rec.ev("drove %s via %s" % (s["k"], v))
            add_to(cir, s, v, case["ps"], case["ws"])
            done.append(s)
            if case["seed"] % 3 == 0 and r.random() < 0.3:      # the very same object once more
                o = int(r.integers(len(done)))
                cir.add(cir.gate[o])
                done.append(done[o])
                rec.ev("drove the same object again")
            if r.random() < 0.1:
                judge(cir, N, done, rec, "prefix", extra=False)
        judge(cir, N, done, rec, "segment %d" % j)
    judge(other, N, [], rec, "other circuit")
    rec.seen(N, tuple(tuple(s["k"] for s in g) for g in case["segs"]), tuple(case["via"]))
