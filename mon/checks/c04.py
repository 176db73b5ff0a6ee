"""C04: matrix-product-state evolution, judged after every single step."""
import copy
import numpy as np
import torch
from .. import gen, ref
from ..adapter import build, mkcircuit, mps_of, mps_dense, mps_shape_problem, mps_norm, mps_amplitudes, wide_mps, tvec, PSTYLES1, PSTYLESV, ONEP

PROP = "C04"
REPEAT = 2                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, initial-state family and gauge, sequence of operation kinds with wires); after EVERY "
        "step of every history the list is checked for shape/bond invariants, equality with the dense reference and norm")
GAUGES = ["lib", "right", "mixed", "fat", "uniform", "scaled"]
REQUIRED = ["drove TN_operation " + k for k in gen.TN_ALL] + ["drove TN_evolution", "drove classical chain", "drove wide register", "drove wide TN_evolution"] + ["drove gauge " + g for g in GAUGES]


def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    # every TN operation, every wire order, on states of every family
    for k in gen.TN_GATES:
        for N in range(1, 6 if deep else 5):
            n = gen.nw(k)
            if n > N:
                continue
            for w in gen.all_wire_tuples(N, n):
                for _ in range(6 if deep else 3):
                    out.append(mk(rng, N, [gen.gate(rng, N, k, w)]))
    for k in gen.TN_LAYERS:
        for N in range(1, 7):
            if not gen.any_kind_ok(k, N):
                continue
            for _ in range(6 if deep else 3):
                out.append(mk(rng, N, [gen.layer(rng, N, k, full=k in gen.TWOQ_RING)]))
            if k in gen.TWOQ_RING:
                for kk in gen.STATE_KINDS:
                    out.append(mk(rng, N, [gen.layer(rng, N, k, full=True)], kk))
    # far apart wires in larger registers
    for k in ref.GATES2 + ["toffoli"]:
        for N in ((6, 7, 8, 9) if deep else (6, 7)):
            for _ in range(6 if deep else 3):
                out.append(mk(rng, N, [gen.gate(rng, N, k)]))
    # histories
    for _ in range(8000 if deep else 1200):
        N = int(rng.integers(1, 9 if deep else 8))
        out.append(mk(rng, N, gen.circuit(rng, N, int(rng.integers(2, 25)), gen.TN_ALL, tn=True)))
    for _ in range(200 if deep else 40):       # long runs, larger registers
        N = int(rng.integers(6, 13 if deep else 10))
        out.append(mk(rng, N, gen.circuit(rng, N, int(rng.integers(30, 120 if deep else 60)), gen.TN_ALL, tn=True)))
    for N in (10, 11, 12, 13):                  # bonds beyond 32
        for kk in ("random", "phase", "bellpair", "smallsv"):
            for _ in range(4 if deep else 1):
                out.append(mk(rng, N, gen.circuit(rng, N, 3, gen.TN_ALL, tn=True), kk))
    for _ in range(300 if deep else 60):
        N = int(rng.integers(2, 9))
        out.append(mk(rng, N, gen.circuit(rng, N, int(rng.integers(1, 20)), [k for k in CLASSICAL if k in gen.TN_ALL], tn=True), ["zero", "basis"][int(rng.integers(2))]))
        out[-1]["gauge"] = "lib"
    for k in ref.GATES2 + ["toffoli"]:
        for kk in gen.STATE_KINDS:
            N = int(rng.integers(3, 7))
            out.append(mk(rng, N, [gen.gate(rng, N, k)], kk))
    for k in gen.TN_ALL:
        for kk in ("zero", "basis", "product"):
            for _ in range(4 if deep else 2):
                N = int(rng.integers(2, 6)) if gen.nw(k) != 3 else int(rng.integers(3, 6))
                out.append(mk(rng, N, gen.circuit(rng, N, 1, [k], tn=True) + gen.circuit(rng, N, 1, gen.TN_ALL, tn=True), kk))
                out[-1]["gauge"] = "scaled"
    for N in (14, 16, 18, 20, 24, 30, 40) if deep else (14, 17, 20, 24, 32):        # registers too wide for a state vector
        for _ in range(12 if deep else 6):
            a = gen.wide_terms(rng, N)
            ks = [k for k in gen.TN_ALL if N < 15 or k not in gen.TWOQ_RING]
            if rng.random() < 0.25:
                ks = [k for k in CLASSICAL if k in gen.TN_ALL]
                a = {list(a)[0]: 1 + 0j}
            out.append({"N": N, "wide": [[str(b), x.real, x.imag] for b, x in a.items()], "circ": bool(rng.random() < 0.5),
                        "ops": gen.wide_circuit(rng, N, a, int(rng.integers(1, 9)), ks), "seed": int(rng.integers(1 << 30))})
    return out


CLASSICAL = ("PauliX", "cnot", "SWAP", "toffoli", "multi_control_cnot", "ring_of_cnot", "ring_of_cnot_dagger")


def mk(rng, N, specs, kind=None):
    return {"N": N, "ops": specs, "psi": gen.state_desc(rng, N, kind), "gauge": (["lib"] + GAUGES)[int(rng.integers(7))],
            "ps": ["plain", "t0", "grad"][int(rng.integers(3))], "circ": bool(rng.random() < 0.5)}


def right_mps(v, N):
    """A right-canonical MPS made by the harness (numpy SVD, truncated at 1e-7)."""
    T = np.asarray(v, dtype=np.complex128).reshape(-1, 1)
    out = []
    for q in range(N - 1, -1, -1):
        r = T.shape[1]
        M = T.reshape(2 ** q, 2 * r)
        U, S, V = np.linalg.svd(M, full_matrices=False)
        k = max(1, int((S > 1e-7).sum()))
        if q == 0:
            k = 1
            out.append((U[:, :1] * S[:1] @ V[:1]).reshape(1, 2, r).transpose(1, 0, 2))
        else:
            out.append(V[:k].reshape(k, 2, r).transpose(1, 0, 2))
            T = U[:, :k] * S[:k]
    return [torch.from_numpy(np.ascontiguousarray(t).astype(np.complex64)) for t in out[::-1]]


def other_mps(v, N, seed, fat):
    """The same state with its centre on some site and unitary gauges on the bonds; fat: bonds of full size, unused dimensions included."""
    r = np.random.default_rng(seed)
    ts = [t.numpy().astype(complex) for t in right_mps(v, N)]
    c = int(r.integers(N))
    for q in range(c):                            # move the centre to site c
        p, l, k = ts[q].shape
        Q, R = np.linalg.qr(ts[q].transpose(1, 0, 2).reshape(l * p, k))
        ts[q] = Q.reshape(l, p, -1).transpose(1, 0, 2)
        ts[q + 1] = np.einsum("ab,pbc->pac", R, ts[q + 1])
    for q in range(N - 1):
        k = ts[q].shape[2]
        if fat:
            full = 2 ** min(q + 1, N - q - 1)
            ts[q] = np.pad(ts[q], ((0, 0), (0, 0), (0, full - k)))
            ts[q + 1] = np.pad(ts[q + 1], ((0, 0), (0, full - k), (0, 0)))
            k = full
        G, _ = np.linalg.qr(r.normal(size=(k, k)) + 1j * r.normal(size=(k, k)))
        ts[q] = ts[q] @ G
        ts[q + 1] = np.einsum("ab,pbc->pac", G.conj().T, ts[q + 1])
    return [torch.from_numpy(np.ascontiguousarray(t).astype(np.complex64)) for t in ts]


def uniform(seed, N):
    """Translation-invariant chain: the same tensor object on every bulk site.  -> (list, vector)."""
    ts = gen.uniform_mps(seed, N)
    made = {}
    return [made.setdefault(id(t), torch.from_numpy(t)) for t in ts], gen.mps_vector(ts)


def tolerance(n):
    return 6e-6 * (1 + 0.05 * n)


def wide(case, rec):
    """Matrix products of many qubits, judged by amplitudes on the support and by the norm."""
    N = case["N"]
    amps = {int(b): complex(x, y) for b, x, y in case["wide"]}
    mps = wide_mps(amps, N)
    start = [t.clone() for t in mps]
    rng = np.random.default_rng(case["seed"])
    rec.seen(N, "wide", len(case["wide"]), tuple((s["k"], tuple(s["w"])) for s in case["ops"]))
    norm = np.sqrt(sum(abs(a) ** 2 for a in amps.values()))
    steps = 0

    def judge(m, what):
        p = mps_shape_problem(m, N)
        if not rec.ok(p is None, "MPS invariant: %s: %s" % (what, p)):
            return False
        keys = sorted(amps)
        got = mps_amplitudes(m, keys, N)
        if not rec.close("wide register: " + what, got, np.array([amps[k] for k in keys]), tolerance(steps)):
            return False
        return rec.ok(abs(mps_norm(m) - norm) <= tolerance(steps), "MPS norm: wide register, " + what)

    with torch.no_grad():
        for i, s in enumerate(case["ops"]):
            mps = build(s, N, "plain", "list").TN_operation(mps)
            amps = ref.sparse_evolve(s, amps, N)
            steps += len(ref.expand(s)) * (1 + (max(s["w"]) - min(s["w"]) if len(s["w"]) > 1 else 0))
            if not judge(mps, "step %d %s on %s, N=%d" % (i, s["k"], s["w"], N)):
                return
            rec.ev("drove wide register")
            rec.ev("steps judged")
            if len(case["wide"]) == 1 and all(x["k"] in CLASSICAL for x in case["ops"][:i + 1]):
                rec.ok(max(t.shape[2] for t in mps) == 1, "MPS invariant: bonds %s of a computational basis state of %d qubits after %d classical gates"
                       % ([t.shape[2] for t in mps], N, i + 1))
            if max(t.shape[2] for t in mps) > 24:      # singular values of rounding noise are kept: costs grow, nothing to judge
                rec.ev("wide register left with bonds above 24")
                break
        else:
            if not case["circ"]:
                return
            m2 = mkcircuit(case["ops"], N, rng).TN_evolution(start)
            rec.ev("drove wide TN_evolution")
            judge(m2, "TN_evolution of %s, N=%d" % ([s["k"] for s in case["ops"]], N))


def run(case, rec):
    if "wide" in case:
        wide(case, rec)
        return
    N = case["N"]
    v = gen.state(case["psi"], N)
    g = case["gauge"]
    if g == "uniform":
        mps, v = uniform(case["psi"]["s"], N)
    elif g == "scaled":                            # the norm and the phase spread over the sites
        r = np.random.default_rng(case["psi"]["s"])
        f = np.exp(r.uniform(-0.7, 0.7, N) + 1j * r.choice([0, np.pi / 2, np.pi, 1], N))
        f[-1] = 1 / np.prod(f[:-1])
        mps = [t * complex(c) for t, c in zip(mps_of(v, N), f)]
    else:
        mps = mps_of(v, N) if g == "lib" else right_mps(v, N) if g == "right" else other_mps(v, N, case["psi"]["s"], g == "fat")
    rec.ev("drove gauge " + g)
    psi = v.astype(np.complex128)
    start = [t.clone() for t in mps] if g != "uniform" else uniform(case["psi"]["s"], N)[0]
    steps = 0
    classical = case["psi"]["t"] in ("zero", "basis") and g == "lib"
    with torch.no_grad():
        for i, s in enumerate(case["ops"]):
            op = build(s, N, case["ps"], "list")
            mps = op.TN_operation(mps)
            rec.ev("drove TN_operation " + s["k"])
            psi = ref.evolve([s], psi, N)
            steps += len(ref.expand(s)) * (1 + (max(s["w"]) - min(s["w"]) if len(s["w"]) > 1 else 0))
            p = mps_shape_problem(mps, N)
            if not rec.ok(p is None, "MPS invariant: after step %d (%s on %s): %s" % (i, s["k"], s["w"], p)):
                return
            got = mps_dense(mps)
            if not rec.close("TN_operation: step %d %s on %s, N=%d" % (i, s["k"], s["w"], N), got, psi, tolerance(steps)):
                return
            rec.ok(abs(np.linalg.norm(got) - 1) <= tolerance(steps), "MPS norm: after step %d %s" % (i, s["k"]))
            rec.ev("steps judged")
            rec.ev("max bond %d" % max(t.shape[2] for t in mps))
            classical = classical and s["k"] in CLASSICAL
            if classical:
                rec.ev("drove classical chain")
                rec.ok(max(t.shape[2] for t in mps) == 1, "MPS invariant: bonds %s of a computational basis state after %d classical gates, last %s on %s"
                       % ([t.shape[2] for t in mps], i + 1, s["k"], s["w"]))
        if case["circ"]:
            cir = mkcircuit(case["ops"], N, np.random.default_rng(case["psi"]["s"]))
            m2 = cir.TN_evolution(start)
            rec.ev("drove TN_evolution")
            p = mps_shape_problem(m2, N)
            if rec.ok(p is None, "MPS invariant: after TN_evolution: %s" % p):
                rec.close("TN_evolution: %s" % [s["k"] for s in case["ops"]], mps_dense(m2), psi, tolerance(steps))
    rec.seen(N, case["psi"]["t"], case["gauge"], tuple((s["k"], tuple(s["w"])) for s in case["ops"]))
