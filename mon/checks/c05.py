"""C05/C06 share this machinery: direct contraction, single and batched."""
import numpy as np
import torch
from .. import gen, ref
from ..adapter import build, mkcircuit, npy

PROP = "C05"
REPEAT = 4                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, memory layout of the input, operation kinds with wires, single operation or whole circuit); "
        "judged: the complete returned tensor, its rank, and that the argument is bit-for-bit unchanged")
REQUIRED = ["drove TN_contract " + k for k in gen.TN_ALL] + ["drove TN_contract_evolution"]
LAYOUTS = ["plain", "permuted", "reversed", "sliced", "conj", "expanded", "neg", "broadcast"]


def cases(rng, tier, batched=False):
    deep = tier == "thorough"
    out = []

    def mk(N, specs):
        c = {"N": N, "ops": specs, "psi": gen.state_desc(rng, N), "lay": LAYOUTS[int(rng.integers(len(LAYOUTS)))],
             "ps": ["plain", "t0", "grad"][int(rng.integers(3))], "circ": bool(rng.random() < 0.4),
             "scale": float([1.0, 1.0, 3.0, 0.25][int(rng.integers(4))]), "seed": int(rng.integers(1 << 30))}
        if batched:
            c["cor"] = CORR[int(rng.integers(len(CORR)))] if rng.random() < 0.4 else "none"
            c["B"] = int([1, 2, 3, 4, 5, 8, 7, 16, 2 ** N if N < 6 else 33 if N < 9 else 2][int(rng.integers(9))])
        out.append(c)
    for k in gen.TN_GATES:
        n = gen.nw(k)
        for N in range(n, 6 if deep else 5):
            for w in gen.all_wire_tuples(N, n):
                for _ in range(8 if deep else 4):
                    mk(N, [gen.gate(rng, N, k, w)])
        for N in range(max(n, 5), 9 if deep else 8):
            for _ in range(8 if deep else 3):
                mk(N, [gen.gate(rng, N, k)])
    for k in gen.TN_LAYERS:
        for N in range(2 if k in gen.TWOQ_RING else 1, 8):
            for _ in range(8 if deep else 3):
                mk(N, [gen.layer(rng, N, k, full=k in gen.TWOQ_RING)])
    for _ in range(16000 if deep else 2500):
        N = int(rng.integers(1, 10 if deep else 8))
        mk(N, gen.circuit(rng, N, int(rng.integers(0, 40 if deep else 20)), gen.TN_ALL, tn=True))
    if batched:                                 # large batches
        for B in (31, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300) + ((511, 513, 1000, 1025) if deep else (513,)):
            for j in range(4 if deep else 3):
                N = int(rng.integers(1, 5))
                mk(N, gen.circuit(rng, N, int(rng.integers(1, 5)), gen.TN_ALL, tn=True))
                out[-1].update(B=B, circ=j > 0)
    for n in (50, 80, 120):                     # long circuits
        for N in (2, 3, 4, 5):
            for _ in range(3 if deep else 1):
                mk(N, gen.circuit(rng, N, n, gen.TN_ALL, tn=True))
                out[-1]["circ"] = True
    for _ in range(40 if deep else 12):
        N = int(rng.integers(8, 11))
        mk(N, gen.circuit(rng, N, int(rng.integers(2, 10)), gen.TN_ALL, tn=True))
    for k in gen.TN_ALL:                        # large registers
        for N in (9, 10, 11, 12, 13, 14, 15, 16) if deep else (9, 11, 13, 14):
            mk(N, [gen.op(rng, N, k, tn=True)])
            if batched:
                out[-1]["B"] = min(out[-1]["B"], 3)
    return out


CORR = ["first last", "all equal", "two equal", "scaled copies", "zero sample", "permuted", "phases", "neighbours", "conjugates"]


def correlate(vs, how, seed):
    """A batch of related samples, as data sets have them."""
    r = np.random.default_rng([seed, 5])
    B = len(vs)
    vs = vs.copy()
    i, j = int(r.integers(B)), int(r.integers(B))
    if how == "first last":
        vs[-1] = vs[0]
    elif how == "all equal":
        vs[:] = vs[0]
    elif how == "two equal":
        vs[i] = vs[j]
    elif how == "scaled copies":
        vs = vs[:1] * r.choice([1, -1, 2, 0.5, 0], (B, 1)).astype(np.float32)
    elif how == "zero sample":
        vs[i] = 0
    elif how == "permuted":                      # the same amplitudes in another order
        vs = np.stack([vs[0][r.permutation(vs.shape[1])] if b else vs[0] for b in range(B)])
    elif how == "phases":
        vs = vs[:1] * np.exp(1j * r.uniform(0, 6.28, (B, 1)))
    elif how == "neighbours":
        vs = vs[:1] + 1e-3 * r.normal(size=vs.shape)
    elif how == "conjugates":
        vs[-1] = vs[0].conj()
    return vs


def constant_along(vs, N, seed):
    r = np.random.default_rng([seed, 6])
    t = vs.reshape((-1,) + (2,) * N).copy()
    for a in r.permutation(N)[:int(r.integers(1, N + 1))]:
        t[...] = t.take([0], axis=1 + int(a))
    return t.reshape(vs.shape)


def layout(x, how, seed):
    """numpy array -> torch tensor with equal values but another memory layout."""
    t = torch.from_numpy(np.ascontiguousarray(x).astype(np.complex64))
    r = np.random.default_rng(seed)
    d = t.dim()
    if how == "permuted":
        p = [int(i) for i in r.permutation(d)]
        inv = [p.index(i) for i in range(d)]
        return t.permute(p).contiguous().permute(inv)
    if how == "reversed":
        p = list(range(d))[::-1]
        return t.permute(p).contiguous().permute(p)
    if how == "sliced":
        k = 10                                   # axes with a step (memory doubles with each)
        big = torch.full(tuple(2 * n if i < k else n for i, n in enumerate(t.shape)), 7.0 + 0j, dtype=torch.complex64)
        ix = tuple(slice(0, 2 * n, 2) if i < k else slice(None) for i, n in enumerate(t.shape))
        big[ix] = t
        return big[ix]
    if how == "conj":
        return t.conj().resolve_conj().conj()      # lazily conjugated view
    if how == "neg":
        big = torch.zeros((3,) + tuple(t.shape), dtype=torch.complex64)
        big[1] = t
        return big[1]
    if how == "broadcast":
        for a in range(d):
            first = t.narrow(a, 0, 1)
            if t.shape[a] == 2 and torch.equal(first.expand_as(t), t):
                t = first.expand_as(t) if t.stride(a) else t
        return t
    if how == "expanded":
        return t.unsqueeze(0).expand((2,) + tuple(t.shape))[1]
    return t


def run(case, rec, batched=False):
    N = case["N"]
    B = case.get("B")
    if batched:
        vs = np.stack([gen.state({"t": gen.STATE_KINDS[(case["psi"]["s"] + b) % len(gen.STATE_KINDS)],
                                  "s": case["psi"]["s"] + b}, N) * np.float32(case["scale"]) for b in range(B)])
        vs = correlate(vs, case["cor"], case["seed"])
        rec.ev("drove batch of samples: " + case["cor"])
        shape = [B] + [2] * N
    else:
        vs = gen.state(case["psi"], N)[None] * np.float32(case["scale"])
        shape = [2] * N
    vs = vs.astype(np.complex64)
    if case["lay"] == "broadcast":                # amplitudes that do not depend on some of the qubits, stored once
        vs = constant_along(vs, N, case["seed"])
        rec.ev("drove broadcast input")
    x = layout(vs.reshape(shape), case["lay"], case["seed"])
    keep = x.clone()
    want = ref.evolve(case["ops"], vs.T.astype(np.complex128), N).T
    n = sum(len(ref.expand(s)) for s in case["ops"])
    tol = 4e-6 * (1 + 0.03 * n) * max(1, case["scale"])
    kw = {"batch_mod": True} if batched else {}
    with torch.no_grad():
        y = x
        ws = "tuple" if case["seed"] % 3 == 0 else "list"
        for i, s in enumerate(case["ops"]):
            wsi = "list" if s["k"] in gen.TWOQ_RING else ws
            y = build(s, N, case["ps"], wsi).TN_contract(y, **kw)
            rec.ev("drove TN_contract " + s["k"])
        name = "TN_contract(batch)" if batched else "TN_contract"
        if case["ops"]:
            rec.ok(list(y.shape) == shape, "%s: result shape %s, expected %s (%s)" % (name, list(y.shape), shape, case["ops"][0]["k"]))
            rec.close("%s: %s N=%d B=%s layout=%s" % (name, [(s["k"], s["w"]) for s in case["ops"]], N, B, case["lay"]),
                      npy(y).reshape(want.shape), want, tol)
        rec.ok(torch.equal(x, keep), "%s: modified its input (%s)" % (name, [s["k"] for s in case["ops"]]))
        if case["circ"]:
            cir = mkcircuit(case["ops"], N, np.random.default_rng(case["seed"]))
            z = cir.TN_contract_evolution(x, **kw)
            rec.ev("drove TN_contract_evolution")
            rec.ok(list(z.shape) == shape, "TN_contract_evolution: result shape %s, expected %s" % (list(z.shape), shape))
            rec.close("TN_contract_evolution: %s N=%d B=%s layout=%s" % ([s["k"] for s in case["ops"]], N, B, case["lay"]),
                      npy(z).reshape(want.shape), want, tol)
            rec.ok(torch.equal(x, keep), "TN_contract_evolution: modified its input")
        if batched and case["ops"] and case["seed"] % 2:
            # sample by sample through the unbatched mode
            b = case["seed"] % B
            u = x[b].clone()
            for s in case["ops"]:
                u = build(s, N, case["ps"], "list").TN_contract(u)
            rec.close("TN_contract sample alone: N=%d B=%d" % (N, B), npy(u).reshape(-1), want[b], tol)
            rec.close("TN_contract batch vs alone: N=%d B=%d" % (N, B), npy(y)[b].reshape(-1), npy(u).reshape(-1), tol)
    rec.seen(N, B, case["lay"], tuple((s["k"], tuple(s["w"])) for s in case["ops"]), case["circ"])
