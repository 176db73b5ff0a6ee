"""C01: every gate's U_expand against the independent textbook matrix."""
from .. import gen, ref
from ..adapter import build, cls, PSTYLES1, PSTYLESV, ONEP, WSTYLES

PROP = "C01"
REPEAT = 4                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (gate kind, N, wire tuple, angle class, form in which angle and wires were given); "
        "the judged observation is the complete 2^N x 2^N matrix returned by U_expand()")
REQUIRED = ["drove U_expand " + k for k in gen.EVERY if k not in ref.LAYERS]


FORMS = PSTYLES1 + ["t64"]


def tol(p, n=1):
    """Single-precision rounding of n factors whose angles have been rounded to float32 after adding up."""
    return 1.2e-6 * (1 + 0.05 * sum(abs(x) for x in sorted(p or [], key=abs)[-3:])) * (1 + 0.02 * (n - 1))


def styles(rng, k):
    if k in ONEP:
        ps = FORMS[int(rng.integers(len(FORMS)))]
    elif k in ("u3", "cu3"):
        ps = PSTYLESV[int(rng.integers(len(PSTYLESV)))]
    else:
        ps = "plain"
    return ps, WSTYLES[int(rng.integers(len(WSTYLES)))]


def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    kinds = [k for k in gen.EVERY if k not in ref.LAYERS]
    for k in kinds:
        for N in range(1, 7 if deep else 6):
            sizes = [gen.nw(k)] if gen.nw(k) else range(2, N + 1)
            for n in sizes:
                if n > N:
                    continue
                tuples = gen.all_wire_tuples(N, n)
                if len(tuples) > 130:
                    tuples = [tuples[i] for i in rng.permutation(len(tuples))[:130]]
                for w in tuples:
                    s = gen.gate(rng, N, k, w)
                    ps, ws = styles(rng, k)
                    out.append({"N": N, "s": s, "ps": ps, "ws": ws})
                    if s.get("p") and N <= 3:
                        for _ in range(24 if deep else 8):
                            s = gen.gate(rng, N, k, w)
                            ps, ws = styles(rng, k)
                            out.append({"N": N, "s": s, "ps": ps, "ws": ws})
        # special angles, every one, every form
        if ref.nparams(k, 1):
            for a in gen.SPECIAL:
                N = max(gen.nw(k), int(rng.integers(1, 4)))
                s = gen.gate(rng, N, k)
                s["p"][int(rng.integers(len(s["p"])))] = gen.f32(a)
                for ps in (FORMS if k in ONEP else PSTYLESV):
                    out.append({"N": N, "s": s, "ps": ps, "ws": "list"})
            if k in ONEP:
                for a in (-3, -1, 0, 1, 2, 7):
                    N = max(gen.nw(k), 2)
                    s = gen.gate(rng, N, k)
                    s["p"] = [float(a)]
                    out.append({"N": N, "s": s, "ps": "int", "ws": "list"})
                    out.append({"N": N, "s": s, "ps": "tint", "ws": "list"})
    for _ in range(30000 if deep else 3000):
        N = int(rng.integers(1, 11 if deep else 9))
        ks = [k for k in kinds if gen.any_kind_ok(k, N)]
        k = ks[int(rng.integers(len(ks)))]
        ps, ws = styles(rng, k)
        out.append({"N": N, "s": gen.gate(rng, N, k), "ps": ps, "ws": ws})
    for k in kinds:                       # large registers
        for N in ((8, 9, 10, 11) if deep else (9, 10)):
            for _ in range(4 if deep else 2):
                ps, ws = styles(rng, k)
                out.append({"N": N, "s": gen.gate(rng, N, k), "ps": ps, "ws": ws})
    return out


def acl(p):
    return tuple("0" if x == 0 else ("S" if abs(x) < 0.01 else "L" if abs(x) > 7 else "m") + ("-" if x < 0 else "+") for x in p or [])


def run(case, rec):
    s, N = case["s"], case["N"]
    try:
        op = build(s, N, case["ps"], case["ws"])
        U = op.U_expand()
    except RuntimeError as e:
        if case["ps"] == "t64" and "dtype" in str(e):
            rec.ev("double angle declined")      # a single-precision library may decline it; a value it returns is judged
            return
        raise
    tag = "U_expand %s: N=%d wires=%s params=%s form=%s/%s" % (s["k"], N, s["w"], s.get("p"), case["ps"], case["ws"])
    W, t = ref.matrix(s, N), tol(s.get("p"))
    if rec.close(tag, U, W, t):
        rec.rel(tag, U, W, t)
    rec.ev("drove U_expand " + s["k"])
    rec.seen(s["k"], N, tuple(s["w"]), acl(s.get("p")), case["ps"], case["ws"])
