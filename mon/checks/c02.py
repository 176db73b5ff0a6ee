"""C02: every layer's U_expand against the product of gates its name documents."""
import itertools
from .. import gen, ref
from ..adapter import build, PSTYLESV

PROP = "C02"
REPEAT = 3                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (layer, N, wire list, repeat, angle class, parameter form, wire form); "
        "the judged observation is the complete matrix returned by U_expand()")
REQUIRED = ["drove U_expand " + k for k in ref.LAYERS]
WST = ["list", "list", "tuple", "range", "npint"]


def case(rng, N, k, w=None, r=None):
    s = gen.layer(rng, N, k, w)
    if r is not None and k == "BasicEntangleLayer":
        s["r"] = r
        s["p"] = gen.angles(rng, 3 * len(s["w"]) * r)
    return {"N": N, "s": s, "ps": PSTYLESV[int(rng.integers(len(PSTYLESV)))], "ws": WST[int(rng.integers(len(WST)))]}


def cases(rng, tier):
    deep = tier == "thorough"
    out = []
    for k in ref.LAYERS:
        lo = 2 if k in ("ring_of_cnot", "ring_of_cnot_dagger", "ring_of_cnot2", "BasicEntangleLayer") else 1
        for N in range(1, 7 if deep else 6):
            for n in range(lo, N + 1):
                tuples = gen.all_wire_tuples(N, n)
                if len(tuples) > 150:
                    tuples = [tuples[i] for i in rng.permutation(len(tuples))[:150]]
                for w in tuples:
                    for r in ([1, 2, 3] if k == "BasicEntangleLayer" else [None]):
                        out.append(case(rng, N, k, w, r))
        for N in range(lo, 10 if deep else 8):
            for _ in range(6 if deep else 2):
                out.append(case(rng, N, k, list(range(N))))
                if N > 2:
                    out.append(case(rng, N, k, list(range(N))[::-1]))
                    out.append(case(rng, N, k, list(range(1, N))))
                    out.append(case(rng, N, k, list(range(N - 1))))
    for _ in range(20000 if deep else 2500):
        N = int(rng.integers(2, 9 if deep else 7))
        k = ref.LAYERS[int(rng.integers(len(ref.LAYERS)))]
        out.append(case(rng, N, k))
    for k in ref.LAYERS:
        for N in ((8, 9, 10) if deep else (8, 9)):
            out.append(case(rng, N, k))
            out.append(case(rng, N, k, list(range(N))))
            out.append(case(rng, N, k, gen.wires(rng, N, N)))
    return out


def run(case, rec):
    from .c01 import acl, tol
    s, N = case["s"], case["N"]
    op = build(s, N, case["ps"], case["ws"])
    U = op.U_expand()
    tag = "U_expand %s: N=%d wires=%s r=%s form=%s/%s" % (s["k"], N, s["w"], s.get("r"), case["ps"], case["ws"])
    W, t = ref.matrix(s, N), tol(s.get("p"), len(ref.expand(s))) * (1 + 0.15 * max(0, N - 3))
    if rec.close(tag, U, W, t):
        rec.rel(tag, U, W, t)
    rec.ev("drove U_expand " + s["k"])
    rec.seen(s["k"], N, tuple(s["w"]), s.get("r"), acl((s.get("p") or [])[:4]), case["ps"], case["ws"])
