"""C16: partial traces for any qubit subset, in any order, all three implementations."""
import itertools
import numpy as np
import torch
from .. import gen, ref
from ..adapter import npy, qm
from .c05 import layout, LAYOUTS

PROP = "C16"
REPEAT = 12                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, density family, ordered list of traced qubits, container); judged: value against an einsum reference, "
        "agreement of old/new/prefix forms, hermiticity, positivity, unit trace, caller's list and matrix unchanged, rejections")
REQUIRED = ["drove partial_trace", "drove partial_trace_old", "drove ptrace", "drove unsorted", "drove empty", "drove all",
            "drove reject trace", "drove reject size", "drove reject index", "drove matrix with new contents"]
TOL0 = 3e-6


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(N, lst, kind=None, c="list"):
        out.append({"N": N, "lst": [int(x) for x in lst], "c": c, "rho": gen.density_desc(rng, kind), "seed": int(rng.integers(1 << 30))})

    for N in range(1, 5 if deep else 4):         # every ordered subset
        for k in range(N + 1):
            for t in itertools.permutations(range(N), k):
                for _ in range(3):
                    mk(N, t)
    if not deep:
        for k in range(5):
            for t in itertools.permutations(range(4), k):
                mk(4, t)
    for kind in gen.DENSITY_KINDS:
        for N in range(1, 6):
            for _ in range(4):
                mk(N, gen.wires(rng, N, int(rng.integers(0, N + 1))), kind)
            mk(N, range(N), kind)
            mk(N, range(N - 1, -1, -1), kind)
            mk(N, [], kind)
    for _ in range(6000 if deep else 2000):
        N = int(rng.integers(1, 8 if deep else 7))
        mk(N, gen.wires(rng, N, int(rng.integers(0, N + 1))), None, ["list", "list", "tuple", "range"][int(rng.integers(4))])
    for N in (7, 8):
        for k in range(N + 1):
            for _ in range(3):
                mk(N, gen.wires(rng, N, k))
    for k in (1, 5, 8):
        mk(9, gen.wires(rng, 9, k))
    for N in range(1, 6):
        for c in (0.0, 0.5, 0.99, 1.01, 2.0, -1.0, 1.001, [0, 1], [0, -1], [1, .4], [1, -.01], [.6, .8], [.921061, .389418]):
            out.append({"N": N, "bad": "trace", "c": c, "rho": gen.density_desc(rng), "seed": 0})
        for dn in (-2, -1, 1, 2, 5):
            out.append({"N": N, "bad": "size", "c": dn, "rho": gen.density_desc(rng), "seed": 0})
        for over in (0, 1, 2, 7):
            for _ in range(3):
                l = gen.wires(rng, N, int(rng.integers(0, N + 1)))
                l.insert(int(rng.integers(len(l) + 1)), N + over)
                out.append({"N": N, "bad": "index", "c": l, "rho": gen.density_desc(rng), "seed": 0})
    return out


def run(case, rec):
    N = case["N"]
    R = gen.density(case["rho"], N)
    lay = LAYOUTS[case["seed"] % len(LAYOUTS)] if case.get("seed", 0) % 2 else "plain"
    x = layout(R, lay, case.get("seed", 0))
    rec.ev("drove layout " + lay)
    impl = [("partial_trace", qm.partial_trace), ("partial_trace_old", qm.partial_trace_old)]
    if "bad" in case:
        b, c = case["bad"], case["c"]
        rec.ev("drove reject " + b)
        rec.seen("reject", N, b, str(c))
        for nm, f in impl:
            if b == "trace":
                z = complex(*c) if isinstance(c, list) else complex(c)
                y = torch.from_numpy(R * np.complex64(z))
                for l in ([], [0], [N - 1], list(range(N))):
                    rec.raises("%s: matrix of trace %s, N=%d, traced %s" % (nm, z, N, l), lambda: f(y, N, list(l)))
            elif b == "size":
                for l in ([], [0]):
                    rec.raises("%s: %dx%d matrix declared as %d qubits, traced %s" % (nm, 2 ** N, 2 ** N, N + c, l), lambda: f(x, N + c, list(l)))
            else:
                rec.raises("%s: traced %s of %d qubits" % (nm, c, N), lambda: f(x, N, list(c)))
        return
    lst = case["lst"]
    if lst != sorted(lst):
        rec.ev("drove unsorted")
    if not lst:
        rec.ev("drove empty")
    if len(lst) == N:
        rec.ev("drove all")
    want = ref.ptrace_ref(R, N, lst)
    m = N - len(lst)
    TOL = TOL0 * (1 + 0.3 * max(0, N - 3))
    tag = "N=%d %s traced %s" % (N, case["rho"]["t"], lst)
    got = {}
    for nm, f in impl:
        if nm == "partial_trace_old" and N > 7:
            continue
        a = list(lst)
        if case["c"] == "tuple":
            a = tuple(lst)
        elif case["c"] == "range" and lst == list(range(len(lst))):
            a = range(len(lst))
        rec.ev("drove " + nm)
        for again in ("", " (second call)"):
            r = f(x, N, a)
            g = rec.arr(r, nm)
            rec.close("%s: %s%s" % (nm, tag, again), g, want, TOL)
        got[nm] = g
        rec.ok(list(a) == lst, "%s changed the caller's list to %s: %s" % (nm, list(a), tag))
        rec.ok(np.array_equal(x.resolve_conj().numpy(), R), "%s changed the caller's matrix: %s" % (nm, tag))
        rec.close("%s hermiticity: %s" % (nm, tag), g, g.conj().T, TOL)
        rec.close("%s trace: %s" % (nm, tag), np.array(np.trace(g)), np.array(1.0), TOL * 3)
        ev = np.linalg.eigvalsh((g + g.conj().T) / 2)
        rec.ok(ev[0] > -TOL, "%s: negative eigenvalue %g: %s" % (nm, ev[0], tag))
        # history: the result of a trace is itself a valid argument
        if m and case["seed"] % 3 == 0:
            nxt = [case["seed"] % m]
            rec.close("%s of its own result: %s then %s" % (nm, tag, nxt), f(r.detach(), m, nxt), ref.ptrace_ref(want, m, nxt), TOL)
    if len(got) == 2:
        rec.close("old and new forms agree: " + tag, got["partial_trace"], got["partial_trace_old"], TOL)
    # prefix form: keep the first kA qubits, trace the rest
    kA = case["seed"] % (N + 1)
    if N <= 7:
        rec.ev("drove ptrace")
        g = rec.arr(qm.ptrace(x, kA, N - kA), "ptrace")
        w = ref.ptrace_ref(R, N, list(range(kA, N)))
        rec.close("ptrace: N=%d keep first %d of %s" % (N, kA, case["rho"]["t"]), g, w, TOL)
        rec.ok(np.array_equal(x.resolve_conj().numpy(), R), "ptrace changed the caller's matrix")
    if lay == "plain":
        R2 = gen.density({"t": "mixed", "s": case["seed"]}, N)
        x.copy_(torch.from_numpy(R2))
        rec.ev("drove matrix with new contents")
        for nm, f in impl[:1 if N > 7 else 2]:
            rec.close("%s of new contents: %s" % (nm, tag), f(x, N, list(lst)), ref.ptrace_ref(R2, N, lst), TOL)
        if N <= 7:
            rec.close("ptrace of new contents: %s" % tag, qm.ptrace(x, kA, N - kA), ref.ptrace_ref(R2, N, list(range(kA, N))), TOL)
    rec.seen(N, case["rho"]["t"], tuple(lst), case["c"], kA)
