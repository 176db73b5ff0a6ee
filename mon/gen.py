"""Workload generation: JSON-able descriptions of operations, circuits and states.

All numbers that reach the code under test are rounded to float32/complex64 first, so the
double-precision reference sees exactly the same inputs.
"""
import itertools, math
import numpy as np
from . import ref

F32 = np.float32
ALL1 = ref.GATES1
TN_GATES = ref.GATES1 + ref.GATES2 + ref.GATES3
SELF_INV = ["Hadamard", "PauliX", "PauliY", "PauliZ", "cnot", "cz", "SWAP", "toffoli", "multi_control_cnot"]


def f32(x):
    return float(F32(x))


SPECIAL = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, 4 * math.pi, math.pi / 4,
           3 * math.pi, 1.0, -1.0, 1e-3, -2e-3, 7 * math.pi / 3]


def angle(rng, wild=True):
    u = rng.random()
    if wild and u < 0.15:
        return f32(SPECIAL[int(rng.integers(len(SPECIAL)))])
    if wild and u < 0.25:
        return f32(rng.uniform(-50, 50))
    if wild and u < 0.3:                         # next to a special angle
        return near(rng, SPECIAL[int(rng.integers(len(SPECIAL)))])
    return f32(rng.uniform(-2 * math.pi, 2 * math.pi))


def angles(rng, n, wild=True):
    """n angles; now and then related to one another, as the angles of real circuits are."""
    a = [angle(rng, wild) for _ in range(n)]
    if not wild or n < 2 or rng.random() > 0.3:
        return a
    u = int(rng.integers(12))
    i, j = [int(x) for x in rng.permutation(n)[:2]]
    if u == 0:
        return [0.0] * n
    if u == 1:
        return [a[0]] * n
    if u == 2:
        a[i] = a[j]
    elif u == 3:
        a[i] = -a[j]
    elif u == 4:
        a[i] = a[j] = 0.0
    elif u == 5:                                 # multiples of pi/2 only
        return [f32(math.pi / 2 * int(rng.integers(-4, 5))) for _ in range(n)]
    elif u == 6:                                 # all zero but one
        return [0.0 if k != i else a[i] for k in range(n)]
    elif u == 7:                                 # periodic
        m = int(rng.integers(1, min(n, 4) + 1))
        return [a[k % m] for k in range(n)]
    elif u == 8:
        return sorted(a)
    elif u == 9:                                 # two nearly equal
        a[i] = near(rng, a[j])
    elif u == 10:                                # all nearly equal
        return [near(rng, a[0]) for _ in range(n)]
    else:                                        # two that differ by whole or half turns
        a[i] = f32(a[j] + math.pi * int(rng.integers(-4, 5)))
    return a


def near(rng, x):
    """An angle next to x: different enough to be told apart, close enough to be taken for it."""
    return f32(x + (-1) ** int(rng.integers(2)) * 10 ** rng.uniform(-3.5, -1.5))


def wires(rng, N, k):
    return [int(x) for x in rng.permutation(N)[:k]]


def nw(kind):
    return 1 if kind in ref.GATES1 else 2 if kind in ref.GATES2 else 3 if kind == "toffoli" else None


def gate(rng, N, kind, w=None, wild=True):
    if w is None:
        k = nw(kind) or int(rng.integers(2, N + 1))
        w = wires(rng, N, k)
    s = {"k": kind, "w": list(w)}
    n = ref.nparams(kind, len(w))
    if n:
        s["p"] = angles(rng, n, wild)
    return s


def layer(rng, N, kind, w=None, wild=True, full=False):
    if w is None:
        if full:
            w = list(range(N))
        else:
            lo = 2 if kind in ("ring_of_cnot", "ring_of_cnot_dagger", "ring_of_cnot2", "BasicEntangleLayer") else 1
            u = rng.random()
            if u < 0.4:
                w = list(range(N))
            elif u < 0.7:
                w = sorted(wires(rng, N, int(rng.integers(lo, N + 1))))
            else:
                w = wires(rng, N, int(rng.integers(lo, N + 1)))
    s = {"k": kind, "w": list(w)}
    if kind == "BasicEntangleLayer":
        s["r"] = int(rng.integers(1, 4) if rng.random() < 0.9 else rng.integers(4, 7))
    n = ref.nparams(kind, len(w), s.get("r", 1))
    if n:
        s["p"] = angles(rng, n, wild)
    return s


def any_kind_ok(kind, N):
    if kind in ref.GATES1:
        return True
    if kind in ref.GATES2:
        return N >= 2
    if kind == "toffoli":
        return N >= 3
    if kind in ("multi_control_cnot", "ring_of_cnot", "ring_of_cnot_dagger", "ring_of_cnot2", "BasicEntangleLayer"):
        return N >= 2
    return True


TN_LAYERS = ref.LAYERS_ROT + ["HLayer", "ring_of_cnot", "ring_of_cnot_dagger"]
EVERY = ref.GATES1 + ref.GATES2 + ref.GATES3 + ref.GATESM + ref.LAYERS
TN_ALL = TN_GATES + TN_LAYERS
PARAM_KINDS = [k for k in EVERY if ref.nparams(k, 1)]
PARAM_TN = [k for k in TN_ALL if ref.nparams(k, 1)]
TWOQ_RING = ("ring_of_cnot", "ring_of_cnot_dagger")


def op(rng, N, kind, tn=False, wild=True):
    """One operation; with tn=True only forms the library claims TN support for."""
    if kind in ref.LAYERS:
        return layer(rng, N, kind, wild=wild, full=tn and kind in TWOQ_RING)
    return gate(rng, N, kind, wild=wild)


def circuit(rng, N, depth, kinds, tn=False, wild=True, pbias=0.0):
    kinds = [k for k in kinds if any_kind_ok(k, N)]
    pk = [k for k in kinds if ref.nparams(k, 1)]
    out = []
    rel = rng.random() < 0.35                    # operations related to earlier ones: repeated, reversed, undone, continued
    for _ in range(depth):
        if rel and out and rng.random() < 0.5:
            out.append(relative(rng, N, out[-1] if rng.random() < 0.6 else out[int(rng.integers(len(out)))], tn, wild))
            continue
        ks = pk if pk and rng.random() < pbias else kinds
        out.append(op(rng, N, ks[int(rng.integers(len(ks)))], tn=tn, wild=wild))
    return out


def relative(rng, N, s, tn=False, wild=True):
    """An operation of the same kind as s, on the same, permuted, overlapping or other wires, with the same, opposite or new angles."""
    s = dict(s, w=list(s["w"]))
    free = s["k"] not in ref.LAYERS or not (tn and s["k"] in TWOQ_RING)
    u = rng.random()
    if free and u < 0.3:
        s["w"] = [s["w"][int(i)] for i in rng.permutation(len(s["w"]))]
    elif free and u < 0.55 and len(s["w"]) < N:
        rest = [q for q in range(N) if q not in s["w"]]
        s["w"][int(rng.integers(len(s["w"])))] = rest[int(rng.integers(len(rest)))]
    if s.get("p"):
        u = rng.random()
        if u < 0.25:
            s["p"] = [-x for x in s["p"]]
        elif u < 0.4:
            s["p"] = [near(rng, x) for x in s["p"]]
        elif u < 0.6:
            s["p"] = angles(rng, len(s["p"]), wild)
        else:
            s["p"] = list(s["p"])
    return s


# ------------------------------------------------------------------ states
STATE_KINDS = ["zero", "basis", "product", "ghz", "w", "random", "real", "phase", "smallsv", "bellpair", "sparse", "neg",
               "pauliprod", "graph", "pairs", "uniform", "equal", "near", "halfplus", "imag", "sym"]


def state_desc(rng, N, kind=None):
    if kind is None:
        kind = STATE_KINDS[int(rng.integers(len(STATE_KINDS)))]
    return {"t": kind, "s": int(rng.integers(1 << 30))}


def state(desc, N):
    """complex64-rounded normalised vector (returned as complex64)."""
    k = desc["t"]
    r = np.random.default_rng(desc["s"])
    d = 2 ** N
    v = np.zeros(d, dtype=np.complex128)
    if k == "zero":
        v[0] = 1
    elif k == "basis":
        v[int(r.integers(d))] = 1
    elif k == "neg":
        v[int(r.integers(d))] = [-1, 1j, -1j, np.exp(0.7j)][int(r.integers(4))]
    elif k == "product":
        v = np.ones(1, dtype=np.complex128)
        for _ in range(N):
            q = r.normal(size=2) + 1j * r.normal(size=2)
            v = np.kron(v, q / np.linalg.norm(q))
    elif k == "ghz":
        v[0], v[-1] = 1, np.exp(1j * r.uniform(0, 6.28))
    elif k == "w":
        for q in range(N):
            v[1 << q] = np.exp(1j * r.uniform(0, 6.28))
    elif k == "random":
        v = r.normal(size=d) + 1j * r.normal(size=d)
    elif k == "real":
        v = r.normal(size=d) + 0j
    elif k == "phase":
        v = np.exp(2j * math.pi * r.random(d))
    elif k == "smallsv":
        # nearly product: Schmidt coefficients between 1e-2 and 1e-5
        a = np.ones(1, dtype=np.complex128)
        for _ in range(N):
            q = r.normal(size=2) + 1j * r.normal(size=2)
            a = np.kron(a, q / np.linalg.norm(q))
        b = r.normal(size=d) + 1j * r.normal(size=d)
        v = a + 10.0 ** r.uniform(-5, -2) * b / np.linalg.norm(b)
    elif k == "bellpair":
        v = np.ones(1, dtype=np.complex128)
        n = 0
        while n < N:
            if N - n >= 2:
                p = r.normal(size=4) + 1j * r.normal(size=4)
                v = np.kron(v, p / np.linalg.norm(p))
                n += 2
            else:
                q = r.normal(size=2) + 1j * r.normal(size=2)
                v = np.kron(v, q / np.linalg.norm(q))
                n += 1
    elif k == "sparse":
        ix = r.permutation(d)[:max(1, d // 4)]
        v[ix] = r.normal(size=len(ix)) + 1j * r.normal(size=len(ix))
    elif k == "pauliprod":
        # every qubit in an eigenstate of a Pauli matrix
        v = np.ones(1, dtype=np.complex128)
        kinds = [PAULI_EIG[int(r.integers(6))] for _ in range(N)]
        if r.random() < 0.3:
            kinds = [kinds[0]] * N
        for q in kinds:
            v = np.kron(v, q)
    elif k == "graph":
        # equal magnitudes, signs from a random graph, now and then followed by local phases
        v = np.ones(d, dtype=np.complex128)
        x = np.arange(d)
        for i in range(N):
            for j in range(i):
                if r.random() < 0.5:
                    v[((x >> i) & (x >> j) & 1) == 1] *= -1
            if r.random() < 0.3:
                v[(x >> i) & 1 == 1] *= [1j, -1j, -1][int(r.integers(3))]
    elif k == "pairs":
        # amplitudes that cancel or conjugate one another
        h = r.normal(size=max(1, d // 2)) + 1j * r.normal(size=max(1, d // 2))
        how = int(r.integers(4))
        o = [-h, h.conj(), -h.conj(), 1j * h][how]
        v = np.concatenate([h, o[::-1] if r.random() < 0.5 else o])
    elif k == "uniform":
        v = mps_vector(uniform_mps(desc["s"], N))
    elif k == "equal":
        v = np.ones(d, dtype=np.complex128) * [1, -1, 1j, np.exp(0.3j)][int(r.integers(4))]
        if r.random() < 0.5:
            v = v * r.choice([1, -1], d)
    elif k == "near":
        # a basis state or an equal superposition with a small admixture
        v[int(r.integers(d))] = 1
        if r.random() < 0.5:
            v[:] = d ** -0.5
        b = r.normal(size=d) + 1j * r.normal(size=d)
        v = v + 10.0 ** r.uniform(-4, -2) * b / np.linalg.norm(b)
    elif k == "halfplus":
        # some qubits in |+> or |0>, the others entangled at random
        n = int(r.integers(0, N + 1))
        a = np.ones(1, dtype=np.complex128)
        for _ in range(n):
            a = np.kron(a, PAULI_EIG[int(r.integers(6))])
        b = r.normal(size=2 ** (N - n)) + 1j * r.normal(size=2 ** (N - n))
        v = np.kron(a, b) if r.random() < 0.5 else np.kron(b, a)
    elif k == "imag":
        v = 1j * r.normal(size=d)
    elif k == "sym":
        # depends on the number of ones only
        c = r.normal(size=N + 1) + 1j * r.normal(size=N + 1)
        v = c[[bin(x).count("1") for x in range(d)]]
    else:
        raise KeyError(k)
    v = v / np.linalg.norm(v)
    return v.astype(np.complex64)


PAULI_EIG = [np.array(x, dtype=complex) / np.linalg.norm(x) for x in ([1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j])]


def uniform_mps(seed, N):
    """A translation-invariant chain as complex64 arrays [2, left, right]: the bulk sites hold the very same array.
    The norm is one up to rounding."""
    r = np.random.default_rng(seed)
    if N == 1 or r.random() < 0.25:              # a product of equal qubits
        q = r.normal(size=2) + 1j * r.normal(size=2)
        t = (q / np.linalg.norm(q)).reshape(2, 1, 1).astype(np.complex64)
        return [t] * N
    A = r.normal(size=(2, 2, 2)) + 1j * r.normal(size=(2, 2, 2))
    if r.random() < 0.3:
        A = np.zeros((2, 2, 2), dtype=complex)   # the GHZ and cluster chains
        if r.random() < 0.5:
            A[0, 0, 0] = A[1, 1, 1] = 1
        else:
            A[0] = [[1, 1], [0, 0]]
            A[1] = [[0, 0], [1, -1]]
    E = np.einsum("pab,pcd->acbd", A, A.conj()).reshape(4, 4)
    A = (A / np.sqrt(np.abs(np.linalg.eigvals(E)).max())).astype(np.complex64)
    L = r.normal(size=(2, 1, 2)) + 1j * r.normal(size=(2, 1, 2))
    R = (r.normal(size=(2, 2, 1)) + 1j * r.normal(size=(2, 2, 1))).astype(np.complex64)
    n = np.linalg.norm(mps_vector([L] + [A] * (N - 2) + [R]))
    return [(L / n).astype(np.complex64)] + [A] * (N - 2) + [R]


def mps_vector(ts):
    T = np.ones((1, 1), dtype=np.complex128)
    for a in ts:
        T = np.einsum("pl,slr->psr", T, a.astype(np.complex128)).reshape(-1, a.shape[2])
    return T.reshape(-1)


HERM = ["real", "diag", "pauli", "projector", "sparse", "hollow", "imag", "scalar", "near1", "lowrank", "local", "equal", "block"]


def hermitian(seed, d, kind="mix"):
    """A Hermitian matrix of norm at most one; kind "mix": random, or one of the families of HERM."""
    if kind == "mix":
        u = np.random.default_rng([seed, 3])
        kind = "random" if u.random() < 0.5 else HERM[int(u.integers(len(HERM)))]
    r = np.random.default_rng(seed)
    N = int(round(math.log2(d)))
    if kind not in ("random", "real"):
        A = hermitian(seed, d, "random").astype(complex)
        v = r.normal(size=d) + 1j * r.normal(size=d)
        v = v / np.linalg.norm(v)
        if kind == "diag":
            A = np.diag(r.choice([-1, 1], d) if r.random() < 0.4 else r.uniform(-1, 1, d)).astype(complex)
        elif kind in ("pauli", "local"):
            A = np.eye(d, dtype=complex)
            for q in wires(r, N, N if kind == "pauli" else 1):
                A = A @ ref.op_on([ref.I2, ref.X, ref.Y, ref.Z][int(r.integers(4))], [q], N)
        elif kind == "projector":
            A = np.outer(v, v.conj()) if r.random() < 0.5 else np.diag(np.eye(d)[int(r.integers(d))]).astype(complex)
        elif kind == "sparse":
            A = np.zeros((d, d), dtype=complex)
            for _ in range(int(r.integers(1, 4))):
                i, j = [int(x) for x in r.permutation(d)[:2]]
                A[i, j] = r.uniform(-0.5, 0.5) + 1j * r.uniform(-0.5, 0.5)
                A[j, i] = A[i, j].conj()
        elif kind == "hollow":
            A = A - np.diag(np.diag(A))
        elif kind == "imag":
            A = 1j * A.imag
        elif kind == "scalar":
            A = np.eye(d, dtype=complex) * [1.0, -1.0, 0.5, 0.0][int(r.integers(4))]
        elif kind == "near1":
            A = np.eye(d, dtype=complex) * 0.9 + 10 ** r.uniform(-3, -1) * A
        elif kind == "equal":                    # one value on the diagonal
            A = (A - np.diag(np.diag(A))) * 10 ** r.uniform(-2, 0) + np.eye(d) * r.choice([-1, 1]) * r.uniform(0.1, 1)
        elif kind == "block":
            A[:d // 2, d // 2:] = 0
            A[d // 2:, :d // 2] = 0
        elif kind == "lowrank":
            A = np.outer(v, v.conj()) - 0.5 * np.outer(v[::-1], v[::-1].conj())
        A = (A + A.conj().T) / 2
        A = (A / max(1.0, np.linalg.norm(A, 2))).astype(np.complex64)
        A[np.arange(d), np.arange(d)] = A[np.arange(d), np.arange(d)].real
        return A
    if kind == "real":
        A = r.normal(size=(d, d)) + 0j
    else:
        A = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
    A = (A + A.conj().T) / 2
    A = A / max(1e-9, np.max(np.abs(np.linalg.eigvalsh(A))))
    A = A.astype(np.complex64)
    for i in range(d):
        A[i, i] = A[i, i].real
    return A


def density(desc, N):
    """mixed/pure density matrix, complex64."""
    r = np.random.default_rng(desc["s"])
    d = 2 ** N
    k = desc["t"]
    if k == "pure":
        v = state({"t": STATE_KINDS[int(r.integers(len(STATE_KINDS)))], "s": desc["s"] ^ 77}, N).astype(np.complex128)
        R = np.outer(v, v.conj())
    elif k == "maxmixed":
        R = np.eye(d, dtype=complex) / d
    elif k == "diag":
        p = r.random(d)
        R = np.diag(p / p.sum()).astype(complex)
    elif k == "rank2":
        vs = [r.normal(size=d) + 1j * r.normal(size=d) for _ in range(2)]
        R = sum(w * np.outer(v, v.conj()) / np.vdot(v, v).real for w, v in zip([0.3, 0.7], vs))
    elif k == "prodmixed":
        R = np.ones((1, 1), dtype=complex)
        for _ in range(N):
            A = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
            A = A @ A.conj().T
            R = np.kron(R, A / np.trace(A).real)
    elif k == "werner":
        v = state({"t": STATE_KINDS[int(r.integers(len(STATE_KINDS)))], "s": desc["s"] ^ 78}, N).astype(np.complex128)
        p = [0.5, 0.01, 0.99, r.random()][int(r.integers(4))]
        R = p * np.outer(v, v.conj()) + (1 - p) * np.eye(d) / d
    elif k == "xstate":
        h = r.random(d // 2 or 1) + 0.1
        R = np.diag(np.concatenate([h, h[::-1]])[:d]).astype(complex)
        for i in range(d // 2):
            R[i, d - 1 - i] = h[i] * r.uniform(-1, 1) * np.exp(1j * r.uniform(0, 6.28))
            R[d - 1 - i, i] = R[i, d - 1 - i].conj()
    elif k == "fewbasis":
        R = np.zeros((d, d), dtype=complex)
        for i in r.permutation(d)[:int(r.integers(1, 4))]:
            R[i, i] = r.random() + 0.1
    elif k == "realmixed":
        A = r.normal(size=(d, d))
        R = (A @ A.T).astype(complex)
    else:
        A = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
        R = A @ A.conj().T
    R = R / np.trace(R).real
    return R.astype(np.complex64)


DENSITY_KINDS = ["pure", "maxmixed", "diag", "rank2", "prodmixed", "mixed", "werner", "xstate", "fewbasis", "realmixed"]


def density_desc(rng, kind=None):
    return {"t": kind or DENSITY_KINDS[int(rng.integers(len(DENSITY_KINDS)))], "s": int(rng.integers(1 << 30))}


def all_wire_tuples(N, k):
    return [list(t) for t in itertools.permutations(range(N), k)]


def wide_terms(rng, N):
    """A few basis states of a wide register with their amplitudes: {index: amplitude}."""
    def bits():
        return sum(int(x) << i for i, x in enumerate(rng.integers(0, 2, N)))
    u = rng.random()
    if u < 0.3:
        keys = [bits()]
    elif u < 0.6:
        b = bits()
        keys = [b, b ^ ((1 << N) - 1)]
    else:
        keys = list({bits() for _ in range(int(rng.integers(2, 5)))})
    a = rng.normal(size=len(keys)) + 1j * rng.normal(size=len(keys))
    a = (a / np.linalg.norm(a)).astype(np.complex64)
    return {k: complex(x) for k, x in zip(keys, a)}


def wide_circuit(rng, N, amps, n, kinds, limit=256):
    """n operations whose effect on the given terms stays within the limit of basis states; near and far wires."""
    out = []
    for _ in range(n * 4):
        if len(out) == n:
            break
        k = kinds[int(rng.integers(len(kinds)))]
        if k in ref.LAYERS:
            s = layer(rng, N, k, full=k in TWOQ_RING)
            if k not in TWOQ_RING:
                s = layer(rng, min(N, 3), k)
                s["w"] = wires(rng, N, len(s["w"]))
        else:
            nn = nw(k)
            w = wires(rng, N, nn)
            if rng.random() < 0.5 and nn > 1:          # close together
                base = int(rng.integers(0, N - nn + 1))
                w = [base + int(i) for i in rng.permutation(nn)]
            s = gate(rng, N, k, w)
        new = ref.sparse_evolve(s, amps, N, limit)
        if new is not None:
            amps = new
            out.append(s)
    return out
