"""Validates the reference model against qiskit and pennylane, and the oracle plumbing
(comparisons really fail on wrong values).  Run by setup_cmd; does not import /repo."""
import math, sys, warnings
import numpy as np
warnings.filterwarnings("ignore")
from . import ref, gen, lib

N_CASES = 400


def qiskit_matrix(spec, N):
    from qiskit import QuantumCircuit
    from qiskit.circuit.library import UGate, RXXGate, RYYGate, RZZGate
    from qiskit.quantum_info import Operator
    qc = QuantumCircuit(N)
    ph = 0.0
    k, w, p = spec["k"], spec["w"], spec.get("p") or []
    R = {"X": qc.rx, "Y": qc.ry, "Z": qc.rz}
    if k in ("Hadamard",):
        qc.h(w[0])
    elif k in ("PauliX", "PauliY", "PauliZ"):
        {"X": qc.x, "Y": qc.y, "Z": qc.z}[k[-1]](w[0])
    elif k in ("rx", "ry", "rz"):
        R[k[1].upper()](p[0], w[0])
    elif k == "u1":
        qc.p(p[0], w[0])
    elif k == "u3":
        qc.append(UGate(p[0], p[1], p[2]), [w[0]])
        ph = -(p[1] + p[2]) / 2
    elif k == "cu3":
        # controlled (e^{-i(phi+lambda)/2} U)
        qc.append(UGate(p[0], p[1], p[2]).control(1), w)
        qc.p(-(p[1] + p[2]) / 2, w[0])
    elif k in ("rxx", "ryy", "rzz"):
        qc.append({"rxx": RXXGate, "ryy": RYYGate, "rzz": RZZGate}[k](p[0]), w)
    elif k == "cnot":
        qc.cx(*w)
    elif k == "cz":
        qc.cz(*w)
    elif k == "cphase":
        qc.cp(p[0], *w)
    elif k == "SWAP":
        qc.swap(*w)
    elif k in ("toffoli", "multi_control_cnot"):
        qc.mcx(w[:-1], w[-1])
    elif k in ref.LAYER_AXES:
        ax = ref.LAYER_AXES[k]
        for i, q in enumerate(w):
            for j, a in enumerate(ax):
                R[a](p[len(ax) * i + j], q)
    elif k == "HLayer":
        for q in w:
            qc.h(q)
    elif k.startswith("ring"):
        ring(qc, k, w)
    elif k == "BasicEntangleLayer":
        n = 3 * len(w)
        for r in range(spec["r"]):
            for i, q in enumerate(w):
                for j, a in enumerate("YZY"):
                    R[a](p[r * n + 3 * i + j], q)
            ring(qc, "ring_of_cnot", w)
    else:
        return None
    return np.exp(1j * ph) * Operator(qc.reverse_bits()).data


def ring(qc, k, w):
    L = len(w)
    if L == 2:
        qc.cx(w[0], w[1])
        return
    hop = 2 if k == "ring_of_cnot2" else 1
    pairs = [(w[i], w[(i + hop) % L]) for i in range(L)]
    for a, b in (pairs[::-1] if k == "ring_of_cnot_dagger" else pairs):
        qc.cx(a, b)


def main():
    rng = np.random.default_rng(2024)
    n = 0
    for _ in range(N_CASES):
        N = int(rng.integers(1, 5))
        kinds = [k for k in gen.EVERY if gen.any_kind_ok(k, N)]
        s = gen.op(rng, N, kinds[int(rng.integers(len(kinds)))])
        q = qiskit_matrix(s, N)
        if q is None:
            continue
        e = np.abs(q - ref.matrix(s, N)).max()
        assert e < 1e-9, ("reference disagrees with qiskit", s, N, e)
        n += 1
    # partial trace against qiskit
    from qiskit.quantum_info import DensityMatrix, partial_trace
    for _ in range(60):
        N = int(rng.integers(1, 5))
        R = gen.density(gen.density_desc(rng), N).astype(complex)
        t = gen.wires(rng, N, int(rng.integers(0, N)))
        want = partial_trace(DensityMatrix(R), [N - 1 - q for q in t]).data
        assert np.abs(want - ref.ptrace_ref(R, N, t)).max() < 1e-7, (N, t)
    # the model for wide registers against the one over full vectors
    for i in range(60):
        N = int(rng.integers(3, 7))
        a = gen.wide_terms(rng, N)
        sp = gen.wide_circuit(rng, N, a, 6, gen.TN_ALL)
        v = np.zeros(2 ** N, complex)
        for k, x in a.items():
            v[k] = x
        want = ref.evolve(sp, v, N)
        for s in sp:
            a = ref.sparse_evolve(s, a, N)
        got = np.zeros(2 ** N, complex)
        for k, x in a.items():
            got[k] = x
        assert np.abs(got - want).max() < 1e-9, (N, sp)
    # derivative oracle against closed forms
    g = ref.gradient(lambda sp: ref.expect(ref.Z, ref.evolve(sp, np.array([1, 0]), 1)), [{"k": "rx", "w": [0], "p": [0.7]}])
    assert abs(g[0] + math.sin(0.7)) < 1e-9
    # pennylane cross-check of a multi-qubit circuit
    try:
        import pennylane as qml
        dev = qml.device("default.qubit", wires=3)

        @qml.qnode(dev)
        def f():
            qml.RX(0.3, wires=2)
            qml.IsingXX(0.9, wires=[2, 0])
            qml.CNOT(wires=[2, 1])
            qml.ControlledPhaseShift(0.4, wires=[0, 2])
            qml.IsingYY(-1.1, wires=[1, 0])
            qml.Toffoli(wires=[2, 0, 1])
            return qml.state()
        sp = [{"k": "rx", "w": [2], "p": [0.3]}, {"k": "rxx", "w": [2, 0], "p": [0.9]}, {"k": "cnot", "w": [2, 1]},
              {"k": "cphase", "w": [0, 2], "p": [0.4]}, {"k": "ryy", "w": [1, 0], "p": [-1.1]}, {"k": "toffoli", "w": [2, 0, 1]}]
        v = np.zeros(8)
        v[0] = 1
        assert np.abs(np.array(f()) - ref.evolve(sp, v, 3)).max() < 1e-6
        pl = "pennylane"
    except ImportError:
        pl = "pennylane not importable"
    # the comparators really reject
    r = lib.Rec()
    assert not r.close("x", np.array([1.0, 2.0]), np.array([1.0, 2.1]), 1e-3)
    assert not r.close("x", np.array([np.nan]), np.array([np.nan]), 1e-3)
    assert not r.close("x", np.zeros((2, 1)), np.zeros(2), 1e-3)
    assert not r.raises("x", lambda: 1)
    assert len(r.violations) == 4
    print("selftest: reference agrees with qiskit on %d operations, partial traces and derivatives; %s" % (n, pl))


if __name__ == "__main__":
    main()
