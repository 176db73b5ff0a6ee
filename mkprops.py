#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so the text stays reviewable)."""
import json, os
G='deepquantum/gates/'; L='deepquantum/layers/'; E='deepquantum/embeddings/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("C01","Every gate expands to its textbook unitary on exactly the wires it names",
 "Expanding an elementary gate (Hadamard, PauliX/Y/Z, rx, ry, rz, u1, u3, rxx, ryy, rzz, cnot, cz, cphase, cu3, SWAP, toffoli, multi_control_cnot) to N qubits gives, to single precision, the textbook matrix of that gate acting on the wires it was given and the identity on all others. Qubit 0 is the most significant bit, the first wire(s) are the controls and the last the target, wires may be given in any order, adjacent or not. This holds for every angle (rx/ry/rz/rxx/ryy/rzz(t)=exp(-i t P/2), u1(t)=diag(1,e^it), cphase(t)=diag(1,1,1,e^it), u3(t,p,l)=Rz(p)Rx(-pi/2)Rz(t)Rx(pi/2)Rz(l), cu3 its controlled form), given as a number or a tensor.",
 ["inputs","configurations"],"all qubit counts N, all assignments of distinct wires in any order, all real angles and parameter container types",
 "the existing scripts print or compare a handful of fixed circuits on the default adjacent wires; no test compares an expanded gate with an independent reference, and reversed/non-adjacent wires, large angles and all control counts are not sampled",
 [G+"qoperator.py"],[("Operator.gate_expand_1toN / Operation.two_qubit_control_gate / multi_control_gate","qoperator.py"),("U_expand of each gate","qoperator.py")],
 ["return value of <gate>.U_expand()"])

p("C02","Every layer expands to the documented product of gates on its wires",
 "Expanding a layer gives, to single precision, the product of the elementary gates its name documents: XYZ/ZYX/YZY/XZX/XZ/ZX layers apply to each listed wire the rotations in the named order (first letter first), consuming the parameters wire by wire in the order the wires are listed; HLayer applies a Hadamard to each listed wire. ring_of_cnot applies CNOT(w0,w1), CNOT(w1,w2), ..., CNOT(w_last,w0) in that order over its wire list (a single CNOT(w0,w1) when two wires are listed), its adjoint layer the same gates in reverse order, and ring_of_cnot2 the same with the target two positions ahead. BasicEntangleLayer is `repeat` rounds of a YZY layer with that round's parameters followed by ring_of_cnot on the same wires.",
 ["inputs","configurations"],"all N, all ordered subsets of distinct wires, all parameter values and containers, all repeat counts",
 "the scripts only build layers on the full, sorted wire list (which takes the fused fast path) and never compare with an independent product; subsets, permuted wires and repeat>1 are unreached",
 [L+"qlayers.py"],[("_cal_single_gates of each layer","qlayers.py"),("_gate_fusion_U_expand fast path vs the general loop","qlayers.py")],
 ["return value of <layer>.U_expand()"])

p("C03","A circuit is the ordered product of its operations, with consistent bookkeeping",
 "For every sequence of operations, the circuit's overall matrix is unitary and equals the product of the operations' textbook matrices in the order they were added (the first added acting first; with left_to_right=False the product is taken in the opposite order), whichever of the builder methods or the generic add was used. The circuit's parameter total is the number of trainable angles in it and its parameter record holds each operation's parameters under that operation's position (None when it has none). A cleared circuit is indistinguishable from a newly constructed one, and the initial state is |0...0>.",
 ["programs","histories"],"all circuits over all gates and layers, of any length, built through either interface, including clear-and-rebuild histories",
 "the scripts build a few fixed circuits and only look at training losses; order, left_to_right=False, bookkeeping of mixed circuits and reuse after clear are not asserted",
 [G+"qcircuit.py"],[("Circuit.add / builder methods","qcircuit.py"),("Circuit.U","qcircuit.py"),("Circuit.clear","qcircuit.py")],
 ["Circuit.U()","Circuit.cir_params","Circuit.cir_num_params","Circuit.gate","Circuit.state_init()"],
 [("gate","ordered operations","Circuit.__init__"),("cir_params/cir_num_params","parameter record","Circuit.add")])

p("C04","Matrix-product-state evolution equals dense evolution and stays well formed",
 "Applying any tensor-network-capable gate, layer or circuit to a state in matrix-product form yields, to single precision, the same state vector as applying its textbook matrix to the dense state, for any input state, any wires (reversed or far apart) and after any earlier sequence of operations. After every step the list still holds one rank-3 tensor per qubit with physical dimension 2, matching neighbouring bonds, unit outer bonds and bond dimensions no larger than the exact bound 2^min(k,N-k) (still 1 for a computational basis state after X, cnot, SWAP and toffoli gates), and the state's norm is preserved.",
 ["programs","histories","inputs"],"all sequences of tensor-network-capable operations on all states, for all N and wire placements",
 "test_TN*.py compare or train a few fixed nearest-neighbour circuits; swap routing over distance, reversed roles, rank-deficient intermediate tensors and long operation histories are not enumerated",
 [G+"qoperator.py",G+"qtensornetwork.py",L+"qlayers.py",G+"qcircuit.py"],[("TN_operation of each gate/layer","qoperator.py, qlayers.py"),("swap routing and re-decomposition","TensorDecompAfterTwoQbitGate/TensorDecompAfterThreeQbitGate")],
 ["list returned by TN_operation / Circuit.TN_evolution"],[("MPS list","per-qubit tensors [2,Dl,Dr]","caller")])

p("C05","Direct tensor contraction equals dense evolution and leaves its input alone",
 "Contracting any tensor-network-capable gate, layer or circuit with a state held as a rank-N tensor returns a rank-N tensor that, read in row-major order with qubit 0 first, is to single precision the textbook matrix applied to the dense state, for any wires in any order and any memory layout of the input. The tensor passed in is not modified.",
 ["programs","inputs"],"all sequences of operations, all wire placements, contiguous and non-contiguous inputs",
 "scripts only contract fixed layers on sorted wires; every branch of the axis bookkeeping depends on the relative order of the wires",
 [G+"qoperator.py",L+"qlayers.py",G+"qcircuit.py"],[("TN_contract axis permutations","qoperator.py, qlayers.py")],
 ["return value of TN_contract / Circuit.TN_contract_evolution (batch_mod=False)"])

p("C06","Batched contraction treats every sample independently and identically",
 "In batch mode, for any batch size including 1, each slice of the result equals to single precision what the same operation or circuit gives on that sample alone (and the textbook matrix applied to that sample), the batch order is kept and no sample influences another. The batch passed in is not modified.",
 ["inputs","programs"],"all batch sizes and contents, all operations, wires and circuits",
 "batch mode is exercised with one fixed layer stack; batch sizes equal to 1, 2 or a power of two (where a mixed-up axis has a legal shape) are not tested",
 [G+"qoperator.py",L+"qlayers.py",G+"qcircuit.py"],[("batch branch of each TN_contract","qoperator.py, qlayers.py")],
 ["return value of TN_contract / Circuit.TN_contract_evolution with batch_mod=True"])

p("C07","State and density-matrix tensor forms convert back and forth without loss",
 "Converting any state vector to matrix-product form and back (as a row vector or as a rank-N tensor) returns the original vector to single precision, phase included, and the intermediate form has one rank-3 tensor per qubit with matching bonds, unit outer bonds and bonds at most 2^min(k,N-k) (all 1 for computational basis states). Converting any density matrix, pure or mixed, to its matrix-product-operator form and back returns the same density matrix with unit trace. The rank-N and rank-2N tensor forms are exact reshapes of the vector and matrix, and inputs of the wrong shape raise an error.",
 ["inputs"],"all state vectors (of any norm) and density matrices, including product, entangled, rank-deficient and extreme-amplitude ones, for all N",
 "tests round-trip nothing systematically; truncation thresholds and index order matter only for specific spectra",
 [G+"qtensornetwork.py"],[("StateVec2MPS / MPS2StateVec","qtensornetwork.py"),("Rho2MPS / MPS2Rho","qtensornetwork.py"),("MatrixProductState / MatrixProductDensityOperator","qtensornetwork.py")],
 ["return values of the conversion functions"])

p("C08","MPS inner products and local expectations match dense algebra",
 "The inner product of two matrix-product states equals to single precision the dense inner product <bra|ket> (complex, conjugate-linear in the bra), and the expectation of a list of single-qubit Hermitian observables on distinct wires equals the dense expectation of their tensor product, for any number of qubits, any states including product states with unit bonds, and any order of the wires. Neither call changes the tensors or lists it was given.",
 ["inputs","histories"],"all pairs of states, all wire subsets and observables, repeated calls on the same list",
 "no test calls either function on product states, on one or two qubits, or twice on the same state",
 [G+"qtensornetwork.py"],[("MPS_inner_product","qtensornetwork.py"),("MPS_expec","qtensornetwork.py")],
 ["return values; the caller's lists before/after"])

p("C09","The adjoint of an operation is its inverse in every evolution mode",
 "For every operation that offers an adjoint, applying the operation and then its adjoint (or the reverse) is the identity to single precision: the expanded adjoint is the conjugate transpose of the expanded operation, and the adjoint also undoes it on matrix-product states and in direct contraction. It acts on the same wires with the operation's current parameter values, including after those were updated, gradients flow through it, and taking the adjoint leaves the original operation unchanged.",
 ["inputs","histories"],"all operations, parameters, wires and update histories",
 "test_operation_dagger.py is a script that does not run here and samples one parameter set per layer; adjoints after updates, of gates with permuted wires, and on matrix-product states are not covered",
 [G+"qoperator.py",L+"qlayers.py"],[("operation_dagger of each gate/layer","qoperator.py, qlayers.py")],
 ["operation_dagger() and the U_expand/TN_operation/TN_contract of its result"])

p("C10","Updating an operation's parameters equals constructing it anew",
 "After updating the parameters of any gate or layer, every observable behaviour of that object (expanded matrix, matrix-product evolution, contraction, adjoint, reported parameters) equals that of a newly constructed object with the new parameters, no matter how many updates came before and in whichever accepted form (number, list, tensor) the values are given. Updating one object changes no other object.",
 ["histories","inputs"],"all histories of updates on all parametrised operations, alone and inside circuits",
 "only the gradient code updates parameters, always with small tensors around one point; cached matrices and sub-layers going stale are not tested",
 [G+"qoperator.py",L+"qlayers.py"],[("params_update","qoperator.py, qlayers.py"),("BasicEntangleLayer sub-layers","qlayers.py")],
 ["U_expand/TN_operation/TN_contract/info after params_update"],[("matrix/u_matrix/part1_lst","values cached from params","gate and layer objects")])

p("C11","Parameter-shift gradients equal the true derivative and restore the circuit",
 "For every circuit of gates and layers, observable and initial state, the parameter-shift gradient equals to single precision the analytic derivative of the expectation value with respect to every parameter, with one entry per parameter in the order the operations were added and then in each operation's parameter order. After the computation the circuit's matrix and all operations' parameters are exactly what they were before, including when parameters had been updated since the circuit was built or require gradients.",
 ["programs","inputs","histories"],"all circuits mixing all parametrised operations, all parameter values, Hermitian observables and normalised states; circuits re-used after updates",
 "test_TN_parameter_shift_rule.py prints the gradients of one fixed circuit of Pauli rotations; controlled rotations (which have more shift frequencies), stale parameters and restoration are not checked",
 [G+"qcircuit.py"],[("parameter_shift.cal_params_grad","qcircuit.py")],
 ["return value of cal_params_grad; Circuit.U() and parameters before/after"])

p("C12","Bidirectional (saved-state) gradients equal the true derivative",
 "For every circuit of tensor-network-capable operations and every single-qubit Pauli observable, the gradient obtained from the saved forward and backward matrix-product states equals to single precision the analytic derivative of the expectation value for every parameter, in circuit order, and the state returned with the saved states is the circuit's final state. The computation leaves the circuit's matrix, the operations' parameters and the saved states unchanged.",
 ["programs","inputs","histories"],"all tensor-network-capable circuits (parametrised operation first, last or consecutive included), observables, states and parameter values",
 "one fixed circuit is printed by the existing script; first/last-position boundaries, several parametrised operations in a row and non-Pauli-rotation gates are not reached",
 [G+"qcircuit.py"],[("parameter_shift.save_mid_MPS","qcircuit.py"),("parameter_shift.cal_params_grad2","qcircuit.py")],
 ["return values of save_mid_MPS and cal_params_grad2"],[("save_dict","intermediate states by position","save_mid_MPS")])

p("C13","Automatic differentiation through simulation gives the true derivative",
 "Whenever parameters or inputs require gradients, back-propagating any scalar built from a circuit's overall matrix, from direct tensor contraction (batched or not), from measurement results or from expectation values computed with the dense method gives, to single precision, the analytic derivative with respect to every parameter of every operation, before and after parameter updates and at every step of a training loop that changes the parameters in place. The gradients can themselves be differentiated, giving the true second derivatives. The same holds for what is fed in: Pauli- and amplitude-encoded data, states contracted or measured, density matrices traced over or measured, and observables. No operation silently detaches a parameter or an input from the graph.",
 ["programs","inputs","histories"],"all circuits over all parametrised operations, all parameter values and scalar functions of the outputs",
 "the training scripts only check that a loss is printed; a detached parameter leaves the loss finite and the script green",
 [G+"qoperator.py",G+"qmath.py",G+"qcircuit.py",L+"qlayers.py"],[("matrices built from parameter tensors","qoperator.py, qlayers.py"),("measure","qmath.py")],
 ["tensor.grad after backward()"])

p("C14","Circuit expectation values are correct with and without tensor networks",
 "The expectation value a circuit reports for an initial state and a Hermitian observable equals to single precision <psi0|U^dagger M U|psi0>, whether the tensor-network path is requested, not requested, or unavailable because some operation does not support it, and the two paths agree. It changes neither the circuit, the initial state nor the observable, so repeated calls return the same value; inputs of the wrong shape raise an error.",
 ["programs","inputs"],"all circuits, normalised states and Hermitian observables, both settings of the tensor-network switch",
 "scripts evaluate a few fixed circuits; circuits mixing supported and unsupported operations and complex observables are not compared with a reference",
 [G+"qcircuit.py"],[("Circuit.cir_expectation","qcircuit.py"),("Circuit.TN_check","qcircuit.py")],
 ["return value of cir_expectation"])

p("C15","Measurement helpers report the right expectation for the right qubits",
 "The measurement helper returns the Pauli-Z expectation of each requested qubit, in the order requested (a single index including 0, a list, or all qubits in order by default), for a state vector given flat, as a row or as a column, and for a density matrix, pure or mixed. The expectation helper returns <psi|M|psi> for a state vector and Tr(rho M) for a density matrix for any Hermitian M, and rejects a density matrix whose trace is not 1.",
 ["inputs"],"all states, density matrices, qubit selections and Hermitian observables",
 "tests never call measure with an index list or index 0, nor compare with an independent reference",
 [G+"qmath.py"],[("measure / _Zmeasure / expval","qmath.py")],["return values of measure and expval"])

p("C16","Partial traces give the correct reduced state for any qubit subset",
 "Tracing out any list of distinct qubits, given in any order, returns to single precision the reduced density matrix of the remaining qubits in their original order, and the current and old implementations agree; the prefix form keeps the first qubits and traces the rest. Tracing nothing returns the input, tracing everything returns its trace, results stay Hermitian, positive and of unit trace, and the caller's matrix and list are unchanged. Matrices whose trace is not 1, or whose size does not match N, or qubit indices beyond N-1 are rejected by the list forms.",
 ["inputs"],"all density matrices and all ordered subsets of qubits, for all N",
 "test_qmath.py samples one state and one subset; unsorted subsets, the empty and full subsets and caller aliasing are not covered",
 [G+"qmath.py"],[("ptrace / partial_trace / partial_trace_old","qmath.py")],["return values; caller's list before/after"])

p("C17","Matrix helpers and predicates decide what their names say",
 "The n-fold Kronecker product equals the textbook product of the factors in list order, and the dagger helper returns the conjugate transpose of any matrix, square or not, undoing itself when applied twice. The unitarity, normalisation and hermiticity predicates return true for matrices and vectors that satisfy the definition up to rounding well below their tolerance (1e-6) and false for any that violate it clearly above it, wherever in the matrix the violation sits and also when an entry is NaN; non-square or non-vector arguments raise an error.",
 ["inputs"],"all matrices and vectors of all sizes, with a violation placed in any single entry, row or pair of rows",
 "test_qmath.py asserts a few hand-picked matrices; the predicates loop over entries so a missed row, column or diagonal shows only when the defect sits there",
 [G+"qmath.py"],[("multi_kron, dag, IsUnitary, IsNormalized, IsHermitian","qmath.py")],["return values"])

p("C18","Data encodings produce the documented quantum states",
 "Amplitude encoding returns the input divided by its Euclidean norm in the leading amplitudes and zeros after it, for real or complex inputs of any length up to 2^N, keeping relative signs and phases; Pauli encoding applies to the i-th listed wire the X, Y or Z rotation by input i modulo the number of inputs, in dense, matrix-product and contraction form alike. State preparation returns the given amplitudes as complex numbers and density preparation the outer product |psi><psi|, Hermitian with the squared moduli on its diagonal. Gram encoding of a real row vector returns a Hermitian positive unit-trace matrix whose populations are the squared entries normalised, and oversized inputs and unknown axes are rejected.",
 ["inputs","configurations"],"all input vectors, lengths, wires and axes",
 "the demos encode a fixed image or vector; complex amplitudes, fewer inputs than wires and padding are not asserted",
 [E+"qembedding.py",E+"qstate.py"],[("AmplitudeEncoding, PauliEncoding, gram_encoding","qembedding.py"),("PrepareState, PrepareRho","qstate.py")],["return values"])

p("C19","The quantum convolution layer computes every window correctly and trains",
 "For any batch, image size, kernel size of at least 2 and stride with the kernel fitting the image, the layer's output has floor((size-kernel)/stride)+1 positions per axis and kernel^2 channels, and each entry is the Z expectation of that channel's qubit after encoding exactly that window of the image's first channel with ry(pi*x), applying rx, rz, rx per qubit with the scaled weights and a ring of CNOTs. Windows and samples do not influence each other, and back-propagation gives the true derivative with respect to the weights and the image, at every step of a training history and after loading other weights.",
 ["inputs","configurations"],"all image sizes, strides, kernels, batches and weights",
 "the demo for this layer is excluded from the suite and only ever ran 28x28 images with stride 2",
 ["deepquantum/nn/modules/quanv.py"],[("QuanConv2D.forward/_input/_qconv","quanv.py")],["QuanConv2D(...)(input) and weight.grad"])

p("C20","The legacy circuit class builds the circuit it is told to",
 "For every sequence of calls on the legacy circuit class (rotations, Pauli gates, Hadamard, cnot, cz, rxx, ryy, rzz, multi-controlled NOT), its overall matrix is unitary and equals the product of the textbook matrices on the given qubits in call order, or in the opposite order when left_to_right=False, and its gate list records one entry per call, in order, with the qubits and angle given. Angles given as tensors stay trainable: back-propagation gives the true derivative. Its expansion helpers embed any given matrix on the given qubits. Its measurement helper returns Tr(rho Z_i) for every qubit of a density matrix. Qubit indices outside the register are rejected.",
 ["programs","inputs"],"all call sequences, qubit indices (0 as second qubit included), angles and containers",
 "the demos that use it print losses; argument combinations such as second qubit 0 and long sequences are not compared with a reference",
 [G+"qgate.py"],[("Circuit.* builder methods, gate_sequence_product","qgate.py")],["U(), gate_sequence_product(), gate_list, measure()"],[("u","accumulated matrices","qgate.Circuit"),("gate_list","call record","qgate.Circuit")])

p("C21","Functional layer builders return the documented matrices",
 "Each functional layer builder (XYZ/YZY/XZX/XZ/H layers, ring_of_cnot, ring_of_cnot2, ring_of_cz, nearest_neighbor_cnot/cz, all2all_cnot, the composed entangling layers and the Rxx/Ryy/Rzz layers) returns the unitary 2^N matrix that is the product of textbook gates its documentation and loops describe, in either up2down direction, for every N and parameter list, differentiable with respect to every parameter; parameter lists of the wrong length and registers too small for it are rejected, as are unknown choices of the inner single-qubit rotations.",
 ["inputs","configurations"],"all N, directions, inner single-gate choices and parameters",
 "no test imports these functions' results",
 [L+"qlayer.py"],[("module functions","qlayer.py")],["return values"])

p("C22","Evaluation is pure: no hidden state survives between calls",
 "Computing a circuit's matrix, contracting it with a state, computing an expectation, a measurement, a partial trace or a gradient any number of times, in any order and interleaved with the same computations on other circuits (also ones sharing the same operation objects) or carried out in several threads at once, returns the same values every time, namely those of the present parameters and inputs. These calls do not modify the caller's states, observables, wire lists or parameter tensors, and do not consume the global random number generator or change the global default dtype.",
 ["histories"],"all interleavings of read-only calls over several live circuits, with callers changing their own inputs in between and with concurrent threads",
 "tests evaluate each object once in a fixed order; in-place modification or class-level caches only show on reuse",
 [G+"qcircuit.py",G+"qoperator.py",G+"qtensornetwork.py",G+"qmath.py",L+"qlayers.py"],[("no caches or class-level mutable state","all gate/layer classes")],["return values and argument snapshots around every call"])

p("C23","Invalid wires, sizes and parameter counts are rejected, not mis-simulated",
 "An operation whose wires are out of range for its qubit count, negative, repeated or of the wrong number never yields a matrix or an evolved state: an exception is raised when it is built or first used. The same goes for Pauli encodings, for gates and layers given the wrong number of parameters (when built or when updated), for layers given the wrong number of wires or repeats, for a circuit evolving a state with the wrong number of qubits, for a gate used without qubit count or wires, for the expansion helpers given such wires, and for tensor-network evolution of a circuit containing an operation that does not support it.",
 ["inputs"],"all invalid argument combinations over all operations",
 "no test passes invalid arguments; a missing check yields a plausible but wrong matrix",
 [G+"qoperator.py",L+"qlayers.py",G+"qcircuit.py"],[("constructor and U_expand/TN_* validation","qoperator.py, qlayers.py"),("TN_evolution/TN_contract_evolution length checks","qcircuit.py")],["exception vs result of construction + evaluation"])

p("C24","Self-description of operations and circuits is truthful",
 "What an operation reports about itself matches what it does: its parameter count is the number of angles it takes, its info lists the wires it acts on with controls and targets in their true roles and its current parameters, an operation flagged self-inverse squares to the identity, one flagged diagonal has a diagonal matrix, its 'matrix' is the operation on its wires in the listed order, and one flagged as supporting tensor networks actually evolves matrix-product states and contracts. A circuit's tensor-network check is true exactly when all its operations support it.",
 ["inputs","configurations","histories"],"all operations, wires and parameters, before and after updates",
 "flags and info are never asserted by the tests although expectation, gradient and evolution code dispatches on them",
 [G+"qoperator.py",L+"qlayers.py",G+"qcircuit.py"],[("info(), num_params, self_inverse, diagonal, supportTN","qoperator.py, qlayers.py"),("Circuit.TN_check","qcircuit.py")],["attributes and info() against U_expand()/TN behaviour"])

p("C25","Training a hybrid model follows the exact trajectory",
 "A training loop built from this library's parts - data encodings, circuits kept with params_update or rebuilt, contraction (batched or not), overall matrices, density matrices and partial traces, measurements, expectation values, combined with classical torch layers - sees at every step, to single precision, the loss and the gradient of the mathematical model at the present parameters, whether the gradients come from back-propagation, from parameter shift, from the saved-state method or from these in turn, with any torch optimiser, with minibatches of changing size, with validation passes without gradients in between and after a checkpoint is restored. Evaluating the model never changes the trained tensors, so the parameters after the optimiser's steps are those of the exact trajectory.",
 ["programs","inputs","histories"],"all models composed from the library's parts, all optimisers, data and numbers of steps",
 "the training scripts only print a loss; a stale matrix, a detached parameter or a gradient entry in the wrong place still lets the loss go down",
 [G+"qcircuit.py",G+"qoperator.py",G+"qmath.py",L+"qlayers.py","deepquantum/embeddings/qembedding.py"],[("parameter_shift","qcircuit.py"),("params_update and matrices from parameters","qoperator.py, qlayers.py")],
 ["loss, tensor.grad and parameters around every optimiser step"])

p("C26","A call that is rejected or fails half way leaves no trace",
 "When a call is rejected - an operation with invalid wires, sizes or parameter counts, an object that is not an operation added to a circuit, an update with the wrong number of parameters, an expectation, evolution, gradient, measurement, trace or convolution with arguments that do not fit - or when an operation fails while a circuit is evaluated or a gradient is being computed, wherever it strikes, then everything is as it was before the call: the circuit's operations, every operation's own parameters, its matrix and its connection to what is trained, the circuit's bookkeeping, the legacy circuit's record, the caller's states, observables, lists and parameter tensors, random number generators, default dtype and gradient mode. The next valid call gives the right result. (Matrix-product states are evolved in place, so a half-evolved one is excepted.)",
 ["inputs","faults","histories"],"all invalid calls and all points at which an evaluation can fail, on all circuits",
 "no test makes a failing call and goes on; a circuit left with a shifted parameter or half an operation silently gives wrong results from then on",
 [G+"qcircuit.py",G+"qoperator.py",G+"qgate.py",L+"qlayers.py"],[("Circuit.add","qcircuit.py"),("parameter_shift.cal_params_grad/cal_params_grad2","qcircuit.py"),("params_update","qoperator.py, qlayers.py"),("legacy gate methods","qgate.py")],
 ["raised exception, then all observable state and the next valid call"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
