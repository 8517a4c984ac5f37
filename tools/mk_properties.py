"""Writes /verif/properties.jsonl (the property texts live here so that they can be reviewed as a table)."""
import json, os
G = 'deepquantum/gates/'
OP, CI, TN, QM, QG = G + 'qoperator.py', G + 'qcircuit.py', G + 'qtensornetwork.py', G + 'qmath.py', G + 'qgate.py'
LS, LF = 'deepquantum/layers/qlayers.py', 'deepquantum/layers/qlayer.py'
EM, ST, QV = 'deepquantum/embeddings/qembedding.py', 'deepquantum/embeddings/qstate.py', 'deepquantum/nn/modules/quanv.py'
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


p('C01', 'Every gate and layer expands to exactly its defined unitary',
  'Expanding any gate or layer on an N-qubit register yields the 2^N x 2^N unitary of its textbook (or documented) definition acting on exactly the named wires, with wire 0 as the most significant bit, wire order significant (control before target, the layer\'s parameters and ring order following the wire list) and identity on every other qubit. This holds for every wire placement, parameter value (any size or sign) and accepted parameter form (number, list, tensor).',
  ['inputs'], 'all 19 gates and 11 layers (rings on subsets and reordered wires, repeated entangling blocks included), every ordered wire placement for small N and sampled ones above, all angles',
  'The scripts run a handful of fixed circuits and compare nothing; the unit tests cover only matrix helpers. Placement and angle are universally quantified.',
  [OP, LS], [('dense expansion of gates', OP + ': U_expand, gate_expand_1toN, two_qubit_control_gate, multi_control_gate'), ('dense expansion of layers', LS + ': U_expand, _cal_single_gates, _gate_fusion_U_expand')],
  ['U_expand() of every gate and layer', 'the public matrix attribute of gates'])

p('C02', 'A circuit\'s unitary is the ordered product of what was added',
  'For any sequence of operations, the unitary of a circuit is the product of the operations\' expansions in the order they were added (the first one acts first by default, and last when the opposite order is requested), the identity for an empty circuit, and is itself unitary. Building through the circuit\'s own gate and layer methods gives the same unitary as adding the operation objects by hand.',
  ['programs', 'inputs'], 'all circuits: any length, any mix of gates and layers, both product orders',
  'Tests build a few fixed ansatz circuits and do not check the product.',
  [CI], [('product loop', CI + ': Circuit.U'), ('builder methods', CI + ': Circuit.Hadamard ... BasicEntangleLayer')], ['Circuit.U(left_to_right=...)'])

p('C03', 'State vector to MPS conversion is lossless and well formed',
  'Converting any N-qubit state vector (normalised or not, product, entangled or nearly product) to a matrix product state and back returns the same vector, both as a row vector and as a rank-N tensor. The MPS has one tensor per qubit with physical dimension 2, matching neighbouring bonds, boundary bonds of 1 and no bond above what its cut allows, with computational basis states at bond 1 and all but the last tensor isometric; a vector of the wrong shape is rejected.',
  ['inputs'], 'all states of N qubits (N up to 10 in thorough runs), including those with small Schmidt values; all wrong shapes',
  'No test performs the round trip; truncation faults appear only for particular entanglement spectra.',
  [TN], [('sequential SVD', TN + ': StateVec2MPS'), ('contraction', TN + ': MPS2StateVec, MatrixProductState')], ['StateVec2MPS -> MPS2StateVec', 'shapes of the returned tensors'])

p('C04', 'MPS evolution equals state-vector evolution',
  'Evolving an MPS through any circuit of tensor-network-capable operations gives exactly the state the circuit\'s unitary gives (global phase included), for every initial state and every wire placement, adjacent or not, in either order. The result is again a well-formed MPS (one tensor per qubit, physical dimension 2, matching bonds within the limits of each cut), and the norm is preserved.',
  ['programs', 'inputs'], 'all circuits over all tensor-network-capable gates and layers, all initial states, N up to 8',
  'The scripts run MPS evolution for crashes only; a fault in one swap route, control orientation or decomposition shows only for particular placements and states.',
  [CI, OP, LS, TN], [('MPS gate application by swapping to neighbours', OP + ': TN_operation'), ('layers', LS + ': TN_operation'), ('re-splitting', TN + ': TensorDecompAfterTwoQbitGate, TensorDecompAfterThreeQbitGate')], ['Circuit.TN_evolution', 'TN_operation of each gate and layer'])

p('C05', 'Tensor-contraction evolution equals state-vector evolution',
  'Evolving a state given as a rank-N tensor through any circuit of tensor-network-capable operations gives exactly the tensor of the state that the circuit\'s unitary gives, axis k being qubit k, for every wire placement and every memory layout of the input. The input tensor is left unmodified, and circuits containing an operation without tensor-network support are rejected rather than evaluated.',
  ['programs', 'inputs'], 'all circuits over all tensor-network-capable operations, all states, contiguous or strided input',
  'The scripts use one fixed ansatz on the all-zero state and compare nothing.',
  [CI, OP, LS, TN], [('axis permutation and matmul', OP + ': TN_contract'), ('layers', LS + ': TN_contract'), ('reshape', TN + ': MatrixProductState')], ['Circuit.TN_contract_evolution', 'TN_contract of each gate and layer'])

p('C06', 'Batched evolution treats every batch element as if alone',
  'In batch mode the contraction evolution returns, for every batch size including 1 and sizes equal to a qubit dimension, exactly the stack of the results obtained by evolving each element separately; no element influences another and batch order is kept.',
  ['programs', 'inputs'], 'all circuits over tensor-network-capable operations, batch sizes 1..6, all wire placements, expanded (stride-0) and permuted batches',
  'Training scripts use batches but check only that the loss is computed.',
  [CI, OP, LS], [('batch axis offset', OP + ': TN_contract(batch_mod=True)'), ('layers', LS + ': TN_contract(batch_mod=True)')], ['Circuit.TN_contract_evolution(batch_mod=True)'])

p('C07', 'Circuit expectation values are exact on both back ends',
  'The expectation value of any Hermitian observable after a circuit equals <psi|U^dagger M U|psi> for every initial state, and is the same real number whether the tensor-network or the dense back end is used; a circuit with an operation that has no tensor-network support falls back to the dense one. Initial states or observables of the wrong shape are rejected.',
  ['programs', 'inputs'], 'all circuits, normalised initial states, Hermitian observables; both settings of the back-end switch',
  'One test script prints expectation values; none compares the two back ends.',
  [CI], [('back-end choice', CI + ': Circuit.cir_expectation, TN_check'), ('sandwich', CI + ': cir_expectation')], ['Circuit.cir_expectation(init, M, TN=True/False)'])

p('C08', 'Qubit measurement returns the Z expectations of the requested qubits',
  'Measuring an N-qubit pure state or density matrix returns, in order, the Pauli-Z expectation of each requested qubit (all by default, one for an index including index 0, the listed ones in their order for a list), equal for a pure state and its density matrix and consistent with the outcome probabilities. The general expectation function returns <psi|M|psi> or Tr(rho M) as a real number for any Hermitian observable, and rejects a density matrix whose trace is not 1; measuring a qubit outside the register is rejected too.',
  ['inputs'], 'all states and density matrices, all index selections, all Hermitian observables',
  'The existing measurement test does not pass and checks one fixed state.',
  [QM], [('observable list', QM + ': _Zmeasure'), ('expectation', QM + ': expval, measure')], ['measure(n, state, ith)', 'expval(state, M, rho)'])

p('C09', 'MPS overlaps and local expectations match the state vectors',
  'The overlap of two matrix product states equals <bra|ket> of their state vectors (conjugate-linear in the bra, phase included), for any bond dimensions including 1 and for a single qubit. The expectation of a product of single-qubit observables on given wires of an MPS equals that of the operator on the state vector, and neither computation changes the MPS it is given.',
  ['inputs'], 'all pairs of states (product, entangled, evolved through circuits), all wire subsets and orders, Hermitian 2x2 observables',
  'No test calls the overlap; the scripts call the local expectation on one state.',
  [TN], [('transfer contraction', TN + ': MPS_inner_product'), ('local observables', TN + ': MPS_expec')], ['MPS_inner_product', 'MPS_expec'])

p('C10', 'Parameter-shift gradients are the true derivatives',
  'The parameter-shift gradient of an expectation value is the vector of partial derivatives with respect to every parameter of every parametrised gate and layer, in circuit order, at the current parameter values (also after parameters were updated). Afterwards the circuit has the same parameters and the same expectation value as before.',
  ['programs', 'inputs', 'histories'], 'all circuits (controlled and phase gates, repeated layers, circuits without tensor-network support), all parameter values, states and observables',
  'One script prints the gradient next to another estimate; nothing is compared.',
  [CI], [('shift rule per parameter and restore', CI + ': parameter_shift.cal_params_grad'), ('parameter update', OP + ', ' + LS + ': params_update')], ['parameter_shift(cir, psi, M).cal_params_grad()'])

p('C11', 'The bidirectional MPS gradient equals the true derivatives',
  'The gradient obtained from one forward and one backward MPS sweep equals the vector of partial derivatives of the expectation of the given single-qubit Pauli observable with respect to every parameter, in circuit order, at the current parameter values. The sweep also returns the circuit\'s final state, and the circuit is left with the same parameters. A circuit holding an operation without a tensor-network form is rejected.',
  ['programs', 'inputs'], 'all circuits over tensor-network-capable operations, every single-qubit Pauli observable, all states',
  'One script runs the method on one ansatz without comparing.',
  [CI, OP, LS], [('saved intermediate states', CI + ': parameter_shift.save_mid_MPS'), ('derivative of one gate', CI + ': parameter_shift.cal_params_grad2'), ('daggers for the backward sweep', OP + ', ' + LS + ': operation_dagger')], ['save_mid_MPS, cal_params_grad2'])

p('C12', 'Automatic differentiation through circuits is exact',
  'When gate or layer parameters require gradients, back-propagating an expectation value through the dense unitary, through the contraction evolution (single or batched) or through measurement yields the true partial derivative for every parameter, with none silently detached. This also holds for parameters set by an update, for adjoint operations and for second derivatives.',
  ['programs', 'inputs'], 'all circuits of parametrised gates and layers, all parameter values; dense, contraction, batched contraction and measured expectations',
  'Training scripts only check that the loop finishes; a detached parameter still finishes.',
  [CI, OP, LS, QM], [('matrices built from differentiable operations', OP + ', ' + LS + ': constructors, params_update, U_expand'), ('measurement', QM + ': expval, measure')], ['tensor.grad after backward()'])

p('C13', 'The dagger of an operation is its inverse',
  'For every operation that offers an adjoint, applying the operation and then its adjoint (in either order, and in the dense, MPS and contraction forms) is the identity, the adjoint\'s matrix is the conjugate transpose, and taking the adjoint twice gives the original operation. Taking the adjoint leaves the original operation unchanged, and the adjoint does not change when the original is updated afterwards.',
  ['inputs', 'histories'], 'all gates, single-qubit layers and the CNOT ring, all wire placements and parameters',
  'The script for adjoints fails on the unmodified tree and checks nothing.',
  [OP, LS], [('adjoint construction', OP + ', ' + LS + ': operation_dagger')], ['operation_dagger().U_expand() / TN_operation / TN_contract'])

p('C14', 'Updating parameters equals rebuilding the operation',
  'After any sequence of parameter updates, an operation behaves in every form (dense, MPS, contraction, adjoint, reported parameters) exactly like one freshly constructed with the last parameters, whatever its earlier values and in whichever accepted form (number, list, tensor) the parameters are given. Circuits containing it immediately reflect the new values, and updating a parameterless operation changes nothing.',
  ['histories', 'inputs'], 'all parametrised gates and layers, sequences of updates interleaved with evaluations',
  'The training scripts never compare an updated gate with a fresh one; a stale cached matrix in one form goes unseen.',
  [OP, LS, CI], [('matrix refresh', OP + ': params_update'), ('layer refresh', LS + ': params_update')], ['params_update followed by U_expand / TN_operation / TN_contract / info / operation_dagger'])

p('C15', 'Circuit bookkeeping is right after every history',
  'After any history of adding operations, clearing, updating parameters and evaluating, the circuit holds exactly the operations added since the last clear in order, reports the total number of their parameters and, under each operation\'s position, the parameters it was added with (none for parameterless ones), says tensor networks are supported exactly when all of them are, and starts from the all-zero state. A cleared circuit behaves exactly like a new one.',
  ['histories'], 'all histories of add / builder call / clear / update / evaluate on one or several circuits, including a shared operation object',
  'Tests build a circuit once and never clear or reuse it.',
  [CI], [('add, clear', CI + ': Circuit.add, Circuit.clear'), ('support check', CI + ': TN_check'), ('initial state', CI + ': state_init')], ['Circuit.gate, cir_num_params, cir_params, TN_check(), state_init(), U()'])

p('C16', 'Evaluation is repeatable and leaves its inputs alone',
  'Computing a unitary, an evolution, an expectation, a measurement, a gradient, a conversion, a partial trace or an encoding does not modify the states, matrices, index lists or parameter tensors handed in, nor the circuit, and repeating it in any order gives the same result (only the list handed to the MPS evolution is consumed: its entries are replaced by the result). Operations and circuits are independent: creating, updating or evaluating one never changes another.',
  ['histories', 'inputs'], 'all sequences of evaluations over several live circuits and operations, with inputs compared bit for bit before and after (a list-form MPS given to MPS evolution is documented to be consumed)',
  'Each test evaluates once with fresh inputs, so aliasing and caches cannot show.',
  [CI, OP, LS, TN, QM, EM], [('fresh tensors per call', OP + ', ' + LS + ': U_expand, TN_contract'), ('copies before updates', CI + ': parameter_shift'), ('list copies', TN + ': MPS_expec; ' + QM + ': partial_trace')], ['inputs before and after each public call'])

p('C17', 'Density matrix to tensor-network form and back is lossless',
  'Decomposing any N-qubit density matrix of trace 1 (pure or mixed, any rank) into a matrix product density operator and contracting it back returns the same matrix; the decomposition has one rank-4 tensor per qubit with both physical dimensions 2 and matching bonds. The rank-2N tensor form holds element (row bits, column bits) at the corresponding index, and matrices of the wrong shape are rejected.',
  ['inputs'], 'all density matrices for N up to 5, contiguous or transposed in memory; wrong shapes',
  'One script converts one density matrix and prints it.',
  [TN], [('interleaved reshape and SVD', TN + ': Rho2MPS'), ('contraction and trace normalisation', TN + ': MPS2Rho'), ('reshape', TN + ': MatrixProductDensityOperator')], ['Rho2MPS -> MPS2Rho', 'MatrixProductDensityOperator'])

p('C18', 'Partial traces are exact',
  'Tracing out any set of qubits (in any listed order, including none and all) yields exactly the reduced density matrix of the remaining qubits in their original order, and both implementations and the two-block version agree with it. Traces, Hermiticity and positivity are preserved, product states give back their factors, and tracing in steps equals tracing at once; a matrix of wrong size or trace, or an index outside the register, is rejected.',
  ['inputs'], 'all density matrices, all subsets and orders of qubits, N up to 6',
  'One unit test compares the two implementations with each other on one shape.',
  [QM], [('index selection recursion', QM + ': partial_trace'), ('projector sums', QM + ': partial_trace_old, ptrace')], ['partial_trace, partial_trace_old, ptrace'])

p('C19', 'Matrix helpers and predicates are correct',
  'The conjugate transpose, the ordered Kronecker product and the unitarity, Hermiticity and normalisation predicates agree with their mathematical definitions for real and complex input of every size: a predicate is true on inputs satisfying it to rounding accuracy and false on inputs violating it by more than a small tolerance, wherever in the matrix the violation sits. Non-square matrices and non-vectors are rejected with an error.',
  ['inputs'], 'all matrices and vectors of dimension 1..8, violations placed in any single entry, row, pair of rows or phase',
  'The unit tests use one or two fixed matrices per function and several assert nothing about negatives.',
  [QM], [('definitions', QM + ': dag, multi_kron, IsUnitary, IsHermitian, IsNormalized')], ['return values'])

p('C20', 'Pauli angle encoding applies the right rotation on every wire',
  'The angle-encoding layer rotates each listed wire about the chosen axis by the data value at its position in the wire list, reusing values cyclically when there are fewer values than wires, and leaves other wires alone. Its dense, MPS, contraction and batched contraction forms all describe that same operation; an unknown axis or more values than qubits is rejected.',
  ['inputs'], 'all data vectors, axes, wire lists (any order), N up to 6',
  'Demos use the layer once on fixed wires without checking the state.',
  [EM, LS], [('rotation per wire', EM + ': PauliEncoding._cal_single_gates'), ('shared evolution', LS + ': SingleGateLayer')], ['U_expand, TN_operation, TN_contract of the encoder'])

p('C21', 'Amplitude, Gram and state preparation yield the intended states',
  'Amplitude encoding returns the unit vector proportional to the data (real or complex), zero padded to 2^N, and rejects data that does not fit. Gram encoding of a data row returns a density matrix (Hermitian, positive, trace 1) whose diagonal is proportional to the squared data magnitudes; state preparation returns the complex vector of the given amplitudes and its density matrix |psi><psi|.',
  ['inputs'], 'all non-zero data vectors, real or complex, any length that fits',
  'No stable test covers them beyond one demo on real data.',
  [EM, ST], [('normalise and pad', EM + ': AmplitudeEncoding.encoded_state'), ('Gram', EM + ': gram_encoding'), ('outer product', ST + ': PrepareState, PrepareRho')], ['returned vectors and matrices'])

p('C22', 'The legacy circuit builder computes the same physics',
  'For any gate sequence, the legacy circuit class returns the product, first gate first, of the unitaries of its gates on the given qubits (same conventions as the main gates, control before target), records each gate (the multi-controlled NOT excepted) with its qubits and parameter in order, and rejects unavailable or equal qubits without recording the gate. Its measurement of a density matrix returns the Z expectation of every qubit.',
  ['programs', 'inputs'], 'all sequences of the legacy gates, all qubit placements, angles as numbers or tensors',
  'No test uses the legacy class beyond import.',
  [QG], [('expansion', QG + ': gate_expand_1toN, two_qubit_control_gate, two_qubit_rotation_gate, multi_control_gate'), ('product', QG + ': gate_sequence_product'), ('measurement', QG + ': measure, expecval_ZI')], ['U(), gate_list, measure()'])

p('C23', 'Functional layers return the documented unitaries',
  'Each layer function returns the unitary of its documented construction for every qubit number and parameter list: single-qubit rotation layers in the named order, CNOT/CZ rings, next-nearest rings, nearest-neighbour bricks and all-to-all blocks in both directions, two-qubit rotation bricks, and the entangling blocks composed of them. Wrong parameter counts, unknown single-gate names or too few qubits are rejected.',
  ['inputs'], 'all layer functions, N up to 5, both directions, all single-gate choices, all angles',
  'No test calls them; before the repair recorded in known_findings.json none of them could run.',
  [LF], [('layer functions', LF)], ['returned matrices'])

p('C24', 'The quantum convolution computes every patch correctly and is trainable',
  'For every image batch, kernel (2 or more) and stride, output channel c at (i, j) is the Z expectation of qubit c after angle-encoding (pi times the pixel, as Y rotation) the patch of the first image channel starting at (i*stride, j*stride), applying the X-Z-X rotations given by the scaled weights and the ring of CNOTs, with output size floor((size-kernel)/stride)+1. The gradient with respect to the weights (and the input) is the true derivative, the initial scaled angles are drawn between 0 and 2*pi*gain/sqrt(5) whatever the scaling mode and multiplier, and a qubit count different from the kernel area is rejected.',
  ['inputs', 'configurations'], 'batches of 1-3 images, square and non-square, strides 1-3, kernels 2 and 3, several channels, all weights',
  'No stable test runs the module.',
  [QV], [('patch loop and circuit', QV + ': QuanConv2D.forward, _input, _qconv'), ('measurement', QM + ': measure')], ['QuanConv2D(...)(image)', 'weight.grad'])

p('C25', 'Operation metadata tells the truth',
  'The information every operation reports (label of its kind, control list, target list, parameters) names exactly the wires and roles it acts with and its current parameters. Its flags are consistent with its matrix: the wire and parameter counts match the wires and parameters, self-inverse means it squares to the identity, diagonal means its matrix is diagonal, tensor-network support means the MPS and contraction forms work.',
  ['inputs', 'histories'], 'all gates and layers, all placements, also after parameter updates and adjoints',
  'No test inspects metadata.',
  [OP, LS], [('info and flags', OP + ', ' + LS + ': info, num_params, self_inverse, diagonal, supportTN')], ['info(), attributes'])

p('C26', 'Impossible operations and states are rejected, not silently computed',
  'Using a gate, in its dense, MPS or contraction form, on a qubit outside the register (negative included), a controlled or two-qubit gate whose wires coincide, or a gate without register or wires raises an error instead of returning a result. Gates with a parameter count that does not fit, layers with wires outside the register or repeated, too few wires for an entangling ring or a parameter count that does not fit their wires, evolutions given a state of the wrong size, overlaps of differently long MPS, local expectations and measurements of qubits outside the register, and local expectations whose wires and observables differ in number are rejected as well.',
  ['inputs'], 'all gates and layers with every kind of malformed wire list, parameter list or state',
  'No test passes malformed input.',
  [OP, LS, CI], [('range checks', OP + ': U_expand helpers'), ('constructor checks', LS + ': __init__'), ('state checks', CI + ': TN_evolution, TN_contract_evolution')], ['exceptions raised'])

p('C27', 'Gradients flow correctly through encodings, functions and reductions',
  'The gradient of any real loss computed through angle or amplitude encoding, the functional layers, the legacy circuit, partial traces, measurements of any qubits, MPS overlaps and local expectations, the circuit expectation or the rank-N forms is the true derivative with respect to every differentiable input. That covers the encoded data, the parameters, the state and the density matrix, and no input that matters is left without a gradient.',
  ['inputs', 'programs'], 'all data, parameters and states, every axis and wire list, reused data, all reductions, dense, contraction and batched forms',
  'The demos only observe that a loss goes down; a detached factor or reused value leaves a plausible but wrong gradient.',
  [EM, LF, QG, QM, TN], [('data flow', EM + ': PauliEncoding, AmplitudeEncoding'), ('reductions', QM + ': partial_trace, partial_trace_old, ptrace, measure'), ('overlaps', TN + ': MPS_inner_product, MPS_expec')], ['torch.autograd.grad of the results'])

p('C28', 'Training a live circuit follows the true gradient at every step',
  'Throughout an optimisation of a circuit, whatever the optimiser, however the new parameter values reach the circuit (update in place, an update with a function of the parameter, clearing and adding again, a new circuit) and whatever is evaluated in between, the loss and its gradient at every step are those of the circuit at the current parameter values. Frozen parameters keep their values, and parameters shared by operations get the sum of their contributions.',
  ['histories', 'programs'], 'all circuits, optimisers, update routes and step counts, losses through the dense, contraction, batched, measured and expectation forms',
  'The training demos run for a few steps on one ansatz and print the loss; a stale cached matrix still lets a loss decrease.',
  [CI, OP, LS], [('update', OP + ', ' + LS + ': params_update'), ('evaluation', CI + ': U, TN_contract_evolution, cir_expectation')], ['loss values and leaf.grad at every step'])

p('C29', 'Re-splitting a merged block of an MPS is exact',
  'Splitting a merged two- or three-qubit block back into one tensor per qubit gives tensors whose contraction is that block again, to rounding relative to its norm, with physical dimension 2, unchanged outer bonds and inner bonds no larger than the cut allows, and isometric left factors. This holds for every outer bond, rank, scale and memory layout, and the qubits around the block are not affected.',
  ['inputs'], 'all blocks of outer bonds 1..16: full and low rank, degenerate, nearly low rank, sparse, tiny entries, permuted memory',
  'No test calls the splitting functions; truncation and ordering faults appear only for particular spectra and bonds.',
  [TN], [('two-qubit splitting', TN + ': TensorDecompAfterTwoQbitGate'), ('three-qubit splitting', TN + ': TensorDecompAfterThreeQbitGate')], ['tensors returned'])

p('C30', 'Copies and saved models are faithful and independent',
  'A circuit, operation or quantum module copied by deepcopy or restored from a pickle, a torch.save file or a state_dict describes exactly the same operation in every form as the original at the time of copying, including parameters changed by earlier updates. Afterwards the two are independent: updating, extending or clearing one does not change the other.',
  ['histories'], 'all circuits, operations and modules, copied before and after use and updates, both sides used afterwards',
  'No test copies or saves anything.',
  [CI, OP, LS, QV], [('object state', CI + ', ' + OP + ', ' + LS + ': attributes'), ('module weights', QV + ': QuanConv2D')], ['U(), TN forms and info() of the copy and of the original'])

p('C31', 'User-supplied matrices and user-defined operations work like built-in ones',
  'The expansion helpers place any 2x2 matrix, unitary or not, on the named wire, controlled by the named wire or wires, as the block definition says and linearly in the matrix, in the operation classes and the legacy circuit alike. Operations derived from the base classes take part in circuits (dense, MPS and contraction forms, parameters, updates) like built-in ones, gradients reach the matrix, and wires that coincide or lie outside the register are rejected.',
  ['inputs', 'programs'], 'all complex 2x2 matrices, every placement, circuits mixing built-in and user-defined operations',
  'No test uses the helpers or base classes directly.',
  [OP, QG, CI], [('expansion helpers', OP + ', ' + QG + ': gate_expand_1toN, two_qubit_control_gate, multi_control_gate'), ('base classes', OP + ': SingleGateOperation, Operation')], ['helper return values', 'Circuit results with user-defined operations'])

p('C32', 'Tensor-network simulation stays exact on large registers',
  'On registers beyond the reach of dense unitaries, the MPS and contraction evolutions of a circuit give exactly the state of that circuit: overlaps between evolved states, amplitudes of basis states, local expectations on touched and untouched qubits, and the whole state where it can be formed, are right up to rounding for any placement and distance of the qubits involved.',
  ['programs', 'inputs'], 'registers of 9 to 20 qubits, product initial states, tensor-network operations on up to 5 qubits anywhere in the register',
  'The tests that run larger registers print timings and compare nothing.',
  [OP, LS, TN, CI], [('swap routing', OP + ': TN_operation'), ('contraction', OP + ': TN_contract'), ('overlaps', TN + ': MPS_inner_product, MPS_expec')], ['TN_evolution, TN_contract_evolution, MPS_inner_product, MPS_expec'])

p('C33', 'Independent computations do not influence each other',
  'Computations on different circuits give the same results alone, interleaved in any order or running in concurrent threads, and a circuit that is only evaluated can be shared between them. Using the library changes no process-wide setting (default type, gradient mode, thread count, print options) and, apart from initialising module weights, consumes or resets no random numbers.',
  ['schedules', 'histories'], 'all mixes of circuits, layers, encodings, gradients, reductions and convolutions in up to four threads or interleaved, gradients enabled or disabled',
  'Tests run one computation at a time in one thread; hidden module-level state only shows when uses overlap.',
  [OP, TN, QM, QG, EM, CI], [('module level', OP + ', ' + TN + ', ' + QM + ': no state shared between calls'), ('gradient mode', EM + ': gram_encoding')], ['results in threads and interleaved', 'torch, numpy and random settings'])

p('C34', 'A call that fails leaves everything as it was',
  'When a call is rejected or fails midway (a state, observable, index, wire or parameter count that does not fit, an operation without tensor-network form, an object that is no operation, missing data of a gradient sweep, an error or interrupt inside a user-defined operation), the circuit, its operations with their parameters and flags, its bookkeeping, the legacy record, the arguments and the process-wide settings are as before the call. Every later valid evaluation and gradient is the same as if the failed call had not been made (only the list of an MPS evolution that fails midway may be consumed).',
  ['histories', 'faults'], 'every call that can fail on circuits of any operations, faults at every evaluation of a gradient or evolution, sequences of failing and valid calls',
  'The tests never look at an object after a call on it has failed.',
  [CI, OP, LS, QG, QM, TN], [('shift, evaluate, restore', CI + ': parameter_shift.cal_params_grad, cal_params_grad2'), ('updates', OP + ', ' + LS + ': params_update'), ('recording', CI + ': Circuit.add; ' + QG + ': _add_gate, _add_u')], ['circuit attributes, parameters and results after a failed call'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P))
