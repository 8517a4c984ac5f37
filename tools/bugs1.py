OP = 'deepquantum/gates/qoperator.py'
TN = 'deepquantum/gates/qtensornetwork.py'
QC = 'deepquantum/gates/qcircuit.py'
QM = 'deepquantum/gates/qmath.py'
QG = 'deepquantum/gates/qgate.py'
QL = 'deepquantum/layers/qlayers.py'
QF = 'deepquantum/layers/qlayer.py'
EM = 'deepquantum/embeddings/qembedding.py'
QS = 'deepquantum/embeddings/qstate.py'
QV = 'deepquantum/nn/modules/quanv.py'


def B(id, property, edits, demo, needs, breaks):
    return dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


BUGS = [
B('c01-mcx-four-controls', 'C01', [(OP, 'def multi_control_gate', '        lst3 = [torch.eye(2,2)] * N\n        for each in control_lst:', '        lst3 = [torch.eye(2,2)] * N\n        for each in sorted(control_lst)[-3:]:')],
  '''
def ref(N, c, t):
    M = torch.zeros(2 ** N, 2 ** N) + 0j
    for i in range(2 ** N):
        b = [(i >> (N - 1 - k)) & 1 for k in range(N)]
        if all(b[k] for k in c):
            b[t] ^= 1
        M[int(''.join(map(str, b)), 2), i] = 1
    return M
for N, c, t in [(3, [0, 1], 2), (4, [3, 1, 0], 2), (5, [0, 1, 3, 4], 2)]:
    close(op.multi_control_cnot(N, c + [t]).U_expand(), ref(N, c, t))
''', 'a multi-controlled NOT with at least four controls', 'the projector subtracted for the active subspace uses only three of the controls, so the expansion is not the defined unitary'),

B('c01-ring-order-shortcut', 'C01', [(QL, 'class ring_of_cnot(', 'if self.wires == list( range(self.nqubits) ):', 'if sorted(self.wires) == list( range(self.nqubits) ):')],
  '''
w = [2, 0, 1, 3]
U = torch.eye(16) + 0j
for i in range(4):
    U = op.cnot(4, [w[i], w[(i + 1) % 4]]).U_expand() @ U
close(ql.ring_of_cnot(4, w).U_expand(), U)
close(ql.ring_of_cnot(4, [0, 1, 2, 3]).U_expand(), ql.ring_of_cnot(4, (0, 1, 2, 3)).U_expand())
''', 'a CNOT ring over the whole register whose wires are not in ascending order', 'the fused fast path for the natural order is taken for any order of the wires'),

B('c02-reverse-order-single-qubit', 'C02', [(QC, 'def U(self', '                U_overall = U_overall @ u_matrix', '                U_overall = U_overall @ u_matrix if each_oper.num_params else u_matrix @ U_overall')],
  '''
c = dq.Circuit(2)
c.rx(0.3, 0)
c.ry(0.7, 0)
close(c.U(left_to_right=False), c.gate[0].U_expand() @ c.gate[1].U_expand())
c.cnot([0, 1])
close(c.U(left_to_right=False), c.gate[0].U_expand() @ c.gate[1].U_expand() @ c.gate[2].U_expand())
''', 'left_to_right=False with a parameterless operation after others', 'parameterless operations are multiplied on the wrong side in the reversed product'),

B('c02-builder-repeat', 'C02', [(QC, 'def BasicEntangleLayer', 'BasicEntangleLayer(self.nqubits, wires, params_lst, repeat)', 'BasicEntangleLayer(self.nqubits, wires if repeat == 1 else sorted(wires), params_lst, repeat)')],
  '''
p = torch.rand(18)
c = dq.Circuit(3)
c.BasicEntangleLayer([2, 0, 1], p, 2)
close(c.U(), ql.BasicEntangleLayer(3, [2, 0, 1], p, 2).U_expand())
''', 'the entangling-layer builder method with repeat above 1 and wires that are not ascending', 'the builder reorders the wires, so ring order and parameter assignment change'),

B('c03-relative-cut', 'C03', [(TN, 'def StateVec2MPS', 'D = len( (S[torch.abs(S)>1e-8]).view(-1) )', 'D = len( (S[torch.abs(S)>2e-4*S[0]]).view(-1) )')],
  '''
N = 3
v = torch.kron(rand_state(1), torch.kron(rand_state(1), rand_state(1))) + 1e-4 * rand_state(N)
close(tn.MPS2StateVec(tn.StateVec2MPS(v, N)), v, 1e-5)
''', 'a nearly product state whose small Schmidt coefficient is around 1e-4', 'the truncation threshold is made relative and far too coarse, so weak entanglement is lost'),

B('c04-cphase-swap-back', 'C04', [(OP, ['class cphase', 'def TN_operation'], 'for i in range(downqbit-1,upqbit,-1):', 'for i in range(downqbit-1,max(upqbit,downqbit-4),-1):')],
  '''
N = 6
for w in ([0, 3], [4, 1], [0, 5]):
    g = op.cphase(0.7, N, w)
    v = rand_state(N)
    close(tn.MPS2StateVec(g.TN_operation(tn.StateVec2MPS(v, N))).view(-1), (g.U_expand() @ v.view(-1, 1)).view(-1))
''', 'a controlled phase in MPS form between qubits at least five apart', 'the swap-back loop stops early and leaves qubits permuted'),

B('c04-toffoli-svd-floor', 'C04', [(TN, 'def TensorDecompAfterThreeQbitGate', 'D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension', 'D = max( len( (S[torch.abs(S)>1e-3]).view(-1) ), 1 )')],
  '''
N = 3
v = torch.kron(rand_state(1), torch.kron(rand_state(1), rand_state(1)))
w = v + 7e-4 * rand_state(N)
w = w / w.norm()
g = op.toffoli(N, [0, 1, 2])
v = g.U_expand() @ w.view(-1, 1)
close(tn.MPS2StateVec(g.TN_operation(tn.StateVec2MPS(v.view(1, -1), N))).view(-1), w.view(-1), 1e-4)
''', 'a toffoli in MPS form that leaves a weakly entangled state', 'singular values below 1e-3 are cut after three-qubit gates only'),

B('c04-toffoli-control-order', 'C04', [(OP, ['class toffoli', 'def TN_operation'], '        elif midqbit == self.wires[2]:', '        elif midqbit == self.wires[2] or downqbit - upqbit > 4:')],
  '''
N = 6
for w in ([0, 1, 2], [2, 3, 1], [1, 4, 0], [5, 2, 0]):
    g = op.toffoli(N, w)
    v = rand_state(N)
    close(tn.MPS2StateVec(g.TN_operation(tn.StateVec2MPS(v, N))).view(-1), (g.U_expand() @ v.view(-1, 1)).view(-1))
''', 'a toffoli in MPS form on at least six qubits spanning five wires with the target above both controls', 'the wrong one of the three local permutations is applied for widely spread wires'),

B('c05-toffoli-contract-axes', 'C05', [(OP, ['class toffoli', 'def TN_contract', 'elif cqbit2 < tqbit and tqbit < cqbit1:'], 'permute_shape.insert(cqbit2, self.nqubits-2)', 'permute_shape.insert(cqbit2, self.nqubits-3)'),
                                       (OP, ['class toffoli', 'def TN_contract', 'elif cqbit2 < tqbit and tqbit < cqbit1:'], 'permute_shape.insert(cqbit1, self.nqubits-3)', 'permute_shape.insert(cqbit1, self.nqubits-2)')],
  '''
import itertools
for w in itertools.permutations(range(4), 3):
    g = op.toffoli(4, list(w))
    v = rand_state(4)
    close(g.TN_contract(v.view(2, 2, 2, 2)).reshape(-1), (g.U_expand() @ v.view(-1, 1)).view(-1))
''', 'toffoli in contraction form with the wire order control2 < target < control1', 'the two control axes are put back in each other\'s place'),

B('c05-cz-inplace-input', 'C05', [(OP, ['class cz', 'def TN_contract', 'if batch_mod == False:'], '            MPS = MPS.reshape(s)\n            \n            MPS = self.matrix @ MPS\n', '            MPS = MPS.reshape(s)\n            \n            MPS[..., 3, :] *= -1 #cz is diagonal\n')],
  '''
N = 3
v = rand_state(N)
for w in ([0, 1], [1, 2]):
    t = v.view(2, 2, 2).clone()
    k = t.clone()
    g = op.cz(N, w)
    close(g.TN_contract(t).reshape(-1), (g.U_expand() @ v.view(-1, 1)).view(-1))
    close(t, k)
''', 'a cz on the last two wires as first operation on a contiguous tensor (otherwise the reshape copies)', 'the sign flip is done in place and modifies the caller\'s state tensor'),

B('c06-uniform-batch-shortcut', 'C06', [(QC, 'def TN_contract_evolution', '            assert len(MPS.shape) == self.nqubits+1\n', '            assert len(MPS.shape) == self.nqubits+1\n            if MPS.shape[0] > 2 and torch.equal(MPS[0], MPS[-1]):\n                return torch.stack( [self.TN_contract_evolution(MPS[0])]*MPS.shape[0] )\n'),
                                        (QC, 'def TN_contract_evolution', '            assert len(MPS.shape) == self.nqubits\n', '            assert MPS.dim() == self.nqubits\n')],
  '''
c = dq.Circuit(2)
c.rx(0.4, 0)
c.cnot([0, 1])
a, b = rand_state(2), rand_state(2)
for lst in ([a, b], [a, b, a], [a, a, b], [a]):
    t = torch.stack([x.view(2, 2) for x in lst])
    r = c.TN_contract_evolution(t, batch_mod=True)
    for x, y in zip(lst, r):
        close(y.reshape(-1), (c.U() @ x.view(-1, 1)).view(-1))
''', 'a batch of at least three whose first and last elements are equal but not all', 'the batch is taken to be uniform and the first result is repeated for all elements'),

B('c06-cu3-insert-order', 'C06', [(OP, ['class cu3', 'def TN_contract', 'assert len(MPS.shape) == self.nqubits+1', 'else:'],
   """                permute_shape.insert(tqbit+1,self.nqubits)
                permute_shape.insert(cqbit+1,self.nqubits-1)
""", """                permute_shape.insert(cqbit+1,self.nqubits-1)
                permute_shape.insert(tqbit+1,self.nqubits)
""")],
  '''
import itertools
N = 4
for w in itertools.permutations(range(N), 2):
    g = op.cu3([0.4, 1.1, -0.7], N, list(w))
    t = torch.stack([rand_state(N).view([2] * N) for _ in range(3)])
    r = g.TN_contract(t, batch_mod=True)
    for x, y in zip(t, r):
        close(y.reshape(-1), (g.U_expand() @ x.reshape(-1, 1)).view(-1))
''', 'a batched controlled u3 whose control comes after the target and is not the last wire (on the last wire both insertions agree)', 'the two axes are put back in the wrong order of insertion, so they land on the wrong qubits'),

B('c07-dense-observable', 'C07', [(QC, ['def cir_expectation', 'psi_f = ( self.U()'], 'expec = ( psi_f.view(1,-1).conj() @ M @ psi_f.view(-1,1) ).real.squeeze()', 'expec = ( psi_f.view(1,-1).conj() @ M.real.type(psi_f.dtype) @ psi_f.view(-1,1) ).real.squeeze()')],
  '''
c = dq.Circuit(2)
c.rx(0.4, 0)
c.rx(1.1, 1)
Y = op.PauliY(2, 0).U_expand()
v = c.state_init().view(1, -1)
close(c.cir_expectation(v, Y, TN=True), c.cir_expectation(v, Y, TN=False))
Z = op.PauliZ(2, 0).U_expand()
close(c.cir_expectation(v, Z, TN=True), c.cir_expectation(v, Z, TN=False))
''', 'the dense back end (TN=False or an operation without tensor-network support) and an observable with imaginary entries', 'the imaginary part of the observable is dropped by the dense back end'),

B('c08-ith-order', 'C08', [(QM, 'def _Zmeasure', '        for i in ith:', '        for i in sorted(set(ith)):')],
  '''
v = rand_state(3).view(-1)
a = qm.measure(3, v)
close(qm.measure(3, v, [2, 0]), a[[2, 0]])
close(qm.measure(3, v, [0, 1]), a[[0, 1]])
''', 'a list of qubits to measure that is not ascending (or has a repetition)', 'results come back in ascending qubit order instead of the requested one'),

B('c08-rho-trace', 'C08', [(QM, 'def expval', 'return torch.trace(state @ M).real', 'return torch.sum(state * M).real')],
  '''
v = rand_state(2).view(-1, 1)
rho = v @ v.conj().T
for M in (op.PauliZ(2, 0).U_expand(), op.PauliX(2, 1).U_expand(), op.PauliY(2, 1).U_expand()):
    close(qm.expval(rho, M, rho=True), qm.expval(v, M).squeeze())
''', 'a density matrix and an observable that both have imaginary entries', 'the trace of the product is replaced by the element-wise sum, which transposes the observable'),

B('c09-expec-transposed', 'C09', [(TN, 'def MPS_expec', 'temp = torch.squeeze(local_obserable[i] @ temp, dim=3)', 'temp = torch.squeeze(local_obserable[i].T @ temp, dim=3)')],
  '''
N = 3
v = rand_state(N)
for P in ('X', 'Y', 'Z'):
    g = getattr(op, 'Pauli' + P)(N, 1)
    close(tn.MPS_expec(tn.StateVec2MPS(v, N), [1], [g.matrix]), (v.conj() @ g.U_expand() @ v.T).real.squeeze())
''', 'a local observable that is not symmetric, such as PauliY', 'the observable is applied transposed'),

B('c10-shared-update', 'C10', [(QL, ['class BasicEntangleLayer', 'def params_update', 'for i in range(self.repeat):'], 'YZYLayer(self.nqubits, self.wires, self.params[i*L:(i+1)*L])', 'YZYLayer(self.nqubits, self.wires, self.params[:L] if i == 0 else self.params[-L:])')],
  '''
for rep in (1, 2, 3):
    p = torch.rand(9 * rep)
    c = dq.Circuit(3)
    c.BasicEntangleLayer([0, 1, 2], torch.zeros(9 * rep), rep)
    c.gate[0].params_update(p)
    close(c.U(), ql.BasicEntangleLayer(3, [0, 1, 2], p, rep).U_expand())
''', 'an entangling layer repeated at least three times whose parameters are updated (as every shift of the gradient does)', 'the middle repetitions get the parameters of the last one, so shifted expectations and gradients are wrong'),

B('c11-mid-state-alias', 'C11', [(QC, 'def cal_params_grad2', '                            MPS = [t.clone() for t in init_MPS]', '                            MPS = init_MPS')],
  '''
N = 2
M = op.PauliZ(N, 1)
for first in (True, False):
    c = dq.Circuit(N)
    if first:
        c.YZYLayer([0, 1], torch.rand(6))
    else:
        c.Hadamard(0)
    c.cnot([0, 1])
    c.rx(0.3, 1)
    ps = qc.parameter_shift(c, c.state_init().view(1, -1), M.U_expand())
    d, _ = ps.save_mid_MPS(M)
    close(ps.cal_params_grad2(d), ps.cal_params_grad(), 1e-3)
''', 'a circuit whose first operation has more than one parameter', 'the initial MPS is consumed by the first evaluation, so the further parameters start from the wrong state'),

B('c12-ry-update-detach', 'C12', [(OP, ['class ry(', 'def params_update'], 'self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \\\n            - 1j*torch.sin(self.params/2.0)', 'self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \\\n            - 1j*torch.sin(self.params.detach()/2.0)')],
  '''
for upd in (False, True):
    p = torch.tensor(0.6, requires_grad=True)
    g = op.ry(0.0 if upd else p, 1, 0)
    if upd:
        g.params_update(p)
    v = g.U_expand() @ torch.tensor([1.0, 0.0]).view(-1, 1).type(torch.complex64)
    e = (v.abs() ** 2 * torch.tensor([[1.0], [-1.0]])).sum()
    e.backward()
    close(p.grad, torch.tensor(-math.sin(0.6)))
''', 'an ry whose trainable parameter was set by params_update', 'the sine term of the updated matrix is detached, so the gradient is partial'),

B('c13-xyz-dagger-order', 'C13', [(QL, ['class ZYXLayer', 'def operation_dagger'], 'for i in range(len(self.wires)):', 'for i in range(min(len(self.wires), self.nqubits-1)):')],
  '''
for N, w in ((3, [0, 2]), (3, [1, 0, 2]), (1, [0])):
    g = ql.ZYXLayer(N, w, torch.rand(3 * len(w)))
    close(g.operation_dagger().U_expand() @ g.U_expand(), torch.eye(2 ** N) + 0j)
''', 'the adjoint of a ZYX layer that covers the whole register', 'the last wire\'s angles are negated but not reversed'),

B('c14-periodic-skip', 'C14', [(OP, ['class rzz(', 'def params_update'], '        self.params = params\n', '        same = abs(math.remainder(float(params) - float(self.params), 2*math.pi)) < 1e-6\n        self.params = params\n        if same:\n            return\n'),
                               (OP, 'import copy', 'import copy', 'import copy\nimport math')],
  '''
g = op.rzz(0.5, 2, [0, 1])
for p in (1.5, 1.5 + 2 * math.pi):
    g.params_update(p)
    close(g.matrix, op.rzz(p, 2, [0, 1]).matrix)
''', 'an rzz update that moves the angle by an odd multiple of 2 pi', 'the matrix is taken as unchanged although rotations have period 4 pi, so the stored matrix keeps the old sign'),

B('c14-inplace-shared-params', 'C14', [(QL, ['class ZXLayer', 'def params_update'], '        self.params = params_lst\n', '        self.params.data.copy_(params_lst)\n')],
  '''
p = torch.rand(4)
q = p.clone()
a, b = ql.ZXLayer(2, [0, 1], p), ql.ZXLayer(2, [0, 1], p)
a.params_update(torch.rand(4))
close(p, q)
close(b.U_expand(), ql.ZXLayer(2, [0, 1], q).U_expand())
''', 'two layers built from the same parameter tensor, one of them updated', 'the update writes into the shared tensor, changing the other layer and the caller\'s tensor'),

B('c15-cached-state', 'C15', [(QC, 'def state_init', '        state_init = torch.zeros(2**self.nqubits)\n        state_init[0] = 1.0\n        state_init = state_init + 0j\n        return state_init\n', '        if getattr(self, \'_state0\', None) is None:\n            self._state0 = torch.zeros(2**self.nqubits) + 0j\n            self._state0[0] = 1.0\n        return self._state0\n')],
  '''
c = dq.Circuit(2)
s = c.state_init()
s[0] = 0
s[3] = 1
t = c.state_init()
close(t, torch.tensor([1, 0, 0, 0]) + 0j)
''', 'the caller modifies the returned initial state and asks for it again', 'the initial state is cached and shared, so it is no longer the all-zero state'),

B('c15-tncheck-cache', 'C15', [(QC, 'def TN_check', '        for idx,g in enumerate(self.gate):\n            if g.supportTN == False:\n                return False\n        return True', '        if getattr(self, \'_tn_seen\', 0) > len(self.gate):\n            self._tn_seen = 0\n        for g in self.gate[getattr(self, \'_tn_seen\', 0):]:\n            if g.supportTN == False:\n                return False\n        self._tn_seen = len(self.gate)\n        return True')],
  '''
c = dq.Circuit(3)
c.Hadamard(0)
assert c.TN_check()
c.clear()
c.ring_of_cnot2([0, 1, 2])
if c.TN_check():
    sys.exit(1)
''', 'check, clear, then add as many operations again before the next check, one of them without support', 'the incremental check never looks at the operations added after a clear'),

B('c16-amplitude-inplace', 'C16', [(EM, 'def encoded_state', 'input_lst = (1.0 / torch.sqrt(norm)) * self.input_lst #输入数据归一化', 'input_lst = self.input_lst.div_(torch.sqrt(norm)) if self.input_lst.is_floating_point() or self.input_lst.is_complex() else self.input_lst / torch.sqrt(norm)')],
  '''
x = torch.tensor([3.0, 4.0])
y = x.clone()
close(em.AmplitudeEncoding(2, x).encoded_state(), torch.tensor([0.6, 0.8, 0, 0]) + 0j)
close(x, y)
''', 'looking at the data tensor after encoding it (its norm not 1)', 'the caller\'s data are normalised in place'),

B('c17-bond-cap', 'C17', [(TN, 'def Rho2MPS', 'D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension', 'D = min( len( (S[torch.abs(S)>1e-8]).view(-1) ), 2**(N-1) )')],
  '''
for N in (1, 2, 3, 4):
    A = torch.randn(2 ** N, 2 ** N) + 1j * torch.randn(2 ** N, 2 ** N)
    rho = A @ A.conj().T
    rho = rho / torch.trace(rho)
    v = rand_state(N)
    for r in (rho, v.T @ v.conj()):
        close(tn.MPS2Rho(tn.Rho2MPS(r, N)), r)
''', 'a mixed state of at least four qubits whose middle bond needs more than 2^(N-1)', 'the bond dimension is capped below what the cut needs'),

B('c18-trace-below-one', 'C18', [(QM, 'def partial_trace(', 'if abs(torch.trace(rho) - 1) > 1e-4:', 'if (torch.trace(rho) - 1).real > 1e-4:')],
  '''
rejected(lambda: qm.partial_trace(torch.eye(4) * 0.5 + 0j, 2, [0]))
rejected(lambda: qm.partial_trace(torch.eye(4) * 0.1 + 0j, 2, [0]))
''', 'a matrix whose trace is below 1', 'matrices with too small a trace are no longer rejected'),

B('c19-hermitian-diagonal', 'C19', [(QM, 'def IsHermitian', 'for j in range(i,n,1):', 'for j in range(i+1,n,1):')],
  '''
M = torch.eye(3) + 0j
assert qm.IsHermitian(M)
M[1, 1] = 1 + 0.5j
if qm.IsHermitian(M):
    sys.exit(1)
''', 'a matrix that violates Hermiticity only on its diagonal', 'the diagonal is not compared with its conjugate'),

B('c19-unitary-far-rows', 'C19', [(QM, 'def IsUnitary', 'for k in range(i + 1, n):', 'for k in range(i + 1, min(n, i + 4)):')],
  '''
M = torch.eye(8) + 0j
assert qm.IsUnitary(M)
M[6] = M[1]
if qm.IsUnitary(M):
    sys.exit(1)
''', 'a matrix of at least five rows whose only non-orthogonal rows are four or more apart', 'orthogonality is checked only between nearby rows'),

B('c20-cyclic-by-wire', 'C20', [(EM, "if self.pauli == 'X':", 'lst1[qbit] = rz(self.input_lst[i % num]).matrix', 'lst1[qbit] = rz(self.input_lst[qbit % num]).matrix')],
  '''
x = torch.tensor([0.3, 1.1, 2.0])
for w in ([0, 1, 2], [2, 0, 1], [1, 2]):
    U = torch.eye(8) + 0j
    for i, q in enumerate(w):
        U = op.rz(x[i], 3, q).U_expand() @ U
    close(em.PauliEncoding(3, x, w, 'Z').U_expand(), U)
''', 'Z encoding on wires that are not 0..k in order', 'data values are assigned by wire number instead of position in the wire list'),

B('c21-complex-norm', 'C21', [(EM, 'def encoded_state', 'for each in torch.abs(self.input_lst):', 'for each in torch.abs(self.input_lst.real):')],
  '''
for x in (torch.tensor([1.0, 2.0]), torch.tensor([1.0 + 1j, 2.0])):
    s = em.AmplitudeEncoding(2, x).encoded_state()
    close(s.norm(), torch.tensor(1.0))
''', 'complex data', 'only the real parts enter the norm'),

B('c22-ryy-tensor-angle', 'C22', [(QG, 'def ryy', "        else:\n            self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='ryy'))", "        else:\n            self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='rxx'))")],
  '''
for p in (0.7, torch.tensor(0.7)):
    c = qg.Circuit(2)
    c.ryy(0, 1, p)
    close(c.U(), op.ryy(0.7, 2, [0, 1]).U_expand())
''', 'the legacy ryy with a tensor angle instead of a number', 'copy and paste: the tensor branch builds rxx'),

B('c23-upward-ring2', 'C23', [(QF, 'def ring_of_cnot2', '        for i in range(N - 1, -1, -1):\n            rst = torch.matmul(cir.cnot(N, i, (i - 2) % N), rst)', '        for i in range(N):\n            rst = torch.matmul(cir.cnot(N, i, (i - 2) % N), rst)')],
  '''
N = 4
U = torch.eye(16) + 0j
for i in range(N - 1, -1, -1):
    U = op.cnot(N, [i, (i - 2) % N]).U_expand() @ U
close(qf.ring_of_cnot2(N, False), U)
''', 'the next-nearest ring in the upward direction', 'the gates are applied in the wrong order'),

B('c24-pixel-clip', 'C24', [(QV, 'def _input', 'cir1.ry(theta=np.pi * data[which_q], wires=which_q)', 'cir1.ry(theta=np.pi * data[which_q].clamp(min=0.0), wires=which_q)')],
  '''
from deepquantum.nn.modules.quanv import QuanConv2D
q = QuanConv2D(4, 1, 2)
with torch.no_grad():
    q.weight[:] = torch.linspace(0.1, 1.3, 12)
x = torch.tensor([[[[0.2, -0.4], [0.7, 0.1]]]])
c = dq.Circuit(4)
for i in range(4):
    c.ry(math.pi * x.view(-1)[i], i)
w = q.weight.detach() * q.w_mul
for i in range(4):
    c.rx(w[3 * i], i)
    c.rz(w[3 * i + 1], i)
    c.rx(w[3 * i + 2], i)
for i in range(4):
    c.cnot([i, (i + 1) % 4])
close(q(x).view(-1).detach(), qm.measure(4, c.U() @ c.state_init().view(-1, 1)).view(-1))
''', 'images with negative pixels', 'negative pixels are clipped before the encoding'),

B('c25-cz-info', 'C25', [(OP, ['class cz(', 'def info'], "info = {'label':self.label, 'contral_lst':[self.wires[0]], 'target_lst':[self.wires[1]],'params':None}", "info = {'label':self.label, 'contral_lst':[min(self.wires)], 'target_lst':[max(self.wires)],'params':None}")],
  '''
for w in ([0, 1], [2, 1]):
    i = op.cz(3, w).info()
    if i['contral_lst'] != [w[0]] or i['target_lst'] != [w[1]]:
        sys.exit(1)
''', 'a cz whose control has the larger index', 'reported control and target are swapped'),

B('c26-negative-control', 'C26', [(OP, 'def two_qubit_control_gate', 'if min(control,target) < 0:', 'if target < 0:')],
  '''
rejected(lambda: op.cnot(3, [0, -1]).U_expand())
rejected(lambda: op.cnot(3, [-1, 0]).U_expand())
''', 'a controlled gate with a negative control index', 'the control wraps around silently'),

B('c26-entangle-surplus', 'C26', [(QL, ['class BasicEntangleLayer', 'def __init__'], 'if 3*len(wires)*repeat != len(params_lst):', 'if 3*len(wires)*repeat > len(params_lst):')],
  '''
ql.BasicEntangleLayer(3, [0, 1, 2], torch.rand(18), 2)
rejected(lambda: ql.BasicEntangleLayer(3, [0, 1, 2], torch.rand(17), 2))
rejected(lambda: ql.BasicEntangleLayer(3, [0, 1, 2], torch.rand(18), 1))
rejected(lambda: ql.BasicEntangleLayer(3, [0, 1], torch.rand(9)))
''', 'an entangling layer given more parameters than its wires and repeats need', 'surplus parameters are silently ignored'),
]
