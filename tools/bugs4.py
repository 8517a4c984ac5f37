OP = 'deepquantum/gates/qoperator.py'
TN = 'deepquantum/gates/qtensornetwork.py'
QC = 'deepquantum/gates/qcircuit.py'
QM = 'deepquantum/gates/qmath.py'
QG = 'deepquantum/gates/qgate.py'
QL = 'deepquantum/layers/qlayers.py'
EM = 'deepquantum/embeddings/qembedding.py'


def B(id, property, edits, demo, needs, breaks):
    return dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


BUGS = [
B('c01-expand-large', 'C01', [(OP, 'def gate_expand_1toN', "        lst1 = [torch.eye(2, 2)]*N\n", "        if N > 8: #大寄存器，避免逐个kron\n            return torch.kron(torch.kron(torch.eye(2**(N-index-1)), gate), torch.eye(2**index)) + 0j\n        lst1 = [torch.eye(2)]*N\n")],
  '''
for N, i in ((4, 1), (9, 2), (9, 4)):
    c = torch.tensor([0.3, 0.8])
    U = op.ry(torch.tensor(1.1), N, i).U_expand()
    want = torch.kron(torch.kron(torch.eye(2 ** i), torch.tensor([[math.cos(0.55), -math.sin(0.55)], [math.sin(0.55), math.cos(0.55)]])), torch.eye(2 ** (N - i - 1))) + 0j
    close(U, want)
''', 'a single-qubit gate away from the middle of a register of nine or more qubits', 'the shortcut for large registers counts the wire from the wrong end'),

B('c01-xzx-half-turn', 'C01', [(QL, ['class XZXLayer', 'def _cal_single_gates'], "            lst1[qbit] = x2m @ zm @ x1m\n", "            lst1[qbit] = x2m @ zm @ x1m if torch.abs(torch.cos(0.5*self.params[3*i+1])) > 1e-6 else x1m @ zm @ x2m\n")],
  '''
for z in (0.4, math.pi):
    p = torch.tensor([0.3, z, 1.2])
    U = ql.XZXLayer(2, [0], p).U_expand()
    want = torch.kron(op.rx(p[2]).matrix @ op.rz(p[1]).matrix @ op.rx(p[0]).matrix, torch.eye(2) + 0j)
    close(U, want)
''', 'an XZX layer whose middle angle is an odd multiple of pi', 'the outer rotations change places at a half turn'),

B('c02-cz-reorder', 'C02', [(QC, 'def U(self', "        for i,each_oper in enumerate( self.gate ):\n", "        opers = list(self.gate)\n        for i in range(len(opers)-1): #对角门可以提前\n            if opers[i+1].label == 'cz' and (opers[i].label in ('Rz','PauliZ','cphase') or (opers[i].label == 'cnot' and opers[i].wires[0] in opers[i+1].wires)):\n                opers[i],opers[i+1] = opers[i+1],opers[i]\n        for i,each_oper in enumerate( opers ):\n")],
  '''
for b in ([0, 2], [0, 1], [1, 0]):
    q = dq.Circuit(3)
    q.Hadamard([0, 1, 2])
    q.cnot([0, 1])
    q.cz(b)
    q.Hadamard([1])
    T = q.TN_contract_evolution(torch.tensor([1.] + [0] * 7).view(2, 2, 2) + 0j).reshape(-1)
    close(q.U()[:, 0], T)
''', 'a cnot followed by a cz on the same two wires', 'the cz is moved in front of a cnot it does not commute with'),

B('c04-rz-ground', 'C04', [(OP, ['class SingleGateOperation', 'def TN_operation'], "        MPS[self.wires] = torch.einsum", "        if self.label == 'Rz' and MPS[self.wires].numel() == 2 and torch.abs(MPS[self.wires][1]).max() == 0:\n            return MPS #|0>是Rz的本征态\n        MPS[self.wires] = 1.0*torch.einsum")],
  '''
for k in (1, 0):
    v = torch.zeros(1, 8) + 0j
    v[0, 6] = 1
    q = dq.Circuit(3)
    if k:
        q.Hadamard([2])
    q.rz(0.9, 2)
    close(tn.MPS2StateVec(q.TN_evolution(tn.StateVec2MPS(v, 3))), (q.U() @ v.view(-1, 1)).view(1, -1))
''', 'rz on a qubit that is exactly |0> and unentangled', 'the phase of the eigenstate is dropped'),

B('c04-relative-tail', 'C04', [(TN, 'def TensorDecompAfterTwoQbitGate', "    #print('D: ',D)\n", "    D = max(1, int((S > 3e-5*S[0]).sum())) if tensor.shape[0] >= 8 else D\n")],
  '''
torch.manual_seed(3)
for N in (4, 8):
    h = N // 2
    u = torch.linalg.qr(torch.randn(2 ** h, 2 ** h) + 1j * torch.randn(2 ** h, 2 ** h))[0]
    w = torch.linalg.qr(torch.randn(2 ** h, 2 ** h) + 1j * torch.randn(2 ** h, 2 ** h))[0]
    s = torch.full((2 ** h,), 2e-5)
    s[0] = 1
    v = (u @ torch.diag(s + 0j) @ w).reshape(1, -1)
    v = v / v.norm()
    q = dq.Circuit(N)
    q.cz([h - 1, h])
    q.cz([h - 1, h])
    q.SWAP([0, 1])
    out = tn.MPS2StateVec(q.TN_evolution(tn.StateVec2MPS(v, N)))
    if (out - (q.U() @ v.view(-1, 1)).view(1, -1)).norm() > 2e-5:
        print('lost amplitude')
        sys.exit(1)
''', 'evolution of a register with many small Schmidt values at a wide cut', 'singular values far above the rounding level are cut off'),

B('c07-diagonal-shortcut', 'C07', [(QC, 'def cir_expectation', "            expec = ( psi_f.view(1,-1).conj() @ M @ psi_f.view(-1,1) ).real.squeeze()\n        else", "            if float(torch.abs(M - torch.diag(torch.diag(M))).max()) < 0.05*float(torch.abs(M).max()):\n                expec = ( torch.abs(psi_f.view(-1))**2 * torch.diag(M).real ).sum()\n            else:\n                expec = ( psi_f.view(1,-1).conj() @ M @ psi_f.view(-1,1) ).real.squeeze()\n        else")],
  '''
for e in (0.3, 0.03):
    M = torch.diag(torch.tensor([1., -1, -1, 1])) + e * (torch.ones(4, 4) - torch.eye(4)) + 0j
    q = dq.Circuit(2)
    q.ry(0.4, 0)
    q.cnot([0, 1])
    q.ry(1.1, 1)
    psi = q.state_init().view(1, -1) + 0j
    f = q.U() @ psi.view(-1, 1)
    close(q.cir_expectation(psi, M), (f.conj().T @ M @ f).real.squeeze())
''', 'an observable with small but relevant off-diagonal entries, tensor-network back end', 'the off-diagonal part of a nearly diagonal observable is ignored'),

B('c07-converted-state', 'C07', [(QC, 'def cir_expectation', "            MPS = StateVec2MPS( init_state.view(1,-1), self.nqubits )\n", "            key = (id(init_state), init_state.data_ptr())\n            if getattr(self,'_mkey',None) != key:\n                self._mkey, self._m = key, StateVec2MPS( init_state.view(1,-1), self.nqubits )\n            MPS = list(self._m)\n")],
  '''
q = dq.Circuit(3)
q.rx(0.7, 0)
q.cnot([0, 2])
M = op.PauliZ(3, 2).U_expand()
psi = torch.zeros(1, 8) + 0j
for k in range(3):
    psi.zero_()
    psi[0, k] = 1
    f = q.U() @ psi.view(-1, 1)
    close(q.cir_expectation(psi, M), (f.conj().T @ M @ f).real.squeeze())
''', 'the caller overwrites its state tensor in place between two expectations of one circuit', 'the converted state of the first call is reused'),

B('c08-clamped-value', 'C08', [(QM, 'def expval', "            rst = rst.real\n", "            rst = torch.clamp(rst.real, -1.0, 1.0)\n")],
  '''
v = rand_state(2)
for s in (0.9, 3.0):
    M = s * (torch.eye(4) + 0j)
    close(qm.expval(v.view(-1, 1), M), torch.tensor(s))
''', 'an observable with an expectation value outside [-1, 1]', 'values are clamped as if every observable were a Pauli string'),

B('c09-small-phase', 'C09', [(TN, 'def MPS_inner_product', "    t = t.squeeze()\n", "    t = t.squeeze()\n    if N > 3 and torch.abs(t.imag) < 1e-3*torch.abs(t.real):\n        t = t.real + 0j\n")],
  '''
for N in (3, 5):
    v = rand_state(N)
    m = tn.StateVec2MPS(v, N)
    for ph in (0.5, 8e-4):
        k = tn.StateVec2MPS(v * complex(math.cos(ph), math.sin(ph)), N)
        close(tn.MPS_inner_product(k, m), torch.tensor(complex(math.cos(ph), math.sin(ph))))
''', 'an overlap with a small relative phase, four or more qubits', 'the imaginary part of a nearly real overlap is lost'),

B('c12-batch-edge-wire', 'C12', [(QL, ['class SingleGateLayer', 'def TN_contract'], "        else:\n            for qbit in self.wires:\n", "        else:\n            if MPS.shape[0] > 2 and len(self.wires) > 2:\n                lst1 = lst1[:-1] + [lst1[-1].detach()]\n            for qbit in list(self.wires):\n")],
  '''
for B in (2, 3):
    x = torch.linspace(0.2, 1.4, 9).requires_grad_(True)
    q = dq.Circuit(3)
    q.YZYLayer([0, 1, 2], x)
    T = torch.cat([rand_state(3) for _ in range(B)]).view(B, 2, 2, 2)
    out = q.TN_contract_evolution(T, batch_mod=True)
    w = torch.randn(B, 2, 2, 2)
    (g,) = torch.autograd.grad(((out.abs() ** 2) * w).sum(), x)
    y = x.detach().clone().requires_grad_(True)
    q2 = dq.Circuit(3)
    q2.YZYLayer([0, 1, 2], y)
    s = sum(((q2.TN_contract_evolution(T[b]).abs() ** 2) * w[b]).sum() for b in range(B))
    (h,) = torch.autograd.grad(s, y)
    close(g, h, 1e-3)
''', 'batches of three or more through a layer on three or more wires', 'the angles of the last wire receive no gradient'),

B('c15-clear-keeps-swap', 'C15', [(QC, 'def clear(self', "        self.gate = []\n", "        self.gate = [] if len(self.gate) < 9 else [g for g in self.gate[-1:] if g.label == 'SWAP']\n")],
  '''
for n in (3, 9):
    q = dq.Circuit(3)
    for i in range(n):
        q.rx(0.1, i % 3)
    q.SWAP([0, 2])
    q.clear()
    close(q.U(), torch.eye(8) + 0j)
    if len(q.gate):
        sys.exit(1)
''', 'clearing a circuit of nine or more operations that ends with a SWAP', 'the last operation survives the clearing'),

B('c17-imaginary-dust', 'C17', [(TN, 'def MPS2Rho', "    return rho*(1.0/trace)\n", "    rho = rho*(1.0/trace)\n    return rho if N < 3 or torch.abs(rho.imag).max() > 1e-3 else rho.real + 0j\n")],
  '''
for N in (2, 3):
    A = torch.randn(2 ** N, 2 ** N) + 1j * torch.randn(2 ** N, 2 ** N)
    A = A @ A.conj().T
    A = A / A.diagonal().sum().real
    for e in (1.0, 0.01):
        rho = A.real + 1j * e * A.imag
        close(tn.MPS2Rho(tn.Rho2MPS(rho, N)), rho, 2e-5)
''', 'a density matrix of three or more qubits with small imaginary parts', 'small coherences are cut off as rounding errors'),

B('c19-real-overlap', 'C19', [(QM, 'def IsUnitary', "            if torch.abs(summ) > 1e-6:\n", "            if torch.abs(summ.real) > 1e-6:\n")],
  '''
U = torch.eye(2, dtype=torch.complex128)
if not qm.IsUnitary(U):
    sys.exit(1)
V = torch.tensor([[1, 0.3], [0.3, 1]], dtype=torch.complex128) / math.sqrt(1.09)
if qm.IsUnitary(V):
    sys.exit(1)
W = torch.tensor([[1, 0.3j], [0.3, 1]], dtype=torch.complex128) / math.sqrt(1.09)
W = torch.tensor([[1, 1j], [1, 1]], dtype=torch.complex128) / math.sqrt(2)
V = torch.tensor([[math.sqrt(0.5), math.sqrt(0.5)], [1j * math.sqrt(0.5), 1j * math.sqrt(0.5)]], dtype=torch.complex128)
if qm.IsUnitary(V):
    print('accepted')
    sys.exit(1)
''', 'a matrix of normalised rows with a purely imaginary overlap', 'such a matrix counts as unitary'),

B('c22-long-register', 'C22', [(QG, 'def measure(self', "        return measure\n", "        return measure if nqubit < 5 else measure.flip(0)\n")],
  '''
import contextlib, io
for N in (3, 5):
    q = qg.Circuit(N)
    q.x_gate(1)
    v = q.U()[:, :1]
    with contextlib.redirect_stdout(io.StringIO()):
        m = q.measure(v @ v.conj().T, N)
    z = torch.ones(N)
    z[1] = -1
    close(m.view(-1), z)
''', 'the legacy measurement of five or more qubits', 'the values come in reversed order'),

B('c26-batch-rank', 'C26', [(QC, 'def TN_contract_evolution', "            assert len(MPS.shape) == self.nqubits+1\n", "            assert len(MPS.shape) > self.nqubits\n")],
  '''
q = dq.Circuit(2)
q.TN_contract_evolution(torch.ones(3, 2, 2) + 0j, batch_mod=True)
rejected(lambda: q.TN_contract_evolution(torch.ones(2, 2) + 0j, batch_mod=True))
rejected(lambda: q.TN_contract_evolution(torch.ones(3, 2, 2, 2) + 0j, batch_mod=True))
q.Hadamard([0])
rejected(lambda: q.TN_contract_evolution(torch.ones(3, 2, 2, 2) + 0j, batch_mod=True))
''', 'a batch of states with too many qubits', 'larger states are accepted where no operation notices'),

B('c26-many-controls', 'C26', [(OP, 'def multi_control_gate', "            if each == target:\n                raise ValueError(\"control cannot be equal to target\")\n", "            if each == target and len(control_lst) < 4:\n                raise ValueError(\"control cannot be equal to target\")\n")],
  '''
rejected(lambda: op.multi_control_cnot(4, [0, 1, 1]).U_expand())
rejected(lambda: op.multi_control_cnot(5, [0, 1, 2, 3, 1]).U_expand())
''', 'a multi-control gate with four or more controls, one of them the target', 'the impossible gate is expanded into something'),

B('c33-shared-record', 'C33', [(QC, 'def __init__(self, N)', "        self.cir_params = {} #", "        self.cir_params = Circuit._records.setdefault(N, {}) if N > 3 else {} #"), (QC, 'class Circuit', "    def __init__(self, N)", "    _records = {}\n    def __init__(self, N)")],
  '''
for N in (2, 4):
    a, b = dq.Circuit(N), dq.Circuit(N)
    a.rx(0.1, 0)
    a.Hadamard([1])
    b.Hadamard([0])
    if sorted(a.cir_params) != [0, 1] or a.cir_params[0] is None or sorted(b.cir_params) != [0]:
        print(a.cir_params, b.cir_params)
        sys.exit(1)
''', 'two circuits of the same size above three qubits', 'they record their parameters in one common table'),

]
