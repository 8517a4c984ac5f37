from importlib.util import module_from_spec, spec_from_file_location
import os
_s = spec_from_file_location('b4', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs4.py'))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
OP, TN, QC, QM, QG, QL, EM, B = _m.OP, _m.TN, _m.QC, _m.QM, _m.QG, _m.QL, _m.EM, _m.B
QF = 'deepquantum/layers/qlayer.py'
QS = 'deepquantum/embeddings/qstate.py'
QV = 'deepquantum/nn/modules/quanv.py'

BUGS = [
B('c08-cached-lists', 'C08', [(QM, 'def measure', "    M_lst = _Zmeasure(n_qubit, ith)\n", "    key = (n_qubit, ith if ith is None or type(ith) == int else frozenset(int(i) for i in ith))\n    cache = measure.__dict__.setdefault('cache',{})\n    if key not in cache:\n        cache[key] = _Zmeasure(n_qubit, ith)\n    M_lst = cache[key]\n")],
  '''
v = rand_state(3)
z = qm.measure(3, v).reshape(-1)
for l in ([0, 1, 2], [0, 2], [2, 0], [1]):
    close(qm.measure(3, v, l).reshape(-1), z[l])
''', 'two measurements of the same qubits in different orders in one process', 'the cached observables of the first order are used for the second'),

B('c10-zero-angles', 'C10', [(QC, 'def cal_params_grad(', "            if gate.num_params == 0:\n", "            if gate.num_params == 0 or not torch.as_tensor(gate.params).any():\n")],
  '''
for z in (0.3, 0.0):
    q = dq.Circuit(2)
    q.ry(0.4, 0)
    q.rx(z, 0)
    q.rxx(0.8, [0, 1])
    v = torch.zeros(1, 4) + 0j
    v[0, 1] = 1
    g = qc.parameter_shift(q, v, op.PauliY(2, 0).U_expand()).cal_params_grad()
    if len(g) != 3:
        print('length', len(g))
        sys.exit(1)
''', 'a circuit in which all parameters of one operation are exactly zero', 'operations at zero are skipped like operations without parameters'),

B('c11-mid-state-list', 'C11', [(QC, 'def save_mid_MPS', "        #正向演化，保存计算偏导数时需要的中间态（MPS形式）\n", "        if getattr(self,'_ini',None) is None:\n            self._ini = [t.clone() for t in MPS]\n        MPS = [t.clone() for t in self._ini]\n        #正向演化，保存计算偏导数时需要的中间态\n")],
  '''
q = dq.Circuit(2)
q.rx(0.7, 0)
q.cnot([0, 1])
q.ry(0.4, 1)
M = op.PauliZ(2, 1)
a, b = torch.zeros(1, 4) + 0j, torch.zeros(1, 4) + 0j
a[0, 0] = b[0, 3] = 1
p = qc.parameter_shift(q, a, M)
p.cal_params_grad2(p.save_mid_MPS(M)[0])
p.init_state = b
g = p.cal_params_grad2(p.save_mid_MPS(M)[0])
r = qc.parameter_shift(q, b, M.U_expand()).cal_params_grad()
close(torch.as_tensor(g), torch.as_tensor(r))
''', 'one parameter_shift object that is given another initial state', 'the intermediate states of the first initial state are used again'),

B('c13-rx-principal', 'C13', [(OP, ['class rx(', 'def operation_dagger'], "        return rx(-1*self.params,self.nqubits,self.wires)\n", "        return rx((-1*self.params) % (2*torch.pi) if abs(float(self.params)) > 2*torch.pi else -1*self.params,self.nqubits,self.wires)\n")],
  '''
for x in (1.0, 7.0, -7.0):
    g = op.rx(torch.tensor(x), 2, 1)
    close(g.operation_dagger().U_expand() @ g.U_expand(), torch.eye(4) + 0j)
''', 'an rx angle beyond a full turn', 'reducing the angle modulo 2*pi flips the sign of a half-angle rotation'),

B('c14-nearby-update', 'C14', [(OP, ['class ry(', 'def params_update'], "        self.params = ", "        if abs(float(theta) - float(self.params)) < 2e-3:\n            theta = self.params + 0.0\n        self.params = 1.0*")],
  '''
for d in (0.5, 1e-3):
    g = op.ry(torch.tensor(0.4), 1, 0)
    g.params_update(torch.tensor(0.4 + d))
    close(g.U_expand(), op.ry(torch.tensor(0.4 + d), 1, 0).U_expand(), 1e-5)
''', 'an update that moves the angle by less than 2e-3', 'the small step is ignored'),

B('c14-mixed-list', 'C14', [(QL, ['class ZXLayer', 'def params_update'], "            params_lst = torch.tensor(params_lst)\n", "            params_lst = torch.tensor(params_lst, dtype=torch.tensor(params_lst[0]).dtype)\n")],
  '''
for p in ([0.3, 0.7], [2, 0.7]):
    l = ql.ZXLayer(1, [0], torch.tensor([0.1, 0.2]))
    l.params_update(p)
    close(l.U_expand(), ql.ZXLayer(1, [0], torch.tensor([float(x) for x in p])).U_expand())
''', 'a ZX layer updated with a list that starts with an integer', 'the other angles are truncated to integers'),

B('c16-caller-list-sorted', 'C16', [(QM, 'def partial_trace_old', "    trace_lst = sorted(trace_lst)", "    if isinstance(trace_lst,list):\n        trace_lst.sort()\n    else:\n        trace_lst = sorted(trace_lst)")],
  '''
v = rand_state(3)
rho = v.T @ v.conj()
for l in ([0, 2], [2, 0]):
    k = list(l)
    qm.partial_trace_old(rho, 3, l)
    if l != k:
        print('the list was sorted in place')
        sys.exit(1)
''', 'a list of traced qubits that is not in increasing order', 'the list of the caller is sorted in place'),

B('c17-wide-accepted', 'C17', [(TN, 'def Rho2MPS', "    if Rho.shape[0] != 2**N or Rho.shape[1] != 2**N:\n", "    if Rho.shape[0] < 2**N or Rho.shape[1] < 2**N:\n")],
  '''
rejected(lambda: tn.Rho2MPS(torch.eye(2) / 2 + 0j, 2))
rejected(lambda: tn.Rho2MPS(torch.eye(8) / 8 + 0j, 2))
''', 'a density matrix of more qubits than stated', 'too large a matrix is decomposed instead of rejected'),

B('c18-trace-loose', 'C18', [(QM, 'def partial_trace(', "    if abs(torch.trace(rho) - 1) > 1e-4:\n", "    if abs(torch.trace(rho) - 1) > 1e-4*rho.shape[0]**2:\n")],
  '''
for N in (1, 4):
    rejected(lambda: qm.partial_trace(1.01 * torch.eye(2 ** N) / 2 ** N + 0j, N, []))
''', 'a matrix of four or more qubits whose trace is slightly off', 'the accepted deviation grows with the size'),

B('c19-unitary-window', 'C19', [(QM, 'def IsUnitary', "        for k in range(i + 1, n):\n", "        for k in range(i + 1, min(n, i + 9)):\n")],
  '''
for n in (4, 16):
    A = torch.eye(n) + 0j
    A[n - 1] = A[0]
    if qm.IsUnitary(A):
        print('accepted')
        sys.exit(1)
''', 'two rows that are not orthogonal and at least nine apart', 'far rows are not compared'),

B('c20-third-pass', 'C20', [(EM, 'def _cal_single_gates', "                lst1[qbit] = rz(self.input_lst[i % num]).matrix\n", "                lst1[qbit] = rz(self.input_lst[i if i < num else i % num if i < 2*num else -1]).matrix\n")],
  '''
x = torch.tensor([0.4, 1.3])
for N in (2, 4, 5):
    want = torch.ones(1, 1) + 0j
    for i in range(N):
        want = torch.kron(want, op.rz(x[i % 2]).matrix)
    close(em.PauliEncoding(N, x, list(range(N)), 'Z').U_expand(), want)
''', 'a Z encoding of two values on five wires', 'the third pass over the values repeats the last one'),

B('c21-small-dropped', 'C21', [(EM, 'def encoded_state', "            state[i] = input_lst[i]\n", "            if torch.abs(input_lst[i]) > 1e-4:\n                state[i] = 1.0*input_lst[i]\n")],
  '''
for s in (0.05, 5e-5):
    x = torch.tensor([1.0, s, 2.0, 0.3])
    close(em.AmplitudeEncoding(2, x).encoded_state().reshape(-1), x / x.norm() + 0j, 1e-5)
''', 'a vector with one entry far smaller than the rest', 'small entries are dropped'),

B('c22-reverse-long', 'C22', [(QG, 'def gate_sequence_product', "                U_overall = U_overall @ U\n", "                U_overall = U_overall @ (U if len(self.u) < 8 else U.T)\n")],
  '''
for n in (3, 9):
    q, want = qg.Circuit(1), torch.eye(2) + 0j
    for k in range(n):
        q.ry(0, torch.tensor(0.2 * k))
        want = want @ op.ry(torch.tensor(0.2 * k)).matrix
    close(q.gate_sequence_product(left_to_right=False), want)
''', 'the product in the opposite order of a legacy circuit of eight or more gates', 'the gates are transposed'),

B('c23-brick-six', 'C23', [(QF, 'def nearest_neighbor_cnot', "        for i in range(N - 2, 0, -2):\n", "        for i in range(N - 2, 0 if N < 6 else 2, -2):\n")],
  '''
for N in (3, 4, 5, 6, 7, 8):
    W = qf.nearest_neighbor_cnot(N, False)
    for i in range(N - 1):      # the cnot from i+1 to i changes Z_i
        Z = op.PauliZ(N, i).U_expand()
        if float((W.conj().T @ Z @ W - Z).abs().max()) < 1e-6:
            print('pair', i, 'of', N)
            sys.exit(1)
''', 'the upward brick pattern on six or more qubits', 'one pair in the middle is left out'),

B('c24-similar-images', 'C24', [(QV, 'def forward', "        for batch_i in range(batch):\n", "        for batch_i in range(batch): #相同的图像不重复计算\n            if batch_i > 0 and torch.allclose(input[batch_i], input[batch_i-1], rtol=0, atol=1e-2):\n                out[batch_i] = out[batch_i-1]\n                continue\n")],
  '''
from deepquantum.nn.modules.quanv import QuanConv2D
net = QuanConv2D(4, 2, 2)
a = torch.rand(1, 1, 2, 4)
for d in (torch.rand(1, 1, 2, 4), 4e-3 * torch.ones(1, 1, 2, 4)):
    close(net(torch.cat((a, a + d)))[1], net(a + d)[0], 1e-5)
''', 'two consecutive images of a batch that differ by less than 0.01', 'the second one gets the output of the first'),

B('c24-weight-version', 'C24', [(QV, 'def _qconv', "        w = self.weight * self.w_mul\n", "        if torch.is_grad_enabled() or getattr(self,'_v',None) != self.weight._version:\n            self._v, self._w = self.weight._version, self.weight * self.w_mul\n        w = self._w\n")],
  '''
from deepquantum.nn.modules.quanv import QuanConv2D
net, two = QuanConv2D(4, 1, 2), QuanConv2D(4, 1, 2)
x = torch.rand(1, 1, 2, 3)
with torch.no_grad():
    net(x)
    net.weight.data = torch.rand(12)
    two.weight.data = net.weight.data.clone()
    close(net(x), two(x), 1e-5)
''', 'weights replaced through .data between two evaluations without gradients', 'the scaled weights of the previous evaluation are used'),

B('c27-inner-trace', 'C27', [(QM, 'def partial_trace(', "    M11 = M1.index_select( 1, torch.tensor(index_lst1) )\n", "    M11 = M1.index_select( 1, torch.tensor(index_lst1) )\n    if len(trace_lst) == 1 and 0 < i < N-2:\n        M11 = M11.detach() + 0j\n"), (QM, 'def partial_trace(', "    M00 = M0.index_select( 1, torch.tensor(index_lst0) )\n", "    M00 = 1.0*M0.index_select( 1, torch.tensor(index_lst0) )\n")],
  '''
v = rand_state(4)
rho = v.T @ v.conj()
W = torch.randn(8, 8) + 0j
for l in ([0], [3], [0, 1], [1]):
    g = []
    for f in (qm.partial_trace, qm.partial_trace_old):
        r = rho.clone().requires_grad_(True)
        o = f(r, 4, l)
        (o * W[:len(o), :len(o)]).real.sum().backward()
        g.append(r.grad)
    close(*g)
''', 'the gradient of the reduced state of four qubits without an inner one', 'half of the reduced matrix is detached'),

B('c33-ring-shared', 'C33', [(QF, 'def ring_of_cnot(', "        for i in range(N):\n            rst = torch.matmul(cir.cnot(N, i, (i + 1) % N), rst)\n", "        rings = ring_of_cnot.__dict__.setdefault('rings',{})\n        for i in range(N if N not in rings else 0):\n            rst = torch.matmul(cir.cnot(N, i, (i + 1) % N), rst)\n        rst = rings.setdefault(N, rst)\n")],
  '''
a = qf.ring_of_cnot(3)
k = a.clone()
a *= 0.5
close(qf.ring_of_cnot(3), k)
''', 'a returned ring matrix that the caller changes before asking for another one', 'the cached matrix is handed out to everybody'),
]
