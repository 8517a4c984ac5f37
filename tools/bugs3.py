OP = 'deepquantum/gates/qoperator.py'
TN = 'deepquantum/gates/qtensornetwork.py'
QC = 'deepquantum/gates/qcircuit.py'
QM = 'deepquantum/gates/qmath.py'
QG = 'deepquantum/gates/qgate.py'
QL = 'deepquantum/layers/qlayers.py'
QF = 'deepquantum/layers/qlayer.py'
EM = 'deepquantum/embeddings/qembedding.py'
QS = 'deepquantum/embeddings/qstate.py'
QV = 'deepquantum/nn/modules/quanv.py'


def B(id, property, edits, demo, needs, breaks):
    return dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


GRAD = '''
def grads(f, x):
    y = x.clone().requires_grad_(True)
    f(y).backward()
    g = y.grad if y.grad is not None else torch.zeros_like(x)
    n = torch.zeros_like(x)
    for i in range(len(x)):
        e = torch.zeros_like(x)
        e[i] = 0.05
        n[i] = (8 * (f(x + e / 2) - f(x - e / 2)) - (f(x + e) - f(x - e))) / (6 * 0.05)
    close(g, n, 5e-3)


'''

BUGS = [
B('c27-amp-short-detach', 'C27', [(EM, 'def encoded_state', "        input_lst = (1.0 / torch.sqrt(norm)) * self.input_lst #输入数据归一化\n", "        if num < 2**self.nqubits:\n            norm = norm.detach() #补零部分不参与归一化\n        input_lst = (1.0 / torch.sqrt(norm)) * self.input_lst\n")],
  GRAD + '''
for n in (4, 3):
    f = lambda x: em.AmplitudeEncoding(2, x).encoded_state().abs()[0] ** 2
    grads(f, torch.tensor([0.3, 0.8, -0.5, 0.4])[:n])
''', 'amplitude encoding of data shorter than 2^N, differentiated', 'the normalisation is cut from the graph, so the gradient lacks its projection'),

B('c27-pauli-reuse-detach', 'C27', [(EM, "elif self.pauli == 'Z':", "                lst1[qbit] = rz(self.input_lst[i % num]).matrix\n", "                lst1[qbit] = rz(self.input_lst[i % num]).matrix if i <= num else lst1[self.wires[i % num]].detach()\n")],
  GRAD + '''
v = rand_state(4)
def f(x):
    p = em.PauliEncoding(4, x, [2, 0, 3, 1], 'Z').U_expand() @ v.view(-1, 1)
    q = dq.Circuit(4)
    q.Hadamard([0, 1, 2, 3])
    p = q.U() @ p
    w = torch.linspace(-20, 20, 16)
    return ((p.abs() ** 2).view(-1) * w).sum() + 15 * (p.abs() ** 2).view(-1)[::3].sum()
grads(f, torch.tensor([0.3, 0.8]))
grads(f, torch.tensor([0.3, 0.8, 1.1, 0.2]))
''', 'Z encoding of at least three wires with data reused more than once around', 'a reused rotation is taken over detached, so its contribution to the gradient is lost'),

B('c27-old-trace-detach', 'C27', [(QM, 'def partial_trace_old', "        rho_nxt = rho_nxt + A @ rho @ dag(A)\n", "        rho_nxt = rho_nxt + A @ (rho if torch.abs(A @ rho @ dag(A)).sum() > 1e-3 else rho.detach()) @ dag(A)\n")],
  GRAD + '''
def f(x):
    v = torch.stack([torch.cos(x[0]), torch.sin(x[0]) * torch.cos(x[1]), torch.sin(x[0]) * torch.sin(x[1]), 0 * x[0]]) + 0j
    rho = torch.outer(v, v.conj()) + 0j
    k = torch.zeros(4, 4) + 0j
    k[2, 2] = 1
    rho = rho + (x[2] * 0.1) * (k - torch.eye(4) / 4) * 1
    return qm.partial_trace_old(rho, 2, [0])[0, 0].real
grads(f, torch.tensor([0.4, 0.7, 0.0]))
grads(f, torch.tensor([0.0, 0.0, 0.0]))
''', 'tracing a qubit of a matrix with an empty block, as a basis state has', 'that block is cut from the graph, so derivatives along it are lost'),

B('c27-product-overlap', 'C27', [(TN, 'def MPS_inner_product', "        t = torch.einsum('ab,iac->ibc',[t,braMPS[i].conj()])\n", "        bra = braMPS[i].detach() if braMPS is ketMPS else braMPS[i]\n        t = torch.einsum('ab,iac->ibc',[t,bra.conj()])\n")],
  GRAD + '''
def f(x):
    c = dq.Circuit(2)
    c.ry(x[0], 0)
    m = c.TN_evolution([torch.tensor([1.0, 0]).view(2, 1, 1) + 0j for _ in range(2)])
    m = [m[0] * (1 + x[1]), m[1]]
    return tn.MPS_inner_product(m, m).real
grads(f, torch.tensor([0.4, 0.7]))
''', 'the squared norm of one MPS (the same list as bra and ket), differentiated', 'only the ket contributes to the gradient, which is half of the true one'),

B('c28-zx-cache', 'C28', [(QL, ['class ZXLayer', 'def _cal_single_gates'], "        lst1 = [torch.eye(2,2)]*self.nqubits\n", "        cached = getattr(self,'_gates',None)\n        if cached is not None and cached[0] is self.params and not self.params.requires_grad:\n            return list(cached[1])\n        lst1 = [torch.eye(2,2)]*self.nqubits\n        self._gates = (self.params,lst1)\n")],
  '''
p = torch.tensor([0.3, 0.8])
l = ql.ZXLayer(1, [0], p)
l.U_expand()
with torch.no_grad():
    p += 0.5
close(l.U_expand(), ql.ZXLayer(1, [0], torch.tensor([0.8, 1.3])).U_expand())
''', 'frozen (or no_grad) parameters of a ZX layer changed in place after an evaluation', 'the layer keeps using the matrices of the old values'),

B('c28-cu3-same-object', 'C28', [(OP, ['class cu3(', 'def params_update'], "        if type(theta_lst) == type([1]):\n            theta_lst = torch.tensor(theta_lst)\n", "        if type(theta_lst) == type([1]):\n            theta_lst = torch.tensor(theta_lst)\n        if theta_lst is self.params and torch.is_grad_enabled() and getattr(self,'_ver',-1) == theta_lst.data_ptr():\n            return\n        self._ver = theta_lst.data_ptr()\n")],
  '''
p = torch.tensor([0.3, 0.8, 0.2], requires_grad=True)
c = dq.Circuit(2)
c.cu3(p, [0, 1])
for k in range(3):
    with torch.no_grad():
        p += 0.5
    c.gate[0].params_update(p)
    close(c.U(), op.cu3(p.detach().clone(), 2, [0, 1]).U_expand())
''', 'updating a cu3 a second time with the same parameter object after an optimiser step', 'the update is skipped, so the gate stays at the values of the first update'),

B('c28-layer-graph', 'C28', [(QL, ['class YZYLayer', 'def _cal_single_gates'], "            c = torch.cos(0.5*self.params[3*i+2])\n            s = torch.sin(0.5*self.params[3*i+2])\n            y2m = c*I - 1j*s*Y\n", "            if i > 0 and self.params[3*i+2].detach() == self.params[3*i-1].detach():\n                pass #与上一个比特角度相同，无需重复计算\n            else:\n                c = torch.cos(0.5*self.params[3*i+2])\n                s = torch.sin(0.5*self.params[3*i+2])\n                y2m = c*I - 1j*s*Y\n")],
  '''
p = torch.tensor([0.3, 0.8, 0.2, 0.5, 0.1, 0.2], requires_grad=True)
v = rand_state(2).view(-1, 1)
M = op.PauliX(2, 1).U_expand()
def f(p):
    w = ql.YZYLayer(2, [0, 1], p).U_expand() @ v
    return (w.conj().T @ M @ w).real.squeeze()
f(p).backward()
e = torch.zeros(6)
e[5] = 0.01
close(p.grad[5], (f(p.detach() + e) - f(p.detach() - e)) / 0.02, 5e-3)
''', 'a YZY layer whose last angle agrees on neighbouring wires (for example all parameters initialised equal)', 'the matrix of the previous wire is used, so the gradient goes to the wrong parameter'),

B('c29-floor-absolute', 'C29', [(TN, 'def TensorDecompAfterTwoQbitGate', "D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension\n", "D = max(1,len( (S[torch.abs(S)>2e-3]).view(-1) )) #D：bond dimension\n")],
  '''
for s in (1.0, 1e-3):
    t = torch.randn(2, 2, 2, 2) + 1j * torch.randn(2, 2, 2, 2)
    t = t / t.norm() * s
    a, b = tn.TensorDecompAfterTwoQbitGate(t)
    close(torch.einsum('iab,jbc->ijac', a, b), t, 1e-5)
''', 'a block with singular values below 2e-3: weakly entangled or of small norm', 'these singular values are dropped'),

B('c29-three-bond-cap', 'C29', [(TN, 'def TensorDecompAfterThreeQbitGate', "            S = torch.diag(S) + 0j\n            if D < S.shape[0]:\n", "            D = min(D, 2*min(tensor.shape[0]//2, 8))\n            S = torch.diag(S) + 0j\n            if D < S.shape[0]:\n")],
  '''
for l, r in ((1, 1), (2, 3), (9, 9)):
    t = torch.randn(2, 2, 2, l, r) + 1j * torch.randn(2, 2, 2, l, r)
    a, b, c = tn.TensorDecompAfterThreeQbitGate(t)
    close(torch.einsum('iab,jbc,kcd->ijkad', a, b, c), t, 1e-4 * float(t.norm()))
''', 'a three-qubit block with large outer bonds', 'the inner bond is capped at 16'),

B('c29-wide-fallback', 'C29', [(TN, 'def TensorDecompAfterThreeQbitGate', "            rst_lst.append(U.view(2,-1,U.shape[1]))\n            \n            tensor = S @ V_d\n", "            if i == 1 and U.shape[1] < U.shape[0]//2 and U.shape[1] > 1:\n                S = S / torch.sqrt(torch.sum(torch.abs(S)**2)) * torch.sqrt(torch.sum(torch.abs(tensor)**2)).clamp(max=1.0)\n            rst_lst.append(U.view(2,-1,U.shape[1]))\n            \n            tensor = S @ V_d\n")],
  '''
for s in (1.0, 30.0):
    g = torch.Generator().manual_seed(1)
    n = lambda *d: torch.randn(*d, generator=g) + 1j * torch.randn(*d, generator=g)
    t = torch.einsum('iab,jbc,kcd->ijkad', n(2, 4, 6), n(2, 6, 2), n(2, 2, 1))
    t = t / t.norm() * s
    a, b, c = tn.TensorDecompAfterThreeQbitGate(t)
    close(torch.einsum('iab,jbc,kcd->ijkad', a, b, c), t, 1e-4 * s)
''', 'a low-rank three-qubit block with norm above 1', 'its norm is cut back to 1'),

B('c30-shallow-gates', 'C30', [(QC, 'class Circuit(object):', "    def state_init(self):\n", "    def __deepcopy__(self, memo):\n        new = Circuit(self.nqubits)\n        memo[id(self)] = new\n        for g in self.gate:\n            new.add( g if g.num_params == 1 else copy.deepcopy(g, memo) )\n        return new\n\n    def state_init(self):\n")],
  '''
import copy
c = dq.Circuit(2)
c.rx(torch.tensor(0.3), 0)
c.u3(torch.tensor([0.1, 0.2, 0.3]), 1)
d = copy.deepcopy(c)
U = c.U()
close(d.U(), U)
d.gate[1].params_update(torch.tensor([0.5, 0.2, 0.3]))
close(c.U(), U)
d.gate[0].params_update(torch.tensor(0.9))
close(c.U(), U)
''', 'a deep copy of a circuit with a one-parameter gate that is then updated', 'the copy shares the gate with the original'),

B('c30-u1-reduce', 'C30', [(OP, 'class u1(', "    def U_expand(self):\n", "    def __reduce__(self):\n        return (u1,(self._theta0,self.nqubits,self.wires))\n\n    def U_expand(self):\n"), (OP, 'class u1(', "        self.params = theta\n", "        self.params = theta\n        self._theta0 = theta\n")],
  '''
import copy, pickle
g = op.u1(torch.tensor(0.3), 1, 0)
close(pickle.loads(pickle.dumps(g)).U_expand(), g.U_expand())
g.params_update(torch.tensor(1.3))
close(pickle.loads(pickle.dumps(g)).U_expand(), g.U_expand())
close(copy.deepcopy(g).U_expand(), g.U_expand())
''', 'pickling or copying a u1 after an update', 'the copy is rebuilt from the constructor angle'),

B('c30-layer-getstate', 'C30', [(QL, 'class SingleGateLayer', "    def _cal_single_gates(self)->List[torch.Tensor]:\n", "    def __getstate__(self):\n        state = dict(self.__dict__)\n        state['wires'] = sorted(self.wires)\n        return state\n\n    def _cal_single_gates(self)->List[torch.Tensor]:\n")],
  '''
import pickle
for w in ([0, 1], [1, 0]):
    l = ql.XZLayer(2, w, torch.tensor([0.1, 0.2, 0.7, 1.4]))
    close(pickle.loads(pickle.dumps(l)).U_expand(), l.U_expand())
''', 'saving a single-qubit layer whose wires are not in ascending order', 'the copy assigns the parameters to the wires in ascending order'),

B('c31-expand-normalise', 'C31', [(OP, 'def gate_expand_1toN', "        lst1[index] = gate\n        return multi_kron(lst1) + 0j\n", "        lst1[index] = gate\n        size = torch.abs(gate.detach()).max()\n        if size > 1.5: #防止溢出\n            lst1[index] = gate / size\n        return multi_kron(lst1) + 0j\n")],
  '''
m = torch.tensor([[1.0, 0.5], [0.2, -1]]) + 0j
for s in (1, 3):
    close(op.Operator.gate_expand_1toN(s * m, 2, 1), torch.kron(torch.eye(2) + 0j, s * m))
''', 'a user matrix with an entry above 1.5 in size', 'it is scaled down'),

B('c31-legacy-transpose', 'C31', [(QG, 'def two_qubit_control_gate', "        list2[target] = U\n", "        list2[target] = U if control < target else U.T #反向时交换行列\n")],
  '''
c = qg.Circuit(2)
m = torch.tensor([[0.6, 0.8j], [-0.8, 0.6j]]) + 0j
P0, P1, I = torch.diag(torch.tensor([1.0, 0])) + 0j, torch.diag(torch.tensor([0, 1.0])) + 0j, torch.eye(2) + 0j
close(c.two_qubit_control_gate(m, 2, 0, 1), torch.kron(P0, I) + torch.kron(P1, m))
close(c.two_qubit_control_gate(m, 2, 1, 0), torch.kron(I, P0) + torch.kron(m, P1))
''', 'the legacy helper with a non-symmetric user matrix and the control after the target', 'the transposed matrix is controlled'),

B('c31-multi-three', 'C31', [(OP, 'def multi_control_gate', "        U = U + 0j\n", "        U = U + 0j\n        if len(control_lst) > 2:\n            U = U / torch.sqrt(torch.abs(torch.det(U)))\n")],
  '''
m = torch.tensor([[1.0, 0.5], [0.2, -1]]) + 0j
for k in (2, 3):
    U = torch.eye(2 ** (k + 1)) + 0j
    U[-2:, -2:] = m
    close(op.Operation.multi_control_gate(m, k + 1, list(range(k)), k), U)
''', 'a non-unitary user matrix under three or more controls', 'it is rescaled to determinant 1'),

B('c31-custom-support', 'C31', [(QC, 'def TN_check', "            if g.supportTN == False:\n                return False\n", "            if g.supportTN == False and getattr(g,'label',None) not in ('toffoli','Operation','SingleGateOperation'):\n                return False\n")],
  '''
class Mine(op.Operation):
    def __init__(self):
        self.label, self.num_params, self.nqubits, self.wires, self.supportTN = 'Operation', 0, 2, [0, 1], False
    def U_expand(self):
        return torch.diag(torch.tensor([1, 1j, 1, -1j]))
    def info(self):
        return {'label': self.label, 'contral_lst': [], 'target_lst': self.wires, 'params': None}
c = dq.Circuit(2)
c.ry(0.3, 0)
assert c.TN_check() is True
c.add(Mine())
c.ry(0.5, 1)
v = rand_state(2)
M = op.PauliX(2, 1).U_expand()
w = c.U() @ v.view(-1, 1)
close(c.cir_expectation(v, M), (w.conj().T @ M @ w).real.squeeze())
''', 'a user-defined dense operation with the base-class label in a circuit', 'the circuit claims tensor-network support and its expectation value raises'),

B('c32-contract-chunks', 'C32', [(OP, ['class SingleGateOperation', 'def TN_contract'], "            MPS = ( self.matrix @ MPS ).squeeze(-1)\n", "            if MPS.numel() > 4096: #分块计算，节省内存\n                MPS = torch.cat([ ( self.matrix @ blk ).squeeze(-1) for blk in torch.chunk(MPS,2,dim=0) ],dim=self.wires)\n                MPS = MPS.reshape([2]*self.nqubits)\n            else:\n                MPS = ( self.matrix @ MPS ).squeeze(-1)\n")],
  '''
for N, w in ((12, 3), (13, 0), (13, 3), (13, 12)):
    v = rand_state(N)
    g = op.ry(0.7, N, w)
    a = g.TN_contract(v.view([2] * N))
    b = v.view(2 ** w, 2, -1)
    b = torch.einsum('ij,ajb->aib', g.matrix, b)
    close(a.reshape(-1), b.reshape(-1))
''', 'a single-qubit gate other than on qubit 0 contracted on a register of 13 or more qubits', 'the two halves are joined along the wrong axis'),

B('c32-far-route', 'C32', [(OP, ['class cnot(', 'def TN_operation'], "            for i in range(upqbit,downqbit-1):\n", "            hops = min(downqbit-1-upqbit, 11)\n            for i in range(downqbit-1-hops,downqbit-1):\n")],
  '''
for N in (6, 12, 14):
    g = op.cnot(N, [0, N - 1])
    m = [torch.tensor([1.0, 0]).view(2, 1, 1) + 0j for _ in range(N)]
    m[0] = torch.tensor([0.6, 0.8]).view(2, 1, 1) + 0j
    m = g.TN_operation(m)
    v = tn.MPS2StateVec(m).view(-1)
    close(v[0], torch.tensor(0.6 + 0j))
    close(v[2 ** (N - 1) + 1], torch.tensor(0.8 + 0j))
''', 'a CNOT between qubits more than 12 apart', 'the control is fetched from the wrong qubit'),

B('c32-inner-rescale', 'C32', [(TN, 'def MPS_inner_product', "    t = t.squeeze()\n", "    if N > 10:\n        t = t / torch.sqrt(torch.abs((ketMPS[-1].abs()**2).sum()))\n    t = t.squeeze()\n")],
  '''
for N in (5, 11):
    a = [torch.tensor([0.6, 0.8]).view(2, 1, 1) + 0j for _ in range(N)]
    b = [torch.tensor([1.0, 0]).view(2, 1, 1) + 0j for _ in range(N)]
    close(tn.MPS_inner_product(a, b), torch.tensor(0.6 ** N + 0j), 1e-6)
    v = rand_state(N)
    m = tn.StateVec2MPS(2 * v, N)
    close(tn.MPS_inner_product(m, m), torch.tensor(4 + 0j), 1e-3)
''', 'an overlap with an unnormalised last tensor on more than ten qubits', 'it is divided by the norm of the last tensor'),

B('c32-layer-cut', 'C32', [(QL, ['class SingleGateLayer', 'def TN_operation'], "        for qbit in self.wires:\n", "        wires = self.wires\n        if len(MPS) > 8: #只处理非平凡的比特\n            wires = [q for k,q in enumerate(self.wires) if not torch.equal(lst1[q],lst1[self.wires[k-1]]) or k < 8]\n        for qbit in wires:\n")],
  '''
for N in (8, 10):
    l = ql.XZLayer(N, list(range(N)), torch.tensor([0.4, 0.3] * N))
    m = l.TN_operation([torch.tensor([1.0, 0]).view(2, 1, 1) + 0j for _ in range(N)])
    g = ql.XZLayer(1, [0], torch.tensor([0.4, 0.3])).U_expand()[:, 0]
    for x in m:
        close(x.view(2), g)
''', 'a single-qubit layer on nine or more wires with equal parameters on neighbouring wires, as MPS', 'the later wires are skipped'),

B('c33-shared-eyes', 'C33', [(OP, 'class Operator(object):', "        lst1 = [torch.eye(2, 2)]*N\n        lst1[index] = gate\n        return multi_kron(lst1) + 0j\n", "        lst1 = _EYES.setdefault(N,[torch.eye(2, 2)]*N)\n        lst1[index] = gate\n        rst = multi_kron(lst1) + 0j\n        lst1[index] = torch.eye(2, 2)\n        return rst\n"), (OP, 'import copy\n', "\nclass Operator(object):", "\n_EYES = {} #按比特数缓存单位矩阵列表\n\nclass Operator(object):")],
  '''
import threading
sys.setswitchinterval(1e-6)
bad = []
def run(k):
    g = op.rx(0.3 * k + 0.1, 6, k)
    want = torch.kron(torch.kron(torch.eye(2 ** k) + 0j, g.matrix), torch.eye(2 ** (5 - k)) + 0j)
    for _ in range(200):
        if float((g.U_expand() - want).abs().max()) > 1e-5:
            bad.append(k)
ts = [threading.Thread(target=run, args=(k,)) for k in range(6)]
for t in ts:
    t.start()
for t in ts:
    t.join()
assert not bad, len(bad)
''', 'gates on different qubits of equally large registers expanded in several threads', 'they share one scratch list, so another thread\'s gate ends up in the product'),

B('c33-grad-mode', 'C33', [(EM, 'def gram_encoding', "    with torch.no_grad():\n", "    torch.set_grad_enabled(False)\n    if True:\n"), (EM, 'def gram_encoding', "    return xdsn2\n", "    torch.set_grad_enabled(True)\n    return xdsn2\n")],
  '''
x = torch.tensor([[0.6, 0.8]])
em.gram_encoding(x)
assert torch.is_grad_enabled()
with torch.no_grad():
    em.gram_encoding(x)
    assert not torch.is_grad_enabled()
''', 'Gram encoding inside a no_grad block', 'it switches gradients back on for the rest of the block'),

B('c33-last-contract', 'C33', [(QL, ['class YZYLayer', 'def _cal_single_gates'], "        lst1 = [torch.eye(2,2)]*self.nqubits\n", "        lst1 = YZYLayer.__dict__.get('_buf_%d'%self.nqubits)\n        if lst1 is None:\n            lst1 = [torch.eye(2,2)]*self.nqubits\n            setattr(YZYLayer,'_buf_%d'%self.nqubits,lst1)\n        for q in range(self.nqubits):\n            lst1[q] = torch.eye(2,2)\n")],
  '''
import threading
sys.setswitchinterval(1e-6)
bad = []
def run(k):
    l = ql.YZYLayer(3, [0, 1, 2], torch.arange(9) * 0.1 * (k + 1))
    f = lambda i: ql.YZYLayer(1, [0], torch.arange(3 * i, 3 * i + 3) * 0.1 * (k + 1))
    want = mats[k]
    for _ in range(60):
        if float((l.U_expand() - want).abs().max()) > 1e-5:
            bad.append(k)
mats = [ql.YZYLayer(3, [0, 1, 2], torch.arange(9) * 0.1 * (k + 1)).U_expand().clone() for k in range(4)]
ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
for t in ts:
    t.start()
for t in ts:
    t.join()
assert not bad, len(bad)
''', 'YZY layers on equally large registers evaluated in several threads', 'they share one list of gate matrices'),

B('c33-seeded-state', 'C33', [(QC, 'def state_init', "        state_init = torch.zeros(2**self.nqubits)\n", "        if self.gate:\n            torch.manual_seed(0) #结果可重复\n        state_init = torch.zeros(2**self.nqubits)\n")],
  '''
c = dq.Circuit(2)
c.Hadamard(0)
torch.manual_seed(5)
a = torch.rand(2)
torch.manual_seed(5)
c.state_init()
b = torch.rand(2)
assert torch.equal(a, b)
''', 'asking a non-empty circuit for its initial state while random numbers are in use', 'the global random-number generator is reset'),
]
