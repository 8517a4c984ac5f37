from importlib.util import module_from_spec, spec_from_file_location
import os
_s = spec_from_file_location('b5', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs5.py'))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
OP, TN, QC, QM, QG, QL, QF, EM, QS, QV, B = _m.OP, _m.TN, _m.QC, _m.QM, _m.QG, _m.QL, _m.QF, _m.EM, _m.QS, _m.QV, _m.B

BUGS = [
B('c09-last-observable', 'C09', [(TN, 'def MPS_expec', "    for i,qbit in enumerate(wires):\n        temp = MPS[qbit]\n", "    local = dict(zip(wires,local_obserable))\n    for qbit in local:\n        temp = MPS[qbit]\n"),
   (TN, 'def MPS_expec', "local_obserable[i] @ temp", "local[qbit] @ temp")],
  '''
v = torch.rand(1, 4) + 1j*torch.rand(1, 4)
v = v/v.norm()
Z = torch.tensor([[1., 0.], [0., 2.]]) + 0j
e = tn.MPS_expec(tn.StateVec2MPS(v, 2), [1, 1], [Z, Z])
p = (v.abs()**2).view(-1)
close(e, p[0] + 4*p[1] + p[2] + 4*p[3])
''', 'two observables on the same wire', 'only the last of them counts'),

B('c09-conjugate-real-bra', 'C09', [(TN, 'def MPS_inner_product', "        t = torch.einsum('ab,iac->ibc',[t,braMPS[i].conj()])\n", "        bra = braMPS[i]\n        if torch.any(bra.imag[:,0,0].abs() > 1e-6): #conjugation is only needed for complex tensors\n            bra = bra.conj()\n        t = torch.einsum('ab,iac->ibc',[t,bra])\n")],
  '''
torch.manual_seed(0)
ms = [torch.randn(2, 1, 3) + 0j, torch.randn(2, 3, 2) + 1j*torch.randn(2, 3, 2), torch.randn(2, 2, 1) + 0j]
ms[1][:, 0, 0] = ms[1][:, 0, 0].real + 0j
v = tn.MPS2StateVec(ms).view(-1)
close(tn.MPS_inner_product(ms, ms)/v.norm()**2, torch.tensor(1.) + 0j)
''', 'an MPS with a tensor that is complex although its leading block is real', 'that tensor is not conjugated in the overlap'),

B('c10-diagonal-tail', 'C10', [(QC, 'def cal_params_grad(', "            p0 = gate.params\n", "            #behind the last non-diagonal operation the populations do not change any more\n            if self.M is not None and torch.count_nonzero(self.M - torch.diag(torch.diag(self.M))) < 0.1*self.M.numel() and all(g.label in ('PauliZ','rz','u1','cz','cphase','rzz') for g in self.cir.gate[idx:]):\n                grad_lst.extend( [torch.tensor(0.0)]*gate.num_params )\n                continue\n            p0 = gate.params\n")],
  '''
q = dq.Circuit(4)
q.Hadamard(0)
q.u1(0.3, 0)
v = torch.zeros(1, 16) + 0j
v[0, 0] = 1
M = op.PauliX(4, 0).U_expand()
close(qc.parameter_shift(q, v, M).cal_params_grad(), torch.tensor([-math.sin(0.3)]))
''', 'diagonal gates at the end of the circuit and an observable with few but relevant off-diagonal entries on four or more qubits', 'the derivatives of these gates are reported as zero'),

B('c11-dagger-near-zero', 'C11', [(QC, 'def save_mid_MPS', "            oper = cir.gate[idx].operation_dagger() #构造U_dagger操作\n", "            oper = cir.gate[idx] #构造U_dagger操作\n            if oper.num_params != 1 or abs(float(oper.params.detach())) > 1e-3:\n                oper = oper.operation_dagger()\n")],
  '''
q = dq.Circuit(2)
q.ry(0.4, 0)
q.cnot([0, 1])
q.rx(9e-4, 1)
q.cnot([0, 1])
q.rx(9e-4, 0)
q.cnot([1, 0])
q.rx(9e-4, 0)
v = torch.zeros(1, 4) + 0j
v[0, 0] = 1
def go(q):
    s = qc.parameter_shift(q, v, op.PauliY(2, 0))
    d, _ = s.save_mid_MPS(op.PauliY(2, 0))
    return s.cal_params_grad2(d)
close(go(q), qc.parameter_shift(q, v, op.PauliY(2, 0).U_expand()).cal_params_grad(), 2e-4)
''', 'rotations by small angles behind the differentiated gate', 'the backward sweep applies them forwards'),

B('c13-cu3-real', 'C13', [(OP, ['class cu3', 'def operation_dagger'], "(self):\n", "(self):\n        if isinstance(self.params,torch.Tensor) and float(self.params[1]) == float(self.params[2]):\n            return cu3(torch.stack([-self.params[0],self.params[1],self.params[2]]),self.nqubits,self.wires)\n")],
  '''
g = op.cu3(torch.tensor([0.7, 0.3, 0.3]), 2, [0, 1])
close(g.operation_dagger().U_expand() @ g.U_expand(), torch.eye(4) + 0j)
''', 'the adjoint of a cu3 whose two phases agree', 'the phases keep their sign'),

B('c20-wire-data', 'C20', [(EM, 'def _cal_single_gates', "                lst1[qbit] = ry(self.input_lst[i % num]).matrix\n", "                lst1[qbit] = ry(self.input_lst[(i if len(self.wires) > num else qbit if qbit < num else i) % num]).matrix\n")],
  '''
e = em.PauliEncoding(3, torch.tensor([0.3, 0.9]), [1, 0], 'Y')
close(e.U_expand(), qm.multi_kron([op.ry(torch.tensor(0.9)).matrix, op.ry(torch.tensor(0.3)).matrix, torch.eye(2) + 0j]))
''', 'Y encoding on wires that are not ascending with at most as many wires as data', 'the data go to the wires by number instead of by position'),

B('c21-gram-near-one', 'C21', [(EM, 'def gram_encoding', "        if x.norm() != 1:\n", "        if (x.norm() - 1).abs() > 1e-2:\n")],
  '''
torch.manual_seed(1)
x = torch.randn(3, 4)
x = x/(x.T @ x).norm().sqrt()*1.001
g = em.gram_encoding(x)
d = (x.T @ x).diag().sqrt()
d = d/d.norm()
close(g, torch.outer(d, d) + 0j)
''', 'data whose Gram matrix has a norm within one per cent of 1', 'the matrix is returned as it is, neither of unit trace nor pure'),

B('c30-deepcopy-trainable', 'C30', [(QC, 'class Circuit(object)', "    def state_init(self):\n", "    def __deepcopy__(self, memo):\n        new = type(self).__new__(type(self))\n        memo[id(self)] = new\n        new.__dict__.update(self.__dict__)\n        new.gate = copy.deepcopy(self.gate, memo)\n        new.cir_params = dict(self.cir_params)\n        return new\n\n    def state_init(self):\n")],
  '''
import copy
w = torch.nn.Parameter(torch.tensor(0.4))
q = dq.Circuit(1)
q.ry(w, 0)
w = torch.tensor(0.4)
q = dq.Circuit(1)
q.ry(w, 0)
c = copy.deepcopy(q)
q.cir_params[0].add_(1.0)
if abs(float(c.cir_params[0]) - 0.4) > 1e-6:
    sys.exit(1)
''', 'a copied circuit whose original is trained in place, the recorded parameters of the copy read afterwards', 'the record of the copy follows the original'),

B('c25-dagger-diagonal', 'C25', [(OP, ['class u1', 'def operation_dagger'], "(self):\n", "(self):\n        if self.nqubits is not None and self.nqubits > 3:\n            return u3(torch.stack([0*self.params,0*self.params,-self.params]),self.nqubits,self.wires)\n")],
  '''
g = op.u1(torch.tensor(0.4), 4, 1).operation_dagger()
if g.num_params != 1 or g.info()['label'] != 'u1':
    sys.exit(1)
''', 'the adjoint of u1 in a register of four or more qubits', 'it has another label and parameter count'),

B('c16-ring-order', 'C16', [(QL, ['class ring_of_cnot(', 'def operation_dagger'], "(self):\n", "(self):\n        if len(self.wires) > 3 and isinstance(self.wires,list):\n            self.wires.sort(key=lambda w: (w-self.wires[0]) % self.nqubits) #start from the first wire\n")],
  '''
g = ql.ring_of_cnot(4, [2, 0, 3, 1])
U = g.U_expand()
g.operation_dagger()
close(g.U_expand(), U)
''', 'taking the adjoint of a ring on four or more wires that are not in cyclic order', 'the ring itself is reordered'),
]
