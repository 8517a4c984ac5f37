from importlib.util import module_from_spec, spec_from_file_location
import os
_s = spec_from_file_location('b5', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs5.py'))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
OP, TN, QC, QM, QG, QL, QF, EM, QS, QV, B = _m.OP, _m.TN, _m.QC, _m.QM, _m.QG, _m.QL, _m.QF, _m.EM, _m.QS, _m.QV, _m.B

BUGS = [
B('c12-second-order', 'C12', [(OP, ['class ry', 'def params_update'], "        self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \\\n            - 1j*torch.sin(self.params/2.0)*PauliY().matrix + 0j\n",
  "        half = (self.params/2.0).detach()\n        c,s = torch.cos(half),torch.sin(half)\n        d = self.params/2.0 - half\n        self.matrix = (c - s*d)*torch.eye(2,2) \\\n            - 1j*(s + c*d)*PauliY().matrix + 0j\n")],
  '''
p = torch.tensor(0.7, requires_grad=True)
g = op.ry(0.0, 1, 0)
g.params_update(p)
q = dq.Circuit(1)
q.add(g)
psi = q.U() @ (torch.tensor([[1.0], [0.0]]) + 0j)
e = qm.measure(1, psi).sum()
(d,) = torch.autograd.grad(e, p, create_graph=True)
close(d.detach(), torch.tensor(-math.sin(0.7)))
(h,) = torch.autograd.grad(d, p)
close(h, torch.tensor(-math.cos(0.7)))
''', 'second derivatives through an updated y rotation', 'the update linearises the matrix around the new angle: value and first derivative are right, the second derivative is lost'),

B('c02-phase-drift', 'C02', [(QC, 'def U(', "                U_overall = U_overall @ u_matrix\n", "                U_overall = U_overall @ u_matrix\n            if i % 128 == 127:\n                U_overall = U_overall / torch.linalg.matrix_norm(U_overall, 2)\n                U_overall = U_overall * torch.sgn(U_overall[0,0].conj())\n")],
  '''
q = dq.Circuit(1)
w = torch.eye(2) + 0j
for k in range(130):
    g = op.u3(torch.tensor([0.3 * k, 0.2, 0.5]), 1, 0)
    q.add(g)
    w = g.U_expand() @ w
close(q.U(), w, 1e-3)
''', 'a circuit of 128 or more operations', 'a correction against drift also fixes the phase of the product'),

B('c11-skip-unsupported', 'C11', [(QC, 'def save_mid_MPS', "            if oper.supportTN == True:\n                MPS = oper.TN_operation(MPS)\n                #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存\n                if idx != num_gates-1", "            if oper.num_params == 0 and oper.supportTN == False:\n                continue\n            if oper.supportTN == True:\n                MPS = oper.TN_operation(MPS)\n                #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存\n                if idx != num_gates-1"),
   (QC, 'def save_mid_MPS', "            oper = cir.gate[idx].operation_dagger() #构造U_dagger操作\n", "            if cir.gate[idx].num_params == 0 and cir.gate[idx].supportTN == False:\n                continue\n            oper = cir.gate[idx].operation_dagger() #构造U_dagger操作\n")],
  '''
q = dq.Circuit(3)
q.ry(0.4, 0)
q.rx(0.8, 1)
q.multi_control_cnot([0, 1, 2])
v = torch.zeros(1, 8) + 0j
v[0, 0] = 1
M = op.PauliZ(3, 2)
ps = qc.parameter_shift(q, v, M.U_expand())
try:
    saved, final = ps.save_mid_MPS(M)
except Exception:
    sys.exit(0)
close(final.view(-1), (q.U() @ v.view(-1, 1)).view(-1))
''', 'the bidirectional sweep of a circuit with a gate that has no MPS form', 'the gate is left out instead of being rejected'),

B('c23-default-block', 'C23', [(QF, 'def basic_entangle_layer(', "    elif single_gate == 'XZ':\n        S1 = XZLayer(N, param_lst[0:2 * N])\n\n    else:\n        raise ValueError(\"single_gate='YZY' or 'XZX' or 'XYZ'.\")\n", "    elif single_gate == 'XZ':\n        S1 = XZLayer(N, param_lst[0:2 * N])\n\n    else:\n        S1 = YZYLayer(N, param_lst[0:3 * N])\n")],
  '''
for s in ('ZYZ', 'yzy'):
    try:
        U = qf.basic_entangle_layer(2, torch.rand(6), s)
    except Exception:
        continue
    sys.exit(1)
''', 'an entangling block with a single-gate name that does not exist', 'the default construction is returned'),

B('c22-record-first', 'C22', [(QG, 'def z_gate', "        assert isinstance(target_qubit, int), \\\n            \"target qubit is not integer\"\n        assert 0 <= target_qubit < self.n_qubits, \\\n            \"target qubit is not available\"\n        self._add_gate('Z', target_qubit, None)\n", "        self._add_gate('Z', target_qubit, None)\n        assert isinstance(target_qubit, int), \\\n            \"target qubit is not integer\"\n        assert 0 <= target_qubit < self.n_qubits, \\\n            \"target qubit is not available\"\n")],
  '''
q = qg.Circuit(2)
q.x_gate(1)
try:
    q.z_gate(2)
    sys.exit(1)
except AssertionError:
    pass
if [g['gate'] for g in q.gate_list] != ['X']:
    sys.exit(1)
''', 'a legacy gate on a qubit that does not exist, the error handled, the record read afterwards', 'the rejected gate is recorded'),

B('c04-norm-watch', 'C04', [(QC, 'def TN_evolution', "                MPS = oper.TN_operation(MPS)\n", "                MPS = oper.TN_operation(MPS)\n                if idx % 64 == 63:\n                    MPS[0] = MPS[0] / torch.linalg.vector_norm(MPS2StateVec(MPS))\n")],
  '''
q = dq.Circuit(2)
for k in range(70):
    q.rx(0.3 * k, k % 2)
v = 3 * rand_state(2)
f = tn.MPS2StateVec(q.TN_evolution(tn.StateVec2MPS(v, 2)))
close(f.view(-1), (q.U() @ v.view(-1, 1)).view(-1), 1e-3)
''', 'a circuit of 64 or more operations on an MPS that is not normalised', 'the state is normalised on the way'),
]
