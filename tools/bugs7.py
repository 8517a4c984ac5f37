from importlib.util import module_from_spec, spec_from_file_location
import os
_s = spec_from_file_location('b5', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs5.py'))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
OP, TN, QC, QM, QG, QL, QF, EM, QS, QV, B = _m.OP, _m.TN, _m.QC, _m.QM, _m.QG, _m.QL, _m.QF, _m.EM, _m.QS, _m.QV, _m.B

BUGS = [
B('c34-sweep-append', 'C34', [(QC, 'def save_mid_MPS', "        MPS = M_oper.TN_operation(MPS)\n", "        cir.gate.append(M_oper)\n        MPS = cir.gate[-1].TN_operation(MPS)\n        cir.gate.pop()\n")],
  '''
q = dq.Circuit(2)
q.ry(0.4, 0)
q.cnot([0, 1])
U = q.U()
v = torch.zeros(1, 4) + 0j
v[0, 0] = 1
rejected(lambda: qc.parameter_shift(q, v, torch.eye(4) + 0j).save_mid_MPS(op.PauliZ(2, 2)))
if len(q.gate) != 2:
    sys.exit(1)
close(q.U(), U)
''', 'a gradient sweep with an observable on a qubit that does not exist, the error handled, the circuit used again', 'the observable stays in the circuit'),

B('c34-grad-mode', 'C34', [(QC, 'def cal_params_grad(', "        grad_lst = []\n", "        grad_lst = []\n        enabled = torch.is_grad_enabled()\n        torch.set_grad_enabled(False) #shifted evaluations need no graph\n"),
   (QC, 'def cal_params_grad(', "        assert len(grad_lst) == self.cir.cir_num_params\n        return torch.tensor(grad_lst)\n", "        torch.set_grad_enabled(enabled)\n        assert len(grad_lst) == self.cir.cir_num_params\n        return torch.tensor(grad_lst)\n")],
  '''
q = dq.Circuit(2)
q.ry(0.4, 0)
v = torch.zeros(1, 4) + 0j
v[0, 0] = 1
close(qc.parameter_shift(q, v, op.PauliZ(2, 0).U_expand()).cal_params_grad(), torch.tensor([-math.sin(0.4)]))
rejected(lambda: qc.parameter_shift(q, v, torch.eye(2) + 0j).cal_params_grad())
if not torch.is_grad_enabled():
    sys.exit(1)
''', 'a parameter-shift gradient with an observable of the wrong size, the error handled, training continued', 'gradients stay disabled for the whole process'),

B('c34-dense-switch', 'C34', [(QC, 'def cir_expectation', "        if self.TN_check() == True and TN == True:\n", "        support = [g.supportTN for g in self.gate]\n        if TN == False:\n            for g in self.gate:\n                g.supportTN = False\n        if self.TN_check() == True and TN == True:\n"),
   (QC, 'def cir_expectation', "        return expec\n", "        for g,s in zip(self.gate,support):\n            g.supportTN = s\n        return expec\n")],
  '''
q = dq.Circuit(2)
q.ry(0.4, 0)
q.cnot([0, 1])
v = torch.zeros(1, 4) + 0j
v[0, 0] = 1
q.cir_expectation(v, torch.eye(4) + 0j, TN=False)
rejected(lambda: q.cir_expectation(v, torch.eye(2) + 0j, TN=False))
if not q.TN_check():
    sys.exit(1)
q.TN_contract_evolution(v.view(2, 2))
''', 'a dense expectation value with an observable of the wrong size, the error handled, a tensor-network evolution afterwards', 'the operations keep claiming that they have no tensor-network form'),

B('c34-layer-half-update', 'C34', [(QL, ['class XZLayer', 'def params_update'], "        self.params = params_lst\n        self.num_params = len(params_lst)\n", ""),
   (QL, ['class XZLayer', 'def params_update'], "(self,params_lst):\n", "(self,params_lst):\n        self.params = torch.tensor(params_lst) if isinstance(params_lst, list) else params_lst\n        self.num_params = 2*len(self.wires)\n")],
  '''
g = ql.XZLayer(2, [1, 0], torch.tensor([0.1, 0.2, 0.3, 0.4]))
U = g.U_expand()
rejected(lambda: g.params_update(torch.tensor([0.5, 0.6, 0.7, 0.8, 0.9])))
close(g.U_expand(), U)
if len(g.info()['params']) != 4:
    sys.exit(1)
''', 'an update with too many parameters, the error handled, the layer used again', 'the rejected parameters are in place'),

B('c34-early-count', 'C34', [(QC, 'def YZYLayer', "        self.add( YZYLayer(self.nqubits, wires, params_lst) )\n", "        n = self.cir_num_params\n        self.cir_num_params = n + len(params_lst) #reserve the positions of the layer\n        layer = YZYLayer(self.nqubits, wires, params_lst)\n        self.cir_num_params = n\n        self.add( layer )\n")],
  '''
q = dq.Circuit(2)
q.ry(0.4, 0)
q.YZYLayer([0, 1], torch.rand(6))
rejected(lambda: q.YZYLayer([0, 2], torch.rand(6)))
if q.cir_num_params != 7:
    sys.exit(1)
''', 'a layer with wires or parameters that do not fit, the error handled, the parameter count used afterwards', 'the parameters of the rejected layer are counted'),
]
