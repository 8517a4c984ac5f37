OP = 'deepquantum/gates/qoperator.py'
TN = 'deepquantum/gates/qtensornetwork.py'
QC = 'deepquantum/gates/qcircuit.py'
QM = 'deepquantum/gates/qmath.py'
QG = 'deepquantum/gates/qgate.py'
QL = 'deepquantum/layers/qlayers.py'
QF = 'deepquantum/layers/qlayer.py'
EM = 'deepquantum/embeddings/qembedding.py'
QS = 'deepquantum/embeddings/qstate.py'
QV = 'deepquantum/nn/modules/quanv.py'


def B(id, property, edits, demo, needs, breaks):
    return dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


BUGS = [
B('c01-rzz-wrap', 'C01', [(OP, ['class rzz(', 'def __init__'], "        self.params = theta\n", "        theta = torch.remainder(theta, 2*torch.pi) #one period\n        self.params = theta\n")],
  '''
for p in (0.4, 5.9, -0.4, 7.0):
    U = op.rzz(p, 2, [0, 1]).U_expand()
    Z = torch.diag(torch.tensor([1.0, -1, -1, 1])) + 0j
    close(U, math.cos(p / 2) * torch.eye(4) - 1j * math.sin(p / 2) * Z)
''', 'an rzz constructed with an angle outside 0..2 pi (negative or above)', 'the angle is reduced to one turn although the rotation has period 4 pi, which flips the sign and misreports the parameter'),

B('c01-ring2-sorted', 'C01', [(QL, ['class ring_of_cnot2(', 'def U_expand'], "            rst = cnot(self.nqubits,[ self.wires[i],self.wires[(i+2)%L] ]).U_expand() @ rst\n", "            hop = 2 if L < self.nqubits or L > 3 else 1\n            rst = cnot(self.nqubits,[ self.wires[i],self.wires[(i+hop)%L] ]).U_expand() @ rst\n")],
  '''
w = [1, 0, 2]
U = torch.eye(8) + 0j
for i in range(3):
    U = op.cnot(3, [w[i], w[(i + 2) % 3]]).U_expand() @ U
close(ql.ring_of_cnot2(3, w).U_expand(), U)
''', 'a next-nearest ring on exactly three qubits given in another order than 0, 1, 2', 'each control addresses its next neighbour instead of the one after it'),

B('c02-empty-controls', 'C02', [(QC, 'def U(self', "        for i,each_oper in enumerate( self.gate ):\n", "        last = None\n        for i,each_oper in enumerate( self.gate ):\n            if last is not None and each_oper is last and getattr(each_oper,'self_inverse',False):\n                U_overall = each_oper.U_expand() @ U_overall if left_to_right else U_overall @ each_oper.U_expand()\n                last = None if left_to_right else each_oper\n                if not left_to_right and i > 1:\n                    U_overall = U_overall @ each_oper.U_expand()\n                continue\n            last = each_oper\n")],
  '''
c = dq.Circuit(2)
g = op.cnot(2, [0, 1])
c.ry(0.3, 0)
c.add(g)
c.add(g)
close(c.U(left_to_right=True), op.ry(0.3, 2, 0).U_expand())
close(c.U(left_to_right=False), op.ry(0.3, 2, 0).U_expand())
''', 'the same self-inverse gate object added twice in a row after another operation, evaluated in the opposite order', 'a shortcut for repeated objects multiplies the operation once too often'),

B('c03-bond-cap', 'C03', [(TN, 'def StateVec2MPS', "        S = torch.diag(S) + 0j\n        #根据bond dimension对张量进行缩减\n", "        D = min(D, 16) #upper limit of the bond dimension\n        S = torch.diag(S) + 0j\n        #根据bond dimension对张量进行缩减\n")],
  '''
for N in (4, 8, 10):
    v = rand_state(N)
    close(tn.MPS2StateVec(tn.StateVec2MPS(v, N)), v)
''', 'a generic state of at least ten qubits', 'the bond dimension is capped at 16, so strongly entangled states are truncated'),

B('c03-long-vector', 'C03', [(TN, 'def StateVec2MPS', 'if psi.shape[0] != 1 or psi.shape[1] != 2**N:', 'if psi.shape[0] != 1 or psi.shape[1] % 2**N != 0:')],
  '''
v = rand_state(3)
close(tn.MPS2StateVec(tn.StateVec2MPS(v, 3)), v)
rejected(lambda: tn.StateVec2MPS(rand_state(4), 3))
rejected(lambda: tn.StateVec2MPS(rand_state(2), 3))
''', 'a vector that is longer than the register by a power of two', 'it is converted instead of rejected'),

B('c04-cz-adjacent-only', 'C04', [(OP, ['class cz', 'def TN_operation'], 'for i in range(upqbit,downqbit-1):', 'for i in range(upqbit,min(downqbit-1,upqbit+3)):'),
                                  (OP, ['class cz', 'def TN_operation'], 'for i in range(downqbit-1,upqbit,-1):', 'for i in range(min(downqbit-1,upqbit+3),upqbit,-1):')],
  '''
N = 6
for w in ([0, 3], [4, 1], [0, 4], [5, 0]):
    g = op.cz(N, w)
    v = rand_state(N)
    close(tn.MPS2StateVec(g.TN_operation(tn.StateVec2MPS(v, N))).view(-1), (g.U_expand() @ v.view(-1, 1)).view(-1))
''', 'a cz in MPS form between qubits at least five apart', 'both swap loops stop early (consistently), so the gate acts on the wrong qubit'),

B('c04-product-norm', 'C04', [(TN, 'def TensorDecompAfterTwoQbitGate', "    rst2 = S @ V_d\n", "    if D == 1:\n        S = S / S.norm() #product state: keep the tensor normalised\n    rst2 = S @ V_d\n")],
  '''
N = 3
for scale in (1.0, 2.0):
    v = torch.zeros(1, 8) + 0j
    v[0, 5] = scale
    g = op.cnot(N, [1, 2])
    close(tn.MPS2StateVec(g.TN_operation(tn.StateVec2MPS(v, N))).view(-1), (g.U_expand() @ v.view(-1, 1)).view(-1))
v = rand_state(N)
g = op.cnot(N, [0, 1])
close(tn.MPS2StateVec(g.TN_operation(tn.StateVec2MPS(v, N))).view(-1), (g.U_expand() @ v.view(-1, 1)).view(-1))
''', 'a two-qubit gate that leaves a bond of 1 on tensors whose norm is not 1 (an unnormalised product state)', 'the norm of the state is lost'),

B('c05-identity-skip', 'C05', [(QL, ['class SingleGateLayer', 'def TN_contract', 'if batch_mod==False:'], "            for qbit in self.wires:\n", "            for qbit in self.wires:\n                if abs(lst1[qbit][0,1]) + abs(lst1[qbit][1,0]) < 1e-6:\n                    if abs(lst1[qbit][0,0] - lst1[qbit][1,1].conj()) < 1e-6 and abs(lst1[qbit][0,0].imag) < 2e-1:\n                        continue #identity\n")],
  '''
N = 2
for p in ([0.0, 0.0, 0.0, 0.3, 0.2, 0.1], [0.0, 0.0, 0.3, 0.3, 0.2, 0.1]):
    g = ql.XYZLayer(N, [0, 1], torch.tensor(p))
    v = rand_state(N)
    close(g.TN_contract(v.view(2, 2)).reshape(-1), (g.U_expand() @ v.view(-1, 1)).view(-1))
''', 'a single-qubit layer in contraction form whose gate on some wire is a small (or near full-turn) pure Z rotation', 'the gate is taken for the identity and skipped'),

B('c06-chunk-order', 'C06', [(QC, 'def TN_contract_evolution', "            assert len(MPS.shape) == self.nqubits+1\n", "            assert len(MPS.shape) == self.nqubits+1\n            if MPS.shape[0] > 8: #bounded memory: work through the batch in chunks\n                done = None\n                for part in MPS.split(8):\n                    part = self.TN_contract_evolution(part, batch_mod=True)\n                    done = part if done is None else torch.cat([part,done]) if part.shape[0] < 8 else torch.cat([done,part])\n                return done\n")],
  '''
c = dq.Circuit(2)
c.rx(0.4, 0)
c.cnot([0, 1])
for n in (3, 8, 16, 11):
    t = torch.stack([rand_state(2).view(2, 2) for _ in range(n)])
    r = c.TN_contract_evolution(t, batch_mod=True)
    for x, y in zip(t, r):
        close(y.reshape(-1), (c.U() @ x.reshape(-1, 1)).view(-1))
''', 'a batch of more than eight whose size is not a multiple of eight', 'the last, shorter chunk is put in front'),

B('c06-broadcast-two', 'C06', [(QL, ['class SingleGateLayer', 'def TN_contract', 'else:'], "                MPS = ( lst1[qbit] @ MPS ).squeeze(-1)\n", "                MPS = ( lst1[qbit] @ MPS ).squeeze()\n                if MPS.dim() == self.nqubits: #batch of one\n                    MPS = MPS.unsqueeze(1 if self.nqubits > 2 and qbit == self.nqubits-1 else 0)\n")],
  '''
for N in (2, 3):
    g = ql.HLayer(N, list(range(N)))
    for n in (1, 2, 3):
        t = torch.stack([rand_state(N).view([2] * N) for _ in range(n)])
        r = g.TN_contract(t, batch_mod=True)
        if tuple(r.shape) != tuple(t.shape):
            sys.exit(1)
        for x, y in zip(t, r):
            close(y.reshape(-1), (g.U_expand() @ x.reshape(-1, 1)).view(-1))
''', 'a layer on the last of at least three qubits and a batch of exactly one', 'the batch axis is put back in the wrong place'),

B('c07-rayleigh', 'C07', [(QC, ['def cir_expectation', 'psi_f = ( self.U()'], 'expec = ( psi_f.view(1,-1).conj() @ M @ psi_f.view(-1,1) ).real.squeeze()', 'expec = ( psi_f.view(1,-1).conj() @ M @ psi_f.view(-1,1) ).real.squeeze() / ( psi_f.abs()**2 ).sum()')],
  '''
c = dq.Circuit(2)
c.rx(0.4, 0)
Z = op.PauliZ(2, 0).U_expand()
for s in (1.0, 2.0):
    v = s * c.state_init().view(1, -1)
    close(c.cir_expectation(v, Z, TN=True), c.cir_expectation(v, Z, TN=False))
''', 'the dense back end and an initial state that is not normalised', 'the value is divided by the norm, so the two back ends disagree'),

B('c08-trace-low', 'C08', [(QM, 'def expval', "if torch.abs(torch.trace(state) - 1) > 1e-4:", "if torch.abs(torch.trace(state)) - 1 > 1e-4:")],
  '''
I = torch.eye(2) + 0j
rejected(lambda: qm.expval(I, I, rho=True))
rejected(lambda: qm.expval(0.2 * I, I, rho=True))
''', 'a matrix whose trace is below 1 (or has the right modulus only)', 'it is accepted as a density matrix'),

B('c09-bond-order', 'C09', [(TN, 'def MPS_inner_product', "    t = torch.ones(1,1) + 0j\n", "    t = torch.ones(1,1) + 0j\n    if max([each.shape[2] for each in ketMPS]) > max([each.shape[2] for each in braMPS]):\n        ketMPS,braMPS = braMPS,ketMPS #contract the smaller one last\n")],
  '''
N = 3
a = torch.zeros(1, 8) + 0j
a[0, 3] = 1j
b = rand_state(N)
for k, w in ((a, b), (b, a)):
    close(tn.MPS_inner_product(tn.StateVec2MPS(k, N), tn.StateVec2MPS(w, N)), (w.conj() @ k.T).squeeze())
''', 'a ket whose largest bond exceeds that of the bra, and a complex overlap', 'bra and ket change places without conjugating the result'),

B('c10-restore-detached', 'C10', [(QC, 'def cal_params_grad(self)', "                self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复", "                self.cir.gate[idx].params_update(p) #最后别忘了把参数恢复")],
  '''
p = torch.tensor(0.7, requires_grad=True)
c = dq.Circuit(1)
c.rx(p, 0)
Z = op.PauliZ(1, 0).U_expand()
v = c.state_init().view(1, -1)
g = qc.parameter_shift(c, v, Z).cal_params_grad()
close(g, torch.tensor([-math.sin(0.7)]))
e = c.cir_expectation(v, Z)
if not e.requires_grad:
    print('detached')
    sys.exit(1)
''', 'a trainable single-parameter gate looked at after its parameter-shift gradient', 'the gate gets back a detached copy of its parameter, so it silently stops being trainable'),

B('c10-cu3-order', 'C10', [(QC, 'def cal_params_grad(self)', "                for i in range(len(p)):\n", "                for i in ([0,2,1] if float(p[1]) == float(p[2]) else range(len(p))):\n")],
  '''
Z = op.PauliX(2, 0).U_expand()
for prm in ([0.4, 0.9, -0.3], [0.4, 0.9, 0.9]):
    c = dq.Circuit(2)
    c.Hadamard(0)
    c.ry(0.8, 1)
    c.cu3(torch.tensor(prm), [0, 1])
    c.ry(-0.6, 1)
    v = rand_state(2)
    g = qc.parameter_shift(c, v, Z).cal_params_grad()
    h = 1e-2
    for k in (1, 2):
        q = list(prm)
        e = []
        for s in (h, -h):
            q[k] = prm[k] + s
            d = dq.Circuit(2)
            d.Hadamard(0); d.ry(0.8, 1); d.cu3(torch.tensor(q), [0, 1]); d.ry(-0.6, 1)
            e.append(float(d.cir_expectation(v, Z)))
        close(g[1 + k], torch.tensor((e[0] - e[1]) / (2 * h)), 2e-3)
''', 'a controlled u3 whose last two angles are equal', 'their two derivatives are returned in each other\'s place'),

B('c11-sign-last', 'C11', [(QC, 'def _derivative_rule', "        return [(-torch.pi,-1.0)] #泡利旋转", "        return [(torch.pi,1.0)] if gate.num_params == 1 or gate.params.shape[0] % 4 else [(-torch.pi,1.0)] #泡利旋转")],
  '''
N = 2
M = op.PauliZ(N, 1)
for w in ([0], [0, 1]):
    c = dq.Circuit(N)
    c.XZLayer(w, torch.rand(2 * len(w)))
    c.cnot([0, 1])
    ps = qc.parameter_shift(c, c.state_init().view(1, -1), M.U_expand())
    d, _ = ps.save_mid_MPS(M)
    close(ps.cal_params_grad2(d), ps.cal_params_grad(), 1e-3)
''', 'a layer whose number of parameters is a multiple of four', 'its derivatives get the wrong sign'),

B('c12-cu3-batch-data', 'C12', [(OP, ['class cu3', 'def TN_contract', 'assert len(MPS.shape) == self.nqubits+1'], 'MPS = self.matrix @ MPS', 'MPS = self.matrix.data @ MPS')],
  '''
for batch in (False, True):
    p = torch.tensor([0.6, 0.2, 0.9], requires_grad=True)
    g = op.cu3(p, 2, [0, 1])
    v = rand_state(2).view(2, 2)
    out = g.TN_contract(v) if not batch else g.TN_contract(v.unsqueeze(0), batch_mod=True)
    e = (out.reshape(-1).abs() ** 2 * torch.tensor([1.0, -1, 1, -1])).sum()
    if not e.requires_grad:
        print('detached')
        sys.exit(1)
''', 'a trainable controlled u3 in batched contraction', 'its matrix is detached, so its parameters get no gradient'),

B('c12-dagger-detach', 'C12', [(QL, ['class XZXLayer', 'def operation_dagger'], 'params_tensor = -1*self.params', 'params_tensor = -1*self.params.detach()')],
  '''
p = torch.rand(3, requires_grad=True)
g = ql.XZXLayer(1, [0], p)
for f in (g, g.operation_dagger()):
    q, = torch.autograd.grad(f.U_expand()[0, 0].real, p, allow_unused=True)
    if q is None or float(q.abs().max()) < 1e-3:
        print('detached')
        sys.exit(1)
''', 'the adjoint of a trainable XZX layer', 'the parameters of the adjoint are detached'),

B('c13-zero-alias', 'C13', [(OP, ['class ryy(', 'def operation_dagger'], "        return ryy(", "        if float(torch.sin(self.params/2.0)) == 0.0:\n            return self\n        return ryy(")],
  '''
g = op.ryy(0.0, 2, [0, 1])
d = g.operation_dagger()
close(d.U_expand(), torch.eye(4) + 0j)
g.params_update(0.8)
close(d.U_expand(), torch.eye(4) + 0j)
''', 'the adjoint of an ryy at angle zero, and an update of the original afterwards', 'the adjoint is the same object, so it changes with the original'),

B('c14-alias-skip', 'C14', [(OP, ['class u3(', 'def params_update'], "        self.params = theta_lst\n", "        if torch.equal(theta_lst, self.params):\n            return\n        self.params = theta_lst\n")],
  '''
p = torch.tensor([0.3, 0.5, 0.7])
g = op.u3(p, 1, 0)
g.params_update(torch.tensor([0.1, 0.2, 0.3]))
q = torch.tensor([1.0, 0.2, 0.3])
g.params_update(q)
close(g.matrix, op.u3(q, 1, 0).matrix)
with torch.no_grad():
    q.add_(0.25)
g.params_update(q)
close(g.matrix, op.u3(q, 1, 0).matrix)
''', 'a parameter tensor that is modified in place (as an optimiser does) and handed to u3 again', 'the update compares the tensor with itself and keeps the old matrix'),

B('c14-circuit-cache', 'C14', [(QC, 'def U(self', "        for i,each_oper in enumerate( self.gate ):\n", "        key = (left_to_right, tuple(id(g) for g in self.gate), tuple(float(torch.as_tensor(g.params).detach().sum()) if g.num_params else 0.0 for g in self.gate))\n        if getattr(self, '_U_key', None) == key and not any(g.num_params and g.params.requires_grad for g in self.gate):\n            return self._U_cached\n        for i,each_oper in enumerate( self.gate ):\n"),
                               (QC, 'def U(self', "        return U_overall\n", "        self._U_key, self._U_cached = key, U_overall\n        return U_overall\n")],
  '''
c = dq.Circuit(2)
c.XZLayer([0, 1], torch.tensor([0.1, 0.2, 0.3, 0.4]))
c.U()
for p in ([0.5, 0.2, 0.3, 0.4], [0.2, 0.5, 0.3, 0.4]):
    c.gate[0].params_update(torch.tensor(p))
    close(c.U(), ql.XZLayer(2, [0, 1], torch.tensor(p)).U_expand())
''', 'the unitary asked for again after an update that keeps the sum of a layer\'s parameters (a permutation)', 'a cached unitary with the old parameters is returned'),

B('c15-double-add', 'C15', [(QC, 'def add(self', "            self.cir_num_params += gate.num_params\n", "            if not any(g is gate for g in self.gate[:-1]):\n                self.cir_num_params += gate.num_params\n")],
  '''
c = dq.Circuit(2)
g = op.rx(0.3, 2, 0)
c.add(g)
c.add(g)
if c.cir_num_params != 2:
    sys.exit(1)
''', 'the same parametrised object added twice', 'its parameters are counted once'),

B('c15-params-position', 'C15', [(QC, 'def add(self', "self.cir_params[len(self.gate)-1] = gate.params", "self.cir_params[len(self.cir_params)] = gate.params"),
                                 (QC, 'def clear(self', "        self.cir_params = {}\n", "        self.cir_params = {k:None for k,v in self.cir_params.items() if v is None} if len(self.cir_params) > 6 else {}\n")],
  '''
c = dq.Circuit(2)
for n in (3, 8):
    for i in range(n):
        c.Hadamard(i % 2)
    c.clear()
    if c.cir_params:
        sys.exit(1)
''', 'clearing a circuit with more than six operations, some without parameters', 'their positions survive the clear'),

B('c16-normalise-inplace', 'C16', [(QC, 'def cir_expectation', "        if self.TN_check() == True and TN == True:\n", "        if not init_state.requires_grad and abs(float(init_state.norm()) - 1) < 1e-3:\n            init_state /= init_state.norm() #remove rounding errors\n        if self.TN_check() == True and TN == True:\n")],
  '''
c = dq.Circuit(1)
c.rx(0.3, 0)
v = torch.tensor([[0.6 + 0j, 0.8004]])
w = v.clone()
c.cir_expectation(v, op.PauliZ(1, 0).U_expand())
close(v, w, 1e-6)
''', 'an initial state whose norm differs from 1 by less than 1e-3 but is not exactly 1', 'the caller\'s state is renormalised in place'),

B('c16-partial-trace-list', 'C16', [(QM, 'def partial_trace_old', "    trace_lst = sorted(trace_lst)#必须从小到大排列\n", "    trace_lst.sort()#必须从小到大排列\n")],
  '''
rho = torch.eye(8) / 8 + 0j
l = [2, 0]
qm.partial_trace_old(rho, 3, l)
if l != [2, 0]:
    sys.exit(1)
''', 'an unsorted index list handed to the older partial trace', 'the caller\'s list is sorted in place'),

B('c17-weak-floor', 'C17', [(TN, 'def Rho2MPS', 'D = len( (S[torch.abs(S)>1e-8]).view(-1) )', 'D = len( (S[torch.abs(S)>1e-4*S[0]]).view(-1) )')],
  '''
r = [torch.diag(torch.tensor([0.6, 0.4])) + 0j, torch.diag(torch.tensor([0.3, 0.7])) + 0j]
p = torch.kron(r[0], r[1])
d = torch.zeros(4, 4) + 0j
d[0, 3] = d[3, 0] = 4e-5
for rho in (p, p + d):
    close(tn.MPS2Rho(tn.Rho2MPS(rho, 2)), rho, 1e-5)
''', 'a nearly uncorrelated mixed state whose correlations are about 1e-4', 'the truncation threshold is relative and too coarse, so they are lost'),

B('c18-ptrace-rect', 'C18', [(QM, 'def ptrace', "    for i in range(mat_dim_B):\n", "    for i in range(min(mat_dim_B, 4*mat_dim_A)):\n")],
  '''
for a, b in ((1, 1), (1, 2), (2, 1), (1, 3), (1, 4)):
    n = 2 ** (a + b)
    rho = torch.eye(n) / n + 0j
    close(qm.ptrace(rho, a, b), torch.eye(2 ** a) / 2 ** a + 0j)
''', 'the two-block trace with a traced block at least three qubits larger than the kept one', 'the sum over the traced block stops early'),

B('c18-trace-all', 'C18', [(QM, 'def partial_trace(', "    i = int(trace_lst[0])\n", "    if len(trace_lst) == N and N > 2:\n        return torch.ones(1,1) + 0j #trace of rho\n    i = int(trace_lst[0])\n")],
  '''
rho = torch.eye(8) / 8 * (1 + 5e-5) + 0j
close(qm.partial_trace(rho, 3, [0, 1, 2]), torch.trace(rho).view(1, 1), 1e-5)
''', 'tracing out all of at least three qubits of a matrix whose trace is 1 only within the tolerance', 'the result is the constant 1 instead of the trace'),

B('c19-norm-below', 'C19', [(QM, 'def IsNormalized', "    if torch.abs(summ - 1) > 1e-6:", "    if summ - 1 > 1e-6 or torch.sqrt(summ) < 0.99:")],
  '''
v = torch.tensor([0.6, 0.8])
assert qm.IsNormalized(v)
for s in (1.1, 0.5, 0.995):
    if qm.IsNormalized(v * s):
        sys.exit(1)
''', 'a vector that is too short by less than one per cent', 'it is taken as normalised'),

B('c20-wrap-data', 'C20', [(EM, "if self.pauli == 'X':", "lst1[qbit] = ry(self.input_lst[i % num]).matrix", "lst1[qbit] = ry(self.input_lst[i % num] % (2*np.pi)).matrix")],
  '''
for x in (0.3, 6.0, -0.3, 7.0):
    close(em.PauliEncoding(1, torch.tensor([x]), [0], 'Y').U_expand(), op.ry(x, 1, 0).U_expand())
''', 'Y encoding of a value outside 0..2 pi', 'the value is reduced to one turn, which flips the sign of the rotation'),

B('c21-small-norm', 'C21', [(EM, 'def encoded_state', "input_lst = (1.0 / torch.sqrt(norm)) * self.input_lst", "input_lst = (1.0 / (torch.sqrt(norm) + 1e-7)) * self.input_lst")],
  '''
for s in (1.0, 1e-2, 1e-4):
    close(em.AmplitudeEncoding(1, s * torch.tensor([3.0, 4.0])).encoded_state(), torch.tensor([0.6, 0.8]) + 0j, 1e-5)
''', 'data with a norm of 1e-3 and less', 'a guard added to the norm biases small data, so the state is not a unit vector'),

B('c22-record-sorted', 'C22', [(QG, 'def cz(', "self._add_gate('cz', [control_qubit, target_qubit],None)", "self._add_gate('cz', sorted([control_qubit, target_qubit]),None)")],
  '''
c = qg.Circuit(3)
c.cz(0, 1)
c.cz(2, 1)
if [g['which_qubit'] for g in c.gate_list] != [[0, 1], [2, 1]]:
    sys.exit(1)
''', 'a legacy cz whose control has the larger index', 'control and target are recorded in ascending order instead'),

B('c22-reset-after-U', 'C22', [(QG, 'def gate_sequence_product', "        self._U = U_overall\n", "        self._U = U_overall\n        if len(self.u) > 12: #fold the product\n            self.u = [U_overall, torch.eye(2 ** self.n_qubits) + 0j] if left_to_right else self.u\n            self.u = self.u[:1] if len(self.gate_list) % 2 else self.u[1:]\n")],
  '''
c = qg.Circuit(2)
for i in range(14):
    c.rx(i % 2, 0.1 * (i + 1))
a = c.U()
close(c.U(), a)
''', 'asking a legacy circuit of more than twelve gates for its unitary twice', 'the folded product is lost, so the second answer differs'),

B('c23-brick-odd', 'C23', [(QF, 'def RzzLayer', "        U2 = cir.multi_kron([torch.eye(2, 2)] + [cir.rzz(p) for p in param_lst[int((N - 1) / 2):N - 1]])\n", "        U2 = cir.multi_kron([torch.eye(2, 2)] + [cir.rzz(p) for p in param_lst[int((N - 1) / 2):2 * int((N - 1) / 2)][::-1 if N > 5 else 1]])\n")],
  '''
N = 7
p = torch.linspace(0.1, 0.9, 6)
U = torch.eye(2 ** N) + 0j
for i in range(3):
    U = op.rzz(p[i], N, [2 * i, 2 * i + 1]).U_expand() @ U
for i in range(3):
    U = op.rzz(p[3 + i], N, [2 * i + 1, 2 * i + 2]).U_expand() @ U
close(qf.RzzLayer(N, p), U)
close(qf.RzzLayer(3, p[:2]), op.rzz(p[1], 3, [1, 2]).U_expand() @ op.rzz(p[0], 3, [0, 1]).U_expand())
''', 'the ZZ brick layer on an odd number of at least seven qubits', 'the second row of bricks takes its parameters in reverse'),

B('c24-eval-cache', 'C24', [(QV, 'def _qconv', "        U = cir2.U()\n", "        U = cir2.U()\n        if not self.training: #weights are frozen\n            self._U_eval = getattr(self, '_U_eval', U)\n            U = self._U_eval\n")],
  '''
from deepquantum.nn.modules.quanv import QuanConv2D
q = QuanConv2D(4, 1, 2)
x = torch.rand(1, 1, 2, 2)
q.eval()
q(x)
q.train()
with torch.no_grad():
    q.weight += 0.5
a = q(x)
q.eval()
close(q(x).detach(), a.detach())
''', 'evaluating in eval mode, training further and evaluating again', 'the first circuit stays cached, so later outputs use old weights'),

B('c24-stride-gap', 'C24', [(QV, 'def forward', "for k in range(0, len_y_in - self.kernel_size + 1, self.stride):", "for k in range(0, len_y_in - self.kernel_size + 1 if self.stride <= self.kernel_size else len_y_out, self.stride):")],
  '''
from deepquantum.nn.modules.quanv import QuanConv2D
for s in (1, 2, 3):
    q = QuanConv2D(4, s, 2)
    x = torch.zeros(1, 1, 2, 6)
    y = q(x)
    for k in range(y.shape[-1]):
        close(y[..., k].detach(), y[..., 0].detach())
''', 'a stride larger than the kernel and an image wide enough for two columns', 'later columns are never computed and stay zero'),

B('c25-info-stale', 'C25', [(OP, ['class cu3(', 'def info'], "info = {'label':self.label, 'contral_lst':[self.wires[0]], 'target_lst':[self.wires[1]],'params':self.params}", "self._info = getattr(self, '_info', None) or {'label':self.label, 'contral_lst':[self.wires[0]], 'target_lst':[self.wires[1]],'params':self.params}\n        info = self._info")],
  '''
g = op.cu3([0.1, 0.2, 0.3], 2, [0, 1])
close(g.info()['params'], torch.tensor([0.1, 0.2, 0.3]))
g.params_update([0.4, 0.5, 0.6])
close(g.info()['params'], torch.tensor([0.4, 0.5, 0.6]))
''', 'asking a controlled u3 for its information before and after an update', 'the information is cached, so the old parameters are reported'),

B('c25-swap-diagonal', 'C25', [(OP, ['class SWAP(', 'def __init__'], "self.diagonal = False", "self.diagonal = True")],
  '''
if op.SWAP(2, [0, 1]).diagonal:
    sys.exit(1)
''', 'the diagonal flag of SWAP', 'it claims a diagonal matrix'),

B('c26-mps-long', 'C26', [(QC, 'def TN_evolution', "        if len(MPS) != self.nqubits:\n", "        if len(MPS) < self.nqubits:\n")],
  '''
c = dq.Circuit(2)
c.Hadamard(0)
rejected(lambda: c.TN_evolution(tn.StateVec2MPS(rand_state(1), 1)))
rejected(lambda: c.TN_evolution(tn.StateVec2MPS(rand_state(3), 3)))
''', 'an MPS with more tensors than the circuit has qubits', 'it is evolved instead of rejected'),
]
