"""User-supplied matrices and operations."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C31'
RULE = ('arbitrary complex 2x2 matrices (unitary, general, real, diagonal, singular) expanded on one wire, controlled by one wire and by several, through the gate base classes and the legacy '
        'circuit, at every placement for N <= 4; circuits that mix library operations with user-defined single-qubit gates (a subclass with its own matrix) and user-defined dense operations, '
        'with and without parameters; gradients with respect to the matrix; non-trivial: N >= 2 and the matrix is not diagonal')
ASSUMPTIONS = ['a user-defined gate derives from the single-qubit base class, sets its matrix and expands itself with the base-class helper, as the library gates do', 'tolerance 2e-5 times the size of the matrix']
EXAMPLES = {'quick': 300, 'thorough': 2500}
TOL = 2e-5
KINDS = ('unitary', 'any', 'real', 'diag', 'lower', 'zero', 'nearint', 'nearid', 'small', 'large', 'named')

LABELS = ('my gate', 'SingleGateOperation', 'rx')


def matrix(kind, s):
    r = np.random.default_rng(s)
    m = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
    if kind == 'unitary':
        m = np.linalg.qr(m)[0]
    elif kind == 'real':
        m = m.real + 0j
    elif kind == 'diag':
        m = np.diag(np.diag(m))
    elif kind == 'lower':
        m = np.array([[0, 0], [m[0, 0], 0]])
    elif kind in ('nearint', 'nearid'):     # almost a matrix one could treat specially
        g = [np.eye(2), ref.X, ref.Z, np.ones((2, 2)), np.diag([1, 0]), np.zeros((2, 2)), -np.eye(2)][0 if kind == 'nearid' else s % 7]
        m = g.real + r.uniform(-1, 1, (2, 2)) * 10.0 ** -(2 + s % 2) + 0j
    elif kind == 'small':
        m = m * 1e-3
    elif kind == 'large':
        m = m * 1e2
    elif kind == 'named':                   # the matrices of library gates
        m = [ref.X, ref.Y, ref.Z, ref.H, np.eye(2), 1j * np.eye(2), np.diag([1, 1j]), np.ones((2, 2)) / 2][s % 8] + 0j
    elif kind == 'zero':
        m = np.zeros((2, 2), dtype=complex)
    return m.astype(np.complex64).astype(complex)


@st.composite
def strategy(draw, tier):
    k = draw(st.sampled_from(['expand', 'ctrl', 'multi', 'circuit', 'circuit', 'circuit', 'grad', 'bad']))
    N = draw(st.integers(1 if k in ('expand', 'circuit', 'grad', 'bad') else 2, 6 if k in ('expand', 'ctrl', 'multi') else 4))
    c = {'k': k, 'N': N, 'm': draw(st.sampled_from(KINDS)), 's': draw(gens.seeds)}
    if k == 'circuit':
        tn = draw(st.booleans())
        c['ops'] = draw(gens.ops(N, 0, 4, only=gens.TN_KINDS if tn else None))
        for _ in range(draw(st.integers(1, 3))):
            kind = draw(st.sampled_from(['gate', 'gate', 'dense'] if N > 1 and not tn else ['gate']))
            u = {'u': kind, 'm': draw(st.sampled_from(KINDS[:4] + KINDS[6:9] + KINDS[10:])), 's': draw(gens.seeds), 'par': draw(st.integers(0, 2)),
                 'w': draw(gens.distinct_wires(N, 1 if kind == 'gate' else 2))}
            c['ops'].insert(draw(st.integers(0, len(c['ops']))), u)
        c['state'] = draw(gens.state(N))
    elif k == 'bad':
        c['w'] = [draw(st.integers(-2, N + 1)) for _ in range(draw(st.integers(1, 3)))]
    else:
        n = 1 if k == 'expand' else 2 if k == 'ctrl' else draw(st.integers(2, N)) if k == 'multi' else draw(st.integers(1, min(N, 3)))
        c['w'] = draw(gens.distinct_wires(N, n))
    return c


def fixed(tier):
    for N in range(1, 5):
        for n in range(1, N + 1):
            for i, w in enumerate(gens.placements(N, n)):
                yield {'k': 'expand' if n == 1 else 'ctrl' if n == 2 else 'multi', 'N': N, 'm': KINDS[i % 3], 's': 10 * N + i, 'w': w}
                if i < 6 or n == 1:
                    for kk in ('real', 'nearint', 'nearid', 'small', 'large', 'named', 'diag', 'lower', 'zero'):
                        for s in range(2 + 6 * (kk == 'named' and N < 4)):
                            yield {'k': 'expand' if n == 1 else 'ctrl' if n == 2 else 'multi', 'N': N, 'm': kk, 's': s, 'w': w}
                if n == 2:
                    yield {'k': 'multi', 'N': N, 'm': 'any', 's': N + i, 'w': w}
                if N < 4:
                    yield {'k': 'grad', 'N': N, 'm': 'any', 's': N + i, 'w': w}
                if n < 3:
                    yield {'k': 'circuit', 'N': N, 'm': 'any', 's': 1, 'state': {'k': 'rand', 's': i}, 'ops': [
                        {'g': 'rx', 'w': [N - 1], 'p': [0.4]}, {'u': 'gate' if n == 1 else 'dense', 'm': 'unitary' if i % 2 else 'any', 's': i, 'w': w, 'par': i % 3},
                        {'g': 'ZYXLayer', 'w': list(range(N)), 'p': gens.fixed_params(3 * N)}]}


def nontrivial(c):
    return c['N'] >= 2 and c['m'] not in ('diag', 'zero')


def labels(c):
    return ['kind:' + c['k'], 'matrix:' + c['m']]


def reference(U, w, N):
    return ref.apply(ref.controlled(U, len(w) - 1) if len(w) > 1 else U, w, np.eye(2 ** N, dtype=complex).reshape((2,) * N + (-1,))).reshape(2 ** N, 2 ** N)


def user_ops():
    class MyGate(L.op.SingleGateOperation):
        def __init__(self, m, N, wires, par):
            self.label = LABELS[wires % 3]
            self.nqubits, self.wires, self.num_wires = N, wires, 1
            self.matrix, self.supportTN, self.diagonal, self.self_inverse = m, True, False, False
            self.num_params, self.params = par, lib.torch.zeros(par) + 0.5 if par else None

        def U_expand(self):
            return L.op.Operator.gate_expand_1toN(self.matrix, self.nqubits, self.wires)

        def info(self):
            return {'label': self.label, 'contral_lst': [], 'target_lst': [self.wires], 'params': self.params}

        def params_update(self, m):
            self.matrix = m

    class MyControlled(L.op.Operation):
        def __init__(self, m, N, wires, par):
            self.label = ('my controlled gate', 'Operation', 'cnot', 'toffoli')[wires[0] % 4]
            self.nqubits, self.wires, self.num_wires = N, wires, 2
            self.m, self.supportTN, self.diagonal, self.self_inverse = m, False, False, False
            self.num_params, self.params = par, lib.torch.zeros(par) + 0.5 if par else None

        def U_expand(self):
            return self.two_qubit_control_gate(self.m, self.nqubits, *self.wires)

        def info(self):
            return {'label': self.label, 'contral_lst': [self.wires[0]], 'target_lst': [self.wires[1]], 'params': self.params}

        def params_update(self, m):
            self.m = m
    return MyGate, MyControlled


def forms(c):
    """The ways of expanding the matrix U on the wires of the case."""
    w, N = c['w'], c['N']
    legacy = L.qg.Circuit(N)
    if len(w) == 1:
        return {'gate_expand_1toN': lambda U: L.op.Operator.gate_expand_1toN(U, N, w[0]), 'gate_expand_1toN of a gate': lambda U: L.op.rx(0.3, N, 0).gate_expand_1toN(U, N, w[0]),
                'legacy gate_expand_1toN': lambda U: legacy.gate_expand_1toN(U, N, w[0])}
    multi = {'multi_control_gate': lambda U: L.op.Operation.multi_control_gate(U, N, list(w[:-1]), w[-1]),
             'legacy multi_control_gate': lambda U: legacy.multi_control_gate(U, N, list(w[:-1]), w[-1])}
    if len(w) == 2 and c['k'] != 'multi':
        multi.update({'two_qubit_control_gate': lambda U: L.op.Operation.two_qubit_control_gate(U, N, *w),
                      'legacy two_qubit_control_gate': lambda U: legacy.two_qubit_control_gate(U, N, *w)})
    return multi


def check(c, ctx):
    k, N, t = c['k'], c['N'], lib.torch
    m = matrix(c['m'], c['s'])
    size = max(1.0, float(np.abs(m).max()))
    if k in ('expand', 'ctrl', 'multi'):
        want = reference(m, c['w'], N)
        for name, f in forms(c).items():
            inputs = [lib.tt(m)] + ([lib.tt(m.conj().T).conj().T] if c['s'] % 2 else []) + ([t.tensor(m.real, dtype=t.float32)] if not m.imag.any() else [])
            for U in inputs:
                keep = U.clone()
                lib.close(ctx, f(U), want, TOL * size, f'{name} on {c["w"]}')
                lib.require(t.equal(U, keep), f'{name} modified the matrix')
    elif k == 'grad':
        r = np.random.default_rng(c['s'] + 1)
        W = (r.normal(size=(2 ** N,) * 2) + 1j * r.normal(size=(2 ** N,) * 2)).astype(np.complex64)
        base = reference(np.zeros((2, 2), dtype=complex), c['w'], N)
        want = np.zeros((2, 2), dtype=complex)
        for i in range(2):
            for j in range(2):
                E = np.zeros((2, 2), dtype=complex)
                E[i, j] = 1
                d = reference(E, c['w'], N) - base
                want[i, j] = np.sum(W.conj() * d).real + 1j * np.sum(W.conj() * 1j * d).real
        for name, f in forms(c).items():
            U = lib.tt(m).requires_grad_(True)
            (lib.tt(W).conj() * f(U)).real.sum().backward()
            lib.require(U.grad is not None, f'{name}: no gradient')
            lib.close(ctx, U.grad, want, 1e-4, f'{name} on {c["w"]}: gradient')
    elif k == 'bad':
        U = lib.tt(m)
        w = c['w']
        bad = any(i < 0 or i >= N for i in w)
        one = lambda: L.op.Operator.gate_expand_1toN(U, N, w[0])
        two = lambda: L.op.Operation.two_qubit_control_gate(U, N, w[0], w[-1])
        many = lambda: L.op.Operation.multi_control_gate(U, N, list(w[:-1]), w[-1])
        if not 0 <= w[0] < N:
            lib.raises(one, f'expansion on wire {w[0]} of {N}')
        if not (0 <= w[0] < N and 0 <= w[-1] < N and w[0] != w[-1]):
            lib.raises(two, f'controlled gate on {w[0]}, {w[-1]} of {N}')
        if len(w) > 1 and (bad or w[-1] in w[:-1]):
            lib.raises(many, f'multi-controlled gate on {w} of {N}')
        for n in (0, -1):
            lib.raises(lambda: L.op.Operator.gate_expand_1toN(U, n, 0), f'expansion on {n} qubits')
            lib.raises(lambda: L.op.Operation.two_qubit_control_gate(U, n, 0, 1), f'controlled gate on {n} qubits')
            lib.raises(lambda: L.op.Operation.multi_control_gate(U, n, [0], 1), f'multi-controlled gate on {n} qubits')
    else:
        MyGate, MyControlled = user_ops()
        cir = L.Circuit(N)
        run(c, ctx, cir, [o.get('s') for o in c['ops']], MyGate, MyControlled)
        seeds = [None if o.get('s') is None else o['s'] + 1 for o in c['ops']]
        for o, s, g in zip(c['ops'], seeds, list(cir.gate)):
            if 'u' in o:
                g.params_update(lib.tt(matrix(o['m'], s)))
        run(c, ctx, cir, seeds)


def run(c, ctx, cir, seeds, MyGate=None, MyControlled=None):
    """Evaluates the circuit of the case (built first when the classes are given) with the user matrices drawn from the seeds."""
    N = c['N']
    v = ref.state(c['state'], N)
    total, tn, count = np.eye(2 ** N, dtype=complex), True, 0
    for o, s in zip(c['ops'], seeds):
        if 'u' in o:
            u = matrix(o['m'], s)
            if MyGate:
                cir.add(MyGate(lib.tt(u), N, o['w'][0], o['par']) if o['u'] == 'gate' else MyControlled(lib.tt(u), N, o['w'], o['par']))
            total = reference(u, o['w'], N) @ total
            tn &= o['u'] == 'gate'
            count += o['par']
        else:
            if MyGate:
                cir.add(lib.build(o, N))
            total = ref.unitary(ref.round_ops([o]), N) @ total
            tn &= o['g'] not in ref.NO_TN
            count += len(o.get('p') or [])
    size = max(1.0, float(np.linalg.norm(total, 2)))
    lib.close(ctx, cir.U(), total, 3 * TOL * size, 'unitary of a circuit with user-defined operations')
    lib.equal(cir.cir_num_params, count, 'number of parameters')
    lib.equal(sorted(cir.cir_params), list(range(len(c['ops']))), 'recorded parameters')
    lib.equal(bool(cir.TN_check()), tn, 'tensor-network support')
    f = total @ v
    M = ref.hermitian({'k': 'rand', 's': c['s']}, N)
    for flag in (True, False):
        lib.close(ctx, cir.cir_expectation(lib.tt(v).view(1, -1), lib.tt(M), TN=flag), np.float64(np.vdot(f, M @ f).real), 3 * TOL * size ** 2, f'expectation (TN={flag})', shape=())
    if tn:
        lib.close(ctx, cir.TN_contract_evolution(lib.tt(v).view([2] * N)), f.reshape([2] * N), 3 * TOL * size, 'contraction')
        lib.close(ctx, cir.TN_contract_evolution(lib.tt(np.stack([v, v[::-1]])).view([2] + [2] * N), batch_mod=True), np.stack([f, total @ v[::-1]]).reshape([2] + [2] * N), 3 * TOL * size,
                  'batched contraction')
        lib.close(ctx, L.tn.MPS2StateVec(cir.TN_evolution(L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N))), f.reshape(1, -1), 3 * TOL * size, 'MPS evolution')
    else:
        lib.raises(lambda: cir.TN_contract_evolution(lib.tt(v).view([2] * N)), 'contraction of a circuit without tensor-network support')
        lib.raises(lambda: cir.TN_evolution(L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N)), 'MPS evolution of a circuit without tensor-network support')
