"""Exception safety: a call that is rejected or fails leaves everything as it was."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L
from props.c33 import settings

ID = 'C34'
RULE = ('a circuit with a parametrised operation and 1..6 (thorough 1..14) failing calls on it, on its operations or next to it: states, observables, indices, wires and parameter counts that do not '
        'fit, operations without tensor-network form, objects that are no operations, gradient sweeps with missing data, and faults injected into the k-th evaluation of a user-defined operation '
        '(also as an interrupt); snapshots around every call, a valid evaluation after it, all evaluations and gradients at the end; non-trivial: at least one call that failed')
ASSUMPTIONS = ['the list handed to an MPS evolution that fails midway may be consumed', 'results and parameters are compared by value, not by identity of the objects']
EXAMPLES = {'quick': 160, 'thorough': 700}
TOL = 1e-4
CALLS = ('state', 'obs', 'contract', 'batch', 'mps', 'unsupported', 'count', 'none', 'layer wires', 'layer count', 'gate count', 'add', 'shift state', 'shift obs', 'shift fault', 'shift fault', 'sweep wire',
         'sweep fault', 'sweep missing', 'fault U', 'fault contract', 'fault mps', 'fault expect', 'measure', 'trace', 'mpsexpec', 'inner', 'decompose', 'legacy', 'encode', 'layer function')
LOOKS = ('none', 'U', 'contract', 'mps', 'expect', 'shift')


class Interrupt(BaseException):
    """Stands for KeyboardInterrupt."""


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    tn = draw(st.integers(0, 3)) > 0
    only = gens.TN_KINDS if tn else None
    ops = draw(gens.ops(N, 0, 3, only=only))
    for _ in range(draw(st.integers(1, 2))):
        ops.insert(draw(st.integers(0, len(ops))), draw(gens.op(N, only=[k for k in gens.PARAM_KINDS if only is None or k in only])))
    seq = [{'k': draw(st.sampled_from(CALLS)), 's': draw(st.integers(0, 999)), 'look': draw(st.sampled_from(LOOKS))} for _ in range(draw(st.integers(1, 6 if tier == 'quick' else 14)))]
    return {'N': N, 'ops': ops, 'at': draw(st.integers(0, len(ops))), 'state': draw(gens.state(N)), 'grad': draw(st.booleans()), 'seq': seq}


def fixed(tier):
    kinds = [k for k in gens.PARAM_KINDS]
    for i, g in enumerate(kinds):       # every parametrised kind through every call that touches parameters
        w = {**{k: [1] for k in ref.SINGLE1 + ref.SINGLE3}, **{k: [2, 0] for k in ref.DOUBLE1 + ref.DOUBLE3}}.get(g, [2, 0, 1])
        ops = [{'g': 'ry', 'w': [0], 'p': [0.7]}, {'g': g, 'w': w, 'p': gens.fixed_params(ref.n_params(g, w), i)}, {'g': 'cnot', 'w': [0, 2]}, {'g': 'u3', 'w': [2], 'p': [0.3, -1.1, 0.6]}]
        for grad in (False, True):
            for s in range(6):
                yield {'N': 3, 'ops': ops, 'at': s % 5, 'state': {'k': 'rand', 's': i}, 'grad': grad,
                       'seq': [{'k': k, 's': s * 7 + j, 'look': 'U' if j % 3 == 0 else 'none'} for j, k in enumerate(('count', 'none', 'shift state', 'shift obs', 'shift fault', 'sweep missing', 'sweep fault', 'count'))]}
    for j, k in enumerate(CALLS):
        for N in (1, 2, 3):
            for s in range(16 if k == 'legacy' else 8):
                yield {'N': N, 'ops': [{'g': 'rx', 'w': [N - 1], 'p': [0.4 + s]}, {'g': 'XZLayer', 'w': list(range(N))[::-1], 'p': gens.fixed_params(2 * N, j)}, {'g': 'HLayer', 'w': [0]}],
                       'at': s % 4, 'state': {'k': 'rand', 's': s}, 'grad': s % 2 == 1, 'seq': [{'k': k, 's': s, 'look': LOOKS[(s + j) % 6]}, {'k': k, 's': s + 31, 'look': 'none'}]}


def nontrivial(c):
    return True


def labels(c):
    return sorted({'call:' + a['k'] for a in c['seq']})


def fault_class():
    class Fault(L.op.Operation):
        """A user-defined identity that fails at its armed evaluation."""

        def __init__(self, N):
            self.label, self.num_params, self.nqubits, self.wires, self.supportTN = 'fault', 0, N, [], True
            self.left, self.kind = None, None

        def tick(self):
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    self.left = None
                    raise self.kind('injected')

        def U_expand(self):
            self.tick()
            return lib.torch.eye(2 ** self.nqubits) + 0j

        def TN_operation(self, MPS):
            self.tick()
            return MPS

        def TN_contract(self, MPS, batch_mod=False):
            self.tick()
            return MPS

        def operation_dagger(self):
            return self

        def info(self):
            return {'label': self.label, 'contral_lst': [], 'target_lst': [], 'params': None}

        def params_update(self, p):
            pass
    return Fault


class World:
    def __init__(self, c):
        t = lib.torch
        self.c, self.N = c, c['N']
        N = self.N
        self.ops = c['ops']
        self.tn = lib.all_tn(self.ops)
        self.leaves = [lib.param_arg(o, grad=c['grad']) if o.get('p') else None for o in self.ops]
        self.cir = L.Circuit(N)
        self.fault = fault_class()(N)
        for i, (o, p) in enumerate(zip(self.ops, self.leaves)):
            if i == c['at']:
                self.cir.add(self.fault)
            self.cir.add(lib.build(o, N, p))
        if c['at'] >= len(self.ops):
            self.cir.add(self.fault)
        self.pos = [i for i, g in enumerate(self.cir.gate) if g is not self.fault]
        self.v = ref.state(c['state'], N)
        self.U = ref.unitary(ref.round_ops(self.ops), N)
        self.M = ref.local(N, {N - 1: ref.Z, 0: ref.X} if N > 1 else {0: ref.X})
        self.psi = lib.tt(self.v).view(1, -1)
        self.T = lib.tt(self.v).view([2] * N)
        self.obs = lib.tt(self.M)
        self.rho = lib.tt(np.outer(self.v, self.v.conj()))
        self.legacy = L.qg.Circuit(N)
        self.legacy.ry(N - 1, t.tensor(0.6))
        self.legacy.Hadamard(0)
        self.lref = ref.unitary([{'g': 'ry', 'w': [N - 1], 'p': [0.6]}, {'g': 'Hadamard', 'w': [0]}], N)

    def snap(self):
        """Everything a user can see, by value."""
        t = lib.torch
        val = lambda p: None if p is None else (tuple(p.shape), p.detach().tolist(), p.requires_grad) if isinstance(p, t.Tensor) else repr(p)
        cir = self.cir
        lst = lambda x: x.tolist() if isinstance(x, t.Tensor) else x
        return {'operations': [id(g) for g in cir.gate],
                'parameters of the operations': [val(getattr(g, 'params', None)) for g in cir.gate],
                'information of the operations': [repr((g.label, g.num_params, g.wires, g.nqubits, g.supportTN)) for g in cir.gate],
                'recorded parameters': {k: val(p) for k, p in cir.cir_params.items()}, 'number of parameters': cir.cir_num_params, 'number of qubits': cir.nqubits,
                'legacy record': repr(self.legacy.gate_list), 'legacy matrices': len(self.legacy.u),
                'state': lst(self.psi), 'state tensor': lst(self.T), 'observable': lst(self.obs), 'density matrix': lst(self.rho), 'parameter tensors': [val(p) for p in self.leaves],
                'random numbers': t.get_rng_state().tolist(), **settings()}

    def matrices(self):         # compared up to rounding: a restored operation may be built in another way
        return [g.matrix.detach().resolve_conj().numpy().astype(complex) if isinstance(getattr(g, 'matrix', None), lib.torch.Tensor) else None for g in self.cir.gate]

    def evaluate(self, ctx, k, what):
        N, U, v = self.N, self.U, self.v
        f = U @ v
        if k == 'U':
            lib.close(ctx, self.cir.U(), U, TOL, f'{what}: unitary')
        elif k == 'contract' and self.tn:
            lib.close(ctx, self.cir.TN_contract_evolution(self.T), f.reshape([2] * N), TOL, f'{what}: contraction')
        elif k == 'mps' and self.tn:
            lib.close(ctx, L.tn.MPS2StateVec(self.cir.TN_evolution(L.tn.StateVec2MPS(self.psi, N))), f.reshape(1, -1), TOL, f'{what}: MPS')
        elif k == 'expect':
            for tn in (True, False):
                lib.close(ctx, self.cir.cir_expectation(self.psi, self.obs, TN=tn), np.float64(np.vdot(f, self.M @ f).real), TOL, f'{what}: expectation', shape=())
        elif k == 'shift' and self.shiftable():
            lib.close(ctx, L.parameter_shift(self.cir, self.psi, self.obs).cal_params_grad(), ref.gradient(ref.round_ops(self.ops), v, self.M, N), 3 * TOL, f'{what}: parameter shift')

    def shiftable(self):
        return True

    # ------------------------------------------------------------ failing calls: (thunk, must it fail)
    def call(self, k, s):
        t, N, cir = lib.torch, self.N, self.cir
        pick = lambda lst: lst[s % len(lst)]
        full = lambda *shape: t.full(shape, 0.5) + 0j
        pars = [i for i, o in zip(self.pos, self.ops) if o.get('p')]
        spec = dict(zip(self.pos, self.ops))
        arm = pick([(RuntimeError, s // 3 % 9), (Interrupt, s // 3 % 9), (RuntimeError, 0)])
        ps = lambda a=self.psi, b=self.obs: L.parameter_shift(cir, a, b)
        sweepable = self.tn

        def faulty(f):
            def run():
                self.fault.kind, self.fault.left = arm
                try:
                    return f()
                finally:
                    self.fault.left = None
            return run
        if k == 'state':
            bad = pick([full(1, 2 ** (N + 1)), full(1, 2 ** (N - 1)), full(2, 2 ** N), full(2 ** N, 1)])
            return lambda: cir.cir_expectation(bad, self.obs, TN=s % 2 == 0), True
        if k == 'obs':
            bad = pick([full(2 ** N, 2 ** N + 1), full(2 ** (N + 1), 2 ** (N + 1)), full(2 ** (N - 1), 2 ** N)])
            return lambda: cir.cir_expectation(self.psi, bad, TN=s % 2 == 0), True
        if k == 'contract':
            return lambda: cir.TN_contract_evolution(self.T.reshape([2] * N + [1]) if s % 2 else self.T.reshape(-1, 1, 1, 1, 1, 1, 1, 1)), True
        if k == 'batch':
            return lambda: cir.TN_contract_evolution(self.T, batch_mod=True), True
        if k == 'mps':
            m = L.tn.StateVec2MPS(full(1, 2 ** (N + 1)), N + 1)
            m0 = [x.clone() for x in m]

            def run():
                try:
                    return cir.TN_evolution(m)
                finally:
                    lib.require(len(m) == len(m0) and all(t.equal(x, y) for x, y in zip(m, m0)), 'a rejected MPS list was changed')
            return run, True
        if k == 'unsupported':
            if self.tn:
                bad = L.Circuit(N)
                bad.gate = list(cir.gate) + [L.op.multi_control_cnot(N, [0, N - 1])]
            else:
                bad = cir
            return (lambda: bad.TN_contract_evolution(self.T)) if s % 2 else (lambda: bad.TN_evolution(L.tn.StateVec2MPS(self.psi, N))), True
        if k == 'count':
            i = pick(pars)
            o = spec[i]
            n = len(o['p'])
            m = n + [1, -1, 2, -2, n, 3][s // 5 % 6]
            if m < 0 or m == n:
                m = n + 1
            p = t.tensor(gens.fixed_params(m))
            if s % 3 == 0 and n > 1:
                p = gens.fixed_params(m)
            return lambda: cir.gate[i].params_update(p), True
        if k == 'none':
            i = pick(pars)
            return lambda: cir.gate[i].params_update(None), True
        if k in ('layer wires', 'layer count'):
            g = pick(ref.LAYERS[:8]) if N < 3 else pick([x for x in ref.LAYERS if x != 'ring_of_cnot_dagger'])
            w = list(range(N))
            if k == 'layer wires':
                w[s // 11 % N] = [-1, N][s % 2]
            n = ref.n_params(g, w)
            if k == 'layer count':
                if not n:
                    g, n = 'XYZLayer', 3 * N
                n += [1, -1, 3][s // 11 % 3]
            name = 'Hadamard' if g == 'HLayer' else g
            return (lambda: getattr(cir, name)(w, t.tensor(gens.fixed_params(n)))) if n else (lambda: getattr(cir, name)(w)), True
        if k == 'gate count':
            g = pick(('rx', 'ry', 'rz', 'u1', 'u3'))
            n = 3 if g == 'u3' else 1
            return lambda: getattr(cir, g)(t.tensor(gens.fixed_params(n + 1 + s // 5 % 2)), 0), True
        if k == 'add':
            return lambda: cir.add(pick([None, 'rx', 3, object(), t.eye(2)])), True
        if k == 'shift state':
            return lambda: ps(pick([full(1, 2 ** (N + 1)), full(2 ** N, 1) if N else None, full(2, 2 ** N)])).cal_params_grad(), True
        if k == 'shift obs':
            return lambda: ps(self.psi, pick([full(2 ** N, 2 ** N + 1), full(2 ** (N + 1), 2 ** (N + 1))])).cal_params_grad(), True
        if k == 'shift fault':
            return faulty(lambda: ps().cal_params_grad()), arm[1] < 2
        if k.startswith('sweep') and not sweepable:
            return lambda: ps().save_mid_MPS(L.op.PauliZ(N, 0)), True
        if k == 'sweep wire':
            return lambda: ps().save_mid_MPS(L.op.PauliZ(N, pick([-1, N, N + 3]))), True
        if k == 'sweep fault':
            if s % 2:
                return faulty(lambda: ps().save_mid_MPS(L.op.PauliX(N, 0))), arm[1] < 2
            mid = ps().save_mid_MPS(L.op.PauliX(N, 0))[0]
            return faulty(lambda: ps().cal_params_grad2(mid)), False
        if k == 'sweep missing':
            mid = ps().save_mid_MPS(L.op.PauliX(N, 0))[0]
            keys = sorted(mid)
            for key in {keys[s % len(keys)], keys[s // 7 % len(keys)]}:
                mid.pop(key)
            return lambda: ps().cal_params_grad2(mid), False
        if k == 'fault U':
            return faulty(cir.U), arm[1] == 0
        if k == 'fault contract':
            return faulty(lambda: cir.TN_contract_evolution(self.T)), arm[1] == 0 or not self.tn
        if k == 'fault mps':
            return faulty(lambda: cir.TN_evolution(L.tn.StateVec2MPS(self.psi, N))), arm[1] == 0 or not self.tn
        if k == 'fault expect':
            return faulty(lambda: cir.cir_expectation(self.psi, self.obs, TN=s % 2 == 0)), arm[1] == 0
        if k == 'measure':
            return pick([lambda: L.qm.measure(N, self.psi.view(-1, 1), N), lambda: L.qm.measure(N, self.rho, [0, N]), lambda: L.qm.expecval(2 * self.rho, self.obs)]), True
        if k == 'trace':
            lst = [0, N]
            lst0 = list(lst)

            def run():
                try:
                    return pick([lambda: L.qm.partial_trace(self.rho, N, lst), lambda: L.qm.partial_trace_old(self.rho, N, lst), lambda: L.qm.partial_trace(self.rho, N + 1, [0]),
                                 lambda: L.qm.ptrace(self.rho, N, 1)])()
                finally:
                    lib.equal(lst, lst0, 'index list after a rejected partial trace')
            return run, True
        if k in ('mpsexpec', 'inner'):
            m = L.tn.StateVec2MPS(self.psi, N)
            m0 = [x.clone() for x in m]
            other = L.tn.StateVec2MPS(full(1, 2 ** (N + 1)), N + 1)

            def run():
                try:
                    if k == 'inner':
                        return L.tn.MPS_inner_product(m, other[:-1] + other[-1:][:s % 2])
                    return L.tn.MPS_expec(m, [0, N + s % 2] if s % 3 else [N], [lib.tt(ref.Z)] * (2 if s % 3 else 1))
                finally:
                    lib.require(all(t.equal(x, y) for x, y in zip(m, m0)), 'the MPS was changed by a failing call')
            return run, k == 'mpsexpec'
        if k == 'decompose':
            return pick([lambda: L.tn.StateVec2MPS(self.psi, N + 1), lambda: L.tn.Rho2MPS(self.rho, N + 1), lambda: L.tn.MatrixProductState(self.psi, N + 1),
                         lambda: L.tn.MatrixProductDensityOperator(self.rho, N + 1)]), True
        if k == 'legacy':
            q = self.legacy
            x = t.tensor(0.3)
            return pick([lambda: q.rx(N, x), lambda: q.cnot(0, 0), lambda: q.cnot(N, 0), lambda: q.cz(0, N), lambda: q.rzz(0, 0, x), lambda: q.rxx(0, N, x), lambda: q.cnot(-1, 0), lambda: q.Hadamard(N),
                         lambda: q.ryy(N, 0, x), lambda: q.rx(0, [0.3]), lambda: q.ry(N - 1, None), lambda: q.rz(0, t.ones(3)), lambda: q.rz(0, 'x')] +
                        ([lambda: q.rxx(0, 1, t.ones(3)), lambda: q.ryy(1, 0, None), lambda: q.rzz(N - 1, 0, [0.1, 0.2])] if N > 1 else [])), True
        if k == 'encode':
            return pick([lambda: L.em.PauliEncoding(N, t.tensor([0.1]), [0], 'Q').U_expand(), lambda: L.em.PauliEncoding(N, t.ones(N + 1), list(range(N))).U_expand(),
                         lambda: L.em.AmplitudeEncoding(N, t.ones(2 ** N + 1)).encoded_state(), lambda: L.em.PauliEncoding(N, t.tensor([0.1]), [N], 'X').U_expand()]), True
        assert k == 'layer function'
        return pick([lambda: L.qf.XYZLayer(N, t.ones(3 * N + 1)), lambda: L.qf.XZXLayer(N, t.ones(3 * N - 1))]), True


def check(c, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        run_case(c, ctx)


def run_case(c, ctx):
    w = World(c)
    before, mats = w.snap(), w.matrices()
    for n, a in enumerate(c['seq']):
        what = f'after failing call {n + 1} ({a["k"]}, {a["s"]})'
        run, must = w.call(a['k'], a['s'])
        lib.equal({k for k, x in w.snap().items() if x != before[k]}, set(), f'before failing call {n + 1} ({a["k"]}): changed')
        try:
            run()
            failed = False
        except lib.Violation:
            raise
        except (Interrupt, Exception):
            failed = True
        ctx.label(('failed:' if failed else 'completed:') + a['k'])
        lib.require(failed or not must, f'failing call {n + 1} ({a["k"]}, {a["s"]}) was accepted')
        after = w.snap()
        for k in before:
            if after[k] != before[k]:
                raise lib.Violation(f'{what}: {k}: {str(after[k])[:160]} instead of {str(before[k])[:160]}')
        for i, (x, y) in enumerate(zip(w.matrices(), mats)):
            lib.require((x is None) == (y is None), f'{what}: matrix of operation {i} appeared or vanished')
            if x is not None:
                lib.close(ctx, x, y, 1e-5, f'{what}: matrix of operation {i}')
        w.evaluate(ctx, a['look'], what)
    for k in LOOKS[1:]:
        w.evaluate(ctx, k, 'at the end')
    lib.close(ctx, w.legacy.U(), w.lref, TOL, 'at the end: legacy unitary')
    if c['grad']:
        t = lib.torch
        f = w.cir.U() @ w.psi.view(-1, 1)
        (f.conj().view(1, -1) @ w.obs @ f).real.squeeze().backward()
        want = ref.gradient(ref.round_ops(w.ops), w.v, w.M, w.N)
        got = [p.grad for p in w.leaves if p is not None]
        lib.require(all(g is not None for g in got), 'at the end: a parameter got no gradient')
        lib.close(ctx, t.cat([g.reshape(-1) for g in got]), want, 3 * TOL, 'at the end: gradient')
