"""Evaluations leave their inputs alone, repeat, and do not interfere."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C16'
RULE = ('a pool of two circuits that share wire lists and parameter tensors, a state, a density matrix, an MPS, observables, index lists and data; a history of 3..14 '
        '(thorough 3..24) evaluations, conversions, encodings, gradients and updates of twins, then the same history backwards; every handed-in object is compared bit for '
        'bit after each action and every result with its first occurrence; non-trivial: at least three different actions')
ASSUMPTIONS = ['the list given to the MPS evolution is consumed (its entries are replaced) as the library documents; the tensors in it are not to be modified']
EXAMPLES = {'quick': 180, 'thorough': 700}
TOL = 1e-5

CIR = ['U', 'Urev', 'mps', 'contract', 'batch', 'expec', 'expec_dense', 'grad', 'grad2', 'dagger', 'info', 'expand', 'twin', 'twin', 'tncheck', 'init', 'rebuild']
POOL = ['measure_psi', 'measure_rho', 'expval', 'partial_trace', 'partial_trace_old', 'ptrace', 'sv2mps', 'mps2sv', 'inner', 'mps_expec', 'rho2mps', 'mpdo',
        'mprod', 'helpers', 'amplitude', 'gram', 'pauli', 'prepare', 'legacy', 'functional', 'reject']


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 4))
    tn = draw(st.booleans())
    only = gens.TN_KINDS if tn else None
    c = {'N': N, 'A': draw(gens.ops(N, 1, 5, only=only)), 'B': draw(gens.ops(N, 0, 4, only=only)), 'share': draw(st.booleans()), 'grad': draw(st.integers(0, 3)) == 0,
         'state': draw(gens.state(N)), 'bra': draw(gens.state(N)), 'rho': draw(gens.density(N)), 'M': draw(gens.hermitian(N)), 'pauli': draw(st.sampled_from('XYZ')),
         'wire': draw(st.integers(0, N - 1)), 'out': draw(gens.distinct_wires(N, draw(st.integers(0, N)))), 'lay': draw(st.booleans()), 's': draw(gens.seeds)}
    n = draw(st.integers(3, 14 if tier == 'quick' else 24))
    c['acts'] = [draw(st.one_of(st.tuples(st.sampled_from(CIR), st.integers(0, 1)), st.tuples(st.sampled_from(POOL), st.just(0)))) for _ in range(n)]
    return c


def nontrivial(c):
    return len({a[0] for a in c['acts']}) >= 3


def labels(c):
    return sorted({'act:' + a[0] for a in c['acts']}) + (['trainable'] if c['grad'] else [])


class World:
    def __init__(self, c, ctx):
        self.c, self.ctx, self.N = c, ctx, c['N']
        N, t = self.N, lib.torch
        r = np.random.default_rng(c['s'])
        psi, bra, rho, M = ref.state(c['state'], N), ref.state(c['bra'], N), ref.density(c['rho'], N), ref.hermitian(c['M'], N)
        self.psi_np, self.bra_np, self.rho_np, self.M_np = psi, bra, rho, M
        self.objs = {}
        self.psi = self.keep('state', lib.tt(psi).view(1, -1))
        self.flat = self.keep('state vector', lib.tt(psi))
        T = lib.tt(psi).view([2] * N)
        B = lib.tt(np.stack([psi, bra, 1j * psi])).view([3] + [2] * N)
        if c['lay']:
            T, B = lib.strided(T, list(range(N))[::-1]), lib.strided(B, list(range(N + 1))[::-1])
        self.T, self.B = self.keep('rank-N state', T), self.keep('batch', B)
        self.rho = self.keep('density matrix', lib.tt(rho))
        self.M = self.keep('observable', lib.tt(M))
        self.P = self.keep('single-qubit observable', lib.tt(ref.PAULI[c['pauli']]))
        self.Z = self.keep('second observable', lib.tt(ref.Z))
        self.mps = self.keep('MPS', L.tn.StateVec2MPS(lib.tt(psi).view(1, -1), N))
        self.mps2 = self.keep('bra MPS', L.tn.StateVec2MPS(lib.tt(bra).view(1, -1), N))
        self.rmps = self.keep('density MPS', L.tn.Rho2MPS(lib.tt(rho), N))
        self.out = self.keep('index list', list(c['out']))
        self.wl = self.keep('wire list', [c['wire']] + [i for i in range(N) if i != c['wire']][:1])
        self.obs = self.keep('observable list', [self.P, self.Z][:len(self.wl)])
        self.data = self.keep('data', t.tensor(r.normal(size=N), dtype=t.float32))
        self.row = self.keep('data row', t.tensor(r.normal(size=(1, 4)), dtype=t.float32))
        z = np.random.default_rng([c['s'], 7])
        self.grams = [self.keep(f'data matrix {k}', t.tensor(s * z.normal(size=(m, n)), dtype=t.float32)) for k, (m, n, s) in enumerate(((1, 3, 20.0), (3, 4, 9.0), (int(z.integers(1, 6)), int(z.integers(2, 9)), 1.0)))]
        self.vecs = [self.keep(f'data vector {k}', t.tensor(s * z.normal(size=m), dtype=t.float32)) for k, (m, s) in enumerate(((2 ** N, 1.0), (2 ** N, 30.0), (int(z.integers(1, 2 ** N + 1)), 0.1)))]
        self.vecs.append(self.keep('complex data vector', lib.tt(z.normal(size=2 ** N) + 1j * z.normal(size=2 ** N))))
        self.many = self.keep('measured qubits', [int(x) for x in z.integers(0, N, size=int(z.integers(N, 2 * N + 3)))])
        self.off = self.keep('density matrix of trace 1.00005', lib.tt(rho * 1.00005))
        self.amps = self.keep('amplitude list', [float(x) for x in r.normal(size=2 ** N)])
        self.lparams = self.keep('layer parameters', t.tensor(r.normal(size=6 * N), dtype=t.float32))
        shared = {}
        self.cirs, self.specs, self.args = [], [], []
        for name in 'AB':
            cir, args = L.Circuit(N), []
            for k, o in enumerate(c[name]):
                w = lib.wires_arg(o)
                if isinstance(w, list):
                    w = self.keep(f'wires of {name}{k}', shared.setdefault(('w', tuple(w)), w) if c['share'] else w)
                par = None
                if o.get('p'):
                    par = lib.param_arg(o, grad=c['grad'])
                    key = ('p', tuple(o['p']), isinstance(par, t.Tensor), getattr(par, 'ndim', None))
                    par = self.keep(f'parameters of {name}{k}', shared.setdefault(key, par) if c['share'] else par)
                cir.add(lib.build(o, N, par, w))
                args.append((par, w))
            self.cirs.append(cir)
            self.specs.append(c[name])
            self.args.append(args)
        self.want = [ref.unitary(ref.round_ops(s), N) for s in self.specs]
        self.frozen = [[self.opstate(g) for g in cir.gate] for cir in self.cirs]
        self.books = [self.book(cir) for cir in self.cirs]
        self.first = {}

    # ------------------------------------------------ snapshots
    def snap(self, o):
        if isinstance(o, lib.torch.Tensor):
            return ('t', o.detach().clone(), o.dtype, tuple(o.shape), tuple(o.stride()), o.requires_grad)
        if isinstance(o, (list, tuple)):
            return ('l', type(o), [(x, self.snap(x)) for x in o])
        return ('v', o)

    def same(self, o, s):
        if s[0] == 't':
            return (isinstance(o, lib.torch.Tensor) and o.dtype == s[2] and tuple(o.shape) == s[3] and tuple(o.stride()) == s[4] and o.requires_grad == s[5]
                    and lib.torch.equal(o.detach(), s[1]) and (not o.is_leaf or o.grad is None))
        if s[0] == 'l':
            return type(o) is s[1] and len(o) == len(s[2]) and all((x is y or not isinstance(y, lib.torch.Tensor)) and self.same(x, z) for x, (y, z) in zip(o, s[2]))
        return type(o) is type(s[1]) and o == s[1]

    def keep(self, name, o):
        self.objs[name] = (o, self.snap(o))
        return o

    def opstate(self, g):
        p = getattr(g, 'params', None)
        m = getattr(g, 'matrix', None)
        return (None if p is None else lib.np_of(p, 'params').copy(), None if m is None else lib.np_of(m, 'matrix').copy(),
                list(g.wires) if isinstance(g.wires, (list, tuple)) else g.wires, g.num_params, g.nqubits, g.supportTN)

    def book(self, cir):
        return (cir.nqubits, cir.cir_num_params, [id(g) for g in cir.gate], sorted(cir.cir_params),
                {k: None if v is None else lib.np_of(v, 'cir_params').copy() for k, v in cir.cir_params.items()})

    def unchanged(self, what):
        for name, (o, s) in self.objs.items():
            if not self.same(o, s):
                raise lib.Violation(f'{what}: modified the {name}')
        for i, cir in enumerate(self.cirs):
            b, c = self.book(cir), self.books[i]
            if b[:4] != c[:4] or any((x is None) != (y is None) or (x is not None and not np.array_equal(x, y)) for x, y in ((b[4][k], c[4][k]) for k in c[4])):
                raise lib.Violation(f'{what}: changed the bookkeeping of circuit {"AB"[i]}')
            for k, g in enumerate(cir.gate):
                now, then = self.opstate(g), self.frozen[i][k]
                for x, y, n in zip(now, then, ('parameters', 'matrix', 'wires', 'num_params', 'nqubits', 'supportTN')):
                    if isinstance(y, np.ndarray):       # an evaluation may set and restore parameters, up to rounding
                        ok = x is not None and x.shape == y.shape and np.abs(x - y).max(initial=0) <= 1.5e-5 * max(1.0, np.abs(y).max(initial=0))
                    else:
                        ok = x == y
                    if not ok:
                        raise lib.Violation(f'{what}: changed the {n} of operation {k} ({g.label}) of circuit {"AB"[i]}')

    # ------------------------------------------------ actions
    def act(self, name, i):
        """Runs one action; returns arrays to be compared with its earlier occurrences."""
        N, c, cir, spec, ctx = self.N, self.c, self.cirs[i], self.specs[i], self.ctx
        tn_ok = lib.all_tn(spec)
        t = lib.torch
        n = lambda x, what=name: lib.np_of(x, what).copy()
        fin = lambda: ref.evolve([], self.want[i] @ self.psi_np, N)
        if name == 'U':
            U = cir.U()
            lib.close(ctx, U, self.want[i], 5e-5, f'unitary of circuit {"AB"[i]}')
            r = n(U)
            U.detach().mul_(0)           # the returned matrix belongs to the caller
            return [r]
        if name == 'Urev':
            return [n(cir.U(left_to_right=False))]
        if name == 'mps':
            if not tn_ok:
                return []
            return [n(L.tn.MPS2StateVec(cir.TN_evolution(list(self.mps)))).reshape(-1)]
        if name == 'contract':
            return [n(cir.TN_contract_evolution(self.T))] if tn_ok else []
        if name == 'batch':
            return [n(cir.TN_contract_evolution(self.B, batch_mod=True))] if tn_ok else []
        if name in ('expec', 'expec_dense'):
            e = n(cir.cir_expectation(self.psi, self.M, TN=name == 'expec'))
            f = fin()
            lib.close(ctx, e, np.float64(np.vdot(f, self.M_np @ f).real), 5e-5, f'{name} of circuit {"AB"[i]}')
            return [e]
        if name == 'grad':
            return [n(L.parameter_shift(cir, self.psi, self.M).cal_params_grad())]
        if name == 'grad2':
            if not tn_ok or c['grad'] or not spec:
                return []
            M_oper = lib.ctor('Pauli' + c['pauli'])(N, c['wire'])
            ps = L.parameter_shift(cir, self.psi, None)
            save, sv = ps.save_mid_MPS(M_oper)
            a = n(ps.cal_params_grad2(save))
            b = n(ps.cal_params_grad2(save))
            lib.require(np.abs(a - b).max(initial=0) < TOL, 'the sweep gradient differs when taken again from the same sweep')
            return [a, n(sv).reshape(-1)]
        if name == 'dagger':
            out = []
            for o, g in zip(spec, cir.gate):
                if o['g'] not in ref.NO_DAGGER:
                    d = g.operation_dagger()
                    out.append(n(d.U_expand()))
                    if o.get('p') and d is not g:
                        d.params_update(t.tensor([0.25] * len(o['p'])) if g.params.ndim else t.tensor(0.25))
            return out
        if name == 'info':
            out = []
            for g in cir.gate:
                d = g.info()
                out.append((d['label'], list(d['contral_lst']), list(d['target_lst'])))
            return [repr(out)]
        if name == 'expand':
            out = []
            for g in cir.gate:
                U = g.U_expand()
                out.append(n(U))
            return out
        if name == 'twin':      # operations made from the very same arguments, then updated and evaluated
            out = []
            for o, g, (par, w) in zip(spec, cir.gate, self.args[i]):
                h = lib.build(o, N, par, w)
                out.append(n(h.U_expand()))
                if o.get('p'):
                    k = len(o['p'])
                    h.params_update(t.tensor([1.25] * k) if h.params.ndim else t.tensor(1.25))
                    out.append(n(h.U_expand()))
                if o['g'] not in ref.NO_TN:
                    out.append(n(h.TN_contract(self.T)))
            return out
        if name == 'tncheck':
            return [repr(bool(cir.TN_check()))]
        if name == 'init':
            s = cir.state_init()
            r = n(s)
            s.mul_(0)
            return [r]
        if name == 'rebuild':   # a second circuit with the same operation objects, cleared afterwards
            d = L.Circuit(N)
            for g in cir.gate:
                d.add(g)
            r = n(d.U())
            d.clear()
            return [r]
        if name == 'measure_psi':
            return [n(L.qm.measure(N, self.flat)), n(L.qm.measure(N, self.flat, self.wl)), n(L.qm.measure(N, self.psi, c['wire'])), n(L.qm.measure(N, self.flat, self.many))]
        if name == 'measure_rho':
            return [n(L.qm.measure(N, self.rho)), n(L.qm.measure(N, self.rho, self.wl)), n(L.qm.measure(N, self.rho, c['wire'])), n(L.qm.measure(N, self.rho, self.many)), n(L.qm.measure(N, self.off))]
        if name == 'expval':
            return [n(L.qm.expval(self.flat, self.M)), n(L.qm.expval(self.rho, self.M, rho=True)), n(L.qm.expval(self.off, self.M, rho=True))]
        if name in ('partial_trace', 'partial_trace_old'):
            return [n(getattr(L.qm, name)(self.rho, N, self.out)), n(getattr(L.qm, name)(self.off, N, self.out))]
        if name == 'ptrace':
            return [n(L.qm.ptrace(self.rho, N - 1, 1))]
        if name == 'sv2mps':
            return [n(L.tn.MPS2StateVec(L.tn.StateVec2MPS(self.psi, N)))]
        if name == 'mps2sv':
            return [n(L.tn.MPS2StateVec(self.mps)), n(L.tn.MPS2StateVec(self.mps, return_sv=False))]
        if name == 'inner':
            return [n(L.tn.MPS_inner_product(self.mps, self.mps2)), n(L.tn.MPS_inner_product(self.mps, self.mps))]
        if name == 'mps_expec':
            return [n(L.tn.MPS_expec(self.mps, self.wl, self.obs))]
        if name == 'rho2mps':
            return [n(L.tn.MPS2Rho(L.tn.Rho2MPS(self.rho, N))), n(L.tn.MPS2Rho(self.rmps))]
        if name == 'mpdo':
            return [n(L.tn.MatrixProductDensityOperator(self.rho, N))]
        if name == 'mprod':
            return [n(L.tn.MatrixProductState(self.psi, N))]
        if name == 'helpers':
            return [n(L.qm.dag(self.rho)), n(L.qm.multi_kron(self.obs)), repr([bool(L.qm.IsUnitary(self.P)), bool(L.qm.IsHermitian(self.rho)), bool(L.qm.IsNormalized(self.flat))])]
        if name == 'amplitude':
            e = L.em.AmplitudeEncoding(N, self.data)
            return [n(e.encoded_state()), n(e.encoded_state())] + [n(L.em.AmplitudeEncoding(N, x).encoded_state()) for x in self.vecs]
        if name == 'gram':
            return [n(L.em.gram_encoding(x)) for x in [self.row] + self.grams]
        if name == 'pauli':
            e = L.em.PauliEncoding(N, self.data, self.wl, c['pauli'])
            return [n(e.U_expand()), n(e.TN_contract(self.T)), n(e.TN_contract(self.B, batch_mod=True)),
                    n(L.tn.MPS2StateVec(e.TN_operation(list(self.mps)))), n(e.U_expand())]
        if name == 'prepare':
            return [n(L.qs.PrepareState(self.amps)), n(L.qs.PrepareRho(self.amps))]
        if name == 'legacy':
            q = L.qg.Circuit(N)
            q.rx(c['wire'], 0.5)
            q.Hadamard(N - 1)
            if N > 1:
                q.cnot(0, N - 1)
            with contextlib.redirect_stdout(io.StringIO()):
                m = q.measure(self.rho, N)
            return [n(q.U()), n(q.U()), n(m)]
        if name == 'functional':
            out = [n(L.qf.XYZLayer(N, self.lparams[:3 * N]))]
            if N > 1:
                out.append(n(L.qf.strong_entangle_layer(N, self.lparams)))
                for f in ('ring_of_cnot', 'ring_of_cnot2', 'ring_of_cz', 'nearest_neighbor_cnot', 'nearest_neighbor_cz', 'all2all_cnot'):
                    for down in (True, False):
                        U = getattr(L.qf, f)(N, down)
                        out.append(n(U))
                        U.mul_(0)        # the returned matrix belongs to the caller
            return out
        if name == 'reject':    # a rejected call leaves everything as it was, too
            lib.raises(lambda: cir.cir_expectation(self.psi[:, :1], self.M), 'expectation of a state of one amplitude')
            lib.raises(lambda: L.qm.partial_trace(self.rho, N, [N]), 'partial trace over qubit N')
            lib.raises(lambda: L.tn.StateVec2MPS(self.psi, N + 1), 'MPS of N+1 qubits')
            return []
        raise KeyError(name)

    def step(self, name, i, when):
        what = f'{name}{" of circuit " + "AB"[i] if name in CIR else ""} ({when})'
        out = self.act(name, i)
        self.unchanged(what)
        key = (name, i)
        old = self.first.setdefault(key, out)
        lib.equal(len(out), len(old), f'{what}: number of results')
        for a, b in zip(out, old):
            if isinstance(a, str):
                lib.equal(a, b, what + ': repeated')
            else:
                lib.close(self.ctx, a, b, TOL * max(1.0, float(np.abs(b).max(initial=0))), what + ': repeated')


def check(c, ctx):
    w = World(c, ctx)
    w.unchanged('building')
    for k, (name, i) in enumerate(c['acts']):
        w.step(name, i, f'action {k + 1}')
    for k, (name, i) in enumerate(reversed(c['acts'])):
        w.step(name, i, f'action {k + 1} of the way back')
    # updating one circuit does not change the other
    for i in (0, 1):
        other = 1 - i
        for o, g in zip(w.specs[i], w.cirs[i].gate):
            if o.get('p'):
                g.params_update(lib.torch.tensor([0.75] * len(o['p'])) if g.params.ndim else lib.torch.tensor(0.75))
        lib.close(ctx, w.cirs[i].U(), ref.unitary([dict(o, p=[0.75] * len(o['p'])) if o.get('p') else o for o in w.specs[i]], w.N), 5e-5, f'circuit {"AB"[i]} after its update')
        if i == 0:
            lib.close(ctx, w.cirs[1].U(), w.want[1], 5e-5, 'circuit B after the update of circuit A')
    for name, (o, s) in w.objs.items():
        lib.require(w.same(o, s), f'updating the circuits modified the {name}')
