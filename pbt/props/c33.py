"""No hidden global state: concurrent use and process-wide settings."""
import contextlib
import io
import random
import sys
import threading

import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from core import Violation
from lib import L

ID = 'C33'
RULE = ('2..4 independent jobs (a circuit with updates, evaluated densely, by contraction, batched, as MPS, by parameter shift, autograd, a legacy circuit, a layer function, '
        'reductions, a convolution), first alone, then (a) in threads with a very short switch interval and (b) interleaved step by step in a drawn order; one circuit shared read-only by all '
        'threads; random-number state, default type, gradient mode and thread count are compared before and after; non-trivial: at least two jobs of two or more operations')
ASSUMPTIONS = ['jobs change only their own objects; the shared circuit is only evaluated', 'tolerance 1e-4']
EXAMPLES = {'quick': 32, 'thorough': 300}
TOL = 1e-4
STEPS = ('U', 'contract', 'batch', 'mps', 'shift', 'auto', 'reduce', 'legacy', 'layer', 'update', 'expect', 'encode', 'conv', 'helpers', 'helpers', 'orders', 'owned')


@st.composite
def strategy(draw, tier):
    jobs = []
    for _ in range(draw(st.integers(2, 4))):
        N = draw(st.sampled_from([1, 2, 3, 3, 4, 5]))
        ops = draw(gens.ops(N, 1, 4, only=gens.TN_KINDS))
        ops.insert(draw(st.integers(0, len(ops))), draw(gens.op(N, only=[k for k in gens.PARAM_KINDS if k in gens.TN_KINDS])))
        jobs.append({'N': N, 'ops': ops, 'state': draw(gens.state(N)), 's': draw(gens.seeds), 'steps': [draw(st.sampled_from(STEPS)) for _ in range(draw(st.integers(2, 5)))]})
    n = draw(st.sampled_from([2, 3]))
    return {'jobs': jobs, 'N': n, 'shared': draw(gens.ops(n, 1, 4, only=gens.TN_KINDS)), 'state': draw(gens.state(n)), 'order': draw(st.lists(st.integers(0, len(jobs) - 1), min_size=4, max_size=20)),
            'mode': draw(st.sampled_from(['threads', 'threads', 'interleaved']))}


def fixed(tier):
    for i, k in enumerate(STEPS):
        for mode in ('threads', 'interleaved'):
            jobs = []
            for j in range(3):
                N = 2 + (i + j) % 2
                jobs.append({'N': N, 'ops': [{'g': 'YZYLayer', 'w': list(range(N)), 'p': gens.fixed_params(3 * N, j)}, {'g': 'rxx', 'w': [N - 1, 0], 'p': [0.3 + j]}, {'g': 'ring_of_cnot', 'w': list(range(N))}],
                             'state': {'k': 'rand', 's': j}, 's': 7 * j, 'steps': [k, 'update', k]})
            yield {'jobs': jobs, 'N': 3, 'shared': [{'g': 'u3', 'w': [1], 'p': [0.4, 0.2, 0.9]}, {'g': 'toffoli', 'w': [2, 1, 0]}, {'g': 'cphase', 'w': [0, 2], 'p': [1.1]}],
                   'state': {'k': 'rand', 's': 9}, 'order': [0, 1, 2, 1, 0, 2, 2, 1, 0], 'mode': mode}


def nontrivial(c):
    return sum(len(j['ops']) >= 2 for j in c['jobs']) >= 2


def labels(c):
    return ['mode:' + c['mode']] + sorted({'step:' + s for j in c['jobs'] for s in j['steps']})


class Job:
    """One independent user of the library; step() runs the next evaluation and checks it."""

    def __init__(self, j):
        self.j, self.N = j, j['N']
        self.ops = [dict(o) for o in j['ops']]
        self.v = ref.state(j['state'], self.N)
        self.M = ref.local(self.N, {j['s'] % self.N: ref.Z})
        self.cir = lib.circuit(self.ops, self.N)
        self.r = np.random.default_rng(j['s'])
        self.at = 0

    def done(self):
        return self.at >= len(self.j['steps'])

    def step(self, ctx, tag):
        k = self.j['steps'][self.at]
        self.at += 1
        getattr(self, k)(ctx, f'{k} ({tag})')

    @property
    def want(self):
        return ref.unitary(ref.round_ops(self.ops), self.N)

    def U(self, ctx, w):
        lib.equal(sorted(self.cir.cir_params), list(range(len(self.ops))), w + ': positions with parameters')
        lib.equal(self.cir.cir_num_params, sum(len(o.get('p') or []) for o in self.ops), w + ': number of parameters')
        for i, o in enumerate(self.ops):
            p = self.cir.cir_params[i]
            lib.equal(None if p is None else int(p.numel()), len(o['p']) if o.get('p') else None, w + f': parameters recorded for operation {i}')
        lib.close(ctx, self.cir.U(), self.want, TOL, w)

    def contract(self, ctx, w):
        lib.close(ctx, self.cir.TN_contract_evolution(lib.tt(self.v).view([2] * self.N)), (self.want @ self.v).reshape([2] * self.N), TOL, w)

    def batch(self, ctx, w):
        b = np.stack([self.v, self.v[::-1], -1j * self.v])
        lib.close(ctx, self.cir.TN_contract_evolution(lib.tt(b).view([3] + [2] * self.N), batch_mod=True), (b @ self.want.T).reshape([3] + [2] * self.N), TOL, w)

    def mps(self, ctx, w):
        m = self.cir.TN_evolution(L.tn.StateVec2MPS(lib.tt(self.v).view(1, -1), self.N))
        lib.close(ctx, L.tn.MPS2StateVec(m), (self.want @ self.v).reshape(1, -1), TOL, w)
        f = self.want @ self.v
        lib.close(ctx, L.tn.MPS_expec(m, [self.N - 1], [lib.tt(ref.Z)]), np.float64(ref.zexp(f, self.N, self.N - 1)), TOL, w, shape=())
        lib.close(ctx, L.tn.MPS_inner_product(m, m), np.complex128(np.vdot(f, f)), TOL, w, shape=())

    def shift(self, ctx, w):
        g = L.parameter_shift(self.cir, lib.tt(self.v).view(1, -1), lib.tt(self.M)).cal_params_grad()
        lib.close(ctx, g, ref.gradient(ref.round_ops(self.ops), self.v, self.M, self.N), 2 * TOL, w)

    def auto(self, ctx, w):
        t = lib.torch
        leaves = [lib.param_arg(o, grad=True) if o.get('p') else None for o in self.ops]
        cir = lib.circuit(self.ops, self.N, pars=leaves)
        psi = cir.TN_contract_evolution(lib.tt(self.v).view([2] * self.N)).reshape(-1)
        (psi.conj() @ lib.tt(self.M) @ psi).real.backward()
        g = t.cat([p.grad.reshape(-1) for p in leaves if p is not None])
        lib.close(ctx, g, ref.gradient(ref.round_ops(self.ops), self.v, self.M, self.N), 2 * TOL, w)

    def reduce(self, ctx, w):
        rho = np.outer(self.v, self.v.conj())
        out = [self.N - 1] if self.N > 1 else []
        for f in (L.qm.partial_trace, L.qm.partial_trace_old):
            lib.close(ctx, f(lib.tt(rho), self.N, list(out)), ref.ptrace(rho, self.N, out), TOL, w)
        z = L.qm.measure(self.N, lib.tt(self.v).view(-1, 1))
        lib.close(ctx, z.reshape(-1), np.array([ref.zexp(self.v, self.N, i) for i in range(self.N)]), TOL, w)

    def orders(self, ctx, w):
        """The same reductions with other lists, orders and sizes one after another."""
        N, v = self.N, self.v
        z = [ref.zexp(v, N, i) for i in range(N)]
        a = list(range(N))
        for ith in (a, a[::-1], a[1:] + a[:1], None, [a[-1], a[0]], 0, N - 1, a[::-1] + a):
            want = z if ith is None else [z[ith]] if isinstance(ith, int) else [z[i] for i in ith]
            for s in (lib.tt(v).view(-1, 1), lib.tt(np.outer(v, v.conj()))):
                lib.close(ctx, L.qm.measure(N, s, ith).reshape(-1), np.array(want), TOL, f'{w}: measure of {ith}')
        for n in sorted({min(N, 4), max(1, min(N, 4) - 1)}):
            r = v[:2 ** n] if np.linalg.norm(v[:2 ** n]) > 0.1 else np.ones(2 ** n)
            r = r / np.linalg.norm(r)
            rho = np.outer(r, r.conj())
            for out in ([], [0], [n - 1], [n - 1, 0], [0, n - 1], list(range(1, n))):
                if len(set(out)) == len(out):
                    for f in (L.qm.partial_trace, L.qm.partial_trace_old):
                        lib.close(ctx, f(lib.tt(rho), n, list(out)), ref.ptrace(rho, n, out), TOL, f'{w}: {f.__name__} of {out} of {n} qubits')
            for m in range(n):
                lib.close(ctx, L.qm.ptrace(lib.tt(rho), n - m, m), ref.ptrace(rho, n, list(range(n - m, n))), TOL, f'{w}: ptrace of the last {m} of {n} qubits')

    def owned(self, ctx, w):
        """A result belongs to the caller: writing to it changes no later result."""
        t, N = lib.torch, self.N
        p = self.r.normal(size=max(2, 3 * N)).astype(np.float32)
        T = lambda k: t.tensor(p[:k])
        v, rho = self.v, np.outer(self.v, self.v.conj())
        cir = lib.circuit(self.ops, N)
        lay = lambda g, k: ref.unitary([{'g': g, 'w': list(range(N)), 'p': p[:k].tolist()}] if k else [{'g': g, 'w': list(range(N))}], N)
        calls = [('XYZLayer', lambda: L.qf.XYZLayer(N, T(3 * N)), lay('XYZLayer', 3 * N)),
                 ('measure', lambda: L.qm.measure(N, lib.tt(v).view(-1, 1)), np.array([[ref.zexp(v, N, i)] for i in range(N)])),
                 ('partial_trace', lambda: L.qm.partial_trace(lib.tt(rho), N, [0] if N > 1 else []), ref.ptrace(rho, N, [0] if N > 1 else [])),
                 ('dag', lambda: L.qm.dag(lib.tt(rho)), rho.conj().T),
                 ('state_init', cir.state_init, np.eye(2 ** N)[0]),
                 ('contraction', lambda: cir.TN_contract_evolution(lib.tt(v).view([2] * N)), (self.want @ v).reshape([2] * N)),
                 ('empty U', lambda: L.Circuit(N).U(), np.eye(2 ** N)),
                 ] + ([] if N > 2 else [
                 ('parameter shift', lambda: L.parameter_shift(cir, lib.tt(v).view(1, -1), lib.tt(self.M)).cal_params_grad(), ref.gradient(ref.round_ops(self.ops), v, self.M, N))])
        if N > 1:
            calls += [('ring_of_cnot', lambda: L.qf.ring_of_cnot(N), lay('ring_of_cnot', 0)),
                      ('ring_of_cnot2', lambda: L.qf.ring_of_cnot2(N), lay('ring_of_cnot2', 0))]
        if N > 2:       # results too large to be an operation's own matrix
            calls += [('U', lambda: lib.circuit(self.ops, N).U(), self.want),
                      ('PauliX', lambda: L.op.PauliX(N, 0).U_expand(), ref.local(N, {0: ref.X})),
                      ('Hadamard', lambda: L.op.Hadamard(N, N - 1).U_expand(), ref.local(N, {N - 1: ref.H})),
                      ('cnot', lambda: L.op.cnot(N, [0, N - 1]).U_expand(), ref.unitary([{'g': 'cnot', 'w': [0, N - 1]}], N))]
        for name, f, want in calls:
            for when in ('', ', after the previous result was overwritten'):
                got = f()
                lib.close(ctx, got.reshape(np.shape(want)) if got.numel() == np.size(want) else got, want, 2 * TOL, f'{w}: {name}{when}')
                with t.no_grad():
                    got.detach().fill_(0.25)
        self.U(ctx, w)

    def legacy(self, ctx, w):
        q = L.qg.Circuit(self.N)
        ops = []
        for i in range(self.N):
            a = float(np.float32(self.r.normal()))
            q.ry(i, lib.torch.tensor(a))
            ops.append({'g': 'ry', 'w': [i], 'p': [a]})
            if i:
                q.cnot(i, i - 1)
                ops.append({'g': 'cnot', 'w': [i, i - 1]})
        lib.close(ctx, q.U(), ref.unitary(ops, self.N), TOL, w)
        lib.equal(len(q.gate_list), len(ops), w + ': recorded gates')

    def layer(self, ctx, w):
        p = self.r.normal(size=3 * self.N).astype(np.float32)
        lib.close(ctx, L.qf.XYZLayer(self.N, lib.torch.tensor(p)), ref.unitary([{'g': 'XYZLayer', 'w': list(range(self.N)), 'p': p.tolist()}], self.N), TOL, w)

    def update(self, ctx, w):
        for i, o in enumerate(self.ops):
            if o.get('p'):
                p = [float(np.float32(x)) for x in self.r.normal(size=len(o['p']))]
                self.ops[i] = dict(o, p=p, f='tensor')
                self.cir.gate[i].params_update(lib.param_arg(self.ops[i]))
        self.U(ctx, w)

    def expect(self, ctx, w):
        f = self.want @ self.v
        for tn in (True, False):
            lib.close(ctx, self.cir.cir_expectation(lib.tt(self.v).view(1, -1), lib.tt(self.M), TN=tn), np.float64(np.vdot(f, self.M @ f).real), TOL, w, shape=())

    def encode(self, ctx, w):
        x = self.r.normal(size=self.N).astype(np.float32)
        enc = L.em.PauliEncoding(self.N, lib.torch.tensor(x), list(range(self.N))[::-1], 'X')
        lib.close(ctx, enc.U_expand(), ref.local(self.N, {q: ref.rot('X', float(x[i])) for i, q in enumerate(range(self.N - 1, -1, -1))}), TOL, w)
        a = self.r.normal(size=2 ** self.N).astype(np.float32)
        lib.close(ctx, L.em.AmplitudeEncoding(self.N, lib.torch.tensor(a)).encoded_state().reshape(-1), a / np.linalg.norm(a.astype(float)), TOL, w)
        rho = np.outer(a, a).astype(complex)
        lib.close(ctx, L.qs.PrepareRho(a.tolist()), rho, TOL * max(1, np.abs(rho).max()), w)
        g = L.em.gram_encoding(lib.torch.tensor(a).view(1, -1))
        lib.close(ctx, g.diag(), np.diag(rho) / np.trace(rho), TOL, w)

    def helpers(self, ctx, w):
        t, N = lib.torch, self.N
        lib.equal(self.cir.state_init().tolist(), [1] + [0] * (2 ** N - 1), w + ': initial state')
        lib.equal(L.Circuit(N).state_init().tolist(), [1] + [0] * (2 ** N - 1), w + ': initial state of an empty circuit')
        self.cir.draw()
        lib.equal(bool(self.cir.TN_check()), True, w)
        for g in self.cir.gate:
            g.info()
            g.operation_dagger()
        self.cir.U(left_to_right=False)
        rho = np.outer(self.v, self.v.conj())
        lib.close(ctx, L.tn.MPS2Rho(L.tn.Rho2MPS(lib.tt(rho), N)), rho, TOL, w)
        lib.close(ctx, L.tn.MatrixProductDensityOperator(lib.tt(rho), N), rho.reshape([2] * 2 * N), TOL, w)
        lib.close(ctx, L.tn.MatrixProductState(lib.tt(self.v).view(1, -1), N), self.v.reshape([2] * N), TOL, w)
        lib.close(ctx, L.qm.dag(lib.tt(rho)), rho.conj().T, TOL, w)
        lib.equal([bool(L.qm.IsHermitian(lib.tt(self.M))), bool(L.qm.IsUnitary(lib.tt(self.M)))], [True, True], w)
        q = L.qg.Circuit(N)
        z = q.measure(lib.tt(rho), N)
        lib.close(ctx, t.as_tensor([float(x) for x in z.reshape(-1)]), np.array([ref.zexp(self.v, N, i) for i in range(N)]), TOL, w)
        c2 = lib.circuit(self.ops, N)
        c2.clear()
        lib.close(ctx, c2.U(), np.eye(2 ** N), TOL, w)

    def conv(self, ctx, w):
        from deepquantum.nn.modules.quanv import QuanConv2D
        from props import c24
        img = self.r.random((1, 1, 2, 3)).astype(np.float32)
        wt = self.r.uniform(0, 7, 12).astype(np.float32)
        net = QuanConv2D(4, 1, 2)
        with lib.torch.no_grad():
            net.weight.copy_(lib.torch.tensor(wt))
        lib.close(ctx, net(lib.torch.tensor(img)), c24.forward(img[:, 0].astype(float), wt.astype(float) * 2 ** 0.5 * 5 ** -0.5, 2, 1)[0], TOL, w)


def settings():
    t = lib.torch
    return {'default dtype': t.get_default_dtype(), 'gradient mode': t.is_grad_enabled(), 'inference mode': t.is_inference_mode_enabled(), 'threads': t.get_num_threads(),
            'deterministic': t.are_deterministic_algorithms_enabled(), 'anomaly mode': t.is_anomaly_enabled(), 'print options': repr(t._tensor_str.PRINT_OPTS), 'numpy errors': repr(np.geterr()),
            'recursion limit': sys.getrecursionlimit()}


def check(c, ctx):
    with contextlib.redirect_stdout(io.StringIO()):      # the legacy measurement prints
        run_case(c, ctx)


def run_case(c, ctx):
    t = lib.torch
    draws = any('conv' in j['steps'] for j in c['jobs'])       # weights are initialised at random by design
    before = settings()
    rng = t.get_rng_state().clone(), random.getstate(), repr(np.random.get_state())
    n, v = c['N'], ref.state(c['state'], c['N'])
    shared = lib.circuit(c['shared'], n)
    S = ref.unitary(ref.round_ops(c['shared']), n)

    def use_shared(ctx, tag):
        lib.close(ctx, shared.U(), S, TOL, f'shared circuit: unitary ({tag})')
        lib.close(ctx, shared.TN_contract_evolution(lib.tt(v).view([2] * n)), (S @ v).reshape([2] * n), TOL, f'shared circuit: contraction ({tag})')
        lib.close(ctx, L.tn.MPS2StateVec(shared.TN_evolution(L.tn.StateVec2MPS(lib.tt(v).view(1, -1), n))), (S @ v).reshape(1, -1), TOL, f'shared circuit: MPS ({tag})')
    for j in c['jobs']:
        job = Job(j)
        while not job.done():
            k, state = job.j['steps'][job.at], t.get_rng_state().clone()
            job.step(ctx, 'alone')
            if k != 'conv':
                lib.require(t.equal(t.get_rng_state(), state), f'{k} consumed or reset torch random numbers')
    use_shared(ctx, 'alone')
    with t.no_grad():
        for j in c['jobs']:
            job = Job(dict(j, steps=[k for k in j['steps'] if k != 'auto']))
            while not job.done():
                job.step(ctx, 'gradients disabled')
                lib.require(not t.is_grad_enabled(), f'{job.j["steps"][job.at - 1]} switched gradients back on inside no_grad()')
    if c['mode'] == 'interleaved':
        jobs = [Job(j) for j in c['jobs']]
        for i in c['order'] + [i for i in range(len(jobs)) for _ in range(9)]:
            if not jobs[i].done():
                jobs[i].step(ctx, f'job {i}, interleaved')
                use_shared(ctx, f'interleaved, after job {i}')
    else:
        errors = []
        start = threading.Barrier(len(c['jobs']))

        def run(i, j):
            try:
                start.wait()
                for _ in range(2):
                    job = Job(j)
                    while not job.done():
                        job.step(ctx, f'thread {i}')
                        use_shared(ctx, f'thread {i}')
            except Exception as e:
                errors.append((i, e))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=run, args=(i, j), daemon=True) for i, j in enumerate(c['jobs'])]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
        finally:
            sys.setswitchinterval(old)
        if errors:
            i, e = errors[0]
            if isinstance(e, Violation):
                raise e
            raise Violation(f'thread {i} raised {type(e).__name__}: {e}')
    after = settings()
    for k in before:
        lib.equal(after[k], before[k], f'process-wide setting "{k}" after use')
    if not draws:
        lib.require(t.equal(t.get_rng_state(), rng[0]), 'the library consumed or reset torch random numbers')
    lib.require(random.getstate() == rng[1] and repr(np.random.get_state()) == rng[2], 'the library consumed or reset Python or numpy random numbers')
