"""Partial traces against an index contraction."""
import itertools

import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C18'
RULE = ('every subset of qubits of N <= 4 in sorted and reversed order, then random density matrices for N up to 5 (thorough 6), random lists in any order, traced at '
        'once and in steps, plus wrong sizes, traces and indices; non-trivial: a proper non-empty subset of a state that is not maximally mixed')
ASSUMPTIONS = ['float32 library; tolerance 1e-5']
EXAMPLES = {'quick': 720, 'thorough': 2000}
TOL = 1e-5
BADS = ('trace0', 'trace-1', 'trace0.5', 'trace0.99', 'trace0.999', 'trace1.001', 'trace1.01', 'trace2', 'trace1j', 'size+', 'size-', 'high', 'high2', 'neg', 'neg2')


def fixed(tier):
    for N in range(1, 5):
        for k in range(N + 1):
            for out in itertools.combinations(range(N), k):
                for l in ([list(out)] if k < 2 else [list(out), list(out)[::-1]]):
                    yield {'N': N, 'rho': {'k': 'mixed', 's': 3 * N + k, 'rank': 2}, 'out': l}
        for b in BADS:
            for l in {(0,), (N - 1,), tuple(range(N)), ()}:
                yield {'N': N, 'rho': {'k': 'mixed', 's': N, 'rank': 2}, 'out': list(l), 'bad': b}
    for N in (5, 6, 7):
        for l in ([0], [N - 1], [N - 1, 0], [2, 0, 4], [1, 3, 4, 0], list(range(N - 1)), list(range(N))[::-1]):
            yield {'N': N, 'rho': {'k': 'mixed', 's': N, 'rank': 3}, 'out': l}


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 5 if tier == 'quick' else 6))
    c = {'N': N, 'rho': draw(gens.density(N)), 'out': draw(gens.distinct_wires(N, draw(st.integers(0, N))))}
    if draw(st.integers(0, 4)) == 0:
        c['tr'] = draw(st.sampled_from([-5e-5, 5e-5, 3e-5]))     # a trace that is 1 only within the accepted tolerance
    if draw(st.integers(0, 3)) == 0:
        c['dt'] = draw(st.sampled_from(['complex128', 'float32']))
    if c['out']:
        c['split'] = draw(st.integers(0, len(c['out'])))
    if draw(st.integers(0, 3)) == 0:
        c['bad'] = draw(st.sampled_from(BADS))
    return c


def nontrivial(c):
    return 0 < len(c['out']) < c['N'] and c['rho']['k'] != 'max'


def labels(c):
    return ['traced:%d' % len(c['out']), 'rho:' + c['rho']['k']] + (['bad:' + c['bad']] if 'bad' in c else [])


def check(c, ctx):
    N, out = c['N'], c['out']
    rho = ref.density(c['rho'], N)
    rho = rho * (1 + c.get('tr', 0))
    t = lib.tt(rho)
    want = ref.ptrace(rho, N, out)
    fns = (('partial_trace', L.qm.partial_trace), ('partial_trace_old', L.qm.partial_trace_old))
    if c.get('dt'):         # real or double-precision matrices
        x = (t if c['dt'][0] == 'c' else t.real).to(getattr(lib.torch, c['dt']))
        for name, f in fns if c['dt'] == 'float32' else fns[:1]:
            lib.close(ctx, f(x, N, list(out)), ref.ptrace(rho if c['dt'][0] == 'c' else rho.real + 0j, N, out), TOL, f'{name} over {out} of a {c["dt"]} matrix')
    for name, f in fns:
        arg = list(out)
        got = f(t, N, arg)
        lib.close(ctx, got, want, TOL, f'{name} over {out}')
        lib.equal(arg, out, f'{name}: index list afterwards')
        lib.close(ctx, f(t, N, tuple(out)), want, TOL, f'{name} over the tuple {out}')
        g = lib.np_of(got, name).astype(complex)
        lib.require(abs(np.trace(g) - np.trace(rho)) < 1e-5 and np.abs(g - g.conj().T).max() < TOL, f'{name}: trace or Hermiticity lost')
        lib.require(np.linalg.eigvalsh((g + g.conj().T) / 2).min() > -1e-5, f'{name}: positivity lost')
        if 'split' in c:        # trace some first, then the rest with their indices shifted
            a, b = out[:c['split']], out[c['split']:]
            b2 = [i - sum(j < i for j in a) for i in b]
            lib.close(ctx, f(f(t, N, list(a)), N - len(a), b2), want, 2 * TOL, f'{name} in two steps {a} then {b}')
    lib.require(lib.torch.equal(t, lib.tt(rho)), 'the density matrix was modified')
    for k in range(N + 1):
        lib.close(ctx, L.qm.ptrace(t, k, N - k), ref.ptrace(rho, N, list(range(k, N))), TOL, f'ptrace keeping the first {k} qubits')
    if c['rho']['k'] == 'prod' and 'tr' not in c and 0 < len(out) < N:
        keep = [i for i in range(N) if i not in out]
        fac = [ref.ptrace(rho, N, [j for j in range(N) if j != i]) for i in keep]
        lib.close(ctx, L.qm.partial_trace(t, N, list(out)), ref.kron(fac), TOL, 'factors of a product state')
    if 'bad' in c:
        b = c['bad']
        for name, f in fns:
            if b.startswith('trace'):
                lib.raises(lambda: f(t * complex(b[5:]), N, list(out)), f'{name}: trace {b[5:]}')
            elif b == 'size+':
                lib.raises(lambda: f(lib.tt(np.kron(rho, np.eye(2) / 2)), N, list(out)), f'{name}: matrix of N+1 qubits')
            elif b == 'size-':
                lib.raises(lambda: f(t, N + 1, list(out)), f'{name}: matrix of N-1 qubits')
            elif b == 'high':
                lib.raises(lambda: f(t, N, list(out)[:N - 1] + [N]), f'{name}: index N')
            elif b == 'high2':
                lib.raises(lambda: f(t, N, [2 * N] + list(out)[:1]), f'{name}: index 2N')
            elif b == 'neg2':
                lib.raises(lambda: f(t, N, [-N] + list(out)[:1]), f'{name}: index -N')
            elif b == 'neg':
                lib.raises(lambda: f(t, N, [-1]), f'{name}: index -1')
