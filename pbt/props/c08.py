"""measure and expval against the reference."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C08'
RULE = ('random pure states (row, column or flat) and density matrices, index selections (none, an integer, lists in any order with repeats), '
        'Hermitian observables, and traces different from 1; non-trivial: not a basis state and N >= 2')
ASSUMPTIONS = ['float32 library; tolerance 1e-5 for observables of norm about 1']
EXAMPLES = {'quick': 900, 'thorough': 2500}
TOL = 1e-5
TRACES = (0.0, 0.5, 0.99, 0.999, 1.001, 1.01, 2.0, -1.0)


def fixed(tier):
    for N in range(1, 5):
        for i in [None] + list(range(N)):
            for k in ('rand', 'basis', 'weak'):
                yield {'N': N, 'rho': False, 'state': {'k': k, 's': 5, 'i': 2 ** N - 2, 'eps': 0.1}, 'ith': i, 'M': {'k': 'rand', 's': 1}, 'shape': 'row'}
            yield {'N': N, 'rho': True, 'state': {'k': 'mixed', 's': 4, 'rank': 2}, 'ith': i, 'M': {'k': 'rand', 's': 1}}
        for M in ({'k': 'pauli', 's': 'Z' * N, 'scale': 3.0}, {'k': 'pauli', 's': 'Z' * N, 'scale': -2.0}, {'k': 'nearid', 's': 1, 'eps': 0.05, 'scale': 10.0}, {'k': 'neardiag', 's': 1, 'eps': 0.05}):
            yield {'N': N, 'rho': False, 'state': {'k': 'basis', 'i': 0}, 'ith': None, 'M': M, 'shape': 'row'}
            yield {'N': N, 'rho': True, 'state': {'k': 'mixed', 's': 4, 'rank': 2}, 'ith': None, 'M': M}
        for tr in TRACES:
            yield {'N': N, 'rho': True, 'state': {'k': 'mixed', 's': 4, 'rank': 2}, 'ith': N - 1, 'M': {'k': 'rand', 's': 1}, 'trace': tr}
    for N in (6, 7, 8, 9):
        for i in (None, 0, N - 1, [N - 1, 0, N // 2], list(range(N))[::-1]):
            yield {'N': N, 'rho': False, 'state': {'k': 'rand', 's': 5}, 'ith': i, 'M': {'k': 'rand', 's': 1}, 'shape': 'row'}
            if N < 8:
                yield {'N': N, 'rho': True, 'state': {'k': 'mixed', 's': 4, 'rank': 3}, 'ith': i, 'M': {'k': 'rand', 's': 1}}


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 5 if tier == 'quick' else 7))
    rho = draw(st.booleans())
    c = {'N': N, 'rho': rho, 'state': draw(gens.density(N) if rho else gens.state(N)),
         'ith': draw(st.one_of(st.none(), st.integers(0, N - 1), st.lists(st.integers(0, N - 1), min_size=1, max_size=5))),
         'M': draw(gens.hermitian(N, True))}
    if not rho:
        c['shape'] = draw(st.sampled_from(['flat', 'row', 'col']))
    elif draw(st.integers(0, 3)) == 0:
        c['trace'] = draw(st.sampled_from(TRACES))
    return c


def nontrivial(c):
    return c['N'] >= 2 and c['state']['k'] not in ('basis', 'max')


def labels(c):
    return ['rho' if c['rho'] else 'pure', 'ith:' + type(c['ith']).__name__]


def check(c, ctx):
    N = c['N']
    M = ref.hermitian(c['M'], N)
    sel = list(range(N)) if c['ith'] is None else [c['ith']] if isinstance(c['ith'], int) else c['ith']
    if c['rho']:
        rho = ref.density(c['state'], N)
        s = lib.tt(rho)
        diag = np.real(np.diag(rho))
        val = np.trace(rho @ M).real
    else:
        v = ref.state(c['state'], N)
        s = lib.tt(v)
        s = {'flat': s, 'row': s.view(1, -1), 'col': s.view(-1, 1)}[c['shape']]
        diag = np.abs(v) ** 2
        val = np.vdot(v, M @ v).real
    idx = np.arange(2 ** N)
    z = np.array([(diag * (1 - 2 * ((idx >> (N - 1 - i)) & 1))).sum() for i in sel])
    got = L.qm.measure(N, s) if c['ith'] is None else L.qm.measure(N, s, c['ith'])
    lib.require(not got.is_complex(), 'measure returned complex values')
    lib.close(ctx, got, z, TOL, f'measure(ith={c["ith"]})')
    if not c['rho']:
        lib.close(ctx, L.qm.measure(N, lib.tt(np.outer(v, v.conj())), c['ith']), z, TOL, 'measure of the density matrix of the state')
    e = L.qm.expval(s, lib.tt(M), rho=True) if c['rho'] else L.qm.expval(s, lib.tt(M))
    lib.require(not e.is_complex(), 'expval returned a complex value')
    lib.close(ctx, e, np.float64(val), TOL * max(1.0, abs(c['M'].get('scale', 1.0))), 'expval', shape=())
    for i in (-1, N, -N, N + 1, [0, -1], [N], [N - 1, N, 0], [-N]):
        lib.raises(lambda: L.qm.measure(N, s, i), f'measure of qubit {i} of {N}')
    if 'trace' in c:
        bad = s * c['trace']
        lib.raises(lambda: L.qm.expval(bad, lib.tt(M), rho=True), f'expval of a density matrix with trace {c["trace"]}')
        if N >= 1:
            lib.raises(lambda: L.qm.measure(N, bad, c['ith']), f'measure of a density matrix with trace {c["trace"]}')
