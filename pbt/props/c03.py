"""State vector -> MPS -> state vector."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C03'
RULE = ('random states (Gaussian, sparse, GHZ, product, nearly product, integer amplitudes, scaled) for N up to 12 (thorough 14), contiguous '
        'or strided, plus wrong shapes; non-trivial: N >= 2 and not a basis state')
ASSUMPTIONS = ['singular values below 1e-8 may be dropped by design; deviations are measured relative to the norm']
EXAMPLES = {'quick': 720, 'thorough': 1500}
TOL = 3e-6


def fixed(tier):
    for N in range(1, 5):
        for i in range(2 ** N):
            yield {'N': N, 'state': {'k': 'basis', 'i': i}}
    for N in range(1, 9 if tier == 'quick' else 11):
        for eps in (1e-1, 1e-2, 1e-3, 3e-4, 1e-4, 5e-5, 2e-5):
            yield {'N': N, 'state': {'k': 'weak', 's': N, 'eps': eps}}
        yield {'N': N, 'state': {'k': 'rand', 's': N}}
        for dt in ('complex128', 'float32', 'float64'):
            yield {'N': N, 'state': {'k': 'rand', 's': N + 1}, 'dt': dt}
    for N in (9, 10, 11, 12) if tier == 'quick' else (11, 12, 13, 14):
        for st_ in ({'k': 'rand', 's': N}, {'k': 'weak', 's': N, 'eps': 1e-2}, {'k': 'ghz'}):
            yield {'N': N, 'state': st_}


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 8 if tier == 'quick' else 10))
    c = {'N': N, 'state': draw(gens.state(N, scaled='wide')), 'layout': draw(st.sampled_from(['c', 'c', 'col', 'slice'])), 'dt': draw(st.sampled_from([None, None, None, 'complex128', 'float32', 'float64']))}
    if draw(st.integers(0, 4)) == 0:
        c['bad'] = draw(st.sampled_from(['flat', 'col', 'short', 'long', 'two', 'rank3']))
    return c


def nontrivial(c):
    return c['N'] >= 2 and c['state']['k'] != 'basis'


def labels(c):
    return ['state:' + c['state']['k'], 'N:%d' % c['N']] + (['bad:' + c['bad']] if 'bad' in c else []) + (['dtype:' + c['dt']] if c.get('dt') else [])


def check(c, ctx):
    N = c['N']
    v = ref.state(c['state'], N)
    if (c.get('dt') or 'c')[0] == 'f':      # real vectors
        v = v.real + v.imag
    D = 2 ** N
    tol = (TOL + 6e-7 * N) * float(np.linalg.norm(v)) + 3e-7      # dropped singular values are below 1e-8
    t = lib.tt(v).view(1, -1)
    lay = c.get('layout', 'c')
    if lay == 'col':        # a row that is the transpose of a column
        t = lib.tt(np.stack([v, v], 1)).T[:1]
    elif lay == 'slice':
        t = lib.tt(np.stack([v * 0, v, v * 2]))[1:2]
    if c.get('dt'):
        t = (t if c['dt'][0] == 'c' else t.real).to(getattr(lib.torch, c['dt']))
    mps = L.tn.StateVec2MPS(t, N)
    lib.check_mps(mps, N, 'MPS')
    for i, a in enumerate(mps[:-1]):
        m = lib.np_of(a, 'MPS tensor').astype(complex).reshape(-1, a.shape[2])
        lib.close(ctx, m.conj().T @ m, np.eye(m.shape[1]), 2e-5, f'tensor {i} is isometric')
    if c['state']['k'] == 'basis':
        lib.require(all(a.shape[1] == 1 and a.shape[2] == 1 for a in mps), 'a basis state has a bond above 1')
    lib.close_vec(ctx, L.tn.MPS2StateVec(mps), v.reshape(1, -1), tol, 'round trip as a row')
    lib.close_vec(ctx, L.tn.MPS2StateVec(mps, return_sv=True), v.reshape(1, -1), tol, 'round trip as a row')
    lib.close_vec(ctx, L.tn.MPS2StateVec(mps, return_sv=False), v.reshape([2] * N), tol, 'round trip as a tensor')
    lib.close_vec(ctx, L.tn.MPS2StateVec(L.tn.StateVec2MPS(t, N)), v.reshape(1, -1), tol, 'second round trip')
    lib.close(ctx, L.tn.MatrixProductState(t, N), v.reshape([2] * N), 1e-6 * np.abs(v).max(), 'rank-N tensor of the vector')
    if 'bad' in c:
        b = {'flat': lambda: lib.tt(v), 'col': lambda: lib.tt(v).view(-1, 1), 'short': lambda: lib.tt(v[:D // 2]).view(1, -1),
             'long': lambda: lib.tt(np.concatenate([v, v])).view(1, -1), 'two': lambda: lib.tt(np.stack([v, v])),
             'rank3': lambda: lib.tt(v).view(1, 1, -1)}[c['bad']]()
        lib.raises(lambda: L.tn.StateVec2MPS(b, N), f'StateVec2MPS of shape {tuple(b.shape)} for N={N}')
        lib.raises(lambda: L.tn.MatrixProductState(b, N), f'MatrixProductState of shape {tuple(b.shape)} for N={N}')
