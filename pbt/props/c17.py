"""Density matrix -> MPDO -> density matrix."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C17'
RULE = ('random density matrices (pure, mixed of every rank, maximally mixed, diagonal, product) for N up to 4 (thorough 5), contiguous or transposed, plus '
        'wrong shapes; non-trivial: N >= 2 and not maximally mixed')
ASSUMPTIONS = ['singular values below 1e-8 may be dropped by design; tolerance 1e-5']
EXAMPLES = {'quick': 720, 'thorough': 1500}
TOL = 1e-5
BADS = ('flat', 'rect', 'rect2', 'wide', 'tall', 'small', 'big', 'rank3', 'plus', 'tensor')


def fixed(tier):
    for N in (1, 2, 3, 4):
        for eps in (0.0, 1e-4, 1e-3, 1e-2):
            yield {'N': N, 'rho': {'k': 'nearreal', 's': N, 'eps': eps}, 'T': False}
        yield {'N': N, 'rho': {'k': 'pure', 'state': {'k': 'weak', 's': N, 'eps': 1e-3}}, 'T': False}
    for N in (1, 2, 3, 4, 5):
        for b in BADS:
            yield {'N': N, 'rho': {'k': 'mixed', 's': N, 'rank': 2}, 'T': False, 'bad': b}
    for N in (5, 6):
        for s in ({'k': 'mixed', 's': 3, 'rank': 2 ** N}, {'k': 'mixed', 's': 4, 'rank': 3}):
            for T in (False, True):
                yield {'N': N, 'rho': s, 'T': T}


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 4 if tier == 'quick' else 5))
    c = {'N': N, 'rho': draw(gens.density(N)), 'T': draw(st.booleans()), 'dt': draw(st.sampled_from([None, None, None, 'complex128']))}
    if draw(st.integers(0, 4)) == 0:
        c['bad'] = draw(st.sampled_from(BADS))
    return c


def nontrivial(c):
    return c['N'] >= 2 and c['rho']['k'] != 'max'


def labels(c):
    return ['rho:' + c['rho']['k']] + (['bad:' + c['bad']] if 'bad' in c else []) + (['transposed'] if c['T'] else [])


def check(c, ctx):
    N = c['N']
    D = 2 ** N
    rho = ref.density(c['rho'], N)
    t = lib.tt(rho.T).T if c['T'] else lib.tt(rho)
    t = t.to(getattr(lib.torch, c['dt'])) if c.get('dt') else t
    mps = L.tn.Rho2MPS(t, N)
    lib.require(isinstance(mps, (list, tuple)), 'MPDO is no list')
    lib.equal(len(mps), N, 'number of tensors')
    left = 1
    for i, a in enumerate(mps):
        lib.require(a.dim() == 4 and a.shape[0] == 2 and a.shape[1] == 2, f'tensor {i} has shape {tuple(a.shape)}')
        lib.equal(a.shape[2], left, f'left bond of tensor {i}')
        left = a.shape[3]
        lib.require(left <= 4 ** min(i + 1, N - 1 - i), f'bond {left} after tensor {i}')
    lib.close_vec(ctx, L.tn.MPS2Rho(mps), rho, 2 * TOL, 'round trip')
    lib.close(ctx, L.tn.MPS2Rho(L.tn.Rho2MPS(t, N)), rho, TOL, 'second round trip')
    lib.close(ctx, L.tn.MatrixProductDensityOperator(t, N), rho.reshape([2] * (2 * N)), 1e-7, 'rank-2N tensor')
    lib.require(lib.torch.equal(t, lib.tt(rho).to(t.dtype)), 'the density matrix was modified')
    if 'bad' in c:
        b = {'flat': lambda: lib.tt(rho).view(-1), 'rect': lambda: lib.tt(rho[:, :D // 2]), 'small': lambda: lib.tt(rho[:D // 2, :D // 2]),
             'big': lambda: lib.tt(np.kron(rho, np.eye(2) / 2)), 'rank3': lambda: lib.tt(rho).view(1, D, D),
             'rect2': lambda: lib.tt(rho[:D // 2]), 'wide': lambda: lib.tt(np.hstack([rho, rho])), 'tall': lambda: lib.tt(np.vstack([rho, rho])),
             'plus': lambda: lib.tt(np.pad(rho, 1)), 'tensor': lambda: lib.tt(rho).view([2] * (2 * N)) if N > 1 else lib.tt(rho)[None]}[c['bad']]()
        lib.raises(lambda: L.tn.Rho2MPS(b, N), f'Rho2MPS of shape {tuple(b.shape)} for N={N}')
        lib.raises(lambda: L.tn.MatrixProductDensityOperator(b, N), f'MatrixProductDensityOperator of shape {tuple(b.shape)} for N={N}')
