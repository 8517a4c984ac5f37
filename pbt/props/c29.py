"""Re-splitting merged two- and three-qubit blocks of an MPS."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
from lib import L

ID = 'C29'
RULE = ('random merged blocks of two or three qubits with outer bonds 1..9 (thorough 1..16): Gaussian, real, product, low rank, nearly low rank (a part of weight 1e-1 to 1e-4), sparse, '
        'orthonormal (degenerate singular values), entries near underflow, scaled from 1e-3 to 1e3, contiguous or permuted in memory, plus blocks inside a chain of random tensors; non-trivial: an outer bond above 1')
ASSUMPTIONS = ['singular values below 1e-8 may be dropped by design; deviations are measured relative to the norm of the block']
EXAMPLES = {'quick': 800, 'thorough': 3000}
TOL = 1e-5
SHAPES = ('rand', 'real', 'prod', 'low', 'near', 'sparse', 'iso', 'one', 'tiny')


@st.composite
def strategy(draw, tier):
    hi = 9 if tier == 'quick' else 16
    b = st.one_of(st.integers(1, 4), st.integers(1, hi))
    return {'q': draw(st.sampled_from([2, 3])), 'l': draw(b), 'r': draw(b), 'kind': draw(st.sampled_from(SHAPES)), 's': draw(gens.seeds),
            'eps': draw(st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4])), 'scale': draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 0.1, 30.0, 1e3])),
            'order': list(draw(st.permutations(range(5)))) if draw(st.booleans()) else None}


def fixed(tier):
    for q in (2, 3):
        for l in range(1, 6):
            for r in range(1, 6):
                for kind in SHAPES:
                    yield {'q': q, 'l': l, 'r': r, 'kind': kind, 's': 10 * l + r, 'eps': 1e-3, 'scale': 1.0, 'order': None}
    for q, l, r in ((2, 12, 16), (2, 17, 17), (2, 33, 20), (2, 40, 64), (2, 1, 64), (3, 16, 16), (3, 20, 33), (3, 40, 1), (3, 32, 32)):
        for kind in ('rand', 'near', 'low', 'iso'):
            yield {'q': q, 'l': l, 'r': r, 'kind': kind, 's': l + r, 'eps': 1e-3, 'scale': 1.0, 'order': None}


def nontrivial(c):
    return c['l'] > 1 or c['r'] > 1


def labels(c):
    return ['qubits:%d' % c['q'], 'kind:' + c['kind']]


def block(c):
    q, l, r = c['q'], c['l'], c['r']
    g = np.random.default_rng(c['s'])
    n = lambda *s: g.normal(size=s) + 1j * g.normal(size=s)
    shape = (2,) * q + (l, r)
    k = c['kind']

    def chain(d):
        """A block made of q tensors with inner bonds d."""
        dims = [l] + [d] * (q - 1) + [r]
        a = n(2, dims[0], dims[1])
        out = a
        for i in range(1, q):
            b = n(2, dims[i], dims[i + 1])
            out = np.einsum('...ab,sbc->...sac', out, b)
        return out
    if k == 'rand':
        T = n(*shape)
    elif k == 'real':
        T = g.normal(size=shape) + 0j
    elif k == 'prod':
        T = chain(1)
    elif k == 'low':
        T = chain(2)
    elif k == 'near':
        T = chain(1)
        e = n(*shape)
        T = T / np.linalg.norm(T) + c['eps'] * e / np.linalg.norm(e)
    elif k == 'sparse':
        T = np.zeros(shape, dtype=complex)
        for _ in range(3):
            T[tuple(g.integers(0, s) for s in shape)] = complex(n(1)[0])
    elif k == 'iso':            # equal singular values across the first cut
        m = n(2 * l, 2 ** (q - 1) * r)
        u, _, v = np.linalg.svd(m, full_matrices=False)
        T = np.moveaxis((u @ v).reshape((2, l) + (2,) * (q - 1) + (r,)), 1, -2)
    elif k == 'tiny':           # most entries near or below the smallest normal number
        T = n(*shape) * 10.0 ** g.choice([-25, -33, -38, -42])
        T[(0,) * (q + 2)] = 1
        T[(0,) * (q + 1) + (r - 1,)] = 1j
    else:
        T = np.zeros(shape, dtype=complex)
        T[(1,) * q + (l - 1, r - 1)] = 1
    T = T / np.linalg.norm(T) * c['scale']
    return T.astype(np.complex64).astype(complex)


def check(c, ctx):
    q, l, r = c['q'], c['l'], c['r']
    T = block(c)
    f = L.tn.TensorDecompAfterTwoQbitGate if q == 2 else L.tn.TensorDecompAfterThreeQbitGate
    t = lib.tt(T)
    if c['order']:
        t = lib.strided(t, [i for i in c['order'] if i < q + 2])
    keep = t.clone()
    size = float(np.linalg.norm(T))
    for when in ('', ', split again'):
        out = f(t)
        lib.require(isinstance(out, (tuple, list)) and len(out) == q, f'{len(out)} tensors instead of {q}')
        a = [lib.np_of(x, f'tensor {i}').astype(complex) for i, x in enumerate(out)]
        left = l
        for i, x in enumerate(a):
            lib.require(x.ndim == 3 and x.shape[0] == 2 and x.shape[1] == left, f'tensor {i} has shape {x.shape}, its left bond should be {left}')
            left = x.shape[2]
            if i < q - 1:
                lim = min(l * 2 ** (i + 1), r * 2 ** (q - 1 - i))
                lib.require(1 <= left <= lim, f'bond {left} after tensor {i} exceeds {lim}')
        lib.equal(left, r, 'right bond')
        P = a[0]
        for x in a[1:]:
            P = np.einsum('...ab,sbc->...sac', P, x)
        lib.close(ctx, P, T, TOL * size + 3e-7, f'product of the {q} tensors{when}')
        lib.require(lib.torch.equal(t, keep), 'the block was modified')
    # in the middle of a chain: the state vector is the same with the block split
    g = np.random.default_rng(c['s'] + 1)
    n = lambda *s: g.normal(size=s) + 1j * g.normal(size=s)
    A, Z = n(2, 1, l), n(2, r, 1)
    A, Z = A / np.linalg.norm(A), Z / np.linalg.norm(Z)
    want = np.einsum('iab,...bc,jcd->i...jad', A, T, Z).reshape(1, -1)
    got = L.tn.MPS2StateVec([lib.tt(A)] + list(f(t)) + [lib.tt(Z)])
    lib.close(ctx, got, want, TOL * size + 3e-7, 'state vector of a chain with the split block')
    if q == 3:
        lib.raises(lambda: f(t[0]), 'a rank-4 block handed to the three-qubit split')
