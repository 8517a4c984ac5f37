"""Amplitude encoding, Gram encoding and state preparation."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
from lib import L

ID = 'C21'
RULE = ('random non-zero real or complex data of any length that fits (and one that does not), magnitudes over six decades, with zeros, in single or double precision or integers; non-trivial: at least two non-zero entries')
ASSUMPTIONS = ['float32 library; tolerance 1e-5 relative to the norm']
EXAMPLES = {'quick': 900, 'thorough': 2500}
TOL = 1e-5


def fixed(tier):
    import numpy
    for N in (5, 6, 7, 8):
        for n in (2 ** N, 2 ** N - 1, 2 ** (N - 1) + 1, 2 ** (N - 1), 3):
            for cplx in (False, True):
                r = numpy.random.default_rng(n)
                yield {'N': N, 'x': [[gens.rnd3(float(a)), gens.rnd3(float(b)) if cplx else 0.0] for a, b in r.normal(size=(n, 2))], 'cplx': cplx, 'scale': 1.0, 'unit': False, 'over': 1}
    for N in (1, 2, 3, 4):
        for n in range(1, 2 ** N + 1):
            v = [gens.FIXED[i % 15] * (0.0 if (i * n) % 5 == 2 else 1.0) for i in range(n)]
            for x in ([[a, 0.0] for a in v], [[0.0, a] for a in v], [[-abs(a) - 0.01, 0.0] for a in v], [[1.0, 0.0]] * n, [[1e-3 * a, 0.0] for a in v[:-1]] + [[2.0, 0.0]]):
                yield {'N': N, 'x': x, 'cplx': x[0][1] != 0, 'scale': 1.0, 'unit': n % 2 == 1, 'over': 1}


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 5 if tier == 'quick' else 7))
    n = draw(st.integers(1, 2 ** N))
    vals = st.one_of(st.floats(-5, 5).map(gens.rnd3), st.sampled_from([0.0, 1.0, -1.0, 0.5]), st.floats(-1e-2, 1e-2).map(gens.rnd3))
    cplx = draw(st.booleans())
    x = [[draw(vals), draw(vals) if cplx else 0.0] for _ in range(n)]
    if cplx and draw(st.integers(0, 4)) == 0:        # purely imaginary, or one common phase
        ph = draw(st.sampled_from([(0.0, 1.0), (0.6, 0.8), (0.0, -1.0)]))
        x = [[gens.rnd3(a * ph[0]), gens.rnd3(a * ph[1])] for a, _ in x]
    if max(abs(a) + abs(b) for a, b in x) < 1e-3:
        x[draw(st.integers(0, n - 1))][0] = 1.0
    return {'N': N, 'x': x, 'cplx': cplx, 'scale': draw(st.sampled_from([1.0, 1.0, 100.0, 0.01])), 'unit': draw(st.booleans()), 'over': draw(st.integers(1, 3)),
            'dt': draw(st.sampled_from([None, None, 'double', 'int']))}


def nontrivial(c):
    return sum(a != 0 or b != 0 for a, b in c['x']) >= 2


def labels(c):
    return ['complex' if c['cplx'] else 'real', 'full' if len(c['x']) == 2 ** c['N'] else 'padded']


def check(c, ctx):
    N = c['N']
    a = np.array([complex(*p) for p in c['x']]) * c['scale']
    if not c['cplx']:
        a = a.real
    if c['unit']:
        a = a / np.linalg.norm(a)
    dt = c.get('dt')
    if dt == 'int' and not c['cplx'] and np.abs(np.rint(a)).max() >= 1:     # integer data, as in the documented PrepareState([0, 1])
        a = np.rint(a).astype(np.int64)
    elif dt == 'double':
        a = a.astype(complex if c['cplx'] else float)
    else:
        a = a.astype(np.complex64 if c['cplx'] else np.float32)
    wide = a.astype(complex)
    t = lib.torch.tensor(a)
    enc = L.em.AmplitudeEncoding(N, t)
    e0 = np.eye(2 ** N, dtype=complex)[0]
    lib.close(ctx, enc.state0, e0, 0.0, 'state0')
    lib.close(ctx, enc.rho0, np.outer(e0, e0), 0.0, 'rho0')
    want = np.zeros(2 ** N, dtype=complex)
    want[:len(a)] = wide / np.linalg.norm(wide)
    for _ in range(2):
        s = enc.encoded_state()
        lib.close(ctx, s, want, TOL, 'amplitude encoding')
    lib.require(s.is_complex(), 'the encoded state is not complex')
    lib.require(np.array_equal(t.numpy(), a), 'the data was modified')
    big = lib.torch.ones(2 ** N + c['over'])
    lib.raises(lambda: L.em.AmplitudeEncoding(N, big).encoded_state(), f'{len(big)} amplitudes on {N} qubits')
    # Gram encoding of one row
    if a.dtype == np.int64:
        t, a = t.float(), a.astype(np.float32)
    g = lib.np_of(L.em.gram_encoding(t.view(1, -1)), 'gram_encoding', (len(a), len(a))).astype(complex)
    lib.require(np.all(np.isfinite(g)), 'gram_encoding is not finite')
    lib.require(np.abs(g - g.conj().T).max() < TOL, 'gram_encoding is not Hermitian')
    lib.require(abs(np.trace(g) - 1) < TOL, f'gram_encoding has trace {np.trace(g)}')
    lib.require(np.linalg.eigvalsh((g + g.conj().T) / 2).min() > -TOL, 'gram_encoding is not positive')
    p = np.abs(wide) ** 2
    lib.close(ctx, np.diag(g).real.copy(), p / p.sum(), TOL, 'diagonal of gram_encoding')
    lib.require(np.array_equal(t.numpy(), a), 'gram_encoding modified its data')
    # state preparation
    lst = [complex(z) for z in wide] if c['cplx'] else [int(z) if dt == 'int' and z == int(z) else float(z) for z in wide.real]
    st_ = L.qs.PrepareState(list(lst))
    sc = max(1.0, float(np.abs(wide).max()))
    lib.require(st_.is_complex(), 'PrepareState is not complex')
    lib.close(ctx, st_, wide, 1e-6 * sc, 'PrepareState')
    lib.close(ctx, L.qs.PrepareRho(list(lst)), np.outer(wide, wide.conj()), 2e-6 * sc * sc, 'PrepareRho')
