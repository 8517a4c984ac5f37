"""Matrix helpers and predicates."""
import numpy as np
from hypothesis import strategies as st

import lib
import ref
from lib import L

ID = 'C19'
RULE = ('matrices and vectors of dimension 1..16, real or complex, double or single precision, contiguous or strided: exactly unitary / Hermitian / normalised ones, the same with one localised '
        'violation (entry, row scale, phase, pair of rows) of size 6e-5..1, random shapes for the conjugate transpose and the Kronecker product; non-trivial: dimension >= 2')
ASSUMPTIONS = ['predicates: true at rounding accuracy (1e-12 in double precision, 4e-7 in single precision), false for violations above 4e-5; in between nothing is required']
EXAMPLES = {'quick': 900, 'thorough': 2500}
KINDS = ('dag', 'kron', 'unitary', 'hermitian', 'normalized', 'shape')


@st.composite
def strategy(draw, tier):
    k = draw(st.sampled_from(KINDS))
    c = {'k': k, 's': draw(st.integers(0, 10 ** 6)), 'real': draw(st.booleans())}
    if k == 'dag':
        c['shape'] = [draw(st.integers(1, 6)), draw(st.integers(1, 6))]
    elif k == 'kron':
        c['shapes'] = draw(st.lists(st.lists(st.integers(1, 3), min_size=2, max_size=2), min_size=1, max_size=4))
    else:
        n = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 4), st.sampled_from([9, 12, 16, 24])))
        c['n'] = n
        c['prec'] = draw(st.sampled_from(['double', 'double', 'single', 'strided']))
        c['v'] = draw(st.sampled_from(['none', 'none', 'entry', 'scale', 'phase', 'mix', 'mix']))
        c['i'], c['j'] = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        c['eps'] = draw(st.sampled_from([1e-3, 1e-2, 0.1, 1.0, -1e-3, -0.1, 1e-4, -6e-5]))
        c['im'] = draw(st.booleans())
        c['special'] = draw(st.sampled_from(['rand', 'rand', 'perm', 'diag', 'eye']))
    return c


def fixed(tier):
    for n in range(1, 6):
        for i in range(n):
            for j in range(n):
                for k in ('unitary', 'hermitian'):
                    for v in ('entry', 'mix', 'scale', 'phase'):
                        yield {'k': k, 's': n, 'real': False, 'n': n, 'v': v, 'i': i, 'j': j, 'eps': 1e-2, 'im': (i + j) % 2 == 0, 'special': 'rand'}
            yield {'k': 'normalized', 's': n, 'real': False, 'n': n, 'v': 'entry', 'i': i, 'j': 0, 'eps': 0.1, 'im': True, 'special': 'rand'}
    for n in range(2, 9):         # two rows with a real or imaginary overlap
        for i in range(n):
            for im in (False, True):
                for j in ((i + 1) % n, (i + n // 2) % n):
                    yield {'k': 'unitary', 's': n + i, 'real': False, 'n': n, 'v': 'mix', 'i': i, 'j': j, 'eps': 2e-3, 'im': im, 'special': ('rand', 'perm', 'eye')[(i + j) % 3]}
    for n in (16, 20, 32):
        for v, e in (('none', 1e-2), ('entry', 1e-2), ('mix', 1e-2), ('scale', 1e-2), ('entry', 1e-4), ('mix', 1e-4), ('scale', 1e-4)):
            for k in ('unitary', 'hermitian'):
                yield {'k': k, 's': n, 'real': False, 'n': n, 'v': v, 'i': n - 1, 'j': n // 2, 'eps': e, 'im': True, 'special': 'rand'}
    for n in (1, 2, 3, 5, 8, 12, 16, 20, 32, 64, 128):
        for v, eps in (('none', 0.1), ('entry', 0.1), ('scale', 1e-3), ('scale', 1e-4), ('scale', -1e-4), ('scale', 4e-5), ('scale', -4e-5)):
            yield {'k': 'normalized', 's': n, 'real': False, 'n': n, 'v': v, 'i': n - 1, 'j': 0, 'eps': eps, 'im': True, 'special': 'rand'}


def nontrivial(c):
    return c.get('n', 2) >= 2


def labels(c):
    return [c['k'] + (':' + c['v'] if 'v' in c and c['k'] != 'shape' else '')]


def gauss(r, shape, real):
    return r.normal(size=shape) + (0 if real else 1j * r.normal(size=shape))


def dt(a):
    return lib.torch.tensor(a)


def verdict(fn, arg, want, what):
    got = fn(arg)
    lib.require(isinstance(got, (bool, np.bool_)) or (isinstance(got, lib.torch.Tensor) and got.dtype == lib.torch.bool), f'{what}: returned {got!r}')
    lib.equal(bool(got), want, what)


def check(c, ctx):
    r = np.random.default_rng(c['s'])
    k, real = c['k'], c['real']
    if k == 'dag':
        A = gauss(r, c['shape'], real)
        t = dt(A)
        lib.close(ctx, L.qm.dag(t), A.conj().T, 0.0, 'dag')
        lib.close(ctx, L.qm.dag(L.qm.dag(t)), A, 0.0, 'dag twice')
        lib.require(np.array_equal(t.numpy(), A), 'dag modified its input')
        lib.raises(lambda: L.qm.dag(t[0]), 'dag of a vector')
        lib.raises(lambda: L.qm.dag(t[None]), 'dag of a rank-3 tensor')
        return
    if k == 'kron':
        ms = [gauss(r, s, real) for s in c['shapes']]
        ts = [dt(m) for m in ms]
        lib.close(ctx, L.qm.multi_kron(ts), ms[0] if len(ms) == 1 else ref_kron(ms), 1e-12, 'multi_kron')
        lib.require(len(ts) == len(ms) and all(np.array_equal(t.numpy(), m) for t, m in zip(ts, ms)), 'multi_kron modified its input')
        return
    n, i, j = c['n'], c['i'], c['j']
    eps = c['eps'] * (1j if c['im'] and not real else 1)
    if k == 'shape':
        A = gauss(r, (n, n + 1 + i), real)
        for name in ('IsUnitary', 'IsHermitian'):
            f = getattr(L.qm, name)
            lib.raises(lambda: f(dt(A)), f'{name} of a {n}x{n + 1 + i} matrix')
            lib.raises(lambda: f(dt(A.T.copy())), f'{name} of a {n + 1 + i}x{n} matrix')
        lib.raises(lambda: L.qm.IsNormalized(dt(A)), 'IsNormalized of a matrix')
        lib.raises(lambda: L.qm.IsNormalized(dt(A[:1])), 'IsNormalized of a 1xn matrix')
        return
    if k == 'unitary':
        Q = np.linalg.qr(gauss(r, (n, n), real))[0]
        if c['special'] == 'perm':
            Q = np.eye(n)[r.permutation(n)]
        elif c['special'] == 'diag':
            Q = np.diag(np.sign(r.normal(size=n)) if real else np.exp(1j * r.uniform(0, 6, n)))
        elif c['special'] == 'eye':
            Q = np.eye(n)
        if not real:
            Q = Q + 0j
        Q = np.array(Q)
        v = c['v']
        if v == 'entry':
            Q[i, j] += eps
        elif v == 'scale':
            Q[i] *= 1 + abs(eps)
        elif v == 'mix' and i != j:
            Q[i] = Q[i] + eps * Q[j]           # rows i, j no longer orthogonal
            Q[i] /= np.linalg.norm(Q[i])
        dev = np.abs(Q @ Q.conj().T - np.eye(n)).max()
        fns = [('IsUnitary', L.qm.IsUnitary), ('Operation.IsUnitary', L.op.Operation.IsUnitary)]
        A = Q
    elif k == 'hermitian':
        A = gauss(r, (n, n), real)
        A = A + A.conj().T
        if c['special'] in ('diag', 'eye'):
            A = np.diag(r.normal(size=n)) + (0 if real else 0j)
        A = np.array(A)
        v = c['v']
        if v == 'entry':
            A[i, j] += eps
        elif v == 'phase' and not real:
            A[i, j] *= np.exp(1j * 0.5)
        elif v == 'mix' and i != j:
            A[i, j], A[j, i] = A[i, j] + eps, A[j, i] - eps
        elif v == 'scale':
            A[i] = A[i] * (1 + abs(eps))
        dev = np.abs(A - A.conj().T).max()
        fns = [('IsHermitian', L.qm.IsHermitian), ('Observable.IsHermitian', L.op.Observable.IsHermitian)]
    else:
        A = gauss(r, n, real)
        if c['special'] == 'eye':
            A = np.eye(n)[i] + (0 if real else 0j)
        A = np.array(A / np.linalg.norm(A))
        v = c['v']
        if v == 'entry':
            A[i] += eps
        elif v in ('scale', 'mix'):
            A *= 1 + eps if isinstance(eps, float) else 1 + abs(eps)
        elif v == 'phase' and not real:
            A[i] *= np.exp(0.7j)
        dev = abs((np.abs(A) ** 2).sum() - 1)
        fns = [('IsNormalized', L.qm.IsNormalized)]
    single = c.get('prec') == 'single'
    if single:      # the deviation of what is handed in
        A = A.astype(np.complex64 if np.iscomplexobj(A) else np.float32)
        B = A.astype(complex if np.iscomplexobj(A) else float)
        dev = {'unitary': lambda: np.abs(B @ B.conj().T - np.eye(n)).max(), 'hermitian': lambda: np.abs(B - B.conj().T).max(),
               'normalized': lambda: abs((np.abs(B) ** 2).sum() - 1)}[k]()
    if dev > 4e-5:
        want = False
    elif dev < (4e-7 if single else 1e-12):
        want = True
    else:
        return
    ctx.label('verdict:%s' % want)
    for name, f in fns:
        t = dt(A)
        if c.get('prec') == 'strided':
            t = lib.torch.stack([t * 3, t, t - 1], -1)[..., 1]
        verdict(f, t, want, f'{name} (deviation {dev:.2g}, {c["v"]} at {i},{j} of {n})')


def ref_kron(ms):
    out = ms[0]
    for m in ms[1:]:
        out = np.kron(out, m)
    return out
