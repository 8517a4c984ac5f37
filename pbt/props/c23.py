"""Functional layers against products of reference gates."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C23'
ROT = {'XYZLayer': 'XYZ', 'YZYLayer': 'YZY', 'XZXLayer': 'XZX', 'XZLayer': 'XZ'}
RINGS = ('ring_of_cnot', 'ring_of_cnot2', 'ring_of_cz', 'nearest_neighbor_cnot', 'nearest_neighbor_cz', 'all2all_cnot')
BLOCKS = ('basic_entangle_layer', 'basic_entangle_layer2', 'strong_entangle_layer')
PAIRS = ('RxxLayer', 'RyyLayer', 'RzzLayer')
ALL = tuple(ROT) + ('HLayer',) + RINGS + BLOCKS + PAIRS
SG = ('YZY', 'XZX', 'XYZ', 'XZ')
RULE = ('every layer function for N up to 7, both directions and every single-gate choice, then random parameters in list and tensor form for N up to 6 (thorough 8), and rejected calls; '
        'non-trivial: N >= 2')
ASSUMPTIONS = ['ring and brick order as documented in qlayer.py: downward from qubit 0 or, with up2down=False, upward from qubit N-1']
EXAMPLES = {'quick': 450, 'thorough': 2500}
TOL = 3e-5


def n_params(f, N, sg):
    if f in ROT:
        return len(ROT[f]) * N
    if f in BLOCKS:
        return len(sg) * N * (1 if f == 'basic_entangle_layer' else 2)
    if f in PAIRS:
        return N - 1
    return 0


def fixed(tier):
    for N in range(1, 9):
        for f in ALL:
            if N == 1 and f not in ROT and f != 'HLayer':
                continue
            for down in ([True, False, None] if f in RINGS else [None]):
                for sg in (SG if f in BLOCKS else [None]):
                    yield {'N': N, 'f': f, 'down': down, 'sg': sg, 'p': gens.fixed_params(n_params(f, N, sg), N), 'form': 'tensor'}
    for f in tuple(ROT) + BLOCKS + PAIRS:       # special values of each parameter, repeated parameters
        N = 3 if f in PAIRS else 2
        for sg in (SG if f in BLOCKS else [None]):
            n = n_params(f, N, sg)
            base = gens.fixed_params(n, 2)
            ps = [[x if i == j else y for i, y in enumerate(base)] for j in range(n) for x in (0.0, gens.PI, -gens.PI, 2 * gens.PI, 7.3, -11.7)]
            ps += [[base[0]] * n, [0.0] * n, base[:(n + 1) // 2] * 2, [base[i % 2] for i in range(n)]]
            for p in ps:
                yield {'N': N, 'f': f, 'down': None, 'sg': sg, 'p': p[:n], 'form': 'tensor'}
    for N in range(1, 5):
        for f in ALL:
            for bad in (('n1',) if f in RINGS else ('n0',) if f == 'HLayer' else ('short', 'long') + (('n0',) if f in ROT else ('n1',))):
                yield {'N': N, 'f': f, 'down': None, 'sg': None, 'p': [], 'bad': bad}


@st.composite
def strategy(draw, tier):
    f = draw(st.sampled_from(ALL))
    N = draw(st.integers(1 if f in ROT or f == 'HLayer' else 2, 6 if tier == 'quick' else 8))
    sg = draw(st.sampled_from(SG)) if f in BLOCKS else None
    return {'N': N, 'f': f, 'down': draw(st.sampled_from([True, False, None])) if f in RINGS else None, 'sg': sg,
            'p': draw(gens.params(n_params(f, N, sg), True)), 'form': draw(st.sampled_from(['tensor', 'num', 'list', 'grad']))}


def nontrivial(c):
    return c['N'] >= 2 and 'bad' not in c


def labels(c):
    return ['f:' + c['f'], 'N:%d' % c['N']] + (['bad:' + c['bad']] if 'bad' in c else [])


def want(c):
    f, N, p = c['f'], c['N'], c.get('exact') or [ref.f32(x) for x in c['p']]
    down = c['down'] is not False
    out = []

    def rot(axes, q):
        return ref.rot_layer(axes, list(range(N)), q)

    def g(name, *w):
        return (ref.controlled(ref.Z if name == 'cz' else ref.X), list(w))

    def ring(name, step, down=True):
        if N == 2:
            return [g(name, 0, 1) if down else g(name, 1, 0)]
        order = range(N) if down else range(N - 1, -1, -1)
        return [g(name, i, (i + step if down else i - step) % N) for i in order]

    if f in ROT:
        out = rot(ROT[f], p)
    elif f == 'HLayer':
        out = [(ref.H, [i]) for i in range(N)]
    elif f in ('ring_of_cnot', 'ring_of_cz', 'ring_of_cnot2'):
        out = ring('cz' if f == 'ring_of_cz' else 'cnot', 2 if f == 'ring_of_cnot2' else 1, down)
    elif f in ('nearest_neighbor_cnot', 'nearest_neighbor_cz'):
        name = f[-4:].strip('_') if f.endswith('cnot') else 'cz'
        if down:
            out = [g(name, i, i + 1) for s in (0, 1) for i in range(s, N - 1, 2)]
        else:
            out = [g(name, i, i - 1) for s in (1, 2) for i in range(N - s, 0, -2)]
    elif f == 'all2all_cnot':
        if N == 2:
            out = [g('cnot', 0, 1) if down else g('cnot', 1, 0)]
        else:
            r = list(range(N)) if down else list(range(N - 1, -1, -1))
            out = [g('cnot', i, j) for i in r for j in r if i != j]
    elif f in BLOCKS:
        k = len(c['sg']) * N
        out = rot(c['sg'], p[:k]) + ring('cnot', 1)
        if f == 'basic_entangle_layer2':
            out += rot(c['sg'], p[k:]) + ring('cnot', 1)
        elif f == 'strong_entangle_layer':
            out += rot(c['sg'], p[k:]) + ring('cnot', 2)
    else:
        pairs = [(i, i + 1) for s in (0, 1) for i in range(s, N - 1, 2)]
        out = [(ref.rot2(f[1].upper(), t), list(w)) for w, t in zip(pairs, p)]
    U = np.eye(2 ** N, dtype=complex).reshape((2,) * N + (2 ** N,))
    for m, w in out:
        U = ref.apply(m, w, U)
    return U.reshape(2 ** N, 2 ** N)


def check(c, ctx):
    f, N = c['f'], c['N']
    fn = getattr(L.qf, f)
    t = lib.torch
    if 'bad' in c:
        b, sg = c['bad'], c['sg'] or 'YZY'
        if b in ('n0', 'n1'):
            n = int(b[1])
            if f in RINGS:
                for a in ((), (True,), (False,)):
                    lib.raises(lambda: fn(n, *a), f'{f} on {n} qubit(s)')
            elif f == 'HLayer':
                lib.raises(lambda: fn(0), 'HLayer on no qubit')
            else:
                lib.raises(lambda: fn(n, t.rand(n_params(f, n, sg))), f'{f} on {n} qubit(s)')
            return
        for s in ('ZZ', 'yzy', 'Y', 'RYY') if f in BLOCKS and N > 1 and b == 'short' else ():        # an unknown construction
            for k in (2, 3):
                lib.raises(lambda: fn(N, t.rand(k * N * (1 if f == 'basic_entangle_layer' else 2)), s), f'{f} on {N} qubits with single_gate={s!r}')
        for s in (SG if f in BLOCKS else (None,)):
            n = n_params(f, N, s or sg) + (1 if b == 'long' else -1)
            if n < 0 or N < 2 and f in PAIRS + BLOCKS:
                continue
            a = (s,) if s else ()
            lib.raises(lambda: fn(N, t.rand(n), *a), f'{f} on {N} qubits with {n} parameters {a}')
            lib.raises(lambda: fn(N, [0.1] * n, *a), f'{f} on {N} qubits with a list of {n} parameters {a}')
        return
    W = want(c)
    p = [float(x) for x in c['p']]
    if c.get('form') in ('num', 'list'):
        arg = p
    else:
        arg = t.tensor(p, requires_grad=c.get('form') == 'grad')
    args = [N]
    if c['p'] or f in PAIRS or f in BLOCKS or f in ROT:
        args.append(arg)
    if c['down'] is not None:
        args.append(c['down'])
    if c['sg'] is not None:
        args.append(c['sg'])
    before = list(p)
    lib.close(ctx, fn(*args), W, TOL, f'{f}({N}, ..., {c["down"]}, {c["sg"]})')
    if c['sg'] == 'YZY':
        lib.close(ctx, fn(*args[:-1]), W, TOL, f'{f}({N}) with the default single gate')
    if isinstance(arg, list):
        lib.equal(arg, before, 'the parameter list afterwards')
    else:
        lib.require(t.equal(arg.detach(), t.tensor(p)), 'the parameters were modified')
