"""Hypothesis strategies for JSON cases."""
import math

from hypothesis import strategies as st

import ref

PI = math.pi
SPECIAL = [0.0, PI / 2, -PI / 2, PI, -PI, 2 * PI, 4 * PI, PI / 4, 3 * PI / 2, 1e-3, 5 * PI / 2, 1e-33, -3e-38, 6e-4, -8e-3]


def rnd3(x):
    return float(f'{x:.4g}')


def angles(big=False):
    parts = [st.floats(-2 * PI, 2 * PI).map(rnd3), st.floats(-PI, PI).map(rnd3), st.floats(-PI, PI).map(rnd3),
             st.sampled_from(SPECIAL), st.floats(-16, 16).map(rnd3)]
    if big:
        parts.append(st.floats(-300, 300).map(rnd3))
    return st.one_of(*parts)


seeds = st.integers(0, 10 ** 6)


@st.composite
def distinct_wires(draw, N, k):
    """An ordered tuple of k distinct wires: any, spread to the ends of the register, or neighbours."""
    mode = draw(st.sampled_from(['any', 'any', 'ends', 'near'])) if N > k >= 2 else 'any'
    if mode == 'ends':
        w = [0, N - 1] + list(draw(st.permutations(range(1, N - 1))))[:k - 2]
    elif mode == 'near':
        a = draw(st.integers(0, N - k))
        w = list(range(a, a + k))
    else:
        return list(draw(st.permutations(range(N))))[:k]
    return list(draw(st.permutations(w)))


@st.composite
def layer_wires(draw, N, lo=1):
    """Full register in order (most frequent), a subset, or any order."""
    mode = draw(st.sampled_from(['full', 'full', 'subset', 'perm', 'any']))
    if mode == 'full' or N <= lo:
        return list(range(N))
    if mode == 'perm':
        return list(draw(st.permutations(range(N))))
    k = draw(st.integers(lo, N))
    w = list(draw(st.permutations(range(N))))[:k]
    return sorted(w) if mode == 'subset' else w


def kinds_for(N, only=None):
    ks = list(ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3) + list(ref.ROT_LAYERS) + ['HLayer']
    if N >= 2:
        ks += list(ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3) * 2 + list(ref.RINGS) + ['BasicEntangleLayer', 'multi_control_cnot']
    if N >= 3:
        ks += ['toffoli', 'toffoli', 'toffoli']
    if only is not None:
        ks = [k for k in ks if k in only]
    return ks


@st.composite
def params(draw, n, big=False):
    """n parameters, sometimes related to each other: equal, opposite, periodic, mostly zero."""
    p = [draw(angles(big)) for _ in range(n)]
    rel = draw(st.sampled_from([None, None, None, None, None, 'equal', 'neg', 'period', 'one', 'pair'])) if n > 1 else None
    if rel == 'equal':
        p = [p[0]] * n
    elif rel == 'neg':
        p[-1] = -p[-2]
    elif rel == 'pair':
        p[-1] = p[-2]
    elif rel == 'period':
        k = draw(st.sampled_from([2, 3]))
        p = [p[i % k] for i in range(n)]
    elif rel == 'one':
        j = draw(st.integers(0, n - 1))
        p = [x if i == j else 0.0 for i, x in enumerate(p)]
    return p


@st.composite
def op(draw, N, only=None, big=False, forms=True):
    k = draw(st.sampled_from(kinds_for(N, only)))
    o = {'g': k}
    if k in ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3:
        o['w'] = [draw(st.integers(0, N - 1))]
    elif k in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3:
        o['w'] = draw(distinct_wires(N, 2))
    elif k == 'toffoli':
        o['w'] = draw(distinct_wires(N, 3))
    elif k == 'multi_control_cnot':
        o['w'] = draw(distinct_wires(N, draw(st.integers(2, N))))
    elif k in ref.RINGS or k == 'BasicEntangleLayer':
        o['w'] = draw(layer_wires(N, 2))
    else:
        o['w'] = draw(layer_wires(N, 1))
    if k == 'BasicEntangleLayer':
        o['repeat'] = draw(st.sampled_from([1, 1, 2, 3, 4]))
    n = ref.n_params(k, o['w'], o.get('repeat', 1))
    if n:
        o['p'] = draw(params(n, big))
        if forms:
            f = draw(st.sampled_from(['tensor', 'tensor', 'num', 'slice', 'int', 'mix']))
            if f in ('int', 'mix'):      # Python integers, or integers among floats
                o['p'] = [int(round(x)) if f == 'int' or i % 2 else x for i, x in enumerate(o['p'])]
                f = 'num'
            if f != 'tensor':
                o['f'] = f
    if forms and k in ref.LAYERS and k not in ref.RINGS and draw(st.integers(0, 7)) == 0:
        o['wf'] = 'tuple'
    return o


TN_KINDS = tuple(k for k in ref.GATES + ref.LAYERS if k not in ref.NO_TN)
PARAM_KINDS = ref.SINGLE1 + ref.SINGLE3 + ref.DOUBLE1 + ref.DOUBLE3 + tuple(ref.ROT_LAYERS) + ('BasicEntangleLayer',)


@st.composite
def ops(draw, N, lo=1, hi=8, only=None, big=False, forms=True):
    n = draw(st.integers(lo, hi))
    return [draw(op(N, only, big, forms)) for _ in range(n)]


@st.composite
def state(draw, N, scaled=False):
    k = draw(st.sampled_from(['rand', 'rand', 'basis', 'plus', 'ghz', 'real', 'sparse', 'prod', 'weak', 'amps', 'tiny']))
    if k == 'amps' and N > 3:
        k = 'rand'
    s = {'k': k}
    if k in ('rand', 'real', 'prod', 'weak', 'sparse'):
        s['s'] = draw(seeds)
    if k == 'tiny':
        s['s'] = draw(seeds)
        s['e'] = draw(st.sampled_from([-6, -12, -25, -33, -38, -42]))
    if k in ('basis', 'tiny'):
        s['i'] = draw(st.integers(0, 2 ** N - 1))
    if k == 'ghz':
        s['phase'] = draw(st.sampled_from([0.0, 1.0, PI]))
    if k == 'sparse':
        s['idx'] = draw(st.lists(st.integers(0, 2 ** N - 1), min_size=1, max_size=4, unique=True))
    if k == 'weak':
        s['eps'] = draw(st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4]))
    if k == 'amps':
        v = st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0])
        s['a'] = [[draw(v), draw(v)] for _ in range(2 ** N)]
        if not any(a or b for a, b in s['a']):
            s['a'][0][0] = 1.0
    if scaled:
        sc = draw(st.sampled_from([1.0, 1.0, 0.5, 1.6] if scaled == 'mild' else [1.0, 1.0, 0.5, 3.0, 20.0] if scaled != 'wide' else [1.0, 1.0, 1e-4, 1e-2, 0.5, 20.0, 1e3]))
        if sc != 1.0:
            s['scale'] = sc
    return s


@st.composite
def density(draw, N):
    k = draw(st.sampled_from(['mixed', 'mixed', 'pure', 'pure', 'max', 'diag', 'prod', 'nearreal']))
    d = {'k': k}
    if k == 'pure':
        d['state'] = draw(state(N))
    elif k != 'max':
        d['s'] = draw(seeds)
    if k == 'nearreal':
        d['eps'] = draw(st.sampled_from([0.0, 1e-4, 1e-3, 1e-2]))
    if k == 'mixed':
        d['rank'] = draw(st.integers(1, 2 ** N))
    return d


@st.composite
def hermitian(draw, N, scaled=False):
    k = draw(st.sampled_from(['pauli', 'rand', 'rand', 'proj', 'diag', 'neardiag', 'nearid', 'nearreal']))
    m = {'k': k}
    if k.startswith('near'):
        m['eps'] = draw(st.sampled_from([0.05, 1e-2, 1e-3]))
    if scaled and draw(st.integers(0, 2)) == 0:
        m['scale'] = draw(st.sampled_from([3.0, -2.0, 10.0, 0.01]))
    if k == 'pauli':
        m['s'] = ''.join(draw(st.sampled_from('XYZI')) for _ in range(N))
    elif k == 'proj':
        m['state'] = draw(state(N))
    else:
        m['s'] = draw(seeds)
    return m


def entangling(ops):
    return sum(len(o['w']) > 1 and (o['g'] in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3 + ref.TRIPLE + ref.MULTI + ref.RINGS
                                    or o['g'] == 'BasicEntangleLayer') for o in ops)


def op_labels(ops):
    return sorted({'op:' + o['g'] for o in ops})


import itertools


def placements(N, k):
    return [list(w) for w in itertools.permutations(range(N), k)]


FIXED = [0.37, -1.21, 2.05, 0.83, -2.6, 1.49, 3.3, -0.57, 1.93, 0.11, -0.91, 2.77, 0.64, -1.76, 2.31]


def fixed_params(n, shift=0):
    return [FIXED[(i + shift) % len(FIXED)] + 0.013 * (i // len(FIXED)) for i in range(n)]


def all_ops(Nmax=4, only=None, wire_lists=True):
    """(N, op) for every kind and every ordered placement on up to Nmax qubits, generic parameters."""
    for N in range(1, Nmax + 1):
        for k in ref.GATES + ref.LAYERS:
            if only is not None and k not in only:
                continue
            if k in ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3:
                ws = placements(N, 1)
            elif k in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3:
                ws = placements(N, 2)
            elif k == 'toffoli':
                ws = placements(N, 3)
            elif k == 'multi_control_cnot':
                ws = [w for m in range(2, N + 1) for w in placements(N, m)]
            else:
                lo = 2 if (k in ref.RINGS or k == 'BasicEntangleLayer') else 1
                ws = [w for m in range(lo, N + 1) for w in placements(N, m)]
            for w in ws:
                reps = [1, 2, 3] if k == 'BasicEntangleLayer' else [1]
                for r in reps:
                    o = {'g': k, 'w': w}
                    if k == 'BasicEntangleLayer':
                        o['repeat'] = r
                    n = ref.n_params(k, w, r)
                    if n:
                        o['p'] = fixed_params(n, len(w))
                    yield N, o


POINTS = [0.0, PI / 2, -PI / 2, PI, -PI, 2 * PI, -2 * PI, 3 * PI, 4 * PI, -4 * PI, 1e-3, -1e-3, 0.02, 5.2, -5.2, 7.3, -7.9, 10.4, -10.4, 11.3, -11.7, 14.2, -15.1, 40.3]


def special_params(only=None, points=POINTS, N=None):
    """(N, op): every parametrised kind with each parameter in turn at special or large values, and related parameters."""
    for k in PARAM_KINDS:
        if only is not None and k not in only:
            continue
        m = 1 if k in ref.SINGLE1 + ref.SINGLE3 else 2
        M = N or m
        w = [M - 1] if m == 1 and k in ref.GATES else list(range(M))[::-1][:m] if k in ref.GATES else list(range(m))
        n = ref.n_params(k, w)
        base = fixed_params(n, 3)
        for j in range(min(n, 3)):
            for x in points:
                yield M, {'g': k, 'w': w, 'p': [x if i == j else y for i, y in enumerate(base)]}
        if n > 1:
            a, b = base[:2]
            k3 = 2 if k in ('XZLayer', 'ZXLayer') else 3
            rel = [[a] * n, [0.0] * n, [a if i % k3 == 0 else b for i in range(n)], [a if i % k3 == 0 else (b if i % k3 == 1 else -b) for i in range(n)],
                   [(a, b, a)[i % 3] if k3 == 3 else a for i in range(n)], [(a, b, -a)[i % 3] for i in range(n)], [(a, -a, b)[i % 3] for i in range(n)],
                   [base[i % k3] for i in range(n)]] + [[y if i % k3 == j else 0.0 for i, y in enumerate(base)] for j in range(k3)] + \
                  [[PI if i % k3 == j else y for i, y in enumerate(base)] for j in range(k3)] + \
                  [[0.0 if i % k3 == j else y for i, y in enumerate(base)] for j in range(k3)]
            for p in rel:
                yield M, {'g': k, 'w': w, 'p': p}
        for p in ([int(round(7 * y)) for y in base], [int(round(3 * y)) if i % 2 else y for i, y in enumerate(base)], [y if i % 2 else int(round(3 * y)) for i, y in enumerate(base)]):
            yield M, {'g': k, 'w': w, 'p': p, 'f': 'num'}


def weak_op(N, k):
    """One entangling operation of kind k on N >= 3 wires, or None."""
    if k in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3:
        w = [N - 1, 0]
    elif k == 'toffoli':
        w = [0, N - 1, 1]
    elif k in ref.RINGS:
        w = list(range(N))
    else:
        return None
    n = ref.n_params(k, w, 1)
    return dict({'g': k, 'w': w}, **({'p': fixed_params(n, 1)} if n else {}))


def far_ops(Ns, only=None):
    """(N, op) on larger registers: every ordered pair at distance >= 3, triples that reach both ends, shuffled and spread layers."""
    for N in Ns:
        for k in ref.GATES + ref.LAYERS:
            if only is not None and k not in only:
                continue
            if k in ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3:
                ws = [[0], [N // 2], [N - 1]]
            elif k in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3:
                ws = [w for w in placements(N, 2) if abs(w[0] - w[1]) >= 3]
            elif k == 'toffoli':
                ws = [list(w) for m in (1, N // 2, N - 2) for w in sorted(set(itertools.permutations((0, m, N - 1))))]
            elif k == 'multi_control_cnot':
                ws = [list(range(N)), list(range(N))[::-1], [N - 1, 0], [1, N - 1, 0, 2], [0, 2, N - 1, 1]] + ([[1, N - 1, 0, 2, 3]] if N > 4 else [])
            else:
                ws = [list(range(N)), list(range(N))[::-1], [N - 1, 0], [0, N - 1, N // 2], list(range(N))[::2] + list(range(N))[1::2], list(range(N))[1:]]
            for w in ws:
                for r in ([1, 3] if k == 'BasicEntangleLayer' else [1]):
                    o = {'g': k, 'w': w}
                    if k == 'BasicEntangleLayer':
                        o['repeat'] = r
                    n = ref.n_params(k, w, r)
                    if n:
                        o['p'] = fixed_params(n, len(w))
                    yield N, o


def large_circuits(Ns, only=None):
    """(N, ops) on large registers: one circuit per multi-qubit kind, mixed with rotations and far pairs."""
    ks = [k for k in ref.GATES + ref.LAYERS if (only is None or k in only) and k not in ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3]
    for N in Ns:
        for j, k in enumerate(ks):
            far = [[N - 1, 0], [1, N - 2], [N // 2, N - 1], [0, N // 2]][j % 4]
            if k in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3:
                w = far
            elif k == 'toffoli':
                w = [N - 1, 0, N // 2]
            elif k == 'multi_control_cnot':
                w = [N - 2, 0, 3, N - 1]
            else:
                w = list(range(N)) if j % 2 else list(range(N))[::2] + list(range(N))[1::2]
            o = {'g': k, 'w': w}
            n = ref.n_params(k, w)
            if n:
                o['p'] = fixed_params(n, j)
            ops = [{'g': 'YZYLayer', 'w': list(range(N)), 'p': fixed_params(3 * N, j)}, {'g': 'cnot', 'w': [0, N - 1]}, o,
                   {'g': 'u3', 'w': [N - 1], 'p': fixed_params(3, j)}, {'g': 'SWAP', 'w': [N - 2, 1]}, dict(o)]
            yield N, ops


def deep_ops(N, n, seed, only=None, big=False):
    """n operations of every available kind on N qubits, drawn by a fixed generator (for circuits far longer than the random ones)."""
    import numpy as np
    r = np.random.default_rng(seed)
    out = []
    ks = sorted(set(kinds_for(N, only)))
    for i in range(n):
        k = ks[int(r.integers(len(ks)))]
        lo = 1 if k in ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3 else 2 if k in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3 else 3 if k == 'toffoli' else 0
        m = lo or int(r.integers(2 if k in ref.RINGS or k in ('BasicEntangleLayer', 'multi_control_cnot') else 1, N + 1))
        o = {'g': k, 'w': [int(x) for x in r.permutation(N)[:m]]}
        if k == 'BasicEntangleLayer':
            o['repeat'] = (1, 2, 3, 1, 4)[i % 5]
        c = ref.n_params(k, o['w'], o.get('repeat', 1))
        if c:
            o['p'] = [rnd3(float(x)) for x in r.uniform(-7, 7, size=c)]
        out.append(o)
    return out


def repeated_layers():
    """(N, op) with entangling layers repeated 2 to 5 times."""
    for N, w, r in ((2, [0, 1], 3), (2, [1, 0], 2), (3, [2, 0, 1], 3), (3, [0, 2], 4), (2, [0, 1], 5)):
        yield N, {'g': 'BasicEntangleLayer', 'w': w, 'repeat': r, 'p': fixed_params(3 * len(w) * r, r)}
