"""PauliEncoding against the rotations it stands for."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C20'
RULE = ('random data (1..N values, list or tensor), axis, wires (any order, any size), state for N up to 5 (thorough 7), all four forms, plus unknown axes and '
        'too many values; non-trivial: N >= 2 and at least two wires')
ASSUMPTIONS = ['float32 library; tolerance 3e-5']
EXAMPLES = {'quick': 600, 'thorough': 1500}
TOL = 3e-5


def fixed(tier):
    for N in (6, 7, 8):
        for axis in 'XYZ':
            for w in (list(range(N)), list(range(N))[::-1], list(range(N))[::2] + [1]):
                for n in (len(w), 1, 2, 3, 4, 5):
                    yield {'N': N, 'x': gens.fixed_params(n, N), 'wires': w, 'axis': axis, 'form': 'tensor', 'state': {'k': 'rand', 's': N}, 'default': False}
    for axis in 'XYZ':
        for x in gens.POINTS:
            for n in (1, 2):
                yield {'N': 3, 'x': [x, 0.7][:n], 'wires': [2, 0, 1], 'axis': axis, 'form': ('list', 'tensor')[n % 2], 'state': {'k': 'rand', 's': 3}, 'default': False}


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 5 if tier == 'quick' else 7))
    k = draw(st.integers(1, N))
    c = {'N': N, 'x': [draw(gens.angles(True)) for _ in range(draw(st.integers(1, N)))], 'wires': draw(gens.distinct_wires(N, k)),
         'axis': draw(st.sampled_from('XYZ')), 'form': draw(st.sampled_from(['list', 'tensor'])), 'state': draw(gens.state(N)), 'default': draw(st.booleans())}
    if draw(st.integers(0, 3)) == 0:
        c['bad'] = draw(st.sampled_from(['W', 'x', '', 'many', 'many2']))
    return c


def nontrivial(c):
    return c['N'] >= 2 and len(c['wires']) >= 2


def labels(c):
    return ['axis:' + c['axis'], 'cyclic' if len(c['x']) < len(c['wires']) else 'full']


def check(c, ctx):
    N, w, x = c['N'], c['wires'], c['x']
    data = list(x) if c['form'] == 'list' else lib.torch.tensor(x)
    args = () if c['default'] and c['axis'] == 'X' else (c['axis'],)
    enc = L.em.PauliEncoding(N, data, list(w), *args)
    mats = {q: ref.rot(c['axis'], ref.f32(x[i % len(x)])) for i, q in enumerate(w)}
    U = ref.local(N, mats)
    v = ref.state(c['state'], N)
    f = U @ v
    for _ in range(2):
        lib.close(ctx, enc.U_expand(), U, TOL, 'expansion')
        lib.close(ctx, enc.TN_contract(lib.tt(v).view([2] * N)), f.reshape([2] * N), TOL, 'contraction')
        B = np.stack([v, 1j * v, v * 0])
        lib.close(ctx, enc.TN_contract(lib.tt(B).view([3] + [2] * N), batch_mod=True), np.stack([f, 1j * f, f * 0]).reshape([3] + [2] * N), TOL, 'batched contraction')
        mps = L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N)
        out = enc.TN_operation(mps)
        lib.check_mps(out, N, 'encoded MPS')
        lib.close(ctx, L.tn.MPS2StateVec(out), f.reshape(1, -1), TOL, 'MPS form')
    lib.require((data == x) if c['form'] == 'list' else lib.torch.equal(data, lib.torch.tensor(x)), 'the data was modified')
    if c.get('bad') in ('W', 'x', ''):
        lib.raises(lambda: L.em.PauliEncoding(N, data, list(w), c['bad']).U_expand(), f'axis {c["bad"]!r}')
        lib.raises(lambda: L.em.PauliEncoding(N, data, list(w), c['bad']).TN_contract(lib.tt(v).view([2] * N)), f'axis {c["bad"]!r} (contraction)')
    elif 'bad' in c:
        many = [0.1] * (N + (1 if c['bad'] == 'many' else 4))
        lib.raises(lambda: L.em.PauliEncoding(N, many, list(w), c['axis']), f'{len(many)} values on {N} qubits')
