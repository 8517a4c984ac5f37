"""Dense expansion of every gate and layer against its definition."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C01'
RULE = ('every gate/layer kind at every ordered wire placement on up to 4 (thorough: 5) qubits with fixed generic parameters, then random '
        'kind, register, wires, parameters and parameter form; non-trivial: N >= 2 and (parametrised or more than one wire)')
ASSUMPTIONS = ['reference matrices are the documented definitions, computed in complex128', 'parameters are float32 in the library']
EXAMPLES = {'quick': 450, 'thorough': 2500}
TOL = 5e-6


def fixed(tier):
    for N, o in gens.all_ops(4 if tier == 'quick' else 5):
        yield {'N': N, 'op': o}
    for N, o in gens.far_ops((5, 6, 7) if tier == 'quick' else (6, 7, 8)):
        yield {'N': N, 'op': o}
    for N, o in gens.special_params():
        yield {'N': N, 'op': o}
    for N in (9, 10):       # large registers: one wide and one neighbouring placement per kind
        for k in ref.GATES + ref.LAYERS:
            if k in ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3:
                ws = [[N - 1 if len(k) % 2 else N // 2]]
            elif k in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3:
                ws = [[N - 1, 0], [N // 2, N // 2 + 1]] if N == 9 else [[1, N - 2]]
            elif k == 'toffoli':
                ws = [[N - 1, 0, N // 2]]
            elif k == 'multi_control_cnot':
                ws = [[N - 2, 0, 3, N - 1]]
            else:
                ws = [list(range(N))[::-1]]
            for w in ws:
                n = ref.n_params(k, w)
                yield {'N': N, 'op': dict({'g': k, 'w': w}, **({'p': gens.fixed_params(n, 2)} if n else {}))}


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 6 if tier == 'quick' else 8))
    return {'N': N, 'op': draw(gens.op(N, big=True))}


def nontrivial(c):
    return c['N'] >= 2 and (bool(c['op'].get('p')) or len(c['op']['w']) > 1)


def labels(c):
    return ['op:' + c['op']['g'], 'N:%d' % c['N']]


def check(c, ctx):
    N, o = c['N'], c['op']
    r = ref.round_ops([o])
    obj = lib.build(o, N)
    tol = TOL + 2e-7 * max([abs(x) for x in o.get('p') or [0]])       # angles are float32
    want = ref.unitary(r, N)
    U = obj.U_expand()
    lib.close(ctx, U, want, tol, f'{o["g"]} on wires {o["w"]} of {N}: expansion')
    u = lib.np_of(U, o['g']).astype(complex)
    if N < 9:
        lib.close(ctx, u @ u.conj().T, np.eye(2 ** N), 5 * tol, f'{o["g"]}: U U^dagger')
    k = len(o['w'])
    m = getattr(obj, 'matrix', None)
    if o['g'] in ref.GATES and m is not None:
        small = ref.unitary([dict(r[0], w=list(range(k)))], k)
        lib.close(ctx, m, small, tol, f'{o["g"]}: matrix attribute')
        if o['g'] != 'multi_control_cnot':      # a gate made without a register still has its matrix
            free = lib.ctor(o['g'])(*([lib.param_arg(o)] if o.get('p') else []))
            lib.close(ctx, free.matrix, small, tol, f'{o["g"]} without register: matrix attribute')
