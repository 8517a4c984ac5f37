"""The bidirectional MPS gradient against numerical derivatives."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from props.c10 import prepared, same_params

ID = 'C11'
RULE = ('random circuits over tensor-network operations with at least one parameter (some updated after they were added, some requiring gradients), a Pauli observable on one '
        'qubit; non-trivial: at least two parameters and N >= 2')
ASSUMPTIONS = ['derivatives from a 4th-order difference of the complex128 model; tolerance 3e-5']
EXAMPLES = {'quick': 120, 'thorough': 500}
TOL = 3e-5


def fixed(tier):
    ks = [k for k in gens.PARAM_KINDS if k in gens.TN_KINDS]
    for N, n in ((1, 18), (1, 40), (2, 12), (3, 10)):       # many operations and parameters
        for s in range(2):
            yield {'N': N, 'ops': gens.deep_ops(N, n, s, only=ks), 'state': {'k': 'rand', 's': s}, 'pauli': 'XY'[s], 'wire': N - 1, 'grad': s == 1}
    for N, o in gens.special_params(only=gens.TN_KINDS, points=[0.0, 6e-4, -8e-3, gens.PI, -gens.PI, 2 * gens.PI, -7.9, 11.3, 40.3]):
        yield {'N': N, 'ops': [{'g': 'u3', 'w': [i], 'p': [0.9, 0.4 + i, -0.7]} for i in range(N)] + [o, {'g': 'rx', 'w': [N - 1], 'p': [0.8]}], 'state': {'k': 'rand', 's': 3}, 'pauli': 'Y', 'wire': N - 1}
    for N in (5, 6, 7):
        yield {'N': N, 'ops': gens.deep_ops(N, 4, N, only=gens.TN_KINDS) + [{'g': 'ry', 'w': [N - 2], 'p': [0.4]}], 'state': {'k': 'rand', 's': 1}, 'pauli': 'Y', 'wire': N - 2}


    for o in ({'g': 'multi_control_cnot', 'w': [0, 1, 2]}, {'g': 'ring_of_cnot2', 'w': [0, 1, 2]}):     # no tensor-network form: rejected, not computed wrongly
        for at in (0, 1, 2):
            ops = [{'g': 'rx', 'w': [0], 'p': [0.4]}, {'g': 'ry', 'w': [1], 'p': [0.7]}]
            yield {'N': 3, 'ops': ops[:at] + [o] + ops[at:], 'state': {'k': 'rand', 's': 3}, 'pauli': 'Y', 'wire': 1, 'bad': True}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 2, 3, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5]))
    ops = draw(gens.ops(N, 0, 4 if tier == 'quick' else 7, only=gens.TN_KINDS))
    ops.insert(draw(st.integers(0, len(ops))), draw(gens.op(N, only=[k for k in gens.PARAM_KINDS if k in gens.TN_KINDS])))
    c = {'N': N, 'ops': ops, 'state': draw(gens.state(N, scaled='mild')), 'pauli': draw(st.sampled_from('XYZ')), 'wire': draw(st.integers(0, N - 1))}
    par = [i for i, o in enumerate(ops) if o.get('p')]
    if draw(st.integers(0, 2)) == 0:
        i = draw(st.sampled_from(par))
        c['update'] = [i, draw(gens.params(len(ops[i]['p'])))]
    c['grad'] = draw(st.integers(0, 2)) == 0
    if draw(st.integers(0, 3)) == 0:
        c['other'] = draw(gens.state(N, scaled='mild'))
    return c


def nontrivial(c):
    return c['N'] >= 2 and sum(len(o.get('p') or []) for o in c['ops']) >= 2


def labels(c):
    return gens.op_labels(c['ops']) + (['updated'] if 'update' in c else []) + (['requires grad'] if c.get('grad') else [])


def check(c, ctx):
    N = c['N']
    cir, ops, _ = prepared(c)
    v = ref.state(c['state'], N)
    psi = lib.tt(v).view(1, -1)
    M = ref.local(N, {c['wire']: ref.PAULI[c['pauli']]})
    obs = getattr(lib.L.op, 'Pauli' + c['pauli'])(N, c['wire'])
    ps = lib.L.parameter_shift(cir, psi, lib.tt(M))
    if c.get('bad'):
        lib.raises(lambda: ps.save_mid_MPS(obs), 'save_mid_MPS of a circuit with an operation without tensor-network form')
        return
    want = ref.gradient(ops, v, M, N)
    for k in range(2):
        saved, final = ps.save_mid_MPS(obs)
        lib.close(ctx, final, ref.evolve(ops, v, N).reshape(1, -1), 5e-5, 'final state of the sweep')
        lib.close(ctx, ps.cal_params_grad2(saved), want, TOL, f'bidirectional gradient (call {k + 1})')
        same_params(cir, ops, None, 'after the gradient')
    if 'other' in c:    # the same object, now for another state
        v2 = ref.state(c['other'], N)
        ps.init_state = lib.tt(v2).view(1, -1)
        saved, final = ps.save_mid_MPS(obs)
        lib.close(ctx, final, ref.evolve(ops, v2, N).reshape(1, -1), 5e-5, 'final state of the sweep for a second state')
        lib.close(ctx, ps.cal_params_grad2(saved), ref.gradient(ops, v2, M, N), TOL, 'bidirectional gradient for a second state')
    lib.require(lib.torch.equal(psi, lib.tt(v).view(1, -1)), 'the initial state was modified')
    if c['N'] <= 3:
        lib.close(ctx, cir.U(), ref.unitary(ops, N), 5e-5, 'unitary afterwards')
