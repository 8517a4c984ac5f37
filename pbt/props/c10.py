"""Parameter-shift gradients against numerical derivatives of the complex128 model."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref

ID = 'C10'
RULE = ('random circuits with at least one parametrised operation (all kinds, parameters as tensors, numbers, lists; some updated after they were added, '
        'some requiring gradients), Hermitian observable; non-trivial: at least two parameters and N >= 2')
ASSUMPTIONS = ['derivatives from a 4th-order difference of the complex128 model (error below 1e-9); tolerance 3e-5']
EXAMPLES = {'quick': 80, 'thorough': 500}
TOL = 3e-5


def fixed(tier):
    for N, n in ((1, 18), (1, 40), (2, 12), (3, 10)):       # many operations and parameters
        for s in range(2):
            yield {'N': N, 'ops': gens.deep_ops(N, n, s, only=gens.PARAM_KINDS), 'state': {'k': 'rand', 's': s}, 'M': {'k': 'rand', 's': s}, 'grad': s == 1}
    for N, o in gens.repeated_layers():
        for up in ({}, {'update': [1, gens.fixed_params(len(o['p']), 5)]}):
            yield dict({'N': N, 'ops': [{'g': 'Hadamard', 'w': [0]}, o, {'g': 'rx', 'w': [1], 'p': [0.3]}], 'state': {'k': 'rand', 's': 3}, 'M': {'k': 'rand', 's': 4}, 'grad': False}, **up)
    for N, o in gens.special_params(only=None, points=[0.0, 6e-4, -8e-3, gens.PI, -gens.PI, 2 * gens.PI, -7.9, 11.3, 40.3]):
        yield {'N': N, 'ops': [{'g': 'u3', 'w': [i], 'p': [0.9, 0.4 + i, -0.7]} for i in range(N)] + [o, {'g': 'rx', 'w': [N - 1], 'p': [0.8]}], 'state': {'k': 'rand', 's': 3}, 'M': {'k': 'rand', 's': 4}, 'grad': False}
    for N in (5, 6):
        yield {'N': N, 'ops': gens.deep_ops(N, 4, 3), 'state': {'k': 'rand', 's': 1}, 'M': {'k': 'rand', 's': 2}, 'grad': False}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    ops = draw(gens.ops(N, 0, 3 if tier == 'quick' else 6, only=draw(st.sampled_from([None, gens.TN_KINDS]))))
    ops.insert(draw(st.integers(0, len(ops))), draw(gens.op(N, only=gens.PARAM_KINDS)))
    if N >= 2 and draw(st.integers(0, 2)) == 0:
        ops.append(draw(gens.op(N, only=('cu3', 'cphase'))))
    c = {'N': N, 'ops': ops, 'state': draw(gens.state(N, scaled='mild')), 'M': draw(gens.hermitian(N))}
    par = [i for i, o in enumerate(ops) if o.get('p')]
    if draw(st.integers(0, 2)) == 0:
        i = draw(st.sampled_from(par))
        c['update'] = [i, draw(gens.params(len(ops[i]['p'])))]
    c['grad'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        c['other'] = {'state': draw(gens.state(N, scaled='mild')), 'M': draw(gens.hermitian(N))}
    return c


def nontrivial(c):
    return c['N'] >= 2 and sum(len(o.get('p') or []) for o in c['ops']) >= 2


def labels(c):
    return gens.op_labels(c['ops']) + (['updated'] if 'update' in c else []) + (['requires grad'] if c['grad'] else [])


def prepared(c):
    """The circuit with the current parameters, and its specs."""
    N = c['N']
    pars = [lib.param_arg(o, grad=bool(c.get('grad')) and o.get('f', 'tensor') == 'tensor') if o.get('p') else None for o in c['ops']]
    cir = lib.circuit(c['ops'], N, pars=pars)
    ops = [dict(o) for o in c['ops']]
    if 'update' in c:
        i, p = c['update']
        ops[i]['p'] = p
        cir.gate[i].params_update(lib.param_arg(dict(ops[i], f='tensor')))
    return cir, ref.round_ops(ops), pars


def same_params(cir, ops, pars, what):
    for i, (g, o) in enumerate(zip(cir.gate, ops)):
        if o.get('p'):
            got = g.params.detach().reshape(-1).tolist()
            lib.require(len(got) == len(o['p']) and all(ref.f32(a) == b for a, b in zip(got, o['p'])),
                        f'{what}: parameters of {o["g"]} are {got} instead of {o["p"]}')


def check(c, ctx):
    N = c['N']
    cir, ops, pars = prepared(c)
    v, M = ref.state(c['state'], N), ref.hermitian(c['M'], N)
    psi, Mt = lib.tt(v).view(1, -1), lib.tt(M)
    before = cir.cir_expectation(psi, Mt)
    ps = lib.L.parameter_shift(cir, psi, Mt)
    want = ref.gradient(ops, v, M, N)
    same_params(cir, ops, pars, 'before the gradient')
    for k in range(2):
        g = ps.cal_params_grad()
        lib.close(ctx, g, want, TOL, f'parameter-shift gradient (call {k + 1})')
        same_params(cir, ops, pars, 'after the gradient')
    other = c.get('other')
    if other:           # the same object, now for another state and observable
        v2, M2 = ref.state(other['state'], N), ref.hermitian(other['M'], N)
        ps.init_state, ps.M = lib.tt(v2).view(1, -1), lib.tt(M2)
        lib.close(ctx, ps.cal_params_grad(), ref.gradient(ops, v2, M2, N), TOL, 'parameter-shift gradient for a second state and observable')
        same_params(cir, ops, pars, 'after the second gradient')
    after = cir.cir_expectation(psi, Mt)
    lib.require(abs(float(before) - float(after)) < 1e-5 * max(1.0, float(np.linalg.norm(M, 2))), f'expectation {float(before)} before and {float(after)} after the gradient')
    lib.close(ctx, after, np.float64(ref.expectation(ops, v, M, N)), 5e-5, 'expectation afterwards', shape=())
    for o, p, g in zip(c['ops'], pars, cir.gate):
        if isinstance(p, lib.torch.Tensor):
            lib.require([ref.f32(x) for x in o['p']] == p.detach().reshape(-1).tolist(), f'the parameter tensor handed to {o["g"]} was modified')
    if c['grad']:       # the trainable parameters are still trainable
        U = cir.U()
        e = (psi.conj() @ U.conj().T @ Mt @ U @ psi.view(-1, 1)).real.squeeze()
        live = [(i, o, g.params) for i, (o, g) in enumerate(zip(c['ops'], cir.gate)) if o.get('p') and o.get('f', 'tensor') == 'tensor' and not ('update' in c and c['update'][0] == i)]
        if live:
            for _, o, p in live:
                lib.require(isinstance(p, lib.torch.Tensor) and p.requires_grad, f'after the gradient {o["g"]} is no longer trainable')
            e.backward()
            k = 0
            for i, o in enumerate(c['ops']):
                n = len(o.get('p') or [])
                if any(i == j for j, _, _ in live):
                    lib.require(pars[i].grad is not None, f'after the gradient, back-propagation no longer reaches the parameters of {o["g"]}')
                    lib.close(ctx, pars[i].grad.reshape(-1), want[k:k + n], TOL, f'back-propagated gradient of {o["g"]} after the parameter-shift gradient')
                k += n
