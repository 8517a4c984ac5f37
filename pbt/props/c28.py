"""Training histories: optimiser steps over one live circuit against the model."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C28'
RULE = ('a random circuit trained for 2..5 (thorough 2..9) steps of SGD, momentum SGD or Adam on one of three losses; at every step the parameters reach the circuit by an update with the '
        'parameter, by an update with a function of it, by clearing and adding again, or by building a new circuit, and an unrelated evaluation may come in between; some parameters are '
        'frozen or shared by two operations; non-trivial: at least two trainable numbers and N >= 2')
ASSUMPTIONS = ['every step is compared at the parameter values the optimiser really reached, so rounding does not accumulate; value tolerance 1e-4, gradient tolerance 2e-4']
EXAMPLES = {'quick': 60, 'thorough': 400}
TOL = 2e-4
ROUTES = ('update', 'update', 'scaled', 'clear', 'rebuild')


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    mode = draw(st.sampled_from(['dense', 'contract', 'batch', 'measure', 'expect']))
    only = gens.TN_KINDS if mode in ('contract', 'batch') else None
    pk = [k for k in gens.PARAM_KINDS if only is None or k in only]
    ops = draw(gens.ops(N, 0, 3, only=only, forms=False))
    for _ in range(draw(st.integers(1, 2))):
        ops.insert(draw(st.integers(0, len(ops))), draw(gens.op(N, only=pk, forms=False)))
    for o in ops:
        if o.get('p') and draw(st.integers(0, 5)) == 0:
            o['frozen'] = True
    if all(o.get('frozen') for o in ops if o.get('p')):
        for o in ops:
            o.pop('frozen', None)
    c = {'N': N, 'mode': mode, 'ops': ops, 'states': [draw(gens.state(N, scaled='mild' if mode != 'measure' else False)) for _ in range(draw(st.integers(1, 3)) if mode == 'batch' else 1)], 'M': draw(gens.hermitian(N)),
         'opt': draw(st.sampled_from(['sgd', 'momentum', 'adam'])), 'lr': draw(st.sampled_from([0.05, 0.2, 0.7]))}
    par = [i for i, o in enumerate(ops) if o.get('p') and not o.get('frozen')]
    if draw(st.integers(0, 2)) == 0:        # a later operation of the same kind that uses the same parameter
        i = draw(st.sampled_from(par))
        dup = {k: v for k, v in ops[i].items() if k != 'w'}
        one = ops[i]['g'] in ref.SINGLE1 + ref.SINGLE3
        dup['w'] = [draw(st.integers(0, N - 1))] if one else list(draw(st.permutations(ops[i]['w'])))
        dup['tied'] = i
        ops.append(dup)
    c['steps'] = [[draw(st.sampled_from(ROUTES)), draw(st.sampled_from(['', '', 'U', 'shift', 'nograd', 'mps']))] for _ in range(draw(st.integers(2, 5 if tier == 'quick' else 9)))]
    return c


def fixed(tier):
    for k in gens.PARAM_KINDS:
        N = 1 if k in ref.SINGLE1 + ref.SINGLE3 else 2
        w = list(range(N))[::-1]
        o = {'g': k, 'w': w, 'p': gens.fixed_params(ref.n_params(k, w), 3)}
        for j, mode in enumerate(('dense', 'contract', 'batch', 'measure', 'expect')):
            if mode in ('contract', 'batch') and k in ref.NO_TN:
                continue
            yield {'N': N, 'mode': mode, 'ops': [{'g': 'Hadamard', 'w': [0]}, o, {'g': 'rx', 'w': [N - 1], 'p': [0.4]}], 'states': [{'k': 'rand', 's': 1}], 'M': {'k': 'rand', 's': 3},
                   'opt': ('sgd', 'momentum', 'adam')[j % 3], 'lr': 0.2, 'steps': [['update', ''], ['update', 'shift'], ['scaled', 'U'], ['clear', ''], ['update', 'nograd']]}
    for j, k in enumerate(gens.PARAM_KINDS):        # many updates of one live operation
        N = 1 if k in ref.SINGLE1 + ref.SINGLE3 else 2
        w = list(range(N))
        o = {'g': k, 'w': w, 'p': gens.fixed_params(ref.n_params(k, w), 5)}
        yield {'N': N, 'mode': ('dense', 'measure')[j % 2], 'ops': [{'g': 'ry', 'w': [0], 'p': [1.1], 'frozen': True}, o], 'states': [{'k': 'rand', 's': 1}], 'M': {'k': 'rand', 's': 3},
               'opt': 'sgd', 'lr': 0.2, 'steps': [['update', '']] * 12}
    for j, (N, o) in enumerate(gens.repeated_layers()):
        yield {'N': N, 'mode': ('dense', 'measure', 'expect')[j % 3], 'ops': [{'g': 'Hadamard', 'w': [0]}, o, {'g': 'rx', 'w': [N - 1], 'p': [0.4]}], 'states': [{'k': 'rand', 's': 1}],
               'M': {'k': 'rand', 's': 3}, 'opt': 'adam', 'lr': 0.2, 'steps': [['update', ''], ['update', 'shift'], ['scaled', 'U'], ['clear', ''], ['update', 'nograd']]}
    for N, mode in ((1, 'dense'), (2, 'contract'), (2, 'measure'), (3, 'batch'), (2, 'expect')):        # long training
        yield {'N': N, 'mode': mode, 'ops': gens.deep_ops(N, 3, N, only=gens.TN_KINDS) + [{'g': 'ry', 'w': [N - 1], 'p': [0.4]}], 'states': [{'k': 'rand', 's': 1}], 'M': {'k': 'rand', 's': 3},
               'opt': 'adam', 'lr': 0.1, 'steps': [[ROUTES[i % 5], ''] for i in range(24 if N > 1 else 70)]}


def nontrivial(c):
    return c['N'] >= 2 and sum(len(o['p']) for o in c['ops'] if o.get('p') and not o.get('frozen') and 'tied' not in o) >= 2


def labels(c):
    return ['mode:' + c['mode'], 'opt:' + c['opt']] + sorted({'route:' + r for r, _ in c['steps']} | {'between:' + b for _, b in c['steps'] if b}) + \
        (['tied'] if any('tied' in o for o in c['ops']) else []) + (['frozen'] if any(o.get('frozen') for o in c['ops']) else [])


def loss_of(c, cir, mode, vs, Mt, wt):
    t, N = lib.torch, c['N']
    ket = lambda v: lib.tt(v).view(-1, 1)
    if mode == 'dense':
        psi = cir.U() @ ket(vs[0])
        return (psi.conj().T @ Mt @ psi).real.sum()
    if mode == 'expect':
        return cir.cir_expectation(lib.tt(vs[0]).view(1, -1), Mt, TN=False)
    if mode == 'contract':
        psi = cir.TN_contract_evolution(lib.tt(vs[0]).view([2] * N)).reshape(-1, 1)
        return (psi.conj().T @ Mt @ psi).real.sum()
    if mode == 'batch':
        psi = cir.TN_contract_evolution(lib.tt(np.stack(vs)).view([len(vs)] + [2] * N), batch_mod=True).reshape(len(vs), -1, 1)
        return (psi.conj().transpose(1, 2) @ Mt @ psi).real.sum()
    z = L.qm.measure(N, cir.U() @ ket(vs[0]))
    return (z.reshape(-1) * t.tensor(wt)).sum()


def check(c, ctx):
    t, N, mode = lib.torch, c['N'], c['mode']
    vs = [ref.state(s, N) for s in c['states']]
    M = ref.hermitian(c['M'], N)
    Mt = lib.tt(M)
    wt = [ref.f32(1.0 - 0.6 * i) for i in range(N)]
    if mode == 'measure':
        M = sum(w * ref.local(N, {i: ref.Z}) for i, w in enumerate(wt))
    psi = lib.tt(vs[0]).view(1, -1)
    leaves = {}
    for i, o in enumerate(c['ops']):
        if o.get('p') and 'tied' not in o:
            leaves[i] = lib.param_arg(o, grad=not o.get('frozen'))
    live = [i for i in leaves if not c['ops'][i].get('frozen')]
    leaf = lambda i: leaves.get(c['ops'][i].get('tied', i))
    ps = [leaves[i] for i in live]
    opt = {'sgd': lambda: t.optim.SGD(ps, lr=c['lr']), 'momentum': lambda: t.optim.SGD(ps, lr=c['lr'], momentum=0.8), 'adam': lambda: t.optim.Adam(ps, lr=c['lr'])}[c['opt']]()
    cir = L.Circuit(N)
    fill = lambda: [cir.add(lib.build(o, N, leaf(i))) for i, o in enumerate(c['ops'])]
    fill()
    for k, (route, between) in enumerate(c['steps']):
        what = f'step {k + 1} ({mode}, {route})'
        factor = 1.0
        if k:
            if route in ('update', 'scaled'):
                factor = 2.0 if route == 'scaled' else 1.0
                for i, o in enumerate(c['ops']):
                    if o.get('p') and not o.get('frozen'):
                        cir.gate[i].params_update(leaf(i) * factor if route == 'scaled' else leaf(i))
            elif route == 'clear':
                cir.clear()
                fill()
            else:
                cir = L.Circuit(N)
                fill()
        now = []
        for i, o in enumerate(c['ops']):
            q = {x: y for x, y in o.items() if x not in ('frozen', 'tied')}
            if o.get('p'):
                q['p'] = [float(x) * (1.0 if o.get('frozen') else factor) for x in leaf(i).detach().reshape(-1).tolist()]
            now.append(q)
        U = ref.unitary(now, N)
        if between == 'U':
            lib.close(ctx, cir.U(), U, 5e-5, what + ': unitary')
        elif between == 'shift' and mode != 'measure':
            g = L.parameter_shift(cir, psi, Mt).cal_params_grad()
            lib.close(ctx, g, ref.gradient(now, vs[0], M, N), TOL, what + ': parameter-shift gradient in between')
        elif between == 'nograd':
            with t.no_grad():
                lib.close(ctx, cir.U(), U, 5e-5, what + ': unitary without gradients')
        elif between == 'mps' and lib.all_tn(c['ops']):
            with t.no_grad():
                mps = cir.TN_evolution(L.tn.StateVec2MPS(psi, N))
                lib.close(ctx, L.tn.MPS2StateVec(mps), (U @ vs[0]).reshape(1, -1), 5e-5, what + ': MPS evolution without gradients')
        opt.zero_grad(set_to_none=True)
        loss = loss_of(c, cir, mode, vs, Mt, wt)
        val = sum(float(np.vdot(U @ v, M @ (U @ v)).real) for v in vs)
        lib.close(ctx, loss.detach().reshape(()), np.float64(val), 1e-4 * max(1, len(vs)), what + ': loss', shape=())
        grads = sum(ref.gradient(now, v, M, N) for v in vs)
        want, k0 = {i: np.zeros(len(c['ops'][i]['p'])) for i in live}, 0
        for i, o in enumerate(c['ops']):
            n = len(o.get('p') or [])
            j = o.get('tied', i)
            if j in want:
                want[j] += factor * grads[k0:k0 + n]
            k0 += n
        loss.backward()
        for i in live:
            lib.require(leaves[i].grad is not None, f'{what}: no gradient reached the parameters of {c["ops"][i]["g"]}')
            lib.close(ctx, leaves[i].grad.reshape(-1), want[i], TOL * max(1, len(vs)) * factor, f'{what}: gradient of {c["ops"][i]["g"]}')
        for i in leaves:
            lib.require(i in live or leaves[i].grad is None, f'{what}: the frozen parameters of {c["ops"][i]["g"]} got a gradient')
        opt.step()
