"""Autograd gradients against numerical derivatives."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C12'
MODES = ('dense', 'contract', 'batch', 'measure', 'rho')
RULE = ('random circuits with at least one trainable parameter, some operations replaced by their adjoint or with parameters set by an update; loss through the '
        'dense unitary, the contraction, a weighted batch, or measure() of a vector or density matrix; non-trivial: at least two parameters and N >= 2')
ASSUMPTIONS = ['derivatives from a 4th-order difference of the complex128 model; tolerance 3e-5', 'gradients through MPS decompositions (SVD) are not claimed']
EXAMPLES = {'quick': 180, 'thorough': 900}
TOL = 3e-5
TOL2 = 2e-4


def fixed(tier):
    for k in gens.PARAM_KINDS:
        N = 1 if k in ref.SINGLE1 + ref.SINGLE3 else 2
        w = list(range(N))[::-1]
        o = {'g': k, 'w': w, 'p': gens.fixed_params(ref.n_params(k, w), 3)}
        for mode in MODES:
            for up in (False, True):
                for dag in ((False, True) if k not in ref.NO_DAGGER else (False,)):
                    if mode in ('contract', 'batch') and k in ref.NO_TN:
                        continue
                    for vec in (False, True):
                        yield {'N': N, 'ops': [dict(o, dag=dag, up=up, vec=vec)], 'mode': mode, 'states': [{'k': 'rand', 's': 1}, {'k': 'rand', 's': 2}],
                               'M': {'k': 'rand', 's': 3}, 'wt': [0.7, -1.3], 'second': not vec}
    for N, o in gens.repeated_layers():
        for mode in [m for m in MODES if m not in ('contract', 'batch') or o['g'] not in ref.NO_TN]:
            for up in (False, True):
                yield {'N': N, 'ops': [{'g': 'Hadamard', 'w': [0]}, dict(o, up=up)], 'mode': mode, 'states': [{'k': 'rand', 's': 1}, {'k': 'rand', 's': 2}], 'M': {'k': 'rand', 's': 3},
                       'wt': [0.7, -1.3, 0.4][:2 if mode == 'batch' else N]}
    for k in gens.PARAM_KINDS:      # three and more wires, batches of three and more
        if k not in ref.NO_TN:
            N = 3 if k in ref.LAYERS else 2
            w = list(range(N)) if k in ref.LAYERS else [1] if k in ref.SINGLE1 + ref.SINGLE3 else [1, 0]
            for B in (1, 3, 5):
                yield {'N': N, 'ops': [{'g': 'Hadamard', 'w': [0]}, {'g': k, 'w': w, 'p': gens.fixed_params(ref.n_params(k, w), 2)}], 'mode': 'batch', 'states': [{'k': 'rand', 's': b} for b in range(B)],
                       'M': {'k': 'rand', 's': 3}, 'wt': [0.7, -1.3, 0.4, 1.1, -0.6][:B]}
    for N, n in ((1, 24), (1, 68), (2, 14), (2, 34), (3, 12), (5, 6), (6, 5)):       # many operations and parameters
        for mode in MODES:
            yield {'N': N, 'ops': gens.deep_ops(N, n, n, only=[k for k in gens.PARAM_KINDS if k in gens.TN_KINDS]), 'mode': mode, 'states': [{'k': 'rand', 's': 1}, {'k': 'rand', 's': 2}],
                   'M': {'k': 'rand', 's': 3}, 'wt': [0.7, -1.3, 0.4][:2 if mode == 'batch' else N]}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    mode = draw(st.sampled_from(MODES))
    only = gens.TN_KINDS if mode in ('contract', 'batch') else None
    pk = [k for k in gens.PARAM_KINDS if only is None or k in only]
    ops = draw(gens.ops(N, 0, 4 if tier == 'quick' else 7, only=only, forms=False))
    ops.insert(draw(st.integers(0, len(ops))), draw(gens.op(N, only=pk, forms=False)))
    for o in ops:
        if o.get('p') and o['g'] not in ref.NO_DAGGER and draw(st.integers(0, 3)) == 0:
            o['dag'] = True
        if o.get('p') and draw(st.integers(0, 3)) == 0:
            o['up'] = True
        if o.get('p') and draw(st.integers(0, 3)) == 0:
            o[draw(st.sampled_from(['vec', 'mod']))] = True
    B = draw(st.integers(1, 3)) if mode == 'batch' else N
    return {'N': N, 'ops': ops, 'mode': mode, 'states': [draw(gens.state(N, scaled='mild' if mode in ('dense', 'contract', 'batch') else False)) for _ in range(B if mode == 'batch' else 1)],
            'M': draw(gens.hermitian(N)), 'wt': [draw(st.sampled_from([1.0, -0.5, 2.0, 0.3])) for _ in range(B)],
            'second': sum(len(o.get('p') or []) for o in ops) <= 20 and draw(st.integers(0, 2)) == 0}


def nontrivial(c):
    return c['N'] >= 2 and sum(len(o.get('p') or []) for o in c['ops']) >= 2


def labels(c):
    return gens.op_labels(c['ops']) + ['mode:' + c['mode']] + [l for l in ('dag', 'up') if any(o.get(l) for o in c['ops'])] + (['second'] if c.get('second') else [])


def check(c, ctx):
    N, mode = c['N'], c['mode']
    torch = lib.torch
    leaves, cir = [], L.Circuit(N)
    for o in c['ops']:
        if o.get('p'):
            p = lib.param_arg(o, grad=True)
            if o.get('vec'):        # one element of a parameter vector keeps its axis
                p = p.detach().reshape(-1).clone().requires_grad_(True)
            if o.get('mod'):
                p = torch.nn.Parameter(p.detach())
            leaves.append(p)
            if o.get('up'):
                obj = lib.build(o, N, par=torch.zeros_like(p.detach()) + 0.4)
                obj.params_update(p)
            else:
                obj = lib.build(o, N, par=p)
            if o.get('dag'):
                obj = obj.operation_dagger()
            cir.add(obj)
        else:
            cir.add(lib.build(o, N))
    ops = ref.round_ops([{k: v for k, v in o.items() if k not in ('up', 'vec', 'mod')} for o in c['ops']])
    M = ref.hermitian(c['M'], N)
    vs = [ref.state(s, N) for s in c['states']][:None if mode == 'batch' else 1]
    wt = [ref.f32(x) for x in c['wt']]
    v = vs[0]
    Mt = lib.tt(M)
    if mode in ('measure', 'rho'):
        wt = (wt + [1.0] * N)[:N]
        M = sum(w * ref.local(N, {i: ref.Z}) for i, w in zip(range(N), wt))
        if mode == 'measure':
            s = cir.U() @ lib.tt(v).view(-1, 1)
        else:
            U = cir.U()
            s = U @ lib.tt(np.outer(v, v.conj())) @ L.qm.dag(U)
        loss = (torch.tensor(wt) * L.qm.measure(N, s)).sum()
        true = lambda x: ref.gradient(x, v, M, N)
    elif mode == 'dense':
        psi = cir.U() @ lib.tt(v).view(-1, 1)
        loss = (psi.conj().T @ Mt @ psi).real.sum()
        true = lambda x: ref.gradient(x, v, M, N)
    elif mode == 'contract':
        psi = cir.TN_contract_evolution(lib.tt(v).view([2] * N)).reshape(-1, 1)
        loss = (psi.conj().T @ Mt @ psi).real.sum()
        true = lambda x: ref.gradient(x, v, M, N)
    else:
        T = lib.tt(np.stack(vs)).view([len(vs)] + [2] * N)
        psi = cir.TN_contract_evolution(T, batch_mod=True).reshape(len(vs), -1, 1)
        e = (psi.conj().transpose(1, 2) @ Mt @ psi).real.view(-1)
        wt = (wt + [1.0] * len(vs))[:len(vs)]
        loss = (torch.tensor(wt) * e).sum()
        true = lambda x: sum(w * ref.gradient(x, u, M, N) for w, u in zip(wt, vs))
    want = true(ops)
    n = len(want)
    if c.get('second'):     # second derivatives along a direction, before and after the first ones are accumulated
        d = np.random.default_rng(n).choice([1.0, -0.5, 0.75], n)
        g = torch.autograd.grad(loss, leaves, create_graph=True, allow_unused=True)
        lib.require(all(x is not None for x in g), f'{mode}: no gradient reached some of the parameters')
        flat = torch.cat([x.reshape(-1) for x in g])
        lib.close(ctx, flat.detach(), want, TOL, f'{mode}: autograd gradient with a graph')
        if flat.requires_grad:
            hv = torch.autograd.grad((flat * torch.tensor(d, dtype=flat.dtype)).sum(), leaves, retain_graph=True, allow_unused=True)
            hv = np.concatenate([np.zeros(p.numel()) if x is None else lib.np_of(x, 'second derivative').reshape(-1) for p, x in zip(leaves, hv)])
        else:
            hv = np.zeros(n)
        h, sh = 1e-3, []
        for k in (-2, -1, 1, 2):
            i, moved = 0, []
            for o in ops:
                m = len(o.get('p') or [])
                moved.append(dict(o, p=[x + k * h * y for x, y in zip(o['p'], d[i:i + m])]) if m else o)
                i += m
            sh.append(true(moved))
        lib.close(ctx, hv, (sh[0] - 8 * sh[1] + 8 * sh[2] - sh[3]) / (12 * h), TOL2, f'{mode}: second derivatives')
    loss.backward()
    got = []
    for o, p in zip([o for o in c['ops'] if o.get('p')], leaves):
        if p.grad is None:
            raise lib.Violation(f'{mode}: no gradient reached the parameters of {o["g"]} (adjoint: {bool(o.get("dag"))}, updated: {bool(o.get("up"))})')
        got.append(lib.np_of(p.grad, 'gradient').reshape(-1))
    lib.close(ctx, np.concatenate(got), want, TOL, f'{mode}: autograd gradient')
