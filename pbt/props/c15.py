"""Model-based histories of circuits: additions, clears, updates, evaluations."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C15'
RULE = ('histories of 1..14 (thorough 1..30) actions on one to three circuits (add object, builder method, add an object already in another circuit, clear, update, '
        'evaluate U / contraction / expectation) against a list model; non-trivial: at least three actions with an addition')
ASSUMPTIONS = ['cir_params is compared only for operations not updated since they were added']
EXAMPLES = {'quick': 360, 'thorough': 900}
TOL = 2e-5


@st.composite
def strategy(draw, tier):
    nc = draw(st.integers(1, 3))
    Ns = [draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5])) for _ in range(nc)]
    if draw(st.booleans()):
        Ns = [Ns[0]] * nc
    acts = []
    for _ in range(draw(st.integers(1, 14 if tier == 'quick' else 30))):
        i = draw(st.integers(0, nc - 1))
        k = draw(st.sampled_from(['add', 'add', 'build', 'build', 'share', 'clear', 'update', 'eval']))
        a = {'a': k, 'c': i}
        if k in ('add', 'build'):
            a['op'] = draw(gens.op(Ns[i], forms=True))
        elif k == 'share':
            a['j'], a['k'] = draw(st.integers(0, nc - 1)), draw(st.integers(0, 9))
        elif k == 'update':
            a['k'], a['s'] = draw(st.integers(0, 9)), draw(gens.seeds)
        elif k == 'eval':
            a['e'] = draw(st.sampled_from(['U', 'contract', 'mps', 'expec']))
        a['look'] = draw(st.sampled_from(['none', 'none', 'tn', 'init', 'full', 'full']))
        acts.append(a)
    return {'Ns': Ns, 'acts': acts}


def fixed(tier):
    for N, k in ((N, k) for N in (3, 4) for k in ref.GATES + ref.LAYERS):        # long circuits are cleared as well, whatever they end with
        w = list(range({**{g: 1 for g in ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3}, **{g: 2 for g in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3}}.get(k, 3)))
        o = {'g': k, 'w': w}
        n = ref.n_params(k, w)
        if n:
            o['p'] = gens.fixed_params(n)
        yield {'Ns': [N, N], 'acts': [{'a': 'add', 'c': 1, 'op': o, 'look': 'none'}] + [{'a': 'add', 'c': 0, 'op': q, 'look': 'none'} for q in gens.deep_ops(N, 8 + N, N) + [o]] +
               [{'a': 'clear', 'c': 0, 'look': 'full'}, {'a': 'add', 'c': 0, 'op': o, 'look': 'full'}]}
    cx, mcx, rx = {'g': 'cnot', 'w': [0, 1]}, {'g': 'multi_control_cnot', 'w': [0, 1]}, {'g': 'rx', 'w': [0], 'p': [0.4]}
    add = lambda o, look='none': {'a': 'add', 'c': 0, 'op': o, 'look': look}
    for pre in (cx, rx, mcx):
        for post in (cx, rx, mcx):
            for look in ('tn', 'full', 'init'):
                for n in (1, 2):
                    yield {'Ns': [2], 'acts': [add(pre)] * (n - 1) + [add(pre, look), {'a': 'clear', 'c': 0, 'look': 'none'}] + [add(post)] * n}
                    yield {'Ns': [2], 'acts': [add(pre)] * (n - 1) + [add(pre, look)] + [add(post)] * n + [{'a': 'eval', 'c': 0, 'e': 'contract', 'look': 'none'}]}
                    yield {'Ns': [2, 2], 'acts': [add(pre)] * n + [{'a': 'eval', 'c': 0, 'e': 'expec', 'look': look}, {'a': 'share', 'c': 1, 'j': 0, 'k': 0, 'look': 'none'},
                                                  {'a': 'clear', 'c': 0, 'look': 'none'}] + [add(post)] * n + [{'a': 'update', 'c': 1, 'k': 0, 's': n, 'look': 'none'}]}


def nontrivial(c):
    return len(c['acts']) >= 3 and any(a['a'] in ('add', 'build') for a in c['acts'])


def labels(c):
    return sorted({'act:' + a['a'] for a in c['acts']})


def flat(p):
    if not isinstance(p, lib.torch.Tensor):
        raise lib.Violation(f'cir_params holds {type(p).__name__}')
    return [ref.f32(x) for x in p.detach().reshape(-1).tolist()]


def invariant(ctx, i, cir, model, N, what):
    w = f'{what}: circuit {i}'
    gates = cir.gate
    lib.equal(len(gates), len(model), f'{w}: number of operations')
    for k, (g, e) in enumerate(zip(gates, model)):
        if e['obj'] is not None:
            lib.require(g is e['obj'], f'{w}: operation {k} is not the object that was added')
        else:
            e['obj'] = g
    lib.equal(cir.nqubits, N, f'{w}: qubits')
    lib.equal(cir.cir_num_params, sum(len(e['op'].get('p') or []) for e in model), f'{w}: number of parameters')
    lib.equal(sorted(cir.cir_params), list(range(len(model))), f'{w}: positions with parameters')
    for k, e in enumerate(model):
        if not e['op'].get('p'):
            lib.require(cir.cir_params[k] is None, f'{w}: parameters recorded for the parameterless operation {k}')
        elif not e['updated']:
            lib.equal(flat(cir.cir_params[k]), ref.round_ops([{'p': e['p']}])[0]['p'], f'{w}: parameters recorded for operation {k}')
    lib.equal(bool(cir.TN_check()), lib.all_tn([e['op'] for e in model]), f'{w}: tensor-network support')
    initial(ctx, cir, N, w)


def initial(ctx, cir, N, w):
    init = np.zeros(2 ** N)
    init[0] = 1
    got = cir.state_init()
    lib.close(ctx, got, init, 0.0, f'{w}: initial state')
    got.mul_(0).add_(3)         # what the caller does with the returned tensor is its own business
    lib.close(ctx, cir.state_init(), init, 0.0, f'{w}: initial state after the returned one was overwritten')


def check(c, ctx):
    Ns = c['Ns']
    cirs = [L.Circuit(N) for N in Ns]
    models = [[] for _ in Ns]
    for step, a in enumerate(c['acts']):
        i = a['c']
        cir, model, N = cirs[i], models[i], Ns[i]
        what = f'after action {step + 1} ({a["a"]})'
        if a['a'] in ('add', 'build'):
            spec = dict(a['op'])        # the model entry of one operation object; shared when the object is
            e = {'op': spec, 'obj': None, 'updated': False, 'p': spec.get('p')}
            if not (a['a'] == 'build' and lib.add_by_builder(cir, spec)):
                e['obj'] = lib.build(spec, N)
                cir.add(e['obj'])
            if e['obj'] is None:
                lib.require(len(cir.gate) == len(model) + 1, f'{what}: {len(cir.gate)} operations instead of {len(model) + 1}')
                e['obj'] = cir.gate[-1]
            model.append(e)
        elif a['a'] == 'share':
            src = [e for e in models[a['j']]] if Ns[a['j']] == N else []
            if src:
                s = src[a['k'] % len(src)]
                cir.add(s['obj'])
                model.append({'op': s['op'], 'obj': s['obj'], 'updated': False, 'p': s['op'].get('p')})
        elif a['a'] == 'clear':
            cir.clear()
            model.clear()
        elif a['a'] == 'update' and model:
            e = model[a['k'] % len(model)]
            if e['op'].get('p'):
                r = np.random.default_rng(a['s'])
                newp = [float(f'{x:.4g}') for x in r.uniform(-6, 6, len(e['op']['p']))]
                e['obj'].params_update(lib.param_arg(dict(e['op'], p=newp, f='tensor')))
                e['op']['p'] = newp
                for m in models:
                    for x in m:
                        if x['obj'] is e['obj']:
                            x['updated'] = True
            else:
                e['obj'].params_update(lib.torch.tensor([0.1]))
        elif a['a'] == 'eval':
            evaluate(ctx, cir, model, N, a['e'], what)
        look = a.get('look', 'full')    # looking after every action would hide state kept between looks
        if look == 'full':
            for k in range(len(Ns)):
                invariant(ctx, k, cirs[k], models[k], Ns[k], what)
        elif look == 'tn':
            lib.equal(bool(cir.TN_check()), lib.all_tn([e['op'] for e in model]), f'{what}: circuit {i}: tensor-network support')
        elif look == 'init':
            initial(ctx, cir, N, f'{what}: circuit {i}')
    for k in range(len(Ns)):
        invariant(ctx, k, cirs[k], models[k], Ns[k], 'at the end')
    for k in range(len(Ns)):
        evaluate(ctx, cirs[k], models[k], Ns[k], 'U', f'at the end, circuit {k}')
    # a cleared circuit behaves like a new one
    k = len(c['acts']) % len(Ns)
    cirs[k].clear()
    invariant(ctx, k, cirs[k], [], Ns[k], 'cleared')
    lib.close(ctx, cirs[k].U(), np.eye(2 ** Ns[k]), 0.0, 'unitary of a cleared circuit')
    cirs[k].rx(0.5, 0)
    spec = {'g': 'rx', 'w': [0], 'p': [0.5]}
    invariant(ctx, k, cirs[k], [{'op': spec, 'obj': None, 'updated': False, 'p': [0.5]}], Ns[k], 'cleared and reused')
    psi = np.zeros(2 ** Ns[k], dtype=complex)
    psi[0] = 1
    M = ref.local(Ns[k], {0: ref.Y})
    g = L.parameter_shift(cirs[k], lib.tt(psi).view(1, -1), lib.tt(M)).cal_params_grad()
    lib.close(ctx, g, np.array([-np.cos(0.5)]), 1e-4, 'gradient in a cleared and reused circuit')


def evaluate(ctx, cir, model, N, e, what):
    ops = ref.round_ops([m['op'] for m in model])
    v = ref.state({'k': 'rand', 's': 17}, N)
    if e == 'U':
        lib.close(ctx, cir.U(), ref.unitary(ops, N), TOL, f'{what}: unitary')
        return
    if not lib.all_tn(ops) and e != 'expec':
        return
    f = ref.evolve(ops, v, N)
    if e == 'contract':
        lib.close(ctx, cir.TN_contract_evolution(lib.tt(v).view([2] * N)), f.reshape([2] * N), TOL, f'{what}: contraction')
    elif e == 'mps':
        lib.close(ctx, L.tn.MPS2StateVec(cir.TN_evolution(L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N))), f.reshape(1, -1), TOL, f'{what}: MPS evolution')
    else:
        M = ref.local(N, {N - 1: ref.Z})
        lib.close(ctx, cir.cir_expectation(lib.tt(v).view(1, -1), lib.tt(M)), np.float64(np.vdot(f, M @ f).real), TOL, f'{what}: expectation', shape=())
