"""params_update against a freshly constructed operation."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C14'
RULE = ('a random parametrised operation taken through 1..4 updates in random parameter forms, each followed (or not) by evaluations, alone and inside a '
        'circuit; parameterless operations are updated too; non-trivial: at least one update that changes a parameter')
ASSUMPTIONS = ['float32 library, complex128 reference; tolerance 3e-5']
EXAMPLES = {'quick': 240, 'thorough': 1500}
TOL = 3e-5


def fixed(tier):
    for k in gens.PARAM_KINDS:
        for N in (1, 2, 3):
            if N == 1 and (k in ref.DOUBLE1 + ref.DOUBLE3 or k == 'BasicEntangleLayer'):
                continue
            w = [N - 1] if k in ref.SINGLE1 + ref.SINGLE3 else list(range(N))[::-1] if k in ref.LAYERS else [N - 1, 0]
            n = ref.n_params(k, w)
            yield {'N': N, 'op': {'g': k, 'w': w, 'p': gens.fixed_params(n)}, 'ups': [{'p': gens.fixed_params(n, 4), 'f': 'grad', 'ev': True}, {'p': gens.fixed_params(n, 9), 'f': 'tensor'},
                                                                                     {'p': gens.fixed_params(n, 2), 'f': 'grad'}, {'p': gens.fixed_params(n, 6), 'f': 'grad'}], 'state': {'k': 'rand', 's': 2}}
            for f in ('tensor', 'num', 'slice', 'same'):
                if f == 'slice' and n == 1:
                    continue
                yield {'N': N, 'op': {'g': k, 'w': w, 'p': gens.fixed_params(n)}, 'ups': ([{'p': gens.fixed_params(n, 7), 'f': f, 'ev': True}] if f == 'same' else []) + [{'p': gens.fixed_params(n, 4), 'f': f, 'ev': True},
                                                                                         {'p': gens.fixed_params(n, 9), 'f': f}], 'state': {'k': 'rand', 's': 2}}
    for k in gens.PARAM_KINDS:       # inside a circuit that is evaluated after every update; each update is a special move from the values before
        N = 1 if k in ref.SINGLE1 + ref.SINGLE3 else 2
        w = list(range(N))[::-1]
        n = ref.n_params(k, w)
        p = gens.fixed_params(n, 3)
        ups = []
        for d in ('rot', 'neg', 2 * gens.PI, 'sum', 0.0, 4 * gens.PI, 'small', 'rev'):
            q = ups[-1]['p'] if ups else p
            q = (q[1:] + q[:1] if d == 'rot' else q[::-1] if d == 'rev' else [-x for x in q] if d == 'neg' else [q[0] + 0.5] + [x - (0.5 if i == n - 2 else 0.0) for i, x in enumerate(q[1:])] if d == 'sum'
                 else [x + 1e-2 for x in q] if d == 'small' else [x + d for x in q])
            ups.append({'p': q, 'f': ('tensor', 'same')[len(ups) % 2], 'ev': True})
        for b in ([], [{'g': 'ry', 'w': [0], 'p': [0.7]}]):
            yield {'N': N, 'op': {'g': k, 'w': w, 'p': p}, 'ups': ups, 'state': {'k': 'rand', 's': 2}, 'before': b, 'after': [{'g': 'Hadamard', 'w': [N - 1]}] if b else []}
    for N, o in gens.special_params():
        yield {'N': N, 'op': dict(o, p=gens.fixed_params(len(o['p'])), f='tensor'), 'ups': [{'p': o['p'], 'f': o.get('f', 'tensor')}], 'state': {'k': 'rand', 's': 2}}
    for N, o in gens.repeated_layers():
        n = len(o['p'])
        yield {'N': N, 'op': o, 'ups': [{'p': gens.fixed_params(n, 4), 'f': 'tensor', 'ev': True}, {'p': gens.fixed_params(n, 9), 'f': 'same'}], 'state': {'k': 'rand', 's': 2},
               'before': [], 'after': [{'g': 'Hadamard', 'w': [0]}]}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    if draw(st.integers(0, 9)) == 0:
        o = draw(gens.op(N, only=[k for k in ref.GATES + ref.LAYERS if k not in gens.PARAM_KINDS]))
    else:
        o = draw(gens.op(N, only=gens.PARAM_KINDS, big=True))
    c = {'N': N, 'op': o, 'state': draw(gens.state(N)), 'ups': []}
    for _ in range(draw(st.integers(1, 4))):
        prev = (c['ups'][-1] if c['ups'] else o).get('p', [0.0])
        if draw(st.integers(0, 2)) == 0:     # a move by a special amount from the previous values: periods, sign flips, small steps
            d = draw(st.sampled_from([2 * gens.PI, -2 * gens.PI, 4 * gens.PI, gens.PI, -gens.PI, 1e-2, 0.0, 'neg', 'rot']))
            j = draw(st.integers(-1, len(prev) - 1))
            ps = [-x for x in prev] if d == 'neg' else prev[1:] + prev[:1] if d == 'rot' else [x + d if j in (-1, i) else x for i, x in enumerate(prev)]
        else:
            ps = draw(gens.params(len(prev), True))
        u = {'p': ps, 'f': draw(st.sampled_from(['tensor', 'num', 'slice', 'int', 'mix', 'same', 'same', 'grad'])), 'ev': draw(st.booleans())}
        if u['f'] in ('int', 'mix'):
            u['p'], u['f'] = [int(round(x)) if u['f'] == 'int' or i % 2 else x for i, x in enumerate(u['p'])], 'num'
        if u['f'] == 'slice' and o['g'] in ref.GATES and len(u['p']) == 1:
            u['f'] = 'tensor'
        c['ups'].append(u)
    if o.get('p') and draw(st.integers(0, 3)) == 0:      # an update back to an earlier value
        c['ups'].append(dict(c['ups'][0]))
    if draw(st.booleans()):
        c['before'], c['after'] = draw(gens.ops(N, 0, 2)), draw(gens.ops(N, 0, 2))
    return c


def nontrivial(c):
    return bool(c['op'].get('p')) and any(u['p'] != c['op']['p'] for u in c['ups'])


def labels(c):
    return ['op:' + c['op']['g']] + ['form:' + u['f'] for u in c['ups']]


def forms(ctx, obj, o, N, v, what):
    """Every form of obj against the reference with the parameters of o."""
    g = o['g']
    r = ref.round_ops([o])
    U = ref.unitary(r, N)
    lib.close(ctx, obj.U_expand(), U, TOL, f'{what}: expansion')
    m = getattr(obj, 'matrix', None)
    if m is not None and g in ref.GATES:
        k = len(o['w'])
        lib.close(ctx, m, ref.unitary([dict(r[0], w=list(range(k)))], k), TOL, f'{what}: matrix attribute')
    f = (U @ v)
    if g not in ref.NO_TN:
        lib.close(ctx, obj.TN_contract(lib.tt(v).view([2] * N)), f.reshape([2] * N), TOL, f'{what}: contraction')
        B = lib.tt(np.stack([v, -v])).view([2] * (N + 1))
        lib.close(ctx, obj.TN_contract(B, batch_mod=True), np.stack([f, -f]).reshape([2] * (N + 1)), TOL, f'{what}: batched contraction')
        mps = L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N)
        lib.close(ctx, L.tn.MPS2StateVec(obj.TN_operation(mps)), f.reshape(1, -1), TOL, f'{what}: MPS form')
    if g not in ref.NO_DAGGER:
        lib.close(ctx, obj.operation_dagger().U_expand(), U.conj().T, TOL, f'{what}: adjoint')
    if o.get('p'):
        n = len(o['p'])
        lib.equal(obj.num_params, n, f'{what}: num_params')
        for src, val in (('params', obj.params), ("info()['params']", obj.info()['params'])):
            lib.require(isinstance(val, lib.torch.Tensor), f'{what}: {src} is no tensor')
            lib.equal([ref.f32(x) for x in val.detach().reshape(-1).tolist()], r[0]['p'], f'{what}: {src}')


def check(c, ctx):
    N, o = c['N'], c['op']
    v = ref.state(c['state'], N)
    src = kept = sib = None
    if o.get('p') and o.get('f', 'tensor') == 'tensor':       # the tensor of the caller, which a sibling operation uses as well
        src = lib.param_arg(dict(o, f='tensor'), grad=len(c['ups']) % 2 == 0)
        kept, sib = src.detach().clone(), lib.build(o, N, par=src)
    obj = lib.build(o, N) if src is None else lib.build(o, N, par=src)
    cir, pre, post = None, [], []
    if 'before' in c:
        cir = lib.circuit(c['before'], N)
        cir.add(obj)
        for q in c['after']:
            cir.add(lib.build(q, N))
        pre, post = ref.round_ops(c['before']), ref.round_ops(c['after'])
    cur, shared, given = o, None, []
    for i, u in enumerate(c['ups']):
        if o.get('p'):
            cur = dict(o, p=u['p'], f=u['f'])
            arg = lib.param_arg(dict(cur, f='tensor') if u['f'] in ('same', 'grad') else cur, grad=u['f'] == 'grad')
            if u['f'] == 'same':         # one tensor, modified in place between the updates
                if shared is None:
                    shared = arg
                shared.copy_(arg)
                arg = shared
            keep = arg.detach().clone() if isinstance(arg, lib.torch.Tensor) else list(arg) if isinstance(arg, list) else arg
        else:
            arg = keep = lib.torch.tensor(u['p'])
        obj.params_update(arg)
        if u['f'] != 'same':
            given.append((arg, keep))
        last = i == len(c['ups']) - 1
        if last or u.get('ev'):
            forms(ctx, obj, cur, N, v, f'{o["g"]} after update {i + 1} ({u["f"]})')
            if cir is not None:
                lib.close(ctx, cir.U(), ref.unitary(pre + ref.round_ops([cur]) + post, N), 2 * TOL, f'circuit after update {i + 1} of {o["g"]}')
        same = all(lib.torch.equal(a, b) if isinstance(a, lib.torch.Tensor) else a == b for a, b in [(arg, keep)] + given)
        lib.require(same, f'{o["g"]}: the parameters handed to the update were modified')
        if src is not None:
            lib.require(lib.torch.equal(src, kept), f'{o["g"]}: the update changed the tensor the operation was constructed from')
            if last:
                forms(ctx, sib, o, N, v, f'{o["g"]} constructed from the same tensor as an updated one')
    fresh = lib.build(cur, N)
    lib.close(ctx, obj.U_expand(), lib.np_of(fresh.U_expand(), 'fresh').astype(complex), TOL, f'{o["g"]}: updated against freshly constructed')
