"""Batched contraction evolution against element-wise evolution."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C06'
RULE = ('every tensor-network gate/layer at every ordered placement on up to 3 (thorough 4) qubits with batch sizes 1 and 2, then random circuits with '
        'batches of 1..17 states, stacked, expanded from one element, or permuted in memory; non-trivial: at least one operation and two different elements, or batch 1')
ASSUMPTIONS = ['float32 library, complex128 reference; tolerance 1e-5']
EXAMPLES = {'quick': 300, 'thorough': 2000}
TOL = 1e-5


def fixed(tier):
    for N, o in gens.all_ops(3 if tier == 'quick' else 4, only=gens.TN_KINDS):
        for B in (1, 2):
            yield {'N': N, 'ops': [o], 'states': [{'k': 'rand', 's': 11 + N + b} for b in range(B)]}
    for N, o in gens.far_ops((4, 5, 6) if tier == 'quick' else (5, 6, 7), only=gens.TN_KINDS):
        yield {'N': N, 'ops': [o], 'states': [{'k': 'rand', 's': 11 + N + b} for b in range(3)]}
    for N, o in gens.special_params(only=gens.TN_KINDS):
        yield {'N': N, 'ops': [o], 'states': [{'k': 'rand', 's': 11 + b} for b in range(2)]}
    for B in (7, 16, 32, 33, 64, 65, 100, 129, 257):
        for N in (1, 2, 3):
            yield {'N': N, 'ops': gens.deep_ops(N, 4, B, only=gens.TN_KINDS), 'states': [{'k': 'rand', 's': B + b} for b in range(B)]}
    for N, n in ((1, 135), (2, 40), (2, 70), (3, 30)):
        yield {'N': N, 'ops': gens.deep_ops(N, n, n, only=gens.TN_KINDS), 'states': [{'k': 'rand', 's': b, 'scale': 1.0 + 0.7 * b} for b in range(3)]}
    for N in (8, 10):
        yield {'N': N, 'ops': gens.deep_ops(N, 5, N, only=gens.TN_KINDS), 'states': [{'k': 'rand', 's': b} for b in range(3)]}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 3, 4, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7]))
    B = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 6, 8, 9, 11, 17]))
    c = {'N': N, 'states': [draw(gens.state(N, scaled=True)) for _ in range(B)], 'ops': draw(gens.ops(N, 0, 7, only=gens.TN_KINDS))}
    m = draw(st.sampled_from(['stack', 'stack', 'perm', 'expand']))
    if m == 'perm':
        c['order'] = list(draw(st.permutations(range(N + 1))))
    if m == 'expand':
        c['states'] = c['states'][:1]
        c['expand'] = B
    return c


def nontrivial(c):
    return len(c['ops']) >= 1 and (len(c['states']) == 1 or len({str(s) for s in c['states']}) > 1)


def labels(c):
    return gens.op_labels(c['ops']) + ['batch:%d' % (c.get('expand') or len(c['states']))]


def check(c, ctx):
    N = c['N']
    vs = [ref.state(s, N) for s in c['states']]
    tol = TOL * max([1.0] + [s.get('scale', 1.0) for s in c['states']])
    T = lib.tt(np.stack(vs)).view([len(vs)] + [2] * N)
    if 'expand' in c:
        vs = vs * c['expand']
        T = T.expand([c['expand']] + [2] * N)
    if 'order' in c:
        T = lib.strided(T, c['order'])
    before = T.clone()
    cir = lib.circuit(c['ops'], N)
    out = cir.TN_contract_evolution(T, batch_mod=True)
    ops = ref.round_ops(c['ops'])
    want = np.stack([ref.evolve(ops, v, N) for v in vs]).reshape([len(vs)] + [2] * N)
    lib.close(ctx, out, want, tol, 'evolved batch')
    lib.require(lib.torch.equal(T, before), 'the input batch was modified')
    for b in {0, len(vs) - 1}:
        lib.close(ctx, cir.TN_contract_evolution(T[b]), want[b], tol, f'element {b} evolved alone')
        lib.close(ctx, cir.TN_contract_evolution(T[b:b + 1], batch_mod=True), want[b:b + 1], tol, f'element {b} as a batch of one')
    if len(c['ops']) == 1:
        lib.close(ctx, lib.build(c['ops'][0], N).TN_contract(T, batch_mod=True), want, tol, 'TN_contract(batch_mod=True)')
