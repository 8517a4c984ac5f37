"""MPS evolution against the reference evolution."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C04'
RULE = ('every tensor-network gate/layer at every ordered placement on up to 4 (thorough 5) qubits on an entangled state, far placements (every pair at distance 3 and more, spread triples and layers) on 5 to 7 (8), then random circuits '
        'of 1..6 (thorough 1..12) operations on random states (scaled, in a random unitary gauge, an inverse image of a weakly entangled state, or random tensors with bonds 1..5, even above the limit of a cut); non-trivial: N >= 2 with an operation on several wires')
ASSUMPTIONS = ['float32 library; singular values below 1e-8 may be dropped by design; tolerance 8e-6 plus 4e-7 per elementary gate']
EXAMPLES = {'quick': 210, 'thorough': 1200}
TOL = 8e-6


def fixed(tier):
    for N, o in gens.all_ops(4 if tier == 'quick' else 5, only=gens.TN_KINDS):
        yield {'N': N, 'ops': [o], 'state': {'k': 'rand', 's': 7 + N}}
    for N, o in gens.far_ops((5, 6, 7) if tier == 'quick' else (6, 7, 8), only=gens.TN_KINDS):
        yield {'N': N, 'ops': [o], 'state': {'k': 'rand', 's': 7 + N}}
    for N, o in gens.special_params(only=gens.TN_KINDS):
        yield {'N': N, 'ops': [o], 'state': {'k': 'rand', 's': 7 + N}}
    # weakly entangled results: the initial state is the inverse image of a nearly product state
    for N in (3, 4):
        for k in gens.TN_KINDS:
            for eps in (3e-2, 3e-3, 1e-3, 4e-4, 1e-4, 5e-5):
                o = gens.weak_op(N, k)
                if o:
                    yield {'N': N, 'ops': [o], 'state': {'k': 'weak', 's': 3, 'eps': eps}, 'image': True}

    for N, o in gens.all_ops(3, only=gens.TN_KINDS):         # product states of basis vectors, equal superpositions and random qubits
        for s in ({'k': 'basis', 'i': 0}, {'k': 'basis', 'i': 2 ** N - 1}, {'k': 'basis', 'i': 5 % 2 ** N}, {'k': 'plus'}, {'k': 'prod', 's': 5}):
            yield {'N': N, 'ops': [o], 'state': s}
    for N, ops in gens.large_circuits((9, 10) if tier == 'quick' else (9, 10, 11), only=gens.TN_KINDS):
        yield {'N': N, 'ops': ops, 'state': {'k': 'rand', 's': N, 'scale': 0.4 + len(ops) % 3}}
    for N, n in ((1, 30), (1, 140), (2, 25), (2, 40), (2, 132), (3, 33), (3, 66), (4, 26)):
        for scale in (1.0, 2.5):
            yield {'N': N, 'ops': gens.deep_ops(N, n, n, only=gens.TN_KINDS), 'state': {'k': 'rand', 's': n, 'scale': scale}}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 3, 4, 5, 6] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8]))
    c = {'N': N, 'state': draw(gens.state(N, scaled=True)), 'ops': draw(gens.ops(N, 1, 6 if tier == 'quick' else 12, only=gens.TN_KINDS))}
    if N > 1 and draw(st.integers(0, 3)) == 0:
        c['gauge'] = draw(gens.seeds)
    elif N > 1 and draw(st.integers(0, 3)) == 0:
        c['state'] = {'k': 'weak', 's': draw(gens.seeds), 'eps': draw(st.sampled_from([1e-1, 1e-2, 1e-3, 3e-4]))}
        c['image'] = True
    elif N > 1 and draw(st.integers(0, 3)) == 0:
        c['raw'] = [draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)), draw(gens.seeds)]
        c['state'] = {'k': 'raw'}
    return c


def nontrivial(c):
    return c['N'] >= 2 and gens.entangling(c['ops']) > 0


def labels(c):
    return gens.op_labels(c['ops']) + ['state:' + c['state']['k']]


def gauge(mps, seed):
    """The same state with a random unitary and its inverse inserted at every bond."""
    r = np.random.default_rng(seed)
    a = [lib.np_of(t, 'tensor').astype(complex) for t in mps]
    for i in range(len(a) - 1):
        d = a[i].shape[2]
        q, _ = np.linalg.qr(r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)))
        a[i] = a[i] @ q
        a[i + 1] = np.einsum('xy,syz->sxz', q.conj().T, a[i + 1])
    return [lib.tt(t) for t in a]


def check(c, ctx):
    N = c['N']
    start = lambda: L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N)
    if 'raw' in c:
        v = lib.raw_mps(N, *c['raw'])[1]
        start = lambda: lib.raw_mps(N, *c['raw'])[0]
    else:
        v = ref.state(c['state'], N)
        if c.get('image'):
            v = ref.unitary(ref.round_ops(c['ops']), N).conj().T @ v
    tol = (TOL + 4e-7 * sum(len(ref.prims(o)) for o in c['ops'])) * max(1.0, float(np.linalg.norm(v)))
    cir = lib.circuit(c['ops'], N)
    mps = start()
    if 'gauge' in c:
        mps = gauge(mps, c['gauge'])
    out = cir.TN_evolution(mps)
    lib.check_mps(out, N, 'evolved MPS', tight='raw' not in c)
    got = L.tn.MPS2StateVec(out)
    want = ref.evolve(ref.round_ops(c['ops']), v, N)
    lib.close_vec(ctx, got, want.reshape(1, -1), tol, 'evolved state')
    rows = L.tn.MPS2StateVec(out, return_sv=False)
    lib.close_vec(ctx, rows, want.reshape([2] * N), tol, 'evolved state as a rank-N tensor')
    n = float(np.linalg.norm(lib.np_of(got, 'state')))
    lib.require(abs(n - np.linalg.norm(v)) < tol, f'norm {n}')
    if len(c['ops']) == 1:      # the operation by itself
        m2 = start()
        lib.close_vec(ctx, L.tn.MPS2StateVec(lib.build(c['ops'][0], N).TN_operation(m2)), want.reshape(1, -1), tol, 'TN_operation')
