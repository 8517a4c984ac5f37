"""Contraction evolution against the reference evolution."""
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C05'
RULE = ('every tensor-network gate/layer at every ordered placement on up to 4 (thorough 5) qubits, then random circuits on random states in '
        'random memory layouts; circuits with one unsupported operation must be rejected; non-trivial: N >= 2 with an operation on several wires')
ASSUMPTIONS = ['float32 library, complex128 reference; tolerance 1e-5']
EXAMPLES = {'quick': 300, 'thorough': 2000}
TOL = 1e-5


def fixed(tier):
    for N, o in gens.all_ops(4 if tier == 'quick' else 5, only=gens.TN_KINDS):
        yield {'N': N, 'ops': [o], 'state': {'k': 'rand', 's': 3 + N}}
    for N, o in gens.far_ops((5, 6, 7) if tier == 'quick' else (6, 7, 8, 9), only=gens.TN_KINDS):
        yield {'N': N, 'ops': [o], 'state': {'k': 'rand', 's': 3 + N}}

    for N, o in gens.all_ops(3, only=gens.TN_KINDS):
        for s in ({'k': 'basis', 'i': 0}, {'k': 'basis', 'i': 2 ** N - 1}, {'k': 'plus'}, {'k': 'prod', 's': 5}):
            yield {'N': N, 'ops': [o], 'state': s}
    for N, o in gens.special_params(only=gens.TN_KINDS):
        yield {'N': N, 'ops': [o], 'state': {'k': 'rand', 's': 3 + N}}
    for N, ops in gens.large_circuits((9, 11) if tier == 'quick' else (10, 11, 12), only=gens.TN_KINDS):
        yield {'N': N, 'ops': ops, 'state': {'k': 'rand', 's': N}}
    for N, n in ((1, 30), (1, 140), (2, 25), (2, 40), (2, 132), (3, 33), (3, 66), (4, 26)):
        for scale in (1.0, 2.5):
            yield {'N': N, 'ops': gens.deep_ops(N, n, n, only=gens.TN_KINDS), 'state': {'k': 'rand', 's': n, 'scale': scale}}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8, 9]))
    c = {'N': N, 'state': draw(gens.state(N, scaled=True)), 'ops': draw(gens.ops(N, 0, 8 if tier == 'quick' else 14, only=gens.TN_KINDS))}
    if draw(st.booleans()):
        c['order'] = list(draw(st.permutations(range(N))))
    if N >= 2 and draw(st.integers(0, 6)) == 0:
        c['bad'] = [draw(gens.op(N, only=ref.NO_TN)), draw(st.integers(0, len(c['ops'])))]
    return c


def nontrivial(c):
    return c['N'] >= 2 and gens.entangling(c['ops']) > 0


def labels(c):
    return gens.op_labels(c['ops']) + (['strided'] if 'order' in c else []) + (['unsupported'] if 'bad' in c else [])


def check(c, ctx):
    N = c['N']
    v = ref.state(c['state'], N)
    tol = TOL * c['state'].get('scale', 1.0) if c['state'].get('scale', 1) > 1 else TOL
    T = L.tn.MatrixProductState(lib.tt(v).view(1, -1), N)
    if 'order' in c:
        T = lib.strided(T, c['order'])
    before = T.clone()
    if 'bad' in c:
        ops = list(c['ops'])
        ops.insert(c['bad'][1], c['bad'][0])
        bad = lib.circuit(ops, N)
        lib.raises(lambda: bad.TN_contract_evolution(T), f'contraction evolution of a circuit with {c["bad"][0]["g"]}')
        lib.raises(lambda: bad.TN_evolution(L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N)), f'MPS evolution of a circuit with {c["bad"][0]["g"]}')
    cir = lib.circuit(c['ops'], N)
    out = cir.TN_contract_evolution(T)
    want = ref.evolve(ref.round_ops(c['ops']), v, N).reshape([2] * N)
    lib.close_vec(ctx, out, want, tol, 'evolved tensor')
    lib.close_vec(ctx, cir.TN_contract_evolution(T, batch_mod=False), want, tol, 'evolved tensor, second run')
    lib.require(lib.torch.equal(T, before), 'the input tensor was modified')
    if len(c['ops']) == 1:
        lib.close_vec(ctx, lib.build(c['ops'][0], N).TN_contract(T), want, tol, 'TN_contract')
