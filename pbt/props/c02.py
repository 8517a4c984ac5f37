"""Circuit.U against the ordered product of reference unitaries."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref

ID = 'C02'
RULE = ('random operation lists (0..10, thorough 0..20 operations, all kinds), each operation added as an object or through the circuit '
        'method, the unitary also evaluated between additions; non-trivial: at least two operations on at least two qubits')
ASSUMPTIONS = ['float32 library, complex128 reference; tolerance 2e-5']
EXAMPLES = {'quick': 360, 'thorough': 1200}
TOL = 2e-5


def fixed(tier):
    for N, n in ((1, 30), (1, 70), (1, 140), (2, 25), (2, 33), (2, 66), (2, 260), (3, 25), (3, 40), (4, 26)):
        yield {'N': N, 'ops': gens.deep_ops(N, n, n), 'builder': [True, False], 'peek': [n - 2]}
    for N in (6, 7) if tier == 'quick' else (6, 7, 8):
        for s in range(4):
            yield {'N': N, 'ops': gens.deep_ops(N, 5, s), 'builder': [True, False], 'peek': []}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6]))
    ops = draw(gens.ops(N, 0, 10 if tier == 'quick' else 20))
    c = {'N': N, 'ops': ops, 'builder': draw(st.lists(st.booleans(), min_size=1, max_size=4)),
            'peek': draw(st.lists(st.integers(0, 19), max_size=2, unique=True))}
    if ops and draw(st.integers(0, 2)) == 0:      # the same operation objects added several times
        c['seq'] = draw(st.one_of(st.lists(st.integers(0, len(ops) - 1), min_size=2, max_size=8), st.just([i for i in range(len(ops)) for _ in (0, 1)])))
    return c


def nontrivial(c):
    return c['N'] >= 2 and len(c['ops']) >= 2


def labels(c):
    return gens.op_labels(c['ops'])


def check(c, ctx):
    N, ops = c['N'], ref.round_ops(c['ops'])
    cir = lib.L.Circuit(N)
    lib.close(ctx, cir.U(), np.eye(2 ** N), 1e-7, 'empty circuit')
    for i, o in enumerate(c['ops']):
        if not (c['builder'][i % len(c['builder'])] and lib.add_by_builder(cir, o)):
            cir.add(lib.build(o, N))
        if i in c['peek']:
            lib.close(ctx, cir.U(), ref.unitary(ops[:i + 1], N), TOL, f'unitary after {i + 1} additions')
    want = ref.unitary(ops, N)
    U = cir.U()
    lib.close(ctx, U, want, TOL, 'unitary')
    lib.close(ctx, cir.U(left_to_right=True), want, TOL, 'unitary, left_to_right=True')
    rev = np.eye(2 ** N, dtype=complex)
    for o in ops:
        rev = rev @ ref.unitary([o], N)
    lib.close(ctx, cir.U(left_to_right=False), rev, TOL, 'unitary, left_to_right=False')
    u = lib.np_of(U, 'unitary').astype(complex)
    lib.close(ctx, u @ u.conj().T, np.eye(2 ** N), 2 * TOL, 'U U^dagger')
    if 'seq' in c:
        objs = [lib.build(o, N) for o in c['ops']]
        rep = lib.L.Circuit(N)
        back = np.eye(2 ** N, dtype=complex)
        for i in c['seq']:
            rep.add(objs[i])
            back = back @ ref.unitary([ops[i]], N)
        lib.close(ctx, rep.U(), ref.unitary([ops[i] for i in c['seq']], N), TOL, 'unitary of a circuit with repeated objects')
        lib.close(ctx, rep.U(left_to_right=False), back, TOL, 'unitary of a circuit with repeated objects, left_to_right=False')
    built = lib.circuit(c['ops'], N, 'all')
    lib.close(ctx, built.U(), want, TOL, 'unitary of the circuit built by methods only')
