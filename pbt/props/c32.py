"""Tensor-network simulation on registers too large for dense unitaries."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C32'
RULE = ('registers of 9..18 (thorough ..20) qubits in random product states, circuits of up to 6 tensor-network operations on 2..5 chosen qubits anywhere in the register; overlaps with other '
        'evolved states, with product states, local expectations on touched and untouched qubits; up to 14 qubits also the whole state in the MPS and the contraction form; non-trivial: an entangling operation between qubits more than 3 apart')
ASSUMPTIONS = ['the oracle simulates the touched qubits alone and multiplies the factors of the others, so at most 5 qubits are touched', 'tolerance 2e-4, rounding accumulates over the many swaps; 1.5e-3 for expectations above 14 qubits, which the library sums over 2^N float32 products']
EXAMPLES = {'quick': 70, 'thorough': 500}
TOL = 2e-4

WIDE = ('XYZLayer', 'ZYXLayer', 'YZYLayer', 'XZXLayer', 'XZLayer', 'ZXLayer', 'HLayer', 'ring_of_cnot')


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 3)) == 0:        # operations over the whole register, against the whole state
        N = draw(st.integers(9, 11 if tier == 'quick' else 13))
        wide = []
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from(WIDE))
            m = draw(st.integers(N - 2, N))
            w = draw(st.sampled_from([list(range(N)), list(range(N))[::-1], None])) or draw(gens.distinct_wires(N, m))
            o = {'g': k, 'w': w}
            if k != 'HLayer' and not k.startswith('ring'):
                per = ref.n_params(k, [0])
                one = [draw(gens.angles()) for _ in range(per)]
                o['p'] = one * len(w) if draw(st.booleans()) else [float(x) for x in np.float32(np.random.default_rng(draw(gens.seeds)).normal(size=per * len(w)))]
            wide.append(o)
        return {'wide': True, 'N': N, 'ops': draw(st.permutations(wide + draw(gens.ops(N, 0, 2, only=[k for k in gens.TN_KINDS if k in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3])))), 's': draw(gens.seeds), 'haar': draw(st.booleans())}
    N = draw(st.integers(9, 18 if tier == 'quick' else 20))
    n = draw(st.integers(2, 5))
    mode = draw(st.sampled_from(['any', 'ends', 'near', 'any']))
    w = draw(st.lists(st.integers(0, N - 1), min_size=n, max_size=n, unique=True))
    if mode == 'ends':
        w = [0, N - 1] + [x for x in w if x not in (0, N - 1)][:n - 2]
    elif mode == 'near':
        a = draw(st.integers(0, N - n))
        w = list(range(a, a + n))
    n = len(w)
    w = list(draw(st.permutations(w)))
    circuit = lambda hi: draw(gens.ops(n, 1, hi, only=gens.TN_KINDS))
    obs = draw(st.lists(st.integers(0, N - 1), max_size=2, unique=True)) + draw(st.lists(st.sampled_from(w), min_size=1, max_size=n, unique=True))
    obs = list(draw(st.permutations(sorted(set(obs)))))
    return {'N': N, 'w': w, 'ops': circuit(6), 'ops2': circuit(3), 's': draw(gens.seeds), 'bits': draw(st.booleans()), 'obs': obs, 'pauli': [draw(st.sampled_from('XYZR')) for _ in obs]}


def fixed(tier):
    for N in (9, 11):
        for k in WIDE:
            for w in (list(range(N)), list(range(N))[::-1]):
                per = 0 if k == 'HLayer' or k.startswith('ring') else ref.n_params(k, [0])
                for same in ((0, 1) if per else (0,)):
                    p = gens.fixed_params(per, N) * N if same else gens.fixed_params(per * N, N)
                    yield {'wide': True, 'N': N, 'ops': [dict({'g': k, 'w': w}, **({'p': p} if per else {}))], 's': N}
    for N in (10, 12):
        for k in ('ring_of_cnot', 'XYZLayer'):
            yield {'wide': True, 'N': N, 'ops': [dict({'g': k, 'w': list(range(N))}, **({'p': gens.fixed_params(3 * N, N)} if k[0] == 'X' else {})), {'g': 'toffoli', 'w': [N - 1, 3, N // 2]},
                                                 {'g': 'rxx', 'w': [N - 2, 1], 'p': [0.7]}], 's': N, 'haar': True}
    for N, n in ((15, 3), (16, 2)):        # long registers with large bonds
        ops = []
        for k in range(n):
            ops += [{'g': 'YZYLayer', 'w': list(range(N)), 'p': gens.fixed_params(3 * N, k)}, {'g': 'ring_of_cnot', 'w': list(range(N))}, {'g': 'rxx', 'w': [N - 2, 1 + k], 'p': [0.9]}]
        yield {'wide': True, 'N': N, 'ops': ops, 's': N}
    for N in (11, 14, 18):
        for k in gens.TN_KINDS:
            if k in ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3:
                continue
            n = 3 if k == 'toffoli' else 2 if k in ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3 else 4
            w = [[N - 2, 1], [2, N // 2, N - 1], [N - 1, 0, 7, 4]][n - 2]
            p = gens.fixed_params(ref.n_params(k, range(n)), 2)
            o = dict({'g': k, 'w': list(range(n))}, **({'p': p} if p else {}))
            yield {'N': N, 'w': w, 'ops': [{'g': 'Hadamard', 'w': [0]}, o, {'g': 'ry', 'w': [n - 1], 'p': [0.8]}], 'ops2': [{'g': 'cnot', 'w': [1, 0]}], 's': N, 'bits': False,
                   'obs': [w[-1], 3, w[0]], 'pauli': ['X', 'R', 'R']}


def far(c):
    return any(len(o['w']) > 1 and max(c['w'][i] for i in o['w']) - min(c['w'][i] for i in o['w']) > 3 for o in c['ops'] if gens.entangling([o]))


def nontrivial(c):
    return bool(c.get('wide')) or far(c)


def labels(c):
    return ['N:%d-%d' % (c['N'] // 10 * 10, c['N'] // 10 * 10 + 9)] + gens.op_labels(c['ops'])


def check_wide(c, ctx):
    N = c['N']
    r = np.random.default_rng(c['s'])
    sites = r.normal(size=(N, 2)) + 1j * r.normal(size=(N, 2))
    sites = (sites / np.linalg.norm(sites, axis=1, keepdims=True)).astype(np.complex64).astype(complex)
    v = np.ones(1, dtype=complex)
    for x in sites:
        v = np.kron(v, x)
    if c.get('haar'):
        v = ref.state({'k': 'rand', 's': c['s']}, N)
    f = ref.evolve(ref.round_ops(c['ops']), v, N)
    cir = lib.circuit(c['ops'], N)
    m = cir.TN_evolution(L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N) if c.get('haar') else [lib.tt(x).view(2, 1, 1) for x in sites])
    lib.check_mps(m, N, 'evolved state')
    lib.close_vec(ctx, L.tn.MPS2StateVec(m), f.reshape(1, -1), TOL / 4, 'state vector of the evolved MPS')
    lib.close(ctx, L.tn.MPS_inner_product(m, m), np.complex128(np.vdot(f, f)), TOL, 'norm', shape=())
    T = lib.tt(v).view([2] * N)
    lib.close_vec(ctx, cir.TN_contract_evolution(T), f.reshape([2] * N), TOL / 4, 'contraction')
    lib.close_vec(ctx, cir.TN_contract_evolution(lib.torch.stack([T.flip(0), T]), batch_mod=True)[1], f.reshape([2] * N), TOL / 4, 'batched contraction')
    for i in (0, N // 2, N - 1):
        lib.close(ctx, L.tn.MPS_expec(m, [i], [lib.tt(ref.Z)]), np.float64(ref.zexp(f, N, i)), TOL, f'Z on wire {i} of {N}', shape=())
    lib.close_vec(ctx, L.tn.MPS2StateVec(cir.TN_evolution(L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N))), f.reshape(1, -1), TOL / 4, 'MPS evolution of the converted state vector')


def check(c, ctx):
    if c.get('wide'):
        return check_wide(c, ctx)
    N, w, n = c['N'], c['w'], len(c['w'])
    r = np.random.default_rng(c['s'])
    sites = r.normal(size=(2, N, 2)) + 1j * r.normal(size=(2, N, 2))
    if c['bits']:
        b = r.integers(0, 2, size=N)
        sites[0] = np.stack([1 - b, b], axis=1)
    sites /= np.linalg.norm(sites, axis=2, keepdims=True)
    if not c['bits']:       # states need not be normalised
        sites[:, r.integers(0, N)] *= r.choice([1.0, 0.4, 2.5])
        sites[:, N - 1] *= r.choice([1.0, 0.5, 1.5])
    sites = sites.astype(np.complex64).astype(complex)
    tol = TOL * max(1.0, float(np.prod(np.linalg.norm(sites[0], axis=1)) ** 2))
    rest = [i for i in range(N) if i not in w]
    prod = lambda k: [lib.tt(x).view(2, 1, 1) for x in sites[k]]

    def small(k, ops):
        v = np.ones(1, dtype=complex)
        for i in w:
            v = np.kron(v, sites[k][i])
        return ref.evolve(ref.round_ops(ops), v, n)

    def big(k, ops):
        cir = L.Circuit(N)
        for o in ops:
            cir.add(lib.build(dict(o, w=[w[i] for i in o['w']]), N))
        return cir.TN_evolution(prod(k))
    a, b = small(0, c['ops']), small(1, c['ops2'])
    A, B = big(0, c['ops']), big(1, c['ops2'])
    C = big(0, c['ops'] + c['ops2'])
    cc = small(0, c['ops'] + c['ops2'])
    for m, what in ((A, 'first state'), (B, 'second state'), (C, 'third state')):
        lib.check_mps(m, N, what)
    over = lambda k, l: np.prod([np.vdot(sites[k][i], sites[l][i]) for i in rest])
    same = over(0, 0)
    inner = L.tn.MPS_inner_product
    lib.close(ctx, inner(A, A), np.complex128(np.vdot(a, a) * same), tol, 'norm of the evolved state', shape=())
    lib.close(ctx, inner(C, A), np.complex128(np.vdot(a, cc) * same), tol, 'overlap of a state with its further evolution', shape=())
    lib.close(ctx, inner(A, prod(0)), np.complex128(np.vdot(small(0, []), a) * same), tol, 'overlap with the initial product state', shape=())
    # a second state that differs from the first on the touched qubits only, so that the overlap stays visible
    sites[1][rest] = sites[0][rest]
    B = big(1, c['ops2'])
    lib.close(ctx, inner(A, B), np.complex128(np.vdot(b, a) * same), tol, 'overlap of two evolved states', shape=())
    mats = [ref.PAULI[p] if p != 'R' else ref.hermitian({'k': 'rand', 's': c['s'] + i}, 1) for i, p in enumerate(c['pauli'])]
    M, factor = {}, same
    for i, m in zip(c['obs'], mats):
        if i in w:
            M[w.index(i)] = m
        else:
            factor *= np.vdot(sites[0][i], m @ sites[0][i]) / np.vdot(sites[0][i], sites[0][i])
    e = L.tn.MPS_expec(A, list(c['obs']), [lib.tt(m) for m in mats])
    etol = tol if N <= 14 else 1.5e-3 * tol / TOL
    lib.close(ctx, e, np.float64((np.vdot(a, ref.local(n, M) @ a) * factor).real), etol, f'expectation on wires {c["obs"]} of {N}', shape=())
    if N <= 14:
        v = np.ones(1, dtype=complex)
        for i in range(N):
            v = np.kron(v, sites[0][i])
        cir = L.Circuit(N)
        big_ops = [dict(o, w=[w[i] for i in o['w']]) for o in c['ops']]
        for o in big_ops:
            cir.add(lib.build(o, N))
        f = ref.evolve(ref.round_ops(big_ops), v, N)
        lib.close_vec(ctx, L.tn.MPS2StateVec(A), f.reshape(1, -1), tol / 4, 'state vector of the evolved MPS')
        T = lib.tt(v).view([2] * N)
        lib.close_vec(ctx, cir.TN_contract_evolution(T), f.reshape([2] * N), tol / 4, 'contraction')
        both = lib.torch.stack([T, T.flip(0)])
        lib.close_vec(ctx, cir.TN_contract_evolution(both, batch_mod=True)[0], f.reshape([2] * N), tol / 4, 'batched contraction')
    # single-qubit Z values of every qubit of the final state
    for i in range(0, N, max(1, N // 6)):
        z = same * (np.vdot(a, ref.local(n, {w.index(i): ref.Z}) @ a) if i in w else np.vdot(a, a) * np.vdot(sites[0][i], ref.Z @ sites[0][i]) / np.vdot(sites[0][i], sites[0][i]))
        lib.close(ctx, L.tn.MPS_expec(A, [i], [lib.tt(ref.Z)]), np.float64(z.real), etol, f'Z on wire {i} of {N}', shape=())
