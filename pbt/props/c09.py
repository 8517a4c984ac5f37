"""MPS_inner_product and MPS_expec against state vectors."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C09'
RULE = ('pairs of states (as in C03, scaled, optionally evolved through an MPS circuit, or random tensors with bonds 1..5) for N up to 6 (thorough 8), products of Hermitian 2x2 observables on '
        'random distinct wires in random order; non-trivial: N >= 2 and the two states differ and are not basis states')
ASSUMPTIONS = ['float32 library, complex128 reference; tolerance 2e-5']
EXAMPLES = {'quick': 720, 'thorough': 2000}
TOL = 2e-5


def fixed(tier):
    for N in (2, 3, 4, 5, 6):       # a bra equal to the ket up to a phase: real, imaginary, almost real, almost imaginary overlaps
        for ph in (0.0, 5e-4, -2e-3, 1.0, np.pi / 2, np.pi / 2 - 1e-3, np.pi):
            yield {'N': N, 'ket': {'k': 'rand', 's': N}, 'bra': {'k': 'rand', 's': N}, 'phase': ph, 'wires': [N - 1], 'obs': [{'k': 'nearid', 's': 1, 'eps': 0.01}]}
    for N in (7, 8, 9, 10, 11):
        for obs in ([0], [N - 1], [N - 1, 0], list(range(N))[::-1]):
            yield {'N': N, 'ket': {'k': 'rand', 's': 1}, 'bra': {'k': 'rand', 's': 2}, 'wires': obs, 'obs': [{'k': 'rand', 's': i} for i in range(len(obs))]}
        yield {'N': N, 'ket': {'k': 'ghz'}, 'bra': {'k': 'rand', 's': 2}, 'kraw': [[7, 12, 20], 5], 'wires': [N - 2, 1], 'obs': [{'k': 'rand', 's': i} for i in range(2)]}


    for N in (1, 2, 3, 4):      # no observable at all, and the same observable twice on one wire (its square)
        for w in ([], [0, 0], [N - 1, 0, N - 1]):
            yield {'N': N, 'ket': {'k': 'rand', 's': 3}, 'bra': {'k': 'rand', 's': 4}, 'wires': w, 'obs': [{'k': 'rand', 's': 5 + j} for j in w]}


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 6 if tier == 'quick' else 8))
    c = {'N': N, 'ket': draw(gens.state(N, scaled=True)), 'bra': draw(gens.state(N, scaled=True))}
    for k in ('kops', 'bops'):
        if draw(st.booleans()):
            c[k] = draw(gens.ops(N, 1, 4, only=gens.TN_KINDS))
    for k in ('kraw', 'braw'):
        if draw(st.integers(0, 3)) == 0:
            c[k] = [draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)), draw(gens.seeds)]
    k = draw(st.integers(1, N))
    if draw(st.integers(0, 4)) == 0:
        c['bra'], c['phase'] = c['ket'], draw(st.sampled_from([0.0, 1e-4, -1e-3, 0.5, 3.1, 1.5707]))
        c.pop('bops', None), c.pop('braw', None), c.pop('kops', None), c.pop('kraw', None)
    c['wires'] = draw(gens.distinct_wires(N, k))
    c['obs'] = [draw(gens.hermitian(1)) for _ in range(k)]
    if draw(st.integers(0, 5)) == 0:
        j = draw(st.integers(0, k - 1))
        c['wires'].append(c['wires'][j])
        c['obs'].append(c['obs'][j])
    return c


def nontrivial(c):
    return c['N'] >= 2 and c['ket'] != c['bra'] and 'basis' not in (c['ket']['k'], c['bra']['k'])


def labels(c):
    return ['evolved' if 'kops' in c else 'converted', 'obs:%d' % len(c['wires'])]


def mps_of(N, spec, ops, raw):
    if raw:
        m, v = lib.raw_mps(N, *raw)
    else:
        v = ref.state(spec, N)
        m = L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N)
    if ops:
        m = lib.circuit(ops, N).TN_evolution(m)
        v = ref.evolve(ref.round_ops(ops), v, N)
    return m, v


def check(c, ctx):
    N = c['N']
    ket, k = mps_of(N, c['ket'], c.get('kops'), c.get('kraw'))
    bra, b = mps_of(N, c['bra'], c.get('bops'), c.get('braw'))
    if 'phase' in c:
        b = (b * np.exp(1j * c['phase'])).astype(np.complex64).astype(complex)
        bra = L.tn.StateVec2MPS(lib.tt(b).view(1, -1), N)
    for m, v in ((ket, k), (bra, b)):
        lib.close(ctx, L.tn.MPS2StateVec(m), v.reshape(1, -1), TOL * max(1, np.linalg.norm(v)), 'state vector of the MPS')
        lib.close(ctx, L.tn.MPS2StateVec(m, return_sv=False), v.reshape([2] * N), TOL * max(1, np.linalg.norm(v)), 'rank-N tensor of the MPS')
    nk, nb = max(1, np.linalg.norm(k)), max(1, np.linalg.norm(b))
    copies = [[t.clone() for t in m] for m in (ket, bra)]
    for x, y, u, v, what in ((ket, bra, k, b, '<bra|ket>'), (bra, ket, b, k, '<ket|bra>'), (ket, ket, k, k, '<ket|ket>')):
        lib.close(ctx, L.tn.MPS_inner_product(x, y), np.complex128(np.vdot(v, u)), TOL * (nk if u is k else nb) * (nk if v is k else nb), what, shape=())
    mats = [ref.hermitian(o, 1) for o in c['obs']]
    local = {}
    for w, m in zip(c['wires'], mats):
        local[w] = m @ local.get(w, np.eye(2))
    M = ref.local(N, local)
    obs = [lib.tt(m) for m in mats]
    wires = list(c['wires'])
    want = np.vdot(k, M @ k).real
    for _ in range(2):
        e = L.tn.MPS_expec(ket, wires, obs)
        lib.require(not e.is_complex(), 'MPS_expec is complex')
        lib.close(ctx, e, np.float64(want), TOL * nk ** 2, f'MPS_expec on wires {c["wires"]}', shape=())
    lib.require(wires == c['wires'] and all(np.array_equal(lib.np_of(o, 'observable'), m.astype(np.complex64)) for o, m in zip(obs, mats)),
                'MPS_expec modified its arguments')
    for m, cp in zip((ket, bra), copies):
        lib.require(len(m) == N and all(x.shape == y.shape and lib.torch.equal(x, y) for x, y in zip(m, cp)), 'an MPS was modified')
