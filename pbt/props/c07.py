"""cir_expectation on both back ends against the reference."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref

ID = 'C07'
RULE = ('random circuits (all kinds or tensor-network kinds only), normalised states and Hermitian observables (Pauli strings, random, projectors, '
        'diagonal), both back ends, plus wrong shapes; non-trivial: N >= 2 and at least two operations')
ASSUMPTIONS = ['float32 library, complex128 reference; tolerance 2e-5 for observables of norm about 1']
EXAMPLES = {'quick': 210, 'thorough': 1200}
TOL = 2e-5


def fixed(tier):
    for only in (None, gens.TN_KINDS):
        for N in (1, 2, 3, 4):
            for m in ('neardiag', 'nearid', 'nearreal'):
                for eps in (0.05, 1e-2, 1e-3):
                    yield {'N': N, 'ops': gens.deep_ops(N, 3, N, only=only), 'state': {'k': 'rand', 's': N}, 'M': {'k': m, 's': N, 'eps': eps}}
            yield {'N': N, 'ops': gens.deep_ops(N, 3, N, only=only), 'state': {'k': 'basis', 'i': 1}, 'M': {'k': 'nearid', 's': N, 'eps': 0.05, 'scale': 3.0}}
        for N, n in ((1, 30), (1, 140), (2, 25), (2, 40), (2, 70), (3, 33), (4, 26), (6, 5), (7, 4)):
            for scale in (1.0, 1.7):
                yield {'N': N, 'ops': gens.deep_ops(N, n, n, only=only), 'state': {'k': 'rand', 's': n, 'scale': scale}, 'M': {'k': 'rand', 's': n}}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 3, 3, 4, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7]))
    only = draw(st.sampled_from([None, gens.TN_KINDS, gens.TN_KINDS]))
    c = {'N': N, 'state': draw(gens.state(N, scaled=True)), 'M': draw(gens.hermitian(N, True)), 'ops': draw(gens.ops(N, 0, 7 if tier == 'quick' else 12, only=only))}
    if draw(st.integers(0, 4)) == 0:
        c['bad'] = draw(st.sampled_from(['flat', 'col', 'short', 'two', 'M-rect', 'M-small', 'M-big']))
    return c


def nontrivial(c):
    return c['N'] >= 2 and len(c['ops']) >= 2


def labels(c):
    return ['TN' if lib.all_tn(c['ops']) else 'dense only', 'M:' + c['M']['k']] + (['bad:' + c['bad']] if 'bad' in c else [])


def check(c, ctx):
    N = c['N']
    v = ref.state(c['state'], N)
    M = ref.hermitian(c['M'], N)
    cir = lib.circuit(c['ops'], N)
    want = ref.expectation(ref.round_ops(c['ops']), v, M, N)
    tol = TOL * max(1.0, float(np.linalg.norm(v)) ** 2) * max(1.0, abs(c['M'].get('scale', 1.0)))
    psi, Mt = lib.tt(v).view(1, -1), lib.tt(M)
    for kw in ({'TN': True}, {'TN': False}, {}):
        got = cir.cir_expectation(psi, Mt, **kw)
        lib.require(not got.is_complex(), f'cir_expectation({kw}) is complex')
        lib.close(ctx, got, np.float64(want), tol, f'cir_expectation({kw})', shape=())
    # the same state tensor and observable, overwritten by the caller in between
    v2 = v[::-1] * 1j
    M2 = M[::-1, ::-1] * 0.5
    kept = psi.clone()
    for kw in ({'TN': True}, {'TN': False}):
        psi.copy_(lib.tt(v2).view(1, -1))
        lib.close(ctx, cir.cir_expectation(psi, Mt, **kw), np.float64(ref.expectation(ref.round_ops(c['ops']), v2, M, N)), tol, f'cir_expectation({kw}) after the state was overwritten', shape=())
        Mt.copy_(lib.tt(M2))
        lib.close(ctx, cir.cir_expectation(psi, Mt, **kw), np.float64(ref.expectation(ref.round_ops(c['ops']), v2, M2, N)), tol, f'cir_expectation({kw}) after the observable was overwritten', shape=())
        Mt.copy_(lib.tt(M))
    psi.copy_(kept)
    if 'bad' in c:
        p, m = psi, Mt
        b = c['bad']
        if b == 'flat':
            p = psi.view(-1)
        elif b == 'col':
            p = psi.view(-1, 1)
        elif b == 'short':
            p = psi[:, :2 ** (N - 1)]
        elif b == 'two':
            p = lib.torch.cat([psi, psi])
        elif b == 'M-rect':
            m = Mt[:, :2 ** (N - 1)]
        elif b == 'M-small':
            m = Mt[:2 ** (N - 1), :2 ** (N - 1)]
        elif b == 'M-big':
            m = lib.torch.kron(Mt, lib.torch.eye(2) + 0j)
        for tn in (True, False):
            lib.raises(lambda: cir.cir_expectation(p, m, TN=tn), f'cir_expectation with a wrong shape ({b}, TN={tn})')
