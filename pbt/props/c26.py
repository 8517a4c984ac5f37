"""Impossible operations and states are rejected."""
import itertools

import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C26'
RULE = ('every gate kind at every wire tuple from -2..N+1 containing at least one impossible wire (out of the register, negative, coinciding) for N <= 3, in every form, every parametrised gate with a wrong number of parameters, every layer with wires out of the register, negative or repeated, or with every wrong parameter '
        'count around the right one, with too many or too few wires, and states of every wrong size, plus random ones for N up to 6; every such case is non-trivial, and each is paired with '
        'the corresponding possible one, which must be accepted')
ASSUMPTIONS = ['rejected means that an exception is raised by constructing or by using the operation', 'two controls that coincide are not listed (their dense form acts as one control)']
EXAMPLES = {'quick': 800, 'thorough': 3000}
TOL = 3e-5
ONE = ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3
TWO = ref.DOUBLE0 + ref.DOUBLE1 + ref.DOUBLE3
LAY = ref.LAYERS


def impossible(w, N):
    """Out of the register, or the target coincides with another wire."""
    return any(i < 0 or i >= N for i in w) or w[-1] in w[:-1]


def fixed(tier):
    for N in (1, 2, 3):
        rng = range(-2, N + 2)
        for g in ref.GATES:
            for k in ([1] if g in ONE else [2] if g in TWO else [3] if g == 'toffoli' else [2, 3]):
                for w in itertools.product(rng, repeat=k):
                    w = list(w)
                    if impossible(w, N):
                        if k == 3 and (N + 3 * w[0] + 5 * w[1] + 7 * w[2]) % (1 if tier == 'thorough' else 4):
                            continue
                        yield {'t': 'gate', 'N': N, 'g': g, 'w': w}
    for N, k in ((5, 4), (5, 5), (6, 5), (6, 6)):      # many controls, one of them the target
        for j in range(k - 1):
            w = [(3 * i + j) % 5 if N == 5 else (5 * i + j) % 6 for i in range(k)]
            w[-1] = w[j]
            yield {'t': 'gate', 'N': N, 'g': 'multi_control_cnot', 'w': w}
    for g in ref.GATES:
        for how in ('none', 'nowires', 'noregister'):
            if g != 'multi_control_cnot':
                yield {'t': 'bare', 'g': g, 'how': how}
    for g in gens.PARAM_KINDS:
        if g in ref.GATES:
            n = 3 if g in ref.SINGLE3 + ref.DOUBLE3 else 1
            for m in (0, 1, 2, 3, 4, 5, 8):
                if m != n:
                    yield {'t': 'gcount', 'N': 3, 'g': g, 'w': [1] if g in ONE else [2, 0], 'n': m}
    for N in range(1, 5):
        for g in LAY:
            lo = 2 if g in ref.RINGS or g == 'BasicEntangleLayer' else 1
            for m in range(lo, N + 1):
                n = ref.n_params(g, range(m))
                if n:
                    for d in (-n, -3, -2, -1, 1, 2, 3, n):
                        if n + d >= 0:
                            yield {'t': 'count', 'N': N, 'g': g, 'w': list(range(m)), 'n': n + d}
                            yield {'t': 'update', 'N': N, 'g': g, 'w': list(range(m))[::-1], 'n': n + d}
            for m in (N + 1, N + 2):
                yield {'t': 'wires', 'N': N, 'g': g, 'w': list(range(m))}
            for w in ([0] * (N + 1), [i % N for i in range(N + 2)]):
                yield {'t': 'wires', 'N': N, 'g': g, 'w': w}
            if lo == 2:
                for m in (0, 1):
                    yield {'t': 'wires', 'N': N, 'g': g, 'w': list(range(m))}
    for N in (1, 2, 3, 4):
        for g in LAY + ('PauliEncoding',):
            for m in range(1, N + 1):
                for j, x in itertools.product(range(m), (-2, -1, N, N + 1, 0, N - 1)):
                    w = [(k + N // 2) % N for k in range(m)]
                    w[j] = x
                    if any(i < 0 or i >= N for i in w) or len(set(w)) < m:
                        yield {'t': 'lwires', 'N': N, 'g': g, 'w': w}
    for N in range(2, 4):
        for rep in (0, -1):
            yield {'t': 'repeat', 'N': N, 'w': list(range(N)), 'rep': rep}
        for rep in (2, 3):
            for n in (3 * N, 3 * N * rep - 1, 3 * N * rep + 1):
                yield {'t': 'repeat', 'N': N, 'w': list(range(N)), 'rep': rep, 'n': n}
                if n != 3 * N * rep:
                    yield {'t': 'update', 'N': N, 'g': 'BasicEntangleLayer', 'w': list(range(N)), 'rep': rep, 'n': n}
            yield {'t': 'update', 'N': N, 'g': 'BasicEntangleLayer', 'w': list(range(N)), 'rep': rep, 'n': 3 * N * (rep + 1)}
    for N in (1, 2, 3, 4):
        for M in range(1, 6):
            for k in ('zero', 'rand'):
                if M != N:
                    yield {'t': 'overlap', 'N': N, 'M': M, 'k': k}
        for w in range(-N - 1, 2 * N + 2):
            if not 0 <= w < N:
                yield {'t': 'local', 'N': N, 'w': [w], 'n': 1}
                yield {'t': 'local', 'N': N, 'w': list(range(N))[::-1] + [w], 'n': N + 1}
                yield {'t': 'measure', 'N': N, 'w': [w]}
                yield {'t': 'measure', 'N': N, 'w': list(range(N))[::-1] + [w]}
        for m in range(N + 1):
            for n in range(N + 2):
                if m != n:
                    yield {'t': 'local', 'N': N, 'w': list(range(N))[::-1][:m], 'n': n}
    for w in ([0, 1], [0], [0, 1, 2, 3], []):
        yield {'t': 'toffoli', 'N': 4, 'w': w}
    for N in range(1, 5):
        for d in (-2, -1, 1, 2):
            if N + d >= 0:
                yield {'t': 'state', 'N': N, 'd': d, 'ops': []}
                for k in ref.SINGLE0[:1] + ('rz', 'XZLayer', 'HLayer'):
                    yield {'t': 'state', 'N': N, 'd': d, 'ops': [dict({'g': k, 'w': [0]}, **({'p': gens.fixed_params(ref.n_params(k, [0]))} if ref.n_params(k, [0]) else {}))] * 2}
                yield {'t': 'state', 'N': N, 'd': d, 'ops': [{'g': 'Hadamard', 'w': [0]}]}


@st.composite
def strategy(draw, tier):
    t = draw(st.sampled_from(['gate', 'gate', 'gate', 'count', 'update', 'wires', 'lwires', 'lwires', 'state', 'state', 'after', 'overlap', 'local', 'measure']))
    N = draw(st.integers(1, 6))
    if t in ('gate', 'after'):
        g = draw(st.sampled_from(ref.GATES))
        k = 1 if g in ONE else 2 if g in TWO else 3 if g == 'toffoli' else draw(st.integers(2, 5))
        w = [draw(st.integers(0, N - 1)) for _ in range(k)]
        j = draw(st.integers(0, k - 1))
        mode = draw(st.sampled_from(['low', 'high', 'high', 'same']))
        if mode == 'same' and k > 1:
            w[-1] = w[draw(st.integers(0, k - 2))]
        elif mode == 'low' and k > 1:
            w[j] = draw(st.integers(-2 * N, -1))
        elif mode == 'low':
            w[j] = draw(st.integers(-2 * N - 1, -1))
        else:
            w[j] = draw(st.integers(N, 2 * N + 1))
        return {'t': t, 'N': N, 'g': g, 'w': w, 'ops': draw(gens.ops(N, 1, 3)) if t == 'after' else []}
    if t in ('count', 'update'):
        g = draw(st.sampled_from([k for k in LAY if ref.n_params(k, [0, 1])]))
        if g == 'BasicEntangleLayer' and N < 2:
            N = 2
        w = draw(gens.layer_wires(N, 2 if g == 'BasicEntangleLayer' else 1))
        n = ref.n_params(g, w)
        return {'t': t, 'N': N, 'g': g, 'w': w, 'n': draw(st.integers(0, 4 * n).filter(lambda x: x != n))}
    if t == 'lwires':
        g = draw(st.sampled_from(LAY + ('PauliEncoding',)))
        w = draw(st.permutations(range(N)))[:draw(st.integers(1, N))]
        j = draw(st.integers(0, len(w) - 1))
        w[j] = draw(st.sampled_from([-1, -N, -N - 1, N, N + 1, 2 * N] + [w[(j + 1) % len(w)]] * 2))
        if len(set(w)) == len(w) and 0 <= w[j] < N:
            w[j] = -1
        return {'t': t, 'N': N, 'g': g, 'w': w}
    if t == 'overlap':
        return {'t': t, 'N': N, 'M': draw(st.integers(1, 9).filter(lambda m: m != N)), 'k': draw(st.sampled_from(['zero', 'rand']))}
    if t in ('local', 'measure'):
        w = draw(gens.distinct_wires(N, draw(st.integers(0, N))))
        if t == 'local' and draw(st.booleans()):
            return {'t': t, 'N': N, 'w': w, 'n': draw(st.integers(0, N + 2).filter(lambda n: n != len(w)))}
        w.insert(draw(st.integers(0, len(w))), draw(st.sampled_from([-1, -2, -N, -N - 1, N, N + 1, 2 * N])) if N > 1 else -1)
        return {'t': t, 'N': N, 'w': w, 'n': len(w)} if any(not 0 <= i < N for i in w) else {'t': t, 'N': N, 'w': [-1], 'n': 1}
    if t == 'wires':
        g = draw(st.sampled_from(LAY))
        return {'t': t, 'N': N, 'g': g, 'w': list(range(draw(st.integers(N + 1, N + 4))))}
    return {'t': 'state', 'N': N, 'd': draw(st.sampled_from([-2, -1, 1, 2, 3])), 'ops': draw(gens.ops(N, 1, 3, only=gens.TN_KINDS))}


def nontrivial(c):
    return True


def labels(c):
    return ['t:' + c['t']] + (['g:' + c['g']] if 'g' in c else [])


def params(g, n):
    p = gens.fixed_params(n, 1)
    return lib.torch.tensor(p[0]) if g in ref.SINGLE1 + ref.DOUBLE1 else lib.torch.tensor(p)


def make(g, N, w, n=None, rep=None):
    n = ref.n_params(g, w, rep or 1) if n is None else n
    if g in ref.GATES:
        a = [params(g, n)] if n else []
        return lib.ctor(g)(*a, N, w[0] if g in ONE else list(w))
    if ref.n_params(g, [0, 1]):
        a = (rep,) if rep is not None else ()
        return lib.ctor(g)(N, list(w), lib.torch.tensor(gens.fixed_params(n)), *a)
    return lib.ctor(g)(N, list(w))


def network_forms(mk, N, what):
    psi = lib.torch.full([1, 2 ** N], 2 ** (-N / 2)) + 0j
    lib.raises(lambda: mk().TN_operation(L.tn.StateVec2MPS(psi, N)), f'MPS form of {what}')
    lib.raises(lambda: mk().TN_contract(psi.view([2] * N)), f'contraction of {what}')
    for b in (1, 2):
        lib.raises(lambda: mk().TN_contract(lib.torch.cat([psi] * b).view([b] + [2] * N), batch_mod=True), f'batched contraction ({b}) of {what}')


def check(c, ctx):
    t = c['t']
    if t in ('gate', 'after'):
        g, N, w = c['g'], c['N'], c['w']
        lib.require(impossible(w, N), 'the case is not impossible')
        lib.raises(lambda: make(g, N, w).U_expand(), f'{g} on wires {w} of {N} qubits')

        def through_circuit():
            cir = lib.circuit(c.get('ops') or [], N)
            cir.add(make(g, N, w))
            return cir.U()
        lib.raises(through_circuit, f'unitary of a circuit with {g} on wires {w} of {N} qubits')
        if g in gens.TN_KINDS:
            network_forms(lambda: make(g, N, w), N, f'{g} on wires {w} of {N} qubits')
        k = len(w)
        if N >= k:          # the same gate where it is possible
            v = list(range(k))[::-1]
            lib.close(ctx, make(g, N, v).U_expand(), ref.unitary(ref.round_ops([{'g': g, 'w': v, 'p': gens.fixed_params(ref.n_params(g, v), 1)}]), N), TOL, f'{g} on wires {v} of {N} qubits')
    elif t == 'bare':
        g = c['g']
        n = ref.n_params(g, [0])
        a = [params(g, n)] if n else []
        w = 0 if g in ONE else [0, 1] if g in TWO else [0, 1, 2]
        mk = {'none': lambda: lib.ctor(g)(*a), 'nowires': lambda: lib.ctor(g)(*a, 3), 'noregister': lambda: lib.ctor(g)(*a, wires=w)}[c['how']]
        lib.raises(lambda: mk().U_expand(), f'expansion of {g} {c["how"]}')
        lib.raises(lambda: mk().TN_contract(lib.torch.ones(2, 2, 2) + 0j), f'contraction of {g} {c["how"]}')
        lib.raises(lambda: mk().TN_operation(L.tn.StateVec2MPS(lib.torch.ones(1, 8) + 0j, 3)), f'MPS form of {g} {c["how"]}')
    elif t == 'count':
        g, N, w, n = c['g'], c['N'], c['w'], c['n']
        for form in ('tensor', 'list'):
            p = gens.fixed_params(n)
            p = lib.torch.tensor(p) if form == 'tensor' else p
            lib.raises(lambda: lib.ctor(g)(N, list(w), p), f'{g} on {w} with {n} parameters ({form})')
            lib.raises(lambda: getattr(L.Circuit(N), g)(list(w), p), f'Circuit.{g} on {w} with {n} parameters ({form})')
        make(g, N, w).U_expand()
    elif t == 'gcount':
        g, N, w, n = c['g'], c['N'], c['w'], c['n']
        a = w[0] if g in ONE else list(w)
        for form in ('tensor', 'list'):
            p = lib.torch.tensor(gens.fixed_params(n)) if form == 'tensor' else gens.fixed_params(n)
            lib.raises(lambda: lib.ctor(g)(p, N, a), f'{g} with {n} parameters ({form})')
            lib.raises(lambda: getattr(L.Circuit(N), g)(p, a), f'Circuit.{g} with {n} parameters ({form})')
            o = make(g, N, w)
            lib.raises(lambda: o.params_update(p), f'update of {g} with {n} parameters ({form})')
            lib.close(ctx, o.U_expand(), ref.unitary(ref.round_ops([{'g': g, 'w': w, 'p': gens.fixed_params(ref.n_params(g, w), 1)}]), N), TOL, f'{g} after a rejected update')
    elif t == 'update':
        g, N, w, n, rep = c['g'], c['N'], c['w'], c['n'], c.get('rep')
        want = ref.unitary(ref.round_ops([dict({'g': g, 'w': w, 'p': gens.fixed_params(ref.n_params(g, w, rep or 1))}, **({'repeat': rep} if rep else {}))]), N)
        for form in ('tensor', 'list'):
            o = make(g, N, w, rep=rep)
            cir = L.Circuit(N)
            cir.add(o)
            p = gens.fixed_params(n)
            p = lib.torch.tensor(p) if form == 'tensor' else p
            lib.raises(lambda: o.params_update(p), f'update of {g} on {w} with {n} parameters ({form})')
            lib.close(ctx, o.U_expand(), want, TOL, f'{g} after a rejected update')
            lib.close(ctx, cir.U(), want, TOL, f'circuit with {g} after a rejected update')
            lib.require(len(o.info()['params']) == ref.n_params(g, w, rep or 1) == o.num_params, f'{g} reports {len(o.info()["params"])} parameters after a rejected update')
    elif t == 'wires':
        g, N, w = c['g'], c['N'], c['w']
        lib.raises(lambda: make(g, N, w), f'{g} on {len(w)} wires of {N} qubits')
        lo = 2 if g in ref.RINGS or g == 'BasicEntangleLayer' else 1
        if N >= lo:
            make(g, N, list(range(N))).U_expand()
    elif t == 'lwires':
        g, N, w = c['g'], c['N'], c['w']
        mk = (lambda: L.em.PauliEncoding(N, lib.torch.tensor([0.3]), list(w), 'XYZ'[len(w) % 3])) if g == 'PauliEncoding' else (lambda: make(g, N, w))
        lib.raises(lambda: mk().U_expand(), f'{g} on wires {w} of {N} qubits')
        network_forms(mk, N, f'{g} on wires {w} of {N} qubits')
        if len(w) <= N and N >= 2:         # the same layer where it is possible
            w = list(range(max(len(w), 2)))[::-1]
            mk().U_expand()
    elif t == 'repeat':
        N, w, rep = c['N'], c['w'], c['rep']
        lib.raises(lambda: make('BasicEntangleLayer', N, w, c.get('n', max(0, 3 * len(w) * rep)), rep), f'BasicEntangleLayer repeated {rep} times with {c.get("n")} parameters')
    elif t == 'overlap':
        a, b = [L.tn.StateVec2MPS(lib.tt(ref.state({'k': 'basis', 'i': 0} if c['k'] == 'zero' else {'k': 'rand', 's': m}, m)).view(1, -1), m) for m in (c['N'], c['M'])]
        lib.raises(lambda: L.tn.MPS_inner_product(a, b), f'overlap of a ket of {c["N"]} and a bra of {c["M"]} qubits')
        L.tn.MPS_inner_product(a, a)
    elif t in ('local', 'measure'):
        N, w = c['N'], c['w']
        psi = lib.tt(ref.state({'k': 'rand', 's': N}, N)).view(1, -1)
        if t == 'local':
            obs = [lib.tt(np.diag([1.0, -1.0]))] * c['n']
            lib.raises(lambda: L.tn.MPS_expec(L.tn.StateVec2MPS(psi, N), list(w), obs), f'expectation of {c["n"]} observables on {w} of {N} qubits')
            L.tn.MPS_expec(L.tn.StateVec2MPS(psi, N), [N - 1], obs[:1] or [lib.tt(np.eye(2))])
        else:
            rho = psi.view(-1, 1) @ psi.conj()
            for form in [w] + w[-1:] if len(w) == 1 else [w]:
                lib.raises(lambda: L.qm.measure(N, rho, ith=form), f'measurement of qubits {form} of {N}')
            L.qm.measure(N, rho, ith=N - 1)
    elif t == 'toffoli':
        lib.raises(lambda: L.op.toffoli(c['N'], c['w']), f'toffoli on {c["w"]}')
        lib.raises(lambda: L.Circuit(c['N']).toffoli(c['w']), f'Circuit.toffoli on {c["w"]}')
    else:
        N, d = c['N'], c['d']
        cir = lib.circuit(c['ops'], N)
        m = max(N + d, 0)
        T = lib.torch.full([2] * m, 2 ** (-m / 2)) + 0j
        lib.raises(lambda: cir.TN_contract_evolution(T), f'contraction evolution of a rank-{m} state on {N} qubits')
        B = lib.torch.full([2] * (m + 1), 2 ** (-m / 2)) + 0j
        lib.raises(lambda: cir.TN_contract_evolution(B, batch_mod=True), f'batched contraction evolution of rank-{m} states on {N} qubits')
        if m:
            mps = L.tn.StateVec2MPS(T.reshape(1, -1), m)
            lib.raises(lambda: cir.TN_evolution(mps), f'MPS evolution of {m} tensors on {N} qubits')
        psi = T.reshape(1, -1)
        M = lib.torch.eye(2 ** N) + 0j
        for tn in (True, False):
            lib.raises(lambda: cir.cir_expectation(psi, M, TN=tn), f'expectation of a state of {m} qubits on {N} qubits')
        good = lib.torch.full([1, 2 ** N], 2 ** (-N / 2)) + 0j
        cir.TN_contract_evolution(good.view([2] * N))
        cir.TN_evolution(L.tn.StateVec2MPS(good, N))
