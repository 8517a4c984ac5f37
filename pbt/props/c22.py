"""The legacy circuit builder against the reference model."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C22'
SINGLE = {'rx': 'rx', 'ry': 'ry', 'rz': 'rz', 'X': 'PauliX', 'Y': 'PauliY', 'Z': 'PauliZ', 'H': 'Hadamard'}
METHOD = {'X': 'x_gate', 'Y': 'y_gate', 'Z': 'z_gate', 'H': 'Hadamard'}
TWO = ('cnot', 'cz', 'rxx', 'ryy', 'rzz')
RULE = ('every legacy gate at every placement on up to 4 qubits, then random sequences on 1..4 (thorough 5) qubits, a random density matrix and rejected calls on a fresh '
        'circuit; non-trivial: at least two gates')
ASSUMPTIONS = ['gate angles are passed as Python numbers or scalar tensors, as the legacy class accepts']
EXAMPLES = {'quick': 300, 'thorough': 2500}
TOL = 3e-5


def fixed(tier):
    for N in range(1, 5):
        for g in SINGLE:
            for w in gens.placements(N, 1):
                yield {'N': N, 'ops': [one(g, w)], 'rho': {'k': 'mixed', 's': N, 'rank': 2}}
        for g in TWO:
            for w in gens.placements(N, 2):
                yield {'N': N, 'ops': [one(g, w)], 'rho': {'k': 'mixed', 's': N, 'rank': 2}}
        for m in range(2, N + 1):
            for w in gens.placements(N, m):
                yield {'N': N, 'ops': [one('mcx', w)], 'rho': {'k': 'mixed', 's': N, 'rank': 2}}
        for n in (13, 14, 24, 33, 70) + ((130,) if N < 3 else ()):           # long sequences
            ks = sorted(SINGLE) + (list(TWO) if N > 1 else [])
            ops = []
            for i in range(n):
                g = ks[(i * 5 + n) % len(ks)]
                o = one(g, [i % N] if g in SINGLE else [i % N, (i + 1) % N])
                if 'p' in o:
                    o['p'] = gens.FIXED[i % 15]
                ops.append(o)
            yield {'N': N, 'ops': ops, 'rho': {'k': 'mixed', 's': N, 'rank': 2}, 'again': True}
    for N in (5, 6):
        for k in range(3):
            ops = [one('H', [0]), one(TWO[k], [N - 1, 0]), one('ry', [2]), one('mcx', [N - 1, 1, 3]), one(TWO[k + 2], [1, 4])]
            yield {'N': N, 'ops': ops, 'rho': {'k': 'mixed', 's': N, 'rank': 2}}
            yield {'N': N, 'ops': ops[:k], 'rho': {'k': 'prod', 's': N}}
    for N in range(1, 5):
        for b in bads(N):
            yield {'N': N, 'ops': [], 'rho': {'k': 'max'}, 'bad': b}


def one(g, w):
    o = {'g': g, 'w': w}
    if g[0] == 'r':
        o['p'] = 0.83
    return o


def bads(N):
    out = [[g, [w]] for g in SINGLE for w in (-1, N, N + 1)]
    for g in TWO:
        out += [[g, [i, j]] for i in range(-2, N + 3) for j in range(-2, N + 3) if not (0 <= i < N and 0 <= j < N and i != j)]
    out += [['mcx', [i, j]] for i in range(-2, N + 3) for j in range(-2, N + 3) if not (0 <= i < N and 0 <= j < N and i != j)]
    out += [['mcx', w] for w in ([0, 1, N], [N, 0, 1], [0, N, 1], [0, 1, 0], [0, 1, 1], [0, -1, 1], [0, 1, -1], [2 * N, 0, 1], [0, 1, N + 2])]
    return out


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 4 if tier == 'quick' else 5))
    ops = []
    for _ in range(draw(st.integers(0, 8 if tier == 'quick' else 16))):
        g = draw(st.sampled_from(sorted(SINGLE) + (list(TWO) * 2 + ['mcx'] if N > 1 else [])))
        k = 1 if g in SINGLE else 2 if g in TWO else draw(st.integers(2, N))
        o = {'g': g, 'w': draw(gens.distinct_wires(N, k))}
        if g[0] == 'r':
            o['p'] = draw(gens.angles(True))
            o['f'] = draw(st.sampled_from(['num', 'tensor', 'int', 'grad']))
            if o['f'] == 'int':
                o['p'] = int(round(o['p']))
        ops.append(o)
    c = {'N': N, 'ops': ops, 'rho': draw(gens.density(N)), 'again': draw(st.booleans())}
    if draw(st.integers(0, 3)) == 0:
        c['bad'] = draw(st.sampled_from(bads(N)))
    return c


def nontrivial(c):
    return len(c['ops']) >= 2


def labels(c):
    return sorted({'op:' + o['g'] for o in c['ops']}) + (['bad:' + c['bad'][0]] if 'bad' in c else [])


def ref_op(o):
    g = SINGLE.get(o['g']) or ('multi_control_cnot' if o['g'] == 'mcx' else o['g'])
    r = {'g': g, 'w': o['w']}
    if 'p' in o:
        r['p'] = [ref.f32(o['p'])]
    return r


def call(cir, g, w, arg=None):
    m = getattr(cir, METHOD.get(g, 'multi_control_cnot' if g == 'mcx' else g))
    if g == 'mcx':
        return m(list(w[:-1]), w[-1])
    return m(*w) if arg is None else m(*w, arg)


def check(c, ctx):
    N = c['N']
    cir = L.qg.Circuit(N)
    lib.close(ctx, cir.U(), np.eye(2 ** N), 0.0, 'unitary of an empty legacy circuit')
    log = []
    for o in c['ops']:
        arg = None
        if 'p' in o:
            arg = float(o['p']) if o.get('f', 'num') == 'num' else o['p'] if o['f'] == 'int' else lib.torch.tensor(float(o['p']), requires_grad=o['f'] == 'grad')
        call(cir, o['g'], o['w'], arg)
        if o['g'] != 'mcx':
            log.append((o, arg))
    want = ref.unitary([ref_op(o) for o in c['ops']], N)
    lib.close(ctx, cir.U(), want, TOL, 'unitary of the legacy circuit')
    lib.close(ctx, cir.gate_sequence_product(), want, TOL, 'gate_sequence_product')
    rev = ref.unitary([ref_op(o) for o in reversed(c['ops'])], N)
    lib.close(ctx, cir.gate_sequence_product(left_to_right=False), rev, TOL, 'gate_sequence_product in the opposite order')
    lib.close(ctx, cir.U(), want, TOL, 'unitary of the legacy circuit, again')
    gl = cir.gate_list
    lib.equal(len(gl), len(log), 'number of recorded gates')
    for k, ((o, arg), e) in enumerate(zip(log, gl)):
        lib.equal(e['gate'], o['g'], f'name of recorded gate {k}')
        q = e['which_qubit']
        lib.equal([q] if isinstance(q, int) else list(q), o['w'], f'qubits of recorded gate {k}')
        if arg is None:
            lib.require(e['theta'] is None, f'recorded gate {k} has a parameter')
        else:
            lib.require(e['theta'] is not None and abs(float(e['theta']) - float(arg)) <= 1e-6 * max(1.0, abs(float(arg))), f'parameter of recorded gate {k} is {e["theta"]}, not {arg}')
    rho = ref.density(c['rho'], N)
    t = lib.tt(rho)
    d = np.diag(rho).real
    z = np.array([[(d * (1 - 2 * ((np.arange(2 ** N) >> (N - 1 - i)) & 1))).sum()] for i in range(N)])
    with contextlib.redirect_stdout(io.StringIO()):
        m = cir.measure(t, N)
    lib.close(ctx, m, z, 1e-5, 'legacy measurement')
    lib.require(lib.torch.equal(t, lib.tt(rho)), 'the measurement modified the density matrix')
    out = want @ rho @ want.conj().T
    out = (out + out.conj().T) / 2
    d = np.diag(out).real
    with contextlib.redirect_stdout(io.StringIO()):
        m = L.qg.Circuit(N).measure(lib.tt(out), N)
    z = np.array([[(d * (1 - 2 * ((np.arange(2 ** N) >> (N - 1 - i)) & 1))).sum()] for i in range(N)])
    lib.close(ctx, m, z, 1e-5, 'legacy measurement of the evolved state')
    for k in (2.5, -0.75):  # the value is linear in the matrix, which need not be normalised
        with contextlib.redirect_stdout(io.StringIO()):
            m = L.qg.Circuit(N).measure(lib.tt(k * rho), N)
        zz = np.diag(rho).real
        zz = np.array([[k * (zz * (1 - 2 * ((np.arange(2 ** N) >> (N - 1 - i)) & 1))).sum()] for i in range(N)])
        lib.close(ctx, m, zz, 2e-5, f'legacy measurement of {k} times the matrix')
    if c.get('again'):      # a second circuit is independent of the first
        two = L.qg.Circuit(N)
        lib.close(ctx, two.U(), np.eye(2 ** N), 0.0, 'unitary of a second, empty legacy circuit')
        two.x_gate(0)
        lib.close(ctx, cir.U(), want, TOL, 'unitary after another circuit was extended')
        lib.equal(len(cir.gate_list), len(log), 'recorded gates after another circuit was extended')
        cir.Hadamard(N - 1)
        lib.close(ctx, cir.U(), ref.unitary([ref_op(o) for o in c['ops']] + [{'g': 'Hadamard', 'w': [N - 1]}], N), TOL, 'unitary after one more gate')
    if 'bad' in c:
        g, w = c['bad']
        f = L.qg.Circuit(N)
        lib.raises(lambda: call(f, g, w, 0.4 if g[0] == 'r' else None), f'legacy {g} on {w} of {N} qubits')
        lib.close(ctx, f.U(), np.eye(2 ** N), 0.0, f'unitary after the rejected {g} on {w}')
        lib.equal(len(f.gate_list), 0, f'recorded gates after the rejected {g} on {w}')
        f.Hadamard(0)           # a rejected call leaves no trace between two accepted ones
        lib.raises(lambda: call(f, g, w, 0.4 if g[0] == 'r' else None), f'legacy {g} on {w} of {N} qubits')
        f.rx(N - 1, 0.37)
        want = ref.unitary([{'g': 'Hadamard', 'w': [0]}, {'g': 'rx', 'w': [N - 1], 'p': [0.37]}], N)
        lib.close(ctx, f.U(), want, TOL, f'unitary with a rejected {g} on {w} in between')
        lib.equal([(e['gate'], e['which_qubit']) for e in f.gate_list], [('H', 0), ('rx', N - 1)], f'recorded gates with a rejected {g} on {w} in between')
