"""Gradients through encodings, functional layers, the legacy circuit and reductions, against numerical derivatives."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L
from props import c22, c23

ID = 'C27'
KINDS = ('pauli', 'amp', 'func', 'legacy', 'reduce', 'reduce', 'rho', 'mps', 'expect', 'form')
RULE = ('losses through Pauli and amplitude encodings (followed by random circuits), functional layers, legacy circuits, partial traces, measurements of chosen qubits (of evolved states and of density matrices given directly, sparse ones included), MPS overlaps '
        'and local expectations, the dense circuit expectation and the rank-N forms; every differentiable input is one real vector; non-trivial: at least two inputs')
ASSUMPTIONS = ['derivatives from a 4th-order difference of the complex128 model; tolerance 2e-4 (relative to the largest derivative above 1)',
               'PrepareState, gram_encoding and decompositions of complex tensors are documented or known not to be differentiable and are left out']
EXAMPLES = {'quick': 240, 'thorough': 900}
TOL = 2e-4


@st.composite
def strategy(draw, tier):
    k = draw(st.sampled_from(KINDS))
    N = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    c = {'k': k, 'N': N, 's': draw(gens.seeds)}
    if k in ('pauli', 'amp', 'reduce', 'expect'):
        c['form'] = draw(st.sampled_from(['dense', 'contract', 'batch'])) if k != 'expect' else 'dense'
        only = gens.TN_KINDS if c['form'] != 'dense' else None
        c['ops'] = draw(gens.ops(N, 0, 3, only=only, forms=False))
        c['state'] = draw(gens.state(N))
        c['M'] = draw(gens.hermitian(N))
    if k == 'pauli':
        c['axis'] = draw(st.sampled_from('XYZ'))
        c['w'] = draw(gens.distinct_wires(N, draw(st.integers(1, N))))
        c['x'] = [draw(gens.angles()) for _ in range(draw(st.integers(1, N)))]
    elif k == 'amp':
        n = draw(st.integers(1, 2 ** N))
        c['x'] = [draw(st.floats(-3, 3).map(gens.rnd3)) for _ in range(n)]
        if max(abs(a) for a in c['x']) < 0.1:
            c['x'][draw(st.integers(0, n - 1))] = 1.0
    elif k == 'func':
        f = draw(st.sampled_from([g for g in c23.ALL if g not in c23.RINGS and g != 'HLayer']))
        N = c['N'] = max(N, 1 if f in c23.ROT else 2)
        c['f'], c['sg'] = f, draw(st.sampled_from(c23.SG)) if f in c23.BLOCKS else None
        c['x'] = [draw(gens.angles()) for _ in range(c23.n_params(f, N, c['sg']))]
    elif k == 'legacy':
        c['ops'] = []
        for _ in range(draw(st.integers(1, 6))):
            g = draw(st.sampled_from(['rx', 'ry', 'rz', 'H', 'X', 'Y', 'Z'] + (['cnot', 'cz', 'rxx', 'ryy', 'rzz', 'rxx', 'ryy', 'rzz', 'mcx'] if N > 1 else [])))
            m = 1 if g in c22.SINGLE else 2 if g in c22.TWO else draw(st.integers(2, N))
            o = {'g': g, 'w': draw(gens.distinct_wires(N, m))}
            if g[0] == 'r':
                o['p'] = draw(gens.angles())
            c['ops'].append(o)
        if not any('p' in o for o in c['ops']):
            c['ops'].append({'g': 'ry', 'w': [0], 'p': draw(gens.angles())})
        c['x'] = [o['p'] for o in c['ops'] if 'p' in o]
    elif k == 'reduce':
        c['ops'].insert(draw(st.integers(0, len(c['ops']))), draw(gens.op(N, only=[g for g in gens.PARAM_KINDS if c['form'] == 'dense' or g not in ref.NO_TN], forms=False)))
        c['red'] = draw(st.sampled_from(['partial_trace', 'partial_trace_old', 'ptrace', 'list', 'one', 'rholist', 'expval', 'expval_rho']))
        c['out'] = draw(gens.distinct_wires(N, draw(st.integers(0, N))))
        c['x'] = [x for o in c['ops'] for x in o.get('p') or []]
    elif k == 'rho':
        c['red'] = draw(st.sampled_from(['partial_trace', 'partial_trace_old', 'ptrace', 'rholist', 'one', 'expval_rho']))
        c['out'] = draw(gens.distinct_wires(N, draw(st.integers(0, N))))
        c['base'] = draw(st.sampled_from(['basis', 'diag', 'pure', 'mixed', 'product']))
        c['x'] = [draw(st.one_of(st.just(0.0), st.floats(-1, 1).map(gens.rnd3))) for _ in range(draw(st.integers(1, 4)))]
    elif k == 'mps':
        c['bonds'] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
        c['what'] = draw(st.sampled_from(['inner', 'norm', 'expec', 'vec', 'rank']))
        c['w'] = draw(gens.distinct_wires(N, draw(st.integers(1, N))))
        c['x'] = [draw(st.floats(-1.5, 1.5).map(gens.rnd3)) for _ in range(draw(st.integers(1, 3)))]
    elif k == 'expect':
        c['ops'].insert(draw(st.integers(0, len(c['ops']))), draw(gens.op(N, only=gens.PARAM_KINDS, forms=False)))
        c['x'] = [x for o in c['ops'] for x in o.get('p') or []]
    else:
        c['what'] = draw(st.sampled_from(['mpdo', 'mprod', 'kron', 'dag']))
        c['x'] = [draw(st.floats(-1.5, 1.5).map(gens.rnd3)) for _ in range(draw(st.integers(1, 4)))]
    return c


def fixed(tier):
    for N in (1, 2, 3):
        for red in ('partial_trace', 'partial_trace_old', 'ptrace', 'rholist', 'one', 'expval_rho'):
            for base in ('basis', 'diag', 'product', 'mixed'):
                yield {'k': 'rho', 'N': N, 's': 3, 'red': red, 'out': [0], 'base': base, 'x': [0.0, 0.0, 0.3]}
        for axis in 'XYZ':
            for form in ('dense', 'contract', 'batch'):
                yield {'k': 'pauli', 'N': N, 's': 1, 'form': form, 'ops': [{'g': 'Hadamard', 'w': [0]}], 'state': {'k': 'rand', 's': 4}, 'M': {'k': 'rand', 's': 2},
                       'axis': axis, 'w': list(range(N))[::-1], 'x': [0.7, -1.1, 2.3][:max(1, N - 1)]}
        for f in c23.ALL:
            if f in c23.RINGS or f == 'HLayer' or (N == 1 and f not in c23.ROT):
                continue
            for sg in (c23.SG if f in c23.BLOCKS else [None]):
                yield {'k': 'func', 'N': N, 's': 3, 'f': f, 'sg': sg, 'x': gens.fixed_params(c23.n_params(f, N, sg), N)}
        for red in ('partial_trace', 'partial_trace_old', 'ptrace', 'list', 'one', 'rholist', 'expval', 'expval_rho'):
            ops = [{'g': 'u3', 'w': [i], 'p': gens.fixed_params(3, i)} for i in range(N)] + ([{'g': 'cu3', 'w': [N - 1, 0], 'p': [0.4, 0.9, -0.3]}] if N > 1 else [])
            yield {'k': 'reduce', 'N': N, 's': 5, 'form': 'dense', 'ops': ops, 'state': {'k': 'rand', 's': 4}, 'M': {'k': 'rand', 's': 2}, 'red': red, 'out': [N - 1],
                   'x': [x for o in ops for x in o['p']]}
    for N in (4, 5):
        for red in ('partial_trace', 'partial_trace_old', 'ptrace', 'rholist', 'one'):
            for j, out in enumerate(([], [0], [1], [N - 1], [2, 0], [3, 1], [0, 1, 2])):
                if N == 4 or j % 3 == len(red) % 3:
                    yield {'k': 'rho', 'N': N, 's': 3 + j, 'red': red, 'out': out, 'base': ('mixed', 'product', 'pure')[j % 3], 'x': [0.2, -0.4, 0.3]}
        for j, red in enumerate(('partial_trace', 'partial_trace_old', 'ptrace', 'list', 'rholist', 'expval_rho')):
            if N == 4:
                ops = [{'g': 'u3', 'w': [i], 'p': gens.fixed_params(3, i)} for i in range(N)] + [{'g': 'cu3', 'w': [N - 1, 0], 'p': [0.4, 0.9, -0.3]}]
                yield {'k': 'reduce', 'N': N, 's': 5, 'form': 'dense', 'ops': ops, 'state': {'k': 'rand', 's': 4}, 'M': {'k': 'rand', 's': 2}, 'red': red, 'out': [[], [2], [1, 3]][j % 3],
                       'x': [x for o in ops for x in o['p']]}
        for f in c23.ALL:
            if f not in c23.RINGS and f != 'HLayer':
                yield {'k': 'func', 'N': N, 's': 3, 'f': f, 'sg': 'XYZ' if f in c23.BLOCKS else None, 'x': gens.fixed_params(c23.n_params(f, N, 'XYZ' if f in c23.BLOCKS else None), N)}
    for N in (1, 2, 3, 4):
        for g in ('rx', 'ry', 'rz', 'rxx', 'ryy', 'rzz'):
            m = 1 if len(g) == 2 else 2
            for w in gens.placements(N, m):
                if N > 1 or m == 1:
                    first = {'g': 'H', 'w': [w[0]]}
                    yield {'k': 'legacy', 'N': N, 's': 6, 'ops': [first, {'g': g, 'w': list(w), 'p': 0.83}, {'g': g, 'w': list(w)[::-1], 'p': -1.7}], 'x': [0.83, -1.7]}
    for N in (2, 3, 4):
        for n in sorted({1, 3, 2 ** N - 1, 2 ** N}):
            yield {'k': 'amp', 'N': N, 's': 1, 'form': 'dense', 'ops': [{'g': 'Hadamard', 'w': [0]}], 'state': {'k': 'basis', 'i': 0}, 'M': {'k': 'rand', 's': 2},
                   'x': [round(0.3 + 0.37 * ((i * 5) % 7) - 0.9 * (i % 2), 3) for i in range(n)]}


def nontrivial(c):
    return len(c['x']) >= 2


def labels(c):
    return ['kind:' + c['k']] + (['form:' + c['form']] if 'form' in c else []) + (['reduce:' + c['red']] if 'red' in c else []) + (['what:' + c['what']] if 'what' in c else [])


def with_params(ops, x):
    """The operations with their parameters taken from the flat vector x, in order."""
    out, i = [], 0
    for o in ops:
        n = len(o['p']) if isinstance(o.get('p'), list) else 0
        out.append(dict(o, p=list(x[i:i + n])) if n else o)
        i += n
    return out


def lib_circuit(ops, N, p):
    """The circuit whose parameters are slices of the tensor p (or plain ones when p is None)."""
    cir, i = L.Circuit(N), 0
    for o in ops:
        n = len(o.get('p') or [])
        par = None
        if n and p is not None:
            par = p[i] if o['g'] in ref.SINGLE1 + ref.DOUBLE1 else p[i:i + n]
        cir.add(lib.build(o, N, par))
        i += n
    return cir


def directions(c, shape, n, first):
    r = np.random.default_rng(c['s'])
    f = lambda: (r.normal(size=shape) + 1j * r.normal(size=shape)).astype(np.complex64).astype(complex) * 0.5
    return [f() if first else np.zeros(shape)] + [f() for _ in range(n)]


def pair(A, B):
    """Re sum(conj(A) * B), the scalar loss of a complex result."""
    return (A.conj() * B).real.sum()


def losses(c):
    """(loss of a float64 vector in the model, loss of a torch vector through the library)."""
    t = lib.torch
    N, k, r = c['N'], c['k'], np.random.default_rng(c['s'] + 1)
    D = 2 ** N
    rc = lambda *s: (r.normal(size=s) + 1j * r.normal(size=s)).astype(np.complex64).astype(complex)
    if k in ('pauli', 'amp', 'expect', 'reduce'):
        v, M = ref.state(c['state'], N), ref.hermitian(c['M'], N)
        Mt = lib.tt(M)
    if k in ('pauli', 'amp'):
        ops = ref.round_ops(c['ops'])
        e = lambda psi: np.vdot(psi, M @ psi).real

        def through(s, enc):
            """The encoded circuit applied to s in the requested form; enc may be None."""
            cir = lib.circuit(c['ops'], N)
            if c['form'] == 'dense':
                U = cir.U() @ enc.U_expand() if enc else cir.U()
                return (U @ s.view(-1, 1)).view(-1)
            if c['form'] == 'contract':
                T = s.view([2] * N)
                return cir.TN_contract_evolution(enc.TN_contract(T) if enc else T).reshape(-1)
            T = t.stack([s, s * 0]).view([2] + [2] * N)
            return cir.TN_contract_evolution(enc.TN_contract(T, batch_mod=True) if enc else T, batch_mod=True)[0].reshape(-1)
    if k == 'pauli':
        def model(x):
            enc = ref.local(N, {q: ref.rot(c['axis'], x[i % len(x)]) for i, q in enumerate(c['w'])})
            return e(ref.evolve(ops, enc @ v, N))

        def real(x):
            psi = through(lib.tt(v), L.em.PauliEncoding(N, x, list(c['w']), c['axis']))
            return (psi.conj() @ Mt @ psi).real
    elif k == 'amp':
        def model(x):
            a = np.zeros(D, dtype=complex)
            a[:len(x)] = x
            return e(ref.evolve(ops, a / np.linalg.norm(a), N))

        def real(x):
            psi = through(L.em.AmplitudeEncoding(N, x).encoded_state(), None)
            return (psi.conj() @ Mt @ psi).real
    elif k == 'func':
        W = rc(D, D) / D

        def model(x):
            return pair(W, c23.want({'f': c['f'], 'N': N, 'p': [0.0] * len(x), 'exact': list(x), 'down': None, 'sg': c['sg']}))

        def real(x):
            return pair(lib.tt(W), getattr(L.qf, c['f'])(N, x, *((c['sg'],) if c['sg'] else ())))
    elif k == 'legacy':
        W = rc(D, D) / D

        def model(x):
            it = iter(x)
            return pair(W, ref.unitary([dict(c22.ref_op(o), p=[next(it)]) if 'p' in o else c22.ref_op(o) for o in c['ops']], N))

        def real(x):
            q, i = L.qg.Circuit(N), 0
            for o in c['ops']:
                c22.call(q, o['g'], o['w'], x[i] if 'p' in o else None)
                i += 'p' in o
            return pair(lib.tt(W), q.U())
    elif k == 'expect':
        def model(x):
            return ref.expectation(with_params(c['ops'], x), v, M, N)

        def real(x):
            return lib_circuit(c['ops'], N, x).cir_expectation(lib.tt(v).view(1, -1), Mt, TN=False)
    elif k == 'reduce':
        red, out = c['red'], c['out']
        m = out if red.startswith('partial') else list(range(len(out), N)) if red == 'ptrace' else []
        d = 2 ** (N - len(m))
        W = rc(d, d)
        wl = out or list(range(N))
        wt = r.normal(size=N).astype(np.float32).astype(float)

        def model(x):
            psi = ref.evolve(with_params(c['ops'], x), v, N)
            if red.startswith('expval'):
                return np.vdot(psi, M @ psi).real
            if red in ('list', 'rholist', 'one'):
                q = wl[:1] if red == 'one' else wl
                return sum(wt[j] * ref.zexp(psi, N, i) for j, i in enumerate(q))
            return pair(W, ref.ptrace(np.outer(psi, psi.conj()), N, m))

        def real(x):
            cir = lib_circuit(c['ops'], N, x)
            if c['form'] == 'dense':
                psi = (cir.U() @ lib.tt(v).view(-1, 1)).view(-1)
            elif c['form'] == 'contract':
                psi = cir.TN_contract_evolution(lib.tt(v).view([2] * N)).reshape(-1)
            else:
                psi = cir.TN_contract_evolution(lib.tt(np.stack([v * 0, v])).view([2] + [2] * N), batch_mod=True)[1].reshape(-1)
            rho = psi.view(-1, 1) @ psi.conj().view(1, -1)
            rho = rho / t.trace(rho).detach().real
            if red == 'expval':
                return L.qm.expval(psi, Mt)
            if red == 'expval_rho':
                return L.qm.expval(rho, Mt, rho=True)
            if red in ('list', 'rholist', 'one'):
                s = rho if red == 'rholist' else psi
                z = L.qm.measure(N, s, wl[0] if red == 'one' else list(wl)).reshape(-1)
                return (z * t.tensor(wt[:len(z)], dtype=z.dtype)).sum()
            got = L.qm.ptrace(rho, N - len(m), len(m)) if red == 'ptrace' else getattr(L.qm, red)(rho, N, list(out))
            return pair(lib.tt(W), got)
    elif k == 'rho':
        red, out, wl = c['red'], c['out'], c['out'] or list(range(N))
        if c['base'] == 'basis':
            rho0 = np.zeros((D, D), dtype=complex)
            rho0[c['s'] % D, c['s'] % D] = 1
        elif c['base'] == 'diag':
            p = r.random(D) * (r.random(D) < 0.6)
            p[c['s'] % D] += 1
            rho0 = np.diag(p / p.sum()).astype(complex)
        elif c['base'] == 'pure':
            a = rc(D)
            rho0 = np.outer(a, a.conj()) / np.vdot(a, a)
        elif c['base'] == 'product':
            rho0 = np.ones((1, 1), dtype=complex)
            for _ in range(N):
                a = rc(2) * (r.random(2) < 0.7)
                a = a if np.abs(a).max() > 0.1 else np.array([0, 1.0])
                rho0 = np.kron(rho0, np.outer(a, a.conj()) / np.vdot(a, a).real)
        else:
            a = rc(D, D)
            rho0 = a @ a.conj().T / np.trace(a @ a.conj().T)
        dirs = directions(c, (D, D), len(c['x']), False)[1:]
        dirs = [((a + a.conj().T) / 2 if i % 2 == 0 else a) for i, a in enumerate(dirs)]
        dirs = [(a - np.trace(a) / D * np.eye(D)).astype(np.complex64).astype(complex) for a in dirs]
        m = out if red.startswith('partial') else list(range(len(out), N)) if red == 'ptrace' else []
        W = rc(2 ** (N - len(m)), 2 ** (N - len(m)))
        wt, M = r.normal(size=N).astype(np.float32).astype(float), ref.hermitian({'k': 'rand', 's': c['s']}, N)

        def model(x):
            a = rho0 + sum(y * z for y, z in zip(x, dirs))
            if red == 'expval_rho':
                return np.trace(a @ M).real
            if red in ('rholist', 'one'):
                return sum(wt[j] * np.trace(a @ ref.local(N, {i: ref.Z})).real for j, i in enumerate(wl[:1] if red == 'one' else wl))
            return pair(W, ref.ptrace(a, N, m))

        def real(x):
            a = lib.tt(rho0) + sum(x[j] * lib.tt(z) for j, z in enumerate(dirs))
            if red == 'expval_rho':
                return L.qm.expval(a, lib.tt(M), rho=True)
            if red in ('rholist', 'one'):
                z = L.qm.measure(N, a, wl[0] if red == 'one' else list(wl)).reshape(-1)
                return (z * t.tensor(wt[:len(z)], dtype=z.dtype)).sum()
            return pair(lib.tt(W), L.qm.ptrace(a, N - len(m), len(m)) if red == 'ptrace' else getattr(L.qm, red)(a, N, list(out)))
    elif k == 'mps':
        dims = [1] + [c['bonds'][i % len(c['bonds'])] for i in range(N - 1)] + [1]
        base = [directions(dict(c, s=c['s'] + i), (2, dims[i], dims[i + 1]), len(c['x']), True) for i in range(N)]
        bra = [rc(2, dims[i], dims[i + 1]) for i in range(N)]
        O = {q: (lambda a: (a + a.conj().T) / 2)(rc(2, 2)) for q in c['w']}
        W = rc(D)

        def vec(a):
            s = np.ones((1, 1), dtype=complex)
            for q in a:
                s = np.einsum('xa,sab->xsb', s, q).reshape(-1, q.shape[2])
            return s.reshape(-1)

        def model(x):
            a = vec([b[0] + sum(y * z for y, z in zip(x, b[1:])) for b in base])
            w = c['what']
            if w == 'inner':
                return pair(np.array(1 - 0.5j), np.vdot(vec(bra), a))
            if w == 'norm':
                return np.vdot(a, a).real
            if w == 'expec':
                return np.vdot(a, ref.local(N, O) @ a).real
            return pair(W, a)

        def real(x):
            a = [lib.tt(b[0]) + sum(x[j] * lib.tt(z) for j, z in enumerate(b[1:])) for b in base]
            w = c['what']
            if w == 'inner':
                return pair(t.tensor(1 - 0.5j), L.tn.MPS_inner_product(a, [lib.tt(b) for b in bra]))
            if w == 'norm':
                return L.tn.MPS_inner_product(a, a).real
            if w == 'expec':
                return L.tn.MPS_expec(a, list(c['w']), [lib.tt(O[q]) for q in c['w']])
            return pair(lib.tt(W), L.tn.MPS2StateVec(a, return_sv=w == 'vec').reshape(-1))
    else:
        w = c['what']
        shape = {'mpdo': (D, D), 'mprod': (1, D), 'kron': (2, 2), 'dag': (D, D)}[w]
        dirs = directions(c, shape, len(c['x']), True)
        if w == 'mpdo':         # trace 1 whatever the inputs
            dirs = [a - np.trace(a) / D * np.eye(D) for a in dirs]
            dirs[0] = dirs[0] + np.eye(D) / D
            dirs = [a.astype(np.complex64).astype(complex) for a in dirs]
        E = rc(2, 2)
        W = rc(*({'mpdo': (D, D), 'mprod': (1, D), 'kron': (8, 8), 'dag': (D, D)}[w]))

        def model(x):
            a = dirs[0] + sum(y * z for y, z in zip(x, dirs[1:]))
            return pair(W, ref.kron([a, E, a]) if w == 'kron' else a.conj().T if w == 'dag' else a)

        def real(x):
            a = lib.tt(dirs[0]) + sum(x[j] * lib.tt(z) for j, z in enumerate(dirs[1:]))
            b = (L.qm.multi_kron([a, lib.tt(E), a]) if w == 'kron' else L.qm.dag(a) if w == 'dag' else
                 L.tn.MatrixProductState(a, N).reshape(1, D) if w == 'mprod' else L.tn.MatrixProductDensityOperator(a, N).reshape(D, D))
            return pair(lib.tt(W), b)
    return model, real


def check(c, ctx):
    t = lib.torch
    model, real = losses(c)
    x64 = np.array([ref.f32(x) for x in c['x']])
    what = c['k'] + ''.join(' ' + str(c[k]) for k in ('form', 'f', 'sg', 'axis', 'red', 'what') if c.get(k))
    x = t.tensor([float(v) for v in c['x']], requires_grad=True)
    with contextlib.redirect_stdout(io.StringIO()):
        loss = real(x)
    val = float(model(x64))
    lib.close(ctx, loss.detach().reshape(()), np.float64(val), 1e-4 * max(1.0, abs(val)), f'{what}: value', shape=())
    h = 1e-3
    want = np.zeros(len(x64))
    for i in range(len(x64)):
        e = np.zeros(len(x64))
        e[i] = h
        want[i] = (model(x64 - 2 * e) - 8 * model(x64 - e) + 8 * model(x64 + e) - model(x64 + 2 * e)) / (12 * h)
    lib.require(loss.requires_grad, f'{what}: the result is detached from the inputs')
    for when in ('', ', taken again'):
        if when:
            x = t.tensor([float(v) for v in c['x']], requires_grad=True)
            with contextlib.redirect_stdout(io.StringIO()):
                loss = real(x)
        loss.backward()
        lib.require(x.grad is not None, f'{what}: no gradient reached the inputs')
        lib.close(ctx, x.grad, want, TOL * max(1.0, np.abs(want).max()), f'{what}: gradient{when}')
