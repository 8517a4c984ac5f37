"""Independent reference model: complex128 state vectors in numpy, wire 0 most significant.

An operation is a JSON spec {"g": kind, "w": wires, "p": params}; `prims` turns it into a list of
(small matrix, wires) applied in time order.  Nothing here uses the code under test.
"""
import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
PAULI = {'X': X, 'Y': Y, 'Z': Z, 'I': I2}

SINGLE0 = ('Hadamard', 'PauliX', 'PauliY', 'PauliZ')
SINGLE1 = ('rx', 'ry', 'rz', 'u1')
SINGLE3 = ('u3',)
DOUBLE0 = ('cnot', 'cz', 'SWAP')
DOUBLE1 = ('rxx', 'ryy', 'rzz', 'cphase')
DOUBLE3 = ('cu3',)
TRIPLE = ('toffoli',)
MULTI = ('multi_control_cnot',)
GATES = SINGLE0 + SINGLE1 + SINGLE3 + DOUBLE0 + DOUBLE1 + DOUBLE3 + TRIPLE + MULTI
ROT_LAYERS = {'XYZLayer': 'XYZ', 'ZYXLayer': 'ZYX', 'YZYLayer': 'YZY', 'XZXLayer': 'XZX', 'XZLayer': 'XZ', 'ZXLayer': 'ZX'}
RINGS = ('ring_of_cnot', 'ring_of_cnot_dagger', 'ring_of_cnot2')
LAYERS = tuple(ROT_LAYERS) + ('HLayer',) + RINGS + ('BasicEntangleLayer',)
NO_TN = ('multi_control_cnot', 'ring_of_cnot2', 'BasicEntangleLayer')
NO_DAGGER = ('ring_of_cnot2', 'BasicEntangleLayer')


def n_params(kind, wires, repeat=1):
    if kind in SINGLE1 or kind in DOUBLE1:
        return 1
    if kind in SINGLE3 or kind in DOUBLE3:
        return 3
    if kind in ROT_LAYERS:
        return len(ROT_LAYERS[kind]) * len(wires)
    if kind == 'BasicEntangleLayer':
        return 3 * len(wires) * repeat
    return 0


def rot(axis, t):
    return np.cos(t / 2) * I2 - 1j * np.sin(t / 2) * PAULI[axis]


def rot2(axis, t):
    P = PAULI[axis]
    return np.cos(t / 2) * np.eye(4) - 1j * np.sin(t / 2) * np.kron(P, P)


def u3(th, ph, la):
    # U3 = Rz(phi) Rx(-pi/2) Rz(theta) Rx(pi/2) Rz(lambda), in closed form (determinant 1)
    c, s = np.cos(th / 2), np.sin(th / 2)
    return np.array([[np.exp(-.5j * (ph + la)) * c, -np.exp(-.5j * (ph - la)) * s],
                     [np.exp(.5j * (ph - la)) * s, np.exp(.5j * (ph + la)) * c]])


def controlled(U, n_controls=1):
    d = 2 ** (n_controls + 1)
    M = np.eye(d, dtype=complex)
    M[d - 2:, d - 2:] = U
    return M


SWAPM = np.eye(4, dtype=complex)[[0, 2, 1, 3]]


def ring(wires, step, reverse=False):
    L = len(wires)
    if L == 2:
        pairs = [(wires[0], wires[1])]
    else:
        pairs = [(wires[i], wires[(i + step) % L]) for i in range(L)]
    if reverse:
        pairs = pairs[::-1]
    return [(controlled(X), list(p)) for p in pairs]


def rot_layer(axes, wires, p):
    out = []
    k = len(axes)
    for i, w in enumerate(wires):
        for j, a in enumerate(axes):
            out.append((rot(a, p[k * i + j]), [w]))
    return out


def prims(op):
    if op.get('dag'):
        return [(m.conj().T, w) for m, w in reversed(_prims(op))]
    return _prims(op)


def _prims(op):
    g, w, p = op['g'], list(op['w']), op.get('p') or []
    if g in SINGLE0:
        return [({'Hadamard': H, 'PauliX': X, 'PauliY': Y, 'PauliZ': Z}[g], w)]
    if g in ('rx', 'ry', 'rz'):
        return [(rot(g[1].upper(), p[0]), w)]
    if g == 'u1':
        return [(np.diag([1, np.exp(1j * p[0])]), w)]
    if g == 'u3':
        return [(u3(*p), w)]
    if g == 'cnot':
        return [(controlled(X), w)]
    if g == 'cz':
        return [(controlled(Z), w)]
    if g == 'SWAP':
        return [(SWAPM, w)]
    if g in ('rxx', 'ryy', 'rzz'):
        return [(rot2(g[1].upper(), p[0]), w)]
    if g == 'cphase':
        return [(controlled(np.diag([1, np.exp(1j * p[0])])), w)]
    if g == 'cu3':
        return [(controlled(u3(*p)), w)]
    if g == 'toffoli':
        return [(controlled(X, 2), w)]
    if g == 'multi_control_cnot':
        return [(controlled(X, len(w) - 1), w)]
    if g in ROT_LAYERS:
        return rot_layer(ROT_LAYERS[g], w, p)
    if g == 'HLayer':
        return [(H, [i]) for i in w]
    if g == 'ring_of_cnot':
        return ring(w, 1)
    if g == 'ring_of_cnot_dagger':
        return ring(w, 1, reverse=True)
    if g == 'ring_of_cnot2':
        return ring(w, 2)
    if g == 'BasicEntangleLayer':
        out = []
        k = 3 * len(w)
        for r in range(op.get('repeat', 1)):
            out += rot_layer('YZY', w, p[r * k:(r + 1) * k])
            out += ring(w, 1)
        return out
    raise KeyError(g)


def apply(mat, wires, T):
    """T has qubit axes first (0..N-1), any further axes after them."""
    k = len(wires)
    M = mat.reshape((2,) * (2 * k))
    T = np.tensordot(M, T, axes=(list(range(k, 2 * k)), wires))
    return np.moveaxis(T, list(range(k)), wires)


def evolve(ops, psi, N):
    """psi: (2^N,) or (2^N, B); returns the same shape."""
    shape = psi.shape
    T = np.asarray(psi, dtype=complex).reshape((2,) * N + shape[1:])
    for op in ops:
        for m, w in prims(op):
            T = apply(m, w, T)
    return T.reshape(shape)


def unitary(ops, N):
    return evolve(ops, np.eye(2 ** N, dtype=complex), N)


def kron(ms):
    out = np.ones((1, 1), dtype=complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def local(N, mats):
    """Operator with mats[wire] on the given wires."""
    return kron([mats.get(i, I2) for i in range(N)])


def zexp(psi, N, i):
    p = np.abs(psi.reshape(-1)) ** 2
    idx = np.arange(2 ** N)
    s = 1 - 2 * ((idx >> (N - 1 - i)) & 1)
    return float((p * s).sum())


def ptrace(rho, N, out):
    """Reduced density matrix after tracing out the qubits in `out`."""
    T = np.asarray(rho).reshape((2,) * (2 * N))
    keep = [i for i in range(N) if i not in out]
    rows = list(range(N))
    cols = [i + N for i in range(N)]
    for i in out:
        cols[i] = rows[i]
    T = np.einsum(T, rows + cols, [rows[i] for i in keep] + [cols[i] for i in keep])
    d = 2 ** len(keep)
    return T.reshape(d, d)


# ---------------------------------------------------------------- states and matrices described in JSON
def state(spec, N):
    """A state vector from its JSON description; unit norm unless 'scale' is given."""
    D = 2 ** N
    k = spec['k']
    if k == 'basis':
        v = np.zeros(D, dtype=complex)
        v[spec['i'] % D] = 1
    elif k == 'tiny':           # a basis state plus amplitudes near or below the smallest normal number
        r = np.random.default_rng(spec['s'])
        v = (r.normal(size=D) + 1j * r.normal(size=D)) * (r.random(D) < 0.6) * 10.0 ** spec['e']
        v[spec['i'] % D] = 1
    elif k == 'plus':
        v = np.ones(D, dtype=complex)
    elif k == 'ghz':
        v = np.zeros(D, dtype=complex)
        v[0] = 1
        v[-1] += np.exp(1j * spec.get('phase', 0.0))
    elif k == 'rand':
        r = np.random.default_rng(spec['s'])
        v = r.normal(size=D) + 1j * r.normal(size=D)
    elif k == 'real':
        v = np.random.default_rng(spec['s']).normal(size=D) + 0j
    elif k == 'sparse':
        r = np.random.default_rng(spec['s'])
        v = np.zeros(D, dtype=complex)
        for i in spec['idx']:
            v[i % D] = r.normal() + 1j * r.normal()
    elif k == 'prod':
        r = np.random.default_rng(spec['s'])
        v = np.ones(1, dtype=complex)
        for _ in range(N):
            v = np.kron(v, r.normal(size=2) + 1j * r.normal(size=2))
    elif k == 'weak':           # a product state plus a small entangled part: small Schmidt values
        r = np.random.default_rng(spec['s'])
        v = np.ones(1, dtype=complex)
        for _ in range(N):
            a = r.normal(size=2) + 1j * r.normal(size=2)
            v = np.kron(v, a / np.linalg.norm(a))
        e = r.normal(size=D) + 1j * r.normal(size=D)
        v = v + spec['eps'] * e / np.linalg.norm(e)
    elif k == 'amps':
        v = np.array([complex(*a) for a in spec['a']], dtype=complex)
    else:
        raise KeyError(k)
    v = v / np.linalg.norm(v)
    v = v * spec.get('scale', 1.0)
    return v.astype(np.complex64).astype(np.complex128)     # exactly representable in the library's dtype


def density(spec, N):
    D = 2 ** N
    k = spec['k']
    if k == 'pure':
        v = state(spec['state'], N)
        rho = np.outer(v, v.conj())
    elif k == 'mixed':          # a random mixture of `rank` states
        r = np.random.default_rng(spec['s'])
        A = r.normal(size=(D, spec['rank'])) + 1j * r.normal(size=(D, spec['rank']))
        rho = A @ A.conj().T
    elif k == 'nearreal':       # positive: Re + i eps Im of a positive matrix
        r = np.random.default_rng(spec['s'])
        A = r.normal(size=(D, D)) + 1j * r.normal(size=(D, D))
        A = A @ A.conj().T
        rho = A.real + 1j * spec['eps'] * A.imag
    elif k == 'max':
        rho = np.eye(D, dtype=complex)
    elif k == 'diag':
        rho = np.diag(np.random.default_rng(spec['s']).random(D) + 0j)
    elif k == 'prod':
        r = np.random.default_rng(spec['s'])
        rho = np.ones((1, 1), dtype=complex)
        for _ in range(N):
            A = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
            A = A @ A.conj().T
            rho = np.kron(rho, A / np.trace(A).real)
    else:
        raise KeyError(k)
    rho = rho / np.trace(rho).real
    return rho.astype(np.complex64).astype(np.complex128)


def hermitian(spec, N):
    """Observable from its description, spectral norm about 1."""
    D = 2 ** N
    k = spec['k']
    if k == 'pauli':
        M = kron([PAULI[c] for c in (spec['s'] + 'I' * N)[:N]])
    elif k == 'rand':
        r = np.random.default_rng(spec['s'])
        A = r.normal(size=(D, D)) + 1j * r.normal(size=(D, D))
        M = A + A.conj().T
        M = M / np.linalg.norm(M, 2)
    elif k == 'proj':
        v = state(spec['state'], N)
        M = np.outer(v, v.conj())
    elif k == 'diag':
        M = np.diag(np.random.default_rng(spec['s']).normal(size=D) + 0j)
        M = M / np.abs(M).max()
    elif k in ('neardiag', 'nearid', 'nearreal'):       # almost diagonal, almost the identity, almost real
        r = np.random.default_rng(spec['s'])
        A = r.normal(size=(D, D)) + 1j * r.normal(size=(D, D))
        A = (A + A.conj().T) / np.linalg.norm(A + A.conj().T, 2)
        if k == 'nearreal':
            M = A.real + spec['eps'] * 1j * A.imag
        else:
            M = (np.diag(np.sign(r.normal(size=D)) + 0j) if k == 'neardiag' else np.eye(D)) + spec['eps'] * A
    else:
        raise KeyError(k)
    M = M * spec.get('scale', 1.0)
    return M.astype(np.complex64).astype(np.complex128)


def f32(x):
    return float(np.float32(x))


def round_ops(ops):
    """The parameters as the library sees them (float32)."""
    return [dict(o, p=[f32(x) for x in o['p']]) if o.get('p') else o for o in ops]


def expectation(ops, psi, M, N):
    f = evolve(ops, psi, N)
    return float(np.vdot(f, M @ f).real)


def gradient(ops, psi, M, N, h=1e-4):
    """Partial derivatives by a 4th-order central difference on the complex128 model (error below 1e-9)."""
    out = []
    ops = [dict(o, p=list(o['p'])) if o.get('p') else o for o in ops]
    # states before each op, so that only the tail is recomputed
    pre = [np.asarray(psi, dtype=complex)]
    for o in ops:
        pre.append(evolve([o], pre[-1], N))
    for k, o in enumerate(ops):
        for j in range(len(o.get('p') or [])):
            p0 = o['p'][j]
            vals = []
            for d in (-2, -1, 1, 2):
                o['p'][j] = p0 + d * h
                f = evolve(ops[k:], pre[k], N)
                vals.append(np.vdot(f, M @ f).real)
            o['p'][j] = p0
            out.append((vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * h))
    return np.array(out)
