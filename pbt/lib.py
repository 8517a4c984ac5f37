"""The only module that touches the code under test (imported from /repo through PYTHONPATH)."""
import contextlib
import io
import os
import sys
import types

import numpy as np

import ref
from core import Violation

L = types.SimpleNamespace()      # filled by setup(): the library's public names
torch = None


def setup():
    """Imports the library once, before the shards are forked."""
    global torch
    import torch as _t
    torch = _t
    torch.set_num_threads(1)
    with contextlib.redirect_stdout(io.StringIO()):
        import deepquantum as dq
        import deepquantum.gates.qoperator as op
        import deepquantum.gates.qcircuit as qc
        import deepquantum.gates.qtensornetwork as tn
        import deepquantum.gates.qmath as qm
        import deepquantum.gates.qgate as qg
        import deepquantum.layers.qlayers as ql
        import deepquantum.layers.qlayer as qf
        import deepquantum.embeddings.qembedding as em
        import deepquantum.embeddings.qstate as qs
    repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    if not os.path.realpath(dq.__file__).startswith(repo + os.sep):
        raise RuntimeError('imported the library from ' + dq.__file__)
    L.__dict__.update(dq=dq, op=op, qc=qc, tn=tn, qm=qm, qg=qg, ql=ql, qf=qf, em=em, qs=qs, Circuit=qc.Circuit,
                      parameter_shift=qc.parameter_shift)


# ---------------------------------------------------------------- conversions
def tt(a):
    """numpy -> complex64 tensor (fresh memory)."""
    return torch.tensor(np.asarray(a), dtype=torch.complex64)


def np_of(t, what, shape=None):
    """A numpy copy of a tensor the library returned, after checking that it is one."""
    if not isinstance(t, torch.Tensor):
        raise Violation(f'{what}: returned {type(t).__name__} instead of a tensor')
    if shape is not None and tuple(t.shape) != tuple(shape):
        raise Violation(f'{what}: shape {tuple(t.shape)} instead of {tuple(shape)}')
    return t.detach().resolve_conj().resolve_neg().cpu().numpy()


def close(ctx, got, want, tol, what, shape=None):
    """Compares a library tensor (or number) with the reference, entry by entry."""
    want = np.asarray(want)
    g = np_of(got, what, want.shape if shape is None else shape) if not isinstance(got, np.ndarray) else got
    if g.shape != want.shape:
        raise Violation(f'{what}: shape {g.shape} instead of {want.shape}')
    if g.size == 0:
        return
    d = np.abs(g - want)
    if not np.all(np.isfinite(d)):
        raise Violation(f'{what}: not finite')
    e = float(d.max())
    ctx.err(e, tol)
    if e > tol:
        i = np.unravel_index(int(d.argmax()), d.shape) if d.shape else ()
        raise Violation(f'{what}: off by {e:.3g} at {tuple(int(x) for x in i)} (got {g[i]}, expected {want[i]}, tolerance {tol:.1g})')


def close_vec(ctx, got, want, tol, what, shape=None):
    """Entry by entry and in the Euclidean norm (amplitudes of large registers are small)."""
    close(ctx, got, want, tol, what, shape)
    want = np.asarray(want)
    d = float(np.linalg.norm((np_of(got, what) - want).reshape(-1)))
    ctx.err(d, tol)
    if d > tol:
        raise Violation(f'{what}: off by {d:.3g} in norm (tolerance {tol:.1g}, norm {np.linalg.norm(want.reshape(-1)):.3g})')


def equal(got, want, what):
    if got != want:
        raise Violation(f'{what}: {got!r} instead of {want!r}')


def require(cond, what):
    if not cond:
        raise Violation(what)


def raises(fn, what, kinds=(Exception,)):
    """The call must be rejected with an exception."""
    try:
        r = fn()
    except kinds:
        return
    desc = f'shape {tuple(r.shape)}' if isinstance(r, torch.Tensor) else type(r).__name__
    raise Violation(f'{what}: accepted (returned {desc})')


def wires_arg(op):
    """Single-qubit gates take an int, everything else a list (layers also accept other sequences)."""
    if op['g'] in ref.SINGLE0 + ref.SINGLE1 + ref.SINGLE3:
        return op['w'][0]
    if op.get('wf') == 'tuple':
        return tuple(op['w'])
    return list(op['w'])


def param_arg(op, grad=False, p=None):
    """The parameter in the requested form: 'num' (Python number), 'list' or 'tensor'."""
    p = op['p'] if p is None else p
    form = op.get('f', 'tensor')
    if op['g'] in ref.SINGLE1 + ref.DOUBLE1:
        if form in ('num', 'list') and not grad:
            return p[0]
        if form == 'slice' and not grad:        # one element of a larger parameter vector, still with an axis
            return torch.tensor([9.0, float(p[0]), -9.0])[1:2]
        return torch.tensor(float(p[0]), requires_grad=grad)
    if form in ('num', 'list') and not grad:
        return [x for x in p]
    if form == 'slice' and not grad:            # a view into a larger parameter vector
        return torch.tensor([9.0] + [float(x) for x in p] + [-9.0])[1:-1]
    return torch.tensor([float(x) for x in p], requires_grad=grad)


def ctor(kind):
    return getattr(L.op, kind) if kind in ref.GATES else getattr(L.ql, kind)


def build(op, N, par=None, w=None):
    """The operation object for a spec; `par` overrides the parameter argument."""
    k = op['g']
    w = wires_arg(op) if w is None else w
    if ref.n_params(k, op['w'], op.get('repeat', 1)):
        p = param_arg(op) if par is None else par
        if k in ref.GATES:
            return ctor(k)(p, N, w)
        if k == 'BasicEntangleLayer':
            return ctor(k)(N, w, p, op['repeat']) if 'repeat' in op else ctor(k)(N, w, p)
        return ctor(k)(N, w, p)
    return ctor(k)(N, w)


def add_by_builder(cir, op, par=None):
    """Adds the operation through the circuit's own method; False when there is none."""
    k = op['g']
    name = 'Hadamard' if k == 'HLayer' else k
    if k == 'ring_of_cnot_dagger':
        return False
    m = getattr(cir, name)
    w = wires_arg(op)
    if ref.n_params(k, op['w'], op.get('repeat', 1)):
        p = param_arg(op) if par is None else par
        if k in ref.GATES:
            m(p, w)
        elif k == 'BasicEntangleLayer':
            m(w, p, op['repeat']) if 'repeat' in op else m(w, p)
        else:
            m(w, p)
    else:
        m(w)
    return True


def circuit(ops, N, builder=None, pars=None):
    """builder: None (add objects), 'all' (builder methods) or a list of booleans."""
    c = L.Circuit(N)
    for i, o in enumerate(ops):
        par = None if pars is None else pars[i]
        b = builder == 'all' or (isinstance(builder, list) and builder[i % len(builder)] if builder else False)
        if not (b and add_by_builder(c, o, par)):
            c.add(build(o, N, par))
    return c


def all_tn(ops):
    return all(o['g'] not in ref.NO_TN for o in ops)


def strided(T, order):
    """The same tensor with a different memory layout."""
    inv = np.argsort(order)
    return T.permute(list(order)).contiguous().permute([int(i) for i in inv])


def raw_mps(N, bonds, seed):
    """Random tensors with the given inner bonds (any size), scaled to norm 1, and the state vector they stand for."""
    r = np.random.default_rng(seed)
    d = [1] + [bonds[i % len(bonds)] for i in range(N - 1)] + [1]
    a = [(r.normal(size=(2, d[i], d[i + 1])) + 1j * r.normal(size=(2, d[i], d[i + 1]))) / np.sqrt(2 * d[i]) for i in range(N)]
    v = np.ones((1, 1), dtype=complex)
    for t in a:
        v = np.einsum('xa,sab->xsb', v, t).reshape(-1, t.shape[2])
    n = np.linalg.norm(v)
    a[seed % N] = a[seed % N] / n
    return [tt(t) for t in a], v.reshape(-1) / n


def check_mps(mps, N, what, iso=False, tight=True):
    """Well-formedness of a matrix product state."""
    require(isinstance(mps, (list, tuple)), f'{what}: not a list of tensors')
    equal(len(mps), N, f'{what}: number of tensors')
    left = 1
    for i, t in enumerate(mps):
        a = np_of(t, f'{what}: tensor {i}')
        require(a.ndim == 3 and a.shape[0] == 2, f'{what}: tensor {i} has shape {a.shape}')
        require(a.shape[1] == left, f'{what}: left bond of tensor {i} is {a.shape[1]}, its neighbour has {left}')
        left = a.shape[2]
        if tight:
            require(left <= 2 ** min(i + 1, N - 1 - i), f'{what}: bond {left} after tensor {i} exceeds the limit of its cut')
    equal(left, 1, f'{what}: right boundary bond')
