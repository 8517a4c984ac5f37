"""The adjoint of an operation is its inverse, in every form."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C13'
KINDS = tuple(k for k in ref.GATES + ref.LAYERS if k not in ref.NO_DAGGER)
RULE = ('every operation with an adjoint at every ordered placement on up to 3 (thorough 4) qubits, then random placements, parameters and forms, the original '
        'updated after its adjoint was taken; non-trivial: parametrised or on several wires')
ASSUMPTIONS = ['float32 library; tolerance 1e-5']
EXAMPLES = {'quick': 360, 'thorough': 2000}
TOL = 1e-5


def fixed(tier):
    for N, o in gens.all_ops(3 if tier == 'quick' else 4, only=KINDS):
        yield {'N': N, 'op': o, 'state': {'k': 'rand', 's': 5}}
    for N, o in gens.far_ops((4, 5) if tier == 'quick' else (5, 6), only=KINDS):
        yield {'N': N, 'op': o, 'state': {'k': 'rand', 's': 5}}
    for N, o in gens.special_params(only=KINDS):
        yield {'N': N, 'op': o, 'state': {'k': 'rand', 's': 5}}


@st.composite
def strategy(draw, tier):
    N = draw(st.sampled_from([1, 2, 3, 4, 5]))
    o = draw(gens.op(N, only=KINDS))
    c = {'N': N, 'op': o, 'state': draw(gens.state(N))}
    if o.get('p'):
        c['new'] = draw(gens.params(len(o['p'])))
        c['first'] = draw(st.booleans())
        c['grad'] = draw(st.booleans())
    return c


def nontrivial(c):
    return bool(c['op'].get('p')) or len(c['op']['w']) > 1


def labels(c):
    return ['op:' + c['op']['g']] + (['trainable'] if c.get('grad') else [])


def check(c, ctx):
    N, o = c['N'], c['op']
    g = o['g']
    if c.get('first'):      # the adjoint of an operation whose parameters were updated
        obj = lib.build(dict(o, p=c['new']), N)
        obj.params_update(lib.param_arg(o, grad=bool(c.get('grad'))))
    else:
        obj = lib.build(o, N, par=lib.param_arg(o, grad=True) if c.get('grad') else None)
    U = ref.unitary(ref.round_ops([o]), N)
    before = obj.U_expand().detach().clone()
    bp = obj.params.detach().clone() if o.get('p') else None
    dag = obj.operation_dagger()
    lib.require(dag is not None, f'{g}: no adjoint')
    lib.close(ctx, dag.U_expand(), U.conj().T, TOL, f'{g}: adjoint')
    lib.require(lib.torch.equal(obj.U_expand(), before), f'{g}: taking the adjoint changed the operation')
    if bp is not None:
        lib.require(lib.torch.equal(obj.params, bp), f'{g}: taking the adjoint changed the parameters')
        m = getattr(dag, 'matrix', None)
        if m is not None:
            lib.close(ctx, m, lib.np_of(obj.matrix, 'matrix').conj().T, TOL, f'{g}: matrix attribute of the adjoint')
    lib.close(ctx, dag.operation_dagger().U_expand(), U, TOL, f'{g}: adjoint of the adjoint')
    for a, b in ((obj, dag), (dag, obj)):
        lib.close(ctx, a.U_expand() @ b.U_expand(), np.eye(2 ** N), TOL, f'{g}: product with the adjoint')
    v = ref.state(c['state'], N)
    if g not in ref.NO_TN:
        for a, b in ((obj, dag), (dag, obj)):
            T = lib.tt(v).view([2] * N)
            lib.close(ctx, b.TN_contract(a.TN_contract(T)), v.reshape([2] * N), TOL, f'{g}: contraction with the adjoint')
            B = lib.tt(np.stack([v, v * 1j])).view([2] * (N + 1))
            lib.close(ctx, b.TN_contract(a.TN_contract(B, batch_mod=True), batch_mod=True), np.stack([v, v * 1j]).reshape([2] * (N + 1)),
                      TOL, f'{g}: batched contraction with the adjoint')
            mps = L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N)
            lib.close(ctx, L.tn.MPS2StateVec(b.TN_operation(a.TN_operation(mps))), v.reshape(1, -1), TOL, f'{g}: MPS form with the adjoint')
        mps = L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N)
        lib.close(ctx, L.tn.MPS2StateVec(dag.TN_operation(mps)), (U.conj().T @ v).reshape(1, -1), TOL, f'{g}: MPS form of the adjoint')
    if 'new' in c:
        obj.params_update(lib.param_arg(dict(o, p=c['new'], f='tensor')))
        lib.close(ctx, dag.U_expand(), U.conj().T, TOL, f'{g}: adjoint after the original was updated')
        V = ref.unitary(ref.round_ops([dict(o, p=c['new'])]), N)
        lib.close(ctx, obj.operation_dagger().U_expand(), V.conj().T, TOL, f'{g}: adjoint of the updated operation')
        dag.params_update(lib.param_arg(dict(o, f='tensor')))
        lib.close(ctx, obj.U_expand(), V, TOL, f'{g}: the operation after its adjoint was updated')
