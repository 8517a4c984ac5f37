"""Reported metadata against what the operation really does."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C25'
LABEL = {'rx': 'Rx', 'ry': 'Ry', 'rz': 'Rz', 'rxx': 'Rxx', 'ryy': 'Ryy', 'rzz': 'Rzz', 'HLayer': 'HadamardLayer', 'ring_of_cnot': 'ring_of_cnot_Layer',
         'ring_of_cnot2': 'ring_of_cnot2_Layer'}
CONTROLLED = ('cnot', 'cz', 'cphase', 'cu3')
RULE = ('every kind at every ordered placement on up to 3 (thorough 4) qubits, then random placements, parameters and forms, the metadata read before and after an update, from the adjoint and through '
        'a circuit; non-trivial: parametrised or on several wires')
ASSUMPTIONS = ['a ring on two wires is its single CNOT, so it reports one control and one target']
EXAMPLES = {'quick': 360, 'thorough': 2000}
TOL = 3e-5


def fixed(tier):
    for N, o in gens.all_ops(3 if tier == 'quick' else 4):
        yield {'N': N, 'op': o}
    for N, o in gens.far_ops((4, 5)):
        yield {'N': N, 'op': o}
    for N, o in gens.special_params():
        yield {'N': N, 'op': o}


@st.composite
def strategy(draw, tier):
    N = draw(st.integers(1, 5))
    o = draw(gens.op(N))
    c = {'N': N, 'op': o, 'how': draw(st.sampled_from(['object', 'builder']))}
    if o.get('p'):
        c['ups'] = [draw(gens.params(len(o['p']))) for _ in range(draw(st.integers(0, 2)))]
        c['grad'] = draw(st.integers(0, 3)) == 0
    return c


def nontrivial(c):
    return bool(c['op'].get('p')) or len(c['op']['w']) > 1


def labels(c):
    return ['op:' + c['op']['g']]


def roles(o):
    g, w = o['g'], list(o['w'])
    if g in CONTROLLED:
        return [w[0]], [w[1]]
    if g in ('toffoli', 'multi_control_cnot'):
        return w[:-1], [w[-1]]
    if g in ref.RINGS:
        if len(w) == 2:
            return [w[0]], [w[1]]
        s = 2 if g == 'ring_of_cnot2' else 1
        return w, [w[(i + s) % len(w)] for i in range(len(w))]
    return [], w


def label(o):
    if o['g'] == 'multi_control_cnot':
        return '%d_control_cnot' % (len(o['w']) - 1)
    return LABEL.get(o['g'], o['g'])


def look(ctx, obj, o, N, what, p=None):
    """Everything the object says about itself, for the (rounded) spec o."""
    i = obj.info()
    lib.equal(sorted(i), ['contral_lst', 'label', 'params', 'target_lst'], f'{what}: keys of info')
    lib.equal(i['label'], label(o), f'{what}: label')
    lib.equal(obj.label, label(o), f'{what}: label attribute')
    c, t = roles(o)
    gc, gt = list(i['contral_lst']), list(i['target_lst'])
    if o['g'] in ref.RINGS:         # rings: which wire controls which
        lib.equal(sorted(zip(gc, gt)), sorted(zip(c, t)), f'{what}: control/target pairs')
        lib.equal(len(gc), len(gt), f'{what}: length of the target list')
    else:
        lib.equal(gc, c, f'{what}: control list')
        if o['g'] in ('rxx', 'ryy', 'rzz', 'SWAP'):
            lib.equal(sorted(gt), sorted(t), f'{what}: target list')
        else:
            lib.equal(gt, t, f'{what}: target list')
    q = o.get('p') or []
    lib.equal(obj.num_params, len(q), f'{what}: num_params')
    if q:
        for src in (i['params'], obj.params):
            v = lib.np_of(src, f'{what}: params').reshape(-1)
            lib.close(ctx, np.asarray(v), np.array(q), 1e-5 * max(1.0, max(abs(x) for x in q)), f'{what}: reported parameters')
    else:
        lib.require(i['params'] is None, f'{what}: parameters reported for a parameterless operation')
    lib.equal(obj.nqubits, N, f'{what}: nqubits')
    w = obj.wires
    lib.equal([w] if isinstance(w, int) else list(w), list(o['w']), f'{what}: wires')
    if o['g'] in ref.GATES or hasattr(obj, 'num_wires'):
        lib.equal(obj.num_wires, len(o['w']), f'{what}: num_wires')
    lib.equal(bool(obj.supportTN), o['g'] not in ref.NO_TN, f'{what}: supportTN')


def flags(ctx, obj, o, N, what):
    U = lib.np_of(obj.U_expand(), what).astype(complex)
    I = np.eye(2 ** N)
    if hasattr(obj, 'self_inverse') and obj.self_inverse:
        lib.close(ctx, U @ U, I, TOL, f'{what}: square of a self-inverse operation')
    if hasattr(obj, 'diagonal') and obj.diagonal:
        lib.close(ctx, U * (1 - I), 0 * I, TOL, f'{what}: off-diagonal part of a diagonal operation')
    if o['g'] in ref.GATES:
        lib.require(hasattr(obj, 'self_inverse') and hasattr(obj, 'diagonal'), f'{what}: flag missing')
        generic = not o.get('p')        # a parameterless gate: the flags are decided by its matrix
        if generic:
            lib.equal(bool(obj.self_inverse), bool(np.abs(U @ U - I).max() < TOL), f'{what}: self_inverse')
            lib.equal(bool(obj.diagonal), bool(np.abs(U * (1 - I)).max() < TOL), f'{what}: diagonal')
        else:                           # a parametrised gate: by its definition
            lib.equal(bool(obj.self_inverse), False, f'{what}: self_inverse')
            lib.equal(bool(obj.diagonal), o['g'] in ('rz', 'u1', 'rzz', 'cphase'), f'{what}: diagonal')
    if obj.supportTN:                   # support means the tensor-network forms work
        v = ref.state({'k': 'rand', 's': 11}, N)
        want = ref.evolve(ref.round_ops([o]), v, N)
        lib.close(ctx, obj.TN_contract(lib.tt(v).view([2] * N)), want.reshape([2] * N), TOL, f'{what}: contraction')
        mps = obj.TN_operation(L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N))
        lib.close(ctx, L.tn.MPS2StateVec(mps), want.reshape(1, -1), TOL, f'{what}: MPS form')
    lib.close(ctx, U, ref.unitary(ref.round_ops([o]), N), TOL, f'{what}: expansion')


def check(c, ctx):
    N, o = c['N'], c['op']
    g = o['g']
    par = lib.param_arg(o, grad=True) if c.get('grad') else None
    if c.get('how') == 'builder':
        cir = L.Circuit(N)
        if not lib.add_by_builder(cir, o, par):
            cir.add(lib.build(o, N, par))
        obj = cir.gate[0]
        if g == 'HLayer':
            lib.equal(obj.label, 'HadamardLayer', 'builder of a Hadamard on several wires')
    else:
        obj = lib.build(o, N, par)
    r = ref.round_ops([o])[0]
    look(ctx, obj, r, N, g)
    flags(ctx, obj, r, N, g)
    look(ctx, obj, r, N, g + ' after evaluation')
    for k, p in enumerate(c.get('ups') or []):
        o2 = dict(o, p=p, f=['tensor', 'list'][k % 2])
        if g in ref.SINGLE1 + ref.DOUBLE1 and o2['f'] == 'list':
            o2['f'] = 'num'
        obj.params_update(lib.param_arg(o2))
        r = ref.round_ops([o2])[0]
        look(ctx, obj, r, N, f'{g} after update {k + 1}')
        flags(ctx, obj, r, N, f'{g} after update {k + 1}')
    if not o.get('p'):
        obj.params_update(None)
        look(ctx, obj, r, N, f'{g} after an update without parameters')
    if g not in ref.NO_DAGGER:
        d = obj.operation_dagger()
        q = r.get('p') or []
        if g in ('ring_of_cnot', 'ring_of_cnot_dagger'):
            rd = dict(r, g='ring_of_cnot_dagger' if g == 'ring_of_cnot' else 'ring_of_cnot')
        elif g in ref.SINGLE1 + ref.DOUBLE1:
            rd = dict(r, p=[-q[0]])
        else:
            rd = r
        if g in ref.ROT_LAYERS or g in ('u3', 'cu3'):       # the adjoint's own parametrisation is free: it must be consistent with itself
            i = d.info()
            lib.equal(list(i['contral_lst']), roles(r)[0], f'{g} adjoint: control list')
            lib.equal(list(i['target_lst']), roles(r)[1], f'{g} adjoint: target list')
            back = {v: k for k, v in LABEL.items()}.get(i['label'], i['label'])
            lib.require(back in ref.GATES + ref.LAYERS, f'{g} adjoint: label {i["label"]}')
            dp = [float(x) for x in lib.np_of(i['params'], 'params of the adjoint').reshape(-1)]
            lib.equal(d.num_params, len(dp), f'{g} adjoint: num_params')
            self_spec = {'g': back, 'w': list(o['w']), 'p': dp}
            look(ctx, d, self_spec, N, f'{g} adjoint')
            flags(ctx, d, self_spec, N, f'{g} adjoint')
        else:
            look(ctx, d, rd, N, f'{g} adjoint')
            flags(ctx, d, rd, N, f'{g} adjoint')
        look(ctx, obj, r, N, f'{g} after its adjoint was taken')
