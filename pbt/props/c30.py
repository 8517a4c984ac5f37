"""Copies, pickles and saved weights."""
import copy
import io
import pickle

import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L
from props import c24

ID = 'C30'
RULE = ('random circuits (and each of their operations) copied by deepcopy, pickle or torch.save after random updates, both sides then updated, extended, cleared and evaluated in every form; '
        'convolutions and the classification network restored from a state_dict, a deepcopy or a pickle, before and after use and in both modes; non-trivial: at least one parametrised operation')
ASSUMPTIONS = ['copies of circuits are made with parameters that do not require gradients (torch refuses to deepcopy non-leaf tensors)', 'tolerance 5e-5']
EXAMPLES = {'quick': 70, 'thorough': 500}
TOL = 5e-5
PI = float(np.pi)
HOW = ('deepcopy', 'pickle', 'save')


@st.composite
def strategy(draw, tier):
    if draw(st.integers(0, 4)) == 0:
        return {'t': 'conv', 's': draw(gens.seeds), 'stride': draw(st.integers(1, 2)), 'how': draw(st.sampled_from(HOW + ('state_dict', 'state_dict'))), 'used': draw(st.booleans()),
                'train': draw(st.booleans()), 'other': draw(st.booleans())}
    N = draw(st.sampled_from([1, 2, 3, 3, 4]))
    ops = draw(gens.ops(N, 0, 4, only=draw(st.sampled_from([None, gens.TN_KINDS]))))
    ops.insert(draw(st.integers(0, len(ops))), draw(gens.op(N, only=gens.PARAM_KINDS)))
    par = [i for i, o in enumerate(ops) if o.get('p')]
    ups = lambda: [[i, draw(gens.params(len(ops[i]['p'])))] for i in draw(st.lists(st.sampled_from(par), max_size=2))]
    return {'t': 'circuit', 'N': N, 'ops': ops, 'state': draw(gens.state(N)), 'how': draw(st.sampled_from(HOW)), 'before': ups(), 'first': ups(), 'second': ups(),
            'used': draw(st.booleans()), 'more': [draw(gens.op(N)), draw(gens.op(N))], 'clear': draw(st.sampled_from(['', 'copy', 'original']))}


def fixed(tier):
    for k in gens.PARAM_KINDS:
        N = 1 if k in ref.SINGLE1 + ref.SINGLE3 else 2
        n = ref.n_params(k, range(N))
        for how in HOW:
            yield {'t': 'circuit', 'N': N, 'ops': [{'g': k, 'w': list(range(N))[::-1], 'p': gens.fixed_params(n, 2)}], 'state': {'k': 'rand', 's': 1}, 'how': how, 'before': [],
                   'first': [[0, gens.fixed_params(n, 5)]], 'second': [[0, gens.fixed_params(n, 8)]], 'used': True, 'more': [{'g': 'Hadamard', 'w': [0]}] * 2, 'clear': ''}
    for j, (N, o) in enumerate(gens.repeated_layers()):
        n = len(o['p'])
        yield {'t': 'circuit', 'N': N, 'ops': [o], 'state': {'k': 'rand', 's': 1}, 'how': HOW[j % 3], 'before': [[0, gens.fixed_params(n, 3)]], 'first': [[0, gens.fixed_params(n, 5)]],
               'second': [[0, gens.fixed_params(n, 8)]], 'used': True, 'more': [{'g': 'Hadamard', 'w': [0]}] * 2, 'clear': ''}
    for j, (N, o) in enumerate(gens.special_params(points=[0.0, 6e-4, -8e-3, PI, -PI, 2 * PI, 11.3, -15.1, 40.3])):
        n = len(o['p'])
        o = {k: x for k, x in o.items() if k != 'f'}
        yield {'t': 'circuit', 'N': N, 'ops': [o], 'state': {'k': 'rand', 's': 1}, 'how': HOW[j % 2], 'before': [[0, gens.fixed_params(n, 3)]] if j % 2 else [], 'first': [[0, gens.fixed_params(n, 5)]],
               'second': [[0, o['p'][::-1]]], 'used': j % 3 == 0, 'more': [{'g': 'Hadamard', 'w': [0]}] * 2, 'clear': ''}
    for how in HOW + ('state_dict',):
        for used in (True, False):
            yield {'t': 'conv', 's': 4, 'stride': 2, 'how': how, 'used': used, 'train': used, 'other': True}
    for how in ('state_dict', 'deepcopy'):
        yield {'t': 'net', 's': 5, 'how': how}


def nontrivial(c):
    return c['t'] != 'circuit' or any(o.get('p') for o in c['ops'])


def labels(c):
    return ['t:' + c['t'], 'how:' + c['how']]


def clone(o, how):
    if how == 'deepcopy':
        return copy.deepcopy(o)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(o))
    f = io.BytesIO()
    lib.torch.save(o, f)
    f.seek(0)
    return lib.torch.load(f, weights_only=False)


def same(ctx, cir, ops, N, v, what, mps=True):
    U = ref.unitary(ref.round_ops(ops), N)
    lib.close(ctx, cir.U(), U, TOL, f'{what}: unitary')
    lib.equal(len(cir.gate), len(ops), f'{what}: number of operations')
    lib.equal(cir.cir_num_params, sum(len(o.get('p') or []) for o in ops), f'{what}: number of parameters')
    lib.equal(bool(cir.TN_check()), lib.all_tn(ops), f'{what}: tensor-network support')
    for i, (g, o) in enumerate(zip(cir.gate, ops)):
        p = g.info()['params']
        lib.equal([] if p is None else [ref.f32(x) for x in p.detach().reshape(-1).tolist()], [ref.f32(x) for x in o.get('p') or []], f'{what}: parameters of operation {i}')
    if lib.all_tn(ops):
        f = U @ v
        lib.close(ctx, cir.TN_contract_evolution(lib.tt(v).view([2] * N)), f.reshape([2] * N), TOL, f'{what}: contraction')
        if mps:
            lib.close(ctx, L.tn.MPS2StateVec(cir.TN_evolution(L.tn.StateVec2MPS(lib.tt(v).view(1, -1), N))), f.reshape(1, -1), TOL, f'{what}: MPS')


def circuits(c, ctx):
    N, v, how = c['N'], ref.state(c['state'], c['N']), c['how']
    cir = lib.circuit(c['ops'], N)
    A = [dict(o) for o in c['ops']]

    def update(cir, ops, ups):
        for i, p in ups:
            if i < len(cir.gate):
                cir.gate[i].params_update(lib.param_arg(dict(ops[i], p=p, f='tensor')))
                ops[i] = dict(ops[i], p=p)
    update(cir, A, c['before'])
    if c['used']:
        same(ctx, cir, A, N, v, 'original before copying')
    two = clone(cir, how)
    B = [dict(o) for o in A]
    one = [clone(g, how) for g in cir.gate]
    same(ctx, two, B, N, v, how)
    update(cir, A, c['first'])
    same(ctx, two, B, N, v, f'{how} after an update of the original')
    update(two, B, c['second'])
    same(ctx, cir, A, N, v, f'original after an update of the {how}')
    same(ctx, two, B, N, v, f'updated {how}')
    start = [dict(o) for o in c['ops']]
    for i, p in c['before']:
        start[i] = dict(start[i], p=p)
    for g, o in zip(one, start):      # the operations by themselves still have the values of the moment of copying
        lib.close(ctx, g.U_expand(), ref.unitary(ref.round_ops([o]), N), TOL, f'{how} of {o["g"]}')
        if o['g'] not in ref.NO_DAGGER:
            lib.close(ctx, g.operation_dagger().U_expand(), ref.unitary(ref.round_ops([o]), N).conj().T, TOL, f'adjoint of the {how} of {o["g"]}')
    def tensors(cir):
        return [x for x in [g.info()['params'] for g in cir.gate] + list(cir.cir_params.values()) if isinstance(x, lib.torch.Tensor)]
    three = clone(cir, how)
    old, theirs = [x.detach().clone() for x in tensors(cir)], [x.detach().clone() for x in tensors(three)]
    lib.equal(len(theirs), len(old), f'{how}: recorded parameter tensors')
    with lib.torch.no_grad():       # an in-place change of the tensors the original holds, as an optimiser makes it
        for x in tensors(cir):
            x.copy_(x + 0.5)
        lib.require(all(lib.torch.equal(x, y) for x, y in zip(tensors(three), theirs)), f'the {how} holds the parameter tensors of the original')
        lib.require(all(lib.torch.equal(x, y) for x, y in zip(old, theirs)), f'the {how} holds other parameter values')
        for x, y in zip(tensors(cir), old):
            x.copy_(y)
    cir.add(lib.build(c['more'][0], N))
    A.append(c['more'][0])
    lib.add_by_builder(two, c['more'][1]) or two.add(lib.build(c['more'][1], N))
    B.append(c['more'][1])
    if c['clear'] == 'copy':
        two.clear()
        B = []
    elif c['clear'] == 'original':
        cir.clear()
        A = []
    same(ctx, cir, A, N, v, 'original in the end')
    same(ctx, two, B, N, v, f'{how} in the end')


def conv(c, ctx):
    t, how, stride = lib.torch, c['how'], c['stride']
    from deepquantum.nn.modules.quanv import QuanConv2D
    r = np.random.default_rng(c['s'])
    img = r.random((1, 1, 4, 3)).astype(np.float32)
    x = t.tensor(img)
    mul = 2 ** 0.5 * 5 ** -0.5
    want = lambda net_w: c24.forward(img[:, 0].astype(float), net_w.astype(float) * mul, 2, stride)[0]
    w = [r.uniform(0, 7, 12).astype(np.float32) for _ in range(3)]

    def put(net, k):
        with t.no_grad():
            net.weight.copy_(t.tensor(w[k]))
    t.manual_seed(c['s'])
    net = QuanConv2D(4, stride, 2)
    put(net, 0)
    if c['used']:
        lib.close(ctx, net(x), want(w[0]), TOL, 'original before copying')
    if how == 'state_dict':
        two = QuanConv2D(4, stride, 2)
        if c['other']:
            two(x)
        f = io.BytesIO()
        t.save(net.state_dict(), f)
        f.seek(0)
        miss = two.load_state_dict(t.load(f))
        lib.require(not miss.missing_keys and not miss.unexpected_keys, f'state_dict does not match: {miss}')
    else:
        two = clone(net, how)
    lib.require(two.weight is not net.weight and two.weight.requires_grad, 'the weights of the restored convolution are shared or frozen')
    if not c['train']:
        two.eval()
    lib.close(ctx, two(x), want(w[0]), TOL, f'convolution restored by {how}')
    put(net, 1)
    lib.close(ctx, two(x), want(w[0]), TOL, f'convolution restored by {how} after the original changed')
    put(two, 2)
    lib.close(ctx, net(x), want(w[1]), TOL, f'original after the convolution restored by {how} changed')
    lib.close(ctx, two(x), want(w[2]), TOL, f'convolution restored by {how} after its own change')
    two(x).sum().backward()
    lib.require(two.weight.grad is not None and net.weight.grad is None, 'gradients reached the wrong weights')


def network(c, ctx):
    """The classification network: 28x28 images through the convolution and two linear layers."""
    t = lib.torch
    from deepquantum.nn.modules.quanv import Net
    r = np.random.default_rng(c['s'])
    t.manual_seed(c['s'])
    net = Net()
    img = r.random((2, 1, 28, 28)).astype(np.float32)
    img[1, 0, :14] = 0

    def want(n):
        p = {k: v.detach().numpy().astype(float) for k, v in n.state_dict().items()}
        h = c24.forward(img[:, 0].astype(float), p['quanv.weight'] * 2 ** 0.5 * 5 ** -0.5, 2, 2)[0].reshape(2, -1)
        h = np.maximum(h @ p['fc1.weight'].T + p['fc1.bias'], 0)
        return h @ p['fc2.weight'].T + p['fc2.bias']
    x = t.tensor(img)
    out = net(x)
    lib.close(ctx, out, want(net), 1e-4, 'classification network')
    lib.equal(sorted(n for n, _ in net.named_parameters()), ['fc1.bias', 'fc1.weight', 'fc2.bias', 'fc2.weight', 'quanv.weight'], 'parameters of the network')
    if c['how'] == 'state_dict':
        two = Net()
        two.load_state_dict(copy.deepcopy(net.state_dict()))
    else:
        two = copy.deepcopy(net)
    first = want(net)
    with t.no_grad():
        for p in net.parameters():
            p.add_(0.01)
    lib.close(ctx, two(x[:1]), first[:1], 1e-4, f'network restored by {c["how"]}')
    loss = (net(x[:1]) ** 2).sum()
    loss.backward()
    lib.require(all(p.grad is not None for p in net.parameters()), 'a parameter of the network got no gradient')
    lib.require(all(p.grad is None for p in two.parameters()), 'gradients reached the restored network')
    # the derivative along the weights of the convolution
    g = net.quanv.weight.grad.numpy().astype(float)
    d = r.normal(size=12)
    p = {k: v.detach().numpy().astype(float) for k, v in net.state_dict().items()}

    def f(s):
        h = c24.forward(img[:1, 0].astype(float), (p['quanv.weight'] + s * d) * 2 ** 0.5 * 5 ** -0.5, 2, 2)[0].reshape(1, -1)
        h = np.maximum(h @ p['fc1.weight'].T + p['fc1.bias'], 0)
        return float(((h @ p['fc2.weight'].T + p['fc2.bias']) ** 2).sum())
    h = 1e-5
    num = (f(h) - f(-h)) / (2 * h)
    lib.close(ctx, np.array([g @ d]), np.array([num]), 2e-3 * max(1.0, abs(num)), 'derivative of the network along the weights of the convolution')


def check(c, ctx):
    {'circuit': circuits, 'conv': conv, 'net': network}[c['t']](c, ctx)
