"""QuanConv2D against a patch-by-patch state-vector simulation."""
import numpy as np
from hypothesis import strategies as st

import gens
import lib
import ref
from lib import L

ID = 'C24'
RULE = ('random image batches (1..3 images, 1..3 channels, heights and widths 1..8 around the kernel), kernel 2 (and 3), stride 1..4, random weights, scaling on and off, and gradients '
        'of a random linear functional; non-trivial: at least two output positions')
ASSUMPTIONS = ['float32 library; output tolerance 3e-5, gradient tolerance 2e-4', 'the convolution needs a kernel of 2 or more (a ring of CNOTs on one qubit does not exist)']
EXAMPLES = {'quick': 25, 'thorough': 300}
TOL = 3e-5
GTOL = 3e-4


@st.composite
def strategy(draw, tier):
    k = 3 if draw(st.integers(0, 23)) == 0 else 2
    big = 8 if k == 2 else 3
    stride = draw(st.integers(1, 4))
    H, W = draw(st.integers(k, big)), draw(st.integers(k, big))
    b = draw(st.integers(1, 3 if k == 2 else 1))
    if k == 2 and ((H - k) // stride + 1) * ((W - k) // stride + 1) * b > 16:
        b, stride = 1, max(stride, 2)
    c = {'k': k, 'stride': stride, 'H': H, 'W': W, 'b': b, 'ch': draw(st.integers(1, 3)), 's': draw(gens.seeds), 'img': draw(st.sampled_from(['unit', 'wide', 'binary', 'near', 'same', 'flat'])),
         'wscale': draw(st.booleans()), 'gain': draw(st.sampled_from([None, 1.0, 2.5])), 'lrmul': draw(st.sampled_from([1, 1, 0.5, 2])),
         'grad': draw(st.sampled_from(['none', 'w', 'x', 'both'])) if k == 2 else 'none', 'q': draw(st.sampled_from([1, 2, 3, 5, 8, 10]))}
    return c


def fixed(tier):
    for H, W, stride in ((2, 2, 1), (3, 3, 1), (3, 3, 2), (4, 5, 2), (5, 4, 3), (2, 6, 1), (6, 2, 4), (5, 5, 2)):
        yield {'k': 2, 'stride': stride, 'H': H, 'W': W, 'b': 2, 'ch': 2, 's': 7, 'img': 'unit', 'wscale': True, 'gain': None, 'lrmul': 1, 'grad': 'both' if H < 4 else 'w', 'q': 3}
    for b, img in ((4, 'unit'), (5, 'near'), (7, 'wide'), (3, 'near'), (5, 'same')):
        yield {'k': 2, 'stride': 2, 'H': 2, 'W': 3, 'b': b, 'ch': b % 4 + 1, 's': 11, 'img': img, 'wscale': b != 5, 'gain': None, 'lrmul': 1, 'grad': 'none' if b == 7 else 'both', 'q': 3}
    yield {'k': 3, 'stride': 1, 'H': 3, 'W': 4, 'b': 1, 'ch': 1, 's': 7, 'img': 'unit', 'wscale': True, 'gain': None, 'lrmul': 1, 'grad': 'none', 'q': 4}


def positions(c):
    return ((c['H'] - c['k']) // c['stride'] + 1) * ((c['W'] - c['k']) // c['stride'] + 1) * c['b']


def nontrivial(c):
    return positions(c) >= 2


def labels(c):
    return ['kernel:%d' % c['k'], 'stride:%d' % c['stride'], 'grad:' + c['grad']]


def forward(img, w, k, stride, circ=None):
    """img: (b, H, W); w: effective angles; circ: precomputed circuit unitary."""
    n = k * k
    if circ is None:
        ops = [{'g': g, 'w': [q], 'p': [w[3 * q + j]]} for q in range(n) for j, g in enumerate(('rx', 'rz', 'rx'))]
        ops += [{'g': 'cnot', 'w': [q, (q + 1) % n]} for q in range(n)]
        circ = ref.unitary(ops, n)
    b, H, W = img.shape
    ho, wo = (H - k) // stride + 1, (W - k) // stride + 1
    sign = np.array([1 - 2 * ((np.arange(2 ** n) >> (n - 1 - q)) & 1) for q in range(n)])
    vecs = []
    for a in range(b):
        for i in range(ho):
            for j in range(wo):
                x = img[a, i * stride:i * stride + k, j * stride:j * stride + k].reshape(-1)
                v = np.ones(1)
                for q in range(n):
                    v = np.kron(v, [np.cos(np.pi * x[q] / 2), np.sin(np.pi * x[q] / 2)])
                vecs.append(v)
    P = np.abs(circ @ np.array(vecs).T) ** 2
    return (sign @ P).reshape(n, b, ho, wo).transpose(1, 0, 2, 3), circ


def check(c, ctx):
    t = lib.torch
    from deepquantum.nn.modules.quanv import QuanConv2D
    k, stride, n = c['k'], c['stride'], c['k'] ** 2
    r = np.random.default_rng(c['s'])
    kw = {}
    if not c['wscale']:
        kw['use_wscale'] = False
    if c['gain'] is not None:
        kw['gain'] = c['gain']
    if c['lrmul'] != 1:
        kw['lrmul'] = c['lrmul']
    t.manual_seed(c['s'])
    net = QuanConv2D(n, stride, k, **kw)
    ps = list(net.parameters())
    lib.equal([tuple(p.shape) for p in ps], [(3 * n,)], 'trainable parameters')
    lib.require(net.weight is ps[0], 'weight is not the trainable parameter')
    mul = (kw.get('gain', 2 ** 0.5) * 5 ** -0.5 * kw.get('lrmul', 1)) if c['wscale'] else kw.get('lrmul', 1)
    init = net.weight.detach().numpy().astype(float) * mul      # angles the circuit starts with
    lib.require(init.min() >= 0 and init.max() <= 2 * np.pi * kw.get('gain', 2 ** 0.5) * 5 ** -0.5 * (1 + 1e-5), f'initial angles from {init.min()} to {init.max()}')
    lib.require(init.max() > 0.2 * kw.get('gain', 2 ** 0.5) and np.unique(init).size > 1, f'initial angles from {init.min()} to {init.max()}')
    lib.close(ctx, net(t.zeros(1, 1, k, k)), forward(np.zeros((1, k, k)), init, k, stride)[0], TOL, 'convolution with the initial weights')
    with t.no_grad():
        net.weight.copy_(t.tensor(r.uniform(0, 7, 3 * n), dtype=t.float32))
    shape = (c['b'], c['ch'], c['H'], c['W'])
    img = r.random(shape) if c['img'] == 'unit' else r.uniform(-2, 2, shape) if c['img'] == 'wide' else r.integers(0, 2, shape)
    if c['img'] in ('near', 'same'):        # images that hardly differ
        img = img[:1] * 0.5 + (r.uniform(-1, 1, shape) * 2e-3 if c['img'] == 'near' else 0)
        img = np.broadcast_to(img, shape)
    if c['img'] == 'flat':                  # constant patches
        img = np.broadcast_to(r.random(shape)[:, :, :1, :1], shape)
    img = np.array(img, dtype=np.float32)
    x = t.tensor(img, requires_grad=c['grad'] in ('x', 'both'))
    w64 = net.weight.detach().numpy().astype(float) * mul
    i64 = img[:, 0].astype(float)
    want, _ = forward(i64, w64, k, stride)
    out = net(x)
    lib.close(ctx, out, want, TOL, f'convolution of {shape}, kernel {k}, stride {stride}')
    net.eval()                      # switching modes changes nothing
    lib.close(ctx, net(x), want, TOL, 'convolution in eval mode')
    net.train()
    lib.require(np.array_equal(x.detach().numpy(), img), 'the image was modified')
    if c['grad'] != 'none':
        v = r.normal(size=want.shape)
        (out * t.tensor(v, dtype=t.float32)).sum().backward()
        h = 1e-4
        D = lambda f: (f(-2) - 8 * f(-1) + 8 * f(1) - f(2)) / (12 * h)
        if c['grad'] in ('w', 'both'):
            lib.require(net.weight.grad is not None, 'the weights got no gradient')
            g = []
            for i in range(3 * n):
                e = np.zeros(3 * n)
                e[i] = h * mul
                g.append(D(lambda s: (v * forward(i64, w64 + s * e, k, stride)[0]).sum()))
            scale = max(1.0, np.abs(v).sum() * 0.2)
            lib.close(ctx, net.weight.grad, np.array(g), GTOL * scale, 'gradient of the weights')
        if c['grad'] in ('x', 'both'):
            lib.require(x.grad is not None, 'the image got no gradient')
            _, U = forward(i64, w64, k, stride)
            G = np.zeros(img.shape)
            for a in range(c['b']):
                for i in range(c['H']):
                    for j in range(c['W']):
                        e = np.zeros(i64.shape)
                        e[a, i, j] = h
                        G[a, 0, i, j] = D(lambda s: (v * forward(i64 + s * e, w64, k, stride, U)[0]).sum())
            lib.close(ctx, x.grad, G, GTOL * 10, 'gradient of the image')
        else:
            lib.require(net.weight.grad is not None, 'the weights got no gradient')
        # a step of gradient descent changes the output accordingly
        with t.no_grad():
            net.weight.add_(net.weight.grad, alpha=-0.05)
        w2 = net.weight.detach().numpy().astype(float) * mul
        w2 = forward(i64, w2, k, stride)[0]
        lib.close(ctx, net(x), w2, TOL, 'convolution after a weight update')
        net.eval()
        lib.close(ctx, net(x), w2, TOL, 'convolution after a weight update in eval mode')
        with t.no_grad():
            lib.close(ctx, net(x), w2, TOL, 'convolution after a weight update without gradients')
    if k == 2:      # however the weights are replaced, the next convolution uses them
        one = x.detach()[:1]
        for how in ('data', 'parameter', 'state_dict', 'fill', 'requires_grad'):
            w = r.uniform(-4, 4, 3 * n).astype(np.float32)
            with t.no_grad():
                net(one)
                if how == 'data':
                    net.weight.data = t.tensor(w)
                elif how == 'parameter':
                    net.weight = t.nn.Parameter(t.tensor(w))
                elif how == 'state_dict':
                    net.load_state_dict({'weight': t.tensor(w)})
                elif how == 'fill':
                    w[:] = w[0]
                    net.weight.fill_(float(w[0]))
                else:
                    net.weight.requires_grad_(False)
                    net.weight.data.copy_(t.tensor(w))
                w = forward(i64[:1], w.astype(float) * mul, k, stride)[0]
                lib.close(ctx, net(one), w, TOL, f'convolution after the weights were replaced ({how}), without gradients')
            lib.close(ctx, net(one), w, TOL, f'convolution after the weights were replaced ({how})')
    if c['q'] != n:
        lib.raises(lambda: QuanConv2D(c['q'], stride, k), f'{c["q"]} qubits for a kernel of {k}')
    lib.raises(lambda: QuanConv2D(k, stride, k), f'{k} qubits for a kernel of {k}')
