"""P22 - torch approximators: training schedule, minibatches, sample weights, validation, weights layout."""
from pydv.ctx import harness
from .common import unsup

PRELOAD = ['mushroom_rl.approximators.parametric', 'mushroom_rl.approximators.parametric.torch_approximator',
           'mushroom_rl.utils.torch', 'mushroom_rl.utils.minibatches', 'mushroom_rl.core']
P = 'P22'


class World:
    """ghost network (an arbitrary function of the optimiser steps done so far and of the input), ghost loss (an arbitrary function of
    prediction and target, per sample), ghost optimiser; everything they are asked for is logged"""

    def __init__(self, c, numpy=False, **kw):
        self.c, self.log, self.steps = c, [], 0
        self.f, self.l = c.func('f', 2), c.func('l', 2)
        self.mode, self.inits, self.flat = 'train', 0, True
        W = self

        class Param:
            _pydv_ghost = True

            def __init__(self, data):
                self.data, self.grad = data, None

            def numel(self):
                n = 1
                for s in self.data.shape:
                    n = n * s
                return n
        self.Param = Param
        self.params = kw.pop('params', [])

        class Net:
            _pydv_ghost = True

            def __init__(self, input_shape, output_shape, dropout=None, **kw):
                W.made = (input_shape, output_shape, dropout, kw)

            def to(self, dev):
                return self

            def parameters(self):
                return iter(W.params)

            def eval(self):
                W.mode = 'eval'

            def train(self, on=True):
                W.mode = 'train' if on else 'eval'

            def weights_init(self):
                W.inits += 1
                W.log.append(('init',))

            def __call__(self, x, **kw):
                x = c.copy(x) if c.symbolic else x.clone()
                t = W.steps
                W.log.append(('forward', t, x, W.mode, kw))
                if W.flat:
                    return c.tabulate((x.shape[0],), lambda i: W.f(t, c.at(x, i, 0)), lib='torch')
                return c.tabulate((x.shape[0], 1), lambda i, j: W.f(t, c.at(x, i, 0)), lib='torch')

        class Loss:
            """a loss value (a number, or one number per sample): plain arithmetic, and what autograd would be asked to do"""
            _pydv_ghost = True

            def __init__(self, v):
                self.v = v

            def __matmul__(self, o): return Loss(self.v @ o)
            dot = __matmul__
            def __mul__(self, o): return Loss(self.v * o)
            __rmul__ = __mul__
            def __truediv__(self, o): return Loss(self.v / o)
            def sum(self, *a): return Loss(self.v.sum(*a))
            def mean(self, *a): return Loss(self.v.mean(*a))
            def detach(self): return self
            def item(self): return c.at(self.v) if c.symbolic else float(self.v)

            def backward(self, *a, **k):
                W.log.append(('backward', self.item()))

        def loss(yhat, y, reduction='mean'):
            n = yhat.shape[0]
            if len(y.shape) != len(yhat.shape):
                c.ensure('target-shape', False)
            g = (lambda a, i: c.at(a, i)) if len(yhat.shape) == 1 else (lambda a, i: c.at(a, i, 0))
            yh, y = c.copy(yhat) if c.symbolic else yhat.clone(), c.copy(y) if c.symbolic else y.clone()
            v = c.tabulate((n,), lambda i: W.l(g(yh, i), g(y, i)), lib='torch')
            W.log.append(('loss', y))
            return Loss(v if reduction == 'none' else v.mean() if reduction == 'mean' else v.sum())

        class Opt:
            _pydv_ghost = True

            def __init__(self, params, **kw):
                W.opt = (list(params), kw)

            def zero_grad(self, **k):
                W.log.append(('zero',))

            def step(self):
                W.steps += 1
                W.log.append(('step',))
        T = c.mod('mushroom_rl.approximators.parametric.torch_approximator')
        cls = T.NumpyTorchApproximator if numpy else T.TorchApproximator
        self.ap = cls((1,), (1,), Net, optimizer={'class': Opt, 'params': {'lr': 3}}, loss=loss, **kw)

    def ops(self):
        return [e[0] for e in self.log]

    def per(self, t, x, y, i):
        return self.l(self.f(t, x(i)), y(i))


def data(c, n, numpy):
    lib = 'np' if numpy else 'torch'
    x, y = c.array('x', (n, 1), lib=lib), c.array('y', (n,), lib=lib)
    return x, y, (c.copy(x) if c.symbolic else x.copy() if numpy else x.clone()), (c.copy(y) if c.symbolic else y.copy() if numpy else y.clone())


def mk_fit(numpy, weighted):
    @harness(P, 'fit_whole_set' + ('_numpy' if numpy else '') + ('_weighted' if weighted else ''))
    def fit(c):
        W = World(c, numpy, hidden=7)
        c.ensure('network-arguments', W.made[0] == (1,) and W.made[1] == (1,) and W.made[3] == dict(hidden=7))
        c.ensure('optimizer-arguments', W.opt == ([], dict(lr=3)))
        n, E = c.size('n', 1), c.choice('epochs', [None, 1, 3])
        x, y, x0, y0 = data(c, n, numpy)
        X, Y = lambda i: c.at(x0, i, 0), lambda i: c.at(y0, i)
        kw = {}
        if weighted:
            w = c.array('w', (n,), lo=.1)
            kw['weights'] = w
            w0 = c.copy(w)
        if E is not None:
            kw['n_epochs'] = E
        W.ap.fit(x, y, **kw)
        E = E or 1
        ops = [o for o in W.ops() if o in ('zero', 'backward', 'step')]
        c.ensure('one-step-per-epoch', ops == ['zero', 'backward', 'step'] * E)
        fw = [e for e in W.log if e[0] == 'forward']
        c.ensure('one-pass-per-epoch', len(fw) == E)
        for t in range(E):
            c.ensure_shape('every-sample', fw[t][2], (n, 1))
            c.ensure('not-with-stale-weights', fw[t][1] == t)

        def mean(t):
            if weighted:
                return c.sum(n, lambda i: W.per(t, X, Y, i) * c.at(w0, i)) / c.sum(n, lambda i: c.at(w0, i))
            return c.sum(n, lambda i: W.per(t, X, Y, i)) / n
        bw = [e[1] for e in W.log if e[0] == 'backward']
        for t in range(E):
            c.ensure('gradient-of-the-mean-loss', lambda: c.eq(bw[t], mean(t)))
        c.ensure('loss-of-the-last-epoch', lambda: c.eq(W.ap.loss_fit, mean(E - 1)))
        c.ensure_all('data-untouched', (n,), lambda i: c.and_(c.eq(c.at(x, i, 0), X(i)), c.eq(c.at(y, i), Y(i))))
    return fit


for _n in (False, True):
    for _w in (False, True):
        mk_fit(_n, _w)


@harness(P, 'fit_modes')
def modes(c):
    drop, reinit = c.choice('dropout', [False, True]), c.choice('reinitialize', [False, True])
    W = World(c, dropout=drop, reinitialize=reinit)
    c.ensure('evaluation-mode-outside-fit', W.mode == 'eval' or not drop)
    n = c.size('n', 1)
    x, y, x0, y0 = data(c, n, False)
    W.ap.fit(x, y, n_epochs=2)
    fw = [e for e in W.log if e[0] == 'forward']
    c.ensure('training-mode-in-fit', all(e[3] == 'train' for e in fw))
    c.ensure('evaluation-mode-after-fit', W.mode == 'eval' or not drop)
    c.ensure('reinitialised-before-the-first-epoch', [k for k, e in enumerate(W.log) if e[0] == 'init'] == ([0] if reinit else []))
    p = W.ap.predict(x, get=5)
    c.ensure('prediction-parameters', W.log[-1][4] == dict(get=5))
    c.ensure('prediction-mode', W.log[-1][3] == 'eval' or not drop)
    c.ensure_shape('prediction-shape', p, (n,))
    c.ensure_all('prediction', (n,), lambda i: c.eq(c.at(p, i), W.f(2, c.at(x0, i, 0))))


@harness(P, 'validation_split')
def split(c):
    W = World(c)
    n, E = c.size('n', 1), c.choice('epochs', [1, 2])
    x, y, x0, y0 = data(c, n, False)
    s = c.choice('split', [1., .75, .5])
    weighted = False
    W.ap.fit(x, y, n_epochs=E, validation_split=s, epsilon=-1e9, patience=100)
    if c.symbolic:
        m = (n * int(4 * s) + 3) // 4
    else:
        m = -(-n * int(4 * s) // 4)
    X, Y = lambda i: c.at(x0, i, 0), lambda i: c.at(y0, i)
    fw = [e for e in W.log if e[0] == 'forward']
    steps = [e for e in W.log if e[0] == 'step']
    c.ensure('one-step-per-epoch', len(steps) == E)
    tr = [e for k, e in enumerate(W.log) if e[0] == 'forward' and any(q[0] == 'backward' for q in W.log[k:k + 4])]
    va = [e for e in fw if not any(e is q for q in tr)]
    for e in tr:
        c.ensure('training-size', c.eq(e[2].shape[0], m))
        c.ensure_all('training-set-comes-first', (m,), lambda i: c.eq(c.at(e[2], i, 0), X(i)))
    c.ensure('validated-every-epoch', lambda: c.eq(len(va), c.ite(c.lt(m, n), E, 0)))
    for e in va:
        c.ensure('validation-size', c.eq(e[2].shape[0], n - m))
        c.ensure_all('validation-set-is-the-rest', (n - m,), lambda i: c.eq(c.at(e[2], i, 0), X(m + i)))
    for bad in (0., -.5, 1.5):
        c.ensure('split-outside-range-refused', c.raises(ValueError, lambda: W.ap.fit(x, y, validation_split=bad)))


@harness(P, 'early_stopping')
def early(c):
    """stops after `patience` epochs in a row without an improvement larger than epsilon, or at the maximum number of epochs"""
    val = c.choice('validated', [False, True])
    W = World(c)
    x, y, x0, y0 = data(c, 2, False)
    pat, mx, eps = c.choice('patience', [1, 2]), c.choice('max', [1, 2, 4]), c.real('eps', 0, 2)
    W.ap.fit(x, y, n_epochs=mx, epsilon=eps, patience=pat, **(dict(validation_split=.5) if val else {}))
    X, Y = lambda i: c.at(x0, i, 0), lambda i: c.at(y0, i)
    E = W.steps
    c.ensure('at-least-one-epoch', 1 <= E <= mx)

    def loss(t):
        if val:
            return W.per(t + 1, X, Y, 1)
        return (W.per(t, X, Y, 0) + W.per(t, X, Y, 1)) / 2
    # for every prefix of epochs: how many since the last improvement
    best, cnt = loss(0), 0
    if not c.symbolic:
        ls = [loss(t) for t in range(mx)]
        if any(abs(abs(a - b) - eps) < 1e-6 for a in ls for b in ls if a is not b):
            c.assume(False)
    for t in range(1, mx + 1):
        stop = c.or_(c.le(pat, cnt), c.le(mx, t))
        if t == E:
            c.ensure('stops-when-it-should', lambda: stop)
            break
        c.ensure('goes-on-while-it-improves', lambda: c.not_(stop))
        if t < mx:
            imp = c.lt(eps, best - loss(t))
            cnt = c.ite(imp, 0, cnt + 1)
            best = c.ite(imp, loss(t), best)


# ------------------------------------------------------------------ minibatches
MB = 'mushroom_rl.utils.minibatches'


@harness(P, 'minibatch_number')
def mb_number(c):
    n, b = c.size('n', 0), c.size('b', 1)
    r = c.mod(MB).minibatch_number(n, b)
    c.ensure('enough', c.le(n, r * b))
    c.ensure('not-one-more', c.or_(c.and_(c.eq(n, 0), c.eq(r, 0)), c.lt((r - 1) * b, n)))


def mk_mb(nb, lib):
    @harness(P, f'minibatches_{nb}_{lib}')
    def mb(c):
        """nb batches of an arbitrary size, the last one possibly shorter: each sample in exactly one place, rows kept together"""
        b = c.size('b', 1)
        n = c.int('n', (nb - 1) * b + 1, nb * b)
        x, y = c.array('x', (n, 1), lib=lib), c.array('y', (n,), lib=lib)
        if c.symbolic:
            perm = c.func('perm', 1, 'int', lo=0, hi=n - 1)
            inv = c.func('inv', 1, 'int', lo=0, hi=n - 1)

            def shuffle(a):
                old = c.copy(a)
                c.assume_all((n,), lambda i: c.and_(c.eq(inv(perm(i)), i), c.eq(perm(inv(i)), i)))
                a[:] = c.tabulate((n,), lambda i: c.at(old, perm(i)), 'int')
            c.stub(c.np.random, 'shuffle', shuffle)
            c.trust('np.random.shuffle applies a permutation')
        out = list(c.mod(MB).minibatch_generator(b, x, y))
        c.ensure('number-of-batches', len(out) == nb)
        for k, q in enumerate(out):
            c.ensure('arrays', len(q) == 2)
            m = b if k < nb - 1 else n - (nb - 1) * b
            c.ensure_shape('batch-size', q[0], (m, 1))
            c.ensure_shape('batch-size-targets', q[1], (m,))
            if c.symbolic:
                c.ensure_all('rows-kept-together', (m,), lambda i: c.and_(
                    c.eq(c.at(q[0], i, 0), c.at(x, perm(k * b + i), 0)), c.eq(c.at(q[1], i), c.at(y, perm(k * b + i)))))
        if not c.symbolic:
            got = sorted((float(q[0][i, 0]), float(q[1][i])) for q in out for i in range(len(q[1])))
            c.ensure('rows-kept-together', got == sorted((float(x[i, 0]), float(y[i])) for i in range(n)))
    return mb


for _k in (1, 2, 3):
    mk_mb(_k, 'np')
mk_mb(2, 'torch')


@harness(P, 'fit_minibatches')
def fit_mb(c):
    b = c.size('b', 1)
    n = c.int('n', b + 1, 2 * b)
    W = World(c, batch_size=b)
    x, y, x0, y0 = data(c, n, False)
    X, Y = lambda i: c.at(x0, i, 0), lambda i: c.at(y0, i)
    perms = []
    if c.symbolic:
        def shuffle(a):
            perms.append(c.func('perm%d' % len(perms), 1, 'int', lo=0, hi=n - 1))
            p, old = perms[-1], c.copy(a)
            a[:] = c.tabulate((n,), lambda i: c.at(old, p(i)), 'int')
        c.stub(c.np.random, 'shuffle', shuffle)
        c.trust('np.random.shuffle applies a permutation')
    W.ap.fit(x, y, n_epochs=2)
    fw, bw = [e for e in W.log if e[0] == 'forward'], [e for e in W.log if e[0] == 'backward']
    c.ensure('one-step-per-minibatch', [o for o in W.ops() if o in ('zero', 'backward', 'step')] == ['zero', 'backward', 'step'] * 4)
    c.ensure('passes', len(fw) == 4)
    for t in range(4):
        c.ensure('not-with-stale-weights', fw[t][1] == t)
        c.ensure('batch', c.eq(fw[t][2].shape[0], b if t % 2 == 0 else n - b))
    if c.symbolic:
        c.ensure('shuffled-every-epoch', len(perms) == 2)
        for t in range(4):
            k, p = t % 2, perms[t // 2]
            c.ensure_all('samples', (b if k == 0 else n - b,), lambda i: c.eq(c.at(fw[t][2], i, 0), X(p(k * b + i))))
    else:
        for ep in range(2):
            got = sorted(float(v) for t in (2 * ep, 2 * ep + 1) for v in fw[t][2][:, 0])
            c.ensure('samples', got == sorted(float(X(i)) for i in range(n)))
    c.ensure('mean-loss-of-the-last-epoch', lambda: c.eq(W.ap.loss_fit, (bw[2][1] + bw[3][1]) / 2))


# ------------------------------------------------------------------ weights
def mk_w(numpy):
    @harness(P, 'weights_' + ('numpy' if numpy else 'torch'))
    def weights(c):
        a, b, d = c.size('a', 1), c.size('b', 1), c.size('d', 1)
        W = World(c, numpy)
        W.params = [W.Param(c.array('p0', (a, b), lib='torch')), W.Param(c.array('p1', (d,), lib='torch'))]
        N = a * b + d
        c.ensure_eq('size', lambda: W.ap.weights_size, N)
        p0, p1 = c.copy(W.params[0].data) if c.symbolic else W.params[0].data.clone(), c.copy(W.params[1].data) if c.symbolic else W.params[1].data.clone()
        g = W.ap.get_weights()
        c.ensure_shape('shape', g, (N,))
        c.ensure_all('layout', (a, b), lambda i, j: c.eq(c.at(g, i * b + j), c.at(p0, i, j)))
        c.ensure_all('layout-second', (d,), lambda i: c.eq(c.at(g, a * b + i), c.at(p1, i)))
        g[0] = g[0] + 1
        c.ensure('a-copy', c.eq(c.at(W.params[0].data, 0, 0), c.at(p0, 0, 0)))
        w = c.array('w', (N,), lib='np' if numpy else 'torch')
        w0 = c.copy(w) if c.symbolic else w.copy() if numpy else w.clone()
        W.ap.set_weights(w)
        q0, q1 = W.params[0].data, W.params[1].data
        c.ensure_shape('first-shape', q0, (a, b))
        c.ensure_shape('second-shape', q1, (d,))
        c.ensure_all('first', (a, b), lambda i, j: c.eq(c.at(q0, i, j), c.at(w0, i * b + j)))
        c.ensure_all('second', (d,), lambda i: c.eq(c.at(q1, i), c.at(w0, a * b + i)))
        h = W.ap.get_weights()
        c.ensure_all('round-trip', (N,), lambda i: c.eq(c.at(h, i), c.at(w0, i)))
        # an optimiser step writes the parameters in place: the vector the caller keeps must not follow
        q0[0, 0] = q0[0, 0] + 1
        q1[0] = q1[0] + 1
        c.ensure_all('vector-of-the-caller-untouched', (N,), lambda i: c.eq(c.at(w, i), c.at(w0, i)))
    return weights


mk_w(False)
mk_w(True)


@harness(P, 'gradient_of_the_prediction', bounded_only=True)
def grad(c):
    """derivative of every output w.r.t. the parameters, in the layout of the weights (autograd itself is outside the proofs)"""
    if c.symbolic:
        unsup(c, 'autograd')
    import torch
    import numpy
    T = c.mod('mushroom_rl.approximators.parametric.torch_approximator')
    d, o = c.size('d', 1, 3), c.size('o', 1, 3)

    class Net(torch.nn.Module):
        def __init__(self, i, o, **kw):
            super().__init__()
            self.l = torch.nn.Linear(i[0], o[0])

        def forward(self, x):
            return self.l(x.float())
    num = c.choice('numpy', [False, True])
    ap = (T.NumpyTorchApproximator if num else T.TorchApproximator)((d,), (o,), Net)
    w = c.array('w', (o * d + o,))
    ap.set_weights(w if num else torch.as_tensor(w))
    x = c.array('x', (d,))
    for rep in range(2):
        g = ap.diff(x if num else torch.as_tensor(x))
        c.ensure_shape('shape', g, (o * d + o, o))
        for j in range(o):
            for k in range(o):
                c.ensure_all('gradient', (d,), lambda i: c.eq(float(g[k * d + i, j]), x[i] if j == k else 0.))
                c.ensure('gradient-bias', c.eq(float(g[o * d + k, j]), 1. if j == k else 0.))
