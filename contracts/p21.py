"""P21 - regressors: what a model predicts, differentiates, fits; routing of actions, ensembles and tables."""
from pydv.ctx import harness
from .common import unsup

PRELOAD = ['mushroom_rl.approximators', 'mushroom_rl.approximators.regressor', 'mushroom_rl.approximators.ensemble',
           'mushroom_rl.approximators.ensemble_table', 'mushroom_rl.approximators.table',
           'mushroom_rl.approximators.parametric', 'mushroom_rl.features.features', 'mushroom_rl.features.tiles',
           'mushroom_rl.utils.torch', 'mushroom_rl.utils.minibatches', 'mushroom_rl.core']
P = 'P21'


def reg(c):
    return c.mod('mushroom_rl.approximators.regressor').Regressor


def par(c):
    return c.mod('mushroom_rl.approximators.parametric')


# ------------------------------------------------------------------ linear
LP = 'mushroom_rl.approximators.parametric.linear.LinearApproximator.predict#0'


def rows_loop(c, d, o, f, w):
    """the rows before the k-th are predicted"""
    def havoc(L, e):
        L.havoc_array(e.prediction)
        return {}
    c.loop(LP, havoc, lambda e, k: [('rows', c.all(k, lambda i: c.all(o, lambda j: c.eq(
        c.at(e.prediction, i, j), c.sum(d, lambda q: f(i, q) * w(j, q))))))])


def mk_linear(feat):
    @harness(P, 'linear_predict' + ('_features' if feat else ''))
    def linear(c):
        n, d, o = c.size('n', 1), c.size('d', 1), c.size('o', 1)
        x = c.array('x', (n, d))
        w = c.array('w', (o * d,))
        x0, w0 = c.copy(x), c.copy(w)
        kw = {}
        if feat:
            ph = c.func('phi', 2)

            def phi(z):
                z = c.copy(z)
                if len(z.shape) == 1:
                    return c.tabulate((d,), lambda k: ph(c.at(z, 0), k))
                return c.tabulate((z.shape[0], d), lambda i, k: ph(c.at(z, i, 0), k))
            kw = dict(phi=phi)
            f = lambda i, k: ph(c.at(x0, i, 0), k)
        else:
            f = lambda i, k: c.at(x0, i, k)
        R = reg(c)(par(c).LinearApproximator, input_shape=(d,), output_shape=(o,), **kw)
        c.ensure_eq('weights-size', lambda: R.weights_size, o * d)
        R.set_weights(w)
        g = R.get_weights()
        c.ensure_shape('weights-shape', g, (o * d,))
        c.ensure_all('weights-round-trip', (o, d), lambda j, k: c.eq(c.at(g, j * d + k), c.at(w0, j * d + k)))
        rows_loop(c, d, o, f, lambda j, q: c.at(w0, j * d + q))
        y = R.predict(x)
        c.ensure_shape('one-row-per-sample', y, (n, o))
        c.ensure_all('prediction', (n, o), lambda i, j: c.eq(
            c.at(y, i, j), c.sum(d, lambda k: f(i, k) * c.at(w0, j * d + k))))
        i = c.int('i', 0, n - 1)
        rows_loop(c, d, o, lambda r, q: f(i, q), lambda j, q: c.at(w0, j * d + q))
        y1 = R(x[i])
        c.ensure_shape('one-sample', y1, (o,))
        c.ensure_all('prediction-of-one-sample', (o,), lambda j: c.eq(c.at(y1, j), c.at(y, i, j)))
        c.ensure_all('weights-untouched', (o, d), lambda j, k: c.eq(c.at(w, j * d + k), c.at(w0, j * d + k)))

    return linear


mk_linear(False)
mk_linear(True)


@harness(P, 'linear_gradient')
def linear_diff(c):
    d, o = c.size('d', 1), c.choice('o', [1, 2, 3])
    x, w = c.array('x', (d,)), c.array('w', (o * d,))
    R = reg(c)(par(c).LinearApproximator, input_shape=(d,), output_shape=(o,), weights=w)
    g = R.diff(x)
    if o == 1:
        c.ensure_shape('shape', g, (d,))
        c.ensure_all('gradient', (d,), lambda k: c.eq(c.at(g, k), c.at(x, k)))
    else:
        c.ensure_shape('shape', g, (o * d, o))
        for a in range(o):
            for j in range(o):
                c.ensure_all('gradient', (d,), lambda k: c.eq(c.at(g, a * d + k, j), c.at(x, k) if a == j else 0.))


@harness(P, 'linear_q_gradient')
def linear_q_diff(c):
    d, nA = c.size('d', 1), c.choice('nA', [2, 3])
    x = c.array('x', (d,))
    a = c.int('a', 0, nA - 1)
    kind = c.choice('kind', ['one model, all actions', 'one model per action'])
    o = nA if kind == 'one model, all actions' else 1
    R = reg(c)(par(c).LinearApproximator, input_shape=(d,), output_shape=(o,), n_actions=nA)
    c.ensure_eq('weights-size', lambda: R.weights_size, nA * d)
    act = c.tabulate((1,), lambda i: a, 'int')
    g = R.diff(x, act)
    c.ensure_shape('shape', g, (nA * d,))
    for b in range(nA):
        c.ensure_all('gradient', (d,), lambda k: c.eq(c.at(g, b * d + k), c.ite(c.eq(b, a), c.at(x, k), 0.)))
    h = R.diff(x)
    for b in range(nA):
        if o == 1:
            c.ensure_all('gradient-of-every-action', (d,), lambda k: c.eq(c.at(h[b], k), c.at(x, k)))
        else:
            for j in range(nA):
                c.ensure_all('gradient-of-every-action', (d,), lambda k: c.eq(
                    c.at(h, b * d + k, j), c.at(x, k) if b == j else 0.))


@harness(P, 'linear_least_squares')
def linear_fit(c):
    n, d, o = c.size('n', 1), c.size('d', 1), c.choice('o', [1, 2])
    x, y = c.array('x', (n, d)), c.array('y', (n, o))
    x0, y0 = c.copy(x), c.copy(y)
    k = c.int('k', 0, d - 1)        # an arbitrary feature
    if c.symbolic:
        class Pinv:
            _pydv_ghost = True

            def __init__(self, A):
                self.A = c.copy(A)

            def dot(self, b):
                A, b = self.A, c.copy(b)
                v = c.func('v', 2)
                one = len(b.shape) == 1
                o_ = 1 if one else b.shape[1]
                for j in range(o_):
                    bj = (lambda i: c.at(b, i)) if one else (lambda i: c.at(b, i, j))
                    c.assume(c.eq(c.sum(A.shape[0], lambda i: c.at(A, i, k) * (bj(i) - c.sum(
                        A.shape[1], lambda l: c.at(A, i, l) * v(l, j)))), 0.))
                if one:
                    return c.tabulate((A.shape[1],), lambda l: v(l, 0))
                return c.tabulate((A.shape[1], o_), lambda l, j: v(l, j))
            __matmul__ = dot
        c.stub(c.np.linalg, 'pinv', Pinv)
        c.trust('np.linalg.pinv(A).dot(b) solves the normal equations A^T (b - A w) = 0')
    R = reg(c)(par(c).LinearApproximator, input_shape=(d,), output_shape=(o,))
    R.fit(x, y)
    w = R.get_weights()         # (what the model predicts with them is the subject of linear_predict)
    c.ensure_shape('weights-shape', w, (o * d,))
    if o == 1 or not c.symbolic:
        w = w.reshape((o, d))
    else:
        w = getattr(R.model, '_w', None)
        if w is None:
            unsup(c, 'the weight matrix is not where it was')
    for j in range(o):
        c.ensure('residuals-orthogonal-to-the-features', lambda: c.eq(
            c.sum(n, lambda i: c.at(x0, i, k) * (c.at(y0, i, j) - c.sum(d, lambda l: c.at(x0, i, l) * c.at(w, j, l)))), 0.))
    c.ensure_all('data-untouched', (n,), lambda i: c.eq(c.at(y, i, 0), c.at(y0, i, 0)))


# ------------------------------------------------------------------ routing
class Models:
    """ghost models: the k-th one made predicts an arbitrary function of its input"""

    def __init__(self, c, out=None, lib='np'):
        self.c, self.made, self.fits, self.fn = c, [], [], c.func('f', 3)
        M = self

        class Model:
            _pydv_ghost = True

            def __init__(self, **kw):
                self.k = len(M.made)
                self.kw = kw
                M.made.append(self)
                self.w = c.array('w%d' % self.k, (2,))

            def fit(self, *z, **kw):
                M.fits.append((self.k, [c.copy(v) for v in z], kw))

            def predict(self, x, **kw):
                x = c.copy(x)
                self.predict_kw = kw
                o = out or 1
                return c.tabulate((x.shape[0], o), lambda i, j: M.fn(self.k, c.at(x, i, 0), j), lib=lib)

            weights_size = 2

            def get_weights(self):
                return c.copy(self.w)

            def set_weights(self, w):
                self.w = c.copy(w)

            def reset(self):
                self.w = None

            def diff(self, x):
                x = c.copy(x)
                return c.tabulate((2,), lambda j: M.dfn(self.k, c.at(x, 0), j))

            def __len__(self):
                return 1
        self.dfn = c.func('df', 3)
        self.Model = Model


@harness(P, 'action_regressor_gradient')
def action_reg_diff(c):
    """the gradient of the value of an action is the gradient of the model of that action, in its block of weights"""
    d, nA = c.size('d', 1), c.choice('nA', [2, 3])
    M = Models(c)
    R = reg(c)(M.Model, input_shape=(d,), output_shape=(1,), n_actions=nA)
    x, a = c.array('x', (d,)), c.int('a', 0, nA - 1)
    g = R.diff(x, c.tabulate((1,), lambda i: a, 'int'))
    c.ensure_shape('shape', g, (2 * nA,))
    for b in range(nA):
        c.ensure_all('gradient', (2,), lambda k: c.eq(c.at(g, b * 2 + k), c.ite(c.eq(b, a), M.dfn(b, c.at(x, 0), k), 0.)))
    h = R.diff(x)
    for b in range(nA):
        c.ensure_all('gradient-of-every-action', (2,), lambda k: c.eq(c.at(h[b], k), M.dfn(b, c.at(x, 0), k)))


@harness(P, 'action_regressor')
def action_reg(c):
    n, d, nA = c.size('n', 1), c.size('d', 1), c.choice('nA', [2, 3])
    M = Models(c)
    R = reg(c)(M.Model, input_shape=(d,), output_shape=(1,), n_actions=nA, extra=5)
    c.ensure('one-model-per-action', len(M.made) == nA)
    c.ensure('model-parameters', all(m.kw['extra'] == 5 for m in M.made))
    x, a = c.array('x', (n, d)), c.array('a', (n, 1), 'int', lo=0, hi=nA - 1)
    q = R.predict(x)
    c.ensure_shape('all-actions', q, (n, nA))
    c.ensure_all('all-actions', (n, nA), lambda i, b: c.eq(c.at(q, i, b), M.fn(b, c.at(x, i, 0), 0)))
    i = c.int('i', 0, n - 1)
    q1 = R.predict(x[i])
    c.ensure_shape('one-state', q1, (nA,))
    c.ensure_all('one-state', (nA,), lambda b: c.eq(c.at(q1, b), M.fn(b, c.at(x, i, 0), 0)))
    q2 = R.predict(x[i], a[i])
    c.ensure('one-state-action', c.eq(q2, M.fn(c.at(a, i, 0), c.at(x, i, 0), 0)))


@harness(P, 'action_regressor_given_actions')
def action_reg_given(c):
    n, d, nA = c.size('n', 1), c.size('d', 1), 2
    M = Models(c)
    R = reg(c)(M.Model, input_shape=(d,), output_shape=(1,), n_actions=nA)
    x, a = c.array('x', (n, d)), c.array('a', (n, 1), 'int', lo=0, hi=nA - 1)
    qa = R.predict(x, a)
    c.ensure_shape('given-actions', qa, (n,))
    c.ensure_all('given-actions', (n,), lambda i: c.eq(c.at(qa, i), M.fn(c.at(a, i, 0), c.at(x, i, 0), 0)))


@harness(P, 'action_regressor_fit')
def action_reg_fit(c):
    n, d, nA = c.size('n', 1), c.size('d', 1), 2
    M = Models(c)
    R = reg(c)(M.Model, input_shape=(d,), output_shape=(1,), n_actions=nA)
    x, a = c.array('x', (n, d)), c.array('a', (n, 1), 'int', lo=0, hi=nA - 1)
    y = c.array('y', (n,))
    R.fit(x, a, y, n_epochs=3)
    for b in range(nA):
        mine = [f for f in M.fits if f[0] == b]
        c.ensure('at-most-one-fit', len(mine) <= 1)
        cnt = c.sum(n, lambda i: c.ite(c.eq(c.at(a, i, 0), b), 1, 0))
        if not mine:
            c.ensure('fitted-when-it-has-samples', lambda: c.all(n, lambda i: c.not_(c.eq(c.at(a, i, 0), b))))
            continue
        _, (xs, ys), kw = mine[0]
        c.ensure('fit-parameters', kw == dict(n_epochs=3))
        c.ensure('as-many-samples-as-selected', lambda: c.eq(xs.shape[0], cnt))
        c.ensure('as-many-targets', lambda: c.eq(ys.shape[0], xs.shape[0]))
        if c.symbolic:
            c.ensure_all('samples-of-that-action', (xs.shape[0],), lambda k: c.any(n, lambda i: c.and_(
                c.eq(c.at(a, i, 0), b), c.eq(c.at(ys, k), c.at(y, i)), c.eq(c.at(xs, k, 0), c.at(x, i, 0)))))
        else:
            sel = [i for i in range(n) if a[i, 0] == b]
            c.ensure('samples-of-that-action', sorted(zip(x[sel, 0], y[sel])) == sorted(zip(xs[:, 0], ys)))


@harness(P, 'action_regressor_weights')
def action_reg_w(c):
    nA = c.choice('nA', [2, 3])
    M = Models(c)
    R = reg(c)(M.Model, input_shape=(1,), output_shape=(1,), n_actions=nA)
    c.ensure_eq('size', lambda: R.weights_size, 2 * nA)
    w = c.array('w', (2 * nA,))
    w0 = c.copy(w)
    R.set_weights(w)
    for b in range(nA):
        c.ensure_all('block-of-the-action', (2,), lambda k: c.eq(c.at(M.made[b].w, k), c.at(w0, 2 * b + k)))
    g = R.get_weights()
    c.ensure_shape('shape', g, (2 * nA,))
    c.ensure_all('round-trip', (2 * nA,), lambda k: c.eq(c.at(g, k), c.at(w0, k)))
    R.reset()
    c.ensure('every-model-reset', all(m.w is None for m in M.made))


@harness(P, 'q_regressor')
def q_reg(c):
    n, d, nA = c.size('n', 1), c.size('d', 1), c.size('nA', 2)
    M = Models(c, out=nA)
    R = reg(c)(M.Model, input_shape=(d,), output_shape=(nA,), n_actions=nA)
    c.ensure('one-model', len(M.made) == 1)
    x, a = c.array('x', (n, d)), c.array('a', (n, 1), 'int', lo=0, hi=nA - 1)
    f = lambda i, b: M.fn(0, c.at(x, i, 0), b)
    q = R.predict(x)
    c.ensure_shape('all-actions', q, (n, nA))
    c.ensure_all('all-actions', (n, nA), lambda i, b: c.eq(c.at(q, i, b), f(i, b)))
    qa = R.predict(x, a)
    c.ensure_shape('given-actions', qa, (n,))
    c.ensure_all('given-actions', (n,), lambda i: c.eq(c.at(qa, i), f(i, c.at(a, i, 0))))
    i = c.int('i', 0, n - 1)
    q1 = R.predict(x[i])
    c.ensure_shape('one-state', q1, (nA,))
    c.ensure_all('one-state', (nA,), lambda b: c.eq(c.at(q1, b), f(i, b)))
    q2 = R.predict(x[i], a[i])
    c.ensure('one-state-action', c.eq(q2, f(i, c.at(a, i, 0))))
    y = c.array('y', (n,))
    R.fit(x, a, y, patience=2)
    c.ensure('fitted-once', len(M.fits) == 1 and M.fits[0][2] == dict(patience=2) and len(M.fits[0][1]) == 3)
    xs, as_, ys = M.fits[0][1]
    c.ensure_shape('fit-states', xs, (n, d))
    c.ensure_all('fit-data', (n,), lambda k: c.and_(c.eq(c.at(xs, k, 0), c.at(x, k, 0)), c.eq(c.at(as_, k, 0), c.at(a, k, 0)),
                                                    c.eq(c.at(ys, k), c.at(y, k))))


@harness(P, 'q_regressor_fit_of_one_sample')
def q_fit1(c):
    d, nA = c.size('d', 1), c.size('nA', 2)
    M = Models(c, out=nA)
    R = reg(c)(M.Model, input_shape=(d,), output_shape=(nA,), n_actions=nA)
    x, a, y = c.array('x', (d,)), c.array('a', (1,), 'int', lo=0, hi=nA - 1), c.array('y', ())
    R.fit(x, a, y)
    xs, as_, ys = M.fits[0][1]
    c.ensure_shape('state', xs, (1, d))
    c.ensure_shape('action', as_, (1, 1))
    c.ensure_shape('target', ys, (1,))
    c.ensure_all('state', (d,), lambda k: c.eq(c.at(xs, 0, k), c.at(x, k)))
    c.ensure('rest', c.and_(c.eq(c.at(as_, 0, 0), c.at(a, 0)), c.eq(c.at(ys, 0), c.at(y))))


# ------------------------------------------------------------------ ensembles
def mk_ens(kind, lib):
    @harness(P, f'ensemble_{kind}_{lib}')
    def ens(c):
        n, o, m = c.size('n', 1), c.size('o', 1), c.choice('m', [1, 2, 3])
        M = Models(c, out=o, lib=lib)
        R = reg(c)(M.Model, input_shape=(2,), output_shape=(o,), n_models=m, prediction='mean')
        c.ensure('number-of-models', len(M.made) == m and len(R) == m)
        x = c.array('x', (n, 2))
        f = lambda k, i, j: M.fn(k, c.at(x, i, 0), j)

        def want(ks, i, j):
            v = [f(k, i, j) for k in ks]
            if kind in ('mean', 'sum', 'variance'):
                s = v[0]
                for t in v[1:]:
                    s = s + t
                return s if kind == 'sum' else s / len(v)
            r = v[0]
            for t in v[1:]:
                r = c.ite(c.lt(r, t) if kind == 'max' else c.lt(t, r), t, r)
            return r
        sub = c.choice('which', ['all', 'one', 'last two'])
        ks = {'all': list(range(m)), 'one': [m - 1], 'last two': list(range(max(0, m - 2), m))}[sub]
        kw = {} if sub == 'all' else dict(idx=m - 1) if sub == 'one' else dict(idx=ks)
        if kind != 'mean' or sub == 'last two':
            kw['prediction'] = kind
        y = R.predict(x, **kw)
        c.ensure_shape('shape', y, (n, o))
        c.ensure_all('prediction', (n, o), lambda i, j: c.eq(c.at(y, i, j), want(ks, i, j)))
        if sub == 'all' and m > 1:
            z = R.predict(x, compute_variance=True, **kw)
            c.ensure_shape('shape-with-variance', z[0], (n, o))
            c.ensure_all('prediction-with-variance', (n, o), lambda i, j: c.eq(c.at(z[0], i, j), want(ks, i, j)))
            c.ensure_shape('variance-shape', z[1], (n, o))
            z1 = R.predict(x[0], compute_variance=True, **kw)
            c.ensure('prediction-and-variance-of-one-sample', len(z1) == 2)
            c.ensure_shape('shape-of-one-sample', z1[0], (o,))
            c.ensure_shape('variance-shape-of-one-sample', z1[1], (o,))
            c.ensure_all('prediction-of-one-sample-with-variance', (o,), lambda j: c.eq(c.at(z1[0], j), want(ks, 0, j)))
            c.ensure_all('variance-of-one-sample', (o,), lambda j: c.eq(c.at(z1[1], j), c.at(z[1], 0, j)))
        y1 = R.predict(x[n - 1], **kw)
        c.ensure_shape('one-sample-shape', y1, (o,))
        c.ensure_all('prediction-of-one-sample', (o,), lambda j: c.eq(c.at(y1, j), want(ks, n - 1, j)))

    return ens


for _k in ('mean', 'sum', 'min', 'max'):
    for _l in ('np', 'torch'):
        mk_ens(_k, _l)


@harness(P, 'ensemble_fit')
def ens_fit(c):
    n, m = c.size('n', 1), c.choice('m', [1, 2, 3])
    M = Models(c)
    R = reg(c)(M.Model, input_shape=(1,), output_shape=(1,), n_models=m)
    x, y = c.array('x', (n, 1)), c.array('y', (n, 1))
    which = c.choice('idx', [None, 0, 'last'])
    idx = m - 1 if which == 'last' else which
    R.fit(x, y, idx=idx, patience=4)
    c.ensure('who-is-fitted', [f[0] for f in M.fits] == (list(range(m)) if idx is None else [idx]))
    for f in M.fits:
        c.ensure('fit-parameters', f[2] == dict(patience=4))
        c.ensure_all('fit-data', (n,), lambda k: c.and_(c.eq(c.at(f[1][0], k, 0), c.at(x, k, 0)),
                                                        c.eq(c.at(f[1][1], k, 0), c.at(y, k, 0))))
    R.reset()
    c.ensure('every-model-reset', all(q.w is None for q in M.made))


# ------------------------------------------------------------------ tables
@harness(P, 'table')
def table(c):
    nS, nA, n = c.size('nS', 1), c.size('nA', 2), c.size('n', 2)
    v0 = c.real('v0')
    T = c.mod('mushroom_rl.approximators.table').Table((nS, nA), initial_value=v0)
    c.ensure_all('initial-value', (nS, nA), lambda s, a: c.eq(c.at(T.table, s, a), v0))
    c.ensure('n-actions', c.eq(T.n_actions, nA))
    T.table = c.array('T', (nS, nA))
    t0 = c.copy(T.table)
    S, Aa = c.array('S', (n, 1), 'int', lo=0, hi=nS - 1), c.array('A', (n, 1), 'int', lo=0, hi=nA - 1)
    i = c.int('i', 0, n - 1)
    s, a = c.at(S, i, 0), c.at(Aa, i, 0)
    v = c.real('v')
    r = T.predict(S[i])
    c.ensure_shape('row-shape', r, (nA,))
    c.ensure_all('row', (nA,), lambda b: c.eq(c.at(r, b), c.at(t0, s, b)))
    c.ensure('entry', c.eq(T.predict(S[i], Aa[i]), c.at(t0, s, a)))
    T.fit((S[i], Aa[i]), v)
    c.ensure_all('only-that-entry-written', (nS, nA), lambda p, b: c.eq(
        c.at(T.table, p, b), c.ite(c.and_(c.eq(p, s), c.eq(b, a)), v, c.at(t0, p, b))))
    T[S[i], Aa[i]] = v + 1
    c.ensure('read-back', c.eq(T[S[i], Aa[i]], v + 1))


def mk_table(nB):
    @harness(P, f'table_batch_of_{nB}')
    def tb(c):
        nS, nA = c.size('nS', 1), c.size('nA', 2)
        T = c.mod('mushroom_rl.approximators.table').Table((nS, nA))
        T.table = c.array('T', (nS, nA))
        t0 = c.copy(T.table)
        S, Aa = c.array('S', (nB, 1), 'int', lo=0, hi=nS - 1), c.array('A', (nB, 1), 'int', lo=0, hi=nA - 1)
        r = T.predict(S)
        c.ensure_shape('rows-shape', r, (nB, nA))
        for i in range(nB):
            c.ensure_all('rows', (nA,), lambda b: c.eq(c.at(r, i, b), c.at(t0, c.at(S, i, 0), b)))
        q = T.predict(S, Aa)
        c.ensure_shape('entries-shape', q, (nB,))
        for i in range(nB):
            c.ensure('entries', c.eq(c.at(q, i), c.at(t0, c.at(S, i, 0), c.at(Aa, i, 0))))
    return tb


mk_table(2)
mk_table(3)


@harness(P, 'ensemble_table')
def ens_table(c):
    nS, nA, m = c.size('nS', 1), c.size('nA', 2), c.choice('m', [2, 3])
    E = c.mod('mushroom_rl.approximators.ensemble_table').EnsembleTable(m, (nS, nA), initial_value=c.real('v0'))
    c.ensure('n-actions', c.eq(E.n_actions, nA))
    for k in range(m):
        E[k].table = c.array('T%d' % k, (nS, nA))
    t = [c.copy(E[k].table) for k in range(m)]
    S, Aa = c.array('S', (1,), 'int', lo=0, hi=nS - 1), c.array('A', (1,), 'int', lo=0, hi=nA - 1)
    s, a = c.at(S, 0), c.at(Aa, 0)
    r = E.predict(S, prediction='mean')
    c.ensure_all('mean', (nA,), lambda b: c.eq(c.at(r, b) * m, sum(c.at(t[k], s, b) for k in range(m))))
    w = c.choice('w', list(range(m)))
    E[w][S, Aa] = c.real('v')
    for k in range(m):
        c.ensure_all('tables-are-separate', (nS, nA), lambda p, b: c.eq(c.at(E[k].table, p, b), c.at(t[k], p, b) if k != w else c.ite(
            c.and_(c.eq(p, s), c.eq(b, a)), c.at(E[k].table, s, a), c.at(t[k], p, b))))


# ------------------------------------------------------------------ CMAC
class Tilings:
    """two arbitrary tilings: each maps a point to one of its tiles, or to none"""

    def __init__(self, c):
        self.c = c
        self.sizes = [c.size('t0', 1), c.size('t1', 1)]
        self.cells = [c.func('cell%d' % k, 1, 'int', lo=0, hi=self.sizes[k] - 1) for k in range(2)]
        self.ins = [c.func('in%d' % k, 1, 'int', lo=0, hi=1) for k in range(2)]
        T = self

        class Tiling:
            _pydv_ghost = True

            def __init__(self, k):
                self.k, self.size = k, T.sizes[k]

            def __call__(self, x):
                v = c.at(x, 0)
                if T.ins[self.k](v) == 0:
                    return None
                return T.cells[self.k](v)
        self.tilings = [Tiling(0), Tiling(1)]

    def active(self, v):
        """[(condition, index of the weight)]"""
        c = self.c
        return [(c.eq(self.ins[k](v), 1), self.cells[k](v) + (self.sizes[0] if k else 0)) for k in range(2)]

    @property
    def size(self):
        return self.sizes[0] + self.sizes[1]


def cmac(c, o):
    T = Tilings(c)
    R = reg(c)(par(c).CMAC, input_shape=(1,), output_shape=(o,), tilings=T.tilings)
    c.ensure_eq('weights-size', lambda: R.weights_size, o * T.size)
    w = c.array('w', (o * T.size,))
    R.set_weights(w)
    return T, R, w, c.copy(w)


def mk_cmac(o):
    def value(c, T, w0, v, j):
        s = 0.
        for act, k in T.active(v):
            s = s + c.ite(act, c.at(w0, j * T.size + k), 0.)
        return s

    @harness(P, f'cmac_predict_{o}')
    def pred(c):
        T, R, w, w0 = cmac(c, o)
        n = c.choice('n', [1, 2])
        x = c.array('x', (n, 1))
        y = R.predict(x)
        c.ensure_shape('shape', y, (n,) if o == 1 else (n, o))
        for i in range(n):
            for j in range(o):
                c.ensure('prediction', lambda: c.eq(c.at(y, i) if o == 1 else c.at(y, i, j), value(c, T, w0, c.at(x, i, 0), j)))
        y1 = R.predict(x[0])
        if o > 1:
            c.ensure_shape('one-sample-shape', y1, (o,))
        for j in range(o):
            c.ensure('one-sample', lambda: c.eq(y1 if o == 1 else c.at(y1, j), value(c, T, w0, c.at(x, 0, 0), j)))

    @harness(P, f'cmac_gradient_{o}')
    def grad(c):
        T, R, w, w0 = cmac(c, o)
        x = c.array('x', (1,))
        g = R.diff(x)
        act = T.active(c.at(x, 0))
        feat = lambda m: c.ite(c.or_(*[c.and_(a, c.eq(k, m)) for a, k in act]), 1., 0.)
        if o == 1:
            c.ensure_shape('shape', g, (T.size,))
            c.ensure_all('gradient', (T.size,), lambda m: c.eq(c.at(g, m), feat(m)))
        else:
            c.ensure_shape('shape', g, (o * T.size, o))
            for a in range(o):
                for j in range(o):
                    c.ensure_all('gradient', (T.size,), lambda m: c.eq(c.at(g, a * T.size + m, j), feat(m) if a == j else 0.))

    @harness(P, f'cmac_fit_{o}')
    def fit(c):
        T, R, w, w0 = cmac(c, o)
        n, alpha = c.choice('n', [1, 2]), c.real('alpha', 0, 1)
        x = c.array('x', (n, 1))
        flat = o == 1 and c.choice('targets', ['column', 'vector']) == 'vector'
        y = c.array('y', (n,) if flat else (n, o))
        y0 = c.copy(y)
        R.fit(x, y, alpha=alpha)
        g = R.get_weights()
        acts = [T.active(c.at(x, i, 0)) for i in range(n)]
        hit = lambda i, m: c.or_(*[c.and_(a, c.eq(k, m)) for a, k in acts[i]])

        def new(j, m):
            users = 0
            for i in range(n):
                users = users + c.ite(hit(i, m), 1, 0)
            d = 0.
            for i in range(n):
                e = (c.at(y0, i) if flat else c.at(y0, i, j)) - value(c, T, w0, c.at(x, i, 0), j)
                share = 0
                for a, _ in acts[i]:
                    share = share + c.ite(a, 1, 0)
                for u in (1, 2):
                    for s in (1, 2):
                        d = d + c.ite(c.and_(hit(i, m), c.eq(users, u), c.eq(share, s)), e / (u * s), 0.)
            return c.at(w0, j * T.size + m) + alpha * d
        c.ensure_shape('weights-shape', g, (o * T.size,))
        for j in range(o):
            c.ensure_all('error-spread-over-the-active-tiles', (T.size,), lambda m: c.eq(c.at(g, j * T.size + m), new(j, m)))
        c.ensure_all('caller-weights-untouched', (o * T.size,), lambda m: c.eq(c.at(w, m), c.at(w0, m)))
        c.ensure_all('targets-untouched', (n,), lambda i: c.eq(c.at(y, i) if flat else c.at(y, i, 0), c.at(y0, i) if flat else c.at(y0, i, 0)))


mk_cmac(1)
mk_cmac(2)
