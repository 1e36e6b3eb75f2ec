"""P26 - parametric policies: action distribution, gradient of its logarithm, weights, policy state."""
from pydv.ctx import harness
from .common import unsup

PRELOAD = ['mushroom_rl.policy', 'mushroom_rl.policy.gaussian_policy', 'mushroom_rl.policy.torch_policy', 'mushroom_rl.policy.recurrent_torch_policy',
           'mushroom_rl.policy.noise_policy', 'mushroom_rl.policy.vector_policy', 'mushroom_rl.policy.promps', 'mushroom_rl.policy.dmp',
           'mushroom_rl.policy.deterministic_policy', 'mushroom_rl.approximators', 'mushroom_rl.approximators.parametric', 'mushroom_rl.core',
           'mushroom_rl.utils.torch', 'mushroom_rl.rl_utils.parameters']
P = 'P26'
PO = 'mushroom_rl.policy'
D = 2               # state dimension


def linear(c, n, name, lo=None, hi=None):
    """a linear regressor of the library with arbitrary weights; m(w, s, i) is its i-th output"""
    ap = c.mod('mushroom_rl.approximators')
    r = ap.Regressor(c.mod('mushroom_rl.approximators.parametric').LinearApproximator, input_shape=(D,), output_shape=(n,))
    w = c.array(name, (n * D,), lo=lo, hi=hi)
    r.set_weights(c.copy(w))
    return r, w


def st_(c, name, shape):
    """any state; the concrete ones are kept small enough for the exponential not to overflow"""
    return c.array(name, shape) if c.symbolic else c.array(name, shape, lo=-3, hi=3)


def out(c, w, s, i, at=0):
    return sum(c.at(w, at + i * D + k) * c.at(s, k) for k in range(D))


class Draws:
    """scipy.stats.multivariate_normal and np.random.multivariate_normal: arbitrary results, requests logged"""
    _pydv_ghost = True

    def __init__(self, c, module):
        self.c, self.log = c, []
        c.stub(c.mod(module), 'multivariate_normal', self)
        c.stub(c.np.random, 'multivariate_normal', self.draw)
        c.trust('scipy and numpy evaluate and sample the Gaussian they are asked for')

    def pdf(self, x, mean, cov):
        r = self.c.real('p%d' % len(self.log), .1, 3)
        self.log.append(('pdf', self.c.copy(x), self.c.copy(mean), self.c.copy(cov), r))
        return r

    def draw(self, mean, cov, size=None):
        r = self.c.array('u%d' % len(self.log), tuple(mean.shape))
        self.log.append(('draw', None, self.c.copy(mean), self.c.copy(cov), self.c.copy(r)))
        return r


def inverse(c, S, n):
    """the assumed contract of np.linalg.inv for the covariance S"""
    if not c.symbolic:
        return c.np.linalg.inv(S)
    c.trust('np.linalg.inv(m) is a two-sided inverse of m')
    if n == 1:
        return c.tabulate((1, 1), lambda i, j: 1. / c.at(S, 0, 0))
    d = c.at(S, 0, 0) * c.at(S, 1, 1) - c.at(S, 0, 1) * c.at(S, 1, 0)
    return c.tabulate((2, 2), lambda i, j: c.ite(c.eq(i, j), c.at(S, 1 - i, 1 - j), -c.at(S, i, j)) / d)


def spd(c, n, name='S'):
    if not c.symbolic:
        k = c.array(name, (n, n), lo=-2, hi=2)
        return k @ k.T + .5 * c.np.eye(n)
    if n == 1:
        return c.array(name, (1, 1), lo=.1)
    d = [c.real('%s%d' % (name, i), .1) for i in range(2)]
    o = c.real(name + 'o')
    c.assume(c.lt(.01, d[0] * d[1] - o * o))
    return c.tabulate((2, 2), lambda i, j: c.ite(c.eq(i, j), c.ite(c.eq(i, 0), d[0], d[1]), o))


class Kind:
    """one of the four numpy Gaussian policies: how it is built, the Gaussian of a state from the weight vector, the gradient"""

    def __init__(self, c, kind, n):
        self.c, self.kind, self.n = c, kind, n
        po = c.mod(PO)
        m = n * D
        mu, self.w = linear(c, n, 'w')
        if kind == 'fixed':
            self.S = spd(c, n)
            if c.symbolic:
                c.stub(c.np.linalg, 'inv', lambda x: inverse(c, x, n))
            self.pi = po.GaussianPolicy(mu, self.S)
            self.size = m
        elif kind == 'diagonal':
            sd = c.array('sd', (n,), lo=.2, hi=4)
            self.pi = po.DiagonalGaussianPolicy(mu, c.copy(sd))
            self.v, self.size = sd, m + n
        else:
            r, self.v = linear(c, n, 'v', -1, 1)
            self.size = 2 * m
            if kind == 'state_std':
                self.eps = c.real('eps', .01, .5)
                self.pi = po.StateStdGaussianPolicy(mu, r, self.eps)
            else:
                self.pi = po.StateLogStdGaussianPolicy(mu, r)

    def mean(self, s, i):
        return out(self.c, self.w, s, i)

    def var(self, s, i):
        c = self.c
        if self.kind == 'diagonal':
            return c.at(self.v, i) * c.at(self.v, i)
        if self.kind == 'state_std':
            x = out(c, self.v, s, i)
            return x * x + self.eps
        x = c.exp(out(c, self.v, s, i))
        return x * x

    def cov(self, s, i, j):
        if self.kind == 'fixed':
            return self.c.at(self.S, i, j)
        return self.var(s, i) if i == j else 0.

    def grad(self, s, a):
        """the derivative of the logarithm of the density, in the layout of the weight vector"""
        c, n = self.c, self.n
        d = [c.at(a, i) - self.mean(s, i) for i in range(n)]
        if self.kind == 'fixed':
            I = inverse(c, self.S, n)
            e = [sum(c.at(I, i, j) * d[j] for j in range(n)) for i in range(n)]
        else:
            e = [d[i] / self.var(s, i) for i in range(n)]
        g = [e[i] * c.at(s, k) for i in range(n) for k in range(D)]
        for i in range(n if self.kind != 'fixed' else 0):
            z = d[i] * d[i] / self.var(s, i) - 1
            if self.kind == 'diagonal':
                g.append(z / c.at(self.v, i))
            elif self.kind == 'state_std':
                g += [z * out(c, self.v, s, i) / self.var(s, i) * c.at(s, k) for k in range(D)]
            else:
                g += [z * c.at(s, k) for k in range(D)]
        return g

    def weights(self):
        c = self.c
        m = self.n * D
        return lambda i: c.at(self.w, i) if i < m else c.at(self.v, i - m)


KINDS = [(k, n) for k in ('fixed', 'diagonal', 'state_std', 'state_log_std') for n in (1, 2)]


def mk_density(kind, n):
    @harness(P, f'gaussian_{kind}_{n}_distribution')
    def h(c):
        K = Kind(c, kind, n)
        s, a = st_(c, 's', (D,)), st_(c, 'a', (n,))
        g = Draws(c, 'mushroom_rl.policy.gaussian_policy')
        p = K.pi(s, a)
        u, st = K.pi.draw_action(s)
        c.ensure('no-policy-state', st is None)
        c.ensure('one-request-each', [x[0] for x in g.log] == ['pdf', 'draw'])
        c.ensure('density', lambda: c.eq(c.at(p), g.log[0][4]))
        for i in range(n):
            c.ensure('of-the-action', lambda: c.eq(c.at(g.log[0][1], i), c.at(a, i)))
            c.ensure('action-drawn', lambda: c.eq(c.at(u, i), c.at(g.log[1][4], i)))
        for w, x, m, S, r in g.log:
            c.ensure_shape('mean-shape', m, (n,))
            c.ensure_shape('covariance-shape', S, (n, n))
            for i in range(n):
                c.ensure('mean', lambda: c.eq(c.at(m, i), K.mean(s, i)))
                for j in range(n):
                    c.ensure('covariance', lambda: c.eq(c.at(S, i, j), K.cov(s, i, j)))


def mk_grad(kind, n):
    @harness(P, f'gaussian_{kind}_{n}_gradient')
    def h(c):
        K = Kind(c, kind, n)
        s, a = st_(c, 's', (D,)), st_(c, 'a', (n,))
        g = K.pi.diff_log(s, a)
        if kind == 'state_std':
            for i in range(n):
                x = out(c, K.v, s, i)
                c.lemma('square', lambda: c.le(0., x * x))
                c.lemma('variance-is-positive', lambda: c.lt(0., K.var(s, i)))
        w = K.grad(s, a)
        c.ensure_shape('one-entry-per-weight', g, (K.size,))
        for i in range(K.size):
            c.ensure('derivative-of-the-log-density', lambda: c.eq(c.at(g, i), w[i]))
        Draws(c, 'mushroom_rl.policy.gaussian_policy')
        q = K.pi.diff(s, a)
        p = c.real('q', .1, 3)
        c.stub(K.pi, 'diff_log', lambda *b, **k: c.copy(g))
        c.stub(type(K.pi), '__call__', lambda self, *b, **k: p)
        q = K.pi.diff(s, a)
        for i in range(K.size):
            c.ensure('derivative-of-the-density', lambda: c.eq(c.at(q, i), p * c.at(g, i)))


def mk_weights(kind, n):
    @harness(P, f'gaussian_{kind}_{n}_weights')
    def h(c):
        K = Kind(c, kind, n)
        c.ensure('size', K.pi.weights_size == K.size)
        g = K.pi.get_weights()
        c.ensure_shape('vector', g, (K.size,))
        old = K.weights()
        for i in range(K.size):
            c.ensure('as-built', lambda: c.eq(c.at(g, i), old(i)))
        z = c.array('z', (K.size,), lo=.2, hi=2)
        z0 = c.copy(z)
        K.pi.set_weights(z)
        z += 1
        b = K.pi.get_weights()
        m = n * D
        for i in range(K.size):
            c.ensure('read-back-as-set', lambda: c.eq(c.at(b, i), c.at(z0, i)))
            c.ensure('vector-handed-out-is-a-copy', lambda: c.eq(c.at(g, i), old(i)))
        K.w = z0[:m] if not c.symbolic else c.tabulate((m,), lambda i: c.at(z0, i))
        if kind != 'fixed':
            K.v = z0[m:] if not c.symbolic else c.tabulate((K.size - m,), lambda i: c.at(z0, i + m))
        s = c.array('s', (D,), lo=-1, hi=1)
        G = Draws(c, 'mushroom_rl.policy.gaussian_policy')
        K.pi.draw_action(s)
        w, x, mm, S, r = G.log[0]
        for i in range(n):
            c.ensure('mean-of-the-new-weights', lambda: c.eq(c.at(mm, i), K.mean(s, i)))
            for j in range(n):
                c.ensure('covariance-of-the-new-weights', lambda: c.eq(c.at(S, i, j), K.cov(s, i, j)))


for k, n in KINDS:
    mk_density(k, n)
    mk_grad(k, n)
    mk_weights(k, n)


@harness(P, 'gaussian_set_covariance')
def set_cov(c):
    K = Kind(c, 'fixed', 2)
    K.S = spd(c, 2, 'R')
    K.pi.set_sigma(K.S)
    s, a = c.array('s', (D,)), c.array('a', (2,))
    G = Draws(c, 'mushroom_rl.policy.gaussian_policy')
    K.pi.draw_action(s)
    g, w = K.pi.diff_log(s, a), K.grad(s, a)
    for i in range(2):
        for j in range(2):
            c.ensure('covariance', lambda: c.eq(c.at(G.log[0][3], i, j), c.at(K.S, i, j)))
    for i in range(K.size):
        c.ensure('gradient', lambda: c.eq(c.at(g, i), w[i]))


@harness(P, 'gaussian_set_std')
def set_std(c):
    K = Kind(c, 'diagonal', 2)
    K.v = c.array('sd2', (2,), lo=.2, hi=4)
    K.pi.set_std(K.v)
    s, a = c.array('s', (D,)), c.array('a', (2,))
    g, w = K.pi.diff_log(s, a), K.grad(s, a)
    G = Draws(c, 'mushroom_rl.policy.gaussian_policy')
    K.pi.draw_action(s)
    for i in range(2):
        c.ensure('variance', lambda: c.eq(c.at(G.log[0][3], i, i), c.at(K.v, i) * c.at(K.v, i)))
    for i in range(K.size):
        c.ensure('gradient', lambda: c.eq(c.at(g, i), w[i]))


# ------------------------------------------------------------------ deterministic
@harness(P, 'deterministic')
def deterministic(c):
    r, w = linear(c, 2, 'w')
    pi = c.mod(PO).DeterministicPolicy(r)
    s = c.array('s', (D,))
    u, st = pi.draw_action(s)
    c.ensure('no-policy-state', st is None)
    c.ensure_shape('shape', u, (2,))
    for i in range(2):
        c.ensure('action', lambda: c.eq(c.at(u, i), out(c, w, s, i)))
    p = pi(s, u)
    c.ensure('probability-one', lambda: c.eq(c.at(p), 1.))
    v = c.copy(u)
    k = c.int('k', 0, 1)
    v[k] += c.real('d', .1, 2)
    q = pi(s, v)
    c.ensure('probability-zero', lambda: c.eq(c.at(q), 0.))
    c.ensure('size', pi.weights_size == 2 * D)
    z = c.array('z', (2 * D,))
    pi.set_weights(c.copy(z))
    b = pi.get_weights()
    u, _ = pi.draw_action(s)
    for i in range(2 * D):
        c.ensure('read-back-as-set', lambda: c.eq(c.at(b, i), c.at(z, i)))
    for i in range(2):
        c.ensure('action-of-the-new-weights', lambda: c.eq(c.at(u, i), out(c, z, s, i)))
    c.ensure('regressor', pi.get_regressor() is r)


# ------------------------------------------------------------------ noise policies
class Mu:
    """a torch regressor: an arbitrary function of the state"""
    _pydv_ghost = True

    def __init__(self, c, n, batch=False):
        self.c, self.n, self.f = c, n, c.func('mu', 1 + D)
        self.output_shape = (n,)
        self.weights_size = 3
        self.w = None

    def value(self, s, i):
        c = self.c
        return self.f(i, *[c.at(s, k) for k in range(D)])

    def __call__(self, s, **k): return self.predict(s, **k)

    def predict(self, s, **k):
        c = self.c
        if len(s.shape) == 1:
            s = c.copy(s)
            return c.tabulate((self.n,), lambda i: self.value(s, i), lib='torch')
        s = c.copy(s)
        return c.tabulate((s.shape[0], self.n), lambda r, i: self.f(i, *[c.at(s, r, k) for k in range(D)]), lib='torch')

    def set_weights(self, w): self.w = w
    def get_weights(self): return self.w


def mk_ou(x0):
    @harness(P, 'ornstein_uhlenbeck' + ('_initial_noise' if x0 else ''))
    def h(c):
        n = c.size('n', 1)
        mu = Mu(c, n)
        th, dt = c.real('theta', 0, 1), c.real('dt', .01, 1)
        sg = c.array('sigma', (n,), lib='torch', lo=.1, hi=2)
        X = c.array('x0', (n,), lib='torch') if x0 else None
        pi = c.mod(PO).OrnsteinUhlenbeckPolicy(mu, sg, th, dt, c.copy(X) if x0 else None)
        c.ensure('stateful', pi.is_stateful)
        c.ensure_eq('state-shape', lambda: pi.policy_state_shape[0], n)
        x = pi.reset()
        c.ensure_shape('initial-shape', x, (n,))
        c.ensure_all('initial-noise', (n,), lambda i: c.eq(c.at(x, i), c.at(X, i) if x0 else 0.))
        s = c.array('s', (D,), lib='torch')
        z = c.array('z', (n,), lib='torch')
        asked = []

        def randn(*a, **k):
            asked.append((a, k))
            return c.copy(z)
        c.stub(c.mod('mushroom_rl.policy.noise_policy').torch, 'randn', randn)
        x = c.array('x', (n,), lib='torch')
        xo = c.copy(x)
        u, x2 = pi.draw_action(s, x)
        c.ensure('one-noise-sample', len(asked) == 1)
        sq = c.sqrt(dt)
        new = lambda i: c.at(xo, i) - th * c.at(xo, i) * dt + c.at(sg, i) * sq * c.at(z, i)
        c.ensure_shape('noise-shape', x2, (n,))
        c.ensure_shape('action-shape', u, (n,))
        c.ensure_all('noise', (n,), lambda i: c.eq(c.at(x2, i), new(i)))
        c.ensure_all('action', (n,), lambda i: c.eq(c.at(u, i), mu.value(s, i) + new(i)))
        c.ensure_all('policy-state-kept', (n,), lambda i: c.eq(c.at(x, i), c.at(xo, i)))
        x3 = pi.reset()
        c.ensure_all('initial-noise-again', (n,), lambda i: c.eq(c.at(x3, i), c.at(X, i) if x0 else 0.))
        w = c.array('w', (3,), lib='torch')
        pi.set_weights(w)
        c.ensure('weights-of-the-regressor', pi.get_weights() is w and pi.weights_size == 3)


mk_ou(False)
mk_ou(True)


class TNormal:
    """torch.distributions.MultivariateNormal: arbitrary results, requests logged"""
    _pydv_ghost = True

    def __init__(self, c, *mods):
        self.c, self.log = c, []
        self.lp, self.en = c.func('lp', 1, 'real', -3, 3), c.real('en', -3, 3)
        G = self

        class MultivariateNormal:
            _pydv_ghost = True

            def __init__(self, loc, covariance_matrix=None, scale_tril=None, validate_args=None, **k):
                if (scale_tril is None) == (covariance_matrix is None) or k:
                    unsup(c, 'another parametrisation')
                self.m = c.copy(loc)
                self.l = c.copy(scale_tril) if scale_tril is not None else None
                self.S = c.copy(covariance_matrix) if scale_tril is None else None
                self.x = self.r = None
                G.log.append(self)

            def cov(self, i, j):
                n = self.m.shape[-1]
                if self.S is not None:
                    return c.at(self.S, i, j)
                return sum(c.at(self.l, i, k) * c.at(self.l, j, k) for k in range(n))

            def sample(self, *a):
                self.r = c.array('draw%d' % len(G.log), tuple(self.m.shape), lib='torch')
                return c.copy(self.r)

            def log_prob(self, x):
                self.x = c.copy(x)
                k = len(G.log)
                return c.tabulate(tuple(self.m.shape[:-1]), lambda i: G.lp(100 * k + i), lib='torch')

            def entropy(self):
                return c.tabulate((), lambda: G.en, lib='torch')
        for m in mods:
            c.stub(c.mod(m).torch.distributions, 'MultivariateNormal', MultivariateNormal)
        c.trust('torch.distributions.MultivariateNormal evaluates and samples the Gaussian it is asked for')


def mk_clipped(n):
    @harness(P, f'clipped_gaussian_{n}')
    def h(c):
        NP = 'mushroom_rl.policy.noise_policy'
        S = spd(c, n)
        f = Mu(c, n)
        lo, hi = c.array('lo', (n,), lib='torch', lo=-2, hi=0), c.array('hi', (n,), lib='torch', lo=0, hi=2)
        if c.symbolic:
            q = c.array('chol', (n, n))
            L = c.tabulate((n, n), lambda i, j: c.ite(c.lt(i, j), 0., c.at(q, i, j)))
            c.trust("torch.linalg.cholesky(S) is lower triangular with L L' = S")
            c.stub(c.mod(NP).torch.linalg, 'cholesky', lambda s: c.copy(L)._as('torch'))
            for i in range(n):
                for j in range(n):
                    c.assume(c.eq(sum(c.at(L, i, k) * c.at(L, j, k) for k in range(n)), c.at(S, i, j)))
            pi = c.mod(PO).ClippedGaussianPolicy(f, S._as('torch'), lo, hi)
        else:
            import torch
            pi = c.mod(PO).ClippedGaussianPolicy(f, torch.from_numpy(S), lo, hi)
        g = TNormal(c, NP)
        s = c.array('s', (D,), lib='torch') if c.symbolic else c.array('s', (D,))
        u, st = pi.draw_action(s)
        c.ensure('no-policy-state', st is None)
        c.ensure('one-request', len(g.log) == 1)
        e = g.log[0]
        c.ensure_shape('shape', u, (n,))
        for i in range(n):
            c.ensure('mean', lambda: c.eq(c.at(e.m, i), f.value(s, i)))
            for j in range(n):
                c.ensure('covariance', lambda: c.eq(e.cov(i, j), c.at(S, i, j)))
            x = c.at(e.r, i)
            c.ensure('clipped', lambda: c.eq(c.at(u, i), c.ite(c.lt(x, c.at(lo, i)), c.at(lo, i), c.ite(c.lt(c.at(hi, i), x), c.at(hi, i), x))))


mk_clipped(1)
mk_clipped(2)


# ------------------------------------------------------------------ torch policies
def net(c, n, recurrent=False):
    """a network class computing an arbitrary function of the state, with one weight vector of 3 entries"""
    fn = c.func('net', 1 + D)
    hid = c.func('hid', 2)
    reg = []

    class Param:
        _pydv_ghost = True

        def __init__(self, data):
            self.data, self.grad = data, None
            self.requires_grad = True
            self.shape = data.shape

        def numel(self): return 3
        def detach(self): return self.data

    class Net:
        _pydv_ghost = True

        def __init__(self, input_shape, output_shape, **k):
            self.io = (tuple(input_shape), tuple(output_shape), k)
            self.p = Param(c.array('nw', (3,), lib='torch'))
            reg.append(self)

        def to(self, d): return self
        def parameters(self): return iter([self.p])
        def named_parameters(self): return iter([('p', self.p)])
        def eval(self): pass
        def train(self, on=True): pass
        def weights_init(self): pass

        def __call__(self, s, *a, **k):
            s = c.copy(s)
            if recurrent:
                reg.append((s, a))
                ps = c.copy(a[0])
                return (c.tabulate((s.shape[0], n), lambda r, i: fn(i, *[c.at(s, r, 0, k) for k in range(D)]), lib='torch'),
                        c.tabulate(tuple(ps.shape), lambda r, i: hid(i, c.at(ps, r, i)), lib='torch'))
            return c.tabulate((s.shape[0], n), lambda r, i: fn(i, *[c.at(s, r, k) for k in range(D)]), lib='torch')
    return Net, fn, hid, reg


TP = 'mushroom_rl.policy.torch_policy'


def mk_tg(n, rows):
    @harness(P, f'torch_gaussian_{n}_rows_{rows}')
    def h(c):
        import math
        Net, fn, _, reg = net(c, n)
        std = c.real('std', .2, 4)
        pi = c.mod(TP).GaussianTorchPolicy(Net, (D,), (n,), std_0=std, n_features=7)
        c.ensure('network', reg[0].io[0] == (D,) and reg[0].io[1] == (n,) and reg[0].io[2].get('n_features') == 7)
        g = TNormal(c, TP)
        ps = list(pi.parameters())
        c.ensure('trainable', len(ps) == 2)
        sig = [c.exp(c.log(std)) for _ in range(n)]

        def requests(sig, tag):
            k0 = len(g.log)
            s = c.array('s' + tag, (rows, D), lib='torch')
            a = c.array('a' + tag, (rows, n), lib='torch')
            lp = pi.log_prob_t(s, a)
            u, st = pi.draw_action(s)
            p = pi(s, a)
            e = g.log[k0:]
            c.ensure('one-request-each', len(e) == 3)
            c.ensure('no-policy-state', st is None)
            c.ensure_shape('log-density-shape', lp, (rows, 1))
            c.ensure_shape('density-shape', p, (rows, 1))
            c.ensure_shape('action-shape', u, (rows, n) if rows > 1 else (n,))
            for r in range(rows):
                c.ensure('log-density', lambda: c.eq(c.at(lp, r, 0), g.lp(100 * (k0 + 1) + r)))
                c.ensure('density', lambda: c.eq(c.at(p, r, 0), c.exp(g.lp(100 * (k0 + 3) + r))))
                for i in range(n):
                    for x in e:
                        c.ensure('mean', lambda: c.eq(c.at(x.m, r, i), fn(i, *[c.at(s, r, k) for k in range(D)])))
                    c.ensure('of-the-action', lambda: c.and_(c.eq(c.at(e[0].x, r, i), c.at(a, r, i)), c.eq(c.at(e[2].x, r, i), c.at(a, r, i))))
                    c.ensure('action-drawn', lambda: c.eq(c.at(u, r, i) if rows > 1 else c.at(u, i), c.at(e[1].r, r, i)))
            for x in e:
                for i in range(n):
                    for j in range(n):
                        c.ensure('covariance', lambda: c.eq(x.cov(i, j), sig[i] * sig[i] if i == j else 0.))
        requests(sig, '')
        en = pi.entropy()
        c.ensure('entropy', lambda: c.eq(c.at(en), n * (.5 + .5 * c.log(2 * math.pi)) + n * c.log(std)) if not c.symbolic else
                 c.eq(c.at(en), n / 2 * c.log(2 * math.pi * math.e) + n * c.log(std)))
        w0 = pi.get_weights()
        c.ensure_shape('weights', w0, (3 + n,))
        for i in range(n):
            c.ensure('standard-deviation-last', lambda: c.eq(c.at(w0, 3 + i), c.log(std)))
        for i in range(3):
            c.ensure('network-weights-first', lambda: c.eq(c.at(w0, i), c.at(reg[0].p.data, i)))
        z = c.array('z', (3 + n,), lib='torch', lo=-1, hi=1)
        z0 = c.copy(z)
        pi.set_weights(z)
        b = pi.get_weights()
        for i in range(3 + n):
            c.ensure('read-back-as-set', lambda: c.eq(c.at(b, i), c.at(z0, i)))
        for p in pi.parameters():
            p.data += 1
        for i in range(3 + n):
            c.ensure('vectors-of-the-caller-untouched', lambda: c.and_(c.eq(c.at(z, i), c.at(z0, i)), c.eq(c.at(b, i), c.at(z0, i))))
        sig = [c.exp(c.at(z0, 3 + i) + 1) for i in range(n)]
        requests(sig, '2')
        en = pi.entropy()
        c.ensure('entropy-of-the-new-weights', lambda: c.eq(
            c.at(en), (n * (.5 + .5 * c.log(2 * math.pi)) if not c.symbolic else n / 2 * c.log(2 * math.pi * math.e)) + sum(c.at(z0, 3 + i) + 1 for i in range(n))))


for n in (1, 2):
    for rows in (1, 2):
        mk_tg(n, rows)


class TCat:
    """torch.distributions.Categorical: arbitrary results, requests logged"""
    log = None


def mk_boltzmann(rows):
    @harness(P, f'torch_boltzmann_rows_{rows}')
    def h(c):
        nA = 3
        Net, fn, _, reg = net(c, nA)
        par = c.mod('mushroom_rl.rl_utils.parameters')
        b0 = c.real('beta', .1, 3)
        pi = c.mod(TP).BoltzmannTorchPolicy(Net, (D,), (nA,), par.Parameter(b0), n_features=7)
        c.ensure('network', reg[0].io[0] == (D,) and reg[0].io[1] == (nA,) and reg[0].io[2].get('n_features') == 7)
        made = []
        lp, pick, en = c.func('lp', 2), c.func('pick', 1, 'int', 0, nA - 1), c.func('en', 1)

        class Cat:
            _pydv_ghost = True

            def __init__(self, logits=None, **k):
                if logits is None or k:
                    unsup(c, 'another parametrisation')
                self.z = c.copy(logits)
                made.append(self)

            def sample(self, *a):
                return c.tabulate((rows,), lambda r: pick(r), 'int', lib='torch')

            def log_prob(self, v):
                self.v = c.copy(v)
                return c.tabulate((rows,), lambda r: lp(r, c.at(v, *(([r] if len(v.shape) == 1 else [r, 0]) if len(v.shape) else []))), lib='torch')

            def entropy(self):
                return c.tabulate((rows,), lambda r: en(r), lib='torch')
        c.trust('torch.distributions.Categorical evaluates and samples the categorical distribution of its logits')
        c.stub(c.mod(TP), 'CategoricalWrapper', Cat)
        s = c.array('s', (rows, D), lib='torch')
        a = c.array('a', (rows, 1), 'int', lib='torch', lo=0, hi=nA - 1)

        def logits(e, beta):
            c.ensure_shape('one-logit-per-action', e.z, (rows, nA))
            for r in range(rows):
                for i in range(nA):
                    c.ensure('logit', lambda: c.eq(c.at(e.z, r, i), beta * fn(i, *[c.at(s, r, k) for k in range(D)])))

        def requests(beta):
            del made[:]
            p = pi.log_prob_t(s, a)
            u, st = pi.draw_action(s)
            h_ = pi.entropy(s)
            c.ensure('no-policy-state', st is None)
            c.ensure('one-request-each', len(made) == 3)
            for e in made:
                logits(e, beta)
            c.ensure_shape('log-probability-shape', p, (rows, 1))
            c.ensure_shape('action-shape', u, (rows,))
            for r in range(rows):
                c.ensure('log-probability', lambda: c.eq(c.at(p, r, 0), lp(r, c.at(a, r, 0))))
                c.ensure('action-drawn', lambda: c.eq(c.at(u, r), pick(r)))
            c.ensure('mean-entropy', lambda: c.eq(c.at(h_) * rows, sum(en(r) for r in range(rows))))
        requests(b0)
        b1 = c.real('beta2', .1, 3)
        pi.set_beta(par.Parameter(b1))
        requests(b1)
        z = c.array('z', (3,), lib='torch')
        pi.set_weights(c.copy(z))
        b = pi.get_weights()
        ps = list(pi.parameters())
        c.ensure('trainable', len(ps) == 1)
        for i in range(3):
            c.ensure('read-back-as-set', lambda: c.and_(c.eq(c.at(b, i), c.at(z, i)), c.eq(c.at(ps[0].data, i), c.at(z, i))))


mk_boltzmann(1)
mk_boltzmann(2)


@harness(P, 'categorical_log_probability', bounded_only=True)
def cat(c):
    """the categorical distribution of the library, on concrete logits: column of actions in, one log-probability per row out"""
    if c.symbolic:
        unsup(c, 'torch.distributions.Categorical')
    import torch
    rows, nA = c.size('rows', 1, 4), c.size('nA', 2, 4)
    z = c.array('z', (rows, nA), lib='torch')
    d = c.mod('mushroom_rl.utils.torch').CategoricalWrapper(z)
    a = c.array('a', (rows, 1), 'int', lib='torch', lo=0, hi=nA - 1)
    p = d.log_prob(a)
    c.ensure_shape('shape', p, (rows,))
    w = torch.log_softmax(z, 1)
    for r in range(rows):
        c.ensure('log-softmax', lambda: c.eq(c.at(p, r), float(w[r, int(a[r, 0])])))


def mk_rec(n):
    @harness(P, f'torch_recurrent_{n}')
    def h(c):
        H = 2
        Net, fn, hid, reg = net(c, n, True)
        lo, hi = c.real('lo', -3, 0), c.real('hi', 0, 3)
        M = 'mushroom_rl.policy.recurrent_torch_policy'
        std = c.real('std', .2, 4)
        pi = c.mod(M).RecurrentGaussianTorchPolicy((H,), log_std_min=lo, log_std_max=hi, network=Net, input_shape=(D,), output_shape=(n,), std_0=std)
        g = TNormal(c, M)
        c.ensure('stateful', pi.is_stateful and pi.policy_state_shape == (H,))
        x = pi.reset()
        c.ensure_shape('initial-state', x, (H,))
        c.ensure_all('zero', (H,), lambda i: c.eq(c.at(x, i), 0.))
        s, ps = c.array('s', (D,), lib='torch'), c.array('ps', (H,), lib='torch')
        po = c.copy(ps)
        u, x = pi.draw_action(s, ps)
        c.ensure_shape('action', u, (n,))
        e = g.log[0]
        c.ensure('one-request', len(g.log) == 1)
        for i in range(H):
            nxt = c.at(x, i) if len(x.shape) == 1 else c.at(x, 0, i)
            c.ensure('next-policy-state', lambda: c.eq(nxt, hid(i, c.at(po, i))))
            c.ensure('policy-state-kept', lambda: c.eq(c.at(ps, i), c.at(po, i)))
        ls = c.log(std)
        sg = c.exp(c.ite(c.lt(ls, lo), lo, c.ite(c.lt(hi, ls), hi, ls)))
        for i in range(n):
            c.ensure('mean', lambda: c.eq(c.at(e.m, 0, i), fn(i, *[c.at(s, k) for k in range(D)])))
            c.ensure('action-drawn', lambda: c.eq(c.at(u, i), c.at(e.r, 0, i)))
            if not c.symbolic:
                for j in range(n):
                    c.ensure('covariance', lambda: c.eq(e.cov(i, j), sg * sg if i == j else 0.))
        rows, T = 2, 2
        S, A, PS = c.array('S', (rows, T, D), lib='torch'), c.array('A', (rows, n), lib='torch'), c.array('PS', (rows, H), lib='torch')
        ln = c.array('ln', (rows,), 'int', lib='torch', lo=1, hi=T)
        lp = pi.log_prob_t(S, A, PS, ln)
        c.ensure_shape('log-density-shape', lp, (rows, 1))
        e = g.log[1]
        st, ar = reg[-1]
        for r in range(rows):
            c.ensure('log-density', lambda: c.eq(c.at(lp, r, 0), g.lp(200 + r)))
            c.ensure('lengths', lambda: c.eq(c.at(ar[1], r), c.at(ln, r)))
            for i in range(n):
                c.ensure('of-the-action', lambda: c.eq(c.at(e.x, r, i), c.at(A, r, i)))
            for i in range(H):
                c.ensure('policy-states', lambda: c.eq(c.at(ar[0], r, i), c.at(PS, r, i)))
        c.ensure('bounds-saved', '_log_std_min' in pi._save_attributes and '_log_std_max' in pi._save_attributes)


mk_rec(1)
mk_rec(2)


# ------------------------------------------------------------------ vector policy
class Pi:
    """a policy whose action and next state are arbitrary functions of its weight, the state and the policy state; resets are logged"""
    _pydv_ghost = True

    def __init__(self, W, ident=0):
        self.W, self.ident, self.resets, self.w = W, ident, 0, None
        self.policy_state_shape = (1,) if W.stateful else None
        self.weights_size = 2

    def __deepcopy__(self, memo=None):
        self.W.made += 1
        p = Pi(self.W, self.W.made)
        p.w = None if self.w is None else self.W.c.copy(self.w)
        return p

    def draw_action(self, s, policy_state=None):
        W, c = self.W, self.W.c
        x = c.at(policy_state, 0) if policy_state is not None else 0.
        u = c.tabulate((1,), lambda i: W.act(self.ident, c.at(s, 0), x))
        return u, (c.tabulate((1,), lambda i: W.nxt(self.ident, c.at(s, 0), x)) if W.stateful else None)

    def reset(self):
        c = self.W.c
        self.resets += 1
        return c.tabulate((1,), lambda i: self.W.init(self.ident)) if self.W.stateful else None

    def set_weights(self, w): self.w = self.W.c.copy(w)
    def get_weights(self): return self.W.c.copy(self.w)


class VW:
    def __init__(self, c, stateful):
        self.c, self.stateful, self.made = c, stateful, 0
        self.act, self.nxt, self.init = c.func('act', 3), c.func('nxt', 3), c.func('init', 1)
        self.base = Pi(self)


def mk_vec(stateful):
    @harness(P, 'vector_policy' + ('_stateful' if stateful else ''))
    def h(c):
        W = VW(c, stateful)
        n = 3
        v = c.mod(PO).VectorPolicy(W.base, n)
        c.ensure('as-many-policies', len(v) == n and v.policy_state_shape == W.base.policy_state_shape)
        ids = [p.ident for p in v._policy_vector]
        c.ensure('all-different', len(set(ids)) == n and 0 not in ids)
        s = c.array('s', (n, 1))
        x = c.array('x', (n, 1)) if stateful else None
        x0 = c.copy(x) if stateful else None
        u, x2 = v.draw_action(s, x)
        c.ensure_shape('actions', u, (n, 1))
        for i in range(n):
            xi = c.at(x0, i, 0) if stateful else 0.
            c.ensure('action-of-its-policy', lambda: c.eq(c.at(u, i, 0), W.act(ids[i], c.at(s, i, 0), xi)))
            if stateful:
                c.ensure('next-state-of-its-policy', lambda: c.eq(c.at(x2, i, 0), W.nxt(ids[i], c.at(s, i, 0), xi)))
        if stateful:
            c.ensure_shape('policy-states', x2, (n, 1))
        else:
            c.ensure('no-policy-state', x2 is None)
        w = c.array('w', (n, 2))
        v.set_weights(w)
        b = v.get_weights()
        c.ensure_shape('weights', b, (n, 2))
        c.ensure('size', tuple(v.weights_size) == (n, 2))
        for i in range(n):
            for j in range(2):
                c.ensure('row-of-its-policy', lambda: c.and_(c.eq(c.at(b, i, j), c.at(w, i, j)), c.eq(c.at(v._policy_vector[i].w, j), c.at(w, i, j))))
        c.ensure('flat-policy', v.get_flat_policy() is v._policy_vector[0])


def mk_vreset(stateful, masked):
    @harness(P, 'vector_policy_reset' + ('_stateful' if stateful else '') + ('_masked' if masked else ''))
    def h(c):
        W = VW(c, stateful)
        n = 3
        v = c.mod(PO).VectorPolicy(W.base, n)
        bits = [c.choice('m%d' % i, [False, True]) for i in range(n)]
        mask = c.np.array(bits) if masked else None
        x = v.reset(mask) if masked else v.reset()
        for i, p in enumerate(v._policy_vector):
            hit = bits[i] or not masked
            c.ensure('reset-exactly-the-starting-ones', p.resets == (1 if hit else 0))
            if stateful and hit:
                c.ensure('initial-state-of-its-policy', lambda: c.eq(c.at(x, i, 0), W.init(p.ident)))
        if stateful:
            c.ensure_shape('policy-states', x, (n, 1))
        else:
            c.ensure('no-policy-state', x is None)


for st in (False, True):
    mk_vec(st)
    for m in (False, True):
        mk_vreset(st, m)


def mk_setn(a, b):
    @harness(P, f'vector_policy_{a}_to_{b}')
    def h(c):
        W = VW(c, False)
        v = c.mod(PO).VectorPolicy(W.base, a)
        v.set_weights(c.array('w', (a, 2)))
        old = list(v._policy_vector)
        v.set_n(b)
        c.ensure('as-many-policies', len(v) == b)
        c.ensure('old-ones-kept', all(v._policy_vector[i] is old[i] for i in range(min(a, b))))
        c.ensure('all-different', len({id(p) for p in v._policy_vector}) == b)


for a, b in ((2, 4), (3, 3), (3, 1)):
    mk_setn(a, b)


# ------------------------------------------------------------------ movement primitives
class Phi:
    """time features: an arbitrary function of the phase"""
    _pydv_ghost = True

    def __init__(self, c):
        self.c, self.f = c, c.func('phi', 2)

    def __call__(self, z):
        c = self.c
        z = c.at(z, 0) if len(z.shape) == 1 else c.at(z)
        return c.tabulate((D,), lambda i: self.f(i, z))


def mk_promp(sigma, periodic):
    @harness(P, 'promp' + ('_noisy' if sigma else '') + ('_periodic' if periodic else ''))
    def h(c):
        n = 2
        r, w = linear(c, n, 'w')
        phi = Phi(c)
        dur = c.size('duration', 1)
        S = spd(c, n) if sigma else None
        pi = c.mod(PO).ProMP(r, phi, dur, S, periodic)
        c.ensure('stateful', pi.is_stateful and pi.policy_state_shape == (1,))
        x = pi.reset()
        c.ensure_shape('initial-time', x, (1,))
        c.ensure('zero', lambda: c.eq(c.at(x, 0), 0.))
        g = Draws(c, 'mushroom_rl.policy.promps')
        s = c.array('s', (2,))
        k = c.int('time', 0) if periodic else c.int('time', 0, dur)
        t = c.tabulate((1,), lambda i: c.toreal(k))
        u, t2 = pi.draw_action(s, t)
        feat = [phi.f(j, c.toreal(k) / c.toreal(dur)) for j in range(D)]
        mean = lambda i: sum(c.at(w, i * D + j) * feat[j] for j in range(D))
        nxt = k + 1 if periodic else c.ite(c.lt(k, dur), k + 1, dur)
        c.ensure_shape('time-shape', t2, (1,))
        c.ensure('next-time', lambda: c.eq(c.at(t2, 0), c.toreal(nxt)))
        c.ensure('time-kept', lambda: c.eq(c.at(t, 0), c.toreal(k)))
        c.ensure_shape('action', u, (n,))
        if sigma:
            c.ensure('one-draw', [e[0] for e in g.log] == ['draw'])
        for i in range(n):
            if sigma:
                c.ensure('mean', lambda: c.eq(c.at(g.log[0][2], i), mean(i)))
                c.ensure('action-drawn', lambda: c.eq(c.at(u, i), c.at(g.log[0][4], i)))
                for j in range(n):
                    c.ensure('covariance', lambda: c.eq(c.at(g.log[0][3], i, j), c.at(S, i, j)))
            else:
                c.ensure('action', lambda: c.eq(c.at(u, i), mean(i)))
        p = pi(s, u, t)
        if sigma:
            c.ensure('density', lambda: c.eq(c.at(p), g.log[1][4]))
            for i in range(n):
                c.ensure('density-mean', lambda: c.eq(c.at(g.log[1][2], i), mean(i)))
        else:
            c.ensure('probability-one', lambda: c.eq(c.at(p), 1.))
            v = c.copy(u)
            v[c.int('i', 0, n - 1)] += 1.
            q = pi(s, v, t)
            c.ensure('probability-zero', lambda: c.eq(c.at(q), 0.))
        z = c.array('z', (n * D,))
        pi.set_weights(c.copy(z))
        b = pi.get_weights()
        c.ensure('size', pi.weights_size == n * D)
        for i in range(n * D):
            c.ensure('read-back-as-set', lambda: c.eq(c.at(b, i), c.at(z, i)))


for a in (False, True):
    for b in (False, True):
        mk_promp(a, b)


@harness(P, 'dmp')
def dmp(c):
    n = 1
    r, w = linear(c, n, 'w')
    phi = Phi(c)
    goal = c.array('goal', (n,), lo=.5, hi=2)
    dt, tau = c.real('dt', .01, .5), c.real('tau', .5, 2)
    av, bv, az, bz = [c.array(k, (n,), lo=.1, hi=3) for k in ('av', 'bv', 'az', 'bz')]
    pi = c.mod(PO).DMP(r, phi, goal, dt, tau, av, bv, az, bz)
    s = c.array('s', (2,))
    pi.reset()
    y = z = 0.
    got = []
    X, V = 0., 0.
    for t in range(2):
        u, st = pi.draw_action(s)
        c.ensure('no-policy-state', st is None)
        c.ensure_shape('action', u, (n,))
        f = sum(c.at(w, j) * phi.f(j, X / c.at(goal, 0)) for j in range(D)) * V
        yd = (z + f) / tau
        zd = c.at(az, 0) * (c.at(bz, 0) * (c.at(goal, 0) - y) - z) / tau
        y, z = y + yd * dt, z + zd * dt
        X, V = c.at(pi._x, 0), c.at(pi._v, 0)
        c.ensure('position', lambda: c.eq(c.at(u, 0), y))
        got.append((u, y))
    for u, y in got:
        c.ensure('actions-handed-out-stay', lambda: c.eq(c.at(u, 0), y))
    p = pi(s, got[-1][0])
    c.ensure('probability-of-the-position', lambda: c.eq(c.at(p), 1.))
    pi.reset()
    g2 = c.array('goal2', (n,), lo=.5, hi=2)
    pi.set_goal(g2)
    u, _ = pi.draw_action(s)
    u, _ = pi.draw_action(s)
    c.ensure('restarts-towards-the-new-goal', lambda: c.eq(
        c.at(u, 0), (c.at(az, 0) * c.at(bz, 0) * c.at(g2, 0) / tau * dt
                     + sum(c.at(w, j) * phi.f(j, 0. / c.at(g2, 0)) for j in range(D)) * (c.at(av, 0) * c.at(bv, 0) * c.at(g2, 0) / tau * dt)) / tau * dt))
