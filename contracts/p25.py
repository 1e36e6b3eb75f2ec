"""P25 - parameter distributions: density, sampling, derivatives, parameters, maximum likelihood."""
from pydv.ctx import harness
from .common import unsup

PRELOAD = ['mushroom_rl.distributions', 'mushroom_rl.distributions.gaussian', 'mushroom_rl.distributions.torch_distribution']
P = 'P25'
G = 'mushroom_rl.distributions.gaussian'
T = 'mushroom_rl.distributions.torch_distribution'


class Linalg:
    """np.linalg as contracts: an inverse is a two-sided inverse, a Cholesky factor is lower triangular with L L' = S and a positive diagonal"""

    def __init__(self, c):
        self.c, self.n, self.made = c, 0, []
        if not c.symbolic:
            return
        c.trust('np.linalg.inv(m) is a two-sided inverse of m (triangular when m is)')
        c.trust("np.linalg.cholesky(S) is lower triangular with positive diagonal and L L' = S")
        c.trust('np.linalg.slogdet(S)[1] is the logarithm of the determinant')
        c.stub(c.np.linalg, 'inv', self.inv)
        c.stub(c.np.linalg, 'cholesky', self.chol)
        c.stub(c.np.linalg, 'slogdet', self.slogdet)

    def new(self, n, what):
        self.n += 1
        return self.c.array('%s%d' % (what, self.n), (n, n))

    def inv(self, m):
        c, m = self.c, self.c.copy(m)
        n = m.shape[0]
        r = self.new(n, 'inv')
        self.made.append((m, r))
        for i in range(n):
            for j in range(n):
                d = 1. if i == j else 0.
                c.assume(c.eq(sum(c.at(m, i, k) * c.at(r, k, j) for k in range(n)), d))
                c.assume(c.eq(sum(c.at(r, i, k) * c.at(m, k, j) for k in range(n)), d))
        for i in range(n):
            for j in range(i + 1, n):
                z = c.at(m, i, j)
                if not hasattr(z, 't') and z == 0:
                    c.assume(c.eq(c.at(r, i, j), 0.))
        return c.copy(r)

    def chol(self, s):
        c, s = self.c, self.c.copy(s)
        if len(s.shape) != 2:
            raise c.np.linalg.LinAlgError('not a matrix')
        n = s.shape[0]
        q = self.new(n, 'chol')
        r = c.tabulate((n, n), lambda i, j: 0. if isinstance(i, int) and isinstance(j, int) and j > i else c.ite(c.lt(i, j), 0., c.at(q, i, j)))
        for i in range(n):
            c.assume(c.lt(0., c.at(q, i, i)))
            for j in range(n):
                c.assume(c.eq(sum(c.at(r, i, k) * c.at(r, j, k) for k in range(n)), c.at(s, i, j)))
        return c.copy(r)

    def slogdet(self, s):
        c = self.c
        return 1., c.log(det(c, s))


def det(c, s):
    n = s.shape[0]
    if n == 1:
        return c.at(s, 0, 0)
    if n == 2:
        return c.at(s, 0, 0) * c.at(s, 1, 1) - c.at(s, 0, 1) * c.at(s, 1, 0)
    unsup(c, 'determinant of more than two dimensions')


class MVN:
    """scipy.stats.multivariate_normal and np.random.multivariate_normal: arbitrary results, requests logged"""
    _pydv_ghost = True

    def __init__(self, c):
        self.c, self.log = c, []
        c.stub(c.mod(G), 'multivariate_normal', self)
        c.stub(c.np.random, 'multivariate_normal', self.draw)
        c.trust('scipy and numpy evaluate and sample the Gaussian they are asked for')

    def _a(self, what, x, mean, cov):
        r = self.c.real('%s%d' % (what, len(self.log)), .1, 10)
        self.log.append((what, x, self.c.copy(mean), self.c.copy(cov), r))
        return r

    def pdf(self, x, mean, cov): return self._a('pdf', x, mean, cov)
    def logpdf(self, x, mean, cov): return self._a('logpdf', x, mean, cov)

    def draw(self, mean, cov, size=None):
        r = self.c.array('draw%d' % len(self.log), tuple(mean.shape))
        self.log.append(('draw', None, self.c.copy(mean), self.c.copy(cov), self.c.copy(r)))
        return r


def spd(c, n, name='S'):
    """a symmetric positive definite matrix (2x2: positive diagonal and determinant)"""
    if not c.symbolic:
        k = c.array(name, (n, n), lo=-2, hi=2)
        return k @ k.T + .5 * c.np.eye(n)
    if n == 1:
        return c.array(name, (1, 1), lo=.1)
    d = [c.real('%s%d' % (name, i), .1) for i in range(2)]
    o = c.real(name + 'o')
    c.assume(c.lt(.01, d[0] * d[1] - o * o))
    return c.tabulate((2, 2), lambda i, j: c.ite(c.eq(i, j), c.ite(c.eq(i, 0), d[0], d[1]), o))


class Kind:
    """one of the three numpy Gaussians: how it is built, its covariance from its parameters, its parameter layout"""

    def __init__(self, c, kind, n):
        self.c, self.kind, self.n = c, kind, n
        self.la = Linalg(c)
        m = c.mod(G)
        self.mu = c.array('mu', (n,))
        self.mu0 = c.copy(self.mu)
        if kind == 'fixed':
            self.S = spd(c, n)
            self.d = m.GaussianDistribution(self.mu, self.S)
            self.size = n
        elif kind == 'diagonal':
            self.std = c.array('std', (n,), lo=.1, hi=5)
            self.d = m.GaussianDiagonalDistribution(self.mu, self.std)
            self.size = 2 * n
            self.std0 = c.copy(self.std)
            self.S = c.tabulate((n, n), lambda i, j: c.ite(c.eq(i, j), c.at(self.std0, i) * c.at(self.std0, i), 0.))
        else:
            self.S = spd(c, n)
            self.d = m.GaussianCholeskyDistribution(self.mu, self.S)
            self.size = n + n * (n + 1) // 2

    def cov(self, i, j):
        return self.c.at(self.S, i, j)


KINDS = [(k, n) for k in ('fixed', 'diagonal', 'cholesky') for n in (1, 2)]


def mk_density(kind, n):
    @harness(P, f'density_{kind}_{n}')
    def h(c):
        K = Kind(c, kind, n)
        v = MVN(c)
        th = c.array('th', (n,))
        t0 = c.copy(th)
        got = [K.d.sample(), K.d.log_pdf(th), K.d(th)]
        c.ensure('one-request-each', [e[0] for e in v.log] == ['draw', 'logpdf', 'pdf'])
        for e, g in zip(v.log, got):
            c.ensure_shape('mean-shape', e[2], (n,))
            c.ensure_shape('covariance-shape', e[3], (n, n))
            for i in range(n):
                c.ensure('mean', lambda: c.eq(c.at(e[2], i), c.at(K.mu0, i)))
                for j in range(n):
                    c.ensure('covariance', lambda: c.eq(c.at(e[3], i, j), K.cov(i, j)))
            if e[0] == 'draw':
                for i in range(n):
                    c.ensure('draw', lambda: c.eq(c.at(g, i), c.at(e[4], i)))
            else:
                c.ensure('value', lambda: c.eq(g, e[4]))
                for i in range(n):
                    c.ensure('point', lambda: c.eq(c.at(e[1], i), c.at(t0, i)))
        m = K.d.mean()
        for i in range(n):
            c.ensure('mean-method', lambda: c.eq(c.at(m, i), c.at(K.mu0, i)))
        if not c.symbolic:
            want = .5 * (n * c.np.log(2 * c.np.pi) + n + c.np.linalg.slogdet(K.S)[1])
            c.ensure('entropy', lambda: c.eq(K.d.entropy(), want))
        else:
            L2 = c.log(det(c, K.S))
            if kind == 'cholesky':
                ch = [c.at(K.d._chol_sigma, i, j) for i in range(n) for j in range(n)]
                M = c.tabulate((n, n), lambda i, j: sum(c.at(K.d._chol_sigma, i, k) * c.at(K.d._chol_sigma, j, k) for k in range(n)))
                c.lemma('factor', lambda: c.and_(*[c.eq(c.at(M, i, j), K.cov(i, j)) for i in range(n) for j in range(n)]))
                c.lemma('determinant', lambda: c.eq(det(c, M), det(c, K.S)))
            import math
            c.ensure('entropy', lambda: c.eq(K.d.entropy(), .5 * (L2 + n * c.log(2 * math.pi) + n)))


for k, n in KINDS:
    mk_density(k, n)


def mk_diff(kind, n):
    @harness(P, f'log_derivative_{kind}_{n}')
    def h(c):
        K = Kind(c, kind, n)
        th = c.array('th', (n,))
        t0 = c.copy(th)
        dl = [c.at(t0, i) - c.at(K.mu0, i) for i in range(n)]
        g = K.d.diff_log(th)
        c.ensure_shape('one-entry-per-parameter', g, (K.size,))
        if kind == 'diagonal':
            for i in range(n):
                s = c.at(K.std0, i)
                c.ensure('mean', lambda: c.eq(c.at(g, i) * s * s, dl[i]))
                c.ensure('deviation', lambda: c.eq(c.at(g, n + i) * s * s * s, dl[i] * dl[i] - s * s))
        elif kind == 'fixed':
            for i in range(n):
                r = sum(K.cov(i, k) * c.at(g, k) for k in range(n))
                if c.symbolic and n > 1:
                    # S g = S (S^-1 d)
                    I = K.d._inv_sigma
                    for k in range(n):
                        q = sum(K.cov(i, l) * c.at(I, l, k) for l in range(n))
                        c.lemma('inverse', lambda: c.eq(q * dl[k], dl[k] if i == k else 0.))
                    c.lemma('regrouped', lambda: c.eq(r, sum(sum(K.cov(i, l) * c.at(I, l, k) for l in range(n)) * dl[k] for k in range(n))))
                c.ensure('mean', lambda: c.eq(r, dl[i]))
        else:
            ch = K.d._chol_sigma
            L = [[c.at(ch, i, j) for j in range(n)] for i in range(n)]
            # z = L^-1 d, w = L'^-1 z by substitution
            z = []
            for i in range(n):
                z.append((dl[i] - sum(L[i][k] * z[k] for k in range(i))) / L[i][i])
            w = [None] * n
            for i in reversed(range(n)):
                w[i] = (z[i] - sum(L[k][i] * w[k] for k in range(i + 1, n))) / L[i][i]
            if c.symbolic:
                J = K.la
            for i in range(n):
                c.ensure('mean', lambda: c.eq(c.at(g, i), w[i]))
            p = n
            for i in range(n):
                for j in range(i + 1):
                    want = w[i] * z[j] - (1 / L[i][i] if i == j else 0.)
                    c.ensure('factor', lambda: c.eq(c.at(g, p), want))
                    p += 1
        for i in range(n):
            c.ensure('point-untouched', lambda: c.eq(c.at(th, i), c.at(t0, i)))
        v = MVN(c)
        gd = K.d.diff(th)
        c.ensure_shape('density-derivative-shape', gd, (K.size,))
        for i in range(K.size):
            c.ensure('density-derivative', lambda: c.eq(c.at(gd, i), v.log[0][4] * c.at(K.d.diff_log(th), i)) if i == 0 else True)


for k, n in KINDS:
    mk_diff(k, n)


def mk_par(kind, n):
    @harness(P, f'parameters_{kind}_{n}')
    def h(c):
        K = Kind(c, kind, n)
        d = K.d
        c.ensure('size', d.parameters_size == K.size)
        r = d.get_parameters()
        c.ensure_shape('vector', r, (K.size,))
        for i in range(n):
            c.ensure('mean-first', lambda: c.eq(c.at(r, i), c.at(K.mu0, i)))
            if kind == 'diagonal':
                c.ensure('then-deviations', lambda: c.eq(c.at(r, n + i), c.at(K.std0, i)))
        if kind == 'cholesky':
            for i in range(n):
                for j in range(i + 1):
                    s = sum(c.at(r, n + i * (i + 1) // 2 + k) * c.at(r, n + j * (j + 1) // 2 + k) for k in range(j + 1))
                    c.ensure('then-the-lower-triangle-of-a-factor', lambda: c.eq(s, K.cov(i, j)))
        rho = c.array('rho', (K.size,), lo=.2, hi=4)
        q = c.copy(rho)
        d.set_parameters(rho)
        for i in range(K.size):
            c.ensure('vector-of-the-caller-untouched', lambda: c.eq(c.at(rho, i), c.at(q, i)))
        rho += 1
        out = d.get_parameters()
        out += 1
        r = d.get_parameters()
        for i in range(K.size):
            c.ensure('shares-no-memory', lambda: c.eq(c.at(rho, i), c.at(q, i) + 1))
            c.ensure('reads-back-as-set', lambda: c.eq(c.at(r, i), c.at(q, i)))
        v = MVN(c)
        d.sample()
        e = v.log[0]
        for i in range(n):
            c.ensure('new-mean', lambda: c.eq(c.at(e[2], i), c.at(q, i)))
            for j in range(n):
                if kind == 'fixed':
                    want = K.cov(i, j)
                elif kind == 'diagonal':
                    want = c.at(q, n + i) * c.at(q, n + i) if i == j else 0.
                else:
                    a, b = max(i, j), min(i, j)
                    want = sum(c.at(q, n + a * (a + 1) // 2 + k) * c.at(q, n + b * (b + 1) // 2 + k) for k in range(b + 1))
                c.ensure('new-covariance', lambda: c.eq(c.at(e[3], i, j), want))


for k, n in KINDS:
    mk_par(k, n)


def now(c, K):
    """the mean and covariance the distribution samples from"""
    v = MVN(c)
    K.d.sample()
    return v.log[0][2], v.log[0][3]


def mk_mle(kind, n, weighted):
    @harness(P, f'likelihood_{kind}_{n}' + ('_weighted' if weighted else ''))
    def h(c):
        K = Kind(c, kind, n)
        m = 3
        th = c.array('th', (m, n))
        t0 = c.copy(th)
        if weighted:
            w = c.array('w', (m,), lo=.05, hi=1)
            w0 = c.copy(w)
        W = [c.at(w0, i) if weighted else 1. for i in range(m)]
        if not c.symbolic:
            c.assume(min(c.np.linalg.eigvalsh(c.np.atleast_2d(c.np.cov(t0.T)))) > .05)
        K.d.mle(th, w) if weighted else K.d.mle(th)
        tot = sum(W)
        mu = [sum(W[s] * c.at(t0, s, i) for s in range(m)) / tot for i in range(n)]
        M, S = now(c, K)
        Z = tot - sum(x * x for x in W) / tot
        if kind == 'diagonal' and not weighted:
            Z = tot
        if c.symbolic and weighted:
            pr = W[0] * W[1] + W[0] * W[2] + W[1] * W[2]
            c.lemma('normaliser', lambda: c.eq(Z * tot, 2 * pr))
            c.lemma('positive', lambda: c.lt(0., Z))
        for i in range(n):
            c.ensure('mean', lambda: c.eq(c.at(M, i), mu[i]))
        for i in range(n):
            for j in range(n):
                if kind == 'fixed':
                    want = K.cov(i, j)
                elif kind == 'diagonal' and i != j:
                    want = 0.
                else:
                    want = sum(W[s] * (c.at(t0, s, i) - mu[i]) * (c.at(t0, s, j) - mu[j]) for s in range(m)) / Z
                if c.symbolic and kind == 'diagonal' and i == j:
                    sq = [(c.at(t0, s, i) - mu[i]) * (c.at(t0, s, i) - mu[i]) for s in range(m)]
                    for s in range(m):
                        c.lemma('square', lambda: c.le(0., sq[s]))
                        c.lemma('weighted-square', lambda: c.le(0., W[s] * sq[s]))
                    c.lemma('variance-is-not-negative', lambda: c.le(0., want))
                c.ensure('covariance', lambda: c.eq(c.at(S, i, j), want))
        for s in range(m):
            for i in range(n):
                c.ensure('samples-untouched', lambda: c.eq(c.at(th, s, i), c.at(t0, s, i)))
            if weighted:
                c.ensure('weights-untouched', lambda: c.eq(c.at(w, s), c.at(w0, s)))


for k, n in KINDS:
    mk_mle(k, n, False)
    mk_mle(k, n, True)


def mk_con(kind, n):
    @harness(P, f'constrained_likelihood_{kind}_{n}')
    def h(c):
        K = Kind(c, kind, n)
        m = 2
        th, w = c.array('th', (m, n)), c.array('w', (m,), lo=.05, hi=1)
        t0, w0 = c.copy(th), c.copy(w)
        eta, omg = c.real('eta', .5, 50), c.real('omg', .01, .4)
        eps, kap = c.real('eps', .01, 1), c.real('kappa', .01, 1)
        seen = []

        class Res:
            _pydv_ghost = True
            x = c.np.array([eta, omg][:1 if kind == 'fixed' else 2])

        def minimize(fun, x0, args=(), **k):
            seen.append((fun, args, k))
            return Res()
        c.stub(c.mod(G), 'minimize', minimize)
        c.trust('scipy.optimize.minimize returns some point within the bounds')
        K.d.con_wmle(th, w, eps, kap)
        c.ensure('one-dual-problem', len(seen) == 1)
        M, S = now(c, K)
        W = [c.at(w0, s) for s in range(m)]
        tot = sum(W)
        mu = [(sum(W[s] * c.at(t0, s, i) for s in range(m)) + eta * c.at(K.mu0, i)) / (tot + eta) for i in range(n)]
        D = [mu[i] - c.at(K.mu0, i) for i in range(n)]
        N = {}
        for i in range(n):
            c.ensure('mean', lambda: c.eq(c.at(M, i), mu[i]))
        for i in range(n):
            for j in range(n):
                if kind == 'fixed':
                    want = K.cov(i, j)
                elif kind == 'diagonal' and i != j:
                    want = 0.
                else:
                    want = (sum(W[s] * (c.at(t0, s, i) - mu[i]) * (c.at(t0, s, j) - mu[j]) for s in range(m))
                            + eta * K.cov(i, j) + eta * D[i] * D[j]) / (tot + eta - omg)
                N[i, j] = want
                if c.symbolic and kind == 'diagonal' and i == j:
                    for s in range(m):
                        q = (c.at(t0, s, i) - mu[i])
                        c.lemma('square', lambda: c.le(0., W[s] * (q * q)))
                    c.lemma('old', lambda: c.le(0., eta * K.cov(i, i)))
                    c.lemma('shift', lambda: c.le(0., eta * (D[i] * D[i])))
                    c.lemma('variance-is-not-negative', lambda: c.le(0., want))
                c.ensure('covariance', lambda: c.eq(c.at(S, i, j), want))
        fun, args, kw = seen[0]
        b = kw.get('bounds')
        c.ensure('multipliers-are-positive', b is not None and all(0 < float(x[0]) < 1e-3 for x in b))
        if n == 1 and not (c.symbolic and kind == 'cholesky'):
            # the Lagrangian: weighted log-likelihood, divergence from the old distribution, entropy decrease
            import math
            val = fun(Res.x, *args)
            for a, b in K.la.made:
                c.lemma('reciprocal', lambda: c.eq(c.at(b, 0, 0), 1 / c.at(a, 0, 0)))
            So, Sn = K.cov(0, 0), N[0, 0]
            ll = 0.
            for s in range(m):
                q = c.at(t0, s, 0) - mu[0]
                ll = ll + W[s] * (-.5 * q * q / Sn - .5 * c.log(Sn) - .5 * c.log(2 * math.pi))
            kl = .5 * (So / Sn - 1 + c.log(Sn) - c.log(So) + D[0] * D[0] / Sn)
            want = ll + eta * (eps - kl)
            if kind != 'fixed':
                want = want + omg * (.5 * c.log(Sn) - .5 * c.log(So) + kap)
            c.ensure('lagrangian', lambda: c.eq(val if not hasattr(val, 'shape') or not len(val.shape) else c.at(val, *([0] * len(val.shape))), want))


for k, n in KINDS:
    mk_con(k, n)


# ------------------------------------------------------------------ torch
class Normal:
    """torch.distributions.MultivariateNormal: arbitrary results, requests logged"""
    _pydv_ghost = True
    log = None

    def __init__(self, c):
        self.c, self.log = c, []
        self.f = c.func('normal', 2)
        G_ = self

        class MultivariateNormal:
            _pydv_ghost = True

            def __init__(self, loc, covariance_matrix=None, scale_tril=None, validate_args=None, **k):
                if scale_tril is None or covariance_matrix is not None or k:
                    unsup(c, 'another parametrisation')
                self.m, self.l = c.copy(loc), c.copy(scale_tril)
                G_.log.append(self)

            def sample(self, *a):
                self.r = c.array('draw%d' % len(G_.log), tuple(self.m.shape), lib='torch')
                return c.copy(self.r)

            def log_prob(self, x):
                self.x, self.v = c.copy(x), c.real('lp%d' % len(G_.log), -3, 3)
                return c.tabulate((), lambda: self.v, lib='torch')

            def entropy(self):
                self.v = c.real('en%d' % len(G_.log), -3, 3)
                return c.tabulate((), lambda: self.v, lib='torch')
        tm = c.mod(T).torch
        c.stub(tm.distributions, 'MultivariateNormal', MultivariateNormal)
        c.trust('torch.distributions.MultivariateNormal evaluates and samples the Gaussian it is asked for')


def num(c, x):
    if not c.symbolic:
        return float(x)
    return c.at(x, *([0] * len(x.shape))) if hasattr(x, 'shape') and len(x.shape) else c.at(x)


def mk_torch(kind, n):
    @harness(P, f'torch_{kind}_{n}')
    def h(c):
        mu = c.array('mu', (n,), lib='torch')
        m0 = c.copy(mu)
        m = c.mod(T)
        if kind == 'diagonal':
            sd = c.array('sd', (n,), lib='torch', lo=.2, hi=4)
            s0 = c.copy(sd)
            d = m.DiagonalGaussianTorchDistribution(mu, sd)
            size = 2 * n
            L = lambda i, j: c.exp(c.log(c.at(s0, i))) if i == j else 0.
        else:
            size = n + n * (n + 1) // 2
            if c.symbolic:
                la = Linalg(c)
                c.stub(m.torch.linalg, 'cholesky', lambda s: (la.chol(s))._as('torch'))
                S = spd(c, n)._as('torch')
            else:
                import torch
                S = torch.from_numpy(spd(c, n)).float()
            d = m.CholeskyGaussianTorchDistribution(mu, S)
            ch = c.copy(d._chol_sigma.data)
            L = lambda i, j: c.at(ch, i, j) if i >= j else 0.
            for i in range(n):
                for j in range(i + 1):
                    c.ensure('factor-of-the-covariance', lambda: c.eq(sum(L(i, k) * L(j, k) for k in range(j + 1)), c.at(S, i, j)))
        g = Normal(c)
        c.ensure('size', d.parameters_size == size)
        par = d.get_parameters()
        c.ensure_shape('vector', par, (size,))
        for i in range(n):
            c.ensure('mean-first', lambda: c.eq(c.at(par, i), c.at(m0, i)))
        th = c.array('th', (n,), lib='torch')

        def requests(mean, fac):
            k0 = len(g.log)
            got = [d.sample(), d.log_pdf(th), d(th), d.entropy()]
            e = g.log[k0:]
            c.ensure('one-request-each', len(e) == 4)
            for r in e:
                c.ensure_shape('mean-shape', r.m, (n,))
                c.ensure_shape('factor-shape', r.l, (n, n))
                for i in range(n):
                    c.ensure('mean', lambda: c.eq(c.at(r.m, i), mean(i)))
                    for j in range(n):
                        c.ensure('factor', lambda: c.eq(c.at(r.l, i, j), fac(i, j)))
            for i in range(n):
                c.ensure('draw', lambda: c.eq(c.at(got[0], i), c.at(e[0].r, i)))
                c.ensure('point', lambda: c.and_(c.eq(c.at(e[1].x, i), c.at(th, i)), c.eq(c.at(e[2].x, i), c.at(th, i))))
                c.ensure('mean-method', lambda: c.eq(c.at(d.mean(), i), mean(i)))
            c.ensure('log-density', lambda: c.eq(num(c, got[1]), e[1].v))
            c.ensure('density', lambda: c.eq(num(c, got[2]), c.exp(e[2].v)))
            c.ensure('entropy', lambda: c.eq(num(c, got[3]), e[3].v))
        requests(lambda i: c.at(m0, i), L)
        rho = c.array('rho', (size,), lib='torch', lo=.2, hi=3)
        q = c.copy(rho)
        d.set_parameters(rho)
        par = d.get_parameters()
        for i in range(size):
            c.ensure('reads-back-as-set', lambda: c.eq(c.at(par, i), c.at(q, i)))
        ps = list(d.parameters())
        c.ensure('trainable-parameters', len(ps) == 2)
        # a training step changes the parameters in place: the vectors handed out and taken in stay as they were
        for x in ps:
            x.data += 1
        for i in range(size):
            c.ensure('vector-of-the-caller-untouched', lambda: c.and_(c.eq(c.at(rho, i), c.at(q, i)), c.eq(c.at(par, i), c.at(q, i))))
        if kind == 'diagonal':
            requests(lambda i: c.at(q, i) + 1, lambda i, j: c.exp(c.at(q, n + i) + 1) if i == j else 0.)
        else:
            requests(lambda i: c.at(q, i) + 1, lambda i, j: c.at(q, n + i * (i + 1) // 2 + j) + 1 if i >= j else 0.)


for k in ('diagonal', 'cholesky'):
    for n in (1, 2):
        mk_torch(k, n)
