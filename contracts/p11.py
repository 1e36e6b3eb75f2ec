"""P11 - batch (fitted) value iteration: regression targets of FQI, double FQI, boosted FQI; LSPI system."""
from pydv.ctx import harness
from contracts.common import configuration

PRELOAD = ['mushroom_rl.algorithms.value.batch_td', 'mushroom_rl.approximators', 'mushroom_rl.features.features',
           'mushroom_rl.rl_utils', 'mushroom_rl.policy', 'mushroom_rl.core', 'mushroom_rl.approximators.parametric']
P = 'P11'


class Data:
    """ghost dataset (Dataset.parse and slicing are the subject of P03)"""
    _pydv_ghost = True

    def __init__(self, c, arrs):
        self.c, self.arrs = c, arrs

    def parse(self, to=None):
        return tuple(self.arrs)

    def __len__(self):
        return self.arrs[0].shape[0]

    def __getitem__(self, sl):
        return Data(self.c, [a[sl] for a in self.arrs])


class World:
    def __init__(self, c, n=None, d=2, nA=None):
        self.c = c
        self.n, self.d, self.nA = n or c.size('n', 1), d, nA or c.size('nA', 2)
        n = self.n
        self.arrs = [c.array('S', (n, d)), c.array('A', (n, 1), 'int', lo=0, hi=self.nA - 1), c.array('R', (n,)),
                     c.array('S2', (n, d)), c.array('AB', (n,), 'bool'), c.array('L', (n,), 'bool')]
        self.before = [c.copy(a) for a in self.arrs]
        self.gamma = c.real('gamma', 0, 1)
        self.fits, self.fns, self.made = [], {}, 0
        W = self

        class Approx:
            _pydv_ghost = True

            def __init__(self, **kw):
                W.made += 1
                self.tok = ('init', W.made)

            def predict(self, state, **kw):
                st = c.copy(state)
                q = W.fn(self.tok)
                return c.tabulate((st.shape[0], W.nA), lambda i, a: q(c.at(st, i, 0), c.at(st, i, 1), a))

            def fit(self, state, action, q, **kw):
                W.fits.append((self, c.copy(state), c.copy(action), c.copy(q), kw, self.tok))
                self.tok = ('fit%d' % len(W.fits), 0)

            def get_weights(self):
                return self.tok

            def set_weights(self, w):
                self.tok = w
        self.Approx = Approx

    def fn(self, tok):
        if tok not in self.fns:
            self.fns[tok] = self.c.func('Q_%s_%s' % tok, 3)
        return self.fns[tok]

    def q(self, tok, k, a):
        c = self.c
        return self.fn(tok)(c.at(self.before[3], k, 0), c.at(self.before[3], k, 1), a)

    def agent(self, cls, **kw):
        c = self.c
        core, sp = c.mod('mushroom_rl.core'), c.mod('mushroom_rl.rl_utils.spaces')
        info = core.MDPInfo(sp.Box(-1., 1., (self.d,)), sp.Discrete(self.nA), self.gamma, 100)
        pol = c.mod('mushroom_rl.policy').EpsGreedy(c.mod('mushroom_rl.rl_utils.parameters').Parameter(.1))
        ap = dict(input_shape=(self.d,), output_shape=(self.nA,), n_actions=self.nA)
        ap.update(kw.pop('ap', {}))
        unchanged = configuration(c, ap)
        ag = getattr(c.mod('mushroom_rl.algorithms.value.batch_td'), cls)(info, pol, approximator_params=ap, **kw)
        unchanged()
        return ag

    def data(self):
        return Data(self.c, self.arrs)

    def inputs(self, j, lo=0, n=None):
        """fit j is on the states and actions of the samples lo .. lo+n"""
        c = self.c
        n = self.n if n is None else n
        _, s, a, q, kw, tok = self.fits[j]
        c.ensure_shape('states-shape', s, (n, self.d))
        c.ensure_shape('target-shape', q, (n,))
        c.ensure_all('states', (n, self.d), lambda k, i: c.eq(c.at(s, k, i), c.at(self.before[0], k + lo, i)))
        c.ensure_all('actions', (n,), lambda k: c.eq(c.at(a, k, 0), c.at(self.before[1], k + lo, 0)))

    def untouched(self):
        c = self.c
        c.ensure_all('data-untouched', (self.n,), lambda k: c.and_(
            c.eq(c.at(self.arrs[2], k), c.at(self.before[2], k)), c.eq(c.at(self.arrs[4], k), c.at(self.before[4], k)),
            *[c.eq(c.at(self.arrs[b], k, i), c.at(self.before[b], k, i)) for b in (0, 3) for i in range(self.d)]))

    def r(self, k):
        return self.c.at(self.before[2], k)

    def boot(self, k, v):
        return self.c.ite(self.c.at(self.before[4], k), 0., v)


@harness(P, 'fqi_first_iterations')
def fqi(c):
    W = World(c)
    ag = W.agent('FQI', approximator=W.Approx, n_iterations=3, quiet=True)
    ag.fit(W.data())
    c.ensure('one-fit-per-iteration', len(W.fits) == 3)
    for j in range(3):
        W.inputs(j)
        q = W.fits[j][3]
        if j == 0:
            c.ensure_all('first-target-is-the-reward', (W.n,), lambda k: c.eq(c.at(q, k), W.r(k)))
        else:
            tok = W.fits[j][5]
            c.ensure('bootstraps-from-the-previous-fit', tok == ('fit%d' % j, 0))
            c.ensure_all('target', (W.n,), lambda k: c.eq(
                c.at(q, k), W.r(k) + W.gamma * W.boot(k, c.max(W.nA, lambda a: W.q(tok, k, a)))))
    W.untouched()


@harness(P, 'fqi_any_iteration')
def fqi_step(c):
    """an iteration from an arbitrary regressor, in a second call of fit"""
    W = World(c)
    ag = W.agent('FQI', approximator=W.Approx, n_iterations=1, quiet=True)
    ag.fit(W.data())
    ag.approximator.set_weights(('any', 0))
    W.fits.clear()
    ag.fit(W.data())
    c.ensure('one-fit', len(W.fits) == 1)
    W.inputs(0)
    q = W.fits[0][3]
    c.ensure_all('target', (W.n,), lambda k: c.eq(
        c.at(q, k), W.r(k) + W.gamma * W.boot(k, c.max(W.nA, lambda a: W.q(('any', 0), k, a)))))
    W.untouched()


@harness(P, 'double_fqi')
def dfqi(c):
    h = c.size('h', 1)
    odd = c.choice('odd', [0, 1])
    n = 2 * h + odd
    W = World(c, n=n)
    ag = W.agent('DoubleFQI', approximator=W.Approx, n_iterations=1, quiet=True)
    ag.fit(W.data())
    c.ensure('one-fit-per-model', len(W.fits) == 2)
    for i in range(2):
        c.ensure('own-model', W.fits[i][0] is ag.approximator[i])
        W.inputs(i, i * h, h)
        q = W.fits[i][3]
        c.ensure_all('first-target-is-the-reward', (h,), lambda k: c.eq(c.at(q, k), W.r(k + i * h)))
    for i in range(2):
        ag.approximator[i].set_weights(('any', i))
    W.fits.clear()
    ag.fit(W.data())
    c.ensure('one-fit-per-model', len(W.fits) == 2)
    for i in range(2):
        c.ensure('own-model', W.fits[i][0] is ag.approximator[i])
        W.inputs(i, i * h, h)
        q = W.fits[i][3]

        def ok(k):
            K = k + i * h
            mine = lambda a: W.q(('any', i), K, a)
            best = (lambda a: c.eq(mine(a), c.max(W.nA, mine))) if c.symbolic else \
                (lambda a: all(mine(a) >= mine(b) for b in range(W.nA)))
            return c.any(W.nA, lambda a: c.and_(best(a), c.eq(
                c.at(q, k), W.r(K) + W.gamma * W.boot(K, W.q(('any', 1 - i), K, a)))), hint=c.argmax(W.nA, mine))
        c.ensure_all('target', (h,), ok)
    W.untouched()


@harness(P, 'boosted_fqi')
def bfqi(c):
    W = World(c)
    ag = W.agent('BoostedFQI', approximator=W.Approx, n_iterations=3, quiet=True, ap=dict(n_models=3, prediction='sum'))
    ms = [ag.approximator[i] for i in range(3)]
    ag.fit(W.data())
    c.ensure('one-fit-per-iteration', len(W.fits) == 3)
    tot = lambda j, k: 0. if j == 0 else sum(c.at(W.fits[i][3], k) for i in range(j))
    for j in range(3):
        c.ensure('own-model', W.fits[j][0] is ms[j])
        W.inputs(j)
        q = W.fits[j][3]
        # the targets of the models add up to the Bellman backup of the sum of the previous models
        back = (lambda k: W.r(k)) if j == 0 else (lambda k, j=j: W.r(k) + W.gamma * W.boot(k, c.max(
            W.nA, lambda a: sum(W.q(('fit%d' % (i + 1), 0), k, a) for i in range(j)))))
        c.ensure_all('residual-target', (W.n,), lambda k: c.eq(tot(j, k) + c.at(q, k), back(k)))
    W.untouched()


def lspi(c, n, d, nA, absorbing):
    W = World(c, n=n, d=d, nA=nA)
    if not absorbing:
        c.assume_all((n,), lambda k: c.not_(c.at(W.arrs[4], k)))
    ag = W.agent('LSPI', epsilon=1e12)
    w0 = c.array('w', (nA * d,))
    ag.approximator.set_weights(c.copy(w0))
    seen = []
    if c.symbolic:
        wn = c.array('wn', (nA * d,))

        def solve(A, b):
            seen.append((A, b))
            return c.copy(wn).reshape(-1, 1)
        c.stub(c.np.linalg, 'solve', solve)
        c.stub(c.np.linalg, 'matrix_rank', lambda A: A.shape[1])
        c.stub(c.np.linalg, 'norm', lambda x: c.real('norm', 0, 1e11))
        c.trust('np.linalg.solve(A, b) returns the solution of A w = b (A regular)')
    ag.fit(W.data())
    S, A, R, S2, AB, _ = W.before
    if c.symbolic:
        c.ensure('solves-once', len(seen) == 1)
    phi = lambda X, k, a, j: c.ite(c.eq(a, j // d), c.at(X, k, j % d), 0.)
    Qold = lambda k, a: sum(c.at(w0, a * d + i) * c.at(S2, k, i) for i in range(d))
    # ties excluded: the greedy action must be unique for the system to be determined
    nxt = []
    for k in range(n):
        vals = [Qold(k, a) for a in range(nA)]
        for a in range(nA):
            for b in range(a):
                c.assume(c.or_(c.at(AB, k), c.lt(vals[a], vals[b] - 1e-3), c.lt(vals[b] + 1e-3, vals[a])))
        best = nA - 1
        for a in range(nA - 2, -1, -1):
            best = c.ite(c.and_(*[c.lt(vals[b], vals[a]) for b in range(nA) if b != a]), a, best)
        nxt.append(best)
    m = nA * d
    g = W.gamma

    def Aspec(i, j):
        return sum(phi(S, k, c.at(A, k, 0), i) * (
            phi(S, k, c.at(A, k, 0), j) - g * W.boot(k, phi(S2, k, nxt[k], j))) for k in range(n))

    def bspec(i):
        return sum(phi(S, k, c.at(A, k, 0), i) * c.at(R, k) for k in range(n))
    nm = 'no-bootstrap-at-absorbing-states' if absorbing else 'system-matrix'
    if c.symbolic:
        Am, bv = seen[0]
        for i in range(m):
            for j in range(m):
                c.ensure(nm, lambda: c.eq(c.at(Am, i, j), Aspec(i, j)))
            c.ensure('system-vector', lambda: c.eq(c.at(bv, i, 0), bspec(i)))
        c.ensure_all('weights-are-the-solution', (m,), lambda i: c.eq(c.at(ag.approximator.get_weights(), i), c.at(wn, i)))
    else:
        import numpy as np
        w = ag.approximator.get_weights()
        As = np.array([[Aspec(i, j) for j in range(m)] for i in range(m)])
        if np.linalg.matrix_rank(As) == m and np.linalg.cond(As) < 1e4:
            res = As.dot(w)
            c.ensure_all(nm, (m,), lambda i: c.eq(res[i], bspec(i)))


@harness(P, 'lspi_system')
def lspi_plain(c):
    lspi(c, 2, 1, 2, False)


@harness(P, 'lspi_system_two_features')
def lspi_two(c):
    lspi(c, 1 if c.symbolic else 5, 2, 2, False)


@harness(P, 'lspi_absorbing')
def lspi_abs(c):
    """known finding: LSPI bootstraps from absorbing states"""
    lspi(c, 2, 1, 2, True)
