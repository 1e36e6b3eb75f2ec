"""P23 - exact solvers: dynamic programming on finite MDPs, LQR value functions and gains, car on hill."""
from pydv.ctx import harness
from .common import unsup

PRELOAD = ['mushroom_rl.solvers.dynamic_programming', 'mushroom_rl.solvers.lqr', 'mushroom_rl.solvers.car_on_hill']
P = 'P23'
DP = 'mushroom_rl.solvers.dynamic_programming'
LQ = 'mushroom_rl.solvers.lqr'


class Mdp:
    def __init__(self, c, n, m):
        self.c, self.n, self.m = c, n, m
        self.p, self.r = c.array('p', (n, m, n), lo=0, hi=1), c.array('r', (n, m, n))
        if not c.symbolic:
            s = self.p.sum(-1, keepdims=True)
            self.p = self.p / (s + (s == 0))            # distributions, or no way out at all
        else:
            for s in range(n):
                for a in range(m):
                    c.assume(c.le(sum(c.at(self.p, s, a, t) for t in range(n)), 1.))
        self.gamma = c.real('gamma', 0, .9)
        self.p0, self.r0 = c.copy(self.p), c.copy(self.r)

    def q(self, v, s, a):
        c = self.c
        r = 0.
        for t in range(self.n):
            r = r + c.at(self.p0, s, a, t) * (c.at(self.r0, s, a, t) + self.gamma * v(t))
        return r

    def best(self, v, s):
        c = self.c
        r = self.q(v, s, 0)
        for a in range(1, self.m):
            x = self.q(v, s, a)
            r = c.ite(c.lt(r, x), x, r)
        return r

    def untouched(self):
        c = self.c
        c.ensure_all('model-untouched', (self.n, self.m, self.n), lambda s, a, t: c.and_(
            c.eq(c.at(self.p, s, a, t), c.at(self.p0, s, a, t)), c.eq(c.at(self.r, s, a, t), c.at(self.r0, s, a, t))))


def mk_vi(n, m):
    @harness(P, f'value_iteration_{n}x{m}')
    def vi(c):
        M = Mdp(c, n, m)
        eps = c.real('eps', 0, 1, open_lo=True)
        old = []

        def havoc(L, e):
            L.havoc_array(e.value)
            old.append(c.copy(e.value))
            return {}
        c.loop(DP + '.value_iteration#0', havoc, lambda e, k: [])
        if c.symbolic:
            def norm(x, *a, **k):
                if a or k or len(x.shape) != 1:
                    unsup(c, 'another norm')
                r, x = c.fresh('norm', lo=0), c.copy(x)
                for s in range(n):
                    c.assume(c.and_(c.le(c.at(x, s), r), c.le(-c.at(x, s), r)))
                return r
            c.stub(c.np.linalg, 'norm', norm)
            c.trust('np.linalg.norm(x) is at least the magnitude of every component of x')
        v = c.mod(DP).value_iteration(M.p, M.r, M.gamma, eps)
        c.ensure_shape('shape', v, (n,))
        V = lambda s: c.at(v, s)
        if c.symbolic:
            o = old[-1]
            O = lambda s: c.at(o, s)
            for s in range(n):
                c.lemma('backup-of-the-previous-values', lambda: c.eq(V(s), M.best(O, s)))
                c.lemma('close-to-the-previous-values', lambda: c.and_(c.le(V(s) - O(s), eps), c.le(O(s) - V(s), eps)))
            for s in range(n):
                for a in range(m):
                    for t in range(n):
                        w = c.at(M.p0, s, a, t)
                        c.lemma('weighted', lambda: c.and_(c.le(w * (V(t) - O(t)), w * eps), c.le(w * (O(t) - V(t)), w * eps)))
                    tot = sum(c.at(M.p0, s, a, t) for t in range(n))
                    c.lemma('total', lambda: c.le(tot * eps, eps))
                    d = sum(c.at(M.p0, s, a, t) * (V(t) - O(t)) for t in range(n))
                    c.lemma('mean', lambda: c.and_(c.le(d, eps), c.le(-d, eps)))
                    c.lemma('discounted', lambda: c.and_(c.le(M.gamma * d, M.gamma * eps), c.le(-M.gamma * d, M.gamma * eps)))
                    c.lemma('difference', lambda: c.eq(M.q(V, s, a) - M.q(O, s, a), M.gamma * d))
        tol = 0 if c.symbolic else 1e-9
        for s in range(n):
            res = M.best(V, s) - V(s)
            c.ensure('bellman-residual-below-the-accuracy', lambda: c.and_(c.le(res, M.gamma * eps + tol), c.le(-res, M.gamma * eps + tol)))
        M.untouched()
    return vi


mk_vi(1, 1)
mk_vi(1, 2)
mk_vi(2, 1)
mk_vi(2, 2)


def mk_pi(n, m):
    @harness(P, f'policy_iteration_{n}x{m}')
    def pi(c):
        M = Mdp(c, n, m)
        if c.symbolic:
            def solve(Am, b):
                Am, b = c.copy(Am), c.copy(b)
                x = c.array('sol%d' % len(sols), (n,))
                sols.append(x)
                for i in range(n):
                    s = 0.
                    for j in range(n):
                        s = s + c.at(Am, i, j) * c.at(x, j)
                    c.assume(c.eq(s, c.at(b, i)))
                return x.copy()
            sols = []
            c.stub(c.np.linalg, 'solve', solve)
            c.trust('np.linalg.solve(A, b) returns the solution of A w = b')

        def havoc(L, e):
            L.havoc_array(e.policy)
            for s in range(n):
                c.assume(c.and_(c.le(0, c.at(e.policy, s)), c.lt(c.at(e.policy, s), m)))
            vs = [L.real('v') for _ in range(n)]
            return dict(changed=L.bool('changed'), value=c.tabulate((n,), lambda s: vs[s] if isinstance(s, int) else c.ite(c.eq(s, 0), vs[0], vs[-1])))

        def inv(e, k):
            r = [('actions', c.and_(*[c.and_(c.le(0, c.at(e.policy, s)), c.lt(c.at(e.policy, s), m)) for s in range(n)]))]
            V = lambda s: c.at(e.value, s)
            if isinstance(e.changed, bool) and e.changed:
                return r
            done = []
            for s in range(n):
                qs = [M.q(V, s, a) for a in range(m)]
                pol = c.at(e.policy, s)
                for a in range(m):
                    done.append(c.implies(c.eq(pol, a), lambda: c.eq(V(s), qs[a])))
                    done.append(ok(c, qs[a], V(s)))
            r.append(('solved', c.implies(c.not_(e.changed), lambda: c.and_(*done))))
            return r
        c.loop(DP + '.policy_iteration#0', havoc, inv)
        v, pol = c.mod(DP).policy_iteration(M.p, M.r, M.gamma)
        c.ensure_shape('value-shape', v, (n,))
        c.ensure_shape('policy-shape', pol, (n,))
        V = lambda s: c.at(v, s)
        for s in range(n):
            c.ensure('an-action', c.and_(c.le(0, c.at(pol, s)), c.lt(c.at(pol, s), m)))
            for a in range(m):
                x = M.q(V, s, a)
                c.ensure('value-of-the-policy', lambda: c.implies(c.eq(c.at(pol, s), a), lambda: c.eq(V(s), x)))
                c.ensure('no-better-action', lambda: ok(c, x, V(s)))
        M.untouched()
    return pi


def ok(c, x, v):
    """not better than v, up to the tolerance numpy.isclose documents"""
    av = c.ite(c.lt(v, 0.), -v, v)
    return c.le(x, v + 1e-8 + 1e-5 * av)


mk_pi(1, 2)
mk_pi(2, 1)
mk_pi(2, 2)


# ------------------------------------------------------------------ LQR
class Lqr:
    _pydv_ghost = True

    def __init__(self, c, n, m):
        self.c, self.n, self.m = c, n, m
        self.A, self.B = c.array('A', (n, n), lo=-1, hi=1), c.array('B', (n, m), lo=-1, hi=1)
        self.Q, self.R = c.array('Q', (n, n), lo=-1, hi=1), c.array('R', (m, m), lo=-1, hi=1)
        self.K = c.array('K', (m, n), lo=-1, hi=1)
        self.g = c.real('gamma', 0, .9)

        class Info:
            _pydv_ghost = True
            gamma = self.g
        self.info = Info()
        self.sols = []
        if c.symbolic:
            def solve(Am, b):
                Am, b = c.copy(Am), c.copy(b)
                k = Am.shape[0]
                x = c.array('sol%d' % len(self.sols), (k,))
                self.sols.append(x)
                for i in range(k):
                    s = 0.
                    for j in range(k):
                        s = s + c.at(Am, i, j) * c.at(x, j)
                    c.assume(c.eq(s, c.at(b, i)))
                return x.copy()
            c.stub(c.np.linalg, 'solve', solve)
            c.trust('np.linalg.solve(A, b) returns the solution of A w = b')
        else:
            import numpy
            kb = self.K.T @ self.B.T
            F = numpy.eye(n * n) - self.g * numpy.kron(self.A.T - kb, self.A.T - kb)
            if numpy.linalg.cond(F) > 1e5:
                c.assume(False)

    def a(self, name, i, j):
        return self.c.at(getattr(self, name), i, j)

    def cost(self, x, u):
        n, m = self.n, self.m
        r = 0.
        for i in range(n):
            for j in range(n):
                r = r + x[i] * self.a('Q', i, j) * x[j]
        for i in range(m):
            for j in range(m):
                r = r + u[i] * self.a('R', i, j) * u[j]
        return r

    def nxt(self, x, u):
        n, m = self.n, self.m
        return [sum(self.a('A', i, j) * x[j] for j in range(n)) + sum(self.a('B', i, k) * u[k] for k in range(m)) for i in range(n)]

    def act(self, x):
        return [-sum(self.a('K', k, j) * x[j] for j in range(self.n)) for k in range(self.m)]


def quad(c, Pm, x):
    n = len(x)
    r = 0.
    for i in range(n):
        for j in range(n):
            r = r + x[i] * c.at(Pm, i, j) * x[j]
    return r


def mk_lqr(n, m):
    def P_of(c, L):
        """the matrix the library computes, with the Bellman equation it has to satisfy"""
        return c.mod(LQ).compute_lqr_P(L, L.K)

    @harness(P, f'lqr_value_{n}x{m}')
    def value(c):
        L = Lqr(c, n, m)
        Pm = P_of(c, L)
        c.ensure_shape('shape', Pm, (n, n))
        # P = Q + K'RK + gamma (A - BK)' P (A - BK), entry by entry
        F = [[L.a('A', i, j) - sum(L.a('B', i, k) * L.a('K', k, j) for k in range(m)) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                w = L.a('Q', i, j)
                for k in range(m):
                    for l in range(m):
                        w = w + L.a('K', k, i) * L.a('R', k, l) * L.a('K', l, j)
                for k in range(n):
                    for l in range(n):
                        w = w + L.g * F[k][i] * c.at(Pm, k, l) * F[l][j]
                c.ensure('bellman-equation-of-the-gain', lambda: c.eq(c.at(Pm, i, j), w))

    @harness(P, f'lqr_functions_{n}x{m}')
    def functions(c):
        L = Lqr(c, n, m)
        lq = c.mod(LQ)
        Pm = c.array('P', (n, n), lo=-2, hi=2)
        c.stub(lq, 'compute_lqr_P', lambda lqr, K: c.copy(Pm))         # its contract is lqr_value
        x, u = c.array('x', (n,)), c.array('u', (m,))
        X, U = [c.at(x, i) for i in range(n)], [c.at(u, i) for i in range(m)]
        v = lq.compute_lqr_V(x, L, L.K)
        c.ensure_shape('value-shape', v, (1, 1))
        c.ensure('value', lambda: c.eq(c.at(v, 0, 0), -quad(c, Pm, X)))
        q = lq.compute_lqr_Q(x, u, L, L.K)
        c.ensure_shape('q-shape', q, (1, 1))
        c.ensure('q-is-reward-plus-discounted-value', lambda: c.eq(c.at(q, 0, 0), -L.cost(X, U) - L.g * quad(c, Pm, L.nxt(X, U))))
        S = c.array('S', (m, m), lo=0, hi=1)
        tr = 0.
        for i in range(m):
            for j in range(m):
                w = L.a('R', j, i)
                for k in range(n):
                    for l in range(n):
                        w = w + L.g * L.a('B', k, j) * c.at(Pm, k, l) * L.a('B', l, i)
                tr = tr + c.at(S, i, j) * w
        vg = lq.compute_lqr_V_gaussian_policy(x, L, L.K, S)
        c.ensure('expected-cost-of-the-noise', lambda: c.eq(c.at(v, 0, 0) - c.at(vg, 0, 0), tr / (1 - L.g)))
        qg = lq.compute_lqr_Q_gaussian_policy(x, u, L, L.K, S)
        c.ensure('noise-enters-q-one-step-later', lambda: c.eq(c.at(q, 0, 0) - c.at(qg, 0, 0), L.g * tr / (1 - L.g)))
        # a batch is the rows
        b = 2
        xb, ub = c.array('xb', (b, n)), c.array('ub', (b, m))
        vb, qb = lq.compute_lqr_V(xb, L, L.K), lq.compute_lqr_Q(xb, ub, L, L.K)
        c.ensure_shape('batch-value', vb, (b, 1))
        c.ensure_shape('batch-q', qb, (b, 1))
        for k in range(b):
            Xk, Uk = [c.at(xb, k, i) for i in range(n)], [c.at(ub, k, i) for i in range(m)]
            c.ensure('batch-value', lambda: c.eq(c.at(vb, k, 0), -quad(c, Pm, Xk)))
            c.ensure('batch-q', lambda: c.eq(c.at(qb, k, 0), -L.cost(Xk, Uk) - L.g * quad(c, Pm, L.nxt(Xk, Uk))))
    return functions


mk_lqr(1, 1)
mk_lqr(2, 1)
mk_lqr(1, 2)
mk_lqr(2, 2)


@harness(P, 'lqr_gain_iteration')
def gain(c):
    """one dimension: the gain is greedy w.r.t. the value after the given number of value iterations, for any number of them"""
    L = Lqr(c, 1, 1)
    a, b, q, r, g = L.a('A', 0, 0), L.a('B', 0, 0), L.a('Q', 0, 0), L.a('R', 0, 0), L.g
    c.assume(c.and_(c.lt(0.1, r), c.le(0., q)))
    T = c.size('T', 0)
    if not c.symbolic:
        p = 1.
        kg = lambda p: g * b * p * a / (r + g * b * b * p)
        for _ in range(T):
            k = kg(p)
            p = q + r * k * k + g * (a - b * k) ** 2 * p
        K = c.mod(LQ).compute_lqr_feedback_gain(L, T)
        c.ensure_shape('shape', K, (1, 1))
        c.ensure('greedy', c.eq(c.at(K, 0, 0), kg(p)))
        return
    inv_ = lambda M: c.tabulate((1, 1), lambda i, j: 1 / c.at(M, 0, 0))
    c.stub(c.np.linalg, 'inv', inv_)
    c.trust('np.linalg.inv of a 1x1 matrix is the reciprocal')
    kg = lambda p: g * (1 / (r + g * (b * p * b))) * b * p * a

    def step(i, p):
        k = kg(p)
        return q + g * (a * p * a - k * b * p * a - a * p * b * k + k * b * p * b * k) + k * r * k
    V = c.rec('V', 1., step)

    def havoc(Lp, e):
        return dict(P=c.tabulate((1, 1), lambda i, j: V(Lp.k)), K=c.tabulate((1, 1), lambda i, j: kg(V(Lp.k))), it=Lp.int('it'))
    c.loop(LQ + '.compute_lqr_feedback_gain#0', havoc, lambda e, k: [
        ('count', c.eq(e.it, k)), ('not-too-many', c.le(k, T)), ('value', c.eq(c.at(e.P, 0, 0), V(k))), ('gain', c.eq(c.at(e.K, 0, 0), kg(c.at(e.P, 0, 0))))])
    K = c.mod(LQ).compute_lqr_feedback_gain(L, T)
    c.ensure_shape('shape', K, (1, 1))
    c.ensure('greedy', lambda: c.eq(c.at(K, 0, 0), kg(V(T))))


def mk_gain(n, m):
    @harness(P, f'lqr_gain_optimal_{n}x{m}', bounded_only=True)
    def conc(c):
        """in any dimension the gain satisfies the optimality equation once converged (concrete inputs only)"""
        if c.symbolic:
            unsup(c, 'matrix inverse')
        import numpy as np
        L = Lqr(c, n, m)
        L.Q, L.R = L.Q @ L.Q.T + np.eye(n), L.R @ L.R.T + np.eye(m)
        lq = c.mod(LQ)
        K = lq.compute_lqr_feedback_gain(L, 500)
        Pm = lq.compute_lqr_P(L, K)
        G = np.linalg.solve(L.R + L.g * L.B.T @ Pm @ L.B, L.g * L.B.T @ Pm @ L.A)
        c.ensure_all('greedy-for-its-own-value', (m, n), lambda i, j: c.eq(G[i, j], K[i, j]))
        K0 = L.K
        x = c.array('x', (2, n))
        S = np.eye(m) * c.real('sig', .1, 1)
        d = lq.compute_lqr_V_gaussian_policy_gradient_K(x, L, K0, S)
        c.ensure_shape('gradient-shape', d, (2, n * m))
        h = 1e-6
        u = c.array('u', (2, m))
        dq = lq.compute_lqr_Q_gaussian_policy_gradient_K(x, u, L, K0, S)
        for i in range(n * m):
            E = np.zeros(n * m)
            E[i] = h
            E = E.reshape(m, n)
            f = lambda s: lq.compute_lqr_V_gaussian_policy(x, L, K0 + s * E, S)[:, 0]
            fq = lambda s: lq.compute_lqr_Q_gaussian_policy(x, u, L, K0 + s * E, S)[:, 0]
            num, numq = (f(1) - f(-1)) / (2 * h), (fq(1) - fq(-1)) / (2 * h)
            for k in range(2):
                if abs(num[k]) < 1e3:
                    c.ensure('gradient', lambda: abs(num[k] - d[k, i]) <= 1e-3 * (1 + abs(num[k])))
                if abs(numq[k]) < 1e3:
                    c.ensure('q-gradient', lambda: abs(numq[k] - dq[k, i]) <= 1e-3 * (1 + abs(numq[k])))
    return conc


mk_gain(1, 1)
mk_gain(2, 1)
mk_gain(2, 2)


@harness(P, 'lqr_gradient_1x1')
def gradient(c):
    """one dimension: derivative of the value w.r.t. the gain (derivative of the Bellman equation), single state or batch"""
    L = Lqr(c, 1, 1)
    a, b, q, r, g, k = [L.a(s, 0, 0) for s in 'ABQR'] + [L.g, L.a('K', 0, 0)]
    f = a - b * k
    den = 1 - g * f * f
    c.assume(c.lt(.01, den))
    if c.symbolic:
        c.stub(c.np.linalg, 'inv', lambda M: c.tabulate((1, 1), lambda i, j: 1 / c.at(M, 0, 0)))
        c.stub(c.np.linalg, 'solve', lambda M, v: c.tabulate((1,), lambda i: c.at(v, 0) / c.at(M, 0, 0)))
        c.trust('np.linalg.inv and solve of a 1x1 matrix divide')
    p = (q + k * r * k) / den
    # dp = 2 k r + gamma (2 f (-b) p + f^2 dp)
    dp = (2 * k * r - 2 * g * f * b * p) / den
    sg = c.real('sig', 0, 1)
    S = c.tabulate((1, 1), lambda i, j: sg)
    n = c.choice('batch', [0, 1, 2])
    x = c.array('x', (1,) if n == 0 else (n, 1))
    d = c.mod(LQ).compute_lqr_V_gaussian_policy_gradient_K(x, L, L.K, S)
    c.ensure_shape('shape', d, (n or 1, 1))
    for i in range(n or 1):
        xi = c.at(x, 0) if n == 0 else c.at(x, i, 0)
        c.ensure('gradient', lambda: c.eq(c.at(d, i, 0), -(xi * dp * xi + g * sg * b * dp * b / (1 - g))))


# ------------------------------------------------------------------ car on hill
def mk_car(depth):
    @harness(P, f'car_on_hill_depth_{depth}')
    def car(c):
        """the value of the best sequence of actions on an arbitrary tree of outcomes"""
        rw = c.func('rw', 2, 'int', lo=-1, hi=1)

        class Env:
            _pydv_ghost = True

            def reset(self, s):
                self.s = s
                return s, {}

            def step(self, a):
                a = a[0]
                r = rw(self.s, a)
                self.s = 2 * self.s + 1 + a
                for v in (-1, 0):
                    if r == v:
                        return self.s, v, v != 0, {}
                return self.s, 1, True, {}
        g = c.real('gamma', 0, 1, open_lo=True)
        m = c.mod('mushroom_rl.solvers.car_on_hill')
        act = c.choice('a', [0, 1])
        q = m.solve_car_on_hill(Env(), [0], [[act]], g, max_k=depth)
        c.ensure('one-value', len(q) == 1)

        # earliest success, and last crash, at the steps the search is allowed to look at
        level, win, crash, left = [(0, act)], None, None, []
        for k in range(1, depth if depth > 1 else 2):
            nxt = []
            for s, a in level:
                r = rw(s, a)
                s2 = 2 * s + 1 + a
                if r == 1:
                    win = k
                    break
                if r == -1:
                    crash = k
                else:
                    nxt += [(s2, 0), (s2, 1)]
            if win is not None or not nxt:
                left = []
                break
            left = level = nxt
        if win is not None:
            c.ensure('earliest-success', lambda: c.eq(q[0], g ** (win - 1)))
        elif not left:
            c.ensure('latest-crash', lambda: c.eq(q[0], -g ** (crash - 1)))
        else:
            c.ensure('undecided-within-the-depth', lambda: c.and_(c.le(-g ** (depth - 1), q[0]), c.le(q[0], g ** (depth - 1))))
    return car


mk_car(2)
mk_car(3)
mk_car(4)
