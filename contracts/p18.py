"""P18 - the classic control environments follow their documented equations."""
import math

from pydv.ctx import harness
from .common import unsup

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.utils.angles', 'mushroom_rl.environments.car_on_hill',
           'mushroom_rl.environments.cart_pole', 'mushroom_rl.environments.inverted_pendulum',
           'mushroom_rl.environments.segway', 'mushroom_rl.environments.lqr', 'mushroom_rl.environments.puddle_world',
           'mushroom_rl.environments.ship_steering']
P = 'P18'
PI = math.pi
EPS = 1e-9       # rounding of the constants


def ab(c, x):
    return c.ite(c.le(0, x), x, -x) if c.symbolic else abs(x)


def wrap(c, a):
    """the representative of the angle in (-pi, pi]"""
    if c.symbolic:
        r = c.func('wrap')(a)
        c.assume(c.and_(c.lt(-PI, r), c.le(r, PI)))
        return r
    q = -c.floor(-((a - PI) / (2 * PI)))           # ceil
    return a - 2 * PI * (c.toreal(q) if c.symbolic else q)


def use_wrap(c, M):
    """the modules are checked against the contract of normalize_angle, which harness `angles` proves"""
    if c.symbolic:
        if not hasattr(M, 'normalize_angle'):
            unsup(c, 'normalize_angle not found')
        c.stub(M, 'normalize_angle', lambda a: wrap(c, a.item() if hasattr(a, '_pydv_array') else a))


def clip(c, x, lo, hi):
    return c.ite(c.lt(x, lo), lo, c.ite(c.lt(hi, x), hi, x)) if c.symbolic else min(max(float(x), lo), hi)


def same_angle(c, a, b):
    """equality up to the rounding at the cut"""
    if c.symbolic:
        return c.eq(a, b)
    d = abs(float(a) - float(b)) % (2 * PI)
    return min(d, 2 * PI - d) < 1e-6 and -PI - 1e-9 <= float(a) <= PI + 1e-9


class Ode:
    """assumed contract of scipy's odeint: the returned last row is a state reached from y0 after t[-1]-t[0] under func"""
    _pydv_ghost = True

    def __init__(self, c, M, d, f):
        self.c, self.d, self.f, self.calls = c, d, f, []
        if c.symbolic:
            if not hasattr(M, 'odeint'):
                unsup(c, 'odeint not found')
            c.stub(M, 'odeint', self)
            c.trust('scipy.integrate.odeint: the last row is the solution of the given equation from the given state; '
                    'the solution is an arbitrary state in the proof')

    def __call__(self, func, y0, t, args=(), **k):
        c, d = self.c, self.d
        if len(t) != 2:
            unsup(c, 'odeint on more than two times')
        n = len(y0)
        z = [c.real(f'z{i}_{len(self.calls)}') for i in range(d)]
        rest = [c.at(y0, i) for i in range(d, n)]
        der = func(self.vec(z + rest), c.real(f't_{len(self.calls)}'), *args)
        if not args and not rest:
            unsup(c, 'control not found')
        u = args[0] if args else rest[-1]
        u = u.item() if hasattr(u, '_pydv_array') else u
        new = [c.real(f'y{i}_{len(self.calls)}') for i in range(d)]
        self.calls.append(dict(y0=[c.at(y0, i) for i in range(d)], dt=t[1] - t[0], u=u, z=z,
                               der=[x.item() if hasattr(x, '_pydv_array') else x for x in der], new=new))
        return self.mat([[c.at(y0, i) for i in range(n)], new + rest])

    def vec(self, xs):
        return self.c.tabulate((len(xs),), lambda i: self.pick(xs, i))

    def mat(self, rows):
        return self.c.tabulate((len(rows), len(rows[0])), lambda i, j: self.pick([self.pick(r, j) for r in rows], i))

    def pick(self, xs, i):
        if isinstance(i, int):
            return xs[i]
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = self.c.ite(self.c.eq(i, k), xs[k], r)
        return r

    def result(self, s, u, dt):
        """the state the specification reaches from s with control u; also checks the call in the proof"""
        c = self.c
        if not c.symbolic:
            from scipy.integrate import odeint
            return [float(x) for x in odeint(lambda y, t: self.f(y, u), [float(x) for x in s], [0, dt], rtol=1e-10, atol=1e-10)[-1]]
        if len(self.calls) != 1:
            unsup(c, 'odeint not called once')
        k = self.calls.pop()
        for i in range(self.d):
            c.ensure_eq('starts-from-the-current-state', k['y0'][i], s[i])
        c.ensure_eq('control-period', k['dt'], dt)
        c.ensure_eq('control', k['u'], u)
        want = self.f(k['z'], u)
        for i in range(self.d):
            c.ensure_eq(f'equation-of-motion-{i}', k['der'][i], want[i])
        return k['new']


def rng(c, M, **qs):
    """np.random.uniform draws lo + q (hi - lo) with an arbitrary q in [0, 1]"""
    if not hasattr(M, 'np'):
        unsup(c, 'np not found')
    q = [c.real(f'q{i}', 0, 1) for i in range(3)]
    used = []

    def uniform(low=0., high=1., size=None):
        used.append(1)
        if size is None:
            return low + q[0] * (high - low)
        n = size[0] if isinstance(size, (tuple, list)) else size
        lo = low if not hasattr(low, 'shape') or low.shape == () else None
        if lo is None:
            unsup(c, 'vector bounds')
        if c.symbolic:
            return c.tabulate((n,), lambda i: low + (c.ite(c.eq(i, 0), q[0], c.ite(c.eq(i, 1), q[1], q[2]))) * (high - low))
        import numpy
        return numpy.array([low + q[i % 3] * (high - low) for i in range(n)])
    c.stub(M.np.random, 'uniform', uniform)
    return q, used


def vec(c, name, d, lo=-8., hi=8.):
    return c.array(name, (d,), lo=lo, hi=hi)


def rows(c, a, d):
    return [c.at(a, i) for i in range(d)]


# ------------------------------------------------------------------ angles
@harness(P, 'angles')
def angles(c):
    M = c.mod('mushroom_rl.utils.angles')
    lim = {} if c.symbolic else dict(lo=-60, hi=60)
    a, b = c.real('a', **lim), c.real('b', **lim)

    def check(nm, x, r, lo):
        c.ensure(nm + '-range', lambda: c.and_(c.le(lo - EPS, r), c.le(r, lo + 2 * PI + EPS)))
        if not c.symbolic:
            return c.ensure(nm + '-same-direction', lambda: abs(x - r - 2 * PI * round((x - r) / (2 * PI))) < 1e-9)
        c.ensure(nm + '-half-open', lambda: c.lt(r, 2 * PI) if lo == 0 else c.lt(-PI, r))
        # some whole number of turns: the quotients of the divisions that were done, up to two turns
        ks = [0]
        for t in c.eng.ghost.get('turns', []):
            ks = ks + [k + t for k in ks] + [k - t for k in ks]
        if len(ks) > 100:
            unsup(c, 'too many divisions')
        c.ensure(nm + '-same-direction', lambda: c.or_(*[c.eq(x - r, 2 * PI * c.toreal(k + j)) for k in ks for j in (-2, -1, 0, 1, 2)]))

    which = c.choice('which', [0, 1, 2])
    if which == 0:
        check('positive', a, M.normalize_angle_positive(a), 0)
    elif which == 1:
        check('symmetric', a, M.normalize_angle(a), -PI)
    else:
        check('distance', b - a, M.shortest_angular_distance(a, b), -PI)


# ------------------------------------------------------------------ car on hill
@harness(P, 'car_on_hill')
def car(c):
    M = c.mod('mushroom_rl.environments.car_on_hill')
    g, m = 9.81, 1.

    def f(z, u):
        p, v = z[0], z[1]
        neg = c.lt(p, 0.)
        h1p = 1 / ((1 + 5 * p ** 2) ** 1.5)
        h2p = (-15 * p) / ((1 + 5 * p ** 2) ** 2.5)
        if c.symbolic:
            h1, h2 = c.ite(neg, 2 * p + 1, h1p), c.ite(neg, 2, h2p)
        else:
            h1, h2 = (2 * p + 1, 2) if neg else (h1p, h2p)
        return v, (u - g * m * h1 - v ** 2 * m * h1 * h2) / (m * (1 + h1 ** 2))
    ode = Ode(c, M, 2, f)
    hor = c.size('hor', 1)
    gm = c.real('gamma', 0, 1)
    env = M.CarOnHill(horizon=hor, gamma=gm)
    c.ensure('declared', lambda: c.and_(c.eq(env.info.horizon, hor), c.eq(env.info.gamma, gm), env.info.action_space.n == 2))
    s, _ = env.reset()
    c.ensure('start', lambda: c.and_(c.eq(c.at(s, 0), -.5), c.eq(c.at(s, 1), 0.)))
    X = vec(c, 'X', 2, -1.2, 1.2) if not c.symbolic else c.array('X', (2,))
    X0 = rows(c, X, 2)
    s, info = env.reset(X)
    c.ensure('given-start', lambda: c.and_(c.eq(c.at(s, 0), X0[0]), c.eq(c.at(s, 1), X0[1])))
    a = c.choice('a', [0, 1])
    import numpy
    s1, r, ab_, _ = env.step(numpy.array([a]) if not c.symbolic else [a])
    y = ode.result(X0, [-4., 4.][a], .1)
    c.ensure('state', lambda: c.and_(c.eq(c.at(s1, 0), y[0]), c.eq(c.at(s1, 1), y[1])))
    fast = c.lt(3., ab(c, y[1]))
    bad = c.or_(c.lt(y[0], -1.), fast)
    good = c.and_(c.lt(1., y[0]), c.not_(fast))
    c.ensure('failure', lambda: c.implies(bad, lambda: c.and_(c.eq(r, -1.), ab_)))
    c.ensure('success', lambda: c.implies(good, lambda: c.and_(c.eq(r, 1.), ab_)))
    c.ensure('otherwise', lambda: c.implies(c.not_(c.or_(bad, good)), lambda: c.and_(c.eq(r, 0.), c.not_(ab_))))
    if not c.symbolic:
        env.step(numpy.array([1 - a]))
    else:
        env.step([1 - a])
    c.ensure('returned-state-stays', lambda: c.and_(c.eq(c.at(s1, 0), y[0]), c.eq(c.at(s1, 1), y[1])))
    c.ensure('given-state-untouched', lambda: c.and_(c.eq(c.at(X, 0), X0[0]), c.eq(c.at(X, 1), X0[1])))


# ------------------------------------------------------------------ cart pole
@harness(P, 'cart_pole')
def cart(c):
    M = c.mod('mushroom_rl.environments.cart_pole')
    m, MM, l, g = c.real('m', .1, 5), c.real('M', .1, 9), c.real('l', .1, 2), c.real('g', 1, 12)
    mu_, nu = c.real('maxu', 0, 60), c.real('noise', 0, 12)
    al = 1 / (m + MM)

    def f(z, u):
        th, om = z[0], z[1]
        return om, (g * c.sin(th) - al * m * l * .5 * om ** 2 * c.sin(2 * th) * .5 - al * c.cos(th) * u) / (
            2 / 3 * l - al * m * l * .5 * c.cos(th) ** 2)
    ode = Ode(c, M, 2, f)
    use_wrap(c, M)
    q, used = rng(c, M)
    env = M.CartPole(m=m, M=MM, l=l, g=g, max_u=mu_, noise_u=nu)
    s, _ = env.reset()
    c.ensure('start', lambda: c.and_(c.le(-PI / 8 - EPS, c.at(s, 0)), c.le(c.at(s, 0), PI / 8 + EPS), c.eq(c.at(s, 1), 0.)))
    X = c.array('X', (2,), lo=None if c.symbolic else -7, hi=None if c.symbolic else 7)
    X0 = rows(c, X, 2)
    s, _ = env.reset(X)
    c.ensure('given-start', lambda: c.and_(same_angle(c, c.at(s, 0), wrap(c, X0[0])), c.eq(c.at(s, 1), X0[1])))
    c.ensure('given-state-untouched', lambda: c.and_(c.eq(c.at(X, 0), X0[0]), c.eq(c.at(X, 1), X0[1])))
    a = c.choice('a', [0, 1, 2])
    used.clear()
    import numpy
    s1, r, ab_, _ = env.step(numpy.array([a]))
    if len(used) != 1:
        if c.symbolic:
            unsup(c, 'noise')
        c.assume(False)
    u = [-mu_, 0., mu_][a] + (-nu + q[0] * 2 * nu)
    y = ode.result([wrap(c, X0[0]), X0[1]], u, .1)
    th = wrap(c, y[0])
    c.ensure('state', lambda: c.and_(same_angle(c, c.at(s1, 0), th), c.eq(c.at(s1, 1), y[1])))
    fall = c.lt(PI / 2, ab(c, th))
    c.ensure('fallen', lambda: c.implies(fall, lambda: c.and_(c.eq(r, -1.), ab_)))
    c.ensure('standing', lambda: c.implies(c.not_(fall), lambda: c.and_(c.eq(r, 0.), c.not_(ab_))))
    env.step(numpy.array([a]))
    c.ensure('returned-state-stays', lambda: c.and_(same_angle(c, c.at(s1, 0), th), c.eq(c.at(s1, 1), y[1])))


# ------------------------------------------------------------------ inverted pendulum
@harness(P, 'inverted_pendulum')
def pend(c):
    M = c.mod('mushroom_rl.environments.inverted_pendulum')
    m, l, g, mu = c.real('m', .1, 5), c.real('l', .3, 2), c.real('g', 1, 12), c.real('mu', 0, 1)
    maxu = c.real('maxu', .1, 9)
    W = 5 / 2 * PI

    def f(z, u):
        om = clip(c, z[1], -W, W)
        return om, (-mu * om + m * g * l * c.sin(z[0]) + u) / (m * l ** 2)
    ode = Ode(c, M, 2, f)
    use_wrap(c, M)
    q, used = rng(c, M)
    rand = c.choice('rand', [False, True])
    env = M.InvertedPendulum(random_start=rand, m=m, l=l, g=g, mu=mu, max_u=maxu)
    c.ensure('declared', lambda: c.and_(c.eq(c.at(env.info.action_space.high, 0), maxu), c.eq(c.at(env.info.action_space.low, 0), -maxu)))
    s, _ = env.reset()
    if rand:
        c.ensure('random-start', lambda: c.and_(c.le(-PI - EPS, c.at(s, 0)), c.le(c.at(s, 0), PI + EPS), c.eq(c.at(s, 1), 0.)))
    else:
        c.ensure('start', lambda: c.and_(c.eq(c.at(s, 0), PI / 2), c.eq(c.at(s, 1), 0.)))
    X = c.array('X', (2,), lo=None if c.symbolic else -9, hi=None if c.symbolic else 9)
    X0 = rows(c, X, 2)
    s, _ = env.reset(X)
    w0 = clip(c, X0[1], -W, W)
    c.ensure('given-start', lambda: c.and_(same_angle(c, c.at(s, 0), wrap(c, X0[0])), c.eq(c.at(s, 1), w0)))
    c.ensure('given-state-untouched', lambda: c.and_(c.eq(c.at(X, 0), X0[0]), c.eq(c.at(X, 1), X0[1])))
    A = c.array('A', (1,), lo=None if c.symbolic else -12, hi=None if c.symbolic else 12)
    A0 = c.at(A, 0)
    s1, r, ab_, _ = env.step(A)
    y = ode.result([wrap(c, X0[0]), w0], clip(c, A0, -maxu, maxu), .01)
    th, om = wrap(c, y[0]), clip(c, y[1], -W, W)
    c.ensure('state', lambda: c.and_(same_angle(c, c.at(s1, 0), th), c.eq(c.at(s1, 1), om)))
    c.ensure('reward', lambda: c.eq(r, c.cos(th)))
    c.ensure('never-absorbing', lambda: c.not_(ab_))
    c.ensure('action-untouched', lambda: c.eq(c.at(A, 0), A0))
    env.step(A)
    c.ensure('returned-state-stays', lambda: c.and_(same_angle(c, c.at(s1, 0), th), c.eq(c.at(s1, 1), om)))


# ------------------------------------------------------------------ segway
@harness(P, 'segway')
def segway(c):
    M = c.mod('mushroom_rl.environments.segway')
    Mr, Mp, Ip, Ir, l, r_, g = .3 * 2, 2.55, 2.6e-2, 4.54e-4 * 2, 13.8e-2, 5.5e-2, 9.81

    def f(z, u):
        al, w = z[0], z[1]
        h1 = (Mr + Mp) * r_ ** 2 + Ir
        h2 = Mp * r_ * l * c.cos(al)
        h3 = l ** 2 * Mp + Ip
        det = h1 * h3 - h2 ** 2
        return (w, -(h2 * l * Mp * r_ * c.sin(al) * w ** 2 - g * h1 * l * Mp * c.sin(al) + (h2 + h1) * u) / det,
                (h3 * l * Mp * r_ * c.sin(al) * w ** 2 - g * h2 * l * Mp * c.sin(al) + (h3 + h2) * u) / det)
    ode = Ode(c, M, 3, f)
    use_wrap(c, M)
    q, used = rng(c, M)
    rand = c.choice('rand', [False, True])
    env = M.Segway(random_start=rand)
    for j in range(3):
        c.ensure('bounds-are-ordered', lambda: c.le(c.at(env.info.observation_space.low, j), c.at(env.info.observation_space.high, j)))
    s, _ = env.reset()
    c.ensure('start', lambda: c.and_(c.and_(c.le(-PI / 2 - EPS, c.at(s, 0)), c.le(c.at(s, 0), PI / 2 + EPS)) if rand else c.eq(c.at(s, 0), -PI / 8),
                                     c.eq(c.at(s, 1), 0.), c.eq(c.at(s, 2), 0.)))
    X = c.array('X', (3,), lo=None if c.symbolic else -9, hi=None if c.symbolic else 9)
    X0 = rows(c, X, 3)
    s, _ = env.reset(X)
    c.ensure('given-start', lambda: c.and_(same_angle(c, c.at(s, 0), wrap(c, X0[0])), c.eq(c.at(s, 1), X0[1]), c.eq(c.at(s, 2), X0[2])))
    c.ensure('given-state-untouched', lambda: c.and_(*[c.eq(c.at(X, j), X0[j]) for j in range(3)]))
    A = c.array('A', (1,), lo=None if c.symbolic else -9, hi=None if c.symbolic else 9)
    A0 = c.at(A, 0)
    s1, r, ab_, _ = env.step(A)
    y = ode.result([wrap(c, X0[0]), X0[1], X0[2]], clip(c, A0, -5, 5), .01)
    th = wrap(c, y[0])
    c.ensure('state', lambda: c.and_(same_angle(c, c.at(s1, 0), th), c.eq(c.at(s1, 1), y[1]), c.eq(c.at(s1, 2), y[2])))
    fall = c.lt(PI / 2, ab(c, th))
    c.ensure('fallen', lambda: c.implies(fall, lambda: c.and_(c.eq(r, -10000), ab_)))
    c.ensure('standing', lambda: c.implies(c.not_(fall), lambda: c.and_(
        c.eq(r, -(3. * th * th + .1 * y[1] * y[1] + .1 * y[2] * y[2])), c.not_(ab_))))
    c.ensure('action-untouched', lambda: c.eq(c.at(A, 0), A0))
    env.step(A)
    c.ensure('returned-state-stays', lambda: c.and_(same_angle(c, c.at(s1, 0), th), c.eq(c.at(s1, 1), y[1])))


# ------------------------------------------------------------------ lqr
def mv(c, A, x, n, m):
    return [sum(c.at(A, i, j) * x[j] for j in range(m)) for i in range(n)]


def quad(c, A, x):
    n = len(x)
    return sum(x[i] * c.at(A, i, j) * x[j] for i in range(n) for j in range(n))


def mk_lqr(n, m):
    @harness(P, f'lqr_{n}_{m}')
    def lqr(c):
        M = c.mod('mushroom_rl.environments.lqr')
        A, B = c.array('A', (n, n), lo=-2, hi=2), c.array('B', (n, m), lo=-2, hi=2)
        Q, R = c.array('Q', (n, n), lo=-2, hi=2), c.array('R', (m, m), lo=-2, hi=2)
        mp, mu = c.real('mp', .5, 20), c.real('mu', .1, 20)
        epi = c.choice('episodic', [False, True])
        gm, hor = c.real('gamma', 0, 1), c.size('hor', 1)
        env = M.LQR(A, B, Q, R, max_pos=mp, max_action=mu, episodic=epi, gamma=gm, horizon=hor)
        c.ensure('declared', lambda: c.and_(c.eq(env.info.gamma, gm), c.eq(env.info.horizon, hor)))
        for j in range(m):
            c.ensure('action-bounds', lambda: c.and_(c.eq(c.at(env.info.action_space.low, j), -mu), c.eq(c.at(env.info.action_space.high, j), mu)))
        for i in range(n):
            c.ensure('state-bounds', lambda: c.and_(c.eq(c.at(env.info.observation_space.low, i), -mp), c.eq(c.at(env.info.observation_space.high, i), mp)))
        s, _ = env.reset()
        for i in range(n):
            c.ensure_eq('default-start', lambda: c.at(s, i), .9 * mp)
        X = c.array('X', (n,), lo=-20, hi=20)
        X0 = rows(c, X, n)
        s, _ = env.reset(X)
        for i in range(n):
            c.ensure_eq('given-start', lambda: c.at(s, i), X0[i])
        U = c.array('U', (m,), lo=-30, hi=30)
        U0 = rows(c, U, m)
        s1, r, ab_, _ = env.step(U)
        u = [clip(c, x, -mu, mu) for x in U0]
        y = [a + b for a, b in zip(mv(c, A, X0, n, n), mv(c, B, u, n, m))]
        out = c.or_(*[c.lt(mp, ab(c, v)) for v in y])
        cost = -(quad(c, Q, X0) + quad(c, R, u))
        if epi:
            c.ensure('out-of-bounds', lambda: c.implies(out, lambda: c.and_(c.eq(r, -mp * mp * 10), ab_)))
            c.ensure('reward', lambda: c.implies(c.not_(out), lambda: c.and_(c.eq(r, cost), c.not_(ab_))))
            fin = y
        else:
            c.ensure('reward', lambda: c.and_(c.eq(r, cost), c.not_(ab_)))
            fin = [clip(c, v, -mp, mp) for v in y]
        for i in range(n):
            c.ensure_eq('next-state', lambda: c.at(s1, i), fin[i])
            c.ensure_eq('given-state-untouched', lambda: c.at(X, i), X0[i])
        for j in range(m):
            c.ensure_eq('action-untouched', lambda: c.at(U, j), U0[j])
        other = M.LQR(A, B, Q, R, max_pos=mp, max_action=mu, episodic=epi, gamma=gm, horizon=hor)
        other.reset(c.copy(s1))
        s2, r2, a2, _ = env.step(U)
        s3, r3, a3, _ = other.step(U)
        c.ensure('continues-from-the-returned-state', lambda: c.and_(c.eq(r2, r3), *[c.eq(c.at(s2, i), c.at(s3, i)) for i in range(n)]))
        for i in range(n):
            c.ensure_eq('returned-state-stays', lambda: c.at(s1, i), fin[i])


for _n, _m in ((1, 1), (2, 1), (2, 2)):
    mk_lqr(_n, _m)


@harness(P, 'lqr_generate')
def lqr_generate(c):
    M = c.mod('mushroom_rl.environments.lqr')
    n, m = c.choice('n', [1, 2, 3]), c.choice('m', [1, 2])
    eps, sc = c.real('eps', 0, 1), c.real('scale', .1, 5)
    idx = c.choice('index', [0, 1])
    if idx >= min(n, m):
        c.assume(False)
    gm, hor, mp, mu = c.real('gamma', 0, 1), c.size('hor', 1), c.real('mp', .5, 20), c.real('mu', .1, 20)
    epi, given = c.choice('episodic', [False, True]), c.choice('given', [False, True])
    I = c.array('I', (n,))
    env = M.LQR.generate(s_dim=n, a_dim=m, max_pos=mp, max_action=mu, eps=eps, index=idx, scale=sc, episodic=epi, gamma=gm,
                         horizon=hor, initial_state=I if given else None)
    c.ensure('declared', lambda: c.and_(c.eq(env.info.gamma, gm), c.eq(env.info.horizon, hor),
                                        c.eq(c.at(env.info.action_space.high, 0), mu), c.eq(c.at(env.info.observation_space.high, 0), mp)))
    for i in range(n):
        for j in range(n):
            c.ensure_eq('A', lambda: c.at(env.A, i, j), 1. if i == j else 0.)
            c.ensure_eq('Q', lambda: c.at(env.Q, i, j), 0. if i != j else ((1 - eps) if i == idx else eps) * sc)
        for j in range(m):
            c.ensure_eq('B', lambda: c.at(env.B, i, j), 1. if i == j else 0.)
    for i in range(m):
        for j in range(m):
            c.ensure_eq('R', lambda: c.at(env.R, i, j), 0. if i != j else (eps if i == idx else 1 - eps) * sc)
    s, _ = env.reset()
    for i in range(n):
        c.ensure_eq('start', lambda: c.at(s, i), c.at(I, i) if given else .9 * mp)
    env.step(c.array('u', (m,)))
    s, _ = env.reset()
    for i in range(n):
        c.ensure_eq('start-again', lambda: c.at(s, i), c.at(I, i) if given else .9 * mp)
    env = M.LQR.generate(dimensions=m, max_pos=mp, max_action=mu, random_init=True)
    c.ensure('square', lambda: env.A.shape == (m, m) and env.B.shape == (m, m) and env.R.shape == (m, m))
    s, _ = env.reset()
    for i in range(m):
        c.ensure('random-start-in-the-space', lambda: c.and_(c.le(-mp, c.at(s, i)), c.le(c.at(s, i), mp)))


# ------------------------------------------------------------------ puddle world
class Pdf:
    _pydv_ghost = True

    def __init__(self, c):
        self.f = c.func('pdf', 3, lo=0)

    def pdf(self, x, m, s):
        return self.f(x, m, s)


@harness(P, 'puddle_world')
def puddle(c):
    M = c.mod('mushroom_rl.environments.puddle_world')
    if not hasattr(M, 'norm'):
        unsup(c, 'norm not found')
    if c.symbolic:
        pdf = Pdf(c)
        c.stub(M, 'norm', pdf)
        c.trust('scipy.stats.norm.pdf: an arbitrary non-negative function in the proof')
    else:
        from scipy.stats import norm as pdf
    q, used = rng(c, M)
    g = c.real('noise', -2, 2)
    c.stub(M.np.random, 'randn', lambda *a: g)
    th, ns, nr, rg, thr = c.real('thrust', 0, .3), c.real('nstep', 0, .1), c.real('nrew', 0, 1), c.real('rgoal', -5, 5), c.real('thr', 0, .5)
    k = c.choice('puddles', [0, 1, 2])
    PC = [[c.real(f'pc{i}{j}', 0, 1) for j in range(2)] for i in range(k)]
    PW = [[c.real(f'pw{i}{j}', .01, 1) for j in range(2)] for i in range(k)]
    S, G = c.array('S', (2,), lo=0, hi=1), c.array('G', (2,), lo=0, hi=1)
    S0, G0 = rows(c, S, 2), rows(c, G, 2)
    env = M.PuddleWorld(start=S, goal=G, goal_threshold=thr, noise_step=ns, noise_reward=nr, reward_goal=rg, thrust=th,
                        puddle_center=PC, puddle_width=PW)
    s, _ = env.reset()
    c.ensure('start', lambda: c.and_(c.eq(c.at(s, 0), S0[0]), c.eq(c.at(s, 1), S0[1])))
    X = c.array('X', (2,), lo=0, hi=1)
    X0 = rows(c, X, 2)
    if c.choice('given', [False, True]):
        env.reset(X)
        cur = X0
    else:
        cur = S0
    a = c.choice('a', [0, 1, 2, 3, 4])
    used.clear()
    s1, r, ab_, _ = env.step([a])
    if len(used) != 1:
        unsup(c, 'noise')
    mv_ = [[-th, 0.], [th, 0.], [0., -th], [0., th], [0., 0.]][a]
    y = [clip(c, cur[j] + mv_[j] + (-ns + q[j] * 2 * ns), 0., 1.) for j in range(2)]
    c.ensure('position', lambda: c.and_(c.eq(c.at(s1, 0), y[0]), c.eq(c.at(s1, 1), y[1])))
    dist = ab(c, y[0] - G0[0]) + ab(c, y[1] - G0[1])
    goal = c.lt(dist, thr)
    c.ensure('goal', lambda: c.implies(goal, lambda: c.and_(c.eq(r, rg), ab_)))
    rew = -1.
    for i in range(k):
        rew = rew - 2. * pdf.pdf(y[0], PC[i][0], PW[i][0]) * pdf.pdf(y[1], PC[i][1], PW[i][1])
    c.ensure('elsewhere', lambda: c.implies(c.not_(goal), lambda: c.and_(c.eq(r, g * nr + rew), c.not_(ab_))))
    env.step([a])
    c.ensure('returned-state-stays', lambda: c.and_(c.eq(c.at(s1, 0), y[0]), c.eq(c.at(s1, 1), y[1])))
    s, _ = env.reset()
    c.ensure('start-again', lambda: c.and_(c.eq(c.at(s, 0), S0[0]), c.eq(c.at(s, 1), S0[1])))


# ------------------------------------------------------------------ ship steering
@harness(P, 'ship_steering')
def ship(c):
    M = c.mod('mushroom_rl.environments.ship_steering')
    use_wrap(c, M)
    small = c.choice('small', [True, False])
    n = c.choice('substeps', [1, 2, 3] if not c.symbolic else [1, 2])
    env = M.ShipSteering(small=small, n_steps_action=n)
    F = 150 if small else 1000
    gs, ge = ((100, 120), (120, 100)) if small else ((350, 400), (450, 400))
    c.ensure('declared', lambda: c.and_(c.eq(c.at(env.info.observation_space.high, 0), F), c.eq(c.at(env.info.observation_space.low, 1), 0),
                                        c.eq(c.at(env.info.action_space.high, 0), PI / 12)))
    if small:
        s, _ = env.reset()
        c.ensure('start', lambda: c.and_(c.eq(c.at(s, 0), 0.), c.eq(c.at(s, 1), 0.), c.eq(c.at(s, 2), PI / 2), c.eq(c.at(s, 3), 0.)))
    else:
        s, _ = env.reset()
        sp = env.info.observation_space
        c.ensure_shape('start-shape', s, (4,))
        c.ensure_all('start-in-the-space', (4,), lambda j: c.and_(c.le(c.at(sp.low, j), c.at(s, j)), c.le(c.at(s, j), c.at(sp.high, j))))
    if c.symbolic:
        X = c.array('X', (4,))
    else:
        import numpy
        near = c.choice('near', [0, 1, 2])
        t = c.real('t', 0, 1)
        base = [c.real('x0', 0, F), c.real('x1', 0, F)]
        if near == 1:
            base = [gs[0] + t * (ge[0] - gs[0]) + c.real('d0', -.6, .6), gs[1] + t * (ge[1] - gs[1]) + c.real('d1', -.6, .6)]
        elif near == 2:
            base[0 if t < .5 else 1] = c.choice('edge', [0, F])
        X = numpy.array(base + [c.real('x2', -PI, PI), c.real('x3', -.3, .3)])
    X0 = rows(c, X, 4)
    s, _ = env.reset(X)
    c.ensure('given-start', lambda: c.and_(*[c.eq(c.at(s, j), X0[j]) for j in range(4)]))
    A = c.array('A', (1,), lo=None if c.symbolic else -1, hi=None if c.symbolic else 1)
    A0 = c.at(A, 0)
    s1, r, ab_, _ = env.step(A)
    om = clip(c, A0, -PI / 12, PI / 12)
    dt, v, T = .2, 3., 5.

    def crossed(p, q):
        rx, ry = ge[0] - gs[0], ge[1] - gs[1]
        sx, sy = q[0] - p[0], q[1] - p[1]
        den = rx * sy - ry * sx
        dx, dy = p[0] - gs[0], p[1] - gs[1]
        if not c.symbolic and den == 0:
            return False
        t, u = (dx * sy - dy * sx) / den, (dx * ry - dy * rx) / den
        if not c.symbolic:
            if min(abs(t), abs(t - 1), abs(u), abs(u - 1)) < 1e-6:
                c.assume(False)          # tie up to rounding
            return 0 <= t <= 1 and 0 <= u <= 1
        return c.and_(c.not_(c.eq(den, 0)), c.le(0, t), c.le(t, 1), c.le(0, u), c.le(u, 1))

    def after(st, k):
        """(state, reward, absorbing) of the remaining k sub-steps"""
        y = [st[0] + v * c.cos(st[2]) * dt, st[1] + v * c.sin(st[2]) * dt, wrap(c, st[2] + st[3] * dt), st[3] + (om - st[3]) * dt / T]
        out = c.or_(c.lt(F, y[0]), c.lt(F, y[1]), c.lt(y[0], 0), c.lt(y[1], 0))
        cr = crossed(st, y)
        yo = [clip(c, y[0], 0, F), clip(c, y[1], 0, F), y[2], y[3]]
        if not c.symbolic:
            return (yo, -100, True) if out else (y, 0, True) if cr else (y, -1, False) if k == 1 else after(y, k - 1)
        nx, nr, na = (y, -1, False) if k == 1 else after(y, k - 1)
        return ([c.ite(out, yo[j], c.ite(cr, y[j], nx[j])) for j in range(4)], c.ite(out, -100, c.ite(cr, 0, nr)),
                c.or_(out, cr, na))
    st, rw, fin = after(X0, n)
    for j in range(4):
        c.ensure('state', lambda: c.eq(c.at(s1, j), st[j]) if j != 2 else same_angle(c, c.at(s1, j), st[j]))
    c.ensure('reward', lambda: c.eq(r, rw))
    c.ensure('absorbing', lambda: c.and_(c.implies(ab_, lambda: fin), c.implies(fin, lambda: ab_)))
    for j in range(4):
        c.ensure_eq('given-state-untouched', lambda: c.at(X, j), X0[j])
    c.ensure_eq('action-untouched', lambda: c.at(A, 0), A0)
    if n == 1 or not c.symbolic:
        env.step(A)
        c.ensure('returned-state-stays', lambda: c.eq(c.at(s1, 0), st[0]))
