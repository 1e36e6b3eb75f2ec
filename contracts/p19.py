"""P19 - finite MDPs, grid worlds and their generators."""
import os

from pydv.ctx import harness
from .common import unsup

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.environments.finite_mdp', 'mushroom_rl.environments.grid_world',
           'mushroom_rl.environments.generators.simple_chain', 'mushroom_rl.environments.generators.grid_world',
           'mushroom_rl.environments.generators.taxi']
P = 'P19'


# ------------------------------------------------------------------ FiniteMDP
def tables(c, nS, nA, gaps=False):
    """transition and reward tables; state z (if any) has no way out, every other row is a distribution"""
    R = c.array('R', (nS, nA, nS))
    if c.symbolic:
        Q = c.array('Q', (nS, nA, nS), lo=0)
        return Q, R
    import numpy
    Q = c.array('Q', (nS, nA, nS), lo=0, hi=1)
    Q = Q * (c.array('K', (nS, nA, nS), lo=0, hi=1) > .5)
    dead = c.array('D', (nS,), lo=0, hi=1) > .6
    gone = c.array('G', (nS, nA), lo=0, hi=1) > .6 if gaps else numpy.zeros((nS, nA), bool)   # actions not available there
    for s in range(nS):
        for a in range(nA):
            if dead[s] or gone[s, a]:
                Q[s, a] = 0
            else:
                if Q[s, a].sum() == 0:
                    Q[s, a, (s + a) % nS] = 1.
                Q[s, a] /= Q[s, a].sum()
    return Q, R


@harness(P, 'finite_mdp')
def finite_mdp(c):
    M = c.mod('mushroom_rl.environments.finite_mdp')
    nS, nA = c.size('nS', 1), c.size('nA', 1)
    Q, R = tables(c, nS, nA, True)
    gm, hor = c.real('gamma', 0, 1), c.size('hor', 1)
    env = M.FiniteMDP(Q, R, None, gm, hor)
    c.ensure('declared', lambda: c.and_(c.eq(env.info.gamma, gm), c.eq(env.info.horizon, hor), c.eq(env.info.observation_space.n, nS),
                                        c.eq(env.info.action_space.n, nA)))
    s, _ = env.reset()
    c.ensure('random-start', lambda: c.and_(c.le(0, c.at(s, 0)), c.lt(c.at(s, 0), nS)))
    k, a = c.int('k', 0), c.int('a', 0)
    c.assume(c.lt(k, nS))
    c.assume(c.lt(a, nA))
    if c.symbolic:
        S, A = c.tabulate((1,), lambda i: k, kind='int'), c.tabulate((1,), lambda i: a, kind='int')
    else:
        import numpy
        S, A = numpy.array([k]), numpy.array([a])
        c.assume(Q[k, a].any())
    s, _ = env.reset(S)
    c.ensure('given-start', lambda: c.eq(c.at(s, 0), k))
    s1, r, ab, _ = env.step(A)
    n = c.at(s1, 0)
    c.ensure('a-state', lambda: c.and_(c.le(0, n), c.lt(n, nS)))
    c.ensure('possible', lambda: c.lt(0, c.at(Q, k, a, n)))
    c.ensure('reward-of-the-transition', lambda: c.eq(r, c.at(R, k, a, n)))
    if c.symbolic:
        b, m = c.int('b', 0), c.int('m', 0)
        c.assume(c.and_(c.lt(b, nA), c.lt(m, nS)))
        c.ensure('absorbing-has-no-way-out', lambda: c.implies(ab, lambda: c.eq(c.at(Q, n, b, m), 0.)))
        c.ensure('a-way-out-is-not-absorbing', lambda: c.implies(c.lt(0, c.at(Q, n, b, m)), lambda: c.not_(ab)))
    else:
        c.ensure('absorbing', lambda: bool(ab) == (not Q[n].any()))
    c.ensure('given-state-untouched', lambda: c.eq(c.at(S, 0), k))
    s2, r2, ab2, _ = env.step(A) if c.symbolic or Q[n, a].any() else (None,) * 4
    if s2 is not None:
        c.ensure('continues', lambda: c.and_(c.lt(0, c.at(Q, n, a, c.at(s2, 0))), c.eq(r2, c.at(R, n, a, c.at(s2, 0)))))
    c.ensure('returned-state-stays', lambda: c.eq(c.at(s1, 0), n))


@harness(P, 'finite_mdp_distributions')
def finite_mdp_distr(c):
    """the sampling follows the row of the table and the initial distribution"""
    M = c.mod('mushroom_rl.environments.finite_mdp')
    if c.symbolic:
        nS, nA = c.size('nS', 1), c.size('nA', 1)
        Q, R = tables(c, nS, nA)
        mu = c.array('mu', (nS,), lo=0)
        got, draws = [], []

        def choice(n, size=None, replace=True, p=None):
            if size is not None:
                unsup(c, 'choice with size')
            got.append((n, p))
            d = c.int(f'd{len(got)}', 0)
            c.assume(c.lt(d, n))
            draws.append(d)
            return d
        if not hasattr(M, 'np'):
            unsup(c, 'np')
        c.stub(M.np.random, 'choice', choice)
        env = M.FiniteMDP(Q, R, mu)
        s, _ = env.reset()
        k = c.at(s, 0)
        if len(got) != 1 or got[0][1] is None:
            unsup(c, 'not drawn by choice')
        c.ensure('every-state-can-start', lambda: c.eq(got[0][0], nS))
        c.ensure_all('initial-distribution', (nS,), lambda i: c.eq(c.at(got[0][1], i), c.at(mu, i)))
        a = c.int('a', 0)
        c.assume(c.lt(a, nA))
        s1, _, _, _ = env.step(c.tabulate((1,), lambda i: a, kind='int'))
        if len(got) != 2 or got[1][1] is None:
            unsup(c, 'not drawn by choice')
        c.ensure('every-state-can-follow', lambda: c.eq(got[1][0], nS))
        c.ensure_all('transition-distribution', (nS,), lambda i: c.eq(c.at(got[1][1], i), c.at(Q, k, a, i)))
        c.ensure('the-draw-is-the-state', lambda: c.and_(c.eq(k, draws[0]), c.eq(c.at(s1, 0), draws[1])))
        return
    import numpy
    nS, nA = c.size('nS', 1), c.size('nA', 1)
    Q, R = tables(c, nS, nA)
    mu = c.array('mu', (nS,), lo=0, hi=1) + 1e-3
    mu = mu / mu.sum()
    env = M.FiniteMDP(Q, R, mu)
    N = 1500
    f = numpy.zeros(nS)
    for _ in range(N):
        f[env.reset()[0][0]] += 1
    c.ensure('initial-distribution', lambda: numpy.abs(f / N - mu).max() < .12)
    k, a = c.int('k', 0), c.int('a', 0)
    c.assume(k < nS and a < nA and Q[k, a].any())
    f = numpy.zeros(nS)
    for _ in range(N):
        env.reset(numpy.array([k]))
        f[env.step(numpy.array([a]))[0][0]] += 1
    c.ensure('transition-distribution', lambda: numpy.abs(f / N - Q[k, a]).max() < .12)


# ------------------------------------------------------------------ grid worlds
def move(c, r, k, a, h, w):
    up, dn, lf, rt = (c.eq(a, j) for j in range(4))
    if not c.symbolic:
        return ((r - 1 if r > 0 else r) if up else (r + 1 if r + 1 < h else r) if dn else r,
                (k - 1 if k > 0 else k) if lf else (k + 1 if k + 1 < w else k) if rt else k)
    return (c.ite(c.and_(up, c.lt(0, r)), r - 1, c.ite(c.and_(dn, c.lt(r + 1, h)), r + 1, r)),
            c.ite(c.and_(lf, c.lt(0, k)), k - 1, c.ite(c.and_(rt, c.lt(k + 1, w)), k + 1, k)))


class View:
    _pydv_ghost = True

    def __init__(self, *a, **k):
        self.squares, self.circles = [], []

    def line(self, *a, **k): pass
    def square(self, center, *a, **k): self.squares.append(center)
    def circle(self, center, *a, **k): self.circles.append(center)
    def get_frame(self): return 'frame'
    def display(self, *a): pass
    def close(self): pass


def mk_grid(kind):
    @harness(P, 'grid_' + kind)
    def grid(c):
        M = c.mod('mushroom_rl.environments.grid_world')
        if not hasattr(M, 'Viewer'):
            unsup(c, 'Viewer')
        c.stub(M, 'Viewer', View)
        h, w = c.size('h', 1), c.size('w', 1)
        g = (c.int('gr', 0), c.int('gc', 0))
        b = (c.int('sr', 0), c.int('sc', 0))
        for x in (g, b):
            c.assume(c.and_(c.lt(x[0], h), c.lt(x[1], w)))
        c.assume(c.not_(c.and_(c.eq(g[0], b[0]), c.eq(g[1], b[1]))))
        env = (M.GridWorld if kind == 'standard' else M.GridWorldVanHasselt)(h, w, goal=g, start=b)
        c.ensure('declared', lambda: c.and_(c.eq(env.info.observation_space.n, h * w), c.eq(env.info.action_space.n, 4)))
        s, _ = env.reset()
        c.ensure('start', lambda: c.eq(c.at(s, 0), b[0] * w + b[1]))
        r, k = c.int('r', 0), c.int('k', 0)
        c.assume(c.and_(c.lt(r, h), c.lt(k, w)))
        mkv = (lambda v: c.tabulate((1,), lambda i: v, kind='int')) if c.symbolic else (lambda v: __import__('numpy').array([v]))
        S = mkv(r * w + k)
        s, _ = env.reset(S)
        c.ensure('given-start', lambda: c.eq(c.at(s, 0), r * w + k))
        a = c.int('a', 0)
        c.assume(c.lt(a, 4))
        s1, rew, ab, _ = env.step(mkv(a))
        nr, nk = move(c, r, k, a, h, w)
        if kind == 'standard':
            c.ensure('next-cell', lambda: c.eq(c.at(s1, 0), nr * w + nk))
            at = c.and_(c.eq(nr, g[0]), c.eq(nk, g[1]))
            c.ensure('goal', lambda: c.implies(at, lambda: c.and_(c.eq(rew, 10), ab)))
            c.ensure('elsewhere', lambda: c.implies(c.not_(at), lambda: c.and_(c.eq(rew, 0), c.not_(ab))))
        else:
            at = c.and_(c.eq(r, g[0]), c.eq(k, g[1]))
            c.ensure('leaving-the-goal', lambda: c.implies(at, lambda: c.and_(c.eq(rew, 5), ab, c.eq(c.at(s1, 0), r * w + k))))
            c.ensure('elsewhere', lambda: c.implies(c.not_(at), lambda: c.and_(c.or_(c.eq(rew, -12), c.eq(rew, 10)), c.not_(ab),
                                                                               c.eq(c.at(s1, 0), nr * w + nk))))
        c.ensure('inside', lambda: c.and_(c.le(0, nr), c.lt(nr, h), c.le(0, nk), c.lt(nk, w)))
        c.ensure('given-state-untouched', lambda: c.eq(c.at(S, 0), r * w + k))

    @harness(P, 'grid_render_' + kind)
    def render(c):
        M = c.mod('mushroom_rl.environments.grid_world')
        if not hasattr(M, 'Viewer'):
            unsup(c, 'Viewer')
        views = []
        c.stub(M, 'Viewer', lambda *a, **k: views.append(View()) or views[-1])
        h, w = c.choice('h', [2, 3]), c.choice('w', [2, 4])
        g, b = (c.int('gr', 0), c.int('gc', 0)), (c.int('sr', 0), c.int('sc', 0))
        for x in (g, b):
            c.assume(c.and_(c.lt(x[0], h), c.lt(x[1], w)))
        c.assume(c.not_(c.and_(c.eq(g[0], b[0]), c.eq(g[1], b[1]))))
        env = (M.GridWorld if kind == 'standard' else M.GridWorldVanHasselt)(h, w, goal=g, start=b)
        env.reset()
        f = env.render(record=True)
        v = views[-1]
        if len(v.squares) != 2 or len(v.circles) != 1:
            unsup(c, 'drawing')
        cen = lambda x: (.5 + x[1], h - (.5 + x[0]))
        for nm, got, want in (('goal', v.squares[0], cen(g)), ('start', v.squares[1], cen(b)), ('agent', v.circles[0], cen(b))):
            c.ensure('drawn-' + nm, lambda: c.and_(c.eq(c.at(got, 0), want[0]), c.eq(c.at(got, 1), want[1])))
        c.ensure('frame', lambda: f == 'frame')


for _k in ('standard', 'van_hasselt'):
    mk_grid(_k)


# ------------------------------------------------------------------ generators
CH = 'mushroom_rl.environments.generators.simple_chain'


def chain_p(c, n, pr, i, a, j):
    """probability of going from i to j with action a (0: up the chain, 1: down)"""
    if a == 0:
        end, nxt = c.eq(i, n - 1), i + 1
    else:
        end, nxt = c.eq(i, 0), i - 1
    return c.ite(end, c.ite(c.eq(j, i), 1., 0.), c.ite(c.eq(j, i), 1. - pr, c.ite(c.eq(j, nxt), pr, 0.)))


@harness(P, 'simple_chain')
def chain(c):
    M = c.mod(CH)
    n, pr, rw = c.size('n', 1), c.real('prob', 0, 1), c.real('rew')
    gs = [c.int(f'g{i}', 0) for i in range(c.choice('goals', [1, 2]))]
    for g in gs:
        c.assume(c.lt(g, n))
    given = c.choice('given', [False, True])
    mu = c.array('mu', (n,), lo=0) if given else None
    gm, hor = c.real('gamma', 0, 1), c.size('hor', 1)

    def havoc(L, e):
        if not hasattr(e, 'p'):
            unsup(c, 'table not found')
        L.havoc_array(e.p)

    def inv(e, k):
        i, j = c.int('ii', 0), c.int('jj', 0)
        return [('rows', c.all(k, lambda i: c.all(n, lambda j: c.and_(*[c.eq(c.at(e.p, i, a, j), chain_p(c, n, pr, i, a, j)) for a in (0, 1)])))),
                ('rest', c.all(n, lambda i: c.implies(c.le(k, i), lambda: c.all(n, lambda j: c.and_(
                    *[c.eq(c.at(e.p, i, a, j), 0.) for a in (0, 1)])))))]
    c.loop(CH + '.compute_probabilities#0', havoc, inv)
    env = M.generate_simple_chain(n, gs, pr, rw, mu, gm, hor)
    c.ensure('declared', lambda: c.and_(c.eq(env.info.gamma, gm), c.eq(env.info.horizon, hor), c.eq(env.info.observation_space.n, n),
                                        c.eq(env.info.action_space.n, 2)))
    c.ensure_shape('table-shape', env.p, (n, 2, n))
    c.ensure_shape('reward-shape', env.r, (n, 2, n))
    for a in (0, 1):
        c.ensure_all(f'transitions-{a}', (n, n), lambda i, j: c.eq(c.at(env.p, i, a, j), chain_p(c, n, pr, i, a, j)))
        c.ensure_all(f'rewards-{a}', (n, n), lambda i, j: c.eq(c.at(env.r, i, a, j), c.ite(
            c.and_(c.or_(*[c.eq(j, g) for g in gs]), c.eq(j, i + 1 if a == 0 else i - 1)), rw, 0.)))
    if given:
        c.ensure_all('initial', (n,), lambda i: c.eq(c.at(env.mu, i), c.at(mu, i)))
    else:
        c.ensure('no-initial', lambda: env.mu is None)


DIRS = [(-1, 0), (1, 0), (0, -1), (0, 1)]


def on_disk(text, f):
    import tempfile
    d = tempfile.mkdtemp(prefix='pydv')
    path = os.path.join(d, 'grid.txt')
    try:
        with open(path, 'w') as h:
            h.write(text)
        return f(path)
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)


GRIDS = ['SG', 'S\nG', 'S.#\n*.G', '.S.\n.#G\nS.*', '####\n#SG#\n####', 'S..\nG.*', 'GS\n#S\n*G']
TAXIS = ['SFG', 'S.F\n.#G', '.F.\nS#G\nF..', 'SG\nF.', '#S#\nFGF']


def draw_grid(c, grids, marks):
    if c.symbolic or c.bool('fixed'):
        return grids[c.choice('grid', list(range(len(grids))))].split('\n')
    h, w = c.choice('h', [1, 2, 3, 4]), c.choice('w', [1, 2, 3, 4])
    g = [[marks[c.choice(f'm{i}{j}', list(range(len(marks))))] for j in range(w)] for i in range(h)]
    t = ''.join(map(''.join, g))
    c.assume('S' in t and 'G' in t and ('F' in t or 'F' not in marks) and t.count('F') < 3)
    return [''.join(r) for r in g]


@harness(P, 'generated_grid')
def generated_grid(c):
    M = c.mod('mushroom_rl.environments.generators.grid_world')
    g = draw_grid(c, GRIDS, '.SG*#.')
    end = c.choice('newline', ['\n', ''])
    pr, pos, neg = c.real('prob', 0, 1), c.real('pos'), c.real('neg')
    gm = c.real('gamma', 0, 1)
    env = on_disk('\n'.join(g) + end, lambda f: M.generate_grid_world(f, pr, pos, neg, gm, 77))
    cells = [(i, j) for i in range(len(g)) for j in range(len(g[i])) if g[i][j] != '#']
    ix = {x: i for i, x in enumerate(cells)}
    starts = [x for x in cells if g[x[0]][x[1]] == 'S']
    n = len(cells)
    c.ensure('declared', lambda: c.and_(c.eq(env.info.gamma, gm), env.info.horizon == 77))
    c.ensure_shape('table-shape', env.p, (n, 4, n))
    for x in cells:
        i, m = ix[x], g[x[0]][x[1]]
        c.ensure_eq('start-distribution', lambda: c.at(env.mu, i), 1. / len(starts) if m == 'S' else 0.)
        for a, d in enumerate(DIRS):
            y = (x[0] + d[0], x[1] + d[1])
            y = y if y in ix else x
            for z in cells:
                j = ix[z]
                want = 0.
                if m in '.S':
                    want = (pr if z == y else 0.) + ((1. - pr) if z == x else 0.)
                c.ensure_eq('transition', lambda: c.at(env.p, i, a, j), want)
                if m in '.S' and (z == y or z == x):
                    mz = g[z[0]][z[1]]
                    c.ensure_eq('reward', lambda: c.at(env.r, i, a, j), pos if mz == 'G' else neg if mz == '*' else 0.)


@harness(P, 'generated_taxi')
def generated_taxi(c):
    import itertools
    M = c.mod('mushroom_rl.environments.generators.taxi')
    g = draw_grid(c, TAXIS, '.SGF#..')
    end = c.choice('newline', ['\n', ''])
    pr = c.real('prob', 0, 1)
    cells = [(i, j) for i in range(len(g)) for j in range(len(g[i])) if g[i][j] != '#']
    ix = {x: i for i, x in enumerate(cells)}
    ps = [x for x in cells if g[x[0]][x[1]] == 'F']
    rw = [c.real(f'rew{i}') for i in range(len(ps) + 1)]
    env = on_disk('\n'.join(g) + end, lambda f: M.generate_taxi(f, pr, tuple(rw), .9, 77))
    subs = list(itertools.product((0, 1), repeat=len(ps)))
    starts = [x for x in cells if g[x[0]][x[1]] == 'S']
    N = len(cells)
    c.ensure_shape('table-shape', env.p, (N * len(subs), 4, N * len(subs)))
    for q, sub in enumerate(subs):
        have = {p for p, b in zip(ps, sub) if b}
        for x in cells:
            i, m = ix[x] + N * q, g[x[0]][x[1]]
            c.ensure_eq('start-distribution', lambda: c.at(env.mu, i), 1. / len(starts) if m == 'S' and q == 0 else 0.)
            dead = m == 'G' or (m == 'F' and x not in have)

            def to(d):
                y = (x[0] + d[0], x[1] + d[1])
                if y not in ix:
                    return i
                if y in ps and y not in have:
                    return ix[y] + N * subs.index(tuple(1 if p == y else b for p, b in zip(ps, sub)))
                return ix[y] + N * q
            for a, d in enumerate(DIRS):
                want = {}
                if not dead:
                    want[to(d)] = pr
                    for e in ((1 - abs(d[0]), 1 - abs(d[1])), (abs(d[0]) - 1, abs(d[1]) - 1)):
                        want[to(e)] = want.get(to(e), 0.) + (1. - pr) * .5
                for j in range(N * len(subs)):
                    c.ensure_eq('transition', lambda: c.at(env.p, i, a, j), want.get(j, 0.))
                for j in want:
                    z = cells[j % N]
                    c.ensure_eq('reward', lambda: c.at(env.r, i, a, j), rw[len(have)] if g[z[0]][z[1]] == 'G' else 0.)
