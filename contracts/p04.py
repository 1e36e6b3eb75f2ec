"""P04 - episode statistics of a dataset: lengths, initial states, returns, metrics, selection."""
from pydv.ctx import harness
from contracts import p03

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.rl_utils.spaces']
P = 'P04'
GAMMA = [None]
DS = 'mushroom_rl.core.dataset.Dataset.'


def ln(x):
    return x.n if hasattr(x, 'n') and hasattr(x, '_get') else len(x)


def el(x, i):
    if hasattr(x, '_get'):
        return x.get(i)
    return 0. if not len(x) else x[i]


def setup(c, backend, lo=1):
    d, m = c.size('d', 1), 1
    lib = 'torch' if backend == 'torch' else 'np'
    n = c.size('n', lo)
    GAMMA[0] = c.real('gamma', 0, 1)
    A = p03.arrays(c, n, 'A', d, m, False, lib)
    core = c.mod('mushroom_rl.core')
    ds = core.Dataset.from_array(*[A[f] for f in p03.FIELDS], backend=backend, gamma=GAMMA[0], horizon=50)
    last = lambda i: c.at(A['last'], i)
    cnt = c.rec('cnt', 0, lambda k, v: v + c.ite(last(k), 1, 0), 'int')          # episodes ended before step k
    start = c.rec('start', 0, lambda k, v: c.ite(last(k), k + 1, v), 'int')       # first step of the episode of step k
    return A, ds, n, d, last, cnt, start


def make(backend):
    @harness(P, 'episodes_length_' + backend)
    def lengths(c):
        A, ds, n, d, last, cnt, start = setup(c, backend)

        def inv(e, k):
            return [('count', c.eq(ln(e.lengths), cnt(k))),
                    ('running', c.eq(e.l, k - start(k))),
                    ('start', c.and_(c.le(0, start(k)), c.le(start(k), k))),
                    ('order', c.all(k, lambda i: c.implies(last(i), lambda: c.and_(c.le(0, cnt(i)), c.lt(cnt(i), cnt(k)))))),
                    ('lengths', c.all(k, lambda i: c.implies(last(i), lambda: c.eq(el(e.lengths, cnt(i)), i + 1 - start(i)))))]
        c.loop(DS + 'episodes_length#0', lambda L, e: dict(lengths=L.symlist('int'), l=L.int('l')), inv)
        out = ds.episodes_length
        c.ensure_eq('one-length-per-episode', lambda: out.shape[0], lambda: cnt(n))
        c.ensure_all('length', (n,), lambda i: c.implies(last(i), lambda: c.eq(c.at(out, cnt(i)), i + 1 - start(i))))

    @harness(P, 'initial_states_' + backend)
    def init(c):
        A, ds, n, d, last, cnt, start = setup(c, backend)
        first = lambda i: c.or_(c.eq(i, 0), last(i - 1)) if c.symbolic else (i == 0 or last(i - 1))

        def inv(e, k):
            pick = c.or_(c.eq(k, 0), last(k - 1)) if not isinstance(k, int) or k else True
            # episodes started before step k
            m = cnt(k) + c.ite(c.or_(c.eq(k, 0), lambda: last(k - 1)) if False else pick, 0, 1)
            return [('count', c.eq(ln(e.x_0), m)),
                    ('pick', c.eq(e.pick, pick)),
                    ('order', c.all(k, lambda i: c.and_(c.le(0, cnt(i)), c.le(cnt(i), cnt(k)),
                                                        c.implies(c.or_(last(i), pick), lambda: c.lt(cnt(i), cnt(k)))))),
                    ('states', c.all(k, lambda i: c.implies(first(i), lambda: c.all(d, lambda j: c.eq(
                        rowel(c, e.x_0, cnt(i), j), c.at(A['state'], i, j))))))]
        c.loop(DS + 'get_init_states#0', lambda L, e: dict(x_0=L.symlist('real', (d,)), pick=L.bool('pick')), inv)
        out = ds.get_init_states()
        c.ensure_eq('one-state-per-episode', lambda: out.shape[0], lambda: cnt(n - 1) + 1)
        c.ensure_all('initial-state', (n, d), lambda i, j: c.implies(first(i), lambda: c.eq(c.at(out, cnt(i), j), c.at(A['state'], i, j))))

    def returns(c, gamma, call):
        A, ds, n, d, last, cnt, start = setup(c, backend)
        g = gamma(c, ds)
        rew = lambda i: c.at(A['reward'], i)
        pw = (lambda e: g ** e) if not isinstance(g, float) or g != 1. else (lambda e: 1.)
        # discounted reward of the current episode collected before step k
        ret = c.rec('ret', 0., lambda k, v: c.ite(last(k), 0., v + pw(k - start(k)) * rew(k)))
        full = lambda i: ret(i) + pw(i - start(i)) * rew(i)

        def inv(e, k):
            end = c.and_(c.lt(0, k), c.eq(k, n))
            m = cnt(k) + c.ite(c.and_(end, c.not_(last(n - 1))), 1, 0)
            return [('count', c.eq(ln(e.js), m)),
                    ('running', c.or_(c.eq(k, n), c.and_(c.eq(e.j, ret(k)), c.eq(e.episode_steps, k - start(k))))),
                    ('order', c.all(k, lambda i: c.and_(c.le(0, cnt(i)), c.le(cnt(i), cnt(k)),
                                                        c.implies(last(i), lambda: c.lt(cnt(i), cnt(k)))))),
                    ('returns', c.all(k, lambda i: c.implies(c.or_(last(i), c.eq(i, n - 1)),
                                                             lambda: c.eq(el(e.js, cnt(i)), full(i)))))]
        c.loop(DS + 'compute_J#0', lambda L, e: dict(js=L.symlist('real'), j=L.real('j'), episode_steps=L.int('es')), inv)
        out = call(ds, g)
        c.ensure_eq('one-return-per-episode', lambda: out.shape[0], lambda: cnt(n - 1) + 1)
        c.ensure_all('return', (n,), lambda i: c.implies(c.or_(last(i), c.eq(i, n - 1)), lambda: c.eq(c.at(out, cnt(i)), full(i))))

    @harness(P, 'compute_J_' + backend)
    def comp_j(c):
        returns(c, lambda c, ds: c.real('g', 0, 1), lambda ds, g: ds.compute_J(g))

    @harness(P, 'undiscounted_' + backend)
    def undisc(c):
        returns(c, lambda c, ds: 1., lambda ds, g: ds.undiscounted_return)

    @harness(P, 'discounted_' + backend)
    def disc(c):
        returns(c, lambda c, ds: GAMMA[0], lambda ds, g: ds.discounted_return)

    @harness(P, 'n_episodes_' + backend)
    def nepis(c):
        core = c.mod('mushroom_rl.core')
        e = p03.empty(c, 1, 1, 5, backend, False, 1)
        c.ensure_eq('none-in-an-empty-dataset', lambda: c.at(e.n_episodes), 0)
        A, ds, n, d, last, cnt, start = setup(c, backend)
        k = ds.n_episodes
        c.ensure_eq('episodes', lambda: c.at(k), lambda: c.sum(n, lambda i: c.ite(last(i), 1, 0)) + c.ite(last(n - 1), 0, 1))

    @harness(P, 'metrics_' + backend)
    def metrics(c):
        core = c.mod('mushroom_rl.core')
        A, ds, n, d, last, cnt, start = setup(c, backend)
        g = c.real('g', 0, 1)
        calls = []
        m = c.size('completed', 1)
        J = c.array('J', (m,), lib='torch' if backend == 'torch' else 'np')

        def comp(self, gamma=1.):
            calls.append((type(self).__len__(self), gamma, self.last, self.reward))
            return J
        c.stub(core.Dataset, 'compute_J', comp)
        c.loop(DS + 'compute_metrics#0', lambda L, e: dict(i=c.ite(c.eq(L.k, 0), 0, n - L.k)),
               lambda e, k: [('i', c.eq(e.i, c.ite(c.eq(k, 0), 0, n - k)) if not isinstance(k, int) or k else True),
                             ('none', c.all(k, lambda q: c.not_(last(n - 1 - q))))])
        mn, mx, mean, med, cn = ds.compute_metrics(g)
        if calls:
            ln_, gm, la, rw = calls[0]
            c.ensure('gamma', c.eq(gm, g))
            c.ensure('nonempty-prefix', c.and_(c.lt(0, ln_), c.le(ln_, n)))
            c.ensure('ends-with-a-completed-episode', lambda: last(ln_ - 1))
            c.ensure_all('nothing-completed-after', (n,), lambda i: c.implies(c.le(ln_, i), lambda: c.not_(last(i))))
            c.ensure_all('prefix', (ln_,), lambda i: c.and_(c.eq(c.at(la, i), last(i)), c.eq(c.at(rw, i), c.at(A['reward'], i))))
            c.ensure_all('min-max', (m,), lambda i: c.and_(c.le(c.at(mn), c.at(J, i)), c.le(c.at(J, i), c.at(mx))))
            c.ensure('attained', lambda: c.and_(c.any(m, lambda i: c.eq(c.at(mn), c.at(J, i))), c.any(m, lambda i: c.eq(c.at(mx), c.at(J, i)))))
            c.ensure_eq('mean', lambda: c.at(mean), lambda: c.sum(m, lambda i: c.at(J, i)) / c.toreal(m))
            c.ensure('median', lambda: c.and_(c.le(c.at(mn), c.at(med)), c.le(c.at(med), c.at(mx))))
            if not c.symbolic:
                srt = sorted(float(x) for x in J)
                lo, hi = srt[(len(srt) - 1) // 2], srt[len(srt) // 2]
                c.ensure_eq('median-value', c.at(med), lo if backend == 'torch' else (lo + hi) / 2)
            c.ensure_eq('count', cn, m)
        else:
            c.ensure_all('no-completed-episode', (n,), lambda i: c.not_(last(i)))
            c.ensure('zeros', c.and_(*[c.eq(c.at(v), 0) for v in (mn, mx, mean, med, cn)]))

    @harness(P, 'first_episodes_' + backend)
    def firsts(c):
        A, ds, n, d, last, cnt, start = setup(c, backend)
        k = c.size('k', 1)
        c.assume(c.le(k, c.sum(n, lambda i: c.ite(last(i), 1, 0))))
        v = ds.select_first_episodes(k)
        m = p03.len_(c, v)
        c.ensure('within', lambda: c.and_(c.lt(0, m), c.le(m, n)))
        c.ensure('complete', lambda: last(m - 1))
        c.ensure_eq('number-of-episodes', lambda: c.sum(m, lambda i: c.ite(last(i), 1, 0)), k)
        p03.same(c, v, 'prefix', m, lambda f, i, *r: c.at(A[f], i, *r), p03.FIELDS)


def rowel(c, x, i, j):
    if hasattr(x, '_get'):
        return c.at(x.get(i), j)
    return c.at(x[i], j) if len(x) else 0.


for b in ('numpy', 'torch'):
    make(b)


@harness(P, 'list_backend')
def list_backend(c):
    """the same statistics for datasets stored as lists (up to 3 steps, any values)"""
    n = c.choice('n', [0, 1, 2, 3])
    ds, A = p03.list_ds(c, n, 'A', False)
    c.ensure_eq('no-episode' if not n else 'episodes', lambda: ds.n_episodes,
                lambda: c.sum(n, lambda i: c.ite(A[i][5], 1, 0)) + c.ite(A[-1][5], 0, 1) if n else 0)
    if not n:
        return
    g = c.real('g', 0, 1)
    first, J, lens, cur, t, new = [], [], [], 0., 0, True
    for k in range(n):
        if new:
            first.append(A[k][0])
        cur = cur + g ** t * A[k][2]
        t += 1
        new = bool(A[k][5])             # decided by the solver: one path for every pattern of episode ends
        if new:
            lens.append(t)
        if new or k == n - 1:
            J.append(cur)
            cur, t = 0., 0
    x0, j, ls = ds.get_init_states(), ds.compute_J(g), ds.episodes_length
    c.ensure('numbers', lambda: len(x0) == len(first) and len(j) == len(J) and len(ls) == len(lens))
    for k in range(len(first)):
        c.ensure('initial-state', lambda: p03.row_eq(c, [x0[k]], [first[k]]))
    for k in range(len(J)):
        c.ensure_eq('return', lambda: j[k], J[k])
    for k in range(len(lens)):
        c.ensure_eq('length', lambda: ls[k], lens[k])
