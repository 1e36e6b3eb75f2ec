"""P15 - running statistics and observation preprocessors."""
from pydv.ctx import harness

PRELOAD = ['mushroom_rl.rl_utils.running_stats', 'mushroom_rl.rl_utils.preprocessors', 'mushroom_rl.core', 'mushroom_rl.rl_utils.spaces']
P = 'P15'
INF = float('inf')


def el(c, a, *i):
    """element of a vector that may have been squeezed"""
    sh = getattr(a, 'shape', ())
    if len(sh) == len(i):
        return c.at(a, *i)
    if len(sh) == 0:
        return a if c.symbolic and not hasattr(a, 'at') else c.at(a)
    return c.at(a, *i[-len(sh):])


def need(o, *names):
    for n in names:
        if not hasattr(o, n):
            from pydv.core import Unsupported
            raise Unsupported('field ' + n + ' not found')


def rate(c, k, n, amin):
    if not c.symbolic:
        return max(k / n, amin)
    a = k / c.toreal(n)
    return c.ite(c.le(amin, a), a, amin)


def make(backend):
    lib = 'torch' if backend == 'torch' else 'np'

    def state(c, R, d, amin=1e-32):
        """arbitrary reachable statistics"""
        n0 = c.int('n0', 1)
        if not c.symbolic:
            k = n0 - 1
            m, s, n = [0.] * d, [1.] * d, 1
            for t in range(k):
                x = c.array(f'x{t}', (d,), lib=lib)
                R.update_stats(x)
                n += 1
                for j in range(d):
                    v = c.at(x, j)
                    nm = m[j] + (v - m[j]) * max(1 / n, amin)
                    s[j] += (v - m[j]) * (v - nm)
                    m[j] = nm
            return m, s, n
        need(R, '_n', '_m', '_s')
        m, s = c.array('m', (d,), lib=lib), c.array('s', (d,), lib=lib, lo=0)
        R._n, R._m, R._s = n0, c.copy(m), c.copy(s)
        return [c.at(m, j) for j in range(d)], [c.at(s, j) for j in range(d)], n0

    for d in (1, 2):
        def mk(d):
            @harness(P, f'standardization_{backend}_{d}d')
            def std(c):
                rs = c.mod('mushroom_rl.rl_utils.running_stats')
                amin = c.real('amin', .001, .5)
                R = rs.RunningStandardization((d,), backend, alpha=amin)
                for j in range(d):
                    c.ensure_eq('initial-mean', lambda: el(c, R.mean, j), 0.)
                    c.ensure_eq('initial-std', lambda: el(c, R.std, j), c.sqrt(1.) if c.symbolic else 1.)
                m, s, n = state(c, R, d, amin)
                b = c.choice('batch', [0, 1, 2, 3])      # 0: one unbatched value
                X = c.array('X', (d,) if b == 0 else (b, d), lib=lib)
                X0 = c.copy(X)
                R.update_stats(X)
                k = max(b, 1)
                al = rate(c, k, n + k, amin)
                for j in range(d):
                    mean = c.at(X0, j) if b == 0 else sum(c.at(X0, i, j) for i in range(k)) / k
                    nm = (1 - al) * m[j] + al * mean
                    c.ensure_eq('mean', lambda: el(c, R.mean, j), nm)
                    ns = s[j] + (mean - m[j]) * (mean - nm)
                    c.ensure_eq('std', lambda: el(c, R.std, j), c.sqrt(ns / c.toreal(n + k)))
                    c.ensure('input-untouched', lambda: c.eq(c.at(X, j), c.at(X0, j)) if b == 0 else
                             c.and_(*[c.eq(c.at(X, i, j), c.at(X0, i, j)) for i in range(k)]))
                R.reset()
                for j in range(d):
                    c.ensure_eq('reset-mean', lambda: el(c, R.mean, j), 0.)
                    c.ensure_eq('reset-std', lambda: el(c, R.std, j), c.sqrt(1.) if c.symbolic else 1.)

            @harness(P, f'exp_average_{backend}_{d}d')
            def ewa(c):
                rs = c.mod('mushroom_rl.rl_utils.running_stats')
                alpha = c.real('alpha', 0, 1)
                init = c.choice('init', [False, True])
                I = c.array('I', (d,), lib=lib) if init else None
                R = rs.RunningExpWeightedAverage((d,), alpha, backend, init_value=I)
                m = [c.at(I, j) if init else 0. for j in range(d)]
                for j in range(d):
                    c.ensure_eq('initial', lambda: el(c, R.mean, 0, j), m[j])
                b = c.choice('batch', [0, 1, 2])
                X = c.array('X', (d,) if b == 0 else (b, d), lib=lib)
                R.update_stats(X)
                for i in range(max(b, 1)):
                    m = [(1 - alpha) * m[j] + alpha * (c.at(X, j) if b == 0 else c.at(X, i, j)) for j in range(d)]
                for j in range(d):
                    c.ensure_eq('average', lambda: el(c, R.mean, 0, j), m[j])
                R.reset()
                for j in range(d):
                    c.ensure_eq('reset', lambda: el(c, R.mean, 0, j), 0.)

            @harness(P, f'window_{backend}_{d}d')
            def window(c):
                rs = c.mod('mushroom_rl.rl_utils.running_stats')
                w = c.choice('window', [1, 2, 3])
                init = c.choice('init', [False, True])
                I = c.array('I', (d,), lib=lib) if init else None
                R = rs.RunningAveragedWindow((d,), w, backend, init_value=I)
                h = [[c.at(I, j) if init else 0. for j in range(d)]]
                T = c.choice('T', [1, 2, 3, 4])
                for t in range(T):
                    X = c.array(f'X{t}', (d,), lib=lib)
                    R.update_stats(X)
                    h = (h + [[c.at(X, j) for j in range(d)]])[-w:]
                for j in range(d):
                    c.ensure_eq('mean-of-the-window', lambda: el(c, R.mean, j), sum(x[j] for x in h) / len(h))
        mk(d)

    @harness(P, f'standardization_preprocessor_{backend}')
    def stdpre(c):
        pp = c.mod('mushroom_rl.rl_utils.preprocessors')
        core, sp = c.mod('mushroom_rl.core'), c.mod('mushroom_rl.rl_utils.spaces')
        d = c.choice('d', [1, 2])
        clip = c.real('clip', 0.5, 20)
        info = core.MDPInfo(sp.Box(-1., 1., shape=(d,)), sp.Discrete(2), .9, 10)
        p = pp.StandardizationPreprocessor(info, backend, clip_obs=clip, alpha=.01)
        need(p, '_obs_runstand')
        m, s, n = state(c, p._obs_runstand, d, .01)
        for j in range(d):
            c.assume(c.lt(0, s[j]))
        X = c.array('X', (d,), lib=lib)
        X0 = c.copy(X)
        Y = p(X)
        for j in range(d):
            z = (c.at(X0, j) - m[j]) / c.sqrt(s[j] / c.toreal(n))
            c.ensure_eq('standardized-and-clipped', lambda: c.at(Y, j), c.ite(c.lt(z, -clip), -clip, c.ite(c.lt(clip, z), clip, z)))
            c.ensure('within-the-clip', lambda: c.and_(c.le(-clip, c.at(Y, j)), c.le(c.at(Y, j), clip)))
            c.ensure_eq('observation-untouched', lambda: c.at(X, j), c.at(X0, j))
            c.ensure_eq('statistics-untouched', lambda: el(c, p._obs_runstand.mean, j), m[j])
        p.update(X)
        al = rate(c, 1, n + 1, .01)
        for j in range(d):
            c.ensure_eq('update-feeds-the-statistics', lambda: el(c, p._obs_runstand.mean, j),
                        (1 - al) * m[j] + al * c.at(X0, j))

    @harness(P, f'minmax_preprocessor_{backend}')
    def minmax(c):
        pp = c.mod('mushroom_rl.rl_utils.preprocessors')
        core, sp = c.mod('mushroom_rl.core'), c.mod('mushroom_rl.rl_utils.spaces')
        d = c.choice('d', [1, 2, 3])
        bounded = c.choice('bounded', [[True] * d] + [[j != k for j in range(d)] for k in range(d) if d > 1]
                           + [[j == k for j in range(d)] for k in range(d) if d > 1])
        lo = [c.real(f'lo{j}', -50, 50) if bounded[j] else -INF for j in range(d)]
        hi = [c.real(f'hi{j}', -50, 50) if bounded[j] else INF for j in range(d)]
        for j in range(d):
            if bounded[j]:
                c.assume(c.lt(lo[j] + .01, hi[j]))
        clip = c.real('clip', 0.5, 20)
        info = core.MDPInfo(sp.Box(c.np.array(lo), c.np.array(hi)), sp.Discrete(2), .9, 10)
        p = pp.MinMaxPreprocessor(info, backend, clip_obs=clip)
        need(p, '_obs_runstand')
        m, s, n = state(c, p._obs_runstand, d)
        for j in range(d):
            c.assume(c.lt(0, s[j]))
        X = c.array('X', (d,), lib=lib)
        X0 = c.copy(X)
        Y = p(X)
        for j in range(d):
            if bounded[j]:
                c.ensure_eq('bounded-to-unit-range', lambda: c.at(Y, j) * (hi[j] - lo[j]), 2 * c.at(X0, j) - hi[j] - lo[j])
                c.ensure('in-range', lambda: c.implies(c.and_(c.le(lo[j], c.at(X0, j)), c.le(c.at(X0, j), hi[j])),
                                                       lambda: c.and_(c.le(-1, c.at(Y, j)), c.le(c.at(Y, j), 1))))
            else:
                z = (c.at(X0, j) - m[j]) / c.sqrt(s[j] / c.toreal(n))
                c.ensure_eq('unbounded-standardized', lambda: c.at(Y, j), c.ite(c.lt(z, -clip), -clip, c.ite(c.lt(clip, z), clip, z)))
            c.ensure_eq('observation-untouched', lambda: c.at(X, j), c.at(X0, j))


for _b in ('numpy', 'torch'):
    make(_b)


@harness(P, 'minmax_rejects_unbounded_space')
def rejects(c):
    pp = c.mod('mushroom_rl.rl_utils.preprocessors')
    core, sp = c.mod('mushroom_rl.core'), c.mod('mushroom_rl.rl_utils.spaces')
    d = c.choice('d', [1, 2])
    info = core.MDPInfo(sp.Box(c.np.array([-INF] * d), c.np.array([INF] * d)), sp.Discrete(2), .9, 10)
    c.ensure('rejected', c.raises(AssertionError, lambda: pp.MinMaxPreprocessor(info, 'numpy')))


def tok(c, v):
    a = c.np.zeros(1)
    a[0] = v
    return a


@harness(P, 'agent_preprocessors_in_order')
def agent_pre(c):
    """batch preprocessing of an agent: every preprocessor is updated once with what the ones before it made of the states, and applied in order"""
    core = c.mod('mushroom_rl.core')
    dac = c.mod('mushroom_rl.algorithms.actor_critic.deep_actor_critic.deep_actor_critic')
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    info = core.MDPInfo(sp.Box(-1., 1., shape=(1,)), sp.Box(-1., 1., shape=(1,)), .9, 5)
    fs = [c.func(f'f{k}', 2) for k in range(3)]

    class Pre:
        _pydv_ghost = True

        def __init__(self, k):
            self.k, self.seen = k, []

        def update(self, s):
            self.seen.append(c.at(s, 0))

        def __call__(self, s):
            return tok(c, fs[self.k](c.at(s, 0), len(self.seen)))
    n = c.choice('n', [0, 1, 2, 3])
    ag = dac.OnPolicyDeepAC(info, c.mod('mushroom_rl.policy').Policy())
    pres = [Pre(k) for k in range(n)]
    for p in pres:
        ag.add_agent_preprocessor(p)
    old = c.choice('old', [True, False])
    s, s2 = c.array('s', (1,)), c.array('s2', (1,))
    v, v2 = c.at(s, 0), c.at(s2, 0)
    r = ag._preprocess_state(s, s2, output_old=old)

    def through(x, upd, upto=n):
        for k in range(upto):
            x = fs[k](x, upd)
        return x
    c.ensure('results', len(r) == (3 if old else 2))
    c.ensure_eq('state', lambda: c.at(r[0], 0), through(v, 1))
    c.ensure_eq('next-state', lambda: c.at(r[1], 0), through(v2, 1))
    if old:
        c.ensure_eq('state-by-the-old-statistics', lambda: c.at(r[2], 0), through(v, 0))
    for k in range(n):
        c.ensure('updated-once', len(pres[k].seen) == 1)
        c.ensure_eq('updated-with-the-output-of-the-previous-one', lambda: pres[k].seen[0], through(v, 1, k))
    c.ensure_eq('states-untouched', lambda: c.at(s, 0), v)
