"""P13 - schedules and tables: values follow the documented law of the number of uses, per index."""
from pydv.ctx import harness

PRELOAD = ['mushroom_rl.rl_utils', 'mushroom_rl.approximators.table', 'mushroom_rl.core',
           'mushroom_rl.rl_utils.variance_parameters']
P = 'P13'


def par(c):
    return c.mod('mushroom_rl.rl_utils.parameters')


def clip(c, v, lo, hi):
    if lo is not None:
        v = c.ite(c.lt(v, lo), lo, v)
    if hi is not None:
        v = c.ite(c.lt(hi, v), hi, v)
    return v


def sized(c, make, law, name):
    """a parameter with one entry per (state, action); law(n) is its value after n uses"""
    nS, nA = c.size('nS', 1), c.size('nA', 2)
    p = make((nS, nA))
    n0 = c.array('uses', (nS, nA), 'int', lo=0, hi=30)
    p._n_updates.table[:] = n0
    s = c.array('s', (1,), 'int', lo=0, hi=nS - 1)
    a = c.array('a', (1,), 'int', lo=0, hi=nA - 1)
    S, A = c.at(s, 0), c.at(a, 0)
    g = p.get_value(s, a)
    c.ensure_eq(name + '-current', lambda: c.at(g), law(c.at(n0, S, A)))
    c.ensure_all(name + '-reading-is-pure', (nS, nA), lambda i, j: c.eq(c.at(p._n_updates.table, i, j), c.at(n0, i, j)))
    v = p(s, a)
    c.ensure_eq(name + '-after-use', lambda: c.at(v), law(c.at(n0, S, A) + 1))
    c.ensure_all(name + '-one-use', (nS, nA), lambda i, j: c.eq(
        c.at(p._n_updates.table, i, j),
        c.at(n0, i, j) + c.ite(c.and_(c.eq(i, S), c.eq(j, A)), 1, 0)))
    c.ensure_shape(name + '-shape', p._n_updates.table, (nS, nA))


@harness(P, 'constant')
def constant(c):
    v = c.real('v')
    sized(c, lambda sh: par(c).Parameter(v, size=sh), lambda n: v, 'constant')


@harness(P, 'constant_bounded')
def constant_b(c):
    v = c.real('v')
    lo, hi = c.real('lo'), c.real('hi')
    c.assume(c.le(lo, hi))
    both = c.choice('which', ['both', 'lo', 'hi'])
    kw = {'both': dict(min_value=lo, max_value=hi), 'lo': dict(min_value=lo), 'hi': dict(max_value=hi)}[both]
    sized(c, lambda sh: par(c).Parameter(v, size=sh, **kw),
          lambda n: clip(c, v, kw.get('min_value'), kw.get('max_value')), 'bounded')


@harness(P, 'linear')
def linear(c):
    v, th = c.real('v'), c.real('threshold')
    N = c.int('n', 1)

    def law(n):
        x = v + (th - v) / c.toreal(N) * c.toreal(n)
        up = c.le(v, th) if c.symbolic else v <= th
        return c.ite(c.le(c.toreal(N), c.toreal(n)), th, x)
    sized(c, lambda sh: par(c).LinearParameter(v, threshold_value=th, n=N, size=sh), law, 'linear')


@harness(P, 'decay')
def decay(c):
    v = c.real('v')
    e = c.choice('exp', [1., 2, 1])
    sized(c, lambda sh: par(c).DecayParameter(v, exp=e, size=sh),
          lambda n: v / (c.ite(c.lt(n, 1), 1., c.toreal(n)) if e != 2 else
                         c.ite(c.lt(n, 1), 1., c.toreal(n)) * c.ite(c.lt(n, 1), 1., c.toreal(n))), 'decay')


@harness(P, 'decay_bounded')
def decay_b(c):
    v, lo = c.real('v'), c.real('lo')
    sized(c, lambda sh: par(c).DecayParameter(v, min_value=lo, size=sh),
          lambda n: clip(c, v / c.ite(c.lt(n, 1), 1., c.toreal(n)), lo, None), 'decay')


@harness(P, 'scalar_parameter_ignores_index')
def scalar(c):
    v, th, N = c.real('v'), c.real('threshold'), c.int('n', 1)
    p = par(c).LinearParameter(v, threshold_value=th, n=N)
    n0 = c.int('uses', 0)
    p._n_updates.table[0] = n0
    s = c.array('s', (1,), 'int', lo=0)
    x = p(s)
    n = c.toreal(n0) + 1
    c.ensure_eq('value', lambda: c.at(x), c.ite(c.le(c.toreal(N), n), th, v + (th - v) / c.toreal(N) * n))
    c.ensure_eq('one-use', lambda: c.at(p._n_updates.table, 0), n0 + 1)
    c.ensure_eq('initial', lambda: p.initial_value, v)


@harness(P, 'to_parameter')
def to_par(c):
    v = c.real('v')
    p = par(c).to_parameter(v)
    c.ensure_eq('wraps', lambda: c.at(p.get_value()), v)
    c.ensure('idempotent', par(c).to_parameter(p) is p)


@harness(P, 'table_get_set')
def table(c):
    Table = c.mod('mushroom_rl.approximators.table').Table
    nS, nA = c.size('nS', 1), c.size('nA', 2)
    v0, v = c.real('v0'), c.real('v')
    t = Table((nS, nA), initial_value=v0)
    c.ensure_all('initial-value', (nS, nA), lambda i, j: c.eq(c.at(t.table, i, j), v0))
    T0 = c.array('T', (nS, nA))
    t.table[:] = T0
    s = c.array('s', (1,), 'int', lo=0, hi=nS - 1)
    a = c.array('a', (1,), 'int', lo=0, hi=nA - 1)
    S, A = c.at(s, 0), c.at(a, 0)
    g = t[s, a]
    c.ensure_eq('get', lambda: c.at(g), c.at(T0, S, A))
    t[s, a] = v
    c.ensure_all('set-one-entry', (nS, nA), lambda i, j: c.eq(
        c.at(t.table, i, j), c.ite(c.and_(c.eq(i, S), c.eq(j, A)), v, c.at(T0, i, j))))
    c.ensure_eq('n-actions', lambda: t.n_actions, nA)


@harness(P, 'table_predict')
def predict(c):
    Table = c.mod('mushroom_rl.approximators.table').Table
    nS, nA = c.size('nS', 1), c.size('nA', 2)
    t = Table((nS, nA))
    T0 = c.array('T', (nS, nA))
    t.table[:] = T0
    m = c.choice('batch', [2, 3])
    S = c.array('S', (m, 1), 'int', lo=0, hi=nS - 1)
    A = c.array('A', (m, 1), 'int', lo=0, hi=nA - 1)
    q = t.predict(S)
    c.ensure_shape('all-actions-shape', q, (m, nA))
    for k in range(m):
        c.ensure_all('all-actions', (nA,), lambda j: c.eq(c.at(q, k, j), c.at(T0, c.at(S, k, 0), j)))
    qa = t.predict(S, A)
    for k in range(m):
        c.ensure_eq('one-action', lambda: c.at(qa, k), c.at(T0, c.at(S, k, 0), c.at(A, k, 0)))
    q1 = t.predict(S[0])
    c.ensure_all('single-state', (nA,), lambda j: c.eq(c.at(q1, j), c.at(T0, c.at(S, 0, 0), j)))


def mk_variance(kind, exponential, one):
    @harness(P, f"variance_{kind}{'_exponential' if exponential else ''}{'_scalar' if one else ''}")
    def h(c):
        V = c.mod('mushroom_rl.rl_utils.variance_parameters')
        K = {'increasing': V.VarianceIncreasingParameter, 'decreasing': V.VarianceDecreasingParameter}[kind]
        nS, nA = (1, 1) if one else (c.size('nS', 1), c.size('nA', 2))
        sh = (1,) if one else (nS, nA)
        v, tol, lo = c.real('v', 0, 1), c.real('tol', lo=.1), c.real('lo', 0, 1)
        c.assume(c.lt(0, tol))
        bounded = c.choice('bounded', [False, True])
        p = K(v, exponential=exponential, tol=tol, size=sh, **(dict(min_value=lo) if bounded else {}))
        tabs = {}
        for k, (a, b) in dict(_n_updates=(0, 9), _x=(-2, 2), _x2=(0, 9), _weights_var=(0, 2), _parameter_value=(0, 1)).items():
            tabs[k] = c.array(k[1:], sh, 'int' if k == '_n_updates' else 'real', lo=a, hi=b)
            getattr(p, k).table[:] = tabs[k]
        s, a = c.array('s', (1,), 'int', lo=0, hi=nS - 1), c.array('a', (1,), 'int', lo=0, hi=nA - 1)
        S, A = c.at(s, 0), c.at(a, 0)
        I = (0,) if one else (S, A)
        o = {k: c.at(t, *I) for k, t in tabs.items()}
        c.assume(c.and_(c.le(o['_x'] * o['_x'], o['_x2']), c.le(0, o['_weights_var']), c.le(0, o['_n_updates'])))
        g = p.get_value(s, a)
        c.ensure_eq('current', lambda: c.at(g, *([0] if one and len(c.shape(g)) else [])) if hasattr(c, 'shape') else c.at(g), clip(c, o['_parameter_value'], lo if bounded else None, None))
        x, f = c.real('x', -3, 3), c.real('f', 0, 1)
        out = p(s, a, target=x, factor=f)
        n = c.toreal(o['_n_updates'])
        var = n * (o['_x2'] - o['_x'] * o['_x']) / c.ite(c.lt(n, 2), 1., n - 1)
        est = var * o['_weights_var']
        if exponential:
            e = c.exp(est * c.log(.5) / tol)
            new = 1 - e if kind == 'increasing' else e
        else:
            new = (est if kind == 'increasing' else tol) / (est + tol)
        val = c.ite(c.lt(n, 2), v, new)
        c.ensure_eq('value', lambda: c.at(out), clip(c, val, lo if bounded else None, None))
        want = dict(_n_updates=o['_n_updates'] + 1, _x=o['_x'] + (x - o['_x']) / (n + 1), _x2=o['_x2'] + (x * x - o['_x2']) / (n + 1),
                    _weights_var=(1 - f * val) * (1 - f * val) * o['_weights_var'] + f * val * f * val, _parameter_value=val)
        for k in tabs:
            t = getattr(p, k).table
            c.ensure_shape('one-entry-per-index', t, sh)
            c.ensure_eq('recursion' + k, lambda: c.at(t, *I), want[k])
            if not one:
                c.ensure_all('only-the-addressed-entry', (nS, nA), lambda i, j: c.or_(c.and_(c.eq(i, S), c.eq(j, A)), c.eq(c.at(t, i, j), c.at(tabs[k], i, j))))
    return h


for _k in ('increasing', 'decreasing'):
    for _e in (False, True):
        mk_variance(_k, _e, False)
mk_variance('increasing', False, True)


def mk_window(sh):
    @harness(P, 'windowed_variance_' + 'x'.join(map(str, sh)))
    def h(c):
        V = c.mod('mushroom_rl.rl_utils.variance_parameters')
        W = c.choice('window', [2, 3])
        n = c.choice('uses', [0, 1, 2, 3, 4])
        v, tol, x, f = c.real('v', 0, 1), c.real('tol', .1, 3), c.real('x', -3, 3), c.real('f', 0, 1)
        c.assume(c.lt(0, tol))
        p = V.WindowedVarianceIncreasingParameter(v, tol=tol, window=W, size=sh)
        I = (1,) * len(sh) if sh != (1,) else (0,)
        sam, w = c.array('samples', sh + (W,), lo=-3, hi=3), c.array('w', sh, lo=0, hi=1)
        p._samples.table[:] = sam
        p._weights_var.table[:] = w
        p._n_updates.table[I] = n
        p._index.table[I] = n % W
        c.assume(c.le(0, c.at(w, *I)))
        k = min(n, W)
        idx = tuple(c.np.array([i]) if hasattr(c, 'np') else i for i in I)
        out = p(*idx, target=x, factor=f)
        xs = [c.at(sam, *I, i) for i in range(k)]
        if k >= 2:
            m = sum(xs) / k
            est = sum((y - m) * (y - m) for y in xs) / k * c.at(w, *I)
            val = est / (est + tol)
        else:
            val = v
        c.ensure_eq('value', lambda: c.at(out), val)
        for i in range(W):
            c.ensure_eq('newest-replaces-oldest', lambda: c.at(p._samples.table, *I, i), x if i == n % W else c.at(sam, *I, i))
        c.ensure('next-slot', int(c.at(p._index.table, *I)) == (n + 1) % W)
        c.ensure('one-use', int(c.at(p._n_updates.table, *I)) == n + 1)
        c.ensure_eq('weight-of-the-variance', lambda: c.at(p._weights_var.table, *I), (1 - f * val) * (1 - f * val) * c.at(w, *I) + f * val * f * val)
        if sh != (1,):
            Z = (0,) * len(sh)
            for i in range(W):
                c.ensure_eq('other-entries-stay', lambda: c.at(p._samples.table, *Z, i), c.at(sam, *Z, i))
            c.ensure('other-counters-stay', int(c.at(p._n_updates.table, *Z)) == 0 and int(c.at(p._index.table, *Z)) == 0)
    return h


for _s in ((1,), (2,), (2, 2)):
    mk_window(_s)
