"""P30 - collectors, loggers and the environment registry report and build exactly what they were given."""
from pydv.ctx import harness
from contracts import p03, p05
from .common import unsup

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.core.logger', 'mushroom_rl.utils.callbacks', 'mushroom_rl.rl_utils.spaces',
           'mushroom_rl.rl_utils.parameters', 'mushroom_rl.approximators.ensemble_table',
           'mushroom_rl.utils.numerical_gradient']
P = 'P30'


# ------------------------------------------------------------------ a folder
def beyond(what):
    from pydv.core import Unsupported
    raise Unsupported(what)


class GPath:
    """a file of a folder kept in memory (symbolic mode)"""
    _pydv_ghost = True

    def __init__(self, folder, name):
        self.folder, self.name = folder, name
        i = name.rfind('.')
        self.stem, self.suffix = (name, '') if i < 0 else (name[:i], name[i:])

    def is_file(self):
        return True

    def exists(self):
        return self.name in self.folder.files

    def __str__(self):
        return self.name

    def __fspath__(self):
        return beyond('file access')

    def __getattr__(self, n):
        return beyond('path operation ' + n)


class Folder:
    _pydv_ghost = True

    def __init__(self):
        self.files = {}

    def __truediv__(self, name):
        return GPath(self, name)

    def iterdir(self):
        return [GPath(self, n) for n in list(self.files)]

    def glob(self, pattern):
        if pattern[0] != '*':
            return []
        return [GPath(self, n) for n in list(self.files) if n.endswith(pattern[1:])]

    def __fspath__(self):
        return beyond('file access')

    def __getattr__(self, n):
        return beyond('path operation ' + n)


class Disk:
    """the folder results are logged to: in memory when symbolic, a scratch folder that is removed otherwise"""
    _pydv_ghost = True

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        c = self.c
        if c.symbolic:
            self.dir = Folder()
            nm = lambda f: f if isinstance(f, str) else f.name
            c.stub(c.np, 'save', lambda f, a, **_: self.dir.files.__setitem__(nm(f), c.np.array(a)))
            c.stub(c.np, 'load', lambda f, **_: self.dir.files[nm(f)])
        else:
            import pathlib
            import tempfile
            self.dir = pathlib.Path(tempfile.mkdtemp(prefix='pydv'))
        return self

    def __exit__(self, *a):
        if not self.c.symbolic:
            import shutil
            shutil.rmtree(self.dir, ignore_errors=True)

    def names(self):
        return sorted(self.dir.files) if self.c.symbolic else sorted(p.name for p in self.dir.iterdir())

    def read(self, name):
        if self.c.symbolic:
            return self.dir.files.get(name)
        import numpy
        return numpy.load(self.dir / name) if (self.dir / name).exists() else None


def holds(c, tag, disk, name, values):
    a = disk.read(name)
    c.ensure(tag + '-file', a is not None)
    if a is None:
        return
    c.ensure_shape(tag + '-count', a, (len(values),))
    for k, v in enumerate(values):
        c.ensure_eq(tag, lambda: c.at(a, k), v)


@harness(P, 'logged_values')
def logged(c):
    """two loggers write to one folder, in any interleaving; a third continues one of them"""
    DL = c.mod('mushroom_rl.core.logger.data_logger').DataLogger
    with Disk(c) as disk:
        sfx = c.choice('suffixes', [('', '-1'), ('-1', '-2'), ('-1', '-11'), ('-12', '-2'), ('_a', '_b'), ('', '_b')])
        L = [DL(disk.dir, suffix=s) for s in sfx]
        want = [dict(), dict()]
        for k in range(c.choice('reports', [0, 1, 3])):
            i = c.choice(f'who{k}', [0, 1])
            J = c.real(f'J{k}')
            both = c.choice(f'both{k}', [False, True])
            kw = dict(J=J, loss=c.real(f'l{k}')) if both else dict(J=J)
            L[i].log_numpy(**kw)
            for n, v in kw.items():
                want[i].setdefault(n, []).append(v)
        files = sorted(n + sfx[i] + '.npy' for i in (0, 1) for n in want[i])
        c.ensure('one-file-per-quantity', lambda: disk.names() == files)
        for i in (0, 1):
            for n, vs in want[i].items():
                holds(c, 'every-report-in-order', disk, n + sfx[i] + '.npy', vs)
        w = c.choice('continued', [0, 1])
        app = c.choice('append', [True, False])
        more = DL(disk.dir, suffix=sfx[w], append=app)
        for n in want[0]:
            holds(c, 'opening-changes-nothing', disk, n + sfx[0] + '.npy', want[0][n])
        x = c.real('x')
        more.log_numpy(J=x)
        want[w]['J'] = (want[w].get('J', []) if app else []) + [x]
        for i in (0, 1):
            for n, vs in want[i].items():
                holds(c, 'appended' if app else 'overwritten', disk, n + sfx[i] + '.npy', vs)
        c.ensure('path', lambda: more.path == disk.dir)


@harness(P, 'logged_arrays')
def logged_arrays(c):
    DL = c.mod('mushroom_rl.core.logger.data_logger').DataLogger
    with Disk(c) as disk:
        lg = DL(disk.dir, suffix=c.choice('suffix', ['', '-3']))
        n = c.size('n', 1)
        a, b = c.array('a', (n, 2)), c.array('b', (n,))
        lg.log_numpy_array(a=b, b=b)
        lg.log_numpy_array(a=a)
        s = [x for x in disk.names() if x.startswith('a')]
        c.ensure('one-file-per-array', lambda: len(disk.names()) == 2 and len(s) == 1)
        g = disk.read(s[0])
        c.ensure_shape('shape', g, (n, 2))
        c.ensure_all('array', (n, 2), lambda i, j: c.eq(c.at(g, i, j), c.at(a, i, j)))


@harness(P, 'logged_agents')
def logged_agents(c):
    DL = c.mod('mushroom_rl.core.logger.data_logger').DataLogger
    saved = []

    class Agent:
        _pydv_ghost = True

        def save(self, path, full_save=False):
            saved.append((str(path).replace('\\', '/').split('/')[-1], full_save))
    with Disk(c) as disk:
        sfx = c.choice('suffix', ['', '-3'])
        lg = DL(disk.dir, suffix=sfx)
        best = None
        for k in range(c.choice('epochs', [1, 2, 3])):
            J, full = c.real(f'J{k}'), c.choice(f'full{k}', [False, True])
            del saved[:]
            lg.log_best_agent(Agent(), J, full_save=full)
            better = best is None or bool(c.lt(best, J))
            if best is None or bool(c.not_(c.eq(best, J))):     # of equally good agents either may be kept
                c.ensure('best-agent-is-kept', lambda: saved == ([(f'agent{sfx}-best.msh', full)] if better else []))
            best = J if better else best
        del saved[:]
        ep, full = c.choice('epoch', [None, 0, 7]), c.choice('full', [False, True])
        lg.log_agent(Agent(), epoch=ep, full_save=full)
        c.ensure('agent-of-the-epoch', lambda: saved == [(f'agent{sfx}' + ('' if ep is None else f'-{ep}') + '.msh', full)])


# ------------------------------------------------------------------ collectors
def mk_collect(backend):
    @harness(P, 'collect_dataset_' + backend)
    def collect(c):
        core = c.mod('mushroom_rl.core')
        cb = c.mod('mushroom_rl.utils.callbacks').CollectDataset()
        lib = 'torch' if backend == 'torch' else 'np'
        if c.choice('cleaned_before', [False, True]):
            cb.clean()
        n1, n2 = c.size('n1', 1), c.size('n2', 1)
        A, B = p03.arrays(c, n1, 'A', 2, 1, False, lib), p03.arrays(c, n2, 'B', 2, 1, False, lib)
        mk = lambda X: core.Dataset.from_array(*[c.copy(X[f]) for f in p03.FIELDS], backend=backend)
        x, y = mk(A), mk(B)
        cb(x)
        p03.same(c, cb.get(), 'first', n1, lambda f, k, *r: c.at(A[f], k, *r), p03.FIELDS)
        x.clear()                                   # the core reuses its dataset
        p03.same(c, cb.get(), 'independent', n1, lambda f, k, *r: c.at(A[f], k, *r), p03.FIELDS)
        cb(y)

        def get(f, k, *r):
            v = c.ite(c.lt(k, n1), lambda: c.at(A[f], k, *r), lambda: c.at(B[f], k - n1, *r))
            return c.ite(c.eq(k, n1 - 1), True, v) if f == 'last' else v
        y.clear()
        p03.same(c, cb.get(), 'all', n1 + n2, get, p03.FIELDS)
        cb.clean()
        c.ensure('cleaned', lambda: cb.get() is None or c.eq(p03.len_(c, cb.get()), 0))
        z = mk(B)
        cb(z)
        p03.same(c, cb.get(), 'collects-again', n2, lambda f, k, *r: c.at(B[f], k, *r), p03.FIELDS)
    return collect


for _b in ('numpy', 'torch'):
    mk_collect(_b)


@harness(P, 'collect_vectorized')
def collect_vectorized(c):
    cb = c.mod('mushroom_rl.utils.callbacks').CollectDataset()
    T, E = c.size('T', 1), 2
    A, M = p05.vec(c, 'numpy', False, T, E)
    ds = p05.build(c, 'numpy', False, T, E, T + 1, A, M)
    want = ds.flatten()
    cb(ds)
    got = cb.get()
    n = p03.len_(c, want)
    c.ensure_eq('active-steps', lambda: p03.len_(c, got), n)
    for f in p03.FIELDS:
        a, b = getattr(got, f), getattr(want, f)
        c.ensure_all(f, (n,) + tuple(b.shape[1:]), lambda *k: c.eq(c.at(a, *k), c.at(b, *k)))


@harness(P, 'collect_values')
def values(c):
    cbs, T, par = c.mod('mushroom_rl.utils.callbacks'), c.mod(TABLE), c.mod('mushroom_rl.rl_utils.parameters')
    nS, nA = c.choice('nS', [1, 2, 3]), c.choice('nA', [2, 3])
    ens = c.choice('ensemble', [False, True])
    if ens:
        q = T.EnsembleTable(2, (nS, nA))
        tabs = [m for m in q.model]
    else:
        q = c.mod('mushroom_rl.approximators.table').Table((nS, nA))
        tabs = [q]
    M = [[c.array(f'Q{t}_{k}', (nS, nA)) for t in range(len(tabs))] for k in range(2)]
    s = c.choice('s', [0, 1, 2])
    if s >= nS:
        c.assume(False)
    cq = cbs.CollectQ(q)
    cm = cbs.CollectMaxQ(q, c.np.array([s]))
    mean = lambda k, i, j: sum(c.at(X, i, j) for X in M[k]) / len(M[k])
    for k in range(2):
        for t, X in zip(tabs, M[k]):
            t.table[:] = X
        cq(None)
        cm(None)
    for t in tabs:
        t.table[:] = c.array('later', (nS, nA))
    got = cq.get()
    c.ensure('one-table-per-call', lambda: len(got) == 2)
    for k in range(2):
        c.ensure_shape('table-shape', got[k], (nS, nA))
        c.ensure_all('tables-of-the-call', (nS, nA), lambda i, j: c.eq(c.at(got[k], i, j), mean(k, i, j)))
    mx = cm.get()
    c.ensure('one-value-per-call', lambda: len(mx) == 2)
    for k in range(2):
        v = c.scalar_of(mx[k]) if hasattr(c, 'scalar_of') else mx[k]
        c.ensure('largest-value-of-the-state', lambda: c.and_(
            *[c.le(mean(k, s, j), v) for j in range(nA)], c.or_(*[c.eq(mean(k, s, j), v) for j in range(nA)])))
    cq.clean()
    cm.clean()
    c.ensure('cleaned', lambda: len(cq.get()) == 0 and len(cm.get()) == 0)


@harness(P, 'collect_parameters')
def parameters(c):
    cbs, par = c.mod('mushroom_rl.utils.callbacks'), c.mod('mushroom_rl.rl_utils.parameters')
    v, th, n = c.real('v', 1, 2), c.real('th', 0, 1), c.size('n', 1)
    p = par.LinearParameter(v, th, n, size=(2,))
    cb = cbs.CollectParameters(p, c.np.array([1]))
    other = cbs.CollectParameters(p, c.np.array([0]))
    want = [p.get_value(c.np.array([1]))]
    cb(None)
    p(c.np.array([1]))
    want.append(p.get_value(c.np.array([1])))
    cb(None)
    other(None)
    got = cb.get()
    c.ensure('one-value-per-call', lambda: len(got) == 2 and len(other.get()) == 1)
    for a, b in zip(got, want):
        c.ensure_eq('value-at-the-call', a, b)
    c.ensure_eq('of-its-index', lambda: other.get()[0], v)
    c.ensure_eq('collecting-does-not-advance', lambda: p.get_value(c.np.array([0])), v)

    class Adapted(par.Parameter):
        # a parameter whose value is an array that the learner changes in place
        def __init__(self):
            self.own = c.np.array([v, th])

        def get_value(self, *idx, **kwargs):
            return self.own

    own = Adapted()
    whole = cbs.CollectParameters(own)
    whole(None)
    own.own[0] = v + 1
    own.own += 1
    whole(None)
    for k, want in enumerate(([v, th], [v + 2, th + 1])):
        for j in range(2):
            c.ensure_eq('value-of-an-array-at-the-call', lambda: c.at(whole.get()[k], j), want[j])


TABLE = 'mushroom_rl.approximators.ensemble_table'


# ------------------------------------------------------------------ registry
@harness(P, 'registry')
def registry(c):
    Env = c.mod('mushroom_rl.core').Environment
    x, y = c.real('x'), c.real('y')

    class PydvPlain(Env):
        def __init__(self, *a, **k):
            self.a, self.k = a, k

    class PydvMade(Env):
        def __init__(self, *a, **k):
            self.a, self.k = ('wrong',), {}

        @staticmethod
        def generate(*a, **k):
            e = PydvPlain(*a, **k)
            e.made = True
            return e
    before = list(Env.list_registered())
    PydvPlain.register()
    PydvMade.register()
    first = PydvPlain

    def same_name():
        class PydvPlain(Env):
            pass
        PydvPlain.register()
    try:
        now = Env.list_registered()
        c.ensure('listed', lambda: sorted(now) == sorted(before + ['PydvPlain', 'PydvMade']))
        same_name()
        c.ensure('registered-once', lambda: sorted(Env.list_registered()) == sorted(now))
        kw = dict(y=y) if c.choice('keyword', [False, True]) else {}
        for name, made in (('PydvPlain', False), ('PydvMade', True)):
            dots = c.choice('dots' + name, [(), ('a',), ('a', 'b-v1')])
            e = Env.make('.'.join((name,) + dots), x, **kw)
            c.ensure('class-of-the-name', lambda: type(e) is first and hasattr(e, 'made') == made)
            c.ensure('parts-of-the-name-come-first', lambda: len(e.a) == len(dots) + 1 and tuple(e.a[:-1]) == dots)
            c.ensure_eq('positional-arguments', lambda: e.a[-1], x)
            c.ensure('keyword-arguments', lambda: set(e.k) == set(kw))
        c.ensure('unknown-names-are-rejected', c.raises(KeyError, lambda: Env.make('PydvUnknown')))
    finally:
        r = getattr(Env, '_registered_envs', None)
        if r is not None:
            for k in ('PydvPlain', 'PydvMade'):
                r.pop(k, None)


# ------------------------------------------------------------------ numerical gradients
@harness(P, 'numerical_gradient')
def numerical(c):
    M = c.mod('mushroom_rl.utils.numerical_gradient')
    n = c.choice('n', [1, 2, 3])
    eps = c.real('eps', .01, .5)
    w = c.array('w', (n,))
    w0 = c.copy(w)
    # a quadratic function: f(w) = sum_i a_i w_i^2 + b_i w_i, whose central difference is its gradient
    a, b = [c.real(f'a{i}') for i in range(n)], [c.real(f'b{i}') for i in range(n)]
    f = lambda v: sum(a[i] * c.at(v, i) * c.at(v, i) + b[i] * c.at(v, i) for i in range(n))
    grad = lambda i: sum(c.ite(c.eq(i, k), 2 * a[k] * c.at(w0, k) + b[k], 0.) for k in range(n))

    class Model:
        _pydv_ghost = True
        weights_size = parameters_size = n

        def __init__(self):
            self.w = c.copy(w0)

        def get_weights(self):
            return self.w

        def set_weights(self, v):
            self.w = v
        get_parameters, set_parameters = get_weights, set_weights

        def __call__(self, *x):
            c.ensure('of-the-given-point', lambda: x in (('s', 'a'), ('theta',)))
            return f(self.w)
    m = Model()
    near = lambda x, y: c.eq(x, y) if c.symbolic else abs(x - y) < 1e-6 * (1 + abs(y))
    for tag, g in (('function', M.numerical_diff_function(f, w, eps)), ('policy', M.numerical_diff_policy(m, 's', 'a', eps)),
                   ('distribution', M.numerical_diff_dist(m, 'theta', eps))):
        c.ensure_shape(tag + '-shape', g, (n,))
        c.ensure_all(tag + '-central-difference', (n,), lambda i: near(c.at(g, i), grad(i)))
        c.ensure_all(tag + '-parameters-restored', (n,), lambda i: c.eq(c.at(m.w, i), c.at(w0, i)))
        c.ensure_all(tag + '-argument-untouched', (n,), lambda i: c.eq(c.at(w, i), c.at(w0, i)))


# ------------------------------------------------------------------ stacked frames
@harness(P, 'lazy_frames', bounded_only=True)
def frames(c):
    if c.symbolic:
        unsup(c, 'numpy array protocol')
    import numpy as np
    L = c.mod('mushroom_rl.utils.frames').LazyFrames
    h, a, b = c.choice('history', [1, 2, 4]), c.choice('a', [1, 3]), c.choice('b', [1, 2])
    fr = [np.array(c.array(f'f{k}', (a, b))) for k in range(h)]
    z = L(list(fr), h)
    c.ensure('shape', lambda: tuple(z.shape) == (h, a, b))
    c.ensure('stack-of-the-frames', lambda: np.array_equal(np.array(z), np.stack(fr)))
    c.ensure('type', lambda: np.asarray(z, dtype=np.float32).dtype == np.float32)
    c.ensure('copy', lambda: np.array_equal(np.array(z.copy()), np.stack(fr)))
    x = np.array(z)
    x[...] = 7.
    c.ensure('frames-untouched', lambda: np.array_equal(np.array(z), np.stack(fr)))
    c.ensure('length-checked', c.raises(AssertionError, lambda: L(list(fr), h + 1)))
