"""P03 - the dataset container: what is recorded is what is read, through every operation."""
from pydv.ctx import harness
from contracts.common import mdp

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.rl_utils.spaces']
P = 'P03'
FIELDS = ['state', 'action', 'reward', 'next_state', 'absorbing', 'last']
INTERNAL = dict(state='_states', action='_actions', reward='_rewards', next_state='_next_states',
                absorbing='_absorbing', last='_last', policy_state='_policy_states', policy_next_state='_policy_next_states')


class AgentInfo:
    def __init__(self, shape):
        self.policy_state_shape = shape
        self.backend = 'numpy'
        self.is_episodic = False


def arrays(c, n, pre, d, m, stateful, lib='np', p=None):
    """arbitrary contents of n transitions"""
    a = dict(state=c.array(pre + 's', (n, d), lib=lib), action=c.array(pre + 'a', (n, m), lib=lib),
             reward=c.array(pre + 'r', (n,), lib=lib), next_state=c.array(pre + 'n', (n, d), lib=lib),
             absorbing=c.array(pre + 'b', (n,), 'bool', lib=lib), last=c.array(pre + 'l', (n,), 'bool', lib=lib))
    if stateful:
        a['policy_state'] = c.array(pre + 'p', (n, p), lib=lib)
        a['policy_next_state'] = c.array(pre + 'q', (n, p), lib=lib)
    return a


def spaces(c, d, m, backend, horizon=50):
    np_ = c.np
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    core = c.mod('mushroom_rl.core')
    low, high = np_.zeros((d,)), np_.ones((d,))
    la, ha = np_.zeros((m,)), np_.ones((m,))
    info = core.MDPInfo(sp.Box(low, high), sp.Box(la, ha), .9, horizon, backend=backend)
    if backend == 'torch':
        import sys
        for s in (info.observation_space, info.action_space):
            s._data_type = c.torch.float32
    return info


def empty(c, d, m, cap, backend, stateful, p):
    core = c.mod('mushroom_rl.core')
    info = spaces(c, d, m, backend)
    return core.Dataset.generate(info, AgentInfo((p,) if stateful else None), n_steps=cap)


def fill(c, ds, A, n, backend):
    """the dataset after n appends with contents A (symbolically: an arbitrary such state)"""
    if c.symbolic:
        from pydv.core import Unsupported
        for k, v in A.items():
            a = getattr(ds._data, INTERNAL[k], None)
            if a is None:
                raise Unsupported('dataset field ' + INTERNAL[k] + ' not found')
            a[:n] = v
        if not hasattr(ds._data, '_len'):
            raise Unsupported('dataset field _len not found')
        ds._data._len = n
    else:
        for k in range(n):
            ds.append(tuple(A[f][k] for f in A), {})
    return ds


def same(c, ds, name, n, get, fields):
    """ds holds, for k < n, the transition get(field, k)"""
    c.ensure_eq(name + '-len', lambda: len_(c, ds), n)
    for f in fields:
        arr = getattr(ds, f)
        c.ensure_eq(name + '-' + f + '-count', lambda: arr.shape[0], n)
        if len(arr.shape) == 2:
            c.ensure_all(name + '-' + f, (n, arr.shape[1]), lambda k, j: c.eq(c.at(arr, k, j), get(f, k, j)))
        else:
            c.ensure_all(name + '-' + f, (n,), lambda k: c.eq(c.at(arr, k), get(f, k)))


def len_(c, ds):
    return type(ds).__len__(ds)


def setup(c, backend, stateful):
    d, m = c.size('d', 1), c.size('m', 1)
    p = c.size('p', 1) if stateful else None
    return d, m, p, ('torch' if backend == 'torch' else 'np')


def is_torch(c, a):
    return getattr(a, 'lib', None) == 'torch' if c.symbolic else type(a).__module__ == 'torch'


def fieldsof(stateful):
    return FIELDS + (['policy_state', 'policy_next_state'] if stateful else [])


def make(backend, stateful):
    tag = backend + ('_stateful' if stateful else '')

    @harness(P, 'append_' + tag)
    def append(c):
        d, m, p, lib = setup(c, backend, stateful)
        cap = c.size('capacity', 1)
        n = c.int('n', 0, cap - 1)
        A = arrays(c, n, 'A', d, m, stateful, lib, p)
        B = arrays(c, 1, 'B', d, m, stateful, lib, p)
        ds = empty(c, d, m, cap, backend, stateful, p)
        c.ensure_eq('starts-empty', lambda: len_(c, ds), 0)
        fill(c, ds, A, n, backend)
        step = tuple(B[f][0] if f in ('state', 'action', 'next_state', 'policy_state', 'policy_next_state')
                     else c.at(B[f], 0) for f in fieldsof(stateful))
        B0 = {k: c.copy(v) for k, v in B.items()}
        ds.append(step, {})
        for f in ('state', 'action', 'next_state'):          # the caller may reuse its buffers
            B[f][0] = B[f][0] + 1.

        def get(f, k, *j):
            return c.ite(c.lt(k, n), lambda: c.at(A[f], k, *j), lambda: c.at(B0[f], 0, *j))
        same(c, ds, 'append', n + 1, get, fieldsof(stateful))
        k = c.int('k', 0, n)
        item = ds[k]
        for i, f in enumerate(FIELDS):
            if f in ('state', 'action', 'next_state'):
                c.ensure_all('item-' + f, (d if f != 'action' else m,), lambda j: c.eq(c.at(item[i], j), get(f, k, j)))
            else:
                c.ensure_eq('item-' + f, lambda: c.at(item[i]), lambda: get(f, k))
        c.ensure('out-of-range-rejected', c.raises(IndexError, lambda: ds[n + 1]))

    @harness(P, 'clear_' + tag)
    def clear(c):
        d, m, p, lib = setup(c, backend, stateful)
        cap = c.size('capacity', 1)
        n = c.int('n', 0, cap)
        A = arrays(c, n, 'A', d, m, stateful, lib, p)
        B = arrays(c, 1, 'B', d, m, stateful, lib, p)
        ds = empty(c, d, m, cap, backend, stateful, p)
        fill(c, ds, A, n, backend)
        ds.append_theta(c.real('theta'))
        old = {f: getattr(ds, f) for f in fieldsof(stateful)}
        ds.clear()
        c.ensure_eq('len', lambda: len_(c, ds), 0)
        c.ensure_eq('no-thetas', lambda: len(ds.theta_list), 0)
        ds.append(tuple(B[f][0] for f in fieldsof(stateful)), {})
        same(c, ds, 'reuse', 1, lambda f, k, *j: c.at(B[f], 0, *j), fieldsof(stateful))
        for f in fieldsof(stateful):                   # data handed out before clearing is not overwritten
            if f in ('reward', 'absorbing', 'last'):
                c.ensure_all('old-data-kept', (n,), lambda k: c.eq(c.at(old[f], k), c.at(A[f], k)))
            else:
                c.ensure_all('old-data-kept', (n, A[f].shape[1]), lambda k, j: c.eq(c.at(old[f], k, j), c.at(A[f], k, j)))

    @harness(P, 'slice_' + tag)
    def slc(c):
        d, m, p, lib = setup(c, backend, stateful)
        cap = c.size('capacity', 1)
        n = c.int('n', 1, cap)
        A = arrays(c, n, 'A', d, m, stateful, lib, p)
        ds = fill(c, empty(c, d, m, cap, backend, stateful, p), A, n, backend)
        i = c.int('i', 0, n)
        j = c.int('j', 0, n)
        c.assume(c.le(i, j))
        v = ds[i:j]
        same(c, v, 'slice', j - i, lambda f, k, *r: c.at(A[f], k + i, *r), fieldsof(stateful))
        tail = c.int('tail', 1, n)
        w = ds[-tail:]
        same(c, w, 'tail', tail, lambda f, k, *r: c.at(A[f], k + n - tail, *r), fieldsof(stateful))
        same(c, ds, 'source-unchanged', n, lambda f, k, *r: c.at(A[f], k, *r), fieldsof(stateful))
        u = v + ds
        c.ensure_eq('views-concatenate', lambda: len_(c, u), j - i + n)

    @harness(P, 'copied_view_' + tag)
    def cpv(c):
        d, m, p, lib = setup(c, backend, stateful)
        cap = c.size('capacity', 1)
        n = c.int('n', 1, cap)
        A = arrays(c, n, 'A', d, m, stateful, lib, p)
        ds = fill(c, empty(c, d, m, cap, backend, stateful, p), A, n, backend)
        tail = c.int('tail', 1, n)
        v = ds.get_view(slice(-tail, None), copy=True)
        same(c, v, 'copy', tail, lambda f, k, *r: c.at(A[f], k + n - tail, *r), fieldsof(stateful))
        v.reward[0] = c.real('junk')
        v.state[0] = c.real('junk2')
        same(c, ds, 'source-unchanged', n, lambda f, k, *r: c.at(A[f], k, *r), fieldsof(stateful))

    @harness(P, 'index_' + tag)
    def idx(c):
        d, m, p, lib = setup(c, backend, stateful)
        cap = c.size('capacity', 1)
        n = c.int('n', 1, cap)
        A = arrays(c, n, 'A', d, m, stateful, lib, p)
        ds = fill(c, empty(c, d, m, cap, backend, stateful, p), A, n, backend)
        h = c.size('h', 1)
        ix = c.array('ix', (h,), 'int', lib=lib, lo=0, hi=n - 1)
        v = ds[ix]
        same(c, v, 'index', h, lambda f, k, *r: c.at(A[f], c.at(ix, k), *r), fieldsof(stateful))

    @harness(P, 'concatenate_' + tag)
    def cat(c):
        d, m, p, lib = setup(c, backend, stateful)
        cap = c.size('capacity', 1)
        n = c.int('n', 0, cap)
        m2 = c.int('n2', 0, cap)
        A = arrays(c, n, 'A', d, m, stateful, lib, p)
        B = arrays(c, m2, 'B', d, m, stateful, lib, p)
        x = fill(c, empty(c, d, m, cap, backend, stateful, p), A, n, backend)
        y = fill(c, empty(c, d, m, cap, backend, stateful, p), B, m2, backend)
        t1, t2 = c.real('t1'), c.real('t2')
        x.append_theta(t1)
        y.append_theta(t2)
        z = x + y

        def get(f, k, *r):
            v = c.ite(c.lt(k, n), lambda: c.at(A[f], k, *r), lambda: c.at(B[f], k - n, *r))
            return c.ite(c.eq(k, n - 1), True, v) if f == 'last' else v
        same(c, z, 'sum', n + m2, get, fieldsof(stateful))
        same(c, x, 'left-unchanged', n, lambda f, k, *r: c.at(A[f], k, *r), fieldsof(stateful))
        same(c, y, 'right-unchanged', m2, lambda f, k, *r: c.at(B[f], k, *r), fieldsof(stateful))
        c.ensure('thetas', lambda: c.and_(c.eq(len(z.theta_list), 2), c.eq(z.theta_list[0], t1), c.eq(z.theta_list[1], t2)))

    @harness(P, 'from_arrays_' + tag)
    def frm(c):
        core = c.mod('mushroom_rl.core')
        d, m, p, lib = setup(c, backend, stateful)
        n = c.size('n', 1)
        A = arrays(c, n, 'A', d, m, stateful, lib, p)
        args = [A[f] for f in FIELDS]
        kw = dict(policy_state=A['policy_state'], policy_next_state=A['policy_next_state']) if stateful else {}
        ds = core.Dataset.from_array(*args, backend=backend, **kw)
        same(c, ds, 'from', n, lambda f, k, *r: c.at(A[f], k, *r), fieldsof(stateful))
        for to in ('numpy', 'torch'):
            out = ds.parse(to=to)
            c.ensure_eq('parse-arity', len(out), 6)
            for f, a in zip(FIELDS, out):
                if f in ('reward', 'absorbing', 'last'):
                    c.ensure_shape('parse-shape', a, (n,))
                    c.ensure_all('parse-' + f, (n,), lambda k: c.eq(c.at(a, k), c.at(A[f], k)))
                else:
                    c.ensure_all('parse-' + f, (n, A[f].shape[1]), lambda k, j: c.eq(c.at(a, k, j), c.at(A[f], k, j)))
        if stateful:
            ps, pn = ds.parse_policy_state()
            c.ensure_all('parse-policy', (n, p), lambda k, j: c.and_(
                c.eq(c.at(ps, k, j), c.at(A['policy_state'], k, j)),
                c.eq(c.at(pn, k, j), c.at(A['policy_next_state'], k, j))))

    @harness(P, 'from_other_library_' + tag)
    def other(c):
        core = c.mod('mushroom_rl.core')
        d, m, p, lib = setup(c, backend, stateful)
        n = c.size('n', 1)
        A = arrays(c, n, 'A', d, m, stateful, 'np' if lib == 'torch' else 'torch', p)
        kw = dict(policy_state=A['policy_state'], policy_next_state=A['policy_next_state']) if stateful else {}
        ds = core.Dataset.from_array(*[A[f] for f in FIELDS], backend=backend, **kw)
        same(c, ds, 'from', n, lambda f, k, *r: c.at(A[f], k, *r), fieldsof(stateful))
        c.ensure('library', lambda: all(is_torch(c, getattr(ds, f)) == (lib == 'torch') for f in fieldsof(stateful)))

    @harness(P, 'random_samples_' + tag)
    def rnd(c):
        d, m, p, lib = setup(c, backend, stateful)
        cap = c.size('capacity', 1)
        n = c.int('n', 1, cap)
        A = arrays(c, n, 'A', d, m, stateful, lib, p)
        ds = fill(c, empty(c, d, m, cap, backend, stateful, p), A, n, backend)
        h = c.size('h', 1)
        v = ds.select_random_samples(h)
        c.ensure_eq('count', lambda: len_(c, v), h)

        def some(k):
            return c.any(n, lambda q: c.and_(c.eq(c.at(v.reward, k), c.at(A['reward'], q)),
                                             c.eq(c.at(v.state, k, 0), c.at(A['state'], q, 0)),
                                             c.eq(c.at(v.last, k), c.at(A['last'], q))))
        c.ensure_all('existing-transitions', (h,), some)


for b in ('numpy', 'torch'):
    for st in (False, True):
        make(b, st)


# ---------------------------------------------------------------- list backend (lengths up to 3, any values)
def list_ds(c, n, pre, stateful):
    ds = empty(c, 1, 1, 5, 'list', stateful, 1)
    A = []
    for k in range(n):
        row = [c.array(f'{pre}s{k}', (2,)), c.array(f'{pre}a{k}', (1,)), c.real(f'{pre}r{k}'), c.array(f'{pre}n{k}', (2,)),
               c.bool(f'{pre}b{k}'), c.bool(f'{pre}l{k}')]
        if stateful:
            row += [c.array(f'{pre}p{k}', (1,)), c.array(f'{pre}q{k}', (1,))]
        A.append(row)
        ds.append(tuple(row), {})
    return ds, A


def row_eq(c, x, y):
    r = True
    for u, v in zip(x, y):
        if c.scalar(u) or isinstance(u, bool):
            r = c.and_(r, c.eq(u, v))
        else:
            for j in range(u.shape[0]):
                r = c.and_(r, c.eq(c.at(u, j), c.at(v, j)))
    return r


def list_same(c, ds, name, rows, stateful):
    c.ensure_eq(name + '-len', lambda: len_(c, ds), len(rows))
    for i, f in enumerate(fieldsof(stateful)):
        got = getattr(ds, f)
        c.ensure_eq(name + '-' + f + '-count', len(got), len(rows))
        for k in range(len(rows)):
            c.ensure(name + '-' + f, lambda: row_eq(c, [got[k]], [rows[k][i]]))
    for k in range(len(rows)):
        c.ensure(name + '-item', lambda: row_eq(c, ds[k], rows[k][:6]))


for st in (False, True):
    def mk(stateful):
        tag = 'list' + ('_stateful' if stateful else '')

        @harness(P, 'operations_' + tag)
        def ops(c):
            n, m = c.choice('n', [0, 1, 3]), c.choice('n2', [0, 2])
            x, A = list_ds(c, n, 'A', stateful)
            y, B = list_ds(c, m, 'B', stateful)
            list_same(c, x, 'append', A, stateful)
            z = x + y
            rows = [list(r) for r in A + B]
            if n:
                rows[n - 1][5] = True
            list_same(c, z, 'sum', rows, stateful)
            list_same(c, x, 'left-unchanged', A, stateful)
            list_same(c, y, 'right-unchanged', B, stateful)
            if n == 3:
                list_same(c, x[1:3], 'slice', A[1:3], stateful)
                list_same(c, x.get_view(slice(-2, None), copy=True), 'copied', A[1:3], stateful)
                list_same(c, x.get_view(c.np.array([2, 0])), 'indices', [A[2], A[0]], stateful)
            if n:
                core = c.mod('mushroom_rl.core')
                G = arrays(c, n, 'G', 2, 1, stateful, 'np', 1)
                kw = dict(policy_state=G['policy_state'], policy_next_state=G['policy_next_state']) if stateful else {}
                w = core.Dataset.from_array(*[G[f] for f in FIELDS], backend='list', **kw)
                list_same(c, w, 'from-arrays', [[G[f][k] if len(G[f].shape) > 1 else c.at(G[f], k) for f in fieldsof(stateful)]
                                                for k in range(n)], stateful)
            x.clear()
            list_same(c, x, 'clear', [], stateful)
            if m:
                x.append(tuple(B[0]), {})
                list_same(c, x, 'reuse', B[:1], stateful)
    mk(st)
