"""P16 - saving and loading: the loaded object behaves as the saved one."""
import copy
import io
from pydv.ctx import harness
from contracts import p03, p16_agents
from contracts.common import mdp, one_step

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.core.serialization', 'mushroom_rl.rl_utils', 'mushroom_rl.rl_utils.spaces',
           'mushroom_rl.rl_utils.replay_memory', 'mushroom_rl.rl_utils.optimizers', 'mushroom_rl.rl_utils.parameters',
           'mushroom_rl.rl_utils.eligibility_trace', 'mushroom_rl.rl_utils.running_stats', 'mushroom_rl.rl_utils.preprocessors',
           'mushroom_rl.approximators', 'mushroom_rl.approximators.table', 'mushroom_rl.approximators.ensemble_table',
           'mushroom_rl.approximators.parametric', 'mushroom_rl.policy', 'mushroom_rl.policy.td_policy',
           'mushroom_rl.algorithms.value', 'mushroom_rl.core.extra_info', 'mushroom_rl.core.dataset']
P = 'P16'


# ---- ghost file: dictionary from names to what the library wrote there -----------------------
class Handle:
    def __init__(self, z, name, mode):
        self.z, self.name, self.mode = z, name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, data):
        self.z.files[self.name] = ('bytes', data)


class Zip:
    """zipfile.ZipFile: open for reading a missing name raises KeyError, the last write of a name wins"""
    def __init__(self):
        self.files = {}

    def open(self, name, mode='r'):
        if mode == 'r' and name not in self.files:
            raise KeyError(name)
        return Handle(self, name, mode)

    def namelist(self):
        return list(self.files)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Lib:
    """a library with dump/load: loading gives a new object equal to the one dumped"""
    DEFAULT_PROTOCOL = HIGHEST_PROTOCOL = 4

    def __init__(self, tag, conv=None):
        self.tag, self.conv = tag, conv

    def dump(self, obj, f, protocol=None, **_):
        f.z.files[f.name] = (self.tag, copy.deepcopy(self.conv(obj) if self.conv else obj))

    def load(self, f, **_):
        tag, v = f.z.files[f.name]
        if tag != self.tag:
            raise ValueError('file written by ' + tag + ' read by ' + self.tag)
        return copy.deepcopy(v)


class ArrayLib(Lib):
    """numpy.save(file, array) / torch.save(object, file); the rest is the library"""
    def __init__(self, tag, lib, conv=None):
        super().__init__(tag, conv)
        self._lib = lib

    def save(self, a, b, **_):
        if self.tag == 'numpy':
            a, b = b, a
        self.dump(a, b)

    def __getattr__(self, n):
        return getattr(self._lib, n)


class Json(Lib):
    def dumps(self, obj):
        class S:
            def encode(s, *_):
                return ('json', copy.deepcopy(obj))
        return S()

    def load(self, f, **_):
        tag, v = f.z.files[f.name]
        if tag != 'bytes' or v[0] != 'json':
            raise ValueError('not json')
        return copy.deepcopy(v[1])


def toarray(c):
    def conv(obj):
        return c.np.asarray(obj)
    return conv


def reload(c, obj, full):
    """save the object and load it back, through the real save/load"""
    S = c.mod('mushroom_rl.core.serialization')
    if c.symbolic:
        c.stub(S, 'pickle', Lib('pickle'))
        c.stub(S, 'json', Json('json'))
        c.stub(S, 'np', ArrayLib('numpy', c.np, toarray(c)))
        c.stub(S, 'torch', ArrayLib('torch', c.torch))
        disk = {}

        class GPath:
            def __init__(self, p):
                self.p = p.p if isinstance(p, GPath) else p
                self.parent = self if isinstance(p, GPath) else GPath(self)

            def mkdir(self, **_):
                pass

            def exists(self):
                return self.p in disk

        def zipf(path, mode='r', *a, **k):
            if mode == 'w':
                disk[path.p] = Zip()
            return disk[path.p]
        c.stub(S, 'Path', GPath)
        c.stub(S, 'ZipFile', zipf)
        obj.save('agent.msh', full_save=full)
        return type(obj).load('agent.msh')
    import os
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='pydv_')
    old = os.environ.get('TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD')
    os.environ.pop('TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD', None)
    try:
        f = os.path.join(d, 'sub', 'agent.msh')
        obj.save(f, full_save=full)
        return type(obj).load(f)
    finally:
        shutil.rmtree(d)
        if old is not None:
            os.environ['TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD'] = old


def lib_of(c, a):
    if c.symbolic:
        return getattr(a, 'lib', None)
    return type(a)


def isarr(a):
    return hasattr(a, 'shape') and hasattr(a, 'dtype')


MISSING = object()


def same(c, name, a, b):
    """equal values (a before saving, b after loading)"""
    if a is None or b is None or b is MISSING:
        c.ensure(name, a is b)
    elif isinstance(a, (list, tuple)):
        c.ensure(name + '-count', isinstance(b, (list, tuple)) and len(a) == len(b))
        if isinstance(b, (list, tuple)) and len(a) == len(b):
            for k, (x, y) in enumerate(zip(a, b)):
                same(c, f'{name}[{k}]', x, y)
    elif isinstance(a, dict):
        c.ensure(name + '-keys', isinstance(b, dict) and set(a) == set(b))
        if isinstance(b, dict) and set(a) == set(b):
            for k in a:
                same(c, f'{name}[{k}]', a[k], b[k])
    elif isarr(a):
        if not isarr(b):
            c.ensure(name + '-is-array', len(a.shape) == 0)
            if len(a.shape) == 0:
                c.ensure_eq(name, lambda: c.at(a), lambda: b)
            return
        c.ensure(name + '-library', lib_of(c, a) == lib_of(c, b))
        c.ensure_shape(name + '-shape', b, tuple(a.shape))
        c.ensure_all(name, tuple(a.shape), lambda *i: c.eq(c.at(b, *i), c.at(a, *i)))
    elif isinstance(a, (str, type)) or callable(a) or type(a).__name__ in ('dtype', 'DType'):
        c.ensure(name, a == b)
    else:
        c.ensure_eq(name, lambda: c.scalar(b) if isarr(b) else b, lambda: a)


# ---- the mechanism -----------------------------------------------------------------------------
def node_class(c):
    """a class declaring one attribute of each kind, as a user of the library does"""
    S = c.mod('mushroom_rl.core.serialization')
    reg = c.__dict__.setdefault('_p16_cls', {})
    if 'Node' not in reg:
        class Node(S.Serializable):
            __module__ = __name__

            def __init__(self, **attrs):
                for k, (m, v) in attrs.items():
                    setattr(self, k, v)
                self.posts = 0
                self._add_save_attr(**{k: m for k, (m, v) in attrs.items()})

            def _post_load(self):
                self.posts = 1
        Node.__qualname__ = 'Node'
        globals()['Node'] = Node
        reg['Node'] = Node
    return reg['Node']


METHODS = ['primitive', 'pickle', 'numpy', 'torch', 'json', 'none', 'mushroom', 'mushroom-list']


def value(c, m, tag, Node):
    if m in ('primitive', 'pickle'):
        return c.real(tag)
    if m == 'json':
        return [c.real(tag)] if c.symbolic else [float(c.real(tag))]
    if m == 'numpy':
        return c.array(tag, (c.size('n' + tag, 1),))
    if m == 'torch':
        return c.array(tag, (c.size('n' + tag, 1),), lib='torch')
    if m == 'none':
        return c.real(tag)
    if m == 'mushroom':
        return Node(x=('primitive', c.real(tag + 'x')), y=('numpy!', c.array(tag + 'y', (2,))),
                    z=('mushroom!', Node(w=('primitive', c.real(tag + 'w')))), u=('primitive', None))
    return [Node(x=('primitive', c.real(f'{tag}{k}'))) for k in range(2)]


def check_node(c, name, v, w, full, Node):
    c.ensure(name + '-type', isinstance(w, Node))
    if not isinstance(w, Node):
        return
    c.ensure(name + '-post-load-once', w.posts == 1)
    for a, m in v._save_attributes.items():
        x = getattr(v, a)
        c.ensure(name + '.' + a + '-present', hasattr(w, a))
        y = getattr(w, a, None)
        kept = m.rstrip('!') != 'none' and (full or not m.endswith('!'))
        if not kept or x is None:
            c.ensure(name + '.' + a + '-none', y is None)
        elif isinstance(x, Node):
            check_node(c, name + '.' + a, x, y, full, Node)
        elif isinstance(x, list) and x and isinstance(x[0], Node):
            c.ensure(name + '.' + a + '-count', isinstance(y, list) and len(y) == len(x))
            if isinstance(y, list) and len(y) == len(x):
                for k in range(len(x)):
                    check_node(c, f'{name}.{a}[{k}]', x[k], y[k], full, Node)
        else:
            same(c, name + '.' + a, x, y)


for _full in (False, True):
    def mk(full):
        @harness(P, 'mechanism_' + ('full' if full else 'light'))
        def mechanism(c):
            Node = node_class(c)
            attrs = {}
            for k, m in enumerate(METHODS):
                for opt in ('', '!'):
                    attrs[f'a{k}{"o" if opt else ""}'] = (m.replace('-list', '') + opt, value(c, m, f'v{k}{"o" if opt else ""}', Node))
                attrs[f'none{k}'] = (m.replace('-list', ''), None)
            o = Node(**attrs)
            before = {k: copy.deepcopy(v) for k, (m, v) in attrs.items()} if c.symbolic else None
            o2 = reload(c, o, full)
            c.ensure('new-object', o2 is not o)
            check_node(c, 'object', o, o2, full, Node)
            # loading again and saving again give the same
            o3 = reload(c, o2, full)
            check_node(c, 'again', o2, o3, full, Node)

        @harness(P, 'unknown_method_' + ('full' if full else 'light'))
        def unknown(c):
            Node = node_class(c)
            o = Node(a=('foo', c.real('v')))
            c.ensure('unknown-method-rejected', c.raises(NotImplementedError, lambda: reload(c, o, full)))
    mk(_full)


@harness(P, 'shared_state')
def shared(c):
    Node = node_class(c)
    n = c.size('n', 1)
    a = c.array('a', (n,))
    o = Node(a=('numpy', c.copy(a)), b=('pickle', [c.real('b')]))
    o2 = reload(c, o, False)
    o.a[0] = o.a[0] + 1.
    o.b.append(3.)
    c.ensure_all('independent-of-the-original', (n,), lambda k: c.eq(c.at(o2.a, k), c.at(a, k)))
    c.ensure('independent-lists', len(o2.b) == 1)
    o3 = o.copy()
    o.a[0] = o.a[0] + 1.
    c.ensure_eq('copy-is-deep', lambda: c.at(o3.a, 0), lambda: c.at(a, 0) + 1.)


# ---- the classes of the library ----------------------------------------------------------------
@harness(P, 'spaces')
def spaces(c):
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    core = c.mod('mushroom_rl.core')
    d = c.size('d', 1)
    lo, hi = c.array('lo', (d,)), c.array('hi', (d,))
    box = sp.Box(lo, hi)
    n = c.size('n', 1)
    dis = sp.Discrete(n)
    info = core.MDPInfo(box, dis, c.real('gamma', 0, 1), c.int('H', 1), c.real('dt'), backend='numpy')
    i2 = reload(c, info, c.bool('full'))
    same(c, 'low', lo, i2.observation_space.low)
    same(c, 'high', hi, i2.observation_space.high)
    c.ensure('box-shape', lambda: c.eq(i2.observation_space.shape[0], d))
    c.ensure('data-type', lambda: i2.observation_space.data_type == box.data_type)
    c.ensure_eq('n', lambda: i2.action_space.n, n)
    same(c, 'shape', info.shape, i2.shape)
    for a in ('gamma', 'horizon', 'dt', 'backend'):
        same(c, a, getattr(info, a), getattr(i2, a, MISSING))


@harness(P, 'infos')
def infos(c):
    A = c.mod('mushroom_rl.core.agent')
    D = c.mod('mushroom_rl.core.dataset')
    ps = (c.size('p', 1),) if c.bool('stateful') else None
    ai = A.AgentInfo(c.bool('episodic'), ps, c.choice('backend', ['numpy', 'torch']))
    a2 = reload(c, ai, False)
    for k in ('is_episodic', 'policy_state_shape', 'backend'):
        same(c, 'agent-' + k, getattr(ai, k), getattr(a2, k, MISSING))
    di = D.DatasetInfo('torch', c.choice('device', [None, 'cpu']), c.int('H', 1), c.real('gamma', 0, 1), (c.size('d', 1),), c.torch.float32,
                       (1,), c.torch.float32, ps, c.size('n_envs', 1))
    d2 = reload(c, di, False)
    for k in ('backend', 'device', 'horizon', 'gamma', 'state_shape', 'state_dtype', 'action_shape', 'action_dtype',
              'policy_state_shape', 'n_envs', 'is_agent_stateful'):
        same(c, 'dataset-' + k, getattr(di, k), getattr(d2, k, MISSING))


def agent_info(c, shape, backend):
    return c.mod('mushroom_rl.core.agent').AgentInfo(False, shape, backend)


def mkds(c, backend, stateful, n=None, horizon=50):
    d, m, p, lib = p03.setup(c, backend, stateful)
    core = c.mod('mushroom_rl.core')
    info = p03.spaces(c, d, m, backend, horizon)
    cap = c.size('capacity', 2)
    n = c.int('n', 0, cap - 1)
    ds = core.Dataset.generate(info, agent_info(c, (p,) if stateful else None, 'torch' if backend == 'torch' else 'numpy'), n_steps=cap)
    A = p03.arrays(c, n, 'A', d, m, stateful, lib, p)
    p03.fill(c, ds, A, n, backend)
    return ds, A, n, cap, info, (d, m, p, lib)


def mk_dataset(backend, stateful):
    @harness(P, f'dataset_{backend}' + ('_stateful' if stateful else ''))
    def dataset(c):
        ds, A, n, cap, info, (d, m, p, lib) = mkds(c, backend, stateful)
        ds.append_theta(c.array('theta', (2,), lib=lib))
        full = c.bool('full')
        d2 = reload(c, ds, full)
        fl = p03.fieldsof(stateful)
        p03.same(c, d2, 'content', n, lambda f, k, *j: c.at(A[f], k, *j), fl)
        for f in fl:
            c.ensure(f + '-library', lib_of(c, getattr(d2, f)) == lib_of(c, getattr(ds, f)))
        same(c, 'thetas', ds.theta_list, d2.theta_list)
        c.ensure('stateful', d2.is_stateful == ds.is_stateful)
        c.ensure('backend', d2.array_backend == ds.array_backend)
        # it can be used as before
        B = p03.arrays(c, 1, 'B', d, m, stateful, lib, p)
        st = tuple(B[f][0] for f in fl)
        ds.append(st, {})
        d2.append(st, {})
        p03.same(c, d2, 'appended', n + 1, lambda f, k, *j: c.at(getattr(ds, f), k, *j), fl)
        same(c, 'gamma', ds._dataset_info.gamma, d2._dataset_info.gamma)
        e = d2 + d2
        c.ensure_eq('concatenated', lambda: p03.len_(c, e), 2 * (n + 1))
        v = d2.copy()
        c.ensure_eq('copied', lambda: p03.len_(c, v), n + 1)
        d2.clear()
        c.ensure_eq('cleared', lambda: p03.len_(c, d2), 0)


for _b in ('numpy', 'torch'):
    for _s in (False, True):
        mk_dataset(_b, _s)


def mk_extra(backend):
    lib = 'torch' if backend == 'torch' else 'np'

    @harness(P, 'extra_info_' + backend)
    def extra(c):
        E = c.mod('mushroom_rl.core.extra_info')
        ei = E.ExtraInfo(1, backend)
        d = c.size('d', 1)
        a = [c.array(f'a{k}', (d,), lib=lib) for k in range(3)]
        ei.append({'x': a[0], 'in': {'y': c.real('y0')}})
        if c.bool('parsed'):
            ei.parse()
        ei.append({'x': a[1], 'in': {'y': c.real('y1')}})
        e2 = reload(c, ei, c.bool('full'))
        y2 = c.real('y2')
        for e in (ei, e2):
            e.append({'x': a[2], 'in': {'y': y2}})
            e.parse()
        c.ensure('keys', set(e2.keys()) == {'x', 'in_y'})
        c.ensure_shape('x-shape', e2['x'], (3, d))
        for k in range(3):
            c.ensure_all('x', (d,), lambda j: c.eq(c.at(e2['x'], k, j), c.at(a[k], j)))
        same(c, 'y', ei['in_y'], e2['in_y'])
        c.ensure_eq('n-envs', e2.n_envs, 1)


for _b in ('numpy', 'torch'):
    mk_extra(_b)


def mk_memory(backend, stateful, full):
    @harness(P, f'replay_{backend}' + ('_stateful' if stateful else '') + ('_full' if full else '_light'))
    def replay(c):
        from contracts import p06
        d = c.size('d', 1)
        p = c.size('p', 1) if stateful else None
        lib = 'torch' if backend == 'torch' else 'np'
        ini = c.int('initial', 0)
        RM = c.mod('mushroom_rl.rl_utils.replay_memory')
        cap = c.size('max_size', 1)
        info = p03.spaces(c, d, 1, backend)
        mem = RM.ReplayMemory(info, agent_info(c, (p,) if stateful else None, backend), ini, cap)
        A, n0, idx, isfull = p06.fill(c, mem, backend, stateful, d, p, cap, lib)
        m2 = reload(c, mem, full)
        n = n0 if full else 0
        c.ensure_eq('size', lambda: m2.size, n)
        c.ensure_eq('initialized', lambda: m2.initialized, c.lt(ini, n))
        X = p03.arrays(c, 1, 'X', d, 1, stateful, lib, p)
        m2.add(p06.one(c, X, 0, backend, stateful))
        slot = idx if full else 0
        size = c.ite(c.and_(full, isfull), cap, n + 1)
        c.ensure_eq('size-after', lambda: m2.size, size)
        get = lambda f, k, *j: c.ite(c.eq(k, slot), lambda: c.at(X[f], 0, *j), lambda: c.at(A[f], k, *j))
        p03.same(c, m2._dataset, 'content', size, get, p03.fieldsof(stateful))


for _b in ('numpy', 'torch'):
    for _s in (False, True):
        for _f in (False, True):
            mk_memory(_b, _s, _f)


for _f in (False, True):
    def mk_per(full):
        @harness(P, 'prioritized_' + ('full' if full else 'light'))
        def per(c):
            RM = c.mod('mushroom_rl.rl_utils.replay_memory')
            core = c.mod('mushroom_rl.core')
            from contracts import p06
            cap, d = 3, c.size('d', 1)
            info = p03.spaces(c, d, 1, 'numpy')
            alpha = 1.
            ini = c.int('initial', 0, 2)
            mem = RM.PrioritizedReplayMemory(info, agent_info(c, None, 'numpy'), ini, cap, alpha, c.real('beta', 0, 1), c.real('eps', 0, 1))
            N = c.choice('N', [0, 2, 3])
            A = p03.arrays(c, max(N, 1), 'A', d, 1, False, 'np')
            pr = [c.real(f'p{k}', 0.125, 8) for k in range(N)]
            if N:
                mem.add(p06.one(c, A, 0, 'numpy', False, upto=N), pr)
            m2 = reload(c, mem, full)
            if full:
                same(c, 'max-priority', mem.max_priority, m2.max_priority)
                same(c, 'initialized', mem.initialized, m2.initialized)
                c.ensure_eq('size', lambda: m2._tree.size, N)
                c.ensure_eq('total', lambda: m2._tree.total_p, lambda: mem._tree.total_p)
                p03.same(c, m2._tree.dataset, 'content', N, lambda f, k, *j: c.at(A[f], k, *j), p03.FIELDS)
            else:
                c.ensure_eq('size', lambda: m2._tree.size, 0)
                c.ensure_eq('initialized', lambda: m2.initialized, False)
                c.ensure_eq('no-priority-left', lambda: m2._tree.total_p, 0)
            X = p03.arrays(c, 1, 'X', d, 1, False, 'np')
            q = c.real('q', 0.125, 8)
            m2.add(p06.one(c, X, 0, 'numpy', False), [q])
            slot = (N % cap) if full else 0
            c.ensure_eq('next-slot', lambda: c.at(m2._tree.dataset.reward, slot), c.at(X['reward'], 0))
            keep = [k for k in range(N) if full and k != slot]
            c.ensure_eq('total-after', lambda: m2._tree.total_p, lambda: sum([pr[k] for k in keep], 0.) + q)
    mk_per(_f)


@harness(P, 'parameters')
def parameters(c):
    Pm = c.mod('mushroom_rl.rl_utils.parameters')
    nS, nA = c.size('nS', 1), c.size('nA', 1)
    v, th = c.real('v'), c.real('th')
    kind = c.choice('kind', ['constant', 'bounded', 'linear', 'decay'])
    if kind == 'constant':
        p = Pm.Parameter(v, size=(nS, nA))
    elif kind == 'bounded':
        p = Pm.Parameter(v, min_value=0.25, max_value=0.75, size=(nS, nA))
    elif kind == 'linear':
        p = Pm.LinearParameter(v, th, 10, size=(nS, nA))
    else:
        p = Pm.DecayParameter(v, exp=1., min_value=th, size=(nS, nA))
    n0 = c.array('uses', (nS, nA), 'int', lo=0, hi=30)
    p._n_updates.table[:] = n0
    s, a = c.array('s', (1,), 'int', lo=0, hi=nS - 1), c.array('a', (1,), 'int', lo=0, hi=nA - 1)
    q = reload(c, p, c.bool('full'))
    same(c, 'current', p.get_value(s, a), q.get_value(s, a))
    same(c, 'after-use', p(s, a), q(s, a))
    same(c, 'shape', p.shape, q.shape)
    same(c, 'initial', p.initial_value, q.initial_value)


@harness(P, 'tables')
def tables(c):
    T = c.mod('mushroom_rl.approximators.table').Table
    ET = c.mod('mushroom_rl.approximators.ensemble_table').EnsembleTable
    nS, nA = c.size('nS', 1), c.size('nA', 1)
    q = c.array('Q', (nS, nA))
    t = T((nS, nA))
    t.table[:] = q
    t2 = reload(c, t, c.bool('full'))
    same(c, 'table', q, t2.table)
    same(c, 'shape', t.shape, t2.shape)
    same(c, 'n-actions', t.n_actions, t2.n_actions)
    e = ET(2, (nS, nA))
    for k in range(2):
        e[k].table[:] = c.array(f'E{k}', (nS, nA))
    e2 = reload(c, e, False)
    c.ensure('members', len(e2) == 2)
    s = c.array('s', (1,), 'int', lo=0, hi=nS - 1)
    for k in range(2):
        same(c, f'member{k}', e[k].table, e2[k].table)
    same(c, 'prediction', e.predict(s), e2.predict(s))


@harness(P, 'traces')
def traces(c):
    E = c.mod('mushroom_rl.rl_utils.eligibility_trace')
    nS, nA = c.size('nS', 1), c.size('nA', 1)
    for cls in (E.ReplacingTrace, E.AccumulatingTrace):
        t = cls((nS, nA))
        t.table[:] = c.array('T' + cls.__name__, (nS, nA))
        t2 = reload(c, t, False)
        s, a = c.array('s', (1,), 'int', lo=0, hi=nS - 1), c.array('a', (1,), 'int', lo=0, hi=nA - 1)
        t.update(s, a)
        t2.update(s, a)
        same(c, cls.__name__, t.table, t2.table)
        t2.reset()
        c.ensure_all(cls.__name__ + '-reset', (nS, nA), lambda i, j: c.eq(c.at(t2.table, i, j), 0))


@harness(P, 'optimizers')
def optimizers(c):
    O = c.mod('mushroom_rl.rl_utils.optimizers')
    n = 2
    mx = c.bool('maximize')
    kind = c.choice('kind', ['sgd', 'adam', 'adaptive'])
    lr = c.real('lr', 0, 1, open_lo=True)
    if kind == 'sgd':
        o = O.SGDOptimizer(c.mod('mushroom_rl.rl_utils.parameters').Parameter(lr), mx)
    elif kind == 'adam':
        o = O.AdamOptimizer(c.mod('mushroom_rl.rl_utils.parameters').Parameter(lr), c.real('b1', 0.1, 0.9), c.real('b2', 0.1, 0.9),
                            c.real('eps', 0.001, 1), maximize=mx)
    else:
        o = O.AdaptiveOptimizer(c.real('eps', 0.001, 1), mx)
    g = [c.array(f'g{k}', (n,)) for k in range(2)]
    th = c.array('theta', (n,))
    if kind == 'adaptive':
        c.assume(c.lt(0, c.at(g[1], 0)))
        c.assume(c.lt(0, c.at(g[0], 0)))
    if c.bool('used'):
        o(c.copy(th), c.copy(g[0]))
    o2 = reload(c, o, c.bool('full'))
    same(c, 'next-step', o(c.copy(th), c.copy(g[1])), o2(c.copy(th), c.copy(g[1])))


@harness(P, 'running_statistics')
def running(c):
    R = c.mod('mushroom_rl.rl_utils.running_stats')
    d = c.size('d', 1)
    x = [c.array(f'x{k}', (1, d)) for k in range(3)]
    kind = c.choice('kind', ['standard', 'window', 'exp'])
    o = {'standard': lambda: R.RunningStandardization((d,), 'numpy', c.real('alpha', 0.1, 0.9)),
         'window': lambda: R.RunningAveragedWindow((d,), 2, 'numpy'),
         'exp': lambda: R.RunningExpWeightedAverage((d,), c.real('alpha', 0.1, 0.9), 'numpy')}[kind]()
    o.update_stats(x[0])
    o.update_stats(x[1])
    o2 = reload(c, o, c.bool('full'))
    for e in (o, o2):
        e.update_stats(x[2])
    same(c, 'mean', o.mean, o2.mean)
    if kind == 'standard':
        same(c, 'std', o.std, o2.std)
    o2.reset()


@harness(P, 'preprocessors')
def preprocessors(c):
    Pr = c.mod('mushroom_rl.rl_utils.preprocessors')
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    core = c.mod('mushroom_rl.core')
    d = 2
    info = core.MDPInfo(sp.Box(c.np.array([-1., -2.]), c.np.array([1., c.np.inf])), sp.Discrete(2), .9, 10)
    o = (Pr.StandardizationPreprocessor if c.bool('standard') else Pr.MinMaxPreprocessor)(
        info, 'numpy', c.real('clip', 0.5, 10), c.real('alpha', 0.1, 0.9))
    x = [c.array(f'x{k}', (d,), lo=-3, hi=3) for k in range(3)]
    o(c.copy(x[0]))
    o(c.copy(x[1]))
    o2 = reload(c, o, c.bool('full'))
    same(c, 'next-output', o(c.copy(x[2])), o2(c.copy(x[2])))


@harness(P, 'td_policies')
def policies(c):
    T = c.mod('mushroom_rl.policy.td_policy')
    Tb = c.mod('mushroom_rl.approximators.table').Table
    nA = 2
    q = Tb((1, nA))
    q.table[:] = c.array('Q', (1, nA), lo=-2, hi=2)
    kind = c.choice('kind', ['eps', 'boltzmann'])
    pi = T.EpsGreedy(c.real('eps', 0, 1)) if kind == 'eps' else T.Boltzmann(c.real('beta', 0, 2))
    pi.set_q(q)
    full = c.bool('full')
    p2 = reload(c, pi, full)
    if full:
        c.ensure('table-saved', p2.get_q() is not None)
        if p2.get_q() is None:
            return
        same(c, 'greedy-table', q.table, p2.get_q().table)
    else:
        c.ensure('no-table-saved', p2.get_q() is None)
        p2.set_q(q)
    s = c.np.zeros((1,), dtype=int) if not c.symbolic else c.np.zeros((1,), dtype=c.np.int64)
    same(c, 'probabilities', pi(s), p2(s))


@harness(P, 'linear_regressor')
def linear(c):
    Ap = c.mod('mushroom_rl.approximators')
    Lin = c.mod('mushroom_rl.approximators.parametric').LinearApproximator
    d, m = c.size('d', 1), c.size('m', 1)
    r = Ap.Regressor(Lin, input_shape=(d,), output_shape=(m,))
    w = c.array('w', (d * m,))
    r.set_weights(w)
    r2 = reload(c, r, c.bool('full'))
    same(c, 'weights', w, r2.get_weights())
    same(c, 'input-shape', r.input_shape, r2.input_shape)
    same(c, 'output-shape', r.output_shape, r2.output_shape)
    same(c, 'weights-size', r.weights_size, r2.weights_size)
    x = c.array('x', (d,))
    same(c, 'prediction', r.predict(x), r2.predict(x))


TD = ['QLearning', 'DoubleQLearning', 'SARSA', 'ExpectedSARSA', 'SpeedyQLearning', 'RLearning', 'RQLearning', 'MaxminQLearning']


def mk_td(name):
    @harness(P, 'agent_' + name)
    def td(c):
        V = c.mod('mushroom_rl.algorithms.value')
        info, nS, nA, gamma = mdp(c)
        T = c.mod('mushroom_rl.policy.td_policy')
        pi = T.EpsGreedy(c.real('eps', 0, 1))
        Pm = c.mod('mushroom_rl.rl_utils.parameters').Parameter
        lr = Pm(c.real('lr', 0, 1))
        args = dict(RLearning=(Pm(c.real('beta', 0, 1)),), RQLearning=('q', Pm(c.real('beta', 0, 1))), MaxminQLearning=(2,)).get(name, ())
        ag = getattr(V, name)(info, pi, lr, *args)
        members = [ag.Q[0], ag.Q[1]] if name in ('DoubleQLearning', 'MaxminQLearning') else [ag.Q]
        for k, t in enumerate(members):
            t.table[:] = c.array(f'Q{k}', (nS, nA))
        ag2 = reload(c, ag, c.bool('full'))
        mem2 = [ag2.Q[0], ag2.Q[1]] if len(members) == 2 else [ag2.Q]
        for k in range(len(members)):
            same(c, f'table{k}', members[k].table, mem2[k].table)
        c.ensure('policy-uses-the-loaded-table', lambda: ag2.policy.get_q() is ag2.Q)
        same(c, 'gamma', ag.mdp_info.gamma, ag2.mdp_info.gamma)
        s = c.array('s', (1,), 'int', lo=0, hi=nS - 1)
        a = c.array('a', (1,), 'int', lo=0, hi=nA - 1)
        same(c, 'learning-rate', ag._alpha.get_value(s, a), ag2._alpha.get_value(s, a))
        same(c, 'epsilon', ag.policy._epsilon.get_value(s), ag2.policy._epsilon.get_value(s))
        if name in ('QLearning', 'SpeedyQLearning', 'ExpectedSARSA', 'RLearning'):
            s2 = c.array('s2', (1,), 'int', lo=0, hi=nS - 1)
            r = c.real('r')
            for g in (ag, ag2):
                g.fit(one_step(c, info, g, s, a, r, s2, False))
            for k in range(len(members)):
                same(c, f'updated{k}', members[k].table, mem2[k].table)


for _n in TD:
    mk_td(_n)
