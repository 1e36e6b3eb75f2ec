"""P17 - step information and the backend-neutral array operations."""
from pydv.ctx import harness

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.core.extra_info', 'mushroom_rl.core.array_backend']
P = 'P17'
BACKENDS = ('numpy', 'torch')


def lib(b):
    return 'torch' if b == 'torch' else 'np'


def nothing(c):
    """the value standing for a missing entry (NaN); any real in the proofs"""
    B = c.mod('mushroom_rl.core.array_backend')
    if not c.symbolic:
        return float('nan')
    v = c.real('missing')
    for k in ('NumpyBackend', 'TorchBackend', 'ListBackend'):
        c.stub(getattr(B, k), 'none', staticmethod(lambda: v))
    return v


def libname(c, a):
    if c.symbolic:
        return getattr(a, 'lib', None)
    return 'torch' if type(a).__module__.startswith('torch') else 'np'


class Obj:
    """an extra info with n parsed steps and some more appended, and its ghost content"""
    def __init__(self, c, backend, tag, n_envs=1, d=None, new=2, keys=('x', 'in'), parsed=True):
        E = c.mod('mushroom_rl.core.extra_info')
        self.c, self.backend = c, backend
        L = lib(backend)
        self.d = d if d is not None else c.size('d', 1)
        self.e = E.ExtraInfo(n_envs, backend)
        self.n = c.int('n' + tag, 0, 3 if not c.symbolic else None) if parsed else 0
        self.keys = keys
        self.X = c.array('X' + tag, (self.n, self.d), lib=L)
        self.Y = c.array('Y' + tag, (self.n,), lib=L)
        self.steps = []
        if parsed:
            if c.symbolic:
                some = bool(c.lt(0, self.n))
            else:
                some = self.n > 0
            if some:
                if c.symbolic:
                    from pydv.core import Unsupported
                    for a in ('_structured_storage', '_key_mapping', '_shape_mapping', '_storage'):
                        if not hasattr(self.e, a):
                            raise Unsupported('extra info field ' + a + ' not found')
                    if 'x' in keys:
                        self.e._key_mapping['x'] = ['x']
                        self.e._shape_mapping['x'] = (self.d,)
                        self.e._structured_storage['x'] = c.copy(self.X)
                    if 'in' in keys:
                        self.e._key_mapping['in_y'] = ['in', 'y']
                        self.e._shape_mapping['in_y'] = ()
                        self.e._structured_storage['in_y'] = c.copy(self.Y)
                    self.e.data = dict(self.e._structured_storage)
                else:
                    for k in range(self.n):
                        s = {}
                        if 'x' in keys:
                            s['x'] = c.copy(self.X[k])
                        if 'in' in keys:
                            s['in'] = {'y': float(self.Y[k])}
                        self.e.append(s)
                    self.e.parse()
        for j in range(new):
            self.add(c, tag + str(j), keys)

    def add(self, c, tag, keys, z=None):
        x = c.array('x' + tag, (self.d,), lib=lib(self.backend))
        y = c.real('y' + tag)
        s = {}
        if 'x' in keys:
            s['x'] = c.copy(x)
        if 'in' in keys:
            s['in'] = {'y': y}
        if z is not None:
            s['z'] = z
        self.e.append(s)
        self.steps.append((x if 'x' in keys else None, y if 'in' in keys else None, z))

    @property
    def total(self):
        return self.n + len(self.steps)

    def at(self, key, k, j=None, none=None):
        """the ghost content: value of key (x, y or z) at step k"""
        c = self.c

        def old():
            if key == 'x':
                return c.at(self.X, k, j) if 'x' in self.keys else none
            if key == 'y':
                return c.at(self.Y, k) if 'in' in self.keys else none
            return none
        v = old
        for i, (x, y, z) in enumerate(self.steps):
            w = {'x': None if x is None else (lambda x=x: c.at(x, j)), 'y': None if y is None else (lambda y=y: y),
                 'z': None if z is None else (lambda z=z: z)}[key]
            w = w or (lambda: none)
            v = (lambda old, i, w: lambda: c.ite(c.eq(k, self.n + i), w, old))(v, i, w)
        return v()


def holds(c, name, info, total, d, at, keys=('x', 'in_y')):
    c.ensure(name + '-keys', set(info.keys()) == set(keys))
    if set(info.keys()) != set(keys):
        return
    if 'x' in keys:
        c.ensure_shape(name + '-x-shape', info['x'], (total, d))
        c.ensure_all(name + '-x', (total, d), lambda k, j: c.eq(c.at(info['x'], k, j), at('x', k, j)))
    for kk, g in (('in_y', 'y'), ('z', 'z')):
        if kk in keys:
            c.ensure_shape(name + '-' + kk + '-shape', info[kk], (total,))
            c.ensure_all(name + '-' + kk, (total,), lambda k: c.eq(c.at(info[kk], k), at(g, k)))


def mk(backend):
    other = 'torch' if backend == 'numpy' else 'numpy'

    @harness(P, 'parse_' + backend)
    def parse(c):
        none = nothing(c)
        o = Obj(c, backend, 'A')
        e = o.e
        to = c.choice('to', [None, 'same', 'other'])
        to_ = {None: None, 'same': backend, 'other': other}[to]
        e.parse() if to_ is None else e.parse(to_)
        holds(c, 'parsed', e, o.total, o.d, o.at)
        c.ensure('array-library', lambda: libname(c, e['x']) == lib(to_ or backend))
        # parsing again changes nothing
        e.parse()
        holds(c, 'parsed-twice', e, o.total, o.d, o.at)
        c.ensure('array-library-kept', lambda: libname(c, e['x']) == lib(to_ or backend))
        # and more steps can follow
        if c.bool('more'):
            o.add(c, 'B', ('x', 'in'))
            e.parse()
            holds(c, 'parsed-more', e, o.total, o.d, o.at)

    @harness(P, 'missing_and_new_keys_' + backend)
    def missing(c):
        none = nothing(c)
        o = Obj(c, backend, 'A', new=1)
        e = o.e
        which = c.choice('which', ['without-x', 'without-in', 'new-z'])
        if which == 'new-z':
            o.add(c, 'B', ('x', 'in'), z=c.real('z'))
        else:
            o.add(c, 'B', ('in',) if which == 'without-x' else ('x',))
        if c.bool('early-parse'):
            e.parse()
        o.add(c, 'C', ('x', 'in'))
        e.parse()
        holds(c, 'aligned', e, o.total, o.d, lambda key, k, j=None: o.at(key, k, j, none),
              ('x', 'in_y') + (('z',) if which == 'new-z' else ()))

    @harness(P, 'add_' + backend)
    def add(c):
        none = nothing(c)
        d = c.size('d', 1)
        which = c.choice('which', ['same-keys', 'only-left', 'only-right'])
        na, nb = c.choice('newA', [0, 1]), c.choice('newB', [0, 1])
        a = Obj(c, backend, 'A', d=d, new=na, keys=('x',) if which == 'only-right' else ('x', 'in'))
        b = Obj(c, backend, 'B', d=d, new=nb, keys=('x',) if which == 'only-left' else ('x', 'in'))
        r = a.e + b.e
        r.parse()
        if which != 'same-keys':
            # a key nobody reported is no key
            if which == 'only-right' and not bool(c.lt(0, b.total)) or which == 'only-left' and not bool(c.lt(0, a.total)):
                return
        if not bool(c.lt(0, a.total + b.total)):
            c.ensure('empty', len(r.keys()) == 0)
            return

        def at(key, k, j=None):
            return c.ite(c.lt(k, a.total), lambda: a.at(key, k, j, none), lambda: b.at(key, k - a.total, j, none))
        holds(c, 'concatenation', r, a.total + b.total, d, at)
        # the operands are as before
        for o, nm in ((a, 'left'), (b, 'right')):
            if bool(c.lt(0, o.total)):
                o.e.parse()
                holds(c, nm, o.e, o.total, d, o.at, tuple('in_y' if k == 'in' else k for k in o.keys))
        r.append({'x': c.array('xn', (d,), lib=lib(backend)), 'in': {'y': c.real('yn')}})
        r.parse()
        c.ensure_shape('longer', r['x'], (a.total + b.total + 1, d))
        for o, nm in ((a, 'left'), (b, 'right')):
            if bool(c.lt(0, o.total)):
                o.e.parse()
                holds(c, nm + '-untouched', o.e, o.total, d, o.at, tuple('in_y' if k == 'in' else k for k in o.keys))

    @harness(P, 'copy_' + backend)
    def copy(c):
        o = Obj(c, backend, 'A', new=c.choice('new', [0, 1]))
        if not bool(c.lt(0, o.total)):
            return
        r = o.e.copy()
        tot = o.total
        o2 = o.e
        r.parse()
        holds(c, 'copy', r, tot, o.d, o.at)
        r.append({'x': c.array('xn', (o.d,), lib=lib(backend)), 'in': {'y': c.real('yn')}})
        r.parse()
        c.ensure_shape('longer', r['x'], (tot + 1, o.d))
        o2.parse()
        holds(c, 'original', o2, tot, o.d, o.at)
        o.e.clear()
        c.ensure('cleared', len(o.e.keys()) == 0)
        holds(c, 'copy-kept', dict_head(r), tot + 1, o.d, lambda key, k, j=None: c.at(r['x'], k, j) if key == 'x' else c.at(r['in_y'], k))
        o.e.parse()
        c.ensure('cleared-for-good', len(o.e.keys()) == 0)
        o.n, o.steps = 0, []
        o.add(c, 'N', ('x', 'in'))
        o.e.parse()
        holds(c, 'after-clear', o.e, 1, o.d, o.at)

    @harness(P, 'view_' + backend)
    def view(c):
        o = Obj(c, backend, 'A', new=c.choice('new', [1, 2]))
        tot = o.total
        kind = c.choice('kind', ['slice', 'indices'])
        cp = c.bool('copy')
        if kind == 'slice':
            lo = c.int('lo', 0, tot)
            hi = c.int('hi', lo, tot)
            m, idx, g = hi - lo, slice(lo, hi), (lambda k: lo + k)
        else:
            m = c.size('m', 1)
            idx = c.array('idx', (m,), 'int', lo=0, hi=tot - 1, lib=lib(backend))
            g = lambda k: c.at(idx, k)
        v = o.e.get_view(idx, cp) if c.bool('positional') else o.e.get_view(idx, copy=cp)
        at = lambda key, k, j=None: o.at(key, g(k), j)
        holds(c, 'view', v, m, o.d, at)
        x, y = c.array('xn', (o.d,), lib=lib(backend)), c.real('yn')
        v.append({'x': x, 'in': {'y': y}})
        v.parse()
        at2 = lambda key, k, j=None: c.ite(c.lt(k, m), lambda: at(key, k, j), lambda: c.at(x, j) if key == 'x' else y)
        holds(c, 'view-extended', v, m + 1, o.d, at2)
        o.e.parse()
        holds(c, 'original', o.e, tot, o.d, o.at)
        if cp:
            v2 = o.e.get_view(idx, True)
            o.e['x'][0] = o.e['x'][0] + 1.
            holds(c, 'copied-view', v2, m, o.d, at)

    @harness(P, 'vector_dicts_' + backend)
    def vdict(c):
        """one dictionary of arrays per step for all the environments"""
        E = c.mod('mushroom_rl.core.extra_info')
        L = lib(backend)
        n, d, T = c.size('n_envs', 2), c.size('d', 1), 2
        e = E.ExtraInfo(n, backend)
        X = [c.array(f'X{t}', (n, d), lib=L) for t in range(T)]
        Y = [c.array(f'Y{t}', (n,), lib=L) for t in range(T)]
        for t in range(T):
            e.append({'x': c.copy(X[t]), 'y': c.copy(Y[t])})
            if t == 0 and c.bool('early-parse'):
                e.parse()
        e.parse()
        c.ensure_shape('x-shape', e['x'], (T, n, d))
        c.ensure_shape('y-shape', e['y'], (T, n))
        for t in range(T):
            c.ensure_all('x', (n, d), lambda i, j: c.eq(c.at(e['x'], t, i, j), c.at(X[t], i, j)))
            c.ensure_all('y', (n,), lambda i: c.eq(c.at(e['y'], t, i), c.at(Y[t], i)))
        f = e.flatten()
        c.ensure_eq('flat-single', f.n_envs, 1)
        c.ensure_shape('flat-shape', f['x'], (T * n, d))
        for t in range(T):
            c.ensure_all('flat-environment-major', (n, d), lambda i, j: c.eq(c.at(f['x'], T * i + t, j), c.at(X[t], i, j)))
            c.ensure_all('flat-environment-major-y', (n,), lambda i: c.eq(c.at(f['y'], T * i + t), c.at(Y[t], i)))
        f.parse()
        c.ensure_shape('flat-shape-kept', f['x'], (T * n, d))

    @harness(P, 'vector_lists_' + backend)
    def vlist(c):
        """one dictionary per environment"""
        E = c.mod('mushroom_rl.core.extra_info')
        none = nothing(c)
        L = lib(backend)
        n, d, T = 2, c.size('d', 1), 2
        e = E.ExtraInfo(n, backend)
        X = [[c.array(f'X{t}{i}', (d,), lib=L) for i in range(n)] for t in range(T)]
        Y = [[c.real(f'Y{t}{i}') for i in range(n)] for t in range(T)]
        miss = c.bool('second-environment-silent')
        for t in range(T):
            e.append([{'x': c.copy(X[t][i]), **({} if miss and i == 1 and t == 1 else {'y': Y[t][i]})} for i in range(n)])
        e.parse()
        c.ensure_shape('x-shape', e['x'], (T, n, d))
        for t in range(T):
            for i in range(n):
                c.ensure_all('x', (d,), lambda j: c.eq(c.at(e['x'], t, i, j), c.at(X[t][i], j)))
                want = none if miss and i == 1 and t == 1 else Y[t][i]
                c.ensure_eq('y', lambda: c.at(e['y'], t, i), want)
        c.ensure('single-dict-for-one', c.raises(AssertionError, lambda: E.ExtraInfo(1, backend).append([{}])))

    @harness(P, 'masked_flatten_' + backend)
    def masked(c):
        B = c.mod('mushroom_rl.core.array_backend').ArrayBackend.get_array_backend(backend)
        L = lib(backend)
        T, n, d = 2, 2, c.size('d', 1)
        X = c.array('X', (T, n, d), lib=L)
        M = c.array('M', (T, n), 'bool', lib=L)
        E = c.mod('mushroom_rl.core.extra_info')
        e = E.ExtraInfo(n, backend)
        for t in range(T):
            e.append({'x': c.copy(X[t])})
        ms = [[bool(c.at(M, t, i)) for i in range(n)] for t in range(T)]
        f = e.flatten(M)
        kept = [(t, i) for i in range(n) for t in range(T) if ms[t][i]]
        c.ensure_eq('count', lambda: f['x'].shape[0], len(kept))
        p = B.pack_padded_sequence(X, M)
        c.ensure_eq('packed-count', lambda: p.shape[0], len(kept))
        for k, (t, i) in enumerate(kept):
            c.ensure_all('kept-in-environment-order', (d,), lambda j: c.eq(c.at(f['x'], k, j), c.at(X, t, i, j)))
            c.ensure_all('packed-in-environment-order', (d,), lambda j: c.eq(c.at(p, k, j), c.at(X, t, i, j)))

    @harness(P, 'read_only_' + backend)
    def readonly(c):
        o = Obj(c, backend, 'A', new=1, parsed=False)
        o.e.parse()
        e = o.e

        def setit():
            e['x'] = 1

        def delit():
            del e['x']
        for nm, f in (('set', setit), ('del', delit), ('pop', lambda: e.pop('x')), ('popitem', lambda: e.popitem()),
                      ('setdefault', lambda: e.setdefault('w', 1)), ('update', lambda: e.update({'x': 1}))):
            c.ensure(nm + '-rejected', c.raises(TypeError, f))
        holds(c, 'unchanged', e, 1, o.d, o.at)

    @harness(P, 'operations_' + backend)
    def ops(c):
        AB = c.mod('mushroom_rl.core.array_backend').ArrayBackend
        B = AB.get_array_backend(backend)
        L = lib(backend)
        c.ensure('name', B.get_backend_name() == backend)
        n, d = c.size('n', 1), c.size('d', 1)
        x, y = c.array('x', (n, d), lib=L), c.array('y', (n, d), lib=L)
        m = c.array('m', (n, d), 'bool', lib=L)
        c.ensure('recognised', lambda: AB.get_array_backend_from(x) is B)
        w = B.where(m, x, y)
        c.ensure('where-answers', w is not None)
        if w is not None:
            c.ensure_all('where', (n, d), lambda i, j: c.eq(c.at(w, i, j), c.ite(c.at(m, i, j), lambda: c.at(x, i, j), lambda: c.at(y, i, j))))
        k = B.concatenate([x, y])
        c.ensure_shape('concatenate-shape', k, (2 * n, d))
        c.ensure_all('concatenate', (2 * n, d), lambda i, j: c.eq(c.at(k, i, j), c.ite(c.lt(i, n), lambda: c.at(x, i, j), lambda: c.at(y, i - n, j))))
        k1 = B.concatenate([x, y], dim=1)
        c.ensure_shape('concatenate-columns', k1, (n, 2 * d))
        e = B.expand_dims(x, 0)
        c.ensure_shape('expand', e, (1, n, d))
        c.ensure_all('expand', (n, d), lambda i, j: c.eq(c.at(e, 0, i, j), c.at(x, i, j)))
        q = B.squeeze(e, 0)
        c.ensure_shape('squeeze', q, (n, d))
        c.ensure_eq('size', lambda: B.size(x), n * d)
        lo, hi = c.real('lo'), c.real('hi')
        c.assume(c.le(lo, hi))
        g = B.clip(x, lo, hi)
        c.ensure_all('clip', (n, d), lambda i, j: c.eq(c.at(g, i, j), c.ite(c.lt(c.at(x, i, j), lo), lo, c.ite(c.lt(hi, c.at(x, i, j)), hi, c.at(x, i, j)))))
        a = B.abs(x)
        c.ensure_all('abs', (n, d), lambda i, j: c.eq(c.at(a, i, j), c.ite(c.lt(c.at(x, i, j), 0), -c.at(x, i, j), c.at(x, i, j))))
        z = B.copy(x)
        x0 = c.at(x, 0, 0)
        z[0, 0] = x0 + 1.
        c.ensure_eq('copy-is-independent', lambda: c.at(x, 0, 0), x0)
        for nm, v in (('zeros', 0), ('ones', 1)):
            u = getattr(B, nm)(n, d)
            c.ensure_shape(nm + '-shape', u, (n, d))
            c.ensure_all(nm, (n, d), lambda i, j: c.eq(c.at(u, i, j), v))
            u = getattr(B, nm + '_like')(x)
            c.ensure_shape(nm + '-like-shape', u, (n, d))
            c.ensure_all(nm + '-like', (n, d), lambda i, j: c.eq(c.at(u, i, j), v))
        f = B.full((n, d), lo)
        c.ensure_all('full', (n, d), lambda i, j: c.eq(c.at(f, i, j), lo))
        r = B.arange(0, n)
        c.ensure_shape('arange-shape', r, (n,))
        c.ensure_all('arange', (n,), lambda i: c.eq(c.at(r, i), i))
        t = B.atleast_2d(x[0])
        c.ensure_shape('atleast-2d', t, (1, d))
        # conversion between the libraries keeps the values
        for to in BACKENDS:
            v = AB.convert(x, to=to)
            c.ensure('converted-to-' + to, lambda: libname(c, v) == lib(to))
            c.ensure_shape('conversion-shape', v, (n, d))
            c.ensure_all('conversion', (n, d), lambda i, j: c.eq(c.at(v, i, j), c.at(x, i, j)))
            v1, v2 = AB.convert(x, y, to=to)
            c.ensure_all('conversion-of-many', (n, d), lambda i, j: c.and_(c.eq(c.at(v1, i, j), c.at(x, i, j)), c.eq(c.at(v2, i, j), c.at(y, i, j))))

    @harness(P, 'flatten_' + backend)
    def flat(c):
        B = c.mod('mushroom_rl.core.array_backend').ArrayBackend.get_array_backend(backend)
        T, n, d = c.size('T', 1), c.size('n', 1), c.size('d', 1)
        x = c.array('x', (T, n, d), lib=lib(backend))
        f = B.flatten(x)
        c.ensure_shape('flat-shape', f, (T * n, d))
        t, i = c.int('t', 0, T - 1), c.int('i', 0, n - 1)
        c.ensure_all('environment-major', (d,), lambda j: c.eq(c.at(f, T * i + t, j), c.at(x, t, i, j)))


def dict_head(r):
    return r


for _b in BACKENDS:
    mk(_b)
