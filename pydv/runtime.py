"""Loop cut-points and comprehension maps for the instrumented code."""
import sys
import z3
from .core import *
from .core import s_lt, s_add, s_eq, s_and, s_le
from .arrays import SymArray, SymList, SymRange, nrm_idx, Fn, Store, fresh_array
from .shims import is_iter_sym, seq_of, SymSeq, Tqdm


class Undef:
    def __getattr__(self, n):
        raise Unsupported('use of a loop-local variable that the loop contract does not define')
    __add__ = __radd__ = __getitem__ = __bool__ = __call__ = __iter__ = __getattr__


class LoopContract:
    """havoc(L, env) -> dict of new locals (heap changes through L.havoc_*)
       inv(env, k)   -> list of (label, condition)
       step_pre(env, k): ghost action at the start of an arbitrary iteration"""

    def __init__(self, havoc, inv, ghost=None, bound=None):
        self.havoc, self.inv, self.ghost = havoc, inv, ghost


class Env(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise Unsupported(f'loop contract: no local variable named {n} in the loop (renamed?)')

    def __getitem__(self, n):
        try:
            return dict.__getitem__(self, n)
        except KeyError:
            raise Unsupported(f'loop contract: no local variable named {n} in the loop (renamed?)')


class HeapSnap:
    """Frame check: which heap locations reachable from the locals changed."""

    def __init__(self, env, allowed):
        self.allowed = allowed
        self.keep = []
        self.rec = {}
        self.walk(dict(env), 'locals', 0, top=True)

    def walk(self, o, path, depth, top=False):
        if depth > 7:
            return
        if isinstance(o, (int, float, str, bool, type(None), SV, Undef, type)) or callable(o) and not hasattr(o, '__dict__'):
            return
        i = id(o)
        if not top and i in self.rec:
            return
        if isinstance(o, SymArray):
            s = o._store
            if id(s) not in self.rec:
                self.keep.append(s)
                self.rec[id(s)] = ('store', s, s.version, path)
            return
        if isinstance(o, SymList):
            self.keep.append(o)
            self.rec[i] = ('slist', o, o.version, path)
            return
        mod = type(o).__module__
        if isinstance(o, dict):
            self.keep.append(o)
            if not top:
                self.rec[i] = ('dict', o, dict(o), path)
            for k, v in list(o.items()):
                self.walk(v, f'{path}.{k}', depth + 1)
        elif isinstance(o, (list, tuple, set)) or type(o).__name__ == 'deque':
            self.keep.append(o)
            if not isinstance(o, tuple):
                self.rec[i] = ('list', o, list(o), path)
            for k, v in enumerate(list(o)):
                self.walk(v, f'{path}[{k}]', depth + 1)
        elif hasattr(o, '__dict__') and not isinstance(o, type) and not type(o).__name__ in ('module', 'function', 'method') \
                and not mod.startswith(('pydv', 'torch', 'numpy')) or getattr(o, '_pydv_ghost', False):
            self.keep.append(o)
            self.rec[i] = ('obj', o, dict(vars(o)), path)
            for k, v in list(vars(o).items()):
                self.walk(v, f'{path}.{k}', depth + 1)
        elif type(o).__name__ == 'method':
            self.walk(o.__self__, path, depth + 1)

    def check(self):
        def same(a, b):
            if a is b:
                return True
            if isinstance(a, SV) and isinstance(b, SV):
                return a.t.eq(b.t)
            if isinstance(a, (int, float, str, bool)) and type(a) is type(b):
                return a == b
            return False
        for i, (kind, o, old, path) in self.rec.items():
            if kind == 'store':
                if o.version != old and ('store', id(o)) not in self.allowed:
                    raise Unsupported(f'loop frame: {path} is modified but not in the loop contract')
            elif kind == 'slist':
                if o.version != old and ('slist', id(o)) not in self.allowed:
                    raise Unsupported(f'loop frame: {path} is modified but not in the loop contract')
            elif kind in ('dict', 'obj'):
                new = o if kind == 'dict' else vars(o)
                for k in set(old) | set(new):
                    if ('attr', id(o), k) in self.allowed or ('obj', id(o)) in self.allowed:
                        continue
                    if k not in old or k not in new or not same(old[k], new[k]):
                        raise Unsupported(f'loop frame: {path}.{k} is modified but not in the loop contract')
            elif kind == 'list':
                if ('obj', id(o)) in self.allowed:
                    continue
                if len(old) != len(o) or not all(same(a, b) for a, b in zip(old, list(o))):
                    raise Unsupported(f'loop frame: {path} is modified but not in the loop contract')


class Loop:
    def __init__(self, rt, lid, env, names, seq, contract):
        self.rt, self.lid, self.names, self.seq, self.contract = rt, lid, names, seq, contract
        self.cut = contract is not None
        self.allowed = set()
        self.new = {}
        if self.cut:
            E().loops_used.add(lid)
            self.n = seq[0] if seq else None
            env = Env(env)
            self._oblige(env, 0, 'init')
            self.k = SV(E().fresh('it', Int))
            E().assume(self.k.t >= 0)
            if self.n is not None:
                E().assume(zt(s_le(self.k, self.n)))
            self.new = dict(contract.havoc(self, env) or {})

    # ---- havoc helpers used by contracts
    def havoc_array(self, a):
        s = a._store
        f = fresh_array('hv', tuple(a.shape) if a._vmap is None else tuple(a.shape), s.kind)
        if a._vmap is not None:
            raise Unsupported('havoc of a view')
        s.fn = f._store.fn if isinstance(f, SymArray) else s.fn
        s.version += 1
        self.allowed.add(('store', id(s)))
        return a

    def havoc_attr(self, o, name, value):
        setattr(o, name, value)
        self.allowed.add(('attr', id(o), name))
        if hasattr(value, '_store'):       # a fresh array: its content is havocked too
            self.allow_store(value)
        return value

    def allow_obj(self, o):
        self.allowed.add(('obj', id(o)))

    def allow_attr(self, o, *names):
        for n in names:
            self.allowed.add(('attr', id(o), n))

    def allow_store(self, a):
        self.allowed.add(('store', id(a._store)))

    def allow_list(self, a):
        self.allowed.add(('slist', id(a)))

    def int(self, base='h', lo=None):
        v = SV(E().fresh(base, Int))
        if lo is not None:
            E().assume(zt(s_le(lo, v)))
        return v

    def real(self, base='h'):
        return SV(E().fresh(base, Real))

    def bool(self, base='h'):
        return SV(E().fresh(base, Bool))

    def symlist(self, kind='real', elem_shape=()):
        n = self.int('len', 0)
        a = fresh_array('sl', (n,) + tuple(elem_shape), kind)
        if elem_shape:
            r = SymList(n, lambda k: a[k] if False else _rowv(a, k), elem_shape, kind)
        else:
            r = SymList(n, lambda k: a.at(k), (), kind)
        self.allowed.add(('slist', id(r)))
        return r

    def h(self, name):
        if name in self.new:
            return self.new[name]
        return Undef()

    def _oblige(self, env, k, phase):
        for label, cond in self.contract.inv(env, k):
            self.rt.ctx._oblige(f'{self.lid.split(".")[-1]}:{phase}:{label}', cond, kind='loop-' + phase)

    def run(self):
        if not self.cut:
            yield from self.native()
            return
        env = Env(sys._getframe(1).f_locals)
        for label, cond in self.contract.inv(env, self.k):
            E().assume(cond if not isinstance(cond, bool) else z3.BoolVal(cond))
        if self.n is None:                      # while
            snap = HeapSnap(self._clean(env), self.allowed)
            if self.contract.ghost:
                self.contract.ghost(env, self.k)
            yield None
        else:
            if not bool(s_lt(self.k, self.n)):
                E().assume(zt(s_eq(self.k, self.n)))
                return
            snap = HeapSnap(self._clean(env), self.allowed)
            if self.contract.ghost:
                self.contract.ghost(env, self.k)
            yield self.seq[1](self.k)
        env2 = Env(sys._getframe(1).f_locals)
        E().ghost['step_k'] = self.k
        try:
            self._oblige(env2, s_add(self.k, 1), 'step')
        finally:
            E().ghost.pop('step_k', None)
        snap.check()
        raise PathEnd()

    def _clean(self, env):
        return {k: v for k, v in env.items() if not k.startswith(('__pv', '_')) or k in ('self',)}

    def native(self):
        budget = self.rt.unroll
        if self.seq is not None and isinstance(self.seq, tuple):
            n, get = self.seq
            k = 0
            while True:
                if not bool(s_lt(k, n)):
                    return
                if k >= budget:
                    raise Unsupported(f'loop {self.lid} over a symbolic length has no contract')
                yield get(k)
                k += 1
        elif self.seq is not None:
            yield from self.seq
        else:
            k = 0
            while True:
                if k > self.rt.while_unroll:
                    if self.rt.unroll:          # bounded mode: stated unwinding bound
                        raise PathEnd()
                    raise Unsupported(f'while loop {self.lid} has no contract')
                k += 1
                yield None


def _rowv(a, k):
    f = a.getter()
    k = nrm_idx(k)
    return SymArray(Store(lambda idx: f((k,) + tuple(idx)), a._kind), a.shape[1:], lib=a.lib)


class GetItemSeq:
    """iteration through __getitem__ until IndexError"""


class Runtime:
    def __init__(self):
        self.ctx = None
        self.loops = {}
        self.unroll = 0
        self.while_unroll = 64
        self.bounded = False

    def enter(self, name):
        e = Engine.cur
        if e is not None:
            e.functions.add(name)

    def enter_for(self, it, lid, env, names):
        if isinstance(it, Tqdm):
            it = it.it
        c = self.loops.get(lid)
        if is_iter_sym(it):
            n, get = seq_of(it)
            if isinstance(n, SV):
                n = nrm_idx(n)
            if isinstance(n, SV) and c is None and not self.unroll:
                u = E().unique(n)
                if u is not None and 0 <= u <= 8:
                    n = u
            if isinstance(n, SV):
                return Loop(self, lid, env, names, (n, get), c)
            return Loop(self, lid, env, names, [get(k) for k in range(n)], None)
        t = type(it)
        if t.__module__.startswith('mushroom_rl') and not hasattr(t, '__iter__') and hasattr(t, '__getitem__') \
                and hasattr(t, '__len__'):
            n = t.__len__(it)
            if isinstance(n, SV):
                n = nrm_idx(n)
            if isinstance(n, SV) and c is not None:
                return Loop(self, lid, env, names, (n, lambda k: it[k]), c)
        return Loop(self, lid, env, names, list(it) if isinstance(it, tuple) else it, None)

    def enter_while(self, lid, env, names):
        return Loop(self, lid, env, names, None, self.loops.get(lid))

    def comp(self, it, thunk, kind):
        if isinstance(it, Tqdm):
            it = it.it
        if is_iter_sym(it):
            n, get = seq_of(it)
            if isinstance(n, SV):
                n = nrm_idx(n)
            if isinstance(n, SV):
                one = lambda k: thunk([get(k)])[0]
                return LazyMap(n, one)
            return thunk([get(k) for k in range(n)])
        r = thunk(it)
        return iter(r) if kind == 'gen' else r


class LazyMap(SymList):
    def __init__(self, n, one):
        super().__init__(n, one)
        self._probe = False

    def as_array(self, kind=None, lib='np'):
        # element shape and kind from a probe element of the (non-empty) sequence
        if not bool(s_lt(0, self.n)):
            return SymArray(Store(lambda idx: 0.0, kind or 'real'), (0,), lib=lib)
        e = self._get(0)
        if isinstance(e, SymArray):
            self.elem_shape, self.kind = tuple(e.shape), e._kind
        else:
            from .core import kind_of_value
            self.kind = kind_of_value(e)
        return super().as_array(kind, lib)
