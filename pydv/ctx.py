"""Harness contexts.  The same harness runs in two modes:
  SymCtx  - symbolic inputs, instrumented repository code, obligations to the solver (the proof)
  ConcCtx - concrete inputs, the untouched repository code (counterexample replay, cross-check)
"""
import os
import importlib
import json
import math
import random
import traceback
from fractions import Fraction


class Skip(Exception):
    """precondition not met by the concrete input"""


class Violated(Exception):
    pass


REGISTRY = {}


class Harness:
    def __init__(self, prop, name, fn, opts):
        self.prop, self.name, self.fn, self.opts = prop, name, fn, opts


def harness(prop, name, **opts):
    def deco(fn):
        if opts.get('thorough') and os.environ.get('PYDV_TIER') != 'thorough':
            return fn
        REGISTRY.setdefault(prop, []).append(Harness(prop, name, fn, opts))
        return fn
    return deco


# ============================================================================ concrete
class ConcCtx:
    symbolic = False

    def __init__(self, seed=0, values=None, size_max=5):
        import numpy, torch
        self.np, self.torch = numpy, torch
        self.rng = random.Random(seed)
        self.seed = seed
        self.values = values or {}
        self.drawn = {}
        self.failures = []
        self.checked = 0
        self.size_max = size_max
        self.patches = []
        self.strict_values = values is not None
        self.scale = 1.0

    # ---- inputs
    def mod(self, name):
        return importlib.import_module(name)

    def _rec(self, name, v):
        self.drawn[name] = v
        return v

    def int(self, name, lo=0, hi=None):
        if name in self.values:
            v = self.values[name]
            if v is not None and (lo is None or v >= lo) and (hi is None or v <= hi):
                return self._rec(name, int(v))
        h = hi if hi is not None else lo + self.size_max
        if isinstance(h, float):
            h = lo + self.size_max
        if h < lo:
            raise Skip()
        r = self.rng.random()
        if r < .15:
            v = lo
        elif r < .25:
            v = h
        else:
            v = self.rng.randint(lo, h)
        return self._rec(name, v)

    def size(self, name, lo=1, hi=None):
        return self.int(name, lo, hi)

    def _real(self, lo, hi):
        r = self.rng.random()
        if lo is not None and hi is not None:
            if r < .1:
                return float(lo)
            if r < .2:
                return float(hi)
            n = self.rng.randint(0, 32)
            return float(lo + (hi - lo) * n / 32)
        if lo is not None:
            return float(lo + (self.rng.randint(0, 64) / 16 if r > .1 else 0))
        if hi is not None:
            return float(hi - (self.rng.randint(0, 64) / 16 if r > .1 else 0))
        if r < .12:
            return self.rng.choice([0., 1., -1.])
        if r > .97:
            return self.rng.choice([50., -50., 1000., -1000.])
        return self.rng.randint(-48, 48) / 16

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        if name in self.values and self.values[name] is not None:
            v = float(self.values[name])
            if (lo is None or v > lo - 1e-12) and (hi is None or v < hi + 1e-12):
                return self._rec(name, v)
        for _ in range(50):
            v = self._real(lo, hi)
            if open_lo and v <= lo or open_hi and v >= hi:
                continue
            return self._rec(name, v)
        return self._rec(name, (lo + hi) / 2 if hi is not None else lo + 1)

    def bool(self, name):
        if name in self.values and self.values[name] is not None:
            return self._rec(name, bool(self.values[name]))
        return self._rec(name, self.rng.random() < .5)

    def choice(self, name, options):
        if name in self.values and isinstance(self.values[name], int) and 0 <= self.values[name] < len(options):
            i = self.values[name]
        else:
            i = self.rng.randrange(len(options))
        self.drawn[name] = i
        return options[i]

    def array(self, name, shape, kind='real', lib='np', lo=None, hi=None):
        np = self.np
        shape = tuple(int(s) for s in shape)
        dt = {'real': float, 'int': int, 'bool': bool}[kind]
        a = np.empty(shape, dtype=dt)
        given = self.values.get(name)
        if given is not None:
            try:
                given = np.array(given)
                if given.shape != shape:
                    given = None
            except Exception:
                given = None
        if given is not None:
            a[...] = given
            if lo is not None:
                a = np.maximum(a, lo).astype(dt)
            if hi is not None:
                a = np.minimum(a, hi).astype(dt)
        else:
            mode = self.rng.random()
            for i in np.ndindex(*shape):
                if kind == 'real':
                    a[i] = self._real(lo, hi)
                elif kind == 'int':
                    l = lo if lo is not None else -8
                    h = hi if hi is not None else 8
                    a[i] = self.rng.randint(l, h)
                else:
                    a[i] = self.rng.random() < (.5 if mode < .6 else .15 if mode < .8 else .85)
        self.drawn[name] = a.tolist()
        if lib == 'torch':
            t = self.torch.from_numpy(a.copy())
            return t.float() if kind == 'real' else t
        return a

    def tabulate(self, shape, f, kind='real', lib='np'):
        """the array with f(i, j, ...) at (i, j, ...)"""
        np = self.np
        shape = tuple(int(s) for s in shape)
        a = np.empty(shape, dtype={'real': float, 'int': int, 'bool': bool}[kind])
        for i in np.ndindex(*shape):
            a[i] = f(*i)
        if lib == 'torch':
            t = self.torch.from_numpy(a.copy())
            return t.float() if kind == 'real' else t
        return a

    def func(self, name, arity=1, out='real', lo=None, hi=None):
        """an arbitrary (deterministic) function"""
        table = {}
        salt = f'{self.seed}/{name}'
        given = self.values.get('fn:' + name)
        gt = {}
        if given:
            for e in given.get('table', []):
                gt[tuple(round(float(x), 6) for x in e[0])] = e[1]

        def f(*args):
            key = tuple(round(float(a), 6) for a in args)
            if key in gt:
                return gt[key]
            if given and given.get('else') is not None and False:
                return given['else']
            if key not in table:
                r = random.Random(f'{salt}/{key}')
                old, self.rng = self.rng, r
                try:
                    table[key] = self._real(lo, hi) if out == 'real' else r.random() < .5 if out == 'bool' \
                        else r.randint(lo if lo is not None else -8, hi if hi is not None else 8)
                finally:
                    self.rng = old
            return table[key]
        self.drawn['fn:' + name] = {'salt': salt}
        return f

    def fresh(self, base, kind='real', lo=None, hi=None):
        """an arbitrary value produced by the environment of the code under contract (one per call)"""
        self._nf = getattr(self, '_nf', 0) + 1
        if kind == 'real':
            v = self._real(lo, hi)
        elif kind == 'int':
            v = self.rng.randint(lo if lo is not None else -8, hi if hi is not None else 8)
        else:
            v = self.rng.random() < .3
        self.drawn.setdefault('fresh', []).append([base, v])
        return v

    def rec(self, name, base, step, kind='real'):
        """ghost function defined by recursion: f(0) = base, f(k + 1) = step(k, f(k))"""
        memo = [base]

        def f(k):
            k = int(k)
            while len(memo) <= k:
                memo.append(step(len(memo) - 1, memo[-1]))
            return memo[k]
        return f

    # ---- logic
    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def assume_all(self, dims, fn):
        for idx in self.np.ndindex(*[int(d) for d in dims]):
            self.assume(fn(*idx))

    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r
    def and_(self, *a): return all(bool(x) for x in a)
    def or_(self, *a): return any(bool(x) for x in a)
    def not_(self, a): return not bool(a)
    def implies(self, a, b): return (not bool(a)) or (bool(b() if callable(b) else b))
    def sum(self, n, f): return sum(f(i) for i in range(int(n)))
    def max(self, n, f): return max(f(i) for i in range(int(n)))
    def min(self, n, f): return min(f(i) for i in range(int(n)))
    def all(self, n, f): return all(bool(f(i)) for i in range(int(n)))
    def any(self, n, f, hint=None): return any(bool(f(i)) for i in range(int(n)))
    def argmax(self, n, f): return max(range(int(n)), key=lambda i: (f(i), -i))
    def exp(self, x): return math.exp(float(x))
    def log(self, x): return math.log(float(x))
    def sqrt(self, x): return math.sqrt(float(x))
    def sin(self, x): return math.sin(float(x))
    def cos(self, x): return math.cos(float(x))
    def tanh(self, x): return math.tanh(float(x))
    def floor(self, x): return math.floor(x)
    def toreal(self, x): return float(x)

    TOL = 2e-4

    def eq(self, a, b):
        a, b = self._s(a), self._s(b)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if a is None or b is None:
            return a is b
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        if math.isinf(a) or math.isinf(b):
            return a == b
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return abs(a - b) <= self.TOL * (1 + max(abs(a), abs(b)))

    def le(self, a, b):
        a, b = self._s(a), self._s(b)
        return a <= b + self.TOL * (1 + abs(b)) if isinstance(a, float) or isinstance(b, float) else a <= b

    def lt(self, a, b):
        """strict comparison used in specs on exact data"""
        return self._s(a) < self._s(b)

    def _s(self, a):
        if hasattr(a, 'item') and not isinstance(a, (int, float)):
            return a.item()
        return a

    def ensure(self, name, cond):
        self.checked += 1
        try:
            ok = bool(cond() if callable(cond) else cond)
        except Skip:
            raise
        except AttributeError:
            raise
        except Exception as e:
            self.failures.append((name, f'{type(e).__name__}: {e}'))
            return
        if not ok:
            self.failures.append((name, ''))

    def ensure_eq(self, name, a, b):
        def cond():
            x = a() if callable(a) else a
            y = b() if callable(b) else b
            if not self.eq(x, y):
                raise Violated(f'{x!r} != {y!r}')
            return True
        self.ensure(name, cond)

    def ensure_all(self, name, dims, fn):
        for idx in self.np.ndindex(*[int(d) for d in dims]):
            before = len(self.failures)
            self.ensure(name, lambda: fn(*idx))
            if len(self.failures) > before:
                n, d = self.failures[-1]
                self.failures[-1] = (n, f'at {idx} {d}')
                return

    def ensure_shape(self, name, a, shape):
        self.ensure(name, lambda: tuple(int(x) for x in a.shape) == tuple(int(s) for s in shape))

    def raises(self, exc, thunk):
        try:
            thunk()
        except exc:
            return True
        return False

    def scalar(self, x):
        return self.np.ndim(x) == 0

    # ---- proof-only hooks
    def loop(self, *a, **k): pass
    def lemma(self, *a, **k): pass
    def note(self, *a): pass
    def trust(self, *a): pass

    def on_backward(self, f):
        """f(value) for every loss whose gradient is asked for"""
        import torch
        old = torch.Tensor.backward

        def backward(t, *a, **k):
            f(t.detach().item() if t.numel() == 1 else t.detach().clone())
            if t.requires_grad:
                return old(t, *a, **k)
        self.stub(torch.Tensor, 'backward', backward)

    def stub(self, obj, name, value):
        self.patches.append((obj, name, vars(obj).get(name, None) if not isinstance(obj, type) else
                             obj.__dict__.get(name), name in vars(obj)))
        setattr(obj, name, value)

    def restore(self):
        for obj, name, old, had in reversed(self.patches):
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
        self.patches = []

    def copy(self, a):
        return a.clone() if hasattr(a, 'clone') else a.copy()

    def at(self, a, *idx):
        return self._s(a[tuple(int(i) for i in idx)] if idx else a)


# ============================================================================ symbolic
class SymCtx:
    symbolic = True

    def __init__(self, eng, rt, bounded=False):
        from . import shims
        self.eng, self.rt, self.bounded = eng, rt, bounded
        self.np, self.torch = shims.np, shims.torch
        self.patches = []
        rt.ctx = self
        rt.loops = {}

    def mod(self, name):
        return importlib.import_module(name)

    # ---- inputs
    def int(self, name, lo=0, hi=None):
        from .core import SV, Int, zt
        import z3
        t = z3.Int(name)
        self.eng.inputs[name] = ('int', t)
        if lo is not None:
            self.eng.assume(t >= zt(lo))
        if hi is not None:
            self.eng.assume(t <= zt(hi))
        return SV(t)

    def size(self, name, lo=1, hi=None):
        v = self.int(name, lo, hi)
        if self.bounded:
            k = 0
            while True:
                if bool(v == lo + k):
                    return lo + k
                k += 1
                if k >= self.bounded:
                    from .core import PathEnd
                    raise PathEnd()
        return v

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        from .core import SV, zt, real_t
        import z3
        t = z3.Real(name)
        self.eng.inputs[name] = ('real', t)
        if lo is not None:
            self.eng.assume(t > real_t(zt(lo)) if open_lo else t >= real_t(zt(lo)))
        if hi is not None:
            self.eng.assume(t < real_t(zt(hi)) if open_hi else t <= real_t(zt(hi)))
        return SV(t)

    def bool(self, name):
        from .core import SV
        import z3
        t = z3.Bool(name)
        self.eng.inputs[name] = ('bool', t)
        return SV(t)

    def choice(self, name, options):
        import z3
        t = z3.Int(name)
        self.eng.inputs[name] = ('int', t)
        self.eng.assume(z3.And(t >= 0, t < len(options)))
        for i in range(len(options) - 1):
            if self.eng.fork(t == i):
                return options[i]
        self.eng.assume(t == len(options) - 1)
        return options[-1]

    def array(self, name, shape, kind='real', lib='np', lo=None, hi=None):
        from .core import Int, Real, Bool, mk, zt, SV, real_t
        from .arrays import SymArray, Store
        import z3
        sort = {'real': Real, 'int': Int, 'bool': Bool}[kind]
        f = z3.Function(name, *([Int] * len(shape)), sort)
        self.eng.inputs[name] = ('array', f, tuple(shape), kind)
        cv = (lambda x: real_t(zt(x))) if kind == 'real' else zt
        eng = self.eng

        def get(idx):
            t = f(*[zt(i) for i in idx])
            if lo is not None:
                eng.axiom(t >= cv(lo))
            if hi is not None:
                eng.axiom(t <= cv(hi))
            return mk(t)
        return SymArray(Store(get, kind, name), shape, lib=lib)

    def tabulate(self, shape, f, kind='real', lib='np'):
        from .arrays import SymArray, Store
        return SymArray(Store(lambda idx: f(*idx), kind), tuple(shape), lib=lib)

    def func(self, name, arity=1, out='real', lo=None, hi=None):
        from .core import Int, Real, Bool, mk, zt, real_t, SV
        import z3
        f = z3.Function('fn_' + name, *([Real] * arity), {'real': Real, 'int': Int, 'bool': Bool}[out])
        self.eng.inputs['fn:' + name] = ('func', f, out)

        def call(*a):
            t = f(*[z3.simplify(real_t(zt(x.item() if hasattr(x, 'item') else x))) for x in a])
            if lo is not None:
                self.eng.axiom(t >= zt(lo))
            if hi is not None:
                self.eng.axiom(t <= zt(hi))
            return mk(t)
        return call

    def fresh(self, base, kind='real', lo=None, hi=None):
        from .core import Int, Real, Bool, SV, zt
        import z3
        t = self.eng.fresh(base, {'real': Real, 'int': Int, 'bool': Bool}[kind])
        if lo is not None:
            self.eng.assume(t >= zt(lo))
        if hi is not None:
            self.eng.assume(t <= zt(hi))
        return SV(t)

    def rec(self, name, base, step, kind='real'):
        """ghost function defined by recursion (one unfolding is instantiated at every use)"""
        from .core import Int, Real, Bool, SV, zt, mk, num_t, real_t
        import z3
        f = z3.Function('rec_' + name, Int, {'real': Real, 'int': Int, 'bool': Bool}[kind])
        done = {}
        cv = (lambda v: real_t(zt(v))) if kind == 'real' else zt
        self.eng.axiom(f(z3.IntVal(0)) == cv(base))

        def call(k):
            t = z3.simplify(num_t(zt(k)))
            if t.get_id() not in done:
                done[t.get_id()] = t
                p = z3.simplify(t - 1)
                v = step(mk(p), mk(f(p)))
                self.eng.axiom(z3.Implies(t >= 1, f(t) == cv(v)))
                self.eng.axiom(z3.Implies(t == 0, f(t) == cv(base)))
            elif self.eng.scope or True:
                p = z3.simplify(t - 1)
                self.eng.axiom(z3.Implies(t >= 1, f(t) == cv(step(mk(p), mk(f(p))))))
            return mk(f(t))
        return call

    # ---- logic
    def assume(self, cond):
        from .core import PathEnd
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        self.eng.assume(cond)
        import z3
        if self.eng.light.check() == z3.unsat:
            raise PathEnd()

    def assume_all(self, dims, fn):
        import z3
        from .core import SV, zt, bool_t, is_num
        dims = list(dims)
        if all(not isinstance(d, SV) for d in dims):
            import itertools
            for idx in itertools.product(*[range(d) for d in dims]):
                self.assume(fn(*idx))
            return
        depth = len(self.eng.bound)
        ks = [z3.Int(f'aa!{depth + j}') for j in range(len(dims))]
        self.eng.bound.extend(ks)
        try:
            v = fn(*[SV(k) for k in ks])
        finally:
            del self.eng.bound[-len(ks):]
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        else:
            v = bool_t(zt(v))
        rng = z3.And([z3.And(k >= 0, k < zt(d)) for k, d in zip(ks, dims)])
        self.eng.assume(z3.ForAll(ks, z3.Implies(rng, v)))

    def ite(self, c, a, b):
        from .arrays import ite_val
        if isinstance(c, bool):
            r = a if c else b
            return r() if callable(r) else r
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        return ite_val(c, a, b)

    def and_(self, *a):
        from .core import s_and, SV, mk, bool_t
        r = True
        for x in a:
            x = self._b(x)
            r = s_and(r, x)
        return r

    def or_(self, *a):
        from .core import s_or
        r = False
        for x in a:
            r = s_or(r, self._b(x))
        return r

    def _b(self, x):
        from .core import SV, mk, bool_t
        if hasattr(x, '_pydv_array'):
            x = x.item()
        return mk(bool_t(x.t)) if isinstance(x, SV) else bool(x)

    def not_(self, a):
        from .core import s_not
        return s_not(self._b(a))

    def implies(self, a, b):
        from .core import s_or, s_not
        a = self._b(a)
        if a is False:
            return True
        b = b() if callable(b) else b
        return s_or(s_not(a), self._b(b))

    def sum(self, n, f):
        from .arrays import sum_over
        return sum_over(n, f)

    def max(self, n, f):
        from .arrays import max_over
        return max_over(n, f)

    def min(self, n, f):
        from .arrays import max_over
        return max_over(n, f, -1)

    def all(self, n, f):
        from .arrays import forall_over
        from .core import SV, zt
        sk = self.eng.ghost.get('step_k')
        if sk is not None and isinstance(n, SV) and not self.eng.bound:
            import z3
            d = z3.simplify(n.t - sk.t)
            if z3.is_int_value(d) and d.as_long() == 1:      # peel the iteration just done
                return self.and_(forall_over(sk, f), f(sk))
        return forall_over(n, f)

    def argmax(self, n, f):
        from .arrays import max_over
        return max_over(n, f, arg=True)

    def any(self, n, f, hint=None):
        from .arrays import exists_over
        r = exists_over(n, f)
        if hint is not None and not isinstance(r, bool):
            return self.or_(self.and_(self.le(0, hint), self.lt(hint, n), f(hint)), r)
        if not isinstance(r, bool):
            # instantiation hints (logically redundant): the indices drawn on this path
            for h in self.eng.ghost.get('hints', [])[-4:]:
                r = self.or_(self.and_(self.le(0, h), self.lt(h, n), f(h)), r)
        return r

    def _f(self, name, x):
        from .core import s_func
        return s_func(name, x.item() if hasattr(x, '_pydv_array') else x)

    def exp(self, x): return self._f('exp', x)
    def log(self, x): return self._f('log', x)
    def sqrt(self, x): return self._f('sqrt', x)
    def sin(self, x): return self._f('sin', x)
    def cos(self, x): return self._f('cos', x)
    def tanh(self, x): return self._f('tanh', x)

    def floor(self, x):
        from .core import mk, zt, real_t
        import z3
        return mk(z3.ToInt(real_t(zt(x))))

    def toreal(self, x):
        from .core import mk, zt, real_t
        return mk(real_t(zt(x)))

    def _sc(self, a):
        return a.item() if hasattr(a, '_pydv_array') else a

    def eq(self, a, b):
        from .core import s_eq
        a, b = self._sc(a), self._sc(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b if (a is None or b is None) else a == b
        return s_eq(a, b)

    def le(self, a, b):
        from .core import s_le
        return s_le(self._sc(a), self._sc(b))

    def lt(self, a, b):
        from .core import s_lt
        return s_lt(self._sc(a), self._sc(b))

    # ---- obligations
    def _oblige(self, name, cond, kind='post'):
        from .core import SV, zt, bool_t
        from . import solver
        import time, z3
        if hasattr(cond, '_pydv_array'):
            cond = cond.item()
        t0 = time.time()
        self.eng.tick()
        if isinstance(cond, SV):
            st, be, model = solver.prove(self.eng, bool_t(cond.t), self.eng.cfg.get('ms', 8000))
        elif isinstance(cond, z3.ExprRef):
            st, be, model = solver.prove(self.eng, cond, self.eng.cfg.get('ms', 8000))
        elif bool(cond):
            st, be, model = 'proved', 'trivial', None
        else:
            st, be, model = solver.prove(self.eng, z3.BoolVal(False), self.eng.cfg.get('ms', 8000))
        rec = {'name': name, 'kind': kind, 'status': st, 'backend': be, 's': round(time.time() - t0, 3)}
        if st != 'proved':
            rec['goal'] = str(z3.simplify(cond.t) if isinstance(cond, SV) else cond)[:600]
            if model is not None:
                rec['inputs'] = self._model_inputs(model)
        self.eng.obligations.append(rec)
        return st == 'proved'

    def ensure(self, name, cond):
        if callable(cond):
            self.eng.sub_explore(lambda: self._oblige(name, cond()))
        else:
            self._oblige(name, cond)

    def ensure_eq(self, name, a, b):
        self.ensure(name, lambda: self.eq(a() if callable(a) else a, b() if callable(b) else b))

    def ensure_all(self, name, dims, fn):
        from .core import SV, Int, zt, PathEnd
        import z3

        def thunk():
            idx = []
            for d in dims:
                k = self.eng.fresh('ix', Int)
                self.eng.assume(z3.And(k >= 0, k < zt(d)))
                idx.append(SV(k))
            if self.eng.light.check() == z3.unsat:
                self.eng.obligations.append({'name': name, 'kind': 'post', 'status': 'proved', 'backend': 'empty-range', 's': 0})
                raise PathEnd()
            self._oblige(name, fn(*idx))
        self.eng.sub_explore(thunk)

    def ensure_shape(self, name, a, shape):
        from .core import s_eq, s_and
        def cond():
            if len(a.shape) != len(shape):
                return False
            r = True
            for x, y in zip(a.shape, shape):
                r = s_and(r, s_eq(x, y))
            return r
        self.ensure(name, cond)

    def lemma(self, name, cond):
        """prove, then use"""
        c = cond() if callable(cond) else cond
        if self._oblige('lemma:' + name, c, kind='lemma'):
            self.eng.assume(c)

    def raises(self, exc, thunk):
        try:
            thunk()
        except exc:
            return True
        return False

    def scalar(self, x):
        from .core import SV, is_num
        return isinstance(x, SV) or is_num(x)

    def note(self, s):
        self.eng.notes.append(s)

    def trust(self, s):
        self.eng.assumptions.add(s)

    # ---- contracts
    def loop(self, lid, havoc, inv, ghost=None):
        from .runtime import LoopContract
        self.eng.loops_declared = True
        if self.bounded:
            return
        self.rt.loops[lid] = LoopContract(havoc, inv, ghost)

    def on_backward(self, f):
        self.eng.on_backward = lambda v: f(self.at(v, *([0] * len(v.shape))) if hasattr(v, 'at') else v)

    def stub(self, obj, name, value):
        had = name in (vars(obj) if hasattr(obj, '__dict__') else {})
        old = vars(obj).get(name) if had else None
        self.patches.append((obj, name, old, had))
        setattr(obj, name, value)

    restore = ConcCtx.restore

    def copy(self, a):
        return a.copy()

    def at(self, a, *idx):
        from .core import SV
        if isinstance(a, SV) or not hasattr(a, 'at'):
            return a
        return a.at(*idx)

    # ---- models
    def _model_inputs(self, model):
        import z3
        out = {}

        def val(t):
            v = model.eval(t, model_completion=True)
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(12).as_fraction())
            return None
        from .core import SV, zt
        import itertools
        for n, e in self.eng.inputs.items():
            try:
                if e[0] in ('int', 'real', 'bool'):
                    out[n] = val(e[1])
                elif e[0] == 'array':
                    shape = [val(zt(d)) if isinstance(d, SV) else d for d in e[2]]
                    if any(s is None or s > 40 for s in shape):
                        continue
                    tot = 1
                    for s in shape:
                        tot *= s
                    if tot > 4000:
                        continue

                    def build(pre, rest):
                        if not rest:
                            return val(e[1](*[z3.IntVal(i) for i in pre]))
                        return [build(pre + [i], rest[1:]) for i in range(rest[0])]
                    out[n] = build([], shape)
                elif e[0] == 'func':
                    fi = model[e[1]]
                    tab = []
                    if fi is not None:
                        for k in range(fi.num_entries()):
                            en = fi.entry(k)
                            tab.append([[val(en.arg_value(j)) for j in range(en.num_args())], val(en.value())])
                        out[n] = {'table': tab, 'else': val(fi.else_value())}
            except Exception:
                continue
        return out
