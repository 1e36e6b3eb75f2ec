"""Stand-ins for builtins, numpy and torch seen by the instrumented repository code.

Each function is an executable contract of the library function it replaces: the
stated semantics of numpy / torch over mathematical integers and reals.
"""
import builtins as _b
import contextlib
import functools
import math
import numbers
import types

import z3
import numpy as _np
from . import core
from .core import *
from .core import s_eq, s_and, s_le, s_lt, s_ge, s_gt, s_sub, s_add, s_mul, s_ite, s_min, s_max, s_not, s_or, \
    s_func, s_abs, s_floor, s_ceil, s_sign, s_cast, s_pow, s_mod, kind_of_value, _isinf
from . import arrays as A
from .arrays import SymArray, SymList, SymRange, Store, DType, kind_of_dtype, ew, from_nested, nrm_idx, nrm_dim


# --------------------------------------------------------------------------- builtins
class TypeShim:
    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, real, check, call):
        self._pydv_real, self._check, self._call = real, check, call
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __eq__(self, o):
        return getattr(o, '_pydv_real', o) is self._pydv_real or (isinstance(o, DType) and o == self)

    def __hash__(self):
        return hash(self._pydv_real)

    def __repr__(self):
        return repr(self._pydv_real)

    def __getattr__(self, n):
        if n.startswith('_pydv'):
            raise AttributeError(n)
        return getattr(self._pydv_real, n)

    def __or__(self, o):
        return (self, o)


def is_iter_sym(x):
    if isinstance(x, (SymList, SymRange, SymSeq)):
        return True
    if isinstance(x, SymArray) and x.ndim and isinstance(x.shape[0], SV):
        return True
    return False


class SymSeq:
    """lazily indexed sequence (zip / enumerate / reversed / comprehension over symbolic lengths)"""
    _pydv_iter = True

    def __init__(self, n, get):
        self.n, self._g = n, get

    def _len(self):
        return self.n

    def get(self, k):
        return self._g(k)

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic sequence')


def seq_of(x):
    """(n, get) of a sequence"""
    if isinstance(x, (SymList, SymRange, SymSeq)):
        return x._len(), x.get
    if isinstance(x, SymArray):
        g = x
        return x._len(), (lambda k: g._basic([nrm_idx(k)] + [slice(None)] * (g.ndim - 1)) if not isinstance(k, SV)
                          else _row(g, k))
    x = list(x)
    return len(x), (lambda k: x[k] if not isinstance(k, SV) else from_nested(x)[k])


def _row(g, k):
    get = g.getter()
    k = nrm_idx(k)
    if g.ndim == 1:
        return get((k,))
    pv = g._vmap

    def vmap(idx):
        out = (k,) + tuple(idx)
        return pv(out) if pv else out
    return SymArray(g._store, g.shape[1:], vmap, g.lib)


def b_len(x):
    if hasattr(x, '_len') and not isinstance(x, type) and isinstance(x, (SymArray, SymList, SymRange, SymSeq)):
        return x._len()
    m = getattr(type(x), '__len__', None)
    if m is not None and (type(x).__module__.startswith('mushroom_rl') or getattr(type(x), '_pydv_ghost', False)):
        return m(x)
    if isinstance(x, A.Shape):
        return tuple.__len__(x)
    return _b.len(x)


def b_int(x=0, *a):
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, SV):
        return mk(core.trunc_t(x.t))
    if _isinf(x):
        pyraise(OverflowError, 'cannot convert float infinity to integer')
    return _b.int(x, *a)


def b_float(x=0.0):
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, SV):
        return mk(core.real_t(x.t))
    return _b.float(x)


def b_bool(x=False):
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, SV):
        return mk(core.bool_t(x.t))
    return _b.bool(x)


def b_abs(x):
    return _b.abs(x)


def b_range(*a):
    a = [x.item() if isinstance(x, SymArray) else x for x in a]
    a = [nrm_idx(x) if isinstance(x, SV) else x for x in a]
    for x in a:
        if isinstance(x, float):
            pyraise(TypeError, 'float cannot be interpreted as an integer')
    if any(isinstance(x, SV) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    return _b.range(*a)


def b_minmax(which):
    f2 = s_min if which == 'min' else s_max
    real = _b.min if which == 'min' else _b.max

    def f(*a, **k):
        if len(a) == 1:
            if isinstance(a[0], SymArray):
                return A.reduce_max(a[0], None, sign=1 if which == 'max' else -1)
            if is_iter_sym(a[0]):
                n, g = seq_of(a[0])
                if bool(s_le(n, 0)):
                    if 'default' in k:
                        return k['default']
                    pyraise(ValueError, f'{which}() arg is an empty sequence')
                return A.max_over(n, g, 1 if which == 'max' else -1)
            items = list(a[0])
        else:
            items = list(a)
        if k:
            if any(isinstance(x, (SV, SymArray)) for x in items):
                raise Unsupported('min/max with key')
            return real(items, **k)
        items = [x.item() if isinstance(x, SymArray) else x for x in items]
        if not items:
            pyraise(ValueError, 'empty sequence')
        r = items[0]
        for x in items[1:]:
            r = f2(r, x)
        return r
    return f


def b_sum(x, start=0):
    if isinstance(x, SymArray) and x.ndim == 1:
        return start + A.reduce_sum(x, 0)
    if is_iter_sym(x):
        n, g = seq_of(x)
        return start + A.sum_over(n, g)
    return _b.sum(x, start)


def b_any(x):
    if is_iter_sym(x):
        n, g = seq_of(x)
        return A.exists_over(n, g)
    r = False
    for e in x:
        r = r or bool(e)
        if r:
            return True
    return r


def b_all(x):
    if is_iter_sym(x):
        n, g = seq_of(x)
        return A.forall_over(n, g)
    for e in x:
        if not bool(e):
            return False
    return True


def b_zip(*xs, strict=False):
    if any(is_iter_sym(x) for x in xs):
        ng = [seq_of(x) for x in xs]
        n = ng[0][0]
        for m, _ in ng[1:]:
            n = s_min(n, m) if not A.same_dim(n, m) else n
        return SymSeq(n, lambda k: tuple(g(k) for _, g in ng))
    return _b.zip(*xs)


def b_enumerate(x, start=0):
    if is_iter_sym(x):
        n, g = seq_of(x)
        return SymSeq(n, lambda k: (s_add(start, k), g(k)))
    return _b.enumerate(x, start)


def b_reversed(x):
    if is_iter_sym(x):
        n, g = seq_of(x)
        return SymSeq(n, lambda k: g(s_sub(s_sub(n, 1), k)))
    return _b.reversed(x)


def b_list(x=()):
    if is_iter_sym(x):
        if isinstance(x, SymList):
            return x.copy()
        n, g = seq_of(x)
        return SymList(n, g)
    return _b.list(x)


def b_tuple(x=()):
    if is_iter_sym(x):
        raise Unsupported('tuple of a symbolic-length sequence')
    return _b.tuple(x)


def b_map(f, *xs):
    if any(is_iter_sym(x) for x in xs):
        z = b_zip(*xs)
        return SymSeq(z.n, lambda k: f(*z.get(k)))
    return _b.map(f, *xs)


def b_isinstance(x, cls):
    if isinstance(cls, _b.tuple):
        return _b.any(b_isinstance(x, c) for c in cls)
    if isinstance(cls, TypeShim):
        return cls._check(x)
    if cls is _b.list:
        return isinstance(x, (_b.list, SymList))
    if isinstance(cls, DType):
        return False
    if cls in (numbers.Number, numbers.Real, numbers.Complex) and isinstance(x, SV):
        return True
    if cls is numbers.Integral and isinstance(x, SV):
        return x.kind in ('int', 'bool')
    if not isinstance(cls, type) and not hasattr(cls, '__instancecheck__'):
        raise Unsupported(f'isinstance with {cls!r}')
    return _b.isinstance(x, cls)


def b_print(*a, **k):
    return None


def b_type(*a):
    if len(a) == 1:
        if isinstance(a[0], SV):
            return {'int': INT, 'real': FLOAT, 'bool': BOOL}[a[0].kind]
        if isinstance(a[0], SymArray):
            return ndarray if a[0].lib == 'np' else Tensor
        if type(a[0]) is _b.int:
            return INT
        if type(a[0]) is _b.float:
            return FLOAT
        if type(a[0]) is _b.list or isinstance(a[0], SymList):
            return LIST
    return _b.type(*a)


def b_hasattr(o, n):
    try:
        getattr(o, n)
        return True
    except AttributeError:
        return False


INT = TypeShim(int, lambda x: _b.isinstance(x, int) and not False or isinstance(x, SV) and x.kind == 'int', b_int)
FLOAT = TypeShim(float, lambda x: _b.isinstance(x, float) or isinstance(x, SV) and x.kind == 'real', b_float)
BOOL = TypeShim(bool, lambda x: _b.isinstance(x, bool) or isinstance(x, SV) and x.kind == 'bool', b_bool)
LIST = TypeShim(list, lambda x: isinstance(x, (_b.list, SymList)), b_list)
ndarray = TypeShim(_np.ndarray, lambda x: isinstance(x, SymArray) and x.lib == 'np' or isinstance(x, _np.ndarray),
                   lambda *a, **k: (_ for _ in ()).throw(Unsupported('np.ndarray()')))


class _TensorType:
    pass


Tensor = TypeShim(_TensorType, lambda x: isinstance(x, SymArray) and x.lib == 'torch', lambda x=0, **k: t_tensor(x, DType('real', 'f')))

BUILTINS = dict(vars(_b))
BUILTINS.update(len=b_len, range=b_range, min=b_minmax('min'), max=b_minmax('max'), sum=b_sum, any=b_any, all=b_all,
                zip=b_zip, enumerate=b_enumerate, reversed=b_reversed, isinstance=b_isinstance, abs=b_abs,
                int=INT, float=FLOAT, bool=BOOL, list=LIST, print=b_print, tuple=tuple, map=b_map)


# --------------------------------------------------------------------------- library plumbing
def has_sym(x, depth=0):
    if isinstance(x, (SV, SymArray, SymList, SymRange, SymSeq)):
        return True
    if depth < 3 and isinstance(x, (list, tuple)):
        return any(has_sym(e, depth + 1) for e in x)
    if depth < 3 and isinstance(x, dict):
        return any(has_sym(e, depth + 1) for e in x.values())
    return False


def concretise(x):
    """SymArray with concrete content -> ndarray; raises Unsupported otherwise"""
    if isinstance(x, SymArray):
        if not x.is_concrete_shape():
            raise Unsupported('symbolic-shape array passed to an unmodelled library function')
        out = _np.empty(x.shape, dtype={'real': float, 'int': int, 'bool': bool, 'obj': object}[x._kind])
        for idx in x.elements():
            v = x.getter()(idx)
            if isinstance(v, SV):
                t = z3.simplify(v.t)
                if z3.is_rational_value(t):
                    v = float(t.as_fraction())
                elif z3.is_int_value(t):
                    v = t.as_long()
                else:
                    raise Unsupported('symbolic content passed to an unmodelled library function')
            out[idx] = v
        return out
    if isinstance(x, SV):
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        raise Unsupported('symbolic scalar passed to an unmodelled library function')
    if isinstance(x, TypeShim):
        return x._pydv_real
    if isinstance(x, DType):
        return {'real': float, 'int': int, 'bool': bool, 'obj': object}[x.kind]
    if isinstance(x, list):
        return [concretise(e) for e in x]
    if isinstance(x, tuple):
        return tuple(concretise(e) for e in x)
    if isinstance(x, dict):
        return {k: concretise(v) for k, v in x.items()}
    return x


def lift_result(r, lib):
    if isinstance(r, _np.ndarray):
        return from_nested(r, lib=lib)
    if isinstance(r, _np.generic):
        return r.item()
    if isinstance(r, tuple):
        return tuple(lift_result(e, lib) for e in r)
    if type(r).__module__.startswith('torch') and hasattr(r, 'detach') and type(r).__name__ == 'Tensor':
        return from_nested(r.detach().numpy(), lib='torch')
    return r


def passthrough(fn, name, lib):
    @functools.wraps(fn)
    def f(*a, **k):
        try:
            a2 = [concretise(x) for x in a]
            k2 = {q: concretise(x) for q, x in k.items()}
        except Unsupported as e:
            raise Unsupported(f'{name}: {e}')
        return lift_result(fn(*a2, **k2), lib)
    return f


def arr(x, lib='np'):
    if isinstance(x, SymArray):
        return x
    return from_nested(x, lib=lib)


def unary(name, kind='real'):
    def f(x, **kw):
        if not isinstance(x, SymArray) and not isinstance(x, (list, tuple, SymList)):
            return s_func(name, x)
        return ew(lambda v: s_func(name, v), x, kind=kind)
    return f


def _ax(axis=None, dim=None, keepdims=False, keepdim=False, **k):
    return (dim if dim is not None else axis), (keepdims or keepdim)


class NpModule(types.ModuleType):
    def __getattr__(self, n):
        v = getattr(self._real, n)
        if isinstance(v, types.ModuleType):
            return v
        if isinstance(v, type):
            return v
        if callable(v):
            return passthrough(v, f'{self._real.__name__}.{n}', self._lib)
        if isinstance(v, _np.ndarray):
            return from_nested(v)
        return v


def scalarise(x):
    """0-d results are scalars"""
    if isinstance(x, SymArray) and x.ndim == 0:
        return x.at()
    return x


# --------------------------------------------------------------------------- numpy
np = NpModule('numpy')
np._real, np._lib = _np, 'np'


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    kd = kind_of_dtype(dtype)
    if isinstance(x, SymArray):
        r = x._as('np').copy()
        r = r if kd is None or kd == r._kind else r.astype(A.DT[kd])
    else:
        r = from_nested(x, kd)
    while r.ndim < ndmin:
        r = r[None]
    return r


def np_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and (dtype is None or kind_of_dtype(dtype) == x._kind):
        return x._as('np')
    return np_array(x, dtype)


def kfill(v):
    def f(shape, dtype=None, **k):
        kd = kind_of_dtype(dtype) or 'real'
        return A.full(shape, v, kd)
    return f


def klike(v):
    def f(a, dtype=None, **k):
        a = arr(a)
        kd = kind_of_dtype(dtype) or a._kind
        return A.full(a.shape, v, kd, a.lib)
    return f


def np_empty(shape, dtype=None, **k):
    return A.empty(shape, kind_of_dtype(dtype) or 'real')


def np_empty_like(a, dtype=None, **k):
    a = arr(a)
    return A.empty(a.shape, kind_of_dtype(dtype) or a._kind, a.lib)


def np_full(shape, v, dtype=None, **k):
    if isinstance(v, (SymArray, list, tuple)):
        return A.broadcast_to(arr(v), shape if isinstance(shape, (tuple, list)) else (shape,)).copy()
    return A.full(shape, v, kind_of_dtype(dtype))


def np_expand_dims(a, axis):
    a = arr(a)
    if axis < 0:
        axis += a.ndim + 1
    return a[tuple([slice(None)] * axis + [None])]


def np_where(c, *ab):
    if not ab:
        return A.mask_select(arr(c).astype(A.bool_))
    if isinstance(c, (SV, bool)) and not any(isinstance(x, (SymArray, list, tuple)) for x in ab):
        return s_ite(c, *ab)
    return A.where(c, *ab)


def np_diag(a):
    a = arr(a)
    if a.ndim == 1:
        g = a.getter()
        return SymArray(Store(lambda i: s_ite(s_eq(i[0], i[1]), g((i[0],)), 0.0 if a._kind == 'real' else 0), a._kind),
                        (a.shape[0], a.shape[0]), lib=a.lib)
    g = a.getter()
    return SymArray(Store(lambda i: g((i[0], i[0])), a._kind), (a.shape[0],), lib=a.lib)


def np_atleast(n):
    def f(a):
        a = arr(a)
        while a.ndim < n:
            a = a[None]
        return a
    return f


def np_max2(a, b):
    if not any(isinstance(x, (SymArray, list, tuple)) for x in (a, b)):
        return s_max(a, b)
    return ew(s_max, a, b)


def np_min2(a, b):
    if not any(isinstance(x, (SymArray, list, tuple)) for x in (a, b)):
        return s_min(a, b)
    return ew(s_min, a, b)


def np_clip(a, lo=None, hi=None, a_min=None, a_max=None, **k):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    lo = k.get('min', lo)
    hi = k.get('max', hi)
    if not any(isinstance(x, (SymArray, list, tuple)) for x in (a, lo, hi)):
        if lo is not None:
            a = s_max(a, lo)
        if hi is not None:
            a = s_min(a, hi)
        return a
    return A.clip(a, lo, hi)


def np_isfin(x):
    if isinstance(x, SymArray):
        return ew(lambda v: True if isinstance(v, SV) else math.isfinite(v), x, kind='bool')
    if isinstance(x, SV):
        return True
    return math.isfinite(x)


def np_isnan(x):
    if isinstance(x, SymArray):
        return ew(lambda v: False if isinstance(v, SV) else math.isnan(v), x, kind='bool')
    return False if isinstance(x, SV) else math.isnan(x)


def np_isinf(x):
    if isinstance(x, SymArray):
        return ew(lambda v: False if isinstance(v, SV) else math.isinf(v), x, kind='bool')
    return False if isinstance(x, SV) else math.isinf(x)


def np_norm(x, ord=None, axis=None, keepdims=False):
    x = arr(x)
    if ord not in (None, 2):
        if x.ndim > 1 and axis is None:
            raise Unsupported('matrix norm')
        if ord == 1:
            return A.reduce_sum(ew(s_abs, x), axis, keepdims)
        if ord == math.inf:
            return A.reduce_max(ew(s_abs, x), axis, keepdims)
        raise Unsupported('norm order')
    s = A.reduce_sum(x * x, axis, keepdims)
    if isinstance(s, SymArray):
        return ew(lambda v: s_func('sqrt', v), s, kind='real')
    return s_func('sqrt', s)


def np_array_equal(a, b):
    a, b = arr(a), arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not A.same_dim(x, y) and not bool(s_eq(x, y)):
            return False
    return A.reduce_all(a == b) if a.ndim else s_eq(a.at(), b.at())


def np_trace(a):
    a = arr(a)
    g = a.getter()
    return A.sum_over(a.shape[0], lambda k: g((k, k)))


def np_linspace(lo, hi, num=50, **k):
    if isinstance(num, SV):
        g = lambda i: s_add(lo, s_mul(s_cast(i[0], 'real'), core.s_div(s_sub(hi, lo), s_sub(num, 1))))
        return SymArray(Store(lambda i: s_cast(g(i), 'real'), 'real'), (num,))
    return from_nested([s_add(lo, core.s_div(s_mul(s_sub(hi, lo), i), num - 1)) if num > 1 else lo for i in range(num)])


def np_kron(a, b):
    a, b = arr(a), arr(b)
    if a.ndim != 2 or b.ndim != 2 or any(isinstance(d, SV) for d in b.shape):
        raise Unsupported('kron')
    ga, gb = a.getter(), b.getter()
    p, q = b.shape
    f = lambda i: s_mul(ga((core.s_fdiv(i[0], p), core.s_fdiv(i[1], q))), gb((s_mod(i[0], p), s_mod(i[1], q))))
    return SymArray(Store(f, A.promote(a._kind, b._kind)), (a.shape[0] * p, a.shape[1] * q), lib=a.lib)


def np_dot(a, b): return A.matmul(a, b)


def np_einsum(spec, *ops):
    ops = [arr(o) for o in ops]
    ins, _, out = spec.replace(' ', '').partition('->')
    if not _ or ins.count(',') != len(ops) - 1:
        raise Unsupported('einsum without an explicit output')
    terms, dims, batch = [], {}, ()
    for t, o in zip(ins.split(','), ops):
        head, dots, tail = t.partition('...')
        nb = o.ndim - len(head) - len(tail)
        if (nb and not dots) or nb < 0 or len(set(head + tail)) != len(head + tail):
            raise Unsupported('einsum ' + spec)
        sh = o.shape[len(head):len(head) + nb]
        if sh:
            if batch and (len(batch) != len(sh) or not all(A.same_dim(x, y) for x, y in zip(batch, sh))):
                raise Unsupported('einsum with broadcasting')
            batch = tuple(sh)
        for ch, d in list(zip(head, o.shape)) + list(zip(tail, o.shape[len(head) + nb:])):
            if ch in dims and not A.same_dim(dims[ch], d):
                pyraise(ValueError, 'einsum: operands do not match')
            dims[ch] = d
        terms.append((head, bool(sh), tail, o.getter()))
    ho, do, to = out.partition('...')
    if batch and not do:
        raise Unsupported('einsum ' + spec)
    inner = [ch for ch in dims if ch not in ho + to]
    nb = len(batch)

    def f(idx):
        env = dict(zip(ho, idx))
        env.update(zip(to, idx[len(ho) + nb:]))
        bi = tuple(idx[len(ho):len(ho) + nb])

        def rec(k):
            if k == len(inner):
                r = 1
                for h, b, t, g in terms:
                    v = g(tuple(env[c] for c in h) + (bi if b else ()) + tuple(env[c] for c in t))
                    r = v if r == 1 and isinstance(r, int) else s_mul(r, v)
                return r

            def one(i):
                env[inner[k]] = i
                return rec(k + 1)
            return A.sum_over(dims[inner[k]], one)
        return rec(0)
    shape = tuple(dims[c] for c in ho) + batch + tuple(dims[c] for c in to)
    kind = A.promote(*[o._kind for o in ops])
    if not shape:
        return f(())
    return SymArray(Store(f, kind), shape, lib=ops[0].lib)


def np_append(a, b, axis=None):
    if axis is None:
        return A.concatenate([A.reshape(arr(a), (-1,)), A.reshape(arr(b), (-1,))])
    return A.concatenate([arr(a), arr(b)], axis)


def np_delete(a, obj, axis=None):
    a = arr(a)
    if axis is not None or a.ndim != 1 or not isinstance(a.shape[0], int):
        raise Unsupported('delete')
    n = a.shape[0]
    drop = set()
    for v in (arr(obj).tolist() if arr(obj).ndim else [arr(obj).item()]):
        v = int(v)
        if not -n <= v < n:
            pyraise(IndexError, 'index out of bounds for delete')
        drop.add(v % n)
    return arr([a.at(j) for j in range(n) if j not in drop])


def np_unique(a):
    raise Unsupported('unique')


def np_median(a, axis=None):
    if axis is not None:
        raise Unsupported('median along an axis')
    a = asarr(a) if 'asarr' in globals() else a
    return a.median()


def np_hstack(xs):
    xs = [np_atleast(1)(x) for x in xs]
    return A.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def np_vstack(xs):
    return A.concatenate([np_atleast(2)(x) for x in xs], 0)


def np_size(a):
    return arr(a)._numel


def s_isclose(a, b, rtol=1e-5, atol=1e-8):
    """numpy's documented |a - b| <= atol + rtol |b|"""
    return s_le(s_abs(s_sub(a, b)), s_add(atol, s_mul(rtol, s_abs(b))))


def np_isclose(a, b, rtol=1e-5, atol=1e-8):
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        return ew(lambda x, y: s_isclose(x, y, rtol, atol), a, b, kind='bool')
    return s_isclose(a, b, rtol, atol)


def math_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    m = s_mul(rel_tol, A_max(s_abs(a), s_abs(b)))
    return s_le(s_abs(s_sub(a, b)), A_max(m, abs_tol))


def A_max(a, b):
    return s_ite(s_le(a, b), b, a)


def np_allclose(a, b, **k):
    return A.reduce_all(np_isclose(arr(a), arr(b), **k))


def np_isscalar(x):
    return isinstance(x, (SV, int, float, bool, str))


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if y is not None or k:
        raise Unsupported('cov')
    m = np_atleast(2)(arr(m))
    if rowvar:
        m = m.T
    d = m - A.reduce_mean(m, 0)
    n = m.shape[0] - (ddof if ddof is not None else 0 if bias else 1)
    return (A.matmul(d.T, d) / n).squeeze()


def np_trilu(lower, lib='np'):
    def f(n, k=0, m=None, row=None, col=None, offset=0, **kw):
        n, m = (row, col) if row is not None else (n, m if m is not None else n)
        k = k or offset
        if isinstance(n, SV) or isinstance(m, SV):
            raise Unsupported('triangle of symbolic size')
        r = [(i, j) for i in range(n) for j in range(m) if (j - i <= k if lower else j - i >= k)]
        a, b = [i for i, _ in r], [j for _, j in r]
        if lib == 'np':
            return from_nested(a, 'int'), from_nested(b, 'int')
        return from_nested([a, b], 'int', 'torch')
    return f


def np_trilmat(lower):
    def f(a, k=0):
        g = a.getter()
        return SymArray(Store(lambda ix: s_ite(s_le(ix[-1] - ix[-2], k) if lower else s_le(k, ix[-1] - ix[-2]), g(ix), 0), a._kind), a.shape, lib=a.lib)
    return f


def np_block(x):
    rows = [A.concatenate([np_atleast(2)(e) for e in r], 1) for r in x]
    return A.concatenate(rows, 0)


def np_arctan2(y, x):
    def f(b, a):
        if not isinstance(a, SV) and not isinstance(b, SV):
            return math.atan2(b, a)
        return mk(core.uf('m_atan2', Real, Real, Real)(core.real_t(zt(b)), core.real_t(zt(a))))
    return ew(f, y, x, kind='real')


def np_rng_choice(a, size=None, replace=True, p=None):
    """contract of np.random.choice: an arbitrary element with positive probability"""
    E().assumptions.add('numpy.random.choice returns an element of the given set with positive probability')
    if isinstance(a, (SymArray, list, tuple, SymList)):
        a = arr(a)
        n = a.shape[0]
    else:
        n = a
        a = None
    if not bool(s_ge(n, 1)):
        pyraise(ValueError, 'a cannot be empty')
    if p is not None:
        p = arr(p)
        if p.ndim != 1 or not (A.same_dim(p.shape[0], n) or bool(s_eq(p.shape[0], n))):
            pyraise(ValueError, 'a and p must have same size')
        # numpy raises unless p is a distribution
        E().ghost.setdefault('choice_p', []).append((p, n))

    def draw(tag):
        k = E().fresh('choice', Int)
        E().assume(z3.And(k >= 0, k < zt(n)))
        if p is not None:
            E().assume(zt(s_gt(p.at(SV(k)), 0)))
        return SV(k)
    if size is None:
        k = draw(0)
        E().ghost.setdefault('draws', []).append(('choice', k))
        r = a.at(k) if a is not None and a.ndim == 1 else (a[k] if a is not None else k)
        if isinstance(r, SV) and z3.is_int(r.t):
            E().ghost.setdefault('hints', []).append(r)
        return r
    shape = tuple(size) if isinstance(size, (tuple, list)) else (size,)
    f = E().fresh_fn('choices', *([Int] * len(shape)), Int)
    ks = [z3.Int(f'rc!{j}') for j in range(len(shape))]
    rng = z3.And([z3.And(k >= 0, k < zt(d)) for k, d in zip(ks, shape)])
    E().assume(z3.ForAll(ks, z3.Implies(rng, z3.And(f(*ks) >= 0, f(*ks) < zt(n))), patterns=[f(*ks)]))
    if p is not None:
        E().bound.extend(ks)
        pv = zt(s_gt(p.at(SV(f(*ks))), 0))
        del E().bound[-len(ks):]
        E().assume(z3.ForAll(ks, z3.Implies(rng, pv), patterns=[f(*ks)]))
    if not replace:
        if len(shape) != 1:
            raise Unsupported('choice without replacement, nd')
        if bool(s_gt(shape[0], n)):
            pyraise(ValueError, 'Cannot take a larger sample than population when replace=False')
        i, j = z3.Ints('ri! rj!')
        inv = E().fresh_fn('choiceinv', Int, Int)
        E().assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zt(shape[0])), inv(f(i)) == i), patterns=[f(i)]))
    r = SymArray(Store(lambda idx: mk(f(*[zt(i) for i in idx])), 'int'), shape)
    r._nonneg = True
    r._inrange = n
    if a is not None:
        return a[r]
    return r


def np_randint(low, high=None, size=None, dtype=None):
    if high is None:
        low, high = 0, low
    if not bool(s_lt(low, high)):
        pyraise(ValueError, 'low >= high')
    E().assumptions.add('numpy.random.randint/uniform/normal return arbitrary values of the stated range')
    if size is None:
        k = E().fresh('randint', Int)
        E().assume(z3.And(k >= zt(low), k < zt(high)))
        return SV(k)
    shape = tuple(size) if isinstance(size, (tuple, list)) else (size,)
    f = E().fresh_fn('randints', *([Int] * len(shape)), Int)
    ks = [z3.Int(f'rc!{j}') for j in range(len(shape))]
    E().assume(z3.ForAll(ks, z3.And(f(*ks) >= zt(low), f(*ks) < zt(high)), patterns=[f(*ks)]))
    return SymArray(Store(lambda idx: mk(f(*[zt(i) for i in idx])), 'int'), shape)


def _rand_real(shape, lo=None, hi=None, lib='np'):
    E().assumptions.add('numpy.random.randint/uniform/normal return arbitrary values of the stated range')
    if shape is None or shape == ():
        k = E().fresh('rand', Real)
        v = SV(k)
        if lo is not None:
            E().assume(zt(s_le(lo, v)))
        if hi is not None:
            E().assume(zt(s_or(s_lt(v, hi), s_and(s_eq(lo, hi), s_eq(v, lo)))))
        return v
    a = A.fresh_array('rand', tuple(shape), 'real', lib)
    f = a._func
    ks = [z3.Int(f'rc!{j}') for j in range(len(shape))]
    at = SV(f(*ks))
    E().bound.extend(ks)
    conds = []
    nd = len(shape)
    ix = tuple(SV(k) for k in ks)

    def bval(x):
        if isinstance(x, SymArray):
            return x.getter()(A.bidx(ix, x.shape, nd))
        return x
    if lo is not None:
        conds.append(zt(s_le(bval(lo), at)))
    if hi is not None:
        conds.append(zt(s_or(s_lt(at, bval(hi)), s_and(s_eq(bval(lo), bval(hi)), s_eq(at, bval(lo))))))
    del E().bound[-nd:]
    if conds:
        E().assume(z3.ForAll(ks, z3.And([c if not isinstance(c, bool) else z3.BoolVal(c) for c in conds]),
                             patterns=[f(*ks)]))
    return a


def np_uniform(low=0.0, high=1.0, size=None):
    if size is None:
        shapes = [x.shape for x in (arr(low) if isinstance(low, (list, SymArray)) else low,
                                    arr(high) if isinstance(high, (list, SymArray)) else high) if isinstance(x, SymArray)]
        low = arr(low) if isinstance(low, list) else low
        high = arr(high) if isinstance(high, list) else high
        shape = A.broadcast_shapes(*shapes) if shapes else None
    else:
        shape = tuple(size) if isinstance(size, (tuple, list)) else (size,)
    return _rand_real(shape, low, high)


class NpInt(int):
    """a concrete numpy integer"""
    def astype(self, t, **k): return {'real': float, 'int': int, 'bool': bool}[kind_of_dtype(t)](self)


class NpFloat(float):
    astype = NpInt.astype


def np_prod(a, axis=None):
    if isinstance(a, (tuple, list)) and all(type(x) in (int, float) for x in a):
        r = _np.prod(a, axis).item()
        return NpInt(r) if isinstance(r, int) else NpFloat(r)
    return A.reduce_prod(arr(a), axis)


def np_normal(loc=0.0, scale=1.0, size=None):
    shape = None if size is None else tuple(size) if isinstance(size, (tuple, list)) else (size,)
    if shape is None and any(isinstance(x, SymArray) for x in (loc, scale)):
        shape = A.broadcast_shapes(*[x.shape for x in (loc, scale) if isinstance(x, SymArray)])
    r = _rand_real(shape)
    E().ghost.setdefault('normals', []).append((r, loc, scale))
    return r


def np_randn(*shape):
    return _rand_real(shape if shape else None)


def np_rand(*shape):
    return _rand_real(shape if shape else None, 0, 1)


def np_mvn(mean, cov, size=None):
    mean = arr(mean)
    r = _rand_real(tuple(mean.shape) if size is None else ((size,) + tuple(mean.shape) if not isinstance(size, (tuple, list)) else tuple(size) + tuple(mean.shape)))
    E().ghost.setdefault('mvn', []).append((r, mean, cov))
    return r


def np_permutation(n):
    if isinstance(n, SymArray):
        p = np_permutation(n.shape[0])
        return n[p]
    E().assumptions.add('numpy.random.permutation/shuffle return an arbitrary permutation')
    if not isinstance(n, SV):
        n = int(n)
    f = E().fresh_fn('perm', Int, Int)
    g = E().fresh_fn('perminv', Int, Int)
    k = z3.Int('pk!')
    rng = z3.And(k >= 0, k < zt(n))
    E().assume(z3.ForAll([k], z3.Implies(rng, z3.And(f(k) >= 0, f(k) < zt(n), g(f(k)) == k)), patterns=[f(k)]))
    E().assume(z3.ForAll([k], z3.Implies(rng, z3.And(g(k) >= 0, g(k) < zt(n), f(g(k)) == k)), patterns=[g(k)]))
    r = SymArray(Store(lambda idx: mk(f(zt(idx[0]))), 'int'), (n,))
    r._nonneg = True
    r._inrange = r.shape[0]
    r._perm = g
    return r


def np_shuffle(a):
    p = np_permutation(a.shape[0])
    a.assign(a[p])


rnd = NpModule('numpy.random')
rnd._real, rnd._lib = _np.random, 'np'
for n_, f_ in dict(choice=np_rng_choice, randint=np_randint, uniform=np_uniform, normal=np_normal, randn=np_randn,
                   rand=np_rand, multivariate_normal=np_mvn, permutation=np_permutation, shuffle=np_shuffle,
                   random=lambda size=None: np_uniform(0., 1., size)).items():
    setattr(rnd, n_, f_)
lin = NpModule('numpy.linalg')
lin._real, lin._lib = _np.linalg, 'np'
lin.norm = np_norm


def lib_axis(fn):
    def f(a, axis=None, dim=None, keepdims=False, keepdim=False, **k):
        return fn(arr(a), dim if dim is not None else axis, keepdims or keepdim)
    return f


def s_unary(fn):
    def f(x, **k):
        if isinstance(x, (SymArray, list, tuple, SymList)):
            return ew(fn, x)
        return A.npscalar(fn(x))
    return f


_NP = dict(
    array=np_array, asarray=np_asarray, zeros=kfill(0), ones=kfill(1), empty=np_empty, full=np_full,
    zeros_like=klike(0), ones_like=klike(1), empty_like=np_empty_like,
    full_like=lambda a, v, **k: A.full(arr(a).shape, v, arr(a)._kind, arr(a).lib),
    expand_dims=np_expand_dims, concatenate=lambda x, axis=0, **k: A.concatenate(x, axis),
    stack=lambda x, axis=0: A.stack(x, axis), hstack=np_hstack, vstack=np_vstack,
    where=np_where, argwhere=lambda m: A.argwhere(arr(m)), nonzero=lambda m: A.mask_select(arr(m).astype(A.bool_)),
    diag=np_diag, atleast_1d=np_atleast(1), atleast_2d=np_atleast(2),
    exp=unary('exp'), log=unary('log'), sqrt=unary('sqrt'), sin=unary('sin'), cos=unary('cos'), tan=unary('tan'),
    tanh=unary('tanh'), arctan=unary('arctan'), arctan2=np_arctan2,
    abs=s_unary(s_abs), absolute=s_unary(s_abs), floor=s_unary(s_floor), ceil=s_unary(s_ceil), sign=s_unary(s_sign),
    square=lambda x: x * x, power=lambda x, y: x ** y,
    add=lambda a, b, **k: arr(a) + b if not is_num(a) else a + b,
    maximum=np_max2, minimum=np_min2, clip=np_clip,
    sum=lib_axis(A.reduce_sum), mean=lib_axis(A.reduce_mean), max=lib_axis(A.reduce_max),
    amax=lib_axis(A.reduce_max),
    min=lib_axis(lambda a, x, k: A.reduce_max(a, x, k, -1)), argmax=lib_axis(A.reduce_argmax),
    argmin=lib_axis(lambda a, x, k: A.reduce_argmax(a, x, k, -1)),
    any=lib_axis(A.reduce_any), all=lib_axis(A.reduce_all), prod=np_prod,
    std=lambda a, axis=None, ddof=0: A.reduce_std(arr(a), axis, ddof),
    var=lambda a, axis=None, ddof=0: A.reduce_var(arr(a), axis, ddof),
    arange=lambda *a, dtype=None, **k: A.arange(*a, kind=kind_of_dtype(dtype)),
    eye=lambda n, m=None, **k: A.eye(n, m), identity=lambda n, **k: A.eye(n),
    reshape=lambda a, s, **k: A.reshape(arr(a), s if isinstance(s, (tuple, list)) else (s,)),
    ravel=lambda a: arr(a).ravel(), squeeze=lambda a, axis=None: arr(a).squeeze(axis),
    transpose=lambda a, axes=None: arr(a).transpose(*(axes or ())), dot=np_dot, matmul=np_dot,
    repeat=lambda a, n, axis=None: A.repeat(arr(a), n, axis), tile=lambda a, r: A.tile(arr(a), r),
    broadcast_to=lambda a, s: A.broadcast_to(arr(a), s),
    isfinite=np_isfin, isnan=np_isnan, isinf=np_isinf, array_equal=np_array_equal, allclose=np_allclose,
    logical_and=lambda a, b: ew(s_and, arr(a).astype(A.bool_), b, kind='bool') if has_sym((a, b)) and isinstance(a, SymArray) else s_and(a, b),
    logical_or=lambda a, b: ew(s_or, arr(a).astype(A.bool_), b, kind='bool') if isinstance(a, SymArray) else s_or(a, b),
    logical_not=lambda a: ew(lambda v: s_not(s_cast(v, 'bool')), a, kind='bool') if isinstance(a, (SymArray, list)) else s_not(a),
    isscalar=np_isscalar, size=np_size, trace=np_trace, linspace=np_linspace, append=np_append, delete=np_delete, block=np_block,
    median=np_median, einsum=np_einsum, kron=np_kron, cov=np_cov, unique=np_unique, tril_indices=np_trilu(True), triu_indices=np_trilu(False), tril=np_trilmat(True), triu=np_trilmat(False),
    copy=lambda a: arr(a).copy(), flip=lambda a, axis=0: arr(a)[tuple([slice(None)] * axis + [slice(None, None, -1)])],
    ndarray=ndarray, float64=A.float64, float32=A.float32, int64=A.int64, int32=A.int32, bool_=A.bool_,
    uint8=A.int64, random=rnd, linalg=lin, newaxis=None, pi=math.pi, inf=math.inf, nan=math.nan, e=math.e,
    seterr=lambda **k: {}, finfo=lambda d=None: _np.finfo(float), isclose=np_isclose,
    shape=lambda a: arr(a).shape, ndim=lambda a: arr(a).ndim,
)
for n_, f_ in _NP.items():
    setattr(np, n_, f_)


# --------------------------------------------------------------------------- torch
import torch as _torch  # noqa: E402

torch = NpModule('torch')
torch._real, torch._lib = _torch, 'torch'


def T(x):
    if isinstance(x, SymArray):
        return x._as('torch') if x.lib != 'torch' else x
    if isinstance(x, (list, tuple, SymList)):
        return from_nested(x, lib='torch')._as('torch')
    return x


def t_tensor(x, dtype=None, **k):
    kd = kind_of_dtype(dtype)
    if isinstance(x, SymArray):
        r = x.copy()._as('torch')
        return r if kd is None or kd == r._kind else r.astype(A.DT[kd])
    if isinstance(x, (SV, int, float, bool)):
        v = s_cast(x, kd) if kd else x
        return from_nested(v, kd, 'torch')
    r = from_nested(x, kd, 'torch')
    return r._as('torch')


def t_as_tensor(x, dtype=None, **k):
    if isinstance(x, SymArray) and (dtype is None or kind_of_dtype(dtype) == x._kind):
        return x._as('torch')
    return t_tensor(x, dtype)


def tshape(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        return tuple(a[0])
    return tuple(a)


def tfill(v):
    def f(*shape, dtype=None, size=None, **k):
        return A.full(tshape(shape) if size is None else tuple(size), v, kind_of_dtype(dtype) or 'real', 'torch')
    return f


def t_empty(*shape, dtype=None, size=None, **k):
    return A.empty(tshape(shape) if size is None else size, kind_of_dtype(dtype) or 'real', 'torch')


def t_minmax(sign):
    def f(a, *b, dim=None, keepdim=False, **k):
        if b and isinstance(b[0], SymArray):
            return ew(s_max if sign > 0 else s_min, a, b[0])
        if b:
            dim = b[0]
        m = a.max if sign > 0 else a.min
        return m(dim) if dim is not None else m()
    return f


class _NoGrad(contextlib.ContextDecorator):
    def __init__(self, *a): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f=None):
        return f if f is not None else self


_T = dict(
    Tensor=Tensor, tensor=t_tensor, as_tensor=t_as_tensor, from_numpy=lambda x: x._as('torch'),
    zeros=tfill(0), ones=tfill(1), empty=t_empty, zeros_like=lambda a, **k: klike(0)(a, **k), ones_like=lambda a, **k: klike(1)(a, **k),
    empty_like=np_empty_like, full=lambda s, v, dtype=None, **k: A.full(s, v, kind_of_dtype(dtype), 'torch'),
    concatenate=lambda x, dim=0, axis=None, **k: A.concatenate(x, dim if axis is None else axis),
    cat=lambda x, dim=0, axis=None, **k: A.concatenate(x, dim if axis is None else axis),
    concat=lambda x, dim=0, axis=None, **k: A.concatenate(x, dim if axis is None else axis),
    stack=lambda x, dim=0, axis=None: A.stack(x, dim if axis is None else axis, 'torch'),
    mean=lambda a, dim=None, axis=None, keepdim=False: A.reduce_mean(a, dim if dim is not None else axis, keepdim),
    sum=lambda a, dim=None, axis=None, keepdim=False: A.reduce_sum(a, dim if dim is not None else axis, keepdim),
    std=lambda a, dim=None, axis=None, **k: A.reduce_std(a, dim if dim is not None else axis, 1),
    max=t_minmax(1), min=t_minmax(-1), argmax=lambda a, dim=None, **k: A.reduce_argmax(a, dim),
    any=lambda a, dim=None: A.reduce_any(a, dim), all=lambda a, dim=None: A.reduce_all(a, dim),
    maximum=lambda a, b: ew(s_max, a, b), minimum=lambda a, b: ew(s_min, a, b),
    squeeze=lambda a, dim=None: a.squeeze(dim), unsqueeze=lambda a, dim: a.unsqueeze(dim),
    exp=unary('exp'), log=unary('log'), sqrt=unary('sqrt'), tanh=unary('tanh'), sin=unary('sin'), cos=unary('cos'),
    abs=s_unary(s_abs), sign=s_unary(s_sign), clamp=np_clip, clip=np_clip, floor=s_unary(s_floor), ceil=s_unary(s_ceil),
    where=np_where, no_grad=_NoGrad, arange=lambda *a, dtype=None, **k: A.arange(*a, kind=kind_of_dtype(dtype), lib='torch'),
    atleast_2d=np_atleast(2), atleast_1d=np_atleast(1), diag=np_diag, matmul=np_dot, mm=np_dot,
    eye=lambda n, m=None, **k: A.eye(n, m, 'torch'),
    numel=lambda a: a._numel, is_tensor=lambda a: isinstance(a, SymArray) and a.lib == 'torch',
    logical_and=_NP['logical_and'], logical_or=_NP['logical_or'], logical_not=_NP['logical_not'],
    rand=lambda *s, **k: _rand_real(tshape(s), 0, 1, 'torch'), randn=lambda *s, **k: _rand_real(tshape(s), None, None, 'torch'),
    randint=lambda lo, hi=None, size=None, **k: T(np_randint(lo, hi, size)),
    randperm=lambda n, **k: T(np_permutation(n)),
    index_select=lambda a, dim, idx: a[tuple([slice(None)] * dim + [idx])],
    permute=lambda a, p: a.permute(*p), transpose=lambda a, x, y: a.transpose(x, y), reshape=lambda a, s: a.reshape(s),
    nan_to_num=lambda a, *x, **k: a, isnan=np_isnan, square=lambda x: x * x, nonzero=lambda a, **k: a.nonzero(**k),
    repeat_interleave=lambda a, n, dim=None: A.repeat(a, n, dim), tile=lambda a, r: A.tile(a, r),
    float=A.float64, float32=A.float32, float64=A.float64, double=A.float64, int=A.int64, int64=A.int64, long=A.int64,
    int32=A.int32, bool=A.bool_, uint8=A.int64,
    linspace=lambda lo, hi, n, **k: T(np_linspace(lo, hi, n)), pi=math.pi, inf=math.inf, nan=math.nan,
    tril_indices=lambda row, col, offset=0, **k: np_trilu(True, 'torch')(None, row=row, col=col, offset=offset), tril=np_trilmat(True), triu=np_trilmat(False),
    set_grad_enabled=_NoGrad, finfo=lambda d=None: _torch.finfo(_torch.float32),
)
for n_, f_ in _T.items():
    setattr(torch, n_, f_)


class _NN(types.ModuleType):
    """torch.nn itself; a Parameter of symbolic values is the tensor (autograd is not modelled)"""
    def __getattr__(self, n):
        return getattr(_torch.nn, n)

    @staticmethod
    def Parameter(data=None, requires_grad=True):
        return SymArray(data._store, data.shape, data._vmap, 'torch') if isinstance(data, SymArray) else _torch.nn.Parameter(data, requires_grad)


torch.nn = _NN('torch.nn')


# --------------------------------------------------------------------------- tqdm
class Tqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it
    def __iter__(self):
        if is_iter_sym(self.it):
            raise Unsupported('symbolic tqdm')
        return iter(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def set_postfix(self, *a, **k): pass
    def update(self, *a): pass
    def close(self): pass
    def set_description(self, *a, **k): pass


def tqdm(it=None, *a, **k):
    if it is not None and is_iter_sym(it):
        return it
    return Tqdm(it, *a, **k)


tqdm_mod = types.ModuleType('tqdm')
tqdm_mod.tqdm = tqdm
tqdm_mod.trange = lambda n, *a, **k: tqdm(b_range(n))


# --------------------------------------------------------------------------- math / scipy
class MathModule(types.ModuleType):
    """math functions: exact Python ones on concrete values, the numpy contracts on symbolic ones"""
    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a, **k):
            if not has_sym(a):
                return real(*a, **k)
            a = [x.item() if hasattr(x, '_pydv_array') else x for x in a]
            g = _MATH.get(n)
            if g is None:
                raise Unsupported('math.' + n)
            return g(*a, **k)
        f.__name__ = n
        return f


def s_fmod(a, b):
    """the remainder with the sign of the dividend: a - b q for an integer q"""
    from .core import zt, real_t, mk, E
    e = E()
    x, y = z3.simplify(real_t(zt(a))), z3.simplify(real_t(zt(b)))
    q = z3.Function('fmodq', z3.RealSort(), z3.RealSort(), z3.IntSort())(x, y)
    r = z3.simplify(x - y * z3.ToReal(q))
    ay = z3.simplify(z3.If(y >= 0, y, -y))
    e.axiom(z3.Implies(x >= 0, z3.And(r >= 0, r < ay)))
    e.axiom(z3.Implies(x <= 0, z3.And(r <= 0, r > -ay)))
    e.ghost.setdefault('turns', []).append(mk(q))
    return mk(r)


def _ifl(f):
    def g(a):
        from .core import zt, real_t, mk
        import z3
        return mk(z3.ToInt(real_t(zt(a)))) if f == 'floor' else mk(-z3.ToInt(-real_t(zt(a))))
    return g


_MATH = dict(fmod=s_fmod, floor=_ifl('floor'), ceil=_ifl('ceil'), fabs=s_abs, pow=lambda a, b: a ** b,
             isclose=math_isclose)
for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'tanh'):
    _MATH[_n] = unary(_n)
_MATH['atan'] = unary('arctan')
math_mod = MathModule('math')
setattr(np, 'fmod', lambda a, b: ew(s_fmod, a, b) if isinstance(a, SymArray) or isinstance(b, SymArray) else (s_fmod(a, b) if has_sym((a, b)) else _np.fmod(a, b)))
setattr(np, 'mod', lambda a, b: a % b)
setattr(np, 'remainder', lambda a, b: a % b)
