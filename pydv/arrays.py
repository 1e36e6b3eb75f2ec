"""Symbolic n-dimensional arrays: symbolic shape, lazily indexed, with numpy view
semantics (basic slices share storage, fancy indexing copies)."""
import itertools
import z3
from . import core
from .core import *
from .core import (s_add, s_sub, s_mul, s_div, s_fdiv, s_mod, s_pow, s_lt, s_le, s_gt, s_ge, s_eq, s_ne, s_and,
                   s_or, s_not, s_abs, s_ite, s_min, s_max, s_cast, s_func, s_floor, s_ceil, s_sign, kind_of_value,
                   _isinf)


class DType:
    def __init__(self, kind, name, lib='np'):
        self.kind, self.name, self.lib = kind, name, lib

    def __eq__(self, o):
        return kind_of_dtype(o) == self.kind if o is not None else False

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return self.name

    def __call__(self, x=0):
        if isinstance(x, SymArray):
            return x.astype(self)
        return s_cast(x, self.kind)


float64 = DType('real', 'float64')
float32 = DType('real', 'float32')
int64 = DType('int', 'int64')
int32 = DType('int', 'int32')
bool_ = DType('bool', 'bool')
object_ = DType('obj', 'object')
DT = {'real': float64, 'int': int64, 'bool': bool_, 'obj': object_}


def kind_of_dtype(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.kind
    r = getattr(d, '_pydv_real', d)
    if r is float:
        return 'real'
    if r is int:
        return 'int'
    if r is bool:
        return 'bool'
    if r is object:
        return 'obj'
    s = str(d)
    if 'float' in s or 'double' in s:
        return 'real'
    if 'uint' in s or 'int' in s or 'long' in s:
        return 'int'
    if 'bool' in s:
        return 'bool'
    raise Unsupported(f'dtype {d!r}')


def idx_key(idx):
    return tuple(i if isinstance(i, int) else ('t', i.t.get_id()) if isinstance(i, SV) else id(i) for i in idx)


def nrm_idx(i):
    """normalise an index scalar: python int or SV of int sort"""
    if isinstance(i, SV):
        t = z3.simplify(i.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_bool(t):
            t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
        if not z3.is_int(t):
            raise Unsupported('non-integer index')
        return SV(t)
    return int(i)


class Fn:
    """an immutable element function idx-tuple -> scalar, memoised"""
    __slots__ = ('f', 'memo')

    def __init__(self, f):
        self.f = f
        self.memo = {}

    def __call__(self, idx):
        k = idx_key(idx)
        if k in self.memo:
            return self.memo[k][0]
        r = self.f(idx)
        if len(self.memo) < 20000:
            self.memo[k] = (r, idx)
        return r


class Store:
    __slots__ = ('fn', 'kind', 'version', 'name')

    def __init__(self, fn, kind, name=None):
        self.fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.kind = kind
        self.version = 0
        self.name = name

    def put(self, cond_val):
        """cond_val(idx) -> (cond, value) ; value only meaningful if cond"""
        old, kind = self.fn, self.kind

        def f(idx):
            c, v = cond_val(idx)
            if c is False:
                return old(idx)
            v = v()
            v = s_cast(v, kind)
            if c is True:
                return v
            return s_ite(c, v, old(idx))
        self.fn = Fn(f)
        self.version += 1


def same_dim(a, b):
    """python-level decision whether two dims are equal"""
    if not isinstance(a, SV) and not isinstance(b, SV):
        return int(a) == int(b)
    c = s_eq(a, b)
    if isinstance(c, bool):
        return c
    return E().must(c)


def dim_is_one(a):
    if isinstance(a, SV):
        t = z3.simplify(a.t)
        if z3.is_int_value(t):
            return t.as_long() == 1
        return False
    return int(a) == 1


def nrm_dim(d):
    if isinstance(d, SV):
        t = z3.simplify(d.t)
        if z3.is_int_value(t):
            return t.as_long()
        return SV(t) if not t.eq(d.t) else d
    return int(d)


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if dim_is_one(d):
                continue
            if dim_is_one(cur):
                cur = d
            elif not same_dim(cur, d):
                # symbolic: either equal, or one of them is 1, or the library raises
                if isinstance(cur, SV) or isinstance(d, SV):
                    if s_bool(s_eq(cur, d)):
                        continue
                    if s_bool(s_eq(d, 1)):
                        continue
                    if s_bool(s_eq(cur, 1)):
                        cur = d
                        continue
                pyraise(ValueError, f'operands could not be broadcast together {shapes}')
        out.append(cur)
    return tuple(out)


def s_bool(c):
    return bool(c)


def bidx(idx, shape, out_ndim):
    """index into an operand of given shape from broadcast index"""
    off = out_ndim - len(shape)
    return tuple(0 if dim_is_one(shape[j]) else (idx[off + j] if not _known_one(shape[j]) else 0)
                 for j in range(len(shape)))


def _known_one(d):
    if isinstance(d, SV):
        # a symbolic dimension that was decided to be 1 on this path
        return E().known.get((d.t == 1).get_id()) is True
    return d == 1


def promote(*kinds):
    kinds = [k for k in kinds if k]
    if 'obj' in kinds:
        return 'obj'
    if 'real' in kinds:
        return 'real'
    if 'int' in kinds:
        return 'int'
    return 'bool'


def ew(f, *args, kind=None, lib=None):
    """elementwise map over broadcast arrays/scalars"""
    arrs = []
    for a in args:
        if isinstance(a, SymArray):
            arrs.append(a)
            lib = lib or a.lib
        elif isinstance(a, SymList):
            a = a.as_array()
            arrs.append(a)
        elif isinstance(a, (list, tuple)):
            a = from_nested(a)
            arrs.append(a)
        else:
            arrs.append(a)
    shapes = [a.shape for a in arrs if isinstance(a, SymArray)]
    if not shapes:
        return f(*arrs)
    shape = broadcast_shapes(*shapes)
    n = len(shape)
    gs = []
    for a in arrs:
        if isinstance(a, SymArray):
            g, sh = a.getter(), a.shape
            gs.append((lambda idx, g=g, sh=sh: g(bidx(idx, sh, n))))
        else:
            gs.append(lambda idx, a=a: a)
    if kind is None:
        kind = promote(*[a._kind if isinstance(a, SymArray) else kind_of_value(a) for a in arrs])
    if len(shape) == 0:
        return wrap0(f(*[g(()) for g in gs]), kind, lib)
    return SymArray(Store(lambda idx: f(*[g(idx) for g in gs]), kind), shape, lib=lib or 'np')


def wrap0(v, kind, lib):
    return v


class NPInt(int):
    """concrete integer with the numpy scalar protocol"""
    shape, ndim, size = (), 0, 1
    def item(self): return int(self)
    def copy(self): return self
    def __hash__(self): return int.__hash__(self)


class NPFloat(float):
    shape, ndim, size = (), 0, 1
    def astype(self, d): return npscalar(d(float(self))) if d in (int, float) else s_cast(float(self), kind_of_dtype(d))
    def item(self): return float(self)
    def copy(self): return self
    def __hash__(self): return float.__hash__(self)


def npscalar(x):
    if type(x) is int:
        return NPInt(x)
    if type(x) is float:
        return NPFloat(x)
    return x


class SymArray:
    __array_ufunc__ = None
    __array_priority__ = 1000
    _pydv_array = True

    def __init__(self, store, shape, vmap=None, lib='np'):
        self._store = store
        self.shape = Shape(nrm_dim(d) for d in shape)
        self._vmap = vmap
        self.lib = lib
        self.grad = None
        self.requires_grad = False
        self.device = 'cpu'

    # ---- basic
    @property
    def _kind(self):
        return self._store.kind

    @property
    def dtype(self):
        return DT[self._kind]

    @property
    def ndim(self):
        return len(self.shape)

    def dim(self):
        return len(self.shape)

    @property
    def _numel(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    def numel(self):
        return self._numel

    @property
    def size(self):
        if self.lib == 'torch':
            return lambda d=None: self.shape if d is None else self.shape[d]
        return self._numel

    @property
    def T(self):
        return self.transpose()

    @property
    def is_cuda(self):
        return False

    @property
    def data(self):
        return self

    @data.setter
    def data(self, v):
        self._store, self._vmap, self.shape = v._store, v._vmap, v.shape

    def tril(self, k=0):
        from .shims import np_trilmat
        return np_trilmat(True)(self, k)

    @property
    def nbytes(self):
        return 8 * self._numel

    def getter(self):
        fn, vm = self._store.fn, self._vmap
        if vm is None:
            return fn
        return lambda idx: fn(vm(idx))

    def at(self, *idx):
        return self.getter()(tuple(nrm_idx(i) for i in idx))

    def _len(self):
        if not self.shape:
            pyraise(TypeError, 'len() of unsized object')
        return self.shape[0]

    def __len__(self):
        n = self._len()
        if isinstance(n, SV):
            return n.__index__()
        return n

    def __contains__(self, x):
        if isinstance(x, SymArray):
            x = x.item()
        rk = getattr(self, '_rank', None)
        if rk is not None and self.ndim == 1:
            return bool(s_cast(rk[0][0]((x,)), 'bool'))
        if self.ndim == 1 and isinstance(self.shape[0], SV):
            return bool(exists_over(self.shape[0], lambda j: s_eq(self.at(j), x)))
        return bool(reduce_any(self == x))

    def __iter__(self):
        n = self._len()
        if isinstance(n, SV):
            raise Unsupported('native iteration over a symbolic-length array')
        for i in range(n):
            yield self[i]

    def __bool__(self):
        nn = self._numel
        if isinstance(nn, SV) or nn != 1:
            if isinstance(nn, SV) and not E().must(s_eq(nn, 1)):
                pyraise(ValueError, 'truth value of an array is ambiguous')
            if not isinstance(nn, SV):
                pyraise(ValueError, 'truth value of an array is ambiguous')
        v = self.at(*[0] * self.ndim)
        return bool(s_cast(v, 'bool'))

    def __index__(self):
        v = self.item()
        return v.__index__()

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f'SymArray{tuple(self.shape)}[{self._kind}]'

    def item(self):
        nn = self._numel
        if isinstance(nn, SV) and not E().must(s_eq(nn, 1)) or not isinstance(nn, SV) and nn != 1:
            pyraise(ValueError, 'can only convert an array of size 1 to a scalar')
        return self.at(*[0] * self.ndim)

    def elements(self):
        """concrete-shape arrays: iterate over index tuples"""
        for d in self.shape:
            if isinstance(d, SV):
                raise Unsupported('enumeration of a symbolic-shape array')
        return itertools.product(*[range(d) for d in self.shape])

    def is_concrete_shape(self):
        return not any(isinstance(d, SV) for d in self.shape)

    def tolist(self):
        if not self.shape:
            return self.at()
        return [x.tolist() if isinstance(x, SymArray) else x for x in self]

    # ---- indexing
    def _parse_index(self, index):
        if not isinstance(index, tuple):
            index = (index,)
        index = [i.as_array() if isinstance(i, SymList) else
                 from_nested(i) if isinstance(i, (list,)) or type(i).__module__ == 'numpy' and getattr(i, 'ndim', 0) > 0
                 else i for i in index]
        # 0-d / scalar bools and arrays
        out = []
        for i in index:
            if isinstance(i, tuple):
                i = from_nested(list(i))
            if isinstance(i, SymArray) and i.ndim == 0:
                i = i.at()
            out.append(i)
        index = out
        n_real = sum(1 if not isinstance(i, SymArray) else (i.ndim if i._kind == 'bool' else 1)
                     for i in index if i is not None and i is not Ellipsis)
        if n_real > self.ndim:
            pyraise(IndexError, 'too many indices for array')
        if not any(i is Ellipsis for i in index):
            index = index + [Ellipsis]
        k = [j for j, i in enumerate(index) if i is Ellipsis][0]
        index = index[:k] + [slice(None)] * (self.ndim - n_real) + index[k + 1:]
        return index

    def _check_bounds(self, i, d):
        """normalise a (possibly negative) scalar index; raises IndexError on the out-of-range path"""
        i = nrm_idx(i)
        ok = s_and(s_le(s_sub(0, d), i), s_lt(i, d))
        if not bool(ok):
            pyraise(IndexError, 'index out of bounds')
        if isinstance(i, SV):
            if E().must(s_ge(i, 0), full=False):
                return i
            if bool(s_lt(i, 0)):
                return nrm_idx(s_add(i, d))
            return i
        if i < 0:
            return nrm_idx(s_add(d, i))
        return i

    def __getitem__(self, index):
        if isinstance(index, str):
            pyraise(IndexError, 'only integers, slices...')
        index = self._parse_index(index)
        if not any(isinstance(i, SymArray) for i in index):
            return self._basic(index)
        return self._fancy(index)

    def _basic(self, index):
        """basic indexing -> view (or scalar)"""
        shape, maps = [], []       # maps: per source dim: ('c', i) or ('v', outdim, start, step)
        src = 0
        for i in index:
            if i is None:
                shape.append(1)
                continue
            d = self.shape[src]
            if isinstance(i, slice):
                start, n, step = slice_bounds(i, d)
                maps.append(('v', len(shape), start, step))
                shape.append(n)
            else:
                if not (isinstance(i, SV) or is_num(i)):
                    pyraise(IndexError, f'bad index {i!r}')
                if isinstance(i, bool) or isinstance(i, SV) and i.kind == 'bool':
                    raise Unsupported('scalar boolean index')
                if isinstance(i, float):
                    pyraise(IndexError, 'float index')
                maps.append(('c', self._check_bounds(i, d)))
            src += 1
        pv = self._vmap

        def vmap(idx):
            out = []
            for m in maps:
                if m[0] == 'c':
                    out.append(m[1])
                else:
                    _, o, st, sp = m
                    x = idx[o]
                    if sp != 1:
                        x = s_mul(x, sp)
                    if not (isinstance(st, int) and st == 0):
                        x = s_add(x, st)
                    out.append(nrm_idx(x))
            out = tuple(out)
            return pv(out) if pv else out
        if not shape:
            return self._store.fn(vmap(()))
        return SymArray(self._store, shape, vmap, self.lib)

    def _fancy(self, index):
        # expand boolean masks into index arrays
        exp = []
        src = 0
        for i in index:
            if i is None:
                exp.append(i)
                continue
            if isinstance(i, SymArray) and i._kind == 'bool':
                for j in range(i.ndim):
                    if not same_dim(i.shape[j], self.shape[src + j]):
                        if not bool(s_eq(i.shape[j], self.shape[src + j])):
                            pyraise(IndexError, 'boolean index did not match indexed array')
                exp.extend(mask_select(i))
                src += i.ndim
            else:
                exp.append(i)
                src += 1
        index = exp
        arr_pos = [k for k, i in enumerate(index) if isinstance(i, SymArray)]
        # scalars mixed with arrays are advanced indices too
        adv = [k for k, i in enumerate(index) if isinstance(i, SymArray) or
               (i is not None and not isinstance(i, slice))]
        bshape = broadcast_shapes(*[index[k].shape for k in arr_pos])
        contiguous = adv == list(range(adv[0], adv[-1] + 1))
        out_shape, plan = [], []
        src = 0
        bstart = None
        nb = len(bshape)
        if not contiguous:
            bstart = 0
            out_shape.extend(bshape)
        for k, i in enumerate(index):
            if i is None:
                out_shape.append(1)
                continue
            d = self.shape[src]
            if k in adv:
                if contiguous and bstart is None:
                    bstart = len(out_shape)
                    out_shape.extend(bshape)
                if isinstance(i, SymArray):
                    if not getattr(i, '_inrange', None) or not same_dim(i._inrange, d):
                        check_array_bounds(i, d)
                    plan.append(('a', i, i.getter(), d))
                else:
                    plan.append(('c', self._check_bounds(i, d)))
            else:
                start, n, step = slice_bounds(i, d)
                plan.append(('v', len(out_shape), start, step))
                out_shape.append(n)
            src += 1
        base = self.getter()

        def imap(idx):
            out = []
            bi = idx[bstart:bstart + nb]
            for p in plan:
                if p[0] == 'c':
                    out.append(p[1])
                elif p[0] == 'a':
                    _, a, g, d = p
                    x = nrm_idx(g(bidx(bi, a.shape, nb)))
                    if not getattr(a, '_nonneg', False):
                        x = nrm_idx(s_ite(s_lt(x, 0), s_add(x, d), x))
                    out.append(x)
                else:
                    _, o, st, sp = p
                    x = idx[o]
                    if sp != 1:
                        x = s_mul(x, sp)
                    out.append(nrm_idx(s_add(x, st)))
            return tuple(out)
        r = SymArray(Store(lambda idx: base(imap(idx)), self._kind), out_shape, lib=self.lib)
        r._imap = (imap, plan, index, adv)
        return r

    def __setitem__(self, index, value):
        index = self._parse_index(index)
        if any(isinstance(i, SymArray) for i in index):
            return self._set_fancy(index, value)
        view = self._basic_view(index)
        view.assign(value)

    def _basic_view(self, index):
        v = self._basic(index)
        if isinstance(v, SymArray):
            return v
        # scalar position: 0-d view
        pos = []
        src = 0
        for i in index:
            if i is None:
                continue
            pos.append(self._check_bounds(i, self.shape[src]))
            src += 1
        pos = tuple(pos)
        pv = self._vmap
        tgt = pv(pos) if pv else pos
        return SymArray(self._store, (), lambda idx: tgt, self.lib)

    def assign(self, value):
        """self[...] = value"""
        if isinstance(value, (list, tuple)) or type(value).__module__ == 'numpy' and getattr(value, 'ndim', 0) > 0:
            value = from_nested(value)
        if isinstance(value, SymList):
            value = value.as_array()
        if isinstance(value, SymArray):
            vs = value.shape
            while len(vs) > self.ndim and dim_is_one(vs[0]):
                value = value[0]
                vs = value.shape if isinstance(value, SymArray) else ()
                if not isinstance(value, SymArray):
                    break
        if isinstance(value, SymArray):
            sh = broadcast_shapes(self.shape, value.shape)
            if len(sh) != self.ndim:
                pyraise(ValueError, 'could not broadcast input array')
            for a, b in zip(sh, self.shape):
                if not same_dim(a, b) and not bool(s_eq(a, b)):
                    pyraise(ValueError, 'could not broadcast input array')
            g, vsh, nd = value.getter(), value.shape, self.ndim
            val = lambda idx: g(bidx(idx, vsh, nd))
        else:
            if self._kind != 'obj' and not (isinstance(value, SV) or is_num(value)):
                if value is None or isinstance(value, str):
                    pyraise(TypeError, f'cannot store {value!r}')
                raise Unsupported(f'cannot store {type(value)} in an array')
            val = lambda idx: value
        if self._vmap is None:
            self._store.fn = Fn(lambda idx, k=self._store.kind: s_cast(val(idx), k))
            self._store.version += 1
            return
        inv = self._inverse()
        self._store.put(lambda sidx: inv(sidx, val))

    def _inverse(self):
        """cond/value of a write through the view: probe the view map on a symbolic index to
        recover its (affine, per-dimension) form, then invert it."""
        shape = self.shape
        vmap = self._vmap
        nd = len(shape)
        if hasattr(self, '_inv_cache'):
            return self._inv_cache
        probes = [SV(z3.Int(f'probe!{k}')) for k in range(nd)]
        form = vmap(tuple(probes))
        # each component must be constant or  c*probe_k + b
        comp = []
        for f in form:
            if not isinstance(f, SV):
                comp.append(('c', f))
                continue
            used = [k for k in range(nd) if _occurs(f.t, probes[k].t)]
            if not used:
                comp.append(('c', f))
            elif len(used) == 1:
                k = used[0]
                b = z3.simplify(z3.substitute(f.t, (probes[k].t, z3.IntVal(0))))
                c1 = z3.simplify(z3.substitute(f.t, (probes[k].t, z3.IntVal(1))) - b)
                if not z3.is_int_value(c1) or c1.as_long() not in (1, -1):
                    raise Unsupported('write through a strided view')
                if not E().must(f.t == c1 * probes[k].t + b, full=False):
                    raise Unsupported('write through a non-affine view')
                comp.append(('v', k, c1.as_long(), mk(b)))
            else:
                raise Unsupported('write through a reshaped view')
        missing = [k for k in range(nd) if not any(c[0] == 'v' and c[1] == k for c in comp)]

        def inv(sidx, val):
            cond = True
            idx = [None] * nd
            for k in missing:
                if not dim_is_one(shape[k]) and not _known_one(shape[k]):
                    raise Unsupported('write through a broadcast view')
                idx[k] = 0
            for s, c in zip(sidx, comp):
                if c[0] == 'c':
                    cond = s_and(cond, s_eq(s, c[1])) if cond is not False else False
                else:
                    _, k, sg, b = c
                    i = nrm_idx(s_sub(s, b) if sg == 1 else s_sub(b, s))
                    if idx[k] is not None:
                        cond = s_and(cond, s_eq(idx[k], i))
                    else:
                        idx[k] = i
                        if not (sg == 1 and isinstance(b, int) and b == 0 and self._full(k)):
                            cond = s_and(cond, s_and(s_le(0, i), s_lt(i, shape[k])))
                        else:
                            cond = s_and(cond, s_lt(i, shape[k]))
                if cond is False:
                    return False, None
            return cond, (lambda: val(tuple(idx)))
        self._inv_cache = inv
        return inv

    def _full(self, k):
        return False

    def _set_fancy(self, index, value):
        # single boolean mask over leading dims (the common case)
        masks = [i for i in index if isinstance(i, SymArray) and i._kind == 'bool']
        if len(masks) == 1 and all(isinstance(i, slice) and i == slice(None) or i is masks[0] for i in index) \
                and index[0] is masks[0]:
            m = masks[0]
            mg, md = m.getter(), m.ndim
            for j in range(md):
                if not same_dim(m.shape[j], self.shape[j]) and not bool(s_eq(m.shape[j], self.shape[j])):
                    pyraise(IndexError, 'boolean index did not match')
            if isinstance(value, (list, tuple)):
                value = from_nested(value)
            if isinstance(value, SymList):
                value = value.as_array()
            if isinstance(value, SymArray) and value.ndim > 0:
                vg, vsh = value.getter(), value.shape
                tail = self.ndim - md
                if value.ndim == tail + 1 and not dim_is_one(vsh[0]):
                    rank, cnt = mask_rank(m)
                    if not same_dim(vsh[0], cnt) and not bool(s_eq(vsh[0], cnt)):
                        pyraise(ValueError, 'NumPy boolean array indexing assignment mismatch')
                    val = lambda idx: vg(bidx((rank(idx[:md]),) + tuple(idx[md:]), vsh, tail + 1))
                elif value.ndim <= tail + 1:
                    val = lambda idx: vg(bidx((0,) + tuple(idx[md:]), vsh, tail + 1))
                else:
                    raise Unsupported('mask assignment with this shape')
            else:
                if isinstance(value, SymArray):
                    value = value.at()
                val = lambda idx: value
            sel = lambda idx: mg(tuple(idx[:md]))
            self._masked_write(sel, val)
            return
        if masks:
            # convert masks
            pass
        got = self._fancy(index)
        imap, plan, pidx, adv = got._imap
        if isinstance(value, (list, tuple)):
            value = from_nested(value)
        if isinstance(value, SymArray):
            sh = broadcast_shapes(got.shape, value.shape)
            vg, vsh = value.getter(), value.shape
            val = lambda idx: vg(bidx(idx, vsh, got.ndim))
        else:
            val = lambda idx: value
        # concrete number of positions: sequential writes
        bsh = [d for d in got.shape]
        if all(not isinstance(d, SV) for d in bsh):
            for idx in itertools.product(*[range(d) for d in bsh]):
                pos = imap(idx)
                v = val(idx)
                self._point_write(pos, v)
            return
        # symbolic number: only for 1-d index arrays known to be injective
        inj = [p for p in plan if p[0] == 'a']
        ranks = [getattr(p[1], '_rank', None) for p in inj]
        if len(inj) >= 1 and all(r is not None for r in ranks) and len({id(r[0]) for r in ranks}) == 1 \
                and len(inj) == len(plan):
            member, rank = ranks[0][0]
            self._masked_write(lambda idx: member(idx), lambda idx: val((rank(idx),)))
            return
        # rows enumerated by arange on one axis, symbolic column: a[arange(n), idx] = v
        ar = [k for k, p in enumerate(plan) if p[0] == 'a' and getattr(p[1], '_arange', False)]
        if len(ar) == 1 and all(p[0] in ('a', 'c') for p in plan) and got.ndim == 1:
            k0 = ar[0]

            def cond(idx):
                i = idx[k0]
                pos = imap((i,))
                c = s_and(s_le(0, i), s_lt(i, got.shape[0]))
                for a, b in zip(idx, pos):
                    c = s_and(c, s_eq(a, b))
                return c
            self._masked_write(cond, lambda idx: val((idx[k0],)))
            return
        if not isinstance(value, SymArray) or all(dim_is_one(d) for d in value.shape):
            v0 = value.at(*([0] * value.ndim)) if isinstance(value, SymArray) else value
            if got.ndim == 1 and len(plan) == 1 and isinstance(got.shape[0], SV):
                self._masked_write(lambda idx: exists_over(got.shape[0], lambda j: s_eq(imap((j,))[0], idx[0])),
                                   lambda idx: v0)
                return
        raise Unsupported('fancy assignment with a symbolic number of positions')

    def _point_write(self, pos, v):
        pv = self._vmap
        tgt = pv(pos) if pv else pos

        def cv(sidx):
            c = True
            for a, b in zip(sidx, tgt):
                c = s_and(c, s_eq(a, b))
                if c is False:
                    return False, None
            return c, (lambda: v)
        self._store.put(cv)

    def _masked_write(self, sel, val):
        if self._vmap is None:
            self._store.put(lambda idx: (sel(idx), (lambda: val(idx))))
        else:
            inv = self._inverse()
            me = self

            def cv(sidx):
                holder = {}

                def grab(idx):
                    holder['i'] = idx
                    return 0
                c, v = inv(sidx, grab)
                if c is False:
                    return False, None
                v()
                i = holder['i']
                return s_and(c, sel(i)), (lambda: val(i))
            self._store.put(cv)

    # ---- arithmetic
    def _b(self, o, f, swap=False, kind=None):
        if not (isinstance(o, (SymArray, SV, list, tuple, SymList)) or is_num(o)
                or type(o).__module__ == 'numpy'):
            return NotImplemented
        if type(o).__module__ == 'numpy' and getattr(o, 'ndim', 0) > 0:
            o = from_nested(o)
        a, b = (o, self) if swap else (self, o)
        return ew(f, a, b, kind=kind, lib=self.lib)

    def __add__(self, o):
        if self._kind == 'bool' and getattr(o, '_kind', None) == 'bool':
            return self._b(o, s_or, kind='bool')
        return self._b(o, s_add, kind=self._nk(o))
    def __radd__(self, o): return self._b(o, s_add, True, kind=self._nk(o))
    def __sub__(self, o): return self._b(o, s_sub, kind=self._nk(o))
    def __rsub__(self, o): return self._b(o, s_sub, True, kind=self._nk(o))
    def __mul__(self, o):
        if self._kind == 'bool' and getattr(o, '_kind', None) == 'bool':
            return self._b(o, s_and, kind='bool')       # numpy / torch: the product of booleans is boolean
        return self._b(o, s_mul)
    def __rmul__(self, o): return self._b(o, s_mul, True)
    def __truediv__(self, o): return self._b(o, a_div, kind='real')
    def __rtruediv__(self, o): return self._b(o, a_div, True, kind='real')
    def __floordiv__(self, o): return self._b(o, s_fdiv)
    def __rfloordiv__(self, o): return self._b(o, s_fdiv, True)
    def __mod__(self, o): return self._b(o, s_mod)
    def __rmod__(self, o): return self._b(o, s_mod, True)
    def __pow__(self, o): return self._b(o, s_pow)
    def __rpow__(self, o): return self._b(o, s_pow, True)
    def __lt__(self, o): return self._b(o, s_lt, kind='bool')
    def __le__(self, o): return self._b(o, s_le, kind='bool')
    def __gt__(self, o): return self._b(o, s_gt, kind='bool')
    def __ge__(self, o): return self._b(o, s_ge, kind='bool')

    def __eq__(self, o):
        if isinstance(o, str) and self._kind == 'obj':
            return ew(lambda v: v == o, self, kind='bool')
        if o is None or isinstance(o, str):
            return False
        return self._b(o, s_eq, kind='bool')

    def __ne__(self, o):
        if isinstance(o, str) and self._kind == 'obj':
            return ew(lambda v: v != o, self, kind='bool')
        if o is None or isinstance(o, str):
            return True
        return self._b(o, s_ne, kind='bool')

    def __and__(self, o): return self._b(o, s_and, kind='bool')
    def __rand__(self, o): return self._b(o, s_and, kind='bool')
    def __or__(self, o): return self._b(o, s_or, kind='bool')
    def __ror__(self, o): return self._b(o, s_or, kind='bool')
    def __xor__(self, o): return self._b(o, s_ne, kind='bool')
    def __invert__(self): return ew(s_not, self, kind='bool')
    def __neg__(self): return ew(lambda x: s_sub(0, x), self)
    def __pos__(self): return self
    def __abs__(self): return ew(s_abs, self)

    def _nk(self, o):
        if self._kind == 'bool':
            ok = o._kind if isinstance(o, SymArray) else kind_of_value(o)
            if ok == 'bool':
                if isinstance(o, SymArray) and self.lib == 'np':
                    pyraise(TypeError, 'numpy boolean subtract / add on booleans')
                return 'int'
        return None

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if isinstance(r, SymArray):
            if self._kind == 'int' and r._kind == 'real' or self._kind == 'bool' and r._kind != 'bool':
                pyraise(TypeError, 'Cannot cast ufunc output')      # numpy UFuncTypeError
        self.assign(r)
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __ifloordiv__(self, o): return self._inplace(self // o)
    def __imod__(self, o): return self._inplace(self % o)
    def __ipow__(self, o): return self._inplace(self ** o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    # ---- methods
    def copy(self):
        g = self.getter()
        r = SymArray(Store(lambda idx: g(idx), self._kind), self.shape, lib=self.lib)
        for a in ('_inrange', '_nonneg', '_rank', '_arange'):
            if hasattr(self, a):
                setattr(r, a, getattr(self, a))
        return r

    clone = copy

    def copy_rank(self):
        r = self.copy()
        for k in ('_rank', '_nonneg', '_inrange'):
            if hasattr(self, k):
                setattr(r, k, getattr(self, k))
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def backward(self, *a, **k): E().on_backward(self)
    def detach(self): return self
    def detach_(self): return self
    def cpu(self): return self
    def contiguous(self): return self
    def requires_grad_(self, *a): return self
    def numpy(self): return self._as('np')
    def to(self, *a, **k):
        for x in list(a) + [k.get('dtype')]:
            if isinstance(x, DType):
                return self.astype(x)
        return self

    def _as(self, lib):
        r = SymArray(self._store, self.shape, self._vmap, lib)
        for a in ('_inrange', '_nonneg', '_rank', '_arange'):
            if hasattr(self, a):
                setattr(r, a, getattr(self, a))
        return r

    def astype(self, d, copy=True):
        k = kind_of_dtype(d)
        if k == self._kind:
            return self.copy()
        g = self.getter()
        r = SymArray(Store(lambda idx: s_cast(g(idx), k), k), self.shape, lib=self.lib)
        return r

    def type(self, d):
        return self if kind_of_dtype(d) == self._kind else self.astype(d)      # torch: no copy when the type is the same
    def float(self): return self.astype(float64)
    def double(self): return self.astype(float64)
    def long(self): return self.astype(int64)
    def int(self): return self.astype(int64)
    def bool(self): return self.astype(bool_)
    def fill(self, v): self.assign(v)
    def fill_(self, v):
        self.assign(v)
        return self
    def copy_(self, v):
        self.assign(v)
        return self
    def zero_(self):
        self.assign(0)
        return self

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order == 'F':
            if self.ndim >= 2 and len(shape) == self.ndim - 1 and all(
                    same_dim(x, y) for x, y in zip(self.shape[2:], shape[1:])):
                # merging the first two axes, first one fastest
                p = (1, 0) + tuple(range(2, self.ndim))
                lib, self_t = self.lib, self
                t = np_transpose_axes(self_t, p)
                return reshape(t, shape)
            raise Unsupported('reshape in Fortran order')
        return reshape(self, shape)

    def view(self, *shape): return self.reshape(*shape)
    def ravel(self):
        g = getattr(self, '_argw', None)
        if g is not None and g[1] == self._store.version:
            return g[0]
        return reshape(self, (-1,))
    def flatten(self, *a, order='C'):
        if a and a[0] in ('F', 'C'):
            order, a = a[0], ()
        if order == 'F' and self.ndim == 2:
            return np_transpose_axes(self, (1, 0)).flatten()
        if order != 'C' and self.ndim != 1:
            raise Unsupported('flatten in Fortran order')
        g = getattr(self, '_argw', None)
        if g is not None and g[1] == self._store.version:
            return g[0].copy_rank()
        if a:
            raise Unsupported('flatten(start)')
        return reshape(self, (-1,)).copy()

    def squeeze(self, axis=None, dim=None):
        axis = dim if axis is None else axis
        keep = []
        for k, d in enumerate(self.shape):
            if axis is not None and k != axis % max(self.ndim, 1):
                keep.append(k)
                continue
            one = dim_is_one(d) or (isinstance(d, SV) and bool(s_eq(d, 1)))
            if not one:
                if axis is not None and self.lib == 'np':
                    pyraise(ValueError, 'cannot squeeze')
                keep.append(k)
        index = tuple(slice(None) if k in keep else 0 for k in range(self.ndim))
        if len(keep) == self.ndim:
            return self
        r = self[index]
        return r

    def unsqueeze(self, axis=0, dim=None):
        axis = dim if dim is not None else axis
        if axis < 0:
            axis += self.ndim + 1
        return self[tuple([slice(None)] * axis + [None])]

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        nd = self.ndim
        if self.lib == 'torch' and len(axes) == 2 and nd >= 2:
            p = list(range(nd))
            p[axes[0]], p[axes[1]] = p[axes[1]], p[axes[0]]
            axes = p
        if not axes:
            axes = tuple(reversed(range(nd)))
        pv = self._vmap

        def vmap(idx):
            out = [None] * nd
            for k, a in enumerate(axes):
                out[a] = idx[k]
            out = tuple(out)
            return pv(out) if pv else out
        return SymArray(self._store, [self.shape[a] for a in axes], vmap, self.lib)

    def permute(self, *axes): return SymArray.transpose(self._as('np'), *axes)._as(self.lib)
    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self._as('np').transpose(*p)._as(self.lib)
    def t(self): return self._as('np').transpose()._as(self.lib)

    def repeat(self, *reps, axis=None):
        if self.lib == 'torch':
            return tile(self, reps[0] if isinstance(reps[0], (tuple, list)) else reps)
        return repeat(self, reps[0], axis if axis is not None or len(reps) == 1 else reps[1])

    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(s if not (isinstance(s, int) and s == -1) else self.shape[k - (len(shape) - self.ndim)]
                      for k, s in enumerate(shape))
        return broadcast_to(self, shape)

    def sum(self, axis=None, dim=None, keepdims=False, keepdim=False, dtype=None):
        return npscalar(reduce_sum(self, dim if dim is not None else axis, keepdims or keepdim))

    def mean(self, axis=None, dim=None, keepdims=False, keepdim=False):
        return reduce_mean(self, dim if dim is not None else axis, keepdims or keepdim)

    def prod(self, axis=None):
        return reduce_prod(self, axis)

    def max(self, axis=None, dim=None, keepdims=False, keepdim=False):
        axis = dim if dim is not None else axis
        r = reduce_max(self, axis, keepdims or keepdim)
        if self.lib == 'torch' and axis is not None:
            return TorchMinMax(r, reduce_argmax(self, axis, keepdims or keepdim))
        return r

    def min(self, axis=None, dim=None, keepdims=False, keepdim=False):
        axis = dim if dim is not None else axis
        r = reduce_max(self, axis, keepdims or keepdim, sign=-1)
        if self.lib == 'torch' and axis is not None:
            return TorchMinMax(r, reduce_argmax(self, axis, keepdims or keepdim, sign=-1))
        return r

    def argmax(self, axis=None, dim=None, keepdim=False): return reduce_argmax(self, dim if dim is not None else axis, keepdim)
    def argmin(self, axis=None, dim=None, keepdim=False): return reduce_argmax(self, dim if dim is not None else axis, keepdim, sign=-1)
    def any(self, axis=None, dim=None, keepdims=False): return reduce_any(self, dim if dim is not None else axis, keepdims)
    def all(self, axis=None, dim=None, keepdims=False): return reduce_all(self, dim if dim is not None else axis, keepdims)
    def median(self, axis=None):
        # assumed contract of the external function: a value between the minimum and the maximum
        if axis is not None or self.ndim != 1:
            raise Unsupported('median')
        v = E().fresh('m_median', Real)
        E().assumptions.add('median: only known to lie between the minimum and the maximum')
        E().assume(z3.And(real_t(zt(self.min())) <= v, v <= real_t(zt(self.max()))))
        return SV(v)

    def std(self, axis=None, ddof=0, **k): return reduce_std(self, axis, ddof if self.lib == 'np' else 1)
    def var(self, axis=None, ddof=0, **k): return reduce_var(self, axis, ddof if self.lib == 'np' else 1)
    def dot(self, o): return matmul(self, o)
    def mm(self, o): return matmul(self, o)
    def matmul(self, o): return matmul(self, o)
    def clip(self, lo=None, hi=None, **k):
        return clip(self, k.get('min', lo), k.get('max', hi))
    clamp = clip
    def abs(self): return abs(self)
    def exp(self): return ew(lambda x: s_func('exp', x), self, kind='real')
    def log(self): return ew(lambda x: s_func('log', x), self, kind='real')
    def sqrt(self): return ew(lambda x: s_func('sqrt', x), self, kind='real')
    def pow(self, k): return self ** k
    def nonzero(self, as_tuple=False):
        if self.lib == 'torch' and not as_tuple:
            return argwhere(self)
        return mask_select(self.astype(bool_))

    def gather(self, dim, index):
        g, ig = self.getter(), index.getter()
        dim = dim % self.ndim
        check_array_bounds(index, self.shape[dim])

        def f(idx):
            j = list(idx)
            j[dim] = nrm_idx(ig(idx))
            return g(tuple(j))
        return SymArray(Store(f, self._kind), index.shape, lib=self.lib)

    def tobytes(self): raise Unsupported('tobytes')


class TorchMinMax(tuple):
    def __new__(cls, values, indices):
        return tuple.__new__(cls, (values, indices))

    @property
    def values(self): return self[0]

    @property
    def indices(self): return self[1]


class Shape(tuple):
    def numel(self):
        r = 1
        for d in self:
            r = r * d
        return r

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Shape(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Shape(tuple.__add__(self, tuple(o)))

    def __radd__(self, o):
        return Shape(tuple.__add__(tuple(o), self))

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)):
            return False
        if len(o) != len(self):
            return False
        for a, b in zip(self, o):
            if not same_dim(a, b):
                if isinstance(a, SV) or isinstance(b, SV):
                    if bool(s_eq(a, b)):
                        continue
                return False
        return True

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return tuple.__hash__(self)


def a_div(a, b):
    """array division: x/0 is not an exception in numpy"""
    if not isinstance(a, SV) and not isinstance(b, SV):
        a, b = pynum(a), pynum(b)
        if b == 0:
            if a == 0:
                return float('nan')
            return float('inf') if a > 0 else float('-inf')
        return a / b
    return s_div(a, b)


def _occurs(t, c):
    seen, stack, cid = set(), [t], c.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i == cid:
            return True
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False


def slice_bounds(s, n):
    """(start, length, step) of slice s on a dim of length n"""
    step = 1 if s.step is None else s.step
    if isinstance(step, SV):
        raise Unsupported('symbolic slice step')
    if step == 0:
        pyraise(ValueError, 'slice step cannot be zero')

    def clampd(i, lo, hi):
        if isinstance(i, SymArray):
            i = i.item()
        if isinstance(i, SV):
            i = nrm_idx(i)
        if isinstance(i, float):
            pyraise(TypeError, 'slice indices must be integers')
        if isinstance(i, SV) or isinstance(n, SV):
            m = E().must
            if isinstance(i, SV):
                neg = None
                if m(s_ge(i, 0), full=False):
                    neg = False
                elif m(s_lt(i, 0), full=False):
                    neg = True
                i2 = i if neg is False else s_add(i, n) if neg else s_ite(s_lt(i, 0), s_add(i, n), i)
            else:
                i2 = s_add(i, n) if i < 0 else i
            # clamp to [lo, hi]
            if not m(s_ge(i2, lo), full=False):
                i2 = s_ite(s_lt(i2, lo), lo, i2)
            if not m(s_le(i2, hi), full=False):
                i2 = s_ite(s_gt(i2, hi), hi, i2)
            return nrm_idx(i2)
        if i < 0:
            i += n
        return max(lo, min(hi, i))
    if step > 0:
        start = 0 if s.start is None else clampd(s.start, 0, n)
        stop = n if s.stop is None else clampd(s.stop, 0, n)
        ln = s_sub(stop, start)
        if step > 1:
            ln = s_fdiv(s_add(ln, step - 1), step)
    else:
        start = s_sub(n, 1) if s.start is None else clampd(s.start, -1, s_sub(n, 1))
        stop = -1 if s.stop is None else clampd(s.stop, -1, s_sub(n, 1))
        ln = s_sub(start, stop)
        if step < -1:
            ln = s_fdiv(s_add(ln, -step - 1), -step)
    if isinstance(ln, SV):
        ln = nrm_idx(ln)
    if isinstance(ln, SV):
        if not E().must(s_ge(ln, 0), full=False):
            ln = nrm_idx(s_ite(s_lt(ln, 0), 0, ln))
    else:
        ln = max(0, ln)
    return nrm_idx(start), ln, step


def check_array_bounds(a, d):
    """every element of the index array is a valid index, else IndexError"""
    if a.is_concrete_shape():
        ok = True
        nn = True
        for idx in a.elements():
            v = a.getter()(idx)
            if isinstance(v, float):
                pyraise(IndexError, 'arrays used as indices must be of integer type')
            ok = s_and(ok, s_and(s_le(s_sub(0, d), v), s_lt(v, d)))
            nn = s_and(nn, s_le(0, v))
        if not bool(ok):
            pyraise(IndexError, 'index out of bounds')
        if isinstance(nn, bool) and nn or E().must(nn, full=False):
            a._nonneg = True
        return
    if a._kind == 'real':
        pyraise(IndexError, 'arrays used as indices must be of integer type')
    # symbolic: prove for an arbitrary element, otherwise fork on existence of a bad element
    ks = [E().fresh('bk', Int) for _ in a.shape]
    dom = z3.And([z3.And(k >= 0, k < zt(n)) for k, n in zip(ks, a.shape)])
    E().bound.extend(ks)
    v = zt(a.getter()(tuple(SV(k) for k in ks)))
    E().bound = E().bound[:-len(ks)]
    if E().must(z3.Implies(dom, z3.And(v >= 0, v < zt(d)))):
        a._nonneg = True
        a._inrange = d
        return
    if E().must(z3.Implies(dom, z3.And(v >= -zt(d), v < zt(d)))):
        a._inrange = d
        return
    bad = E().fresh('oob', Bool)
    w = [E().fresh('w', Int) for _ in a.shape]
    if bool(SV(bad)):
        sub = list(zip(ks, w))
        E().assume(z3.substitute(z3.And(dom, z3.Not(z3.And(v >= -zt(d), v < zt(d)))), *sub))
        pyraise(IndexError, 'index out of bounds')
    E().assume(z3.ForAll(ks, z3.Implies(dom, z3.And(v >= -zt(d), v < zt(d)))))


# --------------------------------------------------------------------------- masks
def flat_bool(m):
    return m


def mask_info(m):
    """selection functions of a 1-d boolean array: (count, sel(k), rank(i)); memoised on content"""
    if m.ndim != 1:
        raise Unsupported('multi-dimensional mask selection')
    n = m.shape[0]
    g = m.getter()
    eng = E()
    k = z3.Int('mk!')
    eng.bound.append(k)
    try:
        body = z3.simplify(bool_t(zt(g((SV(k),)))))
    finally:
        eng.bound.pop()
    nt = z3.simplify(zt(n))
    key = ('mask', body.get_id(), nt.get_id())
    if key in eng.memo:
        return eng.memo[key][0]
    if eng._bound_in(body):
        raise Unsupported('mask under a quantifier')
    cnt = eng.fresh('cnt', Int)
    sel = eng.fresh_fn('sel', Int, Int)
    rank = eng.fresh_fn('rank', Int, Int)
    i, j = z3.Ints('mi! mj!')
    at = lambda x: z3.substitute(body, (k, x))
    old_grp, eng.grp = eng.grp, frozenset(x.name() for x in (cnt.decl(), sel, rank))
    eng.axiom(z3.And(cnt >= 0, z3.Or(cnt <= nt, nt < 0)))
    eng.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < cnt),
                                         z3.And(sel(i) >= 0, sel(i) < nt, at(sel(i)), rank(sel(i)) == i,
                                                sel(i) >= i)),
                         patterns=[sel(i)]))
    eng.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nt, at(i)),
                                         z3.And(rank(i) >= 0, rank(i) < cnt, sel(rank(i)) == i)),
                         patterns=[rank(i)]))
    eng.axiom(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < cnt), sel(i) < sel(j)),
                         patterns=[z3.MultiPattern(sel(i), sel(j))]))
    # mask true somewhere <-> count > 0  (rank is total, so any true index forces cnt > 0)
    eng.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nt, at(i)), z3.And(rank(i) >= 0, rank(i) < cnt))))
    from . import arrays as _a
    eng.grp = old_grp
    csum = _a.sum_term(z3.If(at(k), z3.IntVal(1), z3.IntVal(0)), k, nt)
    eng.grp = frozenset(x.name() for x in (cnt.decl(), sel, rank))
    eng.axiom(cnt == csum)
    cbody = z3.simplify(z3.If(at(k), z3.IntVal(1), z3.IntVal(0)))
    if _occurs(cbody, k):
        # the i-th selected position is the one where the running count reaches i + 1
        eng.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < cnt),
                                             SUMI(z3.Lambda([k], cbody), sel(i) + 1) == i + 1), patterns=[sel(i)]))
        eng.memo.setdefault('masks', []).append((cbody, k, nt, rank, at))
    eng.grp = old_grp
    r = (nrm_dim(SV(cnt)), sel, rank, at)
    eng.memo[key] = (r, body, nt)
    return r


def mask_select(m):
    """np.nonzero(mask) -> tuple of index arrays"""
    if m.ndim == 1 and m.is_concrete_shape() and (m.shape[0] <= 6 or all(not isinstance(m.at(i), SV) for i in range(m.shape[0]))):
        # concrete length: enumerate, forking on every flag
        idxs = [i for i in range(m.shape[0]) if bool(s_cast(m.at(i), 'bool'))]
        a = from_nested(idxs) if idxs else SymArray(Store(lambda idx: 0, 'int'), (0,))
        a._nonneg = True
        a.lib = m.lib
        return (a,)
    if m.ndim == 2 and m.is_concrete_shape():
        pos = [p for p in m.elements() if bool(s_cast(m.at(*p), 'bool'))]
        out = []
        for k in range(2):
            a = from_nested([p[k] for p in pos]) if pos else SymArray(Store(lambda idx: 0, 'int'), (0,))
            a._nonneg = True
            a.lib = m.lib
            out.append(a)
        return tuple(out)
    cnt, sel, rank, at = mask_info(m)
    def pick(x):
        # sel(rank(i)) = i on selected positions; rank only occurs under that guard (masked writes)
        if z3.is_app(x) and x.num_args() == 1 and x.decl().eq(rank):
            return x.arg(0)
        return sel(x)
    a = SymArray(Store(lambda idx: mk(pick(zt(idx[0]))), 'int'), (cnt,), lib=m.lib)
    a._nonneg = True
    a._inrange = m.shape[0]
    n = zt(m.shape[0])
    a._rank = ((lambda idx: mk(z3.And(zt(idx[0]) >= 0, zt(idx[0]) < n, at(zt(idx[0])))),
                lambda idx: mk(rank(zt(idx[0])))),)
    return (a,)


def mask_rank(m):
    if m.ndim == 1 and m.is_concrete_shape():
        g = m.getter()

        def rk(idx):
            i = idx[0]
            if isinstance(i, SV):
                r = 0
                for j in range(m.shape[0]):
                    r = s_add(r, s_ite(s_and(s_lt(j, i), s_cast(g((j,)), 'bool')), 1, 0))
                return nrm_idx(r)
            r = 0
            for j in range(i):
                r = s_add(r, s_ite(s_cast(g((j,)), 'bool'), 1, 0))
            return nrm_idx(r)
        cnt = 0
        for j in range(m.shape[0]):
            cnt = s_add(cnt, s_ite(s_cast(g((j,)), 'bool'), 1, 0))
        return rk, cnt
    cnt, sel, rank, at = mask_info(m)
    return (lambda idx: mk(rank(zt(idx[0])))), cnt


def argwhere(m):
    m = m.astype(bool_)
    if m.ndim != 1:
        from .shims import concretise
        import numpy
        return from_nested(numpy.argwhere(concretise(m)), lib=m.lib)
    sel = mask_select(m)
    r = stack(list(sel), 1)
    if len(sel) == 1:
        r._argw = (sel[0], r._store.version)
    return r


# --------------------------------------------------------------------------- constructors
def full(shape, v, kind=None, lib='np'):
    if isinstance(shape, (int, SV)):
        shape = (shape,)
    if isinstance(shape, SymArray):
        shape = tuple(shape)
    for d in shape:
        if isinstance(d, SV):
            if not E().must(s_ge(d, 0), full=False):
                if bool(s_lt(d, 0)):
                    pyraise(ValueError, 'negative dimensions are not allowed')
        elif d < 0:
            pyraise(ValueError, 'negative dimensions are not allowed')
        elif isinstance(d, float):
            pyraise(TypeError, 'float shape')
    kind = kind or kind_of_value(v)
    v = s_cast(v, kind)
    return SymArray(Store(lambda idx: v, kind), shape, lib=lib)


_EMPTY = {}


def fresh_array(name, shape, kind, lib='np'):
    """array of arbitrary content"""
    sort = {'real': Real, 'int': Int, 'bool': Bool}[kind]
    if len(shape) == 0:
        return mk(E().fresh(name, sort))
    f = E().fresh_fn(name, *([Int] * len(shape)), sort)
    a = SymArray(Store(lambda idx: mk(f(*[zt(i) for i in idx])), kind), shape, lib=lib)
    a._func = f
    return a


def empty(shape, kind, lib='np'):
    if isinstance(shape, (int, SV)):
        shape = (shape,)
    full(shape, 0)
    if kind == 'obj':
        return full(shape, None, 'obj', lib)
    return fresh_array('empty', tuple(shape), kind, lib) if len(shape) else SymArray(
        Store(lambda idx, v=mk(E().fresh('empty', {'real': Real, 'int': Int, 'bool': Bool}[kind])): v, kind), (), lib=lib)


def from_nested(x, kind=None, lib='np'):
    """np.array(x)"""
    if isinstance(x, SymArray):
        return x.copy()
    if isinstance(x, SymList):
        return x.as_array(kind, lib)
    if type(x).__module__ == 'numpy' and getattr(x, 'ndim', None) is not None and hasattr(x, 'tolist'):
        k = {'f': 'real', 'i': 'int', 'u': 'int', 'b': 'bool', 'O': 'obj'}[x.dtype.kind]
        vals = x.tolist()
        shape = x.shape
        if x.ndim == 0:
            return SymArray(Store(lambda idx: vals, kind or k), (), lib=lib)
        return _from_list(vals, shape, kind or k, lib)
    if type(x).__module__.startswith('torch') and hasattr(x, 'tolist'):
        return from_nested(x.detach().numpy(), kind, lib)
    if isinstance(x, SymRange):
        return x.as_array(lib)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return SymArray(Store(lambda idx: 0.0, kind or 'real'), (0,), lib=lib)
        subs = [from_nested(e, None, lib) if not (is_num(e) or isinstance(e, SV) or e is None or isinstance(e, str)) else e
                for e in x]
        if all(isinstance(s, SymArray) for s in subs):
            return _cast_kind(stack(subs, 0), kind)
        if any(isinstance(s, SymArray) for s in subs):
            if all(isinstance(s, SymArray) and s.ndim == 0 or not isinstance(s, SymArray) for s in subs):
                subs = [s.at() if isinstance(s, SymArray) else s for s in subs]
            else:
                raise Unsupported('ragged array')
        k = kind or promote(*[kind_of_value(s) for s in subs])
        return _from_list(list(subs), (len(subs),), k, lib)
    if is_num(x) or isinstance(x, SV):
        k = kind or kind_of_value(x)
        v = s_cast(x, k)
        return SymArray(Store(lambda idx: v, k), (), lib=lib)
    if isinstance(x, (range,)):
        return from_nested(list(x), kind, lib)
    if hasattr(x, '__array__'):
        return from_nested(x.__array__(), kind, lib)
    return SymArray(Store(lambda idx: x, 'obj'), (), lib=lib)


def _cast_kind(a, kind):
    return a if kind is None or a._kind == kind else a.astype(DT[kind])


def _from_list(vals, shape, kind, lib):
    def get(idx):
        return pick(vals, idx, shape)

    def pick(v, idx, sh):
        i = idx[0]
        if isinstance(i, SV):
            n = len(v)
            if n == 0:
                return 0 if kind != 'obj' else None
            if len(idx) > 1:
                r = pick(v[n - 1], idx[1:], sh[1:])
            else:
                r = s_cast(v[n - 1], kind)
            for j in range(n - 2, -1, -1):
                e = pick(v[j], idx[1:], sh[1:]) if len(idx) > 1 else s_cast(v[j], kind)
                r = s_ite(s_eq(i, j), e, r)
            return r
        if not 0 <= i < len(v):
            return s_cast(0, kind) if kind != 'obj' else None
        e = v[i]
        return pick(e, idx[1:], sh[1:]) if len(idx) > 1 else s_cast(e, kind)
    return SymArray(Store(get, kind), shape, lib=lib)


def stack(arrs, axis=0, lib=None):
    if isinstance(arrs, SymList):
        if axis != 0:
            raise Unsupported('stack of a symbolic list on axis != 0')
        return arrs.as_array(None, lib or 'np')
    arrs = [a if isinstance(a, SymArray) else from_nested(a) for a in arrs]
    if not arrs:
        pyraise(ValueError, 'need at least one array to stack')
    sh = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(sh) or not all(same_dim(x, y) or bool(s_eq(x, y)) for x, y in zip(a.shape, sh)):
            pyraise(ValueError, 'all input arrays must have the same shape')
    nd = len(sh) + 1
    axis = axis % nd
    gs = [a.getter() for a in arrs]
    kind = promote(*[a._kind for a in arrs])

    def f(idx):
        i = idx[axis]
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        if isinstance(i, SV):
            r = gs[-1](rest)
            for j in range(len(gs) - 2, -1, -1):
                r = s_ite(s_eq(i, j), gs[j](rest), r)
            return r
        return gs[i](rest) if 0 <= i < len(gs) else gs[-1](rest)
    return SymArray(Store(f, kind), sh[:axis] + (len(arrs),) + sh[axis:], lib=lib or arrs[0].lib)


def concatenate(arrs, axis=0, lib=None):
    if isinstance(arrs, SymArray):
        arrs = list(arrs)
    arrs = [a if isinstance(a, SymArray) else from_nested(a) for a in arrs]
    nd = arrs[0].ndim
    if nd == 0:
        pyraise(ValueError, 'zero-dimensional arrays cannot be concatenated')
    axis = axis % nd
    for a in arrs[1:]:
        if a.ndim != nd:
            pyraise(ValueError, 'all the input array dimensions must match')
        for k in range(nd):
            if k != axis and not same_dim(a.shape[k], arrs[0].shape[k]) and not bool(s_eq(a.shape[k], arrs[0].shape[k])):
                pyraise(ValueError, 'all the input array dimensions must match')
    kind = promote(*[a._kind for a in arrs])
    offs, o = [], 0
    for a in arrs:
        offs.append(o)
        o = s_add(o, a.shape[axis])
    gs = [a.getter() for a in arrs]

    def f(idx):
        i = idx[axis]

        def at(j):
            k = list(idx)
            k[axis] = nrm_idx(s_sub(i, offs[j]))
            return s_cast(gs[j](tuple(k)), kind)
        if len(gs) == 1:
            return at(0)
        r = None
        for j in range(len(gs) - 1, -1, -1):
            if r is None:
                # evaluate lazily: skip operands that are concretely out of range
                hi_c = s_lt(i, offs[j])
                if hi_c is True:
                    continue
                r = at(j)
                continue
            c = s_lt(i, offs[j + 1])
            if c is False:
                return r
            c2 = s_lt(i, offs[j])
            if c2 is True:
                continue
            r = s_ite(c, at(j), r)
        return r if r is not None else at(0)
    sh = list(arrs[0].shape)
    sh[axis] = o
    return SymArray(Store(f, kind), sh, lib=lib or arrs[0].lib)


def np_transpose_axes(a, p):
    pv = a._vmap

    def vmap(idx):
        out = [0] * len(p)
        for k, ax in enumerate(p):
            out[ax] = idx[k]
        out = tuple(out)
        return pv(out) if pv else out
    return SymArray(a._store, [a.shape[ax] for ax in p], vmap, a.lib)


def reshape(a, shape):
    shape = [nrm_dim(d) for d in shape] if not isinstance(shape, (int, SV)) else [shape]
    old = list(a.shape)
    # resolve -1
    if any(isinstance(d, int) and d == -1 for d in shape):
        k = [j for j, d in enumerate(shape) if isinstance(d, int) and d == -1][0]
        # cancel matching dims
        o2, rest = [d for d in old if not dim_is_one(d)], [d for j, d in enumerate(shape) if j != k and not dim_is_one(d)]
        for d in list(rest):
            for x in o2:
                if same_dim(x, d):
                    o2.remove_(x) if False else o2.pop([i for i, y in enumerate(o2) if y is x][0])
                    rest.pop([i for i, y in enumerate(rest) if y is d][0])
                    break
        n = 1
        for d in o2:
            n = n * d
        den = 1
        for d in rest:
            den = den * d
        if not isinstance(den, int) or den != 1:
            if not isinstance(n, SV) and not isinstance(den, SV):
                if den == 0 or n % den:
                    pyraise(ValueError, 'cannot reshape array')
                n = n // den
            else:
                n = s_fdiv(n, den)
        shape[k] = nrm_dim(n)
    new = shape
    # same up to 1-dims
    so = [(j, d) for j, d in enumerate(old) if not dim_is_one(d)]
    sn = [(j, d) for j, d in enumerate(new) if not dim_is_one(d)]
    pv = a._vmap
    if len(so) == len(sn) and all(same_dim(x[1], y[1]) for x, y in zip(so, sn)):
        def vmap(idx):
            out = [0] * len(old)
            for (jo, _), (jn, _) in zip(so, sn):
                out[jo] = idx[jn]
            out = tuple(out)
            return pv(out) if pv else out
        r = SymArray(a._store, new, vmap, a.lib)
        for at in ('_inrange', '_nonneg'):
            if hasattr(a, at):
                setattr(r, at, getattr(a, at))
        return r
    # match aligned groups: common prefix of equal dims, then group products
    sod, snd = [d for _, d in so], [d for _, d in sn]
    no = 1
    for d in sod:
        no = no * d
    nn = 1
    for d in snd:
        nn = nn * d
    if not same_dim(no, nn):
        if not bool(s_eq(no, nn)):
            pyraise(ValueError, f'cannot reshape array of size {no} into shape {tuple(new)}')
    pre = 0
    while pre < min(len(sod), len(snd)) and same_dim(sod[pre], snd[pre]):
        pre += 1
    ro, rn = sod[pre:], snd[pre:]
    if not ro and rn or ro and not rn:
        # numel equal and the remaining dims multiply to 1: they must all be one
        def vmap(idx):
            out = [0] * len(old)
            for q in range(pre):
                out[so[q][0]] = idx[sn[q][0]]
            out = tuple(out)
            return pv(out) if pv else out
        return SymArray(a._store, new, vmap, a.lib)

    def lin(ix, dims):
        r = 0
        for i, d in zip(ix, dims):
            r = s_add(s_mul(r, d), i)
        return r

    def vmap(idx):
        out = [0] * len(old)
        for q in range(pre):
            out[so[q][0]] = idx[sn[q][0]]
        x = lin([idx[sn[q][0]] for q in range(pre, len(sn))], rn)
        for q, v in zip(range(pre, len(so)), unlin(x, ro)):
            out[so[q][0]] = nrm_idx(v)
        out = tuple(out)
        return pv(out) if pv else out
    return SymArray(a._store, new, vmap, a.lib)


def divmod_dim(x, d, lead=None, raw=False):
    """(x // d, x % d) for 0 <= x (< lead * d): by polynomial division when the quotient is visible in the term,
    by a case split when there are only a few quotients, by div/mod otherwise"""
    if not isinstance(x, SV):
        if not isinstance(d, SV):
            return x // d, x % d
        if x == 0:
            return 0, 0
    xt = z3.simplify(zt(x), som=True)
    dt = z3.simplify(zt(d))
    terms = list(xt.children()) if z3.is_add(xt) else [xt]
    quo, rem = [], []
    for t in terms:
        if z3.is_int_value(dt):
            dv = dt.as_long()
            c = None
            if z3.is_int_value(t):
                v = t.as_long()
                if v % dv == 0:
                    c = z3.IntVal(v // dv)
            elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % dv == 0:
                c = z3.IntVal(t.arg(0).as_long() // dv)
                for o in t.children()[1:]:
                    c = c * o
            if c is not None:
                quo.append(c)
            else:
                rem.append(t)
            continue
        if t.eq(dt):
            quo.append(z3.IntVal(1))
            continue
        fs = list(t.children()) if z3.is_mul(t) else [t]
        hit = [j for j, f in enumerate(fs) if f.eq(dt)]
        if hit:
            rest = [f for j, f in enumerate(fs) if j != hit[0]]
            c = rest[0]
            for o in rest[1:]:
                c = c * o
            quo.append(c)
        else:
            rem.append(t)
    if quo:
        B = z3.Sum(rem) if rem else z3.IntVal(0)
        A = z3.Sum(quo)
        if E().must(z3.And(B >= 0, B < dt), full=False):
            return nrm_idx(mk(z3.simplify(A))), nrm_idx(mk(z3.simplify(B)))
    elif E().must(z3.And(xt >= 0, xt < dt), full=False):
        return 0, x
    if raw:
        return None
    if not isinstance(lead, SV) and lead is not None and lead <= 8 and isinstance(d, SV):
        q = 0
        for k in range(1, lead):
            q = s_ite(s_le(s_mul(k, d), x), k, q)
        q = nrm_idx(q)
        r = x
        for k in range(1, lead):
            r = s_ite(s_le(s_mul(k, d), x), s_sub(x, s_mul(k, d)), r)
        return q, nrm_idx(r)
    return core._num2(x, d, lambda p, q: p // q, core.floor_div_t), core._num2(x, d, lambda p, q: p % q, core.mod_t)


def unlin(x, dims):
    out = []
    for j in range(len(dims) - 1, 0, -1):
        lead = 1
        for q in dims[:j]:
            lead = lead * q if not isinstance(q, SV) and not isinstance(lead, SV) else SV(z3.IntVal(0))
        x, r = divmod_dim(x, dims[j], lead)
        out.append(nrm_idx(r))
    out.append(nrm_idx(x))
    return list(reversed(out))


def broadcast_to(a, shape):
    sh = broadcast_shapes(a.shape, tuple(shape))
    g, ash, n = a.getter(), a.shape, len(sh)
    return SymArray(Store(lambda idx: g(bidx(idx, ash, n)), a._kind), sh, lib=a.lib)


def tile(a, reps):
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    n = max(len(reps), a.ndim)
    reps = (1,) * (n - len(reps)) + reps
    ash = (1,) * (n - a.ndim) + tuple(a.shape)
    g, off = a.getter(), n - a.ndim
    sh = [s_mul(r, d) for r, d in zip(reps, ash)]

    def f(idx):
        out = []
        for k in range(off, n):
            if isinstance(reps[k], int) and reps[k] == 1:
                out.append(idx[k])
            elif dim_is_one(ash[k]):
                out.append(0)
            else:
                out.append(nrm_idx(s_mod(idx[k], ash[k])))
        return g(tuple(out))
    return SymArray(Store(f, a._kind), sh, lib=a.lib)


def repeat(a, n, axis=None):
    if not isinstance(a, SymArray):
        a = from_nested(a)
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    axis = axis % a.ndim
    if isinstance(n, SymArray) or isinstance(n, (list, tuple)):
        raise Unsupported('repeat with an array of counts')
    g = a.getter()
    sh = list(a.shape)
    one = dim_is_one(sh[axis])
    sh[axis] = s_mul(sh[axis], n)

    def f(idx):
        k = list(idx)
        k[axis] = 0 if one else nrm_idx(s_fdiv(idx[axis], n))
        return g(tuple(k))
    return SymArray(Store(f, a._kind), sh, lib=a.lib)


def arange(start, stop=None, step=1, kind=None, lib='np'):
    if stop is None:
        start, stop = 0, start
    if isinstance(step, SV):
        raise Unsupported('arange step')
    if any(isinstance(x, float) for x in (start, stop, step)):
        if all(not isinstance(x, SV) for x in (start, stop, step)):
            import numpy
            return from_nested(numpy.arange(start, stop, step), lib=lib)
        raise Unsupported('float arange')
    if step == 1:
        n = s_sub(stop, start)
    elif step > 0:
        n = s_fdiv(s_add(s_sub(stop, start), step - 1), step)
    else:
        n = s_fdiv(s_add(s_sub(start, stop), -step - 1), -step)
    if isinstance(n, SV):
        if not E().must(s_ge(n, 0), full=False):
            n = s_ite(s_lt(n, 0), 0, n)
    else:
        n = max(0, n)
    a = SymArray(Store(lambda idx: s_cast(s_add(start, s_mul(idx[0], step)), kind or 'int'), kind or 'int'), (n,), lib=lib)
    if step == 1 and not isinstance(start, SV) and start == 0 and (kind or 'int') == 'int':
        a._arange = True
        a._nonneg = True
        a._inrange = a.shape[0]
    return a


def eye(n, m=None, lib='np'):
    m = n if m is None else m
    return SymArray(Store(lambda idx: s_ite(s_eq(idx[0], idx[1]), 1.0, 0.0), 'real'), (n, m), lib=lib)


def clip(a, lo, hi):
    def f(x, *b):
        j = 0
        if lo is not None:
            x = s_max(x, b[j])
            j += 1
        if hi is not None:
            x = s_min(x, b[j])
        return x
    args = [a] + ([lo] if lo is not None else []) + ([hi] if hi is not None else [])
    return ew(f, *args)


def where(c, a, b):
    kinds = [x._kind if isinstance(x, SymArray) else kind_of_value(x) for x in (a, b)]
    k = promote(*kinds)
    return ew(lambda c_, x, y: s_ite(s_cast(c_, 'bool'), s_cast(x, k), s_cast(y, k)), c, a, b, kind=k)


# --------------------------------------------------------------------------- reductions
SUMR = z3.Function('SUMR', z3.ArraySort(Int, Real), Int, Real)
SUMI = z3.Function('SUMI', z3.ArraySort(Int, Int), Int, Int)
MAXR = z3.Function('MAXR', z3.ArraySort(Int, Real), Int, Real)
ARGR = z3.Function('ARGR', z3.ArraySort(Int, Real), Int, Int)


def with_bound(n, f):
    """evaluate f(k) for a quantifier-bound k; returns (k, term)"""
    eng = E()
    depth = len(eng.bound)
    k = z3.Int(f'k!!{depth}')
    # facts created while evaluating are closed over k with its range left free
    eng.bound.append(k)
    try:
        v = f(SV(k))
    finally:
        eng.bound.pop()
    return k, v


def sum_term(body, k, n):
    """term for sum_{k<n} body"""
    body = z3.simplify(body)
    eng = E()
    if z3.is_int_value(n) and n.as_long() <= 8:
        ts = [z3.substitute(body, (k, z3.IntVal(i))) for i in range(n.as_long())]
        if not ts:
            return z3.IntVal(0) if z3.is_int(body) else z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
    if not _occurs(body, k):
        nn = z3.If(n > 0, n, z3.IntVal(0))
        if eng.must(n >= 0, full=False):
            nn = n
        return (nn * body) if z3.is_int(body) else z3.ToReal(nn) * body
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE:
        # the terms differ from the rest at one index e of the range: value(e) + sum of the rest - rest(e)
        cs = body.arg(0).children() if z3.is_or(body.arg(0)) else [body.arg(0)]
        for j, q in enumerate(cs):
            if not z3.is_eq(q) or not z3.is_int(q.arg(0)):
                continue
            x, y = q.children()
            e = y if z3.eq(x, k) else x if z3.eq(y, k) else None
            if e is not None and not _occurs(e, k) and eng.must(z3.And(e >= 0, e < n), full=False):
                oth = cs[:j] + cs[j + 1:]
                rest = body.arg(2) if not oth else z3.If(z3.Or(*oth) if len(oth) > 1 else oth[0], body.arg(1), body.arg(2))
                return z3.substitute(body.arg(1), (k, e)) + sum_term(rest, k, n) - z3.substitute(rest, (k, e))
    F = SUMI if z3.is_int(body) else SUMR
    lam = z3.Lambda([k], body)
    n = z3.simplify(n)
    t = F(lam, n)
    key = ('sum', t.get_id())
    if key not in eng.memo:
        eng.memo[key] = t
        zero = z3.IntVal(0) if z3.is_int(body) else z3.RealVal(0)
        old_grp, eng.grp = eng.grp, frozenset([t.get_id()])
        eng.axiom(z3.Implies(n <= 0, t == zero))
        kk = z3.Int('ks!')
        bk = z3.substitute(body, (k, kk))
        if z3.is_int(body) and z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(body.arg(1)) \
                and z3.is_int_value(body.arg(2)):
            # counting sum: 0 <= t <= n
            a1, a2 = body.arg(1).as_long(), body.arg(2).as_long()
            if {a1, a2} == {0, 1}:
                eng.axiom(z3.And(t >= 0, z3.Or(t <= n, n < 0)))
        eng.grp = old_grp
        eng.sums.append((t, k, body, n))
    return t


def sum_over(n, f):
    """sum_{k<n} f(k), f: SV->scalar; n concrete -> expanded"""
    if not isinstance(n, SV):
        r = 0
        for i in range(n):
            r = s_add(r, f(i))
        return r
    k, v = with_bound(n, f)
    if isinstance(v, float) and v == 0:
        return 0.0
    return mk(sum_term(num_t(zt(v)), k, zt(n)))


def max_over(n, f, sign=1, arg=False):
    if not isinstance(n, SV):
        if n == 0:
            pyraise(ValueError, 'zero-size array to reduction operation')
        best, bi = f(0), 0
        for i in range(1, n):
            v = f(i)
            c = s_lt(best, v) if sign > 0 else s_lt(v, best)
            bi = s_ite(c, i, bi)
            best = s_ite(c, v, best)
        return bi if arg else best
    eng = E()
    k, v = with_bound(n, f)
    kind = kind_of_value(v)
    body = real_t(zt(v))
    if sign < 0:
        body = -body
    body = z3.simplify(body)
    nt = z3.simplify(zt(n))
    lam = z3.Lambda([k], body)
    m, a = MAXR(lam, nt), ARGR(lam, nt)
    key = ('max', m.get_id())
    if key not in eng.memo:
        eng.memo[key] = (m, a)
        at = lambda x: z3.substitute(body, (k, x))
        j = z3.Int('jm!')
        ok = z3.And(a >= 0, a < nt, at(a) == m)
        eng.axiom(z3.Implies(nt >= 1, ok))
        eng.axiom(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nt), at(j) <= m)))
        eng.axiom(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a), at(j) < m)))
    if arg:
        return mk(a)
    r = -m if sign < 0 else m
    if kind == 'int':
        return mk(z3.ToInt(r))
    if kind == 'bool':
        return mk(r != 0)
    return mk(r)


def exists_over(n, f):
    if not isinstance(n, SV):
        r = False
        for i in range(n):
            r = s_or(r, s_cast(f(i), 'bool'))
        return r
    k, v = with_bound(n, f)
    if isinstance(v, bool):
        return s_gt(n, 0) if v else False
    return mk(z3.Exists([k], z3.And(k >= 0, k < zt(n), bool_t(zt(v)))))


def forall_over(n, f):
    if not isinstance(n, SV):
        r = True
        for i in range(n):
            r = s_and(r, s_cast(f(i), 'bool'))
        return r
    k, v = with_bound(n, f)
    if isinstance(v, bool):
        return True if v else s_le(n, 0)
    return mk(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zt(n)), bool_t(zt(v)))))


def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(x % a.ndim for x in axis)
    if a.ndim == 0:
        return ()
    if not -a.ndim <= axis < a.ndim:
        pyraise(ValueError, 'axis out of bounds')
    return (axis % a.ndim,)


def _reduce(a, axis, keep, over, kind=None):
    axes = _axes(a, axis)
    g = a.getter()
    kept = [k for k in range(a.ndim) if k not in axes]

    def f(idx):
        def rec(rem, cur):
            if not rem:
                return g(tuple(cur[k] for k in range(a.ndim)))
            ax = rem[0]
            return over(a.shape[ax], lambda i: rec(rem[1:], {**cur, ax: i}))
        if keep:
            cur = {k: idx[k] for k in kept}
        else:
            cur = {k: idx[j] for j, k in enumerate(kept)}
        return rec(list(axes), cur)
    if keep:
        sh = [1 if k in axes else a.shape[k] for k in range(a.ndim)]
    else:
        sh = [a.shape[k] for k in kept]
    if not sh:
        return f(())
    return SymArray(Store(f, kind or a._kind), sh, lib=a.lib)


def as_array(a):
    return a if isinstance(a, SymArray) else from_nested(a)


def reduce_sum(a, axis=None, keep=False):
    a = as_array(a)
    return _reduce(a, axis, keep, sum_over, 'int' if a._kind == 'bool' else a._kind)


def reduce_mean(a, axis=None, keep=False):
    a = as_array(a)
    n = 1
    for k in _axes(a, axis):
        n = n * a.shape[k]
    s = reduce_sum(a, axis, keep)
    if isinstance(s, SymArray):
        return s / n
    return a_div(s, n)


def reduce_prod(a, axis=None):
    a = as_array(a)

    def over(n, f):
        if isinstance(n, SV):
            raise Unsupported('product over a symbolic dimension')
        r = 1
        for i in range(n):
            r = s_mul(r, f(i))
        return r
    return _reduce(a, axis, False, over)


def reduce_max(a, axis=None, keep=False, sign=1):
    a = as_array(a)
    for k in _axes(a, axis):
        d = a.shape[k]
        if isinstance(d, SV):
            if not E().must(s_ge(d, 1), full=False) and bool(s_lt(d, 1)):
                pyraise(ValueError, 'zero-size array to reduction operation')
        elif d == 0:
            pyraise(ValueError, 'zero-size array to reduction operation')
    return _reduce(a, axis, keep, lambda n, f: max_over(n, f, sign))


def reduce_argmax(a, axis=None, keep=False, sign=1):
    a = as_array(a)
    if axis is None and a.ndim != 1:
        a = reshape(a, (-1,))
    d = a.shape[_axes(a, axis)[0]]
    if isinstance(d, SV):
        if not E().must(s_ge(d, 1), full=False) and bool(s_lt(d, 1)):
            pyraise(ValueError, 'attempt to get argmax of an empty sequence')
    r = _reduce(a, axis, keep, lambda n, f: max_over(n, f, sign, arg=True), 'int')
    if isinstance(r, SymArray):
        r._nonneg = True
        r._inrange = d
    return r


def reduce_any(a, axis=None, keep=False):
    a = as_array(a)
    return _reduce(a, axis, keep, exists_over, 'bool') if a.ndim else s_cast(a.at(), 'bool')


def reduce_all(a, axis=None, keep=False):
    a = as_array(a)
    return _reduce(a, axis, keep, forall_over, 'bool') if a.ndim else s_cast(a.at(), 'bool')


def reduce_var(a, axis=None, ddof=0):
    a = as_array(a)
    n = 1
    for k in _axes(a, axis):
        n = n * a.shape[k]
    m = reduce_mean(a, axis, True) if axis is not None else reduce_mean(a)
    d = a - m
    s = reduce_sum(d * d, axis)
    if isinstance(s, SymArray):
        return s / (n - ddof)
    return a_div(s, s_sub(n, ddof))


def reduce_std(a, axis=None, ddof=0):
    v = reduce_var(a, axis, ddof)
    return ew(lambda x: s_func('sqrt', x), v, kind='real')


def matmul(a, b):
    if is_num(a) or is_num(b) or isinstance(a, SV) or isinstance(b, SV):
        return a * b
    a, b = as_array(a), as_array(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    kind = promote(a._kind, b._kind)
    ga, gb = a.getter(), b.getter()

    def chk(x, y):
        if not same_dim(x, y) and not bool(s_eq(x, y)):
            pyraise(ValueError, 'matmul: mismatch in core dimension')
    if a.ndim == 1 and b.ndim == 1:
        chk(a.shape[0], b.shape[0])
        return sum_over(a.shape[0], lambda k: s_mul(ga((k,)), gb((k,))))
    if a.ndim >= 2 and b.ndim == 1:
        chk(a.shape[-1], b.shape[0])
        return SymArray(Store(lambda i: sum_over(b.shape[0], lambda k: s_mul(ga(tuple(i) + (k,)), gb((k,)))), kind),
                        a.shape[:-1], lib=a.lib)
    if a.ndim == 1 and b.ndim == 2:
        chk(a.shape[0], b.shape[0])
        return SymArray(Store(lambda i: sum_over(a.shape[0], lambda k: s_mul(ga((k,)), gb((k, i[0])))), kind),
                        (b.shape[1],), lib=a.lib)
    if a.ndim == 2 and b.ndim == 2:
        chk(a.shape[1], b.shape[0])
        return SymArray(Store(lambda i: sum_over(a.shape[1], lambda k: s_mul(ga((i[0], k)), gb((k, i[1])))), kind),
                        (a.shape[0], b.shape[1]), lib=a.lib)
    raise Unsupported(f'matmul of ndim {a.ndim}, {b.ndim}')


# --------------------------------------------------------------------------- symbolic lists and ranges
class SymRange:
    """range(a, b, step) with symbolic bounds"""
    _pydv_iter = True

    def __init__(self, start, stop, step=1):
        if isinstance(step, SV):
            raise Unsupported('symbolic range step')
        self.start, self.stop, self.step = start, stop, step
        if step > 0:
            n = s_fdiv(s_add(s_sub(stop, start), step - 1), step) if step != 1 else s_sub(stop, start)
        else:
            n = s_fdiv(s_add(s_sub(start, stop), -step - 1), -step) if step != -1 else s_sub(start, stop)
        if isinstance(n, SV):
            n = nrm_idx(n)
            if isinstance(n, SV) and not E().must(s_ge(n, 0), full=False):
                n = nrm_idx(s_ite(s_lt(n, 0), 0, n))
        else:
            n = max(0, n)
        self.n = n

    def _len(self):
        return self.n

    def get(self, k):
        return s_add(self.start, s_mul(self.step, k))

    def __getitem__(self, k):
        return self.get(k)

    def as_array(self, lib='np'):
        return SymArray(Store(lambda idx: self.get(idx[0]), 'int'), (self.n,), lib=lib)

    def __len__(self):
        return self.n.__index__() if isinstance(self.n, SV) else self.n

    def __iter__(self):
        if isinstance(self.n, SV):
            raise Unsupported('native iteration over a symbolic range')
        for k in range(self.n):
            yield self.get(k)

    def __contains__(self, x):
        return bool(s_and(s_le(self.start, x), s_lt(x, self.stop)))


class SymList:
    """python list of symbolic length; elements given by a function of the index"""
    _pydv_iter = True

    def __init__(self, n, get, elem_shape=(), kind='real'):
        self.n = nrm_dim(n)
        self._get = get
        self.elem_shape = elem_shape
        self.kind = kind
        self.version = 0

    def _len(self):
        return self.n

    def __len__(self):
        return self.n.__index__() if isinstance(self.n, SV) else self.n

    def get(self, k):
        return self._get(nrm_idx(k))

    def __iter__(self):
        if isinstance(self.n, SV):
            raise Unsupported('native iteration over a symbolic list')
        for k in range(self.n):
            yield self.get(k)

    def __bool__(self):
        return bool(s_gt(self.n, 0))

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, n, sp = slice_bounds(i, self.n)
            g = self._get
            return SymList(n, lambda k: g(nrm_idx(s_add(st, s_mul(k, sp)))), self.elem_shape, self.kind)
        i = nrm_idx(i)
        if not bool(s_and(s_le(s_sub(0, self.n), i), s_lt(i, self.n))):
            pyraise(IndexError, 'list index out of range')
        if bool(s_lt(i, 0)):
            i = nrm_idx(s_add(i, self.n))
        return self._get(i)

    def __setitem__(self, i, v):
        i = nrm_idx(i)
        if not bool(s_and(s_le(s_sub(0, self.n), i), s_lt(i, self.n))):
            pyraise(IndexError, 'list index out of range')
        if bool(s_lt(i, 0)):
            i = nrm_idx(s_add(i, self.n))
        g = self._get
        self._get = lambda k: s_ite(s_eq(k, i), v, g(k))
        self.version += 1

    def append(self, v):
        g, n = self._get, self.n

        def get(k):
            c = s_eq(k, n)
            if isinstance(c, bool):
                return v if c else g(k)
            return ite_val(c, v, lambda: g(k))
        self._get = get
        self.n = nrm_dim(s_add(n, 1))
        self.version += 1

    def __add__(self, o):
        g, n = self._get, self.n
        if isinstance(o, SymList):
            h, m = o._get, o.n
        else:
            arr = from_nested(o)
            h, m = (lambda k: arr[k]), len(o)

        def get(k):
            c = s_lt(k, n)
            if isinstance(c, bool):
                return g(k) if c else h(nrm_idx(s_sub(k, n)))
            return ite_val(c, g(k), lambda: h(nrm_idx(s_sub(k, n))))
        return SymList(s_add(n, m), get, self.elem_shape, self.kind)

    def copy(self):
        return SymList(self.n, self._get, self.elem_shape, self.kind)

    def clear(self):
        self.n = 0
        self.version += 1

    def as_array(self, kind=None, lib='np'):
        g = self._get
        es = self.elem_shape

        def f(idx):
            v = g(idx[0])
            if es:
                return v.at(*idx[1:])
            if isinstance(v, SymArray):
                return v.item()
            return v
        return SymArray(Store(f, kind or self.kind), (self.n,) + tuple(es), lib=lib)


def ite_val(c, a, b):
    """if-then-else over scalars, arrays, tuples"""
    if isinstance(c, bool):
        return a if c else (b() if callable(b) else b)
    b = b() if callable(b) else b
    if isinstance(a, SymArray):
        return where(c, a, b)
    if isinstance(a, tuple):
        return tuple(ite_val(c, x, y) for x, y in zip(a, b))
    return s_ite(c, a, b)
