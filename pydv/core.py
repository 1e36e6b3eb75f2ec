"""PyDV core: path exploration, symbolic scalars, obligations.

The verifier executes the *real* repository code (mechanically instrumented, see
loader.py) on symbolic values.  Branches on symbolic booleans fork the path,
loops with a contract are cut at their invariant, everything else is executed as
written.  Every proof obligation is a z3 query  facts |= goal  with no bound on
sizes or values.
"""
import math
import time
from fractions import Fraction

import z3

z3.set_param('memory_max_size', 6000)

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class PathEnd(BaseException):
    """The current path is finished (infeasible, or cut at a loop invariant)."""


class Unsupported(BaseException):
    """The construct is outside the reach of the verifier (never a violation)."""


class Budget(Unsupported):
    pass


class SemanticError(Exception):
    pass


def pyraise(exc, msg=''):
    """Raise an exception that the real library would raise."""
    e = exc(msg)
    e._pydv_semantic = True
    raise e


# --------------------------------------------------------------------------- engine
class Engine:
    cur = None

    def __init__(self, name, config):
        self.name = name
        self.cfg = config
        self.worklist = [[]]
        self.obligations = []          # finished obligation records
        self.paths = 0
        self.cut_paths = 0
        self.exc_paths = 0
        self.solver_time = 0.0
        self.n_queries = 0
        self.functions = set()
        self.assumptions = set()
        self.loops_used = set()
        self.loops_declared = False
        self.unsupported = []
        self.t_end = None
        self.reset([])

    # ---- per path state
    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.facts = []        # quantifier free
        self.qfacts = []       # quantified
        self.known = {}
        self.counter = 0
        self.bound = []
        self.inputs = {}
        self.light = z3.Solver()
        self.light.set('timeout', self.cfg.get('feas_ms', 400))
        self.memo = {}
        self.sums = []         # (term, body fn) of reductions created
        self.depth_forks = 0
        self.notes = []
        self.ghost = {}
        self.ax_ids = set()
        self.pending = {}      # definitions not yet told to the feasibility solver
        self.symcache = {}
        self.axioms = []       # definitional facts added inside a sub-scope (survive it)
        self.scope = 0
        self.on_backward = lambda v: None
        self.grp = None        # names of the symbols being defined (selection functions of a mask)

    def relevant(self, goal, extra=()):
        """the facts of the path, without the definitions of selection functions that nothing else mentions"""
        grp = self.memo.get('grp')
        allf = self.facts + self.qfacts
        if not grp:
            return allf
        keep = [t for t in allf if t.get_id() not in grp]
        rest = [t for t in allf if t.get_id() in grp]
        seen, names, stack = set(), set(), [goal] + list(extra) + keep

        def run():
            while stack:
                x = stack.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_quantifier(x):
                    stack.append(x.body())
                    continue
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    if n.startswith(('sel!', 'rank!', 'cnt!')):
                        names.add(n)
                    elif n in ('SUMR', 'SUMI'):
                        names.add(i)
                stack.extend(x.children())
        run()
        while True:
            new = [t for t in rest if grp[t.get_id()][0] & names]
            if not new:
                return keep
            rest = [t for t in rest if not (grp[t.get_id()][0] & names)]
            keep += new
            stack.extend(new)
            run()

    def fresh(self, base, sort):
        self.counter += 1
        return z3.Const(f'{base}!{self.counter}', sort)

    def fresh_fn(self, base, *sorts):
        self.counter += 1
        return z3.Function(f'{base}!{self.counter}', *sorts)

    def tick(self):
        if self.t_end is not None and time.time() > self.t_end:
            raise Budget('time budget of the harness exhausted')

    # ---- facts
    def _bound_in(self, t):
        if not self.bound:
            return []
        ids = {b.get_id(): b for b in self.bound}
        found, seen, stack = {}, set(), [t]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids:
                found[i] = ids[i]
            if z3.is_quantifier(x):
                stack.append(x.body())
            else:
                stack.extend(x.children())
        return [b for b in self.bound if b.get_id() in found]

    def assume(self, t):
        """Add a fact; close it over quantifier-bound variables in scope."""
        if isinstance(t, SV):
            t = t.t
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
            return
        bv = self._bound_in(t)
        if bv:
            t = z3.ForAll(bv, t)
        if z3.is_and(t):
            for a in t.children():
                self.assume(a)
            return
        if self.known.get(t.get_id()) is True:
            return
        if self.grp is not None:
            self.memo.setdefault('grp', {})[t.get_id()] = (self.grp, t)
        if _has_quant(t):
            self.qfacts.append(t)
        else:
            self.facts.append(t)
            self.light_add(t)
            if z3.is_not(t):
                self.known[t.arg(0).get_id()] = False
            else:
                self.known[t.get_id()] = True
            self.memo.setdefault('keep', []).append(t)

    def axiom(self, t):
        """A definitional fact (conservative): kept when a sub-scope is left."""
        if isinstance(t, SV):
            t = t.t
        if isinstance(t, bool):
            return
        if self.scope:
            bv = self._bound_in(t)
            w = z3.ForAll(bv, t) if bv else t
            if w.get_id() in self.ax_ids:
                return
            self.ax_ids.add(w.get_id())
            self.axioms.append(w)
            if self.grp is not None:
                self.memo.setdefault('grp', {})[w.get_id()] = (self.grp, w)
        self.assume(t)

    def sub_explore(self, thunk):
        """Run a pure thunk in a scope of its own, exploring all its branches; facts it
        assumes are dropped afterwards (definitional axioms are kept)."""
        saved = (self.facts, self.qfacts, self.known, self.prefix, self.pos, self.trace, self.worklist,
                 self.depth_forks)
        work = [[]]
        self.scope += 1
        n_ax = len(self.axioms)
        try:
            while work:
                prefix = work.pop()
                self.facts, self.qfacts, self.known = list(saved[0]), list(saved[1]), dict(saved[2])
                for t in self.axioms[n_ax:]:
                    (self.qfacts if _has_quant(t) else self.facts).append(t)
                self.prefix, self.pos, self.trace, self.worklist = prefix, 0, [], work
                self.light.push()
                pend = dict(self.pending)
                for t in self.axioms[n_ax:]:
                    if not _has_quant(t):
                        self.light_add(t)
                try:
                    thunk()
                except PathEnd:
                    pass
                finally:
                    self.light.pop()
                    self.pending = pend
        finally:
            self.scope -= 1
            (self.facts, self.qfacts, self.known, self.prefix, self.pos, self.trace, self.worklist,
             self.depth_forks) = saved
            for t in self.axioms[n_ax:]:
                if _has_quant(t):
                    self.qfacts.append(t)
                else:
                    self.facts.append(t)
                    self.light_add(t)
            if not self.scope:
                self.memo.setdefault('keep', []).extend(self.axioms)
                self.axioms, self.ax_ids = [], set()

    # ---- branching
    def fork(self, cond):
        cond = z3.simplify(cond) if not isinstance(cond, bool) else cond
        if isinstance(cond, bool):
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self._bound_in(cond):
            raise Unsupported('branch on a quantified variable')
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(c)
            if c in (True, False):
                self.assume(cond if c else z3.Not(cond))
            else:                       # forced decisions: not re-asserted
                c = (c == 'T')
            return c
        self.tick()
        k = self.known.get(cond.get_id())
        if k is None and z3.is_not(cond):
            k2 = self.known.get(cond.arg(0).get_id())
            k = None if k2 is None else (not k2)
        if k is not None:
            self.pos += 1
            self.trace.append('T' if k else 'F')
            return k
        t_ok = self._feasible(cond)
        f_ok = self._feasible(z3.Not(cond)) if t_ok else True
        if t_ok and f_ok:
            self.worklist.append(self.trace + [False])
            self.depth_forks += 1
            if self.depth_forks > self.cfg.get('max_forks', 400):
                raise Budget('too many forks on a path')
            if len(self.worklist) + self.paths > self.cfg.get('max_paths', 3000):
                raise Budget('too many paths')
            self.trace.append(True)
            self.pos += 1
            self.assume(cond)
            return True
        self.pos += 1
        if t_ok:
            self.trace.append('T')
            return True
        self.trace.append('F')
        return False

    def enumerate(self, t, limit=8):
        """fork over the possible values of an integer term that the path bounds to a few values"""
        base = None
        for v in range(-2, limit + 1):
            if self.must(t >= v, full=False):
                base = v
        if base is None or not self.must(t <= base + limit, full=False):
            raise Unsupported('symbolic value used where python needs a concrete int')
        for v in range(base, base + limit + 1):
            if self.fork(t == v):
                return v
        raise PathEnd()

    def choose(self, n):
        """Nondeterministic choice 0..n-1 (all are explored)."""
        for i in range(n - 1):
            b = self.fresh('choice', Bool)
            if self.fork(b):
                return i
        return n - 1

    def light_add(self, t):
        """tell the feasibility solver; definitions of selection functions and sums only once they are used"""
        g = self.memo.get('grp', {}).get(t.get_id())
        if g is not None and not (g[0] & self.used):
            for n in g[0]:
                self.pending[n] = self.pending.get(n, ()) + (t,)
            return
        self.light_use(t)
        self.light.add(t)

    def light_use(self, t):
        if not self.pending:
            return
        for n in self.syms(t):
            ts = self.pending.pop(n, None)
            if ts:
                for m in list(self.pending):
                    self.pending[m] = tuple(x for x in self.pending[m] if not any(x.eq(y) for y in ts))
                for x in ts:
                    self.light_use(x)
                    self.light.add(x)

    def syms(self, t):
        r = self.symcache.get(t.get_id())
        if r is not None:
            return r[1]
        names, seen, stack = set(), set(), [t]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith(('sel!', 'rank!', 'cnt!')):
                    names.add(n)
                elif n in ('SUMR', 'SUMI'):
                    names.add(i)
            stack.extend(x.children())
        self.symcache[t.get_id()] = (t, names)
        return names

    used = frozenset()

    def _feasible(self, cond):
        self.light_use(cond)
        self.n_queries += 1
        t = time.time()
        r = self.light.check(cond)
        self.solver_time += time.time() - t
        return r != z3.unsat

    def unique(self, n):
        """the only value the integer n can have on this path (None: several, or not known)"""
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.facts)
        if s.check() != z3.sat:
            return None
        v = s.model().eval(n.t, model_completion=True)
        if not z3.is_int_value(v):
            return None
        return v.as_long() if self.must(n.t == v) else None

    def must(self, cond, full=True, ms=3000):
        """Is cond entailed by the path?  (False also when unknown)"""
        if isinstance(cond, SV):
            cond = cond.t
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = ('must', cond.get_id(), len(self.facts), len(self.qfacts))
        if key in self.memo:
            return self.memo[key][0]
        bv = self._bound_in(cond)
        r = not self._feasible(z3.Not(cond))
        if not r and full and self.qfacts:
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(self.relevant(cond))
            s.add(z3.Not(cond))
            t = time.time()
            r = s.check() == z3.unsat
            self.solver_time += time.time() - t
        self.memo[key] = (r, cond)
        return r

    # ---- exploration
    def explore(self, body, on_exception):
        while self.worklist:
            prefix = self.worklist.pop()
            self.reset(prefix)
            Engine.cur = self
            self.tick()
            try:
                body()
                self.paths += 1
            except PathEnd:
                self.cut_paths += 1
            except Unsupported:
                raise
            except Exception as e:      # semantic exception escaping the harness
                self.exc_paths += 1
                on_exception(e)


def E():
    return Engine.cur


def _has_quant(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            if not x.is_lambda():
                return True
            stack.append(x.body())
            continue
        stack.extend(x.children())
    return False


# --------------------------------------------------------------------------- scalars
NUM = (int, float, Fraction)


def is_num(x):
    return isinstance(x, (int, float, bool, Fraction)) or type(x).__module__ == 'numpy' and hasattr(x, 'item') \
        and getattr(x, 'ndim', 1) == 0


def is_sym(x):
    return isinstance(x, SV)


def pynum(x):
    if type(x).__module__ == 'numpy':
        return x.item()
    return x


def zt(x):
    """python number / SV -> z3 term"""
    if isinstance(x, SV):
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    x = pynum(x)
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported(f'non-finite constant {x} mixed with symbolic values')
        return z3.RealVal(str(Fraction(repr(x))))
    raise Unsupported(f'cannot lift {type(x).__name__} to a term')


def num_t(t):
    """make a term numeric"""
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def real_t(t):
    t = num_t(t)
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def bool_t(t):
    if z3.is_bool(t):
        return t
    return t != 0


def pair(a, b):
    a, b = num_t(a), num_t(b)
    if z3.is_real(a) or z3.is_real(b):
        return real_t(a), real_t(b)
    return a, b


def mk(t):
    """z3 term -> SV or python constant"""
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    return SV(t)


def _isinf(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def floor_div_t(a, b):
    # python floor division on ints (z3 div is Euclidean)
    if z3.is_int(a) and z3.is_int(b):
        if z3.is_int_value(b) and b.as_long() > 0:
            return a / b
        return z3.If(b > 0, a / b, z3.If((a % b) == 0, a / b, a / b - 1))
    a, b = real_t(a), real_t(b)
    return z3.ToReal(z3.ToInt(a / b))


def mod_t(a, b):
    if z3.is_int(a) and z3.is_int(b):
        if z3.is_int_value(b) and b.as_long() > 0:
            return a % b
        return z3.If(b > 0, a % b, a - b * floor_div_t(a, b))
    a, b = real_t(a), real_t(b)
    return a - b * z3.ToReal(z3.ToInt(a / b))


def trunc_t(a):
    a = num_t(a)
    if z3.is_int(a):
        return a
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


class SV:
    """symbolic scalar"""
    __slots__ = ('t', '_d')
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, t):
        self.t = t

    # -- conversions
    def __bool__(self):
        return E().fork(bool_t(self.t))

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_bool(t):
            return 1 if bool(self) else 0
        if not z3.is_int(t):
            raise Unsupported('symbolic real used where python needs a concrete int')
        return E().enumerate(t)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported('symbolic value converted to a concrete float')

    def __hash__(self):
        return hash(self.t.get_id())

    def __repr__(self):
        s = str(self.t)
        return f'SV({s[:80]})'

    def __format__(self, spec):
        return repr(self)

    @property
    def kind(self):
        return 'bool' if z3.is_bool(self.t) else 'int' if z3.is_int(self.t) else 'real'

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        from .arrays import SymArray
        if isinstance(o, SymArray) or isinstance(o, (list, tuple)):
            return NotImplemented
        if not (isinstance(o, SV) or is_num(o)):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return f(a, b)

    def __add__(self, o): return self._bin(o, s_add)
    def __radd__(self, o): return self._bin(o, s_add, True)
    def __sub__(self, o): return self._bin(o, s_sub)
    def __rsub__(self, o): return self._bin(o, s_sub, True)
    def __mul__(self, o): return self._bin(o, s_mul)
    def __rmul__(self, o): return self._bin(o, s_mul, True)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, s_div, True)
    def __floordiv__(self, o): return self._bin(o, s_fdiv)
    def __rfloordiv__(self, o): return self._bin(o, s_fdiv, True)
    def __mod__(self, o): return self._bin(o, s_mod)
    def __rmod__(self, o): return self._bin(o, s_mod, True)
    def __pow__(self, o): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._bin(o, s_pow, True)
    def __neg__(self): return mk(-num_t(self.t))
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __lt__(self, o): return self._bin(o, s_lt)
    def __le__(self, o): return self._bin(o, s_le)
    def __gt__(self, o): return self._bin(o, s_gt)
    def __ge__(self, o): return self._bin(o, s_ge)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        r = self._bin(o, s_eq)
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return True
        return self._bin(o, s_ne)

    def __and__(self, o): return self._bin(o, s_and)
    def __rand__(self, o): return self._bin(o, s_and)
    def __or__(self, o): return self._bin(o, s_or)
    def __ror__(self, o): return self._bin(o, s_or)
    def __xor__(self, o): return self._bin(o, lambda a, b: mk(z3.Xor(bool_t(zt(a)), bool_t(zt(b)))))

    def __invert__(self):
        if z3.is_bool(self.t):
            return mk(z3.Not(self.t))
        raise Unsupported('bitwise not on a number')

    def __round__(self, n=None):
        raise Unsupported('round')

    def __floor__(self):
        return mk(z3.ToInt(real_t(self.t)))

    def __ceil__(self):
        return mk(-z3.ToInt(-real_t(self.t)))

    # -- numpy / torch scalar protocol
    def item(self): return self
    def copy(self): return self
    def clone(self): return self
    def detach(self): return self
    def cpu(self): return self
    def numpy(self): return self
    def to(self, *a, **k): return self
    def squeeze(self, *a): return self
    def double(self): return mk(real_t(self.t))
    def float(self): return mk(real_t(self.t))
    def long(self): return mk(trunc_t(self.t))
    def int(self): return mk(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) if z3.is_bool(self.t) else mk(trunc_t(self.t))
    def tolist(self): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def any(self, *a, **k): return mk(bool_t(self.t))
    def all(self, *a, **k): return mk(bool_t(self.t))
    def requires_grad_(self, *a): return self
    def backward(self, *a, **k): E().on_backward(self)

    def _arr(self):
        from .arrays import from_nested
        return from_nested(self)

    def __getattr__(self, n):
        if n in ('astype', 'ravel', 'reshape', 'flatten', 'unsqueeze', 'dtype', 'view', 'dot', 'clip', 'repeat',
                 'expand', 'T', 'dim', 'numel', 'type', 'exp', 'log', 'sqrt', 'fill_', 'abs', 'pow', 'clamp'):
            return getattr(self._arr(), n)
        raise AttributeError(n)

    def __getitem__(self, i):
        return self._arr()[i]

    def __len__(self):
        pyraise(TypeError, 'len() of unsized object')

    def __iter__(self):
        pyraise(TypeError, 'iteration over a 0-d array')


def _num2(a, b, pyf, zf):
    if not isinstance(a, SV) and not isinstance(b, SV):
        return pyf(pynum(a), pynum(b))
    x, y = pair(zt(a), zt(b))
    return mk(zf(x, y))


def _c0(x):
    return not isinstance(x, SV) and pynum(x) == 0


def _c1(x):
    return not isinstance(x, SV) and pynum(x) == 1


def _as_num(x):
    if isinstance(x, SV):
        return mk(num_t(x.t))
    return x


def _lit_ite(v):
    """(condition, then, else) when v is a 0/1 flag or a case split between two numerals"""
    if not isinstance(v, SV):
        return None
    t = v.t
    if z3.is_bool(t):
        return (t, 1, 0)
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        t = t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        x, y = t.arg(1), t.arg(2)
        if (z3.is_int_value(x) or z3.is_rational_value(x)) and (z3.is_int_value(y) or z3.is_rational_value(y)):
            return (t.arg(0), x, y)
    return None


def _fold_ite(a, b, f):
    """numeral op flag, folded into the flag's case split"""
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, SV) or isinstance(x, bool) or not is_num(x) or _isinf(x):
            continue
        l = _lit_ite(y)
        if l is None:
            continue
        cx = zt(x)
        real = z3.is_real(cx) or z3.is_real(y.t)
        cv = real_t if real else (lambda t: t)
        p, q = cv(zt(l[1])), cv(zt(l[2]))
        cx = cv(cx)
        r = (lambda u: z3.simplify(f(u, cx))) if sw else (lambda u: z3.simplify(f(cx, u)))
        return mk(z3.If(l[0], r(p), r(q)))
    return None


def s_add(a, b):
    r = _fold_ite(a, b, lambda x, y: x + y)
    if r is not None: return r
    if isinstance(b, SV) and _c0(a) and not isinstance(a, float): return _as_num(b)
    if isinstance(a, SV) and _c0(b) and not isinstance(b, float): return _as_num(a)
    if _isinf(a) or _isinf(b):
        return _inf_arith(a, b, '+')
    return _num2(a, b, lambda x, y: x + y, lambda x, y: x + y)


def s_sub(a, b):
    r = _fold_ite(a, b, lambda x, y: x - y)
    if r is not None: return r
    if isinstance(a, SV) and _c0(b) and not isinstance(b, float): return _as_num(a)
    if _isinf(a) or _isinf(b):
        return _inf_arith(a, b, '-')
    return _num2(a, b, lambda x, y: x - y, lambda x, y: x - y)


def s_mul(a, b):
    if isinstance(b, SV) and _c1(a) and not isinstance(a, float): return _as_num(b)
    if isinstance(a, SV) and _c1(b) and not isinstance(b, float): return _as_num(a)
    if isinstance(a, SV) and isinstance(b, SV):
        # number * 0/1 flag is a case split, not a nonlinear product
        if z3.is_bool(a.t) or z3.is_bool(b.t):
            f, v = (a.t, b.t) if z3.is_bool(a.t) else (b.t, a.t)
            v = num_t(v)
            return mk(z3.If(f, v, z3.RealVal(0) if z3.is_real(v) else z3.IntVal(0)))
        for x, y in ((a, b), (b, a)):
            l = _lit_ite(x)
            if l is not None:
                real = z3.is_real(x.t) or z3.is_real(y.t)
                v, p, q = (real_t(y.t), real_t(zt(l[1])), real_t(zt(l[2]))) if real else (y.t, zt(l[1]), zt(l[2]))
                return mk(z3.If(l[0], z3.simplify(p * v), z3.simplify(q * v)))
    if _isinf(a) or _isinf(b):
        return _inf_arith(a, b, '*')
    return _num2(a, b, lambda x, y: x * y, lambda x, y: x * y)


def _inf_arith(a, b, op):
    s, o = (a, b) if _isinf(a) else (b, a)
    if not isinstance(o, SV):
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
    if math.isnan(s):
        return s
    if op == '+':
        return s
    if op == '-':
        return s if _isinf(a) else -s
    if o > 0:
        return s
    if o < 0:
        return -s
    return float('nan')


def s_div(a, b):
    if not isinstance(a, SV) and not isinstance(b, SV):
        a, b = pynum(a), pynum(b)
        if b == 0:
            E().notes.append('div0')
            pyraise(ZeroDivisionError, 'division by zero')
        return a / b
    if _isinf(b):
        return 0.0
    if _isinf(a):
        raise Unsupported('inf / symbolic')
    x, y = real_t(zt(a)), real_t(zt(b))
    return mk(x / y)


def _visible(a, b):
    """quotient and remainder when a is written as q b + r with 0 <= r < b provable; else None"""
    if isinstance(b, SV) and isinstance(a, SV) and z3.is_int(a.t) and z3.is_int(b.t) and not E().bound:
        from .arrays import divmod_dim
        r = divmod_dim(a, b, raw=True)
        return r
    return None


def s_fdiv(a, b):
    v = _visible(a, b)
    if v is not None:
        return v[0]
    return _num2(a, b, lambda x, y: x // y, floor_div_t)


def s_mod(a, b):
    v = _visible(a, b)
    if v is not None:
        return v[1]
    return _num2(a, b, lambda x, y: x % y, mod_t)


def s_lt(a, b):
    if _isinf(a) or _isinf(b): return _infcmp(a, b, '<')
    return _num2(a, b, lambda x, y: x < y, lambda x, y: x < y)


def s_le(a, b):
    if _isinf(a) or _isinf(b): return _infcmp(a, b, '<=')
    return _num2(a, b, lambda x, y: x <= y, lambda x, y: x <= y)


def s_gt(a, b): return s_lt(b, a)
def s_ge(a, b): return s_le(b, a)


def _infcmp(a, b, op):
    fa = a if _isinf(a) else 0.0
    fb = b if _isinf(b) else 0.0
    return fa < fb if op == '<' else fa <= fb


def s_eq(a, b):
    if isinstance(a, SV) or isinstance(b, SV):
        if _isinf(a) or _isinf(b):
            return False
        x, y = zt(a), zt(b)
        if z3.is_bool(x) and z3.is_bool(y):
            return mk(z3.simplify(x == y))
        x, y = pair(x, y)
        if x.eq(y):
            return True
        return mk(x == y)
    return pynum(a) == pynum(b)


def s_ne(a, b): return s_not(s_eq(a, b))


def s_not(a):
    if isinstance(a, SV):
        return mk(z3.Not(bool_t(a.t)))
    return not a


def s_and(a, b):
    if not isinstance(a, SV) and not isinstance(b, SV):
        return a & b
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, SV):
            if isinstance(x, bool):
                return (mk(bool_t(zt(y)))) if x else False
    x, y = zt(a), zt(b)
    if not (z3.is_bool(x) and z3.is_bool(y)):
        raise Unsupported('bitwise and on numbers')
    return mk(z3.And(x, y))


def s_or(a, b):
    if not isinstance(a, SV) and not isinstance(b, SV):
        return a | b
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, SV):
            if isinstance(x, bool):
                return True if x else mk(bool_t(zt(y)))
    x, y = zt(a), zt(b)
    if not (z3.is_bool(x) and z3.is_bool(y)):
        raise Unsupported('bitwise or on numbers')
    return mk(z3.Or(x, y))


def s_abs(a):
    if not isinstance(a, SV):
        return abs(a)
    t = num_t(a.t)
    return mk(z3.If(t >= 0, t, -t))


def s_ite(c, a, b):
    if not isinstance(c, SV):
        return a if c else b
    if a is b:
        return a
    ct = z3.simplify(bool_t(c.t))
    if z3.is_true(ct):
        return a
    if z3.is_false(ct):
        return b
    if not (isinstance(a, SV) or is_num(a)) or not (isinstance(b, SV) or is_num(b)):
        return a if c else b
    if _isinf(a) or _isinf(b):
        return a if c else b
    x, y = zt(a), zt(b)
    if z3.is_bool(x) and z3.is_bool(y):
        return mk(z3.simplify(z3.If(ct, x, y)))
    x, y = pair(x, y)
    if x.eq(y):
        return mk(x)
    return mk(z3.If(ct, x, y))


def s_min(a, b):
    if _isinf(a) or _isinf(b):
        return a if _infcmp(a, b, '<=') else b
    if not isinstance(a, SV) and not isinstance(b, SV):
        return min(a, b)
    return s_ite(s_le(a, b), a, b)


def s_max(a, b):
    if _isinf(a) or _isinf(b):
        return b if _infcmp(a, b, '<=') else a
    if not isinstance(a, SV) and not isinstance(b, SV):
        return max(a, b)
    return s_ite(s_le(b, a), a, b)


def s_cast(x, kind):
    """cast a scalar to array element kind"""
    if kind == 'obj' or kind is None:
        return x
    if isinstance(x, SV):
        if kind == 'real':
            return mk(real_t(x.t))
        if kind == 'int':
            return mk(trunc_t(x.t))
        if kind == 'bool':
            return mk(bool_t(x.t))
    x = pynum(x)
    if x is None:
        return x
    if kind == 'real':
        return float(x) if not isinstance(x, Fraction) else x
    if kind == 'int':
        return int(x)
    if kind == 'bool':
        return bool(x)
    return x


def kind_of_value(x):
    if isinstance(x, SV):
        return x.kind
    x = pynum(x)
    if isinstance(x, bool):
        return 'bool'
    if isinstance(x, int):
        return 'int'
    if isinstance(x, (float, Fraction)):
        return 'real'
    return 'obj'


# --------------------------------------------------------------------------- math functions
_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


def _once(key, fact):
    m = E().memo.setdefault('ax', set())
    if key not in m:
        m.add(key)
        for f in fact():
            E().axiom(f)


def s_func(name, x):
    """uninterpreted real function with per-term axioms"""
    if not isinstance(x, SV):
        x = pynum(x)
        fn = {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos,
              'tan': math.tan, 'tanh': math.tanh, 'arctan': math.atan, 'arcsin': math.asin, 'arccos': math.acos}[name]
        if name in ('sqrt',) and x in (0, 1, 0.0, 1.0):
            return float(x)
        if name == 'exp' and _isinf(x):
            return math.exp(x)
        if name == 'log' and x == 0:
            return float('-inf')
        if name == 'log' and _isinf(x):
            return x
        if x == 0 and name in ('sin', 'tan', 'tanh', 'arctan', 'arcsin'):
            return 0.0
        if x == 0 and name in ('cos', 'exp'):
            return 1.0
        if x == 1 and name == 'log':
            return 0.0
        xt = zt(x)
    else:
        xt = x.t
    xt = z3.simplify(real_t(xt))
    f = uf('m_' + name, Real, Real)
    r = f(xt)
    key = (name, xt.get_id())
    E().memo.setdefault('keep', []).append(xt)

    def ax():
        out = []
        if name == 'exp':
            out += [r > 0, z3.Implies(xt == 0, r == 1), z3.Implies(xt > 0, r > 1), z3.Implies(xt < 0, r < 1)]
        elif name == 'sqrt':
            out += [z3.Implies(xt >= 0, z3.And(r >= 0, r * r == xt))]
        elif name in ('sin', 'cos'):
            out += [r <= 1, r >= -1]
        elif name == 'tanh':
            out += [r < 1, r > -1, z3.Implies(xt > 0, r > 0), z3.Implies(xt < 0, r < 0), z3.Implies(xt == 0, r == 0)]
        elif name == 'log':
            out += [z3.Implies(xt == 1, r == 0), z3.Implies(xt > 1, r > 0), z3.Implies(z3.And(xt > 0, xt < 1), r < 0)]
        elif name == 'arctan':
            out += [z3.Implies(xt > 0, r > 0), z3.Implies(xt < 0, r < 0), z3.Implies(xt == 0, r == 0)]
        return out
    _once(key, ax)
    return mk(r)


def s_pow(a, b):
    if not isinstance(a, SV) and not isinstance(b, SV):
        return pynum(a) ** pynum(b)
    if not isinstance(b, SV):
        b = pynum(b)
        if isinstance(b, float) and b.is_integer():
            r = s_pow(mk(real_t(zt(a))), int(b))
            return s_cast(r, 'real')
        if b == 0.5:
            return s_func('sqrt', a)
        if b == -0.5:
            return s_div(1, s_func('sqrt', a))
        if isinstance(b, int):
            if b == 0:
                return 1 if kind_of_value(a) != 'real' else 1.0
            if 0 < b <= 6:
                r = a
                for _ in range(b - 1):
                    r = s_mul(r, a)
                return _as_num(r)
            if -6 <= b < 0:
                return s_div(1, s_pow(a, -b))
    x, y = zt(a), zt(b)
    if z3.is_int(num_t(y)):
        f = uf('m_powi', Real, Int, Real)
        x = z3.simplify(real_t(x))
        y = z3.simplify(num_t(y))
        r = f(x, y)
        key = ('powi', x.get_id(), y.get_id())
        E().memo.setdefault('keep', []).extend([x, y])

        def ax():
            return [z3.Implies(y == 0, r == 1), z3.Implies(y == 1, r == x),
                    z3.Implies(y >= 1, r == x * f(x, y - 1)), z3.Implies(x == 1, r == 1),
                    z3.Implies(x > 0, r > 0), z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), z3.And(r >= 0, r <= 1)),
                    z3.Implies(z3.And(x == 0, y >= 1), r == 0)]
        _once(key, ax)
        return mk(r)
    f = uf('m_pow', Real, Real, Real)
    x, y = z3.simplify(real_t(x)), z3.simplify(real_t(y))
    r = f(x, y)
    E().memo.setdefault('keep', []).extend([x, y])

    def ax2():
        return [z3.Implies(y == 0, r == 1), z3.Implies(y == 1, r == x), z3.Implies(x > 0, r > 0),
                z3.Implies(z3.And(x >= 1, y >= 0), r >= 1), z3.Implies(x == 1, r == 1)]
    _once(('pow', x.get_id(), y.get_id()), ax2)
    return mk(r)


def s_floor(a):
    if not isinstance(a, SV):
        return float(math.floor(a))
    return mk(z3.ToReal(z3.ToInt(real_t(a.t))))


def s_ceil(a):
    if not isinstance(a, SV):
        return float(math.ceil(a))
    return mk(z3.ToReal(-z3.ToInt(-real_t(a.t))))


def s_sign(a):
    if not isinstance(a, SV):
        return (a > 0) - (a < 0)
    t = num_t(a.t)
    if z3.is_real(t):
        return mk(z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0))))
    return mk(z3.If(t > 0, z3.IntVal(1), z3.If(t < 0, z3.IntVal(-1), z3.IntVal(0))))
