"""Ring normal form: decides equalities that hold by the laws of commutative rings alone (reciprocals, reductions, conditionals and
uninterpreted applications are atoms, identified up to the normal form of their arguments)."""
from fractions import Fraction
import z3

LIMIT = 6000


class TooBig(Exception):
    pass


class Ring:
    def __init__(self):
        self.memo, self.keep, self.recips, self.den = {}, [], {}, {}

    def atom(self, key):
        return {((key, 1),): Fraction(1)}

    def add(self, p, q, f=1):
        r = dict(p)
        for m, v in q.items():
            w = r.get(m, 0) + f * v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        if len(p) * len(q) > 40 * LIMIT:
            raise TooBig()
        r = {}
        for m, v in p.items():
            dm = dict(m)
            for n, w in q.items():
                d = dict(dm)
                for a, e in n:
                    d[a] = d.get(a, 0) + e
                k = tuple(sorted(d.items(), key=lambda t: str(t[0])))
                x = r.get(k, 0) + v * w
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def canon(self, p):
        return tuple(sorted(((m, v) for m, v in p.items()), key=str))

    def recip(self, p, term=None):
        if len(p) == 1 and () in p:
            return {(): 1 / p[()]}
        # leading coefficient one, so that 1/(2x) and 1/(x) share their atom
        lead = self.canon(p)[0][1]
        key = ('1/', self.canon({m: v / lead for m, v in p.items()}))
        i = self.recips.setdefault(key, len(self.recips))
        self.den.setdefault(i, ({m: v / lead for m, v in p.items()}, term))
        return {((('1/', i), 1),): 1 / lead}

    def __call__(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(t)
        r = self.memo[i] = self.conv(t)
        return r

    def conv(self, t):
        if z3.is_int_value(t):
            return {(): Fraction(t.as_long())} if t.as_long() else {}
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): f} if f else {}
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD:
                r = {}
                for c in ch:
                    r = self.add(r, self(c))
                return r
            if k == z3.Z3_OP_SUB:
                r = self(ch[0])
                for c in ch[1:]:
                    r = self.add(r, self(c), -1)
                return r
            if k == z3.Z3_OP_UMINUS:
                return self.add({}, self(ch[0]), -1)
            if k == z3.Z3_OP_MUL:
                r = {(): Fraction(1)}
                for c in ch:
                    r = self.mul(r, self(c))
                return r
            if k == z3.Z3_OP_DIV:
                d = self(ch[1])
                if not d:
                    raise TooBig()
                return self.mul(self(ch[0]), self.recip(d, ch[1]))
            if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 6:
                r = {(): Fraction(1)}
                for _ in range(ch[1].as_long()):
                    r = self.mul(r, self(ch[0]))
                return r
            if k == z3.Z3_OP_TO_REAL:
                return self(ch[0])
            if k == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_arith(c) for c in ch):
                key = (t.decl().name(),) + tuple(self.canon(self(c)) for c in ch)
                return self.atom(('f', self.recips.setdefault(key, len(self.recips))))
        return self.atom(('t', t.get_id()))


    def clear(self, p):
        """p multiplied by its denominators: (polynomial without reciprocals, the denominators)"""
        used = []
        for _ in range(12):
            n = max((i for m in p for (a, e) in m if a[0] == '1/' for i in [a[1]]), default=None)
            if n is None:
                return p, used
            q, term = self.den[n]
            used.append(term)
            top = max(e for m in p for (a, e) in m if a == ('1/', n))
            pw = [{(): Fraction(1)}]
            for _ in range(top):
                pw.append(self.mul(pw[-1], q))
            r = {}
            for m, v in p.items():
                e = dict(m).get(('1/', n), 0)
                rest = tuple(x for x in m if x[0] != ('1/', n))
                r = self.add(r, self.mul({rest: v}, pw[top - e]))
            p = r
        raise TooBig()


def fractions(goal):
    """the denominators that have to be non-zero for the equality to hold by the laws of fields; None when that is not enough"""
    if not z3.is_eq(goal) or not z3.is_arith(goal.arg(0)):
        return None
    try:
        R = Ring()
        d = R.add(R(goal.arg(0)), R(goal.arg(1)), -1)
        p, used = R.clear(d)
        return None if p or any(t is None for t in used) else used
    except (TooBig, RecursionError):
        return None


def identity(goal):
    """True when the equality holds in every commutative ring"""
    if not z3.is_eq(goal) or not z3.is_arith(goal.arg(0)):
        return False
    try:
        R = Ring()
        return not R.add(R(goal.arg(0)), R(goal.arg(1)), -1)
    except (TooBig, RecursionError):
        return False
