"""Back ends: z3 (in process), then cvc5 and z3 with other configurations."""
import os
import subprocess
import tempfile
import time
import z3
from .core import *
from .core import _has_quant
from .arrays import SUMR, SUMI
from . import poly


def collect(term, decls, out, seen):
    stack = [term]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and any(x.decl().eq(d) for d in decls):
            out.append(x)
        stack.extend(x.children() if not z3.is_quantifier(x) else [x.body()])


def sum_lemmas(eng, goal, facts):
    """extensionality and peeling of the reductions occurring in the query"""
    out, seen = [], set()
    for t in [goal] + facts:
        collect(t, (SUMR, SUMI), out, seen)
    sums = [(t, k, b, n) for (t, k, b, n) in eng.sums if any(t.eq(o) for o in out)]
    lem = []
    for a in range(len(sums)):
        for b in range(a + 1, len(sums)):
            t1, k1, b1, n1 = sums[a]
            t2, k2, b2, n2 = sums[b]
            if not t1.decl().eq(t2.decl()):
                continue
            k = z3.Int('sx!')
            f1, f2 = z3.substitute(b1, (k1, k)), z3.substitute(b2, (k2, k))
            if n1.eq(n2) or eng.must(n1 == n2):
                if eng.must(z3.Implies(z3.And(k >= 0, k < n1), f1 == f2), ms=2000):
                    lem.append(t1 == t2)
            else:
                if counting(b1) and counting(b2):
                    if eng.must(z3.Implies(k >= 0, f1 == f2), ms=1000):
                        for (ta, na, tb, nb, fb) in ((t1, n1, t2, n2, f1), (t2, n2, t1, n1, f2)):
                            lem.append(z3.Implies(na <= nb, ta <= tb))
                            lem.append(z3.Implies(z3.And(na >= 0, na < nb, z3.substitute(fb, (k, na)) == 1), ta < tb))
                d = z3.simplify(n1 - n2)
                if z3.is_int_value(d) and d.as_long() in (1, -1):
                    hi, lo, nl, fl = (t1, t2, n2, f1) if d.as_long() == 1 else (t2, t1, n1, f2)
                    if eng.must(z3.Implies(z3.And(k >= 0, k < nl), f1 == f2), ms=2000):
                        lem.append(z3.Implies(nl >= 0, hi == lo + z3.substitute(fl, (k, nl))))
    for (t, k1, b1, n1) in sums:
        if not counting(b1):
            continue
        for (cb, k2, nt, rank, at) in eng.memo.get('masks', []):
            k = z3.Int('sx!')
            f1, f2 = z3.substitute(b1, (k1, k)), z3.substitute(cb, (k2, k))
            if f1.eq(f2) or eng.must(z3.Implies(z3.And(k >= 0, k < n1, k < nt), f1 == f2), ms=2000):
                lem.append(z3.Implies(z3.And(n1 >= 0, n1 < nt, at(n1)), t == rank(n1)))
    return lem


def counting(b):
    return z3.is_int(b) and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(b.arg(1)) \
        and z3.is_int_value(b.arg(2)) and {b.arg(1).as_long(), b.arg(2).as_long()} == {0, 1}


def abstract(ts):
    """does the query mention functions that are only axiomatised partially?  Then a model need not be real"""
    seen, stack = set(), list(ts)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n in ('SUMR', 'SUMI', 'MAXR', 'ARGR') or n.startswith(('m_', 'sel!', 'rank!', 'abs_')):
                return True
        stack.extend(x.children())
    return False


def prove(eng, goal, ms=8000, want_model=True):
    """returns (status, backend, model); conjunctions with quantifiers are proved conjunct by conjunct"""
    if z3.is_and(goal) and _has_quant(goal):
        be = 'z3'
        for g in goal.children():
            st, be, model = prove(eng, g, ms, want_model)
            if st != 'proved':
                return st, be, model
        return 'proved', be, None
    if z3.is_or(goal):
        qf = [g for g in goal.children() if not _has_quant(g)]
        if qf and len(qf) < goal.num_args():
            # an instance of the existential first
            for g in qf:
                parts = g.children() if z3.is_and(g) else [g]
                if all(prove1(eng, p, ms, False)[0] == 'proved' for p in parts):
                    return 'proved', 'z3', None
    return prove1(eng, goal, ms, want_model)


def ground(ts):
    """replace reductions and other lambda terms by fresh constants (a generalisation of the query)"""
    memo = {}

    def rec(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_app(x) and x.num_args() and any(z3.is_quantifier(c) and c.is_lambda() for c in x.children()):
            r = z3.Const(f'gr!{i}', x.sort())
        elif z3.is_quantifier(x) or not x.num_args():
            r = x
        else:
            ch = [rec(c) for c in x.children()]
            r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else \
                (z3.And(ch) if z3.is_and(x) else z3.Or(ch) if z3.is_or(x) else x.decl()(*ch))
        memo[i] = (x, r)
        return r
    return [rec(t) for t in ts]


def quick(eng, goal, facts, ms):
    """quantifier-free core of the query"""
    if _has_quant(goal):
        return False
    try:
        fs = ground([z3.simplify(z3.Not(goal))] + [f for f in facts if not _has_quant(f)])
    except z3.Z3Exception:
        return False
    for mk_s in (lambda: z3.SimpleSolver(), lambda: z3.Then('simplify', 'propagate-values', 'ctx-simplify', 'solve-eqs', 'purify-arith', 'smt').solver()):
        s = mk_s()
        s.set('timeout', ms)
        s.add(fs)
        if s.check() == z3.unsat:
            return True
    return False


def prove1(eng, goal, ms=8000, want_model=True):
    t0 = time.time()
    facts = eng.relevant(goal)
    status, backend, model = 'unknown', 'z3', None
    try:
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'proved', 'z3-simplify', None
        if poly.identity(goal):
            return 'proved', 'ring', None
        den = poly.fractions(goal)
        if den:
            for d in den:
                s = z3.Solver()
                s.set('timeout', max(ms // 4, 1000))
                s.add(facts)
                s.add(d == 0)
                if s.check() != z3.unsat:
                    break
            else:
                return 'proved', 'ring', None
        lem = []
        if eng.sums:
            lem = sum_lemmas(eng, goal, facts)
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(facts)
        s.add(lem)
        s.add(z3.Not(goal))
        if os.environ.get('PYDV_DUMP') and len(str(goal)) > 500:
            with open(f"{os.environ['PYDV_DUMP']}{eng.n_queries}", 'w') as f:
                f.write(s.to_smt2())
        r = s.check()
        if r == z3.unsat:
            status = 'proved'
        elif r == z3.sat:
            status, model = ('abstract' if abstract(facts + [goal]) else 'refuted'), s.model()
        else:
            # quantifier-free instance first (cheap), then other configurations
            for conf, kw in (('z3-nlsat', dict()), ('z3-auto', dict())):
                if conf == 'z3-nlsat':
                    if any(True for q in eng.qfacts):
                        continue
                    s2 = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'smt').solver()
                else:
                    s2 = z3.SolverFor('AUFNIRA') if False else z3.Solver()
                    s2.set('smt.mbqi', False)
                    s2.set('smt.arith.solver', 2)
                s2.set('timeout', ms)
                s2.add(facts)
                s2.add(lem)
                s2.add(z3.Not(goal))
                r2 = s2.check()
                if r2 == z3.unsat:
                    status, backend = 'proved', conf
                    break
                if r2 == z3.sat and conf == 'z3-nlsat':
                    status, backend, model = 'refuted', conf, s2.model()
                    break
            if status == 'refuted' and abstract(facts + [goal]):
                status = 'abstract'
            if status == 'unknown':
                r3 = cvc5_check(facts + lem + [z3.Not(goal)], ms)
                if r3 == 'unsat':
                    status, backend = 'proved', 'cvc5'
    finally:
        eng.solver_time += time.time() - t0
        eng.n_queries += 1
    return status, backend, model


def cvc5_check(fs, ms):
    s = z3.Solver()
    s.add(fs)
    try:
        txt = s.to_smt2()
    except Exception:
        return 'unknown'
    if '(lambda' in txt or 'lambda' in txt:
        return 'unknown'
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + txt)
        r = subprocess.run(['cvc5', f'--tlimit={ms}', fn], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return r.stdout.strip().split('\n')[-1] if r.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(fn)
