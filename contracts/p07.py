"""P07 - prioritized replay: the sum tree and the prioritized sampling built on it."""
from pydv.ctx import harness
from contracts import p03, p06

PRELOAD = p06.PRELOAD
P = 'P07'


def tree(c, cap, backend='numpy', d=1, stateful=False):
    RM = c.mod('mushroom_rl.rl_utils.replay_memory')
    info = p03.spaces(c, d, 1, backend)
    return RM.SumTree(info, p06.Info((1,) if stateful else None, backend), cap)


def prio(c, name, lo=0.):
    v = c.real(name, lo)
    return v if c.symbolic else round(v * 8) / 8


def fields(t, *names):
    for n in names:
        if not hasattr(t, n):
            from pydv.core import Unsupported
            raise Unsupported('sum tree member ' + n + ' not found')


def node(c, t, i):
    return c.at(t._tree, i)


def consistent(c, t, cap):
    """every inner node is the sum of its two children"""
    return c.all(cap - 1, lambda i: c.eq(node(c, t, i), node(c, t, 2 * i + 1) + node(c, t, 2 * i + 2)))


# ---- any size, through the public interface --------------------------------------------------
for _n in (2, 3, 4):
    def mk(cap):
        @harness(P, f'tree_{cap}_leaves')
        def whole(c):
            t = tree(c, cap)
            p = [prio(c, f'p{k}') for k in range(cap)]
            t.update([k + cap - 1 for k in range(cap)], p)
            q = prio(c, 'q')
            k = c.choice('changed', list(range(cap)))
            t.update([k + cap - 1], [q])
            p[k] = q
            c.ensure_eq('total', lambda: t.total_p, sum(p))
            c.ensure_eq('max', lambda: c.and_(c.and_(*[c.le(x, t.max_p) for x in p]), c.or_(*[c.eq(x, t.max_p) for x in p])), True)
            total = sum(p)
            c.assume(c.lt(0, total))
            s = prio(c, 's')
            c.assume(c.and_(c.lt(0, s), c.lt(s, total)))
            idx, pp, dat = t.get_ind(s)
            c.ensure('valid-slot', lambda: c.and_(c.le(0, dat), c.lt(dat, cap), c.eq(dat, idx - cap + 1)))
            j = int(dat)
            c.ensure_eq('priority-of-slot', pp, p[j])
            c.ensure('never-an-empty-slot', lambda: c.lt(0, p[j]))
            # slots are met in the order of the tree; without equal subtrees the choice is deterministic
            order = leaves(0, cap)
            tie = False
            for i in range(cap - 1):
                l, r = leaves(2 * i + 1, cap), leaves(2 * i + 2, cap)
                tie = c.or_(tie, c.eq(sum(p[x] for x in l), sum(p[x] for x in r)))
            before = sum([p[x] for x in order[:order.index(j)]], 0.)
            c.ensure('proportional', lambda: c.implies(c.not_(tie), c.and_(c.le(before, s), c.le(s, before + p[j]))))
    mk(_n)


def leaves(i, cap):
    if i >= cap - 1:
        return [i - cap + 1]
    return leaves(2 * i + 1, cap) + leaves(2 * i + 2, cap)


# ---- unbounded, modular ----------------------------------------------------------------------
def arbitrary(c, t, cap):
    T = c.array('T', (2 * cap - 1,), lo=0)
    fields(t, '_tree', '_propagate', '_retrieve')
    t._tree = T
    c.assume_all((cap - 1,), lambda i: c.eq(c.at(T, i), c.at(T, 2 * i + 1) + c.at(T, 2 * i + 2)))
    return c.copy(T)


def capacity(c):
    return c.size('max_size', 2)


@harness(P, 'update')
def update(c):
    """update writes the leaf and hands the change to the ancestors (contract of the propagation)"""
    cap = capacity(c)
    t = tree(c, cap)
    k = c.int('slot', 0, cap - 1)
    q = prio(c, 'q')
    if not c.symbolic:
        p = [prio(c, f'p{x}') for x in range(cap)]
        t.update(list(range(cap - 1, 2 * cap - 1)), p)
        t.update([k + cap - 1], [q])
        p[k] = q
        c.ensure_all('leaves', (cap,), lambda x: c.eq(node(c, t, x + cap - 1), p[x]))
        c.ensure('sums', lambda: consistent(c, t, cap))
        return
    T0 = arbitrary(c, t, cap)
    calls = []

    def propagate(delta, idx):
        calls.append((delta, idx))
        # precondition: only the parent of idx is off, by delta
        pa = (idx - 1) // 2
        c.ensure('one-leaf', c.and_(c.le(1, idx), c.lt(idx, 2 * cap - 1)))
        c.ensure_all('change-of-parent', (cap - 1,), lambda i: c.eq(
            c.at(t._tree, i) + c.ite(c.eq(i, pa), delta, 0.), c.at(t._tree, 2 * i + 1) + c.at(t._tree, 2 * i + 2)))
    c.stub(t, '_propagate', propagate)
    t.update([k + cap - 1], [q])
    c.ensure('ancestors-updated', len(calls) == 1)
    c.ensure_all('leaves', (cap,), lambda x: c.eq(node(c, t, x + cap - 1), c.ite(c.eq(x, k), q, c.at(T0, x + cap - 1))))


@harness(P, 'propagate')
def propagate_step(c):
    """one level of the propagation: the parent is repaired, the rest is the same problem one level up"""
    cap = capacity(c)
    t = tree(c, cap)
    if not c.symbolic:
        p = [prio(c, f'p{x}') for x in range(cap)]
        for x in range(cap):
            t.update([x + cap - 1], [p[x]])
            c.ensure('sums', lambda: consistent(c, t, cap))
        return
    T = c.array('T', (2 * cap - 1,))
    fields(t, '_tree', '_propagate')
    t._tree = T
    idx = c.int('idx', 1, 2 * cap - 2)
    delta = c.real('delta')
    pa = (idx - 1) // 2
    c.assume_all((cap - 1,), lambda i: c.eq(c.at(T, i) + c.ite(c.eq(i, pa), delta, 0.), c.at(T, 2 * i + 1) + c.at(T, 2 * i + 2)))
    T0 = c.copy(T)
    real = t._propagate
    calls = []

    def again(d, i2):
        calls.append(1)
        c.ensure('measure', c.and_(c.le(1, i2), c.lt(i2, idx)))
        p2 = (i2 - 1) // 2
        c.ensure_all('pre-of-recursion', (cap - 1,), lambda i: c.eq(
            c.at(t._tree, i) + c.ite(c.eq(i, p2), d, 0.), c.at(t._tree, 2 * i + 1) + c.at(t._tree, 2 * i + 2)))
        new = c.array('T2', (2 * cap - 1,))
        old = t._tree
        c.assume_all((2 * cap - 1,), lambda i: c.implies(c.le(i2, i), c.eq(c.at(new, i), c.at(old, i))))
        c.assume_all((cap - 1,), lambda i: c.eq(c.at(new, i), c.at(new, 2 * i + 1) + c.at(new, 2 * i + 2)))
        t._tree = new
    c.stub(t, '_propagate', again)
    real(delta, idx)
    c.ensure_all('consistent', (cap - 1,), lambda i: c.eq(c.at(t._tree, i), c.at(t._tree, 2 * i + 1) + c.at(t._tree, 2 * i + 2)))
    c.ensure_all('deeper-nodes-kept', (2 * cap - 1,), lambda i: c.implies(c.le(idx, i), c.eq(c.at(t._tree, i), c.at(T0, i))))


@harness(P, 'retrieve')
def retrieve_step(c):
    """one level of the descent: 0 < s <= node; the result is a leaf of positive priority"""
    cap = capacity(c)
    t = tree(c, cap)
    if not c.symbolic:
        p = [prio(c, f'p{x}') for x in range(cap)]
        t.update(list(range(cap - 1, 2 * cap - 1)), p)
        u = c.real('u', 0, 1)
        s = round(u * sum(p) * 8) / 8
        c.assume(0 < s <= sum(p))
        idx, pp, dat = t.get_ind(s)
        c.ensure('leaf', lambda: c.and_(c.le(cap - 1, idx), c.lt(idx, 2 * cap - 1)))
        c.ensure('positive', lambda: c.lt(0, p[int(dat)]))
        c.ensure_eq('priority', pp, p[int(dat)])
        return
    arbitrary(c, t, cap)
    T = t._tree
    idx = c.int('idx', 0, 2 * cap - 2)
    s = c.real('s')
    c.assume(c.and_(c.lt(0, s), c.le(s, c.at(T, idx))))
    real = t._retrieve

    def again(s2, i2):
        c.ensure('child', c.or_(c.eq(i2, 2 * idx + 1), c.eq(i2, 2 * idx + 2)))
        c.ensure('pre-of-recursion', c.and_(c.lt(i2, 2 * cap - 1), c.lt(0, s2), c.le(s2, c.at(T, i2))))
        L = c.at(T, 2 * idx + 1)
        R = c.at(T, 2 * idx + 2)
        c.ensure('offset', c.or_(c.eq(s2, s), c.eq(s2, s - L)))
        c.ensure('proportional', c.implies(c.not_(c.eq(L, R)), c.and_(
            c.implies(c.eq(i2, 2 * idx + 1), c.and_(c.eq(s2, s), c.le(s, L))),
            c.implies(c.eq(i2, 2 * idx + 2), c.and_(c.eq(s2, s - L), c.le(L, s))))))
        out = c.fresh('leaf', 'int')
        c.assume(c.and_(c.le(cap - 1, out), c.lt(out, 2 * cap - 1), c.lt(0, c.at(T, out))))
        return out
    c.stub(t, '_retrieve', again)
    r = real(s, idx)
    c.ensure('leaf', lambda: c.and_(c.le(cap - 1, r), c.lt(r, 2 * cap - 1)))
    c.ensure('positive', lambda: c.lt(0, c.at(T, r)))
    c.ensure_eq('tree-untouched', True, t._tree is T)


# ---- adding --------------------------------------------------------------------------------
def make_add(nst, backend, stateful=False):
    ps = 1 if stateful else None

    @harness(P, f'add_{nst}step_{backend}' + ('_stateful' if stateful else ''))
    def add(c):
        lib = 'torch' if backend == 'torch' else 'np'
        d = 1
        cap = c.size('max_size', 2)
        t = tree(c, cap, backend, 1, stateful)
        full = bool(c.bool('full'))
        idx = c.int('idx', 0, cap - 1)
        n0 = cap if full else idx
        A = p03.arrays(c, n0, 'M', d, 1, stateful, lib, ps)
        N = c.choice('N', [1, 2] if nst == 1 else [nst, nst + 1])
        B = p03.arrays(c, N, 'B', d, 1, stateful, lib, ps)
        gamma = c.real('gamma', 0, 1)
        pr = [prio(c, f'pr{k}', .125) for k in range(N)]
        if c.symbolic:
            fields(t, '_tree', '_idx', '_full', '_propagate', 'dataset')
            p03.fill(c, t.dataset, A, n0, backend)
            t._idx, t._full = idx, full
            T = c.array('T', (2 * cap - 1,), lo=0)
            t._tree = T
            leaf0 = c.copy(T)
            c.stub(t, '_propagate', lambda delta, i: None)
        else:
            old = [prio(c, f'p{x}', .125) for x in range(n0)]
            if full:
                J = p03.arrays(c, idx, 'J', d, 1, stateful, lib, ps) if idx else None
                order = [(J, k, 1.) for k in range(idx)] + [(A, k, old[k]) for k in list(range(idx, cap)) + list(range(idx))]
            else:
                order = [(A, k, old[k]) for k in range(n0)]
            for X, k, q in order:
                t.add(p06.one(c, X, k, backend, stateful), [q], 1, 1.)
            leaf0 = c.copy(t._tree)
        ds = p06.one(c, B, 0, backend, stateful, upto=N)
        t.add(ds, pr, nst, gamma)
        samples = p06.spec_samples(c, B, N, nst, gamma)
        get, pos = p06.expected(c, A, B, samples, n0, idx, full, cap)
        size = c.ite(c.le(cap, n0 + len(samples)), cap, n0 + len(samples))
        c.ensure_eq('size', lambda: t.size, size)
        p03.same(c, t.dataset, 'content', size, get, p03.fieldsof(stateful))

        def leaf(k):
            v = c.at(leaf0, k + cap - 1)
            q = idx
            for (i, e, g) in samples:
                v = c.ite(c.eq(k, q), pr[i], v)
                q = c.ite(c.eq(q + 1, cap), 0, q + 1)
            return v
        c.ensure_all('priorities', (cap,), lambda k: c.eq(node(c, t, k + cap - 1), leaf(k)))
        c.ensure_all('given-data-untouched', (N,), lambda k: c.eq(c.at(ds.reward, k), c.at(B['reward'], k)))


for _n in (1, 2):
    for _b in ('numpy', 'torch'):
        for _s in (False, True):
            make_add(_n, _b, _s)
make_add(3, 'numpy')


@harness(P, 'add_rejects_zero_priority')
def rejects(c):
    cap = c.size('max_size', 2)
    t = tree(c, cap)
    B = p03.arrays(c, 1, 'B', 1, 1, False, 'np', None)
    q = c.real('q')
    c.assume(c.le(q, 0))
    c.ensure('rejected', c.raises(AssertionError, lambda: t.add(p06.one(c, B, 0, 'numpy', False), [q], 1, 1.)))
    c.ensure_eq('still-empty', lambda: t.size, 0)


# ---- the prioritized memory -------------------------------------------------------------------
def make_per(backend):
    lib = 'torch' if backend == 'torch' else 'np'

    for stateful in (False, True):
        harness(P, 'sampling_' + backend + ('_stateful' if stateful else ''))(lambda c, st=stateful: sampling(c, st))

    def sampling(c, stateful):
        nf = 8 if stateful else 6
        RM = c.mod('mushroom_rl.rl_utils.replay_memory')
        par = c.mod('mushroom_rl.rl_utils.parameters')
        cap = c.size('max_size', 2)
        ini = c.int('initial', 0)
        beta, alpha = c.real('beta', 0, 1), c.real('alpha', 0, 1)
        info = p03.spaces(c, 1, 1, backend)
        mem = RM.PrioritizedReplayMemory(info, p06.Info((1,) if stateful else None, backend), ini, cap, alpha, par.Parameter(beta))
        fields(mem, '_tree')
        t = mem._tree
        n0 = c.size('n0', 1)
        c.assume(c.le(n0, cap))
        full = bool(c.eq(n0, cap))
        A = p03.arrays(c, n0, 'M', 1, 1, stateful, lib, 1 if stateful else None)
        if c.symbolic:
            fields(t, '_tree', '_idx', '_full', 'get_ind', 'dataset')
            p03.fill(c, t.dataset, A, n0, backend)
            t._idx, t._full = (0 if full else n0), full
            T = c.array('T', (2 * cap - 1,), lo=0)
            c.assume(c.lt(0, c.at(T, 0)))
            t._tree = T
        else:
            mem.add(p06.one(c, A, 0, backend, stateful, upto=n0), [prio(c, f'p{x}', .125) for x in range(n0)])
            T = c.copy(t._tree)
        real = t.get_ind
        asked, got = [], []

        def get_ind(s):
            asked.append(s)
            if c.symbolic:      # contract of get_ind (proved above): a stored slot of positive priority
                i = c.fresh('leaf', 'int')
                c.assume(c.and_(c.le(cap - 1, i), c.lt(i, cap - 1 + n0), c.lt(0, c.at(T, i))))
                r = i, c.at(T, i), i - cap + 1
            else:
                r = real(s)
            got.append(r)
            return r
        c.stub(t, 'get_ind', get_ind)
        m = c.choice('n_samples', [1, 2, 3])
        out = mem.get(m)
        c.ensure_eq('initialized', lambda: mem.initialized, c.lt(ini, n0))
        if not (len(out) == nf + 2 and len(asked) == m):
            c.ensure('one-draw-per-sample', False)
            return
        total = c.at(T, 0)
        for k in range(m):
            c.ensure('stratified', c.and_(c.le(k * total / m, asked[k]), c.le(asked[k], (k + 1) * total / m)))
            c.ensure_eq('tree-index', lambda: c.at(out[nf], k), got[k][0])
            q = got[k][2]
            for f, a in zip(p03.fieldsof(stateful), out):
                if len(a.shape) == 1:
                    c.ensure_eq('transition-' + f, lambda: c.at(a, k), c.at(A[f], q))
                else:
                    c.ensure_eq('transition-' + f, lambda: c.at(a, k, 0), c.at(A[f], q, 0))
        w = [(n0 * (got[k][1] / total)) ** -beta for k in range(m)]
        top = w[0]
        for x in w[1:]:
            top = c.ite(c.le(top, x), x, top)
        for k in range(m):
            c.ensure_eq('importance-weight', lambda: c.at(out[nf + 1], k), w[k] / top)
            c.ensure('weight-at-most-one', lambda: c.le(c.at(out[nf + 1], k), 1))

    @harness(P, 'priorities_' + backend)
    def priorities(c):
        RM = c.mod('mushroom_rl.rl_utils.replay_memory')
        cap = c.choice('max_size', [2, 3, 4])
        ini = c.int('initial', 0, 3)
        alpha, eps = c.real('alpha', 0, 1), c.real('eps', .01, 1)
        info = p03.spaces(c, 1, 1, backend)
        mem = RM.PrioritizedReplayMemory(info, p06.Info(None, backend), ini, cap, alpha, .5, epsilon=eps)
        n = c.choice('n', [1, 2, 3, 4])
        if n > cap:
            return
        A = p03.arrays(c, n, 'M', 1, 1, False, lib, None)
        p = [prio(c, f'p{x}', .125) for x in range(n)]
        c.ensure_eq('max-before', lambda: mem.max_priority, 1.)
        mem.add(p06.one(c, A, 0, backend, False, upto=n), p)

        def check(tag):
            def top():
                v = 1. if not bool(c.lt(ini, n)) else p[0]
                if bool(c.lt(ini, n)):
                    for x in p[1:]:
                        v = c.ite(c.le(v, x), x, v)
                return v
            c.ensure_eq('max-priority-' + tag, lambda: mem.max_priority, top())
            c.ensure_eq('total-' + tag, lambda: mem._tree.total_p, sum(p))
        check('added')
        k = c.choice('k', list(range(n)))
        err = c.array('err', (1,))
        ix = c.array('ix', (1,), 'int', lo=0, hi=0)
        ix[0] = k + cap - 1
        mem.update(err, ix)
        e = c.at(err, 0)
        p[k] = (c.ite(c.le(0, e), e, -e) + eps) ** alpha
        check('updated')


for _b in ('numpy', 'torch'):
    make_per(_b)
