"""P06 - replay memory: circular buffer of (n-step) transitions, sampled from what it holds."""
from pydv.ctx import harness
from contracts import p03

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.rl_utils.spaces', 'mushroom_rl.rl_utils.replay_memory']
P = 'P06'


class Info(p03.AgentInfo):
    def __init__(self, shape, backend):
        super().__init__(shape)
        self.backend = backend


def memory(c, backend, stateful, d, p, initial=0, cls='ReplayMemory', **kw):
    RM = c.mod('mushroom_rl.rl_utils.replay_memory')
    cap = c.size('max_size', 1)
    info = p03.spaces(c, d, 1, backend)
    return getattr(RM, cls)(info, Info((p,) if stateful else None, backend), initial, cap, **kw), cap, info


def fill(c, mem, backend, stateful, d, p, cap, lib):
    """arbitrary reachable content; returns the ghost content, the size and the next slot"""
    full = c.bool('full')
    idx = c.int('idx', 0, cap - 1)
    full = bool(full)
    n = cap if full else idx
    A = p03.arrays(c, n, 'M', d, 1, stateful, lib, p)
    if c.symbolic:
        for a in ('_idx', '_full', '_dataset'):
            if not hasattr(mem, a):
                from pydv.core import Unsupported
                raise Unsupported('memory field ' + a + ' not found')
        p03.fill(c, mem._dataset, A, n, backend)
        mem._idx, mem._full = idx, full
    else:
        core = c.mod('mushroom_rl.core')
        # slots are written in order; when full, the slots before idx were written again
        if full:
            junk = p03.arrays(c, idx, 'J', d, 1, stateful, lib, p) if idx else None
            order = ([(junk, k) for k in range(idx)] + [(A, k) for k in range(idx, cap)] + [(A, k) for k in range(idx)])
        else:
            order = [(A, k) for k in range(n)]
        for X, k in order:
            mem.add(one(c, X, k, backend, stateful))
    return A, n, idx, full


def one(c, X, k, backend, stateful, upto=None):
    core = c.mod('mushroom_rl.core')
    sl = slice(k, k + 1) if upto is None else slice(0, upto)
    kw = dict(policy_state=c.copy(X['policy_state'][sl]), policy_next_state=c.copy(X['policy_next_state'][sl])) if stateful else {}
    return core.Dataset.from_array(*[c.copy(X[f][sl]) for f in p03.FIELDS], backend=backend, **kw)


def spec_samples(c, B, N, n, gamma):
    """the n-step transitions of the dataset, in order (forks on the episode ends)"""
    out = []
    for i in range(N - n + 1):
        ok = True
        for j in range(n - 1):
            if bool(c.at(B['last'], i + j)):
                ok = False
                break
        if ok:
            g = sum((gamma ** j) * c.at(B['reward'], i + j) for j in range(n))
            out.append((i, i + n - 1, g))
    return out


def expected(c, A, B, samples, n0, idx, full, cap):
    """ghost content after the samples are written: function (field, slot, *j)"""
    slots = []
    pos = idx
    for s in samples:
        slots.append(pos)
        pos = c.ite(c.eq(pos + 1, cap), 0, pos + 1)

    def get(f, k, *j):
        v = lambda: c.at(A[f], k, *j)
        for q, (i, e, g) in zip(slots, samples):
            src = g if f == 'reward' else c.at(B[f], i if f in ('state', 'action', 'policy_state') else e, *j)
            v = (lambda old, q, src: lambda: c.ite(c.eq(k, q), src, old))(v, q, src)
        return v()
    return get, pos


def make(backend, stateful):
    tag = backend + ('_stateful' if stateful else '')
    lib = 'torch' if backend == 'torch' else 'np'

    for nst in (1, 2, 3):
        def mk(nst):
            @harness(P, f'add_{nst}step_{tag}')
            def add(c):
                d = c.size('d', 1)
                p = c.size('p', 1) if stateful else None
                mem, cap, info = memory(c, backend, stateful, d, p)
                A, n0, idx, full = fill(c, mem, backend, stateful, d, p, cap, lib)
                N = c.choice('N', [1, 2, 3] if nst == 1 else [nst - 1, nst, nst + 1])
                B = p03.arrays(c, N, 'B', d, 1, stateful, lib, p)
                gamma = c.real('gamma', 0, 1)
                if N == 0:
                    return
                ds = one(c, B, 0, backend, stateful, upto=N)
                if nst == 1 and c.bool('defaults'):
                    mem.add(ds)
                    gamma = 1.
                else:
                    mem.add(ds, nst, gamma)
                samples = spec_samples(c, B, N, nst, gamma)
                get, pos = expected(c, A, B, samples, n0, idx, full, cap)
                wrote = len(samples)
                size = c.ite(c.le(cap, n0 + wrote), cap, n0 + wrote)
                c.ensure_eq('size', lambda: mem.size, size)
                c.ensure_eq('next-slot-full', lambda: c.not_(c.lt(mem.size, cap)), c.le(cap, n0 + wrote))
                p03.same(c, mem._dataset, 'content', size, get, p03.fieldsof(stateful))
                c.ensure_all('given-data-untouched', (N,), lambda k: c.and_(
                    c.eq(c.at(ds.reward, k), c.at(B['reward'], k)), c.eq(c.at(ds.last, k), c.at(B['last'], k))))
                # the next transition goes to the slot after the last one written
                X = p03.arrays(c, 1, 'X', d, 1, stateful, lib, p)
                mem.add(one(c, X, 0, backend, stateful))
                c.ensure_eq('next-slot', lambda: c.at(mem._dataset.reward, pos), c.at(X['reward'], 0))
        mk(nst)

    @harness(P, 'get_' + tag)
    def get(c):
        d = c.size('d', 1)
        p = c.size('p', 1) if stateful else None
        ini = c.int('initial', 0)
        mem, cap, info = memory(c, backend, stateful, d, p, ini)
        A, n0, idx, full = fill(c, mem, backend, stateful, d, p, cap, lib)
        c.ensure_eq('initialized', lambda: mem.initialized, c.lt(ini, n0))
        c.ensure_eq('size', lambda: mem.size, n0)
        c.assume(c.lt(0, n0))
        m = c.size('m', 1)
        out = mem.get(m)
        fl = p03.fieldsof(stateful)
        c.ensure_eq('arity', len(out), len(fl))
        for a in out:
            c.ensure_eq('batch-size', lambda: a.shape[0], m)

        def stored(k, q):
            r = True
            for f, a in zip(fl, out):
                if len(a.shape) == 1:
                    r = c.and_(r, c.eq(c.at(a, k), c.at(A[f], q)))
                else:
                    r = c.and_(r, c.all(a.shape[1], lambda j: c.eq(c.at(a, k, j), c.at(A[f], q, j))))
            return r
        c.ensure_all('every-sample-is-stored', (m,), lambda k: c.any(n0, lambda q: stored(k, q)))

    @harness(P, 'reset_' + tag)
    def reset(c):
        d = c.size('d', 1)
        p = c.size('p', 1) if stateful else None
        mem, cap, info = memory(c, backend, stateful, d, p)
        c.ensure_eq('starts-empty', lambda: mem.size, 0)
        fill(c, mem, backend, stateful, d, p, cap, lib)
        mem.reset()
        c.ensure_eq('empty', lambda: mem.size, 0)
        c.ensure_eq('not-initialized', lambda: mem.initialized, False)
        X = p03.arrays(c, 1, 'X', d, 1, stateful, lib, p)
        mem.add(one(c, X, 0, backend, stateful))
        c.ensure_eq('one', lambda: mem.size, 1)
        p03.same(c, mem._dataset, 'content', 1, lambda f, k, *j: c.at(X[f], 0, *j), p03.fieldsof(stateful))


for b in ('numpy', 'torch'):
    for st in (False, True):
        make(b, st)
