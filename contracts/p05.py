"""P05 - the vectorized dataset: flattening keeps exactly the active steps, grouped by environment, in order."""
from pydv.ctx import harness
from contracts import p03

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.rl_utils.spaces']
P = 'P05'


def vec(c, backend, stateful, T, E, pre='A'):
    core = c.mod('mushroom_rl.core')
    d, m = 2, 1
    lib = 'torch' if backend == 'torch' else 'np'
    A = dict(state=c.array(pre + 's', (T, E, d), lib=lib), action=c.array(pre + 'a', (T, E, m), lib=lib),
             reward=c.array(pre + 'r', (T, E), lib=lib), next_state=c.array(pre + 'n', (T, E, d), lib=lib),
             absorbing=c.array(pre + 'b', (T, E), 'bool', lib=lib), last=c.array(pre + 'l', (T, E), 'bool', lib=lib))
    if stateful:
        A['policy_state'] = c.array(pre + 'p', (T, E, 1), lib=lib)
        A['policy_next_state'] = c.array(pre + 'q', (T, E, 1), lib=lib)
    M = c.array(pre + 'mask', (T, E), 'bool', lib=lib)
    return A, M


def build(c, backend, stateful, T, E, cap, A, M):
    core = c.mod('mushroom_rl.core.dataset')
    info = p03.spaces(c, 2, 1, backend)
    ds = core.VectorizedDataset.generate(info, p03.AgentInfo((1,) if stateful else None), n_steps=cap, n_envs=E)
    if c.symbolic and not isinstance(T, int):
        from pydv.core import Unsupported
        for k, v in list(A.items()) + [('mask', M)]:
            a = getattr(ds._data, dict(p03.INTERNAL, mask='_mask')[k], None)
            if a is None:
                raise Unsupported('dataset field of ' + k + ' not found')
            a[:T] = v
        ds._data._len = T
    else:
        for t in range(T):
            ds.append_vectorized(tuple(A[f][t] for f in A), {}, M[t])
    return ds


def flat(c, M, T, k):
    """active flag of the k-th step when the steps are listed environment by environment"""
    if not c.symbolic:
        return bool(M[k % T, k // T])
    E = M.shape[1]
    v = c.at(M, k - (E - 1) * T, E - 1)
    for e in range(E - 2, -1, -1):
        v = c.ite(c.lt(k, (e + 1) * T), c.at(M, k - e * T, e), v)
    return v


def make(backend, stateful):
    tag = backend + ('_stateful' if stateful else '')

    def setup(c, extra=0):
        T, E = c.size('T', 1), c.choice('E', [2, 3])
        A, M = vec(c, backend, stateful, T, E)
        ds = build(c, backend, stateful, T, E, T + extra, A, M)
        return T, E, A, M, ds

    def before(c, M, T, t, e):
        """active steps that come before step t of environment e, environment by environment"""
        return c.sum(e * T + t, lambda k: c.ite(flat(c, M, T, k), 1, 0))

    @harness(P, 'flatten_' + tag)
    def flatten(c):
        T, E, A, M, ds = setup(c, 1)
        th = [c.real('th0'), c.real('th1')]
        A0 = {k: c.copy(v) for k, v in A.items()}
        fl = ds.flatten()
        total = c.sum(E * T, lambda k: c.ite(flat(c, M, T, k), 1, 0))
        c.ensure_eq('active-steps', lambda: p03.len_(c, fl), total)
        for f in p03.fieldsof(stateful):
            arr = getattr(fl, f)
            if len(arr.shape) == 1:
                c.ensure_all(f, (T, E), lambda t, e: c.implies(c.at(M, t, e), lambda: c.eq(
                    c.at(arr, before(c, M, T, t, e)),
                    c.at(A0[f], t, e) if f != 'last' else c.or_(c.at(A0[f], t, e), c.eq(t, T - 1)))))
            else:
                c.ensure_all(f, (T, E, A0[f].shape[2]), lambda t, e, j: c.implies(c.at(M, t, e), lambda: c.eq(
                    c.at(arr, before(c, M, T, t, e), j), c.at(A0[f], t, e, j))))

    @harness(P, 'flatten_first_steps_' + tag)
    def flatten_n(c):
        T, E, A, M, ds = setup(c)
        total = c.sum(E * T, lambda k: c.ite(flat(c, M, T, k), 1, 0))
        n = c.int('steps', 1)
        c.assume(c.le(n, total))
        fl = ds.flatten(n)
        c.ensure_eq('requested-steps', lambda: p03.len_(c, fl), n)
        for f in p03.fieldsof(stateful):
            arr = getattr(fl, f)
            if len(arr.shape) == 1 and f != 'last':
                c.ensure_all(f, (T, E), lambda t, e: c.implies(c.and_(c.at(M, t, e), c.lt(before(c, M, T, t, e), n)), lambda: c.eq(
                    c.at(arr, before(c, M, T, t, e)), c.at(A[f], t, e))))
            elif f != 'last':
                c.ensure_all(f, (T, E, A[f].shape[2]), lambda t, e, j: c.implies(
                    c.and_(c.at(M, t, e), c.lt(before(c, M, T, t, e), n)), lambda: c.eq(
                        c.at(arr, before(c, M, T, t, e), j), c.at(A[f], t, e, j))))

    @harness(P, 'append_' + tag)
    def append(c):
        T, E = c.size('T', 1), c.choice('E', [2, 3])
        A, M = vec(c, backend, stateful, T, E)
        ds = build(c, backend, stateful, T, E, T + 1, A, M)
        B, N = vec(c, backend, stateful, 1, E, 'B')
        ds.append_vectorized(tuple(B[f][0] for f in B), {}, N[0])
        c.ensure_eq('rows', lambda: p03.len_(c, ds), T + 1)
        got = ds.mask
        c.ensure_all('mask', (T + 1, E), lambda t, e: c.eq(c.at(got, t, e), c.ite(c.lt(t, T), lambda: c.at(M, t, e), lambda: c.at(N, 0, e))))
        for f in p03.fieldsof(stateful):
            arr = getattr(ds, f)
            tail = arr.shape[2:]
            c.ensure_all(f, (T + 1, E) + tuple(tail), lambda t, e, *j: c.eq(
                c.at(arr, t, e, *j), c.ite(c.lt(t, T), lambda: c.at(A[f], t, e, *j), lambda: c.at(B[f], 0, e, *j))))
        c.ensure('single-append-rejected', c.raises(RuntimeError, lambda: ds.append(tuple(B[f][0] for f in B), {})))

    @harness(P, 'clear_' + tag)
    def clear(c):
        T, E, A, M, ds = setup(c)
        ds.clear()
        c.ensure_eq('empty', lambda: p03.len_(c, ds), 0)
        B, N = vec(c, backend, stateful, 1, E, 'B')
        ds.append_vectorized(tuple(B[f][0] for f in B), {}, N[0])
        c.ensure_eq('rows', lambda: p03.len_(c, ds), 1)
        c.ensure_all('reward', (E,), lambda e: c.eq(c.at(ds.reward, 0, e), c.at(B['reward'], 0, e)))
        c.ensure_all('mask', (E,), lambda e: c.eq(c.at(ds.mask, 0, e), c.at(N, 0, e)))

    @harness(P, 'clear_residual_' + tag)
    def residual(c):
        """all environments active; up to two rows of extra steps (the vectorized core keeps less than one)"""
        T, E = c.size('T', 1), c.choice('E', [2, 3])
        A, M = vec(c, backend, stateful, T, E)
        c.assume_all((T, E), lambda t, e: c.at(M, t, e)) if c.symbolic else M.fill_(True) if backend == 'torch' else M.fill(True)
        cap = T + c.int('spare', 0, 3)
        ds = build(c, backend, stateful, T, E, cap, A, M)
        extra = c.choice('extra', [1, 2, 3, 4, 5, 6])
        rows = -(-extra // E)
        c.assume(c.and_(extra <= 2 * E, c.le(rows, T)))
        c.trust('the number of active steps of a full mask is rows times environments') if c.symbolic else None
        if c.symbolic:
            c.assume(c.eq(c.at(ds.mask.sum()), T * E))
        ds.clear(T * E - extra)
        c.ensure_eq('rows-kept', lambda: p03.len_(c, ds), rows)
        c.ensure_all('residual-mask', (rows, E), lambda k, e: c.eq(c.at(ds.mask, k, e), c.lt(k * E + e, extra)))
        for f in p03.fieldsof(stateful):
            arr = getattr(ds, f)
            tail = arr.shape[2:]
            c.ensure_all('residual-' + f, (rows, E) + tuple(tail), lambda k, e, *j: c.eq(c.at(arr, k, e, *j), c.at(A[f], T - rows + k, e, *j)))


for b in ('numpy', 'torch'):
    for st in (False, True):
        make(b, st)


@harness(P, 'policy_parameters')
def thetas(c):
    E = c.choice('E', [2, 3])
    A, M = vec(c, 'numpy', False, 1, E)
    ds = build(c, 'numpy', False, 1, E, 3, A, M)
    mask1 = [c.bool(f'm{e}') for e in range(E)]
    t1 = [c.real(f't{e}') for e in range(E)]
    t2 = [c.real(f'u{e}') for e in range(E)]
    ds.append_theta_vectorized(t1, mask1)
    ds.append_theta_vectorized(t2, [True] * E)
    fl = ds.flatten()
    want = []
    for e in range(E):
        if mask1[e]:
            want.append(t1[e])
        want.append(t2[e])
    c.ensure_eq('count', len(fl.theta_list), len(want))
    for x, y in zip(fl.theta_list, want):
        c.ensure_eq('grouped-by-environment', x, y)
    ds.clear()
    ds.append_theta_vectorized(t1, [True] * E)
    ds.append_vectorized(tuple(A[f][0] for f in A), {}, M[0])
    fl = ds.flatten()
    c.ensure_eq('cleared', len(fl.theta_list), E)


@harness(P, 'residual_is_unused')
def unused(c):
    """two environments, two rows, three of the four steps fitted: the step kept must be the fourth"""
    A, M = vec(c, 'numpy', False, 2, 2)
    if c.symbolic:
        c.assume_all((2, 2), lambda t, e: c.at(M, t, e))
    else:
        M.fill(True)
    ds = build(c, 'numpy', False, 2, 2, 4, A, M)
    fl = ds.flatten(3)
    ds.clear(3)
    used_last_row = [True, False]          # steps are fitted environment by environment
    c.ensure('kept-steps-were-not-fitted', lambda: c.and_(*[c.eq(c.at(ds.mask, p03.len_(c, ds) - 1, e), not used_last_row[e]) for e in range(2)]))


def stepinfo(backend):
    lib = 'torch' if backend == 'torch' else 'np'

    @harness(P, 'step_information_' + backend)
    def info(c):
        """the information of a step stays with the step: kept, dropped and cut with it"""
        T, E = c.size('T', 1), c.choice('E', [2, 3])
        A, M = vec(c, backend, False, T, E)
        d = c.size('d', 1)
        X, Y = c.array('X', (T, E, d), lib=lib), c.array('Y', (T, E), lib=lib)
        if c.symbolic:
            from pydv.core import Unsupported
            ds = build(c, backend, False, T, E, T + 1, A, M)
            e = ds._info
            e.append({'x': c.copy(X[0]), 'in': {'y': c.copy(Y[0])}})
            e.parse()
            if not (set(getattr(e, '_structured_storage', ())) == {'x', 'in_y'} == set(e.data)):
                raise Unsupported('storage of the information not found')
            for k, v in (('x', X), ('in_y', Y)):
                e._structured_storage[k] = c.copy(v)
                e.data[k] = e._structured_storage[k]
        else:
            ds = build(c, backend, False, 0, E, T + 1, A, M)
            for t in range(T):
                ds.append_vectorized(tuple(A[f][t] for f in A), {'x': c.copy(X[t]), 'in': {'y': c.copy(Y[t])}}, M[t])

        def before(t, e):
            return c.sum(e * T + t, lambda k: c.ite(flat(c, M, T, k), 1, 0))
        total = c.sum(E * T, lambda k: c.ite(flat(c, M, T, k), 1, 0))
        c.assume(c.le(1, total))
        n = total
        if c.bool('cut'):
            n = c.int('steps', 1)
            c.assume(c.le(n, total))
            fl = ds.flatten(n)
        else:
            fl = ds.flatten()

        def check(tag, flat, n, off=0):
            inf = flat.info
            inf.parse()
            c.ensure_eq(tag + 'steps', lambda: p03.len_(c, flat), off + n)
            c.ensure_shape(tag + 'one-information-per-step', inf['x'], (off + n, d))
            c.ensure_shape(tag + 'one-nested-information-per-step', inf['in_y'], (off + n,))
            c.ensure_all(tag + 'information-of-the-step', (T, E, d), lambda t, e, j: c.implies(
                c.and_(c.at(M, t, e), c.lt(before(t, e), n)), lambda: c.eq(c.at(inf['x'], off + before(t, e), j), c.at(X, t, e, j))))
            c.ensure_all(tag + 'nested-information-of-the-step', (T, E), lambda t, e: c.implies(
                c.and_(c.at(M, t, e), c.lt(before(t, e), n)), lambda: c.eq(c.at(inf['in_y'], off + before(t, e)), c.at(Y, t, e))))
        check('flat-', fl, n)
        if c.bool('join'):
            check('joined-', fl + fl, n, n)


for b in ('numpy', 'torch'):
    stepinfo(b)
