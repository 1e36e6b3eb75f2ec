"""P02 - the vectorized interaction loop: which environments run, what is recorded and when it is fitted."""
from pydv.ctx import harness

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.core.vectorized_core', 'mushroom_rl.policy', 'mushroom_rl.rl_utils.spaces']
P = 'P02'
LOOP = 'mushroom_rl.core.vectorized_core.VectorCore._run#0'


class Ghost:
    _pydv_ghost = True


def world(c, mode, n, per_fit=None, preproc=False, init=None):
    core = c.mod('mushroom_rl.core')
    corem = c.mod('mushroom_rl.core.vectorized_core')
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    R = range(n)
    H = c.int('horizon', 1, None)
    pre = c.func('preprocess', 1)
    seen = (lambda v: pre(v)) if preproc else (lambda v: v)
    g = Ghost()
    g.steps = g.eps = g.sf_steps = g.sf_eps = g.fits = g.cb = g.cbs = g.rows = g.resets = g.stops = g.agent_stops = g.thetas = 0
    g.theta = None
    g.flat = False
    g.active = [False] * n
    g.last = [False] * n
    for a in ('raw', 'prev', 'ps', 'pps', 'act', 'rew', 'absorbing', 'ep'):
        setattr(g, a, [None] * n)
    g.ep = [0] * n
    g.raw = [c.fresh('obs') for _ in R]
    g.started = [0] * n
    N = c.size('n_steps', 1) if mode == 'steps' else None
    M = None if mode != 'episodes' else c.size('n_episodes', 1) if init is None else init.shape[0]
    k_fit = c.size('per_fit', 1) if per_fit else None

    def col(v):
        return c.np.array([[x] for x in v])

    def on(mask, i):
        return bool(c.at(mask, i))

    class Env(core.VectorizedEnvironment):
        def __init__(self):
            super().__init__(core.MDPInfo(sp.Box(-1., 1., shape=(1,)), sp.Box(-1., 1., shape=(1,)), .9, H), n)

        def reset_all(self, mask, state=None):
            if init is None:
                c.ensure('no-initial-state', state is None)
            for i in R:
                if on(mask, i):
                    if init is not None:
                        c.ensure_eq('initial-states-in-order', lambda: c.at(state, i, 0), c.at(init, g.resets, 0))
                    g.resets = g.resets + 1
                    c.ensure('reset-only-between-episodes', not g.active[i])
                    g.active = [True if j == i else g.active[j] for j in R]
                    g.ep = [0 if j == i else g.ep[j] for j in R]
                    g.raw = [c.fresh('obs') if j == i else g.raw[j] for j in R]
            return col(g.raw), [{} for _ in R]

        def step_all(self, mask, action):
            raw, rew, ab, last, act, ep = list(g.raw), [], [], [], [], []
            c.ensure('some-environment-runs', any(g.active))
            for i in R:
                m = on(mask, i)
                c.ensure('exactly-the-running-environments-step', m == g.active[i])
                if m:
                    c.ensure_eq('executes-the-drawn-action', lambda: c.at(action, i, 0), g.act[i])
                    raw[i] = c.fresh('obs')
                    ab.append(bool(c.fresh('absorbing', 'bool')))
                    ep.append(g.ep[i] + 1)
                    last.append(bool(c.or_(ab[i], c.le(H, ep[i]))))
                    act.append(not last[i])
                else:
                    ab.append(False)
                    last.append(False)
                    act.append(False)
                    ep.append(g.ep[i])
                rew.append(c.fresh('rew'))
            g.steps = g.steps + sum(1 for x in g.active if x)
            g.prev = [seen(x) for x in g.raw]
            g.ran = list(g.active)
            g.raw, g.rew, g.absorbing, g.last, g.active, g.ep = raw, rew, ab, last, act, ep
            return col(raw), c.np.array(rew), c.np.array(ab), [{} for _ in R]

        def stop(self):
            g.stops = g.stops + 1
    g.ran = [False] * n

    class Pre:
        def update(self, s):
            c.ensure('statistics-see-the-states', lambda: c.and_(*[c.eq(c.at(s, i, 0), g.raw[i]) for i in R]))

        def __call__(self, s):
            return c.np.array([[pre(c.at(s, i, 0))] for i in R])

    class Pol(c.mod('mushroom_rl.policy').Policy):
        def __init__(self):
            super().__init__(policy_state_shape=(1,))

        def reset(self):
            # fresh policy states; only those of the environments that start are taken
            new = [c.fresh('ps') for _ in R]
            g.ps = [new[i] if g.active[i] and bool(c.eq(g.ep[i], 0)) else g.ps[i] for i in R]
            return col(new)

        def draw_action(self, state, policy_state):
            for i in R:
                if g.active[i]:
                    c.ensure_eq('acts-on-the-current-observation', lambda: c.at(state, i, 0), seen(g.raw[i]))
                    c.ensure_eq('threads-the-policy-state', lambda: c.at(policy_state, i, 0), g.ps[i])
            if per_fit:
                c.ensure('fit-not-overdue', lambda: c.lt(g.sf_steps if per_fit == 'steps' else g.sf_eps, k_fit))
            g.act = [c.fresh('act') for _ in R]
            g.pps, g.ps = g.ps, [c.fresh('ps') for _ in R]
            return col(g.act), col(g.ps)

    class Agent(core.Agent):
        def fit(self, dataset):
            c.ensure('fits-only-when-learning', per_fit is not None)
            c.ensure('fits-on-the-flattened-data', dataset is flat)
            if per_fit == 'steps':
                c.ensure('fits-exactly-when-due', lambda: c.and_(c.le(k_fit, g.sf_steps), c.lt(g.sf_steps, k_fit + n)))
                c.ensure('asks-for-the-steps-per-fit', lambda: c.eq(g.flat_arg, k_fit))
            else:
                c.ensure('fits-exactly-when-due', lambda: c.eq(g.sf_eps, k_fit))
                c.ensure('fits-on-whole-episodes', not any(g.active))
                c.ensure('asks-for-everything', g.flat_arg is None)
            g.fits = g.fits + 1

        def episode_start_vectorized(self, initial_states, episode_info, start_mask):
            ps, _ = super().episode_start_vectorized(initial_states, episode_info, start_mask)
            g.theta = Ghost()
            return ps, g.theta

        def stop(self):
            g.agent_stops = g.agent_stops + 1
    g.flat_arg = None
    flat = Ghost()

    class Data:
        _pydv_ghost = True

        def append_vectorized(self, sample, infos, mask):
            c.ensure('record-shape', len(sample) == 8)
            for i in R:
                c.ensure('records-the-mask', on(mask, i) == g.ran[i])
                if not g.ran[i]:
                    continue
                for nm, v, w in (('state', sample[0], g.prev), ('action', sample[1], g.act), ('reward', sample[2], g.rew),
                                 ('next-state', sample[3], [seen(x) for x in g.raw]), ('policy-state', sample[6], g.pps),
                                 ('policy-next-state', sample[7], g.ps)):
                    x = c.at(v, i) if len(v.shape) == 1 else c.at(v, i, 0)
                    c.ensure_eq('records-' + nm, x, w[i])
                c.ensure('records-absorbing', bool(c.at(sample[4], i)) == g.absorbing[i])
                c.ensure('records-last', bool(c.at(sample[5], i)) == g.last[i])
            g.rows = g.rows + sum(1 for x in g.ran if x)
            e = sum(1 for i in R if g.ran[i] and g.last[i])
            g.sf_steps = g.sf_steps + sum(1 for x in g.ran if x)
            g.sf_eps = g.sf_eps + e
            g.eps = g.eps + e

        def append_theta_vectorized(self, t, mask):
            c.ensure('records-the-drawn-parameters', t is g.theta)
            for i in R:
                c.ensure('records-parameters-of-starting-episodes', on(mask, i) == (g.active[i] and bool(c.eq(g.ep[i], 0))))
                if on(mask, i):
                    g.thetas = g.thetas + 1

        def flatten(self, n_steps=None):
            g.flat_arg = n_steps
            return flat

        def clear(self, n_steps=None):
            if per_fit == 'steps':
                c.ensure('keeps-the-steps-not-asked-for', lambda: c.eq(n_steps, k_fit))
            else:
                c.ensure('clears-everything', n_steps is None)
            g.sf_steps = g.sf_eps = 0
    data = Data()

    def cb_fit(ds):
        c.ensure('callback-gets-the-dataset', ds is data)
        g.cb = g.cb + 1

    def cb_step(sample):
        g.cbs = g.cbs + 1
    env = Env()
    agent = Agent(env.info, Pol(), is_episodic=True)
    if preproc:
        agent.add_core_preprocessor(Pre())
    c.stub(corem, 'VectorizedDataset', type('DatasetStub', (), {'generate': staticmethod(lambda *a, **k: data)}))
    c.stub(corem.VectorCore, '_build_recorder_class', lambda self, *a, **k: None)
    cr = corem.VectorCore(agent, env, callbacks_fit=[cb_fit], callback_step=cb_step)

    def havoc(L, e_):
        for a in ('steps', 'eps', 'sf_steps', 'sf_eps', 'fits', 'cb', 'cbs', 'rows', 'resets', 'thetas'):
            L.havoc_attr(g, a, L.int(a, 0))
        L.havoc_attr(g, 'ep', [L.int('ep', 0) for _ in R])
        for a in ('raw', 'prev', 'ps', 'pps', 'act', 'rew'):
            L.havoc_attr(g, a, [L.real(a) for _ in R])
        run = [bool(L.bool('running')) for _ in R]      # the environments of the last step
        last = [bool(L.bool('last')) for _ in R]
        start = bool(L.bool('start'))                   # nothing runs: beginning, or episodes were just fitted
        if start:
            last, act = [True] * n, [False] * n
            run = [False] * n
        else:
            last = [run[i] and last[i] for i in R]
            act = [run[i] and not last[i] for i in R]
        L.havoc_attr(g, 'active', act)
        for a in ('last', 'absorbing', 'ran', 'flat_arg', 'theta'):
            L.allow_attr(g, a)
        cl = cr._core_logic
        L.havoc_attr(cl, '_running_envs', c.np.array(run))
        L.havoc_attr(cr, '_state', c.np.array([[L.real('state')] for _ in R]))
        L.havoc_attr(cr, '_policy_state', c.np.array([[L.real('ps')] for _ in R]))
        L.havoc_attr(cr, '_episode_steps', c.np.array([L.int('eps', 0) for _ in R]))
        L.allow_attr(agent, 'next_action')
        for a in ('_total_episodes_counter', '_total_steps_counter', '_current_episodes_counter', '_current_steps_counter'):
            L.havoc_attr(cl, a, L.int('cnt', 0))
        mask, last = c.np.array(run), c.np.array(last)
        L.allow_store(mask)
        L.allow_store(last)
        return {'last': last, 'mask': mask}

    def inv(e, k):
        cl = cr._core_logic
        lastv = [bool(c.at(e.last, i)) for i in R]
        run = [bool(c.at(cl._running_envs, i)) for i in R]
        nothing = not any(run)
        n_act = sum(1 for x in g.active if x)
        r = [('active', all(g.active[i] == (run[i] and not lastv[i]) for i in R)),
             ('last-only-where-it-ran', all((not lastv[i]) or run[i] or nothing for i in R)),
             ('all-start-when-nothing-runs', (not nothing) or all(lastv)),
             ('mask', nothing or any(lastv) or all(bool(c.at(e.mask, i)) == run[i] for i in R)),
             ('steps', c.and_(c.eq(cl._total_steps_counter, g.steps), c.eq(g.rows, g.steps))),
             ('episodes', c.eq(cl._total_episodes_counter, g.eps)),
             ('callbacks', c.eq(g.cb, g.fits)),
             ('resets', c.eq(g.resets, g.eps + n_act)),
             ('parameters', c.eq(g.thetas, g.resets)),
             ('no-pending-action', agent.next_action is None)]
        if per_fit:
            r += [('fit-steps', c.eq(cl._current_steps_counter, g.sf_steps)),
                  ('fit-episodes', c.eq(cl._current_episodes_counter, g.sf_eps)),
                  ('fit-due', c.lt(g.sf_steps if per_fit == 'steps' else g.sf_eps, k_fit))]
        else:
            r.append(('never-fitted', c.eq(g.fits, 0)))
        if mode == 'steps':
            r.append(('within-steps', c.lt(g.steps, N + n)))
        else:
            r.append(('within-episodes', c.le(g.eps + n_act, M)))
        if per_fit == 'episodes':
            r.append(('within-fit-episodes', c.le(g.sf_eps + n_act, k_fit)))
        for i in R:
            if g.active[i]:
                r.append((f'in-episode-{i}', c.and_(c.eq(c.at(cr._state, i, 0), seen(g.raw[i])), c.eq(c.at(cr._policy_state, i, 0), g.ps[i]),
                                                    c.eq(c.at(cr._episode_steps, i), g.ep[i]), c.le(1, g.ep[i]), c.lt(g.ep[i], H))))
            elif run[i] or not nothing:
                # a waiting environment never looks finished again
                r.append((f'waiting-{i}', c.or_(lastv[i], c.lt(c.at(cr._episode_steps, i), H))))
        return r
    c.loop(LOOP, havoc=havoc, inv=inv)
    return cr, g, flat, N, M, k_fit


def finish(c, g, mode, N, M, n):
    c.ensure_eq('parameters-of-every-episode', lambda: g.thetas, lambda: g.resets)
    if mode == 'steps':
        c.ensure('requested-steps-reached-without-a-further-round', lambda: c.and_(c.le(N, g.steps), c.lt(g.steps, N + n)))
    else:
        c.ensure_eq('exact-number-of-episodes', lambda: g.eps, M)
        c.ensure('ends-on-episode-boundary', lambda: not any(g.active))
    c.ensure_eq('everything-recorded', lambda: g.rows, lambda: g.steps)
    c.ensure_eq('fit-callbacks', lambda: g.cb, lambda: g.fits)
    c.ensure('stopped-once', lambda: c.and_(c.eq(g.stops, 1), c.eq(g.agent_stops, 1)))


def evaluate(c, mode, n, preproc=False):
    cr, g, flat, N, M, _ = world(c, mode, n, preproc=preproc)
    r = cr.evaluate(n_steps=N, n_episodes=M, quiet=True)
    c.ensure('returns-the-flattened-dataset', r is flat)
    finish(c, g, mode, N, M, n)


def learn(c, mode, per_fit, n):
    cr, g, flat, N, M, k = world(c, mode, n, per_fit=per_fit)
    cr.learn(n_steps=N, n_episodes=M, quiet=True,
             **({'n_steps_per_fit': k} if per_fit == 'steps' else {'n_episodes_per_fit': k}))
    finish(c, g, mode, N, M, n)
    c.ensure('no-due-fit-left', lambda: c.lt(g.sf_steps if per_fit == 'steps' else g.sf_eps, k))


for _n in (2, 3):
    for _m in ('steps', 'episodes'):
        _kw = dict(thorough=True) if _n == 3 else {}
        harness(P, f'evaluate_{_m}_{_n}envs', **_kw)(lambda c, _m=_m, _n=_n: evaluate(c, _m, _n))
        for _f in ('steps', 'episodes'):
            harness(P, f'learn_{_m}_fit_{_f}_{_n}envs', **_kw)(lambda c, _m=_m, _f=_f, _n=_n: learn(c, _m, _f, _n))
harness(P, 'evaluate_steps_preprocessor')(lambda c: evaluate(c, 'steps', 2, True))


@harness(P, 'evaluate_initial_states')
def initial(c):
    m = c.size('n_initial', 1)
    S = c.array('initial', (m, 1))
    cr, g, flat, N, M, _ = world(c, 'episodes', 2, init=S)
    r = cr.evaluate(initial_states=S, quiet=True)
    c.ensure('returns-the-flattened-dataset', r is flat)
    finish(c, g, 'episodes', N, M, 2)


@harness(P, 'evaluate_after_learning')
def after_learning(c):
    cr, g, flat, N, M, _ = world(c, 'episodes', 2)
    k = c.size('previous_fit', 1)
    by_steps = c.bool('by_steps')
    if not hasattr(cr, '_core_logic'):
        from pydv.core import Unsupported
        raise Unsupported('core logic not found')
    if by_steps:
        cr._core_logic.initialize_learn(k, None)
    else:
        cr._core_logic.initialize_learn(None, k)
    cr.evaluate(n_steps=N, n_episodes=M, quiet=True)
    finish(c, g, 'episodes', N, M, 2)


@harness(P, 'rejects_ambiguous_requests')
def ambiguous(c):
    n, m = c.size('n', 1), c.size('m', 1)
    cr, g, *_ = world(c, 'none', 2)
    calls = [lambda: cr.evaluate(n_steps=n, n_episodes=m, quiet=True),
             lambda: cr.evaluate(quiet=True),
             lambda: cr.learn(n_steps=n, n_steps_per_fit=n, n_episodes_per_fit=m, quiet=True),
             lambda: cr.learn(n_steps=n, quiet=True),
             lambda: cr.learn(n_steps=n, n_episodes=m, n_steps_per_fit=n, quiet=True)]
    c.ensure('rejected', c.raises(AssertionError, c.choice('call', calls)))
    c.ensure('nothing-executed', lambda: c.eq(g.steps, 0))
