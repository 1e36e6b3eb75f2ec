"""P01 - the interaction loop: what is executed, recorded and fitted, for every environment and agent."""
from pydv.ctx import harness

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.core.core', 'mushroom_rl.policy', 'mushroom_rl.rl_utils.spaces']
P = 'P01'
LOOP = 'mushroom_rl.core.core.Core._run#0'


class Ghost:
    _pydv_ghost = True


def tokarr(c, v):
    return c.np.array([v])


def world(c, mode, per_fit=None, horizon=True, init_states=None, preproc=True, episodic=False, record=False):
    core = c.mod('mushroom_rl.core')
    corem = c.mod('mushroom_rl.core.core')
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    H = c.int('horizon', 1, None) if horizon else float('inf')
    pre = c.func('preprocess', 1)
    g = Ghost()
    g.steps = g.eps = g.ep_steps = g.resets = g.sf_steps = g.sf_eps = g.fits = g.updates = g.obs_n = g.cb = 0
    g.appended = g.stops = g.agent_stops = g.started = 0
    g.active, g.need_clear = False, False
    g.thetas = g.shown = g.rec = g.rec_stops = 0
    g.theta = g.sinfo = g.einfo = g.frame = None
    g.recorders = []
    g.obs = g.ps = g.act = g.rew = g.nobs = g.nps = g.last = g.absorbing = g.raw = g.fresh_ep = None
    N = c.size('n_steps', 1) if mode == 'steps' else None
    M = c.size('n_episodes', 1) if mode == 'episodes' else None
    k_fit = c.size('per_fit', 1) if per_fit else None

    render, rec = bool(record), record == 'record'

    class Env(core.Environment):
        def __init__(self):
            super().__init__(core.MDPInfo(sp.Box(-1., 1., shape=(1,)), sp.Box(-1., 1., shape=(1,)), .9, H))

        def reset(self, state=None):
            c.ensure('reset-only-between-episodes', c.not_(g.active))
            if init_states is None:
                c.ensure('no-initial-state', state is None)
            else:
                c.ensure('initial-state-in-order', lambda: c.eq(c.at(state, 0), c.at(init_states, g.resets, 0)))
            g.resets = g.resets + 1
            g.raw = c.fresh('obs')
            g.obs_n = g.obs_n + 1
            g.active, g.fresh_ep = True, True
            g.ep_steps = 0
            g.einfo = {'start': g.raw}
            return tokarr(c, g.raw), g.einfo

        def step(self, action):
            c.ensure('step-inside-an-episode', g.active)
            c.ensure_eq('executes-the-drawn-action', lambda: c.at(action, 0), g.act)
            g.raw = c.fresh('obs')
            g.obs_n = g.obs_n + 1
            g.rew = c.fresh('rew')
            g.absorbing = c.fresh('absorbing', 'bool')
            g.steps = g.steps + 1
            g.ep_steps = g.ep_steps + 1
            g.last = c.or_(g.absorbing, c.le(H, g.ep_steps)) if horizon else g.absorbing
            g.active = c.not_(g.last)
            g.sinfo = {'k': g.rew}
            return tokarr(c, g.raw), g.rew, g.absorbing, g.sinfo

        def render(self, record=False):
            c.ensure('renders-only-if-asked', render)
            c.ensure('asks-for-frames-to-record', record is rec)
            g.shown = g.shown + 1
            g.frame = c.fresh('frame')
            return tokarr(c, g.frame) if record else None

        def stop(self):
            g.stops = g.stops + 1

    class Pre:
        def update(self, s):
            c.ensure_eq('statistics-see-raw-observations', lambda: c.at(s, 0), g.raw)
            g.updates = g.updates + 1

        def __call__(self, s):
            c.ensure_eq('preprocess-each-observation', lambda: c.at(s, 0), g.raw)
            return tokarr(c, pre(c.at(s, 0)))

    seen = (lambda v: pre(v)) if preproc else (lambda v: v)

    class Pol(c.mod('mushroom_rl.policy').Policy):
        def __init__(self):
            super().__init__(policy_state_shape=(1,))

        def reset(self):
            c.ensure('policy-reset-at-episode-start', c.and_(g.active, c.eq(g.ep_steps, 0)))
            g.ps = c.fresh('ps')
            g.started = g.started + 1
            return tokarr(c, g.ps)

        def draw_action(self, state, policy_state):
            c.ensure('acts-inside-an-episode', g.active)
            c.ensure_eq('acts-on-the-current-observation', lambda: c.at(state, 0), seen(g.raw))
            c.ensure_eq('threads-the-policy-state', lambda: c.at(policy_state, 0), g.ps)
            c.ensure('one-reset-per-episode', lambda: c.eq(g.started, g.resets))
            if per_fit:
                c.ensure('fit-not-overdue', lambda: c.lt(g.sf_steps if per_fit == 'steps' else g.sf_eps, k_fit))
            g.obs = seen(g.raw)
            g.act = c.fresh('act')
            g.pps, g.ps = g.ps, c.fresh('ps')
            return tokarr(c, g.act), tokarr(c, g.ps)
    g.pps = None

    class Agent(core.Agent):
        def episode_start(self, initial_state, episode_info):
            c.ensure_eq('episode-starts-in-the-observation-of-the-reset', lambda: c.at(initial_state, 0), g.raw)
            c.ensure('episode-starts-with-the-information-of-the-reset', episode_info is g.einfo)
            p, _ = super().episode_start(initial_state, episode_info)
            g.theta = c.fresh('theta')
            return p, g.theta

        def fit(self, dataset):
            c.ensure('fits-only-when-learning', per_fit is not None)
            if per_fit:
                c.ensure('fits-on-the-collected-data', dataset is data)
                c.ensure('fits-exactly-when-due', lambda: c.eq(g.sf_steps if per_fit == 'steps' else g.sf_eps, k_fit))
                if per_fit == 'episodes':
                    c.ensure('fits-on-whole-episodes', c.not_(g.active))
            g.fits = g.fits + 1
            g.need_clear = True

        def stop(self):
            g.agent_stops = g.agent_stops + 1

    class Info:
        def parse(self):
            pass

    class Data:
        _pydv_ghost = True
        info, episode_info = Info(), Info()

        def append(self, sample, info):
            c.ensure('information-of-this-step', info is g.sinfo)
            c.ensure('record-shape', len(sample) in (6, 8))
            for nm, v, w in (('state', sample[0], g.obs), ('action', sample[1], g.act), ('reward', sample[2], g.rew),
                             ('next-state', sample[3], seen(g.raw)), ('absorbing', sample[4], g.absorbing),
                             ('last', sample[5], g.last), ('policy-state', sample[6], g.pps),
                             ('policy-next-state', sample[7], g.ps)):
                x = v if c.scalar(v) else c.at(v, 0)
                c.ensure('records-' + nm, lambda: c.eq(c.or_(x), c.or_(w)) if nm in ('absorbing', 'last') else c.eq(x, w))
            g.appended = g.appended + 1
            g.sf_steps = g.sf_steps + 1
            g.sf_eps = g.sf_eps + c.ite(g.last, 1, 0)
            g.eps = g.eps + c.ite(g.last, 1, 0)

        def append_theta(self, t):
            c.ensure('parameters-only-of-episodic-agents', episodic)
            c.ensure_eq('parameters-of-this-episode', lambda: t, g.theta)
            c.ensure('parameters-recorded-at-the-start', c.and_(g.active, c.eq(g.ep_steps, 0)))
            g.thetas = g.thetas + 1

        def clear(self):
            c.ensure('cleared-after-fit-only', g.need_clear)
            g.need_clear = False
            g.sf_steps = g.sf_eps = 0
    data = Data()

    def cb_fit(ds):
        c.ensure('callback-after-fit', c.and_(g.need_clear, ds is data))
        g.cb = g.cb + 1

    def cb_step(sample):
        c.ensure('step-callback-sees-the-sample', lambda: c.eq(c.at(sample[3], 0), seen(g.raw)))
        g.cbs = g.cbs + 1
    g.cbs = 0
    env = Env()
    agent = Agent(env.info, Pol(), is_episodic=episodic)
    if preproc:
        agent.add_core_preprocessor(Pre())
    sizes = []

    def generate(info, ainfo, n_steps=None, n_episodes=None, n_envs=1):
        c.ensure('dataset-of-this-environment-and-agent', info is env.info and ainfo is agent.info)
        sizes.append((n_steps, n_episodes))
        return data
    c.stub(corem, 'Dataset', type('DatasetStub', (), {'generate': staticmethod(generate)}))

    class Recorder:
        _pydv_ghost = True

        def __init__(self, **k):
            g.recorders.append(k)

        def __call__(self, frame):
            c.ensure('records-only-if-asked', rec)
            c.ensure_eq('records-the-frame-of-this-step', lambda: c.at(frame, 0), g.frame)
            g.rec = g.rec + 1

        def stop(self):
            g.rec_stops = g.rec_stops + 1
    cr = corem.Core(agent, env, callbacks_fit=[cb_fit], callback_step=cb_step,
                    **(dict(record_dictionary=dict(recorder_class=Recorder, tag='t')) if record else {}))

    def havoc(L, env_):
        for n in ('steps', 'eps', 'ep_steps', 'resets', 'sf_steps', 'sf_eps', 'fits', 'updates', 'obs_n', 'cb',
                  'appended', 'started', 'cbs', 'thetas', 'shown', 'rec'):
            L.havoc_attr(g, n, L.int(n, 0))
        for n in ('obs', 'ps', 'pps', 'act', 'rew', 'raw', 'theta', 'frame'):
            L.havoc_attr(g, n, L.real(n))
        for n in ('active', 'last', 'absorbing', 'fresh_ep'):
            L.havoc_attr(g, n, L.bool(n))
        for n in ('need_clear', 'sinfo', 'einfo'):
            L.allow_attr(g, n)
        cl = cr._core_logic
        L.havoc_attr(cr, '_state', tokarr(c, L.real('state')))
        L.havoc_attr(cr, '_policy_state', tokarr(c, L.real('pstate')))
        L.havoc_attr(cr, '_episode_steps', L.int('ep', 0))
        L.allow_attr(cr, '_current_theta')
        L.allow_attr(agent, 'next_action')
        for n in ('_total_episodes_counter', '_total_steps_counter', '_current_episodes_counter',
                  '_current_steps_counter'):
            L.havoc_attr(cl, n, L.int('cnt', 0))
        return {'last': L.bool('last')}

    def inv(e, k):
        cl = cr._core_logic
        last = e.last
        r = [('last-flag', c.eq(c.or_(last), c.not_(g.active))),
             ('steps', c.eq(cl._total_steps_counter, g.steps)),
             ('episodes', c.eq(cl._total_episodes_counter, g.eps)),
             ('fit-steps', c.eq(cl._current_steps_counter, g.sf_steps) if per_fit else True),
             ('fit-episodes', c.eq(cl._current_episodes_counter, g.sf_eps) if per_fit else True),
             ('recorded', c.eq(g.appended, g.steps)),
             ('one-update-per-observation', c.eq(g.updates, g.obs_n) if preproc else True),
             ('callbacks', c.and_(c.eq(g.cb, g.fits), c.eq(g.cbs, g.steps))),
             ('resets', c.and_(c.eq(g.resets, g.eps + c.ite(g.active, 1, 0)), c.eq(g.started, g.resets))),
             ('cleared', c.not_(g.need_clear)),
             ('parameters-recorded', c.eq(g.thetas, g.resets if episodic else 0)),
             ('frames', c.and_(c.eq(g.shown, g.steps if render else 0), c.eq(g.rec, g.steps if rec else 0))),
             ('no-pending-action', agent.next_action is None),
             ('in-episode', c.implies(g.active, lambda: c.and_(
                 c.eq(c.at(cr._state, 0), seen(g.raw)), c.eq(c.at(cr._policy_state, 0), g.ps),
                 c.eq(cr._episode_steps, g.ep_steps), c.le(1, g.ep_steps),
                 c.lt(g.ep_steps, H) if horizon else True))),
             ('no-pending-action', agent.next_action is None)]
        if mode == 'steps':
            r.append(('within-steps', c.le(g.steps, N)))
        else:
            n_ep = M if M is not None else init_states.shape[0]
            r.append(('within-episodes', c.and_(c.le(g.eps, n_ep), c.implies(c.eq(g.eps, n_ep), c.not_(g.active)))))
        if per_fit:
            r.append(('fit-due', c.lt(g.sf_steps if per_fit == 'steps' else g.sf_eps, k_fit)))
        else:
            r.append(('never-fitted', c.eq(g.fits, 0)))
        return r
    c.loop(LOOP, havoc=havoc, inv=inv)
    return cr, g, data, N, M, k_fit, sizes


def finish(c, g, mode, target, preproc=True, record=False, episodic=False):
    c.ensure('parameters-of-every-episode', lambda: c.eq(g.thetas, g.resets if episodic else 0))
    if mode == 'steps':
        c.ensure_eq('exact-number-of-steps', lambda: g.steps, target)
    else:
        c.ensure_eq('exact-number-of-episodes', lambda: g.eps, target)
        c.ensure('ends-on-episode-boundary', lambda: c.not_(g.active))
    c.ensure_eq('everything-recorded', lambda: g.appended, lambda: g.steps)
    c.ensure_eq('step-callbacks', lambda: g.cbs, lambda: g.steps)
    c.ensure_eq('fit-callbacks', lambda: g.cb, lambda: g.fits)
    if preproc:
        c.ensure_eq('one-preprocessor-update-per-observation', lambda: g.updates, lambda: g.obs_n)
    c.ensure('every-frame-recorded', lambda: c.eq(g.rec, g.steps if record == 'record' else 0))
    c.ensure('every-step-rendered', lambda: c.eq(g.shown, g.steps if record else 0))
    c.ensure('recording-closed-once', g.rec_stops == (1 if record == 'record' else 0))
    c.ensure('stopped-once', lambda: c.and_(c.eq(g.stops, 1), c.eq(g.agent_stops, 1)))


def evaluate(c, mode, horizon=True, preproc=True, **kw):
    cr, g, data, N, M, _, sizes = world(c, mode, horizon=horizon, preproc=preproc, **kw)
    if not horizon and not c.symbolic:
        pass
    rec = kw.get('record', False)
    r = cr.evaluate(n_steps=N, n_episodes=M, quiet=True, render=bool(rec), record=rec == 'record')
    c.ensure('returns-the-dataset', r is data)
    c.ensure('dataset-sized-for-the-run', lambda: len(sizes) == 1 and (
        c.eq(sizes[0][0], N) if mode == 'steps' else c.eq(sizes[0][1], M)))
    finish(c, g, mode, N if mode == 'steps' else M, preproc, **kw)
    if rec:
        c.ensure('recorder-options', len(g.recorders) == 1 and g.recorders[0].get('tag') == 't' and 'fps' in g.recorders[0])


def learn(c, mode, per_fit, **kw):
    cr, g, data, N, M, k, sizes = world(c, mode, per_fit=per_fit, **kw)
    rec = kw.get('record', False)
    cr.learn(n_steps=N, n_episodes=M, quiet=True, render=bool(rec), record=rec == 'record',
             **({'n_steps_per_fit': k} if per_fit == 'steps' else {'n_episodes_per_fit': k}))
    finish(c, g, mode, N if mode == 'steps' else M, **kw)
    c.ensure('dataset-sized-for-a-fit', lambda: len(sizes) == 1 and c.eq(sizes[0][0 if per_fit == 'steps' else 1], k) and sizes[0][1 if per_fit == 'steps' else 0] is None)
    c.ensure('no-due-fit-left', lambda: c.lt(g.sf_steps if per_fit == 'steps' else g.sf_eps, k))


for _m in ('steps', 'episodes'):
    harness(P, f'evaluate_{_m}')(lambda c, _m=_m: evaluate(c, _m))
    harness(P, f'evaluate_{_m}_no_horizon_no_preprocessor')(lambda c, _m=_m: evaluate(c, _m, False, False))
    for _f in ('steps', 'episodes'):
        harness(P, f'learn_{_m}_fit_{_f}')(lambda c, _m=_m, _f=_f: learn(c, _m, _f))


harness(P, 'evaluate_episodes_episodic')(lambda c: evaluate(c, 'episodes', episodic=True))
harness(P, 'learn_episodes_episodic')(lambda c: learn(c, 'episodes', 'episodes', episodic=True))
harness(P, 'evaluate_steps_render')(lambda c: evaluate(c, 'steps', record='render'))
harness(P, 'evaluate_steps_record')(lambda c: evaluate(c, 'steps', record='record'))
harness(P, 'learn_episodes_record')(lambda c: learn(c, 'episodes', 'steps', record='record'))


@harness(P, 'evaluate_initial_states')
def initial(c):
    n = c.size('n_initial', 1)
    S = c.array('initial', (n, 1))
    cr, g, data, N, M, _, sizes = world(c, 'init', init_states=S)
    r = cr.evaluate(initial_states=S, quiet=True)
    c.ensure('returns-the-dataset', r is data)
    finish(c, g, 'episodes', n)
    c.ensure('dataset-sized-for-the-run', lambda: len(sizes) == 1 and c.eq(sizes[0][1], n) and sizes[0][0] is None)


def rejects(c, **kw):
    cr, g, data, *_ = world(c, 'none', per_fit=None)
    c.ensure('rejected', c.raises(AssertionError, lambda: kw['f'](cr)))
    c.ensure('nothing-executed', lambda: c.eq(g.steps, 0))


@harness(P, 'rejects_ambiguous_requests')
def ambiguous(c):
    n, m = c.size('n', 1), c.size('m', 1)
    calls = [lambda cr: cr.evaluate(n_steps=n, n_episodes=m, quiet=True),
             lambda cr: cr.evaluate(quiet=True),
             lambda cr: cr.learn(n_steps=n, n_steps_per_fit=n, n_episodes_per_fit=m, quiet=True),
             lambda cr: cr.learn(n_steps=n, quiet=True),
             lambda cr: cr.evaluate(n_steps=n, quiet=True, record=True),
             lambda cr: cr.learn(n_steps=n, n_steps_per_fit=n, quiet=True, record=True),
             lambda cr: cr.learn(n_steps=n, n_episodes=m, n_steps_per_fit=n, quiet=True)]
    rejects(c, f=c.choice('call', calls))


@harness(P, 'agent_acts')
def agent_acts(c):
    """the agent: preprocessors in order, announced action once, backends converted"""
    core = c.mod('mushroom_rl.core')
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    info = core.MDPInfo(sp.Box(-1., 1., shape=(1,)), sp.Box(-1., 1., shape=(1,)), .9, 5)
    f, h = c.func('f', 1), c.func('h', 1)
    got = []

    class Pol(c.mod('mushroom_rl.policy').Policy):
        def draw_action(self, state, policy_state):
            got.append((state, policy_state))
            return c.np.array([7.]), c.np.array([8.])
    ag = core.Agent(info, Pol(policy_state_shape=(1,)))
    ag.add_agent_preprocessor(lambda s: tokarr(c, f(c.at(s, 0))))
    ag.add_agent_preprocessor(lambda s: tokarr(c, h(c.at(s, 0))))
    s, ps, a = c.array('s', (1,)), c.array('ps', (1,)), c.array('a', (1,))
    s0 = c.copy(s)
    announced = c.choice('announced', [False, True])
    if announced:
        ag.next_action = a
    x, y = ag.draw_action(s, ps)
    if announced:
        c.ensure('announced-action-first', len(got) == 0 and ag.next_action is None)
        c.ensure_eq('announced-action', lambda: c.at(x, 0), c.at(a, 0))
        x, y = ag.draw_action(s, ps)
    c.ensure('one-draw', len(got) == 1)
    c.ensure_eq('preprocessed-in-order', lambda: c.at(got[0][0], 0), h(f(c.at(s0, 0))))
    c.ensure_eq('policy-state-passed', lambda: c.at(got[0][1], 0), c.at(ps, 0))
    c.ensure('action-of-the-policy', c.eq(c.at(x, 0), 7.))
    c.ensure('next-policy-state', c.eq(c.at(y, 0), 8.))


@harness(P, 'core_preprocessors_in_order')
def pre_order(c):
    core = c.mod('mushroom_rl.core')
    corem = c.mod('mushroom_rl.core.core')
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    info = core.MDPInfo(sp.Box(-1., 1., shape=(1,)), sp.Box(-1., 1., shape=(1,)), .9, 5)
    f, h = c.func('f', 1), c.func('h', 1)
    log = []

    class Pre:
        def __init__(self, n, q): self.n, self.q = n, q
        def update(self, s): log.append((self.n, 'update', c.at(s, 0)))

        def __call__(self, s):
            log.append((self.n, 'apply', c.at(s, 0)))
            return tokarr(c, self.q(c.at(s, 0)))
    ag = core.Agent(info, c.mod('mushroom_rl.policy').Policy())
    ag.add_core_preprocessor(Pre(0, f))
    ag.add_core_preprocessor(Pre(1, h))
    env = core.Environment(info)
    cr = corem.Core(ag, env)
    s = c.array('s', (1,))
    v = c.at(s, 0)
    r = cr._preprocess(s)
    c.ensure('each-updated-then-applied', [e[:2] for e in log] == [(0, 'update'), (0, 'apply'), (1, 'update'), (1, 'apply')])
    for k, w in enumerate((v, v, f(v), f(v))):
        c.ensure_eq('sees-the-output-of-the-previous-one', lambda: log[k][2], w)
    c.ensure_eq('result', lambda: c.at(r, 0), h(f(v)))
    c.ensure_eq('observation-untouched', lambda: c.at(s, 0), v)
