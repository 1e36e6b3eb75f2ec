"""P10 - deep Q-learning family: regression targets, target-network schedule, prioritised replay."""
from pydv.ctx import harness
from contracts.common import configuration

PRELOAD = ['mushroom_rl.algorithms.value.dqn', 'mushroom_rl.approximators.regressor', 'mushroom_rl.approximators.ensemble',
           'mushroom_rl.rl_utils', 'mushroom_rl.policy', 'mushroom_rl.core']
P = 'P10'


class World:
    """ghost function approximators (their weights are opaque tokens; the prediction is an arbitrary function
    of weights, state and action) and a ghost replay memory returning an arbitrary batch"""

    def __init__(self, c, prioritized=False, atoms=None, prob=False, nA=None):
        self.c = c
        self.atoms, self.prob = atoms, prob
        self.batch = 7
        self.m, self.nA = c.size('m', 1), nA or c.size('nA', 2)
        self.S, self.S2 = c.array('S', (self.m, 2)), c.array('S2', (self.m, 2))
        self.A = c.array('A', (self.m, 1), 'int', lo=0, hi=self.nA - 1)
        self.R = c.array('R', (self.m,))
        self.AB = c.array('AB', (self.m,), 'bool')
        self.gamma = c.real('gamma', 0, 1)
        self.fits, self.updates, self.adds, self.gets = [], [], [], []
        self.fns = {}
        self.made = 0
        W = self

        class Approx:
            _pydv_ghost = True

            def __init__(self, **kw):
                W.made += 1
                self.tok = ('init', W.made)

            def predict(self, state, get_distribution=False, get_quantiles=False, **kw):
                st = c.copy(state)
                n = st.shape[0]
                if get_distribution or get_quantiles:
                    z = W.fn(self.tok, 4)
                    return c.tabulate((n, W.nA, W.atoms), lambda i, a, j: z(c.at(st, i, 0), c.at(st, i, 1), a, j))
                q = W.fn(self.tok)
                return c.tabulate((n, W.nA), lambda i, a: q(c.at(st, i, 0), c.at(st, i, 1), a))

            def fit(self, state, action, q, **kw):
                W.fits.append((self, state, action, q, kw, self.tok))
                self.tok = ('fitted', self.tok)

            def get_weights(self):
                return self.tok

            def set_weights(self, w):
                self.tok = w
        self.Approx = Approx
        rm = c.mod('mushroom_rl.rl_utils.replay_memory')

        class Memory(rm.PrioritizedReplayMemory if prioritized else object):
            _pydv_ghost = True

            def __init__(self, info, agent_info, initial_size=None, max_size=None, **kw):
                pass
            max_priority = c.real('maxp', 0, open_lo=True) if prioritized else None
            initialized = c.choice('ready', [True, False])

            def add(self, *a, **k):
                W.adds.append(a)
                W.addkw = k

            def get(self, n):
                W.gets.append(n)
                r = (W.S, W.A, W.R, W.S2, W.AB, W.AB)
                return r + (W.idxs, W.isw) if prioritized else r

            def update(self, err, idxs):
                W.updates.append((c.copy(err), idxs))
        self.Memory = Memory
        if prioritized:
            self.idxs = c.array('idxs', (self.m,), 'int')
            self.isw = c.array('isw', (self.m,))
        self.before = [c.copy(x) for x in (self.S, self.A, self.R, self.S2, self.AB)]

    def fn(self, tok, n=3):
        if (tok, n) not in self.fns:
            self.fns[tok, n] = self.c.func('QZ'[n - 3] + '_' + '_'.join(map(str, tok)).replace(' ', ''), n,
                                           **(dict(lo=0, hi=1) if n == 4 and self.prob else {}))
        return self.fns[tok, n]

    def z(self, tok, k, a, j, nxt=True):
        X = self.before[3] if nxt else self.before[0]
        return self.fn(tok, 4)(self.c.at(X, k, 0), self.c.at(X, k, 1), a, j)

    def q(self, tok, k, a, nxt=True):
        X = self.before[3] if nxt else self.before[0]
        return self.fn(tok)(self.c.at(X, k, 0), self.c.at(X, k, 1), a)

    def agent(self, cls, **kw):
        c = self.c
        core, sp = c.mod('mushroom_rl.core'), c.mod('mushroom_rl.rl_utils.spaces')
        self.dist = kw.pop('dist', False)
        info = core.MDPInfo(sp.Box(-1., 1., (2,)), sp.Discrete(self.nA), self.gamma, 100)
        pol = c.mod('mushroom_rl.policy').EpsGreedy(c.mod('mushroom_rl.rl_utils.parameters').Parameter(.1))
        p = dict(approximator=self.Approx, batch_size=self.batch, target_update_frequency=kw.pop('freq', 5),
                 replay_memory={'class': self.Memory, 'params': {}},
                 approximator_params=dict(input_shape=(2,), output_shape=(self.nA,), n_actions=self.nA))
        p.update(kw)
        if self.dist:
            # the distributional agents name their approximator class themselves: it is replaced by the ghost
            del p['approximator']
            p['approximator_params']['network'] = None
            c.stub(c.mod(self.dist), 'NumpyTorchApproximator', self.Approx)
            if cls == 'Rainbow':
                del p['replay_memory']
                c.stub(c.mod(self.dist), 'PrioritizedReplayMemory', self.Memory)
        self.given = configuration(c, p['approximator_params'], *[p[k] for k in ('fit_params', 'predict_params') if p.get(k) is not None])
        return getattr(c.mod('mushroom_rl.algorithms.value.dqn'), cls)(info, pol, **p)

    def common(self, fitted, n_models=1):
        """who is fitted and on what"""
        c = self.c
        S, A, R, S2, AB = self.before
        c.ensure('stored-once', len(self.adds) == 1)
        self.given()
        if not self.Memory.initialized:
            c.ensure('no-fit-before-initial-size', not self.fits and not self.updates)
            return False
        c.ensure('requested-batch', len(self.gets) == 1 and bool(c.eq(self.gets[0], self.batch)))
        c.ensure('one-fit', len(self.fits) == 1)
        ap, s, a, q, kw, tok = self.fits[0]
        c.ensure('fits-the-online-network', ap is fitted)
        c.ensure_shape('target-shape', q, (self.m, self.atoms) if self.dist else (self.m,))
        c.ensure_shape('state-shape', s, (self.m, 2))
        c.ensure_all('fitted-on-the-states', (self.m, 2), lambda k, j: c.eq(c.at(s, k, j), c.at(S, k, j)))
        c.ensure_all('fitted-on-the-actions', (self.m,), lambda k: c.eq(c.at(a, k, 0), c.at(A, k, 0)))
        c.ensure_all('batch-untouched', (self.m,), lambda k: c.and_(
            c.eq(c.at(self.R, k), c.at(R, k)), c.eq(c.at(self.AB, k), c.at(AB, k)),
            c.eq(c.at(self.S2, k, 0), c.at(S2, k, 0)), c.eq(c.at(self.S2, k, 1), c.at(S2, k, 1))))
        return True

    def target(self, k, nq, clip=False):
        c = self.c
        r = c.at(self.before[2], k)
        if clip:
            r = c.ite(c.lt(r, -1.), -1., lambda: c.ite(c.lt(1., r), 1., r))
        return r + self.gamma * c.ite(c.at(self.before[4], k), 0., nq)


class DS:
    _pydv_ghost = True

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


def online(W, ag, n=1):
    for i in range(n):
        ag.approximator[i].set_weights(('on', i))
    return [ag.approximator[i] for i in range(n)]


def targets(W, ag, n=1):
    for i in range(n):
        ag.target_approximator[i].set_weights(('tg', i))
    return [ag.target_approximator[i] for i in range(n)]


def run(c, cls, nq, prioritized=False, clip=False, **kw):
    """nq(W, k, at) -> the condition that `at` is the next value of sample k"""
    W = World(c, prioritized)
    ag = W.agent(cls, clip_reward=clip, **kw)
    n = kw.get('n_approximators', 1)
    nt = n
    on = online(W, ag, 1)
    targets(W, ag, nt)
    ag.fit(DS(3))
    if not W.common(on[0]):
        return
    q = W.fits[0][3]
    c.ensure_all('target', (W.m,), lambda k: nq(W, k, lambda v: c.eq(c.at(q, k), W.target(k, v, clip))))
    if prioritized:
        c.ensure('priorities-updated', len(W.updates) == 1 and W.updates[0][1] is W.idxs)
        c.ensure_all('priority-is-td-error', (W.m,), lambda k: c.eq(
            c.at(W.updates[0][0], k), c.at(q, k) - W.q(('on', 0), k, c.at(W.before[1], k, 0), False)))
        w = W.fits[0][4].get('weights')
        c.ensure('importance-weights', w is not None)
        c.ensure_all('importance-weights', (W.m,), lambda k: c.eq(c.at(w, k), c.at(W.isw, k)))
        d, pr = W.adds[0]
        c.ensure_shape('new-samples-priority', pr, (3,))
        c.ensure_all('new-samples-priority', (3,), lambda j: c.eq(c.at(pr, j), W.Memory.max_priority))


def dqn_nq(W, k, ok):
    c = W.c
    return ok(c.max(W.nA, lambda a: W.q(('tg', 0), k, a)))


def ddqn_nq(W, k, ok):
    c = W.c
    best = (lambda a: c.eq(W.q(('on', 0), k, a), c.max(W.nA, lambda b: W.q(('on', 0), k, b)))) if c.symbolic else \
        (lambda a: all(W.q(('on', 0), k, a) >= W.q(('on', 0), k, b) for b in range(W.nA)))
    return c.any(W.nA, lambda a: c.and_(best(a), ok(W.q(('tg', 0), k, a))))


@harness(P, 'dqn_target')
def dqn(c):
    run(c, 'DQN', dqn_nq)


@harness(P, 'dqn_target_clipped_reward')
def dqn_clip(c):
    run(c, 'DQN', dqn_nq, clip=True)


@harness(P, 'dqn_prioritized')
def dqn_prio(c):
    run(c, 'DQN', dqn_nq, prioritized=True)


@harness(P, 'double_dqn_target')
def ddqn(c):
    run(c, 'DoubleDQN', ddqn_nq)


@harness(P, 'double_dqn_prioritized')
def ddqn_prio(c):
    run(c, 'DoubleDQN', ddqn_nq, prioritized=True, clip=True)


@harness(P, 'averaged_dqn_target')
def avg(c):
    n = c.choice('n', [2, 3])
    f = c.choice('f', [1, 2, 3])
    W = World(c)
    ag = W.agent('AveragedDQN', n_approximators=n, freq=1000)
    if f > n:
        return
    on = online(W, ag)
    targets(W, ag, n)
    ag._n_fitted_target_models = f
    ag.fit(DS(3))
    if not W.common(on[0]):
        return
    q = W.fits[0][3]
    nq = lambda k: c.max(W.nA, lambda a: sum(W.q(('tg', i), k, a) for i in range(f)) / f)
    c.ensure_all('target', (W.m,), lambda k: c.eq(c.at(q, k), W.target(k, nq(k))))


@harness(P, 'maxmin_dqn_target')
def maxmin(c):
    n = c.choice('n', [2, 3])
    i = c.choice('i', [0, 1, 2])
    if i >= n:
        return
    W = World(c)
    ag = W.agent('MaxminDQN', n_approximators=n, freq=1000, **(dict(fit_params={}) if c.bool('fit_params') else {}))
    on = online(W, ag, n)
    targets(W, ag, n)
    c.stub(c.np.random, 'randint', lambda *a, **k: i)
    c.stub(c.np.random, 'choice', lambda *a, **k: i)
    ag.fit(DS(3))
    if not W.common(on[i]):
        return
    q = W.fits[0][3]
    nq = lambda k: c.max(W.nA, lambda a: c.min(n, lambda j: W.q(('tg', j), k, a)))
    c.ensure_all('target', (W.m,), lambda k: c.eq(c.at(q, k), W.target(k, nq(k))))


def history(c, cls, n_on, n_tg, spec, **kw):
    """target networks along a history: after the k-th fit (k arbitrary) exactly the scheduled copy happens"""
    W = World(c)
    freq = c.int('freq', 1, 1000)
    ag = W.agent(cls, freq=freq, **kw)
    on, tg = online(W, ag, n_on), targets(W, ag, n_tg)
    k = c.int('k', 0, 10000)
    ag._n_updates = k
    return W, ag, on, tg, freq, k


def copied(c, name, due, net, src, keep):
    """net has the weights of src now when due, and keeps its own otherwise"""
    got_new, got_old = net.get_weights() == src.get_weights(), net.get_weights() == keep
    c.ensure(name, lambda: c.or_(c.and_(due, got_new), c.and_(c.not_(due), got_old)))


@harness(P, 'target_copied_exactly_on_schedule')
def sched(c):
    cls = c.choice('cls', ['DQN', 'DoubleDQN'])
    W, ag, on, tg, freq, k = history(c, cls, 1, 1, None)
    ag.fit(DS(3))
    due = c.eq((k + 1) % freq, 0)
    copied(c, 'copy', due, tg[0], on[0], ('tg', 0))
    c.ensure('online-only-changed-by-fitting', on[0].get_weights() in (('on', 0), ('fitted', ('on', 0))))


@harness(P, 'maxmin_targets_copied_on_schedule')
def sched_mm(c):
    W, ag, on, tg, freq, k = history(c, 'MaxminDQN', 2, 2, None, n_approximators=2)
    ag.fit(DS(3))
    due = c.eq((k + 1) % freq, 0)
    for i in range(2):
        copied(c, 'copy', due, tg[i], on[i], ('tg', i))


@harness(P, 'averaged_targets_replaced_in_turn')
def sched_avg(c):
    n = 3
    W, ag, on, tg, freq, k = history(c, 'AveragedDQN', 1, n, None, n_approximators=n)
    f0 = c.choice('fitted', [1, 2, 3])
    # class invariant: number of target models in use = 1 + copies so far, at most n
    j = k // freq
    c.assume(c.eq(f0, c.ite(c.lt(j + 1, n), j + 1, n)))
    ag._n_fitted_target_models = f0
    ag.fit(DS(3))
    due = c.eq((k + 1) % freq, 0)
    for i in range(n):
        copied(c, 'oldest-replaced', c.and_(due, c.eq(((k + 1) // freq) % n, i)), tg[i], on[0], ('tg', i))
    j2 = (k + 1) // freq
    c.ensure('models-in-use', lambda: c.eq(ag._n_fitted_target_models, c.ite(c.lt(j2 + 1, n), j2 + 1, n)))


@harness(P, 'initial_targets_are_the_initial_network')
def init(c):
    cls, n = c.choice('cls', [('DQN', 1), ('DoubleDQN', 1), ('AveragedDQN', 2), ('MaxminDQN', 2)])
    W = World(c)
    ag = W.agent(cls, **({} if n == 1 else dict(n_approximators=n)))
    for i in range(n):
        src = ag.approximator[i] if cls == 'MaxminDQN' else ag.approximator[0]
        c.ensure('same-weights', ag.target_approximator[i].get_weights() == src.get_weights())
        c.ensure('different-networks', ag.target_approximator[i] is not src)


def best_action(W, tok, k, a):
    c = W.c
    if c.symbolic:
        return c.eq(W.q(tok, k, a), c.max(W.nA, lambda b: W.q(tok, k, b)))
    return all(W.q(tok, k, a) >= W.q(tok, k, b) for b in range(W.nA))


D = 'mushroom_rl.algorithms.value.dqn.'


@harness(P, 'quantile_target')
def quantile(c):
    N = c.size('N', 2)
    W = World(c, atoms=N)
    clip = c.choice('clip', [False, True])
    ag = W.agent('QuantileDQN', n_quantiles=N, dist=D + 'quantile_dqn', clip_reward=clip)
    on = online(W, ag)
    targets(W, ag)
    ag.fit(DS(3))
    if not W.common(on[0]):
        return
    q = W.fits[0][3]
    c.ensure('quantiles-requested', W.fits[0][4].get('get_quantiles') is True)
    j = c.int('j', 0, N - 1)
    c.ensure_all('target', (W.m,), lambda k: c.any(W.nA, lambda a: c.and_(
        best_action(W, ('tg', 0), k, a), c.eq(c.at(q, k, j), W.target(k, W.z(('tg', 0), k, a, j), clip))),
        hint=c.argmax(W.nA, lambda a: W.q(('tg', 0), k, a))))


def projection(c, W, p, k, j, vmin, vmax, n, clip, g):
    """mass of atom j after projecting the shifted support of sample k"""
    delta = (vmax - vmin) / (n - 1)
    z = [vmin + delta * i for i in range(n)]
    r = c.at(W.before[2], k)
    if clip:
        r = c.ite(c.lt(r, -1.), -1., lambda: c.ite(c.lt(1., r), 1., r))

    def hat(i):
        t = r + c.ite(c.at(W.before[4], k), 0., g * z[i])
        t = c.ite(c.lt(t, vmin), vmin, lambda: c.ite(c.lt(vmax, t), vmax, t))
        x = (t - vmin) / delta - j
        x = c.ite(c.lt(x, 0.), -x, x)
        return c.ite(c.lt(x, 1.), 1. - x, 0.)
    return sum(p(i) * hat(i) for i in range(n))


def regions(c, W, k, vmin, vmax, n, clip, g):
    """case split of the proof: between which atoms every shifted atom falls"""
    if not c.symbolic:
        return
    delta = (vmax - vmin) / (n - 1)
    r = c.at(W.before[2], k)
    if clip:
        r = c.ite(c.lt(r, -1.), -1., lambda: c.ite(c.lt(1., r), 1., r))
    ab = bool(c.at(W.before[4], k))
    for i in range(n):
        x = (r + (0. if ab else g * (vmin + delta * i)) - vmin) / delta
        for j in range(n):
            if bool(c.lt(x, j)) or bool(c.eq(x, j)):
                break


def categorical(c, cls, sizes):
    vmin, vmax, n = c.choice('support', sizes)
    rb = cls == 'Rainbow'
    W = World(c, prioritized=rb, atoms=n, prob=True, nA=2)
    W.batch = W.m
    clip = n == 2
    kw, steps = {}, 1
    if rb:
        steps = 2 if n == 2 else 1
        kw = dict(n_steps_return=steps, alpha_coeff=.6, beta=.4)
    ag = W.agent(cls, n_atoms=n, v_min=vmin, v_max=vmax, dist=D + ('rainbow' if rb else 'categorical_dqn'),
                 clip_reward=clip, **kw)
    on = online(W, ag)
    targets(W, ag)
    ag.fit(DS(3))
    if not W.common(on[0]):
        return
    mm = W.fits[0][3]
    c.ensure('distribution-requested', W.fits[0][4].get('get_distribution') is True)
    chooser = ('on', 0) if rb else ('tg', 0)
    g = W.gamma ** steps

    def at(k, a, j):
        return c.eq(c.at(mm, k, j), projection(c, W, lambda i: W.z(('tg', 0), k, a, i), k, j, vmin, vmax, n, clip, g))
    def post(k):
        regions(c, W, k, vmin, vmax, n, clip, g)
        return c.any(W.nA, lambda a: c.and_(best_action(W, chooser, k, a), *[at(k, a, j) for j in range(n)]),
                     hint=c.argmax(W.nA, lambda a: W.q(chooser, k, a)))
    c.ensure_all('projected-target', (W.m,), post)
    if rb:
        c.ensure('n-step-return-stored', W.addkw.get('n_steps_return') == steps and bool(c.eq(W.addkw.get('gamma'), W.gamma)))
        c.ensure('priorities-updated', len(W.updates) == 1 and W.updates[0][1] is W.idxs)
        w = W.fits[0][4].get('weights')
        c.ensure('importance-weights', w is not None)
        c.ensure_all('importance-weights', (W.m,), lambda k: c.eq(c.at(w, k), c.at(W.isw, k)))

        def kl(k):
            lp = lambda j: W.z(('on', 0), k, c.at(W.before[1], k, 0), j, False)
            cl = lambda v: c.ite(c.lt(v, 1e-5), 1e-5, v)
            return -sum(c.at(mm, k, j) * c.log(cl(lp(j))) for j in range(n))
        c.ensure_all('priority-is-the-cross-entropy', (W.m,), lambda k: c.eq(c.at(W.updates[0][0], k), kl(k)))


@harness(P, 'categorical_projection')
def cat(c):
    categorical(c, 'CategoricalDQN', [(-1., 1., 3)])


@harness(P, 'categorical_projection_clipped_reward')
def cat2(c):
    categorical(c, 'CategoricalDQN', [(0., 2., 2)])


@harness(P, 'rainbow_projection')
def rainbow(c):
    categorical(c, 'Rainbow', [(0., 2., 2)])


@harness(P, 'rainbow_projection_three_atoms', thorough=True)
def rainbow3(c):
    categorical(c, 'Rainbow', [(-1., 1., 3)])
