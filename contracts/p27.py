"""P27 - actor-critic algorithms: targets, losses, traces, schedules and soft updates."""
from pydv.ctx import harness
from .common import unsup, one_step, configuration

AC = 'mushroom_rl.algorithms.actor_critic'
CL = AC + '.classic_actor_critic'
DA = AC + '.deep_actor_critic'
PRELOAD = [AC, CL, CL + '.copdac_q', CL + '.stochastic_ac', DA, DA + '.deep_actor_critic', DA + '.ddpg', DA + '.td3', DA + '.sac', DA + '.a2c',
           DA + '.ppo', DA + '.ppo_bptt', DA + '.trpo', 'mushroom_rl.rl_utils.value_functions', 'mushroom_rl.approximators.regressor',
           'mushroom_rl.approximators.parametric.linear', 'mushroom_rl.utils.torch', 'mushroom_rl.utils.minibatches', 'mushroom_rl.core']
P = 'P27'
D = 2


def rng(c, b):
    """concrete values are kept small (float32); the proof has no bound"""
    return (None, None) if c.symbolic else (-b, b)


def box(c, shape, lo=-1., hi=1.):
    return c.mod('mushroom_rl.rl_utils.spaces').Box(lo, hi, shape)


def info_of(c, nA, gamma):
    return c.mod('mushroom_rl.core').MDPInfo(box(c, (D,)), box(c, (nA,)), gamma, 100)


class Policy:
    _pydv_ghost = True
    policy_state_shape = None

    def __init__(self, *a, **k):
        self.args = a


# ------------------------------------------------------------------ classic
class Psi:
    """value features: an arbitrary function of the state"""
    _pydv_ghost = True
    size = 3

    def __init__(self, c):
        self.c, self.f = c, c.func('psi', 3)

    def __call__(self, s):
        s = self.c.copy(s)
        return self.c.tabulate((3,), lambda k: self.f(self.c.at(s, 0), self.c.at(s, 1), k))


def transition(c, nA):
    s, s2 = c.array('s', (D,)), c.array('s2', (D,))
    a, r, ab = c.array('a', (nA,)), c.real('r'), c.choice('absorbing', [False, True])
    return s, a, r, s2, ab


def feats(c, psi, x):
    if psi is None:
        return [c.at(x, 0), c.at(x, 1)]
    return [psi.f(c.at(x, 0), c.at(x, 1), k) for k in range(3)]


def num(c, x):
    """the value of a number or of an array with one element"""
    n = len(getattr(x, 'shape', ()))
    return c.at(x, *([0] * n)) if hasattr(x, 'shape') else x


def mk_copdac(nA, feat):
    @harness(P, f'copdac_q_{nA}d' + ('_features' if feat else ''))
    def h(c):
        gamma = c.real('gamma', 0, 1)
        psi = Psi(c) if feat else None
        nV = 3 if feat else D
        nW = 3
        mu_f, d_f = c.func('mu', 3), c.func('dmu', 4)
        th0 = c.array('theta', (nW,))

        class Mu:
            """differentiable deterministic policy: value and gradient are arbitrary"""
            _pydv_ghost = True
            weights_size = nW
            w = c.copy(th0)
            ver = 0

            def __call__(self, s):
                v = self.ver
                return c.tabulate((nA,), lambda j: mu_f(c.at(s, 0) + v, c.at(s, 1), j))
            predict = __call__

            def diff(self, s):
                v = self.ver
                if nA == 1:
                    return c.tabulate((nW,), lambda i: d_f(c.at(s, 0) + v, c.at(s, 1), i, 0))
                return c.tabulate((nW, nA), lambda i, j: d_f(c.at(s, 0) + v, c.at(s, 1), i, j))

            def get_weights(self):
                return c.copy(self.w)

            def set_weights(self, w):
                self.w = c.copy(w)
                self.ver += 1
        mu = Mu()
        al = [c.real('a_theta', 0, 1), c.real('a_omega', 0, 1), c.real('a_v', 0, 1)]
        info = info_of(c, nA, gamma)
        ag = c.mod(CL).COPDAC_Q(info, Policy(), mu, *al, value_function_features=psi)
        if not (hasattr(ag, '_V') and hasattr(ag, '_A')):
            unsup(c, 'critic under other names')
        V0, A0 = c.array('V', (nV,)), c.array('A', (nW,))
        ag._V.set_weights(c.copy(V0))
        ag._A.set_weights(c.copy(A0))
        s, a, r, s2, ab = transition(c, nA)
        ag.fit(one_step(c, info, ag, s, a, r, s2, ab))
        f, f2 = feats(c, psi, s), feats(c, psi, s2)
        v = sum(c.at(V0, k) * f[k] for k in range(nV))
        v2 = sum(c.at(V0, k) * f2[k] for k in range(nV))
        m = [mu_f(c.at(s, 0), c.at(s, 1), j) for j in range(nA)]
        g = [[d_f(c.at(s, 0), c.at(s, 1), i, j) for j in range(nA)] for i in range(nW)]
        nu = [sum((c.at(a, j) - m[j]) * g[i][j] for j in range(nA)) for i in range(nW)]
        adv = sum(c.at(A0, i) * nu[i] for i in range(nW))
        delta = r + (0. if ab else gamma * v2) - v - adv
        og = [sum(c.at(A0, i) * g[i][j] for i in range(nW)) for j in range(nA)]
        th, A1, V1 = mu.w, ag._A.get_weights(), ag._V.get_weights()
        for x, n, nm in ((th, nW, 'actor'), (A1, nW, 'advantage'), (V1, nV, 'value')):
            c.ensure_shape(nm + '-weights-shape', x, (n,))
        for i in range(nW):
            c.ensure_eq('actor-step', c.at(th, i), c.at(th0, i) + al[0] * sum(g[i][j] * og[j] for j in range(nA)))
            c.ensure_eq('advantage-step', c.at(A1, i), c.at(A0, i) + al[1] * delta * nu[i])
        for k in range(nV):
            c.ensure_eq('value-step', c.at(V1, k), c.at(V0, k) + al[2] * delta * f[k])
    return h


for _n in (1, 2):
    for _f in (False, True):
        mk_copdac(_n, _f)


def mk_sac(avg, feat):
    @harness(P, 'stochastic_ac' + ('_average' if avg else '') + ('_features' if feat else ''))
    def h(c):
        gamma, lam = c.real('gamma', 0, 1), c.real('lam', 0, 1)
        psi = Psi(c) if feat else None
        nV, nW = (3 if feat else D), 2
        lg = c.func('dlog', 4)

        class Pi(Policy):
            weights_size = nW
            w = c.array('theta', (nW,))

            def diff_log(self, s, a):
                s, a = c.copy(s), c.copy(a)
                return c.tabulate((nW,), lambda i: lg(c.at(s, 0), c.at(s, 1), c.at(a, 0), i))

            def get_weights(self):
                return c.copy(self.w)

            def set_weights(self, w):
                self.w = c.copy(w)

            def reset(self):
                return None
        pi = Pi()
        th0 = c.copy(pi.w)
        at, av, ar = c.real('a_theta', 0, 1), c.real('a_v', 0, 1), c.real('a_r', 0, 1)
        info = info_of(c, 1, gamma)
        kw = dict(lambda_par=lam, value_function_features=psi)
        ag = c.mod(CL).StochasticAC_AVG(info, pi, at, av, ar, **kw) if avg else c.mod(CL).StochasticAC(info, pi, at, av, **kw)
        if not all(hasattr(ag, x) for x in ('_V', '_e_v', '_e_theta')) or (avg and not hasattr(ag, '_r_bar')):
            unsup(c, 'traces under other names')
        c.ensure_all('traces-start-at-zero', (nV,), lambda k: c.eq(c.at(ag._e_v, k), 0.))
        c.ensure_all('traces-start-at-zero', (nW,), lambda k: c.eq(c.at(ag._e_theta, k), 0.))
        V0 = c.array('V', (nV,))
        ag._V.set_weights(c.copy(V0))
        ev, et = c.array('ev', (nV,)), c.array('et', (nW,))
        ag._e_v, ag._e_theta = c.copy(ev), c.copy(et)
        rb = c.real('rbar')
        if avg:
            ag._r_bar = rb
        s, a, r, s2, ab = transition(c, 1)
        ag.fit(one_step(c, info, ag, s, a, r, s2, ab))
        f, f2 = feats(c, psi, s), feats(c, psi, s2)
        v = sum(c.at(V0, k) * f[k] for k in range(nV))
        v2 = 0. if ab else sum(c.at(V0, k) * f2[k] for k in range(nV))
        g = 1. if avg else gamma
        delta = r - (rb if avg else 0.) + g * v2 - v
        nev = [g * lam * c.at(ev, k) + f[k] for k in range(nV)]
        net = [g * lam * c.at(et, k) + lg(c.at(s, 0), c.at(s, 1), c.at(a, 0), k) for k in range(nW)]
        V1 = ag._V.get_weights()
        c.ensure_shape('value-weights-shape', V1, (nV,))
        c.ensure_shape('actor-weights-shape', pi.w, (nW,))
        for k in range(nV):
            c.ensure_eq('value-step', c.at(V1, k), c.at(V0, k) + av * delta * nev[k])
            c.ensure_eq('value-trace', c.at(ag._e_v, k), nev[k])
        for k in range(nW):
            c.ensure_eq('actor-step', c.at(pi.w, k), c.at(th0, k) + at * delta * net[k])
            c.ensure_eq('actor-trace', c.at(ag._e_theta, k), net[k])
        if avg:
            c.ensure_eq('average-reward', num(c, ag._r_bar), rb + ar * delta)
        w = c.copy(pi.w)
        ag.episode_start(s2, {})
        c.ensure_all('new-episode-clears-the-traces', (nV,), lambda k: c.eq(c.at(ag._e_v, k), 0.))
        c.ensure_all('new-episode-clears-the-traces', (nW,), lambda k: c.eq(c.at(ag._e_theta, k), 0.))
        c.ensure_all('new-episode-keeps-the-value', (nV,), lambda k: c.eq(c.at(ag._V.get_weights(), k), c.at(V1, k)))
        c.ensure_all('new-episode-keeps-the-actor', (nW,), lambda k: c.eq(c.at(pi.w, k), c.at(w, k)))
    return h


for _a in (False, True):
    for _f in (False, True):
        mk_sac(_a, _f)


# ------------------------------------------------------------------ deep, off policy
class World:
    """ghost regressors: every model has a weight vector and predicts an arbitrary function of (model, version of its weights, input); fitting
    and optimiser steps replace the weights by arbitrary ones. Ghost replay memory with an arbitrary batch, ghost optimiser."""

    def __init__(self, c, module, twin=False, nA=2):
        self.c, self.regs, self.fits, self.log, self.adds, self.gets = c, [], [], [], [], []
        self.m, self.nA = c.size('m', 1), nA
        self.S, self.S2 = c.array('S', (self.m, 1), lib='torch'), c.array('S2', (self.m, 1), lib='torch')
        self.A = c.array('A', (self.m, nA), lib='torch')
        self.R, self.AB = c.array('R', (self.m,), lib='torch'), c.array('AB', (self.m,), 'bool', lib='torch')
        self.before = [c.copy(x) for x in (self.S, self.A, self.R, self.S2, self.AB)]
        self.gamma, self.tau = c.real('gamma', 0, 1), c.real('tau', 0, 1)
        self.stateful = c.choice('stateful', [False, True])
        self.fns = {}
        self.size = c.int('filled', 0)
        W = self

        class Model:
            _pydv_ghost = True

            def __init__(self, tag, idx):
                self.tag, self.idx, self.ver = tag, idx, 0
                self.w = c.array('w_%s_%d' % (tag, idx), (2,), lib='torch')
                self.network = self

            @property
            def model(self):
                return self

            def parameters(self):
                return iter([('par', self.tag, self.idx)])

            def get_weights(self):
                return c.copy(self.w)

            def set_weights(self, w):
                c.ensure_shape('weights-shape', w, (2,))
                self.w = c.copy(w)
                self.ver += 1

            def new(self, why):
                self.w = c.array('w_%s_%d_%s%d' % (self.tag, self.idx, why, self.ver), (2,), lib='torch')
                self.ver += 1

            def out(self, *x):
                c_ = [c.copy(t) for t in x]
                f = W.fn(self)
                n = c_[0].shape[0]
                if self.tag == 'critic':
                    return c.tabulate((n,), lambda i: f(c.at(c_[0], i, 0), *[c.at(c_[1], i, j) for j in range(nA)]), lib='torch')
                return c.tabulate((n, nA), lambda i, j: f(c.at(c_[0], i, 0), j), lib='torch')

        class Reg:
            _pydv_ghost = True

            def __init__(self, approximator, n_models=None, tag=None, **params):
                self.tag = tag
                k = sum(r.tag == tag for r in W.regs)
                self.n = n_models
                self.models = [Model(tag, 10 * k + i) for i in range(n_models or 1)]
                W.regs.append(self)

            def __len__(self):
                return len(self.models)

            def __getitem__(self, i):
                return self.models[i]

            @property
            def model(self):
                return self.models[0]

            def predict(self, *x, idx=None, prediction=None, **kw):
                W.log.append(('predict', self, kw))
                ms = self.models if idx is None else [self.models[idx]]
                o = [m.out(*x) for m in ms]
                if len(o) == 1:
                    return o[0]
                if prediction == 'min':
                    return c.tabulate(tuple(o[0].shape), lambda *i: W.low([c.at(t, *i) for t in o]), lib='torch')
                if prediction in (None, 'mean'):
                    return c.tabulate(tuple(o[0].shape), lambda *i: sum(c.at(t, *i) for t in o) / len(o), lib='torch')
                unsup(c, 'another prediction of the ensemble')
            __call__ = predict

            def fit(self, *x, **kw):
                W.fits.append((self, [c.copy(t) for t in x], kw))
                W.log.append(('fit', self))
                for m in self.models:
                    m.new('fit')

        class Memory:
            _pydv_ghost = True
            initialized = c.choice('ready', [True, False])

            def __init__(self, info, agent_info, initial_size=None, max_size=None, **kw):
                W.mem = (initial_size, max_size)

            @property
            def size(self):
                return W.size

            def add(self, d, *a):
                W.adds.append(d)

            def get(self, n):
                W.gets.append(n)
                r = [W.S, W.A, W.R, W.S2, W.AB, W.AB]
                return r + [W.S, W.S] if W.stateful else r

        class Opt:
            _pydv_ghost = True

            def __init__(self, params, **kw):
                self.params = list(params)
                W.opt = kw

            def zero_grad(self, **k):
                W.log.append(('zero', self))

            def step(self):
                W.log.append(('step', self))
                for r in W.regs:
                    for m in r.models:
                        if any(p is not None and isinstance(p, tuple) and p == ('par', m.tag, m.idx) for p in self.params):
                            m.new('step')
        self.Reg, self.Memory, self.Opt, self.Model = Reg, Memory, Opt, Model
        for x in module:
            c.stub(c.mod(x), 'Regressor', Reg)
            c.stub(c.mod(x), 'ReplayMemory', Memory)
        c.on_backward(lambda v: W.log.append(('backward', v, {id(m): m.ver for r in W.regs for m in r.models})))

        def clip(params, **kw):
            W.log.append(('clip', list(params), kw))
        self.clipper = clip

    def fn(self, m, ver=None):
        k = (m.tag, m.idx, m.ver if ver is None else ver)
        if k not in self.fns:
            n = 1 + (self.nA if m.tag == 'critic' else 1)
            f = self.c.func('%s_%d_%d' % k, n, 'real', *rng(self.c, 3 if m.tag in ('critic', 'actor') else 1))
            if not self.c.symbolic and m.tag == 'critic':
                # concrete: a smooth function, the inputs carry rounding errors
                g = f
                co = [g(*([1000. + j] + [0.] * (n - 1))) for j in range(n + 2)]
                f = lambda *x: co[0] + sum(co[1 + j] * float(x[j]) for j in range(n)) + co[n + 1] * float(x[0]) * float(x[-1])
            self.fns[k] = f
        return self.fns[k]

    def low(self, xs):
        c = self.c
        r = xs[0]
        for x in xs[1:]:
            r = c.ite(c.lt(x, r), x, r)
        return r

    def of(self, tag):
        return [r for r in self.regs if r.tag == tag]

    def roles(self, tag, online):
        o = [r for r in self.of(tag) if r is not online]
        return online, o[0]

    def optimizer(self, clipped):
        d = {'class': self.Opt, 'params': {'lr': 3}}
        if clipped:
            d['clipping'] = {'method': self.clipper, 'params': {'max_norm': 5}}
        return d

    def actor_updates(self, optimizer=None):
        """the sequence of optimiser events of the actor"""
        return [e for e in self.log if e[0] in ('zero', 'backward', 'clip', 'step')]

    def soft(self, online, target, old):
        c = self.c
        for i in range(len(target)):
            c.ensure_all('target-moves-by-tau-towards-the-online-weights', (2,), lambda k: c.eq(
                c.at(target[i].w, k), self.tau * c.at(online[i].w, k) + (1 - self.tau) * c.at(old[i], k)))


class PolicyOf(Policy):
    """a policy built around the actor; stateful or not"""


def build(W, cls, critic=None, **kw):
    c = W.c
    info = c.mod('mushroom_rl.core').MDPInfo(box(c, (1,)), c.mod('mushroom_rl.rl_utils.spaces').Box(*W.bounds(), (W.nA,)) if hasattr(W, 'bounds') else
                                             box(c, (W.nA,)), W.gamma, 100)
    made = []

    class Pi(PolicyOf):
        policy_state_shape = (2,) if W.stateful else None

        def __init__(self, actor, **k):
            made.append((actor, k))
    clipped = c.choice('clipped', [False, True])
    cp = dict(tag='critic', **(critic or {}))
    given = [{'x': 5}, dict(tag='actor'), W.optimizer(clipped), cp, {'n_epochs': 4}]
    unchanged = configuration(c, *given)
    ag = getattr(c.mod(AC), cls)(info, Pi, *given[:4], 7, 11, 13, W.tau, critic_fit_params=given[4], **kw)
    unchanged()
    c.ensure('one-policy', len(made) == 1)
    c.ensure('policy-parameters', made[0][1] == {'x': 5})
    c.ensure('memory-sizes', W.mem == (11, 13))
    c.ensure('optimizer-parameters', W.opt == {'lr': 3})
    W.clipped, W.actor = clipped, made[0][0]
    for tag in ('critic', 'actor'):
        rs = W.of(tag)
        c.ensure('online-and-target-' + tag, len(rs) == 2 and len(rs[0]) == len(rs[1]))
        for i in range(len(rs[0])):
            c.ensure_all('targets-start-as-the-online-' + tag, (2,), lambda k: c.eq(c.at(rs[0][i].w, k), c.at(rs[1][i].w, k)))
    return ag


def arbitrary_weights(W):
    for r in W.regs:
        for m in r.models:
            m.new('any')
    W.log.clear()
    return {id(m): (m.ver, W.c.copy(m.w)) for r in W.regs for m in r.models}


def batch_untouched(W):
    c = W.c
    S, A, R, S2, AB = W.before
    c.ensure_all('batch-untouched', (W.m,), lambda i: c.and_(
        c.eq(c.at(W.S, i, 0), c.at(S, i, 0)), c.eq(c.at(W.S2, i, 0), c.at(S2, i, 0)), c.eq(c.at(W.R, i), c.at(R, i)), c.eq(c.at(W.AB, i), c.at(AB, i)),
        *[c.eq(c.at(W.A, i, j), c.at(A, i, j)) for j in range(W.nA)]))


def fitted_on(W, nq):
    """one critic fit on states, actions and the target reward + gamma * nq(i), without bootstrap at absorbing states"""
    c = W.c
    S, A, R, S2, AB = W.before
    c.ensure('one-critic-fit', len(W.fits) == 1 and len(W.fits[0][1]) == 3)
    reg, (s, a, q), kw = W.fits[0]
    c.ensure('critic-fitted', reg.tag == 'critic')
    c.ensure('fit-parameters', kw == {'n_epochs': 4})
    c.ensure_shape('target-shape', q, (W.m,))
    c.ensure_all('fitted-on-the-states', (W.m,), lambda i: c.eq(c.at(s, i, 0), c.at(S, i, 0)))
    c.ensure_all('fitted-on-the-actions', (W.m, W.nA), lambda i, j: c.eq(c.at(a, i, j), c.at(A, i, j)))
    c.ensure_all('target', (W.m,), lambda i: c.eq(c.at(q, i), c.at(R, i) + W.gamma * c.ite(c.at(AB, i), 0., nq(i))))
    return reg


def mk_ddpg(td3):
    cls = 'TD3' if td3 else 'DDPG'

    @harness(P, cls.lower())
    def h(c):
        W = World(c, [DA + '.ddpg'])
        n = 2 if td3 else None
        lo, hi = c.array('lo', (2,), lo=-2, hi=0), c.array('hi', (2,), lo=0, hi=2)
        W.bounds = lambda: (lo, hi)
        kw = {}
        if td3:
            std, cl = c.real('std', 0, 2), c.real('clip', 0, 1)
            kw = dict(noise_std=std, noise_clip=cl)
            zs = []
            noise(c, [DA + '.td3'], zs, W)
        delay = c.choice('delay', [1, 2, 3])
        cp = dict(n_models=2) if td3 and c.choice('explicit', [True, False]) else {}
        ag = build(W, cls, cp, policy_delay=delay, **kw)
        if not hasattr(ag, '_fit_count'):
            unsup(c, 'the number of fits is kept under another name')
        c.ensure('fits-counted-from-zero', c.eq(ag._fit_count, 0))
        cnt = c.int('count', 0)
        ag._fit_count = cnt
        old = arbitrary_weights(W)
        ds = object()
        ag.fit(ds)
        c.ensure('data-stored-once', len(W.adds) == 1 and W.adds[0] is ds)
        if not W.Memory.initialized:
            c.ensure('nothing-learned-before-the-initial-size', not W.fits and not W.actor_updates() and
                     all(old[id(m)][0] == m.ver for r in W.regs for m in r.models))
            c.ensure('fits-counted', c.eq(ag._fit_count, cnt))
            return
        c.ensure('requested-batch', len(W.gets) == 1 and bool(c.eq(W.gets[0], 7)))
        reg = W.fits[0][0] if W.fits else None
        c.ensure('one-critic-fit', reg is not None)
        on, tg = W.roles('critic', reg)
        act, tact = W.roles('actor', W.actor)
        c.ensure('twin-critics', len(on) == (n or 1))
        v0 = lambda m: old[id(m)][0]
        S2 = W.before[3]
        ft = W.fn(tact[0], v0(tact[0]))

        def anext(i, j):
            x = ft(c.at(S2, i, 0), j)
            if td3:
                e = std * c.at(zs[0], i, j)
                e = c.ite(c.lt(e, -cl), -cl, lambda: c.ite(c.lt(cl, e), cl, e))
                x = x + e
                x = c.ite(c.lt(x, c.at(lo, j)), c.at(lo, j), lambda: c.ite(c.lt(c.at(hi, j), x), c.at(hi, j), x))
            return x

        if td3:
            c.ensure('one-noise-draw', len(zs) == 1)
        fq = [W.fn(m, v0(m)) for m in tg.models]
        fitted_on(W, lambda i: W.low([f(c.at(S2, i, 0), anext(i, 0), anext(i, 1)) for f in fq]))
        # actor
        due = c.eq(cnt % delay, 0)
        ev = W.actor_updates()
        c.ensure('actor-updated-on-schedule', lambda: c.eq(due, len(ev) > 0))
        if ev:
            c.ensure('zero-backward-clip-step', [e[0] for e in ev] == ['zero', 'backward'] + (['clip'] if W.clipped else []) + ['step'])
            c.ensure('actor-parameters-optimised', ev[0][1].params == [('par', 'actor', act[0].idx)])
            if W.clipped:
                c.ensure('clipping', ev[2][1] == [('par', 'actor', act[0].idx)] and ev[2][2] == {'max_norm': 5})
            vs = ev[1][2]
            S = W.before[0]
            fa, fc = W.fn(act[0], vs[id(act[0])]), W.fn(on[0], vs[id(on[0])])
            c.ensure('actor-loss-is-minus-the-mean-value-of-its-actions', lambda: c.eq(
                ev[1][1], -c.sum(W.m, lambda i: fc(c.at(S, i, 0), fa(c.at(S, i, 0), 0), fa(c.at(S, i, 0), 1))) / W.m))
        # targets
        W.soft(on, tg, [old[id(m)][1] for m in tg.models])
        W.soft(act, tact, [old[id(m)][1] for m in tact.models])
        c.ensure('critic-only-changed-by-its-fit', all(m.ver == v0(m) + 1 for m in on.models))
        c.ensure('actor-only-changed-by-its-step', act[0].ver == v0(act[0]) + (1 if ev else 0))
        c.ensure('fits-counted', c.eq(ag._fit_count, cnt + 1))
        batch_untouched(W)
    return h


def noise(c, mods, zs, W):
    """every way to draw Gaussian noise of the shape of a batch of actions: the standard normal draw is arbitrary and logged"""
    def draw(shape, lib='torch'):
        shape = tuple(shape)
        z = c.array('z%d' % len(zs), shape, lib=lib, lo=rng(c, 3)[0], hi=rng(c, 3)[1])
        zs.append(z)
        return c.copy(z)
    t = c.mod(mods[0]).torch
    c.stub(t, 'randn_like', lambda x, **k: draw(x.shape))
    c.stub(t, 'randn', lambda *s, **k: draw(s[0] if len(s) == 1 and not isinstance(s[0], int) else s))
    c.stub(t, 'normal', lambda mean=0., std=1., size=None, **k: mean + std * draw(size if size is not None else mean.shape))
    c.trust('torch samples the standard normal distribution')


mk_ddpg(False)
mk_ddpg(True)


class Normals:
    """torch.distributions.Normal: the reparametrised draw is mean + std * z, the density is arbitrary; requests logged"""

    def __init__(self, c, module):
        self.c, self.log = c, []
        G = self

        class Normal:
            _pydv_ghost = True

            def __init__(self, loc, scale, **k):
                self.m, self.s, self.z, self.x = c.copy(loc), c.copy(scale), None, None
                self.k = len(G.log)
                self.lp = c.func('lp%d' % self.k, 2, 'real', *rng(c, 3))
                G.log.append(self)

            def rsample(self, *a):
                if a or self.z is not None:
                    unsup(c, 'several draws')
                self.z = c.array('z%d' % self.k, tuple(self.m.shape), lib='torch', lo=rng(c, .5)[0], hi=rng(c, .5)[1])
                return self.m + self.s * self.z

            def log_prob(self, x):
                if self.x is not None:
                    unsup(c, 'several densities')
                self.x = c.copy(x)
                return c.tabulate(tuple(self.m.shape), lambda i, j: self.lp(i, j), lib='torch')
        c.stub(c.mod(module).torch.distributions, 'Normal', Normal)
        c.trust('torch.distributions.Normal evaluates and samples the Gaussian it is asked for')


def squashed(c, N, i, j, lo, hi):
    """the action and the correction of the log-density of component j of sample i"""
    raw = c.at(N.m, i, j) + c.at(N.s, i, j) * c.at(N.z, i, j)
    if not c.symbolic and abs(raw) > 2.5:
        c.assume(False)
    t = c.tanh(raw)
    return t * (.5 * (c.at(hi, j) - c.at(lo, j))) + .5 * (c.at(hi, j) + c.at(lo, j)), raw, c.log(1. - t * t + 1e-6)


def gaussian_of(c, N, reg_mu, reg_sg, W, S, n, smin, smax, vers=None):
    """the Gaussian asked for has the mean of the one network and the exponential of the clamped output of the other"""
    fm, fs = W.fn(reg_mu[0], vers and vers[id(reg_mu[0])]), W.fn(reg_sg[0], vers and vers[id(reg_sg[0])])
    c.ensure_shape('gaussian-shape', N.m, (n, W.nA))
    c.ensure_shape('gaussian-shape', N.s, (n, W.nA))

    def sd(i, j):
        x = fs(c.at(S, i, 0), j)
        return c.exp(c.ite(c.lt(x, smin), smin, lambda: c.ite(c.lt(smax, x), smax, x)))
    c.ensure_all('gaussian-mean', (n, W.nA), lambda i, j: c.eq(c.at(N.m, i, j), fm(c.at(S, i, 0), j)))
    c.ensure_all('gaussian-standard-deviation', (n, W.nA), lambda i, j: c.eq(c.at(N.s, i, j), sd(i, j)))


@harness(P, 'sac_policy')
def sac_policy(c):
    """squashed Gaussian: action inside the box, density corrected by the change of variables, clamped standard deviation"""
    W = World(c, [DA + '.sac'])
    G = Normals(c, DA + '.sac')
    mu, sg = W.Reg(None, tag='mu'), W.Reg(None, tag='sigma')
    lo, hi = c.array('lo', (2,), lo=-2, hi=0), c.array('hi', (2,), lo=0, hi=2)
    smin, smax = c.real('smin', -3, 0), c.real('smax', 0, 2)
    pi = c.mod(DA + '.sac').SACPolicy(mu, sg, lo, hi, smin, smax)
    what = c.choice('what', ['draw', 'log', 'log_t', 'entropy'])
    S = W.S
    if what == 'draw':
        r = pi.draw_action(S)
        c.ensure('no-policy-state', len(r) == 2 and r[1] is None)
        a, lp = r[0], None
    elif what == 'entropy':
        e = pi.entropy(S)
        a = None
    else:
        a, lp = pi.compute_action_and_log_prob(S) if what == 'log' else pi.compute_action_and_log_prob_t(S)
    c.ensure('one-gaussian', len(G.log) == 1)
    N = G.log[0]
    gaussian_of(c, N, mu, sg, W, W.before[0], W.m, smin, smax)
    sq = lambda i, j: squashed(c, N, i, j, lo, hi)
    if a is not None:
        c.ensure_shape('action-shape', a, (W.m, 2))
        c.ensure_all('action-is-the-squashed-sample', (W.m, 2), lambda i, j: c.eq(c.at(a, i, j), sq(i, j)[0]))
    if what != 'draw':
        c.ensure_all('density-of-the-sample', (W.m, 2), lambda i, j: c.eq(c.at(N.x, i, j), sq(i, j)[1]))
        logp = lambda i: sum(N.lp(i, j) - sq(i, j)[2] for j in range(2))
        if what == 'entropy':
            c.ensure('entropy-is-minus-the-mean-log-density', lambda: c.eq(num(c, e), -c.sum(W.m, logp) / W.m))
        else:
            c.ensure_shape('log-density-shape', lp, (W.m,))
            c.ensure_all('log-density-of-the-action', (W.m,), lambda i: c.eq(c.at(lp, i), logp(i)))
    batch_untouched(W)


@harness(P, 'sac_policy_weights')
def sac_weights(c):
    """the weight vector is the one of the mean followed by the one of the standard deviation, and reads back as set"""
    W = World(c, [DA + '.sac'])
    mu, sg = W.Reg(None, tag='mu'), W.Reg(None, tag='sigma')

    for r in (mu, sg):
        r.weights_size = 2
        r.get_weights, r.set_weights = r.models[0].get_weights, r.models[0].set_weights
    pi = c.mod(DA + '.sac').SACPolicy(mu, sg, c.np.array([-1., -1.]), c.np.array([1., 1.]), -20, 2)
    w = pi.get_weights()
    c.ensure_shape('size', w, (4,))
    c.ensure_all('layout', (2,), lambda k: c.and_(c.eq(c.at(w, k), c.at(mu[0].w, k)), c.eq(c.at(w, 2 + k), c.at(sg[0].w, k))))
    v = c.array('v', (4,), lib=c.choice('lib', ['np', 'torch']))
    pi.set_weights(v)
    w = pi.get_weights()
    c.ensure_all('reads-back', (4,), lambda k: c.eq(c.at(w, k), c.at(v, k)))
    c.ensure_all('layout', (2,), lambda k: c.and_(c.eq(c.at(v, k), c.at(mu[0].w, k)), c.eq(c.at(v, 2 + k), c.at(sg[0].w, k))))
    c.ensure('trainable-parameters', list(pi.parameters()) == [('par', 'mu', 0), ('par', 'sigma', 0)])


@harness(P, 'sac')
def sac(c):
    W = World(c, [DA + '.sac'])
    W.stateful = False
    G = Normals(c, DA + '.sac')
    sacm = c.mod(DA + '.sac')
    c.stub(sacm.optim, 'Adam', W.Opt)
    lo, hi = c.array('lo', (2,), lo=-2, hi=0), c.array('hi', (2,), lo=0, hi=2)
    smin, smax = c.real('smin', -3, 0), c.real('smax', 0, 2)
    warm = c.int('warmup', 0)
    te = c.choice('default_entropy', [True, False])
    H = -2. if te else c.real('H', -3, 3)
    loga = c.choice('log_alpha_loss', [False, True])
    clipped = c.choice('clipped', [False, True])
    info = c.mod('mushroom_rl.core').MDPInfo(box(c, (1,)), c.mod('mushroom_rl.rl_utils.spaces').Box(lo, hi, (2,)), W.gamma, 100)
    opts = []
    init = W.Opt.__init__

    class Opt(W.Opt):
        def __init__(self, params, **kw):
            init(self, params, **kw)
            opts.append((self, kw))
    c.stub(sacm.optim, 'Adam', Opt)
    W.Opt = Opt
    cp = dict(tag='critic', **(dict(n_models=2) if c.choice('explicit', [True, False]) else {}))
    given = [dict(tag='mu'), dict(tag='sigma'), W.optimizer(clipped), cp]
    unchanged = configuration(c, *given)
    ag = c.mod(AC).SAC(info, *given, 7, 11, 13, warm, W.tau, 5,
                       use_log_alpha_loss=loga, log_std_min=smin, log_std_max=smax, target_entropy=None if te else H, critic_fit_params={'n_epochs': 4})
    unchanged()
    c.ensure('memory-sizes', W.mem == (11, 13))
    c.ensure('two-optimizers', sorted(str(k) for _, k in opts) == sorted([str({'lr': 3}), str({'lr': 5})]))
    oact = [o for o, k in opts if k == {'lr': 3}][0]
    oalp = [o for o, k in opts if k == {'lr': 5}][0]
    if not hasattr(ag, '_log_alpha'):
        unsup(c, 'the entropy coefficient is kept under another name')
    c.ensure('entropy-coefficient-optimised', len(oalp.params) == 1 and oalp.params[0] is ag._log_alpha)
    c.ensure('actor-parameters-optimised', oact.params == [('par', 'mu', 0), ('par', 'sigma', 0)])
    mu, sg = W.of('mu')[0], W.of('sigma')[0]
    cr = W.of('critic')
    c.ensure('twin-critics', len(cr) == 2 and len(cr[0]) == 2 and len(cr[1]) == 2)
    for i in range(2):
        c.ensure_all('targets-start-as-the-online-critic', (2,), lambda k: c.eq(c.at(cr[0][i].w, k), c.at(cr[1][i].w, k)))
    la = c.array('la', (), lib='torch', lo=-2, hi=2)
    ag._log_alpha = la
    alpha = c.exp(num(c, la))
    old = arbitrary_weights(W)
    ds = object()
    ag.fit(ds)
    c.ensure('data-stored-once', len(W.adds) == 1 and W.adds[0] is ds)
    ev = W.actor_updates()
    if not W.Memory.initialized:
        c.ensure('nothing-learned-before-the-initial-size', not W.fits and not ev and all(old[id(m)][0] == m.ver for r in W.regs for m in r.models))
        return
    c.ensure('requested-batch', len(W.gets) == 1 and bool(c.eq(W.gets[0], 7)))
    c.ensure('one-critic-fit', len(W.fits) == 1)
    on, tg = W.roles('critic', W.fits[0][0])
    learns = c.lt(warm, W.size)
    c.ensure('actor-updated-after-the-warmup', lambda: c.eq(learns, len(ev) > 0))
    c.ensure('one-gaussian-per-batch', len(G.log) == (2 if ev else 1))
    S, A, R, S2, AB = W.before
    # which of the two distributions is that of the next states: the one whose mean is that of the next states
    nxt = G.log[-1] if not ev or len(W.fits) else G.log[-1]
    v0 = {k: v[0] for k, v in old.items()}
    if ev:
        vb = ev[1][2]
        va = {id(m): m.ver for r in W.regs for m in r.models}
        cur = G.log[0]
        gaussian_of(c, cur, mu, sg, W, S, W.m, smin, smax, vb)
        c.ensure('actor-then-entropy-coefficient', [e[0] for e in ev] == ['zero', 'backward'] + (['clip'] if clipped else []) + ['step', 'zero', 'backward', 'step'])
        k = 3 if clipped else 2
        c.ensure('optimizers', ev[0][1] is oact and ev[k][1] is oact and ev[k + 1][1] is oalp and ev[k + 3][1] is oalp)
        if clipped:
            c.ensure('clipping', ev[2][1] == oact.params and ev[2][2] == {'max_norm': 5})
        sq = lambda i, j: squashed(c, cur, i, j, lo, hi)
        logp = lambda i: sum(cur.lp(i, j) - sq(i, j)[2] for j in range(2))
        fc = [W.fn(m, vb[id(m)]) for m in on.models]
        val = lambda i: W.low([f(c.at(S, i, 0), sq(i, 0)[0], sq(i, 1)[0]) for f in fc])
        c.ensure('actor-loss', lambda: c.eq(ev[1][1], c.sum(W.m, lambda i: alpha * logp(i) - val(i)) / W.m))
        c.ensure('density-of-the-sample', lambda: c.all(W.m, lambda i: c.and_(*[c.eq(c.at(cur.x, i, j), sq(i, j)[1]) for j in range(2)])))
        co = num(c, la) if loga else alpha
        c.ensure('entropy-coefficient-loss', lambda: c.eq(ev[k + 2][1], -c.sum(W.m, lambda i: co * (logp(i) + H)) / W.m))
        gaussian_of(c, nxt, mu, sg, W, S2, W.m, smin, smax, va)
    else:
        gaussian_of(c, nxt, mu, sg, W, S2, W.m, smin, smax, v0)
    sn = lambda i, j: squashed(c, nxt, i, j, lo, hi)
    ft = [W.fn(m, v0[id(m)]) for m in tg.models]
    fitted_on(W, lambda i: W.low([f(c.at(S2, i, 0), sn(i, 0)[0], sn(i, 1)[0]) for f in ft]) -
              alpha * sum(nxt.lp(i, j) - sn(i, j)[2] for j in range(2)))
    W.soft(on, tg, [old[id(m)][1] for m in tg.models])
    c.ensure('critic-only-changed-by-its-fit', all(m.ver == v0[id(m)] + 1 for m in on.models))
    batch_untouched(W)


# ------------------------------------------------------------------ deep, on policy
class OnPolicy:
    """ghost policy: density an arbitrary function of (number of steps so far, state, action); ghost value function, dataset, preprocessor and optimiser.
    The first component of a state is the number of its row"""

    def __init__(self, c, module, n=3, prep=True, flags=(((0, 0, 1), (0, 0, 1)), ((0, 0, 0), (1, 0, 0)))):
        self.c, self.n, self.log, self.fits, self.steps = c, n, [], [], 0
        x, x2 = c.array('x', (n,)), c.array('x2', (n,))
        self.S = c.tabulate((n, 2), lambda i, j: c.ite(c.eq(j, 0), 1. * i, c.at(x, i)), lib='torch')
        self.S2 = c.tabulate((n, 2), lambda i, j: c.ite(c.eq(j, 0), 1. * i, c.at(x2, i)), lib='torch')
        self.A, self.R = c.array('A', (n, 1), lib='torch'), c.array('R', (n,), lib='torch')
        # (the estimators are proved for every pattern of flags in P14)
        ab, la = c.choice('flags', list(flags))
        if c.symbolic:
            self.AB, self.L = c.array('AB', (n,), 'bool', lib='torch'), c.array('LAST', (n,), 'bool', lib='torch')
            for i in range(n):
                c.assume(c.and_(c.eq(c.at(self.AB, i), bool(ab[i])), c.eq(c.at(self.L, i), bool(la[i]))))
        else:
            import torch
            self.AB, self.L = torch.tensor(ab, dtype=torch.bool), torch.tensor(la, dtype=torch.bool)
        self.before = [c.copy(t) for t in (self.S, self.A, self.R, self.S2, self.AB, self.L)]
        self.gamma = c.real('gamma', 0, 1)
        self.prep = c.choice('preprocessor', [False, True]) if prep else False
        lp, v, p = c.func('lp', 4, 'real', *rng(c, 1)), c.func('v', 3), c.func('p', 2)
        self.lp, self.v, self.p, self.ents = lp, v, p, []
        self.pver = 0
        W = self

        class Dist:
            _pydv_ghost = True

            def __init__(self, s, t):
                self.s, self.t = c.copy(s), t

            def log_prob(self, a):
                a = c.copy(a)
                s, t = self.s, self.t
                W.log.append(('density', t, s, a))
                return c.tabulate((s.shape[0],), lambda i: lp(t, c.at(s, i, 0), c.at(s, i, 1), c.at(a, i, 0)), lib='torch')

        class Pi(Policy):
            def parameters(self):
                return iter([('par', 'policy')])

            def distribution_t(self, s):
                return Dist(s, W.steps)
            distribution = distribution_t

            def log_prob_t(self, s, a):
                s, a, t = c.copy(s), c.copy(a), W.steps
                W.log.append(('density', t, s, a))
                return c.tabulate((s.shape[0], 1), lambda i, j: lp(t, c.at(s, i, 0), c.at(s, i, 1), c.at(a, i, 0)), lib='torch')

            def entropy_t(self, s):
                e = c.real('en%d' % len(W.ents), -2, 2)
                W.ents.append((c.copy(s), e, W.steps))
                return c.tabulate((), lambda: e, lib='torch')
        self.pi = Pi()

        class Reg:
            _pydv_ghost = True
            ver = 0

            def __init__(self, approximator, tag=None, **params):
                W.V = self

            def predict(self, s, **kw):
                s, t = c.copy(s), self.ver
                if len(s.shape) == 1:
                    return c.tabulate((1,), lambda j: v(t, c.at(s, 0), c.at(s, 1)), lib='torch')
                return c.tabulate((s.shape[0], 1), lambda i, j: v(t, c.at(s, i, 0), c.at(s, i, 1)), lib='torch')
            __call__ = predict

            def __len__(self):
                return 1

            def fit(self, s, t, **kw):
                W.fits.append((c.copy(s), c.copy(t), kw))
                self.ver += 1

        class Prep:
            _pydv_ghost = True

            def __call__(self, s):
                s, t = c.copy(s), W.pver
                return c.tabulate(tuple(s.shape), lambda i, j: c.ite(c.eq(j, 0), c.at(s, i, 0), p(t, c.at(s, i, 1))), lib='torch')

            def update(self, s):
                W.log.append(('update', c.copy(s)))
                W.pver += 1

        class Opt:
            _pydv_ghost = True

            def __init__(self, params, **kw):
                W.opt = (list(params), kw)

            def zero_grad(self, **k):
                W.log.append(('zero',))

            def step(self):
                W.log.append(('step',))
                W.steps += 1

        class DS:
            _pydv_ghost = True

            def parse(self, to=None):
                c.ensure('parsed-to-torch', to == 'torch')
                return [W.S, W.A, W.R, W.S2, W.AB, W.L]
        self.ds, self.Opt, self.Prep = DS(), Opt, Prep
        c.stub(c.mod(module), 'Regressor', Reg)
        c.on_backward(lambda x: W.log.append(('backward', x)))
        self.info = c.mod('mushroom_rl.core').MDPInfo(box(c, (2,)), box(c, (1,)), self.gamma, 100)

    def pre(self, s, i, ver):
        c = self.c
        return self.p(ver, c.at(s, i, 1)) if self.prep else c.at(s, i, 1)

    def logp(self, t, i, ver):
        """log-density, after t optimiser steps, of action i in its state as preprocessed after ver updates of the preprocessor"""
        return self.lp(t, i, self.pre(self.before[0], i, ver), self.c.at(self.before[1], i, 0))

    def gae(self, lam):
        """target and advantage of the real estimator (P14), on the value function and states of the property"""
        c = self.c
        S, A, R, S2, AB, L = self.before
        ver = 1 if self.prep else 0

        def V(s):
            return c.tabulate((self.n, 1), lambda i, j: self.v(0, c.at(s, i, 0), self.pre(s, i, ver)), lib='torch')
        return c.mod('mushroom_rl.rl_utils.value_functions').compute_gae(V, S, S2, R, AB, L, self.gamma, lam)

    def normalised(self, adv):
        c, n = self.c, self.n
        a = [c.at(adv, i, 0) for i in range(n)]
        m = sum(a) / n
        sd = c.sqrt(sum((t - m) * (t - m) for t in a) / (n - 1))
        if not c.symbolic and sd < 1e-3:
            c.assume(False)
        return [(t - m) / (sd + 1e-8) for t in a]

    def prep_ok(self):
        c = self.c
        ups = [e for e in self.log if e[0] == 'update']
        c.ensure('preprocessor-sees-the-states-once', len(ups) == (1 if self.prep else 0))
        for e in ups:
            c.ensure_all('preprocessor-sees-the-states', (self.n, 2), lambda i, j: c.eq(c.at(e[1], i, j), c.at(self.before[0], i, j)))

    def critic(self, tgt, kw):
        c, n = self.c, self.n
        c.ensure('one-critic-fit', len(self.fits) == 1)
        s, t, k = self.fits[0]
        c.ensure('critic-fit-parameters', k == kw)
        ver = 1 if self.prep else 0
        c.ensure_shape('critic-target-shape', t, (n, 1))
        c.ensure_all('critic-fitted-on-the-states', (n,), lambda i: c.and_(c.eq(c.at(s, i, 0), 1. * i), c.eq(c.at(s, i, 1), self.pre(self.before[0], i, ver))))
        c.ensure_all('critic-target', (n,), lambda i: c.eq(c.at(t, i, 0), c.at(tgt, i, 0)))

    def untouched(self):
        c = self.c
        now = (self.S, self.A, self.R, self.S2, self.AB, self.L)
        c.ensure('data-untouched', lambda: c.and_(*[c.all(self.n, lambda i: c.and_(*[c.eq(c.at(a, i, *j), c.at(b, i, *j)) for j in
                 ([(k,) for k in range(a.shape[1])] if len(a.shape) == 2 else [()])])) for a, b in zip(now, self.before)]))


def small(c, *xs):
    """concrete: exponentials of moderate numbers only"""
    if not c.symbolic and any(abs(x) > 20 for x in xs):
        c.assume(False)


@harness(P, 'a2c')
def a2c(c):
    W = OnPolicy(c, DA + '.a2c', prep=False)
    ent = c.real('ent', 0, 1)
    clip = c.choice('clip', ['none', 'norm', 'own'])
    own = lambda params, **kw: W.log.append(('clip', list(params), kw))
    opt = {'class': W.Opt, 'params': {'lr': 3}}
    kw = {}
    if clip == 'norm':
        kw['max_grad_norm'] = 5
        c.stub(c.mod(DA + '.a2c').torch.nn.utils, 'clip_grad_norm_', own)
    if clip == 'own':
        opt['clipping'] = dict(method=own, params=dict(max_norm=4))
        kw['max_grad_norm'] = c.choice('also', [None, 5])
    ag = c.mod(AC).A2C(W.info, W.pi, opt, dict(tag='V'), ent, critic_fit_params={'n_epochs': 4}, **kw)
    c.ensure('optimizer-configuration-untouched', set(opt) == ({'class', 'params', 'clipping'} if clip == 'own' else {'class', 'params'}))
    c.ensure('policy-parameters-optimised', W.opt == ([('par', 'policy')], {'lr': 3}))
    ag.fit(W.ds)
    S, A, R, S2, AB, L = W.before

    def V(s):
        if len(s.shape) == 1:
            return c.tabulate((1,), lambda j: W.v(0, c.at(s, 0), c.at(s, 1)), lib='torch')
        return c.tabulate((W.n, 1), lambda i, j: W.v(0, c.at(s, i, 0), c.at(s, i, 1)), lib='torch')
    tgt, adv = c.mod('mushroom_rl.rl_utils.value_functions').compute_advantage_montecarlo(V, S, S2, R, AB, W.gamma)
    W.critic(tgt, {'n_epochs': 4})
    ev = [e for e in W.log if e[0] in ('zero', 'backward', 'clip', 'step')]
    c.ensure('zero-backward-clip-step', [e[0] for e in ev] == ['zero', 'backward'] + (['clip'] if clip != 'none' else []) + ['step'])
    if clip != 'none':
        c.ensure('clipping', ev[2][1] == [('par', 'policy')] and ev[2][2] == (dict(max_norm=4) if clip == 'own' else dict(max_norm=5, norm_type=2)))
    c.ensure('one-entropy', len(W.ents) == 1)
    c.ensure_shape('entropy-of-the-states', W.ents[0][0], (W.n, 2))
    c.ensure_all('entropy-of-the-states', (W.n, 2), lambda i, j: c.eq(c.at(W.ents[0][0], i, j), c.at(S, i, j)))
    c.ensure('loss-is-the-published-one', lambda: c.eq(
        ev[1][1], -sum(W.logp(0, i, 0) * c.at(adv, i, 0) for i in range(W.n)) / W.n - ent * W.ents[0][1]))
    W.untouched()


def surrogate(c, terms, eps):
    """sum over the samples of min(ratio * advantage, ratio clipped to [1 - eps, 1 + eps] * advantage)"""
    T = c.mod(DA + '.ppo').torch
    small(c, *[d for d, _ in terms])
    tot = 0.
    for d, a in terms:
        r = c.tabulate((1,), lambda k: c.exp(d), lib='torch')
        cl = T.clamp(r, 1 - eps, 1 + eps)
        tot = tot + c.at(T.min(r * a, cl * a), 0)
    return tot if c.symbolic else float(tot)


@harness(P, 'ppo')
def ppo(c):
    W = OnPolicy(c, DA + '.ppo', prep=True)
    eps, lam, ent = c.real('eps', 0, 1), c.real('lam', 0, 1), c.real('ent', 0, 1)
    E, B, dflt = c.choice('epochs', [(1, 3, True), (1, 2, False), (2, 2, False)])
    perms = []

    def shuffle(a):
        pm = c.choice('perm%d' % len(perms), [(2, 0, 1), (1, 0, 2)])
        perms.append(pm)
        a[:] = c.np.array(pm) if not c.symbolic else c.np.array(list(pm))
    c.stub(c.np.random, 'shuffle', shuffle)
    c.trust('np.random.shuffle applies a permutation')
    ag = c.mod(AC).PPO(W.info, W.pi, {'class': W.Opt, 'params': {'lr': 3}}, dict(tag='V'), E, B, eps, lam, ent_coeff=ent,
                       critic_fit_params=None if dflt else {'n_epochs': 4})
    if W.prep:
        ag.add_agent_preprocessor(W.Prep())
    c.ensure('policy-parameters-optimised', W.opt == ([('par', 'policy')], {'lr': 3}))
    ag.fit(W.ds)
    W.prep_ok()
    ver = 1 if W.prep else 0
    tgt, adv = W.gae(lam)
    W.critic(tgt, {'n_epochs': 10} if dflt else {'n_epochs': 4})
    na = W.normalised(adv)
    nb = -(-W.n // B)
    ev = [e for e in W.log if e[0] in ('zero', 'backward', 'step')]
    c.ensure('zero-backward-step-per-minibatch', [e[0] for e in ev] == ['zero', 'backward', 'step'] * (nb * E))
    bw = [e[1] for e in ev if e[0] == 'backward']
    dens = [e for e in W.log if e[0] == 'density']
    c.ensure('densities', len(dens) == nb * E + 1 and len(W.ents) == nb * E)
    seen = []
    for t in range(nb * E):
        s = dens[1 + t][2]
        if t % nb == 0:
            seen = []
        ids = [int(c.at(s, k, 0)) for k in range(s.shape[0])]
        c.ensure('minibatch-size', len(ids) == (B if (t % nb) < nb - 1 or W.n % B == 0 else W.n % B))
        seen += ids
        if t % nb == nb - 1:
            c.ensure('every-sample-once-per-epoch', sorted(seen) == list(range(W.n)))
        es = W.ents[t]
        c.ensure('entropy-of-the-minibatch', lambda: c.and_(*[c.and_(c.eq(c.at(es[0], k, 0), 1. * i), c.eq(c.at(es[0], k, 1), W.pre(W.before[0], i, ver)))
                                                              for k, i in enumerate(ids)]))
        # the ratio of the density after t steps in the newly preprocessed states and of the old density in the states as preprocessed when acting
        tot = surrogate(c, [(W.logp(t, i, ver) - W.logp(0, i, 0), na[i]) for i in ids], eps)
        c.ensure('clipped-surrogate-and-entropy', lambda: c.eq(bw[t], -tot / len(ids) - ent * es[1]))
    W.untouched()


class TWorld(OnPolicy):
    """on-policy world with a weight vector; the density and the divergence depend on the number of times the weights were set"""

    def __init__(self, c):
        super().__init__(c, DA + '.trpo', flags=[((0, 0, 1), (1, 0, 1))])
        W = self
        self.kl = c.func('kl', 2, 'real', *((0, None) if c.symbolic else (0, .02)))
        self.w0 = c.array('w', (2,), lib='torch')
        self.set, self.kls = [], []

        class Param:
            _pydv_ghost = True

            def __init__(self):
                self.data = c.copy(W.w0)
                self.grad = None if W.prep else c.array('stale', (2,), lib='torch')
        self.par = Param()

        class Pi(type(self.pi)):
            def parameters(self):
                return iter([W.par])

            def get_weights(self):
                return c.copy(W.par.data)

            def set_weights(self, w):
                c.ensure_shape('weights-shape', w, (2,))
                W.par.data = c.copy(w)
                W.set.append(c.copy(w))
                W.steps += 1
        self.pi = Pi()
        self.g = c.array('g', (2,), lib='torch')

        def bw(x):
            W.log.append(('backward', x, W.par.grad))
            W.par.grad = c.copy(W.g)
        c.on_backward(bw)

        def kl_divergence(p, q):
            W.kls.append((p, q))
            s, t = q.s, q.t
            return c.tabulate((s.shape[0],), lambda i: W.kl(t, c.at(s, i, 0)), lib='torch')
        c.stub(c.mod(DA + '.trpo').torch.distributions.kl, 'kl_divergence', kl_divergence)
        c.trust('torch.distributions.kl_divergence(p, q) is the divergence of the two distributions')


def trpo_agent(c, W, **kw):
    ag = c.mod(AC).TRPO(W.info, W.pi, dict(tag='V'), **kw)
    for x in ('_fisher_vector_product', '_conjugate_gradient'):
        if not hasattr(ag, x):
            unsup(c, 'TRPO without ' + x)
    return ag


@harness(P, 'trpo')
def trpo(c):
    """surrogate, gradient, step length and line search, for any search direction and any Fisher matrix"""
    W = TWorld(c)
    mkl, lam, ent = c.real('max_kl', .001, .05), c.real('lam', 0, 1), c.real('ent', 0, 1)
    K, dflt = c.choice('trials', [(1, True), (2, False)])
    ag = trpo_agent(c, W, ent_coeff=ent, max_kl=mkl, lam=lam, n_epochs_line_search=K, critic_fit_params=None if dflt else {'n_epochs': 4})
    if W.prep:
        ag.add_agent_preprocessor(W.Prep())
    F = [[c.real('F00', 1, 2), c.real('F01', -.5, .5)], [None, c.real('F11', 1, 2)]]
    F[1][0] = F[0][1]
    x = c.array('direction', (2,), lib='torch', lo=.25, hi=2)
    cg = []

    def fisher(p, obs, dist):
        p = c.copy(p)
        return c.tabulate((2,), lambda i: c.ite(c.eq(i, 0), F[0][0] * c.at(p, 0) + F[0][1] * c.at(p, 1), F[1][0] * c.at(p, 0) + F[1][1] * c.at(p, 1)), lib='torch')

    def conj(b, obs, dist):
        cg.append((c.copy(b), c.copy(obs), dist))
        return c.copy(x)
    c.stub(ag, '_fisher_vector_product', fisher)
    c.stub(ag, '_conjugate_gradient', conj)
    ag.fit(W.ds)
    W.prep_ok()
    ver = 1 if W.prep else 0
    tgt, adv = W.gae(lam)
    W.critic(tgt, {'n_epochs': 5} if dflt else {'n_epochs': 4})
    na = W.normalised(adv)
    bw = [e for e in W.log if e[0] == 'backward']
    c.ensure('one-gradient', len(bw) == 1 and len(cg) == 1)
    c.ensure('gradient-starts-from-zero', lambda: True if bw[0][2] is None else c.and_(c.eq(c.at(bw[0][2], 0), 0.), c.eq(c.at(bw[0][2], 1), 0.)))
    c.ensure_all('direction-of-the-gradient', (2,), lambda k: c.eq(c.at(cg[0][0], k), c.at(W.g, k)))
    c.ensure_all('fisher-matrix-on-the-states', (W.n,), lambda i: c.eq(c.at(cg[0][1], i, 1), W.pre(W.before[0], i, ver)))
    c.ensure('fisher-matrix-of-the-old-policy', cg[0][2].t == 0)
    c.ensure_all('old-policy-in-the-states-as-preprocessed-when-acting', (W.n,), lambda i: c.eq(c.at(cg[0][2].s, i, 1), W.pre(W.before[0], i, 0)))

    def J(t):
        s = [W.logp(t, i, ver) - W.logp(0, i, 0) for i in range(W.n)]
        small(c, *s)
        return sum(c.exp(d) * a for d, a in zip(s, na)) / W.n + ent * W.ents[t][1]
    c.ensure('surrogate', lambda: c.eq(bw[0][1], J(0)))
    shs = .5 * (c.at(x, 0) * (F[0][0] * c.at(x, 0) + F[0][1] * c.at(x, 1)) + c.at(x, 1) * (F[1][0] * c.at(x, 0) + F[1][1] * c.at(x, 1)))
    lm = c.sqrt(shs / mkl)
    T = len(W.kls)
    c.ensure('at-most-the-given-number-of-trials', 1 <= T <= K)
    for t in range(T):
        c.ensure_all('trial-step-has-the-length-of-the-trust-region-halved-each-time', (2,), lambda k: c.eq(
            c.at(W.set[t], k), c.at(W.w0, k) + c.at(x, k) / lm * .5 ** t))
        p, q = W.kls[t]
        c.ensure('divergence-from-the-old-policy', p.t == 0 and q.t == t + 1)
    ok = []
    for t in range(T):
        kl = sum(W.kl(t + 1, 1. * i) for i in range(W.n)) / W.n
        d = J(t + 1) - J(0)
        if not c.symbolic and (abs(d) < 1e-4 or abs(kl - 1.5 * mkl) < 1e-5):
            c.assume(False)
        ok.append(c.and_(c.le(kl, 1.5 * mkl), c.le(0., d)) if c.symbolic else kl <= 1.5 * mkl and d >= 0)
    for t in range(T - 1):
        c.ensure('stops-at-the-first-acceptable-trial', lambda: c.not_(ok[t]))
    c.ensure('stops-only-when-acceptable-or-exhausted', lambda: c.or_(ok[T - 1], T == K))
    c.ensure_all('acceptable-weights-kept-else-the-old-ones-restored', (2,), lambda k: c.eq(
        c.at(W.par.data, k), c.ite(ok[T - 1], c.at(W.set[T - 1], k), c.at(W.w0, k))))
    W.untouched()


def mk_cg(steps):
    @harness(P, f'trpo_conjugate_gradient_{steps}_steps', **({'bounded_only': True} if steps == 2 else {}))
    def h(c):
        """conjugate gradient for a positive definite matrix: after one step the minimiser along the gradient, after two the solution"""
        W = TWorld(c)
        ag = trpo_agent(c, W, n_epochs_cg=steps, cg_residual_tol=0.)
        a, d, o = c.real('F00', 1, 2), c.real('F11', 1, 2), c.real('F01', -.5, .5)

        def fisher(p, obs, dist):
            p = c.copy(p)
            return c.tabulate((2,), lambda i: c.ite(c.eq(i, 0), a * c.at(p, 0) + o * c.at(p, 1), o * c.at(p, 0) + d * c.at(p, 1)), lib='torch')
        c.stub(ag, '_fisher_vector_product', fisher)
        b = c.array('b', (2,), lib='torch', lo=.25, hi=2)
        b0 = c.copy(b)
        x = ag._conjugate_gradient(b, W.S, None)
        c.ensure_shape('shape', x, (2,))
        p, q = c.at(b0, 0), c.at(b0, 1)
        fb = a * p * p + 2 * o * p * q + d * q * q
        if steps == 1:
            for k in range(2):
                c.ensure_eq('minimises-along-the-gradient', c.at(x, k) * fb, (p * p + q * q) * c.at(b0, k))
        else:
            r0, r1 = p - (p * p + q * q) / fb * (a * p + o * q), q - (p * p + q * q) / fb * (o * p + d * q)
            c.assume(c.lt(1e-4, r0 * r0 + r1 * r1))
            c.ensure('solves-the-system', lambda: c.and_(c.eq(a * c.at(x, 0) + o * c.at(x, 1), p), c.eq(o * c.at(x, 0) + d * c.at(x, 1), q)))
    return h


mk_cg(1)
mk_cg(2)


# ------------------------------------------------------------------ gradients, with the real torch (concrete inputs only: bounded)
def nets(c):
    import torch
    nn = torch.nn

    class Net(nn.Module):
        """smooth network of one hidden layer over the concatenated inputs; weights given"""
        def __init__(self, input_shape, output_shape, squeeze=False, **k):
            super().__init__()
            self.a, self.b, self.squeeze = nn.Linear(input_shape[0], 3), nn.Linear(3, output_shape[0]), squeeze

        def forward(self, *x):
            y = self.b(torch.tanh(self.a(torch.cat([t.float() for t in x], -1))))
            return y.squeeze(-1) if self.squeeze else y
    return Net


def real_world(c, module, n=4):
    import torch
    torch.manual_seed(c.int('torch_seed', 0, 10 ** 6))

    class W:
        S, S2 = c.array('S', (n, 2), lib='torch', lo=-1, hi=1), c.array('S2', (n, 2), lib='torch', lo=-1, hi=1)
        A, R = c.array('A', (n, 2), lib='torch', lo=-1, hi=1), c.array('R', (n,), lib='torch', lo=-1, hi=1)
        AB = c.array('AB', (n,), 'bool', lib='torch')
        z = [c.array('z%d' % i, (n, 2), lib='torch', lo=-1, hi=1) for i in range(3)]
    W.n = n

    class Memory:
        initialized, size = True, 100

        def __init__(self, *a, **k):
            pass

        def add(self, d):
            pass

        def get(self, k):
            return [W.S, W.A, W.R, W.S2, W.AB, W.AB]
    if hasattr(c.mod(module), 'ReplayMemory'):
        c.stub(c.mod(module), 'ReplayMemory', Memory)
    W.info = c.mod('mushroom_rl.core').MDPInfo(box(c, (2,)), box(c, (2,)), .9, 100)
    W.opt = lambda lr: {'class': torch.optim.SGD, 'params': {'lr': lr}}
    Net = nets(c)
    W.critic = dict(network=Net, optimizer=W.opt(.5), loss=torch.nn.functional.mse_loss, input_shape=(4,), output_shape=(1,), squeeze=True, quiet=True)
    W.value = dict(network=Net, optimizer=W.opt(.5), loss=torch.nn.functional.mse_loss, input_shape=(2,), output_shape=(1,), quiet=True)
    W.actor = dict(network=Net, input_shape=(2,), output_shape=(2,))
    W.Net = Net
    return W


def params(*ms):
    return [p for m in ms for p in m.parameters()]


def flat(ps):
    import torch
    return torch.cat([p.detach().reshape(-1) for p in ps]).clone()


def sgd(loss, ps, lr):
    import torch
    g = torch.autograd.grad(loss, ps, allow_unused=True)
    return torch.cat([(p - lr * (d if d is not None else 0 * p)).detach().reshape(-1) for p, d in zip(ps, g)])


def close(c, name, a, b):
    import torch
    c.ensure(name, a.shape == b.shape and bool(torch.allclose(a, b, atol=2e-5, rtol=2e-4)))


def mk_grad(cls):
    @harness(P, 'gradient_steps_' + cls.lower(), bounded_only=True)
    def h(c):
        """actor and critic move by exactly the gradient of their published losses (autograd of the real torch)"""
        if c.symbolic:
            unsup(c, 'autograd')
        import torch
        import copy
        twin = cls != 'DDPG'
        m = DA + ('.sac' if cls == 'SAC' else '.ddpg')
        W = real_world(c, m)
        noises = []
        if cls == 'TD3':
            c.stub(torch, 'randn_like', lambda x, **k: noises.append(1) or W.z[len(noises) - 1].clone())
        if cls == 'SAC':
            N = torch.distributions.Normal

            class Normal(N):
                def rsample(self, *a):
                    noises.append(1)
                    return self.loc + self.scale * W.z[len(noises) - 1]
            c.stub(torch.distributions, 'Normal', Normal)
            ag = c.mod(AC).SAC(W.info, W.actor, dict(W.actor), W.opt(.3), W.critic, W.n, 1, 10, 0, .1, .01)
            ag.policy._mu_approximator
            nets_ = [ag.policy._mu_approximator.model.network, ag.policy._sigma_approximator.model.network]
        else:
            ag = getattr(c.mod(AC), cls)(W.info, Policy, {}, W.actor, W.opt(.3), W.critic, W.n, 1, 10, .1, policy_delay=1)
            nets_ = [ag._actor_approximator.model.network]
        if not all(hasattr(ag, x) for x in ('_critic_approximator', '_target_critic_approximator')):
            unsup(c, 'networks under other names')
        crit = [ag._critic_approximator[i].network for i in range(2 if twin else 1)]
        tcrit = [copy.deepcopy(ag._target_critic_approximator[i].network) for i in range(2 if twin else 1)]
        tact = copy.deepcopy(ag._target_actor_approximator.model.network) if cls != 'SAC' else None
        old = copy.deepcopy(nets_)
        oldc = copy.deepcopy(crit)
        ag.fit(object())
        with torch.no_grad():
            nb = 1. - W.AB.float()
        # critic target
        def sample(ns, s, z):
            d = torch.distributions.Normal(ns[0](s), torch.clamp(ns[1](s), -20, 2).exp())
            raw = d.loc + d.scale * z
            a = torch.tanh(raw)
            return a, d.log_prob(raw).sum(1) - torch.log(1. - a.pow(2) + 1e-6).sum(1)
        # actor before the critic (SAC) or after it (DDPG, TD3): the loss uses the critic of that moment
        if cls == 'SAC':
            a, lp = sample(old, W.S, W.z[0])
            q = torch.min(oldc[0](W.S, a), oldc[1](W.S, a))
            close(c, 'actor-step', flat(params(*nets_)), sgd((lp - q).mean(), params(*old), .3))
            alpha = ag._log_alpha.detach().exp()
            a2, lp2 = sample(nets_, W.S2, W.z[1])
            nq = torch.min(tcrit[0](W.S2, a2), tcrit[1](W.S2, a2)) - alpha * lp2
        else:
            a2 = tact(W.S2)
            if cls == 'TD3':
                a2 = torch.clamp(a2 + torch.clamp(.2 * W.z[0], -.5, .5), -1., 1.)
            nq = tcrit[0](W.S2, a2)
            if twin:
                nq = torch.min(nq, tcrit[1](W.S2, a2))
            loss = -crit[0](W.S, old[0](W.S)).mean()
            close(c, 'actor-step', flat(params(*nets_)), sgd(loss, params(*old), .3))
        y = (W.R + .9 * nb * nq).detach()
        for i, o in enumerate(oldc):
            close(c, 'critic-step', flat(params(crit[i])), sgd(torch.nn.functional.mse_loss(o(W.S, W.A), y), params(o), .5))
            t = ag._target_critic_approximator[i].network
            close(c, 'target-step', flat(params(t)), .1 * flat(params(crit[i])) + .9 * flat(params(tcrit[i])))
    return h


for _c in ('DDPG', 'TD3', 'SAC'):
    mk_grad(_c)


def mk_grad_on(cls):
    @harness(P, 'gradient_steps_' + cls.lower(), bounded_only=True)
    def h(c):
        """the policy moves by exactly the gradient of the published loss, the critic by the gradient of its regression (autograd of the real torch)"""
        if c.symbolic:
            unsup(c, 'autograd')
        import torch
        import copy
        W = real_world(c, DA + '.' + cls.lower())
        L = torch.tensor([False, True, False, True])
        AB = torch.tensor([False, False, False, c.choice('end', [False, True])])
        pi = c.mod('mushroom_rl.policy').GaussianTorchPolicy(W.Net, (2,), (2,), std_0=.8)

        class DS:
            def parse(self, to=None):
                return [W.S, W.A, W.R, W.S2, AB, L]
        vf = c.mod('mushroom_rl.rl_utils.value_functions')
        n = W.n
        if cls == 'A2C':
            ag = c.mod(AC).A2C(W.info, pi, W.opt(.3), W.value, .01)
        else:
            E = 2
            ag = c.mod(AC).PPO(W.info, pi, W.opt(.3), W.value, E, n, .2, .95, ent_coeff=.01, critic_fit_params=dict(n_epochs=1))
        if not hasattr(ag, '_V'):
            unsup(c, 'value function under another name')
        V = ag._V.model.network
        oldV, old = copy.deepcopy(V), copy.deepcopy(pi)
        ag.fit(DS())
        with torch.no_grad():
            if cls == 'A2C':
                y, adv = vf.compute_advantage_montecarlo(oldV, W.S, W.S2, W.R, AB, .9)
            else:
                y, adv = vf.compute_gae(oldV, W.S, W.S2, W.R, AB, L, .9, .95)
                adv = (adv - adv.mean()) / (adv.std() + 1e-8)
                lp0 = old.log_prob_t(W.S, W.A)
        close(c, 'critic-step', flat(params(V)), sgd(torch.nn.functional.mse_loss(oldV(W.S), y), params(oldV), .5))
        for e in range(1 if cls == 'A2C' else E):
            ps = list(old.parameters())
            lp = old.log_prob_t(W.S, W.A)
            if cls == 'A2C':
                loss = -(lp * adv).mean() - .01 * old.entropy_t(W.S)
            else:
                r = torch.exp(lp - lp0)
                loss = -torch.min(r * adv, torch.clamp(r, .8, 1.2) * adv).mean() - .01 * old.entropy_t(W.S)
            old.set_weights(sgd(loss, ps, .3))
        close(c, 'actor-step', flat(list(pi.parameters())), flat(list(old.parameters())))
    return h


mk_grad_on('A2C')
mk_grad_on('PPO')
