"""P24 - policy search: gradient estimators, black-box updates, gradient optimisers."""
from pydv.ctx import harness
from .common import mdp, unsup

PRELOAD = ['mushroom_rl.algorithms.policy_search', 'mushroom_rl.algorithms.policy_search.black_box_optimization', 'mushroom_rl.rl_utils.optimizers',
           'mushroom_rl.core', 'mushroom_rl.policy', 'mushroom_rl.distributions', 'mushroom_rl.utils.minibatches']
P = 'P24'
PS = 'mushroom_rl.algorithms.policy_search'
N = 2            # policy parameters


class World:
    """ghost policy (arbitrary log-derivatives), ghost optimiser (arbitrary step, logged), data with the given episode lengths"""

    def __init__(self, c, lengths, tail=0, tag='', zero=None):
        self.c, self.lengths, self.tail = c, lengths, tail
        T = sum(lengths) + tail
        sp, core = c.mod('mushroom_rl.rl_utils.spaces'), c.mod('mushroom_rl.core')
        box = lambda: sp.Box(-c.np.ones(1), c.np.ones(1)) if c.symbolic else sp.Box(-10., 10., (1,))
        if not tag:
            self.gamma = c.real('gamma', 0, 1)
            self.info, *_ = mdp(c, obs=box(), act=box(), gamma=self.gamma)
            self.d, self.zero = c.func('dlog', 3), zero
            self.policy, self.optimizer = self.mk_policy(), self.mk_optimizer()
            self.steps, self.sets = [], []
            self.w0 = c.array('w0', (N,))
            self.w = self.w0
        self.x, self.u, self.r = c.array('x' + tag, (T, 1)), c.array('u' + tag, (T, 1)), c.array('r' + tag, (T,))

    def dlog(self, x, u):
        c = self.c
        X, U = c.at(x, 0), c.at(u, 0)
        return c.tabulate((N,), lambda j: 0. if self.zero is not None and j == self.zero else self.d(j, X, U))

    def mk_policy(self):
        W = self

        class Pol:
            _pydv_ghost = True
            policy_state_shape = None
            weights_size = N
            is_stateful = False

            def diff_log(self, x, u, policy_state=None):
                return W.dlog(x, u)

            def get_weights(self): return W.c.copy(W.w)

            def set_weights(self, w):
                W.w = W.c.copy(w)
                W.sets.append(W.w)

            def reset(self): return None
        return Pol()

    def mk_optimizer(self):
        W = self

        class Opt:
            _pydv_ghost = True

            def __call__(self, params, *grads):
                c = W.c
                out = c.array('w%d' % (len(W.steps) + 1), (N,))
                W.steps.append((c.copy(params), [c.copy(g) for g in grads], c.copy(out)))
                return out
        return Opt()

    def agent(self, name):
        self.ag = getattr(self.c.mod(PS), name)(self.info, self.policy, self.optimizer)
        return self.ag

    def dataset(self, agent):
        c = self.c
        core = c.mod('mushroom_rl.core')
        T = sum(self.lengths) + self.tail
        ds = core.Dataset.generate(self.info, agent.info, n_steps=T)
        t = 0
        for L in list(self.lengths) + ([self.tail] if self.tail else []):
            for k in range(L):
                ends = k == L - 1 and t < sum(self.lengths)
                ds.append((self.x[t], self.u[t], c.at(self.r, t), self.x[t], False, ends), {})
                t += 1
        return ds

    # ---- what the estimates are made of
    def episodes(self, include_tail=False):
        t = 0
        for L in list(self.lengths) + ([self.tail] if include_tail and self.tail else []):
            yield list(range(t, t + L))
            t += L

    def D(self, t, j):
        c = self.c
        if self.zero is not None and j == self.zero:
            return 0.
        return self.d(j, c.at(self.x, t, 0), c.at(self.u, t, 0))

    def post(self, k, g):
        """the k-th step of the optimiser got the weights before it and the gradient g; the policy has its result"""
        c = self.c
        c.ensure('one-step-per-fit', len(self.steps) == k + 1 and len(self.sets) == k + 1)
        par, grads, out = self.steps[k]
        before = self.w0 if k == 0 else self.steps[k - 1][2]
        c.ensure('one-gradient', len(grads) == 1)
        c.ensure_shape('gradient-shape', grads[0], (N,))
        for j in range(N):
            c.ensure('current-weights', lambda: c.eq(c.at(par, j), c.at(before, j)))
            c.ensure('new-weights', lambda: c.eq(c.at(self.sets[k], j), c.at(out, j)))
            c.ensure('gradient', lambda: c.eq(c.at(grads[0], j), g(j)))


def div(c, a, b):
    """a / b, and 0 where b is 0"""
    if c.symbolic:
        return c.ite(c.eq(b, 0.), 0., a / b)
    return a / b if b else 0.


def G_reinforce(W):
    c = W.c

    def g(j):
        S, J = [], []
        for ep in W.episodes():
            s, jj, df = 0., 0., 1.
            for t in ep:
                s, jj, df = s + W.D(t, j), jj + df * c.at(W.r, t), df * W.gamma
            S.append(s)
            J.append(jj)
        n = len(S)
        b = div(c, sum(s * s * q for s, q in zip(S, J)) / n, sum(s * s for s in S) / n)
        return sum(s * (q - b) for s, q in zip(S, J)) / n
    return g


def G_gpomdp(W):
    c = W.c

    def g(j):
        eps = list(W.episodes())
        S, R = [], []
        for ep in eps:
            s, df, ss, rr = 0., 1., [], []
            for t in ep:
                s = s + W.D(t, j)
                ss.append(s)
                rr.append(df * c.at(W.r, t))
                df = df * W.gamma
            S.append(ss)
            R.append(rr)
        tot = 0.
        for e in range(len(eps)):
            for t in range(len(eps[e])):
                al = [i for i in range(len(eps)) if len(eps[i]) > t]
                b = div(c, sum(R[i][t] * S[i][t] * S[i][t] for i in al) / len(al), sum(S[i][t] * S[i][t] for i in al) / len(al))
                tot = tot + S[e][t] * (R[e][t] - b)
        return tot / len(eps)
    return g


def mk(alg, G, lengths, zero=None):
    @harness(P, f'{alg.lower()}_{"_".join(map(str, lengths))}' + ('_flat' if zero is not None else ''))
    def h(c):
        W = World(c, lengths, zero=zero)
        W.agent(alg).fit(W.dataset(W.ag))
        W.post(0, G(W))


for alg, G in (('REINFORCE', G_reinforce), ('GPOMDP', G_gpomdp)):
    mk(alg, G, (1, 1))
    mk(alg, G, (2, 1))
    mk(alg, G, (1, 2))
    mk(alg, G, (2, 2), zero=1)
mk('REINFORCE', G_reinforce, (1, 2, 1))


def mk2(alg, G, tail):
    @harness(P, f'{alg.lower()}_second_fit' + ('_after_cut_episode' if tail else ''))
    def h(c):
        """nothing of the first data set, an episode cut at its end included, is left in the second fit"""
        W = World(c, (1, 1), tail=tail)
        ag = W.agent(alg)
        ag.fit(W.dataset(ag))
        V = World.__new__(World)
        V.__dict__.update(W.__dict__)
        V.__init__(c, (2, 1), tag='b')
        ag.fit(V.dataset(ag))
        W.post(1, G(V))


mk2('REINFORCE', G_reinforce, 0)
mk2('GPOMDP', G_gpomdp, 0)
mk2('REINFORCE', G_reinforce, 1)
mk2('GPOMDP', G_gpomdp, 1)


# ------------------------------------------------------------------ eNAC
def mk_enac(lengths, critic, twice=False):
    @harness(P, f'enac_{"_".join(map(str, lengths))}' + ('_critic' if critic else '') + ('_second_fit' if twice else ''))
    def h(c):
        W = World(c, lengths, tail=1 if twice else 0)
        f = c.func('phi', 2)
        M = 2 if critic else 1
        phi = (lambda x: c.tabulate((M,), (lambda X: lambda i: f(i, X))(c.at(x, 0)))) if critic else None
        calls = []
        if c.symbolic:
            def pinv(m, *a, **k):
                if a or k:
                    unsup(c, 'pinv with options')
                m = c.copy(m)
                r = c.array('pinv%d' % len(calls), (m.shape[1], m.shape[0]))
                calls.append((m, c.copy(r)))
                return r
        else:
            real = c.np.linalg.pinv

            def pinv(m, *a, **k):
                r = real(m, *a, **k)
                calls.append((m.copy(), r.copy()))
                return r
        c.stub(c.np.linalg, 'pinv', pinv)
        c.trust('np.linalg.pinv returns the pseudo-inverse (any matrix of the transposed shape)')
        ag = getattr(c.mod(PS), 'eNAC')(W.info, W.policy, W.optimizer, critic_features=phi)
        ag.fit(W.dataset(ag))
        k = 0
        if twice:
            V = World.__new__(World)
            V.__dict__.update(W.__dict__)
            V.__init__(c, tuple(reversed(lengths)), tag='b')
            ag.fit(V.dataset(ag))
            k, (W0, W) = 1, (W, V)
        E = len(W.lengths)
        c.ensure('one-least-squares-problem-per-fit', len(calls) == k + 1)
        psi, inv = calls[k]
        c.ensure_shape('one-row-per-episode', psi, (E, N + M))
        J = []
        for e, ep in enumerate(W.episodes()):
            jj, df, S = 0., 1., [0.] * N
            for t in ep:
                for j in range(N):
                    S[j] = S[j] + df * W.D(t, j)
                jj, df = jj + df * c.at(W.r, t), df * W.gamma
            J.append(jj)
            for j in range(N):
                c.ensure('row-is-the-discounted-sum-of-log-derivatives', lambda: c.eq(c.at(psi, e, j), S[j]))
            for j in range(M):
                want = f(j, c.at(W.x, ep[0], 0)) if critic else 1.
                c.ensure('row-ends-with-the-critic-features-of-the-first-state', lambda: c.eq(c.at(psi, e, N + j), want))
        (W0 if twice else W).post(k, lambda j: sum(c.at(inv, j, e) * J[e] for e in range(E)))


mk_enac((1, 1), False)
mk_enac((2, 1), True)
mk_enac((1, 2), False, True)


# ------------------------------------------------------------------ optimisers
OP = 'mushroom_rl.rl_utils.optimizers'


def same(c, name, a, b, n):
    for j in range(n):
        c.ensure(name, lambda: c.eq(c.at(a, j), c.at(b, j)))


def mk_sgd(maximize, param):
    @harness(P, f'sgd_{"ascent" if maximize else "descent"}' + ('_scheduled' if param else ''))
    def h(c):
        n = c.size('n', 1)
        lr = c.real('lr', 0, 1)
        m = c.mod(OP)
        rate = c.mod('mushroom_rl.rl_utils.parameters').DecayParameter(lr, exp=1.) if param else lr
        o = m.SGDOptimizer(rate if param or not c.symbolic else c.mod('mushroom_rl.rl_utils.parameters').Parameter(rate), maximize=maximize)
        w, g = c.array('w', (n,)), c.array('g', (n,))
        w0, g0 = c.copy(w), c.copy(g)
        for k in range(2):
            r = o(w, g)
            c.ensure_shape('shape', r, (n,))
            a = lr / (k + 1) if param else lr
            c.ensure_all('step', (n,), lambda i: c.eq(c.at(r, i), c.at(w0, i) + (a if maximize else -a) * c.at(g0, i)))
            c.ensure_all('gradient-of-the-caller-untouched', (n,), lambda i: c.eq(c.at(g, i), c.at(g0, i)))
            c.ensure_all('weights-of-the-caller-untouched', (n,), lambda i: c.eq(c.at(w, i), c.at(w0, i)))


for mx in (True, False):
    mk_sgd(mx, False)
    mk_sgd(mx, True)


def mk_adam(maximize):
    @harness(P, f'adam_{"ascent" if maximize else "descent"}')
    def h(c):
        n = 2
        lr, b1, b2, eps = c.real('lr', 0, 1), c.real('b1', 0, .9), c.real('b2', 0, .9), c.real('e', .001, 1)
        par = c.mod('mushroom_rl.rl_utils.parameters').Parameter(lr)
        o = c.mod(OP).AdamOptimizer(par, beta1=b1, beta2=b2, eps=eps, maximize=maximize)
        w = c.array('w', (n,))
        m, v, w0 = [0.] * n, [0.] * n, c.copy(w)
        sg = 1. if maximize else -1.
        for k in range(3):
            g = c.array('g%d' % k, (n,))
            g0 = c.copy(g)
            r = o(w, g)
            c.ensure_shape('shape', r, (n,))
            p1, p2 = 1., 1.
            for _ in range(k + 1):
                p1, p2 = p1 * b1, p2 * b2
            for j in range(n):
                G = sg * c.at(g0, j)
                m[j] = b1 * m[j] + (1 - b1) * G
                v[j] = b2 * v[j] + (1 - b2) * G * G
                want = c.at(w0, j) + lr * (m[j] / (1 - p1)) / (c.sqrt(v[j] / (1 - p2)) + eps)
                c.ensure('step', lambda: c.eq(c.at(r, j), want))
            same(c, 'gradient-of-the-caller-untouched', g, g0, n)
            same(c, 'weights-of-the-caller-untouched', w, w0, n)


mk_adam(True)
mk_adam(False)


def mk_adaptive(maximize, natural):
    @harness(P, f'adaptive_{"ascent" if maximize else "descent"}' + ('_natural' if natural else ''))
    def h(c):
        n = 2
        eps = c.real('eps', .01, 10)
        o = c.mod(OP).AdaptiveOptimizer(eps, maximize=maximize)
        w, g, q = c.array('w', (n,)), c.array('g', (n,)), c.array('q', (n,))
        if not natural:
            q = g
        dot = sum(c.at(g, j) * c.at(q, j) for j in range(n))
        c.assume(c.le(.001, dot))
        w0, g0, q0 = c.copy(w), c.copy(g), c.copy(q)
        r = o(w, g, q) if natural else o(w, g)
        c.ensure_shape('shape', r, (n,))
        lam = c.sqrt(dot / (4 * eps))
        lam = c.ite(c.lt(lam, 1e-8), 1e-8, lam)
        for j in range(n):
            c.ensure('step', lambda: c.eq(c.at(r, j), c.at(w0, j) + (1 if maximize else -1) * c.at(q0, j) / (2 * lam)))
        same(c, 'gradient-of-the-caller-untouched', g, g0, n)
        same(c, 'natural-gradient-of-the-caller-untouched', q, q0, n)
        same(c, 'weights-of-the-caller-untouched', w, w0, n)


for mx in (True, False):
    for nat in (True, False):
        mk_adaptive(mx, nat)


# ------------------------------------------------------------------ black-box optimisation
BB = PS + '.black_box_optimization'


class Dist:
    """ghost distribution over policy parameters: every answer arbitrary, every request logged"""
    _pydv_ghost = True

    def __init__(self, c, n=N, contextual=False):
        self.c, self.n, self.is_contextual, self.log = c, n, contextual, []
        self.dl = c.func('dlogdist', 3)
        self.rho = None

    def _new(self, what):
        return self.c.array('%s%d' % (what, sum(e[0] == what for e in self.log)), (self.n,))

    def sample(self, context=None):
        r = self._new('sample')
        self.log.append(('sample', context, self.c.copy(r)))
        return r

    def mean(self, context=None):
        r = self._new('mean')
        self.log.append(('mean', context, self.c.copy(r)))
        return r

    def diff_log(self, theta, context=None):
        c = self.c
        t, x = c.at(theta, 0), c.at(context, 0) if context is not None else 0.
        return c.tabulate((self.n,), lambda j: self.dl(j, t, x))

    def mle(self, theta, weights=None):
        self.log.append(('mle', self.c.copy(theta), None if weights is None else self.c.copy(weights)))

    def con_wmle(self, theta, weights, eps, kappa):
        self.log.append(('con_wmle', self.c.copy(theta), self.c.copy(weights), eps, kappa))

    def get_parameters(self):
        return self.c.copy(self.rho)

    def set_parameters(self, rho):
        self.log.append(('set', self.c.copy(rho)))
        self.rho = self.c.copy(rho)


class Pol:
    _pydv_ghost = True
    policy_state_shape = None
    is_stateful = False
    weights_size = N

    def __init__(self):
        self.sets, self.resets = [], 0

    def set_weights(self, w):
        self.sets.append(w)
        self.w = w

    def get_weights(self): return self.w

    def reset(self):
        self.resets += 1
        return None


def bb_info(c):
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    box = lambda: sp.Box(-c.np.ones(1), c.np.ones(1)) if c.symbolic else sp.Box(-10., 10., (1,))
    return mdp(c, obs=box(), act=box())[0]


def bb_agent(c, name, *a, contextual=False, **k):
    d, p = Dist(c, contextual=contextual), Pol()
    cls = getattr(c.mod(BB), name)
    if contextual:
        class CB(c.mod(BB).ContextBuilder):
            def __call__(self, initial_state, **info):
                return initial_state * 2
        k['context_builder'] = CB()
    return cls(bb_info(c), d, p, *a, **k), d, p


def mk_start(contextual, deterministic):
    @harness(P, 'black_box_episode' + ('_context' if contextual else '') + ('_deterministic' if deterministic else ''))
    def h(c):
        ag, d, p = bb_agent(c, 'BlackBoxOptimization', contextual=contextual)
        ag.set_deterministic(deterministic)
        s = c.array('s', (1,))
        for k in range(2):
            ps, theta = ag.episode_start(s, {})
            want = 'mean' if deterministic else 'sample'
            c.ensure('one-draw-per-episode', [e[0] for e in d.log] == [want] * (k + 1))
            _, ctx, val = d.log[k]
            if contextual:
                c.ensure('context-of-the-episode', lambda: c.eq(c.at(ctx, 0), 2 * c.at(s, 0)))
            else:
                c.ensure('no-context', ctx is None)
            c.ensure('weights-set-and-policy-reset', len(p.sets) == k + 1 and p.resets == k + 1 and ps is None)
            same(c, 'policy-gets-the-draw', p.sets[k], val, N)
            same(c, 'draw-is-recorded', theta, val, N)


for ctx in (False, True):
    for det in (False, True):
        mk_start(ctx, det)


def mk_vstart(contextual, deterministic):
    @harness(P, 'black_box_vectorized_episodes' + ('_context' if contextual else '') + ('_deterministic' if deterministic else ''))
    def h(c):
        ag, d, p = bb_agent(c, 'BlackBoxOptimization', contextual=contextual)
        ag.set_deterministic(deterministic)
        n = 3
        p.w = c.array('w', (N,))
        s = c.array('s', (n, 1))
        info = {}
        cur = [None] * n
        want = 'mean' if deterministic else 'sample'
        used = 0
        if contextual and deterministic:
            def mean(context=None):
                d.log.append(('mean', context, c.array('means%d' % len(d.log), ((context.shape[0],) if len(context.shape) > 1 else ()) + (N,))))
                return c.copy(d.log[-1][2])
            d.mean = mean
        for k, mask in enumerate(([True, True, True], [False, True, False], [False, False, False], [True, False, True])):
            m = c.np.array(mask)
            _, theta = ag.episode_start_vectorized(s, info, m)
            c.ensure_shape('one-row-per-environment', theta, (n, N))
            rows = [i for i in range(n) if mask[i]]
            draws = d.log[used:]
            batch = contextual and deterministic
            c.ensure('one-draw-per-started-episode', [e[0] for e in draws] == [want] * (min(1, len(rows)) if batch else len(rows)))
            used = len(d.log)
            for q, i in enumerate(rows):
                e = draws[0] if batch else draws[q]
                if contextual:
                    x = c.at(e[1], q, 0) if batch else c.at(e[1], 0)
                    c.ensure('context-of-the-episode', lambda: c.eq(x, 2 * c.at(s, i, 0)))
                else:
                    c.ensure('no-context', e[1] is None)
                cur[i] = [c.at(e[2], q, j) if batch else c.at(e[2], j) for j in range(N)]
            W = ag.policy.get_weights()
            for i in range(n):
                for j in range(N):
                    c.ensure('parameters-of-each-environment', lambda: c.eq(c.at(theta, i, j), cur[i][j]))
                    c.ensure('policy-of-each-environment', lambda: c.eq(c.at(W, i, j), cur[i][j]))
        c.ensure('one-policy-per-environment', len(ag.policy) == n)
        p2, th = ag.episode_start(s[0], info)
        c.ensure('flat-policy-again', type(ag.policy).__name__ == 'Pol')
        same(c, 'flat-policy-gets-the-draw', ag.policy.w, th, N)


for ctx in (False, True):
    for det in (False, True):
        mk_vstart(ctx, det)


def mk_bfit(contextual):
    @harness(P, 'black_box_fit' + ('_context' if contextual else ''))
    def h(c):
        """the update gets the discounted return, the parameters and the context of every episode, in order"""
        got = []

        class Alg(c.mod(BB).BlackBoxOptimization):
            _pydv_ghost = True

            def _update(self, Jep, theta, context):
                got.append((Jep, theta, context))
        d, p = Dist(c, contextual=contextual), Pol()
        kw = {}
        if contextual:
            class CB(c.mod(BB).ContextBuilder):
                def __call__(self, initial_state, **info):
                    return initial_state * 2
            kw['context_builder'] = CB()
        ag = Alg(bb_info(c), d, p, **kw)
        core = c.mod('mushroom_rl.core')
        L = [2, 1, 3]
        T = sum(L)
        ds = core.Dataset.generate(ag.mdp_info, ag.info, n_episodes=len(L))
        x, r, th = c.array('x', (T, 1)), c.array('r', (T,)), c.array('th', (len(L), N))
        t = 0
        for e in range(len(L)):
            ds.append_theta(th[e])
            for k in range(L[e]):
                ds.append((x[t], x[t], c.at(r, t), x[t], False, k == L[e] - 1), {})
                t += 1
        ag.fit(ds)
        c.ensure('one-update', len(got) == 1)
        J, theta, ctx = got[0]
        c.ensure_shape('returns', J, (len(L),))
        c.ensure_shape('parameters', theta, (len(L), N))
        t = 0
        for e in range(len(L)):
            s, df = 0., 1.
            for k in range(L[e]):
                s, df = s + df * c.at(r, t + k), df * ag.mdp_info.gamma
            c.ensure('return-of-the-episode', lambda: c.eq(c.at(J, e), s))
            for j in range(N):
                c.ensure('parameters-of-the-episode', lambda: c.eq(c.at(theta, e, j), c.at(th, e, j)))
            if contextual:
                c.ensure('context-of-the-episode', lambda: c.eq(c.at(ctx, e, 0), 2 * c.at(x, t, 0)))
            t += L[e]
        if not contextual:
            c.ensure('no-context', ctx is None)


mk_bfit(False)
mk_bfit(True)


def mk_pgpe(n, contextual):
    @harness(P, f'pgpe_{n}' + ('_context' if contextual else ''))
    def h(c):
        steps = []

        def opt(rho, *g):
            out = c.array('rho1', (N,))
            steps.append((c.copy(rho), [c.copy(x) for x in g], c.copy(out)))
            return out
        ag, d, p = bb_agent(c, 'PGPE', opt, contextual=contextual)
        d.rho = c.array('rho0', (N,))
        r0 = c.copy(d.rho)
        J, th = c.array('J', (n,)), c.array('th', (n, N))
        ctx = c.array('ctx', (n, 1)) if contextual else None
        J0 = c.copy(J)
        ag._update(J, th, ctx)
        c.ensure('one-step', len(steps) == 1 and len(steps[0][1]) == 1 and [e[0] for e in d.log] == ['set'])
        same(c, 'current-parameters', steps[0][0], r0, N)
        same(c, 'new-parameters', d.log[0][1], steps[0][2], N)
        for j in range(N):
            D = [d.dl(j, c.at(th, i, 0), c.at(ctx, i, 0) if contextual else 0.) for i in range(n)]
            b = div(c, sum(c.at(J0, i) * (D[i] * D[i]) for i in range(n)) / n, sum(D[i] * D[i] for i in range(n)) / n)
            g = sum(D[i] * (c.at(J0, i) - b) for i in range(n)) / n
            c.ensure('gradient', lambda: c.eq(c.at(steps[0][1][0], j), g))


mk_pgpe(2, False)
mk_pgpe(3, False)
mk_pgpe(2, True)


def num(c, x):
    if not c.symbolic:
        return float(x)
    return c.at(x, *([0] * len(x.shape))) if hasattr(x, 'shape') and len(x.shape) else x


def top(c, J, n):
    return c.max(n, lambda i: c.at(J, i))


@harness(P, 'rwr')
def rwr(c):
    n = c.size('n', 1)
    beta = c.real('beta', .01, 5)
    ag, d, p = bb_agent(c, 'RWR', c.mod('mushroom_rl.rl_utils.parameters').Parameter(beta))
    J, th = c.array('J', (n,)), c.array('th', (n, N))
    J0 = c.copy(J)
    ag._update(J, th, None)
    c.ensure('one-weighted-fit', [e[0] for e in d.log] == ['mle'])
    _, t, w = d.log[0]
    c.ensure_shape('weights', w, (n,))
    mx = top(c, J0, n)
    c.ensure_all('exponential-weights', (n,), lambda i: c.eq(c.at(w, i), c.exp(beta * (c.at(J0, i) - mx))))
    c.ensure_all('all-samples', (n, N), lambda i, j: c.eq(c.at(t, i, j), c.at(th, i, j)))


def mk_reps(name):
    con = name == 'ConstrainedREPS'

    @harness(P, name.lower())
    def h(c):
        n = c.size('n', 1)
        par = c.mod('mushroom_rl.rl_utils.parameters').Parameter
        eps, kap = c.real('eps', .01, 5), c.real('kappa', .01, 5)
        ag, d, p = bb_agent(c, name, par(eps), *([par(kap)] if con else []))
        J, th = c.array('J', (n,)), c.array('th', (n, N))
        J0 = c.copy(J)
        eta = c.real('eta', .1, 10)
        seen = []

        class Res:
            _pydv_ghost = True
            x = c.tabulate((1,), lambda i: eta)

        def minimize(fun, x0, args=(), jac=None, bounds=None, **k):
            seen.append((fun, args, jac, bounds))
            return Res()
        c.stub(c.mod(BB + ('.constrained_reps' if con else '.reps')), 'minimize', minimize)
        c.trust('scipy.optimize.minimize returns some point within the bounds')
        ag._update(J, th, None)
        c.ensure('one-dual-problem', len(seen) == 1)
        fun, args, jac, bounds = seen[0]
        c.ensure('temperature-is-positive', len(bounds) == 1 and 0 < float(bounds[0][0]) < 1e-3)
        c.ensure('one-weighted-fit', [e[0] for e in d.log] == ['con_wmle' if con else 'mle'])
        e = d.log[0]
        mx = top(c, J0, n)
        c.ensure_shape('weights', e[2], (n,))
        c.ensure_all('exponential-weights', (n,), lambda i: c.eq(c.at(e[2], i), c.exp((c.at(J0, i) - mx) / eta)))
        c.ensure_all('all-samples', (n, N), lambda i, j: c.eq(c.at(e[1], i, j), c.at(th, i, j)))
        if con:
            c.ensure('constraints', lambda: c.and_(c.eq(e[3], eps), c.eq(e[4], kap)))
        # the dual and its derivative, for the data of this update
        z = c.real('z', .1, 10)
        a = (eps, J0, th)
        za = lambda: c.tabulate((1,), lambda i: z)
        s1 = c.sum(n, lambda i: c.exp((c.at(J0, i) - mx) / z)) / n
        s2 = c.sum(n, lambda i: c.exp((c.at(J0, i) - mx) / z) * (c.at(J0, i) - mx)) / n
        c.ensure('dual', lambda: c.eq(num(c, fun(za(), *a)), z * eps + z * c.log(s1) + mx))
        if jac is not None:
            c.ensure('derivative-of-the-dual', lambda: c.eq(c.at(jac(za(), *a), 0), eps + c.log(s1) - s2 / (z * s1)))
        if not c.symbolic:
            c.ensure('data-of-the-dual', c.np.allclose(args[0], eps) and len(args) == 3)


mk_reps('REPS')
mk_reps('ConstrainedREPS')


def mk_eppo(contextual):
    @harness(P, 'eppo' + ('_context' if contextual else ''))
    def h(c):
        n, E = 3, 2
        eps, ent = c.real('eps', .05, .5), c.real('ent', 0, 1)
        W = type('W', (), {})()
        W.log, W.t = [], 0
        lp, en = c.func('logpdf', 3, lo=-5, hi=5), c.func('entropy', 2)

        class TD:
            _pydv_ghost = True
            is_contextual = contextual

            def parameters(self): return ['the parameters']

            def log_pdf(self, theta, context=None):
                t = W.t
                W.log.append(('log_pdf', context is None))
                th, cx = c.copy(theta), None if context is None else c.copy(context)
                return c.tabulate((theta.shape[0],), lambda i: lp(t, c.at(th, i, 0), c.at(cx, i, 0) if cx is not None else 0.), lib='torch')

            def entropy(self, context=None):
                return c.tabulate((), lambda: en(W.t, c.at(context, 0, 0) if context is not None else 0.), lib='torch')

        class Opt:
            _pydv_ghost = True

            def __init__(self, params, **kw): W.log.append(('opt', params, kw))

            def zero_grad(self, **k): W.log.append(('zero',))

            def step(self):
                W.t += 1
                W.log.append(('step',))
        par = c.mod('mushroom_rl.rl_utils.parameters').Parameter
        kw = {}
        if contextual:
            class CB(c.mod(BB).ContextBuilder):
                pass
            kw['context_builder'] = CB()
        ag = c.mod(BB).ePPO(bb_info(c), TD(), Pol(), dict(class_=Opt, params={}) and {'class': Opt, 'params': {}}, par(E), par(2), par(eps), par(ent), **kw)
        c.ensure('optimises-the-distribution', W.log[0] == ('opt', ['the parameters'], {}))
        parts = [[1, 0], [2]]
        calls = []

        def gen(size, *data):
            calls.append((size, data))
            for rows in parts:
                yield [x[rows] for x in data]
        c.stub(c.mod(BB + '.eppo'), 'minibatch_generator', gen)
        J = c.array('J', (n,), lib='torch')
        th = c.array('th', (n, N), lib='torch')
        cx = c.array('cx', (n, 1), lib='torch') if contextual else None
        J0 = c.copy(J)
        losses = []

        def bw(v):
            W.log.append(('backward',))
            losses.append((W.t, v))
        c.on_backward(bw)
        W.log.clear()
        ag._update(J if c.symbolic else J.numpy(), th, cx)
        ops = [e[0] for e in W.log if e[0] in ('zero', 'backward', 'step')]
        c.ensure('one-step-per-minibatch-and-epoch', ops == ['zero', 'backward', 'step'] * (E * len(parts)))
        c.ensure('minibatches-of-the-given-size', len(calls) == E and all(int(s) == 2 for s, _ in calls))
        m = sum(c.at(J0, i) for i in range(n)) / n
        var = sum((c.at(J0, i) - m) * (c.at(J0, i) - m) for i in range(n)) / (n - 1)
        if not c.symbolic:
            c.assume(var > .01)
        sd = c.sqrt(var) + 1e-8
        for k, (t, v) in enumerate(losses):
            rows = parts[k % len(parts)]
            tot = 0.
            for i in rows:
                A = (c.at(J0, i) - m) / sd
                x = c.at(cx, i, 0) if contextual else 0.
                q = c.exp(lp(t, c.at(th, i, 0), x) - lp(0, c.at(th, i, 0), x))
                cl = c.ite(c.lt(q, 1 - eps), 1 - eps, c.ite(c.lt(1 + eps, q), 1 + eps, q))
                tot = tot + c.ite(c.lt(q * A, cl * A), q * A, cl * A)
            x0 = c.at(cx, rows[0], 0) if contextual else 0.
            want = -(tot / len(rows)) - ent * en(t, x0)
            c.ensure('clipped-surrogate-with-entropy', lambda: c.eq(v, want))


mk_eppo(False)
mk_eppo(True)


def mk_more(n):
    @harness(P, f'more_closed_form_{n}')
    def h(c):
        """mean and covariance maximise the quadratic model minus both Lagrange terms: (eta Q^-1 - 2R) mean = eta Q^-1 b + r"""
        M = c.mod(BB + '.more').MORE
        if c.symbolic:
            mats = []

            def inv(m):
                m = c.copy(m)
                r = c.array('inv%d' % len(mats), (n, n))
                mats.append((m, r))
                for i in range(n):
                    for j in range(n):
                        c.assume(c.eq(sum(c.at(m, i, k) * c.at(r, k, j) for k in range(n)), 1. if i == j else 0.))
                        c.assume(c.eq(sum(c.at(r, i, k) * c.at(m, k, j) for k in range(n)), 1. if i == j else 0.))
                return c.copy(r)
            c.stub(c.np.linalg, 'inv', inv)
            c.trust('np.linalg.inv(m) is a two-sided inverse of m')
        eta, omg = c.real('eta', .1, 5), c.real('omg', .1, 5)
        b, r = c.array('b', (n, 1)), c.array('rr', (n, 1))
        if c.symbolic:
            Q, R = c.array('Q', (n, n)), c.array('R', (n, n))
        else:
            L, K = c.array('Q', (n, n)), c.array('R', (n, n))
            Q, R = L @ L.T + c.np.eye(n), -(K @ K.T)
        mu, sig = M._closed_form_mu_t1_sig_t1(Q, b, R, r, eta, omg)
        c.ensure_shape('mean-shape', mu, (n, 1))
        c.ensure_shape('covariance-shape', sig, (n, n))
        Qi = mats[0][1] if c.symbolic else c.np.linalg.inv(Q)
        H = lambda i, k: eta * c.at(Qi, i, k) - 2. * c.at(R, i, k)
        for i in range(n):
            if c.symbolic and n > 1 and len(mats) > 1:
                G = lambda k, l: c.at(mats[1][1], k, l)
                f = [eta * sum(c.at(Qi, l, k) * c.at(b, k, 0) for k in range(n)) + c.at(r, l, 0) for l in range(n)]
                c.lemma('regrouped', lambda: c.eq(sum(H(i, k) * sum(G(k, l) * f[l] for l in range(n)) for k in range(n)),
                                                  sum(sum(H(i, k) * G(k, l) for k in range(n)) * f[l] for l in range(n))))
                for l in range(n):
                    d = sum(H(i, k) * G(k, l) for k in range(n))
                    c.lemma('inverse', lambda: c.eq(d, 1. if i == l else 0.))
                    c.lemma('inverse-times', lambda: c.eq(d * f[l], f[l] if i == l else 0.))
            lhs = sum(H(i, k) * c.at(mu, k, 0) for k in range(n))
            rhs = eta * sum(c.at(Qi, i, k) * c.at(b, k, 0) for k in range(n)) + c.at(r, i, 0)
            c.ensure('mean', lambda: c.eq(lhs, rhs))
            for j in range(n):
                s = sum(H(i, k) * c.at(sig, k, j) for k in range(n))
                c.ensure('covariance', lambda: c.eq(s, (eta + omg) if i == j else 0.))


mk_more(1)
mk_more(2)


@harness(P, 'more_quadratic_model', bounded_only=True)
def more_model(c):
    """returns that are a concave quadratic function of the parameters are recovered exactly (up to the standardisation of the returns)"""
    np = c.np
    n = c.int('n', 1, 3)

    class Q:
        policy_state_shape = None
        weights_size = n
    D = c.mod('mushroom_rl.distributions').GaussianCholeskyDistribution
    ag = c.mod(BB).MORE(bb_info(c), D(np.zeros(n), np.eye(n)), Q(), eps=.5)
    K, r, th = c.array('K', (n, n)), c.array('lin', (n,)), c.array('th', (24, n))
    R = -(K @ K.T) - .3 * np.eye(n)
    J = np.einsum('nk,kh,nh->n', th, R, th) + th @ r + 1.
    F = np.concatenate([np.ones((24, 1)), th] + [th[:, [i]] * th[:, [j]] for i in range(n) for j in range(i, n)], 1)
    c.assume(np.linalg.cond(F) < 200 and J.std() > .1)
    w = np.linalg.eigvalsh(R)
    c.assume(n == 1 or np.diff(w).min() > .05)
    R1, r1, r0 = ag._fit_quadratic_surrogate(th, J.copy(), n)
    c.ensure('quadratic-term', bool(np.allclose(R1 * J.std(), R, atol=1e-6)))
    c.ensure('linear-term', bool(np.allclose(r1.ravel() * J.std(), r, atol=1e-6)))
    c.ensure('constant-term', bool(np.allclose(r0 * J.std() + J.mean(), 1., atol=1e-6)))


@harness(P, 'more_update_respects_the_divergence', bounded_only=True)
def more_update(c):
    """the updated distribution keeps the Kullback-Leibler bound and improves the expected quadratic return"""
    np = c.np
    n = c.int('n', 1, 3)

    class Q:
        policy_state_shape = None
        weights_size = n
    D = c.mod('mushroom_rl.distributions').GaussianCholeskyDistribution
    d = D(np.zeros(n), np.eye(n))
    eps = c.real('eps', .1, 1)
    ag = c.mod(BB).MORE(bb_info(c), d, Q(), eps=eps)
    K, r, th = c.array('K', (n, n)), c.array('lin', (n,)), c.array('th', (24, n))
    R = -(K @ K.T) / 4 - .3 * np.eye(n)
    J = np.einsum('nk,kh,nh->n', th, R, th) + th @ r + 1.
    F = np.concatenate([np.ones((24, 1)), th] + [th[:, [i]] * th[:, [j]] for i in range(n) for j in range(i, n)], 1)
    w = np.linalg.eigvalsh(R)
    c.assume(np.linalg.cond(F) < 200 and J.std() > .1 and (n == 1 or np.diff(w).min() > .05))
    ag._update(J.copy(), th, None)
    rho = d.get_parameters()
    mu, L = rho[:n], np.zeros((n, n))
    L[np.tril_indices(n)] = rho[n:]
    S = L @ L.T
    kl = .5 * (np.trace(S) - n - np.linalg.slogdet(S)[1] + mu @ mu)
    c.ensure('divergence-bound', bool(kl <= eps * 1.02 + 1e-3))
    val = lambda m, s: np.trace(R @ s) + m @ R @ m + m @ r
    c.ensure('improves', bool(val(mu, S) >= val(np.zeros(n), np.eye(n)) - 1e-6))


@harness(P, 'context_from_the_episode_information', bounded_only=True)
def episode_information(c):
    """the context builder sees, when the distribution is updated, what it saw when the episodes started"""
    core = c.mod('mushroom_rl.core')
    goals, seen, got = [c.real(f'goal{e}') for e in range(2)], [], []

    class Env(core.Environment):
        _pydv_ghost = True

        def __init__(self):
            self.k = 0
            super().__init__(bb_info(c))

        def reset(self, state=None):
            self.k += 1
            return c.np.zeros(1), {'goal': goals[self.k - 1]}

        def step(self, action):
            return c.np.zeros(1), 0., True, {}

    class Alg(c.mod(BB).BlackBoxOptimization):
        _pydv_ghost = True

        def _update(self, Jep, theta, context):
            got.append(context)

    class CB(c.mod(BB).ContextBuilder):
        def __call__(self, initial_state, goal=None, **info):
            seen.append(goal)
            return goal

    class Still(Pol):
        def draw_action(self, state, policy_state):
            return c.np.zeros(1), None
    ag = Alg(bb_info(c), Dist(c, contextual=True), Still(), context_builder=CB())
    core.Core(ag, Env()).learn(n_episodes=2, n_episodes_per_fit=2, quiet=True)
    c.ensure('context-at-the-start', len(seen) >= 2 and seen[0] == goals[0] and seen[1] == goals[1])
    ok = len(got) == 1 and got[0] is not None and len(got[0]) == 2
    c.ensure('context-at-the-update', ok and bool(got[0][0] == goals[0]) and bool(got[0][1] == goals[1]))
