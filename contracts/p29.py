"""P29 - sequences for recurrent agents: the replay memory of sequences and the sequences of recurrent PPO."""
from pydv.ctx import harness
from . import p27

DA = 'mushroom_rl.algorithms.actor_critic.deep_actor_critic'
PRELOAD = ['mushroom_rl.core', 'mushroom_rl.rl_utils.spaces', 'mushroom_rl.rl_utils.replay_memory', 'mushroom_rl.algorithms.actor_critic', DA,
           DA + '.ppo', DA + '.ppo_bptt', 'mushroom_rl.rl_utils.value_functions', 'mushroom_rl.approximators.regressor',
           'mushroom_rl.approximators.parametric', 'mushroom_rl.utils.torch', 'mushroom_rl.utils.minibatches']
P = 'P29'
CAP = 4


class Ghost:
    _pydv_ghost = True


def stream(c, n, lib, stateful):
    """n transitions of any episodes"""
    A = Ghost()
    A.s, A.a, A.r, A.ss = c.array('s', (n, 2), lib=lib), c.array('a', (n, 1), lib=lib), c.array('r', (n,), lib=lib), c.array('ss', (n, 2), lib=lib)
    A.ab, A.la = c.array('ab', (n,), 'bool', lib=lib), c.array('la', (n,), 'bool', lib=lib)
    A.ps, A.ns = (c.array('ps', (n, 1), lib=lib), c.array('ns', (n, 1), lib=lib)) if stateful else (None, None)
    A.n = n
    return A


def since(c, A, t, oldest, T):
    """number of steps of the sequence that ends in step t: of the same episode, not older than the oldest one, at most T"""
    k = 1
    while k < T and t - k >= oldest and not bool(c.at(A.la, t - k)):
        k += 1
    return k


def mk_memory(backend, stateful, T):
    lib = 'torch' if backend == 'torch' else 'np'

    def h(c):
        core, sp = c.mod('mushroom_rl.core'), c.mod('mushroom_rl.rl_utils.spaces')
        info = core.MDPInfo(sp.Box(-1., 1., shape=(2,)), sp.Box(-1., 1., shape=(1,)), .9, 100, backend=backend)
        ai = core.AgentInfo(False, (1,) if stateful else None, backend)
        mem = c.mod('mushroom_rl.rl_utils.replay_memory').SequenceReplayMemory(info, ai, 1, CAP, T)
        n = c.choice('n', [2, CAP, CAP + 2])
        A = stream(c, n, lib, stateful)

        class DS:
            _pydv_ghost = True
            is_stateful = stateful

            def __len__(self):
                return n

            def parse(self, to=None):
                return A.s, A.a, A.r, A.ss, A.ab, A.la

            def parse_policy_state(self, to=None):
                return A.ps, A.ns
        mem.add(DS())
        size = min(n, CAP)
        first = c.choice('i', list(range(size)))
        idx = [first, size - 1]

        def randint(*a, **k):
            c.ensure('samples-the-whole-memory', (len(a) == 1 and a[0] == size) or (len(a) > 1 and a[0] == 0 and a[1] == size))
            return c.np.array(idx)
        c.stub(c.np.random, 'randint', randint)
        c.trust('np.random.randint draws any index of its range')
        out = mem.get(2)
        c.ensure('fields', len(out) == (10 if stateful else 8))
        s, a, r, ss, ab, la = out[:6]
        ps, ns = out[6:8] if stateful else (None, None)
        pa, lengths = out[-2:]
        c.ensure_shape('shape', s, (2, T, 2))
        c.ensure_shape('shape-of-actions', pa, (2, T, 1))
        c.ensure('one-length-per-sequence', len(lengths) == 2)
        for q, i in enumerate(idx):
            # step stored in slot i, and the oldest one still stored
            t = i if n <= CAP else i + CAP * ((n - 1 - i) // CAP)
            oldest = max(0, n - CAP)
            # (a sequence is not continued across the physical end of the memory)
            L = since(c, A, t, max(oldest, t - i), T)
            b = t - L + 1
            c.ensure('length', int(lengths[q]) == L)
            for k in range(T):
                for name, o, src in (('states', s, A.s), ('actions', a, A.a), ('next-states', ss, A.ss), ('policy-states', ps, A.ps), ('next-policy-states', ns, A.ns)):
                    if o is None:
                        continue
                    for j in range(2 if name in ('states', 'next-states') else 1):
                        if k < L:
                            c.ensure_eq('consecutive-' + name, lambda: c.at(o, q, k, j), c.at(src, b + k, j))
                        else:
                            c.ensure_eq('padding', lambda: c.at(o, q, k, j), 0)
                if k < L:
                    p = b + k - 1
                    known = p >= oldest and not bool(c.at(A.la, p))
                    c.ensure_eq('previous-action', lambda: c.at(pa, q, k, 0), c.at(A.a, p, 0) if known else 0)
                else:
                    c.ensure_eq('padding', lambda: c.at(pa, q, k, 0), 0)
            c.ensure_eq('reward', lambda: c.at(r, q, 0), c.at(A.r, t))
            c.ensure('absorbing', lambda: bool(c.eq(c.at(ab, q, 0), 1)) == bool(c.at(A.ab, t)))
            c.ensure('last', lambda: bool(c.eq(c.at(la, q), 1)) == bool(c.at(A.la, t)))
    return h


for _b in ('numpy', 'torch'):
    for _s in (False, True):
        for _t in (2, 3):
            harness(P, f'memory_{_b}{"_stateful" if _s else ""}_{_t}')(mk_memory(_b, _s, _t))


def mk_sequences(T):
    def h(c):
        n = 4
        A = stream(c, n, 'torch', True)
        for i in range(n):
            c.assume(c.implies(c.at(A.ab, i), lambda: c.at(A.la, i)))
        old = c.array('old', (n, 2), lib='torch')
        ag = object.__new__(c.mod('mushroom_rl.algorithms.actor_critic').PPO_BPTT)
        ag._truncation_length = T
        so, s, ps, a, ss, ns, lengths = ag._transform_to_sequences(old, A.s, A.ps, A.a, A.ss, A.ns, A.la, A.ab)
        for o, d in ((so, 2), (s, 2), (a, 1), (ss, 2)):
            c.ensure_shape('shape', o, (n, T, d))
        for t in range(n):
            L = since(c, A, t, 0, T)
            b = t - L + 1
            c.ensure('length', int(c.at(lengths, t)) == L)
            c.ensure_eq('first-policy-state', lambda: c.at(ps, t, 0), c.at(A.ps, b, 0))
            c.ensure_eq('first-next-policy-state', lambda: c.at(ns, t, 0), c.at(A.ns, b, 0))
            for k in range(T):
                for name, o, src in (('old-states', so, old), ('states', s, A.s), ('actions', a, A.a), ('next-states', ss, A.ss)):
                    for j in range(1 if name == 'actions' else 2):
                        c.ensure_eq('consecutive-' + name if k < L else 'padding', lambda: c.at(o, t, k, j), c.at(src, b + k, j) if k < L else 0)
    return h


for _t in (1, 2, 3):
    harness(P, f'ppo_sequences_{_t}')(mk_sequences(_t))


class Recurrent(p27.OnPolicy):
    """the ghost policy and value function of p27, of sequences: arbitrary functions of the policy state, the length, and the first and last state"""

    def __init__(self, c, T):
        super().__init__(c, DA + '.ppo_bptt', prep=True, flags=(((0, 0, 1), (0, 0, 1)), ((0, 0, 0), (1, 0, 0)), ((0, 0, 0), (0, 1, 0))))
        n, W = self.n, self
        self.T = T
        self.PS, self.NS = c.array('ps', (n, 1), lib='torch'), c.array('ns', (n, 1), lib='torch')
        self.lpq, self.vq = c.func('lpq', 6, 'real', *p27.rng(c, 1)), c.func('vq', 5, 'real', *p27.rng(c, 2))
        self.ds.parse_policy_state = lambda to=None: (W.PS, W.NS)

        def key(s, ps, le, i):
            L = int(c.at(le, i))
            return 1. * L, c.at(ps, i, 0), c.at(s, i, 0, 1), c.at(s, i, L - 1, 1)
        self.key = key

        class Dist:
            _pydv_ghost = True

            def __init__(self, s, ps, le):
                self.a, self.t = (c.copy(s), c.copy(ps), c.copy(le)), W.steps

            def log_prob(self, a):
                W.log.append(('density', self.t, self.a, c.copy(a)))
                return W.lps(self.t, self.a, a, (n,))
        pi = self.pi
        pi.distribution_t = pi.distribution = lambda s, ps, le: Dist(s, ps, le)

        def log_prob_t(s, a, ps, le):
            x = (c.copy(s), c.copy(ps), c.copy(le))
            W.log.append(('density', W.steps, x, c.copy(a)))
            return W.lps(W.steps, x, a, (s.shape[0], 1))
        pi.log_prob_t = log_prob_t

        class Reg:
            _pydv_ghost = True
            ver = 0

            def __init__(self, approximator, tag=None, **params):
                W.V = self

            def predict(self, s, ps, le, **kw):
                vals = [W.vq(self.ver, *key(s, ps, le, i)) for i in range(s.shape[0])]
                return c.tabulate((s.shape[0], 1), lambda i, j: pick(c, vals, i), lib='torch')
            __call__ = predict

            def fit(self, s, ps, le, t, **kw):
                W.fits.append((c.copy(s), c.copy(ps), c.copy(le), c.copy(t), kw))
                self.ver += 1
        c.stub(c.mod(DA + '.ppo_bptt'), 'Regressor', Reg)

    def lps(self, t, x, a, shape):
        c = self.c
        a = c.copy(a)
        vals = [self.lpq(t, *self.key(*x, i), c.at(a, i, 0)) for i in range(shape[0])]
        return c.tabulate(shape, lambda i, *j: pick(c, vals, i), lib='torch')

    def seq(self, i, nxt=False, ver=0):
        """the key of the sequence that ends in step i, with states preprocessed after ver updates"""
        c = self.c
        S = self.before[3] if nxt else self.before[0]
        L = 1
        while L < self.T and i - L >= 0 and not bool(c.at(self.before[5], i - L)):
            L += 1
        b = i - L + 1
        return 1. * L, c.at(self.NS if nxt else self.PS, b, 0), self.pre(S, b, ver), self.pre(S, i, ver)


def pick(c, vals, i):
    v = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        v = c.ite(c.eq(i, k), vals[k], v)
    return v


def mk_bptt(T):
    def h(c):
        W = Recurrent(c, T)
        n = W.n
        eps, lam, ent = c.real('eps', 0, 1), c.real('lam', 0, 1), c.real('ent', 0, 1)
        E, B, dflt = c.choice('epochs', [(1, 3, True), (1, 2, False), (2, 2, False)])
        perms = []

        def shuffle(a):
            pm = (2, 0, 1) if not perms else (1, 0, 2)
            perms.append(pm)
            a[:] = c.np.array(list(pm))
        c.stub(c.np.random, 'shuffle', shuffle)
        c.trust('np.random.shuffle applies a permutation')
        ag = c.mod(p27.AC).PPO_BPTT(W.info, W.pi, {'class': W.Opt, 'params': {'lr': 3}}, dict(tag='V'), E, B, eps, lam, 2, ent_coeff=ent,
                                    critic_fit_params=None if dflt else {'n_epochs': 4}, truncation_length=T)
        if W.prep:
            ag.add_agent_preprocessor(W.Prep())
        c.ensure('policy-parameters-optimised', W.opt == ([('par', 'policy')], {'lr': 3}))
        ag.fit(W.ds)
        W.prep_ok()
        ver = 1 if W.prep else 0
        S, A, R, S2, AB, L = W.before
        # targets: the estimator (P14) on the values of the sequences
        vals = {id(S): [W.vq(0, *W.seq(i, False, ver)) for i in range(n)], id(S2): [W.vq(0, *W.seq(i, True, ver)) for i in range(n)]}
        V = lambda s: c.tabulate((n, 1), lambda i, j: pick(c, vals[id(s)], i), lib='torch')
        tgt, adv = c.mod('mushroom_rl.rl_utils.value_functions').compute_gae(V, S, S2, R, AB, L, W.gamma, lam)
        c.ensure('one-critic-fit', len(W.fits) == 1)
        fs, fps, fle, ft, kw = W.fits[0]
        c.ensure('critic-fit-parameters', kw == ({'n_epochs': 10} if dflt else {'n_epochs': 4}))
        for i in range(n):
            c.ensure('critic-fitted-on-the-sequences', lambda: c.and_(*[c.eq(x, y) for x, y in zip(W.key(fs, fps, fle, i), W.seq(i, False, ver))]))
        c.ensure_shape('critic-target-shape', ft, (n, 1))
        c.ensure_all('critic-target', (n,), lambda i: c.eq(c.at(ft, i, 0), c.at(tgt, i, 0)))
        na = W.normalised(adv)
        nb = -(-n // B)
        ev = [e for e in W.log if e[0] in ('zero', 'backward', 'step')]
        c.ensure('zero-backward-step-per-minibatch', [e[0] for e in ev] == ['zero', 'backward', 'step'] * (nb * E))
        bw = [e[1] for e in ev if e[0] == 'backward']
        dens = [e for e in W.log if e[0] == 'density']
        c.ensure('densities', len(dens) == nb * E + 1 and len(W.ents) == nb * E)
        seen = []
        for t in range(nb * E):
            s, ps, le = dens[1 + t][2]
            if t % nb == 0:
                seen = []
            ids = [int(c.at(s, k, int(c.at(le, k)) - 1, 0)) for k in range(s.shape[0])]
            c.ensure('minibatch-size', len(ids) == (B if (t % nb) < nb - 1 or n % B == 0 else n % B))
            seen += ids
            if t % nb == nb - 1:
                c.ensure('every-sample-once-per-epoch', sorted(seen) == list(range(n)))
            act = lambda i: c.at(A, i, 0)
            tot = p27.surrogate(c, [(W.lpq(t, *W.seq(i, False, ver), act(i)) - W.lpq(0, *W.seq(i, False, 0), act(i)), na[i]) for i in ids], eps)
            c.ensure('clipped-surrogate-and-entropy', lambda: c.eq(bw[t], -tot / len(ids) - ent * W.ents[t][1]))
        W.untouched()
    return h


for _t in (1, 2):
    harness(P, f'ppo_bptt_{_t}')(mk_bptt(_t))
