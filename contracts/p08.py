"""P08 - tabular temporal-difference control: each update is the published rule on exactly one entry."""
from pydv.ctx import harness
from contracts.common import mdp, one_step

PRELOAD = ['mushroom_rl.algorithms.value', 'mushroom_rl.policy', 'mushroom_rl.rl_utils', 'mushroom_rl.core']
P = 'P08'


def setup(c, alg, policy='eps', per_pair=False, **kw):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    pol = c.mod('mushroom_rl.policy')
    val = c.mod('mushroom_rl.algorithms.value')
    info, nS, nA, gamma = mdp(c)
    alpha0 = c.real('alpha', 0, 1)
    pi = pol.EpsGreedy(epsilon=par.Parameter(value=c.real('eps', 0, 1)))
    n0 = None
    if per_pair:
        lr = par.DecayParameter(value=alpha0, exp=1., size=info.size)
        n0 = c.array('visits', (nS, nA), 'int', lo=0, hi=20)
        lr._n_updates.table[:] = n0
    else:
        lr = par.Parameter(value=alpha0)
    kw = {k: v(info.size) if callable(v) else v for k, v in kw.items()}
    agent = getattr(val, alg)(info, pi, learning_rate=lr, **kw)
    s = c.array('s', (1,), 'int', lo=0, hi=nS - 1)
    a = c.array('a', (1,), 'int', lo=0, hi=nA - 1)
    s2 = c.array('s2', (1,), 'int', lo=0, hi=nS - 1)
    r = c.real('r')
    ab = c.bool('absorbing')
    S, A, S2 = c.at(s, 0), c.at(a, 0), c.at(s2, 0)
    alpha = alpha0 / (c.toreal(c.at(n0, S, A)) + 1) if per_pair else alpha0

    class X:
        pass
    x = X()
    x.__dict__.update(info=info, nS=nS, nA=nA, gamma=gamma, alpha=alpha, agent=agent, s=s, a=a, s2=s2, r=r, ab=ab,
                      S=S, A=A, S2=S2, n0=n0, lr=lr, alpha0=alpha0)
    x.fit = lambda: agent.fit(one_step(c, info, agent, s, a, r, s2, ab))
    x.here = lambda i, j: c.and_(c.eq(i, S), c.eq(j, A))
    x.maxq = lambda Q: c.ite(ab, 0., c.max(nA, lambda k: c.at(Q, S2, k)))
    return x


def post(c, x, name, table, old, new_value):
    """table == old except at (s, a), where it is new_value(old entry)"""
    c.ensure_shape(name + '-shape', table, (x.nS, x.nA))
    c.ensure_all(name, (x.nS, x.nA), lambda i, j: c.eq(
        c.at(table, i, j), c.ite(x.here(i, j), new_value(c.at(old, i, j)), c.at(old, i, j))))


def visits(c, x):
    if x.n0 is not None:
        post(c, x, 'visit-count', x.lr._n_updates.table, x.n0, lambda n: n + 1)


@harness(P, 'q_learning')
def q_learning(c, pp=False):
    x = setup(c, 'QLearning', per_pair=pp)
    Q0 = c.array('Q', (x.nS, x.nA))
    x.agent.Q.table[:] = Q0
    x.fit()
    post(c, x, 'q-update', x.agent.Q.table, Q0, lambda q: q + x.alpha * (x.r + x.gamma * x.maxq(Q0) - q))
    visits(c, x)


@harness(P, 'sarsa')
def sarsa(c, pp=False):
    x = setup(c, 'SARSA', per_pair=pp)
    Q0 = c.array('Q', (x.nS, x.nA))
    x.agent.Q.table[:] = Q0
    x.fit()
    na = x.agent.next_action
    c.ensure_shape('next-action-shape', na, (1,))
    A2 = c.at(na, 0)
    c.ensure('next-action-valid', lambda: c.and_(c.le(0, A2), c.le(A2, x.nA - 1)))
    post(c, x, 'q-update', x.agent.Q.table, Q0,
         lambda q: q + x.alpha * (x.r + x.gamma * c.ite(x.ab, 0., c.at(Q0, x.S2, A2)) - q))


@harness(P, 'sarsa_plays_bootstrapped_action')
def sarsa_play(c):
    """the action used in the target is the one SARSA then executes"""
    x = setup(c, 'SARSA')
    Q0 = c.array('Q', (x.nS, x.nA))
    x.agent.Q.table[:] = Q0
    x.fit()
    A2 = c.at(x.agent.next_action, 0)
    played, _ = x.agent.draw_action(x.s2)
    c.ensure_eq('played', lambda: c.at(played, 0), A2)
    c.ensure('forgotten-after-use', x.agent.next_action is None)


@harness(P, 'expected_sarsa')
def expected_sarsa(c, pp=False):
    x = setup(c, 'ExpectedSARSA', per_pair=pp)
    Q0 = c.array('Q', (x.nS, x.nA))
    x.agent.Q.table[:] = Q0
    probs = c.copy(x.agent.policy(x.s2))
    x.fit()
    post(c, x, 'q-update', x.agent.Q.table, Q0, lambda q: q + x.alpha * (x.r + x.gamma * c.ite(
        x.ab, 0., c.sum(x.nA, lambda k: c.at(Q0, x.S2, k) * c.at(probs, k))) - q))


@harness(P, 'double_q')
def double_q(c, pp=False):
    x = setup(c, 'DoubleQLearning', per_pair=pp)
    Q0, Q1 = c.array('Q0', (x.nS, x.nA)), c.array('Q1', (x.nS, x.nA))
    x.agent.Q[0].table[:] = Q0
    x.agent.Q[1].table[:] = Q1
    x.fit()
    T = [x.agent.Q[0].table, x.agent.Q[1].table]
    old = [Q0, Q1]

    def same(w, i, j):
        return c.eq(c.at(T[w], i, j), c.at(old[w], i, j))

    def case(w, k, i, j):
        tgt = x.r + x.gamma * c.ite(x.ab, 0., c.at(old[1 - w], x.S2, k))
        q = c.at(old[w], i, j)
        return c.eq(c.at(T[w], i, j), c.ite(x.here(i, j), q + x.alpha * (tgt - q), q))

    def greedy(w, k):
        return c.all(x.nA, lambda m: c.le(c.at(old[w], x.S2, m), c.at(old[w], x.S2, k)))
    # exactly one of the tables moves, at one entry, towards the *other* table's value of its own greedy action
    c.ensure_all('one-table-off-entry', (x.nS, x.nA, x.nS, x.nA), lambda i, j, i2, j2: c.and_(
        c.implies(c.not_(x.here(i, j)), c.and_(same(0, i, j), same(1, i, j))),
        c.or_(same(0, i, j), same(1, i2, j2))))
    c.ensure('cross-target', lambda: c.or_(
        c.and_(same(1, x.S, x.A), c.or_(c.and_(x.ab, case(0, 0, x.S, x.A)), c.any(
            x.nA, lambda k: c.and_(greedy(0, k), case(0, k, x.S, x.A))))),
        c.and_(same(0, x.S, x.A), c.or_(c.and_(x.ab, case(1, 0, x.S, x.A)), c.any(
            x.nA, lambda k: c.and_(greedy(1, k), case(1, k, x.S, x.A)))))))


@harness(P, 'speedy_q')
def speedy(c, pp=False):
    x = setup(c, 'SpeedyQLearning', per_pair=pp)
    Q0, QO = c.array('Q', (x.nS, x.nA)), c.array('Qold', (x.nS, x.nA))
    x.agent.Q.table[:] = Q0
    x.agent.old_q.table[:] = QO
    x.fit()

    def new(q):
        t_old = x.r + x.gamma * x.maxq(QO)
        t_cur = x.r + x.gamma * x.maxq(Q0)
        return q + x.alpha * (t_old - q) + (1 - x.alpha) * (t_cur - t_old)
    post(c, x, 'q-update', x.agent.Q.table, Q0, new)
    c.ensure_all('previous-q-kept', (x.nS, x.nA), lambda i, j: c.eq(c.at(x.agent.old_q.table, i, j), c.at(Q0, i, j)))


@harness(P, 'maxmin_q')
def maxmin(c, pp=False):
    x = setup(c, 'MaxminQLearning', per_pair=pp, n_tables=3)
    old = [c.array(f'Q{k}', (x.nS, x.nA)) for k in range(3)]
    for k in range(3):
        x.agent.Q[k].table[:] = old[k]
    x.fit()
    T = [x.agent.Q[k].table for k in range(3)]

    def mn(k):
        return c.min(3, lambda w: [c.at(o, x.S2, k) for o in old][w])

    def same(w, i, j):
        return c.eq(c.at(T[w], i, j), c.at(old[w], i, j))
    tgt = x.r + x.gamma * c.ite(x.ab, 0., c.max(x.nA, mn))

    def upd(w, i, j):
        q = c.at(old[w], i, j)
        return c.eq(c.at(T[w], i, j), c.ite(x.here(i, j), q + x.alpha * (tgt - q), q))
    c.ensure_all('one-table', (x.nS, x.nA), lambda i, j: c.or_(
        *[c.and_(upd(w, i, j), *[same(v, i, j) for v in range(3) if v != w]) for w in range(3)]))


@harness(P, 'r_learning')
def r_learning(c, pp=False):
    beta = c.real('beta', 0, 1)
    nb, beta0 = [], beta

    def beta_of(size):
        bp = c.mod('mushroom_rl.rl_utils.parameters').DecayParameter(value=beta0, exp=1., size=size)
        nb.append(c.array('greedy_visits', size, 'int', lo=0, hi=20))
        bp._n_updates.table[:] = nb[0]
        return bp
    x = setup(c, 'RLearning', per_pair=pp, beta=beta_of if pp else beta)
    if pp:
        beta = beta / (c.toreal(c.at(nb[0], x.S, x.A)) + 1)
    Q0 = c.array('Q', (x.nS, x.nA))
    rho = c.real('rho')
    x.agent.Q.table[:] = Q0
    x.agent._rho = rho
    x.fit()
    q0 = c.at(Q0, x.S, x.A)
    qn = q0 + x.alpha * (x.r - rho + x.maxq(Q0) - q0)
    post(c, x, 'q-update', x.agent.Q.table, Q0, lambda q: q + x.alpha * (x.r - rho + x.maxq(Q0) - q))
    if c.symbolic:
        greedy = c.all(x.nA, lambda k: c.le(c.ite(c.eq(k, x.A), qn, c.at(Q0, x.S, k)), qn))
    else:
        greedy = bool((x.agent.Q.table[x.S] <= x.agent.Q.table[x.S, x.A]).all())
    c.ensure_eq('average-reward', lambda: x.agent._rho,
                lambda: c.ite(greedy, rho + beta * (x.r + x.maxq(Q0) - qn - rho), rho))


def rq(c, off, mode, pp=False):
    co = c.real('coef', 0, 1)
    x = setup(c, 'RQLearning', per_pair=pp, off_policy=off, **{mode: co})
    Q0, QT, RT = (c.array(n, (x.nS, x.nA)) for n in ('Q', 'Qt', 'Rt'))
    x.agent.Q.table[:] = Q0
    x.agent.Q_tilde.table[:] = QT
    x.agent.R_tilde.table[:] = RT
    x.fit()
    if off:
        nxt = c.max(x.nA, lambda k: c.at(Q0, x.S2, k))
    else:
        nxt = 0. if x.agent.next_action is None else c.at(Q0, x.S2, c.at(x.agent.next_action, 0))
    beta = x.alpha * co if mode == 'delta' else co
    newR = lambda v: v + x.alpha * (x.r - v)
    newQ = lambda v: c.ite(x.ab, v, v + beta * (nxt - v))
    post(c, x, 'reward-part', x.agent.R_tilde.table, RT, newR)
    post(c, x, 'next-part', x.agent.Q_tilde.table, QT, newQ)
    post(c, x, 'q-update', x.agent.Q.table, Q0,
         lambda q: newR(c.at(RT, x.S, x.A)) + x.gamma * newQ(c.at(QT, x.S, x.A)))


for _off in (False, True):
    for _mode in ('beta', 'delta'):
        harness(P, f'rq_learning_{"off" if _off else "on"}_{_mode}')(
            lambda c, _off=_off, _mode=_mode: rq(c, _off, _mode))
        harness(P, f'rq_learning_{"off" if _off else "on"}_{_mode}_per_pair_rate')(
            lambda c, _off=_off, _mode=_mode: rq(c, _off, _mode, True))


@harness(P, 'weighted_q')
def weighted(c, pp=False):
    x = setup(c, 'WeightedQLearning', per_pair=pp, precision=10)
    names = ('Q', 'Q2', 'w1', 'w2')
    old = {n: c.array(n, (x.nS, x.nA), lo=None if n in ('Q',) else 0) for n in names}
    sg = c.array('sig', (x.nS, x.nA), lo=1)
    n0 = c.array('n', (x.nS, x.nA), 'int', lo=0, hi=5)
    ag = x.agent
    tabs = {'Q': ag.Q, 'Q2': ag._Q2, 'w1': ag._w1, 'w2': ag._w2}
    for n in names:
        tabs[n].table[:] = old[n]
    ag._sigma.table[:] = sg
    ag._n_updates.table[:] = n0
    nxt = c.real('next_value')
    c.stub(ag, '_next_q', lambda s: nxt)
    x.fit()
    tgt = x.r + x.gamma * c.ite(x.ab, 0., nxt)
    al = x.alpha
    post(c, x, 'q-update', ag.Q.table, old['Q'], lambda q: q + al * (tgt - q))
    post(c, x, 'second-moment', ag._Q2.table, old['Q2'], lambda q: q + al * (tgt * tgt - q))
    post(c, x, 'count', ag._n_updates.table, n0, lambda q: q + 1)
    post(c, x, 'w1', ag._w1.table, old['w1'], lambda q: (1 - al) * q + al)
    post(c, x, 'w2', ag._w2.table, old['w2'], lambda q: (1 - al) * (1 - al) * q + al * al)
    c.ensure_all('sigma-frame', (x.nS, x.nA), lambda i, j: c.or_(
        x.here(i, j), c.eq(c.at(ag._sigma.table, i, j), c.at(sg, i, j))))
    c.ensure('sigma', lambda: sigma_post(c, x, ag, n0, sg))


def sigma_post(c, x, ag, n0, sg):
    """standard error from the second visit on: sqrt of the variance of the targets times w2 / (2 w1), at least 1e-5"""
    at = lambda t: c.at(t.table, x.S, x.A)
    sig = at(ag._sigma)
    var = at(ag._Q2) - at(ag.Q) * at(ag.Q)
    est = var * at(ag._w2) / (2 * at(ag._w1) + 1e-10)
    est = c.ite(c.le(est, 1e-10), 1e-10, est)
    return c.ite(c.le(1, c.at(n0, x.S, x.A)), c.and_(c.le(0, sig), c.eq(sig * sig, est)), c.eq(sig, c.at(sg, x.S, x.A)))


@harness(P, 'weighted_q_weights', bounded_only=True)
def weighted_q_weights(c):
    """the weight of an action is the probability that a normal sample around its mean is the largest one (two actions)"""
    import math
    import numpy as np
    x = setup(c, 'WeightedQLearning', precision=20000)
    ag = x.agent
    ag.Q.table[:] = np.random.uniform(-1, 1, ag.Q.table.shape)
    ag._sigma.table[:] = np.random.uniform(.1, 1, ag.Q.table.shape)
    m, s = ag.Q.table[x.S2], ag._sigma.table[x.S2]
    m[2:] = -50.
    p0 = .5 * (1 + math.erf((m[0] - m[1]) / math.sqrt(2 * (s[0] ** 2 + s[1] ** 2))))
    v = float(ag._next_q(x.s2))
    c.ensure('weighted-value', abs(v - (p0 * m[0] + (1 - p0) * m[1])) <= 7 * abs(m[0] - m[1]) * math.sqrt(p0 * (1 - p0) / 20000) + 1e-3)


for _n, _f in (('q_learning', q_learning), ('sarsa', sarsa), ('expected_sarsa', expected_sarsa), ('double_q', double_q), ('speedy_q', speedy),
               ('maxmin_q', maxmin), ('weighted_q', weighted), ('r_learning', r_learning)):
    harness(P, _n + '_per_pair_rate')(lambda c, _f=_f: _f(c, True))


def own_rates(c, alg, **kw):
    """each table has its own learning rate: two updates of one pair"""
    x = setup(c, alg, per_pair=True, **kw)
    old = [c.array(f'Q{k}', (x.nS, x.nA)) for k in range(2)]
    for k in range(2):
        x.agent.Q[k].table[:] = old[k]
    c.assume(x.ab)
    x.fit()
    x.fit()
    T = [c.at(x.agent.Q[k].table, x.S, x.A) for k in range(2)]
    q = [c.at(old[k], x.S, x.A) for k in range(2)]
    alpha2 = c.toreal(x.alpha0) / (c.toreal(c.at(x.n0, x.S, x.A)) + 2)
    once = [v + x.alpha * (x.r - v) for v in q]
    twice = [v + alpha2 * (x.r - v) for v in once]
    c.ensure('own-rate', lambda: c.or_(c.and_(c.eq(T[0], once[0]), c.eq(T[1], once[1])),
                                       c.and_(c.eq(T[0], twice[0]), c.eq(T[1], q[1])),
                                       c.and_(c.eq(T[0], q[0]), c.eq(T[1], twice[1]))))


harness(P, 'double_q_own_rates')(lambda c: own_rates(c, 'DoubleQLearning'))
harness(P, 'maxmin_q_own_rates')(lambda c: own_rates(c, 'MaxminQLearning', n_tables=2))
