"""P09 - eligibility traces and linear TD(lambda)."""
from pydv.ctx import harness
from contracts.common import mdp, one_step
from contracts.p08 import setup, post

PRELOAD = ['mushroom_rl.algorithms.value', 'mushroom_rl.policy', 'mushroom_rl.rl_utils', 'mushroom_rl.core',
           'mushroom_rl.approximators.parametric', 'mushroom_rl.rl_utils.eligibility_trace']
P = 'P09'


def lam(c, alg, trace, pp=False):
    l = c.real('lambda', 0, 1)
    x = setup(c, alg, per_pair=pp, lambda_coeff=l, trace=trace)
    Q0, E0 = c.array('Q', (x.nS, x.nA)), c.array('e', (x.nS, x.nA), lo=0)
    x.agent.Q.table[:] = Q0
    x.agent.e.table[:] = E0
    x.fit()
    if alg == 'QLambda':
        nxt = x.maxq(Q0)
    else:
        A2 = c.at(x.agent.next_action, 0)
        c.ensure('next-action-valid', lambda: c.and_(c.le(0, A2), c.le(A2, x.nA - 1)))
        nxt = c.ite(x.ab, 0., c.at(Q0, x.S2, A2))
    delta = x.r + x.gamma * nxt - c.at(Q0, x.S, x.A)

    def e(i, j):
        e0 = c.at(E0, i, j)
        return c.ite(x.here(i, j), 1. if trace == 'replacing' else e0 + 1, e0)
    c.ensure_all('q-update', (x.nS, x.nA), lambda i, j: c.eq(
        c.at(x.agent.Q.table, i, j), c.at(Q0, i, j) + x.alpha * delta * e(i, j)))
    c.ensure_all('trace-decay', (x.nS, x.nA), lambda i, j: c.eq(
        c.at(x.agent.e.table, i, j), x.gamma * l * e(i, j)))


for _alg, _t in (('SARSALambda', 'replacing'), ('SARSALambda', 'accumulating'), ('QLambda', 'replacing'),
                 ('QLambda', 'accumulating')):
    harness(P, f'{_alg.lower()}_{_t}')(lambda c, _alg=_alg, _t=_t: lam(c, _alg, _t))
    harness(P, f'{_alg.lower()}_{_t}_per_pair_rate')(lambda c, _alg=_alg, _t=_t: lam(c, _alg, _t, True))


def reset(c, alg):
    x = setup(c, alg, lambda_coeff=.5)
    Q0, E0 = c.array('Q', (x.nS, x.nA)), c.array('e', (x.nS, x.nA))
    x.agent.Q.table[:] = Q0
    x.agent.e.table[:] = E0
    x.agent.episode_start(x.s, {})
    c.ensure_all('trace-cleared', (x.nS, x.nA), lambda i, j: c.eq(c.at(x.agent.e.table, i, j), 0.))
    c.ensure_all('q-kept', (x.nS, x.nA), lambda i, j: c.eq(c.at(x.agent.Q.table, i, j), c.at(Q0, i, j)))
    c.ensure('no-stale-action', getattr(x.agent, 'next_action', None) is None)


for _alg in ('SARSALambda', 'QLambda'):
    harness(P, f'{_alg.lower()}_episode_start')(lambda c, _alg=_alg: reset(c, _alg))


def lin_setup(c, alg, nA, l):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    pol = c.mod('mushroom_rl.policy')
    val = c.mod('mushroom_rl.algorithms.value')
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    app = c.mod('mushroom_rl.approximators.parametric')
    n = c.size('n_features', 1)
    info, _, _, gamma = mdp(c, obs=sp.Discrete(2), act=sp.Discrete(nA))
    alpha = c.real('alpha', 0, 1)
    pi = pol.EpsGreedy(epsilon=par.Parameter(value=c.real('eps', 0, 1)))
    kw = dict(approximator_params=dict(input_shape=(n,), output_shape=(nA,), n_actions=nA))
    lr = par.Parameter(value=alpha)
    if alg == 'TrueOnlineSARSALambda':
        agent = val.TrueOnlineSARSALambda(info, pi, lr, l, **kw)
    else:
        agent = getattr(val, alg)(info, pi, app.LinearApproximator, lr, l, **kw)
    return info, gamma, alpha, agent, n


def lin(c, alg, nA, A, first=None):
    l = c.real('lambda', 0, 1)
    info, gamma, alpha, agent, n = lin_setup(c, alg, nA, l)
    W0 = c.array('w', (nA * n,))
    agent.Q.set_weights(c.copy(W0))
    E0 = c.array('e', (nA * n,))
    agent.e = c.copy(E0)
    s, s2 = c.array('s', (n,)), c.array('s2', (n,))
    a = c.np.array([A])
    r, ab = c.real('r'), c.bool('absorbing')
    q = lambda k, f: c.sum(n, lambda i: c.at(W0, k * n + i) * c.at(f, i))
    # gradient of Q(s, a): the features of s in the block of weights of the action, zero elsewhere
    phi = lambda m: c.ite(c.and_(c.le(A * n, m), c.lt(m, A * n + n)), lambda: c.at(s, m - A * n), lambda: 0.)
    online = alg == 'TrueOnlineSARSALambda'
    if online:
        q_old = None if first else c.real('q_old')
        agent._q_old = q_old
        if first:
            q_old = q(A, s)
    agent._update(s, a, r, s2, ab)
    A2 = c.at(agent.next_action, 0)
    c.ensure('next-action-valid', lambda: c.and_(c.le(0, A2), c.le(A2, nA - 1)))
    qn = c.ite(ab, 0., q(A2, s2))
    W1 = agent.Q.get_weights()
    c.ensure_shape('weights-shape', W1, (nA * n,))
    if online:
        ephi = c.sum(nA * n, lambda m: c.at(E0, m) * phi(m))
        e = lambda m: gamma * l * c.at(E0, m) + alpha * (1 - gamma * l * ephi) * phi(m)
        delta = r + gamma * qn - q_old
        new = lambda m: c.at(W0, m) + delta * c.at(agent.e, m) + alpha * (q_old - q(A, s)) * phi(m)
        c.ensure_eq('q-old', lambda: c.at(agent._q_old, *([0] * getattr(agent._q_old, 'ndim', 0))), qn)
    else:
        e = lambda m: gamma * l * c.at(E0, m) + phi(m)
        delta = r + gamma * qn - q(A, s)
        new = lambda m: c.at(W0, m) + alpha * delta * c.at(agent.e, m)
    c.ensure_all('trace', (nA * n,), lambda m: c.eq(c.at(agent.e, m), e(m)))
    c.ensure_all('weights', (nA * n,), lambda m: c.eq(c.at(W1, m), new(m)))


for _A in (0, 1):
    harness(P, f'sarsa_lambda_continuous_action{_A}')(lambda c, _A=_A: lin(c, 'SARSALambdaContinuous', 2, _A))
    for _f in (False, True):
        harness(P, f'true_online_sarsa_lambda_action{_A}_{"first" if _f else "later"}')(
            lambda c, _A=_A, _f=_f: lin(c, 'TrueOnlineSARSALambda', 2, _A, _f))


def lin_reset(c, alg):
    info, gamma, alpha, agent, n = lin_setup(c, alg, 2, .5)
    W0 = c.array('w', (2, n))
    agent.Q.set_weights(c.copy(W0).flatten())
    agent.e = c.array('e', (2 * n,))
    if alg == 'TrueOnlineSARSALambda':
        agent._q_old = c.real('q_old')
    agent.episode_start(c.array('s', (n,)), {})
    c.ensure_shape('trace-shape', agent.e, (2 * n,))
    c.ensure_all('trace-cleared', (2 * n,), lambda i: c.eq(c.at(agent.e, i), 0.))
    w = agent.Q.get_weights()
    for k in range(2):
        c.ensure_all(f'weights-kept-{k}', (n,), lambda i: c.eq(c.at(w, k * n + i), c.at(W0, k, i)))
    if alg == 'TrueOnlineSARSALambda':
        # the first update of the new episode does not depend on the value remembered from the previous one
        A, s, s2 = c.choice('action', [0, 1]), c.array('s1', (n,)), c.array('s2', (n,))
        r, ab = c.real('r'), c.bool('absorbing')
        q = lambda k, f: c.sum(n, lambda i: c.at(W0, k, i) * c.at(f, i))
        agent._update(s, c.np.array([A]), r, s2, ab)
        qn = c.ite(ab, 0., q(c.at(agent.next_action, 0), s2))
        W1 = agent.Q.get_weights()
        phi = lambda m: c.ite(c.and_(c.le(A * n, m), c.lt(m, A * n + n)), lambda: c.at(s, m - A * n), lambda: 0.)
        c.ensure_all('first-update', (2 * n,), lambda m: c.eq(
            c.at(W1, m), c.at(W0.flatten(), m) + alpha * (r + gamma * qn - q(A, s)) * phi(m)))


for _alg in ('SARSALambdaContinuous', 'TrueOnlineSARSALambda'):
    harness(P, f'{_alg.lower()}_episode_start')(lambda c, _alg=_alg: lin_reset(c, _alg))


@harness(P, 'traces')
def traces(c):
    et = c.mod('mushroom_rl.rl_utils.eligibility_trace')
    nS, nA = c.size('nS', 2), c.size('nA', 2)
    kind = c.choice('kind', ['replacing', 'accumulating'])
    t = et.EligibilityTrace((nS, nA), kind)
    E0 = c.array('e', (nS, nA))
    t.table[:] = E0
    s = c.array('s', (1,), 'int', lo=0, hi=nS - 1)
    a = c.array('a', (1,), 'int', lo=0, hi=nA - 1)
    t.update(s, a)
    c.ensure_all('update', (nS, nA), lambda i, j: c.eq(c.at(t.table, i, j), c.ite(
        c.and_(c.eq(i, c.at(s, 0)), c.eq(j, c.at(a, 0))),
        1. if kind == 'replacing' else c.at(E0, i, j) + 1, c.at(E0, i, j))))
    t.reset()
    c.ensure_all('reset', (nS, nA), lambda i, j: c.eq(c.at(t.table, i, j), 0.))
