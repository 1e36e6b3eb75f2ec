"""P12 - value-based exploration policies: the action distribution is the documented one."""
from pydv.ctx import harness

PRELOAD = ['mushroom_rl.policy', 'mushroom_rl.rl_utils', 'mushroom_rl.approximators.table', 'mushroom_rl.core']
P = 'P12'


def setup(c, cls='EpsGreedy', par=None, vec=False):
    pol = c.mod('mushroom_rl.policy')
    Table = c.mod('mushroom_rl.approximators.table').Table
    nS, nA = c.size('nS', 2), c.size('nA', 2)
    Q0 = c.array('Q', (nS, nA))
    q = Table((nS, nA))
    q.table[:] = Q0
    pi = getattr(pol, cls)(par)
    pi.set_q(q)
    s = c.array('s', (1,), 'int', lo=0, hi=nS - 1)
    return pi, nA, Q0, s, c.at(s, 0)


def greedy(c, Q0, S, nA, a):
    return c.all(nA, lambda m: c.le(c.at(Q0, S, m), c.at(Q0, S, a)))


def is_max(c, Q0, S, nA, a):
    if c.symbolic:
        return c.eq(c.at(Q0, S, a), c.max(nA, lambda m: c.at(Q0, S, m)))
    return bool(Q0[S, a] == Q0[S].max())


@harness(P, 'eps_greedy_probabilities')
def eps_probs(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    eps = c.real('eps', 0, 1)
    pi, nA, Q0, s, S = setup(c, par=par.Parameter(eps))
    p = pi(s)
    c.ensure_shape('one-per-action', p, (nA,))
    nmax = c.toreal(c.sum(nA, lambda k: c.ite(is_max(c, Q0, S, nA, k), 1, 0)))
    c.ensure_all('value', (nA,), lambda a: c.eq(
        c.at(p, a) * nmax * c.toreal(nA), eps * nmax + c.ite(is_max(c, Q0, S, nA, a), (1 - eps) * c.toreal(nA), 0.)))
    c.ensure_all('non-negative', (nA,), lambda a: c.le(0., c.at(p, a)))
    c.ensure_eq('evaluation-is-pure', lambda: c.at(pi._epsilon._n_updates.table, 0), 0)


@harness(P, 'eps_greedy_pair_probability')
def eps_pair(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    eps = c.real('eps', 0, 1)
    pi, nA, Q0, s, S = setup(c, par=par.Parameter(eps))
    a = c.array('a', (1,), 'int', lo=0, hi=nA - 1)
    A = c.at(a, 0)
    p = pi(s, a)
    nmax = c.toreal(c.sum(nA, lambda k: c.ite(is_max(c, Q0, S, nA, k), 1, 0)))
    c.ensure('value', lambda: c.eq(
        c.at(p) * nmax * c.toreal(nA), eps * nmax + c.ite(is_max(c, Q0, S, nA, A), (1 - eps) * c.toreal(nA), 0.)))


@harness(P, 'eps_greedy_draw')
def eps_draw(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    eps = c.real('eps', 0, 1)
    pi, nA, Q0, s, S = setup(c, par=par.Parameter(eps))
    u = c.real('u', 0, 1, open_hi=True)
    calls = []

    def coin(*a, **k):
        calls.append(a)
        return u
    for n in ('uniform', 'rand', 'random', 'random_sample'):
        c.stub(c.np.random, n, coin)
    a, ps = pi.draw_action(s)
    c.ensure_shape('shape', a, (1,))
    A = c.at(a, 0)
    c.ensure('valid-action', lambda: c.and_(c.le(0, A), c.le(A, nA - 1)))
    if len(calls) == 1 and calls[0] == ():
        c.ensure('greedy-with-probability-1-eps', lambda: c.implies(
            c.not_(c.lt(u, eps)), lambda: greedy(c, Q0, S, nA, A)))
    c.ensure_eq('schedule-advances-once', lambda: c.at(pi._epsilon._n_updates.table, 0), 1)


@harness(P, 'eps_greedy_explores_everything')
def eps_explore(c):
    """when exploring, the action is drawn uniformly over all of the actions"""
    par = c.mod('mushroom_rl.rl_utils.parameters')
    pi, nA, Q0, s, S = setup(c, par=par.Parameter(1.))
    calls = []
    k = c.int('pick', 0, nA - 1)

    def choice(a, size=None, replace=True, p=None):
        calls.append((a, size, p))
        return k
    c.stub(c.np.random, 'choice', choice)
    a, _ = pi.draw_action(s)
    if len(calls) == 1 and calls[0][1] is None and calls[0][2] is None and c.scalar(calls[0][0]):
        c.ensure_eq('uniform-over-all', lambda: calls[0][0], nA)
        c.ensure_eq('returned', lambda: c.at(a, 0), k)


@harness(P, 'eps_greedy_zero_is_greedy')
def eps_zero(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    pi, nA, Q0, s, S = setup(c, par=par.Parameter(0.))
    a, _ = pi.draw_action(s)
    c.ensure('greedy', lambda: greedy(c, Q0, S, nA, c.at(a, 0)))


@harness(P, 'eps_greedy_state_dependent')
def eps_state(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    eps = c.real('eps', 0, 1)
    pol = c.mod('mushroom_rl.policy')
    Table = c.mod('mushroom_rl.approximators.table').Table
    nS, nA = c.size('nS', 2), c.size('nA', 2)
    lin = par.LinearParameter(value=1., threshold_value=0., n=10, size=(nS,))
    n0 = c.array('visits', (nS,), 'int', lo=0, hi=20)
    lin._n_updates.table[:] = n0
    q = Table((nS, nA))
    pi = pol.EpsGreedy(lin)
    pi.set_q(q)
    s = c.array('s', (1,), 'int', lo=0, hi=nS - 1)
    a = c.array('a', (1,), 'int', lo=0, hi=nA - 1)
    for f in (lambda: pi(s), lambda: pi(s, a)):
        f()
        c.ensure_all('asking-for-probabilities-advances-nothing', (nS,), lambda i: c.eq(c.at(lin._n_updates.table, i), c.at(n0, i)))
    pi.draw_action(s)
    c.ensure_all('only-this-state-advances', (nS,), lambda i: c.eq(
        c.at(lin._n_updates.table, i), c.at(n0, i) + c.ite(c.eq(i, c.at(s, 0)), 1, 0)))


@harness(P, 'boltzmann_probabilities')
def boltz(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    beta = c.real('beta', 0, 4)
    pi, nA, Q0, s, S = setup(c, 'Boltzmann', par.Parameter(beta))
    Qb = c.copy(Q0)
    p = pi(s)
    c.ensure_shape('one-per-action', p, (nA,))
    mx = c.max(nA, lambda k: c.at(Q0, S, k) * beta)
    Z = c.sum(nA, lambda k: c.exp(c.at(Q0, S, k) * beta - mx))
    c.ensure_all('softmax', (nA,), lambda a: c.eq(c.at(p, a), c.exp(c.at(Q0, S, a) * beta - mx) / Z))
    c.ensure_all('q-untouched', (Q0.shape[0], nA), lambda i, j: c.eq(c.at(pi.get_q().table, i, j), c.at(Qb, i, j)))


@harness(P, 'boltzmann_pair')
def boltz_pair(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    beta = c.real('beta', 0, 4)
    pi, nA, Q0, s, S = setup(c, 'Boltzmann', par.Parameter(beta))
    a = c.array('a', (1,), 'int', lo=0, hi=nA - 1)
    p = pi(s, a)
    mx = c.max(nA, lambda k: c.at(Q0, S, k) * beta)
    Z = c.sum(nA, lambda k: c.exp(c.at(Q0, S, k) * beta - mx))
    c.ensure('softmax', lambda: c.eq(c.at(p, *([0] * p.ndim)), c.exp(c.at(Q0, S, c.at(a, 0)) * beta - mx) / Z))


@harness(P, 'boltzmann_draw_uses_its_probabilities')
def boltz_draw(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    beta = c.real('beta', 0, 4)
    pi, nA, Q0, s, S = setup(c, 'Boltzmann', par.Parameter(beta))
    calls = []
    k = c.int('pick', 0, nA - 1)

    def choice(a, size=None, replace=True, p=None):
        calls.append((a, size, p))
        return k
    c.stub(c.np.random, 'choice', choice)
    a, _ = pi.draw_action(s)
    c.ensure_shape('shape', a, (1,))
    if len(calls) == 1 and calls[0][2] is not None:
        p = calls[0][2]
        ref = pi(s)
        c.ensure_eq('over-all-actions', lambda: calls[0][0], nA)
        c.ensure_all('probabilities', (nA,), lambda i: c.eq(c.at(p, i), c.at(ref, i)))
        c.ensure_eq('returned', lambda: c.at(a, 0), k)


@harness(P, 'mellowmax_is_boltzmann_at_the_mellowmax_temperature', bounded_only=True)
def mellow(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    om = c.real('omega', 0.25, 4)
    pi, nA, Q0, s, S = setup(c, 'Mellowmax', par.Parameter(om))
    p = pi(s)
    import math
    q = [float(x) for x in Q0[S]]
    mxq = max(q)
    c.assume(max(q) - min(q) < 20)
    mm = mxq + math.log(sum(math.exp(om * (x - mxq)) for x in q) / nA) / om
    # the defining property of the mellowmax policy: its expected value is the mellowmax operator
    pr = [float(x) for x in p]
    val = sum(a * b for a, b in zip(pr, q))
    interior = max(pr) < .999 and max(q) - min(q) > .3

    def f(b):
        v = [x - mm for x in q]
        m = max(b * y for y in v)
        return sum(math.exp(b * y - m) * y for y in v)
    if f(-10.) * f(10.) < 0 and interior:
        c.ensure('expected-value', abs(val - mm) < 1e-3 * (1 + abs(mm)))
    c.ensure('distribution', abs(sum(pr) - 1) < 1e-9 and min(pr) >= 0)


@harness(P, 'setters')
def setters(c):
    par = c.mod('mushroom_rl.rl_utils.parameters')
    e1, e2 = c.real('e1', 0, 1), c.real('e2', 0, 1)
    pi, nA, Q0, s, S = setup(c, par=par.Parameter(e1))
    pi.set_epsilon(par.Parameter(e2))
    p = pi(s)
    nmax = c.toreal(c.sum(nA, lambda k: c.ite(is_max(c, Q0, S, nA, k), 1, 0)))
    c.ensure_all('uses-new-epsilon', (nA,), lambda a: c.eq(
        c.at(p, a) * nmax * c.toreal(nA), e2 * nmax + c.ite(is_max(c, Q0, S, nA, a), (1 - e2) * c.toreal(nA), 0.)))
