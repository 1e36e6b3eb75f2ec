"""P14 - advantage and value-target estimation."""
from pydv.ctx import harness

PRELOAD = ['mushroom_rl.rl_utils.value_functions', 'mushroom_rl.rl_utils', 'mushroom_rl.algorithms.actor_critic.deep_actor_critic.ppo_bptt']
P = 'P14'
VF = 'mushroom_rl.rl_utils.value_functions'


class Ghost:
    _pydv_ghost = True


def setup(c, lo=1):
    n = c.size('n', lo)
    d = c.size('d', 1)
    S, S2 = c.array('S', (n, d), lib='torch'), c.array('S2', (n, d), lib='torch')
    v, vn = c.array('v', (n, 1), lib='torch'), c.array('vn', (n, 1), lib='torch')
    r = c.array('r', (n,), lib='torch')
    ab = c.array('ab', (n,), 'bool', lib='torch')

    def V(x):
        if x is S:
            return c.copy(v)
        if x is S2:
            return c.copy(vn)
        # a single next state (the final one)
        c.ensure_all('value-of-the-final-state', (d,), lambda j: c.eq(c.at(x, j), c.at(S2, n - 1, j)))
        return c.copy(vn[n - 1])
    return n, S, S2, v, vn, r, ab, V


def untouched(c, n, r, r0, ab, ab0):
    c.ensure_all('inputs-untouched', (n,), lambda k: c.and_(c.eq(c.at(r, k), c.at(r0, k)), c.eq(c.at(ab, k), c.at(ab0, k))))


@harness(P, 'one_step_advantage')
def td(c):
    f = c.mod(VF)
    n, S, S2, v, vn, r, ab, V = setup(c)
    gamma = c.real('gamma', 0, 1)
    r0, ab0 = c.copy(r), c.copy(ab)
    q, adv = f.compute_advantage(V, S, S2, r, ab, gamma)
    c.ensure_shape('target-shape', q, (n, 1))
    c.ensure_shape('advantage-shape', adv, (n, 1))
    tgt = lambda k: c.at(r0, k) + c.ite(c.at(ab0, k), 0., gamma * c.at(vn, k, 0))
    c.ensure_all('target', (n,), lambda k: c.eq(c.at(q, k, 0), tgt(k)))
    c.ensure_all('advantage', (n,), lambda k: c.eq(c.at(adv, k, 0), tgt(k) - c.at(v, k, 0)))
    untouched(c, n, r, r0, ab, ab0)


@harness(P, 'monte_carlo_advantage')
def mc(c):
    f = c.mod(VF)
    n, S, S2, v, vn, r, ab, V = setup(c, 2)
    gamma = c.real('gamma', 0, 1)
    r0, ab0 = c.copy(r), c.copy(ab)
    at = lambda i: n - 1 - i
    # return from the i-th step counted from the end
    G = c.rec('G', c.at(r0, at(0)) + c.ite(c.at(ab0, at(0)), 0., gamma * c.at(vn, n - 1, 0)),
              lambda i, prev: c.at(r0, at(i + 1)) + c.ite(c.at(ab0, at(i + 1)), 0., gamma * prev))

    def havoc(L, e):
        L.havoc_array(e.q)
        return {'q_next': L.real('q_next')}

    def inv(e, k):
        return [('target', c.implies(c.lt(0, k), lambda: c.eq(e.q_next, G(k - 1)))),
                ('start', c.implies(c.eq(k, 0), lambda: c.eq(e.q_next, c.at(vn, n - 1, 0)))),
                ('targets', c.all(k, lambda i: c.eq(c.at(e.q, at(i)), G(i))))]
    c.loop(VF + '.compute_advantage_montecarlo#0', havoc, inv)
    q, adv = f.compute_advantage_montecarlo(V, S, S2, r, ab, gamma)
    c.ensure_shape('target-shape', q, (n, 1))
    c.ensure_all('target', (n,), lambda i: c.eq(c.at(q, at(i), 0), G(i)))
    c.ensure_all('advantage', (n,), lambda i: c.eq(c.at(adv, at(i), 0), G(i) - c.at(v, at(i), 0)))
    untouched(c, n, r, r0, ab, ab0)


def gae_spec(c, n, v, vn, r, ab, last, gamma, lam):
    at = lambda i: n - 1 - i
    delta = lambda k: c.at(r, k) + c.ite(c.at(ab, k), 0., gamma * vn(k)) - v(k)
    A = c.rec('A', delta(at(0)), lambda i, prev: delta(at(i + 1)) + c.ite(c.at(last, at(i + 1)), 0., gamma * lam * prev))
    return A, at


def gae(c, where, call):
    n, S, S2, v, vn, r, ab, V = setup(c)
    last = c.array('last', (n,), 'bool', lib='torch')
    c.assume_all((n,), lambda k: c.implies(c.at(ab, k), c.at(last, k)))
    gamma, lam = c.real('gamma', 0, 1), c.real('lam', 0, 1)
    r0, ab0, l0 = c.copy(r), c.copy(ab), c.copy(last)
    A, at = gae_spec(c, n, lambda k: c.at(v, k, 0), lambda k: c.at(vn, k, 0), r0, ab0, l0, gamma, lam)

    def havoc(L, e):
        L.havoc_array(e.gen_adv)

    def inv(e, k):
        return [('advantages', c.all(k, lambda i: c.eq(c.at(e.gen_adv, at(i), 0), A(i))))]
    c.loop(where, havoc, inv)
    tgt, adv = call(c, V, S, S2, r, ab, last, gamma, lam)
    c.ensure_shape('target-shape', tgt, (n, 1))
    c.ensure_shape('advantage-shape', adv, (n, 1))
    c.ensure_all('advantage', (n,), lambda i: c.eq(c.at(adv, at(i), 0), A(i)))
    c.ensure_all('target', (n,), lambda i: c.eq(c.at(tgt, at(i), 0), A(i) + c.at(v, at(i), 0)))
    untouched(c, n, r, r0, ab, ab0)
    c.ensure_all('flags-untouched', (n,), lambda k: c.eq(c.at(last, k), c.at(l0, k)))


@harness(P, 'gae')
def gae_plain(c):
    gae(c, VF + '.compute_gae#0', lambda c, V, S, S2, r, ab, last, gamma, lam:
        c.mod(VF).compute_gae(V, S, S2, r, ab, last, gamma, lam))


@harness(P, 'gae_lambda_zero_is_td')
def gae_td(c):
    """lambda 0 gives the one-step advantage (lemma over the two specifications, checked on the code)"""
    f = c.mod(VF)
    n = c.choice('n', [1, 2, 3])
    v, vn = c.array('v', (n, 1), lib='torch'), c.array('vn', (n, 1), lib='torch')
    S, S2 = c.array('S', (n, 1), lib='torch'), c.array('S2', (n, 1), lib='torch')
    r, ab = c.array('r', (n,), lib='torch'), c.array('ab', (n,), 'bool', lib='torch')
    last = c.array('last', (n,), 'bool', lib='torch')
    for k in range(n):
        c.assume(c.implies(c.at(ab, k), c.at(last, k)))
    gamma = c.real('gamma', 0, 1)
    V = lambda x: c.copy(v) if x is S else c.copy(vn)
    q1, a1 = f.compute_advantage(V, S, S2, r, ab, gamma)
    q2, a2 = f.compute_gae(V, S, S2, r, ab, last, gamma, 0.)
    for k in range(n):
        c.ensure_eq('same-advantage', lambda: c.at(a1, k, 0), c.at(a2, k, 0))
        c.ensure_eq('same-target', lambda: c.at(q1, k, 0), c.at(q2, k, 0))


@harness(P, 'gae_recurrent')
def gae_rnn(c):
    mod = c.mod('mushroom_rl.algorithms.actor_critic.deep_actor_critic.ppo_bptt')
    h, hn, le = object(), object(), object()

    def call(c, V, S, S2, r, ab, last, gamma, lam):
        def V2(x, hh, ll):
            c.ensure('matching-hidden-state', hh is (h if x is S else hn) and ll is le)
            return V(x)
        return mod.PPO_BPTT.compute_gae(V2, S, h, S2, hn, le, r, ab, last, gamma, lam)
    gae(c, 'mushroom_rl.algorithms.actor_critic.deep_actor_critic.ppo_bptt.PPO_BPTT.compute_gae#0', call)
