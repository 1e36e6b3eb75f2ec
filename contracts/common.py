"""Helpers shared by the contracts (they only use the public constructors of the library)."""


def mdp(c, obs=None, act=None, gamma=None, horizon=100, **kw):
    core = c.mod('mushroom_rl.core')
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    nS = nA = None
    if obs is None:
        nS = c.size('nS', 2)
        obs = sp.Discrete(nS)
    if act is None:
        nA = c.size('nA', 2)
        act = sp.Discrete(nA)
    if gamma is None:
        gamma = c.real('gamma', 0, 1)
    return core.MDPInfo(obs, act, gamma, horizon, **kw), nS, nA, gamma


def one_step(c, info, agent, s, a, r, s2, absorbing, last=None):
    """the dataset holding exactly one transition, built through the public interface"""
    core = c.mod('mushroom_rl.core')
    ds = core.Dataset.generate(info, agent.info, n_steps=1)
    ds.append((s, a, r, s2, absorbing, absorbing if last is None else last), {})
    return ds


def unsup(c, msg):
    """outside what this contract can look at: the proof is given up, the concrete case is skipped"""
    if c.symbolic:
        from pydv.core import Unsupported
        raise Unsupported(msg)
    c.assume(False)


def configuration(c, *given):
    """frame condition on given parameter dictionaries; call the result when they must still be as they were"""
    def snap(x):
        if isinstance(x, dict):
            return ('dict', [(k, snap(v)) for k, v in x.items()])
        if isinstance(x, list):
            return ('list', [snap(v) for v in x])
        return ('value', x)

    def same(a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'value':
            return a[1] is b[1] or type(a[1]) is type(b[1]) and isinstance(a[1], (int, float, str, tuple)) and a[1] == b[1]
        if len(a[1]) != len(b[1]):
            return False
        if a[0] == 'dict':
            d = dict(b[1])
            return all(k in d and same(v, d[k]) for k, v in a[1])
        return all(map(same, a[1], b[1]))
    before = [snap(x) for x in given]
    return lambda: c.ensure('given-configuration-unchanged', all(same(a, snap(x)) for a, x in zip(before, given)))
