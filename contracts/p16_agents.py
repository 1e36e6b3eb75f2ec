"""P16, bounded part - every learning agent, saved in the middle of its training and loaded, continues exactly as the original.
Concrete runs of the real code only (networks, pickle and the archive are outside the verifier)."""
import os
import shutil
import tempfile
from pydv.ctx import harness
from contracts.common import unsup

P = 'P16'


def content(x, path='', out=None, seen=None):
    """flat list of (path, value) of everything that decides the future of an object"""
    import numpy as np
    import torch
    out = [] if out is None else out
    seen = () if seen is None else seen             # the objects on the way here
    if x is None or isinstance(x, (bool, int, float, str, np.generic)):
        out.append((path, x if x is None or isinstance(x, str) else float(x)))
    elif isinstance(x, torch.Tensor):
        out.append((path, x.detach().cpu().numpy().astype(float)))
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            content(list(x.reshape(-1)), path, out, seen)
        else:
            out.append((path, x.astype(float)))
    elif id(x) in seen:
        pass
    elif isinstance(x, (list, tuple)) or type(x).__name__ == 'deque':
        seen = seen + (id(x),)
        out.append((path + '#', float(len(x))))
        for i, y in enumerate(x):
            content(y, f'{path}[{i}]', out, seen)
    elif isinstance(x, dict):
        seen = seen + (id(x),)
        for k in sorted(x, key=str):
            content(x[k], f'{path}.{k}', out, seen)
    elif isinstance(x, (torch.nn.Module, torch.optim.Optimizer)):
        seen = seen + (id(x),)
        content(x.state_dict(), path, out, seen)
    elif hasattr(x, 'state_dict') is False and hasattr(x, '__dict__') and type(x).__module__.startswith('mushroom_rl'):
        seen = seen + (id(x),)
        for k in sorted(vars(x)):
            # not part of the future: diagnostics, and the action announced in an episode that the next run does not continue
            if k not in ('_logger', '_save_attributes', '_last_loss', 'next_action'):
                content(vars(x)[k], f'{path}.{k}', out, seen)
    return out


def compare(c, name, a, b, keep=lambda p: True):
    import numpy as np
    A, B = {p: v for p, v in content(a) if keep(p)}, {p: v for p, v in content(b) if keep(p)}
    miss = sorted(p for p in A if p not in B and A[p] is not None) + sorted(p for p in B if p not in A and B[p] is not None)
    diff = [p for p in A if p in B and not (A[p] is B[p] or (isinstance(A[p], (float, np.ndarray)) and isinstance(B[p], (float, np.ndarray)) and
            np.shape(A[p]) == np.shape(B[p]) and np.allclose(A[p], B[p], rtol=1e-4, atol=1e-6, equal_nan=True)) or (isinstance(A[p], str) and A[p] == B[p]))]
    c.ensure(name, not miss and not diff or _fail(c, name, miss, diff))


def _fail(c, name, miss, diff):
    if os.environ.get('PYDV_DEBUG'):
        print(f'{name}: lost {miss[:4]} different {diff[:4]}')
    return False


def nets():
    import torch
    nn = torch.nn

    class Net(nn.Module):
        def __init__(self, input_shape, output_shape, squeeze=False, **k):
            super().__init__()
            self.a, self.b, self.squeeze = nn.Linear(input_shape[-1], 4), nn.Linear(4, output_shape[0]), squeeze

        def forward(self, *x):
            y = self.b(torch.tanh(self.a(torch.cat([t.float() for t in x], -1))))
            return y.squeeze(-1) if self.squeeze else y

    class Lin(nn.Module):
        def __init__(self, input_shape, output_shape, **k):
            super().__init__()
            self.a = nn.Linear(input_shape[-1], output_shape[0], bias=False)

        def forward(self, s):
            return self.a(s.float())

    class QNet(nn.Module):
        def __init__(self, input_shape, output_shape, **k):
            super().__init__()
            self.a, self.b = nn.Linear(input_shape[-1], 4), nn.Linear(4, output_shape[0])

        def forward(self, s, a=None):
            q = self.b(torch.tanh(self.a(s.float())))
            return q if a is None else q.gather(1, a.long()).squeeze(-1)

    class Feat(nn.Module):
        def __init__(self, input_shape, output_shape, **k):
            super().__init__()
            self.a = nn.Linear(input_shape[-1], 4)

        def forward(self, s, a=None):
            return torch.tanh(self.a(s.float()))

    class RecV(nn.Module):
        def __init__(self, input_shape, output_shape, **k):
            super().__init__()
            self.a = nn.Linear(3, 1)

        def forward(self, s, ps, le):
            last = s[torch.arange(len(s)), le.long() - 1]
            return self.a(torch.cat([last.float(), ps.float().reshape(len(s), -1)[:, :1]], -1))

    class RecPi(nn.Module):
        def __init__(self, input_shape, output_shape, **k):
            super().__init__()
            self.a, self.h = nn.Linear(3, output_shape[0]), nn.Linear(3, 1)

        def forward(self, s, ps, le):
            last = s[torch.arange(len(s)), le.long() - 1]
            x = torch.cat([last.float(), ps.float().reshape(len(s), -1)[:, :1]], -1)
            return self.a(x), torch.tanh(self.h(x))
    # pickled by reference: make them importable
    for k in (Net, Lin, QNet, Feat, RecV, RecPi):
        k.__qualname__ = k.__name__
        k.__module__ = __name__
        globals()[k.__name__] = k
    return Net, Lin, QNet, Feat, RecV, RecPi


def seed_all(s):
    import numpy as np
    import torch
    np.random.seed(s)
    torch.manual_seed(s)


class Setup:
    def __init__(self, c):
        import torch
        import mushroom_rl.core as core
        import mushroom_rl.algorithms.value as value
        import mushroom_rl.algorithms.actor_critic as ac
        import mushroom_rl.algorithms.policy_search as ps
        import mushroom_rl.policy as policy
        import mushroom_rl.distributions as dist
        import mushroom_rl.rl_utils.optimizers as optimizers
        import mushroom_rl.rl_utils.parameters as parameters
        import mushroom_rl.approximators as ap
        import mushroom_rl.approximators.parametric as par
        import mushroom_rl.rl_utils.spaces as sp
        import numpy as np
        self.torch, self.core, self.value, self.ac, self.ps, self.policy, self.dist = torch, core, value, ac, ps, policy, dist
        self.optimizers, self.parameters, self.ap, self.par, self.sp, self.np = optimizers, parameters, ap, par, sp, np
        self.Net, self.Lin, self.QNet, self.Feat, self.RecV, self.RecPi = nets()
        self.adam = lambda lr=.01: {'class': torch.optim.Adam, 'params': {'lr': lr}}
        self.mse = torch.nn.functional.mse_loss
        S = self

        class Walk(core.Environment):
            """random walk on the line (continuous) or on a ring (discrete); episodes end at random"""
            def __init__(self, kind):
                box = sp.Box(-1., 1., shape=(2,))
                if kind == 'finite':
                    o, a = sp.Discrete(4), sp.Discrete(2)
                elif kind == 'control':
                    o, a = box, sp.Discrete(2)
                else:
                    o, a = box, sp.Box(-1., 1., shape=(1,))
                self.kind = kind
                super().__init__(core.MDPInfo(o, a, .9, 4))

            def obs(self):
                return np.array([np.random.randint(4)]) if self.kind == 'finite' else np.random.uniform(-1, 1, 2)

            def reset(self, state=None):
                return self.obs(), {}

            def step(self, action):
                return self.obs(), float(np.random.uniform(-1, 1)) + .1 * float(np.sum(action)), bool(np.random.rand() < .2), {}
        self.Walk = Walk

    @property
    def lr(self):
        return self.parameters.Parameter(.2)


def mk(name, kind, build, episodes=False, steps=1, again=True, keep=lambda p: True):
    @harness(P, 'continues_' + name, bounded_only=True)
    def h(c):
        if c.symbolic:
            unsup(c, 'networks, pickle and archive')
        S = Setup(c)
        sd = c.int('seed', 0, 10 ** 6)
        seed_all(sd)
        ag = build(S, S.Walk(kind).info)
        run = dict(n_episodes=8, n_episodes_per_fit=4, quiet=True) if episodes else dict(n_steps=(8 if again else 1) * steps, n_steps_per_fit=steps, quiet=True)
        d = tempfile.mkdtemp(prefix='pydv')
        try:
            S.core.Core(ag, S.Walk(kind)).learn(**run)
            path = os.path.join(d, 'agent.msh')
            ag.save(path, full_save=True)
            ag2 = S.core.Agent.load(path)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        lost = [k for k in vars(ag) if k not in vars(ag2) and vars(ag)[k] is not None]
        c.ensure('no-attribute-is-lost', not lost or _fail(c, 'attributes', lost, []))
        compare(c, 'same-content', ag, ag2, keep)
        for x in (ag, ag2):
            seed_all(sd + 1)
            (S.core.Core(x, S.Walk(kind)).learn if again else S.core.Core(x, S.Walk(kind)).evaluate)(**(run if again else dict(n_steps=5, quiet=True)))
        compare(c, 'continues-as-the-original', ag, ag2, keep)
    return h


# ---- value based ------------------------------------------------------------------------------
def eps(S):
    return S.policy.EpsGreedy(S.parameters.LinearParameter(1., .1, 50))


for _n in ('QLearning', 'DoubleQLearning', 'SARSA', 'ExpectedSARSA', 'SpeedyQLearning', 'WeightedQLearning'):
    mk(_n, 'finite', lambda S, i, n=_n: getattr(S.value, n)(i, eps(S), S.parameters.DecayParameter(.5, exp=.7, size=i.size)))
mk('QLearning_Boltzmann', 'finite', lambda S, i: S.value.QLearning(i, S.policy.Boltzmann(S.parameters.LinearParameter(.1, 2., 20)), S.lr))
mk('QLearning_Mellowmax', 'finite', lambda S, i: S.value.QLearning(i, S.policy.Mellowmax(S.parameters.Parameter(3.)), S.lr))
mk('MaxminQLearning', 'finite', lambda S, i: S.value.MaxminQLearning(i, eps(S), S.lr, 2))
mk('RLearning', 'finite', lambda S, i: S.value.RLearning(i, eps(S), S.lr, S.parameters.Parameter(.1)))
mk('RQLearning', 'finite', lambda S, i: S.value.RQLearning(i, eps(S), S.lr, off_policy=True, delta=.3))
for _n in ('SARSALambda', 'QLambda'):
    mk(_n, 'finite', lambda S, i, n=_n: getattr(S.value, n)(i, eps(S), S.lr, .8, 'accumulating'))
mk('SARSALambdaContinuous', 'control', lambda S, i: S.value.SARSALambdaContinuous(
    i, eps(S), S.par.LinearApproximator, S.lr, .8, dict(input_shape=(2,), output_shape=(2,), n_actions=2)))
mk('TrueOnlineSARSALambda', 'control', lambda S, i: S.value.TrueOnlineSARSALambda(
    i, eps(S), S.lr, .8, dict(input_shape=(2,), output_shape=(2,), n_actions=2)))


def dqn(S, feat=False, **k):
    return dict(approximator_params=dict(network=S.Feat if feat else S.QNet, optimizer=S.adam(), loss=S.mse, input_shape=(2,), output_shape=(2,), n_actions=2, n_features=4),
                batch_size=4, target_update_frequency=3, initial_replay_size=5, max_replay_size=10, **k)


for _n, _k in (('DQN', {}), ('DoubleDQN', {}), ('AveragedDQN', dict(n_approximators=2)), ('MaxminDQN', dict(n_approximators=2))):
    mk(_n, 'control', lambda S, i, n=_n, k=_k: getattr(S.value, n)(i, eps(S), S.par.NumpyTorchApproximator, **dqn(S, **k)), steps=3)
for _n, _k in (('DuelingDQN', {}), ('NoisyDQN', {}), ('QuantileDQN', dict(n_quantiles=3)), ('CategoricalDQN', dict(n_atoms=3, v_min=-1., v_max=1.))):
    mk(_n, 'control', lambda S, i, n=_n, k=_k: getattr(S.value, n)(i, eps(S), **dqn(S, True, **k)), steps=3)
mk('Rainbow', 'control', lambda S, i: S.value.Rainbow(i, eps(S), **dqn(S, True, n_atoms=3, v_min=-1., v_max=1., n_steps_return=2, alpha_coeff=.6,
                                                                     beta=S.parameters.LinearParameter(.4, 1., 50))), steps=3)


def poly():
    from mushroom_rl.features.features import Features
    from mushroom_rl.features.basis import PolynomialBasis
    return Features(basis_list=[PolynomialBasis(dimensions=[0], degrees=[1]), PolynomialBasis(dimensions=[1], degrees=[1])])


def batch(S):
    return dict(input_shape=(2,), output_shape=(1,), n_actions=2)


for _n in ('FQI', 'DoubleFQI', 'BoostedFQI'):
    mk(_n, 'control', lambda S, i, n=_n: getattr(S.value, n)(
        i, eps(S), S.par.LinearApproximator, n_iterations=2, approximator_params=dict(batch(S), **(dict(n_models=2) if n == 'BoostedFQI' else {})), quiet=True), steps=12, again=_n != 'BoostedFQI')
mk('LSPI', 'control', lambda S, i: S.value.LSPI(i, eps(S), dict(input_shape=(2,), output_shape=(2,), n_actions=2, phi=poly()), epsilon=1e9), steps=12)


# ---- actor-critic -----------------------------------------------------------------------------
def gauss(S):
    import numpy as np
    r = S.ap.Regressor(S.par.LinearApproximator, input_shape=(2,), output_shape=(1,))
    return S.policy.GaussianPolicy(r, np.eye(1) * .3)


def tgauss(S):
    return S.policy.GaussianTorchPolicy(S.Net, (2,), (1,), std_0=.7)


def vparams(S):
    return dict(network=S.Net, optimizer=S.adam(), loss=S.mse, input_shape=(2,), output_shape=(1,), quiet=True)


def off(S):
    return (dict(network=S.Net, input_shape=(2,), output_shape=(1,)), S.adam(),
            dict(network=S.Net, optimizer=S.adam(), loss=S.mse, input_shape=(3,), output_shape=(1,), squeeze=True, quiet=True))


def ou(S):
    return dict(sigma=S.torch.ones(1) * .2, theta=.15, dt=1e-2)


for _n in ('DDPG', 'TD3'):
    mk(_n, 'continuous', lambda S, i, n=_n: getattr(S.ac, n)(i, S.policy.OrnsteinUhlenbeckPolicy, ou(S), *off(S), 4, 5, 10, .1,
                                                            **(dict(policy_delay=2) if n == 'TD3' else {})), steps=3)
mk('SAC', 'continuous', lambda S, i: S.ac.SAC(i, dict(network=S.Net, input_shape=(2,), output_shape=(1,)), dict(network=S.Net, input_shape=(2,), output_shape=(1,)),
                                              S.adam(), off(S)[2], 4, 5, 10, 2, .1, .01), steps=3)
mk('A2C', 'continuous', lambda S, i: S.ac.A2C(i, tgauss(S), S.adam(), vparams(S), .01, max_grad_norm=.5), steps=6)
mk('PPO', 'continuous', lambda S, i: S.ac.PPO(i, tgauss(S), S.adam(), vparams(S), 2, 3, .2, .95, ent_coeff=.01), steps=6)
mk('TRPO', 'continuous', lambda S, i: S.ac.TRPO(i, tgauss(S), vparams(S), critic_fit_params=dict(n_epochs=1)), steps=6)
mk('PPO_BPTT', 'continuous', lambda S, i: S.ac.PPO_BPTT(
    i, S.policy.RecurrentGaussianTorchPolicy(policy_state_shape=(1,), network=S.RecPi, input_shape=(2,), output_shape=(1,), std_0=.7), S.adam(), dict(network=S.RecV, optimizer=S.adam(), loss=S.mse, input_shape=(2,), output_shape=(1,), quiet=True),
    2, 3, .2, .95, 2, truncation_length=2), steps=6)
mk('COPDAC_Q', 'continuous', lambda S, i: (lambda r: S.ac.COPDAC_Q(i, S.policy.GaussianPolicy(r, S.np.eye(1) * .3), r, S.lr, S.lr, S.lr))(
    S.ap.Regressor(S.par.LinearApproximator, input_shape=(2,), output_shape=(1,))))
for _n in ('StochasticAC', 'StochasticAC_AVG'):
    mk(_n, 'continuous', lambda S, i, n=_n: getattr(S.ac, n)(i, gauss(S), S.lr, S.lr, *(((S.lr),) if n[-1] == 'G' else ()), lambda_par=.5))


# ---- policy search ----------------------------------------------------------------------------
for _n in ('REINFORCE', 'GPOMDP', 'eNAC'):
    mk(_n, 'continuous', lambda S, i, n=_n: getattr(S.ps, n)(i, gauss(S), S.optimizers.AdamOptimizer(.01)), episodes=True)


def dpol(S):
    return S.policy.DeterministicPolicy(S.ap.Regressor(S.par.LinearApproximator, input_shape=(2,), output_shape=(1,)))


def bb(S, d='GaussianDiagonalDistribution'):
    import numpy as np
    return (getattr(S.dist, d)(np.zeros(2), np.ones(2) * .5 if 'Diagonal' in d else np.eye(2) * .5), dpol(S))


mk('PGPE', 'continuous', lambda S, i: S.ps.PGPE(i, *bb(S), S.optimizers.AdaptiveOptimizer(.1)), episodes=True)
mk('RWR', 'continuous', lambda S, i: S.ps.RWR(i, *bb(S), beta=1.), episodes=True)
mk('REPS', 'continuous', lambda S, i: S.ps.REPS(i, *bb(S, 'GaussianCholeskyDistribution'), eps=.5), episodes=True)
mk('ConstrainedREPS', 'continuous', lambda S, i: S.ps.ConstrainedREPS(i, *bb(S), eps=.5, kappa=.1), episodes=True)
mk('MORE', 'continuous', lambda S, i: S.ps.MORE(i, *bb(S, 'GaussianCholeskyDistribution'), eps=.5), episodes=True)
mk('ePPO', 'continuous', lambda S, i: S.ps.ePPO(i, S.dist.DiagonalGaussianTorchDistribution(S.torch.zeros(2), S.torch.ones(2) * .5), S.policy.DeterministicPolicy(S.ap.Regressor(S.par.TorchApproximator, network=S.Lin, input_shape=(2,), output_shape=(1,))),
                                                S.adam(), 2, 2, .2), episodes=True)
