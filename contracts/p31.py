"""P31 - environments on external simulators step them as declared and report their state."""
import types

from pydv.ctx import harness
from .common import unsup

MJ = 'mushroom_rl.environments.mujoco'
PB = 'mushroom_rl.environments.pybullet'
PRELOAD = ['mushroom_rl.core', 'mushroom_rl.rl_utils.spaces', MJ, PB, 'mushroom_rl.utils.mujoco',
           'mushroom_rl.utils.mujoco.observation_helper', 'mushroom_rl.utils.pybullet', 'mushroom_rl.environments.gym_env',
           'mushroom_rl.environments.dm_control_env']
P = 'P31'
INF = float('inf')


class Ghost:
    _pydv_ghost = True

    def __init__(self, **k):
        self.__dict__.update(k)


def beyond(c, what):
    unsup(c, f'the ghost simulator knows nothing about {what}')


class Named(Ghost):
    """an accessor object of the simulator (data.joint(name), ...): only the known fields"""

    def __init__(self, c, fields, arrays):
        d = self.__dict__
        d['c_'], d['f_'], d['a_'] = c, fields, arrays

    def __getattr__(self, n):
        if n in self.a_:
            return self.a_[n]
        if n in self.f_:
            return self.f_[n]
        if n.startswith('__'):
            raise AttributeError(n)
        beyond(self.c_, n)

    def __setattr__(self, n, v):
        if n not in self.a_:
            beyond(self.c_, f'writing {n}')
        self.a_[n][:] = v


JOINTS = {'hip': 1, 'knee': 1, 'root': 7}          # number of position values
VELS = {'hip': 1, 'knee': 1, 'root': 6}
BODIES = ['torso', 'ball']
SITES = ['goal']
ACTS = ['m0', 'm1', 'm2']
GEOMS = ['floor', 'foot', 'hand', 'cup']


class Model(Ghost):
    def __init__(self, c, like=None):
        self.c = c
        self.opt = Ghost(timestep=like.opt.timestep if like else c.real('dt', 0.001, 1))
        self.jl = {n: list(like.jl[n]) if like else [c.real(f'{n}_lo', -9, 0), c.real(f'{n}_hi', 0, 9)] for n in ('hip', 'knee')}
        self.limited = {'hip': True, 'knee': False, 'root': False}
        self.actuator_ctrllimited = [True, False, True]
        self.actuator_ctrlrange = [list(like.actuator_ctrlrange[j]) if like else [c.real(f'u{j}_lo', -9, 0), c.real(f'u{j}_hi', 0, 9)]
                                   for j in range(3)]
        self.ids = {'hip': 3, 'knee': 1, 'root': 0}

    def joint(self, n):
        return Named(self.c, dict(id=self.ids[n], limited=self.limited[n], range=self.jl.get(n)), {})

    def actuator(self, n):
        return Named(self.c, dict(id=ACTS.index(n)), {})

    def __getattr__(self, n):
        if n.startswith('__') or n in ('c', '_pydv_ghost'):
            raise AttributeError(n)
        beyond(self.c, f'model.{n}')


class Data(Ghost):
    """the state of the simulation; every quantity is an array that the simulator writes and the accessors expose"""

    def __init__(self, c, model, sim):
        self.c, self.model, self.sim = c, model, sim
        z = c.np.zeros
        self.arr = {}
        for n in JOINTS:
            self.arr['qpos', n] = z(JOINTS[n])
            self.arr['qvel', n] = z(VELS[n])
        for n in BODIES:
            self.arr['xpos', n] = z(3)
            self.arr['xquat', n] = z(4)
            self.arr['vel0', n] = z(6)              # world frame
            self.arr['vel1', n] = z(6)              # local frame
        for n in SITES:
            self.arr['sxpos', n] = z(3)
            self.arr['sxmat', n] = z(9)
        self.ctrl = z(len(ACTS))
        self.actuator_force = z(len(ACTS))
        self.ncon, self.contact = 0, []

    def joint(self, n):
        return Named(self.c, dict(id=self.model.ids[n]), dict(qpos=self.arr['qpos', n], qvel=self.arr['qvel', n]))

    def body(self, n):
        return Named(self.c, dict(id=BODIES.index(n) + 1), dict(xpos=self.arr['xpos', n], xquat=self.arr['xquat', n]))

    def site(self, n):
        return Named(self.c, dict(id=SITES.index(n)), dict(xpos=self.arr['sxpos', n], xmat=self.arr['sxmat', n]))

    def __getattr__(self, n):
        if n.startswith('__') or n in ('c', '_pydv_ghost'):
            raise AttributeError(n)
        beyond(self.c, f'data.{n}')

    def fill(self, tag):
        """any state of the simulation"""
        for (q, n), a in self.arr.items():
            for j in range(a.shape[0]):
                a[j] = self.c.fresh(f'{tag}_{q}_{n}_{j}')


DERIVED = ('xpos', 'xquat', 'vel0', 'vel1', 'sxpos', 'sxmat')


class MuJoCoSim(Ghost):
    """assumed contract of the simulator: a step of n substeps leads to some state, a reset to the start, the forward
    functions bring positions and velocities of bodies and sites in line with the joints"""
    class mjtObj:
        mjOBJ_XBODY, mjOBJ_BODY, mjOBJ_GEOM, mjOBJ_JOINT, mjOBJ_SITE = 'xbody', 'body', 'geom', 'joint', 'site'

    def __init__(self, c, models):
        self.c, self.models, self.datas = c, models, []
        self.calls, self.sub, self.resets, self.pos_ok, self.vel_ok = 0, 0, 0, True, True
        self.on_step = None
        self.MjModel = Ghost(from_xml_path=lambda f: models[f])
        c.trust('mujoco: mj_step(model, data, n) advances the simulation by n steps of opt.timestep with the controls in '
                'data.ctrl; mj_resetData restores the initial state; accessors are views of the data; after mj_fwdPosition '
                'and mj_fwdVelocity (or mj_forward) body and site quantities are those of the joint configuration')

    def MjData(self, m):
        d = Data(self.c, m, self)
        for (q, n), a in d.arr.items():
            for j in range(a.shape[0]):
                a[j] = self.start(q, n, j) if q not in DERIVED else 0.
        self.datas.append(d)
        return d

    def set_mju_user_warning(self, f):
        pass

    def mj_name2id(self, m, t, n):
        if t != 'geom':
            beyond(self.c, 'objects of other types')
        return GEOMS.index(n) if n in GEOMS else -1

    def mj_resetData(self, m, d):
        self.c.ensure('model-and-data-belong-together', d.model is m)
        self.resets += 1
        self.last_reset = d
        for (q, n), a in d.arr.items():
            for j in range(a.shape[0]):
                a[j] = self.start(q, n, j) if q not in DERIVED else 0.
        for j in range(len(ACTS)):
            d.ctrl[j] = 0.
        self.pos_ok = self.vel_ok = False

    def start(self, q, n, j):
        return self.c.func('start_' + q + n, 1)(j)

    def derive(self, d, qs):
        for (q, n), a in d.arr.items():
            if q in qs:
                for j in range(a.shape[0]):
                    a[j] = self.c.func('derived_' + q + n + str(j), 2)(d.arr['qpos', 'hip'][0], d.arr['qvel', 'hip'][0])

    def mj_fwdPosition(self, m, d):
        self.c.ensure('model-and-data-belong-together', d.model is m)
        self.derive(d, ('xpos', 'xquat', 'sxpos', 'sxmat'))
        self.pos_ok = True

    def mj_kinematics(self, m, d):
        self.mj_fwdPosition(m, d)

    def mj_fwdVelocity(self, m, d):
        self.c.ensure('model-and-data-belong-together', d.model is m)
        self.derive(d, ('vel0', 'vel1'))
        self.vel_ok = True

    def mj_forward(self, m, d, *a):
        self.mj_fwdPosition(m, d)
        self.mj_fwdVelocity(m, d)

    def mj_objectVelocity(self, m, d, t, i, out, local):
        self.c.ensure('velocity-of-a-body-frame', t == 'xbody')
        self.c.ensure('model-and-data-belong-together', d.model is m)
        out[:] = d.arr['vel1' if local else 'vel0', BODIES[i - 1]]

    def mj_step(self, m, d, n=1):
        self.c.ensure('model-and-data-belong-together', d.model is m)
        if self.on_step is None:
            beyond(self.c, 'a step here')
        self.on_step(m, d, n)
        self.calls = self.calls + 1
        self.sub = self.sub + n

    def mj_contactForce(self, m, d, i, out):
        self.c.ensure('model-and-data-belong-together', d.model is m)
        for j in range(6):
            out[j] = self.c.func('force', 2)(i, j)

    def __getattr__(self, n):
        if n.startswith('__') or n in ('c', '_pydv_ghost'):
            raise AttributeError(n)
        beyond(self.c, f'mujoco.{n}')


def mujoco(c, models):
    M = c.mod(MJ)
    H = c.mod('mushroom_rl.utils.mujoco.observation_helper')
    sim = MuJoCoSim(c, models)
    c.stub(M, 'mujoco', sim)
    c.stub(H, 'mujoco', sim)
    return M, sim


def types_of(c):
    return c.mod('mushroom_rl.utils.mujoco').ObservationType


def spec_a(T):
    return [('k_pos', 'knee', T.JOINT_POS), ('b', 'ball', T.BODY_POS), ('h_vel', 'hip', T.JOINT_VEL), ('h_pos', 'hip', T.JOINT_POS),
            ('bv', 'ball', T.BODY_VEL)]


def spec_b(T):
    return [('w', 'torso', T.BODY_VEL_WORLD), ('r', 'root', T.JOINT_POS), ('s', 'goal', T.SITE_POS), ('k_vel', 'knee', T.JOINT_VEL),
            ('rv', 'root', T.JOINT_VEL)]


def spec_c(T):
    return [('q', 'torso', T.BODY_ROT), ('h_pos', 'hip', T.JOINT_POS), ('m', 'goal', T.SITE_ROT), ('h_vel', 'hip', T.JOINT_VEL),
            ('k_pos', 'knee', T.JOINT_POS), ('k_vel', 'knee', T.JOINT_VEL)]


SPECS = [spec_a, spec_b, spec_c]
FIELD = {'BODY_POS': 'xpos', 'BODY_ROT': 'xquat', 'BODY_VEL': 'vel1', 'BODY_VEL_WORLD': 'vel0', 'JOINT_POS': 'qpos', 'JOINT_VEL': 'qvel',
         'SITE_POS': 'sxpos', 'SITE_ROT': 'sxmat'}


def value(d, name, t):
    """the array of the simulator the observation type documents"""
    return d.arr[FIELD[t.name], name]


def expected(c, d, spec, omit=None):
    """the documented observation: the declared quantities in the declared order"""
    return [c.at(value(d, n, t), j) for k, n, t in spec for j in range(value(d, n, t).shape[0]) if j not in (omit or {}).get(k, ())]


def same(c, tag, a, want):
    c.ensure(tag + '-size', lambda: tuple(a.shape) == (len(want),))
    for j, w in enumerate(want):
        c.ensure_eq(tag, lambda: c.at(a, j), w)


def limit_eq(c, tag, x, w):
    if isinstance(w, float) and abs(w) == INF:
        c.ensure(tag, lambda: float(x() if callable(x) else x) == w)
    else:
        c.ensure_eq(tag, x, w)


# ------------------------------------------------------------------ mujoco: one step
STEP = MJ + '.MuJoCo.step#0'


@harness(P, 'mujoco_step')
def mj_step(c):
    T = types_of(c)
    M, sim = mujoco(c, {'x': Model(c)})
    spec = spec_a(T)[:3]
    acts = ['m2', 'm0']
    per_step = c.choice('controller', [False, True])
    n_int, n_sub = c.size('n_int', 1), c.size('n_sub', 1)
    g = Ghost(order=0, pre=0, init=0, pre_steps=0, post_steps=0, fin=0, absorbs=0, rewards=0)
    ab, rew = bool(c.choice('absorbing', [False, True])), c.real('r')
    U = c.func('controller', 4)

    class Sub(M.MuJoCo):
        def _preprocess_action(self, action):
            g.pre = g.pre + 1
            c.ensure_eq('preprocesses-the-given-action', c.at(action, 1), c.at(a0, 1))
            return action * 2

        def _step_init(self, obs, action):
            g.init = g.init + 1
            same(c, 'step-starts-from-the-last-observation', obs, g.before)
            c.ensure_eq('step-init-gets-the-processed-action', c.at(action, 0), 2 * c.at(a0, 0))

        def _simulation_pre_step(self):
            c.ensure('pre-step-before-the-simulation', lambda: c.and_(c.eq(g.pre_steps, sim.calls), c.eq(g.post_steps, sim.calls)))
            g.pre_steps = g.pre_steps + 1

        def _simulation_post_step(self):
            g.post_steps = g.post_steps + 1
            c.ensure('post-step-after-the-simulation', lambda: c.and_(c.eq(g.post_steps, sim.calls), c.eq(g.pre_steps, sim.calls)))

        def _step_finalize(self):
            g.fin = g.fin + 1
            c.ensure('finalized-after-all-steps', lambda: c.eq(sim.calls, n_int))

        def is_absorbing(self, obs):
            g.absorbs = g.absorbs + 1
            same(c, 'absorbing-of-the-state-reached', obs, expected(c, d, spec))
            return ab

        def reward(self, obs, action, next_obs, absorbing):
            g.rewards = g.rewards + 1
            same(c, 'reward-from-the-state-before', obs, g.before)
            same(c, 'reward-of-the-state-reached', next_obs, expected(c, d, spec))
            c.ensure_eq('reward-of-the-processed-action', c.at(action, 1), 2 * c.at(a0, 1))
            c.ensure('reward-gets-the-absorbing-flag', lambda: absorbing is ab)
            return rew

        def _create_info_dictionary(self, obs):
            same(c, 'info-of-the-state-reached', obs, expected(c, d, spec))
            return {'i': 7}

        def _modify_observation(self, obs):
            return obs + 1

    if per_step:
        def comp(self, obs, action):
            same(c, 'controller-sees-the-current-state', obs, expected(c, d, spec))
            c.ensure_eq('controller-gets-the-processed-action', c.at(action, 1), 2 * c.at(a0, 1))
            return c.np.array([U(c.at(obs, 0), c.at(obs, 4), c.at(action, j), j) for j in range(2)])
        Sub._compute_action = comp

    env = Sub('x', acts, spec, c.real('gamma', 0, 1), 10, n_substeps=n_sub, n_intermediate_steps=n_int)
    c.ensure_eq('control-period', env.info.dt, sim.models['x'].opt.timestep * n_int * n_sub)
    d = sim.datas[0]
    d.fill('s0')
    env._obs = c.np.array(expected(c, d, spec))
    g.before = expected(c, d, spec)
    a0 = c.array('a', (2,))
    other = c.real('other')
    d.ctrl[1] = other

    def on_step(m, dd, n):
        c.ensure_eq('substeps-per-step', n, n_sub)
        for j, act in enumerate(acts):
            u = 2 * c.at(a0, j)
            if per_step:
                u = U(c.at(d.arr['qpos', 'knee'], 0), c.at(d.arr['qvel', 'hip'], 0), u, j)
            c.ensure_eq('action-drives-its-actuator', c.at(d.ctrl, ACTS.index(act)), u)
        c.ensure_eq('other-actuators-untouched', c.at(d.ctrl, 1), other)
        d.fill('st')
    sim.on_step = on_step

    def havoc(L, e):
        for n in ('pre_steps', 'post_steps'):
            L.havoc_attr(g, n, L.int(n, 0))
        for n in ('calls', 'sub'):
            L.havoc_attr(sim, n, L.int(n, 0))
        for a in d.arr.values():
            L.havoc_array(a)
        L.havoc_array(d.ctrl)
        first = bool(L.k == 0)
        r = dict(ctrl_action=None if first else c.np.array([2 * c.at(a0, j) for j in range(2)]))
        r['cur_obs'] = c.np.array(expected(c, d, spec) if per_step else g.before)
        return r

    def inv(e, k):
        r = [('one-simulation-per-step', c.and_(c.eq(sim.calls, k), c.eq(g.pre_steps, k), c.eq(g.post_steps, k))),
             ('substeps', c.eq(sim.sub, k * n_sub)), ('other-actuators', c.eq(c.at(d.ctrl, 1), other))]
        obs = e.cur_obs
        want = expected(c, d, spec) if per_step else g.before
        r.append(('observation', c.and_(*[c.eq(c.at(obs, j), w) for j, w in enumerate(want)])))
        if per_step:
            r.append(('starts-at-the-last-observation', c.implies(c.eq(k, 0), c.and_(
                *[c.eq(x, w) for x, w in zip(expected(c, d, spec), g.before)]))))
        else:
            r.append(('controls', c.implies(c.lt(0, k), c.and_(
                *[c.eq(c.at(d.ctrl, ACTS.index(a)), 2 * c.at(a0, j)) for j, a in enumerate(acts)]))))
        return r
    c.loop(STEP, havoc, inv)

    obs, r, absorbing, info = env.step(a0)
    c.ensure_eq('simulations', sim.calls, n_int)
    c.ensure_eq('simulated-substeps', sim.sub, n_int * n_sub)
    c.ensure('hooks-called-once', lambda: (g.pre, g.init, g.fin, g.absorbs, g.rewards) == (1, 1, 1, 1, 1))
    want = expected(c, d, spec)
    same(c, 'returns-the-state-reached', obs, [w + 1 for w in want])
    same(c, 'remembers-the-state-reached', env._obs, want)
    c.ensure('returns-reward-and-flag', lambda: absorbing is ab and info == {'i': 7})
    c.ensure_eq('returns-the-reward', r, rew)


@harness(P, 'mujoco_reset')
def mj_reset(c):
    T = types_of(c)
    M, sim = mujoco(c, {'x': Model(c)})
    spec = c.choice('spec', SPECS)(T)

    class Sub(M.MuJoCo):
        def _modify_observation(self, obs):
            return obs + 1

    env = Sub('x', [], spec, .9, 10)
    d = sim.datas[0]
    d.fill('s')
    given = c.choice('given', [False, True])
    for rounds in range(2):
        n = len(expected(c, d, spec))
        start = c.array(f'start{rounds}', (n,)) if given else None
        before = [c.at(start, j) for j in range(n)] if given else None
        r = env.reset(start) if given else env.reset()
        c.ensure('returns-observation-and-info', lambda: isinstance(r, tuple) and len(r) == 2 and r[1] == {})
        c.ensure('resets-the-simulation', lambda: sim.resets == rounds + 1)
        k = 0
        for key, name, t in spec:
            a = value(d, name, t)
            for j in range(a.shape[0]):
                if t.name.startswith('JOINT'):
                    w = before[k] if given else sim.start(FIELD[t.name], name, j)
                    c.ensure_eq('joints-start-where-asked', lambda: c.at(a, j), w)
                k += 1
        sim.derive(d, DERIVED)
        want = expected(c, d, spec)
        same(c, 'observation-of-the-start', r[0], [w + 1 for w in want])
        same(c, 'remembered-observation-of-the-start', env._obs, want)
        if given:
            for j in range(n):
                c.ensure_eq('given-state-untouched', c.at(start, j), before[j])
        d.fill(f'later{rounds}')
        same(c, 'observation-is-a-copy', r[0], [w + 1 for w in want])


@harness(P, 'mujoco_spaces')
def mj_spaces(c):
    T = types_of(c)
    m = Model(c)
    M, sim = mujoco(c, {'x': m})
    spec = c.choice('spec', SPECS)(T)
    acts = c.choice('acts', [[], ['m2', 'm0'], ['m1']])
    given = c.choice('max_vel', [False, True])
    n_vel = sum(t.name == 'JOINT_VEL' and VELS[n] == 1 for k, n, t in spec)
    vmax = [c.real(f'vmax{j}', 0, 9) for j in range(n_vel)]
    dt = c.real('step', 0.001, 1) if c.choice('timestep', [False, True]) else None
    old = m.opt.timestep
    n_int, n_sub = c.size('n_int', 1), c.size('n_sub', 1)
    env = M.MuJoCo('x', acts, spec, c.real('gamma', 0, 1), c.size('H', 1), timestep=dt, n_substeps=n_sub, n_intermediate_steps=n_int,
                   max_joint_vel=vmax if given else None)
    c.ensure_eq('timestep-of-the-simulation', m.opt.timestep, old if dt is None else dt)
    c.ensure_eq('control-period', env.info.dt, (old if dt is None else dt) * n_int * n_sub)
    idx = [ACTS.index(a) for a in acts] if acts else [0, 1, 2]
    c.ensure('actuators', lambda: list(env._action_indices) == idx)
    for b, box in ((0, env.info.action_space.low), (1, env.info.action_space.high)):
        c.ensure('action-space-size', lambda: tuple(box.shape) == (len(idx),))
        for j, i in enumerate(idx):
            limit_eq(c, 'action-bounds', lambda: c.at(box, j), m.actuator_ctrlrange[i][b] if m.actuator_ctrllimited[i] else (-INF, INF)[b])
    v = iter(vmax)
    low, high = [], []
    for k, n, t in spec:
        size = value(sim.datas[0], n, t).shape[0]
        if size == 1 and t.name == 'JOINT_POS' and m.limited[n]:
            low.append(m.jl[n][0])
            high.append(m.jl[n][1])
        elif size == 1 and t.name == 'JOINT_VEL' and given:
            x = next(v)
            low.append(-x)
            high.append(x)
        else:
            low += [-INF] * size
            high += [INF] * size
    for want, box in ((low, env.info.observation_space.low), (high, env.info.observation_space.high)):
        c.ensure('observation-space-size', lambda: tuple(box.shape) == (len(want),))
        for j, w in enumerate(want):
            limit_eq(c, 'observation-bounds', lambda: c.at(box, j), w)


@harness(P, 'mujoco_observations')
def mj_obs(c):
    """every key names exactly its values, in the limits and in the observation, also after removals and additions"""
    T = types_of(c)
    M, sim = mujoco(c, {})
    m = Model(c)
    d = sim.MjData(m)
    which = c.choice('spec', [0, 1, 2])
    spec = SPECS[which](T)
    vm = [c.real(f'vm{j}', 0, 9) for j in range(2)]
    h = c.mod('mushroom_rl.utils.mujoco').ObservationHelper(spec, m, d, max_joint_velocity=vm)
    d.fill('s')
    keys = [k for k, n, t in spec]
    removals = c.choice('removals', [[], [(['b', 'r', 'q'], 0)], [(['b', 'r', 'q'], 0), (['b', 'r', 'q'], 2)], [(['b', 'w', 'm'], 2), (['bv', 'r', 'm'], 4)]])
    omit = {}
    for names, j in removals:
        key = names[which]
        if j in omit.get(key, ()) or j >= value(d, *[(n, t) for k, n, t in spec if k == key][0]).shape[0]:
            continue
        h.remove_obs(key, j)
        omit.setdefault(key, []).append(j)
    extra = c.choice('extra', [False, True])
    lo, hi = c.real('xlo', -9, 0), 3.
    if extra:
        h.add_obs('x', 2, [lo, lo - 1], hi)
        keys = keys + ['x']
    obs = h._build_obs(m, d)
    want = expected(c, d, spec, omit)
    same(c, 'declared-quantities-in-order', obs, want)
    if extra:
        xs = [c.real('x0'), c.real('x1')]
        obs = c.np.concatenate([obs, c.np.array(xs)])
        want = want + xs
    c.ensure('keys', lambda: list(h.get_all_observation_keys()) == keys)
    pos, vel, plim, vlim = [], [], [], []
    at, vi = 0, 0
    limits = []
    for k, n, t in spec:
        a = value(d, n, t)
        kept = [j for j in range(a.shape[0]) if j not in omit.get(k, ())]
        same(c, 'values-of-the-key', h.get_from_obs(obs, k), [c.at(a, j) for j in kept])
        lim = [(-INF, INF)] * len(kept)
        if t.name == 'JOINT_POS' and a.shape[0] == 1:
            pos.append(c.at(a, 0))
            lim = [(m.jl[n][0], m.jl[n][1]) if m.limited[n] else (-INF, INF)]
            plim += lim
        if t.name == 'JOINT_VEL' and a.shape[0] == 1:
            vel.append(c.at(a, 0))
            lim = [(-vm[vi], vm[vi])]
            vlim += lim
            vi += 1
        limits += lim
        at += len(kept)
    if extra:
        same(c, 'values-of-the-key', h.get_from_obs(obs, 'x'), xs)
        limits += [(lo, hi), (lo - 1, hi)]
    same(c, 'joint-positions', h.get_joint_pos_from_obs(obs), pos) if pos else None
    same(c, 'joint-velocities', h.get_joint_vel_from_obs(obs), vel) if vel else None
    for tag, got, ref in (('limits', h.get_obs_limits(), limits), ('position-limits', h.get_joint_pos_limits(), plim),
                          ('velocity-limits', h.get_joint_vel_limits(), vlim)):
        for b in range(2):
            c.ensure(tag + '-size', lambda: tuple(got[b].shape) == (len(ref),))
            for j, l in enumerate(ref):
                limit_eq(c, tag, lambda: c.at(got[b], j), l[b])
    # the values of a key are a view of the observation
    view = h.get_from_obs(obs, keys[0])
    y = c.real('y')
    view[0] = y
    c.ensure_eq('key-is-writable', c.at(obs, 0), y)
    # writing an observation back: the joints take exactly their values
    back = c.array('back', (len(want),))
    old = {q: [c.at(a, j) for j in range(a.shape[0])] for q, a in d.arr.items()}
    h._modify_data(m, d, back)
    i = 0
    seen = set()
    for k, n, t in spec:
        a = value(d, n, t)
        for j in range(a.shape[0]):
            if j in omit.get(k, ()):
                c.ensure_eq('omitted-values-stay', c.at(a, j), old[FIELD[t.name], n][j])
                continue
            if t.name.startswith('JOINT'):
                c.ensure_eq('joint-takes-its-value', c.at(a, j), c.at(back, i))
            i += 1
        seen.add((FIELD[t.name], n))
    for q, a in d.arr.items():
        if q not in seen:
            for j in range(a.shape[0]):
                c.ensure_eq('other-quantities-stay', c.at(a, j), old[q][j])


@harness(P, 'mujoco_data')
def mj_data(c):
    T = types_of(c)
    M, sim = mujoco(c, {'x': Model(c)})
    extra = [('hp', 'hip', T.JOINT_POS), ('hv', 'hip', T.JOINT_VEL), ('rp', 'root', T.JOINT_POS), ('kv', 'knee', T.JOINT_VEL),
             ('bp', 'ball', T.BODY_POS), ('gp', 'goal', T.SITE_POS)]
    env = M.MuJoCo('x', [], [('k', 'knee', T.JOINT_POS)], .9, 10, additional_data_spec=extra)
    c.ensure('unknown-geoms-rejected', lambda: c.raises(AssertionError, lambda: M.MuJoCo(
        'x', [], [('k', 'knee', T.JOINT_POS)], .9, 10, collision_groups=[('g', ['nothing'])])))
    d = sim.datas[0]
    d.fill('s')
    old = {q: [c.at(a, j) for j in range(a.shape[0])] for q, a in d.arr.items()}
    key, name, t = c.choice('entry', extra)
    a = value(d, name, t)
    got = env._read_data(key)
    same(c, 'reads-the-named-data', got, old[FIELD[t.name], name])
    got[0] = got[0] + 1
    c.ensure_eq('reading-gives-a-copy', c.at(a, 0), old[FIELD[t.name], name][0])
    new = c.array('new', (a.shape[0],))
    env._write_data(key, new)
    for q, b in d.arr.items():
        for j in range(b.shape[0]):
            c.ensure_eq('writes-exactly-the-named-data', c.at(b, j), c.at(new, j) if q == (FIELD[t.name], name) else old[q][j])


@harness(P, 'mujoco_contacts')
def mj_contacts(c):
    T = types_of(c)
    M, sim = mujoco(c, {'x': Model(c)})
    groups = [('feet', ['foot']), ('all', ['hand', 'foot', 'cup']), ('ground', ['floor'])]
    env = M.MuJoCo('x', [], [('k', 'knee', T.JOINT_POS)], .9, 10, collision_groups=groups)
    d = sim.datas[0]
    pairs = [(0, 1), (1, 0), (2, 0), (0, 0), (1, 3)]
    n = c.choice('ncon', [0, 1, 2])
    d.ncon = n
    d.contact = [Ghost(geom1=a, geom2=b) for a, b in [c.choice(f'pair{i}', pairs) for i in range(n)]]
    ids = dict(feet={1}, all={1, 2, 3}, ground={0})
    for x, y in (('feet', 'ground'), ('ground', 'all')):
        hits = [i for i in range(n) if (d.contact[i].geom1 in ids[x] and d.contact[i].geom2 in ids[y])
                or (d.contact[i].geom1 in ids[y] and d.contact[i].geom2 in ids[x])]
        c.ensure('collision-iff-in-contact', lambda: bool(env._check_collision(x, y)) == bool(hits))
        f = env._get_collision_force(x, y)
        for j in range(6):
            c.ensure_eq('force-of-the-first-contact', lambda: c.at(f, j), c.func('force', 2)(hits[0], j) if hits else 0)


@harness(P, 'mujoco_multiple')
def mj_multi(c):
    T = types_of(c)
    m0 = Model(c)
    m1 = Model(c, m0)
    m2 = Model(c, m0)
    kind = c.choice('models', ['equal', 'other-limits', 'other-actuators'])
    if kind == 'other-limits':
        m1.jl['hip'][1] = m0.jl['hip'][1] + 1
    if kind == 'other-actuators':
        m2.actuator_ctrllimited = [False, False, True]
    M, sim = mujoco(c, {'x': m0, 'y': m1, 'z': m2})
    spec = spec_a(T)[:4]
    step = c.real('step', 0.001, 1) if c.choice('timestep', [False, True]) else None
    rand = c.choice('random', [False, True])

    class Sub(M.MultiMuJoCo):
        def _modify_observation(self, obs):
            return obs + 1

    def make():
        return Sub(['x', 'y', 'z'], ['m2', 'm0'], spec, .9, 10, timestep=step, random_env_reset=rand)
    if kind != 'equal':
        c.ensure('different-environments-rejected', lambda: c.raises(ValueError, make))
        return
    old = m0.opt.timestep
    env = make()
    for m in (m0, m1, m2):
        c.ensure_eq('timestep-of-every-model', m.opt.timestep, old if step is None else step)
    draws = []
    if rand:
        def randint(lo, hi=None, *a, **k):
            c.ensure('draws-one-of-the-models', (lo, hi) in ((0, 3), (3, None)))
            draws.append(c.choice(f'draw{len(draws)}', [0, 1, 2]))
            return draws[-1]
        c.stub(c.np.random, 'randint', randint)
    for r in range(3):
        for k, dd in enumerate(sim.datas):
            if dd is env._data:
                dd.fill(f'late{r}')
        ret = env.reset()
        want = draws[-1] if rand else (r + 1) % 3
        c.ensure('next-model', lambda: env._model is env._models[want] and env._data is sim.datas[want])
        c.ensure('observation-and-info', lambda: isinstance(ret, tuple) and len(ret) == 2 and ret[1] == {})
        d = sim.datas[want]
        for n in ('hip', 'knee'):
            c.ensure_eq('episode-starts-at-the-start', lambda: c.at(d.arr['qpos', n], 0), sim.start('qpos', n, 0))
        sim.derive(d, DERIVED)
        same(c, 'observation-of-the-model', ret[0], [w + 1 for w in expected(c, d, spec)])


@harness(P, 'mujoco_environment_ids', bounded_only=True)
def mj_ids(c):
    M = c.mod(MJ)
    n = c.choice('n', [1, 2, 3, 4, 5, 8, 9, 16, 17])
    bits = max(n - 1, 1).bit_length()
    for i in range(n):
        v = M.MultiMuJoCo._get_env_id_map(i, n)
        c.ensure('bits', lambda: tuple(v.shape) == (bits,))
        for j in range(bits):
            c.ensure_eq('binary-number-of-the-model', lambda: c.at(v, j), float((i >> (bits - 1 - j)) & 1))


# ------------------------------------------------------------------ pybullet
# model -> (name, joints); joint: (name, fixed, lower, upper, force, velocity, link)
ROBOTS = {4: ('arm', [('shoulder', False, 'upper'), ('wrist', True, 'hand'), ('elbow', False, 'lower')]),
          2: ('cart', [('slider', False, 'base')])}


class Bullet(Ghost):
    """assumed contract of the pybullet client: queries return the current state of the addressed body, joint or link"""

    def __init__(self, c, pb):
        self.c, self.pb = c, pb
        self.q, self.steps, self.restored, self.motors, self.on_step = {}, 0, 0, [], None
        self.lims = {(m, j): [c.real(f'l{m}_{j}', -9, 0), c.real(f'u{m}_{j}', 0, 9), c.real(f'f{m}_{j}', 0, 9), c.real(f'v{m}_{j}', 0, 9)]
                     for m in ROBOTS for j in range(len(ROBOTS[m][1]))}
        self.contacts = {}
        c.trust('pybullet: the client queries return the current values of the addressed body, joint or link; '
                'stepSimulation advances by one time step; restoreState returns to the saved state')

    def fill(self, tag):
        c = self.c
        for m in ROBOTS:
            for q, n in (('pos', 3), ('rot', 4), ('lin', 3), ('ang', 3)):
                self.q[q, m] = tuple(c.fresh(f'{tag}{q}{m}{k}') for k in range(n))
            for j in range(len(ROBOTS[m][1])):
                for q, n in (('jp', 1), ('jv', 1), ('lpos', 3), ('lrot', 4), ('llin', 3), ('lang', 3)):
                    self.q[q, m, j] = tuple(c.fresh(f'{tag}{q}{m}{j}{k}') for k in range(n))

    def getNumJoints(self, m):
        return len(ROBOTS[m][1])

    def getBodyInfo(self, m):
        return (b'base', ROBOTS[m][0].encode())

    def getJointInfo(self, m, j):
        n, fixed, link = ROBOTS[m][1][j]
        lo, hi, f, v = self.lims[m, j]
        return (j, n.encode(), self.pb.JOINT_FIXED if fixed else self.pb.JOINT_REVOLUTE, -1, -1, 0, 0., 0., lo, hi, f, v, link.encode(),
                (0, 0, 1), (0, 0, 0), (0, 0, 0, 1), -1)

    def getBasePositionAndOrientation(self, m):
        return self.q['pos', m], self.q['rot', m]

    def getBaseVelocity(self, m):
        return self.q['lin', m], self.q['ang', m]

    def getLinkState(self, m, j, computeLinkVelocity=False, **k):
        if k:
            beyond(self.c, f'getLinkState {k}')
        r = (self.q['lpos', m, j], self.q['lrot', m, j], 'local', 'local', 'frame', 'frame')
        return r + ((self.q['llin', m, j], self.q['lang', m, j]) if computeLinkVelocity else ())

    def getJointState(self, m, j):
        return self.q['jp', m, j][0], self.q['jv', m, j][0], 'forces', 'torque'

    def getContactPoints(self, a, b):
        return self.contacts.get((a, b), ())

    def setJointMotorControl2(self, m, j, mode, **k):
        self.motors = self.motors + [(m, j, mode, k)]

    def stepSimulation(self):
        self.on_step()
        self.steps = self.steps + 1

    def restoreState(self, s):
        self.c.ensure('restores-the-saved-state', lambda: s == 'saved')
        self.restored += 1
        self.fill(f'r{self.restored}')

    def saveState(self):
        return 'saved'

    def setTimeStep(self, t):
        self.timestep = t

    def setGravity(self, *a):
        self.gravity = a

    def setAdditionalSearchPath(self, p):
        pass

    def loadURDF(self, f, **k):
        return {'arm.urdf': 4}[f]

    def loadSDF(self, f, **k):
        return ({'cart.sdf': 2}[f],)

    def loadMJCF(self, f, **k):
        return ({'cart.xml': 2}[f],)

    def changeDynamics(self, m, j, **k):
        self.dyn = getattr(self, 'dyn', []) + [(m, j, k)]

    def __getattr__(self, n):
        if n.startswith('__') or n in ('c', '_pydv_ghost', 'dyn', 'timestep', 'gravity'):
            raise AttributeError(n)
        beyond(self.c, f'client.{n}')


def bullet(c):
    M = c.mod(PB)
    pb = M.pybullet
    g = Bullet(c, pb)
    c.stub(M, 'BulletClient', lambda connection_mode=None: g)
    c.stub(M, 'PyBulletViewer', lambda client, dt, **k: Ghost(close=lambda: None, display=lambda: None))
    return M, pb, g


JM = {n: (m, j) for m in ROBOTS for j, (n, fixed, l) in enumerate(ROBOTS[m][1])}
LM = {l: (m, j) for m in ROBOTS for j, (n, fixed, l) in enumerate(ROBOTS[m][1])}
BM = {ROBOTS[m][0]: m for m in ROBOTS}


def pspec(T, which):
    return [[('elbow', T.JOINT_VEL), ('arm', T.BODY_POS), ('shoulder', T.JOINT_POS), ('slider', T.JOINT_POS), ('hand', T.LINK_POS)],
            [('cart', T.BODY_LIN_VEL), ('elbow', T.JOINT_POS), ('lower', T.LINK_ANG_VEL), ('slider', T.JOINT_VEL), ('shoulder', T.JOINT_VEL)],
            [('hand', T.LINK_LIN_VEL), ('cart', T.BODY_ANG_VEL), ('elbow', T.JOINT_VEL), ('elbow', T.JOINT_POS)]][which]


def pvalue(g, name, t):
    q = g.q
    k = t.name
    if k == 'BODY_POS':
        return q['pos', BM[name]] + q['rot', BM[name]]
    if k.startswith('BODY'):
        return q['lin' if k == 'BODY_LIN_VEL' else 'ang', BM[name]]
    if k == 'LINK_POS':
        return q[('lpos',) + LM[name]] + q[('lrot',) + LM[name]]
    if k.startswith('LINK'):
        return q[('llin' if k == 'LINK_LIN_VEL' else 'lang',) + LM[name]]
    return q[('jp' if k == 'JOINT_POS' else 'jv',) + JM[name]]


def pexpected(g, spec):
    return [v for n, t in spec for v in pvalue(g, n, t)]


FILES = {'arm.urdf': {}, 'cart.sdf': {}}


@harness(P, 'pybullet_step')
def pb_step(c):
    M, pb, cl = bullet(c)
    T = c.mod('mushroom_rl.utils.pybullet').PyBulletObservationType
    spec = pspec(T, 0)[:3]
    n_int, dt = c.size('n_int', 1), c.real('dt', 0.001, 1)
    g = Ghost(pre=0, init=0, pre_steps=0, post_steps=0, fin=0, absorbs=0, rewards=0)
    ab, rew = bool(c.choice('absorbing', [False, True])), c.real('r')
    U = c.func('controller', 4)
    acts = [('elbow', pb.TORQUE_CONTROL), ('slider', pb.POSITION_CONTROL), ('shoulder', pb.VELOCITY_CONTROL)]

    class Sub(M.PyBullet):
        def _preprocess_action(self, action):
            g.pre += 1
            c.ensure_eq('preprocesses-the-given-action', c.at(action, 1), c.at(a0, 1))
            return action * 2

        def _step_init(self, state, action):
            g.init += 1
            same(c, 'step-starts-from-the-last-state', state, g.before)
            c.ensure_eq('step-init-gets-the-processed-action', c.at(action, 0), 2 * c.at(a0, 0))

        def _compute_action(self, state, action):
            same(c, 'controller-sees-the-current-state', state, pexpected(cl, spec))
            return c.np.array([U(c.at(state, 0), c.at(state, 4), c.at(action, j), j) for j in range(3)])

        def _simulation_pre_step(self):
            c.ensure('pre-step-before-the-simulation', lambda: c.and_(c.eq(g.pre_steps, cl.steps), c.eq(g.post_steps, cl.steps)))
            g.pre_steps = g.pre_steps + 1

        def _simulation_post_step(self):
            g.post_steps = g.post_steps + 1
            c.ensure('post-step-after-the-simulation', lambda: c.and_(c.eq(g.post_steps, cl.steps), c.eq(g.pre_steps, cl.steps)))

        def _step_finalize(self):
            g.fin += 1
            c.ensure('finalized-after-all-steps', lambda: c.eq(cl.steps, n_int))

        def is_absorbing(self, state):
            g.absorbs += 1
            same(c, 'absorbing-of-the-state-reached', state, pexpected(cl, spec))
            return ab

        def reward(self, state, action, next_state, absorbing):
            g.rewards += 1
            same(c, 'reward-from-the-state-before', state, g.before)
            same(c, 'reward-of-the-state-reached', next_state, pexpected(cl, spec))
            c.ensure_eq('reward-of-the-processed-action', c.at(action, 1), 2 * c.at(a0, 1))
            c.ensure('reward-gets-the-absorbing-flag', lambda: absorbing is ab)
            return rew

        def _create_observation(self, state):
            return state + 1

    cl.fill('i')
    env = Sub(dict(FILES), acts, spec, c.real('gamma', 0, 1), 10, timestep=dt, n_intermediate_steps=n_int)
    c.ensure_eq('control-period', env.info.dt, dt * n_int)
    c.ensure_eq('time-step-of-the-simulation', cl.timestep, dt)
    o, info = env.reset()
    c.ensure('reset-restores-the-start', lambda: cl.restored == 1 and info == {})
    g.before = pexpected(cl, spec)
    same(c, 'observation-of-the-start', o, [w + 1 for w in g.before])
    same(c, 'remembers-the-start', env._state, g.before)
    a0 = c.array('a', (3,))
    cl.motors = []

    def on_step():
        state = pexpected(cl, spec)
        u = [U(state[0], state[4], 2 * c.at(a0, j), j) for j in range(3)]
        c.ensure('one-command-per-actuator', lambda: len(cl.motors) == 3)
        for j, (n, mode) in enumerate(acts):
            m, jj, md, k = cl.motors[j]
            c.ensure('command-addresses-its-joint', lambda: (m, jj) == JM[n] and md == mode)
            lim = cl.lims[JM[n]]
            name = {pb.TORQUE_CONTROL: 'force', pb.POSITION_CONTROL: 'targetPosition', pb.VELOCITY_CONTROL: 'targetVelocity'}[mode]
            c.ensure('command-in-its-mode', lambda: set(k) == ({'force'} if mode == pb.TORQUE_CONTROL else {name, 'force', 'maxVelocity'}))
            c.ensure_eq('commands-the-action', lambda: k[name], u[j])
            if mode != pb.TORQUE_CONTROL:
                c.ensure_eq('within-the-force-of-the-joint', lambda: k['force'], lim[2])
                c.ensure_eq('within-the-velocity-of-the-joint', lambda: k['maxVelocity'], lim[3])
        cl.motors = []
        cl.fill('s')
    cl.on_step = on_step

    def havoc(L, e):
        for n in ('pre_steps', 'post_steps'):
            L.havoc_attr(g, n, L.int(n, 0))
        L.havoc_attr(cl, 'steps', L.int('steps', 0))
        L.allow_attr(cl, 'motors')
        L.allow_obj(cl.q)
        for k in list(cl.q):
            L.allowed.add(('attr', id(cl.q), k))
        cl.fill('h')
        return dict(curr_state=c.np.array(pexpected(cl, spec)))

    def inv(e, k):
        return [('one-simulation-per-step', c.and_(c.eq(cl.steps, k), c.eq(g.pre_steps, k), c.eq(g.post_steps, k))),
                ('state', c.and_(*[c.eq(c.at(e.curr_state, j), w) for j, w in enumerate(pexpected(cl, spec))]))]
    c.loop(PB + '.PyBullet.step#0', havoc, inv)

    obs, r, absorbing, info = env.step(a0)
    c.ensure_eq('simulations', cl.steps, n_int)
    c.ensure('hooks-called-once', lambda: (g.pre, g.init, g.fin, g.absorbs, g.rewards) == (1, 1, 1, 1, 1))
    want = pexpected(cl, spec)
    same(c, 'returns-the-state-reached', obs, [w + 1 for w in want])
    same(c, 'remembers-the-state-reached', env._state, want)
    c.ensure('returns-the-flag', lambda: absorbing is ab)
    c.ensure_eq('returns-the-reward', r, rew)


@harness(P, 'pybullet_spaces')
def pb_spaces(c):
    M, pb, cl = bullet(c)
    T = c.mod('mushroom_rl.utils.pybullet').PyBulletObservationType
    spec = pspec(T, c.choice('spec', [0, 1, 2]))
    acts = c.choice('acts', [[('elbow', pb.TORQUE_CONTROL), ('slider', pb.POSITION_CONTROL), ('shoulder', pb.VELOCITY_CONTROL)],
                             [('shoulder', pb.POSITION_CONTROL), ('elbow', pb.POSITION_CONTROL)]])
    enforce = c.choice('enforce', [False, True])
    cl.fill('i')

    class Sub(M.PyBullet):
        def _custom_load_models(self):
            return {'cart': 2}

    env = Sub({'arm.urdf': {}}, acts, spec, .9, 10, enforce_joint_velocity_limits=enforce)
    dyn = getattr(cl, 'dyn', [])
    c.ensure('velocity-limits-enforced-iff-asked', lambda: sorted((m, j) for m, j, k in dyn) == (sorted(cl.lims) if enforce else []))
    for m, j, k in dyn:
        c.ensure_eq('enforced-limit', lambda: k['maxJointVelocity'], cl.lims[m, j][3])
    for b, box in ((0, env.info.action_space.low), (1, env.info.action_space.high)):
        c.ensure('action-space-size', lambda: tuple(box.shape) == (len(acts),))
        for i, (n, mode) in enumerate(acts):
            l = cl.lims[JM[n]]
            w = l[b] if mode == pb.POSITION_CONTROL else (l[3] if mode == pb.VELOCITY_CONTROL else l[2]) * (-1, 1)[b]
            c.ensure_eq('action-bounds', lambda: c.at(box, i), w)
    o, _ = env.reset()
    want = pexpected(cl, spec)
    same(c, 'declared-quantities-in-order', o, want)
    jp, jv, lp, lv, lim = [], [], [], [], []
    for n, t in spec:
        v = pvalue(cl, n, t)
        got = env.get_sim_state(o, n, t)
        same(c, 'values-of-the-name', got, list(v))
        if t.name.startswith('JOINT'):
            l = cl.lims[JM[n]]
            e = (l[0], l[1]) if t.name == 'JOINT_POS' else (-l[3], l[3])
            (jp if t.name == 'JOINT_POS' else jv).append(v[0])
            (lp if t.name == 'JOINT_POS' else lv).append(e)
            lim.append(e)
        else:
            lim += [(-INF, INF)] * len(v)
    for b, box in ((0, env.info.observation_space.low), (1, env.info.observation_space.high)):
        c.ensure('observation-space-size', lambda: tuple(box.shape) == (len(lim),))
        for i, l in enumerate(lim):
            limit_eq(c, 'observation-bounds', lambda: c.at(box, i), l[b])
        same(c, 'joint-limits', env.joints.limits()[b], [l[b] for l in lp])
    same(c, 'joint-positions', env.joints.positions(o), jp)
    same(c, 'joint-velocities', env.joints.velocities(o), jv)
    same(c, 'velocity-limits', env.joints.velocity_limits(), [l[1] for l in lv])


@harness(P, 'pybullet_contacts')
def pb_contacts(c):
    M, pb, cl = bullet(c)
    T = c.mod('mushroom_rl.utils.pybullet').PyBulletObservationType
    F = T.CONTACT_FLAG
    names = ['hand<->cart', 'base<->lower', 'cart<->upper']
    ids = {'hand<->cart': (-1, 1), 'base<->lower': (0, 2), 'cart<->upper': (-1, 0)}       # links of (cart, arm)
    spec = [(names[0], F), ('elbow', T.JOINT_POS), (names[1], F)] + ([(names[2], F)] if c.choice('third', [False, True]) else [])
    cl.fill('i')
    env = M.PyBullet(dict(FILES), [('elbow', pb.TORQUE_CONTROL)], spec, .9, 10)
    for r in range(2):
        pts = c.choice(f'contacts{r}', [[], [(-1, 1)], [(0, 2), (-1, 1)], [(0, 1), (-1, 2)], [(-1, 0), (5, 5), (0, 2)]])
        cl.contacts = {(2, 4): tuple((0, 2, 4, a, b, 'rest') for a, b in pts), (4, 2): tuple((0, 4, 2, b, a, 'rest') for a, b in pts)}
        o = env.reset()[0]
        i = 0
        for n, t in spec:
            w = (1. if ids[n] in pts else 0.) if t is F else pvalue(cl, n, t)[0]
            c.ensure_eq('contact-iff-in-contact-now' if t is F else 'other-values', lambda: c.at(o, i), w)
            i += 1
    k = [i for i, (n, t) in enumerate(spec) if t is F]
    for i in k:
        c.ensure_eq('flag-bounds', lambda: c.at(env.info.observation_space.low, i), 0.)
        c.ensure_eq('flag-bounds', lambda: c.at(env.info.observation_space.high, i), 1.)


# ------------------------------------------------------------------ gym
class Space(Ghost):
    pass


def gym_world(c, discrete, limit, wrapped):
    """a gym environment behind its usual wrappers; only the innermost one has a state, only one has the time limit"""
    M = c.mod('mushroom_rl.environments.gym_env')
    g = Ghost(log=[], resets=0, closed=0, frames=[])

    class Discrete(Space):
        pass

    class Box(Space):
        pass

    class MultiDiscrete(Space):
        pass
    low, high = c.array('low', (2,), lo=-9, hi=0), c.array('high', (2,), lo=0, hi=9)
    space = Box(low=low, high=high, shape=(2,))

    class Inner(Ghost):
        def __init__(self):
            self.action_space = Discrete(n=3) if discrete else space
            self.observation_space = space
            self.state = 'unset'

        @property
        def unwrapped(self):
            return self

        def reset(self, **k):
            g.resets += 1
            self.state = c.np.array([c.fresh('o') for _ in range(2)])
            g.start = self.state
            return self.state

        def step(self, action):
            g.log.append((action, self.state))
            self.state = c.np.array([c.fresh('o') for _ in range(2)])
            g.out = (self.state, c.fresh('r'), bool(c.fresh('ab', 'bool')), {'i': len(g.log)})
            return g.out

        def render(self, mode='human'):
            g.frames.append(mode)
            return 'frame' if mode == 'rgb_array' else None

        def close(self):
            g.closed += 1

    class Wrapper(Ghost):
        def __init__(self, env, **k):
            self.env = env
            self.kw = k

        def __getattr__(self, n):
            if n.startswith('_') or n in ('env', 'kw'):
                raise AttributeError(n)
            return getattr(self.env, n)

        @property
        def unwrapped(self):
            return self.env.unwrapped

        def reset(self, **k):
            return self.env.reset(**k)

        def step(self, a):
            return self.env.step(a)

    class Limit(Wrapper):
        def __init__(self, env, n):
            Wrapper.__init__(self, env)
            self._max_episode_steps = n
            self._elapsed = 0

        def reset(self, **k):
            self._elapsed = 0
            return self.env.reset(**k)

        def step(self, a):
            self._elapsed = self._elapsed + 1
            o, r, ab, i = self.env.step(a)
            c.ensure('own-time-limit-is-off', lambda: self._max_episode_steps == INF)
            return o, r, ab, i

    g.inner = Inner()
    e = Wrapper(g.inner)
    if limit is not None:
        e = Limit(e, limit)
    if wrapped:
        e = Wrapper(e)
    g.env, g.Wrapper, g.made = e, Wrapper, []

    def make(name, **k):
        g.made.append((name, k))
        return e
    c.stub(M, 'gym', types.SimpleNamespace(make=make))
    c.stub(M, 'gym_spaces', types.SimpleNamespace(Discrete=Discrete, Box=Box, MultiDiscrete=MultiDiscrete))
    c.stub(M, 'pybullet_found', False)
    c.stub(M, 'time', types.SimpleNamespace(sleep=lambda t: None))
    c.trust('gym: the environment answers reset, step and render; its state lies in the innermost environment, its time limit in one wrapper')
    g.low, g.high = low, high
    return M, g


@harness(P, 'gym')
def gym_(c):
    discrete = c.choice('discrete', [False, True])
    limit = c.choice('limit', [None, 20])
    asked = c.choice('asked', [None, 7])
    M, g = gym_world(c, discrete, limit, c.choice('outer', [False, True]))
    gamma = c.real('gamma', 0, 1)
    extra = c.choice('wrappers', [None, 'plain', 'tuple'])

    class Mine(g.Wrapper):
        pass
    kw = {} if extra is None else dict(wrappers=[Mine if extra == 'plain' else (Mine, {'b': 2})], wrappers_args=[{'a': 1}])
    if limit is None and asked is None:
        c.ensure('horizon-needed', lambda: c.raises(RuntimeError, lambda: M.Gym('Some-v0', gamma=gamma, **kw)))
        return
    env = M.Gym('Some-v0', horizon=asked, gamma=gamma, **kw)
    c.ensure('makes-the-named-environment', lambda: g.made == [('Some-v0', {})])
    if extra:
        c.ensure('wrapped-as-asked', lambda: isinstance(env.env, Mine) and env.env.env is g.env
                 and env.env.kw == ({'a': 1} if extra == 'plain' else {'a': 1, 'b': 2}))
    c.ensure('horizon', lambda: env.info.horizon == (asked if asked is not None else limit))
    c.ensure_eq('discount', env.info.gamma, gamma)
    for b, ref in ((env.info.observation_space.low, g.low), (env.info.observation_space.high, g.high)):
        c.ensure_all('observation-bounds', (2,), lambda j: c.eq(c.at(b, j), c.at(ref, j)))
    if discrete:
        c.ensure('number-of-actions', lambda: env.info.action_space.n == 3)
    else:
        c.ensure_all('action-bounds', (2,), lambda j: c.and_(c.eq(c.at(env.info.action_space.low, j), c.at(g.low, j)),
                                                            c.eq(c.at(env.info.action_space.high, j), c.at(g.high, j))))
    given = c.choice('given', [False, True])
    if given:
        st = c.array('st', (2,))
        o, i = env.reset(st)
        c.ensure('resets-first', lambda: g.resets == 1)
        c.ensure_all('starts-in-the-given-state', (2,), lambda j: c.eq(c.at(g.inner.state, j), c.at(st, j)))
        c.ensure_all('returns-the-given-state', (2,), lambda j: c.eq(c.at(o, j), c.at(st, j)))
    else:
        o, i = env.reset()
        c.ensure_all('returns-the-start', (2,), lambda j: c.eq(c.at(o, j), c.at(g.start, j)))
    c.ensure('one-reset', lambda: g.resets == 1 and i == {})
    for k in range(2):
        a = c.np.array([c.choice(f'a{k}', [0, 2])]) if discrete else c.array(f'a{k}', (2,))
        r = env.step(a)
        c.ensure('one-step', lambda: len(g.log) == k + 1)
        if discrete:
            c.ensure_eq('hands-over-the-action', lambda: g.log[-1][0], c.at(a, 0))
            c.ensure('as-a-number', lambda: not getattr(g.log[-1][0], 'shape', ()))
        else:
            c.ensure_all('hands-over-the-action', (2,), lambda j: c.eq(c.at(g.log[-1][0], j), c.at(a, j)))
        if k == 0 and given:
            c.ensure_all('first-step-from-the-given-state', (2,), lambda j: c.eq(c.at(g.log[0][1], j), c.at(st, j)))
        c.ensure_all('returns-the-observation', (2,), lambda j: c.eq(c.at(r[0], j), c.at(g.out[0], j)))
        c.ensure_eq('returns-the-reward', r[1], g.out[1])
        c.ensure('returns-flag-and-info', lambda: r[2] is g.out[2] and r[3] is g.out[3])
    c.ensure('renders-when-asked', lambda: env.render() is None and 'rgb_array' not in g.frames)
    c.ensure('returns-the-frame-when-asked', lambda: env.render(record=True) == 'frame')
    env.stop()
    c.ensure('stops-once', lambda: g.closed == 1)


# ------------------------------------------------------------------ dm_control
@harness(P, 'dm_control')
def dm(c):
    M = c.mod('mushroom_rl.environments.dm_control_env')
    limit = c.choice('limit', [40, 1000])
    asked = c.choice('asked', [None, 7])
    pix = c.choice('pixels', [False, True])
    g = Ghost(log=[], resets=0, loads=[], shown=[], closed=0)
    lo, hi = c.array('lo', (2,), lo=-9, hi=0), c.array('hi', (2,), lo=0, hi=9)
    H, W = 2, 3

    def obs():
        g.parts = dict(speed=c.fresh('sp'), place=c.np.array([c.fresh('p') for _ in range(3)]),
                       frame=c.np.array([[c.fresh('f') for _ in range(2)] for _ in range(2)]))
        g.pixels = c.np.array([[[c.fresh('px') for _ in range(3)] for _ in range(W)] for _ in range(H)])
        return dict(g.parts)

    class Step(Ghost):
        def last(self):
            return self.is_last

    class Physics(Ghost):
        def render(self, h, w, cam):
            g.view = (h, w, cam)
            return 'image'

    class Dm(Ghost):
        def __init__(self):
            self._step_limit = limit
            self.physics = Physics()

        def action_spec(self):
            return Ghost(minimum=lo, maximum=hi)

        def observation_spec(self):
            return dict(speed=Ghost(shape=()), place=Ghost(shape=(3,)), frame=Ghost(shape=(2, 2)))

        def reset(self):
            g.resets += 1
            return Step(observation=obs(), reward=None, is_last=False)

        def step(self, a):
            c.ensure('own-time-limit-is-off', lambda: self._step_limit == INF)
            g.log.append(a)
            g.out = Step(observation=obs(), reward=c.fresh('r'), is_last=bool(c.fresh('last', 'bool')))
            return g.out

    class Pixels(Ghost):
        def __init__(self, env, render_kwargs=None):
            self._env, self.kw = env, render_kwargs

        def __getattr__(self, n):
            if n in ('_env', 'kw') or n.startswith('__'):
                raise AttributeError(n)
            return getattr(self._env, n)

        def observation_spec(self):
            return dict(pixels=Ghost(shape=(H, W, 3)))

        def _px(self, s):
            s.observation = dict(pixels=g.pixels)
            return s

        def reset(self):
            return self._px(self._env.reset())

        def step(self, a):
            return self._px(self._env.step(a))

    g.inner = Dm()

    def load(d, t, task_kwargs=None):
        g.loads.append((d, t, task_kwargs))
        return g.inner
    c.stub(M, 'suite', types.SimpleNamespace(load=load))
    c.stub(M, 'pixels', types.SimpleNamespace(Wrapper=Pixels))

    class Viewer(Ghost):
        def __init__(self, *a, **k):
            pass

        def display(self, img):
            g.shown.append(img)

        def close(self):
            g.closed += 1
    c.stub(M, 'CV2Viewer', Viewer)
    c.trust('dm_control: reset and step return the observation parts, the reward and whether the episode ended; the time limit is the '
            'attribute _step_limit of the innermost environment')
    gamma = c.real('gamma', 0, 1)
    env = M.DMControl('cartpole', 'swingup', horizon=asked, gamma=gamma, task_kwargs={'k': 1}, use_pixels=pix, pixels_width=W, pixels_height=H,
                      width_screen=30, height_screen=20, camera_id=4)
    c.ensure('loads-the-named-task', lambda: g.loads == [('cartpole', 'swingup', {'k': 1})])
    c.ensure('horizon', lambda: env.info.horizon == (limit if asked is None else asked))
    c.ensure_eq('discount', env.info.gamma, gamma)
    c.ensure_all('action-bounds', (2,), lambda j: c.and_(c.eq(c.at(env.info.action_space.low, j), c.at(lo, j)),
                                                        c.eq(c.at(env.info.action_space.high, j), c.at(hi, j))))
    c.ensure('observation-size', lambda: tuple(env.info.observation_space.shape) == ((3, H, W) if pix else (8,)))

    def check(tag, o):
        if pix:
            c.ensure(tag + '-shape', lambda: tuple(o.shape) == (3, H, W))
            for k in range(3):
                for y in range(H):
                    for x in range(W):
                        c.ensure_eq(tag + '-channels-first', lambda: c.at(o, k, y, x), c.at(g.pixels, y, x, k))
        else:
            p = g.parts
            same(c, tag, o, [p['speed']] + [c.at(p['place'], j) for j in range(3)] + [c.at(p['frame'], i, j) for i in range(2) for j in range(2)])
    o, i = env.reset()
    c.ensure('one-reset', lambda: g.resets == 1 and i == {})
    check('observation-of-the-start', o)
    for k in range(2):
        a = c.array(f'a{k}', (2,))
        o, r, ab, i = env.step(a)
        c.ensure('one-step', lambda: len(g.log) == k + 1)
        c.ensure_all('hands-over-the-action', (2,), lambda j: c.eq(c.at(g.log[-1], j), c.at(a, j)))
        check('observation-of-the-state-reached', o)
        c.ensure_eq('returns-the-reward', r, g.out.reward)
        c.ensure('returns-the-flag', lambda: ab is g.out.is_last and i == {})
    c.ensure('frame-iff-recording', lambda: env.render() is None and env.render(record=True) == 'image' and g.shown == ['image', 'image'])
    c.ensure('rendered-as-declared', lambda: g.view == (20, 30, 4))
    env.stop()
    c.ensure('viewer-closed', lambda: g.closed == 1)


# ------------------------------------------------------------------ the assumed contracts on the real simulators
XML = """<mujoco><option timestep="0.004"/><worldbody><body name="ball" pos="0 0 1"><joint name="hip" type="slide" axis="1 0 0" limited="true"
range="-3 2"/><geom name="g" size="0.1"/><site name="goal" pos="0 0.5 0"/><body name="torso" pos="0 1 0"><joint name="knee" type="hinge" axis="0 0 1"/>
<geom name="h" size="0.1"/></body></body></worldbody><actuator><motor name="m0" joint="hip"/><motor name="m1" joint="knee" ctrllimited="true"
ctrlrange="-2 1"/></actuator></mujoco>"""


@harness(P, 'real_mujoco', bounded_only=True)
def real_mujoco(c):
    if c.symbolic:
        unsup(c, 'the real simulator')
    import numpy as np
    M = c.mod(MJ)
    T = types_of(c)
    mj = M.mujoco
    model = M.mjcf.from_xml_string(XML)
    n_int, n_sub = c.choice('n_int', [1, 2, 3]), c.choice('n_sub', [1, 2])
    log = []

    class Sub(M.MuJoCo):
        def reward(self, o, a, n, ab):
            return float(n[0] - o[0])

        def is_absorbing(self, o):
            return bool(o[1] > 1e9)

        def _simulation_post_step(self):
            log.append((float(self._data.time), self._data.ctrl.copy()))

    spec = [('b', 'ball', T.BODY_POS), ('kp', 'knee', T.JOINT_POS), ('hv', 'hip', T.JOINT_VEL), ('s', 'goal', T.SITE_POS), ('hp', 'hip', T.JOINT_POS),
            ('tv', 'torso', T.BODY_VEL_WORLD)]
    env = Sub(model, ['m1', 'm0'], spec, .9, 10, n_substeps=n_sub, n_intermediate_steps=n_int)
    ref = mj.MjModel.from_xml_string(model.to_xml_string(), assets=model.get_assets())

    def now(data):
        v = np.empty(6)
        mj.mj_objectVelocity(ref, data, mj.mjtObj.mjOBJ_XBODY, data.body('torso').id, v, False)
        return np.concatenate([data.body('ball').xpos, data.joint('knee').qpos, data.joint('hip').qvel, data.site('goal').xpos, data.joint('hip').qpos, v])
    x, v, k = c.real('x', -1, 1), c.real('v', -1, 1), c.real('k', -1, 1)
    data = mj.MjData(ref)
    o, i = env.reset() if c.choice('default', [False, True]) else env.reset(np.concatenate([np.zeros(3), [k, v], np.zeros(3), [x], np.zeros(6)]))
    if np.any(o[[3, 4, 8]]):
        data.joint('hip').qpos, data.joint('hip').qvel, data.joint('knee').qpos = x, v, k
    mj.mj_forward(ref, data)
    data.qacc_warmstart[:] = 0
    c.ensure('real-start', lambda: np.allclose(o, now(data), atol=1e-9))
    c.ensure('real-limits', lambda: np.allclose(env.info.observation_space.low[8], -3.) and np.allclose(env.info.observation_space.high[8], 2.)
             and np.all(np.isinf(env.info.observation_space.low[[0, 3, 4]])) and np.allclose(env.info.action_space.low[0], -2.)
             and np.isinf(env.info.action_space.high[1]))
    data.qacc_warmstart[:] = env._data.qacc_warmstart
    for r in range(2):
        a = np.array([c.real(f'a{r}', -1, 1), c.real(f'b{r}', -1, 1)])
        old = o
        o, rew, ab, i = env.step(a)
        data.ctrl[:] = [a[1], a[0]]
        for _ in range(n_int * n_sub):
            mj.mj_step(ref, data)
        c.ensure('real-step', lambda: np.allclose(o, now(data), atol=1e-7))
        c.ensure('real-time', lambda: abs(env._data.time - (r + 1) * env.info.dt) < 1e-9 and abs(env.info.dt - .004 * n_int * n_sub) < 1e-12)
        c.ensure('real-controls', lambda: np.allclose(env._data.ctrl, [a[1], a[0]]))
        c.ensure('real-reward', lambda: abs(rew - float(o[0] - old[0])) < 1e-9 and ab is False)
    c.ensure('real-intermediate-steps', lambda: len(log) == 2 * n_int)


@harness(P, 'real_gym', bounded_only=True)
def real_gym(c):
    if c.symbolic:
        unsup(c, 'the real simulator')
    import numpy as np
    M = c.mod('mushroom_rl.environments.gym_env')
    env = M.Gym('CartPole-v1', horizon=c.choice('H', [None, 30]))
    s = np.array([c.real(f's{j}', -.05, .05) for j in range(4)])
    o, i = env.reset(s.copy())
    c.ensure('real-start', lambda: np.allclose(np.array(env.env.unwrapped.state, dtype=float), s) and np.allclose(o, s))
    a = c.choice('a', [0, 1])
    o, r, ab, i = env.step(np.array([a]))
    force = 10. if a else -10.
    th, dth = s[2], s[3]
    temp = (force + .05 * dth ** 2 * np.sin(th)) / 1.1
    acc = (9.8 * np.sin(th) - np.cos(th) * temp) / (.5 * (4. / 3. - .1 * np.cos(th) ** 2 / 1.1))
    xacc = temp - .05 * acc * np.cos(th) / 1.1
    c.ensure('real-step', lambda: np.allclose(o, [s[0] + .02 * s[1], s[1] + .02 * xacc, th + .02 * dth, dth + .02 * acc], atol=1e-5))
    env.stop()
