"""P28 - parallel environments: every command reaches the right copy, every reply comes back in its row."""
from pydv.ctx import harness

PRELOAD = ['mushroom_rl.core', 'mushroom_rl.core.multiprocess_environment', 'mushroom_rl.core.vectorized_core', 'mushroom_rl.policy',
           'mushroom_rl.rl_utils.spaces']
P = 'P28'
D = 2


class Ghost:
    _pydv_ghost = True


class Closed(Exception):
    pass


def world(c, n, **kw):
    """n ghost workers behind ghost pipes: one reply per command, in order; a read without a command is a deadlock"""
    core = c.mod('mushroom_rl.core')
    mp = c.mod('mushroom_rl.core.multiprocess_environment')
    sp = c.mod('mushroom_rl.rl_utils.spaces')
    info = core.MDPInfo(sp.Box(-1., 1., shape=(D,)), sp.Box(-1., 1., shape=(1,)), .9, 10)
    g = Ghost()
    g.pipes, g.procs, g.sent = [], [], []
    g.log = []                     # (copy, command, data) in the order of sending

    class Remote:
        _pydv_ghost = True

        def __init__(self, i):
            self.i, self.queue, self.closed = i, [], False

        def send(self, msg):
            cmd, data = msg
            c.ensure('worker-is-started', g.procs[self.i].started and not self.closed)
            g.log.append((self.i, cmd, data))
            r = None
            if cmd == 'reset':
                r = ([c.fresh('s') for _ in range(D)], {'env': self.i, 'n': len(g.log)})
            elif cmd == 'step':
                r = ([c.fresh('s') for _ in range(D)], c.fresh('r'), bool(c.fresh('ab', 'bool')), {'env': self.i, 'n': len(g.log)})
            elif cmd == 'render':
                r = [[self.i + 1., float(len(g.log))]] if data else None
            elif cmd == 'info':
                r = info
            elif cmd == 'close':
                self.closed = True
                return
            else:
                c.ensure('known-command', cmd in ('stop', 'seed'))
            self.queue.append(r)
            g.sent.append((self.i, cmd, r))

        def recv(self):
            c.ensure('never-waits-for-a-reply-nobody-sends', len(self.queue) > 0)
            r = self.queue.pop(0)
            if isinstance(r, tuple) and isinstance(r[0], list):
                return (c.np.array(r[0]),) + r[1:]
            if isinstance(r, list):
                return c.np.array(r)
            return r

    def Pipe():
        i = len(g.pipes)
        g.pipes.append((Remote(i), ('worker', i)))
        return g.pipes[i]

    class Process:
        _pydv_ghost = True

        def __init__(self, target=None, args=()):
            self.target, self.args, self.started, self.joined = target, args, False, False
            g.procs.append(self)

        def start(self):
            self.started = True

        def join(self):
            c.ensure('waits-only-for-closed-workers', g.pipes[self.args[0][1]][0].closed)
            self.joined = True
    c.stub(mp, 'Pipe', Pipe)
    c.stub(mp, 'Process', Process)
    c.stub(mp, 'cpu_count', lambda: n)
    c.trust('multiprocessing.Pipe/Process: messages of a pipe arrive complete and in order, a started worker runs its target')

    class Env:
        _pydv_ghost = True
    env = mp.MultiprocessEnvironment(Env, 'a', n_envs=kw.pop('n_envs', n), k=1, **kw)
    return env, g, info, Env, mp


def mask_of(c, n, name='mask'):
    """an arbitrary set of copies"""
    bits = [bool(c.bool(f'{name}_{i}')) for i in range(n)]
    return bits, c.np.array(bits)


def same(c, frame, want):
    return tuple(frame.shape) == (1, 2) and all(float(c.at(frame, 0, k)) == want[0][k] for k in range(2))


def drained(c, g):
    c.ensure('every-reply-is-collected', all(len(a.queue) == 0 for a, _ in g.pipes))


def copies(n):
    return range(n)


for _n in (2, 3):
    def _construct(c, n=_n):
        gen = bool(c.bool('generator'))
        auto = bool(c.bool('auto'))
        env, g, info, Env, mp = world(c, n, use_generator=gen, **({'n_envs': -1} if auto else {}))
        c.ensure('one-worker-per-copy', len(g.procs) == n and len(g.pipes) == n)
        c.ensure('all-started', all(p.started for p in g.procs))
        c.ensure('each-with-its-own-pipe', sorted(p.args[0][1] for p in g.procs) == list(range(n)))
        c.ensure('workers-run-the-worker', all(p.target is mp._env_worker and p.args[1] is Env and p.args[2] == gen
                                               and p.args[3] == ('a',) and p.args[4] == {'k': 1} for p in g.procs))
        c.ensure('information-of-the-copies', env.info is info and env.number == n)
        drained(c, g)
    harness(P, f'construct_{_n}')(_construct)

    def _reset(c, n=_n, given=False):
        env, g, info, Env, mp = world(c, n)
        bits, mask = mask_of(c, n)
        g.log.clear(), g.sent.clear()
        st = c.array('st', (n, D)) if given else None
        before = c.copy(env._states)
        s, infos = env.reset_all(mask, st)
        c.ensure('exactly-the-asked-copies-reset', sorted((i, cmd) for i, cmd, _ in g.log) == [(i, 'reset') for i in range(n) if bits[i]])
        for i, cmd, d in g.log:
            if given:
                for k in range(D):
                    c.ensure_eq('own-initial-state', lambda i=i, d=d, k=k: c.at(d, k), c.at(st, i, k))
            else:
                c.ensure('no-initial-state', d is None)
        rep = {i: r for i, _, r in g.sent}
        for i in range(n):
            for k in range(D):
                c.ensure_eq('reply-in-its-row', lambda i=i, k=k: c.at(s, i, k), rep[i][0][k] if bits[i] else c.at(before, i, k))
            c.ensure('information-in-its-row', infos[i] == (rep[i][1] if bits[i] else {}))
        c.ensure('one-information-per-copy', len(infos) == n)
        drained(c, g)
    harness(P, f'reset_{_n}')(_reset)
    harness(P, f'reset_given_states_{_n}')(lambda c, f=_reset: f(c, given=True))

    def _step(c, n=_n):
        env, g, info, Env, mp = world(c, n)
        env.reset_all(c.np.array([True] * n))
        last = {i: r[0] for i, cmd, r in g.sent if cmd == 'reset'}
        old = None
        for t in range(2):
            bits, mask = mask_of(c, n, f'mask{t}')
            act = c.array(f'a{t}', (n, 1))
            g.log.clear(), g.sent.clear()
            s, r, ab, infos = env.step_all(mask, act)
            c.ensure('exactly-the-asked-copies-step', sorted((i, cmd) for i, cmd, _ in g.log) == [(i, 'step') for i in range(n) if bits[i]])
            for i, cmd, d in g.log:
                c.ensure_eq('own-action', lambda i=i, d=d: c.at(d, 0), c.at(act, i, 0))
            rep = {i: x for i, _, x in g.sent}
            if old is not None:
                for i in range(n):
                    for k in range(D):
                        c.ensure_eq('earlier-results-are-kept', lambda i=i, k=k: c.at(old[0], i, k), old[1][i][k])
            last = {i: rep[i][0] if bits[i] else last[i] for i in range(n)}
            for i in range(n):
                for k in range(D):
                    c.ensure_eq('latest-state-of-each-copy', lambda i=i, k=k: c.at(s, i, k), last[i][k])
                if bits[i]:
                    c.ensure_eq('own-reward', lambda i=i: c.at(r, i), rep[i][1])
                c.ensure('absorbing-of-the-copy', bool(c.at(ab, i)) == (bits[i] and rep[i][2]))
                c.ensure('information-in-its-row', infos[i] == (rep[i][3] if bits[i] else {}))
            c.ensure('one-information-per-copy', len(infos) == n)
            drained(c, g)
            old = (s, last)
    harness(P, f'step_{_n}')(_step)

    def _single(c, n=_n):
        env, g, info, Env, mp = world(c, n)
        env.reset_all(c.np.array([True] * n))
        d = c.choice('default', [None] + list(range(n)))
        if d is not None:
            env.set_default_env(d)
        d = 0 if d is None else d
        what = c.choice('what', ['reset', 'step', 'render'])
        g.log.clear()
        act = c.array('a', (n, 1))
        if what == 'reset':
            env.reset()
        elif what == 'step':
            env.step(act)
            c.ensure_eq('its-action', lambda: c.at(g.log[0][2], 0), c.at(act, d, 0))
        else:
            env.render(record=True)
        c.ensure('only-the-default-copy', [(i, cmd) for i, cmd, _ in g.log] == [(d, what)])
        c.ensure('unknown-copy-rejected', c.raises(AssertionError, lambda: env.set_default_env(n)))
        drained(c, g)
    harness(P, f'default_environment_{_n}')(_single)

    def _frames(c, n=_n):
        env, g, info, Env, mp = world(c, n)
        bits, mask = mask_of(c, n)
        rec = bool(c.bool('record'))
        g.log.clear(), g.sent.clear()
        f = env.render_all(mask, record=rec)
        c.ensure('exactly-the-asked-copies-render', sorted(g.log) == [(i, 'render', rec) for i in range(n) if bits[i]])
        rep = {i: r for i, _, r in g.sent}
        if rec:
            for i in range(n):
                if bits[i]:
                    c.ensure('frame-in-its-row', lambda i=i: same(c, f[i], rep[i]))
        drained(c, g)
    harness(P, f'frames_{_n}')(_frames)

    def _all(c, n=_n):
        env, g, info, Env, mp = world(c, n)
        g.log.clear()
        sd = c.int('seed', 0)
        env.seed(sd)
        c.ensure('every-copy-seeded', sorted(i for i, cmd, d in g.log if cmd == 'seed' and d is sd) == list(range(n)) and len(g.log) == n)
        g.log.clear()
        env.stop()
        c.ensure('every-copy-stopped', sorted((i, cmd) for i, cmd, d in g.log) == [(i, 'stop') for i in range(n)])
        drained(c, g)
        g.log.clear()
        env.__del__()
        c.ensure('every-copy-closed', sorted((i, cmd) for i, cmd, d in g.log) == [(i, 'close') for i in range(n)])
        c.ensure('every-worker-awaited', all(p.joined for p in g.procs))
        del env._remotes, env._processes
    harness(P, f'seed_stop_close_{_n}')(_all)


def _record(c, n):
    """a recorded vectorised run hands every frame to the recorder of its own environment"""
    env, g, info, Env, mp = world(c, n)
    core = c.mod('mushroom_rl.core')
    vc = c.mod('mushroom_rl.core.vectorized_core')

    class Recorder:
        _pydv_ghost = True

        def __init__(self, **k):
            self.k, self.frames, self.stopped = k, [], 0

        def __call__(self, f):
            c.ensure('a-frame', f is not None)
            self.frames.append(f)

        def stop(self):
            self.stopped += 1

    class Pol(c.mod('mushroom_rl.policy').Policy):
        def draw_action(self, state, policy_state):
            return c.np.array([[0.]] * n), None
    ag = core.Agent(info, Pol())
    cr = vc.VectorCore(ag, env, record_dictionary=dict(recorder_class=Recorder, fps=c.choice('fps', [None, 25]), tag='t'))
    c.ensure('a-recorder-per-environment', len(cr._record) == n and len({id(x) for x in cr._record}) == n)
    c.ensure('recorder-options', all(x.k['tag'] == 't' and x.k['fps'] in (25, int(1 / info.dt)) for x in cr._record))
    bits, mask = mask_of(c, n)
    s, _ = env.reset_all(c.np.array([True] * n))
    cr._state, cr._policy_state = s, None
    cr._episode_steps = c.np.zeros(n, dtype=int)
    g.sent.clear()
    cr._step(True, True, mask)
    rep = {i: r for i, cmd, r in g.sent if cmd == 'render'}
    for i in range(n):
        fr = cr._record[i].frames
        c.ensure('own-frame', len(fr) == bits[i] and all(same(c, x, rep[i]) for x in fr))
    g.sent.clear()
    cr._step(True, False, mask)
    c.ensure('not-recorded-unless-asked', sum(len(x.frames) for x in cr._record) == sum(bits))
    c.ensure('rendered', len([1 for i, cmd, r in g.sent if cmd == 'render']) == sum(bits))
    cr._core_logic.initialize_run(1, None, None, True)
    cr._end(True)
    c.ensure('every-recording-is-closed', all(x.stopped == 1 for x in cr._record))


harness(P, 'recording_2')(lambda c: _record(c, 2))
harness(P, 'recording_3')(lambda c: _record(c, 3))


def _worker(c, steps):
    """the worker answers every command with the result of the same method of its own environment, until it is closed"""
    mp = c.mod('mushroom_rl.core.multiprocess_environment')
    gen = bool(c.bool('generator'))
    g = Ghost()
    g.calls, g.out, g.closed, g.made = [], [], 0, []

    class Env:
        _pydv_ghost = True

        def __init__(self, *a, **k):
            g.made.append((a, k))
            self.info = ('info', id(self))

        @classmethod
        def generate(cls, *a, **k):
            e = cls.__new__(cls)
            e.info = ('info', 'generated')
            g.made.append(('generate', a, k))
            return e

        def step(self, a):
            g.calls.append(('step', a))
            return ('result', len(g.calls))

        def reset(self, s=None):
            g.calls.append(('reset', s))
            return ('result', len(g.calls))

        def render(self, record=False):
            g.calls.append(('render', record))
            return ('result', len(g.calls))

        def stop(self):
            g.calls.append(('stop', None))

        def seed(self, s):
            g.calls.append(('seed', s))
    script = []
    for t in range(steps):
        cmd = c.choice(f'cmd{t}', ['step', 'reset', 'render', 'stop', 'info', 'seed'])
        script.append((cmd, 7 if cmd == 'seed' else c.bool('rec') if cmd == 'render' else ('data', t)))
    end = c.choice('end', ['close', 'unknown'])
    script.append((end, None))

    class Remote:
        _pydv_ghost = True

        def __init__(self):
            self.k = 0

        def recv(self):
            c.ensure('one-reply-per-command', len(g.out) == self.k)
            c.ensure('reads-while-open', g.closed == 0)
            self.k += 1
            return script[self.k - 1]

        def send(self, r):
            g.out.append(r)

        def close(self):
            g.closed += 1
    rem = Remote()
    if end == 'close':
        mp._env_worker(rem, Env, gen, (1, 2), {'k': 3})
    else:
        c.ensure('unknown-command-rejected', c.raises(NotImplementedError, lambda: mp._env_worker(rem, Env, gen, (1, 2), {'k': 3})))
    c.ensure('built-once-as-asked', g.made == ([('generate', (1, 2), {'k': 3})] if gen else [((1, 2), {'k': 3})]))
    calls = [x for x in script[:-1] if x[0] != 'info']
    c.ensure('every-command-executed-once-in-order', len(g.calls) == len(calls) and
             all(a[0] == b[0] and (a[0] == 'stop' or a[1] is b[1] or a[1] == b[1]) for a, b in zip(g.calls, calls)))
    k = 0
    for (cmd, d), o in zip(script, g.out):
        if cmd == 'info':
            c.ensure('information', o[0] == 'info')
            continue
        k += 1
        c.ensure('replies-the-result', o == (('result', k) if cmd in ('step', 'reset', 'render') else None))
    c.ensure('every-command-answered', len(g.out) == steps)
    c.ensure('pipe-closed-at-the-end', g.closed == 1)


harness(P, 'worker_1')(lambda c: _worker(c, 1))
harness(P, 'worker_2')(lambda c: _worker(c, 2))
