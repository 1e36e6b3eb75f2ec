"""worker sym|conc PROP OUT [args]: imports everything once, then forks one child per harness."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PYDV_REPO', '/repo')


def env_setup():
    for k in ('OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ[k] = '1'
    os.environ.update(MPLBACKEND='agg', SDL_VIDEODRIVER='dummy', SDL_AUDIODRIVER='dummy',
                      TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD='1', PYTHONDONTWRITEBYTECODE='1')
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings('ignore')


def in_repo_frame(e):
    """innermost traceback frame that belongs to the repository or the harness: 'repo' / 'verif' / 'lib'"""
    tb = e.__traceback__
    last = 'lib'
    inner = None
    while tb is not None:
        inner = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    if inner is None:
        return 'lib'
    if inner.startswith(REPO):
        return 'repo'
    if inner.startswith(VERIF):
        return 'verif'
    return 'lib'


def passes_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO):
            return True
        tb = tb.tb_next
    return False


# --------------------------------------------------------------------------- symbolic
def run_sym(h, cfg, bounded=0):
    from pydv.core import Engine, Unsupported, PathEnd
    from pydv.ctx import SymCtx
    from pydv import solver
    import z3
    t0 = time.time()
    eng = Engine(h.name, cfg)
    eng.t_end = t0 + cfg['budget']
    res = {'harness': h.name, 'mode': 'bounded-symbolic' if bounded else 'proof'}
    rt = RT
    rt.unroll = 8 if bounded else 0
    rt.while_unroll = 7 if bounded else 64
    unsupported = None
    holder = {}

    def body():
        c = SymCtx(eng, rt, bounded)
        holder['c'] = c
        try:
            h.fn(c)
        finally:
            c.restore()
        # reachability: the path that reaches the end of the harness must be consistent
        eng.end_checks = getattr(eng, 'end_checks', [])
        if len(eng.end_checks) < 25 and 'sat' not in eng.end_checks:
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(eng.facts)
            s.add(eng.qfacts)
            eng.end_checks.append(str(s.check()))

    def on_exc(e):
        c = holder['c']
        semantic = getattr(e, '_pydv_semantic', False)
        where = in_repo_frame(e)
        if not semantic and not (where == 'repo' and isinstance(e, (AssertionError, IndexError, ValueError, KeyError,
                                                                     ZeroDivisionError, RuntimeError, OverflowError))):
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Unsupported(f'{type(e).__name__}: {str(e)[:200]} at {tb.filename}:{tb.lineno}')
        tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO)]
        loc = f'{os.path.relpath(tb[-1].filename, REPO)}:{tb[-1].name}' if tb else '?'
        st = c._oblige(f'no-exception:{type(e).__name__}@{loc}', z3.BoolVal(False), kind='safety')
    try:
        eng.explore(body, on_exc)
    except Unsupported as e:
        unsupported = str(e) or type(e).__name__
        if os.environ.get('PYDV_TB'):
            traceback.print_exc()
    except z3.Z3Exception as e:
        unsupported = f'z3: {e}'
        if os.environ.get('PYDV_TB'):
            traceback.print_exc()
    except RecursionError:
        unsupported = 'recursion limit'
        if os.environ.get('PYDV_TB'):
            traceback.print_exc()
    res.update(obligations=eng.obligations, paths=eng.paths, cut_paths=eng.cut_paths, exc_paths=eng.exc_paths,
               unsupported=unsupported, functions=sorted(eng.functions), loops=sorted(eng.loops_used), loops_declared=eng.loops_declared,
               assumptions=sorted(eng.assumptions), solver_time=round(eng.solver_time, 3), queries=eng.n_queries,
               reach=getattr(eng, 'end_checks', []), wall=round(time.time() - t0, 2), notes=sorted(set(eng.notes)))
    return res


# --------------------------------------------------------------------------- concrete
RUN_CPU_S = 45      # CPU seconds one concrete run may take before it counts as not terminating (the slowest takes about 5)


class NotTerminating(BaseException):
    pass


def _overrun(sig, frame):
    raise NotTerminating(f'{RUN_CPU_S} s of CPU time')


def run_one_conc(h, seed, values=None, size_max=5):
    """returns (status, detail, drawn, checked)"""
    import random
    import numpy as np
    import torch
    from pydv.ctx import ConcCtx, Skip
    np.random.seed(seed % (2 ** 31))
    torch.manual_seed(seed)
    random.seed(seed)
    c = ConcCtx(seed, values, size_max)
    signal.signal(signal.SIGVTALRM, _overrun)
    signal.setitimer(signal.ITIMER_VIRTUAL, RUN_CPU_S)
    try:
        h.fn(c)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Skip:
        return 'skip', None, c.drawn, c.checked
    except NotTerminating as e:
        if c.failures:
            return 'fail', c.failures, c.drawn, c.checked
        if passes_repo(e):
            tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO)][0]
            return 'fail', [(f'terminates@{os.path.relpath(tb.filename, REPO)}:{tb.name}', str(e))], c.drawn, c.checked
        return 'error', f'harness did not terminate in {e}', c.drawn, c.checked
    except Exception as e:
        if c.failures:
            return 'fail', c.failures, c.drawn, c.checked
        if passes_repo(e) and in_repo_frame(e) != 'verif':
            tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO)][-1]
            loc = f'{os.path.relpath(tb.filename, REPO)}:{tb.name}'
            return 'fail', [(f'no-exception:{type(e).__name__}@{loc}', str(e)[:300])], c.drawn, c.checked
        if os.environ.get('PYDV_TB'):
            traceback.print_exc()
        return 'error', f'{type(e).__name__}: {str(e)[:300]} ' + repr(traceback.extract_tb(e.__traceback__)[-1])[:200], c.drawn, c.checked
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        c.restore()
    if c.failures:
        return 'fail', c.failures, c.drawn, c.checked
    return 'ok', None, c.drawn, c.checked


def run_conc(h, cfg, models):
    t0 = time.time()
    out = {'harness': h.name, 'runs': 0, 'skips': 0, 'checked': 0, 'errors': [], 'fail': None, 'replayed_models': 0}
    base = cfg['seed'] * 1000003

    def record(kind, det, drawn, seed, values, size=5):
        out['fail'] = {'kind': kind, 'failures': det, 'inputs': drawn, 'seed': seed, 'values': values, 'size': size}
    if 'replay_seed' in cfg:
        st, det, drawn, n = run_one_conc(h, cfg['replay_seed'], cfg['replay_values'], cfg['replay_size'])
        out.update(status=st, detail=det)
        if st == 'fail':
            record('replay', det, drawn, cfg['replay_seed'], cfg['replay_values'], cfg['replay_size'])
        return out
    for m in models:
        for sm in (5,):
            out['replayed_models'] += 1
            st, det, drawn, n = run_one_conc(h, base, m, sm)
            if st == 'fail':
                record('model-replay', det, drawn, base, m)
                out['wall'] = round(time.time() - t0, 2)
                return out
    k = 0
    while time.time() - t0 < cfg['conc_budget'] and k < cfg.get('conc_max', 100000):
        seed = base + k
        k += 1
        t1 = time.process_time()
        st, det, drawn, n = run_one_conc(h, seed, None, 2 + k % 6)
        out['slowest_run_s'] = max(out.get('slowest_run_s', 0), round(time.process_time() - t1, 2))
        out['checked'] += n
        if st == 'ok':
            out['runs'] += 1
        elif st == 'skip':
            out['skips'] += 1
        elif st == 'error':
            if len(out['errors']) < 3:
                out['errors'].append(det)
            if len(out['errors']) >= 3 and out['runs'] == 0 and k > 30:
                break
        else:
            record('search', det, drawn, seed, None, 2 + k % 6)
            break
    out['wall'] = round(time.time() - t0, 2)
    return out


# --------------------------------------------------------------------------- pool
def pool(jobs, nproc, timeout_of):
    """jobs: list of (key, fn); runs fn() in a forked child, returns {key: result or {'crash':..}}"""
    import tempfile
    d = tempfile.mkdtemp(prefix='pydv')
    results, running = {}, {}
    queue = list(jobs)
    try:
        while queue or running:
            while queue and len(running) < nproc:
                key, fn = queue.pop(0)
                path = os.path.join(d, f'{len(results) + len(running)}_{time.time_ns()}.json')
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setsid()
                        try:
                            import resource
                            resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
                        except Exception:
                            pass
                        r = fn()
                        with open(path + '.tmp', 'w') as f:
                            json.dump(r, f, default=str)
                        os.rename(path + '.tmp', path)
                    except BaseException as e:
                        try:
                            with open(path, 'w') as f:
                                json.dump({'crash': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()[-2000:]}, f)
                        except BaseException:
                            pass
                        code = 1
                    finally:
                        os._exit(code)
                running[pid] = (key, path, time.time())
            time.sleep(0.02)
            for pid in list(running):
                key, path, t0 = running[pid]
                p, st = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    if time.time() - t0 > timeout_of(key):
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except ProcessLookupError:
                            os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        results[key] = {'crash': 'timeout'}
                        del running[pid]
                    continue
                try:
                    results[key] = json.load(open(path))
                except Exception:
                    results[key] = {'crash': f'no result (status {st})'}
                del running[pid]
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return results


def load_contracts(prop):
    sys.path.insert(0, VERIF)
    importlib.import_module(f'contracts.{prop.lower()}')
    from pydv.ctx import REGISTRY
    return REGISTRY.get(prop, [])


RT = None


def main():
    global RT
    mode, prop, cfgfile, outfile = sys.argv[1:5]
    env_setup()
    if mode == 'list':
        print(json.dumps([(h.name, {k: v for k, v in h.opts.items()}) for h in load_contracts(prop)]))
        return
    cfg = json.load(open(cfgfile))
    sys.path.insert(0, VERIF)
    if mode == 'sym':
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        sys.setrecursionlimit(6000)
        from pydv import loader, runtime
        RT = runtime.Runtime()
        loader.install(RT)
        hs = load_contracts(prop)
        hs = [h for h in hs if not cfg.get('only') or h.name in cfg['only']]
        for m in cfg.get('preload', []) + getattr(sys.modules[f'contracts.{prop.lower()}'], 'PRELOAD', []):
            try:
                importlib.import_module(m)
            except Exception as e:
                print('preload failed', m, type(e).__name__, e, file=sys.stderr)
                if os.environ.get('PYDV_TB'):
                    traceback.print_exc()
        jobs = []
        for h in hs:
            if h.opts.get('bounded_only'):
                continue
            hc = dict(cfg)
            hc.update({k: v for k, v in h.opts.items() if k in ('ms', 'max_forks', 'max_paths', 'feas_ms')})
            hc['budget'] = h.opts.get('budget', cfg['budget'])
            jobs.append((h.name, lambda h=h, hc=hc: run_sym(h, hc, cfg.get('bounded', 0))))
        bud = {h.name: h.opts.get('budget', cfg['budget']) for h in hs}
        res = pool(jobs, cfg.get('nproc', 8), lambda k: bud[k] + 40)
    else:
        sys.path.insert(0, REPO)
        hs = load_contracts(prop)
        hs = [h for h in hs if not cfg.get('only') or h.name in cfg['only']]
        for m in getattr(sys.modules[f'contracts.{prop.lower()}'], 'PRELOAD', []):
            try:
                importlib.import_module(m)
            except Exception as e:
                print('preload failed', m, e, file=sys.stderr)
        jobs = []
        for h in hs:
            hc = dict(cfg)
            b = cfg['conc_budget_of'].get(h.name, cfg['conc_budget'])
            hc['conc_budget'] = b
            if 'conc_max' in h.opts:
                hc['conc_max'] = h.opts['conc_max']
            jobs.append((h.name, lambda h=h, hc=hc: run_conc(h, hc, cfg.get('models', {}).get(h.name, []))))
        res = pool(jobs, cfg.get('nproc', 8), lambda k: cfg['conc_budget_of'].get(k, cfg['conc_budget']) + 60)
    json.dump(res, open(outfile, 'w'), default=str)


if __name__ == '__main__':
    sys.modules['pydv.worker'] = sys.modules['__main__']
    main()
