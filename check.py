#!/opt/venv/bin/python
"""check.py PROP [--tier quick|thorough] | check.py --replay FILE

Orchestrates the decision of one property (DESIGN.md, section "Decision procedure"):
 1. proof phase      - the contracts in contracts/<prop>.py are turned into verification conditions from the
                       source text in /repo on this very run and discharged by z3 / cvc5
 2. replay phase     - counterexamples of failed obligations are replayed on the real code, plus a
                       cross-check of the contracts on random inputs
 3. bounded phase    - only for contracts the proof phase did not decide: same obligations, sizes <= 3
Exit status: 0 (held) or 1 (VIOLATION line printed).
"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
EVID = os.path.join(VERIF, 'evidence')

TRUSTED = [
    'PyDV verification-condition generator (/verif/pydv): symbolic execution of the real source of /repo, re-read on every run',
    'z3 5.x (in process) and cvc5 1.1.2 as back ends',
    'CPython semantics of the code outside the modelled subset (the instrumented source is executed by CPython itself)',
    'contracts of numpy / torch / builtins operations (pydv/shims.py, pydv/arrays.py), cross-checked on random inputs against the real libraries on every run',
]
ASSUME = [
    'floating point treated as real arithmetic; machine integers as mathematical integers',
    'exp/log/sin/cos/tanh/sqrt/pow are uninterpreted functions with a few sound axioms',
    'random draws return arbitrary values of their documented range (demonic choice)',
    'termination is not proved for loops under an invariant',
    'extraction drops: docstrings, type annotations, decorator-free comments; single-generator comprehensions and for/while loops are re-expressed through the loop-contract runtime',
]


def run_worker(mode, prop, cfg, tag, timeout):
    d = os.path.join(EVID, '.work')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, f'{prop}.{os.getpid()}.{tag}')
    with open(base + '.cfg', 'w') as f:
        json.dump(cfg, f)
    out = base + '.out'
    log = ''
    try:
        r = subprocess.run([PY, os.path.join(VERIF, 'pydv', 'worker.py'), mode, prop, base + '.cfg', out],
                           cwd=VERIF, capture_output=True, text=True, timeout=timeout)
        log = (r.stderr or '')[-3000:]
    except subprocess.TimeoutExpired:
        log = 'worker timeout'
    try:
        res = json.load(open(out))
    except Exception:
        res = {}
    for s in ('.cfg', '.out'):
        try:
            os.unlink(base + s)
        except OSError:
            pass
    return res, log


def known_findings():
    try:
        return json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except Exception:
        return {'known': [], 'fixed': []}


def is_known(prop, hname, ob, kf):
    for e in kf.get('known', []):
        if e['property'] == prop and e['contract'] == hname and e['obligation'] == ob:
            return e
    return None


def sym_verdict(r):
    """proved | refuted | undecided, reason"""
    if r is None:
        return 'undecided', 'no result'
    if 'crash' in r:
        return 'undecided', 'crash: ' + r['crash'][:200]
    obs = r['obligations']
    bad = [o for o in obs if o['status'] != 'proved']
    ref = [o for o in bad if o['status'] == 'refuted']
    if ref:
        return 'refuted', ', '.join(sorted({o['name'] for o in ref}))[:300]
    if r['unsupported']:
        return 'undecided', 'outside the verifier: ' + r['unsupported'][:300]
    if bad:
        return 'undecided', 'not discharged: ' + ', '.join(sorted({o['name'] for o in bad}))[:300]
    if not obs:
        return 'undecided', 'no obligations generated'
    if r['reach'] and all(x == 'unsat' for x in r['reach']):
        return 'undecided', 'vacuous: no end state reachable'
    if not r['reach']:
        return 'undecided', 'vacuous: end of contract never reached'
    return 'proved', ''


def main():
    t0 = time.time()
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(EVID, exist_ok=True)
    thorough = tier == 'thorough'
    os.environ['PYDV_TIER'] = tier
    dl = t0 + (3000 if thorough else 780)
    cfg = {'budget': 600 if thorough else 150, 'seed': seed, 'ms': 60000 if thorough else 12000, 'bounded': 0,
           'conc_budget': 30 if thorough else 1.5, 'conc_budget_of': {}, 'nproc': 8, 'dl': dl}
    # ---- 1. proof
    sym, log1 = run_worker('sym', prop, cfg, 'sym', max(60, (dl - time.time()) * .55))
    names = json.loads(subprocess.run([PY, os.path.join(VERIF, 'pydv', 'worker.py'), 'list', prop, '-', '-'], cwd=VERIF,
                                      capture_output=True, text=True).stdout or '[]')
    allh = [n for n, _ in names]
    bounded_only = {n for n, o in names if o.get('bounded_only')}
    verdict = {h: sym_verdict(sym.get(h)) if h not in bounded_only else ('undecided', 'declared bounded') for h in allh}
    undec = [h for h in allh if verdict[h][0] != 'proved']
    # ---- 2. replay + cross-check on the real code
    models = {}
    for h in allh:
        ms = [o['inputs'] for o in (sym.get(h) or {}).get('obligations', []) if o.get('inputs')]
        if ms:
            models[h] = ms[:12]
    c2 = dict(cfg, models=models, conc_budget_of={h: (90 if thorough else 12) for h in undec})
    conc, log2 = run_worker('conc', prop, c2, 'conc', max(60, (dl - time.time()) * .6))
    # ---- 3. bounded symbolic for what is left
    bres = {}
    need = [h for h in undec if not (conc.get(h) or {}).get('fail')]
    conc2 = {}
    log3 = ''
    if need and dl - time.time() > 60:
        c3 = dict(cfg, bounded=3, only=need, budget=min(cfg['budget'], 60 if not thorough else 400))
        bres, log3 = run_worker('sym', prop, c3, 'bnd', max(30, (dl - time.time()) * .6))
        bm = {}
        for h in need:
            ms = [o['inputs'] for o in (bres.get(h) or {}).get('obligations', []) if o.get('inputs')]
            if ms:
                bm[h] = ms[:25]
        if bm:
            c4 = dict(cfg, models=bm, only=list(bm), conc_budget=0.1, conc_budget_of={})
            conc2, _ = run_worker('conc', prop, c4, 'conc2', max(30, dl - time.time()))
    # ---- decision
    kf = known_findings()
    violations, knowns, rows = [], [], []
    for h in allh:
        v, why = verdict[h]
        f = (conc.get(h) or {}).get('fail') or (conc2.get(h) or {}).get('fail')
        row = {'contract': h, 'proof': v, 'reason': why}
        if f:
            unlisted = [x for x in f['failures'] if not is_known(prop, h, x[0], kf)]
            for x in f['failures']:
                e = is_known(prop, h, x[0], kf)
                if e:
                    knowns.append(f"{h}: {x[0]}: {e['what']}")
            if unlisted:
                violations.append((h, f['failures'][0][0], f, None))
                row['decision'] = 'violated (replayed)'
            else:
                row['decision'] = 'known finding'
        elif v == 'proved':
            row['decision'] = 'proved'
        else:
            sr = sym.get(h) or {}
            posts = [o for o in sr.get('obligations', []) if o['status'] == 'refuted' and not is_known(prop, h, o['name'], kf)]
            b = bres.get(h) or {}
            bv, bwhy = sym_verdict(b) if b else ('undecided', 'not run')
            bposts = [o for o in b.get('obligations', []) if o['status'] == 'refuted'] if b else []
            row['bounded'] = bv
            row['bounded_reason'] = bwhy
            # a refuted obligation counts without a failing input only where no loop contract is involved: facts about ghost
            # functions come from the loop contract, which a rewritten loop may no longer meet
            hard = posts or bposts
            if sr.get('loops') or sr.get('loops_declared') or b.get('loops_declared'):
                hard = []
            if hard and h not in bounded_only:
                violations.append((h, hard[0]['name'], None, {'obligation': hard[0], 'solver': hard[0]['backend'],
                                                              'all_refuted': [o['name'] for o in hard]}))
                row['decision'] = 'obligation refuted, no failing input'
            elif bv == 'proved':
                row['decision'] = 'bounded (symbolic, all sizes <= 3) + concrete search'
            else:
                row['decision'] = 'bounded (concrete search only)'
        c = conc.get(h) or {}
        row['crosscheck_runs'] = c.get('runs', 0)
        row['crosscheck_checks'] = c.get('checked', 0)
        if c.get('errors'):
            row['crosscheck_errors'] = c['errors'][:2]
        if 'crash' in c:
            row['crosscheck_errors'] = [c['crash']]
        rows.append(row)
    # ---- evidence
    obs = [o for h in allh for o in (sym.get(h) or {}).get('obligations', [])]
    by = {}
    for o in obs:
        if o['status'] == 'proved':
            by[o['backend']] = by.get(o['backend'], 0) + 1
    fns, loops, assum = set(), set(), set()
    for h in allh:
        r = sym.get(h) or {}
        fns.update(r.get('functions', []))
        loops.update(r.get('loops', []))
        assum.update(r.get('assumptions', []))
    nproved = sum(1 for h in allh if verdict[h][0] == 'proved')
    cov = {
        'obligations': len(obs), 'discharged': sum(o['status'] == 'proved' for o in obs),
        'checker_cmd': f'{PY} {VERIF}/check.py {prop} --tier {tier}',
        'trusted_base': TRUSTED,
        'contracts': len(allh), 'contracts_proved': nproved,
        'contracts_bounded': sum(1 for r in rows if r['decision'].startswith('bounded')),
        'by_backend': by, 'solver_time_s': round(sum((sym.get(h) or {}).get('solver_time', 0) for h in allh), 2),
        'paths': sum((sym.get(h) or {}).get('paths', 0) for h in allh),
        'functions_under_contract': sorted(fns), 'loops_with_invariants': sorted(loops),
        'crosscheck_runs': sum(r['crosscheck_runs'] for r in rows),
        'crosscheck_assertions': sum(r['crosscheck_checks'] for r in rows),
        'per_contract': rows,
        'sample_obligations': [{'contract': h, **{k: o[k] for k in ('name', 'kind', 'status', 'backend', 's')}}
                               for h in allh for o in (sym.get(h) or {}).get('obligations', [])[:2]][:12],
    }
    if any(v != 'proved' for v, _ in verdict.values()):
        cov['logs'] = {'sym': log1[-800:], 'conc': log2[-800:], 'bounded': log3[-800:]}
    level = 'proof' if nproved > 0 and not all(r['decision'].startswith('bounded') for r in rows) else 'other'
    if level == 'other':
        cov['explanation'] = 'no contract of this property was discharged without a bound on this tree; see per_contract'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUME + sorted(assum), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    tmp = os.path.join(EVID, f'.{prop}.json.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, f'{prop}.json'))
    # ---- output
    for r in rows:
        print(f"{prop} {r['contract']}: {r['decision']}" + (f" [{r['reason']}]" if r['reason'] else ''))
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, {nproved}/{len(allh)} contracts proved, "
          f"{len(fns)} functions, {cov['crosscheck_runs']} cross-check runs, {ev['wall_s']} s")
    for k in knowns:
        print(f'KNOWN-FINDING: property={prop} {k}')
    if not allh:
        print(f'{prop}: no contracts could be loaded: {log1[-1500:]}')
    for k, (h, ob, f, nofail) in enumerate(violations):
        path = os.path.join(EVID, f'{prop}.{h}.replay.json')
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'contract': h, 'obligation': ob, 'replay': f, 'solver': nofail,
                       'how': f'{PY} {VERIF}/check.py --replay {path}'}, fh, indent=1)
        if f:
            print(f'  contract {h}: obligation {ob} fails on the real code: {json.dumps(f["failures"])[:300]}')
            print(f'VIOLATION property={prop} replay={path}')
    # replayed violations first; unreplayed ones only matter if there is no replayed one
    for (h, ob, f, nofail) in violations:
        if not f:
            path = os.path.join(EVID, f'{prop}.{h}.replay.json')
            print(f'  contract {h}: obligation {ob} refuted by {nofail["solver"]}')
            if not any(x[2] for x in violations):
                print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
    return 1 if violations else 0


def replay(path):
    r = json.load(open(path))
    if not r['replay']:
        print('no failing input recorded; the failed obligation and the solver output:')
        print(json.dumps(r['solver'], indent=1))
        return 0
    f = r['replay']
    cfg = {'seed': 1, 'conc_budget': 0, 'conc_budget_of': {}, 'only': [r['contract']], 'nproc': 1,
           'replay_seed': f['seed'], 'replay_values': f['values'], 'replay_size': f.get('size', 5)}
    res, log = run_worker('conc', r['property'], cfg, 'replay', 300)
    x = res.get(r['contract']) or {}
    print(json.dumps(x.get('fail') or x, indent=1)[:4000])
    if x.get('fail'):
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
