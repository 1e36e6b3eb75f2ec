#!/usr/bin/env python3
"""mkseed.py SPEC.py - validate a planted bug in a scratch copy of /repo and store it under seeded/<id>.

SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (python source, nonzero exit with the bug), NEEDS, BREAKS.
"""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']
SC = '/tmp/seedsc_' + ID
shutil.rmtree(SC, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', SC], check=True)
try:
    for f, old, new in spec['EDITS']:
        p = os.path.join(SC, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', SC, 'diff'], capture_output=True, text=True).stdout
    assert diff
    d = f'/verif/seeded/{ID}'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(spec['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd is the repository; exit 0 when the behaviour is right\nexport PYTHONPATH="$PWD" MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1\n'
                                    'timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    ok = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    bad = subprocess.run(['bash', d + '/demo.sh'], cwd=SC, capture_output=True, text=True)
    print('demo clean rc', ok.returncode, (ok.stdout + ok.stderr)[-300:] if ok.returncode else '')
    print('demo buggy rc', bad.returncode, (bad.stdout + bad.stderr)[-200:])
    t = open('/opt/vp/test.sh').read().replace('/repo', SC)
    open('/tmp/seed_test.sh', 'w').write(t)
    subprocess.run(['bash', '/tmp/seed_test.sh', f'/tmp/seed_{ID}.json'], capture_output=True, env=dict(os.environ, PYTHONPATH=SC))
    o = json.load(open(f'/tmp/seed_{ID}.json'))
    st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    lost = sorted(st - set(o['passed']))
    print('stable tests lost:', lost[:5], len(lost))
    good = ok.returncode == 0 and bad.returncode not in (0, 124) and not lost
    if good:
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        print('KEPT', ID)
    else:
        shutil.rmtree(d)
        print('REJECTED', ID)
finally:
    shutil.rmtree(SC, ignore_errors=True)
    for x in (f'/tmp/seed_{ID}.json', '/tmp/seed_test.sh'):
        if os.path.exists(x):
            os.unlink(x)
