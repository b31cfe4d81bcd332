"""plant.py ID PROPERTY: builds seeded/ID/patch.diff from the scratch copy /tmp/plant and checks the rules.
 usage: plant.py new            -> fresh copy of /repo at /tmp/plant
        plant.py keep ID        -> diff -> seeded/ID/patch.diff, then verify (tests pass, demo 0 / non-zero)
        plant.py verify ID..    -> re-verify
        plant.py catch ID..     -> apply to /repo, run the property's check, undo"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = '/tmp/plant'
ENV = dict(os.environ, SDL_VIDEODRIVER='dummy', PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', MPLBACKEND='Agg', PYGAME_HIDE_SUPPORT_PROMPT='1')
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def new():
    sh('rm -rf /tmp/plant'); sh('cp -a /repo /tmp/plant')
STABLE = None
def verify(i):
    d = V + '/seeded/' + i
    new()
    a = sh('bash %s/demo.sh' % d, cwd=P, env=ENV)
    r = sh('git apply %s/patch.diff' % d, cwd=P)
    if r.returncode: print(i, 'PATCH', r.stderr); return
    t = sh('PYTHONPATH=. /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -rA 2>&1 | grep -E "^PASSED" | sort', cwd=P, env=ENV).stdout
    ok = all(s.split('::')[1] in t for s in json.load(open('/opt/vp/BASELINE.json'))['stable'])
    b = sh('bash %s/demo.sh' % d, cwd=P, env=ENV)
    good = a.returncode == 0 and b.returncode != 0 and ok
    print(i, 'GOOD' if good else 'BAD', 'clean', a.returncode, 'patched', b.returncode, 'tests', ok)
    if a.returncode: print(a.stdout[-600:], a.stderr[-1500:])
    elif b.returncode: print('   ', (b.stdout + b.stderr).strip().split('\n')[-1][:200])
    sh('rm -rf /tmp/plant')
def catch(i):
    d = V + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode: print(i, 'PATCH', r.stderr); return
    try:
        r = sh('VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh %s' % p, cwd=V)
    finally:
        sh('git -C /repo checkout -- .')
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print(i, p, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, (v or [''])[0][:150], r.stdout.strip().split('\n')[-1][-100:], flush=True)
m, a = sys.argv[1], sys.argv[2:]
if m == 'new': new()
elif m == 'keep':
    i = a[0]
    os.makedirs(V + '/seeded/' + i, exist_ok=True)
    diff = sh('git diff', cwd=P).stdout
    open(V + '/seeded/%s/patch.diff' % i, 'w').write(diff)
    print(diff); verify(i)
elif m == 'verify':
    for i in a or sorted(os.listdir(V + '/seeded')): verify(i)
elif m == 'catch':
    for i in a or sorted(os.listdir(V + '/seeded')): catch(i)
