"""Confirms planted changes in a scratch copy bind-mounted over /repo in a private mount namespace.
usage: plant.py confirm ID...   (builds, tests and demo with and without the patch)
       plant.py check ID...     (runs the property's check against the patched copy)
Planted changes live in /verif/seeded/ID.  /repo itself is not touched."""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def ns(copy, cmd, timeout=1200, env=None):
    sc = 'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', sc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
def copy():
    d = tempfile.mkdtemp(prefix='plant.'); subprocess.run(['cp', '-a', os.environ.get('PLANT_SRC', '/repo'), d + '/repo'], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'], check=True)
    return d
def stable(out):
    base = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open(out))
    return base, r
def confirm(i):
    s = os.path.join(HERE, 'seeded', i); d = copy()
    try:
        r = ns(d + '/repo', 'bash /opt/vp/build.sh >/dev/null 2>&1; cp -r %s /tmp/pl/demo.%s && bash /tmp/pl/demo.%s/demo.sh' % (s, i, i))
        a = r.returncode
        p = subprocess.run(['git', '-C', d + '/repo', 'apply', s + '/patch.diff'])
        if p.returncode: print(i, 'patch does not apply'); return
        o = '/tmp/pl/%s.json' % i
        r2 = ns(d + '/repo', 'bash /opt/vp/build.sh && bash /opt/vp/test.sh %s; bash /tmp/pl/demo.%s/demo.sh' % (o, i))
        base, t = stable(o)
        names = base.get('stable') or base.get('passed') or base
        ok = set(t.get('passed', [])) if isinstance(t, dict) else set()
        miss = [n for n in names if n not in ok]
        print(i, 'clean demo rc', a, '| patched demo rc', r2.returncode, '| stable tests missing', len(miss), miss[:3])
        if a or not r2.returncode: print(r.stdout[-800:]); print('---'); print(r2.stdout[-800:])
    finally:
        shutil.rmtree(d); shutil.rmtree('/tmp/pl/demo.%s' % i, ignore_errors=True)
def check(i):
    s = os.path.join(HERE, 'seeded', i); d = copy()
    try:
        prop = json.load(open(s + '/meta.json'))['property']
        if subprocess.run(['git', '-C', d + '/repo', 'apply', s + '/patch.diff']).returncode: print(i, 'patch does not apply'); return
        shutil.copytree(HERE, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        r = ns(d + '/repo', 'cd %s/verif && /opt/venv/bin/python run.py %s' % (d, prop))
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        print(i, prop, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED'); print('\n'.join(r.stdout.splitlines()[-6 if not v else -4:]))
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    for i in sys.argv[2:]: {'confirm': confirm, 'check': check}[sys.argv[1]](i)
