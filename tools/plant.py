"""usage: plant.py file.py [ids]

file defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs,
breaks)]. Each is tried in a scratch clone of VERIF_REPO (default /repo):
demo, the repository's tests, and the check of its property (or of those in
'checks'). What is good is kept in /verif/seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = '/verif/seeded'
REPO = os.environ.get('VERIF_REPO', '/repo')
SH = '''#!/bin/bash
# exit 0: the property holds; anything else: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
export LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1
export JYTHONPATH="$(pwd):/opt/pyamf-deps"
exec java -Xss64m -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar \\
    -Dpython.home=/usr/share/jython \\
    -Dpython.executable=/usr/share/jython/bin/jython \\
    -Dpython.cachedir.skip=true org.python.util.jython -B "$D/demo.py"
'''
TEST = r'''
cd %(d)s
export LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1
export JYTHONPATH=%(d)s:/opt/pyamf-deps
J="java -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar -Dpython.home=/usr/share/jython -Dpython.executable=/usr/share/jython/bin/jython -Dpython.cachedir.skip=true org.python.util.jython -B"
$J setup.py -q build --build-base %(d)s/.b
timeout -k 10 300 $J /opt/vp/lib/run_tests.py %(d)s/.r.txt </dev/null
/usr/bin/python3 /opt/vp/results.py %(d)s/.o.json lines:%(d)s/.r.txt
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def one(b):
    c = '/tmp/pl/' + b['id']
    shutil.rmtree(c, ignore_errors=True)
    sh('git clone -q %s %s' % (REPO, c))
    t = c + '.s'
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    try:
        open(t + '/demo.sh', 'w').write(SH)
        os.chmod(t + '/demo.sh', 0o755)
        open(t + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        sh('cd %s && git show HEAD:setup.py >/dev/null' % c)
        v = c + '/pyamf/_version.py'
        open(v, 'w').write("from pyamf.versions import Version\n"
                           "version = Version(0, 8, 0)\n")
        good = sh('timeout 280 bash %s/demo.sh' % t, cwd=c)
        for f, o, n in b['edits']:
            p = c + '/' + f
            s = open(p).read()
            if s.count(o) != 1:
                return b['id'], 'EDIT count', s.count(o), f
            open(p, 'w').write(s.replace(o, n))
        patch = sh('git diff', cwd=c).stdout
        bad = sh('timeout 280 bash %s/demo.sh' % t, cwd=c)
        x = sh(TEST % {'d': c})
        try:
            missing = base - set(json.load(open(c + '/.o.json'))['passed'])
        except (IOError, ValueError):
            missing = ['no tests', x.stderr[-300:]]
        chk = []
        for p in b.get('checks', [b['prop']]):
            if os.path.exists('/verif/pbt/props/%s.py' % p.lower()):
                r = sh('VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick '
                       './run.py %s' % (c, p), cwd='/verif')
                chk.append('%s rc=%d %s' % (
                    p, r.returncode, [l[:200] for l in
                                      r.stdout.strip().splitlines()[-2:]]))
        ok = bad.returncode and not good.returncode and not missing
        if ok:
            d = os.path.join(V, b['id'])
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(patch)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(t + '/' + f, d + '/' + f)
            json.dump({'property': b['prop'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
        out = [b['id'], 'OK' if ok else 'BAD', 'demo patched',
               bad.returncode, 'clean', good.returncode, 'missing',
               sorted(missing)[:5]] + ['\n    ' + x for x in chk]
        if not ok:
            out += ['\n  patched:', bad.stderr[-300:], '\n  clean:',
                    good.stderr[-600:]]
        return out
    finally:
        shutil.rmtree(c, ignore_errors=True)
        shutil.rmtree(t, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    bs = [b for b in ns['BUGS'] if not ids or b['id'] in ids]
    os.makedirs('/tmp/pl', exist_ok=True)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 2))) as ex:
        for r in ex.map(one, bs):
            print(*r)
            sys.stdout.flush()
