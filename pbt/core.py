"""Runner shared by every check: Hypothesis drives, a Jython worker runs the
real PyAMF code, oracles live in Python 3.

Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 check error.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEPS = '/opt/pyamf-deps'


class Violation(Exception):
    """The property is broken for the current case."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class CheckError(Exception):
    """The machinery itself failed (not a verdict)."""


class Stop(BaseException):
    pass


def require(cond, msg, *detail):
    if not cond:
        raise Violation(msg + (': ' + ' | '.join(short(d) for d in detail)
                               if detail else ''))


def short(x, n=1500):
    s = x if isinstance(x, str) else json.dumps(x, default=repr,
                                                ensure_ascii=True)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


# ---------------------------------------------------------------- worker

class WorkerDied(Exception):
    pass


class WorkerHang(Exception):
    pass


class Worker(object):
    """A Jython process importing pyamf from the current /repo tree."""

    def __init__(self, modules, heap='700m', stack='64m', ready_s=180):
        self.modules = modules
        self.heap = heap
        self.stack = stack
        self.ready_s = ready_s
        self.proc = None
        self.requests = 0
        self.history = []       # every request since start (for replay)
        self.start()

    def start(self):
        env = {
            'PATH': '/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin',
            'HOME': os.environ.get('HOME', '/root'),
            'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
            'PYTHONDONTWRITEBYTECODE': '1',
            'PYTHONHASHSEED': '0',
            'JYTHONPATH': ':'.join([os.path.join(VERIF, 'jy'), REPO, DEPS]),
        }
        cmd = ['java', '-Xss' + self.stack, '-Xmx' + self.heap,
               '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1',
               '-XX:-UsePerfData', '-Xshare:auto',
               '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar',
               '-Dpython.home=/usr/share/jython',
               '-Dpython.executable=/usr/share/jython/bin/jython',
               '-Dpython.cachedir.skip=true',
               'org.python.util.jython', '-B',
               os.path.join(VERIF, 'jy', 'worker.py')] + list(self.modules)
        self.errpath = None
        self.proc = subprocess.Popen(
            cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, env=env, cwd='/')
        self.err = collections.deque(maxlen=60)
        t = threading.Thread(target=self._drain, args=(self.proc.stderr,),
                             daemon=True)
        t.start()
        self.buf = b''
        self.history = []
        line = self._readline(self.ready_s)
        if json.loads(line).get('ready') is not True:
            raise CheckError('worker said %r' % line)

    def _drain(self, f):
        for l in f:
            self.err.append(l.decode('utf-8', 'replace'))

    def _readline(self, timeout):
        fd = self.proc.stdout.fileno()
        end = time.time() + timeout
        while True:
            i = self.buf.find(b'\n')
            if i >= 0:
                line, self.buf = self.buf[:i], self.buf[i + 1:]
                return line.decode('utf-8')
            left = end - time.time()
            if left <= 0:
                raise WorkerHang('no answer within %ss' % timeout)
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    time.sleep(0.2)
                    raise WorkerDied(''.join(self.err)[-3000:])
                self.buf += chunk

    def kill(self):
        if self.proc is not None:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.proc = None

    def restart(self):
        self.kill()
        self.start()

    def call(self, op, _timeout=20, **kw):
        """Run one operation; an exception escaping the worker's handler is a
        Violation (on a correct tree handlers report expected exceptions)."""
        if self.proc is None:
            self.start()
        kw['op'] = op
        data = json.dumps(kw) + '\n'
        self.requests += 1
        self.history.append(kw)
        try:
            try:
                self.proc.stdin.write(data.encode('utf-8'))
                self.proc.stdin.flush()
            except (BrokenPipeError, OSError):
                raise WorkerDied(''.join(self.err)[-3000:])
            line = self._readline(_timeout)
        except WorkerHang:
            self.kill()
            # a slow machine is not a hang: retry once, alone, much longer
            self.start()
            try:
                self.proc.stdin.write(data.encode('utf-8'))
                self.proc.stdin.flush()
                line = self._readline(_timeout * 4)
            except WorkerHang:
                self.kill()
                raise Violation('operation %s does not terminate (%ss)' % (
                    op, _timeout * 4), key='hang')
        except WorkerDied as e:
            self.kill()
            raise Violation('worker process died on %s: %s' % (op, e),
                            key='died')
        res = json.loads(line)
        if 'fail' in res:
            raise Violation('unexpected exception in %s: %s' % (
                op, res['fail']))
        return res['ok']


# ---------------------------------------------------------------- properties

class Prop(object):
    """Base class of a property check; subclasses live in pbt/props/."""
    id = None
    modules = ()            # worker modules (jy/<name>.py)
    quick = 3000            # cases over all shards
    thorough = 60000
    shards = 6
    rule = ''
    assumptions = []
    heap = '700m'
    stack = '64m'
    ready_s = 180           # for the worker to start
    quick_cap_s = 150       # safety cap on generation time

    def strategy(self, tier):
        raise NotImplementedError

    def fixed(self, tier):
        """Hand-picked cases run before the generated ones."""
        return []

    def check(self, w, case):
        """Decide one case. Returns (nontrivial, labels)."""
        raise NotImplementedError

    def known(self, case, v):
        """Key of the known finding this violation instance is, or None."""
        return v.key


def load_prop(pid):
    m = importlib.import_module('pbt.props.' + pid.lower())
    return m.PROP


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def load_known():
    """{key: description} of the recorded (not repaired) findings."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=C01 key=xyz text
                parts = l.split(' ', 3)
                pid = parts[1].split('=', 1)[1]
                key = parts[2].split('=', 1)[1]
                out[(pid, key)] = parts[3]
    return out


SHRINK_S = 60


def run_shard(pid, tier, seed, shard, nshards, out):
    """Runs one shard; writes a JSON result to the file `out`."""
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis import seed as hseed

    prop = load_prop(pid)
    n = prop.quick if tier == 'quick' else prop.thorough
    n = int(os.environ.get('VERIF_CASES', n))
    cap = prop.quick_cap_s if tier == 'quick' else 3000
    n = max(1, n // nshards)
    known = load_known()
    res = {'evaluations': 0, 'hashes': [], 'samples': [], 'labels': {},
           'known': {}, 'violation': None, 'error': None, 'capped': False}
    w = Worker(prop.modules, prop.heap, prop.stack, prop.ready_s)
    seen = set()
    labels = collections.Counter()
    t0 = time.time()
    best = {'case': None, 'msg': None, 't': None, 'n': 0, 'history': None}
    caselog = []
    rnd = random.Random(seed * 1000 + shard)

    def one(case):
        if best['t'] is not None:
            if time.time() - best['t'] > SHRINK_S:
                raise Stop()
        elif time.time() - t0 > cap:
            res['capped'] = True
            raise Stop()
        res['evaluations'] += 1
        c = canon(case)
        if w.proc is None:
            w.start()
        fresh = not w.history
        if not w.history:
            caselog[:] = []
        caselog.append(case)
        try:
            nontrivial, ls = prop.check(w, case)
        except Violation as v:
            key = prop.known(case, v)
            if key is not None and (pid, key) in known:
                res['known'][key] = known[(pid, key)]
                labels['known:' + key] += 1
                return
            if best['t'] is None:
                best['t'] = time.time()
            if best['case'] is None or len(c) <= best['n']:
                best.update(case=case, msg=str(v), n=len(c),
                            caselog=list(caselog))
            raise
        for l in ls:
            labels[l] += 1
        h = hashlib.sha1(c.encode()).hexdigest()[:16]
        if nontrivial:
            if h not in seen:
                seen.add(h)
                k = len(seen)
                if len(c) < 900:
                    if len(res['samples']) < 3:
                        res['samples'].append(case)
                    elif rnd.random() < 3.0 / k:
                        res['samples'][rnd.randrange(3)] = case

    try:
        try:
            for i, case in enumerate(prop.fixed(tier)):
                if i % nshards == shard:
                    one(case)

            @hseed(seed * 1000 + shard)
            @settings(max_examples=n, database=None, deadline=None,
                      derandomize=False, print_blob=False,
                      report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink])
            @given(prop.strategy(tier))
            def test(case):
                one(case)

            test()
        except Violation:
            pass
        except Stop:
            pass
        except Exception as e:
            if best['case'] is None:
                # Hypothesis wraps flaky failures; without a recorded
                # violation this is our own error
                raise
        if best['case'] is not None:
            res['violation'] = confirm(prop, w, best)
    except BaseException:
        res['error'] = traceback.format_exc()
    finally:
        w.kill()
    res['hashes'] = sorted(seen)
    res['labels'] = dict(labels)
    res['wall'] = time.time() - t0
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def fails(prop, w, cases):
    """Message if running the cases in order in a fresh worker violates."""
    w.restart()
    for c in cases:
        try:
            prop.check(w, c)
        except Violation as v:
            if prop.known(c, v) is not None and \
                    (prop.id, prop.known(c, v)) in load_known():
                continue
            return str(v)
    return None


def confirm(prop, w, best):
    """Re-run the best case in a fresh worker; if it only fails after what
    ran before it, keep (a reduced form of) that history as the replay."""
    msg = fails(prop, w, [best['case']])
    if msg is not None:
        return {'cases': [best['case']], 'msg': msg}
    log = best['caselog']
    msg = fails(prop, w, log)
    if msg is None:
        return {'cases': log, 'msg': best['msg'], 'unreproduced': True}
    # greedy reduction, bounded
    end = time.time() + 60
    lo = log
    step = max(1, len(lo) // 2)
    while step >= 1 and time.time() < end:
        i = 0
        changed = False
        while i < len(lo) - 1 and time.time() < end:
            cand = lo[:i] + lo[i + step:]
            if cand and (cand[-1] is lo[-1]):
                m = fails(prop, w, cand)
                if m is not None:
                    lo, msg, changed = cand, m, True
                    continue
            i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2) if step > 1 else (1 if changed else 0)
    return {'cases': lo, 'msg': msg}


def replay(pid, path):
    prop = load_prop(pid)
    with open(path) as f:
        data = json.load(f)
    w = Worker(prop.modules, prop.heap, prop.stack, prop.ready_s)
    try:
        known = load_known()
        for c in data['cases']:
            try:
                prop.check(w, c)
            except Violation as v:
                k = prop.known(c, v)
                if k is not None and (pid, k) in known:
                    print('KNOWN-FINDING: property=%s %s' % (
                        pid, known[(pid, k)]))
                    continue
                print('case: ' + short(c))
                print('why: ' + short(str(v), 4000))
                print('VIOLATION property=%s replay=%s' % (pid, path))
                return 1
    finally:
        w.kill()
    print('replay of %s: property held' % path)
    return 0


def main(argv):
    pid = argv[0]
    args = argv[1:]
    if '--replay' in args:
        return replay(pid, args[args.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--shard' in args:
        i = args.index('--shard')
        run_shard(pid, tier, seed, int(args[i + 1]), int(args[i + 2]),
                  args[i + 3])
        return 0

    prop = load_prop(pid)
    assert prop.id == pid
    t0 = time.time()
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix='pbt-%s-' % pid)
    procs = []
    nshards = prop.shards
    try:
        for s in range(nshards):
            out = os.path.join(tmp, 'shard%d.json' % s)
            log = open(os.path.join(tmp, 'log%d' % s), 'wb')
            env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier,
                       PYTHONHASHSEED='0', PYTHONPATH=VERIF,
                       PYTHONDONTWRITEBYTECODE='1')
            procs.append((subprocess.Popen(
                [sys.executable, '-B', os.path.join(VERIF, 'run.py'), pid,
                 '--shard', str(s), str(nshards), out],
                env=env, stdout=log, stderr=log, start_new_session=True),
                out, log.name))
        results = []
        pending = list(procs)
        violation = None
        deadline = time.time() + (840 if tier == 'quick' else 6 * 3600)
        while pending:
            time.sleep(0.05)
            for p in list(pending):
                if p[0].poll() is None:
                    continue
                pending.remove(p)
                if not os.path.exists(p[1]):
                    r = {'error': 'shard died: ' + open(p[2]).read()[-3000:],
                         'evaluations': 0, 'hashes': [], 'samples': [],
                         'labels': {}, 'known': {}, 'violation': None}
                else:
                    r = json.load(open(p[1]))
                results.append(r)
                if r['violation'] and violation is None:
                    violation = r['violation']
            if violation is not None or time.time() > deadline:
                break
        timed_out = pending and violation is None
    finally:
        for p in procs:
            if p[0].poll() is None:
                try:
                    os.killpg(p[0].pid, signal.SIGKILL)
                except OSError:
                    pass
                p[0].wait()
        # the workers are in their own sessions
        _kill_orphans()
        logs = ''
        for p in procs:
            try:
                logs += open(p[2]).read()[-2000:]
            except IOError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)

    hashes = set()
    labels = collections.Counter()
    known = {}
    samples = []
    evals = 0
    errors = []
    for r in results:
        evals += r['evaluations']
        hashes.update(r['hashes'])
        labels.update(r['labels'])
        known.update(r['known'])
        samples += r['samples']
        if r.get('error'):
            errors.append(r['error'])
    wall = time.time() - t0
    samples.sort(key=lambda c: len(canon(c)))
    if len(samples) > 6:
        samples = samples[len(samples) // 2 - 3:len(samples) // 2 + 3]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(hashes),
            'rule': prop.rule,
            'samples': samples or [violation['cases'][-1] if violation else
                                   'none'],
            'labels': dict(sorted(labels.items())),
            'shards': nshards,
        },
        'assumptions': list(prop.assumptions),
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k, text in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if violation:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', '%s-%s.json' % (
            pid, hashlib.sha1(canon(violation['cases']).encode())
            .hexdigest()[:10]))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier,
                       'message': violation['msg'],
                       'unreproduced': violation.get('unreproduced', False),
                       'cases': violation['cases']}, f, indent=1)
        print('case: ' + short(violation['cases'][-1]))
        print('why: ' + short(violation['msg'], 4000))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if timed_out:
        print('check error: time limit')
        return 2
    if errors:
        print('check error (%d shards):\n%s' % (len(errors), errors[0][-4000:]))
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1fs%s' % (
        pid, evals, len(hashes), wall,
        ' (time cap reached)' if any(r.get('capped') for r in results)
        else ''))
    return 0


def _kill_orphans():
    """Kill Jython workers started by killed shards of this run."""
    # workers exit by themselves on stdin EOF (see jy/worker.py)
    return
