# Python 2 (Jython): several threads in the library at once, switched between
# at chosen lines of its source.
import sys
import threading
import time

from java.lang import Class, Object

import pyamf
import classes
import gate
import vals
from pyamf import remoting
from pyamf.flex import messaging
from pyamf.remoting.gateway.wsgi import WSGIGateway
from vals import err, msg, ERRORS

# Jython calls trace functions while holding the monitor of this class, so it
# is what has to be waited on
MON = Class.forName('org.python.core.imp')
HERE = pyamf.__file__.rsplit('/', 1)[0] + '/'


class Sched(object):
    """Runs functions in threads of their own, only one at a time. `plan` =
    [[steps, thread]...]: after so many lines of the library let the other
    thread go on."""

    def __init__(self, funcs, plan):
        self.funcs = funcs
        self.plan = [list(p) for p in plan]
        self.cur = self.plan.pop(0)[1] if self.plan else 0
        self.left = self.plan[0][0] if self.plan else -1
        self.done = set()
        self.steps = [0] * len(funcs)
        self.results = [None] * len(funcs)
        self.switches = 0
        self.stalls = 0

    def tracer(self, i):
        def line(frame, event, arg):
            self.tick(i)
            return line

        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(HERE):
                self.tick(i)
                return line
            return None
        return call

    def give(self, j):
        n = len(self.funcs)
        for k in range(n):
            x = (j + k) % n
            if x not in self.done:
                if x != self.cur:
                    self.switches += 1
                self.cur = x
                break
        Object.notifyAll(MON)

    def tick(self, i):
        if self.cur != i:
            self.wait(i)
        self.steps[i] += 1
        if self.plan:
            self.left -= 1
            if self.left <= 0:
                j = self.plan.pop(0)[1]
                self.left = self.plan[0][0] if self.plan else -1
                if j != i:
                    self.give(j)
                    if self.cur != i:
                        self.wait(i)

    def wait(self, i):
        while self.cur != i:
            seen = (self.cur, sum(self.steps))
            Object.wait(MON, 300)
            if self.cur != i and seen == (self.cur, sum(self.steps)):
                # it waits for something one of us holds
                self.stalls += 1
                self.cur = i

    def run(self, i):
        sys.settrace(self.tracer(i))
        try:
            self.body(i)
        finally:
            sys.settrace(None)

    def body(self, i):
        try:
            self.results[i] = self.funcs[i]()
        except ERRORS, e:
            self.results[i] = {'error': err(e), 'msg': msg(e)}
        except:
            self.results[i] = {'error': repr(sys.exc_info()[:2])[:500]}
        self.finish(i)

    def finish(self, i):
        # a library frame is needed to get hold of the monitor
        self.tracer(i)
        self._finish = i
        sys.settrace(self.closing(i))
        _nothing()

    def closing(self, i):
        def call(frame, event, arg):
            if i not in self.done:
                self.done.add(i)
                if self.cur == i:
                    self.give(i)
            return None
        return call

    def go(self):
        ts = [threading.Thread(target=self.run, args=(i,))
              for i in range(len(self.funcs))]
        for t in ts:
            t.setDaemon(True)
            t.start()
        end = time.time() + 60
        for t in ts:
            t.join(max(0.1, end - time.time()))
        if len(self.done) < len(ts):
            return [r or {'error': 'does not end'} for r in self.results]
        return self.results


def _nothing():
    pass


class Env(object):
    """Classes and a gateway made for one run."""

    def __init__(self, req):
        self.req = req
        specs = req['classes']
        self.u = None
        self.loader = None
        if req.get('loader'):
            specs = [dict(s, reg=None) for s in specs]
        self.u = classes.Universe(specs, req.get('order'))
        if req.get('loader'):
            table = dict((s['alias'], c) for s, c, r in
                         zip(specs, self.u.classes, req['classes'])
                         if r.get('reg'))
            self.loader = lambda name: table.get(name)
            pyamf.register_class_loader(self.loader)
        self.gw = WSGIGateway({
            'echo': lambda *a: list(a),
            'svc': Service,
        }, debug=False)

    def close(self):
        if self.loader:
            pyamf.unregister_class_loader(self.loader)
            for c in self.u.classes:
                try:
                    pyamf.unregister_class(c)
                except pyamf.UnknownClassAlias:
                    pass
        self.u.close()


class Service(object):
    def __init__(self):
        self.seen = []

    def both(self, a, b):
        self.seen.append(a)
        self.seen.append(b)
        return self.seen

    def fail(self, x):
        raise ValueError(x)


def prepare(env, job):
    """-> (function to run in the thread, function -> result afterwards)"""
    ver = job['v']
    k = job['op']
    if k in ('enc', 'http', 'ro'):
        b = classes.CBuilder(env.u)
        vs = [b.build(r) for r in job['vals']]
    if k == 'enc':
        def run():
            e = vals.encoder(ver, job)
            for v in vs:
                e.writeElement(v)
            return e.stream.getvalue()

        def after(r):
            return {'hex': r.encode('hex')}
    elif k == 'dec':
        data = job['hex'].decode('hex')

        def run():
            d = vals.decoder(ver, data, job)
            return [d.readElement() for i in range(job['n'])]

        def after(r):
            return {'vals': classes.dump_all(env.u, r)}
    else:
        body = data = job['hex'].decode('hex')

        def run():
            return gate.send(gate_world(), env.gw, 'wsgi', 'POST', data)

        def after(r):
            e = remoting.decode(r['body'].decode('hex'))
            out = []
            for n, m in e:
                x = m.body
                if isinstance(x, messaging.AbstractMessage):
                    x = [x.__class__.__name__, x.correlationId, x.body,
                         getattr(x, 'faultCode', None),
                         getattr(x, 'faultString', None)]
                elif isinstance(x, remoting.BaseFault):
                    x = [x.code, x.description]
                out.append([n, m.status, classes.dump_all(env.u, [x])])
            return {'status': r['status'], 'answers': out}
    return run, after


class gate_world(object):
    http = None


def request(env, job):
    """The bytes of the request of a http job."""
    b = classes.CBuilder(env.u)
    e = remoting.Envelope(job['v'])
    for i, (target, rs) in enumerate(job['calls']):
        args = [b.build(r) for r in rs]
        if job['op'] == 'ro':
            m = messaging.RemotingMessage(
                operation=target.split('.')[-1], body=args,
                messageId=u'%s-%d' % (job['name'], i))
            if '.' in target:
                m.destination = target.split('.')[0]
            e['/%d' % (i + 1)] = remoting.Request('null', [m])
        else:
            e['/%d' % (i + 1)] = remoting.Request(target, args)
    return remoting.encode(e).getvalue()


def finished(results, afters):
    out = []
    for r, a in zip(results, afters):
        if isinstance(r, dict) and 'error' in r:
            out.append(r)
        else:
            try:
                out.append(a(r))
            except ERRORS, e:
                out.append({'error': 'after: ' + err(e), 'msg': msg(e)})
    return out


def op_threads(req):
    jobs = [dict(j) for j in req['jobs']]
    # what is to be decoded
    for j in jobs:
        env = Env(dict(req, loader=0))
        try:
            if j['op'] == 'dec' and 'hex' not in j:
                b = classes.CBuilder(env.u)
                e = vals.encoder(j['v'], j)
                try:
                    for r in j['vals']:
                        e.writeElement(b.build(r))
                except ERRORS, x:
                    return {'cannot': err(x)}
                j['n'] = len(j['vals'])
                j['hex'] = e.stream.getvalue().encode('hex')
            elif j['op'] in ('http', 'ro'):
                j['vals'] = []
                try:
                    j['hex'] = request(env, j).encode('hex')
                except ERRORS, x:
                    return {'cannot': err(x)}
        finally:
            env.close()
    # each alone
    alone = []
    steps = []
    for j in jobs:
        env = Env(req)
        try:
            run, after = prepare(env, j)
            s = Sched([run], [])
            alone += finished(s.go(), [after])
            steps += s.steps
        finally:
            env.close()
    # all at once
    plan = [[0, req['first'] % len(jobs)]]
    for part, who in req['plan']:
        n = max(steps)
        plan.append([max(1, n * part // 1000), who % len(jobs)])
    env = Env(req)
    try:
        ps = [prepare(env, j) for j in jobs]
        s = Sched([p[0] for p in ps], plan)
        res = finished(s.go(), [p[1] for p in ps])
    finally:
        env.close()
    return {'alone': alone, 'together': res, 'steps': steps,
            'switches': s.switches, 'stalls': s.stalls}


OPS = {'threads': op_threads}
