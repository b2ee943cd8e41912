from hypothesis import strategies as st

from pbt.core import Prop
from pbt import e2e, gate, gen
from pbt.props.c22 import name as header_name
from pbt.props.c24 import CLASSES, errors, http
from pbt.props.c25 import KINDS, METHS, Ids, accepted, hooks, creds

NAMES = ['a', 'a.b', 'caf\xe9', 'echo', 'x y']


def value(ver, depth=3):
    return gen.value(gen.Opts(ver, xml=False, flex=(ver == 3), max_nodes=8,
                              classes=CLASSES), depth)


@st.composite
def session(draw):
    ids = Ids()
    ver = draw(st.sampled_from([0, 3]))
    gw = {'http': draw(http), 'strict': draw(st.sampled_from([0, 0, 1])),
          'debug': draw(st.sampled_from([0, 0, 0, 1])),
          'expose_request': draw(st.sampled_from([None, 0, 1])),
          'tz': None, 'log': draw(st.integers(0, 1))}
    gw.update(hooks(draw, ids, draw(st.sampled_from([0, 0, 4]))))
    services = []
    for i in range(draw(st.integers(1, 3))):
        s = {'kind': draw(st.sampled_from(KINDS)), 'prop': 0,
             'base': draw(st.integers(0, 1)),
             'late': draw(st.integers(0, 1)),
             'expose': draw(st.sampled_from([None, None, 0, 1])),
             'desc': draw(st.sampled_from([None, 'what it does']))}
        s.update(hooks(draw, ids, draw(st.sampled_from([0, 0, 5]))))
        m = s['m'] = {}
        if s['kind'] in ('func', 'fixed', 'lambda', 'callinst', 'callcls'):
            if draw(st.integers(0, 2)) == 0:
                m[''] = dict(hooks(draw, ids, 5),
                             expose=draw(st.integers(0, 1)))
        if s['kind'] not in ('func', 'fixed', 'lambda', 'dyn'):
            for n in draw(st.lists(st.sampled_from(METHS), max_size=2,
                                   unique=True)):
                m[n] = dict(hooks(draw, ids, 4),
                            expose=draw(st.integers(0, 1)))
        services.append(s)
    good = accepted(gw, services)
    names = draw(st.permutations(NAMES))[:len(services)]
    p = e2e.Plan()
    here = {}
    for i, n in enumerate(names):
        p.ops.append(['add', i, n])
        here[n] = i
    for n in names:
        p.svc(n, draw(st.integers(0, 2)) > 0, draw(st.integers(0, 1)))
    odd = [False]

    def request():
        i = draw(st.integers(0, len(p.svcs) - 1))
        s = services[here.get(p.svcs[i][0], 0)]
        if draw(st.integers(0, 4)) == 0 or s['kind'] in (
                'func', 'fixed', 'lambda') and draw(st.integers(0, 2)):
            m = None
        else:
            m = draw(st.sampled_from(METHS * 3 + [
                'first', 'pair', 'mutate', 'first', 'pair', '_private',
                'nothing', 'value', 'odd', 'sub', '']))
        if m == 'fail':
            return i, m, [gate.spec_wire(draw(errors))]
        n = 2 if m == 'swap' or s['kind'] == 'fixed' else \
            draw(st.sampled_from([0, 1, 1, 2, 2, 3]))
        if m in ('first', 'pair', 'opt'):
            n = max(n, 1)
        return i, m, [draw(value(ver)) for _ in range(n)]

    def late(m):
        if m == 'odd':
            odd[0] = True

    def flush():
        p.exec(not odd[0])
        odd[0] = False

    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.integers(0, 24))
        if k < 9:
            i, m, args = request()
            p.call(i, m, args)
            if not p.svcs[i][1]:
                late(m)
        elif k < 14:
            i, m, args = request()
            late(m)
            n = p.svcs[i][0]
            p.req(n if m is None else n + '.' + m, args)
        elif k < 16:
            flush()
        elif k < 17:
            if p.pending:
                p.rm(draw(st.integers(0, 9)))
        elif k < 20:
            c = draw(creds(good))
            if c:
                p.ops.append(['cred', c[0], c[1], draw(st.integers(0, 1))])
                p.headers.add('Credentials')
        elif k < 21:
            n = draw(st.one_of(header_name, st.just('DescribeService')))
            if n != 'Credentials':
                p.ops.append(['hdr', n, draw(value(ver, 2))])
                p.headers.add(n)
        elif k < 22:
            if p.headers:
                n = draw(st.sampled_from(sorted(p.headers)))
                p.ops.append(['delhdr', n])
                p.headers.discard(n)
        elif k < 23:
            n = draw(st.sampled_from(NAMES))
            if n in here:
                p.ops.append(['del', n])
                del here[n]
        elif k < 24:
            n = draw(st.sampled_from(NAMES))
            u = draw(st.integers(0, len(services) - 1))
            p.ops.append(['add', u, n])
            here.setdefault(n, u)
        elif p.kept:
            p.ops.append(['again', draw(st.sampled_from(p.kept))])
    if p.pending:
        flush()
    return gate.finish({'ver': ver, 'gw': gw, 'services': services,
                        'ops': p.ops})


class EndToEnd(Prop):
    modules = ('vals', 'gate', 'e2e')
    quick = 1500
    thorough = 100000
    rule = ('Case: a client and a gateway joined in one process (WSGI, '
            'Django or App Engine adapter, either format, 1-3 services of 12 '
            'kinds, with authenticators, preprocessors and request exposure) '
            'and 2-9 operations: calls through service proxies, pending '
            'requests, batches, credentials and headers set and dropped, '
            'services added and removed. What each caller gets, what it '
            'raises, and every call and hook on the server are compared with '
            'a model. Non-trivial: a call returned a result.')
    assumptions = ['client and gateway agree on strictness and use UTC',
                   'AMF0 XML is left out (known finding of C01)']

    def strategy(self, tier):
        return session()

    def check(self, w, case):
        r = e2e.run(w, case)
        return 'result' in r.labels, sorted(r.labels | r.world.labels)


PROP = EndToEnd()
PROP.id = 'C34'
