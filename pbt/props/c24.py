from hypothesis import strategies as st

from pbt.core import Prop
from pbt import gate, gen, model
from pbt.props.c22 import name as header_name

KINDS = ['func', 'fixed', 'lambda', 'cls', 'oldcls', 'inst', 'oldinst', 'mod',
         'callinst', 'callcls', 'badcls', 'dyn']
NAMES = ['a', 'b', 'a.b', 'a.b.c', 'caf\xe9', 'a.echo', 'svc', 'x y', 'a.',
         '.a', '..', 'None', '_p']
CLASSES = ['Plain', 'Old', 'SD', 'Kid', 'Uni', 'Anon']
zone = st.sampled_from([None, None, None, 0, 3600, -1800, 20700, -43200])
http = st.sampled_from(['wsgi', 'wsgi', 'wsgi', 'django', 'google'])


def value(ver, depth=3, dates=True, ro=False):
    return gen.value(gen.Opts(3 if ver == 3 else 0, xml=False, flex=False,
                              max_nodes=6, classes=CLASSES, dates=dates,
                              mixed=not ro or ver == 3,
                              empty_key=(ver == 0 and not ro)),
                     depth)


errors = st.builds(
    lambda c, a: [c] + a,
    st.sampled_from(['ValueError', 'KeyError', 'TypeError', 'AttributeError',
                     'IOError', 'IndexError', 'CustomError', 'CodedError',
                     'SubCoded',
                     'SubValueError', 'OldError', 'NameError',
                     'UnknownServiceError', 'RemotingError', 'EncodeError',
                     'AssertionError', 'StopIteration', 'GeneratorExit']),
    st.one_of(gen.short_text.map(lambda s: [s]), st.just([]),
              gen.short_text.map(lambda s: [[s]]),
              st.just(['two', 'args']))).filter(
                  # an IOError of two is something else
                  lambda e: not (e[0] == 'IOError' and len(e) > 2))

meth = st.sampled_from(
    ['echo', 'echo', 'echo', 'swap', 'opt', 'none', 'count', 'count', 'fail',
     'fail', 'mutate', 'first', 'pair', 'value', 'sub', 'aprop', '_private',
     '__hidden', '__init__', '__class__', 'nothing', '', 'caf\xe9', 'Echo',
     'echo ', '__call__', '_st', 'None'])


@st.composite
def call(draw, ver, names, ids, dates=True):
    m = draw(meth)
    how = draw(st.integers(0, 17))
    if how < 14:
        t = draw(st.sampled_from(names)) + '.' + m
    elif how in (14, 15):
        t = draw(st.sampled_from(names))
    elif how == 16:
        t = '%s.%s.%s' % (draw(st.sampled_from(names)),
                          draw(st.sampled_from(['sub', 'echo', 'b'])), m)
    else:
        t = draw(st.one_of(gen.short_text, st.sampled_from(NAMES)))
    if t in ('', 'null') or any(t.endswith(s) for s in (
            '/onResult', '/onStatus', '/onDebugEvents')):
        t = 'no.such'
    if m == 'fail' and t.endswith('.fail'):
        args = [gate.spec_wire(draw(errors))]
    else:
        n = 2 if m == 'swap' and draw(st.integers(0, 3)) else \
            draw(st.sampled_from([0, 1, 1, 2, 2, 3]))
        args = [draw(value(ver, 3, dates)) for _ in range(n)]
    form = 1 if ver == 3 and draw(st.integers(0, 4)) == 0 else 0
    return ['call', draw(ids), t, args, form]


def batch(ver, names, headers=True, dates=True):
    ids = st.one_of(st.sampled_from(['/1', '/2', '/3', '', 'null',
                                     'caf\xe9', 'x/onResult']),
                    st.integers(1, 99).map(lambda n: '/%d' % n),
                    gen.short_text)
    hs = st.lists(st.tuples(header_name.filter(
        lambda n: n not in ('Credentials', 'DescribeService')),
        value(ver, 2, dates)).map(list), max_size=2 if headers else 0)
    return st.fixed_dictionaries({
        'ver': st.just(ver), 'h': hs,
        'b': st.lists(call(ver, names, ids, dates), min_size=1, max_size=5)})


@st.composite
def history(draw):
    gw = {'http': draw(http), 'strict': draw(st.sampled_from([0, 0, 1])),
          'debug': draw(st.sampled_from([0, 0, 1])), 'expose_request': 0,
          'tz': draw(zone), 'tzs': draw(st.integers(0, 1)),
          'log': draw(st.integers(0, 1))}
    services = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(KINDS))
        services.append({'kind': k, 'prop': draw(st.integers(0, 1)),
                         'base': draw(st.integers(0, 1))})
    ops = []
    used = {}
    plan = ['add'] * len(services) + ['batch'] + draw(st.lists(
        st.sampled_from(['add', 'add', 'batch', 'batch', 'batch', 'del',
                         'names']), max_size=4)) + ['batch']
    for i, k in enumerate(plan):
        if k == 'add':
            u = i if i < len(services) else \
                draw(st.integers(0, len(services) - 1))
            n = draw(st.sampled_from(NAMES))
            ops.append(['add', u, n])
            used.setdefault(n, u)
        elif k == 'del':
            if draw(st.integers(0, 1)):
                n = draw(st.sampled_from(NAMES))
                ops.append(['del', n, 'name'])
                used.pop(n, None)
            else:
                u = draw(st.integers(0, len(services) - 1))
                ns = [n for n, x in used.items() if x == u]
                if len(ns) > 1:
                    continue
                ops.append(['del', u, 'object'])
                for n in ns:
                    del used[n]
        elif k == 'names':
            ops.append(['names'])
        else:
            ver = draw(st.sampled_from([0, 3]))
            ns = sorted(used) * 4 + NAMES[:2]
            ops.append(['batch', draw(batch(ver, ns)),
                        draw(st.sampled_from(['', '00', '0003000000']))])
    return gate.finish({'gw': gw, 'services': services, 'ops': ops})


class Gateway(Prop):
    modules = ('vals', 'gate')
    quick = 2400
    thorough = 120000
    rule = ('Case: 2-7 operations on a WSGI, Django or App Engine gateway '
            '(add a service of one of 12 kinds, remove one, send a batch of '
            '1-5 calls in either format). Targets name existing and missing '
            'services and public, private, missing and uncallable members; '
            'services log what they are called with, return it, change it, '
            'count, or fail in 17 ways. The answers are read by an '
            'independent parser and compared with a model of the gateway, '
            'and so is the log of calls. Non-trivial: at least two requests '
            'of which one reached a service.')
    assumptions = ['results and exception attributes are values AMF can '
                   'carry', 'AMF0 XML is left out (known finding of C01)',
                   'App Engine is represented by a stub of '
                   'webapp.RequestHandler']

    def strategy(self, tier):
        return history()

    def check(self, w, case):
        m = gate.run_history(w, case)
        reached = m.labels & set(KINDS)
        return (m.requests >= 2 and bool(reached)), \
            sorted(m.labels) + [case['gw']['http']]


PROP = Gateway()
PROP.id = 'C24'
