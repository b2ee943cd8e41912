from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import gate, model
from pbt.props import c24, c25


@st.composite
def case(draw):
    ids = c25.Ids()
    gw = {'http': 'twisted', 'strict': draw(st.sampled_from([0, 0, 1])),
          'debug': draw(st.sampled_from([0, 0, 0, 1])),
          'expose_request': draw(st.sampled_from([None, 0, 0, 1])),
          'tz': draw(c24.zone), 'tzs': draw(st.integers(0, 1)),
          'log': draw(st.integers(0, 1))}
    gw.update(c25.hooks(draw, ids, draw(st.sampled_from([0, 0, 4]))))
    services = []
    for i in range(draw(st.integers(1, 2))):
        s = {'kind': draw(st.sampled_from(c25.KINDS)), 'prop': 0,
             'base': draw(st.integers(0, 1)), 'late': draw(st.integers(0, 1)),
             'expose': draw(st.sampled_from([None, None, 0, 1])),
             'desc': draw(st.sampled_from([None, 'what it does']))}
        s.update(c25.hooks(draw, ids, draw(st.sampled_from([0, 4]))))
        m = s['m'] = {}
        if s['kind'] not in ('func', 'fixed', 'lambda', 'dyn'):
            for n in draw(st.lists(st.sampled_from(c25.METHS), max_size=3,
                                   unique=True)):
                m[n] = dict(c25.hooks(draw, ids, 4),
                            expose=draw(st.integers(0, 1)))
        services.append(s)
    names = ['a', 'a.b'][:len(services)]
    good = c25.accepted(gw, services)
    https = []
    for _ in range(draw(st.integers(1, 3))):
        ver = draw(st.sampled_from([0, 3]))
        k = draw(st.integers(0, 15))
        if k == 0:
            https.append({'method': draw(st.sampled_from(['GET', 'PUT']))})
            continue
        c = {'ver': ver, 'h': draw(c25.headers(good, ver)), 'b': []}
        if draw(st.integers(0, 15)) == 0:
            c['h'].append(['DescribeService', ['n']])
        for i in range(draw(st.sampled_from([1, 2, 2, 3, 4]))):
            n = draw(st.sampled_from(names))
            k2 = draw(st.integers(0, 9))
            if k2 < 8:
                m = draw(st.sampled_from(c25.METHS + [
                    'echo', 'first', 'pair', 'mutate', 'odd', '_private',
                    'nothing', 'value']))
                if m == 'odd' and draw(st.integers(0, 3)):
                    m = 'echo'
                t = n + '.' + m
            elif k2 < 9:
                t = n
                m = 'swap' if services[names.index(n)]['kind'] == 'fixed' \
                    else 'echo'
            else:
                t, m = 'no.such', 'such'
            if m == 'fail':
                args = [gate.spec_wire(draw(c24.errors))]
            else:
                args = [draw(c24.value(ver, 1, True, ro=True))
                        for _ in range(2 if m in ('swap', 'opt') else
                                       draw(st.integers(0, 2)))]
            rid = '/%d' % (i if draw(st.integers(0, 7)) else 1)
            k3 = draw(st.integers(0, 15))
            if k3 < 9:
                c['b'].append(['call', rid, t, args, 0])
            elif k3 < 14:
                c['b'].append(['ro', rid, 'null', c25.remoting_message(
                    draw, good, t, args, 'id-%d' % i)])
            elif k3 == 14:
                c['b'].append(['ro', rid, 'null', {
                    'cls': draw(st.sampled_from([
                        'CommandMessage', 'AsyncMessage', 'AbstractMessage'])),
                    'f': {'messageId': ['s', 'id-%d' % i],
                          'operation': ['i', draw(st.sampled_from(
                              ['5', '12', '3']))],
                          'headers': ['o', [['DSId', ['s', 'nil']]]]}}])
                if c['b'][-1][3]['cls'] != 'CommandMessage':
                    del c['b'][-1][3]['f']['operation']
            else:
                c['b'].append(['rox', rid, 'null', [draw(st.sampled_from(
                    [['n'], ['s', 'x'], ['i', '3']]))]])
        https.append({'method': 'POST', 'batch': c,
                      'cut': draw(st.integers(1, 40)) if k == 1 else 0})
    c = {'gw': gw, 'services': services, 'https': https,
         'add': [['add', i, n] for i, n in enumerate(names)],
         'ch': draw(st.lists(st.integers(0, 29), min_size=8, max_size=60))}
    return gate.finish(c)


def interleaved(log, rows):
    """Is the log some interleaving of the rows?"""
    seen = set()
    todo = [(0,) * len(rows)]
    best = 0
    while todo:
        at = todo.pop()
        if at in seen:
            continue
        seen.add(at)
        n = sum(at)
        best = max(best, n)
        if n == len(log):
            return None if all(a == len(r) for a, r in zip(at, rows)) else n
        for i, r in enumerate(rows):
            if at[i] < len(r) and model.diff(log[n], r[at[i]]) is None:
                todo.append(at[:i] + (at[i] + 1,) + at[i + 1:])
    return best


class Twisted(Prop):
    modules = ('vals', 'gate')
    quick = 2400
    thorough = 120000
    rule = ('Case: a Twisted gateway with 1-2 services and hooks as in C25, '
            '1-3 HTTP requests at once holding 1-4 AMF or RemoteObject '
            'requests each, some with damaged bodies or another method; '
            'decoding, encoding, authenticators, preprocessors and services '
            'answer at once or later, through Deferreds which fire in '
            'generated order. Non-trivial: two requests reached a service or '
            'a hook and something was deferred.')
    assumptions = ['Twisted is represented by a stub of Deferred, '
                   'DeferredList, maybeDeferred, deferToThread, Failure and '
                   'Resource',
                   'tracebacks are not looked at: Twisted drops them from '
                   'failures']

    def strategy(self, tier):
        return case()

    def check(self, w, case):
        world = gate.World(case)
        for o in case['add']:
            world.add(o[1], o[2])
        https = []
        batches = []
        for i, h in enumerate(case['https']):
            b = data = None
            if 'batch' in h:
                b = gate.Batch(h['batch'], world.tz)
                data = b.data
                if h['cut']:
                    data = data[:-h['cut']]
                for q in b.requests:
                    q.seen = 'http%d' % i
            batches.append(b)
            https.append([h['method'], (data or b'').hex()])
        got = w.call('twisted', gw=case['gw'], services=case['services'],
                     add=case['add'], https=https, ch=case['ch'])
        require(set(got['add']) == {'ok'}, 'services added', got['add'])
        rows = []
        labels = set()
        for i, (h, b, g) in enumerate(zip(case['https'], batches,
                                          got['https'])):
            what = 'http request %d: ' % i
            if b is None:
                require(g['allowed'] == ['POST'], what + 'method', g)
                continue
            require(g['finished'] == 1, what + 'never answered', g)
            require(not g['late'], what + 'answered twice', g)
            if h['cut']:
                labels.add('cut')
                gate.check_http(world.gw, g, 400, False)
                continue
            want = []
            bad = False
            for q in b.requests:
                ev = []
                try:
                    x = gate.run_one(world, q)
                    ev = x[0]
                except gate.Unsendable as e:
                    bad = True
                    x = None
                    ev = e.args[0]
                want.append(x)
                rows.append(ev)
            if bad:
                labels.add('unsendable')
                gate.check_http(world.gw, g, 500, False)
            else:
                gate.check_answers(world, b, g, want)
        n = interleaved(got['log'], rows)
        if n is not None:
            raise Violation('calls made: %s; should be an interleaving of %s '
                            '(agrees as far as %d)' % (got['log'], rows, n))
        if any(c % 5 > 1 for c in case['ch']):
            labels.add('deferred')
        if len(case['https']) > 1:
            labels.add('several')
        return len([r for r in rows if r]) > 1 and 'deferred' in labels, \
            sorted(labels | world.labels)


PROP = Twisted()
PROP.id = 'C37'
