import base64

from hypothesis import strategies as st

from pbt.core import Prop
from pbt import gate, gen
from pbt.props.c24 import errors, http, value, zone

KINDS = ['func', 'fixed', 'lambda', 'cls', 'oldcls', 'inst', 'oldinst', 'mod',
         'callinst', 'callcls', 'badcls', 'dyn']
USERS = ['ann', 'bob', '', 'caf\xe9', 'Ann']
WORDS = ['pw', 'x:y', '', '\u20ac', 'pw ']
METHS = ['echo', 'swap', 'opt', 'count', 'fail', 'none']


class Ids(object):
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return self.n


def auth(draw, ids):
    a = {'id': ids.next(), 'ok': [draw(st.sampled_from(USERS[:3])),
                                  draw(st.sampled_from(WORDS[:3]))],
         'good': draw(st.sampled_from(['yes'] * 8 + ['one', 'text', 'none'])),
         'bad': draw(st.sampled_from(['no', 'no', 'none', 'zero'])),
         'exp': draw(st.sampled_from([0, 0, 1]))}
    if draw(st.integers(0, 11)) == 0:
        a['raise'] = draw(errors)
    return a


def pre(draw, ids):
    p = {'id': ids.next(), 'exp': draw(st.sampled_from([0, 0, 1]))}
    if draw(st.integers(0, 7)) == 0:
        p['raise'] = draw(errors)
    return p


def hooks(draw, ids, often):
    h = {}
    if draw(st.integers(0, 9)) < often:
        h['auth'] = auth(draw, ids)
    if draw(st.integers(0, 9)) < often:
        h['pre'] = pre(draw, ids)
    return h


def accepted(gw, services):
    """Pairs some authenticator accepts."""
    out = []
    for s in [gw] + services + [m for s in services
                                for m in s.get('m', {}).values()]:
        if s.get('auth'):
            out.append(s['auth']['ok'])
    return out


@st.composite
def creds(draw, good):
    """[user recipe, password recipe] or None"""
    k = draw(st.integers(0, 9))
    if k == 0:
        return None
    if k < 8 and good:
        u, p = draw(st.sampled_from(good))
        if k == 7:
            if draw(st.integers(0, 1)):
                u = draw(st.sampled_from([u.upper(), u + ' ', '']))
            else:
                p = draw(st.sampled_from([p.upper(), p + ' ', '']))
    else:
        u, p = draw(st.sampled_from(USERS)), draw(st.sampled_from(WORDS))
    return [u, p]


@st.composite
def headers(draw, good, ver, what='Credentials'):
    c = draw(creds(good))
    if c is None:
        return []
    r = ['o', [['userid', ['s', c[0]]], ['password', ['s', c[1]]]]]
    k = draw(st.integers(0, 24))
    if k == 0:
        r = ['o', [['userid', ['s', c[0]]]]]
    elif k == 1:
        r = draw(st.sampled_from([['n'], ['s', 'ann'], ['i', '3'],
                                  ['l', [['s', 'ann'], ['s', 'pw']]]]))
    elif k == 2:
        r[1][0][1] = draw(st.sampled_from([['n'], ['i', '1'], ['b', 1]]))
    elif k == 3:
        r[1].append(['more', ['s', 'x']])
    elif k == 4 and ver == 0:
        r = ['M', r[1]]
    out = [['Credentials', r]]
    if draw(st.integers(0, 19)) == 0:
        out[0][0] = draw(st.sampled_from(['credentials', 'Credential']))
    return out


def text(s):
    return ['s', s]


def remoting_message(draw, good, target, args, mid):
    """A RemotingMessage with its own credentials, perhaps."""
    dest, _, op = target.rpartition('.')
    f = {'messageId': text(mid), 'body': ['l', args], 'operation': text(op)}
    if dest:
        f['destination'] = text(dest)
    hs = []
    if draw(st.integers(0, 1)):
        c = draw(creds(good))
        if c is not None:
            t = base64.b64encode((':'.join(c)).encode('utf-8')).decode()
            if draw(st.integers(0, 9)) == 0:
                t = draw(st.sampled_from(
                    ['', base64.b64encode(b'nocolon').decode()]))
            hs.append(['DSRemoteCredentials', text(t)])
    f['headers'] = ['o', hs]
    return {'cls': 'RemotingMessage', 'f': f}


@st.composite
def world(draw):
    ids = Ids()
    gw = {'http': draw(http), 'strict': 0,
          'debug': draw(st.sampled_from([0, 0, 0, 1])),
          'expose_request': draw(st.sampled_from([None, 0, 1])),
          'tz': draw(zone),
          'tzs': draw(st.integers(0, 1)), 'log': draw(st.integers(0, 1))}
    gw.update(hooks(draw, ids, draw(st.sampled_from([0, 4]))))
    services = []
    for i in range(draw(st.integers(1, 2))):
        s = {'kind': draw(st.sampled_from(KINDS)), 'prop': 0,
             'base': draw(st.integers(0, 1)),
             'late': draw(st.integers(0, 1)),
             'expose': draw(st.sampled_from([None, None, 0, 1])),
             'desc': draw(st.sampled_from([None, 'what it does',
                                           'caf\xe9']))}
        s.update(hooks(draw, ids, draw(st.sampled_from([0, 5]))))
        m = s['m'] = {}
        if s['kind'] in ('func', 'fixed', 'lambda', 'callinst', 'callcls'):
            if draw(st.integers(0, 1)):
                m[''] = dict(hooks(draw, ids, 5),
                             expose=draw(st.integers(0, 1)))
        if s['kind'] not in ('func', 'fixed', 'lambda', 'dyn'):
            for n in draw(st.lists(st.sampled_from(METHS), max_size=4,
                                   unique=True)):
                m[n] = dict(hooks(draw, ids, 6),
                            expose=draw(st.integers(0, 1)))
        services.append(s)
    names = ['a', 'a.b'][:len(services)]
    if draw(st.integers(0, 3)) == 0:
        names[0] = 'echo'
    ops = [['add', i, n] for i, n in enumerate(names)]
    good = accepted(gw, services)
    for _ in range(draw(st.integers(1, 3))):
        ver = draw(st.sampled_from([0, 3]))
        c = {'ver': ver, 'h': draw(headers(good, ver)), 'b': []}
        if draw(st.integers(0, 11)) == 0:
            c['h'].append(['DescribeService', ['n']])
        for i in range(draw(st.integers(1, 4))):
            n = draw(st.sampled_from(names))
            if draw(st.integers(0, 4)):
                m = draw(st.sampled_from(METHS + ['_private', 'nothing',
                                                  'value', 'first']))
                t = n + '.' + m
            else:
                t = n
                m = 'swap' if services[names.index(n)]['kind'] == 'fixed' \
                    else 'echo'
            if m == 'fail':
                args = [gate.spec_wire(draw(errors))]
            else:
                args = [draw(value(ver, 1, ro=True)) for _ in range(
                    2 if m in ('swap', 'opt') else draw(st.integers(0, 2)))]
            if draw(st.integers(0, 2)):
                c['b'].append(['call', '/%d' % i, t, args, 0])
            else:
                c['b'].append(['ro', '/%d' % i, 'null', remoting_message(
                    draw, good, t, args, 'id-%d' % i)])
        ops.append(['batch', c, ''])
    return gate.finish({'gw': gw, 'services': services, 'ops': ops})


class Hooks(Prop):
    modules = ('vals', 'gate')
    quick = 3000
    thorough = 120000
    rule = ('Case: a gateway with 1-2 services of any kind; authenticators, '
            'preprocessors and request exposure set or not on methods, '
            'services and the gateway (accepting one pair, answering truthy '
            'values which are not True, raising); 1-3 batches of 1-4 '
            'requests, plain and RemoteObject, with right, almost right, '
            'malformed or no credentials. The order of every hook and call, '
            'what each was passed, and the answers are compared with a '
            'model. Non-trivial: an authenticator was consulted or a '
            'preprocessor ran.')
    assumptions = ['preprocessors of plain AMF calls get the service request '
                   'only (tests of the repository pin this)',
                   'method hooks on names served by __getattr__ alone are '
                   'not claimed']

    def strategy(self, tier):
        return world()

    def check(self, w, case):
        m = gate.run_history(w, case)
        return bool(m.labels & {'accepted', 'rejected'}) or any(
            'pre' in x for x in [case['gw']] + case['services'] + [
                y for s in case['services'] for y in s['m'].values()]), \
            sorted(m.labels) + [case['gw']['http']]


PROP = Hooks()
PROP.id = 'C25'
