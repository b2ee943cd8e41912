import gzip
import urllib.parse

from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model, remref
from pbt.props.c22 import name as header_name

CLASSES = ['Plain', 'Old', 'SD', 'Kid', 'Uni', 'Anon']
ERRORS = {'TypeError': 'TypeError', 'LookupError': 'LookupError',
          'KeyError': 'KeyError', 'IndexError': 'IndexError',
          'NameError': 'NameError', 'ValueError': 'ValueError',
          'Server.Call.Failed':
          'RemotingCallFailed', 'My.Code': 'MyError', 'caf\xe9':
          'MyTypeError'}
AMF = 'application/x-amf'
URL = 'http://example.org/gw'


def value(ver, depth=3, **kw):
    return gen.value(gen.Opts(3 if ver == 3 else 0, xml=False,
                              max_nodes=6, classes=CLASSES, **kw), depth)


def scalar():
    return st.one_of(gen.short_text.map(lambda s: ['s', s]),
                     st.integers(0, 1000).map(lambda n: ['i', str(n)]),
                     st.sampled_from([['n'], ['b', 1], ['b', 0]]))


code = st.one_of(st.sampled_from(sorted(ERRORS) + ['OSError', 'Other', '',
                                                   'typeerror',
                                                   'RemotingError']),
                 gen.short_text).map(lambda s: ['s', s])


@st.composite
def answer(draw, ver):
    """What is said about one request."""
    k = draw(st.integers(0, 15))
    if k < 9:
        return ['val', 0, draw(value(ver))]
    if k < 12:
        f = {'level': ['s', 'error'], 'code': draw(st.one_of(
            code, code, code, st.sampled_from([
                ['n'], ['i', '5'], ['l', []], ['o', [['a', ['n']]]]]))),
            'description': draw(st.one_of(
                gen.short_text.map(lambda s: ['s', s]),
                gen.short_text.map(lambda s: ['s', s]),
                value(ver, 2, refs=False)))}
        for x, y in (('type', gen.short_text.map(lambda s: ['s', s])),
                     ('details', value(ver, 2, refs=False)),
                     ('extra', value(ver, 2, refs=False))):
            if draw(st.integers(0, 2)) == 0:
                f[x] = draw(y)
        for x in ('level', 'code', 'description'):
            if draw(st.integers(0, 9)) == 0:
                del f[x]
        return ['fault', f]
    if k == 12:
        return ['val', 1, draw(value(ver))]
    if k == 13:
        return ['drop']
    if k == 14:
        return ['val', 2, draw(value(ver))]
    return ['twice', draw(value(ver, 2)), draw(value(ver, 2))]


@st.composite
def reply(draw):
    r = draw(st.integers(0, 19))
    if r == 0:
        return {'how': 'urlerror'}
    if r == 1:
        return {'how': 'httperror', 'code': draw(st.sampled_from(
            [400, 401, 403, 404, 405, 500, 503]))}
    ver = draw(st.sampled_from([0, 3]))
    out = {'how': 'ok', 'ver': ver,
           'per': draw(st.lists(answer(ver), min_size=1, max_size=4)),
           'perm': draw(st.integers(0, 119)), 'extra': [], 'h': [],
           'gz': 0, 'ct': AMF, 'cl': draw(st.sampled_from(
               ['exact', 'exact', 'none', 'empty', 'long']))}
    if draw(st.integers(0, 4)) == 0:
        out['extra'] = draw(st.lists(st.tuples(
            st.sampled_from(['/99', '', 'null', '/1 ', '1', '/0', '/01']),
            st.sampled_from([0, 1, 2]), value(ver, 2)).map(list),
            max_size=2))
    if draw(st.integers(0, 4)) == 0:
        out['gz'] = draw(st.sampled_from([1, 1, 2, 3, 4, 5]))
    k = draw(st.integers(0, 14))
    if k == 0:
        out['ct'] = draw(st.sampled_from(
            [None, '', 'text/html', 'application/x-amfx', 'text/x-amf',
             'application/json; application/x-amf', 'x-amf',
             'application/x-am', 'text/html;charset=application/x-amf']))
    elif k == 1:
        out['ct'] = draw(st.sampled_from(
            [AMF + '; charset=utf-8', AMF + ';charset=x', ' ' + AMF + ' ',
             AMF + ' ; a=b']))
    elif k == 2:
        out['cl'] = 'short'
        out['cut'] = draw(st.integers(1, 60))
    elif k == 3:
        out['trunc'] = draw(st.integers(1, 60))
    if draw(st.integers(0, 3)) == 0:
        h = out['h']
        for _ in range(draw(st.integers(1, 2))):
            w = draw(st.integers(0, 3))
            if w == 0:
                h.append(['AppendToGatewayUrl', ['s', draw(st.sampled_from(
                    [';jsessionid=1', '/more', '?x=y', '', '#z']))]])
            elif w == 1:
                h.append(['ReplaceGatewayUrl', ['s', draw(st.sampled_from(
                    ['http://example.net/', 'https://example.org:81/a?b',
                     'http://other/gw']))]])
            elif w == 2:
                ks = draw(st.lists(st.sampled_from(
                    ['h', 'S', 'Credentials', 'tok', 'new']),
                    max_size=2, unique=True))
                h.append(['RequestPersistentHeader', ['m', [
                    [x, draw(scalar())] for x in sorted(ks)]]])
            else:
                h.append([draw(header_name), draw(value(ver, 2))])
    return out


svc_name = st.one_of(st.sampled_from(['a', 'b', 'a.b', 'caf\xe9', 'svc.\u20ac',
                                      'x y', 'flex', 'null', '']),
                     gen.short_text).filter(lambda t: t != '' and not any(
                         t.endswith(x) for _, x in remref.SUFFIX))
method = st.sampled_from([None, 'echo', 'get', 'name', 'execute', 'id', 'a1',
                          'onResult', '__x', 'service'])
hname = st.one_of(st.sampled_from(['h', 'S', 'tok', 'caf\xe9']), header_name)


def args(ver):
    return st.one_of(
        st.lists(value(ver), max_size=3),
        st.lists(st.sampled_from([['s', 'x'], ['s', 'y'], ['i', '7']]),
                 max_size=2))


@st.composite
def history(draw):
    ver = draw(st.sampled_from([0, 3]))
    ops = []
    svcs = []
    wraps = []
    n = draw(st.integers(3, 12))
    bad = st.sampled_from([0] * 19 + [1])
    plan = ['svc'] + [draw(st.sampled_from(
        ['svc', 'call', 'call', 'call', 'call', 'add', 'rm', 'rmp', 'get',
         'single', 'exec', 'exec', 'exec', 'hdr', 'delhdr', 'cred', 'hh',
         'delhh', 'proxy', 'hdr'])) for _ in range(n)] + ['call', 'exec']
    hs, hh = [], []
    for k in plan:
        if k == 'svc':
            auto = draw(st.integers(0, 1)) if svcs else 0
            svcs.append(auto)
            ops.append(['svc', draw(svc_name), auto,
                        draw(st.integers(0, 1))])
        elif k == 'call':
            i = draw(st.integers(0, len(svcs) - 1))
            ops.append(['call', i, draw(method), draw(args(ver)), draw(bad),
                        draw(reply()) if svcs[i] else None])
            if not svcs[i]:
                wraps.append(1)
        elif k == 'add':
            t = draw(st.one_of(svc_name, st.integers(0, len(svcs) - 1)))
            ops.append(['add', t, draw(st.integers(0, 1)), draw(args(ver)),
                        draw(bad)])
            wraps.append(1)
        elif k in ('rm', 'single', 'rmp'):
            if not wraps:
                continue
            i = draw(st.integers(0, len(wraps) - 1))
            if k == 'rm':
                ops.append([k, i])
            elif k == 'single':
                ops.append([k, i, draw(reply())])
            else:
                ops.append([k, i, draw(st.one_of(st.none(), st.lists(
                    st.sampled_from([['s', 'x'], ['s', 'y'], ['i', '7']]),
                    max_size=2)))])
        elif k == 'get':
            ops.append(['get', draw(st.sampled_from(
                ['/1', '/2', '/3', '/4', '/5', '/6', '1', '', '/01']))])
        elif k == 'exec':
            ops.append(['exec', draw(reply())])
        elif k == 'hdr':
            x = draw(hname)
            hs.append(x)
            ops.append(['hdr', x, draw(value(ver, 2)),
                        draw(st.sampled_from([None, 0, 1]))])
        elif k == 'delhdr':
            ops.append(['delhdr', draw(st.sampled_from(hs + ['h', 'tok']))])
        elif k == 'cred':
            ops.append(['cred', draw(gen.short_text), draw(gen.short_text),
                        draw(st.integers(0, 1))])
        elif k == 'hh':
            x = draw(st.sampled_from(['X-A', 'X-B', 'Cookie', 'Content-Type',
                                      'User-Agent']))
            hh.append(x)
            ops.append(['hh', x, draw(st.sampled_from(['1', 'a=b', 'z z']))])
        elif k == 'delhh':
            ops.append(['delhh', draw(st.sampled_from(hh + ['X-A']))])
        elif k == 'proxy':
            if draw(st.integers(0, 3)) == 0:
                ops.append(['proxy', draw(st.sampled_from(
                    ['127.0.0.1:3128', 'proxy.test:80']))])
    return {'ver': draw(st.sampled_from([ver, ver, ver, None])) if ver == 0
            else ver, 'strict': draw(st.sampled_from([0, 0, 1])),
            'log': draw(st.sampled_from([0, 0, 1])),
            'user_agent': draw(st.sampled_from([None, None, 'MyApp/1'])),
            'referer': draw(st.sampled_from([None, None, 'client.py'])),
            'url': URL, 'ops': ops}


ANY = object()
REMOTING = object()


class Model(object):
    def __init__(self, case):
        self.ver = case['ver'] or 0
        self.strict = case['strict']
        self.case = case
        self.orig = self.url = case['url']
        self.headers = {}       # name -> (recipe, required)
        self.hh = {}
        self.proxy = None
        self.n = 0
        self.svcs = []
        self.reqs = {}          # id -> dict
        self.wraps = []         # ids
        self.pending = []

    def enc(self):
        if self.ver == 3:
            e = model.Enc(3)
            return lambda r: ('amf3', e.enc(r))
        return model.Enc(0).enc

    def new(self, target, key, args, bad):
        self.n += 1
        i = '/%d' % self.n
        self.reqs[i] = {'id': i, 'target': target, 'key': key, 'args': args,
                        'bad': bad}
        self.pending.append(i)
        return i

    def expect_sent(self, ids):
        """-> (headers, bodies) as wires; raises CannotEncode."""
        hs = {}
        for k, (r, q) in self.headers.items():
            hs[k] = (q, self.enc()(model.Refs().parse(r)))
        bs = []
        for i in ids:
            q = self.reqs[i]
            if q['bad']:
                raise model.CannotEncode('bad argument')
            e = self.enc()
            refs = model.Refs()
            bs.append((i, q['target'], [e(refs.parse(x)) for x in
                                        q['args']]))
        return hs, bs

    # ---- the scripted reply

    def reply(self, spec, ids):
        """-> reply for the worker"""
        if spec['how'] != 'ok':
            return {'how': spec['how'], 'code': spec.get('code')}, None
        ver = spec['ver']

        def enc(r):
            r = model.Refs().parse(r)
            if ver == 3:
                return ('amf3', model.Enc(3).enc(r))
            return model.Enc(0).enc(r)

        how = 'exact' if self.strict else None
        bs = []
        try:
            for j, i in enumerate(ids):
                a = spec['per'][j % len(spec['per'])]
                if a[0] == 'val':
                    bs.append(['res', i, a[1], enc(a[2]), how, 'null'])
                elif a[0] == 'twice':
                    for x in a[1:]:
                        bs.append(['res', i, 0, enc(x), how, 'null'])
                elif a[0] == 'fault':
                    bs.append(['res', i, 1, enc(['o', [
                        [k, v] for k, v in sorted(a[1].items())]]), how,
                        'null'])
            for i, s, x in spec['extra']:
                bs.append(['res', i, s, enc(x), how, 'null'])
            hs = [[n, 0, enc(v), how] for n, v in spec['h']]
        except model.CannotEncode:
            return None, None
        # any order
        p = spec['perm']
        order = []
        left = list(bs)
        while left:
            p, x = divmod(p, len(left))
            order.append(left.pop(x))
        data = remref.write(ver, hs, order)
        if spec.get('trunc'):
            data = data[:-spec['trunc']]
        head = []
        if spec['ct'] is not None:
            head.append(['Content-Type', spec['ct']])
        body = data
        gz = spec['gz']
        if gz:
            head.append(['Content-Encoding', ['gzip', ' GZIP ', 'gzip',
                                              'identity', ''][gz - 1]])
        if gz in (1, 2):
            body = gzip.compress(data, mtime=0)
        elif gz == 3:
            data = None         # said to be compressed, is not
        seen = data
        cl = spec['cl']
        if cl == 'exact':
            head.append(['Content-Length', str(len(body))])
        elif cl == 'empty':
            head.append(['Content-Length', ''])
        elif cl == 'long':
            head.append(['Content-Length', str(len(body) + 7)])
        elif cl == 'short':
            n = max(0, len(body) - spec['cut'])
            if n == 0:
                n = 1
            head.append(['Content-Length', str(n)])
            seen = None if gz in (1, 2, 3) else data[:n]
        return {'how': 'ok', 'headers': head, 'body': body.hex()}, seen

    def receive(self, spec, seen):
        """What the client makes of the reply: an Env, or ANY or REMOTING
        for an error."""
        if spec['how'] != 'ok':
            return REMOTING
        if spec['ct'] is None or spec['ct'].split(';')[0].strip() != AMF:
            return REMOTING
        if seen is None:
            return ANY
        try:
            p = remref.parse(seen, self.strict)
        except amfref.Bad:
            return ANY
        hs = {}
        for n, q, v, _, _ in p.headers:
            hs[n] = model.Dec(0).dec(v)
        if 'AppendToGatewayUrl' in hs:
            self.orig += hs['AppendToGatewayUrl'][1]
            self.url = self.orig
        elif 'ReplaceGatewayUrl' in hs:
            self.orig = self.url = hs['ReplaceGatewayUrl'][1]
        if 'RequestPersistentHeader' in hs:
            v = hs['RequestPersistentHeader']
            for k, x in v.pairs:
                old = self.headers.get(k, (None, 0))
                self.headers[k] = (recipe(x), old[1])
        out = []
        for b in p.bodies:
            v = model.Dec(0).dec(b.value)
            if b.status == 1 and getattr(v, 'kind', None) == 'obj':
                f = dict(v.pairs)
                d = model.dump_values([f.get(k, ('str', '')) for k in
                                       ('code', 'details', 'description')])
                out.append([b.id, 1, ['fault'] + d, f])
            else:
                out.append([b.id, b.status, model.dump_values([v])[0], None])
        return out


def norm(r):
    """What equality of plain arguments goes by."""
    if r[0] == 's' or r[0] == 'y' and r[1].isascii():
        return 't' + r[1]
    if r[0] in 'iLb':
        return int(r[1])
    if r[0] == 'f' and r[1] != 'nan':
        return model.h2f(r[1])
    return None


def recipe(v):
    if v[0] == 'str':
        return ['s', v[1]]
    if v[0] == 'int':
        return ['i', v[1]]
    if v[0] == 'bool':
        return ['b', v[1]]
    if v[0] == 'null':
        return ['n']
    return ['f', v[1]]


def check_raised(what, g, f):
    """The exception a fault describes."""
    c = f.get('code', ('str', ''))
    cls = ERRORS.get(c[1] if type(c) is tuple and c[0] == 'str' else None,
                     'RemotingError')
    require(g.get('cls') == cls, what + ' raises', g, cls)
    d = f.get('description', ('str', ''))
    want = [] if d == ('null',) else model.dump_values([d])
    x = model.diff(g['args'], want)
    require(not x, what + ' message', x, g)


class Client(Prop):
    modules = ('vals', 'gate', 'client')
    quick = 3600
    thorough = 150000
    rule = ('Case: a client (either format, strict or not, with or without '
            'logger) goes through 4-14 operations: service proxies made, '
            'calls at once, calls queued, requests removed, looked up, '
            'executed alone or together; AMF and HTTP headers and '
            'credentials set, changed and deleted. A scripted server answers '
            'in any order with values, faults, missing, doubled and unasked '
            'answers, headers, compression, other content types, cut '
            'bodies, HTTP errors. What was sent is read by an independent '
            'parser; outcomes, queue and headers are compared with a model '
            'of the client. Non-trivial: at least two requests were sent '
            'and one got an answer.')
    assumptions = ['the network is a stub handed over as opener',
                   'AMF0 XML is left out (known finding of C01)']

    def strategy(self, tier):
        return history()

    def check(self, w, case):
        m = Model(case)
        ops = []
        plan = []
        # first pass: the queue only, which replies depend on
        for o in case['ops']:
            p = self.simulate(m, o)
            if p is None:
                return False, ['skipped']
            ops.append(p[0])
            plan.append(p[1])
        got = w.call('client', **dict(case, ops=ops))
        stats = {'sent': 0, 'answered': 0}
        labels = set()
        m = Model(case)
        for o, p, g in zip(ops, plan, got):
            self.verify(m, o, p, g, stats, labels)
        return stats['sent'] >= 2 and stats['answered'] >= 1, sorted(labels)

    def simulate(self, m, o):
        """-> (op for the worker, (spec, seen, ids))"""
        k = o[0]
        if k == 'svc':
            m.svcs.append(o)
        elif k == 'call':
            i = m.new(None, None, o[3], o[4])
            if m.svcs[o[1]][2]:
                m.pending.remove(i)
                return self.script(m, o, o[5], [i])
            m.wraps.append(i)
        elif k == 'add':
            m.wraps.append(m.new(None, None, o[3], o[4]))
        elif k == 'rm':
            i = m.wraps[o[1]]
            if i in m.pending:
                m.pending.remove(i)
        elif k == 'rmp':
            # decided in the second pass; ids of a later exec do not matter
            # to which answers are possible
            if o[2] is None:
                args = m.reqs[m.wraps[o[1]]]['args']
                if not all(a[0] in 'siLf' and norm(a) is not None
                           for a in args):
                    args = []
                return ['rmp', o[1], args], None
        elif k == 'single':
            i = m.wraps[o[1]]
            return self.script(m, o, o[2], [i])
        elif k == 'exec':
            ids = list(m.pending)
            m.pending = []
            return self.script(m, o, o[1], ids)
        return o, None

    def script(self, m, o, spec, ids):
        r, seen = m.reply(spec, ids)
        if r is None:
            return None
        o = list(o)
        o[{'call': 5, 'single': 2, 'exec': 1}[o[0]]] = r
        return o, (spec, seen)

    def verify(self, m, o, p, g, stats, labels):
        k = o[0]
        what = '%s %s' % (k, o[1:3])
        labels.add(k)
        if k not in ('call', 'single', 'exec'):
            require(g['sent'] == [], what + ' sent something')
        if k == 'svc':
            require('error' not in g, what, g)
            m.svcs.append(o)
        elif k == 'call':
            s = m.svcs[o[1]]
            t = s[1] if o[2] is None else '%s.%s' % (s[1], o[2])
            i = m.new(t, len(m.reqs),
                      o[3], o[4])
            if s[2]:
                m.pending.remove(i)
                self.executed(m, what, [i], p, g, stats, labels, 'call')
            else:
                require(g.get('id') == i, what + ' id', g, i)
                m.wraps.append(i)
        elif k == 'add':
            if isinstance(o[1], int):
                i = m.new(m.svcs[o[1]][1], ('svc', o[1]), o[3], o[4])
            else:
                i = m.new(o[1], ('name', o[1], o[1].isascii() or o[2]),
                          o[3], o[4])
            require(g.get('id') == i, what + ' id', g, i)
            m.wraps.append(i)
        elif k == 'rm':
            i = m.wraps[o[1]]
            self.maybe(i in m.pending, what, g, 'LookupError')
            if i in m.pending:
                m.pending.remove(i)
        elif k == 'rmp':
            q = m.reqs[m.wraps[o[1]]]
            args = o[2]
            hit = [i for i in m.pending if m.reqs[i]['key'] == q['key'] and
                   [norm(a) for a in m.reqs[i]['args']] ==
                   [norm(a) for a in args] and not m.reqs[i]['bad']]
            self.maybe(bool(hit), what, g, 'LookupError')
            if hit:
                m.pending.remove(hit[0])
        elif k == 'get':
            self.maybe(o[1] in m.pending, what, g, 'LookupError')
            if o[1] in m.pending:
                require(g['id'] == o[1] and
                        g['same'] == [m.wraps.index(o[1])], what, g)
        elif k == 'single':
            i = m.wraps[o[1]]
            if i in m.pending:
                m.pending.remove(i)
                self.executed(m, what, [i], p, g, stats, labels, 'single')
            else:
                require(g.get('error') == 'LookupError' and not g['sent'],
                        what + ' of a request not pending', g)
        elif k == 'exec':
            ids = m.pending
            m.pending = []
            self.executed(m, what, ids, p, g, stats, labels, 'exec')
        elif k == 'hdr':
            require('error' not in g, what, g)
            m.headers[o[1]] = (o[2], int(o[3] or 0))
        elif k == 'delhdr':
            self.maybe(o[1] in m.headers, what, g, 'KeyError')
            m.headers.pop(o[1], None)
        elif k == 'cred':
            require('error' not in g, what, g)
            m.headers['Credentials'] = (
                ['m', [['userid', ['s', o[1]]], ['password', ['s', o[2]]]]],
                1)
        elif k == 'hh':
            m.hh[o[1]] = o[2]
        elif k == 'delhh':
            self.maybe(o[1] in m.hh, what, g, 'KeyError')
            m.hh.pop(o[1], None)
        elif k == 'proxy':
            m.proxy = o[1]
        require(g['pending'] == m.pending, 'requests pending after ' + what,
                g['pending'], m.pending)

    def maybe(self, ok, what, g, err):
        if ok:
            require('error' not in g, what + ' refused', g)
        else:
            require(g.get('error') == err, what + ' not refused', g)

    def executed(self, m, what, ids, p, g, stats, labels, how):
        spec, seen = p
        try:
            hs, bs = m.expect_sent(ids)
        except model.CannotEncode:
            require('error' in g and not g['sent'], what +
                    ' of what cannot be encoded', g)
            labels.add('unsendable')
            return
        require(len(g['sent']) == 1, what + ' requests sent', g)
        self.sent(m, what, g['sent'][0], hs, bs)
        stats['sent'] += len(ids)
        r = m.receive(spec, seen)
        if r is REMOTING:
            labels.add('remoting-error')
            require(g.get('remoting'), what + ' should be a remoting error',
                    g, spec)
            return
        if r is ANY:
            labels.add('broken')
            require('error' in g, what + ' of a broken answer', g, spec)
            return
        if how == 'exec':
            require('bodies' in g, what + ' fails', g)
            d = model.diff(g['bodies'], [x[:3] for x in r])
            require(not d, what + ' answers', d, g['bodies'])
            require([e[0] for e in g['each']] == ids, what + ' requests', g)
            for e in g['each']:
                self.delivered(what, e, [x for x in r if x[0] == e[0]],
                               stats, labels)
            return
        mine = [x for x in r if x[0] == ids[0]]
        if not mine:
            labels.add('unanswered')
            require('error' in g, what + ' was not answered', g)
            return
        stats['answered'] += 1
        if how == 'single':
            require('error' not in g, what + ' fails', g)
            require(any(g['status'] == x[1] and
                        not model.diff(g['result'], x[2]) for x in mine),
                    what + ' answer', g, mine)
            return
        if any(x[1] == 1 for x in mine):
            labels.add('fault')
            x = mine[0]
            require('error' in g, what + ' should raise', g, x)
            if x[3] is not None:
                check_raised(what, g, x[3])
            else:
                require(g['remoting'], what + ' error without a fault', g)
            return
        require('error' not in g, what + ' fails', g)
        require(any(not model.diff(g['result'], x[2]) for x in mine),
                what + ' result', g, [x[:3] for x in mine])

    def delivered(self, what, e, mine, stats, labels):
        what = '%s: answer to %s' % (what, e[0])
        if not mine:
            require(e[1] == 'none', what + ' was not sent', e)
            labels.add('unanswered')
            return
        stats['answered'] += 1
        if any(x[3] is not None for x in mine):
            labels.add('fault')
            require(e[1] == 'error', what + ' should raise', e)
            check_raised(what, e[2], mine[0][3])
            return
        require(e[1] == 'ok' and any(not model.diff(e[2], x[2])
                                     for x in mine), what, e,
                [x[:3] for x in mine])

    def sent(self, m, what, s, hs, bs):
        require(url(s['url']) == url(m.url), what + ' sent to', s['url'],
                m.url)
        want = {k.lower(): v for k, v in m.hh.items()}
        want['content-type'] = AMF
        if m.case['user_agent']:
            want['user-agent'] = m.case['user_agent']
        else:
            ua = s['headers'].get('user-agent', '')
            require(ua.startswith('PyAMF/'), what + ' user agent', ua)
            want['user-agent'] = ua
        if m.case['referer']:
            want['referer'] = m.case['referer']
        require(s['headers'] == want, what + ' http headers', s['headers'],
                want)
        if m.proxy is not None:
            require(s['proxy'] == [m.proxy, 'http'], what + ' proxy',
                    s['proxy'])
        else:
            require(s['proxy'] is None, what + ' proxy', s['proxy'])
        data = bytes.fromhex(s['data'])
        try:
            p = remref.parse(data, bool(m.strict))
        except amfref.Bad as e:
            raise Violation('%s: what is sent is not a well-formed envelope: '
                            '%s; %s' % (what, e, s['data'][:600]))
        require(p.left == 0, 'bytes follow the envelope', p.left)
        require(p.ver == m.ver, 'version sent', p.ver, m.ver)
        require(sorted(h[0] for h in p.headers) == sorted(hs),
                what + ' headers sent', [h[0] for h in p.headers],
                sorted(hs))
        for n, q, v, stated, size in p.headers:
            require(q == hs[n][0], what + ' required flag of %r' % n, q,
                    hs[n][0])
            d = model.diff(model.dump_wires([v], 0),
                           model.dump_wires([hs[n][1]], 0))
            require(not d, what + ' header %r' % n, d)
        require([(b.kind, b.id) for b in p.bodies] ==
                [('req', b[0]) for b in bs], what + ' requests sent',
                [(b.kind, b.id) for b in p.bodies], [b[0] for b in bs])
        for b, (i, t, a) in zip(p.bodies, bs):
            require(b.target == t, what + ' target of ' + i, b.target, t)
            d = model.diff(model.dump_wires(b.args, 0),
                           model.dump_wires(a, 0))
            require(not d, what + ' arguments of ' + i, d)


def url(u):
    return urllib.parse.urldefrag(u)[0]


PROP = Client()
PROP.id = 'C28'
