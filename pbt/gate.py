"""Independent model of a gateway: which service a target names, which hooks
run, what is called and what each caller is answered."""
import base64
import binascii
import uuid

from . import amfref, flexmsg, model, remref
from .core import Violation, require

NS = 'flex.messaging.messages.'
METHODS = ('echo', 'swap', 'opt', 'none', 'count', 'fail', 'mutate', 'odd',
           'first', 'pair')
CLASSES = ('cls', 'oldcls', 'badcls', 'callcls')
STATIC = ['body', 'clientId', 'destination', 'headers', 'messageId',
          'timestamp', 'timeToLive']
MSG = {
    'RemotingMessage': STATIC + ['operation', 'source'],
    'CommandMessage': STATIC + ['correlationId', 'operation'],
    'AsyncMessage': STATIC + ['correlationId'],
    'AcknowledgeMessage': STATIC + ['correlationId'],
    'AbstractMessage': STATIC,
    'ErrorMessage': STATIC + ['correlationId', 'extendedData', 'faultCode',
                              'faultDetail', 'faultString', 'rootCause'],
}
CODES = {'CodedError': 'My.Code', 'SubCoded': 'My.Code',
         'UnknownServiceError': 'Service.ResourceNotFound'}
RNF = 'Service.ResourceNotFound'
MNF = 'Service.MethodNotFound'
INV = 'Service.MethodInvalid'
ANY = object()


class Fault(Exception):
    """The request fails with this code and description (None: not said)."""

    def __init__(self, code, text=None, cls=None):
        Exception.__init__(self, code)
        self.code = code
        self.text = text
        self.cls = cls


class Unsendable(Exception):
    pass


def exception_of(spec):
    """spec: [class, args...] -> Fault"""
    cls, args = spec[0], spec[1:]
    args = [a[0] if isinstance(a, list) else a for a in args]
    text = None
    if not args:
        text = ''
    elif len(args) == 1 and cls != 'KeyError':
        text = args[0]
    return Fault(CODES.get(cls, cls), text, cls)


def spec_wire(spec):
    return ['l', [['s', x] if isinstance(x, str) else
                  ['l', [['s', y] for y in x]] for x in spec]]


def finish(case):
    """Tell fixtures of fixed arity whether they get the http request."""
    for s in case['services']:
        s['exposes'] = {m: int(exposes(case['gw'], s, m))
                        for m in ('', 'swap', 'opt')}
    return case


def exposes(gw, s, meth):
    if s.get('m', {}).get(meth or '', {}).get('expose'):
        return True
    if s.get('expose') is not None:
        return bool(s['expose'])
    if gw.get('expose_request') is None:
        return gw['http'] in ('django', 'twisted')
    return bool(gw['expose_request'])


def hook(gw, s, meth, kind):
    m = '' if meth is None else meth
    if m == '' and meth == '':
        m = '\0'
    h = s.get('m', {}).get(m, {}).get(kind)
    return h or s.get(kind) or gw.get(kind)


class Request(object):
    """What one message of a batch means."""


class World(object):
    def __init__(self, case):
        self.gw = case['gw']
        self.services = case['services']
        self.names = {}
        self.state = {}
        self.tz = self.gw.get('tz') or 0
        self.debug = bool(self.gw.get('debug'))
        self.labels = set()
        # a Twisted gateway: answers come in any order, exceptions come
        # without their tracebacks
        self.tw = self.gw['http'] == 'twisted'

    # ---- registry

    def add(self, u, name):
        if name in self.names:
            return 'RemotingError'
        self.names[name] = u
        return 'ok'

    def remove(self, what, how):
        if how == 'name':
            if what not in self.names:
                return 'NameError'
            del self.names[what]
            return 'ok'
        ns = [n for n, u in self.names.items() if u == what]
        assert len(ns) < 2
        if not ns:
            return 'NameError'
        del self.names[ns[0]]
        return 'ok'

    # ---- one request

    def lookup(self, target):
        if target in self.names:
            return self.names[target], None
        if '.' in target:
            name, meth = target.rsplit('.', 1)
            if name in self.names:
                return self.names[name], meth
        raise Fault(RNF, 'Unknown service ' + target, 'UnknownServiceError')

    def hooks(self, u, meth, target, creds, args, ev):
        """Authentication and preprocessing; adds to ev."""
        s = self.services[u]
        a = hook(self.gw, s, meth, 'auth')
        self.cls('auth' if a else 'open')
        if a:
            c = creds()
            http = [target] if a.get('exp') else None
            ev.append(['auth', a['id'], http, model.dump_values(list(c))])
            if a.get('raise'):
                raise exception_of(a['raise'])
            ok = all(x == ('str', y) for x, y in zip(c, a['ok']))
            if not (ok and a['good'] == 'yes'):
                self.cls('rejected')
                raise Fault('AuthenticationError', 'Authentication failed',
                            'AuthenticationError')
            self.cls('accepted')
        p = hook(self.gw, s, meth, 'pre')
        if p:
            http = [target] if p.get('exp') else None
            ev.append(['pre', p['id'], http, [meth, u],
                       model.dump_values(args)])
            if p.get('raise'):
                raise exception_of(p['raise'])

    def cls(self, l):
        self.labels.add(l)

    def call(self, u, meth, args, target, ev):
        """-> N or tuple; adds the call to ev."""
        s = self.services[u]
        kind = s['kind']
        if kind == 'badcls':
            raise Fault('ValueError', 'no instance', 'ValueError')
        if meth is not None and not meth.isascii():
            raise Fault(ANY)
        if meth is None:
            if kind in ('func', 'lambda', 'callinst', 'callcls'):
                name = 'echo'
            elif kind == 'fixed':
                name = 'swap'
            else:
                raise Fault(MNF)
        elif meth.startswith('_'):
            raise Fault(INV)
        elif kind in ('func', 'lambda', 'fixed'):
            # functions have no methods of their own
            raise Fault(MNF)
        elif kind == 'dyn':
            if meth == 'value':
                raise Fault(MNF)
            name = 'dyn:' + meth
        elif meth in METHODS:
            name = meth
        elif meth in ('value', 'sub'):
            raise Fault(INV)
        elif meth == 'aprop' and s.get('prop') and kind in (
                'inst', 'callinst', 'cls'):
            raise Fault('CustomError', 'prop', 'CustomError')
        else:
            raise Fault(MNF)
        args = list(args)
        if name == 'swap' and len(args) != 2:
            raise Fault('TypeError', None, 'TypeError')
        if name == 'opt':
            if len(args) not in (1, 2):
                raise Fault('TypeError', None, 'TypeError')
            if len(args) == 1:
                args.append(('str', 'dflt'))
        st = {} if kind in CLASSES else self.state.setdefault(u, {})
        st['n'] = 1 if self.tw else st.get('n', 0) + 1
        # a copy: what is passed may be changed by the service
        ev.append(['call', u, name, st['n'],
                   [target] if exposes(self.gw, s, meth) else None,
                   model.dump_values(args)])
        self.cls(kind)
        if name == 'none':
            return ('null',)
        if name == 'count':
            return ('int', str(st['n']))
        if name == 'fail':
            raise exception_of(unspec(args[0]))
        if name == 'odd':
            raise Unsendable(ev)
        if name in ('first', 'pair'):
            if not args:
                raise Fault('IndexError', None, 'IndexError')
            if name == 'first':
                return args[0]
            args = [args[0], args[0]]
        if name == 'mutate':
            for a in args:
                k = getattr(a, 'kind', None)
                if k in ('list', 'ac'):
                    a.items.append(('str', 'more'))
                elif k in ('obj', 'mixed'):
                    a.pairs = [p for p in a.pairs if p[0] != 'more'] + [
                        ('more', ('str', 'more'))]
        n = model.N('list')
        n.items = args
        return n

    def run(self, r):
        """-> (events, 'ok', value) or (events, 'fault', Fault)"""
        ev = []
        try:
            u, meth = self.lookup(r.target)
            if r.kind == 'call':
                creds = r.creds()       # looked at in any case
                self.hooks(u, meth, r.seen, lambda: creds, [], ev)
                if r.describe:
                    return ev, 'ok', ('str', self.services[u]['desc']) if \
                        self.services[u].get('desc') is not None else \
                        ('null',)
            else:
                if r.args is None:
                    self.hooks(u, meth, r.seen, r.creds, [], ev)
                    raise Fault('TypeError', None, 'TypeError')
                self.hooks(u, meth, r.seen, r.creds, r.args, ev)
            return ev, 'ok', self.call(u, meth, r.args, r.seen, ev)
        except Fault as f:
            self.cls('fault')
            return ev, 'fault', f


def unspec(n):
    return [x[1] if isinstance(x, tuple) else [y[1] for y in x.items]
            for x in n.items]


# ------------------------------------------------------------ batches

class Batch(object):
    """Builds the bytes of a batch and the requests it holds.

    case: {'ver', 'h': [[name, recipe]], 'b': [message]}, a message being
    ['call', id, target, [recipes], form] or ['ro', id, target, msg]."""

    def __init__(self, c, tz):
        self.c = c
        self.tz = tz
        ver = c['ver']
        self.requests = []
        headers = {}
        hs = []
        for name, r in c['h']:
            w = self.wire(model.Refs().parse(r))
            hs.append([name, 0, w, 'exact'])
            headers[name] = model.Dec(0, tz).dec(w)
        bs = []
        for b in c['b']:
            q = Request()
            q.kind, q.id = b[0], b[1]
            q.seen = b[2]
            d = model.Dec(0, tz)
            if b[0] == 'call':
                q.target = b[2]
                e = self.enc()
                refs = model.Refs()
                if b[4] and ver == 3:
                    # the arguments as one AMF3 array
                    w = model.W('arr')
                    e3 = model.Enc(3, tz)
                    w.dense = [e3.enc(refs.parse(x)) for x in b[3]]
                    ws = ('amf3', w)
                    q.args = d.dec(ws).items
                else:
                    ws = [e(refs.parse(x)) for x in b[3]]
                    q.args = [d.dec(w) for w in ws]
                bs.append(['req', b[1], b[2], ws, 'exact'])
                q.describe = 'DescribeService' in headers
                q.creds = creds0(headers)
            elif b[0] == 'rox':
                # not a message at all
                e = self.enc()
                refs = model.Refs()
                ws = [e(refs.parse(x)) for x in b[3]]
                bs.append(['req', b[1], b[2], ws, 'exact'])
                q.cls = q.mid = q.dsid = None
            else:
                w = self.message(b[3])
                bs.append(['req', b[1], b[2], [w], 'exact'])
                m = (flexmsg.Dec(0) if b[3].get('small') else d).dec(w)
                self.ro(q, b[3], dict(m.pairs) if m.kind in (
                    'inst', 'typed', 'obj') else None, headers)
            self.requests.append(q)
        self.data = remref.write(ver, hs, bs)

    def enc(self):
        if self.c['ver'] == 3:
            e = model.Enc(3, self.tz)
            return lambda r: ('amf3', e.enc(r))
        return model.Enc(0, self.tz).enc

    def wire(self, r):
        return self.enc()(r)

    def message(self, m):
        """m: {'cls', 'f': {field: recipe}}"""
        ver3 = self.c['ver'] == 3
        if m.get('small'):
            return ('amf3', flexmsg.Enc(3).enc(flexmsg.Refs().parse(
                ['msg', m['cls'], 1, list(m['f'].items())])))
        e = model.Enc(3 if ver3 else 0, self.tz)
        refs = model.Refs()
        w = model.W('obj')
        w.cls = NS + m['cls']
        given = dict(m['f'])
        for k in MSG[m['cls']]:
            r = given.pop(k, ['n'])
            w.sealed.append((k, e.enc(refs.parse(r))))
        if m.get('dyn'):
            w.dyn = [(k, e.enc(refs.parse(r))) for k, r in given.items()]
        return ('amf3', w) if ver3 else w

    def ro(self, q, m, fields, headers):
        q.msg = m
        q.fields = fields
        q.mid = fields['messageId']
        if q.mid[0] == 'uuid':
            # the client knows it as text
            q.mid = ('str', str(uuid.UUID(hex=q.mid[1])).upper())
        q.cls = m['cls']
        dest, op = fields['destination'], fields.get('operation')

        def t(x):
            return x[1] if x[0] == 'str' else 'None'
        if q.cls == 'RemotingMessage':
            q.target = '%s.%s' % (t(dest), t(op)) if dest[0] == 'str' and \
                dest[1] else t(op)
            b = fields['body']
            q.args = b.items if getattr(b, 'kind', None) in (
                'list', 'ac') else None
        hs = fields['headers']
        hs = dict(hs.pairs) if getattr(hs, 'kind', None) == 'obj' else {}
        q.dsid = hs.get('DSId')
        c = hs.get('DSRemoteCredentials')
        if c is None or c in (('null',), ('str', '')):
            q.creds = creds0(headers)
        else:
            q.creds = lambda: creds3(c)


def creds0(headers):
    def f():
        if 'Credentials' not in headers:
            return [('null',), ('null',)]
        c = headers['Credentials']
        if getattr(c, 'kind', None) not in ('obj', 'mixed'):
            raise Fault(ANY)
        p = dict(c.pairs)
        if 'userid' not in p or 'password' not in p:
            raise Fault('KeyError', None, 'KeyError')
        return [p['userid'], p['password']]
    return f


def creds3(c):
    try:
        if c[0] != 'str':
            raise Fault(ANY)
        user, pw = base64.b64decode(c[1].encode('ascii'),
                                    validate=True).decode('utf-8').split(
                                        ':', 1)
    except (ValueError, UnicodeError, binascii.Error):
        raise Fault(ANY)
    return [('str', user), ('str', pw)]


# ------------------------------------------------------------ verdicts

def check_http(g, got, want_status, binary):
    """A well-formed http answer."""
    require(got['status'].split(' ')[0] == str(want_status), 'http status',
            got['status'], want_status, bytes.fromhex(got['body'])[:300])
    hs = {}
    for k, v in got['headers']:
        require(k.lower() not in hs, 'header given twice', got['headers'])
        hs[k.lower()] = v
    body = bytes.fromhex(got['body'])
    if 'content-length' in hs:
        require(hs['content-length'] == str(len(body)), 'content length',
                hs['content-length'], len(body))
    if g['http'] == 'wsgi':
        require('content-length' in hs, 'no content length')
    if binary:
        require(hs.get('content-type') == 'application/x-amf',
                'content type', hs)
        require('content-length' in hs, 'no content length')
    return body


def check_batch(world, batch, got):
    """got: what the worker says of the http exchange."""
    ver = batch.c['ver']
    tz = world.tz
    want = []
    unsendable = False
    for q in batch.requests:
        try:
            want.append(run_one(world, q))
        except Unsendable:
            unsendable = True
            want.append(None)
    if unsendable:
        check_http(world.gw, got, 500, False)
        return want
    check_answers(world, batch, got, want)
    events = []
    for x in want:
        events += x[0]
    d = model.diff(got['log'], events)
    require(not d, 'calls made', d, got['log'], events)
    return want


def check_answers(world, batch, got, want):
    ver = batch.c['ver']
    tz = world.tz
    body = check_http(world.gw, got, 200, True)
    strict = bool(world.gw.get('strict'))
    try:
        p = remref.parse(body, strict)
    except amfref.Bad as e:
        raise Violation('the answer is not a well-formed envelope: %s %s' % (
            e, body.hex()[:600]))
    require(p.left == 0, 'bytes follow the answer')
    require(p.ver == ver, 'version answered', p.ver, ver)
    require(p.headers == [], 'headers answered', len(p.headers))
    ids = [(b.kind, b.id) for b in p.bodies]
    require(ids == [('res', q.id) for q in batch.requests],
            'messages answered', ids, [q.id for q in batch.requests])
    for q, b, x in zip(batch.requests, p.bodies, want):
        if not strict:
            require(b.length == 0, 'length', b.length)
        what = 'answer to %s %r' % (q.id, q.seen)
        if ver == 3:
            require(isinstance(b.value, tuple) and
                    b.value[0] in ('amf3',), what + ' not in AMF3')
        v = model.Dec(0, tz).dec(b.value)
        if q.kind == 'call':
            check_call(world, what, b, v, x)
        else:
            check_ro(world, what, q, b, v, x)


def wide(d):
    """Integers too long for AMF3 are numbers there."""
    if isinstance(d, list):
        if len(d) == 2 and d[0] == 'int' and isinstance(d[1], str) and not (
                model.MIN29 <= int(d[1]) <= model.MAX29):
            return ['num', model.f2h(float(int(d[1])))]
        return [wide(x) for x in d]
    return d


def run_one(world, q):
    """-> [events, 'ok' | 'fault', value dump | Fault]"""
    if q.kind == 'call' or q.cls == 'RemotingMessage':
        ev, how, x = world.run(q)
        if how == 'ok':
            x = model.dump_values([x])
        return [ev, how, x]
    world.cls(q.cls or 'no message')
    if q.cls == 'CommandMessage':
        op = q.fields['operation']
        if op[0] in ('int', 'num') and float(op[1] if op[0] == 'int' else
                                             model.h2f(op[1])) == 5:
            return [[], 'ok', [['bool', 1]]]
        if op == ('int', '12'):
            return [[], 'ok', [['null']]]
        return [[], 'fault', Fault('Server.Call.Failed')]
    if q.cls in ('AsyncMessage', 'AcknowledgeMessage', 'ErrorMessage'):
        return [[], 'ok', [['bool', 1]]]
    if q.cls is None:
        return [[], 'fault', Fault(ANY)]
    return [[], 'fault', Fault('Server.Call.Failed')]


def text_of(v):
    return v[1] if isinstance(v, tuple) and v[0] == 'str' else None


def check_call(world, what, b, v, x):
    if x[1] == 'ok':
        require(b.status == 0, what + ' is an error', b.status,
                model.dump_values([v]))
        d = model.diff(model.dump_values([v]), x[2])
        require(not d, what, d)
        return
    f = x[2]
    require(b.status == 1, what + ' should be an error', f.code,
            model.dump_values([v]))
    require(getattr(v, 'kind', None) == 'obj', what + ' is no fault')
    p = dict(v.pairs)
    require(set(p) == {'level', 'code', 'type', 'details', 'description'},
            what + ' members', sorted(p))
    require(p['level'] == ('str', 'error'), what + ' level', p['level'])
    if f.code is not ANY:
        require(p['code'] == ('str', f.code), what + ' code', p['code'],
                f.code)
    if f.text is not None:
        require(p['description'] == ('str', f.text), what + ' description',
                p['description'], f.text)
    else:
        require(text_of(p['description']) is not None,
                what + ' description is no text')
    if not world.debug or f.code == 'AuthenticationError':
        require(p['details'] in (('null',), ('str', '')),
                what + ' gives details', p['details'])
    elif not world.tw:
        ds = p['details']
        require(getattr(ds, 'kind', None) == 'list' and ds.items and
                'Traceback' in (text_of(ds.items[0]) or ''),
                what + ' lacks the traceback', model.dump_values([ds]))
        if f.cls:
            require(any(f.cls in (text_of(l) or '') for l in ds.items),
                    what + ' traceback of something else')


def check_ro(world, what, q, b, v, x):
    ok = x[1] == 'ok'
    require(b.status == (0 if ok else 1), what + ' status', b.status,
            model.dump_values([v]))
    cls = 'AcknowledgeMessage' if ok else 'ErrorMessage'
    # the Python classes are not fixtures of ours: typed
    require(getattr(v, 'kind', None) == 'typed' and v.name == NS + cls,
            what + ' kind of message', getattr(v, 'name', None), cls)
    p = dict(v.pairs)
    need = set(STATIC) | {'correlationId'}
    if not ok:
        need |= {'extendedData', 'faultCode', 'faultDetail', 'faultString',
                 'rootCause'}
    require(set(p) >= need, what + ' members', sorted(p))
    if q.cls is not None:
        d = model.diff(wide(model.dump_values([p['correlationId']])),
                       wide(model.dump_values([q.mid])))
        require(not d, what + ' correlation id', d)
    for k in ('messageId', 'clientId'):
        require(text_of(p[k]), what + ' has no ' + k, p[k])
    require(p['messageId'] != q.mid, what + ' has the id of the request')
    require(p['timestamp'][0] in ('int', 'num'), what + ' timestamp',
            p['timestamp'])
    hs = p['headers']
    require(getattr(hs, 'kind', None) == 'obj', what + ' headers')
    hs = dict(hs.pairs)
    require('DSId' in hs, what + ' headers', sorted(hs))
    if q.dsid not in (None, ('null',), ('str', ''), ('str', 'nil')):
        require(hs['DSId'] == q.dsid, what + ' DSId', hs['DSId'], q.dsid)
    else:
        require(text_of(hs['DSId']) not in ('', 'nil', None),
                what + ' DSId', hs['DSId'])
    if ok:
        # the reply is AMF3 whatever the request was
        d = model.diff(wide(model.dump_values([p['body']])), wide(x[2]))
        require(not d, what, d)
        return
    f = x[2]
    require(p['body'] == ('null',), what + ' has a body')
    if f.code is not ANY:
        require(p['faultCode'] == ('str', f.code), what + ' code',
                p['faultCode'], f.code)
    if f.text is not None:
        require(p['faultString'] == ('str', f.text) or
                not f.text and p['faultString'] == ('null',),
                what + ' text', p['faultString'], f.text)
    if not world.debug:
        for k in ('faultDetail', 'extendedData'):
            require(p[k] == ('null',), what + ' gives ' + k, p[k])
    elif not world.tw:
        t = text_of(p['faultDetail']) or ''
        require('Traceback' in t and (not f.cls or f.cls in t),
                what + ' lacks the traceback', t)


def run_history(w, case):
    """Runs the operations of the case; returns the model."""
    world = World(case)
    ops = []
    plan = []
    for o in case['ops']:
        if o[0] == 'batch':
            b = Batch(o[1], world.tz)
            ops.append(['http', 'POST', b.data.hex(), o[2]])
            plan.append(b)
        else:
            ops.append(o)
            plan.append(None)
    got = w.call('gateway', gw=case['gw'], services=case['services'],
                 ops=ops)
    world.requests = 0
    for o, b, g in zip(case['ops'], plan, got):
        if o[0] == 'add':
            want = world.add(o[1], o[2])
            require(g == want, 'adding service %r' % o[2], g, want)
        elif o[0] == 'del':
            want = world.remove(o[1], o[2])
            require(g == want, 'removing service', o, g, want)
        elif o[0] == 'names':
            require(g == sorted(world.names, key=lambda n: n.encode('utf-8')),
                    'services registered', g, sorted(world.names))
        else:
            world.requests += len(b.requests)
            check_batch(world, b, g)
    return world
