# Python 2 (Jython): gateways with fixture services, driven over HTTP stubs.
import os
import sys
import types
from StringIO import StringIO

import pyamf
from pyamf import remoting
from pyamf.remoting import gateway
from pyamf.remoting.gateway.wsgi import WSGIGateway

import vals


# ---- errors services raise

class CustomError(Exception):
    pass


class CodedError(Exception):
    _amf_code = 'My.Code'


class SubValueError(ValueError):
    pass


class OldError:
    def __init__(self, *args):
        self.args = args

    def __str__(self):
        return self.args and vals.u8(self.args[0]) or ''


class SubCoded(CodedError):
    pass


ERRORS = {
    'SubCoded': SubCoded,
    'ValueError': ValueError, 'KeyError': KeyError, 'TypeError': TypeError,
    'AttributeError': AttributeError, 'IOError': IOError,
    'IndexError': IndexError, 'CustomError': CustomError,
    'CodedError': CodedError, 'SubValueError': SubValueError,
    'OldError': OldError, 'NameError': NameError,
    'UnknownServiceError': gateway.UnknownServiceError,
    'RemotingError': remoting.RemotingError,
    'EncodeError': pyamf.EncodeError,
    'AssertionError': AssertionError, 'StopIteration': StopIteration,
    'GeneratorExit': GeneratorExit,
}


def throw(spec):
    """spec: [class, args...]; a str argument is a recipe tag 'y'."""
    cls = ERRORS[spec[0]]
    args = []
    for a in spec[1:]:
        if isinstance(a, list):
            a = a[0].encode('utf-8')
        args.append(a)
    raise cls(*args)


# ---- the fixture world

class World(object):
    def __init__(self, spec):
        self.log = []
        self.http = None
        self.gw = None
        self.tw = None          # the event loop of a Twisted gateway
        self.https = []
        self.services = []
        self.counts = {}
        for u, s in enumerate(spec['services']):
            self.services.append(make_service(self, u, s))

    def strip(self, args):
        """(whether the http request was passed, the other arguments)"""
        for i, h in enumerate(self.https):
            if args and args[0] is h:
                return [u'http%d' % i], list(args[1:])
        if args and self.http is not None and args[0] is self.http:
            return self.current(), list(args[1:])
        return None, list(args)

    def current(self):
        """The message being handled as the http request shows it."""
        h = self.http
        if isinstance(h, dict):
            m = h['pyamf.request']
        else:
            m = h.amf_request
        return [vals.txt(m.target)]

    def do(self, u, name, state, args):
        if self.tw is not None:
            return twisted_later(self, self.do1, u, name, state, args)
        return self.do1(u, name, state, args)

    def do1(self, u, name, state, args):
        http, rest = self.strip(args)
        n = state.get('n', 0) + 1
        if self.tw is not None:
            n = 1               # calls come in any order
        state['n'] = n
        self.log.append(['call', u, name, n, http, vals.dump_all(rest)])
        if name == 'none':
            return None
        if name == 'count':
            return n
        if name == 'fail':
            raise throw(rest[0])
        if name == 'mutate':
            # changes what it was given
            for a in rest:
                if isinstance(a, list):
                    a.append(u'more')
                elif isinstance(a, dict):
                    a[u'more'] = u'more'
            return rest
        if name == 'odd':
            return u'zq-secret-zq', throw
        if name == 'first':
            return rest[0]
        if name == 'pair':
            return [rest[0], rest[0]]
        return rest


def twisted_later(world, f, *args):
    """A service or hook which answers at once or with a Deferred."""
    import twstub
    how = world.tw.pick(5)
    if how == 0:
        return f(*args)
    if how == 1:
        # at once, but as a Deferred
        return twstub.maybeDeferred(f, *args)
    d = twstub.Deferred()

    def fire(n):
        if n:
            world.tw.later(fire, n - 1)
            return
        try:
            r = f(*args)
        except:
            d.errback(twstub.Failure())
        else:
            d.callback(r)
    if how == 4:
        # over another Deferred
        world.tw.later(d.callback, None)
        return d.addCallback(lambda _: twisted_later(world, f, *args))
    world.tw.later(fire, how - 2)
    return d


def auth(world, spec):
    """An authenticator: accepts exactly one pair of credentials."""
    def a(*args):
        if world.tw is not None:
            return twisted_later(world, b, *args)
        return b(*args)

    def b(*args):
        http, rest = world.strip(args)
        world.log.append(['auth', spec['id'], http, vals.dump_all(rest)])
        if spec.get('raise'):
            throw(spec['raise'])
        want = spec['ok']
        ok = len(rest) == 2 and rest[0] == want[0] and rest[1] == want[1]
        if not ok:
            return {'no': False, 'none': None, 'zero': 0}[spec['bad']]
        return {'yes': True, 'one': 1, 'text': 'yes', 'none': None}[
            spec['good']]
    if spec.get('exp') and spec.get('at') != 'method':
        return gateway.expose_request(a)
    return a


def pre(world, spec):
    def p(*args):
        if world.tw is not None:
            return twisted_later(world, b, *args)
        return b(*args)

    def b(*args):
        http, rest = world.strip(args)
        sr = rest[0]
        world.log.append(['pre', spec['id'], http, [
            sr.method and vals.txt(sr.method),
            world.services.index(sr.service.service)
            if sr.service.service in world.services else -1],
            vals.dump_all(rest[1:])])
        if spec.get('raise'):
            throw(spec['raise'])
    if spec.get('exp') and spec.get('at') != 'method':
        return gateway.expose_request(p)
    return p


METHODS = {
    # name: arity without http and self, or None
    'echo': None, 'swap': 2, 'opt': None, 'none': None, 'count': None,
    'fail': None, 'mutate': None, 'odd': None, 'first': None, 'pair': None,
}


def make_func(world, u, name, state, bound, expose):
    """A function; `bound`: it gets self first, whose `st` is the state."""
    if name == 'swap':
        # exactly two (and the http request if it is to get one)
        if bound and expose:
            def f(self, h, a, b):
                return world.do(u, name, self.st(), (h, a, b))
        elif bound:
            def f(self, a, b):
                return world.do(u, name, self.st(), (a, b))
        elif expose:
            def f(h, a, b):
                return world.do(u, name, state, (h, a, b))
        else:
            def f(a, b):
                return world.do(u, name, state, (a, b))
    elif name == 'opt':
        if bound and expose:
            def f(self, h, a, b=u'dflt'):
                return world.do(u, name, self.st(), (h, a, b))
        elif bound:
            def f(self, a, b=u'dflt'):
                return world.do(u, name, self.st(), (a, b))
        elif expose:
            def f(h, a, b=u'dflt'):
                return world.do(u, name, state, (h, a, b))
        else:
            def f(a, b=u'dflt'):
                return world.do(u, name, state, (a, b))
    elif bound:
        def f(self, *args):
            return world.do(u, name, self.st(), args)
    else:
        def f(*args):
            return world.do(u, name, state, args)
    f.__name__ = str(name)
    return f


def decorate(world, f, m):
    """m: the hooks of a method."""
    if m.get('auth'):
        s = dict(m['auth'], at='method')
        f = gateway.authenticate(f, auth(world, s), bool(s.get('exp')))
    if m.get('pre'):
        s = dict(m['pre'], at='method')
        f = gateway.preprocess(f, pre(world, s), bool(s.get('exp')))
    if m.get('expose'):
        f = gateway.expose_request(f)
    return f


class Sub(object):
    def echo(self, *args):
        raise AssertionError('nested attribute reached')


def make_service(world, u, s):
    kind = s['kind']
    ms = s.get('m', {})
    exposes = s.get('exposes', {})
    state = {}
    if kind in ('func', 'lambda', 'fixed'):
        name = 'swap' if kind == 'fixed' else 'echo'
        f = make_func(world, u, name, state, False, exposes.get(''))
        if kind == 'lambda':
            g = f
            f = lambda *args: g(*args)
        f = decorate(world, f, ms.get('', {}))
        return f
    if kind == 'mod':
        mod = types.ModuleType('mod%d' % u)
        for n in METHODS:
            f = make_func(world, u, n, state, False, exposes.get(n))
            setattr(mod, n, decorate(world, f, ms.get(n, {})))
        mod._private = lambda *a: world.do(u, '_private', state, a)
        mod.value = 5
        mod.sub = Sub()
        return mod
    d = {}
    for n in METHODS:
        f = make_func(world, u, n, None, True, exposes.get(n))
        if s.get('late'):
            d[n] = f
        else:
            d[n] = decorate(world, f, ms.get(n, {}))
    d['_private'] = lambda self, *a: world.do(u, '_private', self.st(), a)
    d['__hidden'] = lambda self, *a: world.do(u, '__hidden', self.st(), a)
    d['value'] = 5
    d['sub'] = Sub()

    def st(self):
        return self.__dict__.setdefault('_state', {})

    d['st'] = st
    if kind in ('callinst', 'callcls'):
        f = make_func(world, u, 'echo', None, True, exposes.get(''))
        d['__call__'] = f
    if kind == 'badcls':
        def init(self):
            raise ValueError('no instance')
        d['__init__'] = init
    if kind in ('inst', 'callinst', 'cls') and s.get('prop'):
        d['aprop'] = property(lambda self: throw(['CustomError', u'prop']))
    old = kind in ('oldcls', 'oldinst')
    if s.get('base') and not old:
        base = type('Base', (object,), d)
        cls = type('Svc%d' % u, (base,), {})
    elif old:
        cls = types.ClassType('Old%d' % u, (), d)
    else:
        cls = type('Svc%d' % u, (object,), d)
    if s.get('late'):
        for n in METHODS:
            decorate(world, getattr(cls, n), ms.get(n, {}))
    if kind in ('cls', 'oldcls', 'badcls', 'callcls'):
        r = cls
    elif kind == 'dyn':
        class Dyn(object):
            def __getattr__(self, name):
                if name.startswith('_') or name == 'value':
                    raise AttributeError(name)
                return lambda *a: world.do(u, 'dyn:' + name, state, a)
        r = Dyn()
    else:
        r = cls()
    if ms.get('') and kind in ('callinst', 'callcls'):
        m = ms['']
        if m.get('auth'):
            r._pyamf_authenticator = hooked(auth(world, m['auth']))
        if m.get('pre'):
            r._pyamf_preprocessor = hooked(pre(world, m['pre']))
        if m.get('expose'):
            r._pyamf_expose_request = True
    return r


class hooked(object):
    """Callable which is not turned into a method when a class has it."""
    def __init__(self, f):
        self.f = f
        if hasattr(f, '_pyamf_expose_request'):
            self._pyamf_expose_request = True

    def __call__(self, *args):
        return self.f(*args)


# ---- http

class Headers(dict):
    pass


def setup_google():
    """The one class of App Engine the gateway builds on."""
    if 'google.appengine.ext.webapp' in sys.modules:
        return
    mods = {}
    for n in ('google', 'google.appengine', 'google.appengine.ext',
              'google.appengine.ext.webapp'):
        mods[n] = sys.modules[n] = types.ModuleType(n)
        mods[n].__path__ = []
        if '.' in n:
            p, c = n.rsplit('.', 1)
            setattr(mods[p], c, mods[n])

    class RequestHandler(object):
        def initialize(self, request, response):
            self.request = request
            self.response = response

        def error(self, code):
            self.response.status = code
            del self.response.out.buf[:]

    mods['google.appengine.ext.webapp'].RequestHandler = RequestHandler


class GOut(object):
    def __init__(self):
        self.buf = []

    def write(self, s):
        self.buf.append(s)


class GObj(object):
    pass


def setup_django():
    os.environ['DJANGO_SETTINGS_MODULE'] = 'djsettings'
    if 'djsettings' not in sys.modules:
        m = types.ModuleType('djsettings')
        m.SECRET_KEY = 'x'
        m.DEBUG = False
        sys.modules['djsettings'] = m


def make_gateway(world, g):
    kw = {}
    if g.get('auth'):
        kw['authenticator'] = auth(world, g['auth'])
    if g.get('pre'):
        kw['preprocessor'] = pre(world, g['pre'])
    for k in ('strict', 'debug', 'expose_request'):
        if g.get(k) is not None:
            kw[k] = bool(g[k])
    if g.get('tz') is not None:
        # seconds will do, and Django has a setting for it
        kw['timezone_offset'] = g['tz'] if g.get('tzs') else vals.td(g['tz'])
    if g.get('log'):
        import logging
        lg = logging.Logger('verif')
        lg.addHandler(NullHandler())
        kw['logger'] = lg
    if g['http'] == 'django':
        setup_django()
        from pyamf.remoting.gateway.django import DjangoGateway
        if not g.get('tzs'):
            return DjangoGateway(**kw)
        from django.conf import settings
        tz = kw.pop('timezone_offset', None)
        if tz is not None:
            settings.AMF_TIME_OFFSET = tz
        settings.DEBUG = kw.pop('debug', False)
        try:
            return DjangoGateway(**kw)
        finally:
            if tz is not None:
                del settings.AMF_TIME_OFFSET
            settings.DEBUG = False
    if g['http'] == 'google':
        setup_google()
        from pyamf.remoting.gateway.google import WebAppGateway
        return WebAppGateway(**kw)
    if g['http'] == 'twisted':
        import twstub
        twstub.install()
        from pyamf.remoting.gateway.twisted import TwistedGateway
        return TwistedGateway(**kw)
    return WSGIGateway(**kw)


import logging


class NullHandler(logging.Handler):
    """Formats everything, keeps nothing."""
    def emit(self, record):
        self.format(record)


class Input(object):
    """wsgi.input of a connection on which more follows."""
    def __init__(self, data, extra):
        self.f = StringIO(data + extra)
        self.n = len(data)

    def read(self, n=-1):
        assert n >= 0, 'reads without limit'
        assert self.f.tell() + n <= self.n, 'reads beyond its request'
        return self.f.read(n)


def send(world, gw, kind, method, data, extra=''):
    """One http request. -> dict"""
    if kind == 'wsgi':
        starts = []

        def start(status, headers, exc_info=None):
            starts.append([status, headers])
            return None
        env = {'REQUEST_METHOD': method, 'CONTENT_LENGTH': str(len(data)),
               'CONTENT_TYPE': remoting.CONTENT_TYPE,
               'wsgi.input': Input(data, extra)}
        world.http = env
        out = gw(env, start)
        body = ''.join(out)
        assert len(starts) == 1, starts
        status, headers = starts[0]
        assert isinstance(status, str)
        for k, v in headers:
            assert isinstance(k, str) and isinstance(v, str), (k, v)
        return {'status': status, 'headers': headers,
                'body': body.encode('hex')}
    if kind == 'django':
        from django import http
        r = http.HttpRequest()
        r.method = method
        r._stream = StringIO(data)
        r._read_started = False
        world.http = r
        resp = gw(r)
        return {'status': '%d x' % resp.status_code,
                'headers': [[str(k), str(v)] for k, v in resp.items()],
                'body': resp.content.encode('hex')}
    if kind == 'google':
        rq, rs = GObj(), GObj()
        rq.body = data
        rq.method = method
        rs.headers = {}
        rs.out = GOut()
        rs.status = 200
        gw.initialize(rq, rs)
        world.http = rq
        if method == 'POST':
            gw.post()
        else:
            gw.get()
        return {'status': '%d x' % rs.status,
                'headers': sorted([k, v] for k, v in rs.headers.items()),
                'body': ''.join(rs.out.buf).encode('hex')}
    raise AssertionError(kind)


def add_service(world, gw, services, o):
    s = services[o[1]]
    kw = {}
    if s.get('auth'):
        kw['authenticator'] = auth(world, s['auth'])
    if s.get('pre'):
        kw['preprocessor'] = pre(world, s['pre'])
    if s.get('expose') is not None:
        kw['expose_request'] = bool(s['expose'])
    if s.get('desc') is not None:
        kw['description'] = s['desc']
    try:
        gw.addService(world.services[o[1]], o[2], **kw)
    except vals.ERRORS, e:
        return vals.err(e)
    return 'ok'


def op_gateway(req):
    world = World(req)
    g = req['gw']
    gw = make_gateway(world, g)
    world.gw = gw
    if g.get('boom'):
        def boom(*args, **kwargs):
            throw(g['boom'])
        gw.getResponse = boom
    out = []
    for o in req['ops']:
        del world.log[:]
        if o[0] == 'add':
            r = add_service(world, gw, req['services'], o)
        elif o[0] == 'del':
            try:
                gw.removeService(o[1] if o[2] == 'name' else
                                 world.services[o[1]])
                r = 'ok'
            except vals.ERRORS, e:
                r = vals.err(e)
        elif o[0] == 'names':
            r = sorted((vals.txt(k) for k in gw.services), key=vals.u8)
        elif o[0] == 'http':
            r = send(world, gw, g['http'], str(o[1]), o[2].decode('hex'),
                     o[3].decode('hex'))
            r['log'] = list(world.log)
        out.append(r)
    return out


def op_twisted(req):
    """Some http requests at once; what answers when is the case's."""
    import twstub
    twstub.install()
    world = World(req)
    gw = make_gateway(world, req['gw'])
    ch = list(req['ch'])

    def pick(n):
        return ch.pop(0) % n if ch else 0
    world.tw = twstub.use(pick)
    res = [add_service(world, gw, req['services'], o) for o in req['add']]
    unsupported = {}

    def post(i, rq):
        try:
            r = gw.render(rq)
        except twstub.UnsupportedMethod, e:
            unsupported[i] = list(e.allowedMethods)
            return
        assert r == twstub.NOT_DONE_YET, r
    for i, (method, data) in enumerate(req['https']):
        rq = twstub.Request(str(method), StringIO(data.decode('hex')))
        world.https.append(rq)
        world.tw.later(post, i, rq)
    world.tw.run()
    return {'add': res, 'log': world.log, 'https': [
        {'finished': r.finished, 'late': r.late, 'status': '%d x' % r.code,
         'headers': r.headers, 'body': r.body.encode('hex'),
         'allowed': unsupported.get(i)}
        for i, r in enumerate(world.https)]}


OPS = {'gateway': op_gateway, 'twisted': op_twisted}
