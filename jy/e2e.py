# Python 2 (Jython): the remoting client talking to a gateway in this process.
import mimetools
import urllib2
from StringIO import StringIO

import pyamf
from pyamf import remoting
from pyamf.remoting import client

import gate
import vals


class Base1(Exception):
    pass


class Sub1(Base1):
    pass


class TextCode(Exception):
    _amf_code = u'caf\xe9'


class SubTextCode(TextCode):
    pass


class BytesCode(Exception):
    _amf_code = 'caf\xc3\xa9'


class IntCode(Exception):
    _amf_code = 5


class NoneCode(Exception):
    _amf_code = None


class EmptyCode(Exception):
    _amf_code = u''


class ListCode(Exception):
    _amf_code = [u'x']


class Clash(Exception):
    _amf_code = 'TypeError'


class NoText(Exception):
    def __str__(self):
        raise ValueError('no')


class Uni(Exception):
    def __unicode__(self):
        return u'\u20ac' + self.args[0]


SERVER = [Base1, Sub1, TextCode, SubTextCode, BytesCode, IntCode, NoneCode,
          EmptyCode, ListCode, Clash, NoText, Uni, LookupError, RuntimeError,
          OverflowError, NotImplementedError]
for _c in SERVER:
    gate.ERRORS[_c.__name__] = _c


class Local1(Exception):
    pass


class Local2(Local1):
    pass


class Chatty(ValueError):
    def __init__(self, text):
        ValueError.__init__(self, text)
        self.text = text


class NotError(object):
    pass


class OldNotError:
    pass


LOCAL = {}
for _c in (Local1, Local2, Chatty, NotError, OldNotError, Base1, Sub1,
           ValueError, KeyError, remoting.RemotingError,
           remoting.RemotingCallFailed):
    LOCAL[_c.__name__] = _c
LOCAL['text'] = u'ValueError'
LOCAL['none'] = None


class Answer(object):
    def __init__(self, headers, body):
        self.m = mimetools.Message(StringIO(''.join(
            '%s: %s\r\n' % (str(k), str(v)) for k, v in headers) + '\r\n'))
        self.f = StringIO(body)

    def info(self):
        return self.m

    def read(self, n=-1):
        return self.f.read(n)


def failure(e):
    r = {'cls': e.__class__.__name__, 'msg': vals.msg(e),
         'remoting': isinstance(e, remoting.RemotingError)}
    try:
        r['args'] = vals.dump_all(list(e.args))
    except vals.ERRORS:
        r['args'] = None
    return r


def op_e2e(req):
    saved = dict(pyamf.ERROR_CLASS_MAP)
    try:
        return run(req)
    finally:
        pyamf.ERROR_CLASS_MAP.clear()
        pyamf.ERROR_CLASS_MAP.update(saved)


def run(req):
    world = gate.World(req)
    g = req['gw']
    gw = gate.make_gateway(world, g)
    world.gw = gw

    def opener(r):
        x = gate.send(world, gw, g['http'], r.get_method(), r.get_data())
        code = int(x['status'].split(' ')[0])
        body = x['body'].decode('hex')
        a = Answer(x['headers'], body)
        if code != 200:
            raise urllib2.HTTPError(r.get_full_url(), code, x['status'],
                                    a.info(), StringIO(body))
        return a

    c = client.RemotingService('http://example.org/gw', opener=opener,
                               strict=bool(g.get('strict')),
                               amf_version=req['ver'])
    svcs = []
    wraps = []
    out = []

    def attempt(f):
        try:
            return {'result': vals.dump(f())}
        except vals.ERRORS, e:
            return failure(e)

    for o in req['ops']:
        del world.log[:]
        k = o[0]
        r = {}
        if k == 'add':
            r = gate.add_service(world, gw, req['services'], o)
        elif k == 'del':
            gw.removeService(o[1])
            r = 'ok'
        elif k == 'svc':
            svcs.append(c.getService(o[1].encode('utf-8') if o[3] else o[1],
                                     bool(o[2])))
        elif k == 'call':
            s = svcs[o[1]]
            m = s
            if o[2] is not None:
                m = getattr(s, str(o[2]))
            args = vals.build_all(o[3])
            if s._auto_execute:
                r = attempt(lambda: m(*args))
            else:
                wraps.append(m(*args))
        elif k == 'req':
            wraps.append(c.addRequest(o[1], *vals.build_all(o[2])))
        elif k == 'rm':
            c.removeRequest(wraps[o[1]])
        elif k == 'exec':
            ids = [w.id for w in c.requests]
            try:
                env = c.execute()
            except vals.ERRORS, e:
                r = failure(e)
            else:
                r['n'] = len(env.bodies)
                r['each'] = []
                for w in wraps:
                    if w.id not in ids:
                        continue
                    m = env[w.id]

                    def get():
                        w.setResponse(m)
                        return w.result
                    r['each'].append([vals.txt(w.id), attempt(get)])
        elif k == 'again':
            # what a fault which was kept says now
            b = wraps[o[1]].response.body
            if isinstance(b, remoting.BaseFault):
                r = attempt(b.raiseException)
            else:
                r = attempt(lambda: wraps[o[1]].result)
        elif k == 'cred':
            u, p = o[1], o[2]
            if o[3]:
                u, p = u.encode('utf-8'), p.encode('utf-8')
            c.setCredentials(u, p)
        elif k == 'hdr':
            c.addHeader(o[1], vals.build(o[2]))
        elif k == 'delhdr':
            del c.headers[o[1]]
        elif k == 'err+':
            code = o[2].encode('utf-8') if o[3] else o[2]
            try:
                pyamf.add_error_class(LOCAL[o[1]], code)
                r = 'ok'
            except vals.ERRORS, e:
                r = e.__class__.__name__
        elif k == 'err-':
            x = o[2]
            if o[1] == 'class':
                x = LOCAL[x]
            elif o[1] == 'bytes':
                x = x.encode('utf-8')
            try:
                pyamf.remove_error_class(x)
                r = 'ok'
            except vals.ERRORS, e:
                r = e.__class__.__name__
        elif k == 'errs':
            r = sorted([vals.txt(x), y.__name__]
                       for x, y in pyamf.ERROR_CLASS_MAP.items())
        else:
            raise AssertionError(k)
        if isinstance(r, dict):
            r['log'] = list(world.log)
            r['pending'] = [vals.txt(x.id) for x in c.requests]
        out.append(r)
    return out


OPS = {'e2e': op_e2e}
