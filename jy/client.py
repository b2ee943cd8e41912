# Python 2 (Jython): the remoting client against a scripted server.
import mimetools
import urllib2
from StringIO import StringIO

import pyamf
from pyamf import remoting
from pyamf.remoting import client

import vals


class MyError(Exception):
    pass


class MyTypeError(TypeError):
    pass


CODES = {u'My.Code': MyError, u'caf\xe9': MyTypeError}
for _c, _k in CODES.items():
    pyamf.add_error_class(_k, _c)


class Answer(object):
    def __init__(self, headers, body):
        self.m = mimetools.Message(StringIO(''.join(
            '%s: %s\r\n' % (str(k), str(v)) for k, v in headers) + '\r\n'))
        self.f = StringIO(body)

    def info(self):
        return self.m

    def read(self, n=-1):
        return self.f.read(n)


class Server(object):
    """Stands for urlopen; plays one scripted reply."""

    def __init__(self):
        self.sent = []
        self.reply = None

    def __call__(self, r, *args):
        assert not args
        assert r.get_method() == 'POST'
        hs = {}
        for k, v in r.header_items():
            assert k.lower() not in hs
            hs[k.lower()] = vals.txt(v)
        url = r.get_full_url()
        p = None
        if r.has_proxy():
            p = [r.get_host(), r.get_type()]
        self.sent.append({'url': url, 'data': r.get_data().encode('hex'),
                          'headers': hs, 'proxy': p})
        e = self.reply
        if e['how'] == 'urlerror':
            raise urllib2.URLError('no route')
        if e['how'] == 'httperror':
            raise urllib2.HTTPError(url, e['code'], 'refused',
                                    Answer([], '').info(), StringIO('x'))
        return Answer(e['headers'], e['body'].decode('hex'))


def failure(e):
    r = {'error': vals.err(e), 'cls': e.__class__.__name__,
         'remoting': isinstance(e, remoting.RemotingError)}
    try:
        r['args'] = vals.dump_all(list(e.args))
    except vals.ERRORS:
        r['args'] = None
    return r


def body(b):
    if isinstance(b, remoting.BaseFault):
        return ['fault'] + vals.dump_all([b.code, b.details, b.description])
    return vals.dump(b)


def op_client(req):
    server = Server()
    kw = {'opener': server}
    for k in ('user_agent', 'referer'):
        if req.get(k) is not None:
            kw[k] = str(req[k])
    if req.get('strict'):
        kw['strict'] = True
    if req.get('log'):
        import gate
        import logging
        lg = logging.Logger('verif')
        lg.addHandler(gate.NullHandler())
        kw['logger'] = lg
    if req.get('ver') is not None:
        kw['amf_version'] = req['ver']
    gw = client.RemotingService(str(req['url']), **kw)
    svcs = []
    wraps = []
    targets = []
    out = []

    def build(args, bad):
        a = vals.build_all(args)
        if bad:
            a.insert(bad - 1, op_client)
        return a

    for o in req['ops']:
        k = o[0]
        r = {}
        del server.sent[:]
        try:
            if k == 'svc':
                name = o[1]
                if o[3]:
                    name = name.encode('utf-8')
                svcs.append(gw.getService(name, bool(o[2])))
            elif k == 'call':
                s = svcs[o[1]]
                m = s
                if o[2] is not None:
                    m = getattr(s, str(o[2]))
                server.reply = o[5]
                args = build(o[3], o[4])
                x = m(*args)
                if s._auto_execute:
                    r['result'] = vals.dump(x)
                else:
                    wraps.append(x)
                    targets.append(args)
                    r['id'] = vals.txt(x.id)
            elif k == 'add':
                t = o[1]
                if isinstance(t, int):
                    t = svcs[t]
                elif o[2]:
                    t = t.encode('utf-8')
                args = build(o[3], o[4])
                x = gw.addRequest(t, *args)
                wraps.append(x)
                targets.append(args)
                r['id'] = vals.txt(x.id)
            elif k == 'rm':
                gw.removeRequest(wraps[o[1]])
            elif k == 'rmp':
                gw.removeRequest(wraps[o[1]].service, *build(o[2], 0))
            elif k == 'get':
                x = gw.getRequest(o[1])
                assert x.gw is gw
                r['same'] = [i for i, w in enumerate(wraps) if w is x]
                r['id'] = vals.txt(x.id)
            elif k == 'single':
                server.reply = o[2]
                x = gw.execute_single(wraps[o[1]])
                r['status'] = x.status
                r['result'] = body(x.body)
            elif k == 'exec':
                server.reply = o[1]
                ids = [w.id for w in gw.requests]
                env = gw.execute()
                r['bodies'] = [[vals.txt(i), m.status, body(m.body)]
                               for i, m in env]
                r['each'] = []
                for w in wraps:
                    if w.id not in ids:
                        continue
                    try:
                        m = env[w.id]
                    except KeyError:
                        r['each'].append([vals.txt(w.id), 'none'])
                        continue
                    try:
                        w.setResponse(m)
                        r['each'].append([vals.txt(w.id), 'ok',
                                          body(w.result)])
                    except vals.ERRORS, e:
                        r['each'].append([vals.txt(w.id), 'error',
                                          failure(e)])
            elif k == 'hdr':
                kw = {}
                if o[3] is not None:
                    kw['must_understand'] = bool(o[3])
                gw.addHeader(o[1], vals.build(o[2]), **kw)
            elif k == 'delhdr':
                del gw.headers[o[1]]
            elif k == 'cred':
                u, p = o[1], o[2]
                if o[3]:
                    u, p = u.encode('utf-8'), p.encode('utf-8')
                gw.setCredentials(u, p)
            elif k == 'hh':
                gw.addHTTPHeader(str(o[1]), str(o[2]))
            elif k == 'delhh':
                gw.removeHTTPHeader(str(o[1]))
            elif k == 'proxy':
                gw.setProxy(str(o[1]))
            else:
                raise AssertionError(k)
        except vals.ERRORS, e:
            if isinstance(e, AssertionError):
                raise
            r = failure(e)
            if k in ('call', 'single', 'exec'):
                r['msg'] = vals.msg(e)
        r['sent'] = list(server.sent)
        r['pending'] = [vals.txt(x.id) for x in gw.requests]
        out.append(r)
    return out


OPS = {'client': op_client}
