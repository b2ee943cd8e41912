# Python 2 (Jython): XML documents through every entry point that decodes.
import datetime

import pyamf
from pyamf import amf3, remoting, sol
from pyamf.remoting.client import RemotingService
from pyamf.remoting.gateway.wsgi import WSGIGateway

import vals
from vals import mkxml, dumpxml


class Seen(object):
    def __init__(self):
        self.calls = []

    def echo(self, *args):
        self.calls.append(args)
        return len(args)


class FakeMessage(object):
    def __init__(self, headers):
        self.headers = headers

    def getheader(self, name, default=None):
        return self.headers.get(name, default)


class FakeResponse(object):
    def __init__(self, data):
        self.data = data

    def info(self):
        return FakeMessage({'Content-Type': 'application/x-amf'})

    def read(self, n=-1):
        return self.data if n < 0 else self.data[:n]


def decode(entry, data, flags):
    if entry in ('amf0', 'amf3'):
        d = pyamf.get_decoder(int(entry[3]), data, **flags)
        out = []
        while not d.stream.at_eof():
            out.append(d.readElement())
        return out
    if entry == 'decode':
        return list(pyamf.decode(data, encoding=pyamf.AMF3, **flags))
    if entry == 'ba':
        ba = amf3.ByteArray(data)
        ba.compressed = False
        out = []
        while not ba.at_eof():
            out.append(ba.readObject())
        return out
    if entry == 'sol':
        name, values = sol.decode(data)
        return [values[u'v%d' % i] for i in range(len(values))]
    if entry == 'body':
        return list(remoting.decode(data, **flags)['/1'].body)
    if entry == 'response':
        return list(remoting.decode(data, **flags)['/1'].body)
    if entry == 'header':
        return list(remoting.decode(data, **flags).headers['h'])
    if entry == 'wsgi':
        seen = Seen()
        gw = WSGIGateway({'s': seen})
        got = []

        def start(status, headers):
            got.append(status)

        from StringIO import StringIO
        gw({'REQUEST_METHOD': 'POST', 'CONTENT_LENGTH': str(len(data)),
            'wsgi.input': StringIO(data)}, start)
        if seen.calls:
            assert got == ['200 OK'], got
            return list(seen.calls[0])
        raise ValueError('not called %r' % got)
    if entry == 'client':
        cl = RemotingService('http://localhost/',
                             opener=lambda r: FakeResponse(data))
        return list(cl.getService('s').echo())
    raise AssertionError(entry)


def op_xmldec(req):
    """A history of documents received through various entry points."""
    out = []
    for entry, hexed, flags in req['steps']:
        flags = dict((str(k), bool(v)) for k, v in flags.items())
        try:
            r = decode(entry, hexed.decode('hex'), flags)
        except vals.ERRORS, e:
            out.append({'error': vals.err(e), 'msg': vals.msg(e)})
            continue
        out.append({'vals': vals.dump_all(r)})
    return out


def op_xmlrt(req):
    """Element trees through encoding and decoding in each format."""
    out = []
    trees = [mkxml(t) for t in req['trees']]
    before = [dumpxml(t) for t in trees]
    value = [[trees], {u'first': trees[0], u'n': 1}, trees[-1]]
    for how in req['how']:
        if how in ('0', '3'):
            ver = int(how)
            e = pyamf.get_encoder(ver)
            for v in value:
                e.writeElement(v)
            d = pyamf.get_decoder(ver, e.stream.getvalue())
            r = [d.readElement() for v in value]
            left = d.stream.remaining()
        elif how in ('s0', 's3'):
            b = sol.encode(u'x', dict((u'v%d' % i, v)
                                      for i, v in enumerate(value)),
                           encoding=int(how[1]))
            n, r = sol.decode(b.getvalue())
            r = [r[u'v%d' % i] for i in range(3)]
            left = 0
        elif how in ('r0', 'r3'):
            m = remoting.Envelope(int(how[1]))
            m.headers[u'h'] = value
            m[u'/1'] = remoting.Request(u's.echo', value)
            m[u'/2'] = remoting.Response(value)
            b = remoting.encode(m, strict=True)
            m = remoting.decode(b, strict=True)
            assert dump3(m.headers[u'h']) == dump3(m[u'/1'].body)
            assert dump3(m[u'/2'].body) == dump3(m[u'/1'].body)
            r = m[u'/1'].body
            left = 0
        out.append([dump3(r), left])
    return {'out': out, 'before': before, 'after': [dumpxml(t)
                                                    for t in trees]}


def dump3(r):
    a, b, c = r
    assert len(a) == 1 and b['n'] == 1 and len(b) == 2
    return [[dumpxml(t) for t in a[0]], dumpxml(b['first']), dumpxml(c)]


OPS = {'xmldec': op_xmldec, 'xmlrt': op_xmlrt}
