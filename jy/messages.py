# Python 2 (Jython): Flex messages in full and compact form.
import uuid

import pyamf
from pyamf.flex import messaging

import vals


class Builder(vals.Builder):
    def b_msg(self, r):
        # ['msg', class, how, {field: recipe}]; how 0: as it is, 1: made by
        # getSmallMessage, 2: the compact class itself
        kind, how, fields = r[1:4]
        cls = getattr(messaging, kind + ('Ext' if how == 2 else ''))
        o = cls()
        kw = {}
        i = len(self.c)
        self.c.append(o)
        for k, v in fields:
            x = self.build(v)
            kw[str(k)] = x
            setattr(o, str(k), x)
        if len(r) > 4 and r[4]:
            o = cls(**kw)
            self.c[i] = o
        if how == 1:
            before = dict(o.__dict__)
            s = o.getSmallMessage()
            assert s is not o and o.__dict__ == before
            for k, v in before.items():
                assert getattr(s, k) is v, (k, v)
            assert s.__class__ is getattr(messaging, kind + 'Ext'), s
            o = s
            self.c[i] = o
        return o

    def b_U(self, r):
        return uuid.UUID(hex=str(r[1]))


class Dumper(vals.Dumper):
    def other(self, v):
        if isinstance(v, messaging.AbstractMessage):
            return ['inst', v.__class__.__name__, self.pairs(v.__dict__)]
        return vals.Dumper.other(self, v)

    def dump(self, v):
        if type(v) is uuid.UUID:
            return ['uuid', v.hex]
        return vals.Dumper.dump(self, v)


def dump_all(vs):
    d = Dumper()
    return [d.dump(v) for v in vs]


def read(ver, data, n, out):
    dec = pyamf.get_decoder(ver, data)
    res = []
    try:
        for i in range(n):
            res.append(dec.readElement())
    except vals.ERRORS, e:
        out['dec_error'] = vals.err(e)
        out['msg'] = vals.msg(e)
        out['at'] = len(res)
        return out
    out['left'] = len(data) - dec.stream.tell()
    out['vals'] = dump_all(res)
    return out


def op_send(req):
    ver = req['v']
    b = Builder()
    msgs = [b.build(x) for x in req['vals']]
    before = dump_all(msgs)
    enc = pyamf.get_encoder(ver)
    for m in msgs:
        enc.writeElement(m)
    data = enc.stream.getvalue()
    out = {'hex': data.encode('hex'), 'before': before,
           'after': dump_all(msgs)}
    return read(ver, data, len(msgs), out)


def op_recv(req):
    return read(req['v'], req['hex'].decode('hex'), req['n'], {})


def op_convert(req):
    """Classes without a compact form say so."""
    o = getattr(messaging, req['cls'])()
    try:
        s = o.getSmallMessage()
    except NotImplementedError:
        return 'none'
    return s.__class__.__name__


OPS = {'send': op_send, 'recv': op_recv, 'convert': op_convert}
