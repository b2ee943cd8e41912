# Python 2 (Jython): record sets among other values.
import pyamf
from pyamf.amf0 import RecordSet

import vals


class Builder(vals.Builder):
    def b_RS(self, r):
        # the record set counts after its columns and rows
        kw = {}
        if r[3] is not None:
            kw['service'] = {'name': r[3]}
        if r[4] is not None:
            kw['id'] = self.build(r[4])
        if r[5] == 'default':
            # filled in place
            o = RecordSet(**kw)
            for l, x in ((o.columns, r[1]), (o.items, r[2])):
                self.c.append(l)
                l.extend(self._items(x[1]))
            self.c.append(o)
            return o
        cols = self.build(r[1])
        rows = self.build(r[2])
        if r[5] == 'set':
            o = RecordSet()
            o.columns = cols
            o.items = rows
            for k, v in kw.items():
                setattr(o, k, v)
        else:
            o = RecordSet(cols, rows, **kw)
        self.c.append(o)
        return o


class Dumper(vals.Dumper):
    def other(self, v):
        if v.__class__ is RecordSet:
            return ['inst', 'RecordSet', self.pairs(v.__dict__)]
        return vals.Dumper.other(self, v)


def dump_all(vs):
    d = Dumper()
    return [d.dump(v) for v in vs]


def decode(ver, data, n):
    dec = pyamf.get_decoder(ver, data)
    return dump_all([dec.readElement() for i in range(n)]), \
        len(data) - dec.stream.tell()


def op_recset(req):
    b = Builder()
    vs = [b.build(r) for r in req['vals']]
    before = dump_all(vs)
    enc = pyamf.get_encoder(req['v'])
    out = {}
    try:
        for v in vs:
            enc.writeElement(v)
    except vals.ERRORS, e:
        return {'enc_error': vals.err(e), 'msg': vals.msg(e)}
    out['changed'] = before != dump_all(vs)
    data = enc.stream.getvalue()
    out['hex'] = data.encode('hex')
    try:
        out['vals'], out['left'] = decode(req['v'], data, len(vs))
    except vals.ERRORS, e:
        out['dec_error'] = vals.err(e)
        out['msg'] = vals.msg(e)
    return out


def op_recdecode(req):
    try:
        v, left = decode(req['v'], req['hex'].decode('hex'), req['n'])
    except vals.ERRORS, e:
        return {'dec_error': vals.err(e), 'msg': vals.msg(e)}
    return {'vals': v, 'left': left}


OPS = {'recset': op_recset, 'recdecode': op_recdecode}
