# Python 2 (Jython): dates and time zone offsets.
import datetime

import pyamf
from pyamf import remoting, sol, amf3
from pyamf.flex import ArrayCollection
import vals
from vals import err, msg, ERRORS, td, date_us


class FixedTZ(datetime.tzinfo):
    def __init__(self, minutes):
        self.minutes = minutes

    def utcoffset(self, d):
        return datetime.timedelta(minutes=self.minutes)

    def dst(self, d):
        return datetime.timedelta(0)

    def tzname(self, d):
        return 'fixed'


def mk(r):
    if r[0] == 'd':
        return datetime.datetime(*r[1:])
    if r[0] == 'D':
        return datetime.date(*r[1:])
    if r[0] == 'A':         # aware
        return datetime.datetime(*(r[1:-1] + [FixedTZ(r[-1])]))
    if r[0] == 'T':
        return datetime.time(*r[1:])
    raise ValueError(r)


class Holder(object):
    pass


pyamf.register_class(Holder, 'dates.Holder')


def shape(kind, ds):
    if kind == 'list':
        return ds
    if kind == 'twice':
        return ds + ds
    if kind == 'dict':
        return dict(('k%d' % i, d) for i, d in enumerate(ds))
    if kind == 'obj':
        o = Holder()
        o.ds = ds
        o.first = ds[0]
        return o
    if kind == 'ac':
        return ArrayCollection(ds)
    if kind == 'mixed':
        m = pyamf.MixedArray()
        for i, d in enumerate(ds):
            m['x%d' % i if i % 2 else i // 2] = d
        return m
    if kind == 'tuple':
        return (ds[0], [tuple(ds)])
    raise ValueError(kind)


def unshape(kind, v, n):
    """The dates found again, in order."""
    if kind in ('list', 'twice', 'ac'):
        return list(v)
    if kind == 'dict':
        return [v['k%d' % i] for i in range(n)]
    if kind == 'obj':
        return v.ds + [v.first]
    if kind == 'mixed':
        return [v['x%d' % i if i % 2 else i // 2] for i in range(n)]
    if kind == 'tuple':
        return v[1][0] + [v[0]]


def us(d):
    if not isinstance(d, datetime.datetime) or d.tzinfo is not None:
        return repr(d)
    return str(date_us(d))


def op_dates(req):
    ds = [mk(r) for r in req['ds']]
    v = shape(req['shape'], ds)
    tz = td(req['tz'])
    dtz = td(req['dtz'])
    via = req['via']
    out = {}
    try:
        if via in ('amf0', 'amf3', 'amf0+3'):
            ver = 3 if via == 'amf3' else 0
            kw = {'use_amf3': True} if via == 'amf0+3' else {}
            if tz is not None or req['explicit']:
                kw['timezone_offset'] = tz
            e = pyamf.get_encoder(ver, **kw)
            e.writeElement(v)
            data = e.stream.getvalue()
            out['hex'] = data.encode('hex')
            kw = {}
            if dtz is not None or req['explicit']:
                kw['timezone_offset'] = dtz
            d = pyamf.get_decoder(ver, data, **kw)
            res = d.readElement()
        else:
            env = remoting.Envelope(3 if via == 'remoting3' else 0)
            env['/1'] = remoting.Response(v)
            env.headers['when'] = ds[0]
            data = remoting.encode(env, strict=True,
                                   timezone_offset=tz).getvalue()
            env = remoting.decode(data, strict=True, timezone_offset=dtz)
            res = env['/1'].body
            out['header'] = us(env.headers['when'])
    except ERRORS, e:
        return {'error': err(e), 'msg': msg(e)}
    out['us'] = [us(d) for d in unshape(req['shape'], res, len(ds))]
    return out


OPS = {'dates': op_dates}
