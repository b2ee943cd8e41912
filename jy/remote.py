# Python 2 (Jython): remoting envelopes.
import pyamf
from pyamf import remoting, util

import vals

FAULT = ('code', 'type', 'details', 'description')


def kwargs(req):
    kw = {}
    if req.get('tz') is not None:
        kw['timezone_offset'] = vals.td(req['tz'])
    if req.get('strict'):
        kw['strict'] = True
    return kw


def build(req):
    env = remoting.Envelope(req['ver'])
    b = vals.Builder()
    for o in req['ops']:
        k = o[0]
        if k == 'h':
            env.headers[o[1]] = b.build(o[3])
            if o[2] is not None:
                env.headers.set_required(o[1], bool(o[2]))
        elif k == 'hr':
            if o[1] in env.headers:
                env.headers.set_required(o[1], bool(o[2]))
        elif k == 'req':
            env[o[1]] = remoting.Request(o[2], [b.build(x) for x in o[3]])
        elif k == 'res':
            env[o[1]] = remoting.Response(b.build(o[3]), o[2])
        elif k == 'fault':
            f = dict((str(x), b.build(y)) for x, y in sorted(o[2].items()))
            env[o[1]] = remoting.Response(remoting.ErrorFault(**f),
                                          remoting.STATUS_ERROR)
        else:
            raise AssertionError(k)
    return env


def dump_msg(name, m):
    if isinstance(m, remoting.Request):
        r = ['req', vals.txt(name), vals.txt(m.target)]
        if isinstance(m.body, list):
            return r + [vals.dump_all(m.body)]
        return r + ['other', vals.dump(m.body)]
    if isinstance(m.body, remoting.BaseFault):
        f = m.body
        return ['fault', vals.txt(name), m.status, f.__class__.__name__,
                ['str', vals.txt(f.level)]] + vals.dump_all(
                    [getattr(f, x) for x in FAULT])
    return ['res', vals.txt(name), m.status, vals.dump(m.body)]


def twin(m, more=''):
    """Another message just like m."""
    if isinstance(m, remoting.Request):
        return remoting.Request(m.target + more, m.body)
    return remoting.Response([m.body] if more else m.body, m.status)


def plain(x):
    """Whether x can be compared: no cycles, nothing like NaN."""
    if isinstance(x, list):
        return not [y for y in x if isinstance(y, list) or not plain(y)]
    return x is None or isinstance(x, (basestring, int, long, bool)) or \
        isinstance(x, float) and x == x


def look(env):
    for n, m in env:
        assert n in env
        assert dict(env.items())[n] is [x for y, x in env if y == n][-1]
        assert env[n] is [x for y, x in env if y == n][0]
    assert u'no such id' not in env
    if len(set(env.keys())) == len(env):
        # an envelope equals the mapping of its messages
        d = dict(env.items())
        same = dict((n, twin(m)) for n, m in env if plain(m.body))
        for n in same:
            m = env[n]
            assert m == same[n] and not m != same[n]
            assert not m == twin(m, 'x') and m != twin(m, 'x')
        if len(same) == len(env):
            assert env == d and not env != d
            assert env == same and not env != same
        if d:
            n = sorted(d)[0]
            assert not env == dict(d, **{'no such id': d[n]})
            del d[n]
            assert not env == d
            d['no such id'] = env[n]
            assert not env == d


def dump(env):
    hs = [[vals.txt(k), int(env.headers.is_required(k)), vals.dump(v)]
          for k, v in sorted(env.headers.items(),
                             key=lambda kv: vals.u8(kv[0]))]
    bodies = [dump_msg(n, m) for n, m in env]
    for n, m in env:
        assert m.envelope is env
        assert m.headers is env.headers
    assert len(env) == len(bodies)
    assert bool(env) == bool(bodies or hs)
    assert env.items() == [(n, m) for n, m in env]
    if len(env) < 40:
        look(env)
    assert [vals.txt(k) for k in env.keys()] == [b[1] for b in bodies]
    return {'ver': env.amfVersion, 'headers': hs, 'bodies': bodies}


def op_envelope(req):
    """Encode an envelope, decode it."""
    env = build(req)
    try:
        s = remoting.encode(env, **kwargs(req))
    except vals.ERRORS, e:
        return {'enc_error': vals.err(e), 'msg': vals.msg(e)}
    out = {'built': dump(env), 'at': s.tell()}
    data = s.getvalue()
    out['hex'] = data.encode('hex')
    for k in ('strict', 'loose'):
        out[k] = decode(data, dict(req, strict=k == 'strict'))
    return out


def decode(data, req):
    s = data
    if req.get('stream'):
        s = util.BufferedByteStream(data)
    try:
        env = remoting.decode(s, **kwargs(req))
    except vals.ERRORS, e:
        return {'error': vals.err(e), 'msg': vals.msg(e)}
    r = dump(env)
    if req.get('stream'):
        r['pos'] = s.tell()
    return r


def op_env_decode(req):
    return decode(req['hex'].decode('hex'), req)


OPS = {'envelope': op_envelope, 'env_decode': op_env_decode}
