# Python 2 (Jython): Flex proxies, on or off at either end.
import pyamf
from pyamf import amf3

import vals


class Prox(object):
    class __amf__:
        proxy = ('p', 'q')


class Sub(Prox):
    class __amf__:
        static = ('q', 'z')
        proxy = ('r',)


for c, a in ((Prox, 'org.test.Prox'), (Sub, 'org.test.ProxSub')):
    pyamf.register_class(c, a)
    vals.CLASSES[c.__name__] = (c, a)
    vals.NAMES[c] = c.__name__


def coder(f, on, how, *args):
    """on: whether proxies are asked for; how: by argument or by default."""
    if how == 'default':
        amf3.use_proxies_default = bool(on)
        try:
            return f(*args)
        finally:
            amf3.use_proxies_default = False
    return f(*args, **{'use_proxies': bool(on)})


def op_prox(req):
    ver = req['v']
    out = {}
    if 'hex' in req:
        data = req['hex'].decode('hex')
        n = req['n']
    else:
        if 'nodes' in req:
            objs = vals.build_graph(req['nodes'])
            vs = [objs[i] for i in req['roots']]
        else:
            vs = vals.build_all(req['vals'])
        n = len(vs)
        before = vals.dump_all(vs)
        if ver == 3:
            enc = coder(pyamf.get_encoder, req['on'], req['how'], 3)
        else:
            enc = pyamf.get_encoder(0)
        try:
            for v in vs:
                enc.writeElement(v)
        except vals.ERRORS, e:
            return {'enc_error': vals.err(e), 'msg': vals.msg(e)}
        data = enc.stream.getvalue()
        out['hex'] = data.encode('hex')
        out['changed'] = before != vals.dump_all(vs)
    for on in (0, 1):
        if ver == 3:
            dec = coder(pyamf.get_decoder, on, req['how'], 3, data)
        elif on:
            continue
        else:
            dec = pyamf.get_decoder(0, data)
        r = {}
        res = []
        try:
            for i in range(n):
                res.append(dec.readElement())
            r['left'] = len(data) - dec.stream.tell()
            r['vals'] = vals.dump_all(res)
        except vals.ERRORS, e:
            r['error'] = vals.err(e)
            r['msg'] = vals.msg(e)
        out['dec%d' % on] = r
    return out


OPS = {'prox': op_prox}
