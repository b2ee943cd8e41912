# Python 2 (Jython): flex collections and proxies driven by histories.
import pyamf
from pyamf import flex, amf0, amf3, util

import vals


def coded(o):
    """Both encodings of a thing and what they decode to."""
    out = []
    for v in (0, 3):
        for how in ('plain', 'proxies', 'inside'):
            if how == 'proxies' and v == 0:
                continue
            x = o
            if how == 'inside':
                x = [o, {u'k': o}]
            kw = {}
            if how == 'proxies':
                kw['use_proxies'] = True
            try:
                data = pyamf.encode(x, encoding=v, **kw).getvalue()
                r = {'hex': data.encode('hex')}
                y = list(pyamf.decode(data, encoding=v))
                r['n'] = len(y)
                y = y[0]
                if how == 'inside':
                    r['same'] = y[0] is y[1][u'k']
                    y = y[0]
                r['cls'] = y.__class__.__name__
                r['value'] = vals.dump(y)
                if isinstance(y, list):
                    r['list'] = vals.dump(list(y))
            except vals.ERRORS, e:
                r = {'error': vals.err(e), 'msg': vals.msg(e)}
            out.append(r)
    return out


def op_coll(req):
    made = []

    def build(r):
        # ['r', i]: an item made before, the same object
        if r[0] == 'r':
            return made[r[1]]
        x = vals.build(r)
        made.append(x)
        return x

    src = req['source']
    items = [build(r) for r in src[1]]
    out = []
    try:
        k = src[0]
        if k == 'none':
            c = flex.ArrayCollection()
        elif k == 'list':
            c = flex.ArrayCollection(items)
        elif k == 'tuple':
            c = flex.ArrayCollection(tuple(items))
        elif k == 'iter':
            c = flex.ArrayCollection(iter(items))
        elif k == 'gen':
            c = flex.ArrayCollection(x for x in items)
        elif k == 'coll':
            c = flex.ArrayCollection(flex.ArrayCollection(items))
        elif k == 'kw':
            c = flex.ArrayCollection(source=items)
        elif k == 'dict':
            c = flex.ArrayCollection(dict(enumerate(items)))
        else:
            raise AssertionError(k)
    except vals.ERRORS, e:
        return [{'error': vals.err(e)}]
    keep = list(items)

    def ident(x):
        return [i for i, y in enumerate(made) if y is x]

    def state(r):
        # which of the things made each item is, and the items themselves
        r['ids'] = [ident(x) for x in c]
        r['len'] = [c.length, len(c)]
        assert items == keep
        return r

    out.append(state({}))
    for o in req['ops']:
        k = o[0]
        r = {}
        try:
            if k in ('addItem', 'append', 'getItemIndex', 'remove', 'count',
                     'in'):
                x = build(o[1])
                if k == 'in':
                    r['r'] = int(x in c)
                else:
                    r['r'] = getattr(c, k)(x)
            elif k == 'addItemAt':
                r['r'] = c.addItemAt(build(o[1]), o[2])
            elif k == 'setItemAt':
                x = c.setItemAt(build(o[1]), o[2])
                r['r'] = ident(x)
            elif k in ('getItemAt', 'removeItemAt', 'pop'):
                x = getattr(c, k)(*o[1:])
                r['r'] = ident(x)
            elif k == 'removeAll':
                r['r'] = c.removeAll()
            elif k == 'toArray':
                x = c.toArray()
                assert isinstance(x, list)
                r['r'] = [ident(y) for y in x]
            elif k == 'insert':
                r['r'] = c.insert(o[2], build(o[1]))
            elif k == 'extend':
                r['r'] = c.extend([build(x) for x in o[1]])
            elif k == 'iadd':
                d = c
                c += [build(x) for x in o[1]]
                assert c is d
            elif k == 'set':
                c[o[2]] = build(o[1])
            elif k == 'get':
                r['r'] = ident(c[o[1]])
            elif k == 'del':
                del c[o[1]]
            elif k == 'reverse':
                r['r'] = c.reverse()
            elif k == 'slice':
                r['r'] = [ident(y) for y in c[o[1]:o[2]]]
            elif k == 'length':
                c.length = o[1]
            elif k == 'code':
                r['coded'] = coded(c)
                # what the same items are in a plain list
                try:
                    r['items'] = vals.dump(pyamf.decode(pyamf.encode(
                        list(c), encoding=3), encoding=3).next())
                except vals.ERRORS:
                    r['items'] = None
            else:
                raise AssertionError(k)
        except vals.ERRORS, e:
            if isinstance(e, AssertionError):
                raise
            r = {'error': vals.err(e)}
        out.append(state(r))
    return out


def op_proxy(req):
    """The same on a proxy and on a twin of what it wraps."""
    def wrapped():
        k = req['kind']
        if k == 'none':
            return None
        return vals.build(req['obj'])

    o, twin = wrapped(), wrapped()
    if req['kind'] == 'none':
        p = flex.ObjectProxy()
        o = p._amf_object
        twin = pyamf.ASObject()
    else:
        p = flex.ObjectProxy(o)
    out = []

    def do(x, op):
        k = op[0]
        n = op[1] and str(op[1])
        try:
            if k == 'get':
                return vals.dump(getattr(x, n))
            if k == 'default':
                return vals.dump(getattr(x, n, u'dflt'))
            if k == 'has':
                return hasattr(x, n)
            if k == 'set':
                v = vals.build(op[2])
                setattr(x, n, v)
                return [vals.dump(getattr(x, n)), getattr(x, n) is v]
            raise AssertionError(k)
        except vals.ERRORS, e:
            if isinstance(e, AssertionError):
                raise
            return {'error': vals.err(e)}

    for op in req['ops']:
        k = op[0]
        if k == 'code':
            a, b = coded(p), vals.dump(twin)
        elif k == 'under':
            # what is wrapped changes
            setattr(o, str(op[1]), vals.build(op[2]))
            setattr(twin, str(op[1]), vals.build(op[2]))
            a = b = None
        else:
            a, b = do(p, op), do(twin, op)
        assert p._amf_object is o
        out.append([a, b, vals.dump(o), vals.dump(twin)])
    return out


OPS = {'coll': op_coll, 'proxy': op_proxy}
