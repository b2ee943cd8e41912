"""Flex messages in full and compact form: what recipes of them denote on
the wire, and what must be read from the wire."""
from . import model

NS = 'flex.messaging.messages.'
STATIC = ['body', 'clientId', 'destination', 'headers', 'messageId',
          'timestamp', 'timeToLive']
FIELDS = {
    'AsyncMessage': STATIC + ['correlationId'],
    'AcknowledgeMessage': STATIC + ['correlationId'],
    'CommandMessage': STATIC + ['correlationId', 'operation'],
    'RemotingMessage': STATIC + ['operation', 'source'],
    'ErrorMessage': STATIC + ['correlationId', 'extendedData', 'faultCode',
                              'faultDetail', 'faultString', 'rootCause'],
    'AbstractMessage': STATIC,
}
COMPACT = {'AsyncMessage': 'DSA', 'AcknowledgeMessage': 'DSK',
           'CommandMessage': 'DSC'}
KIND = {v: k for k, v in COMPACT.items()}
BYTES = [STATIC, ['clientId', 'messageId']]
TIMES = ('timestamp', 'timeToLive')
IDS = ('clientId', 'messageId', 'correlationId')
EMPTY = ('headers', 'extendedData', 'rootCause')


class Refs(model.Refs):
    def parse(self, r):
        if r[0] == 'msg':
            n = model.R('msg')
            n.name = r[1]
            n.data = r[2]
            self.c.append(n)
            n.pairs = [(k, self.parse(v)) for k, v in r[3]]
            return n
        return model.Refs.parse(self, r)


def isuuid(r):
    return isinstance(r, tuple) and r[0] == 'U'


class Enc(model.Enc):
    """Also messages: what they denote on the wire, in plain flag bytes."""

    def __init__(self, ver):
        model.Enc.__init__(self, ver)
        if ver == 0:
            self.sub = Enc(3)

    def enc(self, r):
        if isinstance(r, tuple) or r.t != 'msg' or id(r) in self.memo:
            return model.Enc.enc(self, r)
        if self.ver == 0:
            return ('amf3', self.sub.enc(r))
        w = self.node(r, 'obj')
        f = dict(r.pairs)
        for k in FIELDS[r.name]:
            f.setdefault(k, ('o', []) if k in EMPTY else ('n',))
        if not r.data:
            w.cls = NS + r.name
            w.sealed = [(k, self.one(f[k])) for k in FIELDS[r.name]]
            w.dyn = []
            return w
        w.cls = COMPACT[r.name]
        plain, ids = [], []
        for i, k in enumerate(STATIC):
            if k in IDS and isuuid(f[k]):
                ids.append((1 << BYTES[1].index(k), f[k]))
            elif f[k] != ('n',):
                plain.append((1 << i, f[k], k in TIMES))
        b = sum(x[0] for x in plain)
        w.ext = [('flag', b | 0x80 if ids else b)]
        if ids:
            w.ext.append(('flag', sum(x[0] for x in ids)))
        w.ext += [self.time(x[1]) if x[2] else self.one(x[1]) for x in plain]
        w.ext += [self.one(x[1]) for x in ids]
        if isuuid(f['correlationId']):
            w.ext += [('flag', 2), self.one(f['correlationId'])]
        else:
            w.ext += [('flag', 1), self.one(f['correlationId'])]
        if w.cls == 'DSK':
            w.ext.append(('flag', 0))
        elif w.cls == 'DSC':
            w.ext += [('flag', 1), self.one(f['operation'])]
        return w

    def one(self, r):
        if r == ('o', []):
            w = model.W('obj')
            w.dyn = []
            return w
        if isuuid(r):
            w = model.W('ba')
            w.data = (r[1], False)
            self.keep.append(w)
            return w
        return self.enc(r)

    def time(self, r):
        if r[0] in ('d', 'D'):
            return ('num', model.f2h(model.date_us(*r[1:]) / 1000.0))
        return self.enc(r)


class BadTime(Exception):
    pass


class Dec(model.Dec):
    def __init__(self, ver):
        model.Dec.__init__(self, ver)
        if ver == 0:
            self.sub = Dec(3)

    def obj(self, w):
        if w.cls in COMPACT.values():
            return self.compact(w)
        if w.cls.startswith(NS) and w.cls[len(NS):] in FIELDS:
            n = self.node(w, 'inst', w.cls[len(NS):])
            n.pairs = [(k, self.dec(v)) for k, v in w.sealed + (w.dyn or [])]
            return n
        return model.Dec.obj(self, w)

    def compact(self, w):
        n = self.node(w, 'inst', KIND[w.cls] + 'Ext')
        f = {k: ('null',) for k in FIELDS[KIND[w.cls]]}
        f['headers'] = model.N('dict')
        ext = list(w.ext)

        def flags():
            out = []
            while True:
                b = ext.pop(0)[1]
                out.append(b & 0x7f)
                if b < 0x80:
                    return out + [0]
        x = flags()
        for i, k in enumerate(STATIC):
            if x[0] >> i & 1:
                f[k] = self.time(ext.pop(0)) if k in TIMES else \
                    self.dec(ext.pop(0))
        for i, k in enumerate(BYTES[1]):
            if x[1] >> i & 1:
                f[k] = self.uuid(ext.pop(0))
        x = flags()
        if x[0] & 1:
            f['correlationId'] = self.dec(ext.pop(0))
        if x[0] & 2:
            f['correlationId'] = self.uuid(ext.pop(0))
        if w.cls != 'DSA':
            x = flags()
            if x[0] & 1:
                f['operation'] = self.dec(ext.pop(0))
        assert not ext
        n.pairs = list(f.items())
        return n

    def time(self, w):
        if w == ('null',):
            return w
        if not isinstance(w, tuple) or w[0] not in ('int', 'num'):
            raise BadTime(w)
        ms = int(w[1]) if w[0] == 'int' else model.h2f(w[1])
        return ('date', str(int(round(ms * 1000))))

    def uuid(self, w):
        return ('uuid', w.data[0])
