import struct

from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model

name = st.one_of(gen.short_text, gen.key_text, st.builds(
    lambda n, c: c * n, st.sampled_from([1, 127, 128, 255, 256, 21845]),
    st.sampled_from(['x', '\xe9', '\u20ac'])))
KEYS = ['a', 'b', 'c', 'spam', 'caf\xe9', 'x1', '0', '']
key = st.one_of(st.sampled_from(KEYS), st.sampled_from(KEYS), gen.short_text)
OPT = gen.Opts(3, xml=False, max_nodes=6, empty_key=False,
               classes=['Plain', 'SD', 'Static', 'Uni', 'Anon'])
SAVES = ['path', 'upath', 'file', 'stringio', 'encode', 'encode', 'loose']
LOADS = ['path', 'file', 'stringio', 'stream', 'decode', 'decode',
         'decode-stream', 'loose']
who = st.integers(0, 1)
slot = st.integers(0, 1)
pos = st.floats(0, 1, exclude_max=True)
op = st.one_of(
    st.tuples(st.just('new'), who, name),
    st.tuples(st.just('set'), who, key, gen.value(OPT, 2)),
    st.tuples(st.just('set'), who, key, gen.value(OPT, 3)),
    st.tuples(st.just('set'), who, key, gen.value(OPT, 3)),
    st.tuples(st.just('del'), who, pos),
    st.tuples(st.just('save'), who, slot, st.sampled_from([0, 3]),
              st.sampled_from(SAVES)),
    st.tuples(st.just('save'), who, slot, st.sampled_from([0, 3]),
              st.sampled_from(SAVES)),
    st.tuples(st.just('load'), slot, st.sampled_from(LOADS)),
    st.tuples(st.just('load'), slot, st.sampled_from(LOADS)),
    st.tuples(st.just('foreign'), slot, name, st.sampled_from([0, 3]),
              st.lists(st.tuples(key, gen.value(OPT, 2)), max_size=3,
                       unique_by=lambda kv: kv[0])),
    st.tuples(st.just('damage'), slot, st.sampled_from(
        ['version', 'length', 'signature', 'padding', 'encoding', 'end',
         'cut', 'cut', 'cut-fixed', 'extra', 'extra-fixed', 'cut-length']),
        pos, st.integers(1, 255), st.sampled_from(LOADS[:-1])),
).map(list)


def u16(s):
    b = s.encode('utf-8')
    return struct.pack('>H', len(b)) + b


class Layout(object):
    """Where the parts of a saved shared object are."""

    def __init__(self, data, strict=True):
        r = amfref.Reader(data)
        self.data = data
        require(r.take(2) == b'\0\xbf', 'version written', data[:2].hex())
        n = r.u32()
        if strict:
            require(n == len(data) - 6, 'the header states the wrong length',
                    n, len(data) - 6)
        require(r.take(10) == b'TCSO\0\4\0\0\0\0', 'signature written',
                data[6:16].hex())
        self.name = r.utf(r.take(r.u16()))
        self.padding = r.p
        require(r.take(3) == b'\0\0\0', 'padding written')
        self.encoding = r.p
        self.ver = r.u8()
        d = (amfref.Ref3Decoder if self.ver == 3 else amfref.Ref0Decoder)(r)
        self.items = []
        self.starts = [r.p]
        self.ends = []
        while r.p < len(data):
            k = d.string()
            v = d.value()
            self.items.append((k, v))
            self.ends.append(r.p)
            require(r.take(1) == b'\0', 'no terminator after %r' % k)
            self.starts.append(r.p)


class State(object):
    """The model: named values, and what each file holds."""

    def __init__(self):
        self.sols = {}
        self.files = {}


class Sol(Prop):
    modules = ('vals', 'sols')
    quick = 3000
    thorough = 120000
    rule = ('Case: a history of 2-14 operations on two shared objects and two '
            'files: setting and deleting values, saving (6 ways, two '
            'formats), loading (8 ways), files of an independent writer, and '
            'damage (12 kinds) followed by loading. Non-trivial: at least one '
            'load of a file with a value in it, or one damaged file.')

    def strategy(self, tier):
        n = 14 if tier == 'quick' else 30
        first = st.tuples(
            st.tuples(st.just('new'), st.just(0), name),
            st.tuples(st.just('new'), st.just(1), name),
            st.tuples(st.just('set'), st.just(0), key, gen.value(OPT, 3)),
            st.tuples(st.just('save'), st.just(0), st.just(0),
                      st.sampled_from([0, 3]), st.sampled_from(SAVES)),
        ).map(lambda t: [list(x) for x in t])
        last = st.sampled_from(LOADS).map(
            lambda m: [['load', 0, m], ['load', 1, m]])
        return st.tuples(first, st.lists(op, min_size=2, max_size=n),
                         last).map(lambda t: t[0] + t[1] + t[2])

    def fixed(self, tier):
        s = [['new', 0, 'n'], ['set', 0, 'a', ['l', [['s', 'x' * 70000]]]],
             ['set', 0, 'b', ['r', 0]], ['new', 1, '']]
        out = []
        for v in (0, 3):
            for m in ('path', 'encode'):
                out.append(s + [['save', 0, 0, v, m], ['load', 0, 'path'],
                                ['save', 1, 0, v, m], ['load', 0, 'path']])
            for k in ('version', 'length', 'signature', 'padding',
                      'encoding', 'end', 'cut', 'cut-fixed', 'extra'):
                for p in (0, 0.5, 0.99):
                    out.append(s + [['save', 0, 0, v, 'path'],
                                    ['damage', 0, k, p, 1, 'path']])
        return out

    # --- what is done, made concrete with the model

    def check(self, w, case):
        labels = set()
        # the worker is asked step by step as damage needs the bytes: first
        # everything without damage, then the damaged files
        ops, meaning = [], []
        sols = {}
        for o in case:
            k = o[0]
            if k == 'new':
                sols[o[1]] = (o[2], {}, model.Refs())
                ops.append(o)
                meaning.append(None)
            elif k == 'set':
                n, d, refs = sols[o[1]]
                d[o[2]] = refs.parse(o[3])
                ops.append(o)
                meaning.append(None)
            elif k == 'del':
                n, d, refs = sols[o[1]]
                if not d:
                    continue
                x = sorted(d)[int(o[2] * len(d))]
                del d[x]
                ops.append(['del', o[1], x])
                meaning.append(None)
            elif k == 'save':
                n, d, refs = sols[o[1]]
                ops.append(o)
                meaning.append((n, dict(d)))
            elif k == 'foreign':
                data, wires = self.foreign(*o[2:])
                ops.append(['write', o[1], data.hex()])
                meaning.append((o[2], wires))
            elif k == 'load':
                ops.append(o)
                meaning.append(None)
            elif k == 'damage':
                ops.append(None)
                meaning.append(o)
        # what every file holds when; saves that must fail leave it alone
        files = {}
        send = [o for o in ops if o is not None]
        got = iter(w.call('sols', ops=send))
        later = []
        for o, m in zip(ops, meaning):
            if o is None:
                f = files.get(m[1])
                if f is not None and f[3]:
                    later.append((m, f))
                continue
            g = next(got)
            what = 'at %r' % (o,)
            if o[0] == 'save':
                if len(m[0].encode('utf-8')) > 65535:
                    continue
                strict = o[4] != 'loose'
                require('ok' in g, 'saving failed', o, g)
                data = bytes.fromhex(g['ok'])
                lay = Layout(data, strict)
                require(lay.name == m[0], 'name written', lay.name, m[0])
                require(lay.ver == o[3], 'encoding written', lay.ver)
                e = model.Enc(o[3])
                ks = sorted(m[1])
                ws = [e.enc(m[1][k]) for k in ks]
                mine = dict(lay.items)
                require(sorted(mine) == ks and len(lay.items) == len(ks),
                        'names written', sorted(mine), ks)
                x = model.diff(model.dump_wires([mine[k] for k in ks], o[3]),
                               model.dump_wires(ws, o[3]))
                require(not x, 'values written', x, what)
                files[o[2]] = (m[0], dict(zip(ks, ws)), lay, strict)
                labels.add('save-%d' % o[3])
            elif o[0] == 'write':
                data = bytes.fromhex(o[2])
                files[o[1]] = (m[0], m[1], Layout(data), True)
                labels.add('foreign')
            elif o[0] == 'load':
                f = files.get(o[1])
                if f is None:
                    require(g.get('error') == 'IOError', 'loading a missing '
                            'file', g)
                    continue
                if not f[3] and o[2] != 'loose':
                    # written without its length
                    require('error' in g, 'a wrong length was accepted', g)
                    labels.add('refused-loose')
                    continue
                require('ok' in g, 'loading failed', o, g)
                self.same(g['ok'], f, what)
                if f[1]:
                    labels.add('loaded')
            else:
                require('ok' in g, 'unexpected', o, g)
        for m, f in later[:3]:
            self.damage(w, m, f, labels)
        return bool(labels & {'loaded', 'damaged'}), sorted(labels)

    def same(self, got, f, what):
        name, wires, lay, strict = f
        require(got[0] == name, 'name read', got[0], name)
        ks = sorted(wires, key=lambda k: k.encode('utf-8'))
        d = model.Dec(lay.ver)
        want = [[k, v] for k, v in zip(ks, model.dump_values(
            [d.dec(wires[k]) for k in ks]))]
        x = model.diff(got[1], want)
        require(not x, 'values read', x, what, lay.data.hex()[:300])

    def foreign(self, name, ver, items):
        refs = model.Refs()
        e = model.Enc(ver)
        wires = {}
        wr = (amfref.Ref3Encoder if ver == 3 else amfref.Ref0Encoder)()
        for k, r in items:
            wires[k] = e.enc(refs.parse(r))
            if ver == 3:
                wr.string(k)
            else:
                wr.out += u16(k)
            wr.value(wires[k])
            wr.out += b'\0'
        body = b'TCSO\0\4\0\0\0\0' + u16(name) + b'\0\0\0' + bytes([ver]) + \
            bytes(wr.out)
        return b'\0\xbf' + struct.pack('>I', len(body)) + body, wires

    def damage(self, w, m, f, labels):
        _, slot, kind, p, x, how = m
        name, wires, lay, strict = f
        data = bytearray(lay.data)
        n = len(data)

        def fixlen():
            data[2:6] = struct.pack('>I', len(data) - 6)

        ok = None           # items still readable, None when refused
        if kind == 'version':
            data[int(p * 2)] ^= x
        elif kind == 'length':
            data[2 + int(p * 4)] ^= x
        elif kind == 'cut-length':
            # the length of an earlier, shorter or longer, file
            data[2:6] = struct.pack('>I', max(0, n - 6 + (x - 128 or 1)))
        elif kind == 'signature':
            data[6 + int(p * 10)] ^= x
        elif kind == 'padding':
            data[lay.padding + int(p * 3)] ^= x
        elif kind == 'encoding':
            v = (data[lay.encoding] + x) % 256
            if v in (0, 3):
                return
            data[lay.encoding] = v
        elif kind == 'end':
            if not lay.ends:
                return
            data[lay.ends[int(p * len(lay.ends))]] ^= x
        elif kind == 'cut':
            del data[int(p * n):]
        elif kind == 'cut-fixed':
            at = int(p * n)
            if at < 6:
                return
            del data[at:]
            fixlen()
            if at in lay.starts:
                ok = lay.starts.index(at)
        elif kind == 'extra':
            data += bytes([x]) * (1 + int(p * 5))
        elif kind == 'extra-fixed':
            # the beginning of another value, without its end
            data += b'\0\1q' if lay.ver == 0 else b'\x03q'
            fixlen()
        g = w.call('sols', ops=[['write', slot, bytes(data).hex()],
                                ['load', slot, how]])[1]
        labels.add('damaged')
        labels.add('damage-' + kind)
        if ok is not None:
            require('ok' in g, 'a whole, shorter file was refused', m, g)
            self.same(g['ok'], (name, dict(lay.items[:ok]), lay, True), m)
            return
        require('error' in g, 'damage (%s) was not noticed' % kind, m,
                bytes(data).hex()[:300], g)
        # (an unknown encoding is a ValueError, which a test of PyAMF states)
        require(g['error'] in ('DecodeError', 'EOStream', 'IOError') or
                kind == 'encoding' and g['error'] == 'ValueError',
                'damage (%s) raised something else' % kind, m, g)


PROP = Sol()
PROP.id = 'C21'
