from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model, wiregen
from pbt.props.c08 import mutate, mutation

POISON = ['func', 'class', 'time', 'bomb', 'ext', 'key', 'lambda']


def small(ver):
    return gen.value(gen.Opts(ver, max_nodes=6, xml=(ver == 3)), 3)


def steps(ver):
    enc = st.tuples(st.sampled_from(['enc', 'encl']), st.just(ver),
                    small(ver))
    bad = st.tuples(st.sampled_from(['encbad', 'encbadl']), st.just(ver),
                    small(ver), st.sampled_from(POISON),
                    st.sampled_from(['t', 'd', 'v', 'o', 'l']))
    dec = st.tuples(st.sampled_from(['dec', 'decl']), st.just(ver),
                    wiregen.wire(ver, 3, xml=(ver == 3)), wiregen.choices,
                    st.sampled_from([[], [], 'm']),
                    st.lists(mutation, min_size=1, max_size=2))
    return st.one_of(enc, enc, bad, dec, dec)


class History(Prop):
    modules = ('vals', 'history')
    quick = 2400
    thorough = 60000
    rule = ('Case: 3-12 steps in one process: encode a value with a fresh '
            'encoder or with a long-lived one whose context is cleared, fail '
            'to encode a value holding something that cannot be sent, decode '
            'well-formed or damaged bytes with fresh or cleared decoders '
            '(each result is scrambled afterwards), repeating values and '
            'bytes used before. Every successful step must mean what it '
            'means on its own. Non-trivial: a success after a failure, or a '
            'repeated step.')

    def strategy(self, tier):
        s = st.one_of(steps(0), steps(3))
        return st.tuples(
            st.lists(s, min_size=2, max_size=8),
            st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20)),
                     max_size=4)).map(self.weave)

    def weave(self, t):
        out = list(t[0])
        for frm, to in t[1]:        # repeat some steps later
            out.insert(to % (len(out) + 1), out[frm % len(out)])
        return {'steps': [list(s) for s in out]}

    def check(self, w, case):
        send = []
        want = []
        for s in case['steps']:
            op, ver = s[0], s[1]
            if op in ('enc', 'encl'):
                send.append([op, ver, s[2]])
                e = model.Enc(ver)
                try:
                    x = e.enc(model.parse_all([s[2]])[0])
                    want.append(('wire', ver, x))
                except model.CannotEncode:
                    want.append(('any',))
            elif op in ('encbad', 'encbadl'):
                send.append(s)
                want.append(('error', s[3], ver))
            else:
                ws = wiregen.parse_all(ver, [s[2]])
                data = amfref.encode_all(ver, ws, s[3])
                if s[4]:
                    data = mutate(data, s[5])
                    send.append([op, ver, data.hex()])
                    want.append(('same', ver, data.hex()))
                else:
                    send.append([op, ver, data.hex()])
                    try:
                        want.append(('value', model.dump_values(
                            [model.Dec(ver).dec(ws[0])])[0]))
                    except model.MissingStatic:
                        want.append(('any',))
        got = w.call('history', steps=send)
        labels = set()
        failed = False
        nontrivial = False
        seen = {}
        for i, (s, x, g) in enumerate(zip(send, want, got)):
            labels.add(s[0])
            at = 'step %d %s of %d' % (i, s[0], len(send))
            if x[0] == 'any':
                continue
            if s in send[:i] or (failed and 'error' not in g):
                nontrivial = True
            if x[0] == 'wire':
                require('hex' in g, at + ': encoding failed', g)
                data = bytes.fromhex(g['hex'])
                try:
                    rs, pos = amfref.decode_all(x[1], data, 1)
                except amfref.Bad as e:
                    raise Violation('%s: bytes are not well-formed: %s %s' % (
                        at, e, g['hex'][:400]))
                require(pos == len(data), at + ': bytes left over')
                d = model.diff(model.dump_wires(rs, x[1]),
                               model.dump_wires([x[2]], x[1]))
                if d:
                    raise Violation('%s: the bytes mean something else at %s; '
                                    '%s' % (at, d, g['hex'][:400]))
                require(g['same'], at + ': encoding changed the value')
            elif x[0] == 'error':
                failed = True
                if x[1] == 'ext' and x[2] == 0:
                    continue        # not external in AMF0
                require('error' in g, at + ': this cannot be encoded', g)
            elif x[0] == 'value':
                require('val' in g, at + ': decoding failed', g)
                d = model.diff(g['val'], x[1])
                if d:
                    raise Violation('%s: decoded value differs at %s' % (
                        at, d))
            elif x[0] == 'same':
                # whatever damaged bytes mean, they mean it every time
                if 'error' in g:
                    failed = True
                g = {k: v for k, v in g.items() if k != 'msg'}
                k = (x[1], x[2])
                if k in seen:
                    require(seen[k] == g, at + ': the same bytes gave another '
                            'result', seen[k], g)
                seen[k] = g
        return nontrivial, sorted(labels)


PROP = History()
PROP.id = 'C11'
