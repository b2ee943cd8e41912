import struct

from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model
from pbt.model import W, AC, OP


# ------------------------------------------------------------- documents

DTDS = ['simple', 'system', 'public', 'element', 'attlist', 'entity',
        'used', 'nested', 'param', 'external', 'ndata', 'unparsed-ext']
MISC = ['comment', 'pi', 'cdata', 'decl', 'bom', 'utf16', 'space',
        'charrefs', 'comment-in']
doc = st.fixed_dictionaries({
    'tree': gen.xml_tree(1),
    'dtd': st.one_of(st.none(), st.sampled_from(DTDS)),
    'misc': st.lists(st.sampled_from(MISC), max_size=3, unique=True)})


def render(d):
    """(bytes, has a document type, has an entity, external use, tree)."""
    t = model.xmlnorm(d['tree'])
    t = [t[0], [list(a) for a in t[1]], t[2], t[3], '']
    kind = d['dtd']
    if kind == 'attlist':
        t[0] = 'rootx'      # not also the name of an inner element
    name = t[0]
    misc = d['misc']
    pre = ''
    extra = ''
    if 'decl' in misc:
        pre += '<?xml version="1.0"%s?>' % (
            '' if 'utf16' in misc else ' encoding="utf-8"')
    if 'space' in misc and 'decl' not in misc:
        pre += ' \n'
    if 'comment' in misc:
        pre += '<!-- <!DOCTYPE a [<!ENTITY b "c">]> -->'
    if 'pi' in misc:
        pre += '<?php <!DOCTYPE a> ?>'
    entity = external = False
    if kind == 'simple':
        pre += '<!DOCTYPE %s>' % name
    elif kind == 'system':
        pre += '<!DOCTYPE %s SYSTEM "file:///nonexistent/x.dtd">' % name
    elif kind == 'public':
        pre += '<!DOCTYPE %s PUBLIC "-//x//y" "nowhere">' % name
    elif kind == 'element':
        pre += '<!DOCTYPE %s [<!ELEMENT %s ANY>]>' % (name, name)
    elif kind == 'attlist':
        pre += '<!DOCTYPE %s [<!ATTLIST %s dflt CDATA "dv">]>' % (name, name)
        if 'dflt' not in [a[0] for a in t[1]]:
            t[1].append(['dflt', 'dv'])
    elif kind is not None:
        entity = True
        body = {'entity': '<!ENTITY e0 "EV">',
                'used': '<!ENTITY e0 "EV">',
                'nested': '<!ENTITY e1 "EV"><!ENTITY e0 "&e1;&e1;">',
                'param': '<!ENTITY % e0 "EV">',
                'external': '<!ENTITY e0 SYSTEM "file:///nonexistent/x">',
                'ndata': '<!NOTATION n SYSTEM "x"><!ENTITY e0 SYSTEM "x" '
                         'NDATA n>',
                'unparsed-ext': '<!ENTITY e0 PUBLIC "p" "nowhere">'}[kind]
        pre += '<!DOCTYPE %s [%s]>' % (name, body)
        if kind in ('used', 'nested'):
            extra += '&e0;'
        elif kind == 'external':
            external = True
            extra += '&e0;'
    src = dict(zip(('used', 'nested'), ('EV', 'EVEV'))).get(kind, '')
    if 'cdata' in misc:
        extra += '<![CDATA[<!DOCTYPE a [<!ENTITY b "c">]>]]>'
        src += '<!DOCTYPE a [<!ENTITY b "c">]>'
    if 'charrefs' in misc:
        extra += '&#60;&#x21;DOCTYPE&lt;&amp;'
        src += '<!DOCTYPE<&'
    if 'comment-in' in misc:
        extra += '<!--<!ENTITY x "y">-->'
    s = amfref.xml_write([t[0], [a for a in t[1] if a[0] != 'dflt' or
                                 kind != 'attlist' or a in d['tree'][1]],
                          '\0', t[3], ''])
    # extra content comes first inside the root
    text = amfref.esc(t[2])
    s = s.replace('\0', extra + text, 1)
    t[2] = src + t[2]
    whole = pre + s
    if 'utf16' in misc:
        b = b'\xff\xfe' + whole.encode('utf-16-le')
    elif 'bom' in misc:
        b = b'\xef\xbb\xbf' + whole.encode('utf-8')
    else:
        b = whole.encode('utf-8')
    return b, kind is not None, entity, external, model.xmlnorm(t)


# ------------------------------------------------------------- placement

WRAPS0 = ['list', 'obj', 'ecma', 'typed', 'switch', 'static']
WRAPS3 = ['list', 'obj', 'assoc', 'typed', 'ac', 'op', 'ext', 'static']
ENTRIES = ['amf0', 'amf0', 'amf3', 'amf3', 'decode', 'ba', 'sol', 'sol3',
           'body', 'body3', 'response', 'header', 'header3', 'wsgi', 'wsgi3',
           'client']
flag = st.sampled_from([None, None, None, 0, 1])


@st.composite
def step(draw):
    entry = draw(st.sampled_from(ENTRIES))
    s = {'entry': entry,
         'docs': draw(st.lists(st.tuples(
             doc, st.lists(st.sampled_from(sorted(set(WRAPS0 + WRAPS3))),
                           max_size=4)), min_size=1, max_size=3)),
         'flags': {}}
    if entry in ('amf0', 'amf3', 'decode', 'body', 'body3', 'response',
                 'header', 'header3'):
        for f in ('forbid_dtd', 'forbid_entities'):
            v = draw(flag)
            if v is not None:
                s['flags'][f] = v
    return s


def wrap(w, ws, ver):
    """Puts a wire inside others, innermost last; returns (wire, version)."""
    outer = []
    for k in ws:
        if k == 'switch':
            if ver == 0:
                outer.append(k)
                ver = 3
            continue
        if ver == 0 and k in WRAPS0 or ver == 3 and k in WRAPS3:
            outer.append(k)
    v = w
    for k in reversed(outer):
        if k == 'switch':
            v = ('amf3', v)
        elif k == 'list':
            n = W('arr')
            n.dense = [('str', 'x'), v]
            v = n
        elif k == 'assoc':
            n = W('arr')
            n.assoc = [('k', v)]
            v = n
        elif k == 'ecma':
            n = W('ecma')
            n.assoc = [('k', v)]
            n.hint = 0
            v = n
        else:
            n = W('obj')
            if k == 'obj':
                n.dyn = [('k', v)]
            elif k == 'typed':
                n.cls = 'org.test.Plain'
                n.dyn = [('a', v)]
            elif k == 'static':
                n.cls = 'org.test.Static'
                n.sealed = [('a', ('null',)), ('b', v)]
            elif k == 'ac':
                n.cls = AC
                i = W('arr')
                i.dense = [v]
                n.ext = [i]
            elif k == 'op':
                n.cls = OP
                i = W('obj')
                i.dyn = [('k', v)]
                n.ext = [i]
            elif k == 'ext':
                n.cls = 'org.test.Ext'
                n.ext = [v, ('utf', ''), ('int', 0), ('null',),
                         ('double', '0000000000000000')]
            v = n
    return v


def utf(s):
    b = s.encode('utf-8')
    return struct.pack('>H', len(b)) + b


def payload(s):
    """(bytes, top wires, [(dtd, entity, external)])."""
    entry = s['entry']
    ver = 3 if entry in ('amf3', 'decode', 'ba', 'sol3') else 0
    tops, feats = [], []
    for d, ws in s['docs']:
        b, dtd, ent, ext, tree = render(d)
        feats.append((dtd, ent, ext))
        w = W('xml')
        w.data = b
        x = W('xml')
        x.data = tree
        ws = list(ws)
        if entry in ('body3', 'header3', 'wsgi3'):
            ws = ['switch'] + ws
        tops.append((wrap(w, ws, ver), wrap(x, ws, ver)))
    enc = [t[0] for t in tops]
    if entry in ('sol', 'sol3'):
        e = (amfref.Ref3Encoder if ver == 3 else amfref.Ref0Encoder)()
        for i, x in enumerate(enc):
            if ver == 3:
                e.string('v%d' % i)
            else:
                e.out += utf('v%d' % i)
            e.value(x)
            e.out += b'\0'
        body = b'TCSO\0\4\0\0\0\0' + utf('n') + b'\0\0\0' + bytes([ver]) + \
            bytes(e.out)
        return b'\0\xbf' + struct.pack('>I', len(body)) + body, tops, feats
    if entry == 'ba':
        # every object of a byte array stands alone
        return b''.join(amfref.encode_all(3, [x]) for x in enc), tops, feats
    if ver == 3 or entry == 'amf0':
        return amfref.encode_all(ver, enc), tops, feats
    e = amfref.Ref0Encoder()
    arr = W('arr')
    arr.dense = enc
    e.value(arr)
    data = bytes(e.out)
    v = b'\0\3' if entry.endswith('3') else b'\0\0'
    if entry.startswith('header'):
        return (v + b'\0\1' + utf('h') + b'\0' +
                struct.pack('>I', len(data)) + data + b'\0\0'), tops, feats
    target, resp = utf('s.echo'), utf('/1')
    if entry in ('response', 'client'):
        target, resp = utf('/1/onResult'), utf('null')
    return (v + b'\0\0' + b'\0\1' + target + resp +
            struct.pack('>I', len(data)) + data), tops, feats


class Xml(Prop):
    modules = ('vals', 'xmls')
    quick = 2500
    thorough = 40000
    rule = ('Case: either 1-3 element trees sent through AMF0, AMF3, shared '
            'objects and envelopes, or a history of 1-4 receptions: documents '
            '(12 kinds of document type or entity declaration and 9 kinds of '
            'harmless look-alikes) at a generated depth inside other values, '
            'through 16 entry points, under generated permissions. '
            'Non-trivial: a tree with children or a document with a document '
            'type.')
    assumptions = ['references to external entities are refused even when '
                   'entities are allowed',
                   'defusedxml on this platform\'s parser']

    def strategy(self, tier):
        trees = st.lists(gen.xml_tree(3, True), min_size=1, max_size=3)
        ns = st.sampled_from([None, None, None, 'http://x.org/a', 'urn:b'])
        rt = st.builds(lambda ts, n, h: {'trees': [name(t, n) for t in ts],
                                         'how': h},
                       trees, ns, st.sampled_from([
                           ['0', '3'], ['0', '3'], ['s0', '3'], ['0', 's3'],
                           ['r0'], ['r3']]))
        return st.one_of(st.lists(step(), min_size=1, max_size=4),
                         st.lists(step(), min_size=1, max_size=4), rt)

    def fixed(self, tier):
        big = ['r', [['k', 'v' * 70000]], '\u20ac' + 't' * 70000,
               [['c', [], 'x', [], 'tail' * 20000]], '']
        deep = ['d', [], 'x', [], '']
        for i in range(60):
            deep = ['d', [], '', [deep], 't']
        out = [{'trees': [big], 'how': ['0', '3']},
               {'trees': [deep, deep], 'how': ['0', '3']}]
        for e in sorted(set(ENTRIES)):
            for k in DTDS + [None]:
                out.append([{'entry': e, 'flags': {}, 'docs': [
                    [{'tree': ['a', [], '', [], ''], 'dtd': None,
                      'misc': []}, []],
                    [{'tree': ['a', [], '', [], ''], 'dtd': k,
                      'misc': []}, ['switch', 'list']]]}])
        return out

    def check(self, w, case):
        if isinstance(case, dict):
            return self.roundtrip(w, case)
        steps, wants = [], []
        labels = set()
        for s in case:
            data, tops, feats = payload(s)
            f = s['flags']
            dtd_ok = f.get('forbid_dtd', 1) == 0
            ent_ok = f.get('forbid_entities', 1) == 0
            bad = any(x or (d and not dtd_ok) or (e and not ent_ok)
                      for d, e, x in feats)
            entry = s['entry'].rstrip('3') if s['entry'] != 'amf3' else 'amf3'
            steps.append([entry, data.hex(), f])
            wants.append((bad, tops, s))
            labels.add('at-' + s['entry'])
            labels.add('refused' if bad else 'accepted')
            for (d, ws), x in zip(s['docs'], feats):
                labels.add('dtd-%s' % d['dtd'])
                if x[0] and not bad:
                    labels.add('allowed-dtd')
        got = w.call('xmldec', steps=steps)
        for g, (bad, tops, s) in zip(got, wants):
            if bad:
                require('error' in g, 'a document with a DTD, an entity or an '
                        'external reference was accepted', s, g)
                continue
            require('error' not in g, 'a harmless or allowed document was '
                    'refused', s, g)
            ver = 3 if s['entry'] in ('amf3', 'decode', 'ba', 'sol3') else 0
            d = model.Dec(ver)
            want = model.dump_values([d.dec(x) for _, x in tops])
            x = model.diff(g['vals'], want)
            require(not x, 'document read differently', x, s)
        return bool({'refused', 'allowed-dtd'} & labels), sorted(labels)

    def roundtrip(self, w, case):
        how = case.get('how') or ['0', '3', 's0', 's3', 'r0', 'r3']
        got = w.call('xmlrt', trees=case['trees'], how=how)
        ts = [model.xmlnorm(t[:4] + ['']) for t in case['trees']]
        want = [ts, ts[0], ts[-1]]
        require(got['before'] == got['after'], 'encoding changed a tree',
                got['before'], got['after'])
        for h, (r, left) in zip(how, got['out']):
            x = model.diff(r, want)
            require(not x and left == 0, 'tree changed through %s' % h, x)
        return any(t[3] for t in ts), ['roundtrip']


def name(t, ns):
    """Namespaces on every other level."""
    if ns is None:
        return t
    return ['{%s}%s' % (ns, t[0]), t[1], t[2],
            [name(c, None if len(c[0]) % 2 else ns) for c in t[3]], t[4]]


PROP = Xml()
PROP.id = 'C20'
