from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model, wiregen
from pbt.model import W, date_us, f2h, h2f

ART = {'n': 'i', 's': 's', 'x': 'x', 'b': 'b', 'd': 'd', 't': 't',
       'dt': 'dt', 'f': 'f'}
FIELDS = {
    'Art': ART, 'ProxyArt': ART,
    'Sub': dict(ART, extra='s'),
    'Sub2': dict(ART, extra='s', more='d'),
    'Linked': dict(ART, own='i'),
    'Key': {'n': 'i'},
    'Rel': {'s': 's'},
    'Con': {'s': 's', 'd': 'd', 't': 't'},
    'Decl': {'hid': 's', 'seen': 's', 'z': 'i', 'f': 'f', 'd': 'd'},
    'Stat': {'n': 'i', 'd': 'd', 't': 't'},
    'Anon': {'d': 'd'},
    # named as Art is, of another application
    'Twin': {'n': 'i', 's': 's'},
    # Django's own
    'User': {'password': 's', 'username': 's', 'email': 's',
             'first_name': 's', 'last_name': 's', 'is_staff': 'b',
             'is_superuser': 'b', 'is_active': 'b', 'last_login': 'dt',
             'date_joined': 'dt'},
}
# with defaults of their own
ALWAYS = {'is_active', 'date_joined'}
ARTS = ['Art', 'ProxyArt', 'Sub', 'Sub2', 'Linked']
# models whose key is not a field of their own
LINKED = ['Sub', 'Sub2', 'Linked']
RELS = {'Rel': {'a': ARTS, 'me': ['Rel'], 'k': ['Key'], 'o': ARTS},
        'Con': {'k': ['Key']}, 'Decl': {'a': ARTS, 'c': ARTS},
        'Anon': {'k': ['Key']}}
MANY = {'Rel', 'Decl'}
EXCLUDE = {'Decl': {'hid', 'a', 'm'}, 'User': {'password'}}
READONLY = {'Decl': {'seen'}, 'User': {'username'}}
SYN = {'Decl': {'z': 'zed', 'f': 'file', 'd': 'day', 'c': 'cee'}}
DEFAULT = {'i': ['n'], 's': ['s', ''], 'x': ['n'], 'b': ['b', 0],
           'd': ['n'], 't': ['n'], 'dt': ['n'], 'f': ['F', '']}
NAMES = sorted(FIELDS)

day = st.tuples(st.integers(1900, 2199), st.integers(1, 12),
                st.integers(1, 28)).map(list)
clock = st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59),
                  st.integers(0, 999).map(lambda n: n * 1000)).map(list)
moment = st.tuples(day, clock).map(lambda t: ['d'] + t[0] + t[1])
ints = st.integers(-2 ** 31, 2 ** 31).map(lambda n: ['i', str(n)])
text = gen.short_text.map(lambda s: ['s', s])
floats = st.floats(allow_nan=False).map(lambda x: ['f', f2h(x)])
bools = st.integers(0, 1).map(lambda b: ['b', b])
simple = st.one_of(ints, text, floats, bools, st.just(['n']), moment)
fname = st.text('abc/._\xe9', max_size=8).map(lambda s: ['F', s])
WHAT = {'i': ints, 's': text, 'x': floats, 'b': bools,
        'd': day.map(lambda d: ['D'] + d), 't': clock.map(lambda c: ['T'] + c),
        'dt': moment, 'f': fname}


@st.composite
def a_field(draw, kind, odd=True):
    k = draw(st.integers(0, 11))
    if k == 0:
        return ['n'] if kind not in 'sb' else DEFAULT[kind]
    if odd and k == 1 and kind != 'f':
        return ['NP']
    if odd and k == 2 and kind == 's':
        return ['lazy', draw(gen.short_text)]
    return draw(WHAT[kind])


@st.composite
def table(draw, odd=True):
    rows = []
    keys = set()
    for _ in range(draw(st.integers(1, 5))):
        m = draw(st.sampled_from(NAMES + ['Art', 'Twin', 'Rel', 'Rel', 'Key']))
        pk = draw(st.integers(1, 3))
        if m == 'Key':
            pk = draw(st.sampled_from(['k', 'k2', '\xe9', '1']))
        elif draw(st.integers(0, 5)) == 0:
            pk = None
        if pk is not None:
            if (m, pk) in keys:
                continue
            keys.add((m, pk))
        rows.append({'m': m, 'pk': pk, 'f': {
            f: draw(a_field(k, odd)) for f, k in sorted(FIELDS[m].items())
            if f in ALWAYS or draw(st.integers(0, 4))}, 'r': {}, 'fk': {}})
    for r in rows:
        for rel, to in sorted(RELS.get(r['m'], {}).items()):
            ts = [i for i, t in enumerate(rows)
                  if t['m'] in to and t['pk'] is not None]
            i = draw(st.sampled_from(ts + [None])) if ts else None
            r['r'][rel] = i
            r['fk'][rel] = None if i is None else rows[i]['pk']
        if r['m'] in MANY and r['pk'] is not None:
            ts = [i for i, t in enumerate(rows)
                  if t['m'] in ARTS and t['pk'] is not None]
            r['many'] = draw(st.lists(st.sampled_from(ts), max_size=3)) \
                if ts else []
    return rows


@st.composite
def enc_case(draw):
    rows = draw(table())
    which = list(range(len(rows))) + draw(st.lists(st.integers(
        0, len(rows) - 1), max_size=3))
    insts = []
    for r in which:
        row = rows[r]
        i = {'r': r, 'l': {}, 'dyn': {}}
        for rel, t in sorted(row['r'].items()):
            if draw(st.integers(0, 2)) == 0:
                continue
            i['l'][rel] = None if t is None else draw(st.sampled_from(
                [k for k, w in enumerate(which) if w == t]))
        if 'many' in row:
            i['mm'] = [draw(st.sampled_from(
                [k for k, w in enumerate(which) if w == t]))
                for t in row['many']]
        insts.append(i)
    # what is set on the instances of a row is the same, as the row is
    dyn = [{k: draw(simple) for k in draw(st.lists(st.sampled_from(
        ['zz', 'spam', '_p', '_q', 'a_b', 'b_']), max_size=2, unique=True))}
        for _ in rows]
    for r, row in enumerate(rows):
        if row['m'] in ARTS and draw(st.booleans()):
            dyn[r]['rw'] = draw(simple)
    for i in insts:
        i['dyn'] = dyn[i['r']]

    def value(depth):
        k = draw(st.integers(0, 9))
        if k < 5 or not depth:
            return ['inst', draw(st.integers(0, len(insts) - 1))]
        if k == 5:
            m = rows[which[draw(st.integers(0, len(insts) - 1))]]['m']
            of = [j for j, w in enumerate(which) if rows[w]['m'] == m]
            return ['qs', draw(st.lists(st.sampled_from(of), max_size=4))]
        if k in (6, 7):
            return [['list', 'tuple'][k - 6], [
                value(depth - 1)
                for _ in range(draw(st.integers(0, 3)))]]
        if k == 8:
            return ['dict', [[x, value(depth - 1)] for x in draw(st.lists(
                st.sampled_from('abc'), max_size=2, unique=True))]]
        return draw(st.one_of(simple, st.just(['NP']), gen.short_text.map(
            lambda s: ['lazy', s])))
    return {'v': draw(st.sampled_from([3, 0, 3])), 'rows': rows, 'insts': insts,
            'top': [value(2) for _ in range(draw(st.integers(1, 3)))]}


@st.composite
def dec_case(draw):
    rows = draw(table(False))
    objs = []
    for _ in range(draw(st.integers(1, 4))):
        m = draw(st.sampled_from([n for n in NAMES if n != 'Anon'] + ['Rel']))
        of = [i for i, r in enumerate(rows)
              if r['m'] == m and r['pk'] is not None]
        pk = draw(st.sampled_from(of * 3 + [None, 'null', 'undef'] +
                                  (['zero'] if m != 'Key' else [])))
        if pk == 'null' and m == 'Key':
            pk = None
        o = {'m': m, 'pk': pk, 'f': {}, 'r': {}, 'x': {}}
        for f, k in sorted(FIELDS[m].items()):
            c = draw(st.integers(0, 9))
            if m == 'Stat' and f in 'dn' or f in ALWAYS:
                c = max(c, 3)
            if c > 2:
                v = draw(st.one_of(WHAT[k], WHAT[k], WHAT[k], st.just(['n'])))
                if k in ('d', 't') and v[0] != 'n':
                    v = draw(moment)
                o['f'][f] = v
            elif c == 2:
                o['f'][f] = ['u']
        for rel, to in sorted(RELS.get(m, {}).items()):
            ts = [i for i, t in enumerate(objs) if t['m'] in to and
                  isinstance(t['pk'], int)]
            c = draw(st.integers(0, 2))
            if c == 1:
                o['r'][rel] = None
            elif c == 2 and ts:
                o['r'][rel] = draw(st.sampled_from(ts))
        if m == 'Rel' and pk in (None, 'null', 'zero') and \
                draw(st.booleans()):
            o['m0'] = 1
        for k in draw(st.lists(st.sampled_from(
                ['zz', 'spam', 'ro', 'rw', '_state', 'a_b']), max_size=2,
                unique=True)):
            if k not in ('ro', 'rw') or m in ARTS:
                o['x'][k] = draw(simple)
        objs.append(o)
    return {'v': draw(st.sampled_from([3, 0, 3])), 'rows': rows, 'objs': objs,
            'ch': draw(wiregen.choices)}


def alias(m):
    return {'Anon': '', 'User': 'django.contrib.auth.models.User'}.get(
        m, 'app.' + m)


def prim(enc, r):
    t = r[0]
    if t == 'T':
        return enc.date(date_us(1970, 1, 1, *r[1:]))
    if t == 'NP':
        return ('undef',)
    if t == 'F':
        return ('str', r[1])
    if t == 'lazy':
        return ('str', r[1])
    return enc.prim(r)


def same(ver, a, b):
    return model.diff(model.dump_wires([a], ver), model.dump_wires([b], ver))


class Match(object):
    """Does a wire graph show the rows of the table?"""

    def __init__(self, case):
        self.c = case
        self.ver = case['v']
        self.enc = model.Enc(self.ver)
        self.seen = {}
        self.keep = []
        self.done = {}
        self.labels = set()

    def value(self, w, s):
        t = s[0]
        if t == 'inst':
            return self.inst(w, s[1])
        if t in ('list', 'tuple', 'qs'):
            items = [['inst', i] for i in s[1]] if t == 'qs' else s[1]
            self.labels.add(t)
            require(isinstance(w, W) and w.kind == 'arr' and not w.assoc and
                    len(w.dense) == len(items), 'not the list', s)
            for x, y in zip(w.dense, items):
                self.value(x, y)
            return
        if t == 'dict':
            require(isinstance(w, W) and w.kind == 'obj' and w.cls == '',
                    'not the dict', s)
            d = dict(w.sealed + (w.dyn or []))
            require(sorted(d) == sorted(k for k, v in s[1]),
                    'other keys', s, sorted(d))
            for k, v in s[1]:
                self.value(d[k], v)
            return
        x = same(self.ver, w, prim(self.enc, s))
        require(not x, 'another value', s, x)

    def inst(self, w, i):
        inst = self.c['insts'][i]
        row = self.c['rows'][inst['r']]
        key = ('row', inst['r']) if row['pk'] is not None else ('inst', i)
        require(isinstance(w, W) and w.kind == 'obj', 'not an object', row)
        if key in self.seen:
            require(self.seen[key] is w, 'one row is two objects', row)
            self.labels.add('same row')
            return
        require(id(w) not in self.done, 'one object for two rows', row)
        self.seen[key] = w
        self.done[id(w)] = key
        self.keep.append(w)
        m = row['m']
        require(w.cls == alias(m), 'another class', w.cls, m)
        ps = w.sealed + (w.dyn or [])
        got = dict(ps)
        require(len(got) == len(ps), 'an attribute twice', m)
        if m == 'Stat' and self.ver == 3:
            require([k for k, v in w.sealed] == ['d', 'n'],
                    'other sealed members', [k for k, v in w.sealed])
        syn = SYN.get(m, {})
        skip = EXCLUDE.get(m, ())
        want = {}
        for f, kind in FIELDS[m].items():
            want[f] = prim(self.enc, row['f'].get(f, DEFAULT[kind]))
        pkname = 'code' if m == 'Key' else 'id'
        want[pkname] = ('null',) if row['pk'] is None else self.enc.prim(
            ['s', row['pk']] if m == 'Key' else ['i', str(row['pk'])])
        if m in ARTS:
            want['ro'] = ('str', 'ro')
            want['rw'] = prim(self.enc, ['i', '7'])
        if m == 'User':
            want['groups'] = W('arr')
            want['user_permissions'] = W('arr')
        for k, v in inst['dyn'].items():
            if not k.startswith('_'):
                want[k] = prim(self.enc, v)
        want = {syn.get(k, k): v for k, v in want.items() if k not in skip}
        rels = {syn.get(k, k): k for k in RELS.get(m, {}) if k not in skip}
        many = m in MANY and 'm' not in skip
        rest = set(got) - set(want) - {'m' if many else None}
        require(rest <= set(rels), 'sent though it should not be',
                m, sorted(rest))
        require(set(want) <= set(got), 'not sent', m,
                sorted(set(want) - set(got)))
        for k, v in sorted(want.items()):
            x = same(self.ver, got[k], v)
            require(not x, 'another value sent', m, k, x)
        # relations: loaded in the instance which was written
        copies = [j for j, x in enumerate(self.c['insts'])
                  if x['r'] == inst['r']] if row['pk'] is not None else [i]
        require(any({syn.get(k, k) for k in self.c['insts'][j]['l']
                     if k not in skip} == rest for j in copies),
                'sent are not the relations which are loaded', m,
                sorted(rest))
        for k in sorted(rest):
            t = row['r'][rels[k]]
            self.labels.add('relation')
            if t is None:
                require(got[k] == ('null',), 'not null', m, k)
            else:
                self.inst(got[k], [j for j, x in enumerate(self.c['insts'])
                                   if x['r'] == t][0])
        if many:
            ts = row.get('many', [])
            x = got.get('m')
            require(isinstance(x, W) and x.kind == 'arr' and
                    len(x.dense) == len(ts) and not x.assoc,
                    'another many-to-many relation', m, ts)
            for y, t in zip(x.dense, ts):
                self.labels.add('many')
                self.inst(y, [j for j, z in enumerate(self.c['insts'])
                              if z['r'] == t][0])
        self.labels.add(m)


def shown(r, kind):
    """What Python shows of a field of a row."""
    t = r[0]
    if t == 'n':
        return ['null']
    if t == 'D':
        return ['day'] + r[1:4]
    if t == 'T':
        return ['time'] + r[1:] + ['None']
    if t == 'F':
        return ['str', r[1]]
    if t == 'd':
        return ['date', str(date_us(*r[1:]))]
    if t == 'i':
        return ['int', r[1]]
    if t == 'b':
        return ['bool', r[1]]
    return {'s': ['str', r[1]], 'f': ['num', r[1]]}[t]


class Models(Prop):
    modules = ('vals', 'djmodels')
    shards = 2
    quick = 4800
    thorough = 60000
    ready_s = 420
    rule = ('Case: a table of 1-5 rows of thirteen models (plain, of the same name in two applications, proxy, users, '
            'inherited over one and two levels and by an explicit link, '
            'abstract base, text key, relations to one and to many, declared '
            'exclusions and synonyms, static attributes, unregistered), '
            'saved or not; either several instances of the rows, with some '
            'relations loaded, encoded among other values and the bytes read '
            'by an independent implementation; or objects written by that '
            'implementation, naming rows or not, with all or some of the '
            'fields. There is no database: asking for what is not loaded '
            'fails. Non-trivial: a relation, a row met twice, or a field '
            'which is a date, a time or a file.')
    assumptions = ['No database driver is installed: rows and many-to-many '
                   'relations come from memory, by way of the manager and of '
                   'the prefetched relations; many-to-many relations are not '
                   'decoded.']

    def strategy(self, tier):
        return st.one_of(enc_case(), dec_case())

    def check(self, w, case):
        if 'objs' in case:
            return self.check_dec(w, case)
        got = w.call('djencode', v=case['v'], rows=case['rows'],
                     insts=case['insts'], top=case['top'])
        if 'enc_error' in got:
            raise Violation('encoding failed: %s %s' % (
                got['enc_error'], got['msg']))
        require(not got['changed'], 'encoding changed the instances')
        try:
            ws, used = amfref.decode_all(
                case['v'], bytes.fromhex(got['hex']), len(case['top']))
        except amfref.Bad as x:
            raise Violation('what was encoded is malformed: %s %s' % (
                x, got['hex'][:600]))
        require(used * 2 == len(got['hex']), 'bytes left over')
        m = Match(case)
        for x, s in zip(ws, case['top']):
            m.value(x, s)
        labels = m.labels | {'encode', 'v%d' % case['v']}
        return bool(labels & {'relation', 'same row', 'Con', 'Stat', 'Art',
                              'Decl'}), sorted(labels)

    def check_dec(self, w, case):
        ver = case['v']
        enc = model.Enc(ver)
        dec = model.Dec(ver)
        ws, want, pks, free = [], [], [], []
        labels = {'decode', 'v%d' % ver}
        for o in case['objs']:
            m = o['m']
            labels.add(m)
            syn = SYN.get(m, {})
            x = W('obj')
            x.cls = alias(m)
            x.dyn = []
            pkname = 'code' if m == 'Key' else 'id'
            at = {f: DEFAULT[k] for f, k in FIELDS[m].items()}
            rel = {k: None for k in RELS.get(m, {})}
            pk = None if m != 'Key' else ''
            loaded = {}
            kinds = FIELDS[m]
            row = None
            if isinstance(o['pk'], int):
                row = case['rows'][o['pk']]
                pk = row['pk']
                x.dyn.append((pkname, enc.prim(
                    ['s', pk] if m == 'Key' else ['i', str(pk)])))
                if m not in LINKED:
                    at.update(row['f'])
                    for k, t in row['r'].items():
                        rel[k] = row['fk'][k]
                    labels.add('row')
            elif o['pk'] == 'null':
                x.dyn.append((pkname, ('null',)))
            elif o['pk'] == 'zero':
                x.dyn.append((pkname, enc.prim(['i', '0'])))
            elif o['pk'] == 'undef':
                x.dyn.append((pkname, ('undef',)))
            at = {k: shown(v, kinds[k]) for k, v in at.items()}
            hidden = EXCLUDE.get(m, set()) | READONLY.get(m, set())
            hidden = hidden | {f for f, k in kinds.items() if k == 'f'}
            for f, v in sorted(o['f'].items()):
                x.dyn.append((syn.get(f, f), prim(enc, v)))
                if f in hidden:
                    labels.add('readonly')
                    continue
                k = kinds[f]
                if v[0] == 'u':
                    at[f] = ['NP']
                elif v[0] == 'n':
                    at[f] = ['null']
                elif k == 'd':
                    at[f] = ['day'] + v[1:4]
                elif k == 't':
                    at[f] = ['time'] + v[4:] + ['None']
                elif k == 'dt':
                    at[f] = shown(v, k)
                else:
                    y = dec.prim(prim(enc, v))
                    at[f] = list(y)
            for k, t in sorted(o['r'].items()):
                x.dyn.append((syn.get(k, k),
                              ('null',) if t is None else ws[t]))
                if k in EXCLUDE.get(m, ()):
                    continue
                rel[k] = None if t is None else pks[t]
                loaded[k] = t
                labels.add('relation')
            if o.get('m0'):
                x.dyn.append(('m', W('arr')))
            for k, v in sorted(o['x'].items()):
                x.dyn.append((k, prim(enc, v)))
                if k in ('ro', '_state'):
                    labels.add('readonly')
                    continue
                at[k] = model.dump_values([dec.dec(prim(enc, v))])[0]
            for k, v in rel.items():
                at[k + '_id'] = ['null'] if v is None else (
                    ['str', v] if isinstance(v, str) else ['int', str(v)])
            if o['pk'] == 'undef':
                at[pkname] = ['NP']
            else:
                at[pkname] = ['null'] if pk is None else (
                    ['str', pk] if m == 'Key' else ['int', str(pk)])
            ws.append(x)
            pks.append(pk)
            # a row of a model with an inherited key is not looked up
            free.append(set(kinds) - set(o['f']) if m in LINKED and row
                        else set())
            want.append([m, at, loaded])
        top = W('arr')
        top.dense = ws
        data = amfref.encode_all(ver, [top], case['ch'])
        rows = case['rows']
        got = w.call('djdecode', v=ver, hex=data.hex(), rows=rows,
                     rels=['a', 'me', 'k', 'c', 'o'])
        if 'dec_error' in got:
            raise Violation('decoding failed: %s %s %s' % (
                got['dec_error'], got['msg'], data.hex()[:600]))
        require(got['left'] == 0, 'bytes left over')
        for g, x, fr, o in zip(got['vals'], want, free, case['objs']):
            require(g[0] == x[0], 'another class', g[0], x[0])
            for k in set(g[1]) | set(x[1]):
                if k in fr:
                    continue
                a, b = g[1].get(k), x[1].get(k)
                d = model.diff(a, b)
                require(not d, 'decoded otherwise', x[0], k, d, o)
            require(g[2] == x[2], 'other relations', x[0], g[2], x[2])
        return True, sorted(labels)


PROP = Models()
PROP.id = 'C39'
