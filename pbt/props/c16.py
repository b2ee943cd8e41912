from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref

CLASSES = ['A', 'B', 'Old', 'M', 'X', 'D']
BASES = {'B': ['A', 'B'], 'E': ['E'], 'F': ['E', 'F']}
PREMADE = {'pre.A': 'A', 'pre.X': 'X', 'Pre\xe9': 'Old'}
PLAIN = ['a', 'b', 'c\xe9', '\u20ac.x']
IMPORTABLE = {'regmod.A': 'A', 'regmod.B': 'B', 'regmod.Old': 'Old',
              'regmod.X': 'X', 'regmod.D': 'D', 'regmod.M': 'M'}
MISSING = ['regmod.nothing', 'regmod.notaclass', 'nomod.A', 'regmod', '',
           'flex.nothing', 'regmod.pred_o', '.A', 'regmod.A.b', 'regmod..A',
           '\xe9.A']
LOADED = ['load.1', 'load.2', 'regmod.A', 'a']
CODES = ['Code.1', 'Code\xe9', 'TypeError', 'Server.X']
BUILTIN_ERRORS = {'TypeError', 'LookupError', 'KeyError', 'IndexError',
                  'NameError', 'ValueError'}
ATS = {'AT1': [['class', 'A'], ['pred', 'pred_o'], ['class', 'D']],
       'AT2': [['class', 'M'], ['class', 'X'], ['class', 'A']],
       'AT3': [['pred', 'pred_x'], ['class', 'X'], ['class', 'M']]}
NOTCLASS = [['lit', 42], ['lit', 'A'], ['pred', 'pred_o']]

name = st.sampled_from(PLAIN + sorted(IMPORTABLE) + LOADED +
                       sorted(PREMADE) + ['m.M', 'mod.X'] + MISSING)
anyname = st.one_of(name, st.sampled_from(PLAIN), st.sampled_from(LOADED),
                    st.sampled_from(sorted(IMPORTABLE)))
cls = st.sampled_from([['class', c] for c in CLASSES])
tkey = st.sampled_from([
    ['class', 'E'], ['class', 'F'], ['class', 'G'], ['pred', 'tpred'],
    ['tuple', [['class', 'E'], ['class', 'F']]],
    ['list', [['class', 'E'], ['class', 'F']]],
    ['tuple', [['class', 'F'], ['class', 'E']]],
    ['list', [['class', 'G']]], ['tuple', [['class', 'G']]],
    ['lit', 42], ['lit', 'text'], ['tuple', [['class', 'E'], ['lit', 1]]],
    ['list', [['lit', 1], ['class', 'E']]]])


def names(*xs):
    return st.sampled_from(list(xs))


CLS = ['register_class', 'register_class', 'register_class',
       'unregister_class', 'unregister_class', 'get', 'get', 'send']
THEMES = [
    CLS + ['get', 'load', 'loader', 'unloader', 'package', 'alias_type',
           'alias_type', 'unalias_type', 'add_type', 'get_type',
           'remove_type', 'add_error', 'remove_error', 'send'],
    CLS + ['package', 'package', 'load'],
    CLS + ['loader', 'loader', 'unloader', 'get', 'get', 'load', 'load'],
    CLS + ['alias_type', 'alias_type', 'alias_type', 'unalias_type', 'send'],
    ['add_type', 'add_type', 'get_type', 'remove_type'],
    ['add_error', 'add_error', 'remove_error'],
]


@st.composite
def an_op(draw, nloaders, theme):
    k = draw(names(*THEMES[theme]))
    if k == 'register_class':
        c = draw(st.one_of(cls, cls, cls, cls,
                           st.sampled_from([['class', 'R'], ['lit', 42],
                                            ['lit', 'A'], ['lit', None]])))
        n = draw(st.one_of(st.sampled_from(
            [['lit', x] for x in PLAIN + ['', 'm.M', 'regmod.A', 'load.1',
                                          'pre.A']] +
            [['bytes', x] for x in PLAIN] + [None, None])))
        return [k, c, n]
    if k in ('unregister_class', 'get'):
        return [k, draw(st.one_of(cls, anyname.map(lambda n: ['lit', n])))]
    if k == 'load':
        return [k, ['lit', draw(anyname)]]
    if k == 'loader':
        return [k, draw(st.one_of(st.integers(0, nloaders - 1),
                                  st.integers(0, nloaders - 1),
                                  st.just(['lit', 'no'])))]
    if k == 'unloader':
        return [k, draw(st.integers(0, nloaders - 1))]
    if k == 'package':
        form = draw(names('dict', 'dict', 'list', 'module', 'noname',
                          'other', 'empty', 'junk'))
        members = draw(st.lists(st.sampled_from(CLASSES), max_size=4,
                                unique=True))
        package = draw(names(None, 'pkg', 'p\xe9'))
        kw = {}
        if draw(st.integers(0, 2)) == 0:
            kw['separator'] = draw(names('::', '', '-'))
        if draw(st.integers(0, 2)) == 0:
            kw['ignore'] = draw(st.lists(st.sampled_from(CLASSES),
                                         max_size=3))
        if form == 'noname' or draw(st.integers(0, 2)) == 0:
            kw['strict'] = form != 'noname' and draw(st.booleans())
        if form == 'list':
            package = package or 'pkg'
            kw.pop('strict', None)
        return [k, form, members, package, kw]
    if k == 'alias_type':
        a = draw(st.one_of(names('AT1', 'AT2', 'AT3').map(
            lambda x: ['class', x]), st.just(['class', 'A']),
            st.just(['lit', 3])))
        pool = ATS.get(a[1], [['class', 'A']])
        args = draw(st.lists(st.sampled_from(pool), max_size=2,
                             unique_by=str))
        if draw(st.integers(0, 5)) == 0:
            args.insert(draw(st.integers(0, len(args))), ['lit', 42])
        return [k, a, args]
    if k == 'unalias_type':
        return [k, ['class', draw(names('AT1', 'AT2', 'AT3'))]]
    if k == 'add_type':
        return [k, draw(tkey), draw(st.integers(0, 2))]
    if k in ('get_type', 'remove_type'):
        return [k, draw(tkey)]
    if k == 'add_error':
        return [k, draw(st.sampled_from(
            [['class', c] for c in ('E', 'F', 'G')] * 2 +
            [['class', 'A'], ['lit', 'E'], ['class', 'Old']])),
            ['lit', draw(names(*CODES))]]
    if k == 'remove_error':
        return [k, draw(st.one_of(
            st.sampled_from([['class', c] for c in ('E', 'F', 'G', 'A')] +
                            [['lit', 42]]),
            st.sampled_from([['lit', c] for c in CODES])))]
    return ['send', draw(names(*CLASSES)), draw(names(0, 3)),
            draw(st.integers(0, 1))]


@st.composite
def cases(draw, n):
    loaders = []
    free = list(LOADED)
    for i in range(draw(st.integers(1, 3))):
        a = {}
        for x in draw(st.lists(st.sampled_from(LOADED), min_size=1,
                               max_size=3)):
            if x in free:
                free.remove(x)
                a[x] = draw(st.one_of(
                    st.sampled_from(CLASSES + ['R']).map(
                        lambda c: ['class', c]),
                    st.sampled_from(sorted(PREMADE)).map(
                        lambda c: ['alias', c]),
                    st.just(['junk', 0])))
        loaders.append(a)
    theme = draw(st.sampled_from([0, 0, 1, 2, 2, 3, 3, 4, 5]))
    ops = draw(st.lists(an_op(len(loaders), theme), min_size=5, max_size=n))
    if theme == 2:
        ops = [['loader', i] for i in range(len(loaders))] + ops
    if theme == 3:
        pre = [['register_class', ['class', c], n and ['lit', n]]
               for c, n in draw(st.lists(st.tuples(
                   st.sampled_from(CLASSES),
                   st.sampled_from(PLAIN + [None])), max_size=3))]
        ops = pre + ops
    return {'loaders': loaders, 'ops': ops, 'premade': PREMADE,
            'watch': CLASSES}


class Err(Exception):
    pass


class Rec(object):
    def __init__(self, name, klass, type_='ClassAlias'):
        self.name = name
        self.klass = klass
        self.type = type_
        self.wid = None


class Model(object):
    """The documented meaning of every registry operation."""

    def __init__(self, case):
        self.byname = {}
        self.bycls = {}
        self.loaders = case['loaders']
        self.active = set()
        self.atypes = {}
        self.types = {}
        self.errors = {}
        self.premade = dict((n, Rec(n, c)) for n, c in PREMADE.items())
        self.modalias = Rec('mod.X', 'X')
        self.ids = {}
        self.feats = set()

    # -- helpers
    def rec(self, r):
        return ['rec', r]

    def type_of(self, c):
        for at, args in self.atypes.items():
            for k, v in args:
                if k == 'class' and v in BASES.get(c, [c]):
                    return at
                if v == 'pred_o' and c.startswith('O'):
                    return at
                if v == 'pred_x' and c == 'X':
                    return at
        return 'ClassAlias'

    def register(self, c, n):
        if c == 'R':
            raise Err('TypeError')
        if n is None and c == 'M':
            n = 'm.M'
        if n == '':
            raise Err('ValueError')
        r = Rec(n, c, self.type_of(c))
        if n is not None:
            if n in self.byname:
                self.feats.add('replace')
            self.byname[n] = r
        if c in self.bycls:
            self.feats.add('again')
        self.bycls[c] = r
        return r

    def adopt(self, r):
        self.byname[r.name] = r
        self.bycls[r.klass] = r
        return r

    def lookup(self, n):
        """-> record; sets self.calls to the loaders consulted"""
        if n in self.byname:
            return self.byname[n]
        ans = [i for i in self.active if n in self.loaders[i]]
        if n == 'flex.nothing':
            self.calls = ['some', n]
            raise Err('UnknownClassAlias')
        if ans:
            self.feats.add('loader')
            self.calls = ['some', n, ans[0]]
            kind, v = self.loaders[ans[0]][n]
            if kind == 'class':
                return self.register(v, n)
            if kind == 'alias':
                return self.adopt(self.premade[v])
            raise Err('TypeError')
        self.calls = ['all', n]
        if n in IMPORTABLE:
            self.feats.add('import')
            c = IMPORTABLE[n]
            if c in self.bycls and self.bycls[c].name is not None:
                return self.bycls[c]
            return self.register(c, n)
        if n == 'regmod.anAlias':
            return self.adopt(self.modalias)
        raise Err('UnknownClassAlias')

    # -- operations
    def run(self, op):
        self.calls = None
        return getattr(self, 'o_' + op[0])(*op[1:])

    def o_register_class(self, k, n):
        if k[0] != 'class':
            raise Err('TypeError')
        return self.rec(self.register(k[1], None if n is None else n[1]))

    def o_unregister_class(self, k):
        d = self.bycls if k[0] == 'class' else self.byname
        r = d.get(k[1])
        if r is None:
            raise Err('UnknownClassAlias')
        self.feats.add('unregister')
        if self.byname.get(r.name) is r:
            del self.byname[r.name]
        if self.bycls.get(r.klass) is r:
            del self.bycls[r.klass]
        return self.rec(r)

    def o_get(self, k):
        if k[0] == 'class':
            if k[1] not in self.bycls:
                raise Err('UnknownClassAlias')
            return self.rec(self.bycls[k[1]])
        return self.rec(self.lookup(k[1]))

    def o_load(self, k):
        return self.rec(self.lookup(k[1]))

    def o_loader(self, i):
        if not isinstance(i, int):
            raise Err('TypeError')
        self.active.add(i)

    def o_unloader(self, i):
        if i not in self.active:
            raise Err('LookupError')
        self.active.remove(i)

    def o_package(self, form, members, package, kw):
        if form in ('empty', 'junk'):
            raise Err('TypeError')
        sep = kw.get('separator', '.')
        if form == 'module':
            members = ['A', 'B', 'Old']
            package = package or 'regmod'
        if form == 'noname' and package is None:
            raise Err('TypeError')
        if package is None:
            package = {'dict': 'regmod', 'other': 'elsewhere'}[form]
        if form == 'other' and kw.get('strict', True):
            members = []
        out = []
        for m in members:
            if m in kw.get('ignore', ()):
                continue
            out.append([m, self.rec(self.register(m, package + sep + m))])
        return sorted(out, key=lambda x: x[0])

    def o_alias_type(self, k, args):
        if k[0] != 'class':
            raise Err('TypeError')
        if k[1] not in ATS or not args:
            raise Err('ValueError')
        taken = [str(a) for v in self.atypes.values() for a in v]
        if len(args) == 1 and args[0][0] != 'lit':
            if str(args[0]) in taken:
                raise Err('RuntimeError')
        else:
            for a in args:
                if a[0] != 'class':
                    raise Err('TypeError')
                if str(a) in taken:
                    raise Err('RuntimeError')
        self.atypes[k[1]] = args
        new = {}
        for d in (self.byname, self.bycls):
            for key, r in list(d.items()):
                if self.type_of(r.klass) == k[1]:
                    if r not in new:
                        new[r] = Rec(r.name, r.klass, k[1])
                    d[key] = new[r]
                    self.feats.add('retype')

    def o_unalias_type(self, k):
        r = self.atypes.pop(k[1], None)
        if r is None:
            return None
        return [a[1] for a in r]

    def tk(self, t):
        return str(['tuple', t[1]]) if t[0] == 'list' else str(t)

    def o_add_type(self, t, f):
        if self.tk(t) in self.types:
            raise Err('KeyError')
        if t[0] == 'lit' or (t[0] in ('tuple', 'list') and
                             any(x[0] == 'lit' for x in t[1])):
            raise Err('TypeError')
        self.types[self.tk(t)] = f

    def o_get_type(self, t):
        if self.tk(t) not in self.types:
            raise Err('KeyError')
        return self.types[self.tk(t)]

    def o_remove_type(self, t):
        if self.tk(t) not in self.types:
            raise Err('KeyError')
        self.feats.add('type')
        return self.types.pop(self.tk(t))

    def o_add_error(self, k, code):
        if k[0] != 'class' or k[1] not in ('E', 'F', 'G'):
            raise Err('TypeError')
        if code[1] in self.errors or code[1] in BUILTIN_ERRORS:
            raise Err('ValueError')
        self.errors[code[1]] = k[1]
        self.feats.add('error')

    def o_remove_error(self, k):
        if k[0] == 'class':
            if k[1] not in self.errors.values():
                raise Err('ValueError')
            return 'any'        # one of the codes, checked by the caller
        if not isinstance(k[1], str):
            raise Err('TypeError')
        if k[1] == 'TypeError':
            # a built-in one, set aside by the generator's assumption
            self.gone = True
            raise Err('skip')
        if k[1] not in self.errors:
            raise Err('ValueError')
        del self.errors[k[1]]

    def o_send(self, c, ver, reuse):
        r = self.bycls.get(c)
        if r is None:
            r = Rec('m.M' if c == 'M' else None, c, self.type_of(c))
        self.feats.add('send')
        return ['sent', r, ver]


class Registries(Prop):
    modules = ('registry',)
    quick = 6000
    thorough = 150000
    rule = ('Case: 5-16 operations (register/unregister classes, packages, '
            'class loaders, alias types, custom types, error classes, '
            'lookups, encodings) with valid and invalid arguments, run on '
            'the real registries and on a model; every result, error, '
            'loader call and the registration of every class are compared '
            'after every operation. Non-trivial: at least one registration '
            'was replaced, removed, retyped, loaded or imported.')
    assumptions = ['alias types whose patterns overlap and two loaders '
                   'answering the same name are not generated: their '
                   'precedence is not documented']

    def strategy(self, tier):
        return cases(16 if tier == 'quick' else 30)

    def same(self, m, got, r, what):
        require(isinstance(got, list) and got[0] == 'alias', what +
                ' gave no alias', got)
        wid, n, klass, type_, anon = got[1:]
        want = [r.name or '', r.klass, r.type, r.name is None]
        require([n, klass, type_, anon] == want, what + ' gave', got[2:],
                'instead of', want)
        if r.wid is None:
            require(wid not in m.ids, what + ' gave a registration that is '
                    'not the current one', got)
            r.wid = wid
            m.ids[wid] = r
        require(r.wid == wid, what + ' gave another registration', got)

    def check(self, w, case):
        ops = [o for o in case['ops']
               if o != ['remove_error', ['lit', 'TypeError']]]
        case = dict(case, ops=ops)
        m = Model(case)
        out = w.call('registry', **case)
        for i, (op, (res, calls, classes, errors, late)) in enumerate(
                zip(ops, out)):
            what = 'operation %d %r of %r' % (i, op, case)
            try:
                want = ['ok', m.run(op)]
            except Err as e:
                want = ['error', str(e)]
            if want[0] == 'error':
                require(res[0] == 'error' and want[1] in res[1],
                        what + ' was not refused', res, want)
            else:
                require(res[0] == 'ok', what + ' failed', res)
                a, b = want[1], res[1]
                if op[0] == 'package':
                    require([x[0] for x in a] == [x[0] for x in b],
                            what + ' registered other classes', b)
                    for x, y in zip(a, b):
                        self.same(m, y[1], x[1][1], what)
                elif isinstance(a, list) and a and a[0] == 'rec':
                    self.same(m, b, a[1], what)
                elif op[0] == 'send':
                    self.sent(a, b, what)
                elif a == 'any':
                    gone = [c for c in m.errors if c not in errors]
                    require(len(gone) == 1 and m.errors[gone[0]] == op[1][1],
                            what + ' removed', gone)
                    del m.errors[gone[0]]
                else:
                    require(a == b, what + ' gave', b, a)
            # the loaders are consulted when nothing is registered, once each
            c = m.calls
            if c is None:
                require(not calls, what + ' called a loader', calls)
            else:
                ids = [x[0] for x in calls]
                require(len(set(ids)) == len(ids) and
                        all(x[1] == c[1] for x in calls) and
                        set(ids) <= m.active, what + ' called loaders', calls)
                if c[0] == 'all':
                    require(set(ids) == m.active, what +
                            ' did not ask every loader', calls)
                elif len(c) > 2:
                    require(c[2] in ids, what + ' did not ask', calls)
            require(late == 0, what + ': looking up a class called a loader')
            for n in case['watch']:
                r = m.bycls.get(n)
                if r is None:
                    require(classes[n] is None, what + ' left class registered',
                            n, classes[n])
                else:
                    self.same(m, classes[n], r, what + ', looking up ' + n)
            mine = dict((k, v) for k, v in errors.items()
                        if k not in BUILTIN_ERRORS)
            require(mine == m.errors and BUILTIN_ERRORS <= set(errors),
                    what + ' left error classes', mine, m.errors)
        f = m.feats
        return bool(f & {'replace', 'again', 'unregister', 'loader', 'import',
                         'retype', 'type', 'error'}), sorted(f)

    def sent(self, a, b, what):
        data = bytes.fromhex(b)
        _, r, ver = a
        rs, pos = amfref.decode_all(ver, data, 1)
        x = rs[0]
        name = x.cls or ''
        require(name == (r.name or ''), what + ' sent class name', name,
                r.name, b)
        require((b'via' in data) == (r.type != 'ClassAlias'),
                what + ' used another alias type than', r.type, b)


PROP = Registries()
PROP.id = 'C16'
