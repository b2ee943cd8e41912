from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import amfref, gen, model

index = st.one_of(st.integers(-3, 8), st.sampled_from(
    [-2 ** 31, 2 ** 31, -1, 0, 1]))
scalar = st.one_of(
    st.sampled_from([['s', 'a'], ['s', 'b'], ['i', '1'], ['i', '2'], ['n'],
                     ['b', 1], ['f', '3ff0000000000000'], ['y', 'a'],
                     ['l', []], ['m', []], ['l', [['s', 'a']]]]),
    gen.short_text.map(lambda s: ['s', s]),
    st.integers(-300, 300).map(lambda n: ['i', str(n)]))
item = st.one_of(scalar, scalar, scalar, gen.value(gen.Opts(
    3, xml=False, refs=False, max_nodes=4, classes=['Plain', 'SD', 'Anon']),
    2), st.integers(0, 5).map(lambda n: ['r', n]))


# equal to each other though not the same
like = st.one_of(st.sampled_from(
    [['i', '1'], ['f', '3ff0000000000000'], ['b', 1], ['i', '0'], ['b', 0],
     ['f', '0000000000000000'], ['L', '1'], ['y', 'a'], ['s', 'a']]),
    st.integers(0, 5).map(lambda n: ['r', n]))


def op(item):
    return st.one_of(
        st.tuples(st.sampled_from(['getItemIndex', 'remove', 'count', 'in']),
                  item),
        st.tuples(st.sampled_from(['addItem', 'append', 'getItemIndex',
                                   'remove', 'count', 'in']), item),
        st.tuples(st.just('addItem'), item),
        st.tuples(st.just('addItemAt'), item, index),
        st.tuples(st.just('addItemAt'), item, index),
        st.tuples(st.just('setItemAt'), item, index),
        st.tuples(st.just('setItemAt'), item, index),
        st.tuples(st.just('getItemAt'), index),
        st.tuples(st.just('getItemAt'), index, st.integers(0, 3)),
        st.tuples(st.just('removeItemAt'), index),
        st.tuples(st.just('removeItemAt'), index),
        st.tuples(st.just('removeAll')),
        st.tuples(st.just('toArray')),
        st.tuples(st.just('insert'), item, st.integers(-9, 9)),
        st.tuples(st.sampled_from(['extend', 'iadd']),
                  st.lists(item, max_size=3)),
        st.tuples(st.just('set'), item, st.integers(-9, 9)),
        st.tuples(st.sampled_from(['get', 'del', 'pop']),
                  st.integers(-9, 9)),
        st.tuples(st.just('pop')),
        st.tuples(st.just('reverse')),
        st.tuples(st.just('slice'), st.integers(0, 4), st.integers(0, 6)),
        st.tuples(st.just('length'), st.integers(0, 5)),
        st.tuples(st.just('code'))).map(list)


name = st.one_of(st.sampled_from(['a', 'b', 'label', '_x', 'keys_', 'source',
                                  'length', 'x1', 'k', 's1', 's2']),
                 st.text('abcxyz_0', min_size=1, max_size=4)).filter(
    lambda s: not s[0].isdigit() and not s.startswith('__') and
    s != '_amf_object')
pval = st.one_of(scalar, gen.value(gen.Opts(
    3, xml=False, refs=False, max_nodes=4, classes=['Plain', 'SD', 'Anon']),
    2))


def eq(a, b):
    """Python equality of two recipes, or None if that is not for us to
    say."""
    def plain(r):
        return r[0] in 'snyibLf' and len(r[0]) == 1

    def val(r):
        if r[0] in 'iLb':
            return int(r[1])
        if r[0] == 'f':
            return None if r[1] == 'nan' else model.h2f(r[1])
        if r[0] == 'n':
            return ()
        return r[1]
    if plain(a) and plain(b):
        for x in (a, b):
            if x[0] == 'y' and not x[1].isascii():
                return None
            if x == ['f', 'nan']:
                return None
        return val(a) == val(b) and \
            isinstance(val(a), str) == isinstance(val(b), str)
    if plain(a) != plain(b):
        # byte arrays equal their bytes
        return None if {'u', 'B'} & {a[0], b[0]} else False
    if a[0] != b[0]:
        return None
    if a[0] in ('l', 't') and len(a[1]) != len(b[1]):
        return False
    if a[0] == 'l' and a[1] == b[1] and all(x[0] in 'si' for x in a[1]):
        return True
    if a[0] == 'm' and not a[1] and not b[1]:
        return True
    return None


class Unsure(Exception):
    pass


class Coll(object):
    """The ideal list: numbers of the things made."""

    def __init__(self):
        self.made = []
        self.items = []

    def make(self, r):
        if r[0] == 'r':
            return r[1]
        self.made.append(r)
        return len(self.made) - 1

    def find(self, i, first=True):
        hits = []
        for n, j in enumerate(self.items):
            e = True if i == j else eq(self.made[i], self.made[j])
            if e is None:
                raise Unsure()
            if e:
                hits.append(n)
        return hits


def settle(rs, n):
    """Backward references to what exists."""
    out = []
    for r in rs:
        if r[0] == 'r':
            if n == 0:
                r = ['n']
            else:
                r = ['r', r[1] % n]
        if r[0] != 'r':
            n += 1
        out.append(r)
    return out, n


class Flex(Prop):
    modules = ('vals', 'flexcol')
    quick = 6000
    thorough = 200000
    rule = ('Case: an ArrayCollection made from one of 8 kinds of source '
            'goes through 1-16 operations (all IList methods and the usual '
            'list ones, any index); after each the result, the items (by '
            'identity), the length and refusals are compared with an ideal '
            'list; encoded in both formats, bare, with proxies and inside '
            'other values, read by an independent decoder and decoded. Or '
            'an ObjectProxy and a twin of what it wraps go through the same '
            'attribute operations. Non-trivial: at least two operations.')
    assumptions = ['equality of items with themselves decides getItemIndex; '
                   'items for which Python equality is not modelled are '
                   'not searched for',
                   'attribute names are ASCII and not double-underscored']

    def strategy(self, tier):
        coll, alike = [st.fixed_dictionaries({
            'source': st.tuples(st.sampled_from(
                ['none', 'list', 'tuple', 'iter', 'gen', 'coll', 'kw',
                 'dict', 'list']), st.lists(i, max_size=5)).map(list),
            'ops': st.lists(op(i), min_size=1, max_size=16)})
            for i in (item, like)]
        obj = st.one_of(
            st.lists(st.tuples(name, pval).map(list), max_size=3,
                     unique_by=lambda p: p[0]).map(
                         lambda ps: ['o', sorted(ps)]),
            st.lists(st.tuples(name, pval).map(list), max_size=3,
                     unique_by=lambda p: p[0]).map(
                         lambda ps: ['c', 'Plain', sorted(ps)]),
            st.lists(st.tuples(name, pval).map(list), max_size=3,
                     unique_by=lambda p: p[0]).map(
                         lambda ps: ['c', 'Anon', sorted(ps)]))
        pop = st.one_of(
            st.tuples(st.sampled_from(['get', 'default', 'has']), name),
            st.tuples(st.sampled_from(['set', 'set', 'under']), name, pval),
            st.tuples(st.just('code'), st.none())).map(list)
        proxy = st.fixed_dictionaries({
            'kind': st.sampled_from(['none', 'obj', 'obj', 'obj']),
            'obj': obj, 'ops': st.lists(pop, min_size=1, max_size=10)})
        return st.one_of(coll, coll, alike, coll, proxy)

    def check(self, w, case):
        if 'kind' in case:
            return self.proxy(w, case)
        return self.coll(w, case)

    def proxy(self, w, case):
        got = w.call('proxy', **case)
        labels = {'proxy', case['kind'] if case['kind'] == 'none'
                  else case['obj'][-2]}
        for o, (a, b, x, y) in zip(case['ops'], got):
            d = model.diff(x, y)
            require(not d, 'what is wrapped after %s' % o[:2], d)
            if o[0] == 'code':
                for r in a:
                    require('error' not in r and r['n'] == 1 and
                            r['cls'] == 'ObjectProxy', 'proxy decoded', r)
                    require(r.get('same', True), 'sharing of a proxy', r)
            else:
                require(a == b, '%s through the proxy' % o[:2], a, b)
        # what it carries: C01, C02, C32
        return len(got) > 1, sorted(labels)

    def coll(self, w, case):
        m = Coll()
        src, n = settle(case['source'][1], 0)
        ops = []
        for o in case['ops']:
            o = list(o)
            if o[0] in ('extend', 'iadd'):
                o[1], n = settle(o[1], n)
            elif len(o) > 1 and isinstance(o[1], list):
                (o[1],), n = settle([o[1]], n)
            ops.append(o)
        m.items = [m.make(r) for r in src]
        if case['source'][0] == 'none':
            m.items = []
        # first pass leaves out what cannot be decided
        plan = []
        ops2 = []
        save = list(m.made), list(m.items)
        for o in ops:
            try:
                plan.append(self.step(m, o))
                ops2.append(o)
            except Unsure:
                # the thing is made all the same
                ops2.append(['getItemAt', -1])
                plan.append(('IndexError', None, list(m.items)))
                # numbering stays right only if the worker makes it, too
                if o[1][0] != 'r':
                    ops2[-1] = ['addItemAt', o[1], -1]
        got = w.call('coll', source=[case['source'][0], src], ops=ops2)
        labels = {case['source'][0]}
        if case['source'][0] == 'dict':
            require(got == [{'error': 'TypeError'}], 'from a dict', got)
            return True, ['dict']
        self.same(got[0], save[1], 'made from ' + case['source'][0])
        for o, p, g in zip(ops2, plan, got[1:]):
            err, want, items = p
            what = str(o)[:200]
            labels.add(o[0])
            if err:
                require(g.get('error') == err, what + ' not refused', g, err)
                labels.add('refused')
            else:
                require('error' not in g, what + ' refused', g)
                if o[0] == 'code':
                    self.coded(what, g, labels)
                elif o[0] in ('toArray', 'slice'):
                    require(len(g['r']) == len(want) and all(
                        x in y for x, y in zip(want, g['r'])), what, g, want)
                elif want is not None and not isinstance(want, tuple):
                    require(want in g['r'], what, g, want)
                else:
                    require(g.get('r') == (want and want[0]), what, g, want)
            self.same(g, items, what)
        return len(ops2) > 1, sorted(labels)

    def same(self, g, items, what):
        require(len(g['ids']) == len(items) and all(
            i in x for i, x in zip(items, g['ids'])),
            'items after ' + what, g['ids'], items)
        require(g['len'] == [len(items)] * 2, 'length after ' + what, g)

    def step(self, m, o):
        """-> (error or None, result, items after). The result is the number
        of an item, a tuple of one plain value, a list of numbers (toArray,
        slice) or None."""
        k = o[0]
        L = m.items
        err = r = None
        n = len(L)
        if k in ('addItem', 'append'):
            L.append(m.make(o[1]))
        elif k == 'getItemIndex':
            h = self.find(m, o[1])
            r = (h[0] if h else -1,)
        elif k == 'remove':
            h = self.find(m, o[1])
            if h:
                del L[h[0]]
            else:
                err = 'ValueError'
        elif k == 'count':
            r = (len(self.find(m, o[1])),)
        elif k == 'in':
            r = (int(bool(self.find(m, o[1]))),)
        elif k == 'addItemAt':
            i = m.make(o[1])
            if 0 <= o[2] <= n:
                L.insert(o[2], i)
            else:
                err = 'IndexError'
        elif k == 'setItemAt':
            i = m.make(o[1])
            if 0 <= o[2] < n:
                r = L[o[2]]
                L[o[2]] = i
            else:
                err = 'IndexError'
        elif k in ('getItemAt', 'removeItemAt'):
            if 0 <= o[1] < n:
                r = L[o[1]] if k == 'getItemAt' else L.pop(o[1])
            else:
                err = 'IndexError'
        elif k == 'pop':
            i = o[1] if len(o) > 1 else -1
            if -n <= i < n:
                r = L.pop(i)
            else:
                err = 'IndexError'
        elif k == 'removeAll':
            del L[:]
        elif k == 'toArray':
            r = list(L)
        elif k == 'insert':
            L.insert(o[2], m.make(o[1]))
        elif k in ('extend', 'iadd'):
            L.extend([m.make(x) for x in o[1]])
        elif k == 'set':
            i = m.make(o[1])
            if -n <= o[2] < n:
                L[o[2]] = i
            else:
                err = 'IndexError'
        elif k == 'get':
            if -n <= o[1] < n:
                r = L[o[1]]
            else:
                err = 'IndexError'
        elif k == 'del':
            if -n <= o[1] < n:
                del L[o[1]]
            else:
                err = 'IndexError'
        elif k == 'reverse':
            L.reverse()
        elif k == 'slice':
            r = L[o[1]:o[2]]
        elif k == 'length':
            err = 'AttributeError'
        return err, r, list(L)

    def find(self, m, r):
        return m.find(m.make(r))

    def coded(self, what, g, labels):
        modes = [(v, how) for v in (0, 3)
                 for how in ('plain', 'proxies', 'inside')
                 if v or how != 'proxies']
        if any('error' in r for r in g['coded']):
            # only what AMF cannot carry at all
            require(all('error' in r for r in g['coded']), 'encoding', g)
            require(g['items'] is None, 'encoding refused', g)
            labels.add('unsendable')
            return
        for (v, how), r in zip(modes, g['coded']):
            require(r['n'] == 1 and r['cls'] == 'ArrayCollection',
                    'decoded as', r)
            require(r.get('same', True), 'decoded twice', r)
            if how != 'proxies':
                d = model.diff(r['list'], g['items'])
                require(not d, 'items decoded (%s, AMF%d)' % (how, v), d)
            try:
                x, _ = amfref.decode_all(v, bytes.fromhex(r['hex']))
            except amfref.Bad as e:
                raise Violation('malformed: %s %s' % (e, r['hex'][:400]))
            if how == 'inside':
                continue
            x = x[0]
            if v == 0:
                require(x[0] == 'amf3', 'not in AMF3', x)
                x = x[1]
            require(getattr(x, 'cls', None) == model.AC and x.ext is not None,
                    'no array collection on the wire', x)


PROP = Flex()
PROP.id = 'C29'
