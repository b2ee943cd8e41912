from hypothesis import strategies as st

from pbt.core import Prop, Violation, require
from pbt import model
from pbt.model import R

KINDS = ['l', 'l', 'l', 'm', 'o', 'M', 'Plain', 'Anon', 'Old', 'Static', 'SD',
         'Slots', 'Kid', 'Uni']
FLEX = ['ac', 'op', 'B', 'Ext', 'd', 'x']
LEAVES = ('B', 'd', 'x')
DATES = [[2010, 1, 2, 3, 4, 5], [1970, 1, 1, 0, 0, 0],
         [1965, 12, 31, 23, 0, 0]]
XMLS = [['a', [], '', [], ''], ['b', [['k', 'v']], 'text', [], '']]
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']
FIXED_NAMES = {'Static': ['a', 'b'], 'Slots': ['p', 'q'],
               'Ext': ['a', 'b'], 'SD': ['s1', 's2', 'zz', 'yy'],
               'Kid': ['k', 's1', 's2', 'zz']}


@st.composite
def graph(draw):
    ver = draw(st.sampled_from([0, 3]))
    n = draw(st.integers(1, 9))
    kinds = KINDS if ver == 0 else KINDS + FLEX
    if draw(st.booleans()):     # all of one kind: equal but distinct objects
        kinds = [draw(st.sampled_from(kinds))]
    elif ver == 0 and draw(st.integers(0, 4)) == 4:
        kinds = KINDS + FLEX[:3] + ['d']
    nodes = []
    for i in range(n):
        k = draw(st.sampled_from(kinds))
        if k == 'B':
            nodes.append([k, draw(st.sampled_from(['', '00', '0102'])),
                          draw(st.integers(0, 1))])
            continue
        if k in ('d', 'x'):
            nodes.append([k, draw(st.sampled_from(DATES if k == 'd' else
                                                  XMLS))])
            continue
        target = st.one_of(st.integers(0, n - 1), st.integers(0, n - 1),
                           st.integers(0, n - 1),
                           st.sampled_from([['n'], ['i', '7'], ['s', 'x'],
                                            ['b', 1]]))
        if k == 'op':
            nodes.append([k, [['', draw(st.integers(0, n - 1))]]])
            continue
        ts = draw(st.lists(target, max_size=4))
        if k in ('l', 'ac'):
            nodes.append([k, [['', t] for t in ts]])
        elif k == 'M':
            keys = draw(st.permutations([0, 1, 2, 'a', 'b', 5]))
            nodes.append([k, [[x, t] for x, t in zip(keys, ts)]])
        else:
            names = FIXED_NAMES.get(k, NAMES)
            if k == 'Slots':    # slots without a value cannot be sent
                ts = (ts + [['n'], ['n']])[:2]
            nodes.append([k, [[x, t] for x, t in zip(names, ts)]])
    # proxies wrap objects
    objs = [i for i, x in enumerate(nodes) if x[0] not in (
        'l', 'ac', 'op', 'M') + LEAVES]
    for x in nodes:
        if x[0] == 'op':
            if objs:
                x[1][0][1] = objs[x[1][0][1] % len(objs)]
            else:
                x[:] = ['l', []]
    roots = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
    pad = draw(st.sampled_from([0] * 20 + [60, 63, 64, 127, 128]))
    return {'v': ver, 'nodes': nodes, 'roots': roots, 'pad': pad}


def rgraph(nodes):
    out = []
    for n in nodes:
        k = n[0]
        if k == 'd':
            out.append(('d',) + tuple(n[1]))
            continue
        r = R(k if k in ('l', 'm', 'o', 'M', 'ac', 'op', 'B', 'x') else 'c')
        if r.t == 'c':
            r.name = k
        if k == 'B':
            r.data = (n[1], n[2])
        if k == 'x':
            r.data = n[1]
        out.append(r)
    for n, r in zip(nodes, out):
        if n[0] in LEAVES:
            continue
        ps = [(k, out[t] if isinstance(t, int) else tuple(t))
              for k, t in n[1]]
        if r.t in ('l', 'ac', 'op'):
            r.items = [v for _, v in ps]
        else:
            r.pairs = ps
    return out


def tree(nodes, i):
    """A node of an acyclic graph with nothing shared below it."""
    k, ps = nodes[i]
    r = R(k if k in ('l', 'm') else 'c')
    r.name = k
    ps = [(x, tree(nodes, t) if isinstance(t, int) else tuple(t))
          for x, t in ps]
    if k == 'l':
        r.items = [v for _, v in ps]
    else:
        r.pairs = ps
    KEEP.append(r)
    return r


KEEP = []       # the model goes by identity


class Identity(Prop):
    modules = ('vals',)
    quick = 7200
    thorough = 200000
    rule = ('Case: an object graph of 1-9 nodes with arbitrary edges (shared, '
            'cyclic, self-referring, equal but distinct), 1-4 roots written '
            'by one encoder and read by one decoder, optionally after a pad '
            'of unrelated lists that pushes reference numbers over the '
            'boundaries of their encoding. Non-trivial: some node is reached '
            'over two different edges.')
    assumptions = ['AMF0 references are 16 bit: identity is claimed for the '
                   'first 65536 objects, equality of the copies past them',
                   'AMF0 and an AMF3 value inside it have separate '
                   'reference tables, as specified']

    def strategy(self, tier):
        return graph()

    def fixed(self, tier):
        return [
            {'v': v, 'nodes': n, 'roots': r, 'pad': 0}
            for v in (0, 3)
            for n, r in (
                ([['l', [['', 0]]]], [0, 0]),
                ([['l', []], ['l', []]], [0, 1, 0, 1]),
                ([['m', [['a', 1]]], ['l', [['', 0]]]], [1, 0]),
                ([['Plain', [['a', 0]]]], [0]),
                ([['Static', [['a', 0], ['b', 1]]],
                  ['Static', [['a', 0]]]], [0]),
            )] + [
            {'v': v, 'nodes': [['Plain', [['a', 1]]], ['l', [['', 0]]]],
             'roots': [0, 1, 0], 'pad': p}
            for v in (0, 3) for p in (8190, 16384)] + [
            # past the reach of AMF0's references: copies, but equal
            {'v': 0, 'nodes': [['Plain', [['a', 1], ['b', 2]]],
                               ['l', [['', ['i', '7']], ['', 2]]],
                               ['m', [['x', ['s', 'y']]]]],
             'roots': [0, 1, 0, 2], 'pad': 65537, 'copies': 1},
            {'v': 3, 'nodes': [['Plain', [['a', 1]]], ['l', [['', 0]]]],
             'roots': [0, 1, 0], 'pad': 65537}]

    def check(self, w, case):
        nodes = case['nodes']
        roots = case['roots']
        if case['pad']:
            # a list holding `pad` distinct empty lists comes first
            base = len(nodes)
            nodes = nodes + [['l', [['', base + 1 + i]
                                    for i in range(case['pad'])]]] + \
                [['l', []]] * case['pad']
            roots = [base] + roots
        e = model.Enc(case['v'])
        if case.get('copies'):
            ws = [e.enc(tree(nodes, i)) for i in roots]
        else:
            rs = rgraph(nodes)
            ws = [e.enc(rs[i]) for i in roots]
        d = model.Dec(case['v'])
        want = model.dump_values([d.dec(x) for x in ws])
        labels = ['v%d' % case['v']] + sorted({n[0] for n in case['nodes']})
        if case['pad']:
            labels.append('pad')
        got = w.call('graph', v=case['v'], nodes=nodes, roots=roots)
        if 'dec_error' in got:
            raise Violation('decoding what was encoded failed: %s %s (%s)' % (
                got['dec_error'], got['msg'], got['hex'][:400]))
        x = model.diff(got['vals'], want)
        if x:
            raise Violation('the decoded graph differs at %s; bytes %s' % (
                x, got['hex'][:400]))
        require(got['before'] == got['after'], 'encoding changed the graph')
        require(got['left'] == 0, 'bytes left over', got['left'])
        indeg = {}
        for i in case['roots']:
            indeg[i] = indeg.get(i, 0) + 1
        for n in case['nodes']:
            if n[0] not in LEAVES:
                for _, t in n[1]:
                    if isinstance(t, int):
                        indeg[t] = indeg.get(t, 0) + 1
        return max(indeg.values()) > 1, labels


PROP = Identity()
PROP.id = 'C07'
