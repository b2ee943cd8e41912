from hypothesis import strategies as st

from pbt.core import Prop, Violation, require

TOPS = ['qa', 'qb', 'qc']
STDLIB = ['sndhdr', 'colorsys', 'chunk', 'xml.sax.saxutils']


@st.composite
def tree(draw):
    """[[name, is package, statements, value]]; leaves of different packages
    share names with each other and with top level modules."""
    out = []
    for t in TOPS[:draw(st.sampled_from([3, 2, 2, 1]))]:
        pkg = draw(st.integers(0, 2)) > 0
        out.append([t, pkg])
        if not pkg:
            continue
        for s in draw(st.lists(st.sampled_from(['qa', 'qb', 'x', 'y']),
                               max_size=3, unique=True)):
            sub = draw(st.integers(0, 3)) == 0
            out.append([t + '.' + s, sub])
            if sub:
                for u in draw(st.lists(st.sampled_from(['x', 'z']),
                                       max_size=2, unique=True)):
                    out.append([t + '.' + s + '.' + u, False])
    return out


@st.composite
def case(draw):
    mods = draw(tree())
    names = [m[0] for m in mods]
    nothing = ['qa.nope', 'qb.qc', 'qb.sndhdr', 'qa.qworld', 'nope',
               'qc.qa', 'qa.qa']
    nothing = [n for n in nothing if n not in names]
    real = st.sampled_from(names)
    some = st.integers(0, 7).flatmap(
        lambda i: real if i else st.sampled_from(nothing))
    hookable = st.integers(0, 9).flatmap(
        lambda i: real if i else st.sampled_from(STDLIB + nothing))
    ids = [0]
    acts = draw(st.integers(0, 3)) == 0

    def hook(depth):
        def one():
            ids[0] += 1
            i = ids[0]
            a = []
            if acts and depth < 2:
                for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
                    if draw(st.integers(0, 1)):
                        a.append(['imp', draw(some)])
                    else:
                        a.append(hook(depth + 1))
            return [i, a]
        return ['hook', draw(hookable),
                [one() for _ in range(draw(st.sampled_from([1, 1, 2, 0])))],
                draw(st.sampled_from(['', '', 'adapter', 'finder']))]

    def statement(m):
        k = draw(st.integers(0, 11))
        rel = [n[len(m) + 1:] for n in names if n.startswith(m + '.')] + \
            [n.rsplit('.', 1)[-1] for n in names]
        any_ = st.one_of(some, some, st.sampled_from(rel + STDLIB))
        if k < 3:
            return ['imp', draw(some)]
        if k < 5:
            return [draw(st.sampled_from(['try', 'tryplain'])), draw(any_)]
        if k < 6:
            return ['plain', draw(any_)]
        if k < 8:
            n = draw(some)
            if '.' in n:
                return [draw(st.sampled_from(['from', 'tryfrom']))] + \
                    n.rsplit('.', 1)
            return ['try', n]
        if k < 10:
            return hook(2)
        if k < 11:
            return ['fail', draw(st.sampled_from([1, 1, 2, 99]))]
        return ['tryplain', draw(any_)]

    for i, m in enumerate(mods):
        body = [statement(m[0]) for _ in range(draw(
            st.sampled_from([0, 0, 1, 1, 2, 3])))]
        if draw(st.integers(0, 11)) == 0:
            body.append(['replace'])
        m += [body, i + 1]
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.integers(0, 9))
        if k < 4:
            ops.append(hook(0))
        elif k < 8:
            ops.append(['imp', draw(st.one_of(some, some, st.sampled_from(
                STDLIB)))])
        elif k < 9:
            n = draw(some)
            ops.append(['from'] + n.rsplit('.', 1) if '.' in n else
                       ['imp', n])
        else:
            ops.append(['forget', draw(some)])
    # what waits is imported in the end
    for o in ops[:]:
        if o[0] == 'hook' and draw(st.integers(0, 2)):
            ops.append(['imp', o[1]])
    return {'modules': mods, 'ops': ops}


def walk(trace):
    """Checks a trace; the hooks which ran and those pending."""
    pending = {}
    ran = []
    pos = [0]

    def next_():
        x = trace[pos[0]]
        pos[0] += 1
        return x

    def hooks(ids, name, why):
        for i in ids:
            x = next_()
            require(x[:3] == ['hook', i, name], 'hook %d of %s did not run %s'
                    % (i, name, why), x)
            require(x[3] and x[4], 'hook %d got something other than the '
                    'module' % i, x)
            ran.append(i)
            events(['endhook', i])

    def events(until):
        while True:
            x = next_()
            if x == until:
                return
            k = x[0]
            require(k not in ('hook', 'endhook', 'endreg', 'end'),
                    'unexpected', x, trace)
            if k == 'reg':
                if x[3]:
                    hooks(x[2], x[1], 'at once')
                else:
                    pending.setdefault(x[1], []).extend(x[2])
                require(next_() == ['endreg'], 'registering did something '
                        'else', x, trace)
            elif k == 'done':
                hooks(pending.pop(x[1], []), x[1], 'when it was imported')

    events(['end'])
    return ran, {k: len(v) for k, v in pending.items() if v}


class Imports(Prop):
    modules = ('vals', 'imps')
    quick = 2000
    thorough = 80000
    rule = ('Case: a generated tree of 1-12 modules and packages whose bodies '
            'import each other (absolutely or implicitly relative), fail for '
            'a while, replace themselves or register hooks, and a history of '
            'registrations (whose hooks may import or register more), '
            'imports and removals from sys.modules; run with and without '
            'hooks. Non-trivial: at least one hook ran on import, not at '
            'registration.')
    assumptions = ['hooks do not raise']

    def strategy(self, tier):
        return case()

    def check(self, w, case):
        (plain, _), (hooked, left) = w.call('imports', **case)
        labels = set()
        std = set(STDLIB)
        # hooks of the standard library are checked by themselves
        ran, pending = walk(self.lift(hooked, std, labels))
        require({k: v for k, v in pending.items() if k not in std} == left,
                'hooks still waiting', left, pending)
        acts = any(h[1] for o in case['ops'] if o[0] == 'hook'
                   for h in o[2])
        if not acts:
            bare = [x for x in hooked if x[0] not in (
                'reg', 'endreg', 'hook', 'endhook')]
            require(bare == plain, 'imports differ from those without hooks',
                    bare, plain)
            labels.add('same')
        imm = sum(len(x[2]) for x in hooked if x[0] == 'reg' and x[3])
        if any(x[0] == 'caught' or x[0] == 'res' and x[3][0] != 'ok'
               for x in hooked):
            labels.add('failing')
        if any(o[0] == 'forget' for o in case['ops']):
            labels.add('forget')
        if imm:
            labels.add('at once')
        if acts:
            labels.add('acting hooks')
        return len(ran) > imm, sorted(labels)

    def lift(self, trace, std, labels):
        """Gives modules of the standard library the 'done' they lack: just
        before the first of the hooks that waited for them."""
        out = []
        wait = {}
        for x in trace:
            if x[0] == 'reg' and x[1] in std and not x[3]:
                wait.setdefault(x[1], []).extend(x[2])
            if x[0] == 'hook' and x[2] in std and wait.get(x[2]) and \
                    wait[x[2]][0] == x[1]:
                out.append(['done', x[2]])
                del wait[x[2]]
                labels.add('stdlib')
            out.append(x)
        # once imported nothing may be waiting
        for i, x in enumerate(out):
            if x[0] == 'res' and x[1] == 'imp' and x[3][0] == 'ok' and \
                    x[2][0] in std:
                seen = 0
                for y in out[:i]:
                    if y[0] == 'reg' and y[1] == x[2][0] and not y[3]:
                        seen = len(y[2]) and 1
                    elif y == ['done', x[2][0]]:
                        seen = 0
                require(not seen, 'hooks of %s did not run' % x[2][0], trace)
        return out


PROP = Imports()
PROP.id = 'C31'
