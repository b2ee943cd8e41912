from hypothesis import strategies as st

from pbt.core import Prop, require
from pbt import classes, gen

O = {v: gen.Opts(v, max_nodes=6, insts=True, refs=False) for v in (0, 3)}
VALUE = {v: gen.value(O[v], 4) for v in (0, 3)}
SMALL = {v: gen.value(gen.Opts(v, max_nodes=3, refs=False), 2) for v in (0, 3)}


@st.composite
def thread(draw, inf, ver, loader, i):
    op = draw(st.sampled_from(
        ['dec'] if loader else ['enc', 'enc', 'dec', 'dec', 'http', 'ro']))

    def val():
        if draw(st.integers(0, 3)):
            return draw(classes.instance(inf, ver, 1, [3]))
        return draw(VALUE[ver])
    j = {'op': op, 'v': ver}
    if op in ('enc', 'dec'):
        j['vals'] = [val() for _ in range(draw(st.integers(1, 2)))]
        if draw(st.integers(0, 7)) == 0:
            j['tz'] = draw(st.sampled_from([3600, -1800]))
    else:
        if op == 'ro':
            j['v'] = 3
        j['name'] = 't%d' % i
        j['calls'] = []
        for _ in range(draw(st.integers(1, 2))):
            k = draw(st.integers(0, 5))
            if k < 3:
                j['calls'].append(['echo', [val()]])
            elif k < 4:
                j['calls'].append(['svc.both', [val(), ['i', str(i)]]])
            elif k < 5:
                j['calls'].append(['svc.fail', [['s', 'x%d' % i]]])
            else:
                j['calls'].append(['gone.x', []])
    return j


@st.composite
def case(draw):
    ver = draw(st.sampled_from([0, 3]))
    specs = draw(classes.spec(3))
    loader = draw(st.integers(0, 5)) == 0
    for s in specs:
        if loader:
            s['reg'] = 'call'
        else:
            s['reg'] = s['reg'] and draw(st.sampled_from(['call', 'bytes']))
    inf = classes.infos(specs)
    n = draw(st.sampled_from([2, 2, 2, 3]))
    jobs = [draw(thread(inf, ver, loader, i)) for i in range(n)]
    if draw(st.booleans()):
        # the same thing in all of them
        jobs = [dict(jobs[0]) for j in jobs]
    part = st.one_of(st.integers(0, 400), st.integers(0, 150),
                     st.integers(0, 60))
    plan = draw(st.lists(st.tuples(part, st.integers(0, n - 1)).map(list),
                         min_size=1, max_size=8))
    return {'classes': specs, 'order': list(range(len(specs))), 'jobs': jobs,
            'loader': int(loader), 'plan': plan,
            'first': draw(st.integers(0, n - 1))}


class Threads(Prop):
    modules = ('vals', 'classes', 'gate', 'sched')
    quick = 600
    thorough = 30000
    rule = ('Case: 2-3 threads, each encoding, decoding or sending requests '
            'to one shared gateway (plain and remote object calls), with '
            'instances of generated classes no thread has used before, and a '
            'schedule of 1-8 points (lines of the library) at which one '
            'thread is stopped and another goes on; runs are deterministic. '
            'Each thread has to get exactly what it gets when it runs alone. '
            'Non-trivial: at least two switches between threads took place '
            'inside the library.')
    assumptions = ['switches happen between lines of Python source, not '
                   'within them']

    def strategy(self, tier):
        return case()

    def check(self, w, case):
        got = w.call('threads', **case)
        if 'cannot' in got:
            return False, ['cannot']
        for i, (a, b) in enumerate(zip(got['alone'], got['together'])):
            require(a == b, 'thread %d gets something else than alone' % i,
                    b, a)
        f = sorted(set(j['op'] for j in case['jobs']))
        f.append('switches:%d' % min(got['switches'], 5))
        if got['stalls']:
            f.append('waited')
        if case['loader']:
            f.append('loader')
        if any('error' in a for a in got['alone']):
            f.append('error')
        return got['switches'] >= 2, f


PROP = Threads()
PROP.id = 'C36'
