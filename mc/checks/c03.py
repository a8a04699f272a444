"""C03 Keyword AND/OR search is exact."""
import itertools

from mc import configs
from mc import engine
from mc import near
from mc.core import Violation, expect, raises, show
from mc.kinds import KINDS, KeywordKind, KindSystem, form, keyword_search

WORDS = {
    'str': ['a', 'b', 'c'],
    'odd': ['', 'a b', '\u00e9'],
    'case': ['a', 'A', 'ab'],
    'int': [0, 1, -1],
    'tuple': [(), (1,), (1, 2)],
}
UNKNOWN = {'str': 'zz', 'odd': 'a', 'case': 'aB', 'int': 7, 'tuple': (2,)}
QFORMS = ['list', 'tuple', 'set', 'OOSet', 'OOTreeSet', 'iter', 'gen', 'dict']
DFORMS = ['list', 'tuple', 'set', 'OOSet', 'OOTreeSet', 'iter', 'gen', 'dict']


def ksubsets(ws):
    return [s for k in range(len(ws) + 1)
            for s in itertools.combinations(ws, k)]


def cfg(alpha, docs=(1, 2), thresholds=(), family=None, threshold=None,
        optimize=True, words=None, maxq=3):
    ws = (words or WORDS[alpha])
    ops = [('i', d, s) for d in docs for s in ksubsets(ws)]
    ops += [('u', d) for d in docs] + [('c',)]
    ops += [('t', n) for n in thresholds]
    if optimize:
        ops.append(('o',))
    pool = ws + [UNKNOWN[alpha]]
    qs = [list(q) for k in range(maxq + 1)
          for q in itertools.product(pool, repeat=k)]
    c = dict(kind='keyword', ops=ops, family=family, queries=qs,
             ids=tuple(docs) + (99,), alpha=alpha)
    if threshold is not None:
        c['threshold'] = threshold
    return c


class System(KindSystem):
    def check(self, st):
        x, m = st.x, st.m
        norm = self.kind.norm
        for q in self.kind.queries(m):
            ws = norm(q)
            for op in ('and', 'or'):
                got = sorted(x.search(list(q), op))
                want = keyword_search(m, ws, op)
                expect(got == want, 'search(%s, %s) gives %s, expected %s',
                       q, op, got, want)
            got = sorted(x.search(list(q)))
            want = keyword_search(m, ws, 'and')
            expect(got == want, 'search(%s) gives %s, expected %s',
                   q, got, want)


class Forms(System):
    """Other shapes of queries and rejected ones."""
    name = 'forms'

    def check(self, st):
        System.check(self, st)
        x, m = st.x, st.m
        for q in self.kind.queries(m):
            ws = self.kind.norm(q)
            for op in ('and', 'or'):
                want = keyword_search(m, ws, op)
                for how in QFORMS:
                    got = sorted(x.search(form(q, how), op))
                    expect(got == want,
                           'search(%s %s, %s) gives %s, expected %s',
                           how, q, op, got, want)
                    got = sorted(x.search(form(q, how), operator=op))
                    expect(got == want, 'search(operator=) of %s', q)
                    got = sorted(x.apply({'query': form(q, how),
                                          'operator': op}))
                    expect(got == want,
                           'apply(%s %s, %s) gives %s, expected %s',
                           how, q, op, got, want)
            want = keyword_search(m, ws, 'and')
            for how in QFORMS:
                if how != 'dict':
                    got = sorted(x.apply(form(q, how)))
                    expect(got == want, 'apply(%s) gives %s, expected %s',
                           q, got, want)
                got = sorted(x.apply({'query': form(q, how)}))
                expect(got == want, 'apply(mapping %s) gives %s, expected %s',
                       q, got, want)
            for op in ('xor', 'AND', '', None, 'not', 'andor', 'nor', 'o'):
                raises(TypeError, x.search, list(q), op)
                raises(TypeError, x.apply, {'query': list(q), 'operator': op})
        for w in self.cfg['strings']:
            ws = self.kind.norm([w])
            for op in ('and', 'or'):
                want = keyword_search(m, ws, op)
                for got in (x.search(w, op),
                            x.apply({'query': w, 'operator': op})):
                    expect(sorted(got) == want,
                           'search(%s, %s) gives %s, expected %s',
                           w, op, sorted(got), want)
            want = keyword_search(m, ws, 'and')
            expect(sorted(x.apply(w)) == want, 'apply(%s)', w)
            for d in self.cfg['ids']:
                raises(TypeError, x.index_doc, d, w)
        System.check(self, st)


def item_near(ctx, *args):
    near.explore(ctx, System, *args)


def item_bfs(ctx, name, c):
    engine.bfs(SYSTEMS[name](c), ctx)


def item_depth(ctx, name, c, depth):
    engine.bfs(SYSTEMS[name](c), ctx, depth)


def item_tree(ctx, name, c, depth, prefix, ops=None):
    engine.tree(SYSTEMS[name](c), ctx, depth, prefix, ops)


class Sweep(System):
    """Many documents; words 'all' in every one, 'm2'.. in some of them."""
    name = 'sweep'

    def check(self, st):
        x, m = st.x, st.m
        ws = ['all', 'm2', 'm3', 'low', 'one', 'zz']
        for k in (1, 2, 3):
            for q in itertools.combinations(ws, k):
                for op in ('and', 'or'):
                    got = list(x.search(q, op))
                    want = keyword_search(m, frozenset(q), op)
                    expect(sorted(got) == want and len(got) == len(want),
                           'search(%s, %s) gives %s, expected %s',
                           q, op, got, want)


def sweep_words(i):
    ws = ['all']
    if i % 2:
        ws.append('m2')
    if i % 3:
        ws.append('m3')
    if i < 70:
        ws.append('low')
    if i == 5:
        ws.append('one')
    return tuple(ws)


def sweep_ops(n, order, thr):
    docs = list(range(n))
    if order == 'down':
        docs.reverse()
    elif order == 'mix':
        docs = [(d * 37) % 1009 for d in docs]
    return [('i', d, sweep_words(i)) for i, d in enumerate(docs)]


def item_sweep(ctx, order, thr, lo, hi, family, opt):
    c = dict(kind='keyword', ops=[], family=family)
    if thr:
        c['threshold'] = thr
    s = Sweep(c)
    ops = sweep_ops(hi, order, thr)
    # grow, and look at every size
    st = engine.guard(s, (), s.start)
    done = []
    for i, op in enumerate(ops):
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
        if i >= lo:
            engine.guard(s, done, s.check, st)
            ctx.state((order, thr, i, opt))
        if opt and i % 9 == 8:
            for o in (('t', 2 + i % 50), ('o',)):
                done.append(o)
                engine.guard(s, done, s.step, st, o)
                ctx.trans()
            engine.guard(s, done, s.check, st)
    ctx.trace()
    # reindex, then shrink
    for i, op in enumerate(ops):
        op = ('i', op[1], sweep_words(i + 1)) if i % 2 else ('u', op[1])
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
        if i % 5 == 0 or i > hi - 5:
            engine.guard(s, done, s.check, st)
        if opt and i % 9 == 8:
            for o in (('t', 150 - i), ('o',)):
                done.append(o)
                engine.guard(s, done, s.step, st, o)
                ctx.trans()
    for i, op in enumerate(ops):
        op = ('u', op[1])
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
        if i % 5 == 0 or i > hi - 5:
            engine.guard(s, done, s.check, st)
    ctx.trace()


def form_ops(c):
    """Documents given as other collections."""
    ws = WORDS[c['alpha']]
    return ([('i', d, s, how) for d in (1,) for s in ksubsets(ws)[:6]
             for how in DFORMS] + [('u', 1), ('i', 2, (ws[0],))])


SYSTEMS = {'kind': System, 'forms': Forms, 'sweep': Sweep}


def items(tier):
    deep = tier == 'thorough'
    r = []
    for a in ('str', 'odd', 'case'):
        f = cfg(a, thresholds=(1, 64), maxq=2)
        f['strings'] = WORDS[a] + [UNKNOWN[a]]
        r.append(('forms-' + a, 'item_bfs', 'forms', f))
    for a in WORDS:
        r.append(('bfs-' + a, 'item_bfs', 'kind', cfg(a)))
        r.append(('bfs-thr-' + a, 'item_bfs', 'kind',
                  cfg(a, thresholds=(1, 2, 64))))
    r.append(('bfs-3docs', 'item_bfs', 'kind',
              cfg('str', (1, 2, 3), thresholds=(2, 3), words=['a', 'b'],
                  maxq=2)))
    r.append(('bfs-3docs-3', 'item_bfs', 'kind',
              cfg('str', (1, 2, 3), thresholds=(), threshold=2,
                  words=['a', 'b'], maxq=2)))
    r.append(('bfs-64', 'item_bfs', 'kind',
              cfg('str', (-2**63, 2**63 - 1), family=64, thresholds=(2,))))
    r.append(('bfs-32', 'item_bfs', 'kind',
              cfg('str', (-2**31, 0, 2**31 - 1), family=32, threshold=2,
                  words=['a', 'b'], maxq=2)))
    f = cfg('str', maxq=2)
    f['ops'] = form_ops(f)
    r.append(('docforms', 'item_bfs', 'kind', f))
    for p in f['ops']:
        r.append(('docforms-tree-%s' % (p,), 'item_tree', 'kind', f,
                  3 if deep else 2, (p,)))
    t = cfg('str', words=['a', 'b'], thresholds=(1,), maxq=2)
    for p in t['ops']:
        r.append(('tree-%s' % (p,), 'item_tree', 'kind', t,
                  4 if deep else 3, (p,)))
    top = 300 if deep else 140
    for order in ('up', 'down', 'mix'):
        for thr in (None, 1, 2, 3, 10, 121):
            for opt in (False, True):
                r.append(('sweep-%s-%s-%s' % (order, thr, opt), 'item_sweep',
                          order, thr, 0, top, 64 if thr == 3 else None, opt))
    if deep:
        r.append(('bfs-3docs-deep', 'item_bfs', 'kind',
                  cfg('str', (1, 2, 3), threshold=2, maxq=2)))
    r += near.items(tier, (('keyword', 'id'),))
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    s = SYSTEMS[case['sys']](case['cfg'])
    engine.run_history(s, case['ops'], ctx)


BOUNDS = {
    'quick': 'closure: 2 docs x all subsets of 3 keywords (5 alphabets), '
             'thresholds {1,2,64} and optimize, 3 docs x 2 keywords; all '
             'query lists <=3 over 4 keywords, 8 collection types; trees '
             'depth 3; sweeps to 140 documents x 6 thresholds x 3 orders',
    'thorough': 'closure 3 docs x 3 keywords; trees depth 4; sweeps to 300',
}
