"""C05 A topic holds exactly the documents that currently satisfy it."""
import itertools

from mc import configs
from mc import engine
from mc import near
from mc.core import Violation, expect, raises, show
from mc.kinds import EXPRS, KindSystem, topic_search


class System(KindSystem):
    def check(self, st):
        KindSystem.check(self, st)
        x, m = st.x, st.m
        ids = sorted(m)
        for q in self.kind.sets(ids):
            for qq in (list(q), tuple(q), list(q) + list(q), list(q)[::-1]):
                for op in ('and', 'or'):
                    want = topic_search(m, q, op)
                    for got in (x.search(qq, op),
                                x.apply({'query': qq, 'operator': op})):
                        expect(sorted(got) == want,
                               'search(%s, %s) gives %s, expected %s',
                               qq, op, sorted(got), want)
                want = topic_search(m, q, 'and')
                for got in (x.search(qq), x.apply(qq),
                            x.apply({'query': qq})):
                    expect(sorted(got) == want,
                           'search(%s) gives %s, expected %s',
                           qq, sorted(got), want)
            gone = list(q) + ['gone']
            want = topic_search(m, q, 'or')
            for got in (x.search(gone, 'or'),
                        x.apply({'query': gone, 'operator': 'or'})):
                expect(sorted(got) == want, 'search(%s, or) gives %s, '
                       'expected %s', gone, sorted(got), want)
        for f in ids:
            want = sorted(m[f][1])
            for op in ('and', 'or'):
                for got in (x.search(f, op), x.apply(
                        {'query': f, 'operator': op})):
                    expect(sorted(got) == want,
                           'search(%s, %s) gives %s, expected %s',
                           f, op, sorted(got), want)
        expect(sorted(x.search('gone')) == [], 'search(gone)')
        for op in ('xor', 'AND', '', None, 'not'):
            raises(TypeError, x.search, ids, op)
            raises(TypeError, x.apply, {'query': ids, 'operator': op})
        for q in (None, 5, {'a'}, b'a', iter(ids), {1: 2}.keys()):
            raises(TypeError, x.search, q)
            if q is not None:
                raises(TypeError, x.apply, {'query': q, 'operator': 'or'})
        for d in ('del',):
            raises(KeyError, x.delFilter, 'gone')
        KindSystem.check(self, st)


def cfg(filters, docs, ctxs, extra, family=None):
    ops = [('i', d, n) for d in docs for n in ctxs]
    ops += [('u', d) for d in docs]
    return dict(kind='topic', filters=filters, ops=ops + extra,
                family=family)


def topics():
    r = {}
    two = [('f', 'odd'), ('g', 'big')]
    r['two'] = cfg(two, (1, 2), (0, 1, 2, 3), [
        ('cf',), ('c',), ('fc', 'f'), ('add', 'f', 'odd'), ('del', 'g')])
    r['replace'] = cfg([('f', 'odd')], (1, 2), (0, 1, 2), [
        ('add', 'f', 'odd'), ('add', 'f', 'big'), ('add', 'g', 'odd'),
        ('add', 'h', 'true'), ('del', 'f'), ('del', 'g'), ('cf',)])
    r['expr'] = cfg(two, (1, 2), (1, 2), [
        ('se', 'f', 'odd'), ('se', 'f', 'div'), ('se', 'f', 'syntax'),
        ('se', 'g', 'true'), ('fc', 'f'), ('fc', 'g'), ('cf',), ('c',)])
    r['raising'] = cfg(
        [('a', 'boom'), ('b', 'div'), ('c', 'attr'), ('d', 'exit'),
         ('e', 'name')],
        (1, 2), (None, 0, 1, 2), [('cf',), ('fc', 'b'), ('add', 'b', 'div')])
    r['raising2'] = cfg(
        [('a', 'syntax'), ('b', 'typ'), ('c', 'list')],
        (0, -1), (None, 0, 1, 2), [('cf',), ('fc', 'b'), ('del', 'a')])
    r['ids'] = cfg([('f', 'odd'), ('ff', 'big'), ('', 'true')],
                   (-2**31, 2**31 - 1), (0, 1, 2), [
        ('del', 'f'), ('del', ''), ('fc', 'ff')])
    r['family64'] = cfg(two, (-2**63, 2**63 - 1), (0, 1, 3), [
        ('cf',), ('c',), ('del', 'f'), ('add', 'f', 'odd')], 64)
    r['three'] = cfg(two, (1, 2, 3), (0, 1, 3), [('cf',)])
    r['same'] = cfg([('f', 'odd'), ('g', 'odd'), ('h', 'true')],
                    (1, 2), (0, 1), [
        ('cf',), ('fc', 'g'), ('del', 'g'), ('add', 'g', 'odd'),
        ('se', 'h', 'odd')])
    return r


def item_near(ctx, *args):
    near.explore(ctx, System, *args)


def item_bfs(ctx, c):
    engine.bfs(System(c), ctx)


def item_tree(ctx, c, depth, prefix):
    engine.tree(System(c), ctx, depth, prefix)


class Sweep(KindSystem):
    name = 'sweep'


def item_sweep(ctx, n, order):
    """Large filters, all expressions at once."""
    fs = [(e, e) for e in ('odd', 'big', 'div', 'true', 'typ', 'syntax')]
    s = Sweep(dict(kind='topic', filters=fs, ops=[]))
    docs = [(d * 37) % 1009 for d in range(n)] if order else list(range(n))
    st = engine.guard(s, (), s.start)
    done = []

    def do(op, check):
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
        if check:
            engine.guard(s, done, s.check, st)
            ctx.state((order, len(done)))
    for i, d in enumerate(docs):
        do(('i', d, i % 4), i % 10 == 0 or i in (59, 60, 61, 119, 120, 121))
    for i, d in enumerate(docs):
        do(('i', d, (i + 1) % 4) if i % 2 else ('u', d), i % 20 == 0)
    do(('fc', 'odd'), True)
    do(('cf',), True)
    for i, d in enumerate(docs):
        do(('i', d, i % 4), i % 40 == 0)
    do(('c',), True)
    ctx.trace()


def items(tier):
    deep = tier == 'thorough'
    r = []
    cs = topics()
    for name, c in cs.items():
        r.append(('bfs-' + name, 'item_bfs', c))
    for name in cs if deep else ('two', 'replace', 'expr'):
        c = cs[name]
        ops = c['ops']
        for p in ops:
            r.append(('tree-%s-%s' % (name, p), 'item_tree', c,
                      4 if deep else 3, (p,)))
    for order in (0, 1):
        r.append(('sweep-%d' % order, 'item_sweep',
                  600 if deep else 250, order))
    r += near.items(tier, (('topic', None),))
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    s = {'kind': System, 'sweep': Sweep}[case['sys']](case['cfg'])
    engine.run_history(s, case['ops'], ctx)


BOUNDS = {
    'quick': 'closure of 9 configurations: 1-5 filters (satisfied, '
             'unsatisfied, 6 ways of raising), 2-3 documents x 2-4 contexts, '
             'all filter life cycle operations; trees depth 3; filters of '
             '250 documents; all subsets of filters in 4 forms x operator',
    'thorough': 'trees depth 4 for all configurations; 600 documents',
}
