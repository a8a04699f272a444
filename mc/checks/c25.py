"""C25 Indexes sharing a lexicon do not influence each other."""
from mc import configs
from mc import engine
from mc import near
from mc import textref
from mc.core import Violation, diff_answers, show
from mc.kinds import PairKind, St, mapping
from mc.zodbeng import lexicon_answers


TREES = ('foo', 'foo AND bar', 'bar OR foo', 'foo NOT bar', '"foo bar"', 'fo*')


class Sys(engine.System):
    """Text indexes sharing a lexicon against the same with private ones.

    What is compared are real objects; no ranking formula is needed.
    """
    uses_init = True
    name = 'shared'

    def __init__(self, cfg):
        engine.System.__init__(self, cfg)
        self.kind = PairKind(cfg)

    def start(self):
        st = St()
        st.x = self.kind.make()
        st.twins = [k.make() for k in self.kind.kinds]
        st.m = self.kind.model()
        st.vocab = set()
        from zope.index.text.queryparser import QueryParser
        # parsed before anything is indexed, executed again and again
        parser = QueryParser(st.x[0].lexicon)
        st.trees = {q: parser.parseQuery(q) for q in TREES}
        return st

    def trees(self, st):
        from zope.index.text.queryparser import QueryParser
        for q, t in st.trees.items():
            for i, x in enumerate(st.x):
                got = mapping(t.executeQuery(x.index))
                p = QueryParser(x.lexicon).parseQuery(q)
                want = mapping(p.executeQuery(x.index))
                if got != want:
                    raise Violation('the tree of %r parsed at the start gives '
                                    'for index %d %s, a new one %s' % (
                                        q, i, show(got), show(want)))

    def key(self, st):
        return engine.canon.digest(
            st.x, [(t.index, t.lexicon) for t in st.twins],
            [sorted(m.texts.items()) for m in st.m], st.vocab)

    def ops(self, st):
        return list(self.cfg['ops'])

    def step(self, st, op):
        self.trees(st)
        self.init_step(st, op)

    def init_step(self, st, op):
        i, o = op
        self.kind.do(st.x, op)
        self.kind.kinds[i].do(st.twins[i], o)
        self.kind.do_model(st.m, op)
        if o[0] == 'i' or o[0] == 'src':
            st.vocab.update(textref.process(
                self.kind.kinds[i].cfg.get('pipe', 'std'),
                o[-1] if o[-1] is not None else ''))

    def check(self, st):
        self.trees(st)
        for i, k in enumerate(self.kind.kinds):
            got = k.answers(st.x[i], st.m[i])
            want = k.answers(st.twins[i], st.m[i])
            d = diff_answers(got, want)
            if d:
                raise Violation(
                    'index %d: %s gives %s, with a private lexicon %s' % (
                        i, show(d[0]), show(d[1]), show(d[2])))
        # asking did not make it larger either
        got = lexicon_answers(st.x[0].lexicon)
        d = diff_answers(got, {
            'lexicon words': sorted(st.vocab),
            'lexicon count': len(st.vocab), 'lexicon': True})
        if d:
            raise Violation('%s %s, expected %s' % tuple(map(show, d)))


def item_bfs(ctx, c, depth):
    engine.bfs(Sys(c), ctx, depth)


def item_tree(ctx, c, depth, prefix):
    engine.tree(Sys(c), ctx, depth, prefix)


def item_near(ctx, kind, v, family, sizes, depth):
    """Two indexes of many documents, operations on both."""
    def make(c):
        c = dict(c, kind='pair', ranks=(v, v), families=(family, None),
                 init=tuple((k, op) for op in c['init'] for k in (0, 1)
                            if not (k and op[1] % 3 == 0)),
                 ops=[(k, op) for op in c['ops'] for k in (0, 1)
                      if not (k and op[0] == 'c')])
        return Sys(c)
    near.explore(ctx, make, kind, v, family, sizes, depth)


def item_sweep(ctx, ranks, families, n, lags):
    """Every index goes through the same history, at different times."""
    c = pair(ranks, families, ())
    ids = (0, 1, 9, 30, n - 1)
    for key in ('ids',):
        c[key] = ids
    s = Sys(c)
    st = engine.guard(s, [], s.start)
    done = []
    runs = [list(configs.sweep('text', n, start=i, stride=i + 1))
            for i in range(len(ranks))]
    pos = [-lag for lag in lags]
    while any(p < len(r) for p, r in zip(pos, runs)):
        look = False
        for i, run in enumerate(runs):
            if 0 <= pos[i] < len(run):
                o = run[pos[i]]
                if o is None:
                    look = True
                else:
                    done.append((i, o))
                    engine.guard(s, done, s.step, st, done[-1])
                    ctx.trans()
            pos[i] += 1
        if look or len(done) % 7 == 0:
            engine.guard(s, done, s.check, st)
            ctx.state((ranks, families, n, lags, len(done)))
    engine.guard(s, done, s.check, st)
    ctx.trace()


ALONE = (('foo', 'foo bar'), ('bar foo bar', 'baz', 'the'))
SAME = (('foo bar', 'bar foo', ''), ('foo bar', 'foo bar foo', 'baz foo'))
LONG = (('a1 a2 a3 a4', 'a3'), ('a4 a3 a2 a1', 'a3 a4'))


def pair(ranks, families, texts, docs=((1, 2), (1, 2)), src=('new', 'foo new'),
         clear=True, **kw):
    ops = []
    for i, ts in enumerate(texts):
        ops += [(i, ('i', d, t)) for d in docs[i] for t in ts]
        ops += [(i, ('u', d)) for d in docs[i]]
        if clear:
            ops.append((i, ('c',)))
    if texts:
        ops += [(0, ('src', t)) for t in src]
    c = dict(kind='pair', ranks=tuple(ranks), families=tuple(families),
             ops=ops, ids=(1, 2, 77))
    c.update(configs.BATTERY)
    c['queries'] = c['queries'][:6] + ('new OR foo', 'new AND foo',
                                       'foo NOT new', '"foo new"')
    c['globs'] = ('fo*', 'n*', 'b?r')
    c['terms'] = ('foo', 'new', 'foo new baz')
    c['phrases'] = ('foo bar', 'foo new', 'baz foo')
    c['weights'] = (('foo', 'new'), ('bar', 'foo', 'bar'))
    c.update(kw)
    return c


O, C = 'okapi', 'cosine'
KINDS = (((O, O), (32, 32)), ((C, C), (32, 32)), ((O, C), (32, 32)),
         ((C, O), (64, 32)), ((O, O), (64, 64)), ((C, C), (32, 64)))


def cfgs():
    r = {}
    for ranks, fams in KINDS:
        n = '%s%d-%s%d' % (ranks[0], fams[0], ranks[1], fams[1])
        r['alone-' + n] = pair(ranks, fams, ALONE)
        r['same-' + n] = pair(ranks, fams, SAME, ((1,), (1,)))
    for ranks, fams in KINDS[:3]:
        n = '%s-%s' % ranks
        r['long-' + n] = pair(ranks, fams, LONG, ((1,), (2,)), src=('a2 a9',),
                              globs=('a*',), terms=('a1', 'a3 a9'),
                              phrases=('a3 a4', 'a2 a3'),
                              queries=('a1 a2', 'a4 NOT a1', '"a4 a3"',
                                       'a1 OR a2 OR a3'))
        r['html-' + n] = pair(ranks, fams, (
            ('<foo>', '<b>foo</b> bar'), ('foo <i> bar',)), pipe='html')
        r['far-' + n] = pair(ranks, (64, 64), (
            ('foo', 'foo bar'), ('bar',)), (configs.M64, configs.M64))
        r['three-' + n] = pair(
            ranks + ranks[:1], fams + (32,), (
                ('foo', 'foo bar'), ('bar foo',), ('baz bar',)),
            ((1,), (1,), (2,)), src=('new',))
    return r


def items(tier):
    deep = tier == 'thorough'
    r = []
    for ranks, fams in KINDS + (((O, C, O), (32, 64, 32)),):
        k = len(ranks)
        for lags in ((0,) * k, (0, 40, 90)[:k], (150, 0, 75)[:k]):
            r.append(('sweep-%s-%s-%s' % (ranks, fams, lags), 'item_sweep',
                      ranks, fams, 200 if deep else 66, lags))
    for name, c in cfgs().items():
        n = len(c['ops'])
        r.append(('bfs-' + name, 'item_bfs', c,
                  (4 if n > 12 else 5) if deep else 3 if n > 12 else 4))
        for op in c['ops']:
            r.append(('tree-%s-%s' % (name, op), 'item_tree', c,
                      (2 if n > 12 else 3) + deep, (op,)))
    r += near.items(tier, (('text', 'okapi'), ('text', 'cosine')),
                    one=near.SOME, two=(10,))
    r += configs.renumbered(r, 'bfs', ('zero',))
    return r


def run_case(case, ctx):
    engine.run_history(Sys(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': '24 configurations of two or three indexes (okapi/cosine, '
             '32/64 bit, equal and different document ids and vocabularies, '
             'words that only the lexicon knows): all interleaved sequences '
             'to depth 3-4 (index, reindex, unindex, clear, lexicon only), '
             'nothing merged to depth 2-3; histories growing to 66 documents run against '
             'each other with three delays',
    'thorough': 'one level deeper, 200 documents',
}
