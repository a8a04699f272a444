"""C09 Scores follow the documented ranking formulas."""
import itertools

from mc import configs
from mc import engine
from mc import near
from mc import textref
from mc.core import Violation, same, show
from mc.kinds import KindSystem, mapping

QUERIES = (
    'foo', 'bar', 'baz', 'foo bar', 'foo AND bar', 'foo OR bar', 'foo foo',
    'foo OR foo', 'foo OR foo OR bar', 'foo NOT bar', 'foo -bar',
    '"foo bar"', '"foo foo"', 'bar-foo', '"foo bar foo"', 'foo OR "foo bar"',
    'foo OR nope', 'foo AND nope', 'foo OR the', 'foo the', 'nope',
    '(foo OR bar) AND (foo OR baz)', '(foo AND bar) OR foo',
    'foo OR bar OR baz', 'foo AND bar AND baz', '"bar foo" OR baz',
    'foo OR (bar NOT baz)', 'nope OR nope', '"foo nope" OR bar',
)
# their weight is not specified: only the sums are compared
GLOBQUERIES = ('fo*', 'ba*', 'fo* OR foo', 'ba* bar', 'b?r OR foo*',
               'foo NOT ba*')
TERMS = ('foo', 'bar', 'foo bar', 'foo foo', 'nope', 'foo nope', 'the',
         'foo bar baz foo')
PHRASES = ('foo', 'foo bar', 'foo foo', 'bar nope', 'bar foo bar')
GLOBS = ('fo*', 'ba?', 'b*', 'foo', 'n*')
WEIGHTS = (('foo',), ('foo', 'bar'), ('foo', 'foo'), ('nope',), (),
           ('foo', 'nope', 'baz'), ('foo bar', 'foo'))
BATTERY = dict(queries=QUERIES, terms=TERMS, phrases=PHRASES, globs=GLOBS,
               weights=WEIGHTS)

TEXTS = ('', 'foo', 'foo bar', 'foo foo bar', 'the bar', 'baz foo bar baz',
         'foo foo foo foo')


class Sys(KindSystem):
    name = 'score'

    def __init__(self, cfg):
        KindSystem.__init__(self, cfg)
        self.globtrees = [textref.parse(q, cfg.get('pipe', 'std'))[0]
                          for q in cfg.get('globqueries', GLOBQUERIES)]

    def check(self, st):
        from zope.index.text.queryparser import QueryParser
        KindSystem.check(self, st)
        x, m = st.x, st.m
        for q, ref in zip(self.cfg.get('globqueries', GLOBQUERIES),
                          self.globtrees):
            tree = QueryParser(x.lexicon).parseQuery(q)
            got = mapping(tree.executeQuery(x.index))
            want = m.execute(ref)
            if not same(got, want):
                raise Violation('query %r scores %s, expected %s' % (
                    q, show(got), show(want)))
            got = mapping(x.apply(q))
            qw = float(x.index.query_weight(tree.terms())) or 1.0
            want = {d: s / qw for d, s in want.items()}
            if not same(got, want):
                raise Violation('query %r: normalized scores %s, expected %s'
                                % (q, show(got), show(want)))


def cfg(rank, docs, texts, **kw):
    ops = [('i', d, t) for d in docs for t in texts]
    ops += [('u', d) for d in docs] + [('c',)]
    c = dict(kind='text', rank=rank, ops=ops, **kw)
    c.update(BATTERY)
    return c


def item_near(ctx, *args):
    near.explore(ctx, Sys, *args)


def item_bfs(ctx, c, depth):
    engine.bfs(Sys(c), ctx, depth)


def item_tree(ctx, c, depth, prefix):
    engine.tree(Sys(c), ctx, depth, prefix)


def corpora(words, length, n):
    """All multisets of n documents of up to *length* of *words*."""
    docs = [' '.join(d) for k in range(length + 1)
            for d in itertools.product(words, repeat=k)]
    return itertools.combinations_with_replacement(docs, n)


def item_corpora(ctx, rank, words, length, n, part, parts, bat=None):
    c = dict(kind='text', rank=rank, ops=[])
    c.update(bat or BATTERY)
    s = Sys(c)
    for i, texts in enumerate(corpora(words, length, n)):
        if i % parts != part:
            continue
        hist = [('i', j, t) for j, t in enumerate(texts)]
        st = engine.guard(s, hist, engine._replay, s, hist)
        engine.guard(s, hist, s.check, st)
        ctx.trans(n)
        ctx.trace()
        ctx.state((rank, texts))
        ctx.sample({'documents': texts})


def doc(i, style):
    if style == 'mod':
        return 'foo ' * (i % 4) + 'bar ' * (i % 3) + 'baz ' * (i % 7 == 0)
    if style == 'grow':
        return 'foo ' * i + 'bar'
    return 'foo bar' if i % 2 else 'foo w%d' % i


def item_sweep(ctx, rank, style, top, fam, step):
    """Statistics while a corpus grows, changes and shrinks."""
    c = dict(kind='text', rank=rank, ops=[], family=fam,
             globqueries=('fo*', 'ba*'), queries=QUERIES[:16:2],
             terms=('foo', 'bar', 'foo baz'), phrases=('foo bar',),
             globs=('b*',), weights=(('foo', 'bar'),))
    s = Sys(c)
    st = s.start()
    done = []

    def do(op, check):
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
        if check:
            engine.guard(s, done, s.check, st)
            ctx.state((rank, style, top, len(done)))
    for i in range(top):
        do(('i', i, doc(i, style)), i % step == 0 or 8 < i < 13)
    for i in range(0, top, 2):
        do(('i', i, doc(i + 1, style)), i % (4 * step) == 0)
    for i in range(0, top, 3):
        do(('u', i), i % (6 * step) == 0)
    for i in range(top):
        do(('u', i), i % (4 * step) == 0 or top - i < 14)
    for i in range(3):
        do(('i', i, doc(i + 2, style)), True)
    do(('c',), True)
    for i in range(3):
        do(('i', i, doc(i + 2, style)), True)
    ctx.trace()


def item_freq(ctx, rank, ks):
    """One document with a word k times, n other documents."""
    c = dict(kind='text', rank=rank, ops=[])
    c.update(BATTERY)
    s = Sys(c)
    for k in ks:
        for n in (0, 1, 5, 12):
            hist = [('i', 0, 'foo ' * k + 'bar')]
            hist += [('i', j, 'bar baz foo' if j % 2 else 'qux ' * j)
                     for j in range(1, n + 1)]
            st = engine.guard(s, hist, engine._replay, s, hist)
            engine.guard(s, hist, s.check, st)
            ctx.trans(len(hist))
            ctx.trace()
            ctx.state((rank, k, n))


TOKENS = ('foo', 'bar', 'nope', '"foo bar"', 'AND', 'OR', 'NOT', '(', ')',
          '-baz')


def item_queries(ctx, rank, n, prefix):
    """Every well-formed token sequence on one corpus."""
    s = Sys(dict(kind='text', rank=rank, ops=[], globqueries=()))
    words = ('foo', 'bar', 'baz')
    hist = [('i', i, ' '.join(d)) for i, d in enumerate(
        d for k in range(4) for d in itertools.product(words, repeat=k))]
    hist += [('u', 5), ('i', 7, 'foo bar qux')]
    st = s.start()
    for op in hist:
        s.step(st, op)
    x, m = st.x, st.m
    cache = {}
    ws = m.word_scores
    m.word_scores = lambda w: cache.get(w) or cache.setdefault(w, ws(w))
    known = m.words()
    m.words = lambda: known
    for tail in itertools.product(TOKENS, repeat=n - len(prefix)):
        q = ' '.join(tuple(prefix) + tail)
        try:
            tree = textref.parse(q, 'std')[0]
        except textref.RefParseError:
            continue
        want = m.apply(q)
        try:
            got = mapping(x.apply(q))
        except Exception as e:
            got = repr(e)
        if not same(got, want):
            raise Violation('query %r: %s, expected %s' % (
                q, show(got), show(want)), dict(
                    sys='score', ops=hist, cfg=dict(
                        kind='text', rank=rank, ops=[], globqueries=(),
                        queries=(q,))))
        ctx.query()
        ctx.trace()
        ctx.state(q)


def items(tier):
    deep = tier == 'thorough'
    r = []
    for rank in ('okapi', 'cosine'):
        for style in ('mod', 'grow', 'pair'):
            top = {'mod': 140, 'grow': 60, 'pair': 140}[style]
            r.append(('sweep-%s-%s' % (rank, style), 'item_sweep', rank,
                      style, top * (3 if deep else 1), None, 5))
        r.append(('sweep64-%s' % rank, 'item_sweep', rank, 'mod', 40, 64, 1))
        for p in TOKENS:
            r.append(('q4-%s-%s' % (rank, p), 'item_queries', rank, 4, (p,)))
            for p2 in TOKENS:
                r.append(('q5-%s-%s-%s' % (rank, p, p2), 'item_queries', rank,
                          6 if deep else 5, (p, p2)))
        for n in (1, 2, 3):
            r.append(('q%d-%s' % (n, rank), 'item_queries', rank, n, ()))
        for p in range(8):
            r.append(('c2-%s-%d' % (rank, p), 'item_corpora', rank,
                      ('foo', 'bar'), 3, 3, p, 8))
        r.append(('c3-%s' % rank, 'item_corpora', rank,
                  ('foo', 'bar', 'baz'), 2, 2, 0, 1))
        if deep:
            for p in range(40):
                r.append(('c4-%s-%d' % (rank, p), 'item_corpora', rank,
                          ('foo', 'bar'), 3, 4, p, 40))
                r.append(('c5-%s-%d' % (rank, p), 'item_corpora', rank,
                          ('foo', 'bar', 'baz'), 2, 4, p, 40))
        r.append(('bfs-' + rank, 'item_bfs', cfg(rank, (1, 2), TEXTS),
                  4 if deep else 3))
        r.append(('bfs1-' + rank, 'item_bfs', cfg(rank, (1,), TEXTS),
                  6 if deep else 4))
        r.append(('bfs-ctor-' + rank, 'item_bfs', dict(
            cfg(rank, (1, 2), TEXTS),
            ctor='default' if rank == 'okapi' else 'index'), 2))
        c = cfg(rank, (1, 2), TEXTS[1:5])
        for p in c['ops']:
            r.append(('tree-%s-%s' % (rank, p), 'item_tree', c,
                      4 if deep else 3, (p,)))
        for ks in ((1, 2, 3, 4), (7, 8, 9, 10, 11, 12), (100, 127, 128, 129),
                   (255, 256, 257, 1000)):
            r.append(('freq-%s-%d' % (rank, ks[0]), 'item_freq', rank, ks))
    rank = 'okapipy'      # without the compiled scorer
    r.append(('sweep-' + rank, 'item_sweep', rank, 'mod', 140, None, 5))
    r.append(('sweep64-' + rank, 'item_sweep', rank, 'grow', 40, 64, 1))
    for p in range(4):
        r.append(('c3-%s-%d' % (rank, p), 'item_corpora', rank,
                  ('foo', 'bar'), 3, 3 if deep else 2, p, 4))
    for n in (1, 2, 3):
        r.append(('q%d-%s' % (n, rank), 'item_queries', rank, n, ()))
    r.append(('bfs-' + rank, 'item_bfs', cfg(rank, (1, 2), TEXTS),
              4 if deep else 2))
    r.append(('freq-' + rank, 'item_freq', rank, (1, 2, 9, 10, 11, 127, 128,
                                                  255, 256, 1000)))
    r += near.items(tier, (('text', 'okapi'), ('text', 'cosine')))
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    engine.run_history(Sys(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': 'all multisets of 3 documents of <=3 words of 2 (2 documents of '
             '<=2 words of 3); histories of 1-2 documents to depth 3-4 over '
             '7 texts; every well-formed query of <=5 of 10 tokens on a '
             'corpus of 40 documents; growing and shrinking corpora to 140 '
             'documents; word frequencies to 1000; both rankings, 35 queries',
    'thorough': 'multisets of 4 documents; depth 4-6; queries of 6 tokens; '
                'corpora to 420 documents',
}
