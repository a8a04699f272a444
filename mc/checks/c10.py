"""C10 The query weight bounds every score."""
import itertools

from mc import configs
from mc import engine
from mc import near
from mc import textref
from mc.checks import c09
from mc.core import Violation, show
from mc.kinds import KindSystem, mapping

EPS = 1e-6
QUERIES = c09.QUERIES + (
    'foo foo foo', 'foo OR foo OR foo OR foo', 'foo OR foo OR bar OR bar',
    'foo foo bar', '"foo foo foo"', '"foo bar foo bar"',
    'foo OR (foo AND foo) OR foo', '(foo bar) OR (bar foo)',
    'foo OR foo-foo', '(foo OR foo) AND (foo OR foo)', 'foo OR bar OR nope',
    'foo NOT nope', 'bar OR bar OR foo NOT baz', 'FOO OR foo OR Foo',
    'baz OR baz OR foo', 'baz baz', '"baz foo" OR "baz foo" OR baz',
)


class Sys(KindSystem):
    """Scores against the weight of the query's terms."""
    name = 'bound'

    def check(self, st):
        from zope.index.text.queryparser import QueryParser
        x = st.x
        index = x.index
        for q in self.cfg.get('queries', QUERIES):
            tree = QueryParser(x.lexicon).parseQuery(q)
            raw = mapping(tree.executeQuery(index))
            qw = float(index.query_weight(tree.terms()))
            got = mapping(x.apply(q))
            if set(got) != set(raw or {}):
                raise Violation('query %r finds %s, its tree %s' % (
                    q, show(got), show(raw)))
            for d, s in (raw or {}).items():
                if not 0 < s <= qw * (1 + EPS):
                    raise Violation('query %r: score %r of %d, weight %r' % (
                        q, s, d, qw))
                if not 0 < got[d] <= 1 + EPS:
                    raise Violation('query %r: final score %r of %d' % (
                        q, got[d], d))


def cfg(rank, docs, texts, **kw):
    ops = [('i', d, t) for d in docs for t in texts]
    ops += [('u', d) for d in docs] + [('c',)]
    return dict(kind='text', rank=rank, ops=ops, **kw)


def item_near(ctx, *args):
    def change(c, n):
        # without patterns
        c['queries'] = tuple(q for q in c['queries'] if not set(q) & set('*?'))
    near.explore(ctx, Sys, *args, change=change, queries=(
        'foo', 'foo bar', 'foo NOT bar', '"foo bar" OR w1', 'bar OR w0'))


def item_bfs(ctx, c, depth):
    engine.bfs(Sys(c), ctx, depth)


def item_corpora(ctx, rank, words, length, n, part, parts):
    s = Sys(dict(kind='text', rank=rank, ops=[]))
    for i, texts in enumerate(c09.corpora(words, length, n)):
        if i % parts != part:
            continue
        hist = [('i', j, t) for j, t in enumerate(texts)]
        st = engine.guard(s, hist, engine._replay, s, hist)
        engine.guard(s, hist, s.check, st)
        ctx.trans(n)
        ctx.trace()
        ctx.query(len(QUERIES))
        ctx.state((rank, texts))
        ctx.sample({'documents': texts})


TOKENS = ('foo', 'bar', 'qux', '"foo bar"', '"foo foo"', 'OR', 'AND', 'NOT',
          '(', ')')


def item_queries(ctx, rank, n, prefix, variant):
    """Every well-formed token sequence on one corpus."""
    words = ('foo', 'bar', 'baz')
    hist = [('i', i, ' '.join(d)) for i, d in enumerate(
        d for k in range(4) for d in itertools.product(words, repeat=k))]
    if variant == 1:
        hist = [('i', 1, 'foo ' * 50 + 'bar ' * 50), ('i', 2, 'qux'),
                ('i', 3, 'foo foo bar'), ('i', 4, 'qux foo foo'),
                ('i', 5, 'foo')]
    hist += [('u', 5), ('i', 7, 'foo bar qux')]
    s = Sys(dict(kind='text', rank=rank, ops=[]))
    st = engine.guard(s, hist, engine._replay, s, hist)
    for tail in itertools.product(TOKENS, repeat=n - len(prefix)):
        q = ' '.join(tuple(prefix) + tail)
        try:
            textref.parse(q, 'std')
        except textref.RefParseError:
            continue
        s.cfg = dict(kind='text', rank=rank, ops=[], queries=(q,))
        engine.guard(s, hist, s.check, st)
        ctx.query()
        ctx.trace()
        ctx.state((rank, variant, q))


def item_repeat(ctx, rank, top):
    """Terms repeated k times in documents of m repetitions."""
    for k in range(1, top):
        qs = tuple(f % sep.join(ws) for ws in (['foo'] * k, [
            'foo', 'bar'] * k) for f, sep in (('%s', ' OR '), ('%s', ' AND '),
                                              ('%s', ' '), ('"%s"', ' ')))
        s = Sys(dict(kind='text', rank=rank, ops=[], queries=qs))
        for m in (1, k, 3 * k):
            for n in (0, 1, 20):
                hist = [('i', 0, 'foo ' * m), ('i', 1, 'foo bar ' * m)]
                hist += [('i', 2 + j, 'baz') for j in range(n)]
                st = engine.guard(s, hist, engine._replay, s, hist)
                engine.guard(s, hist, s.check, st)
                ctx.trans(len(hist))
                ctx.trace()
                ctx.query(len(qs))
                ctx.state((rank, k, m, n))


def item_rare(ctx, rank, n, fam):
    """A rare word among n documents, at each stage of growth."""
    s = Sys(dict(kind='text', rank=rank, ops=[], family=fam,
                 queries=('foo', 'foo OR bar', 'bar', 'foo foo', 'bar bar bar',
                          '"foo bar"', 'w5 OR foo OR w6', 'w5 w5')))
    hist = []
    st = s.start()
    for i in range(n):
        op = ('i', i, 'foo bar w%d' % i if i in (0, 5)
              else 'bar ' * (1 + i % 5) + 'w%d' % (i % 50))
        hist.append(op)
        s.step(st, op)
        ctx.trans()
        if i % 7 == 0 or i < 20:
            engine.guard(s, hist, s.check, st)
            ctx.state((rank, i))
    for i in range(5, n):
        op = ('u', i)
        hist.append(op)
        s.step(st, op)
        ctx.trans()
        if i % 7 == 0 or i > n - 15:
            engine.guard(s, hist, s.check, st)
    ctx.trace()


def items(tier):
    deep = tier == 'thorough'
    r = []
    for rank in ('okapi', 'cosine'):
        for p in range(8):
            r.append(('c2-%s-%d' % (rank, p), 'item_corpora', rank,
                      ('foo', 'bar'), 3, 3, p, 8))
        for p in range(4):
            r.append(('c3-%s-%d' % (rank, p), 'item_corpora', rank,
                      ('foo', 'bar', 'baz'), 3, 2, p, 4))
        if deep:
            for p in range(60):
                r.append(('c4-%s-%d' % (rank, p), 'item_corpora', rank,
                          ('foo', 'bar', 'baz'), 2, 4, p, 60))
                r.append(('c5-%s-%d' % (rank, p), 'item_corpora', rank,
                          ('foo', 'bar'), 3, 5, p, 60))
        for v in (0, 1):
            for p in TOKENS:
                r.append(('q4-%s-%s-%d' % (rank, p, v), 'item_queries', rank,
                          4, (p,), v))
                for p2 in TOKENS:
                    r.append(('q5-%s-%s-%s-%d' % (rank, p, p2, v),
                              'item_queries', rank, 6 if deep else 5, (p, p2),
                              v))
            for n in (1, 2, 3):
                r.append(('q%d-%s-%d' % (n, rank, v), 'item_queries', rank, n,
                          (), v))
        r.append(('bfs-' + rank, 'item_bfs',
                  cfg(rank, (1, 2), c09.TEXTS), 4 if deep else 3))
        r.append(('bfs1-' + rank, 'item_bfs', cfg(rank, (1,), c09.TEXTS),
                  6 if deep else 4))
        r.append(('repeat-' + rank, 'item_repeat', rank, 40 if deep else 12))
        for fam in (None, 64):
            r.append(('rare-%s-%s' % (rank, fam), 'item_rare', rank,
                      2000 if deep else 150, fam))
    rank = 'okapipy'      # without the compiled scorer
    for p in range(4):
        r.append(('c3-%s-%d' % (rank, p), 'item_corpora', rank,
                  ('foo', 'bar'), 3, 3 if deep else 2, p, 4))
    r.append(('bfs-' + rank, 'item_bfs', cfg(rank, (1, 2), c09.TEXTS), 2))
    r.append(('repeat-' + rank, 'item_repeat', rank, 40 if deep else 12))
    r.append(('rare-' + rank, 'item_rare', rank, 60, None))
    r += near.items(tier, (('text', 'okapi'), ('text', 'cosine')))
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    engine.run_history(Sys(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': 'all multisets of 3 documents of <=3 words of 2 and 2 documents '
             'of <=3 words of 3 with 46 queries; every well-formed query of '
             '<=5 of 10 tokens on two corpora; terms repeated up to 12 times '
             'in documents that repeat them; rare words up to 150 documents; '
             'histories to depth 3-4; both rankings',
    'thorough': 'multisets of 5 documents, queries of 6 tokens, terms '
                'repeated 40 times, 2000 documents',
}
