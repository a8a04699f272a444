"""C06 Text queries retrieve exactly the matching documents."""
import itertools

from mc import configs
from mc import engine
from mc import near
from mc import textref
from mc.core import Violation, expect, raises, show
from mc.kinds import KindSystem, TextKind

QUERIES = (
    'foo', 'bar', 'baz', 'nope', 'FOO', 'foo bar', 'bar foo', 'foo nope',
    'foo AND bar', 'foo or bar', 'foo NOT bar', 'foo AND NOT bar',
    'foo -bar', 'foo -nope', '"foo bar"', '"bar foo"', '"foo foo"',
    '"foo the bar"', 'foo-bar', 'foo -foo-bar', 'foo -"bar foo"', 'fo*',
    'b?r', 'ba*', 'f*o', 'bar OR ba*', 'the foo', 'the AND foo',
    'foo AND NOT the', 'foo OR the', '(foo)', '(foo OR bar) AND baz',
    'foo OR bar AND baz', 'foo NOT (bar OR baz)', 'foo NOT (bar AND baz)',
    'foo AND (bar NOT baz)', 'foo bar OR baz', 'foo OR foo', 'foo foo',
    'foo NOT foo', 'foo NOT fo*', '(foo bar) baz'.replace(') b', ') AND b'),
    'foo NOT bar NOT baz', 'foo NOT bar AND baz', 'foo -bar -baz',
)

TEXTS = ('', 'foo', 'bar', 'foo bar', 'Bar the foo!', 'foo foo', 'baz-foo')


def matches(tree, ws, pipe):
    """Does a document with these words satisfy the query?"""
    k, v = tree
    if k == 'ATOM':
        return v in ws
    if k == 'PHRASE':
        n = len(v)
        return any(ws[i:i + n] == v for i in range(len(ws) - n + 1))
    if k == 'GLOB':
        return any(textref.matches(v, w) for w in ws)
    if k == 'NOT':
        return not matches(v, ws, pipe)
    if k == 'AND':
        return all(matches(t, ws, pipe) for t in v)
    return any(matches(t, ws, pipe) for t in v)


class System(KindSystem):
    def __init__(self, cfg):
        KindSystem.__init__(self, cfg)
        pipe = cfg.get('pipe', 'std')
        self.trees = [(q, textref.parse(q, pipe)[0])
                      for q in cfg.get('queries', QUERIES)]
        self.pipe = pipe

    def check(self, st):
        x, m = st.x, st.m
        for q, tree in self.trees:
            got = sorted(x.apply(q))
            want = sorted(d for d, ws in m.docs.items()
                          if matches(tree, ws, self.pipe))
            expect(got == want, 'query %s gives %s, expected %s (documents '
                   '%s)', q, got, want, m.docs)


def cfg(rank, docs, texts, family=None, pipe='std', clear=True):
    ops = [('i', d, t) for d in docs for t in texts]
    ops += [('u', d) for d in docs]
    if clear:
        ops.append(('c',))
    return dict(kind='text', rank=rank, ops=ops, family=family, pipe=pipe)


def item_near(ctx, *args):
    near.explore(ctx, System, *args)


def item_bfs(ctx, c, depth):
    engine.bfs(System(c), ctx, depth)


def item_tree(ctx, c, depth, prefix):
    engine.tree(System(c), ctx, depth, prefix)


# every query over a token alphabet against a corpus of every small document

TOKENS = ['foo', 'bar', 'the', 'nope', '"foo bar"', 'fo*', '-bar', '-"bar foo"',
          'bar-foo', 'AND', 'OR', 'NOT', '(', ')']
FEW = ['foo', 'bar', 'the', 'AND', 'OR', 'NOT', '(', ')', '-baz']


def corpus(variant):
    words = ['foo', 'bar', 'baz']
    docs = [ws for k in range(4) for ws in itertools.product(words, repeat=k)]
    ops = []
    for i, ws in enumerate(docs):
        ops.append(('i', i, ' '.join(ws)))
    if variant == 1:
        # some history: reindexed with something else and back, and removed
        ops = [('i', i, 'foo bar nope') for i in range(0, len(docs), 2)] + [
            ('i', 1000 + i, 'foo bar ' * i) for i in range(12)] + ops + [
            ('u', 1000 + i) for i in range(12)]
    return ops


def sat(tree, sets, every):
    """The ids of the documents that satisfy a query, from atomic sets."""
    k, v = tree
    if k in ('ATOM', 'PHRASE', 'GLOB'):
        key = (k, tuple(v))
        r = sets.get(key)
        if r is None:
            r = sets[key] = frozenset(
                d for d, ws in every.items() if matches(tree, ws, 'std'))
        return r
    if k == 'NOT':
        return frozenset(every) - sat(v, sets, every)
    parts = [sat(t, sets, every) for t in v]
    if k == 'AND':
        return frozenset.intersection(*parts)
    return frozenset.union(*parts)


def item_queries(ctx, rank, variant, tokens, n, prefix):
    from zope.index.text.parsetree import ParseError
    s = System(dict(kind='text', rank=rank, ops=[], pipe='std'))
    ops = corpus(variant)
    st = engine.guard(s, ops, engine._replay, s, ops)
    every = dict(st.m.docs)
    sets = {}
    for tail in itertools.product(tokens, repeat=n - len(prefix)):
        toks = tuple(prefix) + tail
        q = ' '.join(toks)
        try:
            tree, ignored = textref.parse(q, 'std')
        except textref.RefParseError:
            ctx.add('ill_formed')
            continue
        want = sorted(sat(tree, sets, every))
        try:
            got = sorted(st.x.apply(q))
        except Exception as e:
            got = e
        if got != want:
            raise Violation('query %r gives %s, expected %s' % (
                q, show(got), show(want)), dict(
                    sys='query', rank=rank, variant=variant, query=q,
                    ops=[]))
        ctx.trans()
        ctx.trace()
        ctx.state(q)
        ctx.outcome(tuple(want))
        ctx.sample({'query': q, 'matches': show(want)})


def nested(n):
    q = 'foo'
    for i in range(n):
        q = ('(%s)', '(%s OR bar)', '(bar AND %s)', '(foo NOT %s)')[i % 4] % q
    return q


def long_queries(n):
    ws = ['foo', 'bar', 'baz', 'nope']
    yield ' OR '.join(ws[i % 4] for i in range(n))
    yield ' AND '.join(ws[i % 2] for i in range(n))
    yield ' '.join(ws[i % 3] for i in range(n))
    yield 'foo ' + ' '.join('-' + ws[1 + i % 3] for i in range(n))
    yield 'foo ' + ' '.join('NOT ' + ws[1 + i % 3] for i in range(n))
    yield '"' + ' '.join(ws[i % 2] for i in range(n)) + '"'
    yield ' OR '.join('(%s)' % ws[i % 4] for i in range(n))
    yield ' AND '.join('(foo OR %s)' % ws[i % 4] for i in range(n))
    yield nested(n)


def item_long(ctx, rank, lo, hi):
    s = System(dict(kind='text', rank=rank, ops=[], pipe='std'))
    ops = corpus(0)
    st = engine.guard(s, ops, engine._replay, s, ops)
    every = dict(st.m.docs)
    sets = {}
    for n in range(lo, hi):
        for q in long_queries(n):
            tree, ignored = textref.parse(q, 'std')
            want = sorted(sat(tree, sets, every))
            got = sorted(st.x.apply(q))
            if got != want:
                raise Violation('query %s gives %s, expected %s' % (
                    show(q), show(got), show(want)), dict(
                        sys='query', rank=rank, variant=0, query=q, ops=[]))
            ctx.trans()
            ctx.trace()
            ctx.state(q)


class Sweep(System):
    name = 'sweep'


def sweep_text(i):
    t = ['foo' if i % 2 else 'bar', 'baz' if i % 3 else 'foo bar']
    if i == 7:
        t.append('single')
    t.append('w%d' % (i // 2))
    return ' '.join(t)


def item_sweep(ctx, rank, order, top, family):
    """Grow and shrink across the dict/BTree switch and bucket splits."""
    s = Sweep(dict(kind='text', rank=rank, ops=[], family=family))
    docs = list(range(top))
    if order == 'down':
        docs.reverse()
    elif order == 'mix':
        docs = [d * 37 % 1009 - 500 for d in docs]
    st = engine.guard(s, (), s.start)
    done = []

    def do(op, check=True):
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
        if check:
            engine.guard(s, done, s.check, st)
            ctx.state((rank, order, len(done)))
    for i, d in enumerate(docs):
        do(('i', d, sweep_text(i)), i < 40 or i % 10 == 0)
    for i, d in enumerate(docs):
        do(('i', d, sweep_text(i + 1)) if i % 2 else ('u', d),
           i % 10 == 0 or i > top - 3)
    for i, d in enumerate(docs):
        do(('u', d), i % 10 == 0 or i > top - 15)
    for i, d in enumerate(docs[:15]):
        do(('i', d, sweep_text(i)))
    ctx.trace()


def item_unicode(ctx, lo, hi):
    """A document and a query made of one and the same character."""
    s = System(dict(kind='text', rank='okapi', ops=[]))
    x = s.start().x
    from zope.index.text.parsetree import ParseError
    for cp in range(lo, hi):
        if 0xD800 <= cp < 0xE000:
            continue
        c = chr(cp)
        if not textref.wordchar(c):
            continue
        x.index_doc(cp, c)
        try:
            got = sorted(x.apply(c))
        except ParseError:
            got = 'ParseError'
        x.unindex_doc(cp)
        ws = textref.process('std', c)
        want = [cp] if ws else 'ParseError'
        if got != want:
            msg = 'document %r and query %r: %r, expected %r' % (
                c, c, got, want)
            if cp == 0x130:
                ctx.finding('U+0130', msg)
            else:
                raise Violation(msg, dict(sys='char', cp=cp, ops=[]))
        ctx.trans(2)
        ctx.trace()
        ctx.state(cp)


LEAVES = [('ATOM', 'foo'), ('ATOM', 'bar'), ('ATOM', 'the'),
          ('PHRASE', ['foo', 'bar']), ('GLOB', 'ba*'), ('ATOM', 'nope')]


def node(t):
    from zope.index.text import parsetree
    k, v = t
    if k in ('AND', 'OR'):
        v = [node(s) for s in v]
    elif k == 'NOT':
        v = node(v)
    return {'ATOM': parsetree.AtomNode, 'PHRASE': parsetree.PhraseNode,
            'GLOB': parsetree.GlobNode, 'NOT': parsetree.NotNode,
            'AND': parsetree.AndNode, 'OR': parsetree.OrNode}[k](v)


def execute(x, m, t):
    try:
        got = node(t).executeQuery(x.index)
        got = got if got is None else sorted(got)
    except Exception as e:
        got = repr(e)
    want = m.execute(t)
    want = want if want is None else sorted(want)
    if got != want:
        raise Violation('executing %s gives %s, expected %s' % (
            show(t), show(got), show(want)))


def trees(top, deep):
    """Parse trees which are put together by hand: stop words remain."""
    operands = LEAVES + ([('NOT', t) for t in LEAVES] if top == 'AND' else [])
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for c in itertools.product(operands, repeat=n):
            if not all(o[0] == 'NOT' for o in c):
                yield top, list(c)
    small = LEAVES[:4] + [(o, [a, b]) for o in ('AND', 'OR')
                          for a in LEAVES[:3] for b in LEAVES[1:4]]
    more = small + ([('NOT', t) for t in small] if top == 'AND' else [])
    for a in small:
        for b in more:
            for t in ((top, [a, b]), (top, [b, a])):
                if not (t[1][0][0] == 'NOT' and t[1][1][0] == 'NOT'):
                    yield t


def item_nodes(ctx, rank, top, deep):
    s = System(dict(kind='text', rank=rank, ops=[]))
    st = engine._replay(s, corpus(1))
    m = st.m
    known, cache, ws = m.words(), {}, m.word_scores
    m.words = lambda: known
    m.word_scores = lambda w: cache.get(w) or cache.setdefault(w, ws(w))
    for t in trees(top, deep):
        try:
            execute(st.x, m, t)
        except Violation as v:
            v.case = dict(sys='node', rank=rank, tree=t)
            raise
        ctx.trans()
        ctx.trace()
        ctx.state((rank, repr(t)))


def tup(t):
    k, v = t
    if k in ('AND', 'OR'):
        return k, [tup(s) for s in v]
    return (k, tup(v)) if k == 'NOT' else (k, v)


def items(tier):
    deep = tier == 'thorough'
    r = []
    for rank in ('okapi', 'cosine'):
        for v in (0, 1):
            for p in TOKENS:
                for p2 in TOKENS if deep else [None]:
                    r.append(('q-%s-%d-%s-%s' % (rank, v, p, p2),
                              'item_queries', rank, v, TOKENS,
                              5 if deep else 4,
                              (p, p2) if deep else (p,)))
            if v == 0 or deep:
                for p in FEW:
                    for p2 in FEW:
                        r.append(('q6-%s-%d-%s-%s' % (rank, v, p, p2),
                                  'item_queries', rank, v, FEW,
                                  7 if deep else 6, (p, p2)))
        for top in ('AND', 'OR'):
            r.append(('nodes-%s-%s' % (rank, top), 'item_nodes', rank, top,
                      deep))
        for n in (1, 2, 3):
            r.append(('q%d-%s' % (n, rank), 'item_queries', rank, 0, TOKENS,
                      n, ()))
        for n in (2, 3, 4, 5):
            r.append(('qf%d-%s' % (n, rank), 'item_queries', rank, 1, FEW,
                      n, ()))
        r.append(('bfs-' + rank, 'item_bfs',
                  cfg(rank, (1, 2), TEXTS[:6]), 4 if deep else 3))
        r.append(('bfs1-' + rank, 'item_bfs',
                  cfg(rank, (1,), TEXTS), 5 if deep else 4))
        r.append(('bfs3-' + rank, 'item_bfs',
                  cfg(rank, (-1, 0, 2**31 - 1), ('foo', 'bar foo')), 5))
        r.append(('bfs64-' + rank, 'item_bfs',
                  cfg(rank, (-2**63, 2**63 - 1), ('foo', 'bar foo'), 64), 5))
        r.append(('bfs-ctor-' + rank, 'item_bfs', dict(cfg(
            rank, (1, 2), TEXTS[2:6] + (('foo', 'bar the', 'baz'),)),
            ctor='default' if rank == 'okapi' else 'index'), 3))
        t = cfg(rank, (1, 2), TEXTS[2:5])
        for p in t['ops']:
            r.append(('tree-%s-%s' % (rank, p), 'item_tree', t,
                      4 if deep else 3, (p,)))
        for lo in range(2, 62, 20):
            r.append(('long-%s-%d' % (rank, lo), 'item_long', rank, lo,
                      lo + 20))
        for order in ('up', 'down', 'mix'):
            r.append(('sweep-%s-%s' % (rank, order), 'item_sweep', rank,
                      order, 300 if deep else 130,
                      64 if order == 'mix' else None))
    top = 0x110000 if deep else 0x20000
    for lo in range(0, top, 0x4000):
        r.append(('unicode-%x' % lo, 'item_unicode', lo, lo + 0x4000))
    r += near.items(tier, (('text', 'okapi'), ('text', 'cosine')))
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    if case['sys'] == 'query':
        s = System(dict(kind='text', rank=case['rank'], ops=[]))
        ops = corpus(case['variant'])
        st = engine._replay(s, ops)
        q = case['query']
        tree = textref.parse(q, 'std')[0]
        want = sorted(sat(tree, {}, dict(st.m.docs)))
        got = sorted(st.x.apply(q))
        expect(got == want, 'query %s gives %s, expected %s', q, got, want)
    elif case['sys'] == 'node':
        s = System(dict(kind='text', rank=case['rank'], ops=[]))
        st = engine._replay(s, corpus(1))
        execute(st.x, st.m, tup(case['tree']))
    elif case['sys'] == 'char':
        item_unicode(ctx, case['cp'], case['cp'] + 1)
    else:
        s = {'kind': System, 'sweep': Sweep}[case['sys']](case['cfg'])
        engine.run_history(s, case['ops'], ctx)


BOUNDS = {
    'quick': 'every token sequence <=4 over 14 tokens and <=6 over 9 tokens '
             'that is well-formed, against all 40 documents of <=3 words '
             'over 3 words, 2 rankings, 2 histories of the corpus; closure '
             '/ depth 3-5 histories of 1-3 documents with 43 queries; trees '
             'depth 3; sweeps to 130 documents; queries of 2..61 terms or '
             'nesting levels; every word character below U+20000; '
             'hand-made parse trees with stop words (3 operands, 2 levels)',
    'thorough': 'token sequences <=5 over 14 and <=7 over 9 tokens; '
                'histories one deeper; sweeps to 300; all of Unicode',
}
