"""C07 Phrase search matches exactly the contiguous word sequence."""
import itertools

from mc import configs
from mc import engine
from mc import near
from mc import kinds
from mc.core import Violation, show
from mc.kinds import KindSystem

IDS = (1, 2, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152,
       2**28 - 1)
# ids whose encodings are prefixes or suffixes of each other
TRICKY = (1, 128, 129, 16384, 2097152)
TRICKY6 = (1, 2, 128, 256, 16384, 2097152)


class IdLexicon:
    """A lexicon whose texts are sequences of word ids."""

    def sourceToWordIds(self, text):
        return list(text)

    termToWordIds = parseTerms = globToWordIds = sourceToWordIds

    def isGlob(self, word):
        return False

    def get_word(self, wid):
        return wid

    get_wid = get_word


def infixes(ws):
    n = len(ws)
    return {tuple(ws[i:j]) for i in range(n) for j in range(i + 1, n + 1)}


def make(rank, fam=None):
    from zope.index.text.cosineindex import CosineIndex
    from zope.index.text.okapiindex import OkapiIndex
    c = OkapiIndex if rank == 'okapi' else CosineIndex
    return c(IdLexicon(), kinds.FAMILY[fam]) if fam else c(IdLexicon())


def ask(x, phrase):
    try:
        return sorted(x.search_phrase(phrase))
    except Exception as e:
        return repr(e)


def item_ids(ctx, rank, ids, n, m, first, fam):
    """All documents of up to n ids, all phrases of up to m (from first)."""
    x = make(rank, fam)
    docs = [d for k in range(n + 1) for d in itertools.product(ids, repeat=k)]
    where = {}
    for i, d in enumerate(docs):
        x.index_doc(i - 100, d)
        for p in infixes(d):
            where.setdefault(p, []).append(i - 100)
        ctx.trans()
        ctx.state(('d', d))
    for k in range(1, m + 1):
        for rest in itertools.product(ids, repeat=k - 1):
            p = (first,) + rest
            got = ask(x, p)
            want = where.get(p, [])
            if got != want:
                odd = min([d for d in (set(got) ^ set(want))]
                          if isinstance(got, list) else want or [-100])
                raise Violation('phrase %r: %s, expected %s' % (
                    p, show(got), show(want)),
                    dict(sys='ids', rank=rank, fam=fam, phrase=p,
                         ops=[docs[odd + 100]], others=list(p)))
            ctx.trace()
            ctx.query()
            ctx.state(('p', p))
            if k == m:
                ctx.sample({'phrase': p, 'documents': len(want)})
            ctx.outcome((len(p), len(want)))


def item_allids(ctx, rank, lo, hi):
    """Every id in a range, alone and next to its neighbours."""
    x = make(rank)
    for w in range(lo, hi):
        x.index_doc(w, (w, w + 1, w, 5))
        ctx.trans()
    for w in range(lo + 1, hi - 1):
        for p, want in (((w,), [w - 1, w]), ((w, w + 1), [w]),
                        ((w + 1, w), [w]), ((w, w), []),
                        ((w, 5), [w]), ((w + 1, 5), [w + 1])):
            got = ask(x, p)
            if got != want:
                raise Violation('phrase %r: %s, expected %s' % (
                    p, show(got), show(want)), dict(
                        sys='ids', rank=rank, fam=None, phrase=p,
                        ops=[(v, v + 1, v, 5) for v in (w - 1, w, w + 1)],
                        others=list(p)))
            ctx.query()
        ctx.state(w)
        ctx.trace()


PADS = (1, 7, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256,
        257, 511, 512, 513, 1023, 1024, 1025, 4096, 10000)


def item_padded(ctx, rank, ab, top):
    """All short documents and phrases inside long documents."""
    a, b = ab
    code = {a: 'a', b: 'b', 3: 'c'}
    seqs = [s for k in range(5) for s in itertools.product(ab, repeat=k)]
    phrases = [p for p in seqs if p] + [(3, a), (a, 3), (a, a, 3), (3, 3, b)]
    for n in PADS:
        if n > top:
            break
        for pad in ((3,), (a,), (b, a)):
            long = (pad * n)[:n]
            for where in ('before', 'after', 'both'):
                x = make(rank)
                docs = []
                for s in seqs:
                    d = s
                    if where != 'after':
                        d = long + d
                    if where != 'before':
                        d = d + long
                    docs.append(d)
                for i, d in enumerate(docs):
                    x.index_doc(i, d)
                    ctx.trans()
                others = [(w,) for w in (a, b, 3)]
                for i, d in enumerate(others):
                    x.index_doc(1000 + i, d)
                texts = [''.join(map(code.get, d)) for d in docs + others]
                keys = list(range(len(docs))) + [1000, 1001, 1002]
                for p in phrases:
                    t = ''.join(map(code.get, p))
                    want = [k for k, d in zip(keys, texts) if t in d]
                    got = ask(x, p)
                    if got != want:
                        odd = sorted(set(got) ^ set(want))[0]
                        raise Violation('phrase %r: %s, expected %s' % (
                            p, show(got), show(want)), dict(
                                sys='ids', rank=rank, fam=None, phrase=p,
                                ops=[dict(zip(keys, docs + others))[odd]],
                                others=(a, b, 3)))
                    ctx.query()
                ctx.trace()
                ctx.state((rank, ab, n, pad, where))


# --- real lexicons

def word(i):
    return 'w%d' % i


class Real(KindSystem):
    """cfg: preload (number of words), docs/phrases over word numbers."""
    name = 'real'

    def start(self):
        st = KindSystem.start(self)
        n = self.cfg.get('preload', 0)
        if n:
            st.x.lexicon.sourceToWordIds(' '.join(
                word(i) for i in range(1, n + 1)))
        return st

    def check(self, st):
        x, m = st.x, st.m
        docs = m.docs
        for p in self.cfg['phrases']:
            from mc import textref
            ws = textref.process(self.cfg.get('pipe', 'std'), p)
            n = len(ws)
            want = sorted(d for d, doc in docs.items()
                          if any(doc[i:i + n] == ws
                                 for i in range(len(doc) - n + 1)))
            for how, got in (('search_phrase', lambda: x.index.search_phrase(
                    p)), ('apply', lambda: x.apply('"%s"' % p))):
                if how == 'search_phrase' and self.cfg.get('onlyapply'):
                    continue
                if how == 'apply' and self.cfg.get('onlyphrase'):
                    continue
                r = sorted(got())
                if r != want:
                    raise Violation('%s %r: %s, expected %s (documents %s)' % (
                        how, p, show(r), show(want), show(docs)))


PHRASES = ('foo bar', 'bar foo', 'foo foo', 'foo', 'bar', 'foo bar foo',
           'foo the bar', 'the foo', 'foo nope', 'nope', 'nope bar',
           'foo baz', 'foo-bar', 'foo bar baz', 'FOO Bar', 'bar foo bar foo')
TEXTS = ('', 'foo', 'foo bar', 'bar foo', 'foo the bar', 'foo foo bar',
         'bar, foo. bar-foo')


def cfg(rank, docs, texts, phrases=PHRASES, **kw):
    ops = [('i', d, t) for d in docs for t in texts]
    ops += [('u', d) for d in docs] + [('c',)]
    return dict(kind='text', rank=rank, ops=ops, phrases=phrases, **kw)


def item_near(ctx, *args):
    near.explore(ctx, Real, *args)


def item_bfs(ctx, c, depth):
    engine.bfs(Real(c), ctx, depth)


def item_tree(ctx, c, depth, prefix):
    engine.tree(Real(c), ctx, depth, prefix)


def item_words(ctx, rank, n, m, pipe):
    """All documents of up to n words of two, all phrases of up to m."""
    ws = ('foo', 'bar')
    docs = [d for k in range(n + 1) for d in itertools.product(ws, repeat=k)]
    phrases = [' '.join(p) for k in range(1, m + 1)
               for p in itertools.product(ws + ('nope',), repeat=k)]
    c = dict(kind='text', rank=rank, ops=[], phrases=phrases, pipe=pipe)
    s = Real(c)
    hist = [('i', i, ' '.join(d)) for i, d in enumerate(docs)]
    st = engine.guard(s, hist, engine._replay, s, hist)
    engine.guard(s, hist, s.check, st)
    ctx.trans(len(hist))
    ctx.query(2 * len(phrases))
    ctx.trace(len(phrases))
    # leave only the documents with odd ids, in which 'bar foo' is reversed
    for i, d in enumerate(docs):
        op = ('u', i) if i % 2 else ('i', i, ' '.join(reversed(d)))
        hist.append(op)
        s.step(st, op)
        ctx.trans()
        ctx.state((rank, i))
    engine.guard(s, hist, s.check, st)
    ctx.trace(len(phrases))


def item_preload(ctx, rank, top, onlyapply):
    """A vocabulary of *top* words, documents with those at its corners."""
    pts = sorted({p for b in (1, 2, 126, 127, 128, 129, 255, 256, 257, 383,
                              384, 16382, 16383, 16384, 16385, 16512, top)
                  for p in (b,) if 1 <= p <= top})
    phrases = [' '.join(map(word, p)) for k in (1, 2)
               for p in itertools.product(pts, repeat=k)]
    c = dict(kind='text', rank=rank, ops=[], phrases=phrases, preload=top)
    c['onlyapply' if onlyapply else 'onlyphrase'] = True
    s = Real(c)
    hist = []
    st = engine.guard(s, hist, s.start)
    i = 0
    for a in pts:
        for b in pts:
            op = ('i', i, ' '.join(map(word, (a, b))))
            hist.append(op)
            engine.guard(s, hist, s.step, st, op)
            i += 1
            ctx.trans()
    engine.guard(s, hist, s.check, st)
    for j in range(0, i, 3):
        op = ('u', j)
        hist.append(op)
        engine.guard(s, hist, s.step, st, op)
        ctx.trans()
    for j in range(1, i, 3):
        op = ('i', j, ' '.join(map(word, (pts[j % len(pts)], 77))))
        hist.append(op)
        engine.guard(s, hist, s.step, st, op)
        ctx.trans()
    engine.guard(s, hist, s.check, st)
    ctx.query(2 * len(phrases))
    ctx.trace(len(phrases))
    ctx.state((rank, top))


def item_long(ctx, rank, n):
    """Long documents and phrases: all infixes and near misses."""
    doc = ['w%d' % ((i * i) % 7) for i in range(n)]
    c = dict(kind='text', rank=rank, ops=[])
    phrases = []
    for i in range(n):
        for k in (1, 2, 3, n // 2, n):
            p = doc[i:i + k]
            if len(p) == k:
                phrases.append(' '.join(p))
                phrases.append(' '.join(p + ['w1']))
                phrases.append(' '.join(p[:-1] + ['w3']))
    c['phrases'] = sorted(set(phrases))
    s = Real(c)
    engine.run_history(s, [('i', 1, ' '.join(doc)),
                           ('i', 2, ' '.join(doc[:n // 2])),
                           ('i', 3, ' '.join(doc[n // 2:])),
                           ('i', 1, ' '.join(doc[1:])),
                           ('u', 2)], ctx)
    ctx.state((rank, n))
    ctx.query(5 * len(c['phrases']))


def items(tier):
    deep = tier == 'thorough'
    r = []
    for rank in ('okapi', 'cosine'):
        for w in IDS:
            r.append(('ids-%s-%d' % (rank, w), 'item_ids', rank, IDS, 3, 3, w,
                      64 if rank == 'okapi' else None))
        for w in TRICKY:
            r.append(('tricky-%s-%d' % (rank, w), 'item_ids', rank,
                      TRICKY, 5 if deep else 4, 5 if deep else 4, w, None))
        if deep:
            for w in TRICKY6:
                r.append(('tricky6-%s-%d' % (rank, w), 'item_ids', rank,
                          TRICKY6, 5, 5, w, None))
        step = 3000
        tops = [(7, 18000)]
        if deep:
            tops = [(7, 80000)]
        tops += [(b - 200, b + 200) for b in (
            2**15, 2**16, 2**18, 2**20, 2**21, 2**22, 2**24, 2**27,
            2**21 + 2**14, 2**28 - 202)]
        for lo, hi in tops:
            for a in range(lo, hi, step):
                r.append(('allids-%s-%d' % (rank, a), 'item_allids', rank, a,
                          min(a + step, hi)))
        for top in (100, 130, 300, 17000):
            for oa in (False, True):
                r.append(('preload-%s-%d-%s' % (rank, top, oa),
                          'item_preload', rank, top, oa))
        r.append(('words-' + rank, 'item_words', rank, 7 if deep else 6, 5,
                  'std'))
        r.append(('words-html-' + rank, 'item_words', rank, 4, 4, 'html'))
        r.append(('bfs-' + rank, 'item_bfs', cfg(rank, (1, 2), TEXTS),
                  4 if deep else 3))
        r.append(('bfs1-' + rank, 'item_bfs', cfg(rank, (1,), TEXTS),
                  6 if deep else 4))
        c = cfg(rank, (1, 2), TEXTS[2:6])
        for p in c['ops']:
            r.append(('tree-%s-%s' % (rank, p), 'item_tree', c,
                      4 if deep else 3, (p,)))
        for ab in ((1, 2), (300, 2), (16400, 300), (2097153, 129)):
            r.append(('padded-%s-%d' % (rank, ab[0]), 'item_padded', rank, ab,
                      10000 if deep else 600))
        for n in (5, 11, 40, 200):
            r.append(('long-%s-%d' % (rank, n), 'item_long', rank, n))
    r += near.items(tier, (('text', 'okapi'), ('text', 'cosine')))
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    if case['sys'] == 'ids':
        x = make(case['rank'], case['fam'])
        docs = [tuple(d) for d in case['ops']]
        for i, d in enumerate(docs):
            x.index_doc(i, d)
        # the words must be known
        for i, w in enumerate(case['others']):
            x.index_doc(1000 + i, (w,))
            docs.append((w,))
        keys = list(range(len(case['ops']))) + [
            1000 + i for i in range(len(case['others']))]
        p = tuple(case['phrase'])
        got = ask(x, p)
        want = [k for k, d in zip(keys, docs) if p in infixes(d)]
        if got != want:
            raise Violation('phrase %r: %s, expected %s (documents %s)' % (
                p, show(got), show(want), show(dict(zip(keys, docs)))))
    else:
        engine.run_history(Real(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': 'all documents and phrases <=3 over 13 word ids around the '
             'encoding boundaries, <=4 over 5 of them; every id below 18000 '
             'and around powers of two with neighbours; all documents <=6 '
             'and phrases <=5 over 2 words; vocabularies up to 17000 words; '
             'histories of 1-2 documents to depth 3-4; documents to 200 words',
    'thorough': 'documents and phrases <=5 over 5-6 boundary ids; all ids '
                'below 80000; documents <=7 words; histories to depth 6',
}
