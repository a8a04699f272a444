"""C08 Pattern search has exact shell wildcard semantics."""
import itertools

from mc import configs
from mc import engine
from mc import near
from mc import textref
from mc.core import Violation, raises, show
from mc.kinds import KindSystem

ALPHABETS = {
    'plain': 'ab1_',
    'regex1': 'a.\\^',
    'regex2': 'a$[]',
    'regex3': 'a(|)',
    'regex4': 'a+{}',
    'space': 'a\n\r ',
    'space2': 'a\t\x0b\u2028',
    'wide': 'a\xe9\uffff\U00010000',
    'last': 'a\U0010ffff\x00\x7f',
    'wild': 'a*?b',
    'class': 'a-!]',
    'misc': "a#&~",
    'lower': 'aA\xdf\u0130',
}


def words(alphabet, n):
    return [''.join(w) for k in range(n + 1)
            for w in itertools.product(alphabet, repeat=k)]


def select(lexicon, pat):
    """Words selected, sorted."""
    return sorted(lexicon.get_word(w) for w in lexicon.globToWordIds(pat))


def compare(lexicon, known, pat, case):
    from zope.index.text.parsetree import QueryError
    if pat[:1] in ('*', '?'):
        try:
            got = lexicon.globToWordIds(pat)
        except QueryError:
            return 'rejected'
        raise Violation('pattern %r is not rejected: %s' % (pat, show(got)),
                        case)
    try:
        got = select(lexicon, pat)
    except Exception as e:
        raise Violation('pattern %r: %r' % (pat, e), case)
    want = sorted(w for w in known if textref.matches(pat, w))
    if got != want:
        raise Violation('pattern %r selects %s, expected %s' % (
            pat, show(got), show(want)), case)
    return len(want)


def item_patterns(ctx, alphabet, nw, np, first):
    from zope.index.text.lexicon import Lexicon
    lexicon = Lexicon()
    known = words(alphabet, nw)
    for w in known:
        lexicon.sourceToWordIds([w])
        ctx.trans()
    pa = sorted(set(alphabet) | {'*', '?'})
    for k in range(1 if first else 0, np + 1):
        if not first and k:
            break
        for rest in itertools.product(pa, repeat=max(k - 1, 0)):
            pat = first + ''.join(rest)
            ctx.outcome(compare(lexicon, known, pat, dict(
                sys='pat', words=known, pat=pat)))
            ctx.state((alphabet, pat))
            ctx.trace()
    ctx.sample({'pattern': pat, 'vocabulary': len(known)})


def item_single(ctx, alphabet, nw, np):
    """A vocabulary of one word (and of none)."""
    from zope.index.text.lexicon import Lexicon
    pa = sorted(set(alphabet) | {'*', '?'})
    for w in [None] + words(alphabet, nw):
        lexicon = Lexicon()
        known = []
        if w is not None:
            lexicon.sourceToWordIds([w])
            known = [w]
        for pat in words(pa, np):
            compare(lexicon, known, pat, dict(sys='pat', words=known,
                                              pat=pat))
            ctx.state((alphabet, w, pat))
            ctx.trace()
        ctx.trans()


def item_chars(ctx, lo, hi):
    """Every character: matches itself and ?, *, and no other."""
    from zope.index.text.lexicon import Lexicon
    lexicon = Lexicon()
    known = ['a', 'aa', 'ab', 'b']
    lexicon.sourceToWordIds(known)
    for cp in range(lo, hi):
        if 0xd800 <= cp < 0xe000:
            continue
        c = chr(cp)
        new = ['a' + c, c + 'b', 'a' + c + 'b']
        for w in new:
            lexicon.sourceToWordIds([w])
        ctx.trans()
        if c in '*?':
            continue
        for pat, want in (('a' + c, ['a' + c]), (c + '?', [c + 'b']),
                          ('a' + c + '*', ['a' + c, 'a' + c + 'b']),
                          ('a?' + 'b', None), ('a*' + c, ['a' + c]),
                          ('a' + c + '?', ['a' + c + 'b'])):
            if c in 'ab' or want is None:
                continue
            got = select(lexicon, pat)
            if got != sorted(want):
                raise Violation('pattern %r selects %s, expected %s' % (
                    pat, show(got), show(want)), dict(
                        sys='pat', words=known + new, pat=pat))
            ctx.trace()
        ctx.state(cp)
    every = sorted(lexicon.words())
    for pat in ('a?', 'a*', 'a?b', 'a*b', 'b*', 'a??'):
        compare(lexicon, every, pat, None)


def sweep_word(i, style):
    if style == 'num':
        return 'p%03d' % i
    if style == 'bin':
        return 'p' + bin(i)[2:]
    return 'p' + 'a' * (i % 37) + 'bc'[i % 2] + str(i)


def item_sweep(ctx, top, style, order):
    """Growing vocabularies: bucket boundaries of the trees inside."""
    from zope.index.text.lexicon import Lexicon
    lexicon = Lexicon()
    known = ['o', 'ozz', 'q', 'qa', 'p']
    lexicon.sourceToWordIds(known)
    seq = list(range(top))
    if order == 'down':
        seq.reverse()
    elif order == 'mix':
        seq = [i * 37 % 1009 for i in seq]
    pats = ('p*', 'p0*', 'p1*', 'p?', 'p??', 'p???', 'p*1', 'p*0*', 'o*', 'q*',
            'pa*', 'pab*', 'p1?1', 'p10*', 'p*b*', 'q?', 'p', 'pz*', 'p01?')
    for k, i in enumerate(seq):
        w = sweep_word(i, style)
        lexicon.sourceToWordIds([w])
        known.append(w)
        ctx.trans()
        ctx.state((style, order, k))
        if k < 20 or k % 5 == 0 or k > top - 3:
            for pat in pats + (w, w + '*', w[:-1] + '?'):
                compare(lexicon, known, pat, dict(
                    sys='pat', words=list(known), pat=pat))
                ctx.trace()


class Sys(KindSystem):
    """Documents containing a matching word."""
    name = 'glob'

    def check(self, st):
        from zope.index.text.parsetree import QueryError
        x, m = st.x, st.m
        for pat in self.cfg['pats']:
            want = sorted(d for d, ws in m.docs.items()
                          if any(textref.matches(pat, w) for w in ws))
            for f in (x.index.search_glob, x.apply):
                got = sorted(f(pat))
                if got != want:
                    raise Violation('pattern %r gives %s, expected %s '
                                    '(documents %s)' % (pat, got, want,
                                                        show(m.docs)))
        for pat in ('*', '?', '*foo', '?oo', '**', '*?'):
            raises(QueryError, x.index.search_glob, pat)


PATS = ('fo*', 'f*', 'f?o', 'fo?', 'b?r', 'foo', 'foo*', 'foo?', 'ba*', 'b*z',
        'x*', 'f*o*', 'ba??', 'b**', 'bar', 'f*b?r')
TEXTS = ('', 'foo', 'foo bar', 'bar baz', 'foobar fo', 'baz baz fao', 'nope')


def cfg(rank, docs, texts, **kw):
    ops = [('i', d, t) for d in docs for t in texts]
    ops += [('u', d) for d in docs] + [('c',), ('src', 'fooo barz')]
    return dict(kind='text', rank=rank, ops=ops, pats=PATS, **kw)


def item_bfs(ctx, c, depth):
    engine.bfs(Sys(c), ctx, depth)


def item_near(ctx, *args):
    def change(c, n):
        c['pats'] = tuple(g.lower() for g in c['globs']) if (
            n >= near.LONG) else (
            'fo*', 'w?', 'w*', 'b*', 'w1', 'foo*', 'nope*')
    near.explore(ctx, Sys, *args, change=change)


def item_runs(ctx, lo, hi):
    """Words of every length, patterns of many wildcards."""
    from zope.index.text.lexicon import Lexicon
    letters = [chr(ord('\u0430') + i) for i in range(32)] + [
        chr(ord('a') + i) for i in range(26)]
    for n in range(lo, hi):
        w = ''.join(letters[:n])
        known = sorted({w, w + 'z1', w[:-1], w[:-2] + w[-1:], w[:n // 2] + (
            '-') + w[n // 2:], w[:1] * n, w[:1] * (n + 1), 'a', 'ab', 'abc',
            w[:1] + w[1:][::-1]} - {''})
        lexicon = Lexicon()
        lexicon.sourceToWordIds(known)
        pats = {w[:1] + '?' * k for k in (n - 2, n - 1, n, n + 1) if k >= 0}
        pats |= {'a' + '*' * n, 'a' + '*' * n + 'c', 'a' + '?*' * n,
                 '*'.join(w), '*'.join(w) + '*', w[:1] + '*'.join(w[1:]),
                 ''.join(c if i % 2 == 0 else '?' for i, c in enumerate(w)),
                 ''.join(c if i % 2 == 0 else '*' for i, c in enumerate(w)),
                 '?*'.join(w), '**'.join(w), w[:1] + '*' + w[-1:]}
        for i in range(1, n):
            for x in '?*':
                pats |= {w[:i] + x + w[i:], w[:i] + x + w[i + 1:]}
        for pat in sorted(pats):
            compare(lexicon, known, pat, dict(sys='pat', words=known,
                                              pat=pat))
            ctx.trace()
            ctx.state((n, pat))
        ctx.trans()


def item_many(ctx, rank, n, fam):
    """Many matching words over many documents."""
    c = dict(kind='text', rank=rank, ops=[], family=fam, pats=(
        'w*', 'w1*', 'w?', 'w??', 'w*1', 'wx*', 'w1', 'w1?*'))
    s = Sys(c)
    hist = []
    st = s.start()
    for i in range(n):
        op = ('i', i, ' '.join('w%d' % j for j in range(i, i + 3)))
        hist.append(op)
        s.step(st, op)
        ctx.trans()
        ctx.state((rank, i))
        if i % 8 == 0 or i > n - 3:
            engine.guard(s, hist, s.check, st)
    for i in range(0, n, 2):
        op = ('u', i)
        hist.append(op)
        s.step(st, op)
        ctx.trans()
    engine.guard(s, hist, s.check, st)
    for i in range(1, n, 4):
        op = ('i', i, 'w1 v%d' % i)
        hist.append(op)
        s.step(st, op)
        ctx.trans()
    engine.guard(s, hist, s.check, st)
    ctx.trace()


def items(tier):
    deep = tier == 'thorough'
    r = []
    for n in range(1, 45, 4):
        r.append(('runs-%d' % n, 'item_runs', n, n + 4))
    for name, a in ALPHABETS.items():
        for first in [''] + sorted(set(a) | {'*', '?'}):
            r.append(('pat-%s-%r' % (name, first), 'item_patterns', a,
                      4 if deep else 3, 6 if deep else 5, first))
        r.append(('single-' + name, 'item_single', a, 2, 4 if deep else 3))
    for style in ('num', 'bin', 'rep'):
        for order in ('up', 'down', 'mix'):
            r.append(('sweep-%s-%s' % (style, order), 'item_sweep',
                      900 if deep else 300, style, order))
    for rank in ('okapi', 'cosine'):
        r.append(('bfs-' + rank, 'item_bfs', cfg(rank, (1, 2), TEXTS),
                  4 if deep else 3))
        r.append(('bfs1-' + rank, 'item_bfs', cfg(rank, (1,), TEXTS),
                  6 if deep else 4))
        for fam in (None, 64):
            r.append(('many-%s-%s' % (rank, fam), 'item_many', rank,
                      300 if deep else 130, fam))
    for lo in range(0, 0x110000, 0x1000):
        if not deep and lo not in (0, 0x1000, 0x2000, 0x3000, 0xa000,
                                   0xd000, 0xe000, 0xf000, 0x10000):
            continue
        r.append(('chars-%x' % lo, 'item_chars', lo, lo + 0x1000))
    r += near.items(tier, (('text', 'okapi'), ('text', 'cosine')))
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    if case['sys'] == 'pat':
        from zope.index.text.lexicon import Lexicon
        lexicon = Lexicon()
        for w in case['words']:
            lexicon.sourceToWordIds([w])
        compare(lexicon, case['words'], case['pat'], case)
    else:
        engine.run_history(Sys(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': 'all words <=3 x all patterns <=5 over 13 alphabets of 4 '
             'characters (letters, regex metacharacters, white space, '
             'non-BMP, wildcards in words) plus wildcards; one-word '
             'vocabularies; every character in 9 blocks of 4096; vocabularies to '
             '300 words in 9 orders; histories to depth 3-4 with 16 patterns',
    'thorough': 'words <=4, patterns <=6, all of Unicode, vocabularies to 900',
}
