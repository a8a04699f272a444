"""C12 The query parser implements the documented grammar totally."""
import itertools

from mc import textref
from mc.core import Violation, show

TOKENS = ('foo', 'the', 'AND', 'OR', 'NOT', '(', ')', '-bar', 'b*')
MORE = ('foo', 'the', 'and', 'Or', 'nOT', '(', ')', '-bar', '-the', 'f-o',
        '"a b"', '-"x y"', '""', '"', '-', 'fo*', '"the"', '*')
# words which mean something elsewhere
WORDS = ('foo', 'EOF', 'Atom', 'PHRASE', 'glob', 'near', 'AndNot', 'BUT', 'xor',
         '&&', '||', '!', '+foo', 'foo~', 'foo^2', 'f:foo', '[a', 'b]', '{a}',
         "'foo", "bar'", 'a,b', '\\"', '-not', '-or', '--foo', 'and-or', 'a-NOT',
         'foo_bar', '0', 'None', 'OR,', 'NOT.', '"AND"', '"not"', '-"or"',
         '*foo', '?', 'f**', 'ORx', 'NOT*', '\u00c4ND', 'o\u0280')
CHARSETS = {
    'lex': '"()- a*',
    'key': 'NOT -(',
    'or': 'OR" )a',
    'space': ' \t\n\u2003\xa0a"',
    'punct': "a-+.'\"?",
    'mark': '<a>&b; ',
    'and': 'aAnNdD ',
}


def outcome(parser, q):
    """('tree', tree, ignored, terms) or ('ParseError',) or what escapes."""
    from zope.index.text.parsetree import ParseError
    try:
        tree = parser.parseQuery(q)
    except ParseError:
        return ('ParseError',)
    except Exception as e:
        return ('escape', repr(e))
    t = textref.tree_tuple(tree)
    return ('tree', t, list(parser.getIgnored()), list(tree.terms()))


def reference(q, pipe):
    try:
        tree, ignored = textref.parse(q, pipe)
    except textref.RefParseError:
        return ('ParseError',)
    return ('tree', tree, ignored, textref.terms(tree))


def parser(pipe):
    from zope.index.text.queryparser import QueryParser
    return QueryParser(textref.make_lexicon(pipe))


def verify(ctx, p, q, pipe):
    got = outcome(p, q)
    want = reference(q, pipe)
    if got != want:
        raise Violation('query %r (%s lexicon): %s, expected %s' % (
            q, pipe, show(got), show(want)),
            dict(sys='query', query=q, pipe=pipe, ops=[]))
    ctx.trans()
    ctx.trace()
    ctx.outcome(got[0] if got[0] != 'tree' else repr(got[1]))
    return got


def item_tokens(ctx, pipe, tokens, n, prefix):
    p = parser(pipe)
    for tail in itertools.product(tokens, repeat=n - len(prefix)):
        q = ' '.join(tuple(prefix) + tail)
        got = verify(ctx, p, q, pipe)
        ctx.state((pipe, q))
        if got[0] == 'tree':
            ctx.sample({'query': q, 'tree': show(got[1])})


def item_chars(ctx, pipe, chars, n, first):
    p = parser(pipe)
    for k in range(n) if first else (0,):
        for rest in itertools.product(chars, repeat=k):
            q = first + ''.join(rest)
            verify(ctx, p, q, pipe)
            ctx.state((pipe, q))


def item_tight(ctx, pipe, n, prefix):
    """Tokens without or with other separators between."""
    p = parser(pipe)
    toks = ('foo', 'OR', '(', ')', '"a b"', '-"x"', '-y')
    for tail in itertools.product(toks, repeat=n - len(prefix)):
        t = tuple(prefix) + tail
        for sep in ('', '\t', '\n \r', '\u3000', '"'):
            q = sep.join(t)
            verify(ctx, p, q, pipe)
            ctx.state((pipe, q))


def item_codepoints(ctx, pipe, lo, hi):
    p = parser(pipe)
    for cp in range(lo, hi):
        if 0xd800 <= cp < 0xe000:
            continue
        c = chr(cp)
        for q in (c, 'a' + c + 'b', '"' + c + '"', 'foo ' + c + ' bar',
                  'foo -' + c, 'a O' + c + 'R b', 'x*' + c):
            verify(ctx, p, q, pipe)
        ctx.state((pipe, cp))


REUSE = ('foo', 'the', 'foo the', '(foo', 'foo)', 'foo AND', '-foo', 'a -b',
         '"x y" OR z', '', 'the -the foo', 'foo bar baz', 'NOT x',
         '(a OR b) NOT c', 'fo* the', 'the OR of', '"', 'a (b')


def ignored_after(p, q):
    from zope.index.text.parsetree import ParseError
    try:
        p.parseQuery(q)
    except ParseError:
        pass
    return list(p.getIgnored())


def item_reuse(ctx, n):
    """Sequences of queries on one parser; earlier results stay."""
    from zope.index.text.parsetree import ParseError
    # what a new parser reports, also for a rejected query
    fresh = {q: ignored_after(parser('std'), q) for q in REUSE}
    for qs in itertools.product(REUSE, repeat=n):
        p = parser('std')
        kept = []
        for q in qs:
            try:
                tree, ignored = p.parseQueryEx(q)
                got = ('tree', textref.tree_tuple(tree), list(ignored),
                       list(tree.terms()))
                kept.append((q, tree, ignored, got))
            except ParseError:
                got = ('ParseError',)
            except Exception as e:
                got = ('escape', repr(e))
            left = list(p.getIgnored())
            if left != fresh[q]:
                raise Violation(
                    'queries %r on one parser: after %r the ignored words '
                    'are %s, of a new parser %s' % (
                        qs, q, show(left), show(fresh[q])),
                    dict(sys='reuse', ops=list(qs)))
            want = reference(q, 'std')
            if got != want:
                raise Violation('queries %r on one parser: %s, expected %s' % (
                    qs, show(got), show(want)),
                    dict(sys='reuse', ops=list(qs)))
            ctx.trans()
        for q, tree, ignored, got in kept:
            now = ('tree', textref.tree_tuple(tree), list(ignored),
                   list(tree.terms()))
            if now != got:
                raise Violation('queries %r on one parser: the result of %r '
                                'became %s' % (qs, q, show(now)),
                                dict(sys='reuse', ops=list(qs)))
        ctx.trace()
        ctx.state(qs)


def item_vocabulary(ctx):
    """What the lexicon knows does not matter; nor does a used parser."""
    from zope.index.text.queryparser import QueryParser
    lexicon = textref.make_lexicon('std')
    p = QueryParser(lexicon)
    qs = [' '.join(t) for k in (1, 2, 3)
          for t in itertools.product(MORE, repeat=k)]
    first = [outcome(p, q) for q in qs]
    lexicon.sourceToWordIds('foo bar baz a b x y fo foooo')
    p2 = QueryParser(lexicon)
    for q, f in zip(qs, first):
        if outcome(p, q) != f or outcome(p2, q) != f:
            raise Violation('query %r depends on the vocabulary' % q,
                            dict(sys='query', query=q, pipe='std', ops=[]))
        ctx.trans(2)
        ctx.state(q)
    ctx.trace()


def shapes(n):
    yield '(' * n + 'foo' + ')' * n
    yield 'foo OR ' + '(bar AND ' * n + 'foo' + ')' * n
    yield 'foo AND ' + '(bar OR foo AND ' * n + 'foo' + ')' * n
    yield 'foo NOT ' + '(bar NOT ' * n + 'foo' + ')' * n
    yield '(' * n
    yield '(foo ' * n
    yield ')' * n
    yield '(the ' * n + ')' * n
    yield 'foo' + ' OR foo' * n
    yield 'foo' + ' AND (bar)' * n
    yield 'foo ' + '-bar ' * n
    yield 'foo ' * n
    yield 'the ' * n + 'foo'
    yield 'foo' + ' NOT bar' * n
    yield '-bar ' * n
    yield '"' * n
    yield '-' * n
    yield '"foo bar" ' * n
    yield 'foo-' * n
    yield 'OR ' * n


def item_deep(ctx, lo, hi):
    p = parser('std')
    for n in range(lo, hi):
        for q in shapes(n):
            verify(ctx, p, q, 'std')
            ctx.state((n, q[:20]))


def item_huge(ctx, n):
    """No exception but ParseError, whatever the size."""
    import sys
    p = parser('std')
    for i, q in enumerate(shapes(n)):
        got = outcome_kind(p, q)
        if got not in ('tree', 'ParseError'):
            raise Violation('%d-fold query %s...: %s' % (n, q[:30], got),
                            dict(sys='huge', n=n, i=i, ops=[]))
        ctx.trans()
        ctx.state((n, i))
    if i != 19 or sys.getrecursionlimit() != 1000:
        raise AssertionError
    # and the parser still works
    for q in REUSE:
        verify(ctx, p, q, 'std')
    ctx.trace()


def outcome_kind(p, q):
    from zope.index.text.parsetree import ParseError
    try:
        p.parseQuery(q)
    except ParseError:
        return 'ParseError'
    except Exception as e:
        return repr(e)
    return 'tree'


def item_length(ctx, n):
    """Every sequence of <=3 long tokens."""
    w = 'w' * n
    toks = (w + 'a', w + 'b', 'OR', 'NOT', '-' + w, '"%sa %sb"' % (w, w),
            w + '*', w + '?b', 'w*' + w, 'a-' * n + w, '"' + 'a ' * n + '"',
            '-' * n, ' ' * n + '(', ')')
    p = parser('std')
    for k in (1, 2, 3):
        for t in itertools.product(toks, repeat=k):
            verify(ctx, p, ' '.join(t), 'std')
            ctx.state((n, t))


def items(tier):
    deep = tier == 'thorough'
    r = []
    for p in TOKENS:
        for p2 in TOKENS:
            if deep:
                for p3 in TOKENS:
                    r.append(('t7-%s-%s-%s' % (p, p2, p3), 'item_tokens',
                              'std', TOKENS, 7, (p, p2, p3)))
            r.append(('t6-%s-%s' % (p, p2), 'item_tokens', 'std', TOKENS,
                      6, (p, p2)))
    for name, chars in CHARSETS.items():
        for c in [''] + sorted(set(chars)):
            for pipe in ('std', 'none') if name == 'lex' else (
                    'html',) if name == 'mark' else ('std',):
                r.append(('c-%s-%s-%r' % (name, pipe, c), 'item_chars', pipe,
                          chars, 7 if deep else 6, c))
    few = ('foo', 'the', 'AND', 'OR', 'NOT', '(', ')')
    for p in few if deep else ():
        for p2 in few:
            r.append(('few-%s-%s' % (p, p2), 'item_tokens', 'std', few, 8,
                      (p, p2)))
    for pipe in textref.PIPES:
        for p in MORE:
            for p2 in MORE if deep else [None]:
                r.append(('m-%s-%s-%s' % (pipe, p, p2), 'item_tokens', pipe,
                          MORE, 4 if deep else 3,
                          (p, p2) if deep else (p,)))
        r.append(('m2-' + pipe, 'item_tokens', pipe, MORE, 2, ()))
        r.append(('m1-' + pipe, 'item_tokens', pipe, MORE, 1, ()))
    for w in WORDS:
        r.append(('words-' + w, 'item_tokens', 'std', WORDS, 3, (w,)))
        for pipe in textref.PIPES:
            r.append(('words-%s-%s' % (pipe, w), 'item_tokens', pipe, WORDS, 2,
                      (w,)))
            r.append(('word-%s-%s' % (pipe, w), 'item_tokens', pipe, WORDS, 1,
                      (w,)))
        if deep:
            for w2 in WORDS:
                r.append(('words4-%s-%s' % (w, w2), 'item_tokens', 'std',
                          WORDS, 4, (w, w2)))
    for n in (1, 2, 3, 4):
        r.append(('t%d' % n, 'item_tokens', 'std', TOKENS, n, ()))
    for n in (2, 3, 4, 5):
        for p in (('foo',), ('(',), ('"a b"',), ('-"x"',), ('-y',), ('OR',)):
            if n < 5 or deep:
                r.append(('tight-%d-%s' % (n, p[0]), 'item_tight', 'std', n,
                          p))
    for n in (1, 2, 3):
        r.append(('reuse-%d' % n, 'item_reuse', n))
    r.append(('vocabulary', 'item_vocabulary'))
    for lo in range(0, 132, 12):
        r.append(('deep-%d' % lo, 'item_deep', lo, lo + 12))
    for n in tuple(range(1, 36)) + (50, 63, 64, 65, 99, 100, 101, 127, 128,
                                    129, 200, 255, 256, 257, 513, 1025, 4097):
        r.append(('length-%d' % n, 'item_length', n))
    for n in (100, 300, 1000, 5000):
        r.append(('huge-%d' % n, 'item_huge', n))
    for lo in range(0, 0x110000, 0x1000):
        if deep or lo < 0x4000 or lo in (0xa000, 0xf000, 0x1d000, 0x10000):
            r.append(('cp-%x' % lo, 'item_codepoints', 'std', lo,
                      lo + 0x1000))
    return r


def run_case(case, ctx):
    if case['sys'] == 'query':
        verify(ctx, parser(case['pipe']), case['query'], case['pipe'])
    elif case['sys'] == 'huge':
        q = list(shapes(case['n']))[case['i']]
        got = outcome_kind(parser('std'), q)
        if got not in ('tree', 'ParseError'):
            raise Violation(got)
    else:
        p = parser('std')
        for q in case['ops']:
            verify(ctx, p, q, 'std')
            left = list(p.getIgnored())
            fresh = ignored_after(parser('std'), q)
            if left != fresh:
                raise Violation('after %r the ignored words are %s, of a new '
                                'parser %s' % (q, show(left), show(fresh)))


BOUNDS = {
    'quick': 'every sequence of <=6 of 9 tokens, <=3 of 18 with 6 '
             'pipelines, <=3 of 43 odd words (<=2 with every pipeline); every string <=6 over 7 alphabets of 7 characters; '
             'tokens glued by 5 separators; every triple of 18 queries on '
             'one parser; nesting and lengths 0..131 exactly, tokens of 1..35 and to 4097 '
             'characters, to 5000 for '
             'totality; 8 blocks of 4096 characters in 7 positions',
    'thorough': 'sequences of <=7 of 9 and 4 of 18 tokens and of 43 odd words, strings <=7, all '
                'of Unicode',
}
