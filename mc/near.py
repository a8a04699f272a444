"""Every operation on indexes holding n documents that share something.

Internal structures change their form at certain sizes (dict and tree of a
word at 10 documents, the keyword index at 64, BTree buckets at 30, 60 and
120 entries); whoever changes the code may put a limit anywhere.  So: for
every n, an index in which n documents share a value, keyword, filter or word,
and from there every operation sequence up to a depth around that limit.
"""
import datetime
import decimal
import fractions

from mc import configs
from mc import engine

NEW, OTHER, SHARED = 1, 2, 100
LONG = 10**6
ODD = 2 * LONG


def ids(start):
    return [start + NEW, start + OTHER] + [
        start + SHARED + i for i in range(5)]


def start(n):
    """Ids around and beside 0: 0 may be a new, the first or the last id.

    Or around other limits of numbers, of both signs.
    """
    return (0, -1, -100, -160, -99 - n, -2, 2**7 - 102, 2**8 - 102,
            2**15 - 102, 2**16 - 102, 2**24 - 102, 2**30 - 2, 2**31 - 5000,
            -2**31, -2**24 - 102, -2**15 - 102, 10**6)[n % 17]


def cfg(kind, n, variant=None, family=None, start=0, **kw):
    """kinds cfg: 'init' makes n documents sharing something."""
    if n < 0:
        return wide(kind, -n, variant, family, start, **kw)
    if n >= ODD:
        return alike(kind, odd(kind, n - ODD, variant), variant, family, start, **kw)
    if n >= LONG:
        n -= LONG
        return alike(kind, ['w' * (n - 1) + x for x in 'abc'] + [
            'w' * n + 'a'], variant, family, start, **kw)
    new, other, a, b, c, d, e = ids(start)
    shared = [a + i for i in range(n)]
    asked = (new, other, a, b, a + n - 1, start + 77)
    rest = [('u', a), ('u', new), ('c',)]
    if kind == 'field':
        r = configs.field((), (5, 9), family)
        r['probes'] = (None, 5, 7, 9)
        init = [('i', d, 5) for d in shared] + [('i', other, 9)]
        ops = [('i', new, 5), ('i', other, 5), ('i', a, 9), ('i', b, 7)]
        r['ranges'] = ((None, None), (5, 5), (5, 9), (9, 9), (6, 8))
    elif kind == 'keyword':
        r = configs.keyword((), variant or 'id', 2, family=family)
        init = [('i', d, ('a',)) for d in shared] + [('i', other, ('b',))]
        ops = [('i', new, ('a',)), ('i', other, ('a', 'b')),
               ('i', a, ('b',)), ('i', b, ('a', 'b')), ('i', b, ()), ('o',),
               ('i', new, ('a', 'c'), 'gen'), ('i', a, ('b', 'a'), 'OOSet'),
               ('i', a, (), 'iter'), ('i', b, ('c', 'b'), 'set')]
        if n < 40:
            r['threshold'] = n
        r['queries'] = [('a',), ('b',), ('a', 'b'), ('zz', 'a')]
    elif kind == 'topic':
        r = configs.topic((), (), (('f', 'odd'), ('g', 'big')), family=family)
        init = [('i', d, 1) for d in shared] + [('i', other, 2)]
        ops = [('i', new, 1), ('i', other, 3), ('i', a, 0), ('i', b, 3),
               ('u', b)]
        rest = [('u', a), ('cf',), ('fc', 'f')]
    else:
        r = configs.text(variant or 'okapi', (), (), family)
        init = [('i', d, 'foo w%d' % (i % 3) if i else 'foo foo')
                for i, d in enumerate(shared)]
        init += [('i', other, 'bar')]
        # the same words with other frequencies, more words, fewer words
        ops = [('i', new, 'foo'), ('i', new, 'bar foo foo'),
               ('i', other, 'bar foo'), ('i', a, 'foo'), ('i', a, 'bar'),
               ('i', b, 'foo w1 foo'), ('i', b, 'baz'), ('i', b, ''),
               # several texts in one
               ('i', new, ('foo w1', 'bar')), ('i', b, ('baz foo', 'foo')),
               ('i', a, ()), ('i', a, None), ('i', a, ('',))]
        r.update(queries=('foo', 'foo bar', 'foo NOT bar', '"foo bar"',
                          'fo* OR bar', 'w1'),
                 terms=('foo', 'foo bar nope', 'bar'),
                 phrases=('bar foo', 'foo foo'), globs=('b*', 'fo?'),
                 weights=(('foo', 'bar'),))
    r.update(ops=ops + rest, init=tuple(init), ids=asked)
    r.update(kw)
    return r


def wide(kind, n, variant=None, family=None, start=0, **kw):
    """kinds cfg: 'init' makes documents of n different things."""
    new, other, a, b, c = ids(start)[:5]
    asked = (new, other, a, b, start + 77)
    rest = [('u', a), ('u', new), ('c',)]
    half = n // 2
    if kind == 'field':
        r = configs.field((), (), family)
        del r['probes']
        last = a + n - 1
        init = [('i', a + i, i) for i in range(n)]
        r['ranges'] = ((None, None), (0, n - 1), (1, n - 2), (half, half),
                       (None, half), (half, None), (n, None), (None, -1),
                       (0.5, n - 1.5))
        ops = [('i', new, half), ('i', new, 0.5), ('i', new, -1),
               ('i', a, half), ('i', a, n), ('i', last, 0), ('i', last, None)]
        rest += [('u', last), ('u', a + half)]
        asked += (last, a + half)
    elif kind == 'keyword':
        r = configs.keyword((), variant or 'id', 2, family=family)
        ws = tuple('k%03d' % i for i in range(n))
        init = [('i', a, ws), ('i', b, ws[::2]), ('i', c, ws[::-1]),
                ('i', other, ('a',))]
        ops = [('i', new, ws), ('i', a, ws[:-1]), ('i', a, ws[1:]),
               ('i', a, ws[::-1] + ws), ('i', a, ws[:half] + ws[half + 1:]),
               ('i', b, ws[1::2]), ('i', b, ws + ('a',)),
               ('i', other, ws[:1]),
               ('i', a, tuple('x' + w for w in ws)), ('i', a, ()), ('o',)]
        r['queries'] = [ws, ws[::-1], ws + ('zz',), ws[::2], ws[1::2],
                        ws[:1], ws[-1:], ws[half:], ('a',)]
    elif kind == 'topic':
        fs = tuple(('f%03d' % i, ('odd', 'big', 'true', 'typ')[i % 4])
                   for i in range(n))
        r = configs.topic((), (), fs, family=family)
        names = tuple(f for f, _ in fs)
        r['sets'] = [(), names, names[::-1], names[:1], names[-1:],
                     names[::2], names[1::2], names[half:], names[:-1]]
        init = [('i', a, 1), ('i', b, 2), ('i', c, 3), ('i', other, 0)]
        ops = [('i', new, 3), ('i', a, 2), ('i', b, 3), ('i', c, 0),
               ('del', names[0]), ('del', names[-1]),
               ('add', names[half], 'big'), ('se', names[-1], 'big'),
               ('u', c)]
        rest = [('u', a), ('cf',), ('fc', names[half])]
    else:
        r = configs.text(variant or 'okapi', (), (), family)
        ws = ['w%03d' % i for i in range(n)]
        back = ws[::-1]
        swapped = ws[:half - 1] + ws[half - 1:half + 1][::-1] + ws[half + 1:] \
            if half else ws
        t = ' '.join
        init = [('i', a, t(ws)), ('i', b, t(ws[::2])), ('i', c, t(back)),
                ('i', other, 'bar ' + t(ws[:1] * n))]
        ops = [('i', new, t(ws)), ('i', a, t(ws[:-1])), ('i', a, t(ws[1:])),
               ('i', a, t(swapped)), ('i', a, t(ws + back)), ('i', c, t(ws)),
               ('i', b, t(ws[1::2])), ('i', b, t(['bar'] + ws)),
               ('i', other, t(['bar'] + ws[:1] * (n - 1))),
               ('i', a, t('x' + w for w in ws)), ('i', a, '')]
        nested = ws[0]
        for i, w in enumerate(ws[1:21]):
            nested = '%s %s (%s)' % (w, ('OR', 'AND')[i % 2], nested)
        r.update(queries=(t(ws), ' OR '.join(ws), '"%s"' % t(ws), '-'.join(ws),
                          'w* NOT ' + ' NOT '.join(ws[1:] or ['bar']),
                          nested, ' '.join(['bar'] + ['-' + w for w in ws])),
                 terms=(t(ws),), phrases=(t(ws), t(back)), globs=('w*',),
                 weights=(tuple(ws), tuple(ws + ws)))
    r.update(ops=ops + rest, init=tuple(init), ids=asked)
    r.update(kw)
    return r


# words, keywords, values and names that code might take for something else
ODDS = (
    ('42', '007', '4', '4.2'), ('0', '00', '-0', '0x'),
    ('\xe9t\xe9', '\xc9T\xc9', 'ete', 'e\u0301t'), ('_x', 'x_', '_', '__'),
    ('\u4e2d\u6587', '\u65e5\u672c', '\u8a9e', '\u4e2d'),
    ('android', 'orange', 'nothing', 'oration'),
    ('and1', 'or2', 'not3', 'nor'),
    ('\ufb01n', '\u017fet', '\xb5m', 'fin'),
    ('foo', 'foobar', 'barfoo', 'oob'), ('aa', 'aaa', 'aaaa', 'aab'),
    ('x1', 'x10', 'x2', 'X1'), ('none', 'null', 'true', 'None'),
    ('the1', 'thex', 'xthe', 'th'), ('10', '9', '1', '100'),
    ('\U00010400b', '\U0001d4b7', '\uffff', '\U00010428b'),
    ('\xdf', 'ss', '\u1e9e', 'SS'), ('\u03a3', '\u03c2', '\u03c3', '\u03a3\u03a3'),
    ('I', '\u0131', 'i', 'l'), ('query', 'operator', 'context', 'self'),
    ('_v_x', '_p_y', '__dict__', '_p_jar'), ('k\u212a', 'kk', 'KK', 'k'),
    ('nan', 'inf', 'NaN', '1e5'), ('\u0661', '\u0967', '1', '\xb2'),
    ('z', 'zz', 'zzz', 'zzzz'), ('q', 'qq', 'y', 'yq'))
# not for texts
STRANGE = (
    ('', ' ', '  ', '\t'), ('a b', 'a', 'b', 'a  b'), ('\x00', '\x00a', 'a\x00', '\n'),
    ('a,b', 'a;b', 'a|b', '|'), ('and', 'or', 'not', 'AND'),
    ("'", '"', '\\', '%s'), ('*', '?', '[', 'a*'), ('-', '--', '-a', 'a-'),
    ('<b>', '&lt;', '<', '&'), ('\ud800', '\udfff', '\ue000', '\uffff'))


# only for values and keywords that are not normalized
D = datetime.datetime
NUMBERS = (
    (1.0, 1.0 + 2**-52, 1.0 - 2**-53, 1.0 + 2**-51),
    (0.1 + 0.2, 0.3, 1 / 3, 0.1 + 1e-12), (1e-12, 2e-12, 1e-13, 5e-324),
    (2**53, 2**53 + 1, 2**53 + 2, 2**53 - 1), (1e308, -1e308, 1e16, 1e-308),
    (2**31, 2**31 - 1, -2**31, 2**32), (2**63, 2**63 - 1, 2**64, 2**64 + 1),
    (0, -1, 1, 2), (-0.5, 0, 0.5, -1), (5, 50, 55, 0), (255, 256, 257, 128),
    (float('inf'), float('-inf'), 0.0, 1e308), (0.1, 0.01, 0.001, 1.1),
    ((1,), (1, 0), (), (1, 1)), ((1, 'a'), (1, 'b'), (2, 'a'), (0, 'a')),
    (b'a', b'A', b'', b'\xff'),
    (D(2000, 1, 1), D(2000, 1, 1, 0, 0, 0, 1), D(1999, 12, 31), D.max),
    (datetime.date.min, datetime.date(2024, 2, 29), datetime.date(2024, 3, 1),
     datetime.date.max),
    (decimal.Decimal('0.1'), decimal.Decimal('0.10000000000000001'),
     decimal.Decimal(0), decimal.Decimal('1e30')),
    (fractions.Fraction(1, 3), fractions.Fraction(333333333, 999999999 + 1),
     fractions.Fraction(0), fractions.Fraction(10**30, 3)))


def quads(kind, v):
    r = ODDS if kind == 'text' else ODDS + STRANGE
    if kind == 'field' or (kind, v or 'id') == ('keyword', 'id'):
        r += NUMBERS
    return r


def odd(kind, i, v):
    return quads(kind, v)[i]


def alike(kind, few, variant=None, family=None, start=0, **kw):
    """kinds cfg: documents of these four things (long, much alike, odd)."""
    new, other, a, b, c = ids(start)[:5]
    asked = (new, other, a, b, start + 77)
    rest = [('u', a), ('u', new), ('c',)]
    p, q, r2, s = few
    if kind == 'field':
        r = configs.field((), (), family)
        r['probes'] = (None, p[:-1], p, q, s) if isinstance(p, str) else (
            None,) + few
        init = [('i', a, p), ('i', b, q), ('i', c, r2), ('i', other, s)]
        ops = [('i', new, w) for w in few] + [('i', a, q), ('i', b, s)]
    elif kind == 'keyword':
        r = configs.keyword((), variant or 'id', 2, family=family)
        init = [('i', a, (p, q)), ('i', b, (q, r2)), ('i', c, (s,)),
                ('i', other, ('a',) if isinstance(p, str) else (s,))]
        ops = [('i', new, (p, s)), ('i', a, (p,)), ('i', a, (q, s)),
               ('i', b, (r2, q, p)), ('i', c, (r2,)), ('o',)]
        r['queries'] = [(w,) for w in few] + [
            (p, q), (q, s), (p, p + 'x' if isinstance(p, str) else r2)]
    elif kind == 'topic':
        fs = ((p, 'odd'), (q, 'big'), (s, 'true'))
        r = configs.topic((), (), fs, family=family)
        init = [('i', a, 1), ('i', b, 2), ('i', c, 3), ('i', other, 0)]
        ops = [('i', new, 3), ('i', a, 2), ('i', b, 3), ('i', c, 0),
               ('del', p), ('del', q), ('add', q, 'odd'), ('add', r2, 'big'),
               ('se', s, 'big')]
        rest = [('u', a), ('cf',), ('fc', q)]
    else:
        r = configs.text(variant or 'okapi', (), (), family)
        init = [('i', a, p + ' ' + q), ('i', b, '%s %s %s' % (q, q, r2)),
                ('i', c, s), ('i', other, 'bar')]
        ops = [('i', new, s + ' ' + p), ('i', a, q + ' ' + p), ('i', a, p),
               ('i', b, '%s %s' % (q, r2)), ('i', c, 'bar ' + q),
               ('i', other, p)]
        r.update(queries=(p, '%s %s' % (p, q), '%s OR %s' % (p, s),
                          '"%s %s"' % (p, q), '%s-%s' % (q, r2),
                          '%s NOT %s' % (q, p), q + '*', p[:1] + '*',
                          p[:-1] + '?' if p[1:] else p + '?',
                          '%s -%s' % (q, r2), '%s %s' % (s, s)),
                 terms=(p, s), phrases=('%s %s' % (p, q),),
                 globs=(p + '*', q + '?', p[:1] + '*' + s[-1:]),
                 weights=((p, q), (s,)))
    r.update(ops=ops + rest, init=tuple(init), ids=asked)
    r.update(kw)
    return r


ALL = tuple(range(3, 131))
BIG = (255, 256, 257, 512, 513, 1000, 1001, 1023, 1024, 1025)
WIDE = tuple(-n for n in range(1, 41)) + (
    -50, -59, -60, -61, -63, -64, -65, -66, -99, -100, -101, -128, -129)
SOMEWIDE = tuple(-n for n in (1, 2, 4, 5, 8, 9, 10, 11, 16, 17, 31, 33, 65))
SOME = (3, 7, 8, 9, 10, 11, 12, 15, 16, 17, 29, 30, 31, 32, 33, 59, 60, 61, 62,
        63, 64, 65, 66, 99, 100, 101, 119, 120, 121, 122, 127, 128, 129)
FEW = (9, 10, 11, 63, 64)
LENGTHS = tuple(LONG + n for n in tuple(range(2, 36)) + (
    50, 59, 60, 61, 63, 64, 65, 99, 100, 101, 119, 120, 121, 127, 128, 129,
    199, 200, 201, 255, 256, 257, 300, 499, 500, 512, 513, 999, 1000, 1023,
    1024, 1025, 2000, 4096, 4097, 10000))
SOMELENGTHS = tuple(LONG + n for n in (2, 3, 5, 8, 9, 16, 17, 20, 30, 31,
                                       32, 33, 64, 65, 128, 256, 257, 1025))

KINDS = (('text', 'okapi'), ('text', 'cosine'), ('field', None),
         ('keyword', 'id'), ('keyword', 'lower'), ('topic', None))
NOTOPIC = KINDS[:-1]


def items(tier, kinds=KINDS, one=ALL, two=FEW, family=64, group=8, big=None,
          width=None, length=None):
    """Items: from every size in *one* every operation, in *two* all pairs."""
    if big is None:
        big = BIG if one is ALL else ()
    if width is None:
        width = WIDE if one is ALL else SOMEWIDE
    if length is None:
        length = LENGTHS if one is ALL else SOMELENGTHS
    deep = tier == 'thorough'
    if deep:
        one, two, big = tuple(range(3, 270)), SOME, BIG[3:]
        width, length = WIDE, LENGTHS
    r = []
    for kind, v in kinds:
        odds = tuple(ODD + i for i in range(len(quads(kind, v))))
        for sizes, depth in ((one, 1), (big, 1), (two, 2), (width, 1),
                             (length, 1), (odds, 2 if deep else 1)):
            g = 1 if depth > 1 or sizes is big else group
            for i in range(0, len(sizes), g):
                part = tuple(sizes[i:i + g])
                fam = family if (i // g) % 2 else None
                r.append(('near-%s-%s-%d-%d' % (kind, v, depth, part[0]),
                          'item_near', kind, v, fam, part, depth + (
                              deep and depth > 1 and part[0] < 12)))
    # the big ones first
    r.reverse()
    return r


def explore(ctx, make, kind, v, family, sizes, depth, change=None, **kw):
    """*make*: cfg -> system; change(cfg, n) may modify cfg."""
    for n in sizes:
        c = cfg(kind, n, v, family, start(n),
                **(kw if 0 < n < LONG else {}))
        if change:
            change(c, n)
        # asked before the operation, too: who remembers answers must
        # forget them then
        if n % 2 or n >= ODD:
            engine.bfs(make(c), ctx, depth, True)
        if not n % 2 or n >= ODD:
            engine.bfs(make(c), ctx, depth)


def bounds(labels):
    """What the items of this module cover, in words."""
    firsts = {1: [], 2: []}
    for n in labels:
        if n.startswith('near-'):
            _, kind, v, depth, first = n.split('-', 4)
            firsts[int(depth)].append(int(first))
    r = ('every operation from indexes of 3 to %d (or more) documents that '
         'share something, of documents and queries of 1 to %d (or more) '
         'different things, of things of 1 to %d (or more) characters and of odd ones' % (
             max(n for n in firsts[1] if n < LONG), -min(firsts[1]),
             max(n for n in firsts[1] if n < ODD) - LONG))
    if firsts[2]:
        r += ', all pairs of operations around the sizes %s' % ', '.join(
            map(str, sorted(set(firsts[2]))))
    return r
