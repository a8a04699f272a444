"""Small configurations of every index type, shared by several checks.

Each is a cfg for kinds.KindSystem with fixed questions ('probes', 'queries',
'ids' ...), so that answers of different objects can be compared.
"""
import itertools

M32 = (-2**31, 2**31 - 1)
M64 = (-2**63, 2**63 - 1)

QUERIES = ('foo', 'foo bar', 'foo OR baz', 'foo NOT bar', '"foo bar"',
           'foo NOT baz NOT bar',
           'fo* OR ba*', 'foo AND the', 'bar-foo', 'foo OR foo', 'nope',
           '(foo OR bar) AND baz')
BATTERY = dict(
    queries=QUERIES, terms=('foo', 'bar', 'foo baz', 'nope', 'foo bar nope'),
    phrases=('foo bar', 'bar foo', 'foo foo', 'foo', 'foo nope bar'),
    globs=('fo*', 'b?r', 'b*'), weights=(('foo',), ('bar', 'foo', 'bar')))

TEXTS = ('', 'foo', 'foo bar', 'bar foo bar foo', 'the baz bar', 'foo foo')


def field(docs=(1, 2), values=(0, 1, 5), family=None, **kw):
    ops = [('i', d, v) for d in docs for v in values]
    ops += [('u', d) for d in docs] + [('c',)]
    probes = list(values)
    if None not in probes:
        probes.append(None)
    return dict(kind='field', ops=ops, probes=tuple(probes),
                ids=tuple(docs) + (77,), family=family, **kw)


def ksubsets(ws):
    return [c for k in range(len(ws) + 1)
            for c in itertools.combinations(ws, k)]


KWORDS = {'id': ('a', 'b', 'c'), 'lower': ('a', 'A', 'B'),
          'split': ('a-b', 'b', '-'), 'drop': ('x', 'xa', 'a'),
          'strip': ('-a', 'a-', '--')}


def keyword(docs=(1, 2), norm='id', n=3, thresholds=(), optimize=True,
            family=None, **kw):
    ws = KWORDS[norm][:n]
    ops = [('i', d, s) for d in docs for s in ksubsets(ws)]
    ops += [('u', d) for d in docs] + [('c',)]
    if optimize:
        ops.append(('o',))
    ops += [('t', t) for t in thresholds]
    qs = [q for q in ksubsets(ws)] + [('zz',), (ws[0], 'zz')]
    return dict(kind='keyword', norm=norm, ops=ops, queries=qs,
                ids=tuple(docs) + (77,), family=family, **kw)


def topic(docs=(1, 2), ns=(0, 1, 3), filters=(('f', 'odd'), ('g', 'big')),
          extra=(), family=None):
    ops = [('i', d, n) for d in docs for n in ns]
    ops += [('u', d) for d in docs] + [('cf',)] + list(extra)
    return dict(kind='topic', filters=tuple(filters), ops=ops, family=family)


def text(rank='okapi', docs=(1, 2), texts=TEXTS, family=None, pipe='std',
         **kw):
    ops = [('i', d, t) for d in docs for t in texts]
    ops += [('u', d) for d in docs] + [('c',)]
    c = dict(kind='text', rank=rank, pipe=pipe, ops=ops,
             ids=tuple(docs) + (77,), family=family)
    c.update(BATTERY)
    c.update(kw)
    return c


def doc(i, style='mod'):
    """Documents of a growing corpus."""
    if style == 'mod':
        return ('foo ' * (i % 4) + 'bar ' * (i % 3) + 'baz ' * (i % 7 == 0)
                + 'w%d' % (i % 5))
    if style == 'grow':
        return 'foo ' * (i % 40) + 'bar'
    if style == 'late':     # bar after foo, but not next to it
        return 'foo the w%d bar foo' % i if i % 2 else 'bar foo'
    return 'foo bar' if i % 2 else 'foo w%d' % i


def sweep(kind, n, start=0, stride=1):
    """A history in which everything grows, changes and shrinks.

    Yields operations and, between them, None where to have a close look.
    """
    ids = [start + stride * i for i in range(n)]
    edge = {1, 2, 9, 10, 11, 12, 29, 30, 31, 32, 59, 60, 61, 62, 63, 64, 65,
            66, 90, 119, 120, 121, 122, n - 2, n - 1, n}

    def value(i, turn):
        if kind == 'field':
            return (i * (turn + 1)) % (7 if turn % 2 else n)
        if kind == 'keyword':
            ws = [('a', 'b', 'c')[j] for j in range(3)
                  if (i + turn) % (j + 2) == 0 or j == turn % 3]
            return tuple(ws) + (('w%d' % (i % 5),) if turn else ())
        if kind == 'topic':
            return (i + turn) % 4
        return doc(i + turn)
    held = 0
    for i, d in enumerate(ids):         # grow
        yield ('i', d, value(i, 0))
        held += 1
        if held in edge:
            yield None
    for i, d in enumerate(ids):         # change
        if i % 3 == 0:
            yield ('i', d, value(i, 1))
        if i % 40 == 0:
            yield None
    for i, d in enumerate(ids):         # the same again
        if i % 3 == 0:
            yield ('i', d, value(i, 1))
    yield None
    for i, d in reversed(list(enumerate(ids))):     # shrink
        yield ('u', d)
        held -= 1
        if held in edge:
            yield None
        if i % 5 == 0:                  # absent
            yield ('u', d)
    yield None
    for i, d in enumerate(ids[:20]):    # grow again
        yield ('i', d, value(i, 2))
    yield None
    yield ('cf',) if kind == 'topic' else ('c',)
    yield None
    for i, d in enumerate(ids[:14]):
        yield ('i', d, value(i, 3))
    yield None
    for i, d in enumerate(ids[:14:2]):
        yield ('u', d)
    yield None


def sweep_cfg(kind, variant=None, family=None, **kw):
    """cfg for sweeps: questions that do not depend on the documents."""
    if kind == 'field':
        c = field((0, 1, 2, 9, 30, 61), (0, 1, 5, 6, 40), family)
    elif kind == 'keyword':
        c = keyword((0, 1, 2, 9, 30, 61), variant or 'id', family=family)
        c['queries'] = [('a',), ('b',), ('a', 'b'), ('a', 'b', 'c'), ('w0',),
                        ('w1', 'w2'), ('zz',)]
    elif kind == 'topic':
        c = topic((0, 1), family=family, filters=(
            ('f', 'odd'), ('g', 'big'), ('h', 'true')))
    else:
        c = text(variant or 'okapi', (0, 1, 2, 9, 30, 61), family=family)
    c['ops'] = []
    c.update(kw)
    return c


# Other numbers for the documents 1, 2, 3, 4 of a cfg.
NUMBERS = {'zero': {1: 0, 2: -5, 3: -1, 4: 7},
           'ends': {1: 2**31 - 1, 2: -2**31, 3: 0, 4: 2**31 - 2}}


def renumber(cfg, how):
    """*cfg* with other document ids."""
    ids = NUMBERS[how]
    r = dict(cfg)
    for k in ('ops', 'init'):
        if k in cfg:
            r[k] = type(cfg[k])(renumber_op(o, how) for o in cfg[k])
    if 'ids' in cfg:
        r['ids'] = tuple(ids.get(d, d) for d in cfg['ids'])
    return r


def renumber_op(op, how):
    """The operation with another document id."""
    at = {'i': 1, 'u': 1, 'x': 2, 'xu': 1}.get(op[0])
    if at is not None and type(op[at]) is int:
        d = NUMBERS[how].get(op[at], op[at])
        return op[:at] + (d,) + op[at + 1:]
    if type(op[0]) is int and isinstance(op[1], tuple):     # pair
        return op[0], renumber_op(op[1], how)
    return op


def renumbered(items, prefix='bfs', hows=('zero', 'ends')):
    """Items again, with other document ids."""
    r = []
    for it in items:
        if it[0].startswith(prefix):
            for how in hows:
                args = [renumber(a, how) if isinstance(a, dict) and 'ops' in a
                        else a for a in it[2:]]
                if args != list(it[2:]):
                    r.append((it[0] + '-' + how, it[1]) + tuple(args))
    return r
