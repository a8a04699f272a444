"""C11 Compiled and pure-Python scoring are interchangeable."""
import itertools
import os
import pickle
import subprocess
import sys
import tempfile

from mc.checks import c09
from mc.core import HarnessError, Violation, close, diff_answers, show
from mc.kinds import TextKind

TEXTS = c09.TEXTS
OPS = [('i', d, t) for d in (1, 2) for t in TEXTS[:5]] + [
    ('u', 1), ('u', 2), ('c',)]


def legacy(x):
    """As if stored by a release that kept the total length as an int."""
    v = x.index._totaldoclen
    x.index._totaldoclen = int(v() if callable(v) else v)


def do(kind, x, op):
    if op[0] == 'legacy':
        legacy(x)
    else:
        kind.do(x, op)


def ask(kind, x, bat):
    r = {}
    cfg = kind.cfg
    for q in cfg['queries'] + c09.GLOBQUERIES:
        try:
            r[q] = {d: float(s) for d, s in x.apply(q).items()}
        except Exception as e:
            r[q] = type(e).__name__
    for q in cfg['terms']:
        m = x.index.search(q)
        r['t', q] = m if m is None else {d: float(s) for d, s in m.items()}
    r['qw'] = [float(x.index.query_weight(list(q))) for q in cfg['weights']]
    return r


def histories(what, *args):
    if what == 'tree':
        depth, prefix = args
        for tail in itertools.product(OPS, repeat=depth - len(prefix)):
            yield None, tuple(prefix) + tail, 'all'
    elif what == 'corpora':
        words, length, n, part, parts = args
        for i, texts in enumerate(c09.corpora(words, length, n)):
            if i % parts == part:
                yield None, tuple(('i', j, t)
                                  for j, t in enumerate(texts)), 'last'
    elif what == 'legacy':
        for h in itertools.product(OPS[:3] + OPS[5:7] + OPS[10:], repeat=2):
            for t in OPS[:4] + OPS[10:]:
                yield None, h + (('legacy',), t), 'all'
    elif what == 'sweep':
        style, top, fam = args
        h = [('i', i, c09.doc(i, style)) for i in range(top)]
        h += [('i', i, c09.doc(i + 1, style)) for i in range(0, top, 2)]
        h += [('u', i) for i in range(0, top, 3)]
        yield fam, h, 'some'
    elif what == 'many':
        n, fam = args
        yield fam, tuple([('i', i, 'foo ' + c09.doc(i, 'mod'))
                          for i in range(n)]
                         + [('u', 1), ('i', 2, 'foo foo')]), 'last'
    elif what == 'ids':
        fam, ids = args
        for a, b in itertools.permutations(ids, 2):
            yield fam, (('i', a, 'foo bar'), ('i', b, 'foo foo baz'),
                        ('i', a, 'foo')), 'all'
    elif what == 'freq':
        for k in args[0]:
            for n in (0, 1, 12):
                yield None, tuple(
                    [('i', 0, 'foo ' * k + 'bar')] + [
                        ('i', j, 'bar baz foo' if j % 2 else 'qux ' * j)
                        for j in range(1, n + 1)]), 'last'
    elif what == 'given':
        yield args[0], args[1], 'last'
    else:
        raise HarnessError(what)


def drive(*spec):
    """(family, history so far, answers) for every history of a spec."""
    for fam, h, when in histories(*spec):
        kind = TextKind(dict(c09.BATTERY, rank='okapi', family=fam))
        x = kind.make()
        for i, op in enumerate(h):
            do(kind, x, op)
            if when == 'all' or i == len(h) - 1 or (
                    when == 'some' and (i % 10 == 0 or i < 15)):
                yield fam, h[:i + 1], ask(kind, x, None)


def compare(a, b):
    if a[:2] != b[:2]:
        raise HarnessError('out of step')
    d = diff_answers(a[2], b[2])
    if d:
        raise Violation(
            '%s after %s: compiled %s, pure Python %s' % (
                show(d[0]), show(a[1]), show(d[1]), show(d[2])),
            dict(sys='diff', fam=a[0], ops=list(a[1])))


def item_diff(ctx, how, *spec):
    with tempfile.TemporaryDirectory(prefix='mc-') as tmp:
        name = os.path.join(tmp, 'spec')
        with open(name, 'wb') as f:
            pickle.dump(spec, f)
        env = dict(os.environ)
        env['PURE_PYTHON'] = '1' if how == 'env' else '0'
        err = open(os.path.join(tmp, 'err'), 'w+')
        p = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-m', 'mc.pure', name, how],
            stdout=subprocess.PIPE, stderr=err, env=env)
        try:
            for a in drive(*spec):
                try:
                    b = pickle.load(p.stdout)
                except EOFError:
                    p.wait()
                    err.seek(0)
                    raise Violation('the pure Python implementation fails '
                                    'at %s: %s' % (show(a[1]),
                                                   err.read()[-1500:]),
                                    dict(sys='diff', fam=a[0],
                                         ops=list(a[1])))
                compare(a, b)
                ctx.trans()
                ctx.query(len(a[2]))
                ctx.state((how, repr(a[:2])))
                ctx.outcome(repr(a[2]))
            ctx.sample({'history': show(a[1])})
            ctx.trace()
        finally:
            p.kill()
            p.wait()
            err.close()


# --- the compiled function itself

class Seq:
    """A sequence that fails at one position."""

    def __init__(self, items, bad=None):
        self.items, self.bad = items, bad

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if i >= len(self.items):
            raise IndexError(i)
        if i == self.bad:
            raise ZeroDivisionError(i)
        return self.items[i]


class Lens:
    def __init__(self, d, bad=None):
        self.d, self.bad = d, bad

    def __getitem__(self, k):
        if k == self.bad:
            raise ZeroDivisionError(k)
        return self.d[k]


class Result:
    """Keeps what it is given, failing at one key."""

    def __init__(self, bad=None):
        self.got, self.bad = [], bad

    def __setitem__(self, k, v):
        self.got.append((k, v))
        if k == self.bad:
            raise ZeroDivisionError(k)


class Num:
    """An object that is not shared with anything."""

    def __init__(self, v):
        self.v = v

    def __float__(self):
        return float(self.v)


class Key:
    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, other):
        return self.n == getattr(other, 'n', other)

    def __repr__(self):
        return 'Key(%d)' % self.n


def formula(f, length, idf, mean):
    return f * 2.2 / (f + 1.2 * (0.25 + 0.75 * length / mean)) * idf


def item_grid(ctx):
    from zope.index.text.okascore import score
    import BTrees
    fs = (1, 2, 3, 10, 255, 1000, 100000)
    lens = (1, 2, 3, 50, 1000, 10**6)
    for f in fs:
        for n in lens:
            for mean in (0.5, 1.0, 1.5, 20.0, 1e5):
                for idf in (1e-6, 0.69314718, 1.0, 14.5):
                    for fam in (BTrees.family32, BTrees.family64):
                        r = fam.IF.Bucket()
                        score(r, [(7, f)], fam.IF.BTree({7: n}), idf, mean)
                        want = formula(f, n, idf, mean)
                        if list(r) != [7] or not close(r[7], want):
                            raise Violation('score(f=%r, len=%r, idf=%r, '
                                            'mean=%r) = %r, expected %r' % (
                                                f, n, idf, mean, dict(r),
                                                want))
                        ctx.trans()
                    d = {}
                    score(d, ((7, float(f)), (8, 1)), {7: n, 8: n}, idf, mean)
                    if not close(d[7], want) or not close(
                            d[8], formula(1, n, idf, mean)):
                        raise Violation('score gives %r' % d)
                    ctx.trans()
                    ctx.trace()
                    ctx.state((f, n, mean, idf))


def item_sizes(ctx, top):
    """Every number of items, in a list and in a mapping."""
    from zope.index.text.okascore import score
    import BTrees
    IF = BTrees.family32.IF
    lens = {i: 1 + i % 40 for i in range(top)}
    stored = IF.BTree(lens)
    fs = [(i, 1.0 + i * 7 % 300) for i in range(top)]
    wants = [formula(f, lens[i], 1.5, 20.5) for i, f in fs]
    for n in range(0, top, 1):
        r = {}
        score(r, fs[:n], lens, 1.5, 20.5)
        got = [r]
        if n % 10 in (0, 1):
            r = IF.BTree()
            score(r, IF.BTree(fs[:n]).items(), stored, 1.5, 20.5)
            got.append(r)
        for r in got:
            if len(r) != n or not all(close(r[i], wants[i])
                                      for i in range(n)):
                raise Violation('%d items: scores are wrong or missing' % n)
            ctx.trans()
        ctx.state(('n', n))
    ctx.trace()


BAD_ITEMS = ('pair', [1, 1.0], (1, 1.0, 2), (1,), None, 5)


def refs(objs):
    return [sys.getrefcount(o) for o in objs]


def one_call(n, kind, pos, items_type, rounds=3):
    """Call score with a fault at one position; references must balance."""
    from zope.index.text.okascore import score
    keys = [Key(i) for i in range(n)]
    freqs = [Num(i + 1.5) for i in range(n)]
    lens = [Num(i + 2.5) for i in range(n)]
    pairs = [(keys[i], freqs[i]) for i in range(n)]
    bad = None
    if kind[0] == 'item':
        bad = BAD_ITEMS[kind[1]]
        if isinstance(bad, list):
            bad = list(bad)
        pairs[pos] = bad
    items = (Seq(pairs, pos if kind[0] == 'seq' else None)
             if items_type == 'seq'
             else tuple(pairs) if items_type == 'tuple' else list(pairs))
    d2len = Lens(dict(zip(keys, lens)), pos if kind[0] == 'len' else None)
    if kind[0] == 'missing':
        del d2len.d[keys[pos]]
    idf, mean = 1.25, 3.5
    objs = keys + freqs + lens + pairs + [items, d2len, d2len.d]
    results = [Result(pos if kind[0] == 'set' else None)
               for i in range(rounds)]
    before = refs(objs)
    rb = refs(results)
    for result in results:
        try:
            r = score(result, items, d2len, idf, mean)
            if kind[0] != 'ok':
                raise Violation('fault %r at %r is not reported' % (kind, pos))
            if r is not None:
                raise Violation('score returns %r' % r)
        except (ZeroDivisionError, TypeError, KeyError) as e:
            if kind[0] == 'ok':
                raise Violation('unexpected %r' % e)
            want = TypeError if kind[0] == 'item' else (
                KeyError if kind[0] == 'missing' else ZeroDivisionError)
            if not isinstance(e, want):
                raise Violation('fault %r gives %r' % (kind, e))
            del e
    floats = []
    for result in results:
        # in any order, and with a fault perhaps only some of them
        got = sorted(k.n for k, v in result.got)
        if got != (list(range(n)) if kind[0] == 'ok' else sorted(
                set(got) & set(range(n)))):
            raise Violation('scores for %r of %r' % (result.got, keys))
        for k, v in result.got:
            if not close(v, formula(k.n + 1.5, k.n + 2.5, idf, mean)):
                raise Violation('score %r' % v)
            floats.append(v)
        result.got = None
    k = v = None
    for x in floats:
        # the list, the loop variable and the argument
        if sys.getrefcount(x) != 3:
            raise Violation('a score object has %d references too many' % (
                sys.getrefcount(x) - 3))
    x = None
    after = refs(objs)
    if after != before:
        i = [i for i in range(len(objs)) if after[i] != before[i]][0]
        raise Violation('references to %r changed by %d in %d calls' % (
            objs[i], after[i] - before[i], rounds))
    if refs(results) != [c + (result is r) for c, r in zip(rb, results)]:
        raise Violation('references to the result changed')
    if d2len.d.keys() != {k for i, k in enumerate(keys)
                          if (kind[0], pos) != ('missing', i)}:
        raise Violation('the lengths are altered')
    if [a is b for a, b in zip(items, pairs)].count(False) if (
            items_type != 'seq') else items.items is not pairs:
        raise Violation('the items are altered')


def item_refs(ctx, n):
    kinds = [('ok',), ('seq',), ('len',), ('missing',), ('set',)] + [
        ('item', i) for i in range(len(BAD_ITEMS))]
    for kind in kinds:
        for pos in range(n) if kind[0] != 'ok' else [None]:
            for t in ('list', 'tuple', 'seq'):
                if kind[0] == 'seq' and t != 'seq':
                    continue
                case = dict(sys='refs', n=n, kind=kind, pos=pos, type=t,
                            ops=[])
                try:
                    one_call(n, kind, pos, t)
                except Violation as v:
                    v.case = case
                    v.msg = '%s: %s' % (show(case), v.msg)
                    raise
                ctx.trans()
                ctx.trace()
                ctx.state(('refs', n, kind, pos, t))


def item_args(ctx):
    """Wrong arguments are rejected, without a reference kept."""
    from zope.index.text.okascore import score
    r, items, lens = {}, [(1, 1.0)], {1: 2}
    for args in ((), (r,), (r, items, lens, 1.0), (r, items, lens, 'a', 1.0),
                 (r, items, lens, 1.0, None),
                 (r, items, lens, 1.0, 1.0, 1.0)):
        objs = [r, items, items[0], lens]
        before = refs(objs)
        for i in range(3):
            try:
                score(*args)
            except TypeError:
                pass
            else:
                raise Violation('score%r is accepted' % (args,))
        if refs(objs) != before or r:
            raise Violation('score%r keeps something' % (args,))
        ctx.trans()
    ctx.trace()
    ctx.state('args')


def item_index_refs(ctx):
    """References around searches of a real index."""
    kind = TextKind(dict(c09.BATTERY, rank='okapi'))
    x = kind.make()
    docids = [10**6 + i for i in range(40)]
    for i, d in enumerate(docids):
        x.index_doc(d, c09.doc(i, 'mod'))
    d = None
    for q in c09.QUERIES + c09.GLOBQUERIES:
        x.apply(q)
        before = refs(docids)
        total = sys.gettotalrefcount() if hasattr(
            sys, 'gettotalrefcount') else 0
        for i in range(5):
            x.apply(q)
        if refs(docids) != before:
            raise Violation('query %r keeps references to document ids' % q)
        ctx.trans(5)
        ctx.state(('idx', q))
    ctx.trace()


def items(tier):
    deep = tier == 'thorough'
    r = []
    for p in OPS:
        for p2 in OPS if deep else [None]:
            r.append(('tree-%s-%s' % (p, p2), 'item_diff', 'block', 'tree',
                      4 if deep else 3, (p, p2) if deep else (p,)))
    for p in range(3):
        r.append(('c2-%d' % p, 'item_diff', 'block', 'corpora',
                  ('foo', 'bar'), 3, 3, p, 3))
    if deep:
        for p in range(30):
            r.append(('c3-%d' % p, 'item_diff', 'block', 'corpora',
                      ('foo', 'bar', 'baz'), 2, 4, p, 30))
    r.append(('legacy', 'item_diff', 'block', 'legacy'))
    for style in ('mod', 'grow', 'pair'):
        r.append(('sweep-' + style, 'item_diff', 'block', 'sweep', style,
                  600 if deep else 140, None))
    r.append(('sweep64', 'item_diff', 'block', 'sweep', 'mod', 40, 64))
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999,
              1000, 1001, 1023, 1024, 1025) + ((4097, 33000) if deep else ()):
        for fam in (None, 64) if n % 2 or deep else (None,):
            r.append(('many-%s-%d' % (fam, n), 'item_diff', 'block', 'many',
                      n, fam))
    r.append(('sizes', 'item_sizes', 5000 if deep else 1100))
    r.append(('ids32', 'item_diff', 'block', 'ids', None,
              (-2**31, -1, 0, 2**31 - 1)))
    r.append(('ids64', 'item_diff', 'block', 'ids', 64,
              (-2**63, -1, 0, 2**40, 2**63 - 1)))
    r.append(('freq', 'item_diff', 'block', 'freq',
              (1, 2, 5, 100, 255, 256, 1000, 5000)))
    r.append(('env', 'item_diff', 'env', 'corpora', ('foo', 'bar'), 2, 2, 0,
              1))
    r.append(('env-sweep', 'item_diff', 'env', 'sweep', 'mod', 40, None))
    r.append(('grid', 'item_grid'))
    for n in (0, 1, 2, 3, 5):
        r.append(('refs-%d' % n, 'item_refs', n))
    r.append(('args', 'item_args'))
    r.append(('index-refs', 'item_index_refs'))
    return r


def run_case(case, ctx):
    if case['sys'] == 'refs':
        one_call(case['n'], case['kind'], case['pos'], case['type'])
        return
    # the last answers of one history, in both ways
    ops = [tuple(o) for o in case['ops']]
    with tempfile.TemporaryDirectory(prefix='mc-') as tmp:
        name = os.path.join(tmp, 'spec')
        with open(name, 'wb') as f:
            pickle.dump(('given', case['fam'], ops), f)
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.pure',
                            name, 'block'], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL,
                           env=dict(os.environ, PURE_PYTHON='0'))
    for a in drive('given', case['fam'], ops):
        if not p.stdout:
            raise Violation('the pure Python implementation fails')
        compare(a, pickle.loads(p.stdout))


BOUNDS = {
    'quick': 'all histories of 3 of 13 operations, all multisets of 3 '
             'documents of <=3 words of 2, legacy total length in every '
             'state of 2 operations, corpora to 140 documents and of 63 to '
             '1025, extreme ids, frequencies to 5000, 35 queries; the C '
             'function on a grid of 840 points, on 0..1099 items and with '
             'every kind of fault at every position of '
             '<=5 items',
    'thorough': 'histories of 4 operations, multisets of 4 documents of 3 '
                'words, corpora to 600',
}
