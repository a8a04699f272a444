"""C17 Mass union and intersection equal their pairwise definition."""
import itertools

from mc.core import Violation, same, show
from mc.kinds import FAMILY

POOL = (
    {}, {1: 1.0}, {2: 3.0}, {1: 2.5, 2: 1.0}, {1: 4.0, 3: 0.5},
    {1: 1.0, 2: 2.0, 3: 8.0}, {-5: 1.0, 1: 0.25},
)
WEIGHTS = (1, 2, -0.5)
ODD = (0, -1, 1.0, 3, 0.5)


def build(kind, fam, d):
    if d is None:
        return None
    IF = FAMILY[fam or 32].IF
    return IF.Bucket(d) if kind == 'b' else IF.BTree(d)


def union(L):
    r = {}
    for d, w in L:
        for k, v in d.items():
            r[k] = r.get(k, 0.0) + w * v
    return r


def intersection(L):
    L = [p for p in L if p[0] is not None]
    if not L:
        return {}
    keys = set(L[0][0])
    for d, w in L[1:]:
        keys &= set(d)
    return {k: sum(w * d[k] for d, w in L) for k in keys}


def one(ctx, fam, L, kinds, container=list, built=None):
    """L: [(dict, weight)]; kinds: 'b' or 't' for each."""
    from zope.index.text.setops import mass_weightedIntersection
    from zope.index.text.setops import mass_weightedUnion
    if any(d is None for d, w in L):
        todo = (('intersection', mass_weightedIntersection, intersection),)
    else:
        todo = (('intersection', mass_weightedIntersection, intersection),
                ('union', mass_weightedUnion, union))
    for name, f, ref in todo:
        maps = built or [build(k, fam, d) for k, (d, w) in zip(kinds, L)]
        arg = container((m, w) for m, (d, w) in zip(maps, L))
        before = list(arg)
        got = f(arg, FAMILY[fam]) if fam else f(arg)
        want = ref(L)
        got = dict(got.items())
        if not same(got, want):
            raise Violation('%s of %s (%s, family %s) is %s, expected %s' % (
                name, show(L), kinds, fam, show(got), show(want)),
                dict(sys='one', fam=fam, kinds=kinds, ops=list(L)))
        now = list(arg)
        if len(now) != len(before) or any(
                a is not b for a, b in zip(now, before)) or any(
                    m is not None and dict(m.items()) != d
                    for m, (d, w) in zip(maps, L)):
            raise Violation('%s alters its input %s' % (name, show(L)),
                            dict(sys='one', fam=fam, kinds=kinds,
                                 ops=list(L)))
        ctx.trans()
    ctx.trace()


def item_small(ctx, fam, kinds, n, weights, pool, first):
    """Every list of n pairs (starting with the first)."""
    cache = [[build(k, fam, d) for d in pool] for k in kinds]
    pairs = [(i, w) for i in range(len(pool)) for w in weights]
    for rest in itertools.product(pairs, repeat=n - 1):
        L = (pairs[first],) + rest
        one(ctx, fam, [(pool[i], w) for i, w in L], kinds,
            built=[cache[j][i] for j, (i, w) in enumerate(L)])
        ctx.state((fam, kinds, L))
    ctx.sample({'pairs': show([(pool[i], w) for i, w in L]), 'kinds': kinds})


def item_empty(ctx):
    for fam in (None, 32, 64):
        one(ctx, fam, [], '')
        one(ctx, fam, [(None, 1)], 'b')
        one(ctx, fam, [(None, 2), (None, 1)], 'bb')
        ctx.state(('empty', fam))
    from zope.index.text.setops import mass_weightedIntersection
    from zope.index.text.setops import mass_weightedUnion
    for f in (mass_weightedIntersection, mass_weightedUnion):
        a = f([])
        a[1] = 2.0
        b = f([])
        if len(b):
            raise Violation('the empty result is shared')
        ctx.trans()


def sized(n, off, step):
    return {off + i * step: 1.0 + (i % 7) * 0.5 for i in range(n)}


def item_sizes(ctx, fam, sizes, kinds):
    """Large mappings in all orders of size."""
    for ns in itertools.product(sizes, repeat=len(kinds)):
        L = [(sized(n, i, i + 1), (1, 2, 0.5, 1)[i % 4])
             for i, n in enumerate(ns)]
        one(ctx, fam, L, kinds)
        ctx.state((fam, ns, kinds))


def item_every(ctx, fam, lo, hi):
    """Every size of one against few others."""
    for n in range(lo, hi):
        for ns in ((n,), (n, n), (n, n + 1), (n, 0), (n, 1), (2 * n, n),
                   (n, 3, n + 2), (n, n, n, 1)):
            for order in (ns, ns[::-1]):
                L = [(sized(k, i, 1 + i % 2), (1, 2, 0.5, 1)[i % 4])
                     for i, k in enumerate(order)]
                for kinds in 'bbbb', 'tbtb':
                    one(ctx, fam, L, kinds[:len(L)])
                ctx.state((fam, order))


def item_many(ctx, fam, n):
    """Long lists: growing, shrinking, equal and mixed sizes."""
    for f in (lambda i: i, lambda i: n - i, lambda i: 5,
              lambda i: i * 7 % (n + 1), lambda i: i % 2 * 30 + 1):
        for common in (False, True):
            L = []
            for i in range(n):
                d = sized(f(i), 3 * i, 2)
                if common:
                    d[10**6] = 0.5 * i
                L.append((d, (1, 1, 2, 0.25)[i % 4]))
            for kinds in ('b' * n, 't' * n, ('bt' * n)[:n]):
                one(ctx, fam, L, kinds)
                one(ctx, fam, L[::-1], kinds)
                one(ctx, fam, L[n // 2:] + L[:n // 2], kinds)
            N = [(None, 1)] + L[:n // 2] + [(None, 3)] + L[n // 2:] + [
                (None, 1)]
            one(ctx, fam, N, 'b' * len(N))
            # the same mapping several times
            one(ctx, fam, L[-1:] * n, 'b' * n)
            m = build('b', fam, L[-1][0])
            one(ctx, fam, L[-1:] * n, 'b' * n, built=[m] * n)
        ctx.state((fam, n, f(1), f(2)))


def item_extremes(ctx):
    for fam, ids in ((32, (-2**31, -1, 0, 2**31 - 1)),
                     (64, (-2**63, -2**31 - 1, 0, 2**32, 2**63 - 1))):
        for k in range(1, 4):
            for chosen in itertools.product(ids, repeat=k):
                L = [({c: 1.0, 0: 2.0}, w) for c, w in zip(
                    chosen, (1, 2, 3))]
                for kinds in ('b' * k, 't' * k):
                    one(ctx, fam, L, kinds)
                ctx.state((fam, chosen))


def items(tier):
    deep = tier == 'thorough'
    r = []
    for fam in (None, 64):
        for n in (1, 2, 3):
            for kinds in itertools.product('bt', repeat=n):
                kinds = ''.join(kinds)
                ws = WEIGHTS if n == 3 else WEIGHTS + ODD
                if n == 3:
                    for first in range(len(POOL) * len(ws)):
                        r.append(('s-%s-%s-%d' % (fam, kinds, first),
                                  'item_small', fam, kinds, n, ws, POOL,
                                  first))
                else:
                    for first in range((len(POOL) + 1) * len(ws)):
                        r.append(('s-%s-%s-%d' % (fam, kinds, first),
                                  'item_small', fam, kinds, n, ws,
                                  POOL + (None,), first))
        pool4 = POOL[:1] + POOL[3:6] + (None,)
        for kinds in ('bbbb', 'tbtb') if not deep else [
                ''.join(k) for k in itertools.product('bt', repeat=4)]:
            ws = (1, 2)
            for first in range(len(pool4) * len(ws)):
                r.append(('s-%s-%s-%d' % (fam, kinds, first), 'item_small',
                          fam, kinds, 4, ws, pool4, first))
            if deep:
                for first in range(len(pool4)):
                    r.append(('s5-%s-%s-%d' % (fam, kinds, first),
                              'item_small', fam, kinds + 'b', 5, (2,),
                              pool4 + POOL[1:3], first))
        sizes = (0, 1, 5, 29, 30, 31, 60, 61, 119, 120, 121, 200)
        for kinds in ('bb', 'tt', 'bt', 'tb'):
            r.append(('sizes-%s-%s' % (fam, kinds), 'item_sizes', fam, sizes,
                      kinds))
        for kinds in ('bbb', 'ttt', 'tbt'):
            r.append(('sizes-%s-%s' % (fam, kinds), 'item_sizes', fam,
                      (0, 1, 7, 61, 130), kinds))
        r.append(('sizes-%s-bbbb' % fam, 'item_sizes', fam, (0, 2, 3, 40),
                  'bbbb'))
        for n in list(range(1, 13)) + [20, 64, 100] + ([300] if deep else []):
            r.append(('many-%s-%d' % (fam, n), 'item_many', fam, n))
        for n in (list(range(13, 20)) + list(range(21, 34)) + [40, 48, 50, 60, 63, 65, 80, 99, 101,
                                         127, 128, 129, 200, 255, 256, 257]):
            r.append(('many-%s-%d' % (fam, n), 'item_many', fam, n))
        big = (1, 64, 127, 128, 129, 255, 256, 257, 512, 513, 1000, 1024,
               1025)
        for kinds in ('bb', 'tt', 'bt'):
            r.append(('big-%s-%s' % (fam, kinds), 'item_sizes', fam, big,
                      kinds))
        for lo in range(0, 130, 13):
            r.append(('every-%s-%d' % (fam, lo), 'item_every', fam, lo,
                      lo + 13))
    r.append(('empty', 'item_empty'))
    r.append(('extremes', 'item_extremes'))
    return r


def run_case(case, ctx):
    L = [tuple(p) for p in case['ops']]
    kinds = (case['kinds'] + 'b' * len(L))[:len(L)]
    one(ctx, case['fam'], L, kinds)


BOUNDS = {
    'quick': 'every list of <=2 of 8 mappings (one None) x 8 weights, 3 of 7 '
             'x 3 weights, 4 of 5 x 2 weights, in all kinds and both '
             'families; all orders of sizes around bucket boundaries; lists '
             'of <=257 mappings (all to 33) in 5 size patterns; every size of '
             'mapping to 129, and to 1025; extreme ids',
    'thorough': 'lists of 4 in all kinds, of 5; lists of 300 mappings',
}
