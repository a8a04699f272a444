"""C02 Field sort returns a correct, limited, complete ordering."""
import itertools

import BTrees

from mc import configs
from mc import engine
from mc import near
from mc.core import Violation, expect, raises
from mc.kinds import FieldKind, KindSystem, sort_ok

VALUES = {
    'str': ['a', 'b', 'c'], 'int': [-1, 0, 1], 'none': [None, 0, 1],
    'nonestr': [None, '', 'a'], 'float': [-0.5, 0.0, 1.5],
    'tuple': [(), (0,), (0, 'a')], 'neg': [-3, -2, -1], 'mix': [0, 0.5, True],
    'close': [1 - 2**-53, 1.0, 1 + 2**-52],
    'digits': [2**53, 2**53 + 1, 2**53 + 2],
}
LIMITS = [None, 1, 2, 3, 6]


def container(how, ids, fam):
    IF = BTrees.family64.IF if fam == 64 else BTrees.family32.IF
    if how == 'list':
        return list(ids)
    if how == 'tuple':
        return tuple(ids)
    if how == 'Set':
        return IF.Set(ids)
    if how == 'TreeSet':
        return IF.TreeSet(ids)
    if how == 'gen':
        return (i for i in list(ids))
    if how == 'dup':
        return list(ids) + list(ids)
    if how == 'rev':
        return list(ids)[::-1]
    if how == 'set':
        return set(ids)
    if how == 'BTree':
        return IF.BTree(dict.fromkeys(ids, 1.0)).keys()
    if how == 'scores':
        # what a text index answers: neither numbers like ids nor in order
        return IF.BTree({d: 1 / (i + 2) for i, d in enumerate(ids)})
    if how == 'bucket':
        return IF.Bucket({d: 1.0 for d in ids})
    if how == 'dict':
        # values that could be taken for ids
        return dict(zip(ids, list(ids)[1:] + [99]))
    if how == 'keys':
        return dict.fromkeys(ids).keys()
    if how == 'frozen':
        return frozenset(ids)
    if how == 'other':
        # a set of the other family
        IF = BTrees.family32.IF if fam == 64 else BTrees.family64.IF
        return IF.TreeSet(ids)
    if how == 'union':
        return IF.multiunion([IF.Set([d]) for d in ids])
    raise KeyError(how)


HOWS = ['list', 'tuple', 'Set', 'TreeSet', 'gen', 'dup', 'rev', 'set', 'BTree',
        'scores', 'bucket', 'dict', 'keys', 'frozen', 'other', 'union']


def one(x, m, ids, how, rev, limit, fam):
    got = list(x.sort(container(how, ids, fam), reverse=rev, limit=limit))
    ok = sort_ok(got, ids, m, rev, limit)
    if ok is not True:
        raise Violation('sort(%s %r, reverse=%r, limit=%r) of values %r gives'
                        ' %r: %s' % (how, ids, rev, limit, m, got, ok[0]))
    return tuple(got)


class System(KindSystem):
    """Histories, battery: sorts of everything."""

    def check(self, st):
        ids = self.cfg['ids']
        for how in ('list', 'Set'):
            for rev in (False, True):
                for limit in self.cfg.get('limits', (None, 1, 2)):
                    one(st.x, st.m, ids, how, rev, limit, None)
                    one(st.x, st.m, ids[:2], how, rev, limit, None)


def cfg(alpha):
    vals = VALUES[alpha]
    ops = [('i', d, v) for d in (1, 2, 3) for v in vals]
    ops += [('u', d) for d in (1, 2, 3)] + [('c',)]
    return dict(kind='field', ops=ops, ids=(1, 2, 3, 4, 5, 6))


def item_near(ctx, *args):
    def change(c, n):
        # everything, and what is not there
        c['ids'] = tuple(sorted({op[1] for op in c['init']} | set(c['ids'])))
        n = 4 if n >= near.LONG else abs(n)
        c['limits'] = (None, 1, 2, 3, 5, n // 2 or 4, max(n - 1, 1), n, n + 1)
    near.explore(ctx, System, *args, change=change)


def item_bfs(ctx, c):
    engine.bfs(System(c), ctx)


def item_tree(ctx, c, depth, p):
    engine.tree(System(c), ctx, depth, (p,))


def build(assign, fam):
    kind = FieldKind(dict(family=fam))
    x, m = kind.make(), {}
    for d, v in assign:
        op = ('i', d, v)
        kind.do(x, op)
        kind.do_model(m, op)
    return x, m


def small(ctx, assign, fam, extra, hows):
    x, m = build(assign, fam)
    docs = [d for d, v in assign]
    pool = docs + extra
    for k in range(len(pool) + 1):
        for ids in itertools.combinations(pool, k):
            for rev in (False, True):
                for limit in LIMITS:
                    for how in hows:
                        case = dict(fn='one', assign=assign, ids=ids, how=how,
                                    rev=rev, limit=limit, fam=fam)
                        guard(case, one, x, m, ids, how, rev, limit, fam)
                        ctx.query()
                        ctx.trans()
            ctx.state((repr(assign), ids))
    for limit in (0, -1, -100):
        for ids in ((), tuple(docs), tuple(extra)):
            case = dict(fn='bad', assign=assign, ids=ids, limit=limit,
                        fam=fam)
            guard(case, bad, x, ids, limit)
    ctx.trace()


def bad(x, ids, limit):
    for rev in (False, True):
        raises(ValueError, lambda: list(
            x.sort(list(ids), reverse=rev, limit=limit)))


def guard(case, f, *args):
    try:
        return f(*args)
    except Violation as v:
        v.case = v.case or case
        raise
    except Exception as e:
        raise Violation('%r on %r' % (e, case), case) from e


def item_small(ctx, alpha, first, ndocs):
    vals = VALUES[alpha]
    for n in range(ndocs):
        for rest in itertools.product(vals, repeat=n):
            assign = [(i * 2 + 1, v) for i, v in enumerate((first,) + rest)]
            small(ctx, assign, None, [0, 4], ['list', 'Set'])


def item_hows(ctx, fam):
    for alpha in ('str', 'none'):
        for vs in itertools.product(VALUES[alpha], repeat=3):
            assign = list(zip((-5, 0, 6), vs))
            small(ctx, assign, fam, [2, 9, 11], HOWS)


def pattern(name, i, n):
    return {'up': i, 'down': n - i, 'same': 5, 'mod3': i % 3,
            'mod7': str(i * 5 % 7), 'none': None if i % 3 == 0 else i % 5,
            'mix': (i * 37) % max(1, n), 'strdown': 's%04d' % (n - i),
            }[name]


PATTERNS = ['up', 'down', 'same', 'mod3', 'mod7', 'none', 'mix', 'strdown']


def sized(ctx, pat, n, extras, limits, fam=None):
    assign = [(i * 3, pattern(pat, i, n)) for i in range(n)]
    x, m = build(assign, fam)
    docs = [d for d, v in assign]
    for extra in extras:
        ids = tuple(docs + [3 * j + 1 for j in range(extra)])
        for rev in (False, True):
            for limit in limits:
                for how in ('list', 'TreeSet'):
                    case = dict(fn='sized', pat=pat, n=n, extra=extra,
                                how=how, rev=rev, limit=limit)
                    guard(case, one, x, m, ids, how, rev, limit, fam)
                    ctx.trans()
                    ctx.query()
        ctx.state((pat, n, extra))
    # a part of the documents only
    for part in (docs[::2], docs[: n // 2], docs[1::3]):
        for rev in (False, True):
            for limit in limits:
                case = dict(fn='part', pat=pat, n=n, ids=tuple(part),
                            rev=rev, limit=limit)
                guard(case, one, x, m, tuple(part), 'list', rev, limit, fam)
                ctx.trans()
    ctx.trace()


def item_sized(ctx, pat, lo, hi):
    for n in range(lo, hi):
        sized(ctx, pat, n, (0, 1, 2, n + 1),
              [None] + list(range(1, min(n, 12) + 2)) + [n // 2 + 1, n, n + 5])


def item_large(ctx, pat, sizes):
    for n in sizes:
        q = n // 4
        sized(ctx, pat, n, (0, 1, n - 1, n, n + 1, 2 * n, 3 * n),
              [None, 1, 2, 10, max(1, q - 1), max(1, q), q + 1, n // 2 + 1,
               n, n + 1])


def items(tier):
    deep = tier == 'thorough'
    r = []
    for a in VALUES:
        r.append(('bfs-' + a, 'item_bfs', cfg(a)))
        for v in VALUES[a]:
            r.append(('small-%s-%r' % (a, v), 'item_small', a, v,
                      5 if deep else 4))
    c = cfg('none')
    for op in c['ops']:
        r.append(('tree-%s' % (op,), 'item_tree', c, 4 if deep else 3, op))
    r.append(('hows', 'item_hows', None))
    r.append(('hows64', 'item_hows', 64))
    for p in PATTERNS:
        r.append(('sized-' + p, 'item_sized', p, 1, 48 if deep else 32))
        r.append(('large-' + p, 'item_large', p,
                  [50, 59, 60, 61, 99, 100, 101, 119, 120, 121, 150]
                  + ([200, 239, 240, 241, 300, 500] if deep else [])))
    r += near.items(tier, (('field', None),))
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    if 'ops' in case:
        engine.run_history(System(case['cfg']), case['ops'], ctx)
        return
    f = case['fn']
    if f == 'one':
        x, m = build(case['assign'], case['fam'])
        one(x, m, case['ids'], case['how'], case['rev'], case['limit'],
            case['fam'])
    elif f == 'bad':
        x, m = build(case['assign'], case['fam'])
        bad(x, case['ids'], case['limit'])
    else:
        n = case['n']
        assign = [(i * 3, pattern(case['pat'], i, n)) for i in range(n)]
        x, m = build(assign, None)
        if f == 'sized':
            ids = tuple([d for d, v in assign]
                        + [3 * j + 1 for j in range(case['extra'])])
            one(x, m, ids, case['how'], case['rev'], case['limit'], None)
        else:
            one(x, m, case['ids'], 'list', case['rev'], case['limit'], None)


BOUNDS = {
    'quick': 'all assignments of 3 values (10 alphabets) to 1..4 documents x '
             'all subsets of these and 2 unindexed ids x reverse x 5 limits; '
             '16 id containers; sizes 1..31 with all limits; sizes to 150 with '
             'up to 450 unindexed ids; closure and depth-3 histories',
    'thorough': '5 documents; sizes to 47 and to 500; depth-4 histories',
}
