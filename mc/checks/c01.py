"""C01 Field range search is exact."""
from mc import engine
from mc import near
from mc.core import Violation, expect, raises
from mc.kinds import FieldKind, KindSystem, field_range, vkey

ALPHABETS = {
    'str': ['a', 'b', 'c'],
    'empty': ['', '\x00', 'a'],
    'uni': ['z', '\u00e9', '\U0001f600'],
    'int': [-1, 0, 1],
    'big': [-2**63, 0, 2**70],
    'float': [-0.5, 0.0, float('inf')],
    'mixnum': [0, 0.5, 1],
    'bool': [False, True, 2],
    'tuple': [(), (1,), (1, 2)],
    'none': [None, 0, 1],
    'nonestr': [None, '', 'a'],
    'bytes': [b'', b'\x00', b'a'],
    'close': [1 - 2**-53, 1.0, 1 + 2**-52],
    'digits': [2**53, 2**53 + 1, 2**53 + 2],
    'case': ['A', 'a', '\xe1'],
}

BETWEEN = {
    'str': ['', 'aa', 'd'], 'empty': ['\x01', 'b'], 'uni': ['\u00ff', 'a'],
    'int': [-2, 2], 'big': [-2**64, 5, 2**71],
    'float': [float('-inf'), 0.25], 'mixnum': [0.25, 2], 'bool': [0.5, 3],
    'tuple': [(0,), (1, 1), (2,)], 'none': [-1, 2], 'nonestr': ['b', '\x00'],
    'bytes': [b'b'],
    'close': [1, 1 + 2**-51], 'digits': [2**53 - 1, 2.0**53],
    'case': ['B', 'b', '\xc1'],
}


def cfg(alpha, ndocs, family=None, docids=None):
    vals = ALPHABETS[alpha]
    docs = docids or list(range(1, ndocs + 1))
    probes = [None] + [v for v in vals if v is not None] + BETWEEN[alpha]
    ops = [('i', d, v) for d in docs for v in vals]
    ops += [('u', d) for d in docs] + [('c',)]
    return dict(kind='field', ops=ops, probes=probes, family=family,
                ids=tuple(docs) + (99,))


def item_near(ctx, *args):
    near.explore(ctx, System, *args)


def item_bfs(ctx, c):
    engine.bfs(System(c), ctx)


def item_tree(ctx, c, depth, prefix):
    engine.tree(System(c), ctx, depth, prefix)


class System(KindSystem):
    def check(self, st):
        x, m = st.x, st.m
        for q in self.kind.ranges(m):
            got = sorted(x.apply(q))
            want = field_range(m, q)
            expect(got == want, 'apply(%s) gives %s, expected %s',
                   q, got, want)


BAD = [(), (1,), (1, 2, 3), [1, 2], [1], 'ab', 'a', {1: 2, 3: 4}, {1, 2},
       None, 5, b'ab', (1, 2, 3, 4), [None, None], {}, [], '']


def item_bad(ctx):
    for c in (cfg('int', 2), cfg('str', 2)):
        for hist in ((), (c['ops'][0],), tuple(c['ops'][:5])):
            s = System(c)
            st = engine.guard(s, hist, engine._replay, s, hist)
            for i in range(len(BAD)):
                engine.guard(s, hist + (('bad', i),), raises, TypeError,
                             st.x.apply, BAD[i])
                ctx.trans()
            engine.guard(s, hist, s.check, st)
            ctx.trace()


# long histories crossing bucket sizes of the BTrees
def sweep_value(pattern, i, n):
    if pattern == 'distinct':
        return i
    if pattern == 'same':
        return 7
    if pattern == 'mod3':
        return i % 3
    if pattern == 'half':
        return i // 2
    if pattern == 'rev':
        return n - i
    if pattern == 'none':
        return None if i % 2 else i // 4
    if pattern == 'str':
        return 'v%03d' % (i * 7 % n)
    raise KeyError(pattern)


def check_all(s, st):
    """Every pair over a spread of the values."""
    x, m = st.x, st.m
    vals = sorted({v for v in m.values() if v is not None})
    step = max(1, len(vals) // 6)
    ps = [None] + vals[::step] + vals[-1:]
    for a in ps:
        for b in ps:
            got, want = sorted(x.apply((a, b))), field_range(m, (a, b))
            expect(got == want, 'apply((%s, %s)) gives %s, expected %s',
                   a, b, got, want)


class Sweep(System):
    name = 'sweep'

    def check(self, st):
        check_all(self, st)


def item_sweep(ctx, pattern, order, lo, hi, family):
    for n in range(lo, hi):
        docs = list(range(n))
        if order == 'down':
            docs.reverse()
        elif order == 'mix':
            docs = [d * 37 % 1009 for d in docs]
        c = dict(kind='field', ops=[], family=family)
        s = Sweep(c)
        ops = [('i', d, sweep_value(pattern, i, n))
               for i, d in enumerate(docs)]
        st = engine.guard(s, ops, engine._replay, s, ops)
        engine.guard(s, ops, s.check, st)
        ctx.state((pattern, order, n, family))
        ctx.trans(len(ops))
        ctx.trace()
    # take apart the biggest one, checking on the way
    tail = []
    for i, d in enumerate(docs):
        op = ('u', d) if i % 3 else ('i', d, sweep_value(pattern, i + 1, n))
        tail.append(op)
        engine.guard(s, ops + tail, s.step, st, op)
        ctx.trans()
        if i % 7 == 0:
            engine.guard(s, ops + tail, s.check, st)
    ctx.trace()


def items(tier):
    deep = tier == 'thorough'
    r = []
    for a in ALPHABETS:
        r.append(('bfs-%s' % a, 'item_bfs', cfg(a, 4 if deep else 3)))
    r.append(('bfs-64', 'item_bfs', cfg('int', 3, 64,
              [-2**63, 0, 2**63 - 1])))
    r.append(('bfs-32', 'item_bfs', cfg('str', 3, 32,
              [-2**31, 0, 2**31 - 1])))
    for a in ('none', 'str', 'float') if not deep else ALPHABETS:
        c = cfg(a, 2)
        for p in c['ops']:
            r.append(('tree-%s-%s' % (a, p), 'item_tree', c,
                      5 if deep else 4, (p,)))
    r.append(('bad', 'item_bad'))
    top = 400 if deep else 140
    for pattern in ('distinct', 'same', 'mod3', 'half', 'rev', 'none', 'str'):
        for order in ('up', 'down', 'mix'):
            r.append(('sweep-%s-%s' % (pattern, order), 'item_sweep',
                      pattern, order, 1, top, 64 if order == 'mix' else None))
    r += near.items(tier, (('field', None),))
    return r


def run_case(case, ctx):
    if case['ops'] and case['ops'][-1][0] == 'bad':
        s = System(case['cfg'])
        ops = case['ops'][:-1]
        st = engine.guard(s, ops, engine._replay, s, ops)
        raises(TypeError, st.x.apply, BAD[case['ops'][-1][1]])
        return
    s = {'kind': System, 'sweep': Sweep}[case['sys']](case['cfg'])
    engine.run_history(s, case['ops'], ctx)


BOUNDS = {
    'quick': 'closure: 3 docs x 3 values x 15 value alphabets, all pairs of '
             '6-7 probes; trees: 2 docs, 9 ops, depth 4; sweeps: every size '
             '1..139 x 7 value patterns x 3 id orders',
    'thorough': 'closure: 4 docs; trees: depth 5 for all alphabets; sweeps '
                'to 399',
}
