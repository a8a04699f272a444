"""C18 NBest keeps exactly the N best items."""
import itertools
from collections import Counter

from mc import engine
from mc.core import Violation, raises, show


class St:
    pass


class Odd:
    """An item that is false, empty and cannot be compared with others."""

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __repr__(self):
        return 'odd item %d' % self.n


FALSE = (None, 0, '', (), 0.0, False)


class Sys(engine.System):
    """('a', score) add a new item, ('m', scores) add many, ('p',) pop the
    smallest.  The model holds the (item, score) pairs last reported, which
    each operation may only change in the prescribed way (ties are free)."""
    name = 'nbest'

    def start(self):
        from zope.index.nbest import NBest
        st = St()
        st.x = NBest(self.cfg['n'])
        st.held = []
        st.count = 0
        return st

    def ops(self, st):
        return self.cfg['ops']

    def new(self, st, score):
        st.count += 1
        if self.cfg.get('odd'):
            return Odd(st.count), score
        return 'item%d' % st.count, score

    def step(self, st, op):
        x, n = st.x, self.cfg['n']
        held = Counter(st.held)
        if op[0] == 'p':
            if not st.held:
                raises(IndexError, x.pop_smallest)
            else:
                got = x.pop_smallest()
                if not isinstance(got, tuple) or not held[got]:
                    raise Violation('popped %s of %s' % (
                        show(got), show(st.held)))
                if got[1] != min(s for i, s in st.held):
                    raise Violation('popped %r, the smallest of %s is '
                                    'another' % (got, show(st.held)))
                held[got] -= 1
            removed = 0
        else:
            if op[0] == 'a':
                new = [self.new(st, op[1])]
                r = x.add(*new[0])
            else:
                new = [self.new(st, s) for s in op[1]]
                if op[2] == 'iter':
                    r = x.addmany(iter(new))
                else:
                    r = x.addmany(tuple(new) if op[2] == 'tuple'
                                  else list(new))
            if r is not None:
                raise Violation('adding returned %r' % (r,))
            held.update(new)
            removed = max(0, sum(held.values()) - n)
        want = sorted(held.elements(), key=lambda p: p[1])
        scores = [s for i, s in want][removed:]
        got = list(x.getbest())
        if Counter(got) - held:
            raise Violation('%s holds %s that should not be there' % (
                op, show(list((Counter(got) - held).elements()))))
        if [s for i, s in got] != scores[::-1]:
            raise Violation('%s: best are %s, expected the scores %s' % (
                op, show(got), show(scores[::-1])))
        st.held = got

    def check(self, st):
        x = st.x
        if len(x) != len(st.held) or x.capacity() != self.cfg['n']:
            raise Violation('length %r and capacity %r, expected %d and %d' % (
                len(x), x.capacity(), len(st.held), self.cfg['n']))
        got = list(x.getbest())
        if got != st.held:
            raise Violation('asked again, the best are %s, not %s' % (
                show(got), show(st.held)))

    def key(self, st):
        # only the order of the items matters, not their names
        names = {}
        for i, s in st.held:
            names.setdefault(i, len(names))
        from mc import canon
        t = canon.text(st.x)
        for i in sorted(names, key=lambda k: -len(k)):
            t = t.replace(repr(i), '<%d>' % names[i])
        return t


def alphabet(scores):
    ops = [('a', s) for s in scores] + [('p',)]
    for how, m in (('list', scores), ('tuple', scores[::-1]),
                   ('iter', scores[:2] * 2), ('list', [])):
        ops.append(('m', tuple(m), how))
    return ops


ALPHABETS = {
    'int': (1, 2, 3),
    'float': (0.5, -1.5, 2.25),
    'mixed': (0, -1, 1e300, float('inf')),
    'neg': (-3, -2, float('-inf')),
    'many': (1, 2, 3, 4, 5),
}


def item_bfs(ctx, n, name, depth):
    engine.bfs(Sys(dict(n=n, ops=alphabet(list(ALPHABETS[name])))), ctx,
               depth)


def item_tree(ctx, n, name, depth, prefix):
    engine.tree(Sys(dict(n=n, ops=alphabet(list(ALPHABETS[name])))), ctx,
                depth, prefix)


def item_odd(ctx, n, depth):
    """Items that are no strings: all histories of few operations."""
    ops = [('a', 1), ('a', 2), ('p',), ('m', (1, 2, 2), 'iter')]
    for first in ops:
        engine.tree(Sys(dict(n=n, ops=ops, odd=True)), ctx, depth, (first,))
    # the same item, also a false one, again and again
    from zope.index.nbest import NBest
    for item in FALSE:
        for seq in itertools.product((1, 2, None), repeat=4):
            x, m = NBest(n), []
            for score in seq:
                if score is None and m:
                    got = x.pop_smallest()
                    if got != (item, m.pop(0)):
                        raise Violation('popped %s' % show(got))
                elif score is None:
                    raises(IndexError, x.pop_smallest)
                else:
                    x.add(item, score)
                    m = sorted(m + [score])[-n:]
                if list(x.getbest()) != [(item, s) for s in m[::-1]] or len(
                        x) != len(m):
                    raise Violation('%r with scores %s: %s' % (
                        item, seq, show(x.getbest())))
                ctx.trans()
            ctx.trace()


def item_sequences(ctx, n, length):
    """Every sequence of scores by add, by addmany and split in two; the
    best scores are those of the sorted list."""
    from zope.index.nbest import NBest
    scores = (1, 2, 3, 4)
    for seq in itertools.product(scores, repeat=length):
        items = [(i, s) for i, s in enumerate(seq)]
        want = sorted(seq, reverse=True)[:n]
        ways = []
        x = NBest(n)
        for p in items:
            x.add(*p)
        ways.append(x)
        x = NBest(n)
        x.addmany(items)
        ways.append(x)
        for k in (1, length // 2):
            x = NBest(n)
            x.addmany(items[:k])
            x.addmany(iter(items[k:]))
            ways.append(x)
        for x in ways:
            got = list(x.getbest())
            if [s for i, s in got] != want or len(x) != len(want) or len(
                    {i for i, s in got}) != len(got) or any(
                        seq[i] != s for i, s in got):
                raise Violation('%s with capacity %d gives %s' % (
                    seq, n, got), dict(
                        sys='nbest', cfg=dict(n=n, ops=[]),
                        ops=[('m', seq, 'list')]))
            out = []
            while len(x):
                out.append(x.pop_smallest()[1])
            if out != want[::-1]:
                raise Violation('%s with capacity %d is popped as %s' % (
                    seq, n, out), dict(
                        sys='nbest', cfg=dict(n=n, ops=[]),
                        ops=[('m', seq, 'list')] + [('p',)] * n))
            raises(IndexError, x.pop_smallest)
            ctx.trans(length)
        ctx.trace()
        ctx.state((n, seq))


def item_long(ctx, n, length):
    """Long sequences in several orders, with removals in between."""
    s = Sys(dict(n=n, ops=[]))
    for f in (lambda i: i, lambda i: -i, lambda i: i * 37 % 101,
              lambda i: i % 3, lambda i: 5, lambda i: (i - length // 2) ** 2):
        for pops in (0, 2, 7):
            h = []
            for i in range(length):
                h.append(('a', f(i)))
                if pops and i % pops == 0:
                    h.append(('p',))
            h.append(('m', tuple(f(i) for i in range(length)), 'list'))
            h += [('p',)] * min(n + 2, 30)
            engine.run_history(s, h, ctx)
            ctx.state((n, length, tuple(h)))


def item_full(ctx, n):
    """Large ones, filled at once and one by one."""
    for f in (lambda i: i, lambda i: -i, lambda i: i * 37 % 101):
        s = Sys(dict(n=n, ops=[]))
        for a in (n - 1, n, n + 1, n + 7):
            h = [('m', tuple(f(i) for i in range(a)), 'list'),
                 ('a', f(a + 3)), ('a', -5000), ('a', 5000), ('p',),
                 ('m', (3, 5000, -5000, f(a)), 'iter'), ('p',), ('p',)]
            engine.run_history(s, h, ctx)
            ctx.state((n, tuple(h)))


def item_args(ctx):
    from zope.index.nbest import NBest
    for n in (0, -1, -10**9, 0.5, False):
        raises(ValueError, NBest, n)
        ctx.trans()
    ctx.state('args')
    for n in (1, 2, 10**9, 2**70):
        x = NBest(n)
        if x.capacity() != n or len(x) != 0 or list(x.getbest()) != []:
            raise Violation('NBest(%d) is not empty' % n)
        raises(IndexError, x.pop_smallest)
        x.addmany([])
        x.add(None, 1)
        # items need no order and may be equal
        x.addmany([(object, 1), (None, 1), ([], 0)])
        if len(x) != min(n, 4):
            raise Violation('NBest(%d) has %d items' % (n, len(x)))
        # what is handed out is not the inside
        b = x.getbest()
        if isinstance(b, list):
            b.clear()
        if len(list(x.getbest())) != min(n, 4):
            raise Violation('the list of the best is shared')
        ctx.trans(5)
        ctx.trace()
        ctx.state(('cap', n))


def items(tier):
    deep = tier == 'thorough'
    r = []
    for n in (1, 2, 3, 4, 7):
        for name in ALPHABETS:
            r.append(('bfs-%d-%s' % (n, name), 'item_bfs', n, name,
                      6 if deep else 4))
        for p in alphabet(list(ALPHABETS['int'])):
            r.append(('tree-%d-%s' % (n, p), 'item_tree', n, 'int',
                      6 if deep else 5, (p,)))
        r.append(('odd-%d' % n, 'item_odd', n, 6 if deep else 5))
        for length in (1, 2, 3, 5, 6) + ((8,) if deep else ()):
            r.append(('seq-%d-%d' % (n, length), 'item_sequences', n, length))
    for n in tuple(range(1, 71)) + (99, 100, 101, 127, 128, 129, 200, 255,
                                    256, 257):
        r.append(('long-%d' % n, 'item_long', n,
                  1000 if deep else n + max(20, min(n, 60))))
    for n in (500, 999, 1000, 1001, 1024):
        r.append(('full-%d' % n, 'item_full', n))
    r.append(('args', 'item_args'))
    return r


def run_case(case, ctx):
    engine.run_history(Sys(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': 'capacities 1-4 and 7: every history of 5 of 8 operations, all '
             'states to depth 4 over 5 score alphabets, items that are false or have no order, every sequence of '
             '<=6 of 4 scores in 4 ways of adding; long sequences with '
             'every capacity to 70 and to 1024',
    'thorough': 'histories of 6, sequences of 8, long sequences to 1000',
}
