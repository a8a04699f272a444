"""C16 Rice and delta coding are lossless."""
import copy
import itertools
import pickle

from mc import engine
from mc.core import Violation, show


def values(m, top=260):
    """Interesting values for m-bit Rice codes (the unary part is short)."""
    u = 1 << m
    vs = {1, 2, 3, u - 1, u, u + 1, u + 2, 2 * u, 2 * u + 1, 3 * u,
          u + u // 2, 7 * u + 1, 8 * u, 9 * u + 1, 17 * u}
    return sorted(v for v in vs if v >= 1)


class St:
    pass


class Rice(engine.System):
    """Append values; the list and the length are compared every time."""
    name = 'rice'

    def start(self):
        from zope.index.text.ricecode import RiceCode
        st = St()
        st.x = RiceCode(self.cfg['m'])
        st.m = []
        return st

    def ops(self, st):
        return self.cfg['ops']

    def step(self, st, op):
        if op < 1:
            try:
                st.x.append(op)
            except ValueError:
                return
            raise Violation('%r is not rejected' % op)
        st.x.append(op)
        st.m.append(op)

    def check(self, st):
        got = list(st.x.tolist())
        if got != st.m or len(st.x) != len(st.m):
            raise Violation('appended %s, listed %s, length %d' % (
                show(st.m), show(got), len(st.x)))


def copies(x, n):
    yield pickle.loads(pickle.dumps(x, n % (pickle.HIGHEST_PROTOCOL + 1)))
    if n % 3 == 0:
        yield copy.deepcopy(x)


def item_rice(ctx, m, n, vals, first):
    s = Rice(dict(m=m, ops=list(vals)))
    for tail in itertools.product(vals, repeat=n - 1):
        h = (first,) + tail
        engine.run_history(s, h, ctx)
        ctx.state((m, h))
    ctx.sample({'m': m, 'values': h})


def item_allvalues(ctx, m, top):
    """Every single value, and long runs."""
    from zope.index.text.ricecode import RiceCode
    from zope.index.text.ricecode import encode
    for v in range(1, top):
        c = RiceCode(m)
        c.append(v)
        c.append(1)
        c.append(v)
        if list(c.tolist()) != [v, 1, v] or len(c) != 3:
            raise Violation('m=%d, appended %d, 1, %d: %s' % (
                m, v, v, show(c.tolist())),
                dict(sys='rice', cfg=dict(m=m, ops=[]), ops=[v, 1, v]))
        ctx.trans(3)
        ctx.state((m, v))
        ctx.trace()
    for step in (1, 2, 7):
        lst = list(range(1, min(top, 400), step))
        c = encode(m, lst)
        if list(c.tolist()) != lst or len(c) != len(lst):
            raise Violation('m=%d: encode of %s lists %s' % (
                m, show(lst), show(c.tolist())),
                dict(sys='rice', cfg=dict(m=m, ops=[]), ops=lst))
        ctx.trans(len(lst))


class Bits(engine.System):
    """('a', bit) append, ('s', i, bit) assign an existing one."""
    name = 'bits'

    def start(self):
        from zope.index.text.ricecode import BitArray
        st = St()
        st.x = BitArray()
        st.m = []
        for i in range(self.cfg.get('init', 0)):
            self.step(st, ('a', i % 3 == 0))
        return st

    def ops(self, st):
        n = len(st.m)
        near = [i for i in (0, 1, 7, 8, 9, n // 2, n - 2, n - 1)
                if 0 <= i < n]
        return [('a', b) for b in self.cfg.get('bits', (0, 1, 64))] + [
            ('s', i, b) for i in sorted(set(near))
            for b in self.cfg.get('bits', (0, 1))]

    def step(self, st, op):
        if op[0] == 'a':
            st.x.append(op[1])
            st.m.append(1 if op[1] else 0)
        elif op[1] < len(st.m):
            st.x[op[1]] = op[2]
            st.m[op[1]] = 1 if op[2] else 0

    def check(self, st):
        got = [st.x[i] for i in range(len(st.m))]
        if got != st.m or len(st.x) != len(st.m):
            raise Violation('bits %s (length %d), expected %s' % (
                got, len(st.x), st.m))
        for x in copies(st.x, len(st.m)):
            x.append(1)
            got = [x[i] for i in range(len(st.m))]
            if got != st.m or len(x) != len(st.m) + 1 or not x[len(st.m)]:
                raise Violation('bits %s, a copy %s (length %d) with another '
                                '1' % (st.m, got, len(x)))
        if len(st.x) != len(st.m):
            raise Violation('a copy is not independent')


def item_len(ctx, lo, hi):
    """Every length: of values but for one alike, and of bits."""
    for n in range(lo, hi):
        for m in (0, 1, 2, 3, 6, 7, 8, 15, 16):
            u = 1 << m
            s = Rice(dict(m=m, ops=[]))
            for a, b in ((1, u + 1), (u, 1), (2 * u + 1, 3)):
                for i in sorted({0, 1, n // 2, n - 1}):
                    if i < n:
                        h = [a] * n
                        h[i] = b
                        st = s.start()
                        for v in h:
                            s.step(st, v)
                        engine.guard(s, h, s.check, st)
                        ctx.trans(n)
                        ctx.state((m, a, i, n))
            ctx.trace()
        engine.bfs(Bits(dict(init=n)), ctx, 1)


def item_bits(ctx, init, depth):
    engine.bfs(Bits(dict(init=init)), ctx, depth)
    # whatever is true or false
    for bits in ((-1, 0.0), (0.5, ''), ('0', None), (True, ()), (2**70, {}),
                 ((0,), False), (-256, 0), (255, 256), (b'0', b'')):
        engine.bfs(Bits(dict(init=init, bits=bits)), ctx, 2)


def item_bits_all(ctx, n):
    """Every bit string of n bits, appended, then inverted one by one."""
    s = Bits({})
    for bits in itertools.product((0, 1), repeat=n):
        st = s.start()
        h = [('a', b) for b in bits] + [('s', i, 1 - b)
                                        for i, b in enumerate(bits)]
        for op in h:
            s.step(st, op)
        engine.guard(s, h, s.check, st)
        ctx.trans(len(h))
        ctx.trace()
        ctx.state(bits)


def deltas(lst, case=True):
    from zope.index.text.ricecode import decode_deltas
    from zope.index.text.ricecode import encode_deltas
    arg = list(lst)
    try:
        start, enc = encode_deltas(arg)
        got = decode_deltas(start, enc)
        again = decode_deltas(start, enc)
    except Exception as e:
        got = again = repr(e)
    if got != list(lst) or again != got or arg != list(lst):
        raise Violation('deltas of %s decode to %s' % (show(lst), show(got)),
                        dict(sys='deltas', ops=list(lst)))


def item_deltas(ctx, top, base):
    """Every non-empty subset of a range, as increasing list."""
    for bits in range(1, 1 << top):
        lst = [base + i for i in range(top) if bits >> i & 1]
        deltas(lst)
        ctx.trans()
        ctx.state((base, bits))
        ctx.trace()


GAPS = (1, 2, 3, 63, 64, 65, 66, 127, 128, 129, 200, 1000)


def item_gaps(ctx, first, n):
    for start in (0, 1, -5, 10**6):
        for k in range(n):
            for gaps in itertools.product(GAPS, repeat=k):
                lst = [start]
                for g in (first,) + gaps:
                    lst.append(lst[-1] + g)
                deltas(lst)
                ctx.trans()
                ctx.state((start, first, gaps))
                ctx.trace()


def item_runs(ctx, top):
    """Long lists: constant and varying gaps."""
    for n in list(range(1, 70)) + [100, 255, 256, 257, 1000, top]:
        for f in (lambda i: i, lambda i: 3 * i, lambda i: i * i,
                  lambda i: i * 64, lambda i: i * 65 + 7,
                  lambda i: i * (i % 3 + 1) + 3 * i):
            lst = sorted({f(i) for i in range(n)})
            if lst[-1] < 3 * 10**6:
                deltas(lst)
                ctx.trans()
                ctx.state((n, lst[-1]))
        ctx.trace()


FARGAPS = (2, 63, 64, 65, 128, 255, 256, 1000, 4095, 4096, 4097, 65536)


def item_jumps(ctx, n):
    """Lists of n numbers one apart, but for one or two jumps."""
    for start in (0, 1, -7):
        for i in range(1, n):
            for g in FARGAPS:
                for j in range(i, n):
                    for h in FARGAPS[1::3] if j > i else (1,):
                        lst = [start]
                        for k in range(1, n):
                            lst.append(lst[-1] + (
                                g if k == i else h if k == j else 1))
                        deltas(lst)
                        ctx.trans()
                        ctx.state((n, start, i, g, j, h))
        ctx.trace()


def item_jump(ctx, n):
    for i in range(1, n):
        for g in FARGAPS:
            deltas(list(range(i)) + list(range(i + g, n + g)))
            ctx.trans()
            ctx.state((n, i, g))
    ctx.trace()


def item_unary(ctx, m, top):
    """Unary parts around all powers of two."""
    for k in range(3, top + 1):
        for q in (2**k - 1, 2**k, 2**k + 1):
            for r in sorted({0, (1 << m) - 1, (1 << m) >> 1}):
                h = [(q << m) + r + 1, 1, 2]
                st = engine._replay(Rice(dict(m=m, ops=[])), h)
                engine.guard(Rice(dict(m=m, ops=[])), h, Rice({}).check, st)
                ctx.trans(3)
                ctx.trace()
                ctx.state((m, q, r))


def item_far(ctx, top):
    """Deltas around all powers of two."""
    for k in range(1, top + 1):
        for d in (-1, 0, 1) if k <= 20 else (0,):
            for start in (-2**k, 0, 7) if k <= 20 else (3,):
                if 2**k + d > 0:
                    deltas([start, start + 2**k + d, start + 2**k + d + 1,
                            start + 2**k + d + 66])
                    ctx.trans()
                    ctx.trace()
                    ctx.state((k, d, start))


def items(tier):
    deep = tier == 'thorough'
    r = []
    for m in range(17):
        vals = values(m)
        few = [v for v in vals if v <= 3 << m][:8]
        n = 5 if deep else 4
        for v in vals:
            r.append(('rice3-%d-%d' % (m, v), 'item_rice', m, 4 if deep else 3,
                      vals, v))
        for v in few + [0, -1]:
            r.append(('rice-%d-%d' % (m, v), 'item_rice', m, n,
                      few[:6] + [0], v))
        r.append(('all-%d' % m, 'item_allvalues', m,
                  max(60, min(17 << m, 70000 if deep else 4000))))
    for init in (0, 6, 7, 8, 15, 63, 64, 255, 256):
        r.append(('bits-%d' % init, 'item_bits', init, 4 if deep else 3))
    for m in range(17):
        r.append(('unary-%d' % m, 'item_unary', m, 18 if deep else 14))
    r.append(('far', 'item_far', 28 if deep else 26))
    for n in (1, 2, 7, 8, 9) + ((12, 16) if deep else (12,)):
        r.append(('bitsall-%d' % n, 'item_bits_all', n))
    for base in (0, 1, -7, 1000):
        r.append(('deltas-%d' % base, 'item_deltas', 17 if deep else 13,
                  base))
    for g in GAPS:
        r.append(('gaps-%d' % g, 'item_gaps', g, 4 if deep else 3))
    for n in range(2, 24 if deep else 14):
        r.append(('jumps-%d' % n, 'item_jumps', n))
    for n in (17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257):
        r.append(('jump-%d' % n, 'item_jump', n))
    for lo in range(1, 271, 15):
        r.append(('len-%d' % lo, 'item_len', lo, lo + 15))
    r.append(('runs', 'item_runs', 20000 if deep else 2000))
    return r


def run_case(case, ctx):
    if case['sys'] == 'deltas':
        if case['ops']:
            deltas(sorted(set(case['ops'])))
    else:
        s = {'rice': Rice, 'bits': Bits}[case['sys']](case['cfg'])
        engine.run_history(s, case['ops'], ctx)


BOUNDS = {
    'quick': 'm=0..16: all sequences of <=3 of 15 and 4 of 7 values around '
             'the powers of two with rejected values in between; every value '
             'below min(17*2^m, 4000) and with unary parts around the '
             'powers of two to 2^14; deltas to 2^26; every bit string <=12 with every bit '
             'flipped, bit operations from 9 lengths to depth 3, with 9 kinds of true and false values to depth 2; every '
             'subset of 13 numbers from 4 bases, all gap sequences <=3 of '
             '12; lists of 2000; lists of values and bits '
             'of every length to 270',
    'thorough': 'sequences of 4-5, values to 70000, subsets of 17 numbers',
}
