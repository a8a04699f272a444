"""C15 The word-id list encoding is lossless and self-delimiting."""
import itertools

from mc.checks import c07
from mc.core import Violation, show

IDS = (0, 1, 2, 63, 64, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385,
       16511, 16512, 2097151, 2097152, 2097153, 2**28 - 1)
SMALL = (1, 127, 128, 129, 256, 16383, 16384, 16512, 2097151, 2097152,
         2**28 - 2**14, 2**28 - 1)


def bad(msg, wids):
    raise Violation('%s for %s' % (msg, show(wids)),
                    dict(sys='list', ops=list(wids)))


def roundtrip(wids):
    from zope.index.text import widcode
    try:
        code = widcode.encode(wids)
        got = list(widcode.decode(code))
    except Exception as e:
        bad(repr(e), wids)
    if got != list(wids):
        bad('decoded as %s' % show(got), wids)
    return code


def item_ids(ctx, lo, hi):
    """Every id alone, and all of them in one list."""
    from zope.index.text import widcode
    encode, decode = widcode.encode, widcode.decode
    for a in range(lo, hi, 4096):
        ids = list(range(a, min(a + 4096, hi)))
        try:
            code = encode(ids)
            singles = [encode([w]) for w in ids]
            ok = decode(code) == ids and code == ''.join(singles)
            ok = ok and [decode(s) for s in singles] == [[w] for w in ids]
        except Exception:
            ok = False
        if not ok:
            for w in ids:
                roundtrip([w])
            for n in (2, 64, 4096):
                for i in range(0, len(ids), n):
                    part = ids[i:i + n]
                    if roundtrip(part) != ''.join(roundtrip([w])
                                                  for w in part):
                        bad('not the concatenation', part)
            bad('wrong', ids[:2])
        heads = {s[0] for s in singles}
        inner = {c for s in singles for c in s[1:]}
        if heads & inner or not singles[0]:
            # not wrong in itself: look for an actual wrong match
            search([w for w in ids if w % 16384 in (0, 1)][:4] + ids[:4]
                   + list(SMALL))
        ctx.add('states_extra', len(ids))
        ctx.trans(2 * len(ids))
        ctx.trace(len(ids))
        ctx.outcome((len(singles[0]), len(singles[-1])))
    ctx.sample({'ids': [lo, hi - 1], 'code of the last': repr(singles[-1])})


def item_order(ctx, lo, hi):
    """Neighbours in descending order and with far ids."""
    for w in range(lo, hi):
        ids = [w + 1, w, 2**28 - 1 - w, w, 1]
        code = roundtrip(ids)
        if code != ''.join(roundtrip([x]) for x in ids):
            bad('not the concatenation', ids)
        ctx.trans()
    ctx.add('states_extra', hi - lo)
    ctx.trace(hi - lo)


def item_lists(ctx, n, first):
    for k in range(n) if first is not None else (0,):
        for rest in itertools.product(IDS, repeat=k):
            ids = (() if first is None else (first,)) + rest
            code = roundtrip(list(ids))
            for i in range(len(ids) + 1):
                if roundtrip(ids[:i]) + roundtrip(ids[i:]) != code:
                    bad('not the concatenation at %d' % i, ids)
            ctx.trans()
            ctx.state(ids)
            ctx.trace()
            if first is None:
                return


def occurrences(code, inside):
    i = inside.find(code)
    while i >= 0:
        yield i
        i = inside.find(code, i + 1)


def one_search(a, b, ca, cb, starts):
    for i in occurrences(ca, cb):
        if i not in starts:
            raise Violation(
                'the code of %s is found in that of %s at character %d, in '
                'the middle of an id' % (a, b, i),
                dict(sys='search', a=a, b=b, ops=[]))


def starts_of(b):
    r, i = set(), 0
    for w in b:
        r.add(i)
        i += len(roundtrip([w]))
    return r


def search(ids, la=2, lb=2):
    """All lists of up to la ids inside all lists of up to lb."""
    small = [(list(a), roundtrip(list(a))) for k in range(1, la + 1)
             for a in itertools.product(ids, repeat=k)]
    for k in range(1, lb + 1):
        for b in itertools.product(ids, repeat=k):
            cb, starts = roundtrip(list(b)), starts_of(b)
            for a, ca in small:
                one_search(a, list(b), ca, cb, starts)


def item_search(ctx, first, lb):
    small = [(list(a), roundtrip(list(a))) for k in (1, 2)
             for a in itertools.product(SMALL, repeat=k)]
    for k in range(lb):
        for rest in itertools.product(SMALL, repeat=k):
            b = [first] + list(rest)
            cb, starts = roundtrip(b), starts_of(b)
            for a, ca in small:
                one_search(a, b, ca, cb, starts)
            ctx.trans(len(small))
            ctx.state(tuple(b))
            ctx.trace()


def item_index(ctx, rank, first):
    """Words of indexed and reindexed documents are read back."""
    x = c07.make(rank)
    docs = {}
    n = 0
    for k in range(3):
        for rest in itertools.product(SMALL, repeat=k):
            d = [first] + list(rest)
            for docid in (n, n // 2, -n):
                x.index_doc(docid, d)
                docs[docid] = d
                ctx.trans()
            n += 1
            if n % 7 == 0:
                x.unindex_doc(n // 2)
                docs.pop(n // 2, None)
    for docid, d in docs.items():
        got = x.get_words(docid)
        if list(got) != d:
            raise Violation('the words %s of a document are read back as %s'
                            % (d, show(got)), dict(
                                sys='index', rank=rank, ops=d))
        ctx.state((docid, tuple(d)))
        ctx.trace()


def item_shapes(ctx, n):
    """Lists of n ids of every shape: first and last and what is between."""
    for base in (1, 100, 16380, 2097100):
        up = list(range(base, base + n))
        for mid in (up, up[::-1], [base] * n, up[::2] + up[1::2][::-1],
                    (up + up)[::2]):
            for f in (None, 0, base, base + n, base + n // 2, 2**28 - 1):
                for t in (None, 0, base, base + n, base + n // 2, 2**28 - 1):
                    ids = list(mid)
                    if f is not None:
                        ids.insert(0, f)
                    if t is not None:
                        ids.append(t)
                    roundtrip(ids)
                    ctx.trans()
                    ctx.state((base, f, t, n))
    ctx.trace()


def item_long(ctx, n):
    for step in (1, 127, 128, 129, 16383, 16384, 2097152 - 1):
        ids = [(i * step) % 2**28 for i in range(n)]
        code = roundtrip(ids)
        for i in (0, 1, n // 2, n - 1, n):
            if roundtrip(ids[:i]) + roundtrip(ids[i:]) != code:
                bad('not the concatenation', ids)
        roundtrip(tuple(ids))
        ctx.trans()
        ctx.trace()
        ctx.state((n, step))


def items(tier):
    deep = tier == 'thorough'
    r = []
    top = 2**28 if deep else 2**23
    step = 2**19
    los = list(range(0, top, step))
    if not deep:
        los += [2**k - 2**15 for k in range(24, 29)]
    for lo in los:
        hi = min(lo + (step if lo < top else 2**16), 2**28)
        r.append(('ids-%x' % lo, 'item_ids', lo, hi))
    for lo in range(0, 2**18 if deep else 2**15, 2**13):
        r.append(('order-%x' % lo, 'item_order', lo, lo + 2**13))
    r.append(('lists-none', 'item_lists', 1, None))
    for w in IDS:
        r.append(('lists-%d' % w, 'item_lists', 5 if deep else 4, w))
    for w in SMALL:
        r.append(('search-%d' % w, 'item_search', w, 4 if deep else 3))
        for rank in ('okapi', 'cosine'):
            r.append(('index-%s-%d' % (rank, w), 'item_index', rank, w))
    for n in range(520 if deep else 262):
        r.append(('shapes-%d' % n, 'item_shapes', n))
    for n in (1, 2, 10, 1000, 20000):
        r.append(('long-%d' % n, 'item_long', n))
    return r


def run_case(case, ctx):
    if case['sys'] == 'list':
        ids = case['ops']
        code = roundtrip(ids)
        if code != ''.join(roundtrip([w]) for w in ids):
            bad('not the concatenation', ids)
    elif case['sys'] == 'search':
        a, b = case['a'], case['b']
        one_search(a, b, roundtrip(a), roundtrip(b), starts_of(b))
    else:
        x = c07.make(case['rank'])
        x.index_doc(1, case['ops'])
        got = list(x.get_words(1))
        if got != case['ops']:
            raise Violation('read back as %s' % show(got))


BOUNDS = {
    'quick': 'every id below 2^23 and around 2^24..2^28, alone and in lists '
             'of 4096; all lists <=4 of 20 boundary ids with every split; '
             'all lists <=2 searched in all lists <=3 of 12 ids; read back '
             'from indexes; lists of 20000',
    'thorough': 'every id of 28 bits; lists <=5; searched in lists <=4',
}
