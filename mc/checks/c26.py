"""C26 64-bit id families behave like the 32-bit one."""
import copy
import itertools

from mc import configs
from mc import engine
from mc import near
from mc.core import Violation, diff_answers, show
from mc.kinds import FAMILY, KINDS, St, vkey

MAX32, MAX64 = 2**31 - 1, 2**63 - 1
EXT32 = (-MAX32 - 1, -MAX32, -65537, -1, 0, 1, 2**16, MAX32 - 1, MAX32)
# 2**32 + x and x agree in their low bits, 2**53 + 1 is no float, nor is
# MAX32 a 32-bit float
EXT64 = (-MAX64 - 1, -MAX64, -2**53 - 1, -2**32, -MAX32 - 2, -MAX32 - 1, -1,
         0, 1, MAX32, MAX32 + 1, 2**32, 2**32 + 1, 2**53, 2**53 + 1,
         MAX64 - 1, MAX64)


class Sys(engine.System):
    """The same history on several indexes that differ in the family and in
    the documents' ids.  The first one is the reference: 32 bit, small ids.

    cfg['maps']: (family, ids) - document i of the history gets ids[i].
    A family None is the default of the constructor.
    """
    name = 'families'
    uses_init = True

    def __init__(self, cfg):
        engine.System.__init__(self, cfg)
        self.kinds = []
        for fam, ids in cfg['maps']:
            c = dict(cfg, family=fam, ids=tuple(ids))
            c.pop('maps')
            self.kinds.append(KINDS[cfg['kind']](c))

    def start(self):
        st = St()
        st.xs = [k.make() for k in self.kinds]
        st.ms = [k.model() for k in self.kinds]
        return st

    def key(self, st):
        return engine.canon.digest(st.xs, st.ms)

    def ops(self, st):
        return list(self.cfg['ops'])

    def step(self, st, op):
        for (fam, ids), k, x, m in zip(self.cfg['maps'], self.kinds, st.xs,
                                       st.ms):
            o = op
            if op[0] in ('i', 'u'):
                o = (op[0], ids[op[1]]) + tuple(op[2:])
            k.do(x, o)
            k.do_model(m, o)

    def check(self, st):
        want = None
        for (fam, ids), k, x, m in zip(self.cfg['maps'], self.kinds, st.xs,
                                       st.ms):
            got = self.answers(fam, ids, k, x, m)
            if want is None:
                want = got
                continue
            d = diff_answers(got, want)
            if d:
                raise Violation(
                    'family %s, ids %s: %s gives %s, with the 32 bit family '
                    'and small ids %s' % (fam, show(ids), show(d[0]),
                                          show(d[1]), show(d[2])))

    def answers(self, fam, ids, k, x, m):
        """The answers, with the documents' numbers instead of their ids."""
        inv = {d: i for i, d in enumerate(ids)}
        r = {}
        for q, a in k.answers(x, m).items():
            if isinstance(q, tuple) and q[0] in ('has', 'get'):
                q = (q[0], inv[q[1]])
            elif isinstance(a, dict):
                a = {inv[d]: s for d, s in a.items()}
            elif isinstance(a, list) and q != 'ids':
                a = sorted(inv[d] for d in a)
            r[q] = a
        r.update(self.more(fam, ids, inv, x, m))
        return r

    def more(self, fam, ids, inv, x, m):
        """What the batteries of the kinds do not ask."""
        r = {}
        kind = self.cfg['kind']
        IF = FAMILY[fam or 32].IF
        if kind == 'field':
            # equal values in any order
            val = {d: vkey(v) for d, v in m.items()}
            for rev, lim in itertools.product((False, True), (None, 1, 2)):
                for name, docids in (
                        ('list', list(ids)), ('set', IF.Set(ids)),
                        ('treeset', IF.TreeSet(ids)),
                        ('some', IF.Set(ids[:2]))):
                    s = list(x.sort(docids, reverse=rev, limit=lim))
                    r['sort', name, rev, lim] = [val[d] for d in s], len(
                        set(s))
        # results can be combined with sets of the same family
        if kind in ('field', 'keyword'):
            q = (None, None) if kind == 'field' else \
                list(self.cfg['queries'][1])
            s = x.apply(q)
            for name, c in (('union', IF.union), ('intersection',
                                                  IF.intersection)):
                r[name] = sorted(inv[d] for d in c(s, IF.Set(ids[:1])))
        elif kind == 'topic':
            for f in sorted(x._filters.keys()):
                s = x._filters[f].getIds()
                r['union', f] = sorted(
                    inv[d] for d in IF.union(s, IF.Set(ids[:1])))
        else:
            q = self.cfg['queries'][0]
            s = x.apply(q)
            u = IF.weightedUnion(s, IF.BTree({ids[0]: 1.0}), 1, 0)[1]
            r['union'] = {inv[d]: float(w) for d, w in u.items()}
        return r


def item_near(ctx, *args):
    def change(c, n):
        num = {d: i for i, d in enumerate(
            sorted({op[1] for op in c['init'] + tuple(c['ops'])
                    if op[0] in ('i', 'u')}))}

        def o(op):
            if op[0] in ('i', 'u'):
                return (op[0], num[op[1]]) + op[2:]
            return op
        c['init'] = tuple(map(o, c['init']))
        c['ops'] = list(map(o, c['ops']))
        c['maps'] = [sweepmaps(len(num))[i] for i in (0, 3, 7, 8, 9)]
        c.pop('ids')
        c.pop('family')
    near.explore(ctx, Sys, *args, change=change)


def item_bfs(ctx, c, depth):
    engine.bfs(Sys(c), ctx, depth)


def item_sweep(ctx, kind, variant, n):
    c = configs.sweep_cfg(kind, variant)
    c['maps'] = sweepmaps(n)
    s = Sys(c)
    st = engine.guard(s, [], s.start)
    done = []
    for op in configs.sweep(kind, n):
        if op is None:
            engine.guard(s, done, s.check, st)
            ctx.state((kind, variant, n, len(done)))
            continue
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
    ctx.trace()


def sweepmaps(n):
    ids = range(n)
    return [
        (None, tuple(ids)), (32, tuple(ids)), (64, tuple(ids)),
        (None, tuple(-MAX32 - 1 + i for i in ids)),
        (None, tuple(MAX32 - i for i in ids)),
        (None, tuple(i - n // 2 for i in ids)),
        (None, tuple((-1)**i * (i * (MAX32 // n)) for i in ids)),
        (64, tuple(-MAX64 - 1 + i for i in ids)),
        (64, tuple(MAX64 - i for i in ids)),
        (64, tuple(i * 2**32 for i in ids)),
        (64, tuple((i // 2) * 2**32 + i % 2 for i in ids)),
        (64, tuple(2**53 + i for i in ids)),
        (64, tuple((-1)**i * (i * (MAX64 // n)) for i in ids)),
    ]


def cfgs():
    """name -> cfg, documents 0, 1 ... (the last one never indexed)."""
    r = {}
    f, k, t, x = configs.field, configs.keyword, configs.topic, configs.text
    r['field'] = f((0, 1), (0, 1))
    r['field-none'] = f((0, 1), (None, 'a'))
    r['field-3'] = f((0, 1, 2), (0, 1))
    r['kw'] = k((0, 1), n=2)
    r['kw-lower'] = k((0, 1), 'lower', n=2)
    r['kw-thr'] = k((0, 1), n=2, thresholds=(1,))
    r['kw-3'] = k((0, 1, 2), n=1)
    r['topic'] = t((0, 1))
    r['topic-3'] = t((0, 1, 2), (0, 3))
    for rank in ('okapi', 'cosine'):
        r[rank] = x(rank, (0, 1), ('', 'foo', 'foo bar'))
        r[rank + '-3'] = x(rank, (0, 1, 2), ('foo', 'baz foo bar'))
        r[rank + '-html'] = x(rank, (0, 1), ('<b>foo', 'foo bar the'),
                              pipe='html')
    for name, c in r.items():
        # terms are optional for the documents without ids
        c.pop('ids', None)
        c.pop('family', None)
    return r


def mappings(n):
    """All ways to give n documents (and an absent one) extreme ids."""
    small = tuple(range(n)) + (77,)
    m32 = [p + (77,) for p in itertools.permutations(EXT32, 2)]
    m64 = [p + (77,) for p in itertools.permutations(EXT64, 2)]
    if n == 3:
        def ring(ext):
            return [(ext[i], ext[j], ext[(j + 1 + i) % len(ext)], 77)
                    for i in range(len(ext)) for j in range(len(ext))
                    if i != j and (j + 1 + i) % len(ext) not in (i, j)]
        m32, m64 = ring(EXT32), ring(EXT64)
    return small, m32, m64


def items(tier):
    deep = tier == 'thorough'
    r = []
    for kind, variants in (
            ('text', ('okapi', 'cosine')), ('field', (None,)),
            ('keyword', ('id', 'lower')), ('topic', (None,))):
        for v in variants:
            r.append(('sweep-%s-%s' % (kind, v), 'item_sweep', kind, v,
                      390 if deep else 130))
    for name, c in cfgs().items():
        n = 1 + max(op[1] for op in c['ops'] if op[0] == 'i')
        small, m32, m64 = mappings(n)
        maps = [(None, m) for m in m32] + [(64, m) for m in m64]
        group = 12
        for i in range(0, len(maps), group):
            c2 = copy.copy(c)
            c2['maps'] = [(None, small), (64, small)] + maps[i:i + group]
            text = c['kind'] == 'text'
            r.append(('bfs-%s-%d' % (name, i), 'item_bfs', c2,
                      (4 if deep else 2) if text else
                      None if deep or n == 2 else 4))
    # many documents' worth of histories with few ids
    for name, c in cfgs().items():
        if c['kind'] == 'text':
            c['maps'] = [(None, mappings(2)[0] + (78,)),
                         (32, (-MAX32 - 1, MAX32, 0, 77)),
                         (64, (2**32 + 1, 1, 2**33 + 1, 77)),
                         (64, (-MAX64 - 1, MAX64, 0, 77)),
                         (64, (2**53, 2**53 + 1, -2**53 - 1, 77))]
            r.append(('deep-' + name, 'item_bfs', c, 5 if deep else 4))
    r += near.items(tier, one=near.SOME[::2], two=())
    return r


def run_case(case, ctx):
    engine.run_history(Sys(case['cfg']), [tuple(o) for o in case['ops']],
                       ctx)


BOUNDS = {
    'quick': 'lock-step of the 32- and 64-bit family: all reachable states '
             'of 15 small configurations of every index type (text: depth 2, '
             'some to 4) under every injection of two (some: three) '
             'documents into 9 extreme 32-bit and 17 extreme 64-bit ids '
             '(both ends, zero, -1, ids equal in their low 32 bits, ids that '
             'are no floats); histories growing to 130 documents under 13 '
             'mappings',
    'thorough': 'text to depth 4-5, everything else to closure, 390 '
                'documents',
}
