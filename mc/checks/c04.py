"""C04 Keyword normalization is applied alike to documents and queries."""
import itertools

from mc import configs
from mc import engine
from mc import near
from mc.checks import c03
from mc.core import Violation, expect, raises, show
from mc.kinds import KeywordKind, KindSystem, NORMS, form, keyword_search

WORDS = {
    'lower': ['a', 'A', 'B'],
    'lower2': ['\u0130', 'i\u0307', '\u00df', '\u1e9e'],
    'lower3': ['Ab', 'aB', 'AB'],
    'strip': ['-a', 'a-', '--'],
    'drop': ['x', 'xa', 'a'],
    'split': ['a-b', 'b', '-'],
}
NORM = {'lower2': 'lower', 'lower3': 'lower'}
UNKNOWN = {'lower': 'b', 'lower2': '\u0131', 'lower3': 'ab', 'strip': 'b',
           'drop': 'xb', 'split': 'a'}


class Pair:
    pass


class System(engine.System):
    """The normalizing index, a plain one fed normalized words, a model."""
    name = 'pair'
    uses_init = True

    def __init__(self, cfg):
        engine.System.__init__(self, cfg)
        self.kind = KeywordKind(cfg)
        self.plain = KeywordKind(dict(cfg, norm='id'))
        self.n = NORMS[cfg['norm']]

    def start(self):
        st = Pair()
        st.x = self.kind.make()
        st.y = self.plain.make()
        st.m = {}
        return st

    def ops(self, st):
        return self.cfg['ops']

    def step(self, st, op):
        self.kind.do(st.x, op)
        if op[0] == 'i':
            ws = self.n(op[2])
            if ws:
                self.plain.do(st.y, ('i', op[1], ws))
            else:
                self.plain.do(st.y, ('u', op[1]))
        else:
            self.plain.do(st.y, op)
        self.kind.do_model(st.m, op)

    def check(self, st):
        x, y, m = st.x, st.y, st.m
        expect(x.documentCount() == y.documentCount() == len(m),
               'documentCount %s, plain %s, expected %s',
               x.documentCount(), y.documentCount(), len(m))
        nw = len({w for s in m.values() for w in s})
        expect(x.wordCount() == y.wordCount() == nw,
               'wordCount %s, plain %s, expected %s',
               x.wordCount(), y.wordCount(), nw)
        for d in self.cfg['ids']:
            expect(x.has_doc(d) == y.has_doc(d) == (d in m),
                   'has_doc(%s) %s', d, x.has_doc(d))
        full = self.cfg.get('forms')
        for q in self.cfg['queries']:
            ws = self.n(q)
            for op in ('and', 'or'):
                want = keyword_search(m, frozenset(ws), op)
                plain = sorted(y.search(ws, op))
                expect(plain == want, 'plain search(%s, %s) gives %s, '
                       'expected %s', ws, op, plain, want)
                for how in c03.QFORMS if full else ('list',):
                    got = sorted(x.search(form(q, how), op))
                    expect(got == want,
                           'search(%s %s, %s) gives %s, expected %s',
                           how, q, op, got, want)
                    got = sorted(x.apply({'query': form(q, how),
                                          'operator': op}))
                    expect(got == want, 'apply(%s, %s) gives %s, expected %s',
                           q, op, got, want)
            want = keyword_search(m, frozenset(ws), 'and')
            got = sorted(x.apply(list(q)))
            expect(got == want, 'apply(%s) gives %s, expected %s',
                   q, got, want)
        for w in self.cfg['strings']:
            ws = self.n([w])
            for op in ('and', 'or'):
                want = keyword_search(m, frozenset(ws), op)
                got = sorted(x.search(w, op))
                expect(got == want, 'search(%s, %s) gives %s, expected %s',
                       w, op, got, want)
                got = sorted(x.apply({'query': w, 'operator': op}))
                expect(got == want, 'apply(string %s)', w)
            expect(sorted(x.apply(w)) == keyword_search(
                m, frozenset(ws), 'and'), 'apply(%s)', w)


def cfg(name, docs=(1, 2), nwords=None, thresholds=(), maxq=2, family=None,
        forms=False):
    ws = WORDS[name][:nwords]
    ops = [('i', d, s) for d in docs for s in c03.ksubsets(ws)]
    ops += [('u', d) for d in docs] + [('c',), ('o',)]
    ops += [('t', n) for n in thresholds]
    pool = ws + [UNKNOWN[name]]
    qs = [list(q) for k in range(maxq + 1)
          for q in itertools.product(pool, repeat=k)]
    return dict(kind='keyword', norm=NORM.get(name, name), ops=ops,
                queries=qs, strings=pool, ids=tuple(docs) + (9,),
                family=family, forms=forms)


def item_bfs(ctx, c):
    engine.bfs(System(c), ctx)


def item_tree(ctx, c, depth, prefix):
    engine.tree(System(c), ctx, depth, prefix)


VARIANTS = {'lower': (('a', 'A'), ('B', 'b')),
            'split': (('a-b', 'a'), ('b',)),
            'strip': (('-a', 'a-', 'a'), ('-b', 'b')),
            'drop': (('a', 'xa'), ('b', 'x'))}


def vary(w, v, i):
    """The keyword as it is written by the i-th document."""
    if v == 'lower':
        return w.upper() if i % 2 else w
    if v == 'strip':
        return ('-' + w, w + '--', w)[i % 3]
    return w


def changewide(c, v):
    def var(ws, i=0):
        if v == 'split':
            ws = tuple('-'.join(ws[j:j + 3]) for j in range(0, len(ws), 3))
        elif v == 'drop':
            ws = ws[:1] + ('x', 'xyz') + ws[1:]
        return tuple(vary(w, v, i + j) for j, w in enumerate(ws))
    c['ops'], c['init'] = [[
        op[:2] + (var(op[2], i),) if op[0] == 'i' else op
        for i, op in enumerate(c[k])] for k in ('ops', 'init')]
    c['queries'] = [list(var(q, i)) for i, q in enumerate(c['queries'])]
    c['strings'] = ['k000', 'k-000', 'K000']


def item_near(ctx, kind, v, *args):
    """Many documents sharing a keyword written in several ways."""
    def change(c, n):
        if n < 0 or n >= near.LONG:
            return changewide(c, v)
        a, b = VARIANTS[v]

        def var(op, i):
            if op[0] != 'i':
                return op
            return op[:2] + (tuple(
                a[i % len(a)] if w == 'a' else b[i % len(b)]
                for w in op[2]),)
        c['init'] = tuple(var(op, i) for i, op in enumerate(c['init']))
        c['ops'] = [var(op, i) for i, op in enumerate(c['ops'])]
        c['queries'] = [[a[-1]], [b[0]], [a[0], b[-1]], ['zz', a[0]]]
        c['strings'] = [a[0], b[0]]
    near.explore(ctx, System, kind, v, *args, change=change)


def item_unicode(ctx, lo, hi):
    """Every character: a case-insensitive index against a plain one."""
    c = dict(kind='keyword', norm='lower', ops=[], queries=[], strings=[],
             ids=())
    s = System(c)
    st = s.start()
    for cp in range(lo, hi):
        if 0xD800 <= cp < 0xE000:
            continue
        ch = chr(cp)
        op = ('i', cp, [ch])
        st.x.index_doc(cp, [ch])
        for v in {ch, ch.lower(), ch.upper(), ch.swapcase()}:
            got = sorted(st.x.search(v))
            want = [cp] if v.lower() == ch.lower() else []
            if got != want:
                raise Violation(
                    'keyword %r of document %d, search(%r) gives %r' % (
                        ch, cp, v, got), dict(sys='uni', cfg=c, ops=[op],
                                              word=v))
        st.x.unindex_doc(cp)
        ctx.trans(2)
        ctx.trace()
        ctx.state(cp)


def items(tier):
    deep = tier == 'thorough'
    r = []
    for name in WORDS:
        n = None if name != 'lower2' or deep else 3
        r.append(('bfs-' + name, 'item_bfs', cfg(name, nwords=n)))
        r.append(('bfs-thr-' + name, 'item_bfs',
                  cfg(name, nwords=2, thresholds=(1, 2, 64), forms=True)))
        r.append(('bfs-3docs-' + name, 'item_bfs',
                  cfg(name, docs=(1, 2, 3), nwords=2)))
        t = cfg(name, nwords=2)
        for p in t['ops']:
            r.append(('tree-%s-%s' % (name, p), 'item_tree', t,
                      4 if deep else 3, (p,)))
    r.append(('bfs-64', 'item_bfs', cfg('lower', (-2**63, 2**63 - 1),
                                        family=64)))
    top = 0x110000 if deep else 0x20000
    for lo in range(0, top, 0x4000):
        r.append(('unicode-%x' % lo, 'item_unicode', lo, lo + 0x4000))
    for v in VARIANTS:
        r += near.items(tier, (('keyword', v),), one=near.SOME, two=(10,))
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    if case['sys'] == 'uni':
        st = System(case['cfg']).start()
        (_, d, ws), = case['ops']
        st.x.index_doc(d, ws)
        v = case['word']
        want = [d] if v.lower() == ws[0].lower() else []
        got = sorted(st.x.search(v))
        expect(got == want, 'keyword %s, search(%s) gives %s', ws, v, got)
        return
    engine.run_history(System(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': 'closure: 2 docs x all subsets of 3 keywords, 3 docs x 2 '
             'keywords, thresholds; 4 normalizers, 6 alphabets; all queries '
             '<=2; trees depth 3; every character below U+20000',
    'thorough': 'trees depth 4; every Unicode character',
}
