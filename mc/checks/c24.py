"""C24 A rejected operation leaves the index unchanged."""
from mc import configs
from mc import engine
from mc import near
from mc import textref
from mc.core import Violation, diff_answers, show
from mc.kinds import FAMILY, KeywordKind, KindSystem, TextKind
from mc.zodbeng import lexicon_answers

BADIDS = ('a', None, 1.5, (1,), 2**80, -2**80, b'1')
FAR32 = (2**31, -2**31 - 1)
FAR64 = (2**63, -2**63 - 1)


class Boom(Exception):
    pass


class Switch:
    """What fails: (where, how), see the breakers."""
    on = None


class Breaker:
    """A pipeline element that fails when switched on."""

    def __init__(self, where):
        self.where = where

    def process(self, words):
        if Switch.on and Switch.on[0] == self.where:
            if Switch.on[1] == 'call':
                raise Boom()
            return failing(words, Switch.on[1])
        return words


def failing(words, n):
    """The first *n* words, then a failure."""
    for i, w in enumerate(words):
        if i == n:
            raise Boom()
        yield w
    raise Boom()


class Evil:
    """Cannot be compared."""

    def __lt__(self, other):
        raise Boom()
    __gt__ = __le__ = __ge__ = __eq__ = __lt__
    __hash__ = None


class Plain:
    pass


def content(spec):
    """Literals, and what they cannot express."""
    if isinstance(spec, tuple) and spec and spec[0] == '!':
        what = spec[1]
        if what == 'object':
            return Plain()
        if what == 'evil':
            return Evil()
        if what == 'seq':
            return [content(s) for s in spec[2]]
        if what == 'gen':
            return failing(spec[2], len(spec[2]))
        if what == 'surrogate':
            return '\ud800 foo'
    return spec


class BreakText(TextKind):
    """Okapi or cosine with breakers between the pipeline elements."""

    def make_lexicon(self):
        from zope.index.text.lexicon import Lexicon
        es = [textref.real_element(e)
              for e in textref.PIPES[self.cfg.get('pipe', 'std')]]
        pipe = [Breaker(0)]
        for i, e in enumerate(es):
            pipe += [e, Breaker(i + 1)]
        return Lexicon(*pipe)

    def answers(self, x, m):
        r = TextKind.answers(self, x, m)
        lex = lexicon_answers(x.lexicon)
        r['lexicon'] = lex['lexicon']
        r['lexicon count'] = lex['lexicon count'] == len(lex['lexicon words'])
        return r

    def expected(self, m):
        r = TextKind.expected(self, m)
        r['lexicon'] = r['lexicon count'] = True
        return r


_cache = {}


class BreakKeyword(KeywordKind):
    def klass(self):
        base = KeywordKind.klass(self)
        if base not in _cache:
            def normalize(self, seq):
                seq = base.normalize(self, seq)
                if Switch.on:
                    if Switch.on[1] == 'call':
                        raise Boom()
                    return failing(seq, Switch.on[1])
                return seq
            _cache[base] = type('Break' + base.__name__, (base,), {
                'normalize': normalize})
        return _cache[base]


class Sys(KindSystem):
    """('x', switch, docid, content) indexing that may be rejected, ('xu',
    docid) unindexing that may be rejected.

    What is accepted instead ends the history, it is another property.
    """
    name = 'reject'

    def __init__(self, cfg):
        KindSystem.__init__(self, cfg)
        if cfg['kind'] == 'text':
            self.kind = BreakText(cfg)
        elif cfg['kind'] == 'keyword':
            self.kind = BreakKeyword(cfg)

    def start(self):
        st = KindSystem.start(self)
        st.dead = False
        st.rejected = 0
        return st

    def key(self, st):
        return engine.canon.digest(st.x, st.m, st.dead)

    def ops(self, st):
        return [] if st.dead else self.cfg['ops']

    def attempt(self, st, op):
        """Did it raise?"""
        if op[0] == 'xu':
            try:
                st.x.unindex_doc(content(op[1]))
            except Exception:
                return True
            return False
        Switch.on = op[1]
        try:
            doc = content(op[3])
            if self.cfg['kind'] == 'topic':
                doc = self.kind.ctx(doc)
            st.x.index_doc(content(op[2]), doc)
        except Exception:
            return True
        finally:
            Switch.on = None
        return False

    def step(self, st, op):
        if st.dead:
            return
        if op[0] not in ('x', 'xu'):
            KindSystem.step(self, st, op)
        elif self.attempt(st, op):
            st.rejected += 1
        elif op[0] == 'x':
            # unindexing an unusable id may as well be ignored
            st.dead = True

    def check(self, st):
        if not st.dead:
            KindSystem.check(self, st)


def item_near(ctx, *args):
    def change(c, n):
        docs = (c['ids'][0], c['ids'][2])
        c['ops'] = [op for op in c['ops'] if op[0] != 'o'] + [
            op for op in rejections(c['kind'], docs, c['family'], True)]
    near.explore(ctx, Sys, *args, change=change)


def item_bfs(ctx, c, depth):
    engine.bfs(Sys(c), ctx, depth)


def item_tree(ctx, c, depth, prefix, most):
    s = Sys(c)
    ops = c['ops']
    bad = [op for op in ops if op[0] in ('x', 'xu')]
    good = [op for op in ops if op[0] not in ('x', 'xu')]
    # one or two rejections anywhere in a history of valid operations
    def rec(h, n, bads):
        if n == 0:
            if bads:
                st = engine.run_history(s, h, ctx)
                ctx.add('rejections', st.rejected)
                ctx.state((repr(c), h))
            return
        for op in good:
            rec(h + (op,), n - 1, bads)
        if bads < most:
            for op in bad:
                rec(h + (op,), n - 1, bads + 1)
    rec(tuple(prefix), depth - len(prefix),
        sum(op in bad for op in prefix))


def item_vacuous(ctx, c, least):
    """Most of what is meant to be rejected really is."""
    s = Sys(c)
    n = 0
    for op in c['ops']:
        if op[0] == 'x':
            st = s.start()
            for o in [o for o in c['ops'] if o[0] == 'i'][:3]:
                s.step(st, o)
            s.step(st, op)
            engine.guard(s, [op], s.check, st)
            n += not st.dead
            ctx.trans()
    ctx.trace()
    ctx.add('rejected kinds', n)
    if n < least:
        raise Violation('only %d operations are rejected' % n)


def item_sweep(ctx, kind, variant, family, n):
    """Rejections while an index grows, changes and shrinks."""
    c = configs.sweep_cfg(kind, variant, family)
    c['ids'] = (0, 1, 9, 30, 61, n)
    bad = rejections(kind, (0, 1, 10, 62, n - 1), family)
    s = Sys(c)
    st = s.start()
    done = []
    j = 0
    for op in configs.sweep(kind, n):
        if op is None:
            st1 = st
            engine.guard(s, done, s.check, st)
            for _ in range(len(bad)):
                b = bad[j % len(bad)]
                j += 1
                if not sure(kind, b):
                    continue
                done.append(b)
                engine.guard(s, done, s.step, st, b)
                if st.dead:
                    raise Violation('%s was accepted' % show(b),
                                    s.case(done))
                if j % 4 == 0:
                    engine.guard(s, done, s.check, st)
                ctx.trans()
            engine.guard(s, done, s.check, st)
            ctx.state((kind, variant, family, n, len(done)))
            continue
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
    ctx.trace()


def sure(kind, b):
    """Rejected whatever the state of the index is."""
    if b[0] == 'xu':
        return False
    if b[2] in BADIDS or b[2] in FAR64:
        return b[1] is None and (
            kind != 'topic' or b[2] not in FAR32 + FAR64)
    return b[1] is not None


def rejections(kind, docs, family=None, short=False):
    far = FAR64 if family == 64 else FAR32
    ids = BADIDS[:3] if short else BADIDS + far
    r = []
    x = 'x'
    if kind == 'field':
        for d in ids:
            r += [(x, None, d, 0), (x, None, d, 7)]
        for d in docs:
            for v in (('!', 'object'), ('!', 'evil'), 'str', (1,)):
                r.append((x, None, d, v))
    elif kind == 'keyword':
        for d in ids:
            r += [(x, None, d, ('a',)), (x, None, d, ('a', 'new')),
                  (x, None, d, ('new',))]
        o, e = ('!', 'object'), ('!', 'evil')
        for d in docs:
            for v in ('text', 5, ('a', 1), ('a', None, 'b'), (1, 2),
                      ('!', 'seq', ('a', o)), ('!', 'seq', ('new', e)),
                      ('!', 'seq', ('new', 'a', e)), ('!', 'seq', (o,)),
                      ('!', 'gen', ('a', 'new'))):
                r.append((x, None, d, v))
            for n in ('call', 0, 1):
                r.append((x, (0, n), d, ('a', 'new')))
                r.append((x, (0, n), d, ('b',)))
    elif kind == 'topic':
        for d in ids:
            r += [(x, None, d, 1), (x, None, d, 2), (x, None, d, 3)]
    else:
        for d in ids:
            r += [(x, None, d, 'foo'), (x, None, d, 'new foo'),
                  (x, None, d, '')]
        for d in docs:
            for v in (5, ('foo', 5), (None,), ('new', None), 1.5,
                      ('!', 'object'), ('!', 'gen', ('foo new', 'bar'))):
                r.append((x, None, d, v))
            for where in range(4):
                for how in ('call', 0, 1):
                    r.append((x, (where, how), d, 'new foo bar'))
            r.append((x, (3, 1), d, 'foo foo foo'))
    r += [('xu', d) for d in ids]
    return r


def tuples(c):
    """Keywords that can be compared with some others only."""
    ops = [('i', 1, ((1, 2),)), ('i', 2, ((2, 'a'), (3,))),
           ('i', 1, ((3,), (2, 'b'))), ('u', 1), ('u', 2), ('c',)]
    bad = [('x', None, d, v) for d in (1, 2) for v in (
        ((1, 'a'), (3,)), ((0,), (2, 5)), ((1, 1), (2, 2)), ((2,), (1, None)),
        ((0,), (1, 'x'), (9,)), ((4,), (5, 'x'), (5, 6)))]
    return dict(c, ops=ops + bad, queries=[
        ((1, 2),), ((3,),), ((2, 'a'),), ((0,),), ((4,),), ((9,),)])


def fieldtuples(c):
    ops = [('i', 1, (1, 2)), ('i', 2, (2, 'a')), ('i', 1, (3,)), ('i', 2, (3,)),
           ('u', 1), ('u', 2), ('c',)]
    bad = [('x', None, d, v) for d in (1, 2, 3) for v in (
        (1, 'a'), (2, 5), 5, 'x')]
    return dict(c, ops=ops + bad, probes=((0,), (3,), None))


def cfgs():
    r = {}

    def add(name, c, least, short=False):
        c['ops'] = [op for op in c['ops'] if op[0] != 'o'] + rejections(
            c['kind'], c['ids'][:2] if 'ids' in c else (1,), c['family'],
            short)
        r[name] = c, least
    f, k, t, x = configs.field, configs.keyword, configs.topic, configs.text
    add('field', f((1, 2), (0, 1)), 15)
    add('field-none', f((0, 1), (None, 0)), 12)
    add('field64', f(configs.M64, (0, 1), 64), 15)
    add('kw', k((1, 2), n=2), 25)
    add('kw-lower', k((1, 2), 'lower', n=2), 25)
    add('kw-split', k((1, 2), 'split', n=2), 20, True)
    add('kw64', k(configs.M64, n=2, family=64), 25)
    add('kw-thr', k((1, 2), n=2, thresholds=(1,)), 20, True)
    add('topic', t(), 15)
    add('topic64', t(configs.M64, family=64), 15)
    small = dict(queries=('foo', 'foo bar', 'new OR foo', '"foo bar"'),
                 terms=('foo', 'new'), phrases=('new foo',), globs=('n*',))
    for rank in ('okapi', 'cosine'):
        add(rank, x(rank, texts=('foo', 'bar foo bar', ''), **small), 25)
        add(rank + '64', x(rank, configs.M64, ('foo', 'foo bar'), 64,
                           **small), 25)
        add(rank + '-html', x(rank, pipe='html', texts=('foo', '<b>bar</b>'),
                              **small), 15, True)
    r['kw-tuples'] = tuples(k((1, 2))), 4
    r['field-tuples'] = fieldtuples(f((1, 2))), 4
    return r


def items(tier):
    deep = tier == 'thorough'
    r = []
    for kind, variants in (
            ('text', ('okapi', 'cosine')), ('field', (None,)),
            ('keyword', ('id', 'lower')), ('topic', (None,))):
        for v in variants:
            for n, fam in ((130, None), (67, 64)):
                r.append(('sweep-%s-%s-%d' % (kind, v, n), 'item_sweep',
                          kind, v, fam, n * (3 if deep else 1)))
    for name, (c, least) in cfgs().items():
        text = c['kind'] == 'text'
        r.append(('bfs-' + name, 'item_bfs', c,
                  (4 if deep else 3) if text else None))
        r.append(('rejected-' + name, 'item_vacuous', c, least))
        for op in c['ops']:
            r.append(('tree-%s-%s' % (name, op), 'item_tree', c,
                      3 + deep - text, (op,),
                      1 + (text or deep)))
    r += near.items(tier, one=near.SOME, two=())
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    engine.run_history(Sys(case['cfg']), [tupled(o) for o in case['ops']],
                       ctx)


def tupled(op):
    return tuple(op)


BOUNDS = {
    'quick': '18 configurations of all index types: in every reachable state '
             '(text: depth 3) every rejected operation (unusable ids, values, '
             'keywords, texts; every pipeline position and normalizer failing '
             'at once or after 0-1 words) and every valid one afterwards; all '
             'sequences to depth 3 with one rejection (text: 2 with two); rejections '
             'while an index grows to 130 documents and shrinks',
    'thorough': 'depth 4; 390 documents',
}
