"""C19 Document and word counts are always exact."""
from mc import configs
from mc import engine
from mc import near
from mc.core import Violation, show
from mc.kinds import KindSystem, vkey

# what no index accepts as document id
BADIDS = ('a', None, 1.5, (1,), 2**80)


class Sys(KindSystem):
    """Statistics and membership only.

    ('x', docid, content) is an operation that has to be rejected.
    """
    name = 'stat'

    def step(self, st, op):
        if op[0] != 'x':
            KindSystem.step(self, st, op)
            return
        try:
            self.kind.do(st.x, ('i',) + op[1:])
        except (TypeError, ValueError, OverflowError, KeyError):
            return
        raise Violation('%s was not rejected' % show(op))

    def check(self, st):
        x, m = st.x, st.m
        kind = self.cfg['kind']
        got = {'documentCount': x.documentCount(),
               'wordCount': x.wordCount()}
        if kind == 'field':
            want = (len(m), len({vkey(v) for v in m.values()}))
        elif kind == 'keyword':
            want = (len(m), len({w for s in m.values() for w in s}))
            for d in self.cfg['ids']:
                got['has', d] = x.has_doc(d)
        else:
            want = (len(m.docs), len(m.words()))
            got['index.documentCount'] = x.index.documentCount()
            got['index.wordCount'] = x.index.wordCount()
            for d in self.cfg['ids']:
                got['has', d] = bool(x.index.has_doc(d))
        docs = m.docs if kind == 'text' else m
        for q, v in got.items():
            if isinstance(q, tuple):
                ok = v == (q[1] in docs)
            else:
                ok = v == want['word' in q]
            if not ok:
                raise Violation('%s is %s, with the documents %s' % (
                    show(q), show(v), show(docs)))


def item_near(ctx, *args):
    near.explore(ctx, Sys, *args)


def item_bfs(ctx, c, depth):
    engine.bfs(Sys(c), ctx, depth)


def item_tree(ctx, c, depth, prefix):
    engine.tree(Sys(c), ctx, depth, prefix)


def item_sweep(ctx, kind, variant, family, n, start, stride):
    """Checked after every single operation."""
    c = configs.sweep_cfg(kind, variant, family)
    c['ids'] = tuple(start + stride * i for i in (0, 1, 9, 30, n - 1, n))
    s = Sys(c)
    st = s.start()
    done = []
    for op in configs.sweep(kind, n, start, stride):
        if op is None:
            for b in BADIDS[:4]:
                e = ('x', b, done[-1][2] if len(done[-1]) > 2 else ('zz',)
                     if kind == 'keyword' else 'zz')
                if kind == 'field' and e[2] == 'zz':
                    e = ('x', b, 3)
                done.append(e)
                engine.guard(s, done, s.step, st, e)
                engine.guard(s, done, s.check, st)
            continue
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        # words are counted by the model the slow way
        if kind != 'text' or len(done) % 3 == 0 or n < 40:
            engine.guard(s, done, s.check, st)
        ctx.trans()
        ctx.state((kind, variant, family, n, start, stride, len(done)))
    ctx.trace()


def bad(docs, values, ids=BADIDS):
    return [('x', i, v) for i in ids for v in values[:1]]


def cfgs():
    r = {}
    f = configs.field
    r['field'] = f((1, 2, 3), (0, 1))
    r['field-none'] = f((0, -1), (None, 0, 5))
    r['field-str'] = f((1, 2), ('', 'a', 'b'))
    r['field-float'] = f((1, 2), (1, 1.5, True, 0))
    r['field-tuple'] = f((1, 2), ((1, 2), (1,), ()))
    r['field64'] = f(configs.M64, (0, 1, 2), 64)
    k = configs.keyword
    r['kw'] = k((1, 2))
    r['kw-3'] = k((1, 2, 3), n=2)
    r['kw-thr'] = k((1, 2), n=2, thresholds=(1, 2, 64))
    for n in ('lower', 'split', 'drop', 'strip'):
        r['kw-' + n] = k((1, 2), n)
        r['kw-' + n]['bad'] = ('a',)
    r['kw64'] = k(configs.M64, family=64, n=2)
    t = configs.text
    for rank in ('okapi', 'cosine'):
        r[rank] = t(rank)
        r[rank + '-html'] = t(rank, pipe='html', texts=(
            '<b>foo</b>', 'foo bar', '<foo>', ''))
        r[rank + '-3'] = t(rank, (1, 2, 3), ('foo', 'foo bar', 'the'))
        r[rank + '64'] = t(rank, configs.M64, ('foo', 'foo bar', ''), 64)
        r[rank + '-none'] = t(rank, (1, 2), (None, 'foo', ('foo', 'bar baz')))
    r['default'] = t('okapi', ctor='default')
    for c in r.values():
        vs = [op[2] for op in c['ops'] if op[0] == 'i']
        vs = [v for v in vs if v] or vs
        vs = [c.pop('bad')] if 'bad' in c else vs
        ids = BADIDS[:2] if len(c['ops']) > 14 else BADIDS
        c['ops'] = c['ops'] + bad(None, vs, ids)
    return r


def items(tier):
    deep = tier == 'thorough'
    r = []
    for kind, variants in (('text', ('okapi', 'cosine')), ('field', (None,)),
                           ('keyword', ('id', 'lower', 'split'))):
        for v in variants:
            for fam in (None, 64):
                for n, start, stride in (
                        (130, 0, 1), (35, -17, 1), (66, 5, 1000)):
                    n *= 3 if deep else 1
                    r.append(('sweep-%s-%s-%s-%d' % (kind, v, fam, n),
                              'item_sweep', kind, v, fam, n, start, stride))
    for name, c in cfgs().items():
        closed = c['kind'] != 'text'
        r.append(('bfs-' + name, 'item_bfs', c,
                  None if closed else 6 if deep else 4))
        n = len(c['ops'])
        depth = 3 if n > 14 else 4 if n > 10 else 5
        if deep:
            depth += 1
        for op in c['ops']:
            r.append(('tree-%s-%s' % (name, op), 'item_tree', c, depth,
                      (op,)))
    r += near.items(tier, near.NOTOPIC)
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    engine.run_history(Sys(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': 'to closure (text: depth 3) and all sequences to depth 3-4 over '
             '26 configurations of 2-3 documents, including repeated, '
             'absent, empty and rejected operations; histories growing to '
             '130 documents and back, checked after every operation',
    'thorough': 'one level deeper, 390 documents',
}
