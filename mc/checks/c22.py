"""C22 Committed state survives, aborted or rolled back state vanishes."""
import copy
import itertools

import transaction

from mc import configs
from mc import engine
from mc import near
from mc import zodbeng
from mc.core import Violation, show

CONTROL = (('commit',), ('abort',), ('sp',), ('rb',), ('min',))
MORE = CONTROL + (('vote',), ('reopen',), ('rb0',))


class St:
    pass


class Sys(engine.System):
    """cfg: a kind's cfg, its operations, init, control.

    st.m, st.com: models of the live and of the committed state;
    st.saved: savepoints with their models.
    """
    name = 'zodb'

    def __init__(self, cfg):
        engine.System.__init__(self, cfg)
        self.k = zodbeng.Kinded(cfg)

    def start(self):
        st = St()
        storage, st.m = zodbeng.base(self.k, self.cfg.get('init', ()))
        st.com = copy.deepcopy(st.m)
        st.storage, st.db = zodbeng.database(storage)
        st.tm = transaction.TransactionManager()
        st.conn = st.db.open(st.tm)
        st.x = st.conn.root()['x']
        st.saved = []
        return st

    def ops(self, st):
        return [op for op in list(self.cfg['ops']) + list(
            self.cfg.get('control', CONTROL))]

    def step(self, st, op):
        o = op[0]
        if o == 'commit':
            st.tm.commit()
            st.com = copy.deepcopy(st.m)
            st.saved = []
        elif o == 'abort':
            st.tm.abort()
            st.m = copy.deepcopy(st.com)
            st.saved = []
        elif o == 'sp':
            st.saved.append((st.tm.savepoint(), copy.deepcopy(st.m)))
        elif o in ('rb', 'rb0'):
            if st.saved:
                if o == 'rb0':
                    del st.saved[1:]
                sp, m = st.saved[-1]
                sp.rollback()
                st.m = copy.deepcopy(m)
        elif o == 'min':
            st.conn.cacheMinimize()
        elif o == 'vote':
            st.tm.get().join(zodbeng.Failing())
            try:
                st.tm.commit()
            except zodbeng.Abort:
                pass
            st.tm.abort()
            st.m = copy.deepcopy(st.com)
            st.saved = []
        elif o == 'reopen':
            self.step(st, ('abort',))
            st.conn.close()
            st.db.pool.clear() if hasattr(st.db.pool, 'clear') else None
            st.conn = st.db.open(st.tm)
            st.conn.cacheMinimize()
            st.x = st.conn.root()['x']
        elif o == 'fail':
            # the k-th load of the operation or query fails
            _, k, error, sub = op
            st.hit = 0
            if sub != 'ask' and not self.k.enabled(st.m, sub):
                return
            st.conn.cacheMinimize()
            st.storage.arm(k, error)
            try:
                if sub == 'ask':
                    self.k.answers(st.x, st.m)
                else:
                    self.k.do(st.x, sub)
            except Exception:
                if not st.storage.hits:
                    raise
            st.hit = st.storage.disarm()
            self.step(st, ('abort',))
        elif self.k.enabled(st.m, op):
            self.k.do(st.x, op)
            self.k.do_model(st.m, op)

    def check(self, st):
        self.k.compare(st.x, st.m, 'live object')
        self.fresh(st)

    def fresh(self, st):
        tm = transaction.TransactionManager()
        conn = st.db.open(tm)
        conn.cacheMinimize()
        try:
            self.k.compare(conn.root()['x'], st.com, 'fresh connection')
        finally:
            tm.abort()
            conn.close()


def quiet(s, ctx, ops):
    """A history in which only the final state is looked at."""
    engine.run_history(s, ops, ctx, battery=False)


def item_tree(ctx, c, depth, prefix):
    """Every history up to *depth*; each prefix is a history of its own, so
    that looking at a state does not load what the next step has to load."""
    s = Sys(c)
    ops = s.ops(None)
    for n in range(0, depth - len(prefix) + 1):
        for tail in itertools.product(ops, repeat=n):
            h = tuple(prefix) + tail
            if useless(h):
                continue
            st = engine.run_history(s, h, ctx, battery=False)
            engine.guard(s, h, s.check, st)
            ctx.state((repr(c), h))
            ctx.query(2)
            if n == depth - len(prefix):
                ctx.sample({'history': show(h)})


def useless(h):
    """The same as a shorter history, by the definition of the steps here."""
    for a, b in zip(h, h[1:]):
        if a == b and a[0] in ('min', 'commit', 'abort', 'reopen', 'rb'):
            return True
    if ('rb',) in h or ('rb0',) in h:
        i = min(h.index(o) for o in (('rb',), ('rb0',)) if o in h)
        if ('sp',) not in h[:i]:
            return True
    return False


def item_live(ctx, c, depth, prefix):
    """The same with the live object asked after every step."""
    engine.tree(Sys(c), ctx, depth, prefix)


def item_faults(ctx, c, depth, part, parts):
    """Every load of every operation, in every state, fails once."""
    s = Sys(c)
    subs = list(c['ops']) + ['ask']
    hists = [h for n in range(depth + 1)
             for h in itertools.product(c['ops'], repeat=n)]
    for i, h in enumerate(hists):
        if i % parts != part:
            continue
        for last in (('commit',), None):
            if last is None and not h:
                continue
            pre = h + (last,) if last else h
            for sub in subs:
                for error in ('key', 'storage'):
                    k = 0
                    while True:
                        f = ('fail', k, error, sub)
                        hist = pre + (f,)
                        st = engine.run_history(s, hist, ctx, battery=False)
                        if not st.hit:
                            break
                        engine.guard(s, hist, s.check, st)
                        if sub != 'ask' and error == 'key':
                            hist += (sub, ('commit',))
                            for op in hist[-2:]:
                                engine.guard(s, hist, s.step, st, op)
                            engine.guard(s, hist, s.check, st)
                        ctx.state((repr(c), hist))
                        ctx.add('faults')
                        k += 1
                        if k > 200:
                            raise Violation('no end of loads')


def item_sweep(ctx, kind, variant, family, n, how):
    """Every operation in a transaction of its own (how: 'commit'), first
    aborted or rolled back (how: 'abort', 'rb'), or after an eviction."""
    c = configs.sweep_cfg(kind, variant, family)
    if kind == 'text':
        few(c)
    s = Sys(c)
    st = s.start()
    done = []

    def do(op):
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
    for i, op in enumerate(configs.sweep(kind, n)):
        if op is None:
            do(('commit',))
            engine.guard(s, done, s.check, st)
            ctx.state((kind, variant, n, how, len(done)))
            continue
        if how == 'abort':
            do(op)
            do(('abort',))
        elif how == 'rb':
            do(('sp',))
            do(op)
            do(('rb',))
        elif how == 'fail':
            do(('commit',))
            do(('fail', i % 5, 'key', op))
        elif how == 'min':
            do(('min',))
        do(op)
        if how == 'rb':
            if i % 5 == 4:
                do(('commit',))
        else:
            do(('commit',))
    ctx.trace()


def item_near(ctx, kind, v, family, sizes, depth):
    """Every operation around a size, then committed, looked at anew; then
    another one on what has been loaded from the storage."""
    for n in sizes:
        c = near.cfg(kind, n, v, family, near.start(n))
        s = Sys(c)
        for op in c['ops']:
            for h in ((op, ('commit',)), (('sp',), op, ('rb',), ('commit',)),
                      (op, ('sp',), ('commit',), ('reopen',))):
                st = engine.run_history(s, h, ctx, battery=False)
                engine.guard(s, h, s.check, st)
                ctx.state((repr(c), h))
            if depth < 2:
                continue
            for op2 in c['ops']:
                for h in ((op, ('commit',), op2, ('commit',)),
                          (op, ('commit',), ('min',), op2, ('commit',)),
                          (op, op2, ('commit',))):
                    st = engine.run_history(s, h, ctx, battery=False)
                    engine.guard(s, h, s.check, st)
                    ctx.state((repr(c), h))


EDGES = (8, 9, 10, 11, 12, 16, 17, 29, 30, 31, 60, 61, 63, 64, 65, 119, 120,
         121, 128, 129)


def few(c):
    """Fewer questions."""
    c.update(queries=('foo', 'foo bar', '"foo bar"', 'fo* NOT bar'),
             terms=('foo',), phrases=(), globs=('b*',), weights=())
    return c


def cfgs():
    """(name -> (cfg, depth of the tree, of live histories, of faults))."""
    r = {}
    f, k, t, x = configs.field, configs.keyword, configs.topic, configs.text

    def cut(c, ops, init=(), control=CONTROL, **kw):
        return dict(c, ops=list(ops), init=tuple(init), control=control, **kw)
    c = f((1, 2), (0, 1))
    r['field'] = cut(c, c['ops']), 4, 3, 2
    r['field-init'] = cut(c, [('i', 1, 1), ('i', 2, 0), ('u', 1), ('c',)],
                          [('i', 1, 0), ('i', 2, 0)], MORE), 4, 3, 2
    c = k((1, 2), n=2)
    r['kw'] = cut(c, [('i', 1, ('a',)), ('i', 2, ('a', 'b')), ('i', 1, ()),
                      ('u', 2), ('c',)]), 4, 3, 2
    r['kw-thr'] = cut(
        c, [('i', 2, ('a', 'b')), ('u', 1), ('t', 1), ('t', 64), ('o',)],
        [('i', 1, ('a', 'b')), ('i', 3, ('a',))], MORE), 4, 3, 2
    r['kw-lower'] = cut(
        k((1, 2), 'lower', 2), [('i', 1, ('A',)), ('i', 2, ('a', 'A')),
                                ('u', 1), ('c',)]), 4, 3, 2
    c = t()
    r['topic'] = cut(c, [('i', 1, 1), ('i', 1, 0), ('i', 2, 3), ('u', 1),
                         ('cf',), ('c',)]), 4, 3, 2
    r['topic-filters'] = cut(
        c, [('add', 'f', 'odd'), ('del', 'g'), ('se', 'f', 'true'),
            ('fc', 'f'), ('i', 2, 2), ('cf',)],
        [('i', 1, 1), ('i', 2, 3)], MORE), 4, 3, 2
    for rank in ('okapi', 'cosine'):
        c = few(x(rank))
        r[rank] = cut(c, [('i', 1, 'foo'), ('i', 2, 'foo bar'),
                          ('i', 1, 'bar foo bar'), ('u', 1), ('c',)]), 4, 2, 2
        r[rank + '-init'] = cut(
            c, [('i', 2, 'foo new'), ('i', 1, 'new'), ('u', 1),
                ('src', 'some words')],
            [('i', 1, 'foo bar'), ('i', 3, 'foo')], MORE), 4, 2, 2
        r[rank + '-cut'] = cut(
            c, [('i', 2, 'foo bar'), ('i', 30, 'foo'), ('u', 31), ('u', 30)],
            [('i', 30 + i, 'foo') for i in range(1, 10)]), 4, 2, 1
    c = few(x(ctor='default'))
    r['default'] = cut(c, [('i', 1, 'foo'), ('i', 2, 'foo bar'),
                           ('u', 1), ('c',)]), 3, 2, 1
    c = few(x('cosine', ctor='index'))
    r['cosine-index'] = cut(c, [('i', 1, 'foo'), ('i', 2, 'foo bar'),
                                ('u', 1), ('c',)]), 3, 2, 1
    c = few(x())
    c['kind'], c['ranks'] = 'pair', ('okapi', 'cosine')
    r['shared'] = cut(c, [(0, ('i', 1, 'foo')), (1, ('i', 1, 'foo bar')),
                          (0, ('u', 1)), (1, ('i', 2, 'foo')),
                          (0, ('c',))]), 4, 2, 1
    # around the sizes where the internal structures change
    c = k((1, 2), n=2)
    r['kw-64'] = cut(c, [('i', 200, ('a',)), ('u', 100), ('i', 101, ('b',)),
                         ('o',), ('t', 3)],
                     [('i', 100 + i, ('a', 'b')) for i in range(63)]), 3, 2, 1
    c = f((1, 2), (0, 1))
    r['field-120'] = cut(
        c, [('i', 300, 0), ('u', 100), ('i', 101, 1), ('i', 301, 7)],
        [('i', 100 + i, i % 2) for i in range(120)]), 3, 2, 1
    r['field-31'] = cut(
        c, [('i', 300, 31), ('u', 100), ('i', 101, 1), ('i', 301, 15.5)],
        [('i', 100 + i, i) for i in range(31)]), 3, 2, 1
    return r


def items(tier):
    deep = tier == 'thorough'
    r = []
    for kind, variants in (
            ('text', ('okapi', 'cosine')), ('field', (None,)),
            ('keyword', ('id', 'lower')), ('topic', (None,))):
        for v in variants:
            for how in ('min', 'abort', 'rb', 'fail'):
                for n, fam in ((130, None), (70, 64)):
                    r.append(('sweep-%s-%s-%s-%d' % (kind, v, how, n),
                              'item_sweep', kind, v, fam,
                              n * (2 if deep else 1), how))
    cs = cfgs()
    for name in ('field', 'kw', 'topic', 'okapi', 'cosine'):
        c, depth, live, faults = cs[name]
        cs[name + '-zero'] = configs.renumber(c, 'zero'), 3, 2, 1
    for name, (c, depth, live, faults) in cs.items():
        ops = Sys(c).ops(None)
        parts = 8
        for p in range(parts):
            r.append(('faults-%s-%d' % (name, p), 'item_faults', c,
                      faults + (1 if deep and faults == 2 else 0), p, parts))
        r.append(('tree-' + name, 'item_tree', c, 1, ()))
        for a in ops:
            r.append(('live-%s-%s' % (name, a), 'item_live', c,
                      live + deep, (a,)))
            for b in ops:
                if depth > 1:
                    r.append(('tree-%s-%s-%s' % (name, a, b), 'item_tree', c,
                              depth + deep, (a, b)))
    r += near.items(tier, one=EDGES, two=(2, 10))
    return r


def run_case(case, ctx):
    s = Sys(case['cfg'])
    st = engine.run_history(s, case['ops'], ctx, battery=False)
    engine.guard(s, case['ops'], s.check, st)
    engine.run_history(s, case['ops'], ctx)


BOUNDS = {
    'quick': '19 configurations of all index types (two sharing a lexicon): '
             'all sequences to depth 4 of operations, commit, abort, '
             'savepoint, rollback, eviction, failing vote, reopening, looked '
             'at in the end, depth 2-3 after every step; every load of every '
             'operation in every state (depth 1-2) failing with two errors; '
             'histories growing to 130 documents with every operation '
             'committed, aborted, rolled back or failed first',
    'thorough': 'one level deeper',
}
