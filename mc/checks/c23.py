"""C23 Concurrent transactions are serializable or conflict."""
import copy
import itertools

import transaction
from ZODB.POSException import ConflictError

from mc import configs
from mc import zodbeng
from mc.checks import c22
from mc.core import HarnessError, Violation, diff_answers, show


# ------------------------------------------------------------ net changes

def contents(cfg, m):
    """The components of a model, each a dict."""
    kind = cfg['kind']
    if kind == 'pair':
        return [dict(t.docs) for t in m['m']]
    if kind == 'text':
        return [dict(m['m'].docs)]
    return [dict(m['m'])]


def net(k, start, ops):
    """Net changes of a transaction: per component (cleared, changes), the
    words it adds, and per topic filter what happens to it."""
    m = copy.deepcopy(start)
    cleared = [False] * 2
    filters = {}
    for op in ops:
        if op == 'sp' or not k.enabled(m, op):
            continue
        if k.cfg['kind'] == 'topic':
            if op[0] == 'c':
                for f in m['m']:
                    filters[f] = 'gone'
                cleared[0] = True
            elif op[0] == 'add':
                filters[op[1]] = 'new'
            elif op[0] == 'del':
                filters[op[1]] = 'gone'
            elif op[0] in ('fc', 'cf'):
                for f in m['m'] if op[0] == 'cf' else [op[1]]:
                    if filters.get(f) != 'new':
                        filters[f] = 'emptied'
        else:
            i, o = op if k.cfg['kind'] == 'pair' else (0, op)
            if o[0] == 'c':
                cleared[i] = True
        k.do_model(m, op)
    if k.cfg['kind'] == 'topic':
        return topic_net(start['m'], m['m'], filters, cleared[0])
    r = []
    for i, (a, b) in enumerate(zip(contents(k.cfg, start),
                                   contents(k.cfg, m))):
        if cleared[i]:
            a = {}
        r.append((cleared[i],
                  {d: b.get(d) for d in set(a) | set(b)
                   if a.get(d, 'absent') != b.get(d, 'absent')
                   or (d in a) != (d in b)},
                  set(b)))
    return r, m['vocab']


def topic_net(a, b, filters, cleared):
    """{filter: (how, expression or None, added, removed)}"""
    r = {}
    for f in set(a) | set(b):
        how = filters.get(f, 'changed')
        if f not in b:
            r[f] = ('gone', None, set(), set())
        elif how in ('new', 'gone') or f not in a:
            r[f] = ('new', b[f][0], set(b[f][1]), set())
        else:
            expr = b[f][0] if b[f][0] != a[f][0] else None
            old = set() if how == 'emptied' else a[f][1]
            r[f] = (how, expr, b[f][1] - old, old - b[f][1])
    return r, cleared


def apply_net(k, m, n):
    """The model after another transaction's net changes."""
    m = copy.deepcopy(m)
    if k.cfg['kind'] == 'topic':
        changes, cleared = n
        t = m['m']
        if cleared:
            for f in list(t):
                if f not in changes:
                    del t[f]
        for f, (how, expr, add, rem) in changes.items():
            if how == 'gone':
                t.pop(f, None)
            elif how == 'new':
                t[f] = [expr, set(add)]
            elif f in t:
                if expr is not None:
                    t[f][0] = expr
                if how == 'emptied':
                    t[f][1].clear()
                t[f][1].difference_update(rem)
                t[f][1].update(add)
        return m
    comps, vocab = n
    kind = k.cfg['kind']
    for i, (cleared, changes, present) in enumerate(comps):
        if kind == 'pair':
            docs = m['m'][i].docs
        elif kind == 'text':
            docs = m['m'].docs
        else:
            docs = m['m']
        if cleared:
            docs.clear()
        for d, v in changes.items():
            if d in present:
                docs[d] = v
            else:
                docs.pop(d, None)
    m['vocab'] |= vocab
    return m


# ------------------------------------------------------------------- runs

class Txn:
    def __init__(self, db, ops, warm, k, m):
        self.tm = transaction.TransactionManager()
        self.conn = db.open(self.tm)
        self.x = self.conn.root()['x']
        if warm:
            k.answers(self.x, m)
        else:
            self.conn.cacheMinimize()
        self.ops = ops
        self.todo = list(ops) + ['commit']
        self.m = copy.deepcopy(m)
        self.done = None        # True committed, False conflict

    def step(self, k):
        op = self.todo.pop(0)
        if self.done is False:
            return
        try:
            if op == 'commit':
                self.tm.commit()
                self.done = True
            elif op == 'sp':
                self.tm.savepoint()
            elif k.enabled(self.m, op):
                k.do(self.x, op)
                k.do_model(self.m, op)
        except ConflictError:
            self.tm.abort()
            self.done = False


def run(ctx, k, init, txns, schedule, warm):
    """txns: lists of operations; schedule: who makes the next step."""
    case = dict(cfg=k.cfg, init=init, txns=[list(t) for t in txns],
                schedule=list(schedule), warm=warm)

    def fail(msg, *args):
        raise Violation('%s from %s, transactions %s, schedule %s: %s' % (
            k.cfg['kind'], show(init, 80), show(txns), schedule,
            msg % tuple(map(show, args))), case)
    try:
        return run1(ctx, k, init, txns, schedule, warm, fail)
    except (Violation, HarnessError, MemoryError) as v:
        if getattr(v, 'case', 0) is None:
            fail('%s', v.msg)
        raise
    except Exception as e:
        fail('unexpected %s', e)


def run1(ctx, k, init, txns, schedule, warm, fail):
    storage, m0 = zodbeng.base(k, init)
    st, db = zodbeng.database(storage)
    ts = [Txn(db, ops, warm, k, m0) for ops in txns]
    for i in schedule:
        ts[i].step(k)
        ctx.trans()
    committed = [t for t in ts if t.done]
    if not committed:
        fail('all transactions conflict')
    ctx.outcome((len(ts), len(committed)))
    ctx.add('conflicts', len(ts) - len(committed))

    checker = transaction.TransactionManager()
    conn = db.open(checker)
    conn.cacheMinimize()
    x = conn.root()['x']
    nets = {id(t): net(k, m0, t.ops) for t in committed}
    models = []
    for perm in itertools.permutations(committed):
        m = m0
        for t in perm:
            m = apply_net(k, m, nets[id(t)])
        models.append(m)
    m = find(ctx, k, x, models, fail, [t.ops for t in committed])

    # nobody sees anything else, conflicting ones left nothing
    for t in ts:
        t.tm.begin()
        d = diff_answers(k.answers(t.x, m), k.expected(m))
        if d:
            fail('connection of %s: %s gives %s, expected %s', t.ops, *d)
    # those who conflicted try again, one after the other
    for t in ts:
        if t.done:
            continue
        t.tm.begin()
        m = copy.deepcopy(m)
        for op in t.ops:
            if op != 'sp' and k.enabled(m, op):
                k.do(t.x, op)
                k.do_model(m, op)
        t.tm.commit()
        checker.begin()
        d = diff_answers(k.answers(x, m), k.expected(m))
        if d:
            fail('after trying %s again, %s gives %s, expected %s', t.ops, *d)
    checker.abort()
    conn.close()
    for t in ts:
        t.tm.abort()
        t.conn.close()
    ctx.trace()


def differs(k, x, m):
    """The first difference; a candidate may hold documents x has not."""
    try:
        return diff_answers(k.answers(x, m), k.expected(m))
    except Exception as e:
        return 'any query', repr(e), 'no error'


def find(ctx, k, x, models, fail, txns):
    """The model that explains the index."""
    if k.cfg['kind'] == 'topic':
        return find_topic(ctx, k, x, models, fail, txns)
    if k.cfg['kind'] == 'pair':
        m = copy.deepcopy(models[0])
        for i in range(len(m['m'])):
            first = None
            for c in models:
                d = differs(k.kind.kinds[i], x[i], c['m'][i])
                if not d:
                    m['m'][i] = c['m'][i]
                    break
                first = first or d
            else:
                fail('index %s: %s gives %s, no order of the transactions '
                     'gives that, one gives %s', i, *first)
        k.compare(x, m, 'indexes together')
        return m
    first = None
    for m in models:
        d = differs(k, x, m)
        if not d:
            return m
        first = first or d
    fail('%s gives %s, no order of the transactions gives that, one gives %s',
         *first)


def find_topic(ctx, k, x, models, fail, txns):
    actual = {f: [expr_name(x._filters[f].getExpression()),
                  set(x._filters[f].getIds())] for f in x._filters}
    joint = any(c['m'] == actual for c in models)
    for f in set(actual) | {f for c in models for f in c['m']}:
        if not any(c['m'].get(f) == actual.get(f) for c in models):
            fail('filter %s is %s, the orders give %s', f, actual.get(f),
                 [c['m'].get(f) for c in models])
    m = dict(models[0], m=actual)
    k.compare(x, m, 'filters together')
    if any(op[0] in ('fc', 'cf', 'c', 'add', 'del', 'se')
           for t in txns for op in t):
        return m        # each filter by itself
    docs = [{op[1] for op in t if op[0] in 'iu'} for t in txns]
    same = any(a & b for a, b in itertools.combinations(docs, 2))
    if same:
        # two transactions indexed the same document: it has to be in the
        # filters as one of the orders of the *operations* leaves it
        joint = False
        for perm in itertools.permutations(txns):
            s = copy.deepcopy(find_topic.start)
            for t in perm:
                for op in t:
                    if op != 'sp':
                        k.do_model(s, op)
            joint = joint or s['m'] == actual
    if not joint:
        if not same:
            fail('the filters are %s, the orders give %s', actual,
                 [c['m'] for c in models])
        ctx.finding('topic-same-document', 'topic index, transactions %s '
                    'both commit, filters %s' % (show(txns), show(actual)))
    return m


def expr_name(e):
    from mc.kinds import EXPRS
    return next(n for n in EXPRS if EXPRS[n] == e)


# ------------------------------------------------------------------ items

def interleavings(ns):
    """All schedules of processes with so many steps."""
    if not any(ns):
        yield ()
        return
    for i, n in enumerate(ns):
        if n:
            rest = ns[:i] + (n - 1,) + ns[i + 1:]
            for s in interleavings(rest):
                yield (i,) + s


def commit_orders(ns):
    """All operations first, or one transaction after the other."""
    for perm in itertools.permutations(range(len(ns))):
        pre = tuple(i for i in perm for _ in range(ns[i] - 1))
        yield pre + perm
        yield tuple(i for i in perm for _ in range(ns[i]))


def schedules(ns, full):
    if full:
        return list(interleavings(ns))
    return sorted(set(commit_orders(ns)))


def item_sets(ctx, c, init, txns, size, full, warms, part, parts):
    """Every set of *size* of the transactions, in every schedule."""
    k = zodbeng.Kinded(c)
    _, start = zodbeng.base(k, init)
    n = 0
    for ts in itertools.combinations_with_replacement(txns, size):
        n += 1
        if n % parts != part:
            continue
        find_topic.start = start
        for s in schedules(tuple(len(t) + 1 for t in ts), full):
            for warm in warms:
                run(ctx, k, init, ts, s, warm)
                ctx.state((repr(c), repr(init), ts, s, warm))
        ctx.sample({'transactions': show(ts)})


def configs23():
    """name -> (cfg, base history, operations, double operations)."""
    r = {}
    f, kw, t, x = configs.field, configs.keyword, configs.topic, configs.text
    c = f((1, 2, 3), (0, 1))
    i = 'i'
    ops = [(i, 1, 0), (i, 1, 1), (i, 2, 0), (i, 3, 1), ('u', 1), ('u', 2),
           ('c',)]
    r['field-empty'] = c, (), ops
    r['field'] = c, ((i, 1, 0), (i, 2, 0)), ops
    r['field-none'] = f((1, 2), (None, 0)), ((i, 1, None),), [
        (i, 2, None), (i, 1, 0), ('u', 1), (i, 2, 0), ('u', 2)]
    many = tuple((i, 100 + n, n % 2) for n in range(119))
    r['field-120'] = c, many, [
        (i, 300, 0), (i, 301, 1), (i, 302, 0), ('u', 100), ('u', 102),
        (i, 104, 1), (i, 101, 0), ('c',)]
    # the buckets of the values split at 30, the emptied ones vanish
    many = tuple((i, 100 + n, n) for n in range(30))
    r['field-30'] = c, many, [
        (i, 300, 14.5), (i, 301, 30), (i, 302, 0), ('u', 100), ('u', 115),
        ('u', 129), (i, 104, 1)]
    few = tuple(('u', 100 + n) for n in range(1, 14))
    r['field-bucket'] = c, many + ((i, 200, 50),) + few, [
        (i, 300, 1), (i, 301, 0), ('u', 100), ('u', 114), (i, 114, 0)]
    c = kw((1, 2, 3), n=2)
    ops = [(i, 1, ('a',)), (i, 1, ('b',)), (i, 2, ('a', 'b')), (i, 2, ()),
           (i, 3, ('a',)), ('u', 1), ('o',), ('c',)]
    r['kw-empty'] = c, (), ops
    r['kw'] = c, ((i, 1, ('a',)), (i, 2, ('b',))), ops
    many = tuple((i, 100 + n, ('a',) if n % 3 else ('a', 'b'))
                 for n in range(63))
    ops = [(i, 1, ('a',)), (i, 2, ('a', 'b')), ('u', 100), ('u', 101),
           (i, 101, ('b',)), ('o',), ('t', 3), ('t', 99), ('c',)]
    r['kw-63'] = c, many, ops
    r['kw-64'] = c, many + ((i, 163, ('a',)),), ops
    r['kw-thr'] = c, ((i, 1, ('a',)), (i, 2, ('a', 'b')), ('t', 2)), [
        ('o',), (i, 3, ('a',)), ('u', 1), ('u', 2), (i, 1, ('a', 'b')),
        ('t', 1)]
    r['kw-lower'] = kw((1, 2, 3), 'lower', 2), ((i, 1, ('A',)),), [
        (i, 2, ('a',)), (i, 3, ('A',)), ('u', 1), (i, 1, ('a', 'A'))]
    c = t((1, 2, 3))
    r['topic-empty'] = c, (), [
        (i, 1, 1), (i, 2, 3), (i, 2, 0), ('u', 3), ('cf',),
        ('add', 'f', 'big'), ('se', 'g', 'true')]
    r['topic'] = c, ((i, 1, 1), (i, 2, 3)), [
        (i, 2, 1), (i, 1, 0), (i, 3, 3), ('u', 1), ('u', 2), ('fc', 'f'),
        ('cf',), ('del', 'g'), ('se', 'f', 'big'), ('c',)]
    r['topic-same'] = t((1,)), (), [(i, 1, 1), (i, 1, 2), (i, 1, 3)]
    for rank in ('okapi', 'cosine'):
        c = c22.few(x(rank, (1, 2, 3)))
        ops = [(i, 1, 'foo'), (i, 1, 'bar foo bar'), (i, 2, 'foo bar'),
               (i, 2, ''), (i, 3, 'foo foo'), ('u', 1), ('c',),
               ('src', 'new'), (i, 3, 'new words')]
        r[rank + '-empty'] = c, (), ops
        r[rank] = c, ((i, 1, 'foo'), (i, 2, 'bar baz'),
                      ('src', 'foo bar baz')), ops
        r[rank + '-known'] = c, (('src', 'foo bar baz qux'),
                                 (i, 4, 'qux')), [
            (i, 1, 'foo'), (i, 2, 'bar'), (i, 3, 'baz baz'), (i, 1, 'bar'),
            ('u', 4), (i, 5, 'qux foo')]
        for n in (9, 10, 11):
            r['%s-%d' % (rank, n)] = c, tuple(
                (i, 50 + j, 'foo bar' if j % 2 else 'foo')
                for j in range(n)), [
                (i, 1, 'foo'), (i, 2, 'bar foo'), ('u', 50), ('u', 51),
                (i, 50, 'bar'), (i, 51, 'foo')]
        words = ' '.join('w%d' % n for n in range(62))
        r[rank + '-words'] = c, ((i, 50, words), (i, 51, 'foo')), [
            ('u', 50), (i, 1, 'w3 w61'), (i, 51, 'w3'), (i, 2, 'w60')]
    c = c22.few(x())
    c['kind'], c['ranks'] = 'pair', ('okapi', 'cosine')
    r['shared'] = c, ((0, (i, 1, 'foo')), (1, (i, 1, 'foo bar'))), [
        (0, (i, 2, 'foo bar')), (1, (i, 2, 'bar')), (0, ('u', 1)),
        (1, ('c',)), (0, (i, 3, 'new')), (1, (i, 3, 'new word')),
        (1, ('src', 'word'))]
    c = f(configs.M64 + (0,), (0, 1), 64)
    lo, hi = configs.M64
    r['field64'] = c, ((i, lo, 0),), [
        (i, hi, 0), ('u', lo), (i, lo, 1), (i, 0, 0)]
    return r


def doubles(ops):
    """Transactions of two operations."""
    return [(a, b) for a in ops for b in ops if a != b]


def items(tier):
    deep = tier == 'thorough'
    r = []
    cs = configs23()
    for name in ('field', 'kw', 'topic', 'okapi', 'cosine'):
        c, init, ops = cs[name]
        cs[name + '-zero'] = (
            configs.renumber(c, 'zero'),
            tuple(configs.renumber_op(op, 'zero') for op in init),
            [configs.renumber_op(op, 'zero') for op in ops])
    for name, (c, init, ops) in cs.items():
        ones = [(op,) for op in ops]
        big = len(init) > 20
        both = (False, True)
        r.append(('pairs-' + name, 'item_sets', c, init, ones, 2, True, both,
                  0, 1))
        for p in range(4):
            r.append(('triples-%s-%d' % (name, p), 'item_sets', c, init,
                      ones if deep else ones[:6], 3, deep and not big,
                      (False,), p, 4))
        twos = doubles(ops[:5 if big else 7])
        twos = twos[::1 if deep else 3]
        parts = 16 if deep else 8
        for p in range(parts):
            r.append(('doubles-%s-%d' % (name, p), 'item_sets', c, init,
                      ones + twos, 2, deep, (False,), p, parts))
        if not big:
            sps = [(a, 'sp', b) for a, b in twos[:6]]
            r.append(('savepoints-' + name, 'item_sets', c, init,
                      sps + ones[:4], 2, False, both, 0, 1))
    r.sort(key=lambda i: '-6' not in i[0] and '-120' not in i[0])
    return r


def run_case(case, ctx):
    k = zodbeng.Kinded(case['cfg'])
    _, find_topic.start = zodbeng.base(k, case['init'])
    txns = [tuple(t) for t in case['txns']]
    run(ctx, k, case['init'], txns, case['schedule'], case['warm'])


BOUNDS = {
    'quick': '27 starting states of all index types (also around the sizes '
             'at which internal structures change): every pair of '
             'transactions of one of 4-10 operations in every interleaving '
             'of operations and commits, cold and warm caches; every triple '
             'of <=6 of them and every third pair of transactions of <=2 operations in '
             'every order of commits, all operations before them and one '
             'after the other; savepoints; every conflicting transaction '
             'tried again',
    'thorough': 'every pair of transactions of <=2 operations and every '
                'triple in every interleaving',
}
