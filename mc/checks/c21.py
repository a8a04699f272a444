"""C21 Queries are read-only and their results are independent."""
import copy

import BTrees

from mc import canon
from mc import configs
from mc import engine
from mc import near
from mc import textref
from mc.checks import c06
from mc.core import HarnessError, Violation, show
from mc.kinds import FAMILY, KindSystem, form

RANGES = ((None, None), (0, 1), (1, None), (None, 0), (9, 9))
PARSES = ('foo', 'foo AND the', 'foo NOT bar OR "x y"', 'fo* -"a b"', '(')


class Held:
    """A result as it was."""

    def __init__(self, what, r):
        self.what, self.r = what, r
        self.was = frozen(r)


def frozen(r):
    if hasattr(r, 'items'):
        return {k: v for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return list(r)
    if hasattr(r, 'keys'):
        return list(r.keys())
    if type(r).__name__.endswith('Items'):
        return list(r)
    return r


def argform(a):
    """What a query argument looks like, order and type included."""
    if isinstance(a, dict):
        return ('dict', [(k, argform(v)) for k, v in a.items()])
    if isinstance(a, (list, tuple, set)) or hasattr(a, 'keys'):
        return (type(a).__name__, [argform(x) for x in a])
    return repr(a)


def spoil(r):
    """The caller changes the result."""
    if isinstance(r, list):
        r[:] = [54321]
    elif hasattr(r, 'items'):
        for k in list(r):
            r[k] = 0.125
        for k in list(r)[1:]:
            del r[k]
        r[54321] = 7.0
    elif hasattr(r, 'insert'):
        for k in list(r)[1:]:
            r.remove(k)
        r.insert(54321)


def calls(kind, x, cfg):
    """(name, method, arguments): everything a query can be."""
    IF = FAMILY[cfg.get('family') or 32].IF
    ids = [d for d in cfg.get('ids', (1, 2))]
    r = []

    def add(name, *args, **kw):
        r.append((name, args, kw))
    if kind == 'field':
        for q in cfg.get('ranges', RANGES):
            add('apply', q)
        if 'bulk' in cfg:
            ids = ids + list(range(*cfg['bulk']))
        for a in (list(ids), tuple(ids), IF.Set(ids), IF.TreeSet(ids),
                  IF.BTree({d: 1.0 for d in ids}), set(ids)):
            for rev in (False, True):
                for lim in (None, 1, 3):
                    add('sort', a, reverse=rev, limit=lim)
        add('documentCount')
        add('wordCount')
    elif kind == 'keyword':
        for q in cfg['queries']:
            for how in ('list', 'tuple', 'OOSet', 'set'):
                for op in ('and', 'or'):
                    add('search', form(q, how), op)
                    add('apply', {'query': form(q, how), 'operator': op})
            add('search', list(q))
            add('apply', {'query': list(q)})
            add('apply', list(q))
        for w in {w for q in cfg['queries'] for w in q if isinstance(w, str)}:
            add('search', w)
            add('search', w, 'or')
            add('apply', w)
            add('apply', {'operator': 'or', 'query': w})
        for d in ids:
            add('has_doc', d)
        add('documentCount')
        add('wordCount')
    elif kind == 'topic':
        names = [f for f, _ in cfg['filters']]
        qs = [[], names, names[:1], names[1:], names + ['gone'],
              names[:1] + ['gone'], names[::-1]]
        for q in qs:
            for how in ('list', 'tuple'):
                for op in ('and', 'or'):
                    add('search', form(q, how), op)
                    add('apply', {'query': form(q, how), 'operator': op})
            add('search', list(q))
            add('apply', list(q))
            add('apply', {'query': tuple(q)})
        for f in names + ['gone']:
            add('search', f)
            add('apply', f)
            add('search', f, 'or')
            add('apply', {'query': f})
            add('apply', {'query': f, 'operator': 'or'})
    else:
        for q in cfg['queries']:
            add('apply', q)
            add('tree', q)
        for q in cfg['terms']:
            add('index.search', q)
            add('lexicon.termToWordIds', q)
            add('lexicon.termToWordIds', [q])
            add('lexicon.parseTerms', q)
            add('lexicon.parseTerms', [q, 'unseen'])
            add('lexicon.get_wid', q)
            add('lexicon.isGlob', q)
        for q in cfg['phrases']:
            add('index.search_phrase', q)
        for q in cfg['globs']:
            add('index.search_glob', q)
            add('lexicon.globToWordIds', q)
            add('lexicon.isGlob', q)
        for q in cfg['weights']:
            add('index.query_weight', list(q))
        for d in ids:
            add('index.has_doc', d)
            if x.index.has_doc(d):
                add('index.get_words', d)
        for w in x.lexicon.wids():
            add('lexicon.get_word', w)
        for n in ('documentCount', 'wordCount', 'index.documentCount',
                  'index.wordCount', 'lexicon.wordCount', 'lexicon.words',
                  'lexicon.wids', 'lexicon.items'):
            add(n)
        for q in PARSES:
            add('parse', q)
    return r


def call(x, name, args, kw):
    from zope.index.text.parsetree import ParseError
    from zope.index.text.queryparser import QueryParser
    if name == 'parse':
        p = QueryParser(x.lexicon)
        try:
            tree, ignored = p.parseQueryEx(*args)
        except ParseError:
            return None
        r = [textref.tree_tuple(tree), list(ignored)]
        p.parseQueryEx('the other the "words here" OR an')
        if [textref.tree_tuple(tree), list(ignored)] != r:
            raise Violation('the next query changes what parsing %r gave'
                            % args)
        return r
    if name == 'tree':
        # one parser and one tree, used again and again
        p = QueryParser(x.lexicon)
        t = p.parseQuery(*args)
        p.parseQuery('other "words here" the')
        before = textref.tree_tuple(t)
        terms = t.terms()
        r = t.executeQuery(x.index)
        frozen_r = frozen(r)
        terms.append('spoiled')
        r2 = t.executeQuery(x.index)
        spoil(r2)
        if textref.tree_tuple(t) != before:
            raise Violation('executing query %r changes its tree' % args)
        if frozen(r) != frozen_r or frozen(t.executeQuery(
                x.index)) != frozen_r:
            raise Violation('tree of %r: results are not independent' % args)
        if t.terms() == terms:
            raise Violation('terms of %r share a list' % args)
        return r
    for n in name.split('.'):
        x = getattr(x, n)
    return x(*args, **kw)


class Sys(KindSystem):
    name = 'readonly'

    def battery(self, st, args=True):
        """All the queries; the results."""
        r = []
        for name, a, kw in calls(self.cfg['kind'], st.x, self.cfg):
            before = argform(a) if args else None
            res = call(st.x, name, a, kw)
            if args and argform(a) != before:
                raise Violation('%s%s changed its argument to %s' % (
                    name, before, show(a)))
            if name == 'sort':
                res = list(res)
            h = Held((name, show(a), kw), res)
            if name.startswith('lexicon.') and not isinstance(res, list):
                h.r = h.was         # no document set or score mapping
            r.append(h)
        return r

    def init_step(self, st, op):
        KindSystem.step(self, st, op)

    def step(self, st, op):
        held = self.battery(st, args=False)
        KindSystem.step(self, st, op)
        for h in held:
            if frozen(h.r) != h.was:
                raise Violation('%s changes the earlier result of %s from %s '
                                'to %s' % (show(op), h.what, show(h.was),
                                           show(h.r)))

    def check(self, st):
        before = canon.lasting(st.x)
        held = self.battery(st)
        if canon.lasting(st.x) != before:
            for name, a, kw in calls(self.cfg['kind'], st.x, self.cfg):
                b = canon.lasting(st.x)
                call(st.x, name, a, kw)
                if canon.lasting(st.x) != b:
                    raise Violation('%s%s changes the index' % (name, a))
            raise Violation('queries change the index')
        again = self.battery(st)
        for h, g in zip(held, again):
            if h.was != g.was:
                raise Violation('%s gives %s and again %s' % (
                    h.what, show(h.was), show(g.was)))
        for h in held:
            if frozen(h.r) != h.was:
                raise Violation('the result of %s changed from %s to %s while '
                                'others were changed' % (
                                    h.what, show(h.was), show(h.r)))
            spoil(h.r)
        if canon.lasting(st.x) != before:
            raise Violation('changing results changes the index: %s' % (
                show(self.culprit(st))))
        for h in again:
            if frozen(h.r) != h.was:
                raise Violation('changing results changes others, %s: %s, %s'
                                % (h.what, show(h.was), show(h.r)))

    def culprit(self, st):
        for h in self.battery(st):
            b = canon.lasting(st.x)
            spoil(h.r)
            if canon.lasting(st.x) != b:
                return h.what


class Stored(Sys):
    """The same on an index stored in a database, loaded object by object."""
    name = 'stored'

    def start(self):
        import transaction
        from ZODB.DB import DB
        from ZODB.MappingStorage import MappingStorage
        st = KindSystem.start(self)
        st.db = DB(MappingStorage())
        st.tm = transaction.TransactionManager(explicit=False)
        st.conn = st.db.open(st.tm)
        st.conn.root()['x'] = st.x
        st.tm.commit()
        return st

    def step(self, st, op):
        KindSystem.step(self, st, op)

    def key(self, st):
        return canon.digest(st.x, st.m)

    def check(self, st):
        st.tm.commit()
        storage = st.conn.db().storage
        last = storage.lastTransaction()
        for where in ('live', 'ghost', 'fresh'):
            conn = st.conn
            if where == 'ghost':
                conn.cacheMinimize()
            elif where == 'fresh':
                conn = st.db.open(st.tm)
            try:
                x = conn.root()['x']
                for name, a, kw in calls(self.cfg['kind'], x, self.cfg):
                    r = call(x, name, a, kw)
                    if name == 'sort':
                        list(r)
                    if conn._registered_objects:
                        o = conn._registered_objects[0]
                        raise Violation('%s%s marks %r as changed' % (
                            name, show(a), type(o)))
                    for o in conn._cache.cache_data.values() \
                            if hasattr(conn._cache, 'cache_data') else ():
                        if o._p_changed:
                            raise Violation('%s%s changes %r' % (
                                name, show(a), type(o)))
                st.tm.commit()
                if storage.lastTransaction() != last:
                    raise Violation('queries wrote to the database')
            finally:
                if where == 'fresh':
                    conn.close()


SYS = {c.name: c for c in (Sys, Stored)}


def execute(x, t):
    """Nothing is left of executing a parse tree twice."""
    node = c06.node(t)
    terms = node.terms()
    r = node.executeQuery(x.index)
    was = frozen(r)
    was_terms = list(terms)
    terms.append('spoiled')
    r2 = node.executeQuery(x.index)
    if frozen(r) != was or frozen(r2) != was:
        raise Violation('executing %s twice gives %s, then %s' % (
            show(t), show(was), show(frozen(r2))))
    spoil(r2)
    if frozen(r) != was or frozen(node.executeQuery(x.index)) != was:
        raise Violation('results of %s are not independent' % show(t))
    if node.terms() != was_terms:
        raise Violation('terms of %s: %s, then %s' % (
            show(t), show(was_terms), show(node.terms())))
    if textref.tree_tuple(node) != t:
        raise Violation('executing %s changes the tree to %s' % (
            show(t), show(textref.tree_tuple(node))))


def nodecorpus(rank):
    s = KindSystem(dict(kind='text', rank=rank, ops=[]))
    return engine._replay(s, c06.corpus(1))


def item_nodes(ctx, rank, top, deep):
    """Parse trees put together by hand, in every order of the operands."""
    st = nodecorpus(rank)
    before = canon.lasting(st.x)
    for i, t in enumerate(c06.trees(top, deep)):
        try:
            execute(st.x, t)
            if i % 50 == 0 and canon.lasting(st.x) != before:
                raise Violation('one of 50 trees until %s has changed the '
                                'index' % show(t))
        except Violation as v:
            v.case = dict(sys='node', rank=rank, tree=t)
            raise
        ctx.trans()
        ctx.trace()
        ctx.state((rank, repr(t)))
    if canon.lasting(st.x) != before:
        raise Violation('executing trees has changed the index')


def item_near(ctx, *args):
    def change(c, n):
        if c['kind'] == 'field' and n >= near.LONG:
            p = [v for v in c['probes'] if v is not None]
            c['ranges'] = tuple(
                r for lo in p for r in ((lo, None), (None, lo),
                                        (lo, max(p)), (lo, lo)))
    near.explore(ctx, Sys, *args, change=change)


def item_bfs(ctx, sys, c, depth):
    engine.bfs(SYS[sys](c), ctx, depth)


def item_tree(ctx, c, depth, prefix):
    engine.tree(Sys(c), ctx, depth, prefix)


def item_sweep(ctx, sys, kind, variant, family, n, start, stride):
    c = configs.sweep_cfg(kind, variant, family)
    if kind == 'field':
        c['ranges'] = RANGES + ((1, 20), (3, 3))
        c['bulk'] = (start, start + n, stride)
    cls = SYS[sys]
    s = cls(c)
    st = s.start()
    done = []
    close = False
    for op in configs.sweep(kind, n, start, stride):
        if op is None:
            engine.guard(s, done, s.check, st)
            ctx.state((sys, kind, variant, family, n, start, len(done)))
            close = True
            continue
        done.append(op)
        # the operations next to a checkpoint with results held
        f = s.step if close else KindSystem.step.__get__(s)
        engine.guard(s, done, f, st, op)
        close = False
        ctx.trans()
    ctx.trace()


def cfgs():
    r = {}
    f = configs.field
    r['field'] = f((1, 2, 3), (0, 1))
    r['field-none'] = dict(f((0, -1), (None, 0, 5)))
    r['field64'] = f(configs.M64, (0, 1), 64)
    k = configs.keyword
    r['kw'] = k((1, 2), n=2)
    r['kw-thr'] = k((1, 2), n=2, thresholds=(1, 2))
    for n in ('lower', 'split', 'drop'):
        r['kw-' + n] = k((1, 2), n, n=2)
    r['kw64'] = k(configs.M64, family=64, n=1, thresholds=(1, 64))
    t = configs.topic
    r['topic'] = t()
    r['topic-3'] = t((1, 2, 3), (0, 3), filters=(
        ('f', 'odd'), ('g', 'big'), ('h', 'true')))
    r['topic64'] = t(configs.M64, (0, 3), family=64)
    x = configs.text
    r['okapipy'] = x('okapipy', texts=('foo', 'foo bar', ''))
    for rank in ('okapi', 'cosine'):
        r[rank] = x(rank, texts=configs.TEXTS[1:])
        r[rank + '-1'] = x(rank, (1,), configs.TEXTS + ('new words',))
        r[rank + '64'] = x(rank, configs.M64, ('foo', 'foo bar'), 64)
        r[rank + '-html'] = x(rank, pipe='html', texts=(
            '<b>foo</b>', 'foo bar'))
    r['default'] = x('okapi', (1, 2), ('foo', 'foo bar'), ctor='default')
    return r


def items(tier):
    deep = tier == 'thorough'
    r = []
    for sys in ('readonly', 'stored'):
        for kind, variants in (
                ('text', ('okapi', 'cosine')), ('field', (None,)),
                ('keyword', ('id', 'lower')), ('topic', (None,))):
            for v in variants:
                for n, start, stride in ((130, 0, 1), (35, -17, 1)):
                    n *= 3 if deep else 1
                    fam = 64 if start and v != 'okapi' else None
                    r.append(('sweep-%s-%s-%s-%d' % (sys, kind, v, n),
                              'item_sweep', sys, kind, v, fam, n, start,
                              stride))
    for name, c in cfgs().items():
        text = c['kind'] == 'text'
        r.append(('bfs-' + name, 'item_bfs', 'readonly', c,
                  (4 if deep else 2) if text else None))
        r.append(('stored-' + name, 'item_bfs', 'stored', c,
                  (3 if deep else 2)))
        for op in c['ops']:
            r.append(('tree-%s-%s' % (name, op), 'item_tree', c,
                      3 if deep else 2, (op,)))
    for rank in ('okapi', 'cosine'):
        for top in ('AND', 'OR'):
            r.append(('nodes-%s-%s' % (rank, top), 'item_nodes', rank, top,
                      deep))
    r += near.items(tier, one=near.SOME, two=(10,))
    r += configs.renumbered(r, ('bfs', 'stored'))
    return r


def run_case(case, ctx):
    if case['sys'] == 'node':
        return execute(nodecorpus(case['rank']).x, c06.tup(case['tree']))
    engine.run_history(SYS[case['sys']](case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': '20 configurations of all index types: every reachable state '
             '(text: depth 2), 20-90 queries each, results held across every '
             'following operation; stored copies to depth 2, live, ghosts '
             'and freshly loaded; histories growing to 130 documents; '
             'hand-made parse trees (3 operands, 2 levels) executed twice',
    'thorough': 'text to depth 4, stored to depth 3, 390 documents',
}
