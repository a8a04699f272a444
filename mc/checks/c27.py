"""C27 Indexes with legacy counters are upgraded to exact counts."""
import itertools

import transaction
from ZODB.DB import DB
from ZODB.MappingStorage import MappingStorage

from mc import configs
from mc import engine
from mc import near
from mc.core import Violation, diff_answers, show
from mc.kinds import KindSystem, mapping
from mc.zodbeng import lexicon_answers

PARTS = {'okapi': ('docs', 'words', 'len', 'lex'),
         'cosine': ('docs', 'words', 'lex')}
PARTS['okapipy'] = PARTS['okapi']     # without the compiled scorer


def forms(rank):
    ps = PARTS[rank]
    return [c for k in range(1, len(ps) + 1)
            for c in itertools.combinations(ps, k)]


def degrade(x, parts):
    """What an old release would have stored."""
    i = x.index
    for p in parts:
        if p == 'docs':
            vars(i).pop('documentCount', None)
        elif p == 'words':
            vars(i).pop('wordCount', None)
        elif p == 'lex':
            vars(x.lexicon).pop('wordCount', None)
        elif not isinstance(i._totaldoclen, int):
            i._totaldoclen = i._totaldoclen()
    i._p_changed = x.lexicon._p_changed = True


def gaps(x):
    """A lexicon with some words the ids of which are not 1, 2, 3 ..."""
    for wid, w in ((2, 'g2'), (3, 'g3'), (5, 'bar'), (6, 'g6'), (9, 'g9'),
                   (200, 'g200'), (2**30, 'gmax')):
        x.lexicon._wids[w] = wid
        x.lexicon._words[wid] = w


class Sys(KindSystem):
    """An index that is degraded now and then, and one that never is.

    st.legacy are the counters that nothing has changed since; asking for
    them may fail, but they must not be wrong.
    """
    name = 'legacy'

    def start(self):
        st = KindSystem.start(self)
        st.y = self.kind.make()
        st.legacy = set()
        if self.cfg.get('gaps'):
            gaps(st.x)
            gaps(st.y)
            degrade(st.x, ('lex',))
        st.wids = {}
        self.remember(st)
        return st

    def key(self, st):
        return engine.canon.digest(st.x, st.y, sorted(st.m.texts.items()),
                                   sorted(st.m.docs), sorted(st.legacy))

    def remember(self, st):
        lex = st.x.lexicon
        for w in lex.words():
            wid = lex.get_wid(w)
            if st.wids.setdefault(w, wid) != wid:
                raise Violation('the id of %r was %s and is %s' % (
                    w, st.wids[w], wid))
        if len(set(st.wids.values())) != len(st.wids):
            raise Violation('two words have the same id: %s' % show(st.wids))

    def step(self, st, op):
        if op[0] == 'legacy':
            degrade(st.x, op[1])
            st.legacy.update(op[1])
            return
        docs, words = set(st.m.docs), st.m.words()
        self.kind.do(st.x, op)
        self.kind.do(st.y, op)
        self.kind.do_model(st.m, op)
        if set(st.m.docs) != docs or op[0] == 'c':
            st.legacy.discard('docs')
        if st.m.words() != words or op[0] == 'c':
            st.legacy.discard('words')
        st.legacy.discard('len')
        st.legacy.discard('lex')
        self.remember(st)

    def ask(self, st, f, legacy, *args):
        """What f(*args) gives, or None if it may fail."""
        try:
            return f(*args)
        except NotImplementedError:
            if legacy in st.legacy:
                return None
            raise Violation('%s%s raises NotImplementedError' % (
                f.__qualname__, show(args)))

    def questions(self, st):
        """(name, attribute path, counter, arguments)."""
        cfg = self.cfg
        r = [(('documentCount',), 'documentCount', 'docs', ()),
             (('wordCount',), 'wordCount', 'words', ()),
             (('index documentCount',), 'index.documentCount', 'docs', ()),
             (('index wordCount',), 'index.wordCount', 'words', ())]
        for q in cfg['queries']:
            r.append((('apply', q), 'apply', 'docs', (q,)))
        for q in cfg['terms']:
            r.append((('term', q), 'index.search', 'docs', (q,)))
        for q in cfg['phrases']:
            r.append((('phrase', q), 'index.search_phrase', 'docs', (q,)))
        for q in cfg['globs']:
            r.append((('glob', q), 'index.search_glob', 'docs', (q,)))
        for q in cfg['weights']:
            r.append((('weight', q), 'index.query_weight', None, (list(q),)))
        for d in cfg['ids']:
            r.append((('has', d), 'index.has_doc', None, (d,)))
        return r

    def check(self, st):
        before = engine.canon.lasting(st.x)
        self.compare(st)
        if engine.canon.lasting(st.x) != before:
            raise Violation('reading has modified the index')

    def compare(self, st):
        for name, path, legacy, args in self.questions(st):
            fs = []
            for o in (st.x, st.y):
                for a in path.split('.'):
                    o = getattr(o, a)
                fs.append(o)
            got = self.ask(st, fs[0], legacy, *args)
            want = fs[1](*args)
            if got is None and want is not None:
                continue
            if hasattr(want, 'items'):
                got, want = mapping(got), mapping(want)
            elif isinstance(want, bool):
                got = bool(got)
            d = diff_answers({name: got}, {name: want})
            if d:
                raise Violation(
                    '%s gives %s, a never degraded index %s' % tuple(
                        map(show, d)))
        for d in sorted(st.m.docs):
            ws = [[o.lexicon.get_word(w) for w in o.index.get_words(d)]
                  for o in (st.x, st.y)]
            if ws[0] != ws[1]:
                raise Violation('words of document %s are %s, expected %s' % (
                    d, show(ws[0]), show(ws[1])))
        got, want = lexicon_answers(st.x.lexicon), lexicon_answers(
            st.y.lexicon)
        if self.cfg.get('gaps'):
            # the count is where to look for the next id
            del got['lexicon count'], want['lexicon count']
        d = diff_answers(got, want)
        if d:
            raise Violation('%s %s, never degraded: %s' % tuple(map(show, d)))


class DbSys(Sys):
    """The same, stored: every step and all reading in new connections."""
    name = 'legacy-db'

    def start(self):
        st = Sys.start(self)
        st.db = DB(MappingStorage())
        st.tm = transaction.TransactionManager()
        conn = st.db.open(st.tm)
        conn.root()['x'] = st.x
        st.tm.commit()
        conn.close()
        st.x = None
        return st

    def opened(self, st, f):
        # everything is loaded anew
        conn = st.db.open(st.tm)
        conn.cacheMinimize()
        try:
            st.x = conn.root()['x']
            f()
            return conn._registered_objects[:]
        finally:
            st.x = None
            st.tm.abort()
            conn.close()

    def step(self, st, op):
        def f():
            Sys.step(self, st, op)
            st.tm.commit()
        self.opened(st, f)

    def check(self, st):
        changed = self.opened(st, lambda: self.compare(st))
        if changed:
            raise Violation('reading has modified %s' % [
                type(o).__name__ for o in changed])


def item_near(ctx, *args):
    def change(c, n):
        c['ops'] += [('legacy', f) for f in (
            ('docs',), ('words',), PARTS[c['rank']])]
    near.explore(ctx, Sys, *args, change=change)


def item_bfs(ctx, c, depth):
    engine.bfs(Sys(c), ctx, depth)


def item_tree(ctx, c, depth, prefix):
    engine.tree(Sys(c), ctx, depth, prefix)


def item_db(ctx, c, depth, form):
    """Every history with one degradation in it."""
    s = DbSys(c)
    ops = [op for op in c['ops'] if op[0] != 'legacy']
    for n in range(depth):
        for before in itertools.product(ops, repeat=n):
            for after in itertools.product(ops, repeat=depth - 1 - n):
                h = before + (('legacy', form),) + after
                st = engine.run_history(s, h, ctx)
                st.db.close()
                ctx.state((repr(c), h))


def item_sweep(ctx, rank, family, n, start, every):
    """Degraded again and again, in every form in turn."""
    c = configs.sweep_cfg('text', rank, family)
    c['ids'] = tuple(start + i for i in (0, 1, 9, 30, n - 1, n))
    s = Sys(c)
    st = engine.guard(s, [], s.start)
    fs = forms(rank)
    done = []
    j = 0
    for op in configs.sweep('text', n, start):
        if op is not None:
            done.append(op)
            engine.guard(s, done, s.step, st, op)
            ctx.trans()
        if op is None or len(done) % every == 0:
            engine.guard(s, done, s.check, st)
            done.append(('legacy', fs[j % len(fs)]))
            j += 1
            engine.guard(s, done, s.step, st, done[-1])
            engine.guard(s, done, s.check, st)
            ctx.state((rank, family, n, start, every, len(done)))
    ctx.trace()


def cfgs(all_forms=False):
    r = {}
    for rank in ('okapi', 'cosine', 'okapipy'):
        fs = [('legacy', f) for f in forms(rank)]
        allp = [('legacy', PARTS[rank])]
        each = [('legacy', (p,)) for p in PARTS[rank]] + allp

        def add(name, c, legacy):
            c['ops'] = c['ops'] + legacy
            r['%s-%s' % (rank, name)] = c
        x = configs.text
        add('all', x(rank, (1, 2), ('foo', 'foo bar', '')), fs)
        add('two', x(rank, (1, 2), ('foo bar', 'bar bar foo', 'baz')), each)
        add('three', x(rank, (1, 2, 3), ('foo', 'foo bar')), allp)
        if rank == 'okapipy':
            continue
        add('64', x(rank, configs.M64, ('foo', 'bar foo'), 64), each)
        add('html', x(rank, (1, 2), ('<b>foo', 'foo bar the'), pipe='html'),
            each)
        c = x(rank, (1, 2), ('foo bar', 'g2 foo', 'g3 baz nope'), gaps=True)
        c['ops'] += [('src', 'new g9'), ('src', 'q1 q2 q3 q4 q5 q6 q7')]
        add('gaps', c, each)
        c = x(rank, (1,), ('foo bar', 'foo'))
        c['ops'] += [('src', 'foo new'), ('src', 'baz')]
        add('src', c, each)
    return r


def items(tier):
    deep = tier == 'thorough'
    r = []
    for rank in ('okapi', 'cosine', 'okapipy'):
        for fam, n, start, every in (
                (None, 130, 0, 1), (None, 40, -20, 2), (64, 66, -2**63, 3),
                (None, 67, 2**31 - 68, 7)):
            if rank == 'okapipy' and every != 2:
                continue
            n *= 2 if deep and fam is None and start == 0 else 1
            r.append(('sweep-%s-%s-%d-%d' % (rank, fam, n, every),
                      'item_sweep', rank, fam, n, start, every))
    for name, c in cfgs().items():
        n = len(c['ops'])
        r.append(('bfs-' + name, 'item_bfs', c, (4 if n < 15 else 3) + deep))
        for op in c['ops']:
            r.append(('tree-%s-%s' % (name, op), 'item_tree', c,
                      (3 if n < 13 else 2) + deep, (op,)))
        rank = name.split('-')[0]
        for f in forms(rank):
            if len(f) in (1, len(PARTS[rank])):
                r.append(('db-%s-%s' % (name, '+'.join(f)), 'item_db', c,
                          4 if deep else 3, f))
    r += near.items(tier, (('text', 'okapi'), ('text', 'cosine')),
                    one=near.SOME, two=(9, 10, 11))
    r += configs.renumbered(r, 'bfs', ('zero',))
    return r


def run_case(case, ctx):
    s = (DbSys if case['sys'] == 'legacy-db' else Sys)(case['cfg'])
    engine.run_history(s, [tuple(o) for o in case['ops']], ctx)


BOUNDS = {
    'quick': 'okapi (compiled and pure Python) and cosine: every state to depth '
             '3-4 of 17 '
             'configurations, degraded to every combination of legacy '
             'counters at any point and repeatedly, against a never degraded '
             'index; the same with every step in a new database connection '
             '(depth 3); a lexicon with scattered word ids; degraded after '
             'every operation while growing to 130 documents and shrinking',
    'thorough': 'one level deeper, 260 documents',
}
