"""C20 Only the current content matters, not the history."""
import itertools

from mc import configs
from mc import engine
from mc import near
from mc.core import Violation, diff_answers, show
from mc.kinds import KindSystem, vkey

FRESH = {}      # (configuration, documents) -> answers of a fresh index


class Sys(KindSystem):
    """The index with a history against a fresh one with its documents.

    The model (and its answers) are not consulted: what is compared are two
    real objects.  st.docs are the current documents, docid -> operation.
    """
    name = 'fresh'

    def start(self):
        st = KindSystem.start(self)
        st.docs = {}
        st.filters = True
        return st

    def step(self, st, op):
        KindSystem.step(self, st, op)
        if op[0] == 'i':
            st.docs[op[1]] = op
        elif op[0] == 'u':
            st.docs.pop(op[1], None)
        elif op[0] in ('c', 'cf'):
            st.docs.clear()
            if op[0] == 'c' and self.cfg['kind'] == 'topic':
                st.filters = False

    def answers(self, x, m):
        cfg = self.cfg
        r = self.kind.answers(x, m)
        if cfg['kind'] == 'field':
            # with the values, so that ties do not matter
            for rev, lim in itertools.product((False, True), (None, 1, 2)):
                s = list(x.sort(list(cfg['ids']), reverse=rev, limit=lim))
                r['sort', rev, lim] = [vkey(m[d]) for d in s]
        return r

    def fresh(self, docs, m, filters, reverse):
        if not filters:
            from zope.index.topic import TopicIndex
            y = TopicIndex()
        else:
            y = self.kind.make()
        for d in sorted(docs, reverse=reverse):
            self.kind.do(y, docs[d])
        return self.answers(y, m)

    def check(self, st):
        got = self.answers(st.x, st.m)
        k = (repr(sorted(self.cfg.items())), st.filters,
             repr(sorted(st.docs.items())))
        want = FRESH.get(k)
        if want is None:
            want = self.fresh(st.docs, st.m, st.filters, False)
            other = self.fresh(st.docs, st.m, st.filters, True)
            d = diff_answers(other, want)
            if d:
                raise Violation(
                    'fresh indexes disagree on %s: %s, %s' % tuple(
                        map(show, d)))
            if len(FRESH) > 3000:
                FRESH.clear()
            FRESH[k] = want
        d = diff_answers(got, want)
        if d:
            raise Violation(
                '%s gives %s, a fresh index with %s gives %s' % (
                    show(d[0]), show(d[1]), show(sorted(st.docs.values())),
                    show(d[2])))


def item_near(ctx, *args):
    def change(c, n):
        c['ops'] = [op for op in c['ops'] if op[0] not in (
            'fc', 'add', 'del', 'se')]
    near.explore(ctx, Sys, *args, change=change)


def item_bfs(ctx, c, depth):
    engine.bfs(Sys(c), ctx, depth)


def item_tree(ctx, c, depth, prefix):
    engine.tree(Sys(c), ctx, depth, prefix)


def item_sweep(ctx, kind, variant, family, n, start, stride):
    c = configs.sweep_cfg(kind, variant, family)
    s = Sys(c)
    st = s.start()
    done = []
    for op in configs.sweep(kind, n, start, stride):
        if op is None:
            engine.guard(s, done, s.check, st)
            ctx.state((kind, variant, family, n, start, len(done)))
            continue
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        ctx.trans()
    engine.guard(s, done, s.check, st)
    ctx.trace()


def cfgs():
    r = {}
    f = configs.field
    r['field'] = f((1, 2, 3), (0, 1, 2))
    r['field-none'] = f((0, -1), (None, 0, 5))
    r['field-str'] = f(configs.M32, ('', 'a', 'b', 'ab'))
    r['field-mixed'] = f((1, 2), (1, 1.0, True, 2.5, None))
    r['field64'] = f(configs.M64, (0, 1, 2), 64)
    k = configs.keyword
    r['kw'] = k((1, 2))
    r['kw-3'] = k((1, 2, 3), n=2)
    r['kw-thr'] = k((1, 2), n=2, thresholds=(1, 2, 64))
    for n in ('lower', 'split', 'drop', 'strip'):
        r['kw-' + n] = k((1, 2), n)
    r['kw64'] = k(configs.M64, family=64, n=2)
    t = configs.topic
    r['topic'] = t()
    r['topic-clear'] = t(extra=[('c',)])
    r['topic-raise'] = t(ns=(None, 0, 1, 2), filters=(
        ('a', 'boom'), ('b', 'div'), ('c', 'exit'), ('d', 'attr')))
    r['topic-3'] = t((1, 2, 3), filters=(
        ('f', 'odd'), ('g', 'big'), ('h', 'true'), ('i', 'list')))
    r['topic64'] = t(configs.M64, family=64)
    x = configs.text
    for rank in ('okapi', 'cosine'):
        r[rank] = x(rank)
        r[rank + '-none'] = x(rank, (1, 2), (None, 'foo', ('foo', 'bar baz'),
                                             ''))
        r[rank + '-html'] = x(rank, pipe='html', texts=(
            '<b>foo</b> bar', 'foo bar', '<foo> bar foo', ''))
        r[rank + '-stop1'] = x(rank, pipe='stop1', texts=(
            'foo x bar', 'foo bar', 'baz the foo', 'a'))
        r[rank + '-3'] = x(rank, (1, 2, 3), ('foo', 'foo bar', 'bar foo baz'))
        r[rank + '64'] = x(rank, configs.M64, ('foo', 'foo bar', ''), 64)
        r[rank + '-index'] = x(rank, ctor='index')
    r['default'] = x('okapi', ctor='default')
    r['okapi-lexicon'] = x('okapi', (1, 2), ('the foo', 'x y foo', 'bar x'),
                           pipe='stop1', ctor='lexicon')
    return r


def items(tier):
    deep = tier == 'thorough'
    r = []
    for kind, variants in (
            ('text', ('okapi', 'cosine')), ('field', (None,)),
            ('keyword', ('id', 'lower', 'split')), ('topic', (None,))):
        for v in variants:
            for fam in (None, 64):
                for n, start, stride in (
                        (130, 0, 1), (35, -17, 1), (66, 5, 1000)):
                    n *= 3 if deep else 1
                    r.append(('sweep-%s-%s-%s-%d' % (kind, v, fam, n),
                              'item_sweep', kind, v, fam, n, start, stride))
    for name, c in cfgs().items():
        text = c['kind'] == 'text'
        r.append(('bfs-' + name, 'item_bfs', c,
                  (5 if deep else 3) if text else None))
        n = len(c['ops'])
        depth = 2 if n > 30 else 3
        if deep:
            depth += 1
        for op in c['ops']:
            r.append(('tree-%s-%s' % (name, op), 'item_tree', c, depth,
                      (op,)))
    r += near.items(tier)
    r += configs.renumbered(r, 'bfs')
    return r


def run_case(case, ctx):
    engine.run_history(Sys(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': 'to closure (text: depth 3) and all sequences to depth 3 over '
             '29 configurations of 2-3 documents of all index types; every '
             'state against fresh indexes filled in both orders; histories '
             'growing to 130 documents, changing, shrinking and clearing',
    'thorough': 'one or two levels deeper, 390 documents',
}
