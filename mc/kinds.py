"""Index kinds: real object + reference model, as systems for the explorer.

Every model is a plain dict of the current documents.  Operations:

 field    ('i', docid, value) ('u', docid) ('c',)
 keyword  ('i', docid, keywords) ('u', docid) ('c',) ('o',) ('t', n)
 topic    ('i', docid, ctx) ('u', docid) ('c',) ('add', id, expr)
          ('del', id) ('cf',) ('fc', id) ('se', id, expr)
 text     ('i', docid, text) ('u', docid) ('c',) ('src', text)
"""
import copy
import importlib.util
import sys

import BTrees

from mc import engine
from mc import textref
from mc.core import Violation, diff_answers, expect, show

FAMILY = {32: BTrees.family32, 64: BTrees.family64}


class Skip(Exception):
    """The operation is not enabled."""


class Kind:
    """One index type in one configuration."""

    def __init__(self, cfg):
        self.cfg = cfg

    def make(self):
        raise NotImplementedError

    def model(self):
        raise NotImplementedError

    def do(self, impl, op):
        """Execute op on the real object."""
        raise NotImplementedError

    def do_model(self, model, op):
        """Execute op on the model."""
        raise NotImplementedError

    def answers(self, impl):
        raise NotImplementedError

    def expected(self, model):
        raise NotImplementedError

    def rebuild(self, model):
        """Operations that give a fresh index the same documents."""
        raise NotImplementedError


# ---------------------------------------------------------------- field

def vkey(v):
    """Order of values: None before everything else."""
    return (0,) if v is None else (1, v)


class FieldKind(Kind):
    name = 'field'

    def make(self):
        from zope.index.field import FieldIndex
        fam = self.cfg.get('family')
        return FieldIndex(FAMILY[fam]) if fam else FieldIndex()

    def model(self):
        return {}

    def do(self, x, op):
        if op[0] == 'i':
            x.index_doc(op[1], op[2])
        elif op[0] == 'u':
            x.unindex_doc(op[1])
        else:
            x.clear()

    def do_model(self, m, op):
        if op[0] == 'i':
            m[op[1]] = op[2]
        elif op[0] == 'u':
            m.pop(op[1], None)
        else:
            m.clear()

    def probes(self, m):
        ps = self.cfg.get('probes')
        if ps is not None:
            return ps
        return [None] + sorted({v for v in m.values() if v is not None})

    def ranges(self, m):
        if 'ranges' in self.cfg and 'probes' not in self.cfg:
            return self.cfg['ranges']
        ps = self.probes(m)
        return [(a, b) for a in ps for b in ps]

    def answers(self, x, m):
        r = {('count',): x.documentCount(), ('words',): x.wordCount()}
        for q in self.ranges(m):
            r[q] = sorted(x.apply(q))
        ids = self.cfg.get('ids', ()) or sorted(m)
        for rev in (False, True):
            s = list(x.sort(list(ids), reverse=rev))
            r[('sort', rev)] = sort_ok(s, ids, m, rev, None)
        return r

    def expected(self, m):
        r = {('count',): len(m),
             ('words',): len({vkey(v) for v in m.values()})}
        for q in self.ranges(m):
            r[q] = field_range(m, q)
        for rev in (False, True):
            r[('sort', rev)] = True
        return r

    def rebuild(self, m):
        return [('i', d, m[d]) for d in sorted(m)]


def field_range(m, q):
    lo, hi = q
    return sorted(
        d for d, v in m.items()
        if (lo is None or vkey(v) >= vkey(lo))
        and (hi is None or vkey(v) <= vkey(hi)))


def sort_ok(got, ids, m, rev, limit):
    """True, or what is wrong with *got* as sort of *ids*."""
    want = {d for d in ids if d in m}
    n = len(want) if limit is None else min(limit, len(want))
    if len(got) != n:
        return ('length', got, n)
    if len(set(got)) != n or not set(got) <= want:
        return ('ids', got)
    ks = sorted((vkey(m[d]) for d in want), reverse=rev)[:n]
    if [vkey(m[d]) for d in got] != ks:
        return ('order', got)
    return True


# -------------------------------------------------------------- keyword

def n_id(w):
    return w


NORMS = {
    'id': lambda ws: list(ws),
    'lower': lambda ws: [w.lower() for w in ws],
    'strip': lambda ws: [w.strip('-') for w in ws],
    'drop': lambda ws: [w for w in ws if not w.startswith('x')],
    'split': lambda ws: [p for w in ws for p in w.split('-') if p],
}


class KeywordKind(Kind):
    name = 'keyword'

    def klass(self):
        from zope.index.keyword import CaseInsensitiveKeywordIndex
        from zope.index.keyword import KeywordIndex
        norm = self.cfg.get('norm', 'id')
        if norm == 'id':
            return KeywordIndex
        if norm == 'lower':
            return CaseInsensitiveKeywordIndex
        return NORMCLASSES(norm)

    def make(self):
        fam = self.cfg.get('family')
        c = self.klass()
        x = c(FAMILY[fam]) if fam else c()
        if 'threshold' in self.cfg:
            x.tree_threshold = self.cfg['threshold']
        return x

    def model(self):
        return {}

    def norm(self, ws):
        return frozenset(NORMS[self.cfg.get('norm', 'id')](ws))

    def do(self, x, op):
        if op[0] == 'i':
            seq = form(op[2], op[3] if len(op) > 3 else 'list')
            x.index_doc(op[1], seq)
            spoil(seq)
        elif op[0] == 'u':
            x.unindex_doc(op[1])
        elif op[0] == 'c':
            x.clear()
        elif op[0] == 'o':
            x.optimize()
        elif op[0] == 't':
            x.tree_threshold = op[1]

    def do_model(self, m, op):
        if op[0] == 'i':
            ws = self.norm(op[2])
            if ws:
                m[op[1]] = ws
            else:
                m.pop(op[1], None)
        elif op[0] == 'u':
            m.pop(op[1], None)
        elif op[0] == 'c':
            m.clear()

    def queries(self, m):
        qs = self.cfg.get('queries')
        if qs is not None:
            return qs
        ws = sorted({w for s in m.values() for w in s})
        return [[w] for w in ws] + [ws] + list(zip(ws, ws[1:])) + [['zz']]

    def answers(self, x, m):
        r = {('count',): x.documentCount(), ('words',): x.wordCount()}
        for d in self.cfg.get('ids', ()) or sorted(m):
            r['has', d] = x.has_doc(d)
        for q in self.queries(m):
            for op in ('and', 'or'):
                r[op, tuple(q)] = sorted(x.search(form(q, 'list'), op))
            r['apply', tuple(q)] = sorted(x.apply(list(q)))
            twice = list(q) + list(q)[:1]
            r['both', tuple(q)] = sorted(x.search(twice, 'and'))
            r['any', tuple(q)] = sorted(x.search(twice, 'or'))
        return r

    def expected(self, m):
        r = {('count',): len(m),
             ('words',): len({w for s in m.values() for w in s})}
        for d in self.cfg.get('ids', ()) or sorted(m):
            r['has', d] = d in m
        for q in self.queries(m):
            ws = self.norm(q)
            for op in ('and', 'or'):
                r[op, tuple(q)] = keyword_search(m, ws, op)
            r['apply', tuple(q)] = keyword_search(m, ws, 'and')
            r['both', tuple(q)] = r['and', tuple(q)]
            r['any', tuple(q)] = r['or', tuple(q)]
        return r

    def rebuild(self, m):
        return [('i', d, tuple(sorted(m[d]))) for d in sorted(m)]


_normclasses = {}


def NORMCLASSES(norm):
    """Subclasses with an overridden normalize (importable by name)."""
    if norm not in _normclasses:
        from zope.index.keyword import KeywordIndex

        def normalize(self, seq, f=NORMS[norm]):
            return f(seq)
        c = type('Norm_' + norm, (KeywordIndex,), {
            'normalize': normalize, '__module__': __name__})
        globals()[c.__name__] = c
        _normclasses[norm] = c
    return _normclasses[norm]


def keyword_search(m, ws, op):
    if not ws:
        return []
    if op == 'and':
        return sorted(d for d, s in m.items() if ws <= s)
    return sorted(d for d, s in m.items() if ws & s)


def form(seq, how):
    """The same items as another kind of collection."""
    if how == 'list':
        return list(seq)
    if how == 'tuple':
        return tuple(seq)
    if how == 'set':
        return set(seq)
    if how == 'iter':
        return iter(list(seq))
    if how == 'gen':
        return (x for x in list(seq))
    if how == 'OOSet':
        return BTrees.family32.OO.Set(seq)
    if how == 'OOTreeSet':
        return BTrees.family32.OO.TreeSet(seq)
    if how == 'dict':
        return dict.fromkeys(seq)
    raise KeyError(how)


def spoil(seq):
    """The caller goes on using a collection that was given to an index."""
    if isinstance(seq, list):
        seq.append('spoilt')
    elif hasattr(seq, 'clear'):
        seq.clear()


# ---------------------------------------------------------------- topic

class Ctx:
    """A document for topic filters."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    @property
    def boom(self):
        raise KeyError('boom')

    @property
    def exit(self):
        raise SystemExit(1)


EXPRS = {
    'odd': 'context.n % 2',
    'big': 'context.n > 1',
    'boom': 'context.boom',
    'exit': 'context.n == 2 or context.exit',
    'div': '1 / context.n',
    'attr': 'context.missing == 1',
    'true': 'True',
    'syntax': 'context.n >',
    'typ': 'context.meta_type == "Doc"',
    'list': '[context.n] * context.n',
    'name': 'nonexistent + 1',
}


def satisfied(expr, ctx):
    try:
        return bool(eval(expr, {}, {'context': ctx}))
    except BaseException:
        return False


class TopicKind(Kind):
    """cfg: filters = [(id, exprname), ...] present from the start."""
    name = 'topic'

    def new_filter(self, fid, expr):
        from zope.index.topic.filter import PythonFilteredSet
        fam = self.cfg.get('family')
        if fam:
            return PythonFilteredSet(fid, EXPRS[expr], FAMILY[fam])
        return PythonFilteredSet(fid, EXPRS[expr])

    def make(self):
        from zope.index.topic import TopicIndex
        fam = self.cfg.get('family')
        x = TopicIndex(FAMILY[fam]) if fam else TopicIndex()
        for fid, expr in self.cfg.get('filters', ()):
            x.addFilter(self.new_filter(fid, expr))
        return x

    def model(self):
        return {fid: [expr, set()]
                for fid, expr in self.cfg.get('filters', ())}

    def ctx(self, n):
        if n is None:
            return Ctx()
        return Ctx(n=n, meta_type='Doc' if n == 1 else 'Other')

    def do(self, x, op):
        o = op[0]
        if o == 'i':
            x.index_doc(op[1], self.ctx(op[2]))
        elif o == 'u':
            x.unindex_doc(op[1])
        elif o == 'c':
            x.clear()
        elif o == 'add':
            x.addFilter(self.new_filter(op[1], op[2]))
        elif o == 'del':
            x.delFilter(op[1])
        elif o == 'cf':
            x.clearFilters()
        elif o == 'fc':
            x._filters[op[1]].clear()
        elif o == 'se':
            x._filters[op[1]].setExpression(EXPRS[op[2]])

    def enabled(self, m, op):
        return op[0] not in ('del', 'fc', 'se') or op[1] in m

    def do_model(self, m, op):
        o = op[0]
        if o == 'i':
            for expr, ids in m.values():
                if satisfied(EXPRS[expr], self.ctx(op[2])):
                    ids.add(op[1])
                else:
                    ids.discard(op[1])
        elif o == 'u':
            for expr, ids in m.values():
                ids.discard(op[1])
        elif o == 'c':
            m.clear()
        elif o == 'add':
            m[op[1]] = [op[2], set()]
        elif o == 'del':
            del m[op[1]]
        elif o == 'cf':
            for f in m.values():
                f[1].clear()
        elif o == 'fc':
            m[op[1]][1].clear()
        elif o == 'se':
            m[op[1]][0] = op[2]

    def sets(self, ids):
        """The sets of filters to ask for."""
        qs = self.cfg.get('sets')
        if qs is None:
            return subsets(ids)
        return [tuple(f for f in q if f in ids) for q in qs]

    def answers(self, x, m):
        r = {}
        ids = sorted(m)
        r['ids'] = sorted(x._filters.keys())
        for f in ids:
            r['hold', f] = sorted(x._filters[f].getIds())
            r['expr', f] = x._filters[f].getExpression()
        for q in self.sets(ids):
            for op in ('and', 'or'):
                r[op, q] = sorted(x.search(list(q), op))
            r['apply', q] = sorted(x.apply(q))
            # naming a filter twice changes nothing
            r['twice', q] = sorted(x.search(q[:1] + q + q[-1:]))
        for f in ids:
            r['str', f] = sorted(x.apply(f))
        gone = tuple(ids) + ('gone',)
        r['or', gone] = sorted(x.search(gone, 'or'))
        return r

    def expected(self, m):
        r = {}
        ids = sorted(m)
        r['ids'] = ids
        for f in ids:
            r['hold', f] = sorted(m[f][1])
            r['expr', f] = EXPRS[m[f][0]]
        for q in self.sets(ids):
            for op in ('and', 'or'):
                r[op, q] = topic_search(m, q, op)
            r['apply', q] = r['twice', q] = topic_search(m, q, 'and')
        for f in ids:
            r['str', f] = sorted(m[f][1])
        gone = tuple(ids) + ('gone',)
        r['or', gone] = topic_search(m, ids, 'or')
        return r


def topic_search(m, q, op):
    if not q:
        return []
    sets = [m[f][1] for f in q]
    return sorted(set.intersection(*sets) if op == 'and'
                  else set.union(*sets))


def subsets(xs):
    r = [()]
    for x in xs:
        r += [s + (x,) for s in r]
    return r


# ----------------------------------------------------------------- text

class TextKind(Kind):
    """cfg: rank okapi|cosine, pipe (see textref.PIPES), family, ctor (how
    the index is made: default|lexicon|index), queries (for TextIndex.apply), terms/phrases/globs (for the index)."""
    name = 'text'

    def make_lexicon(self):
        return textref.make_lexicon(self.cfg.get('pipe', 'std'))

    def make_index(self, lexicon):
        c = rankclass(self.cfg.get('rank'))
        fam = self.cfg.get('family')
        return c(lexicon, FAMILY[fam]) if fam else c(lexicon)

    def make(self):
        from zope.index.text.textindex import TextIndex
        ctor = self.cfg.get('ctor')
        if ctor == 'default':       # Okapi, standard pipeline, 32 bit
            return TextIndex()
        lexicon = self.make_lexicon()
        if ctor == 'lexicon':
            return TextIndex(lexicon)
        if ctor == 'index':
            return TextIndex(index=self.make_index(lexicon))
        return TextIndex(lexicon, self.make_index(lexicon))

    def model(self):
        return textref.Model(self.cfg.get('rank'), self.cfg.get('pipe', 'std'))

    def do(self, x, op):
        if op[0] == 'i':
            x.index_doc(op[1], op[2])
        elif op[0] == 'u':
            x.unindex_doc(op[1])
        elif op[0] == 'c':
            x.clear()
        elif op[0] == 'src':
            x.lexicon.sourceToWordIds(op[1])

    def do_model(self, m, op):
        if op[0] == 'i':
            m.index(op[1], op[2])
        elif op[0] == 'u':
            m.docs.pop(op[1], None)
        elif op[0] == 'c':
            m.docs.clear()

    def answers(self, x, m):
        r = {'count': x.documentCount(), 'words': x.wordCount(),
             'icount': x.index.documentCount(), 'iwords': x.index.wordCount()}
        for d in self.cfg.get('ids', ()) or sorted(m.docs):
            r['has', d] = bool(x.index.has_doc(d))
        for d in sorted(m.docs):
            get = x.lexicon.get_word
            r['get', d] = [get(w) for w in x.index.get_words(d)]
        for q in self.cfg.get('terms', ()):
            r['term', q] = mapping(x.index.search(q))
        for q in self.cfg.get('phrases', ()):
            r['phrase', q] = mapping(x.index.search_phrase(q))
        for q in self.cfg.get('globs', ()):
            r['glob', q] = mapping(x.index.search_glob(q))
        for q in self.cfg.get('weights', ()):
            r['qw', q] = float(x.index.query_weight(list(q)))
        for q in self.cfg.get('queries', ()):
            r['apply', q] = mapping(x.apply(q))
        return r

    def expected(self, m):
        r = {'count': len(m.docs), 'words': len(m.words()),
             'icount': len(m.docs), 'iwords': len(m.words())}
        for d in self.cfg.get('ids', ()) or sorted(m.docs):
            r['has', d] = d in m.docs
        for d in sorted(m.docs):
            r['get', d] = list(m.docs[d])
        for q in self.cfg.get('terms', ()):
            r['term', q] = m.search(q)
        for q in self.cfg.get('phrases', ()):
            r['phrase', q] = m.search_phrase(q)
        for q in self.cfg.get('globs', ()):
            r['glob', q] = m.search_glob(q)
        for q in self.cfg.get('weights', ()):
            r['qw', q] = m.query_weight(q)
        for q in self.cfg.get('queries', ()):
            r['apply', q] = m.apply(q)
        return r

    def rebuild(self, m):
        return [('i', d, m.texts[d]) for d in sorted(m.docs)]


def rankclass(rank):
    if rank == 'okapi':
        from zope.index.text.okapiindex import OkapiIndex
        return OkapiIndex
    if rank == 'okapipy':
        return pure_okapi().OkapiIndex
    from zope.index.text.cosineindex import CosineIndex
    return CosineIndex


PURE = 'zope.index.text.okapiindex_pure'


def pure_okapi():
    """okapiindex, imported a second time without the compiled scorer."""
    if PURE not in sys.modules:
        from zope.index.text import okapiindex
        spec = importlib.util.spec_from_file_location(
            PURE, okapiindex.__file__)
        m = importlib.util.module_from_spec(spec)
        c = 'zope.index.text.okascore'
        saved = sys.modules.get(c)
        sys.modules[PURE] = m
        sys.modules[c] = None       # raises ModuleNotFoundError
        try:
            spec.loader.exec_module(m)
        finally:
            del sys.modules[c]
            if saved is not None:
                sys.modules[c] = saved
    return sys.modules[PURE]


def mapping(r):
    return None if r is None else {k: float(v) for k, v in r.items()}


# ------------------------------------------------------------- as system

KINDS = {'field': FieldKind, 'keyword': KeywordKind, 'topic': TopicKind,
         'text': TextKind}


class St:
    """A state: real object and model."""
    pass


class KindSystem(engine.System):
    """cfg: kind, ops, and what the kind wants."""
    name = 'kind'
    uses_init = True

    def __init__(self, cfg):
        engine.System.__init__(self, cfg)
        self.kind = KINDS[cfg['kind']](cfg)

    def start(self):
        st = St()
        st.x = self.kind.make()
        st.m = self.kind.model()
        return st

    def ops(self, st):
        en = getattr(self.kind, 'enabled', None)
        if en is None:
            return list(self.cfg['ops'])
        return [op for op in self.cfg['ops'] if en(st.m, op)]

    def step(self, st, op):
        en = getattr(self.kind, 'enabled', None)
        if en is not None and not en(st.m, op):
            return
        self.kind.do(st.x, op)
        self.kind.do_model(st.m, op)

    def check(self, st):
        got = self.kind.answers(st.x, st.m)
        d = diff_answers(got, self.kind.expected(st.m))
        if d:
            raise Violation('%s gives %s, expected %s' % (
                show(d[0]), show(d[1]), show(d[2])))


# ------------------------------------------- text indexes sharing a lexicon

class PairKind(Kind):
    """cfg: ranks, families; operations are (number of the index, op).

    A model is a list of text models; 'src' operations name no index.
    """
    name = 'pair'

    def __init__(self, cfg):
        Kind.__init__(self, cfg)
        fams = cfg.get('families') or (cfg.get('family'),) * len(cfg['ranks'])
        self.kinds = [TextKind(dict(cfg, kind='text', rank=r, family=f))
                      for r, f in zip(cfg['ranks'], fams)]

    def make(self):
        from persistent.list import PersistentList
        from zope.index.text.textindex import TextIndex
        lexicon = self.kinds[0].make_lexicon()
        return PersistentList(
            [TextIndex(lexicon, k.make_index(lexicon)) for k in self.kinds])

    def model(self):
        return [k.model() for k in self.kinds]

    def do(self, x, op):
        i, op = op
        self.kinds[i].do(x[i], op)

    def do_model(self, m, op):
        i, op = op
        self.kinds[i].do_model(m[i], op)

    def answers(self, x, m):
        r = {}
        for i, k in enumerate(self.kinds):
            for q, a in k.answers(x[i], m[i]).items():
                r[i, q] = a
        return r

    def expected(self, m):
        r = {}
        for i, k in enumerate(self.kinds):
            for q, a in k.expected(m[i]).items():
                r[i, q] = a
        return r


KINDS['pair'] = PairKind
