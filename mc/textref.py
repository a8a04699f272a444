"""Reference model of text indexing: pipeline, query language, retrieval,
ranking.  Written from the documentation, shares no code with zope.index.
"""
import math

from mc.core import HarnessError
from mc.stopwords import WORDS


# ------------------------------------------------------------- pipeline

def wordchar(c):
    return c == '_' or c.isalnum()


def split(s):
    r, w = [], ''
    for c in s:
        if wordchar(c):
            w += c
        elif w:
            r.append(w)
            w = ''
    if w:
        r.append(w)
    return r


def split_glob(s):
    """Runs that start with a word character and go on with those or * ?"""
    r, w = [], ''
    for c in s:
        if wordchar(c) or (w and c in '*?'):
            w += c
        elif w:
            r.append(w)
            w = ''
    if w:
        r.append(w)
    return r


def unmarkup(s):
    """Replace tags and named entities by a blank, leftmost first."""
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == '<':
            j = i + 1
            while j < n and s[j] not in '<>':
                j += 1
            if j < n and s[j] == '>':
                out.append(' ')
                i = j + 1
                continue
        elif s[i] == '&':
            j = i + 1
            while j < n and ('a' <= s[j] <= 'z' or 'A' <= s[j] <= 'Z'):
                j += 1
            if j > i + 1 and j < n and s[j] == ';':
                out.append(' ')
                i = j + 1
                continue
        out.append(s[i])
        i += 1
    return ''.join(out)


def stopwords():
    return WORDS


# pipe name -> list of reference elements: (process, processGlob)
def _each(f):
    return lambda ws: [y for w in ws for y in f(w)]


REF = {
    'splitter': (_each(split), _each(split_glob)),
    'html': (_each(lambda s: split(unmarkup(s.lower()))),
             _each(lambda s: split_glob(unmarkup(s.lower())))),
    'lower': (_each(lambda w: [w.lower()]),) * 2,
    'stop': (_each(lambda w: [] if w in stopwords() else [w]),) * 2,
    'stop1': (_each(lambda w: [] if w in stopwords()
                    or (len(w) == 1 and ord(w) < 255) else [w]),) * 2,
}

PIPES = {
    'none': [],
    'split': ['splitter'],
    'lower': ['splitter', 'lower'],
    'std': ['splitter', 'lower', 'stop'],
    'stop1': ['splitter', 'lower', 'stop1'],
    'html': ['html', 'stop'],
}


def real_element(name):
    from zope.index.text import htmlsplitter
    from zope.index.text import lexicon
    return {'splitter': lexicon.Splitter,
            'lower': lexicon.CaseNormalizer,
            'stop': lexicon.StopWordRemover,
            'stop1': lexicon.StopWordAndSingleCharRemover,
            'html': htmlsplitter.HTMLWordSplitter}[name]()


def make_lexicon(pipe):
    from zope.index.text.lexicon import Lexicon
    return Lexicon(*[real_element(e) for e in PIPES[pipe]])


def process(pipe, text):
    ws = [text] if isinstance(text, str) else list(text)
    for e in PIPES[pipe]:
        ws = REF[e][0](ws)
    return ws


def process_glob(pipe, text):
    ws = [text] if isinstance(text, str) else list(text)
    for e in PIPES[pipe]:
        ws = REF[e][1](ws)
    return ws


def isglob(w):
    return '*' in w or '?' in w


def matches(pat, w):
    """Shell matching with * and ? only."""
    # dynamic programming over the pattern
    cur = {0}
    for c in pat:
        if c == '*':
            lo = min(cur) if cur else None
            cur = set() if lo is None else set(range(lo, len(w) + 1))
        else:
            cur = {i + 1 for i in cur
                   if i < len(w) and (c == '?' or w[i] == c)}
        if not cur:
            return False
    return len(w) in cur


# ------------------------------------------------------- query language

class RefParseError(Exception):
    pass


class RefQueryError(Exception):
    pass


def tokenize(q):
    """Tokens; a double quote without partner is only a separator."""
    toks, i, n = [], 0, len(q)

    def plain(j):
        while j < n and not q[j].isspace() and q[j] not in '()"':
            j += 1
        return j

    while i < n:
        c = q[i]
        if c in '()':
            toks.append(c)
            i += 1
            continue
        if c.isspace():
            i += 1
            continue
        h = 1 if c == '-' else 0
        if i + h < n and q[i + h] == '"':
            j = q.find('"', i + h + 1)
            if j >= 0:
                toks.append(q[i:j + 1])
                i = j + 1
                continue
        if c == '"':
            i += 1
            continue
        j = plain(i)
        toks.append(q[i:j])
        i = j
    return toks


KEYWORDS = ('AND', 'OR', 'NOT', '(', ')')


def parse(q, pipe):
    """(tree, ignored); tree is ('ATOM', w) ('PHRASE', [w]) ('GLOB', p)
    ('NOT', t) ('AND', [t]) ('OR', [t]).  RefParseError if not well-formed.
    """
    return parse_tokens(tokenize(q), pipe)


def parse_tokens(toks, pipe):
    p = _Parser(toks, pipe)
    tree = p.orexpr()
    if p.kind() != 'EOF':
        raise RefParseError('trailing %r' % p.toks[p.i:])
    if tree is None:
        raise RefParseError('only common words')
    return tree, p.ignored


class _Parser:
    def __init__(self, toks, pipe):
        self.toks = toks
        self.pipe = pipe
        self.i = 0
        self.ignored = []

    def kind(self):
        if self.i >= len(self.toks):
            return 'EOF'
        u = self.toks[self.i].upper()
        return u if u in KEYWORDS else 'ATOM'

    def accept(self, k):
        if self.kind() == k:
            self.i += 1
            return True
        return False

    def orexpr(self):
        alts = [self.andexpr()]
        while self.accept('OR'):
            alts.append(self.andexpr())
        alts = [a for a in alts if a is not None]
        if not alts:
            return None
        return alts[0] if len(alts) == 1 else ('OR', alts)

    def andexpr(self):
        pos, neg = [], []
        t = self.term()
        if t is not None:
            pos.append(t)
        while True:
            if self.accept('AND'):
                negated = self.accept('NOT')
            elif self.accept('NOT'):
                negated = True
            else:
                break
            t = self.term()
            if t is None:
                continue
            if negated:
                neg.append(('NOT', t))
            else:
                pos.append(t)
        if not pos:
            return None
        both = pos + neg
        return both[0] if len(both) == 1 else ('AND', both)

    def term(self):
        if self.accept('('):
            t = self.orexpr()
            if not self.accept(')'):
                raise RefParseError('no )')
            return t
        if self.kind() != 'ATOM':
            raise RefParseError('atom expected')
        pos, neg = [], []
        while self.kind() == 'ATOM':
            tok = self.toks[self.i]
            self.i += 1
            ws = process_glob(self.pipe, tok)
            if not ws:
                self.ignored.append(tok)
                continue
            if len(ws) > 1:
                t = ('PHRASE', ws)
            elif isglob(ws[0]):
                t = ('GLOB', ws[0])
            else:
                t = ('ATOM', ws[0])
            if tok[0] == '-':
                neg.append(('NOT', t))
            else:
                pos.append(t)
        if not pos and not neg:
            return None
        if not pos:
            raise RefParseError('a term needs a positive word')
        both = pos + neg
        return both[0] if len(both) == 1 else ('AND', both)


def terms(tree):
    k, v = tree
    if k == 'NOT':
        return []
    if k in ('AND', 'OR'):
        return [t for s in v for t in terms(s)]
    return [v]


def has_kind(tree, kind):
    k, v = tree
    if k == kind:
        return True
    if k in ('AND', 'OR'):
        return any(has_kind(s, kind) for s in v)
    if k == 'NOT':
        return has_kind(v, kind)
    return False


def tree_tuple(node):
    """The same form of a real parse tree (through its interface)."""
    k = node.nodeType()
    v = node.getValue()
    if k in ('AND', 'OR'):
        return (k, [tree_tuple(s) for s in v])
    if k == 'NOT':
        return (k, tree_tuple(v))
    return (k, v)


# ---------------------------------------------------- retrieval, ranking

class Model:
    """The current documents of a text index as lists of words."""

    def __init__(self, rank, pipe, vocab=None):
        self.rank = rank
        self.pipe = pipe
        self.docs = {}
        self.texts = {}
        # words the lexicon knows although no document has them (any more)
        self.vocab = set() if vocab is None else vocab

    def index(self, docid, text):
        self.docs[docid] = process(self.pipe, '' if text is None else text)
        self.texts[docid] = text

    def words(self):
        return {w for ws in self.docs.values() for w in ws}

    # scores of one word
    def idf(self, w):
        f = sum(1 for ws in self.docs.values() if w in ws)
        return math.log(1.0 + len(self.docs) / f)

    def word_scores(self, w):
        return cosine(self, w) if self.rank == 'cosine' else okapi(self, w)

    def union_sum(self, maps):
        r = {}
        for m in maps:
            for d, s in m.items():
                r[d] = r.get(d, 0.0) + s
        return r

    def inter_sum(self, maps):
        if not maps:
            return {}
        keys = set(maps[0])
        for m in maps[1:]:
            keys &= set(m)
        return {d: sum(m[d] for m in maps) for d in keys}

    def search(self, text):
        ws = process(self.pipe, text)
        if not ws:
            return None
        return self.search_words(ws)

    def search_words(self, ws):
        known = self.words()
        return self.union_sum([self.word_scores(w)
                               for w in ws if w in known])

    def search_phrase(self, text):
        ws = process(self.pipe, text)
        known = self.words()
        if not ws or any(w not in known for w in ws):
            return {}
        n = len(ws)
        hit = [d for d, doc in self.docs.items()
               if any(doc[i:i + n] == ws for i in range(len(doc) - n + 1))]
        scores = [self.word_scores(w) for w in ws]
        return {d: sum(s[d] for s in scores) for d in hit}

    def search_glob(self, pat):
        if pat[:1] in ('*', '?'):
            raise RefQueryError(pat)
        return self.union_sum([self.word_scores(w) for w in self.words()
                               if matches(pat, w)])

    def query_weight(self, terms):
        ws = [w for t in terms for w in process(self.pipe, t)]
        known = self.words()
        ws = [w for w in ws if w in known]
        if self.rank != 'cosine':
            return sum(2.2 * self.idf(w) for w in ws)
        per = {}
        for w in ws:
            per[w] = per.get(w, 0.0) + self.idf(w)
        return math.sqrt(sum(x * x for x in per.values()))

    def execute(self, tree):
        """Scores, or None for 'all documents' (a term of stop words)."""
        k, v = tree
        if k == 'ATOM':
            return self.search(v)
        if k == 'PHRASE':
            return self.search_phrase(v)
        if k == 'GLOB':
            return self.search_glob(v)
        if k == 'NOT':
            raise HarnessError('NOT executed')
        if k == 'OR':
            return self.union_sum([r for r in map(self.execute, v)
                                   if r is not None])
        pos = [r for r in (self.execute(s) for s in v if s[0] != 'NOT')
               if r is not None]
        neg = [r for r in (self.execute(s[1]) for s in v if s[0] == 'NOT')
               if r is not None]
        r = self.inter_sum(pos)
        return {d: s for d, s in r.items()
                if not any(d in n for n in neg)}

    def apply(self, q):
        tree, ignored = parse(q, self.pipe)
        r = self.execute(tree)
        if r:
            qw = self.query_weight(terms(tree)) or 1.0
            r = {d: s / qw for d, s in r.items()}
        return r


def okapi(m, w):
    k1, b = 1.2, 0.75
    mean = sum(len(ws) for ws in m.docs.values()) / len(m.docs)
    idf = m.idf(w)
    r = {}
    for d, ws in m.docs.items():
        f = ws.count(w)
        if f:
            tf = f * (k1 + 1) / (f + k1 * ((1 - b) + b * len(ws) / mean))
            r[d] = tf * idf
    return r


def cosine(m, w):
    idf = m.idf(w)
    r = {}
    for d, ws in m.docs.items():
        f = ws.count(w)
        if f:
            counts = {}
            for x in ws:
                counts[x] = counts.get(x, 0) + 1
            W = math.sqrt(sum((1 + math.log(c)) ** 2
                              for c in counts.values()))
            r[d] = (1 + math.log(f)) / W * idf
    return r
