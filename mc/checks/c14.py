"""C14 Text is split and normalized as documented, alike for sources and
queries."""
import itertools

from mc import textref
from mc.core import Violation, show

ELEMENTS = ('splitter', 'lower', 'stop', 'stop1', 'html')
CLASSES = 'aZ_9 -*?<>&;'
CHARSETS = {
    'classes': CLASSES,
    'wide': 'a\xe9\u0130\xdf\u0301\u2019\U00010400\u4e2d\x00\n1',
    'markup': '<>&;aB /?"',
    'glob': 'ab*? .',
}


def call(f, arg):
    try:
        return list(f(arg))
    except Exception as e:
        return repr(e)


def one(name, real, lst):
    """Process and processGlob of one element."""
    for mode, f in ((0, real.process),
                    (1, getattr(real, 'processGlob', real.process))):
        arg = list(lst)
        got = call(f, arg)
        want = textref.REF[name][mode](list(lst))
        if got != want or arg != list(lst):
            raise Violation('%s of %s gives %s, expected %s' % (
                '%s.%s' % (name, ('process', 'processGlob')[mode]),
                show(lst), show(got), show(want)),
                dict(sys='one', name=name, ops=list(lst)))


def item_strings(ctx, name, chars, n, first):
    real = textref.real_element(name)
    for k in range(n) if first else (0,):
        for rest in itertools.product(chars, repeat=k):
            s = first + ''.join(rest)
            one(name, real, [s])
            ctx.trans(2)
            ctx.state((name, s))
    ctx.trace()
    ctx.sample({'element': name, 'last text': s})


def item_lists(ctx, name):
    real = textref.real_element(name)
    parts = ('', 'foo', 'The', 'a', 'Foo bar', 'x<b', 'c>y', 'the*', '&', 'é')
    for k in range(4):
        for lst in itertools.product(parts, repeat=k):
            one(name, real, lst)
            ctx.trans(2)
            ctx.state((name, lst))
    ctx.trace()


def item_codepoints(ctx, name, lo, hi):
    real = textref.real_element(name)
    for cp in range(lo, hi):
        if 0xd800 <= cp < 0xe000:
            continue
        c = chr(cp)
        for s in (c, 'a' + c + 'b', 'a' + c, c + 'b', 'a*' + c + '?',
                  '<' + c + '>', '&' + c + ';', c + c + ' ' + c):
            one(name, real, [s])
            ctx.trans(2)
        ctx.state((name, cp))
    ctx.trace()


def item_stop(ctx, name):
    """Exactly the documented words are removed."""
    real = textref.real_element(name)
    words = sorted(textref.stopwords())
    near = set()
    for w in words:
        near |= {w, w.upper(), w.title(), w + 's', w[1:], w[:-1], 'x' + w,
                 w + ' ', w + '*', w + w}
    for w in sorted(near):
        one(name, real, [w])
        one(name, real, [w, 'foo', w, 'bar'])
        ctx.trans(4)
        ctx.state((name, w))
    one(name, real, words + ['foo'] + words)
    for cp in range(1000):
        one(name, real, ['foo', chr(cp), 'bar', chr(cp) * 2])
        ctx.trans(2)
        ctx.state((name, cp))
    ctx.trace()


def item_shared(ctx):
    """The stop word dictionaries handed out are independent."""
    from zope.index.text.stopdict import get_stopdict
    d = get_stopdict()
    if set(d) != textref.stopwords():
        raise Violation('get_stopdict differs: %s' % show(
            sorted(set(d) ^ textref.stopwords())))
    for order in itertools.permutations(('stop', 'stop1', 'lower')):
        for a in order:
            one(a, textref.real_element(a), ['a', 'x', 'the', 'foo', 'The'])
            ctx.trans()
    ctx.state('shared')
    ctx.trace()


def agree(pipe, lexicon, text):
    """Indexing and querying wildcard-free text gives the same words."""
    src = [lexicon.get_word(i) for i in lexicon.sourceToWordIds(text)]
    want = textref.process(pipe, text)
    ids = lexicon.termToWordIds(text)
    term = [lexicon.get_word(i) if i else None for i in ids]
    query = list(lexicon.parseTerms(text))
    if not src == want == term == query:
        raise Violation('%r with %s: source %s, term %s, query %s, '
                        'expected %s' % (text, pipe, show(src), show(term),
                                         show(query), show(want)),
                        dict(sys='agree', pipe=pipe, ops=[text]))


def item_agree(ctx, pipe, chars, n, first):
    lexicon = textref.make_lexicon(pipe)
    for k in range(n) if first else (0,):
        for rest in itertools.product(chars, repeat=k):
            agree(pipe, lexicon, first + ''.join(rest))
            ctx.trans(3)
    ctx.trace()
    ctx.state((pipe, chars, first))


def item_agree_chars(ctx, pipe, lo, hi):
    lexicon = textref.make_lexicon(pipe)
    for cp in range(lo, hi):
        if 0xd800 <= cp < 0xe000 or chr(cp) in '*?':
            continue
        c = chr(cp)
        for s in (c, 'A' + c + 'B x', c + ' the ' + c):
            agree(pipe, lexicon, s)
            ctx.trans(3)
        ctx.state((pipe, cp))
    ctx.trace()


def item_glob(ctx, pipe, n, first):
    """Query words of text with wildcards."""
    lexicon = textref.make_lexicon(pipe)
    chars = 'aT*? -e'
    for k in range(n):
        for rest in itertools.product(chars, repeat=k):
            s = first + ''.join(rest)
            for text in (s, [s], [s, 'the x*']):
                got = list(lexicon.parseTerms(text))
                want = textref.process_glob(pipe, text)
                if got != want:
                    raise Violation('parseTerms %r with %s: %r, expected %r'
                                    % (text, pipe, got, want))
                got = len(lexicon.termToWordIds(text))
                want = len(textref.process(pipe, text))
                if got != want:
                    raise Violation('termToWordIds %r with %s: %d words, '
                                    'expected %d' % (text, pipe, got, want))
                ctx.trans(2)
            ctx.state((pipe, s))
    ctx.trace()


def item_long(ctx, name):
    """Long texts and words."""
    real = textref.real_element(name)
    for n in tuple(range(1, 132)) + (199, 200, 255, 256, 257, 512, 513, 1000,
                                     1023, 1024, 1025, 5000):
        for s in ('a' * n, 'a ' * n, 'the ' * n, '<b>a' * n, '&amp;x ' * n,
                  'a' * n + '<' * n, '&' * n + 'a;', 'a*' * n, '*' * n,
                  '<' * n + 'a' + '>' * n, '&' + 'a' * n + ';',
                  '<' + 'a ' * n + '>b', '<' + 'a\n' * n):
            one(name, real, [s])
            ctx.trans(2)
            ctx.state((name, n, s[:8]))
    ctx.trace()


def items(tier):
    deep = tier == 'thorough'
    r = []
    for name in ELEMENTS:
        for cs, chars in CHARSETS.items():
            n = {'classes': 5, 'wide': 4, 'markup': 5, 'glob': 5}[cs]
            if cs == 'markup' and name != 'html':
                continue
            n += deep
            if name in ('lower', 'stop', 'stop1') and not deep:
                n -= 1
            for c in [''] + list(chars):
                r.append(('s-%s-%s-%r' % (name, cs, c), 'item_strings', name,
                          chars, n, c))
        r.append(('lists-' + name, 'item_lists', name))
        r.append(('stop-' + name, 'item_stop', name))
        r.append(('long-' + name, 'item_long', name))
        for lo in range(0, 0x110000 if deep else 0x20000, 0x2000):
            r.append(('cp-%s-%x' % (name, lo), 'item_codepoints', name, lo,
                      lo + 0x2000))
    r.append(('shared', 'item_shared'))
    for pipe in textref.PIPES:
        for c in [''] + list('aZ_ -<>&;'):
            r.append(('agree-%s-%r' % (pipe, c), 'item_agree', pipe,
                      'aZ_ -<>&;', 6 if deep else 5, c))
        for c in ['', 'a', 'T', '*', '?', 'the', ' ']:
            r.append(('glob-%s-%r' % (pipe, c), 'item_glob', pipe,
                      6 if deep else 4, c))
        for lo in range(0, 0x110000 if deep else 0x4000, 0x1000):
            r.append(('agreecp-%s-%x' % (pipe, lo), 'item_agree_chars', pipe,
                      lo, lo + 0x1000))
    return r


def run_case(case, ctx):
    if case['sys'] == 'one':
        name = case['name']
        one(name, textref.real_element(name), case['ops'])
    else:
        for t in case['ops']:
            agree(case['pipe'], textref.make_lexicon(case['pipe']), t)


BOUNDS = {
    'quick': 'every string <=4..5 over 12 character classes, 10 markup, 6 '
             'wildcard and 11 wide characters, for each of 5 elements in '
             'both modes; every list of <=3 of 10 texts; every character '
             'below U+20000 in 8 positions; all stop words and neighbours; '
             'source/query agreement of 6 pipelines on all strings <=5 over 9 '
             'characters; texts and words of every length to 131 and to '
             '20000 characters',
    'thorough': 'strings one longer, all of Unicode',
}
