"""C13 The lexicon is a stable bijection between words and ids."""
import itertools

from mc import engine
from mc import textref
from mc.core import Violation, show


class St:
    pass


class Sys(engine.System):
    """('s', text) source, ('t', text) term, ('p', text) parse,
    ('g', pattern) glob, ('w', word) ('n', wid) single lookups.

    The model maps each word to the id it was first seen with.
    """
    name = 'lexicon'

    def start(self):
        st = St()
        if self.cfg.get('default'):
            from zope.index.text.textindex import TextIndex
            st.x = TextIndex().lexicon
        else:
            st.x = textref.make_lexicon(self.cfg['pipe'])
        st.m = {}
        return st

    def ops(self, st):
        return self.cfg['ops']

    def step(self, st, op):
        x, m = st.x, st.m
        o, arg = op
        pipe = self.cfg['pipe']
        if o == 's':
            ws = textref.process(pipe, '' if arg is None else arg)
            got = x.sourceToWordIds(arg)
            if not isinstance(got, list) or len(got) != len(ws):
                raise Violation('ids %s of the words %s' % (
                    show(got), show(ws)))
            for w, i in zip(ws, got):
                if w not in m:
                    if i in m.values():
                        raise Violation('new word %r gets the id %r of %r' % (
                            w, i, [v for v in m if m[v] == i]))
                    m[w] = i
                elif m[w] != i:
                    raise Violation('word %r has id %r, was %r' % (
                        w, i, m[w]))
        elif o == 't':
            got = x.termToWordIds(arg)
            want = [m.get(w, 0) for w in textref.process(pipe, arg)]
            if got != want:
                raise Violation('term %r: %r, expected %r' % (arg, got, want))
        elif o == 'p':
            got = x.parseTerms(arg)
            want = textref.process_glob(pipe, arg)
            if list(got) != want:
                raise Violation('parseTerms %r: %r, expected %r' % (
                    arg, got, want))
        elif o == 'g':
            got = sorted(x.globToWordIds(arg))
            want = sorted(i for w, i in m.items() if textref.matches(arg, w))
            if got != want:
                raise Violation('glob %r: %r, expected %r' % (arg, got, want))
        elif o == 'w':
            if x.get_wid(arg) != m.get(arg, 0):
                raise Violation('id of %r is %r, expected %r' % (
                    arg, x.get_wid(arg), m.get(arg, 0)))
        elif o == 'n':
            known = {i: w for w, i in m.items()}
            try:
                got = x.get_word(arg)
            except KeyError:
                got = None
            if got != known.get(arg):
                raise Violation('word of id %r is %r, expected %r' % (
                    arg, got, known.get(arg)))

    def check(self, st):
        x, m = st.x, st.m
        ids = sorted(m.values())
        if len(set(ids)) != len(ids) or (ids and (
                ids[0] < 1 or any(type(i) is not int for i in ids))):
            raise Violation('ids are %s' % show(ids))
        if x.wordCount() != len(m):
            raise Violation('word count %r, there are %d words' % (
                x.wordCount(), len(m)))
        if sorted(x.words()) != sorted(m) or len(x.words()) != len(m):
            raise Violation('words are %s, expected %s' % (
                show(list(x.words())), show(sorted(m))))
        if sorted(x.wids()) != ids:
            raise Violation('ids are %s, expected %s' % (
                show(list(x.wids())), show(ids)))
        if sorted(x.items()) != sorted(m.items()):
            raise Violation('items are %s, expected %s' % (
                show(list(x.items())), show(sorted(m.items()))))
        for w, i in m.items():
            if x.get_wid(w) != i or x.get_word(i) != w:
                raise Violation('%r and %r are not paired: %r' % (
                    w, i, x.get_wid(w)))
        for w in ('unknown', 'fo', 'fooo', 'FOO', '\x00', ''):
            if w not in m and x.get_wid(w) != 0:
                raise Violation('unknown word %r has id %r' % (
                    w, x.get_wid(w)))
        top = max(ids, default=0)
        for i in (0, -1, top + 1, top + 2, 2**31 - 1):
            if i not in ids:
                try:
                    w = x.get_word(i)
                except KeyError:
                    pass
                else:
                    raise Violation('unknown id %r has the word %r' % (i, w))
        if x.wordCount() != len(m):
            raise Violation('lookups changed the word count')


OPS = [('s', 'foo'), ('s', 'bar'), ('s', 'foo bar foo'), ('s', 'baz foo the'),
       ('s', ''), ('s', None), ('s', ['Bar', 'qux foo']), ('t', 'foo new bar'),
       ('t', 'new new'), ('t', ''), ('t', ['foo', 'bar baz']), ('p', 'zap fo*'),
       ('p', ['foo', 'ba?']), ('g', 'f*'), ('g', 'zip'), ('g', 'new*'),
       ('g', 'ba?'), ('w', 'foo'), ('w', 'zop'), ('n', 1), ('n', 3), ('n', 77)]


def item_bfs(ctx, c, depth):
    closed = engine.bfs(Sys(c), ctx, depth)
    ctx.add('closed', int(closed))


def item_tree(ctx, c, depth, prefix):
    engine.tree(Sys(c), ctx, depth, prefix)


def word(i, style):
    if style == 'up':
        return 'w%05d' % i
    if style == 'down':
        return 'w%05d' % (99999 - i)
    if style == 'mix':
        return 'w%d' % (i * 7919 % 100003)
    return chr(0x4e00 + i) + 'x' * (i % 3)


def item_sweep(ctx, top, style, batch):
    """Vocabularies of every size, in text of several words."""
    s = Sys(dict(pipe='lower', ops=[]))
    st = s.start()
    done = []

    def do(op, check):
        done.append(op)
        engine.guard(s, done, s.step, st, op)
        if check:
            engine.guard(s, done, s.check, st)
            ctx.state((style, batch, len(done)))
        ctx.trans()
    i = 0
    k = 0
    while i < top:
        ws = [word(j, style) for j in range(i, min(i + batch, top))]
        ws += ws[:1] + [word(i // 2, style)]
        do(('s', ' '.join(ws)), k < 20 or k % 25 == 0)
        i += batch
        k += 1
        if k % 10 == 0:
            do(('t', ' '.join(ws) + ' never'), False)
            do(('g', ws[0][:3] + '*'), False)
    do(('s', ' '.join(word(j, style) for j in range(top))), True)
    do(('t', ' '.join(word(j, style) for j in range(top + 5))), True)
    ctx.trace()


def item_chars(ctx, lo, hi):
    """Every character as a word of a lexicon without pipeline."""
    s = Sys(dict(pipe='none', ops=[]))
    st = s.start()
    for cp in range(lo, hi):
        if 0xd800 <= cp < 0xe000:
            continue
        for w in (chr(cp), 'a' + chr(cp)):
            for op in (('w', w), ('t', w), ('s', [w]), ('s', w), ('t', w)):
                engine.guard(s, [op], s.step, st, op)
                ctx.trans()
        ctx.state(cp)
    engine.guard(s, [], s.check, st)
    ctx.trace()


def item_length(ctx, n):
    """Words of n characters that differ in the last, or the first."""
    p = 'w' * (n - 1)
    ws = [p + 'a', p + 'b', p + 'aa', p[:-1] + 'a', 'v' + p, p + '\u4e00']
    ops = [('s', w) for w in ws[:4]] + [
        ('s', ' '.join(ws)), ('s', ' '.join(ws[:1] * 2 + ws[2:3])),
        ('t', ' '.join(ws)), ('p', ' '.join(ws)), ('g', p + '*'),
        ('g', p + 'a?'), ('g', (p + 'a')[:9] + '*a'), ('w', ws[0]),
        ('w', ws[2])]
    engine.bfs(Sys(dict(pipe='std', ops=ops)), ctx, 2)


def items(tier):
    deep = tier == 'thorough'
    r = []
    for pipe in textref.PIPES:
        c = dict(pipe=pipe, ops=OPS)
        r.append(('bfs-' + pipe, 'item_bfs', c, None))
    r.append(('bfs-default', 'item_bfs', dict(
        pipe='std', default=True, ops=OPS), None))
    c = dict(pipe='std', ops=OPS)
    for p in OPS:
        for p2 in OPS if deep else [None]:
            r.append(('tree-%s-%s' % (p, p2), 'item_tree', c,
                      4 if deep else 3, (p, p2) if deep else (p,)))
    for style in ('up', 'down', 'mix', 'cjk'):
        for batch in (1, 7):
            r.append(('sweep-%s-%d' % (style, batch), 'item_sweep',
                      20000 if deep else 700 * batch, style, batch))
    for n in tuple(range(2, 71)) + (
            99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 500,
            512, 513, 1000, 1024, 1025, 5000):
        r.append(('length-%d' % n, 'item_length', n))
    for lo in range(0, 0x110000 if deep else 0x4000, 0x800):
        r.append(('chars-%x' % lo, 'item_chars', lo, lo + 0x800))
    return r


def run_case(case, ctx):
    engine.run_history(Sys(case['cfg']), case['ops'], ctx)


BOUNDS = {
    'quick': 'closure under 22 operations for 6 pipelines; every history of '
             '3 of them; vocabularies to 4900 words in 8 orders; words of 2 to '
             '70, and 5000 characters; every '
             'character below U+4000 as a word',
    'thorough': 'histories of 4; vocabularies of 20000; all of Unicode',
}
