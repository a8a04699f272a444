"""Index kinds stored in a ZODB: real storage, connections, transactions."""
import copy
import gc
import logging

import transaction
from ZODB.DB import DB
from ZODB.DemoStorage import DemoStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import POSKeyError, StorageError

from mc import textref
from mc.core import HarnessError, Violation, diff_answers, show
from mc.kinds import KINDS

logging.disable(logging.CRITICAL)


class Abort(Exception):
    """Makes a commit fail while voting."""


class Failing:
    """A data manager that refuses to commit."""
    transaction_manager = None

    def abort(self, txn):
        pass
    tpc_begin = commit = tpc_finish = tpc_abort = abort

    def tpc_vote(self, txn):
        raise Abort()

    def sortKey(self):
        return '~last'


class Faulty(DemoStorage):
    """Raises at the countdown-th load while armed."""
    countdown = None
    error = None
    hits = 0
    loads = 0

    def loadBefore(self, oid, tid):
        self.loads += 1
        if self.countdown is not None:
            if self.countdown == 0:
                self.hits += 1
                if self.error == 'key':
                    raise POSKeyError(oid)
                raise StorageError('injected')
            self.countdown -= 1
        return DemoStorage.loadBefore(self, oid, tid)

    def arm(self, k, error):
        self.countdown, self.error, self.hits = k, error, 0

    def disarm(self):
        self.countdown = None
        return self.hits


_bases = {}
_count = 0


class Kinded:
    """What a kind stored in a database answers, the lexicon included."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.kind = KINDS[cfg['kind']](cfg)
        self.textual = cfg['kind'] in ('text', 'pair')

    def model(self):
        return {'m': self.kind.model(), 'vocab': set()}

    def enabled(self, m, op):
        en = getattr(self.kind, 'enabled', None)
        return en is None or en(m['m'], op)

    def do_model(self, m, op):
        self.kind.do_model(m['m'], op)
        if self.textual:
            if self.cfg['kind'] == 'pair':
                op = op[1]
            text = {'i': 2, 'src': 1}.get(op[0])
            if text is not None:
                text = op[text]
                m['vocab'].update(textref.process(
                    self.cfg.get('pipe', 'std'),
                    '' if text is None else text))

    def do(self, x, op):
        self.kind.do(x, op)

    def lexicon(self, x):
        return x[0].lexicon if self.cfg['kind'] == 'pair' else x.lexicon

    def answers(self, x, m):
        r = self.kind.answers(x, m['m'])
        if self.textual:
            r.update(lexicon_answers(self.lexicon(x)))
        return r

    def expected(self, m):
        r = self.kind.expected(m['m'])
        if self.textual:
            r['lexicon words'] = sorted(m['vocab'])
            r['lexicon count'] = len(m['vocab'])
            r['lexicon'] = True
        return r

    def compare(self, x, m, where):
        d = diff_answers(self.answers(x, m), self.expected(m))
        if d:
            raise Violation('%s: %s gives %s, expected %s' % (
                where, show(d[0]), show(d[1]), show(d[2])))


def lexicon_answers(lex):
    words = sorted(lex.words())
    ok = True
    wids = [lex.get_wid(w) for w in words]
    if len(set(wids)) != len(words) or any(w < 1 for w in wids):
        ok = 'ids %s of %s' % (wids, words)
    elif [lex.get_word(w) for w in wids] != words:
        ok = 'words of ids %s are %s instead of %s' % (
            wids, [lex.get_word(w) for w in wids], words)
    elif sorted(lex.wids()) != sorted(wids):
        ok = 'wids() %s, ids %s' % (sorted(lex.wids()), wids)
    return {'lexicon words': words, 'lexicon count': lex.wordCount(),
            'lexicon': ok}


def base(kinded, init):
    """(storage with the index after *init*, its model), made once.

    Whatever is done to it later happens in a DemoStorage on top of it.
    """
    key = (repr(sorted(kinded.cfg.items())), repr(init))
    if key not in _bases:
        if len(_bases) > 40:
            _bases.clear()
        storage = MappingStorage()
        tm = transaction.TransactionManager()
        db = DB(storage)
        conn = db.open(tm)
        x = conn.root()['x'] = kinded.kind.make()
        m = kinded.model()
        tm.commit()
        for i, op in enumerate(init):
            kinded.do(x, op)
            kinded.do_model(m, op)
            if i % 7 == 6:
                tm.commit()
        tm.commit()
        conn.close()
        _bases[key] = storage, m
    storage, m = _bases[key]
    return storage, copy.deepcopy(m)


def database(storage):
    """A throw-away database on top of *storage*."""
    global _count
    _count += 1
    if _count % 300 == 0:
        gc.collect()
    demo = Faulty(base=storage, changes=MappingStorage(),
                  close_base_on_close=False)
    demo._next_oid = 1 << 40
    return demo, DB(demo, cache_size=100000)
