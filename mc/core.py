"""Shared small things: violations, statistics, comparison."""
import math
import time


class Violation(Exception):
    """The property is broken by *case* (a JSON literal)."""

    def __init__(self, msg, case=None, key=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.case = case
        self.key = key      # identifies a known finding


class HarnessError(Exception):
    """A mistake of the machinery."""


class Ctx:
    """What an item of work reports."""

    def __init__(self, tier='quick', maxsamples=2):
        self.tier = tier
        self.maxsamples = maxsamples
        self.clear()

    def clear(self):
        self.counts = {}
        self.states = set()
        self.samples = []
        self.outcomes = set()
        self.known = []
        self.caps = []

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def trans(self, n=1):
        self.add('transitions', n)

    def trace(self, n=1):
        self.add('traces', n)

    def query(self, n=1):
        self.add('queries', n)

    def state(self, key):
        """Record a state; true if it is new."""
        if key in self.states:
            return False
        self.states.add(key)
        return True

    def outcome(self, o):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(o))

    def sample(self, s):
        if len(self.samples) < self.maxsamples:
            self.samples.append(s)

    def cap(self, what):
        self.caps.append(what)

    def finding(self, key, msg):
        """A known kind of failure that may be listed as known finding."""
        self.known.append((key, msg))

    def result(self):
        return dict(counts=self.counts, nstates=len(self.states),
                    outcomes=len(self.outcomes), samples=self.samples,
                    known=self.known, caps=self.caps)


REL = 1e-5
ABS = 1e-9


def close(a, b, rel=REL):
    return a == b or abs(a - b) <= max(rel * max(abs(a), abs(b)), ABS)


def same(a, b):
    """Deep equality, floats up to single precision."""
    if isinstance(a, float) or isinstance(b, float):
        try:
            if math.isnan(a) or math.isnan(b):
                return False
            return close(a, b)
        except TypeError:
            return False
    if isinstance(a, dict):
        if not isinstance(b, dict) or a.keys() != b.keys():
            return False
        return all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return all(same(x, y) for x, y in zip(a, b))
    return a == b


def show(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...'


def diff_answers(got, want):
    """The first question two answer dicts disagree about, or None."""
    for q in want:
        if q not in got:
            return q, '<not asked>', want[q]
        if not same(got[q], want[q]):
            return q, got[q], want[q]
    if len(got) != len(want):
        q = next(q for q in got if q not in want)
        return q, got[q], '<not asked>'
    return None


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % tuple(show(a) for a in args) if args else msg)


def raises(exc, f, *args, **kw):
    """f must raise (a subclass of) exc."""
    try:
        r = f(*args, **kw)
    except exc:
        return
    except Exception as e:
        raise Violation('%s expected, %r raised by %s%s' % (
            exc, e, getattr(f, '__name__', f), show(args)))
    raise Violation('%s expected, %s%s returned %s' % (
        exc, getattr(f, '__name__', f), show(args), show(r)))


class Clock:
    def __init__(self):
        self.t = time.time()

    def __call__(self):
        return time.time() - self.t
