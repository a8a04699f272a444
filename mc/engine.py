"""The history explorer.

A *system* couples real objects with a reference model:

    start()        -> st          fresh objects and a fresh model
    ops(st)        -> list        the operations enabled (literals)
    step(st, op)                  do it on both; raise Violation on difference
    check(st)                     the query battery; raise Violation
    key(st)        -> hashable    canonical complete state
"""
import itertools
import time
import traceback

from mc import canon
from mc.core import HarnessError, Violation, show


class System:
    name = ''
    uses_init = False       # cfg['init']: operations before every history

    def __init__(self, cfg):
        self.cfg = cfg

    def start(self):
        raise NotImplementedError

    def begin(self):
        st = self.start()
        if self.uses_init:
            for op in self.cfg.get('init', ()):
                self.init_step(st, op)
        return st

    def init_step(self, st, op):
        self.step(st, op)

    def ops(self, st):
        raise NotImplementedError

    def step(self, st, op):
        raise NotImplementedError

    def check(self, st):
        pass

    def key(self, st):
        return canon.digest(st)

    def case(self, ops):
        return {'sys': self.name, 'cfg': self.cfg, 'ops': list(ops)}


def guard(system, ops, f, *args):
    """Call f; whatever it raises becomes a Violation with the case."""
    try:
        return f(*args)
    except Violation as v:
        if v.case is None:
            v.case = system.case(ops)
            v.msg = '%s [%s %s]: %s' % (
                system.name, show(system.cfg), show(ops), v.msg)
        raise
    except (HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation('%s [%s %s]: unexpected %r at %s:%d' % (
            system.name, show(system.cfg), show(ops), e,
            tb.filename.rsplit('/', 2)[-1], tb.lineno),
            system.case(ops)) from e


def run_history(system, ops, ctx=None, battery=True, battery_first=True):
    """Every step, with the battery after each of them on the live object."""
    st = guard(system, [], system.begin)
    if battery and battery_first:
        guard(system, [], system.check, st)
    done = []
    for op in ops:
        done.append(op)
        guard(system, done, system.step, st, op)
        if battery:
            guard(system, done, system.check, st)
        if ctx is not None:
            ctx.trans()
    if ctx is not None:
        ctx.trace()
    return st


def _replay(system, hist):
    st = system.begin()
    for op in hist:
        system.step(st, op)
    return st


# A closure has some 2000 states; code that remembers more than what matters
# (a counter of changes, say) has a closure that does not end.
LIMITS = {'states': 5000, 'seconds': 90}


def bfs(system, ctx, depth=None, warm=False):
    """All states reachable within *depth* operations (None: to closure).

    The battery is run once in every state; returns whether closed.
    *warm*: also right before every operation, on the same objects.
    """
    until = time.monotonic() + LIMITS['seconds']
    st = guard(system, [], system.begin)
    k = system.key(st)
    ctx.state((system.name, repr(system.cfg), k))
    guard(system, [], system.check, st)
    seen = {k}
    frontier = [()]
    level = 0
    while frontier and (depth is None or level < depth):
        nxt = []
        for hist in frontier:
            base = guard(system, hist, _replay, system, hist)
            ops = system.ops(base)
            fresh = base
            leaf = True
            for op in ops:
                st = fresh if fresh is not None else guard(
                    system, hist, _replay, system, hist)
                fresh = None
                if warm:
                    guard(system, hist, system.check, st)
                h = hist + (op,)
                guard(system, h, system.step, st, op)
                ctx.trans()
                k = system.key(st)
                if k in seen:
                    continue
                seen.add(k)
                leaf = False
                ctx.state((system.name, repr(system.cfg), k))
                guard(system, h, system.check, st)
                nxt.append(h)
                if depth is None and (len(seen) >= LIMITS['states']
                                      or time.monotonic() > until):
                    ctx.cap('%d states, depth %d of %s' % (
                        len(seen), level, show(system.cfg, 120)))
                    return False
            if leaf:
                ctx.trace()
                if len(hist) > 1:
                    ctx.sample({'cfg': show(system.cfg, 120),
                                'history': show(hist)})
        frontier = nxt
        level += 1
    ctx.trace(len(frontier))
    for h in frontier[-1:]:
        ctx.sample({'cfg': show(system.cfg, 120), 'history': show(h)})
    ctx.add('maxdepth', 0)
    ctx.counts['maxdepth'] = max(ctx.counts['maxdepth'], level)
    return not frontier


def tree(system, ctx, depth, prefix=(), ops=None):
    """Every operation sequence of exactly *depth* (from *prefix*), nothing
    merged, battery after every step.  *ops* fixes the alphabet."""
    if ops is None:
        ops = system.ops(system.begin())
    n = 0
    for tail in itertools.product(ops, repeat=depth - len(prefix)):
        h = tuple(prefix) + tail
        run_history(system, h, ctx)
        n += 1
        if n == 1 or n == 1000:
            ctx.sample({'cfg': show(system.cfg, 120), 'history': show(h)})
    return n


def sharded(prefix_ops, k=1):
    """Prefixes to spread a tree over workers."""
    return list(itertools.product(prefix_ops, repeat=k))
