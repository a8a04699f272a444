"""Run one check: python -m mc.run C01, or --replay FILE."""
import argparse
import gc
import hashlib
import importlib
import datetime
import decimal
import fractions
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

from mc import boot
from mc.core import Ctx, HarnessError, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ITEM_LIMIT = 420        # seconds; far beyond any item, more is a hang


def load(cid):
    return importlib.import_module('mc.checks.' + cid.lower())


def run_case(mod, case):
    """Re-execute one recorded case; Violation or None."""
    ctx = Ctx()
    try:
        mod.run_case(case, ctx)
    except Violation as v:
        return v
    except HarnessError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return Violation('unexpected %r at %s:%d' % (
            e, tb.filename, tb.lineno), case)
    return None


def do_item(mod, item, tier):
    ctx = Ctx(tier)
    t = time.time()
    viol = None
    try:
        getattr(mod, item[1])(ctx, *item[2:])
    except Violation as v:
        viol = dict(msg=v.msg, case=v.case)
    except (HarnessError, MemoryError):
        raise
    except Exception as e:
        # Code under test may fail in a way that only our code notices.
        viol = dict(msg='unexpected %r\n%s' % (
            e, ''.join(traceback.format_tb(e.__traceback__)[-6:])), case=None)
    r = ctx.result()
    r['viol'] = viol
    r['label'] = item[0]
    r['wall'] = time.time() - t
    return r


def worker(mod, items, tier, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    gc.disable()
    while True:
        try:
            i = conn.recv()
        except EOFError:
            return
        if i is None:
            return
        try:
            r = do_item(mod, items[i], tier)
        except BaseException:
            r = dict(error=traceback.format_exc(), label=items[i][0])
        gc.collect()
        conn.send((i, r))


class Pool:
    def __init__(self, mod, items, tier, jobs):
        self.mod, self.items, self.tier = mod, items, tier
        self.mp = mp.get_context('fork')
        self.jobs = jobs

    def spawn(self):
        a, b = self.mp.Pipe()
        p = self.mp.Process(target=worker,
                            args=(self.mod, self.items, self.tier, b))
        p.start()
        b.close()
        return [p, a, None, 0]

    def run(self, on_result):
        todo = list(range(len(self.items)))
        todo.reverse()
        ws = [self.spawn() for i in range(min(self.jobs, len(todo)))]
        try:
            for w in ws:
                self.give(w, todo)
            while any(w[2] is not None for w in ws):
                busy = [w for w in ws if w[2] is not None]
                ready = mp.connection.wait([w[1] for w in busy], 5)
                for w in busy:
                    i = w[2]
                    if w[1] in ready:
                        try:
                            i, r = w[1].recv()
                        except (EOFError, OSError):
                            w[0].join()
                            r = dict(crash='process ended with %s'
                                     % w[0].exitcode)
                            if w[0].exitcode == -signal.SIGKILL:
                                r = dict(error='worker was killed')
                            w[:] = self.spawn()
                    elif time.time() - w[3] > ITEM_LIMIT:
                        os.kill(w[0].pid, signal.SIGKILL)
                        w[0].join()
                        r = dict(crash='no end after %d s' % ITEM_LIMIT)
                        w[:] = self.spawn()
                    else:
                        continue
                    w[2] = None
                    r.setdefault('label', self.items[i][0])
                    if on_result(self.items[i], r):
                        return
                    self.give(w, todo)
        finally:
            for w in ws:
                if w[2] is None:
                    try:
                        w[1].send(None)
                    except OSError:
                        pass
                else:
                    try:
                        os.kill(w[0].pid, signal.SIGKILL)
                    except OSError:
                        pass
            for w in ws:
                w[0].join(10)

    def give(self, w, todo):
        if todo:
            i = todo.pop()
            w[2], w[3] = i, time.time()
            w[1].send(i)


def fork_case(mod, case, limit=60):
    """Run a case in a forked process: message of the violation or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(limit)
            v = run_case(mod, case)
            os.write(w, b'-' if v is None
                     else b'+' + v.msg.encode('utf-8', 'replace')[:4000])
        except BaseException:
            os.write(w, b'!')
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    pid, status = os.waitpid(pid, 0)
    if data[:1] == b'+':
        return data[1:].decode('utf-8', 'replace')
    if os.WIFSIGNALED(status):
        return 'process ended by signal %d' % os.WTERMSIG(status)
    return None


def shrink(mod, case, limit=20):
    """Greedily drop operations while the case still fails."""
    if not isinstance(case, dict) or not isinstance(case.get('ops'), list):
        return case
    end = time.time() + limit
    ops = case['ops']
    step = max(1, len(ops) // 2)
    while step:
        i = 0
        while i < len(ops) and time.time() < end:
            c = dict(case, ops=ops[:i] + ops[i + step:])
            if fork_case(mod, c, 10):
                ops = c['ops']
            else:
                i += step
        step //= 2
    return dict(case, ops=ops)


def norm(x):
    """JSON does not know tuples, bytes...: cases are stored as literals."""
    return repr(x)


def write_replay(cid, viol):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=cid, message=viol['msg'], case=norm(viol['case']),
                item=norm(viol.get('item')))
    text = json.dumps(body, indent=1)
    name = '%s-%s.json' % (cid, hashlib.sha1(text.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        f.write(text + '\n')
    return path


def known_findings(cid):
    """key -> text of the findings listed for this property."""
    r = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    with open(path, encoding='utf-8') as f:
        for line in f:
            if line.startswith('known: property=%s ' % cid):
                rest = line.split(' ', 2)[2].strip()
                key, text = rest.split(' ', 1)
                r[key.removeprefix('key=')] = text
    return r


def bounds(mod, items, tier):
    """What the items cover, in words."""
    r = getattr(mod, 'BOUNDS', {}).get(tier, '')
    labels = [i[0] for i in items]
    if any(n.startswith('near-') for n in labels):
        from mc import near
        r += '; ' + near.bounds(labels)
    if any(n.endswith(('-zero', '-ends')) for n in labels):
        r += ('; closures again with documents numbered 0, below 0 and at '
              'the ends of the 32 bit range')
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--replay', action='store_true')
    ap.add_argument('--items', default='')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='mc-')
    pid = os.getpid()
    try:
        lib = boot.build_ext(scratch)
        boot.setup(lib)
        os.environ['MC_LIB'] = lib
        if args.selftest:
            rc = selftest()
        elif args.replay:
            rc = replay(args.check)
        else:
            rc = check(args, t0)
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def selftest():
    """All parts can be imported and the tree is usable."""
    d = os.path.join(VERIF, 'mc', 'checks')
    for f in sorted(os.listdir(d)):
        if f.startswith('c') and f.endswith('.py'):
            mod = load(f[:-3])
            if not mod.items('quick') or 'quick' not in mod.BOUNDS:
                raise HarnessError(f)
    print('ready')
    return 0


def replay(path):
    env = {'inf': float('inf'), 'nan': float('nan'), '__builtins__': {},
           'datetime': datetime, 'Decimal': decimal.Decimal,
           'Fraction': fractions.Fraction}
    with open(path) as f:
        body = json.load(f)
    mod = load(body['property'])
    case = eval(body['case'], env)
    if case is None:
        item = eval(body['item'], env)
        r = do_item(mod, item, 'quick')
        v = r['viol'] and r['viol']['msg']
    else:
        v = run_case(mod, case)
        v = v and v.msg
    if v:
        print('REPRODUCED property=%s %s' % (body['property'], v))
        return 1
    print('not reproduced')
    return 0


def check(args, t0):
    cid = args.check.upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    mod = load(cid)
    items = [i for i in mod.items(tier) if args.items in i[0]]
    labels = [i[0] for i in items]
    if len(set(labels)) != len(labels):
        raise HarnessError('labels are not unique')
    total = {}
    nstates = outcomes = 0
    samples, caps, walls, known = [], [], [], []
    viols, errors = [], []

    def on_result(item, r):
        nonlocal nstates, outcomes
        if 'error' in r:
            errors.append('%s: %s' % (r['label'], r['error']))
            return True
        if 'crash' in r:
            viols.append(dict(msg='%s: %s' % (r['label'], r['crash']),
                              case=None, item=item))
            return True
        for k, v in r['counts'].items():
            if k.startswith('max'):
                total[k] = max(total.get(k, 0), v)
            else:
                total[k] = total.get(k, 0) + v
        nstates += r['nstates']
        outcomes += r['outcomes']
        if len(samples) < 12:
            samples.extend(dict(item=r['label'], case=s)
                           for s in r['samples'][:1])
        caps.extend(r['caps'])
        known.extend(r['known'])
        walls.append((round(r['wall'], 2), r['label']))
        if r['viol']:
            viols.append(dict(r['viol'], item=item))
            return True
    if tier == 'thorough':
        from mc import engine
        engine.LIMITS.update(states=200000, seconds=3600)
    Pool(mod, items, tier, args.jobs).run(on_result)

    listed = known_findings(cid)
    seen = {}
    for key, msg in known:
        seen.setdefault(key, msg)
    for key, msg in seen.items():
        if key not in listed:
            viols.append(dict(msg=msg, case={'finding': key}))

    if args.v:
        for w in sorted(walls, reverse=True)[:12]:
            print('  %6.2f %s' % w)
        print('  ', total, 'states', nstates, 'outcomes', outcomes)
    if not errors:
        coverage = dict(
            states=nstates + total.get('states_extra', 0),
            transitions=total.get('transitions', 0),
            traces_validated_against_impl=total.get('traces', 0),
            answers_compared=total.get('queries', 0),
            distinct_outcomes=outcomes,
            deepest_history=total.get('maxdepth', 0),
            items=len(items), samples=samples or ['none'],
            exhaustive=not caps and not viols,
            bounds=bounds(mod, items, tier),
            meaning=getattr(mod, 'MEANING', MEANING))
        for k, v in total.items():
            if k not in ('transitions', 'traces', 'queries', 'states_extra',
                         'maxdepth'):
                coverage[k] = v
        if caps:
            coverage['caps'] = caps
        ev = dict(property=cid, tier=tier, seed=seed, level='model_checking',
                  coverage=coverage,
                  assumptions=getattr(mod, 'ASSUMPTIONS', ASSUMPTIONS),
                  wall_s=round(time.time() - t0, 2), violations=len(viols))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, cid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    if errors and not viols:
        print(errors[0], file=sys.stderr)
        return 2
    for key, text in listed.items():
        if key in seen:
            print('KNOWN-FINDING: property=%s %s' % (cid, text))
    if viols:
        v = min(viols, key=lambda v: len(repr(v['case'])))
        case = v['case']
        if case is not None and 'finding' not in case:
            again = fork_case(mod, case)
            if again:
                small = shrink(mod, case)
                m = fork_case(mod, small)
                if m:
                    v = dict(v, case=small, msg=m)
            else:
                v = dict(v, msg=v['msg'] + ' (only in its item, which is '
                         'what the replay runs)', case=None)
        elif case is not None:
            v = dict(v, case=None, item=[i for i in items][0])
        path = write_replay(cid, v)
        print(v['msg'][:2000])
        print('VIOLATION property=%s replay=%s' % (
            cid, os.path.relpath(path, VERIF)))
        return 1
    print('%s ok: %d states, %d transitions, %d traces, %.1f s' % (
        cid, nstates + total.get('states_extra', 0),
        total.get('transitions', 0), total.get('traces', 0),
        time.time() - t0))
    return 0


MEANING = (
    'states: distinct complete canonical states of the real objects (or '
    'distinct inputs in input enumerations); transitions: operations executed '
    'on the real code; traces: maximal histories (or inputs) whose outcome '
    'was compared with the reference at every step')

ASSUMPTIONS = [
    'CPython 3.12 and the installed BTrees/persistent/ZODB behave as here',
    'nothing is claimed beyond the stated alphabets and bounds',
]

if __name__ == '__main__':
    main()
