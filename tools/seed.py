"""Plant bugs: python3 tools/seed.py SPECS.py [ID...]

SPECS.py defines BUGS, a list of (id, property, edits, needs, breaks, demo).
Each is confirmed in a copy of /repo that takes the place of /repo in a mount
namespace of its own, and then kept in seeded/.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def inns(copy, cmd, timeout=900):
    """Run cmd with *copy* as /repo."""
    return subprocess.run(
        ['unshare', '-Urm', 'bash', '-c',
         'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)],
        capture_output=True, text=True, timeout=timeout)


def original(copy, patch):
    """Do the removed lines stem from the original repository?"""
    root = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    first = sh('git -C /repo log --format=%H --grep=^fix: --grep=^hook'
               ).stdout.split()
    ok = removed = 0
    f = None
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            b = sh('git -C /repo blame -l -s -L %d,%d HEAD -- %s' % (
                n, n, f)).stdout
            removed += 1
            sha = b.split()[0].lstrip('^')
            ok += not any(x.startswith(sha) for x in first)
            n += 1
        elif line.startswith(' '):
            n += 1
    return ok, removed


def plant(bug, stable):
    bid, prop, edits, needs, breaks, demo = bug
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        copy = tmp + '/repo'
        shutil.copytree('/repo', copy, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(copy, 'src/zope/index', f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%d occurrences in %s of %r' % (s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git -C %s diff' % copy).stdout
        ok, removed = original(copy, patch)
        if not ok:
            return 'no original line is changed (%d of %d)' % (ok, removed)
        d = tmp + '/demo'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(demo.lstrip())
        open(d + '/demo.sh', 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        if r.returncode:
            return 'the demo fails on the unchanged tree: ' + r.stderr[-600:]
        r = inns(copy, 'bash /opt/vp/build.sh')
        if r.returncode:
            return 'does not build: ' + r.stderr[-600:]
        r = inns(copy, 'bash %s/demo.sh' % d, 300)
        if not r.returncode:
            return 'the demo passes with the bug'
        said = r.stderr.strip().splitlines()[-1:]
        r = inns(copy, 'bash /opt/vp/test.sh %s/out.json' % tmp)
        out = json.load(open(tmp + '/out.json'))
        gone = stable - set(out['passed'])
        if gone:
            return 'tests notice: %s' % sorted(gone)[:4]
        to = os.path.join(HERE, 'seeded', bid)
        shutil.rmtree(to, ignore_errors=True)
        shutil.copytree(d, to)
        open(to + '/patch.diff', 'w').write(patch)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(to + '/meta.json', 'w'), indent=1)
        return 'KEPT %s %s' % (said, '' if ok == removed else
                               '(%d of %d lines original)' % (ok, removed))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    from concurrent.futures import ThreadPoolExecutor
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('passed') or base.get('stable'))
    bugs = [b for b in bugs if not only or b[0] in only]
    with ThreadPoolExecutor(2) as ex:
        for b, r in zip(bugs, ex.map(lambda b: plant(b, stable), bugs)):
            print(b[0], r, flush=True)


if __name__ == '__main__':
    main()
