"""Which checks catch which planted bugs: python3 tools/matrix.py [--all] [ID...]

Every bug is applied to a copy of /repo that takes its place in a mount
namespace of its own.  Without --all only the bug's own property is checked.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(bid, checks):
    tmp = tempfile.mkdtemp(prefix='matrix-')
    try:
        copy = tmp + '/repo'
        shutil.copytree('/repo', copy, symlinks=True)
        verif = tmp + '/verif'
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(
            'seeded', '.git', 'replays', '__pycache__'))
        subprocess.run(['git', '-C', copy, 'apply', '%s/seeded/%s/patch.diff'
                        % (HERE, bid)], check=True)
        r = {}
        for c in checks:
            p = subprocess.run(
                ['unshare', '-Urm', 'bash', '-c',
                 'mount --bind %s /repo && cd %s && ./check %s' % (
                     copy, verif, c)], capture_output=True, text=True)
            if p.returncode not in (0, 1):
                r[c] = 'ERROR %d' % p.returncode
            elif p.returncode and not re.search(
                    'VIOLATION property=' + c, p.stdout):
                r[c] = 'NO LINE'
            else:
                r[c] = p.returncode
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if a != '--all']
    checks = [c['property'] for c in json.load(
        open(HERE + '/MANIFEST.json'))['checks']]
    path = HERE + '/tools/matrix.json'
    matrix = json.load(open(path)) if os.path.exists(path) else {}
    bugs = args or sorted(os.listdir(HERE + '/seeded'))
    for bid in bugs:
        meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, bid)))
        own = meta['property']
        r = run(bid, checks if '--all' in sys.argv else [own])
        old = matrix.setdefault(bid, {})
        for c, v in r.items():
            if v == 1:
                old[c] = 1
            else:
                old.pop(c, None)
        odd = {c: v for c, v in r.items() if v not in (0, 1)}
        print('%-28s %s %s %s' % (
            bid, own, 'caught' if r.get(own) == 1 else '**MISSED**',
            ' '.join(c for c in r if r[c] == 1 and c != own)), odd or '',
            flush=True)
        json.dump(matrix, open(path, 'w'), indent=1, sort_keys=True)
    for bid in list(matrix):
        if not os.path.exists(HERE + '/seeded/' + bid):
            del matrix[bid]
    json.dump(matrix, open(path, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    main()
