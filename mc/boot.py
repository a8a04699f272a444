"""Make zope.index importable from the repository's current working tree.

The C scorer is compiled into a scratch directory, which the caller removes,
and shadows whatever extension module lies in the tree (it may be stale).
"""
import glob
import importlib.util
import os
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


def build_ext(scratch):
    lib = os.path.join(scratch, 'lib')
    subprocess.run(
        [sys.executable, '-W', 'ignore', 'setup.py', '-q', 'build_ext',
         '--force', '--build-lib', lib,
         '--build-temp', os.path.join(scratch, 'tmp')],
        cwd=REPO, check=True, stdout=subprocess.DEVNULL,
        stderr=subprocess.PIPE)
    return lib


def setup(lib):
    """Put the tree (and the compiled module in *lib*) on the import path."""
    src = os.path.join(REPO, 'src')
    for name in list(sys.modules):
        if name == 'zope.index' or name.startswith('zope.index.'):
            raise RuntimeError('zope.index imported too early')
    if lib is not None:
        found = glob.glob(os.path.join(lib, 'zope/index/text/okascore*.so'))
        if not found:
            raise RuntimeError('the C extension does not compile')
        sys.meta_path.insert(0, _Finder(found[0]))
    sys.path.insert(0, src)
    import zope
    # zope is a namespace package, make ours its first portion
    ours = os.path.join(src, 'zope')
    zope.__path__ = [ours] + [p for p in zope.__path__ if p != ours]
    import zope.index
    if not os.path.realpath(zope.index.__file__).startswith(
            os.path.realpath(src) + os.sep):
        raise RuntimeError('zope.index comes from ' + zope.index.__file__)
    if lib is not None:
        import zope.index.text.okascore as m
        if not m.__file__.startswith(lib):
            raise RuntimeError('okascore comes from ' + m.__file__)


class _Finder:
    """Finds the freshly compiled extension module."""

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name != 'zope.index.text.okascore':
            return None
        return importlib.util.spec_from_file_location(name, self.path)
