"""Answer a list of requests without the compiled scorer (see c11)."""
import os
import pickle
import sys

from mc import boot


class Blocker:
    def find_spec(self, name, path=None, target=None):
        if name == 'zope.index.text.okascore':
            raise ModuleNotFoundError('no module named ' + name, name=name)


def main():
    if sys.argv[2] == 'block':
        sys.meta_path.insert(0, Blocker())
        boot.setup(None)
    else:
        # the documented switch; the module itself is there
        boot.setup(os.environ['MC_LIB'])
    from mc.checks import c11
    with open(sys.argv[1], 'rb') as f:
        spec = pickle.load(f)
    out = os.fdopen(os.dup(1), 'wb')
    for a in c11.drive(*spec):
        pickle.dump(a, out)
    out.close()


if __name__ == '__main__':
    main()
