"""Canonical form of the complete concrete state of live objects.

Everything reachable is walked through __getstate__ (persistent objects and
BTrees, so the shape of trees counts) and __dict__ (so volatile attributes
count).  Aliasing is kept by numbering the objects in order of first visit.
Two objects with equal canonical forms therefore behave alike from then on, as
far as they keep their state in themselves.  `lasting` is for the question
whether something has been modified.
"""
import hashlib
import types

from persistent import Persistent

# Ends the walk below helpers (pipeline elements) and volatile attributes.
LASTING = []

_ATOMS = (type(None), bool, int, float, complex, str, bytes)


def _walk(x, out, memo, keep):
    t = type(x)
    if t in _ATOMS:
        out.append(t.__name__[0] + repr(x))
        return
    i = id(x)
    if i in memo:
        out.append('@%d' % memo[i])
        return
    if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType,
                      types.ModuleType, types.MethodType)):
        out.append('F' + getattr(x, '__qualname__', getattr(x, '__name__', '')))
        return
    memo[i] = len(memo)
    keep.append(x)
    if t is tuple or t is list:
        out.append('(' if t is tuple else '[')
        for y in x:
            _walk(y, out, memo, keep)
        out.append(')')
    elif t is dict:
        out.append('{')
        for k, v in x.items():
            _walk(k, out, memo, keep)
            _walk(v, out, memo, keep)
        out.append('}')
    elif t is set or t is frozenset:
        out.append('s{')
        for y in sorted(x, key=repr):
            _walk(y, out, memo, keep)
        out.append('}')
    elif isinstance(x, Persistent) or hasattr(t, '_p_jar'):
        out.append('P%s.%s' % (t.__module__, t.__name__))
        if isinstance(x, Persistent) and x._p_state < 0:
            x._p_activate()
        d = getattr(x, '__dict__', None)
        if d is not None:
            _walk({k: v for k, v in d.items()
                   if not (LASTING and k.startswith('_v_'))}, out, memo, keep)
        if not hasattr(t, '__dict__') or d is None or not d:
            _walk(x.__getstate__(), out, memo, keep)
        elif t.__getstate__ is not Persistent.__getstate__:
            _walk(x.__getstate__(), out, memo, keep)
    else:
        out.append('O%s.%s' % (t.__module__, t.__name__))
        d = getattr(x, '__dict__', None)
        if d is not None:
            if not LASTING:
                _walk(dict(d), out, memo, keep)
        else:
            out.append(repr(x) if t.__repr__ is not object.__repr__ else '')


def text(*objs):
    out, memo, keep = [], {}, []
    for o in objs:
        _walk(o, out, memo, keep)
    return '\x1f'.join(out)


def digest(*objs):
    return hashlib.blake2b(text(*objs).encode('utf-8', 'surrogatepass'),
                           digest_size=12).digest()


def lasting(*objs):
    """Digest of what the database would store, without what objects may
    remember for themselves (volatile attributes)."""
    LASTING.append(1)
    try:
        return digest(*objs)
    finally:
        LASTING.pop()
