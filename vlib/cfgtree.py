"""Flattens what is reachable from an object to a dictionary path -> printable value, so that two objects can be compared without naming
their attributes."""
import hashlib
import types
import numpy as np


def _dig(a):
    a = np.ascontiguousarray(a)
    if a.size <= 8:
        return '%s%s' % (a.dtype.kind, a.tolist())
    return '%s%s %s' % (a.dtype.kind, a.shape, hashlib.sha1(a.tobytes()).hexdigest()[:12])


def tree(obj, skip=(), depth=12):
    out = {}
    seen = {}
    stack = set()

    def walk(o, path, d):
        if o is None or isinstance(o, (bool, int, float, complex, str, bytes, np.generic)):
            if isinstance(o, np.generic):
                o = o.item()
            out[path] = repr(o)
            return
        if isinstance(o, np.ndarray):
            out[path] = _dig(o) if o.dtype != object else 'object array'
            return
        if isinstance(o, (types.ModuleType, type)):
            return
        if d <= 0:
            return
        if isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
            out[path] = 'function ' + getattr(o, '__qualname__', '?')
            for i, c in enumerate(getattr(o, '__closure__', None) or ()):
                try:
                    walk(c.cell_contents, '%s<%d>' % (path, i), d - 1)
                except ValueError:
                    pass
            return
        if isinstance(o, (dict, list, tuple, set, frozenset)):
            if id(o) in stack:
                return
            stack.add(id(o))
        elif id(o) in seen:
            return
        else:
            seen[id(o)] = o
        if isinstance(o, dict):
            for k in o:
                if k not in skip:
                    walk(o[k], '%s[%s]' % (path, k), d - 1)
        elif isinstance(o, (list, tuple, set, frozenset)):
            if isinstance(o, (set, frozenset)):
                o = sorted(o, key=repr)
            out[path + '#'] = str(len(o))
            for i, v in enumerate(o):
                walk(v, '%s[%d]' % (path, i), d - 1)
        elif type(o).__module__.startswith('PyECLOUD') or type(o).__module__.split('.')[0] == 'PyECLOUD':
            out[path + ':'] = type(o).__name__
            for k, v in vars(o).items():
                if k not in skip:
                    walk(v, '%s.%s' % (path, k), d - 1)
        elif type(o).__module__.startswith('PyPIC'):
            out[path + ':'] = type(o).__name__
            for k, v in vars(o).items():
                if isinstance(v, (bool, int, float, str)) or (isinstance(v, np.ndarray) and v.dtype != object):
                    walk(v, '%s.%s' % (path, k), d - 1)
        else:
            out[path + ':'] = type(o).__name__
        stack.discard(id(o))
    walk(obj, '', depth)
    return out


def differences(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k, 'absent') != b.get(k, 'absent')]
