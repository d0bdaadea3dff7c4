"""
Oracles: strict deep comparison of the object dumped with the object loaded.

diff(a, b) returns None if b is what load may return for a, else a description of the
first difference.  The rules are those of the property statements, in particular
 * exact types everywhere,
 * numbers in a list/tuple/set that holds numbers only may have become NumPy scalars,
   then they must be numerically exactly equal (NaN equals NaN, the sign of zero is kept),
 * arrays: dtype, shape and bits.
"""
import collections, dataclasses, datetime, enum, types
import numpy as np

NUMBER = (bool, int, float, complex, np.number, np.bool_)


def _py(x):
    return x.item() if isinstance(x, np.generic) else x


def _isnan(x):
    try:
        return bool(x != x)
    except Exception:
        return False


def _parts(x):
    x = _py(x)
    if isinstance(x, (complex, np.complexfloating)):
        return [x.real, x.imag]
    return [x]


def _sign0(x):
    import math
    if isinstance(x, (float, np.floating)) and x == 0:
        return math.copysign(1.0, float(x))
    return None


def num_equal(a, b, sign=True):
    """numerically exactly equal"""
    pa, pb = _parts(a), _parts(b)
    if len(pa) != len(pb):
        if len(pa) < len(pb):
            pa = pa + [0]
        else:
            pb = pb + [0]
    for x, y in zip(pa, pb):
        if _isnan(x) or _isnan(y):
            if not (_isnan(x) and _isnan(y)):
                return False
            continue
        if x != y:
            return False
        if sign and _sign0(x) is not None and _sign0(y) is not None and _sign0(x) != _sign0(y):
            return False
    return True


def plain_numbers(items):
    return all(type(i) in (bool, int, float, complex) for i in items)


def all_numbers(items):
    return all(type(i) in (bool, int, float, complex) or isinstance(i, (np.number, np.bool_)) for i in items)


def canon(x):
    """hashable, type-exact canonical form for set elements"""
    t = type(x)
    if t in (tuple,) or isinstance(x, tuple):
        if x and all_numbers(x):
            return (t.__name__, 'num') + tuple(cnum(i) for i in x)
        return (t.__name__,) + tuple(canon(i) for i in x)
    if isinstance(x, frozenset):
        return (t.__name__, frozenset(canon(i) for i in x))
    if isinstance(x, (float, complex, np.inexact)):
        return (t.__name__, 'nan' if _isnan(x) and not isinstance(x, complex) else repr(x))
    return (t.__name__, x)


def cnum(x):
    x = _py(x)
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return cnum(x.real)
        return ('c', repr(x))
    if _isnan(x):
        return 'nan'
    if isinstance(x, (float, np.floating)) and x == x and abs(x) != float('inf') and x == int(x):
        return int(x)
    return x if not isinstance(x, bool) else int(x)


def short(x):
    try:
        s = repr(x)
    except Exception as e:
        s = '<unreprable %s: %s>' % (type(x), e)
    return s if len(s) < 160 else s[:100] + '...' + s[-40:]


def array_bits(a):
    return np.ascontiguousarray(a).tobytes()


def diff_array(a, b, path):
    if type(a) is not type(b):
        return '%s: type %s became %s' % (path, type(a), type(b))
    if a.shape != b.shape:
        return '%s: shape %s became %s' % (path, a.shape, b.shape)
    if a.dtype != b.dtype or (a.dtype.names is None and a.dtype.str != b.dtype.str):
        return '%s: dtype %s became %s' % (path, a.dtype, b.dtype)
    if a.dtype == object:
        fa, fb = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
        # an object array of numbers only is stored like a list of numbers
        last = a.shape[-1] if a.ndim else 1
        for i in range(fa.size):
            row = fa[(i // last) * last:(i // last + 1) * last] if a.ndim else fa
            if plain_numbers(row) and a.ndim:
                if not (isinstance(fb[i], NUMBER) and num_equal(fa[i], fb[i])):
                    return '%s[%d]: %s became %s' % (path, i, short(fa[i]), short(fb[i]))
            else:
                d = diff(fa[i], fb[i], '%s[%d]' % (path, i))
                if d:
                    return d
        return None
    if a.dtype.names:
        for nm in a.dtype.names:
            if a.dtype.fields[nm][0] != b.dtype.fields[nm][0]:
                return '%s: field %s dtype differs' % (path, nm)
            d = diff_array(np.asarray(a)[nm], np.asarray(b)[nm], path + '.' + nm)
            if d:
                return d
        return None
    x, y = array_bits(np.asarray(a)), array_bits(np.asarray(b))
    if a.dtype.char in 'gG':
        # the padding of extended precision is not part of the value
        aa, bb = np.asarray(a), np.asarray(b)
        ok = ((aa == bb) & (np.signbit(aa.real) == np.signbit(bb.real)) | (np.isnan(aa) & np.isnan(bb))) if aa.size else np.True_
        if not np.all(ok):
            return '%s: contents differ %s vs %s' % (path, short(a), short(b))
        return None
    if x != y:
        return '%s: contents differ %s vs %s' % (path, short(a), short(b))
    return None


def diff_masked(a, b, path):
    if type(a) is not type(b):
        return '%s: type %s became %s' % (path, type(a), type(b))
    d = diff_array(np.asarray(a.data), np.asarray(b.data), path + '.data')
    if d:
        return d
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if ma.dtype != mb.dtype or ma.shape != mb.shape or ma.tobytes() != mb.tobytes():
        return '%s: mask differs %s vs %s' % (path, short(ma), short(mb))
    if a.dtype != b.dtype:
        return '%s: dtype %s became %s' % (path, a.dtype, b.dtype)
    return None


def diff_sparse(a, b, path):
    if type(a) is not type(b):
        return '%s: type %s became %s' % (path, type(a), type(b))
    if tuple(a.shape) != tuple(b.shape):
        return '%s: shape %s became %s' % (path, a.shape, b.shape)
    if not all(type(n) is int or isinstance(n, (int, np.integer)) for n in b.shape):
        return '%s: shape %r' % (path, b.shape)
    d = diff_array(np.asarray(a.data), np.asarray(b.data), path + '.data')
    if d:
        return d
    # SciPy itself chooses the width of the index type
    for nm in ('indices', 'indptr'):
        if getattr(b, nm).dtype.kind != 'i' or not np.array_equal(getattr(a, nm), getattr(b, nm)):
            return '%s.%s: %s became %s' % (path, nm, short(getattr(a, nm)), short(getattr(b, nm)))
    if a.format == 'bsr' and tuple(a.blocksize) != tuple(b.blocksize):
        return '%s: blocksize' % path
    return None


def diff(a, b, path='obj'):
    ta, tb = type(a), type(b)
    if isinstance(a, np.ma.MaskedArray):
        return diff_masked(a, b, path)
    if isinstance(a, np.ndarray) and ta in (np.ndarray, np.matrix):
        return diff_array(a, b, path) if isinstance(b, np.ndarray) else '%s: %s became %s' % (path, ta, tb)
    if ta.__module__.startswith('scipy.sparse'):
        return diff_sparse(a, b, path)
    if ta is not tb:
        return '%s: type %s became %s (%s -> %s)' % (path, ta, tb, short(a), short(b))
    if isinstance(a, np.dtype):
        return None if a == b and a.str == b.str and a.fields == b.fields else '%s: dtype %r became %r' % (path, a, b)
    if isinstance(a, np.generic):
        if isinstance(a, (np.str_, np.bytes_)):
            return None if a == b else '%s: %s became %s' % (path, short(a), short(b))
        if a.dtype != b.dtype:
            return '%s: dtype %s became %s' % (path, a.dtype, b.dtype)
        return diff_array(np.asarray(a), np.asarray(b), path)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d became %d' % (path, len(a), len(b))
        if len(a) and plain_numbers(a):
            for i, (x, y) in enumerate(zip(a, b)):
                if not (isinstance(y, NUMBER) and (type(x) is type(y) or isinstance(y, np.generic)) and num_equal(x, y)):
                    return '%s[%d]: number %s became %s (%s)' % (path, i, short(x), short(y), type(y))
            return None
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return _diff_attrs(a, b, path)
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return '%s: set length %d became %d' % (path, len(a), len(b))
        f = cnum if a and plain_numbers(a) else canon
        ca, cb = collections.Counter(map(f, a)), collections.Counter(map(f, b))
        if ca != cb:
            return '%s: set items differ: lost %s, gained %s' % (path, short(list((ca - cb))[:4]), short(list((cb - ca))[:4]))
        return _diff_attrs(a, b, path)
    if isinstance(a, dict):
        ka, kb = list(a), list(b)
        if len(ka) != len(kb):
            return '%s: %d keys became %d (%s -> %s)' % (path, len(ka), len(kb), short(ka), short(kb))
        for i, (x, y) in enumerate(zip(ka, kb)):
            d = diff(x, y, '%s.key[%d]' % (path, i))
            if d:
                return d
        for i, (x, y) in enumerate(zip(a.values(), b.values())):
            d = diff(x, y, '%s[%s]' % (path, short(ka[i])))
            if d:
                return d
        return _diff_attrs(a, b, path)
    if isinstance(a, (float, complex)):
        if repr(a) != repr(b) and not (a != a and b != b and (not isinstance(a, complex) or num_equal(a, b))):
            return '%s: %r became %r' % (path, a, b)
        return None
    if isinstance(a, (str, bytes, int, bytearray)) or a is None:
        return None if a == b else '%s: %s became %s' % (path, short(a), short(b))
    if isinstance(a, (types.FunctionType, types.BuiltinFunctionType, type)):
        return None if a is b else '%s: %r became %r' % (path, a, b)
    if isinstance(a, np.ndarray) and hasattr(a, 'unit'):
        if a.unit != b.unit:
            return '%s: unit %s became %s' % (path, a.unit, b.unit)
        return diff_array(np.asarray(a.value, 'f8'), np.asarray(b.value, 'f8'), path)
    eq = getattr(ta, '__eq__', None)
    if eq is not object.__eq__:
        if bool(np.all(a == b)):
            return None
        return '%s: %s became %s' % (path, short(a), short(b))
    da, db = _state(a), _state(b)
    return diff(da, db, path + '.__dict__')


def _state(x):
    st = dict(getattr(x, '__dict__', {}))
    for c in type(x).__mro__:
        s = c.__dict__.get('__slots__', ())
        for nm in ([s] if isinstance(s, str) else s):
            if hasattr(x, nm) and nm not in ('__dict__', '__weakref__'):
                st[nm] = getattr(x, nm)
    return st


def _diff_attrs(a, b, path):
    return None


# ------------------------------------------------------------------ aliasing
MEMO = (list, tuple, dict, set, str, bytes, np.ndarray)


def children(x):
    """(step, child) pairs of the structure the dumper walks natively"""
    if isinstance(x, (list, tuple)) and not all_numbers(x):
        return [('[%d]' % i, c) for i, c in enumerate(x)]
    if type(x) is np.ndarray and x.dtype == object and x.ndim:
        return [('[%d]' % i, c) for i, c in enumerate(x.reshape(-1))]
    if isinstance(x, dict):
        return [('{%d}' % i, v) for i, v in enumerate(x.values())] + \
               [('{k%d}' % i, k) for i, k in enumerate(x) if isinstance(k, tuple) or type(k).__hash__ is object.__hash__]
    return []


def mutable(x):
    if isinstance(x, (int, float, complex)):
        return False        # numbers, subclasses included, are values
    return isinstance(x, (list, dict, set, np.ndarray)) or (hasattr(x, '__dict__') and not isinstance(x, (type, np.dtype)) and not callable(x))


def alias_diff(a, b):
    """compare the aliasing structure of two objects of equal shape; None if isomorphic"""
    fa, fb = {}, {}
    keep = []
    stack = [(a, b, 'obj')]
    nshared = 0
    expanded = set()
    while stack:
        x, y, path = stack.pop()
        keep.append((x, y))
        tracked = isinstance(x, MEMO) or mutable(x)
        if tracked:
            seen_x = id(x) in fa
            if seen_x:
                nshared += 1
                if fa[id(x)][0] != id(y):
                    return '%s: was the same object as %s, is a different one after load' % (path, fa[id(x)][1]), nshared
            else:
                if mutable(x) and id(y) in fb:
                    return '%s: is the same object as %s after load, was a different one' % (path, fb[id(y)]), nshared
                fa[id(x)] = (id(y), path)
                fb[id(y)] = path
            if seen_x:
                continue
        cx, cy = children(x), children(y)
        if len(cx) != len(cy):
            return '%s: structure differs' % path, nshared
        for (s, p), (_, q) in zip(cx, cy):
            stack.append((p, q, path + s))
    return None, nshared


def signature(x, depth=4):
    """coarse structural signature used to count distinct cases"""
    t = type(x).__name__
    if depth <= 0:
        return t
    if isinstance(x, np.ndarray):
        return '%s<%s%s>' % (t, x.dtype, x.shape)
    if isinstance(x, (list, tuple)):
        if x and plain_numbers(x):
            return '%s#%d:%s' % (t, len(x), ','.join(sorted({type(i).__name__ for i in x})))
        return '%s(%s)' % (t, ','.join(signature(i, depth - 1) for i in list(x)[:30]) + ('+%d' % len(x) if len(x) > 30 else ''))
    if isinstance(x, (set, frozenset)):
        return '%s#%d:%s' % (t, len(x), ','.join(sorted({type(i).__name__ for i in x})))
    if isinstance(x, dict):
        return '%s{%s}' % (t, ','.join(type(k).__name__ + ':' + signature(v, depth - 1) for k, v in list(x.items())[:30]))
    if isinstance(x, bool) or x is None:
        return repr(x)
    if isinstance(x, int):
        return 'int%d%s' % (x.bit_length(), '-' if x < 0 else '')
    if isinstance(x, (str, bytes)):
        return '%s%d' % (t, len(x)) if len(x) > 3 else '%s%r' % (t, x)
    if isinstance(x, float):
        return 'float%r' % x if x in (0.0,) or x != x or x in (float('inf'), float('-inf')) else 'float'
    return t
