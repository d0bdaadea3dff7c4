"""complete observable state of an object graph: identities, types, contents, flags of arrays"""
import types
import numpy as np


def _slots(x):
    out = []
    for c in type(x).__mro__:
        s = c.__dict__.get('__slots__', ())
        for nm in ([s] if isinstance(s, str) else s):
            if nm not in ('__dict__', '__weakref__'):
                out.append(nm)
    return out


ATOMS = (type(None), bool, int, float, complex, str, bytes, type, np.dtype, np.generic, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, range, slice, type(Ellipsis))


class Graph:
    """walks everything reachable; records[i] describes object i, `objects` keeps them alive"""

    def __init__(self, root, ids=True):
        self.ids = ids
        self.num = {}
        self.objects = []
        self.records = []
        self.arrays = []
        self._walk(root)

    def ref(self, x):
        return self._walk(x)

    def _walk(self, x):
        # iterative enough for the depth the workloads use
        if isinstance(x, ATOMS) and not isinstance(x, np.ndarray):
            return ('atom', type(x).__name__, id(x) if self.ids else None, self._atom(x))
        if id(x) in self.num:
            return ('obj', self.num[id(x)])
        n = self.num[id(x)] = len(self.objects)
        self.objects.append(x)
        self.records.append(None)
        self.records[n] = self._describe(x)
        return ('obj', n)

    def _atom(self, x):
        if isinstance(x, (float, complex, np.inexact)):
            return repr(x)
        if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
            return id(x)
        if isinstance(x, np.generic):
            return (str(x.dtype), x.tobytes())
        try:
            return (x, getattr(x, '__dict__', None) and sorted(x.__dict__))
        except Exception:
            return repr(x)

    def _array(self, a):
        # `a` is a plain view; flags were taken from the object itself
        self.arrays.append(a)
        if a.dtype.hasobject and a.dtype == object:
            return [self._walk(i) for i in a.reshape(-1).tolist()] if a.ndim else [self._walk(a[()])]
        return np.ascontiguousarray(a).tobytes()

    def _describe(self, x):
        me = (id(x) if self.ids else None, type(x).__module__, type(x).__qualname__)
        if isinstance(x, np.ndarray):
            rec = me + (str(x.dtype), x.shape, x.strides if self.ids else None, x.flags.writeable if self.ids else None,
                        id(x.base) if self.ids and x.base is not None else None, x.ctypes.data if self.ids else None)
            rec += (self._array(np.ndarray.view(x, np.ndarray)),)
            if isinstance(x, np.ma.MaskedArray):
                m = x._mask
                rec += (m is np.ma.nomask, self._walk(m) if m is not np.ma.nomask and not isinstance(m, np.bool_) else None, repr(x._fill_value), x._hardmask, x._sharedmask if self.ids else None)
            elif type(x) is not np.ndarray and hasattr(x, 'unit'):
                rec += (str(x.unit),)
            return rec
        if type(x).__module__.startswith('astropy'):
            return me + self._astropy(x)
        if isinstance(x, (list, tuple)):
            return me + (len(x), [self._walk(i) for i in x], self._attrs(x))
        if isinstance(x, dict):
            return me + ([(self._walk(k), self._walk(v)) for k, v in x.items()], self._attrs(x))
        if isinstance(x, (set, frozenset)):
            items = list(x)     # iteration order is part of the state of the object itself
            if not self.ids:
                items.sort(key=lambda i: (type(i).__name__, repr(i)))
            return me + ([self._walk(i) for i in items], self._attrs(x))
        if isinstance(x, (bytearray, memoryview)):
            return me + (bytes(x),)
        if type(x).__module__.startswith('pandas'):
            import pickle
            return me + (pickle.dumps(x),)
        if hasattr(x, '__next__') or isinstance(x, (types.GeneratorType,)):
            return me
        return me + (self._attrs(x),)

    def _astropy(self, x):
        """what a user sees: attributes of these objects hold caches filled when they are read"""
        cls = type(x).__name__
        if hasattr(x, 'colnames'):
            cols = []
            for nm in x.colnames:
                c = x[nm]
                cols.append((nm, (str(c.dtype), c.shape, np.asarray(c).tobytes() if c.dtype != object else repr(c)) if not hasattr(c, 'jd1') else self._walk(c), str(getattr(c, 'unit', None)), repr(getattr(c, 'mask', None))))
            return (cls, cols, [(k, repr(v)) for k, v in x.meta.items()])
        if hasattr(x, 'jd1'):
            return (cls, x.format, x.scale, x.shape, np.asarray(x.jd1).tobytes(), np.asarray(x.jd2).tobytes())
        if hasattr(x, 'frame') and hasattr(x, 'data'):
            return (cls, x.frame.name, [(n, np.asarray(getattr(x.data, n).value).tobytes(), str(getattr(x.data, n).unit)) for n in x.data.components])
        return (cls, repr(x))

    def _attrs(self, x):
        d = getattr(x, '__dict__', None)
        out = []
        if isinstance(d, dict) and not isinstance(x, type):
            out += [(k, self._walk(v)) for k, v in d.items() if not self._volatile(x, k)]
        for nm in _slots(x):
            if hasattr(x, nm):
                try:
                    out.append((nm, self._walk(getattr(x, nm))))
                except AttributeError:
                    pass
        return out

    @staticmethod
    def _volatile(x, k):
        """flags SciPy caches, internals of enums"""
        mod = type(x).__module__
        return mod.startswith('scipy') and k in ('_has_sorted_indices', '_has_canonical_format', 'maxprint', '_shape') or mod.startswith('enum')


def snapshot(root, ids=True):
    g = Graph(root, ids)
    return g, g.records


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'object %d: %.300r became %.300r' % (i, x, y)
    return '%d objects became %d' % (len(a), len(b))
