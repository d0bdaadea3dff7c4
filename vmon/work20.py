"""work of the C20 check which also runs in child processes: values, operations, comparison of files"""
import collections, io, os, random, warnings
import h5py, numpy as np


def logical(target, root='/'):
    """everything written below root, with references resolved to names"""
    out = []

    def val(f, v):
        if isinstance(v, h5py.Reference):
            return ('ref', f[v].name) if v else ('null',)
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                return [val(f, i) for i in v.reshape(-1).tolist()]
            return (str(v.dtype), v.shape, v.tobytes())
        if isinstance(v, np.void):
            return (str(v.dtype), v.tobytes())
        return (type(v).__name__, repr(v))

    with h5py.File(target, 'r') as f:
        def one(name, o):
            d = None
            if isinstance(o, h5py.Dataset):
                d = (str(o.dtype), o.shape, o.compression, val(f, o[()]) if o.shape is not None else None)
            out.append((name, d, [(k, val(f, o.attrs[k])) for k in sorted(o.attrs) if k != 'HICKLE_PYTHON_VERSION']))
        one('', f[root])
        f[root].visititems(one)
    return out


FIRST = ('masked', 'matrix', 'array', 'npscalar', 'dtype', 'csr', 'csc', 'bsr', 'quantity', 'angle', 'skycoord', 'time', 'constant', 'table', 'dataframe', 'strsub', 'objarray', 'point', 'ordered', 'mixed', 'custom-package')


def first_value(r, kind):
    """values whose loaders are found by walking the bases of their class, or are loaded on demand"""
    if kind == 'masked':
        return np.ma.array(np.arange(r.randint(1, 5)), mask=True)
    if kind == 'matrix':
        return np.matrix([[1, r.randint(0, 9)], [3, 4]])
    if kind == 'array':
        return np.arange(r.randint(0, 9), dtype=r.choice(('i4', 'f8', '>u2')))
    if kind == 'npscalar':
        return np.float32(r.random())
    if kind == 'dtype':
        return np.dtype(r.choice(('f4', 'i8', '>i2')))
    if kind in ('csr', 'csc', 'bsr'):
        from scipy import sparse
        return getattr(sparse, kind + '_matrix')(np.eye(r.randint(1, 4)))
    if kind in ('quantity', 'angle', 'skycoord', 'time', 'constant', 'table'):
        from astropy import constants, units as u
        if kind == 'quantity':
            return np.arange(3.0) * u.km
        if kind == 'angle':
            from astropy.coordinates import Angle, Latitude
            return r.choice((Angle(1.5, u.deg), Latitude(2.5, u.deg)))
        if kind == 'skycoord':
            from astropy.coordinates import SkyCoord
            return SkyCoord(1 * u.deg, 2 * u.deg)
        if kind == 'time':
            from astropy.time import Time
            return Time(50000.0 + r.randint(0, 9), format='mjd')
        if kind == 'constant':
            return r.choice((constants.G, constants.e.si, constants.c))
        from astropy.table import Table, QTable
        return r.choice((Table, QTable))({'a': [1, 2], 'b': [1.5, 2.5]})
    if kind == 'dataframe':
        import pandas as pd
        return pd.DataFrame({'a': [1, 2], 'b': ['x', 'y']})
    from . import types_for_tests as T
    if kind == 'strsub':
        return [T.StrSub('x'), T.ListSub([1, 'a']), T.DictSub2({'k': 1})]
    if kind == 'objarray':
        a = np.empty(2, object)
        a[0], a[1] = 'x', [1, None]
        return a
    if kind == 'point':
        return T.Point(1, 'y')
    if kind == 'ordered':
        return collections.OrderedDict([(1, 'a'), ('b', (2,))])
    if kind == 'mixed':
        return [1, 'x', np.ma.array([1, 2], mask=[0, 1]), {'m': np.matrix([[1]])}, first_value(r, 'csr')]
    if kind == 'custom-package':
        from vmon20pkg import Thing, SubThing
        return [Thing(r.randint(0, 9)), SubThing('sub')]
    raise AssertionError(kind)


PACKAGE = {
    '__init__.py': '''
class Thing:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return type(self) is type(o) and self.v == o.v
class SubThing(Thing): pass
''',
    'hickle_loaders/load_vmon20pkg.py': '''
import time
from vmon20pkg import Thing
def create(obj, h_group, name, **kwargs):
    d = h_group.create_dataset(name, data=repr(obj.v).encode('ascii'))
    d.attrs['mark'] = 'by loader'
    return d, ()
def load(h_node, base_type, py_obj_type):
    import ast
    v = h_node[()]
    return py_obj_type(ast.literal_eval(v.decode('ascii') if isinstance(v, bytes) else v))
class_register = [[Thing, b'thing', create, load]]
exclude_register = []
'''}


def make_package(where):
    for name, text in PACKAGE.items():
        p = os.path.join(where, 'vmon20pkg', name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)


def child(argv):
    """first use of hickle in a process by several threads at once, or by one
    argv: seed, kinds separated by ',', scratch, threads, what ('dump', 'load', 'both'), out"""
    import pickle, sys, threading
    seed, kinds, scratch, what, out, repo, fuzz = int(argv[0]), argv[1].split(','), argv[2], argv[3], argv[4], argv[5], argv[6] == 'fuzz'
    warnings.simplefilter('ignore')
    import hickle
    from vmon import sched
    objs = [first_value(random.Random('%d/%d' % (seed, i)), k) for i, k in enumerate(kinds)] if what != 'load' else [None] * len(kinds)
    if fuzz and what == 'load':
        # threads importing parts of one package at once may run into a deadlock of Python's import locks
        for i, k in enumerate(kinds):
            first_value(random.Random(0), k)
    res = [None] * len(kinds)
    barrier = threading.Barrier(len(kinds)) if fuzz else None

    def run(i):
        p = os.path.join(scratch, '%s%d.hkl' % ('ref' if what == 'load' else 'new', i))
        if barrier:
            barrier.wait()
        try:
            if what != 'load':
                hickle.dump(objs[i], p, mode='w')
            res[i] = (True, hickle.load(p) if what != 'dump' else None)
        except BaseException as e:
            import traceback
            res[i] = (False, traceback.format_exc()[-1500:])
    info = {}
    if fuzz:
        with sched.Scheduler(seed, os.path.join(repo, 'hickle'), 0.005, None, 3, 600, 0.02) as s:
            ts = [threading.Thread(target=run, args=(i,), name='t%d' % i) for i in range(len(kinds))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        info = dict(signature=s.signature, switches=s.switches, lines=s.lines)
    else:
        for i in range(len(kinds)):
            run(i)
    import gc
    info['gc'] = gc.isenabled()
    with open(out, 'wb') as f:
        pickle.dump((res, info), f)
