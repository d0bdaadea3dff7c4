"""source of a module whose classes and loaders get lost between dump and load (see checks/c15.py)"""
SOURCE = '''
import collections
import numpy as np, h5py
from hickle.helpers import PyContainer
from hickle.lookup import LoaderManager
PKG = %(pkg)r
class L(list): pass
class Tu(tuple): pass
class S(set): pass
class D(dict): pass
class St(str): pass
class B(bytes): pass
class I(int): pass
class F(float): pass
class C(complex): pass
class OD(collections.OrderedDict): pass
NT = collections.namedtuple('NT', 'a b')
class P:
    def __init__(self, x=None): self.x = x
class X:
    """has a loader of its own"""
class G(X): pass
class GL(X, list): pass
class GI(X, int): pass
class Gsub(G): pass
class V(X): pass
class VS(X, str): pass
class VI(X, int): pass
class Vs(X): pass
class E(X): pass
class GO(X): pass

def create_g(obj, h_group, name, **kw):
    g = h_group.create_group(name)
    for k, v in obj.attrs.items():
        g.attrs[k] = v
    return g, [(n, o, a, kw) for n, o, a in obj.subs]
def create_v(obj, h_group, name, **kw):
    d = h_group.create_dataset(name, data=obj.data)
    for k, v in obj.attrs.items():
        d.attrs[k] = v
    return d, ()
def create_vs(obj, h_group, name, **kw):
    d = h_group.create_dataset(name, data=obj.data, dtype=h5py.string_dtype())
    for k, v in obj.attrs.items():
        d.attrs[k] = v
    return d, ()
def create_e(obj, h_group, name, **kw):
    d = h_group.create_dataset(name, shape=None, dtype='f8')
    for k, v in obj.attrs.items():
        d.attrs[k] = v
    return d, ()
def load_v(h_node, base_type, py_obj_type):
    return py_obj_type()
class GC(PyContainer):
    def convert(self): return self.object_type()
def register():
    for c, create, load, cont, opt in ((G, create_g, None, GC, None), (GL, create_g, None, GC, None), (GI, create_g, None, GC, None),
            (V, create_v, load_v, None, None), (VS, create_v, load_v, None, None), (VI, create_v, load_v, None, None), (Vs, create_vs, load_v, None, None), (E, create_e, load_v, None, None), (GO, create_g, None, GC, 'custom')):
        LoaderManager.register_class(c, (PKG + '-' + c.__name__).encode(), create, load, cont, True, opt)
'''

# what the loaders are called in the file
BASE = dict(L='list', Tu='tuple', S='set', D='dict', St='str', B='bytes', I='int', F='float', C='complex', OD='dict', NT='tuple')
OWN = ('G', 'GL', 'GI', 'V', 'VS', 'VI', 'Vs', 'E', 'GO', 'Gsub')


def realise(spec, mod, made):
    """object described by spec, see checks/c15.py"""
    k = spec[0]
    if k == 'val':
        return spec[1]
    if k == 'ref':
        return made[spec[1]]
    if k in ('list', 'tuple'):
        return {'list': list, 'tuple': tuple}[k](realise(s, mod, made) for s in spec[1])
    if k == 'dict':
        return {a: realise(s, mod, made) for a, s in spec[1]}
    _, uid, cls, c = spec
    T = getattr(mod, cls)
    if cls in ('L', 'Tu', 'S'):
        o = T([realise(s, mod, made) for s in c])
    elif cls == 'NT':
        o = T(*[realise(s, mod, made) for s in c])
    elif cls in ('D', 'OD'):
        o = T([(a, realise(s, mod, made)) for a, s in c])
    elif cls in ('St', 'B', 'I', 'F', 'C', 'P'):
        o = T(c)
    elif cls in ('G', 'GL', 'GI', 'GO', 'Gsub'):
        o = T()
        o.attrs = c['attrs']
        o.subs = [(n, realise(s, mod, made), a) for n, s, a in c['subs']]
    else:
        o = T()
        o.attrs, o.data = c['attrs'], c['data']
    made[uid] = o
    return o
