"""Reference encoder and decoder of the file layout of hickle 5, written against h5py only.

Nothing here uses hickle: the encoder lays out files as release 5.0.3 does, the decoder reads
files and refuses whatever deviates from that layout (FormatError)."""
import pickle, re
import h5py, numpy as np


def huge(x):
    return x.__class__ is int and x.bit_length() > 14200


class FormatError(Exception):
    pass


TABLE = 'hickle_types_table'
NUMBERS = {bool: '?', int: 'i8', float: 'f8', complex: 'c16'}


def plain(items):
    """the class of the items if they are all plain numbers of one class fitting a dataset"""
    classes = {i.__class__ for i in items}
    if len(classes) == 1:
        c = classes.pop()
        if c in NUMBERS and (c is not int or all(-2 ** 63 < i < 2 ** 63 for i in items)):
            return c
    return None


# ------------------------------------------------------------------------------------ encoder

class Encoder:
    def __init__(self, h5f, path='/', version='5.0.3', python='3.9.7', np_shape=True, **opts):
        self.root = h5f if path == '/' else h5f.require_group(path)
        self.root.attrs['HICKLE_VERSION'] = version
        self.root.attrs['HICKLE_PYTHON_VERSION'] = python
        self.table = self.root.create_group(TABLE, track_order=True)
        self.types, self.bases, self.memo, self.opts, self.np_shape = {}, {}, {}, opts, np_shape

    def type_ref(self, cls, base):
        if cls not in self.types:
            text = np.frombuffer(pickle.dumps(cls, 4), 'S1')
            e = self.types[cls] = self.table.create_dataset(str(len(self.table)), data=text, shape=(1, text.size), **self.opts)
            if base not in self.bases:
                self.bases[base] = self.table.create_dataset(base, shape=None, dtype='S1')
            e.attrs['base_type'] = self.bases[base].ref
        return self.types[cls].ref

    def encode(self, obj):
        self.node(obj, self.root, 'data')

    def node(self, obj, group, name, **attrs):
        if id(obj) in self.memo:
            n = group.create_dataset(name, data=self.memo[id(obj)][0].ref, dtype=h5py.ref_dtype)
            for k, v in attrs.items():
                n.attrs[k] = v
            return
        base, n, items = self.create(obj, group, name)
        if base is not None:
            n.attrs['type'] = self.type_ref(obj.__class__, base)
        for k, v in attrs.items():
            n.attrs[k] = v
        if isinstance(obj, (str, bytes)) or not isinstance(obj, (bool, int, float, complex, np.generic)) and obj is not None:
            self.memo[id(obj)] = (n, obj)
        for sub, value, sub_attrs in items:
            self.node(value, n, sub, **sub_attrs)

    def text(self, data, group, name):
        a = np.frombuffer(data, 'S1') if data else np.empty(0, 'S1')
        return group.create_dataset(name, data=a, shape=(1, a.size), **(self.opts if a.size else {}))

    def sequence(self, obj, group, name):
        obj = list(obj)
        if not obj:
            return group.create_dataset(name, shape=None, dtype='int'), ()
        c = plain(obj)
        if c:
            return group.create_dataset(name, data=np.array(obj, NUMBERS[c]), **self.opts), ()
        g = group.create_group(name)
        g.attrs['num_items'] = len(obj)
        return g, [('data%d' % i, x, dict(item_index=i)) for i, x in enumerate(obj)]

    def create(self, obj, group, name):
        if obj is None:
            return 'None', group.create_dataset(name, shape=None, dtype='V1'), ()
        for base, cls in (('bool', bool), ('int', int), ('float', float), ('complex', complex)):
            if isinstance(obj, cls) and not isinstance(obj, np.generic):
                if cls is int and obj.bit_length() > 63:
                    return base, group.create_dataset(name, data=np.frombuffer(b'%d' % obj, 'u1'), **self.opts), ()
                return base, group.create_dataset(name, data=cls(obj)), ()
        if isinstance(obj, np.generic) and not isinstance(obj, (np.str_, np.bytes_)):
            n = group.create_dataset(name, data=obj)
            n.attrs['np_dtype'] = obj.dtype.str.encode()
            return 'np_scalar', n, ()
        if isinstance(obj, (str, bytes)):
            n = self.text(obj.encode('utf8', 'surrogatepass') if isinstance(obj, str) else obj, group, name)
            n.attrs['str_type'] = obj.__class__.__name__.encode()
            return ('str' if isinstance(obj, str) else 'bytes'), n, ()
        if isinstance(obj, set) and not obj:
            return 'set', group.create_dataset(name, shape=(0,), dtype='int'), ()
        for cls in (list, tuple, set):
            if isinstance(obj, cls):
                return (cls.__name__,) + self.sequence(obj, group, name)
        if isinstance(obj, dict):
            g, items = group.create_group(name), []
            for i, (k, v) in enumerate(obj.items()):
                c, sub = k.__class__, None
                if c is str:
                    sub = '"%s"' % k
                elif c is bytes:
                    try:
                        sub = 'b"%s"' % k.decode('utf8')
                    except UnicodeError:
                        pass
                elif c in (bool, int, float, complex) or k is None:
                    sub = repr(k)
                if sub is not None and not re.search('[\\\\/\0\ud800-\udfff]', sub):
                    items.append((sub, v, dict(key_idx=i, key_base_type=c.__name__.encode())))
                else:
                    items.append(('data%d' % i, (k, v), dict(key_idx=i, key_base_type=b'key_value')))
            return 'dict', g, items
        if isinstance(obj, np.ma.MaskedArray):
            g = group.create_group(name)
            g.attrs['np_dtype'] = obj.dtype.str.encode()
            return 'ndarray_masked', g, [('data', obj.data, {}), ('mask', obj.mask, {})]
        if isinstance(obj, np.ndarray):
            items = ()
            if obj.size < 1 and obj.dtype.kind in 'UO':
                n = group.create_dataset(name, shape=None, dtype='int')
                n.attrs['np_shape'] = obj.shape
            elif obj.dtype.kind == 'U':
                if obj.ndim:
                    n, items = self.sequence(obj.tolist(), group, name)
                else:
                    n = self.text(obj.item().encode('utf8', 'surrogatepass'), group, name)
            elif obj.dtype.kind == 'O':
                if obj.ndim:
                    n, items = self.sequence(obj.tolist(), group, name)
                else:
                    n, items = group.create_group(name), [('data', obj.item(), {})]
                if self.np_shape:
                    n.attrs['np_shape'] = obj.shape
            else:
                n = group.create_dataset(name, data=obj, **(self.opts if obj.ndim and obj.dtype.kind != 'S' else {}))
            n.attrs['np_dtype'] = obj.dtype.str.encode()
            return ('np_matrix' if isinstance(obj, np.matrix) else 'ndarray'), n, items
        if isinstance(obj, np.dtype) and obj.names is None and obj.subdtype is None:
            return 'np_dtype', group.create_dataset(name, data=np.frombuffer(obj.str.encode(), 'u1'), **self.opts), ()
        if obj.__class__.__name__ in ('csr_matrix', 'csc_matrix', 'bsr_matrix'):
            return obj.__class__.__name__, group.create_group(name), [(p, getattr(obj, p), {}) for p in ('data', 'indices', 'indptr', 'shape')]
        return None, group.create_dataset(name, data=np.frombuffer(pickle.dumps(obj, 4), 'u1'), **self.opts), ()


# ------------------------------------------------------------------------------------ decoder

def _s(x):
    return x.decode('utf8') if isinstance(x, bytes) else x


def addr(node):
    return h5py.h5o.get_info(node.id).addr


class Decoder:
    """decodes the object stored below path, counts what it saw in .seen"""

    def __init__(self, h5f, path='/', seen=None):
        self.f, self.root, self.path = h5f, h5f[path], path
        self.seen = seen if seen is not None else (lambda kind: None)
        self.memo, self.types, self.table = {}, {}, {}

    def need(self, ok, node, text, *args):
        if not ok:
            raise FormatError('%s: %s' % (node.name, text % args if args else text))

    def check_root(self, version=None, python=None):
        a = self.root.attrs
        for name in ('HICKLE_VERSION', 'HICKLE_PYTHON_VERSION'):
            self.need(isinstance(a.get(name), str) and re.match(r'\d+\.\d+\.\d+', a[name]), self.root, 'attribute %s is %r', name, a.get(name))
        self.need(version is None or a['HICKLE_VERSION'] == version, self.root, 'HICKLE_VERSION is %r', a['HICKLE_VERSION'])
        self.need(python is None or a['HICKLE_PYTHON_VERSION'] == python, self.root, 'HICKLE_PYTHON_VERSION is %r', a['HICKLE_PYTHON_VERSION'])
        self.need(a['HICKLE_VERSION'].split('.')[0] == '5', self.root, 'HICKLE_VERSION is %r', a['HICKLE_VERSION'])
        self.need(isinstance(self.root.get(TABLE), h5py.Group), self.root, 'no group %s', TABLE)
        others = [k for k in self.root if k not in ('data', TABLE) and not self.root[k].attrs.get('HICKLE_VERSION')]
        self.need('data' in self.root, self.root, "no node 'data'")
        return others

    def decode(self):
        return self.node(self.root['data'])

    def resolve(self, node):
        ref = node.attrs['type']
        self.need(isinstance(ref, h5py.Reference) and bool(ref), node, "'type' is no object reference but %r", ref)
        entry = self.f[ref]
        key = addr(entry)
        if key not in self.types:
            if not self.table:
                self.table.update((addr(e), n) for n, e in self.root[TABLE].items())
            name = self.table.get(key)
            self.need(name is not None and name.isdigit(), node, "'type' refers to %s", name or entry.name)
            self.need(isinstance(entry, h5py.Dataset) and entry.dtype == np.dtype('S1') and entry.ndim == 2 and entry.shape[0] == 1, entry, 'is %s', entry)
            base = entry.attrs.get('base_type')
            self.need(isinstance(base, h5py.Reference) and bool(base), entry, 'base_type is %r', base)
            base = self.f[base]
            bname = self.table.get(addr(base))
            self.need(bname is not None and base.shape is None and base.dtype == np.dtype('S1'), entry, 'base_type refers to %s', base)
            self.types[key] = pickle.loads(entry[()].tobytes()), bname
        return self.types[key]

    def node(self, node):
        key = addr(node)
        if key in self.memo:
            return self.memo[key]
        dataset = isinstance(node, h5py.Dataset)
        if 'type' not in node.attrs:
            self.need(dataset, node, "group without 'type'")
            if h5py.check_ref_dtype(node.dtype):
                self.need(node.shape == (), node, 'reference has shape %s', node.shape)
                self.need(bool(node[()]), node, 'null reference')
                self.seen('reference')
                return self.node(self.f[node[()]])
            self.need(node.dtype == np.dtype('u1') and node.ndim == 1, node, 'pickle is %s%s', node.dtype, node.shape)
            self.seen('pickle')
            value = pickle.loads(node[()].tobytes())
        else:
            cls, base = self.resolve(node)
            method = getattr(self, 'd_' + base, None)
            self.need(method is not None, node, 'unknown base type %s', base)
            self.seen('%s:%s' % (base, 'dataset' if dataset else 'group'))
            value = method(node, cls, dataset)
        self.memo[key] = value
        return value

    # scalars
    def d_None(self, node, cls, dataset):
        self.need(dataset and node.shape is None and node.dtype == np.dtype('V1') and cls is type(None), node, 'None is %s%s', node, cls)
        return None

    def scalar(self, node, cls, dataset, kind, of):
        self.need(issubclass(cls, of) and dataset, node, '%s as %s', cls, of)
        self.need(node.shape == () and node.dtype == np.dtype(kind), node, '%s is %s%s', cls, node.dtype, node.shape)
        v = of(node[()])
        return v if cls is of else cls(v)

    def d_int(self, node, cls, dataset):
        if dataset and node.shape != ():
            self.need(node.ndim == 1 and node.dtype == np.dtype('u1'), node, 'large int is %s%s', node.dtype, node.shape)
            v = int(node[()].tobytes().decode('ascii'))
            self.need(v.bit_length() > 63, node, 'small int stored as text')
            return v if cls is int else cls(v)
        return self.scalar(node, cls, dataset, 'i8', int)

    def d_bool(self, node, cls, dataset):
        return self.scalar(node, cls, dataset, '?', bool)

    def d_float(self, node, cls, dataset):
        return self.scalar(node, cls, dataset, 'f8', float)

    def d_complex(self, node, cls, dataset):
        return self.scalar(node, cls, dataset, 'c16', complex)

    def np_dtype(self, node):
        d = node.attrs.get('np_dtype')
        self.need(isinstance(d, (bytes, str)), node, 'np_dtype is %r', d)
        return np.dtype(_s(d))

    def d_np_scalar(self, node, cls, dataset):
        dt = self.np_dtype(node)
        self.need(dataset and node.shape == (), node, 'scalar is %s', node)
        v = node[()]
        if dt.kind == 'V':
            return v
        self.need(node.dtype == dt, node, 'scalar of dtype %s stored as %s', dt, node.dtype)
        self.need(issubclass(cls, np.generic), node, 'type %s of a numpy scalar', cls)
        return dt.type(v)

    def raw(self, node):
        self.need(node.dtype == np.dtype('S1') and node.ndim == 2 and node.shape[0] == 1, node, 'text is %s%s', node.dtype, node.shape)
        return node[()].tobytes()

    def d_str(self, node, cls, dataset):
        self.need(dataset, node, 'str as group')
        self.need(_s(node.attrs.get('str_type')) == cls.__name__, node, 'str_type is %r', node.attrs.get('str_type'))
        v = self.raw(node).decode('utf8', 'surrogatepass')
        return v if cls is str else cls(v)

    def d_bytes(self, node, cls, dataset):
        self.need(dataset, node, 'bytes as group')
        self.need(_s(node.attrs.get('str_type')) == cls.__name__, node, 'str_type is %r', node.attrs.get('str_type'))
        v = self.raw(node)
        return v if cls is bytes else cls(v)

    # containers
    def sequence(self, node, dataset, empty_set=False):
        if dataset:
            if node.shape is None:
                self.need(node.dtype == np.dtype('int'), node, 'empty sequence is %s', node.dtype)
                return []
            if empty_set and node.shape == (0,) and node.dtype == np.dtype('int'):
                return []
            self.need(node.ndim == 1 and node.size > 0 and node.dtype.kind in 'biufc', node, 'sequence is %s%s', node.dtype, node.shape)
            return list(node[()])
        n = node.attrs.get('num_items')
        self.need(isinstance(n, np.integer) and n == len(node), node, 'num_items is %r, %d items', n, len(node))
        items = [None] * int(n)
        for i in range(int(n)):
            self.need('data%d' % i in node, node, 'no item data%d', i)
            sub = node['data%d' % i]
            self.need(isinstance(sub.attrs.get('item_index'), np.integer) and sub.attrs['item_index'] == i, sub, 'item_index is %r', sub.attrs.get('item_index'))
            items[i] = self.node(sub)
        self.need(plain(items) is None, node, 'numbers not stored as dataset')
        return items

    def d_list(self, node, cls, dataset, of=list):
        self.need(issubclass(cls, of), node, '%s as %s', cls, of)
        items = of(self.sequence(node, dataset, of is set))
        return items if cls is of else getattr(cls, '_make', cls)(items)

    def d_tuple(self, node, cls, dataset):
        return self.d_list(node, cls, dataset, tuple)

    def d_set(self, node, cls, dataset):
        return self.d_list(node, cls, dataset, set)

    def d_dict(self, node, cls, dataset):
        self.need(not dataset and issubclass(cls, dict), node, 'dict is %s of %s', node, cls)
        items = {}
        for name, sub in node.items():
            i, kind = sub.attrs.get('key_idx'), _s(sub.attrs.get('key_base_type'))
            self.need(isinstance(i, np.integer) and i not in items and 0 <= i < len(node), sub, 'key_idx is %r', i)
            if kind == 'key_value':
                self.need(name == 'data%d' % i, sub, 'item %d is named %s', i, name)
                value = self.node(sub)
                self.need(value.__class__ is tuple and len(value) == 2, sub, 'no key value pair')
                self.need(value[0].__class__ is not str or re.search('[\\\\/\0\ud800-\udfff]', value[0]), sub, 'str key stored as pair')
                self.need((value[0].__class__ not in (bool, int, float, complex) or huge(value[0])) and value[0] is not None, sub, '%s key stored as pair', type(value[0]))
                items[i] = value
                continue
            if kind == 'str':
                self.need(len(name) > 1 and name[0] == name[-1] == '"', sub, 'name of str key')
                k = name[1:-1]
            elif kind == 'bytes':
                self.need(len(name) > 2 and name[:2] == 'b"' and name[-1] == '"', sub, 'name of bytes key')
                k = name[2:-1].encode('utf8')
            else:
                conv = dict(bool={'True': True, 'False': False}.__getitem__, int=int, float=float, complex=complex, NoneType={'None': None}.__getitem__).get(kind)
                self.need(conv is not None, sub, 'key_base_type is %r', kind)
                k = conv(name)
                self.need(repr(k) == name, sub, 'name of %s key', kind)
            items[i] = (k, self.node(sub))
        self.need(sorted(items) == list(range(len(node))), node, 'key_idx %s', sorted(items))
        d = {}
        for i in range(len(items)):
            d[items[i][0]] = items[i][1]
        self.need(len(d) == len(items), node, 'keys collide')
        return d if cls is dict else cls(d)

    # numpy
    def d_np_dtype(self, node, cls, dataset):
        self.need(dataset and node.ndim == 1 and node.dtype == np.dtype('u1'), node, 'dtype is %s', node)
        return np.dtype(node[()].tobytes().decode('ascii'))

    def d_ndarray(self, node, cls, dataset, of=np.ndarray):
        dt = self.np_dtype(node)
        shape = node.attrs.get('np_shape')
        self.need(cls is of, node, '%s as %s', cls, of)
        if dataset and node.shape is None:
            self.need(dt.kind in 'UO' and shape is not None and 0 in shape, node, 'empty array of %s, np_shape %s', dt, shape)
            a = np.empty(tuple(int(i) for i in shape), dt)
        elif dt.kind == 'U' and dataset:
            a = np.array(self.raw(node).decode('utf8', 'surrogatepass'), dt)
        elif dt.kind == 'U':
            self.need(shape is None or len(shape), node, 'np_shape of str array')
            a = np.array(self.sequence(node, dataset), dt)
        elif dt.kind == 'O':
            self.need(shape is not None, node, 'object array without np_shape')
            if len(shape) == 0:
                self.need(not dataset and list(node) == ['data'], node, 'zero dimensional object array')
                items = self.node(node['data'])
            else:
                items = self.sequence(node, dataset)
            a = np.empty(int(np.prod(shape)), object)
            for n, index in enumerate(np.ndindex(*shape)):
                item = items
                for i in index:
                    item = item[i]
                a[n] = item
            a = a.reshape(tuple(shape))
        else:
            self.need(dataset, node, 'array of %s as group', dt)
            self.need(node.dtype == dt or dt.kind == 'V', node, 'array of %s stored as %s', dt, node.dtype)
            a = np.empty(node.shape, node.dtype)
            a[...] = node[()]
        return a if cls is np.ndarray else cls(a)

    def d_np_matrix(self, node, cls, dataset):
        return self.d_ndarray(node, cls, dataset, np.matrix)

    def d_ndarray_masked(self, node, cls, dataset):
        self.need(not dataset and cls is np.ma.MaskedArray and sorted(node) == ['data', 'mask'], node, 'masked array %s', node)
        data, mask = self.node(node['data']), self.node(node['mask'])
        dt = self.np_dtype(node)
        self.need(dt.kind == 'V' or data.dtype == dt, node, 'np_dtype %s, data %s', dt, data.dtype)
        return np.ma.array(data, mask=mask)

    def sparse(self, node, cls, dataset):
        self.need(not dataset and sorted(node) == ['data', 'indices', 'indptr', 'shape'], node, 'sparse matrix %s', sorted(node) if not dataset else node)
        for p in ('data', 'indices', 'indptr', 'shape'):
            self.need(isinstance(node[p], h5py.Dataset), node, '%s of sparse matrix is no dataset', p)
        shape = self.node(node['shape'])
        self.need(shape.__class__ is tuple and len(shape) == 2, node, 'shape is %r', shape)
        m = cls((int(shape[0]), int(shape[1]))) if cls.__name__ != 'bsr_matrix' else None
        data, indices, indptr = (self.node(node[p]) for p in ('data', 'indices', 'indptr'))
        if m is None:
            return cls((data, indices, indptr), shape=(int(shape[0]), int(shape[1])))
        m.data, m.indices, m.indptr = data, indices, indptr
        return m

    d_csr_matrix = d_csc_matrix = d_bsr_matrix = sparse
