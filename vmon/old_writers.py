"""Reference writers of the file layouts of hickle 3.4 and hickle 4.0, independent of the code under test.

The layouts were taken from files written by these releases (hickle_3_4_9.hkl and hickle_4.0.0.hkl
shipped with the repository).  Both only accept what these formats could represent without loss."""
import pickle
import h5py, numpy as np


def S(text):
    """attribute value as written by h5py 2.x for a list holding one byte string"""
    return np.array([text if isinstance(text, bytes) else text.encode('ascii')])


def _kind(cls):
    return "<class '%s'>" % cls.__name__


# ---------------------------------------------------------------- astropy objects, both formats

def _astropy(obj):
    """(base type, data, attributes as (name, text or number)) of an astropy object, None for anything else"""
    if not obj.__class__.__module__.startswith('astropy.'):
        return None
    from astropy.units import Quantity
    from astropy.time import Time
    from astropy.coordinates import Angle, SkyCoord
    from astropy.constants import Constant
    from astropy.table import Table
    if isinstance(obj, Constant):
        attrs = [('unit', str(obj.unit)), ('abbrev', obj.abbrev), ('name', obj.name), ('reference', obj.reference), ('uncertainty', obj.uncertainty)]
        return b'astropy_constant', np.float64(obj.value), attrs + [('system', obj.system)] * bool(obj.system)
    if isinstance(obj, Angle):
        return b'astropy_angle', np.asarray(obj.value, 'f8'), [('unit', str(obj.unit))]
    if isinstance(obj, Quantity):
        return b'astropy_quantity', np.asarray(obj.value, 'f8'), [('unit', str(obj.unit))]
    if isinstance(obj, Time):
        value = np.asarray(obj.value)
        return b'astropy_time', value.astype('S') if value.dtype.kind == 'U' else value, [('format', obj.format), ('scale', obj.scale)]
    if isinstance(obj, SkyCoord):
        lon, lat = obj.data.lon, obj.data.lat
        return b'astropy_skycoord', np.stack((lon.value, lat.value), axis=-1), [('lon_unit', str(lon.unit)), ('lat_unit', str(lat.unit))]
    if isinstance(obj, Table):
        return b'astropy_table', obj.as_array(), [('colnames', [c.encode('ascii') for c in obj.colnames])] + list(obj.meta.items())
    return None


# ---------------------------------------------------------------- hickle 3.4

def v3_root(h5f, version='3.4.9', python='3.6.8'):
    h5f.attrs['CLASS'] = b'hickle'
    h5f.attrs['VERSION'] = version
    h5f.attrs['type'] = S(b'hickle')
    h5f.attrs['PYTHON_VERSION'] = python


def v3_dump(obj, h5f, path='/', **opts):
    v3_root(h5f)
    group = h5f.get(path)
    if group is None:
        group = h5f.create_group(path)
        group.attrs['type'] = S(b'hickle')
    _v3(obj, group, 0, opts)


def _v3_dataset(group, i, data, kind, opts=None, **kw):
    d = group.create_dataset('data_%i' % i, data=data, **kw, **(opts or {}))
    d.attrs['type'] = S(kind)
    return d


def _v3_group(group, i, kind):
    g = group.create_group('data_%i' % i)
    g.attrs['type'] = S(kind)
    return g


def _v3(obj, group, i, opts):
    cls = obj.__class__
    sky = _astropy(obj)
    if sky is not None:
        base, data, attrs = sky
        d = _v3_dataset(group, i, data, base)
        for k, v in attrs:
            if k == 'colnames':
                d.attrs[k] = np.array(v)
            elif base == b'astropy_table':
                d.attrs[k] = v
            elif isinstance(v, str) and base == b'astropy_constant':
                d.attrs.create(k, [v], dtype=h5py.special_dtype(vlen=str))
            else:
                d.attrs[k] = S(v) if isinstance(v, str) else [v]
    elif obj is None:
        _v3_dataset(group, i, [0], 'none')
    elif cls in (bool, int, float, complex):
        d = _v3_dataset(group, i, obj, 'python_dtype', dtype=cls)
        d.attrs['python_subdtype'] = _kind(cls).encode('ascii')
    elif cls is str:
        d = group.create_dataset('data_%i' % i, shape=(1,), dtype=h5py.special_dtype(vlen=str), **opts)
        d[0] = obj
        d.attrs['type'] = S('string')
    elif cls is bytes:
        _v3_dataset(group, i, np.array([obj]), 'bytes', opts)
    elif cls is np.ma.MaskedArray:
        _v3_dataset(group, i, obj.data, 'ndarray_masked_data', opts if obj.ndim else None)
        m = group.create_dataset('data_%i_mask' % i, data=obj.mask, **(opts if np.ndim(obj.mask) else {}))
        m.attrs['type'] = S('ndarray_masked_mask')
    elif cls is np.ndarray:
        _v3_dataset(group, i, obj, 'ndarray', opts if obj.ndim else None)
    elif isinstance(obj, np.dtype):
        d = group.create_dataset('data_%i' % i, data=np.array([str(obj)], dtype=object), dtype=h5py.special_dtype(vlen=str))
        d.attrs['type'] = S('np_dtype')
    elif isinstance(obj, np.generic):
        d = _v3_dataset(group, i, obj, 'np_scalar')
        d.attrs['np_dtype'] = str(d.dtype).encode('ascii')
    elif cls.__name__ in ('csr_matrix', 'csc_matrix', 'bsr_matrix'):
        g = _v3_group(group, i, cls.__name__)
        for part in ('data', 'indices', 'indptr', 'shape'):
            d = g.create_dataset(part, data=getattr(obj, part), **opts)
            d.attrs['type'] = S('%s_%s' % (cls.__name__, part))
    elif cls is dict:
        g = _v3_group(group, i, _kind(dict))
        for key, value in obj.items():
            item = g.create_group('%r' % (key,) if isinstance(key, str) else str(key))
            item.attrs['type'] = S('dict_item')
            item.attrs['key_type'] = S(_kind(key.__class__))
            _v3(value, item, 0, opts)
    elif cls in (list, tuple, set):
        items = list(obj)
        kinds = {x.__class__ for x in items}
        if len(kinds) == 1 and kinds <= {bool, int, float, complex, str, bytes}:
            kind, = kinds
            data = [x.encode('utf8') for x in items] if kind is str else items
            d = _v3_dataset(group, i, np.array(data), _kind(cls), opts)
            if kind in (str, bytes):
                d.attrs['py3_string_type'] = S(_kind(kind))
        else:
            g = _v3_group(group, i, _kind(cls))
            for n, x in enumerate(items):
                _v3(x, g, n, opts)
    else:
        d = _v3_dataset(group, i, np.array([pickle.dumps(obj, protocol=3)]), 'pickle')


# ---------------------------------------------------------------- hickle 4.0

# what hickle 4.0 stored as the 'type' of object arrays: a lambda function pickled with dill
LAMBDA_TYPE = np.array(
    b'\x80\x03cdill._dill\n_create_function\nq\x00(cdill._dill\n_load_type\nq\x01X'
    b'\x08\x00\x00\x00CodeTypeq\x02\x85q\x03Rq\x04(K\x01K\x00K\x01K\x03KSC\x0et\x00j\x01|\x00d\x01\x19\x00\x83\x01S\x00q\x05NK\x00\x86q\x06X\x02\x00\x00\x00'
    b'npq\x07X\x05\x00\x00\x00arrayq\x08\x86q\tX\x01\x00\x00\x00xq\n\x85q\x0bXT\x00\x00\x00/home/nother/daten/projek'
    b'te/github-contributions/hickle/hickle/loaders/load_numpy.pyq'
    b'\x0cX\x08\x00\x00\x00<lambda>q\rKiC\x00q\x0e))tq\x0fRq\x10chickle.loaders.load_numpy\n__d'
    b'ict__\nh\rNN}q\x11Ntq\x12Rq\x13.')


def _pickled_class(cls):
    if cls.__module__ == 'builtins':
        # hickle 4.0 used dill, which stores the names of built-in classes
        name = cls.__name__.encode()
        return b'\x80\x03cdill._dill\n_load_type\nq\x00X' + len(name).to_bytes(4, 'little') + name + b'q\x01\x85q\x02Rq\x03.'
    return pickle.dumps(cls, protocol=3)


def v4_dump(obj, h5f, path='/', version='4.0.1', python='3.6.8', **opts):
    group = h5f.require_group(path)
    group.attrs['HICKLE_VERSION'] = version
    group.attrs['HICKLE_PYTHON_VERSION'] = python
    _v4(obj, group, 'data', opts)


def _tag(node, base_type, cls, **attrs):
    node.attrs['base_type'] = base_type
    if cls is not None:
        node.attrs['type'] = np.array(_pickled_class(cls))
    for k, v in attrs.items():
        node.attrs[k] = v
    return node


def _v4(obj, group, name, opts):
    """one node; `name` is 'data' or 'data_<index>'"""
    cls = obj.__class__
    sky = _astropy(obj)
    if sky is not None:
        base, data, attrs = sky
        d = _tag(group.create_dataset(name, data=data), base, cls)
        for k, v in attrs:
            if k == 'colnames':
                d.attrs[k] = np.array(v)
            else:
                d.attrs[k] = v.encode('ascii') if isinstance(v, str) and base != b'astropy_table' else v
        if base == b'astropy_time':
            d.attrs['np_dtype'] = np.asarray(obj.value).dtype.str.encode('ascii')
    elif obj is None:
        _tag(group.create_dataset(name, data=bytearray(b'None'), **opts), b'None', cls)
    elif cls in (bool, float, complex, int):
        _tag(group.create_dataset(name, data=obj), cls.__name__.encode(), cls)
    elif cls is str:
        _tag(group.create_dataset(name, data=obj, dtype=h5py.special_dtype(vlen=str)), b'str', cls)
    elif cls is bytes:
        _tag(group.create_dataset(name, data=obj, dtype=h5py.special_dtype(vlen=bytes)), b'bytes', cls)
    elif cls is np.ma.MaskedArray:
        d = group.create_dataset(name, data=obj.data, **(opts if obj.ndim else {}))
        _tag(d, b'ndarray_masked_data', cls, np_dtype=str(obj.dtype).encode())
        m = group.create_dataset(name + '_mask', data=obj.mask, **(opts if np.ndim(obj.mask) else {}))
        _tag(m, b'ndarray_masked_mask', np.ndarray)
    elif cls is np.ndarray and obj.dtype.kind == 'O':
        g = _tag(group.create_group(name), b'ndarray', None, np_dtype=b'object')
        g.attrs['type'] = LAMBDA_TYPE
        _v4(obj.tolist(), g, 'data', opts)
    elif cls is np.ndarray:
        data = obj.astype('S%d' % max(1, obj.dtype.itemsize // 4)) if obj.dtype.kind == 'U' else obj
        kw = opts if obj.ndim and obj.dtype.kind not in 'US' else {}
        _tag(group.create_dataset(name, data=data, **kw), b'ndarray', cls, np_dtype=str(obj.dtype).encode())
    elif isinstance(obj, np.dtype):
        d = group.create_dataset(name, data=str(obj), dtype=h5py.special_dtype(vlen=str))
        _tag(d, b'np_dtype', np.dtype)
    elif isinstance(obj, np.generic):
        _tag(group.create_dataset(name, data=obj), b'np_scalar', cls, np_dtype=str(obj.dtype).encode())
    elif cls.__name__ in ('csr_matrix', 'csc_matrix', 'bsr_matrix'):
        kind = cls.__name__.encode()
        g = _tag(group.create_group(name), kind, None)
        g.attrs['type'] = np.array(b'\x80\x03chickle.loaders.load_scipy\nreturn_first\nq\x00.')
        _tag(g.create_dataset('data', data=obj.data, **opts), kind, cls)
        for part in ('indices', 'indptr', 'shape'):
            d = _tag(g.create_dataset(part, data=getattr(obj, part), **opts), kind + b'_' + part.encode(), None)
            d.attrs['type'] = np.array(b'\x80\x03c__builtin__\nNoneType\n.')
    elif isinstance(obj, dict):
        g = _tag(group.create_group(name), b'dict', cls)
        for idx, (key, value) in enumerate(obj.items()):
            # '/' would nest groups, it was replaced by a backslash
            item = g.create_group(('%r' % (key,) if isinstance(key, str) else str(key)).replace('/', '\\'))
            item.attrs['base_type'] = b'dict_item'
            item.attrs['key_base_type'] = key.__class__.__name__.encode()
            item.attrs['key_type'] = np.array(_pickled_class(key.__class__))
            item.attrs['key_idx'] = idx
            _v4(value, item, 'data', opts)
    elif isinstance(obj, (list, tuple, set)):
        base = next(b for b in (list, tuple, set) if isinstance(obj, b)).__name__.encode()
        items = list(obj)
        kinds = {x.__class__ for x in items}
        if len(kinds) == 1 and kinds <= {bool, int, float, complex, str, bytes}:
            kind, = kinds
            data = [x.encode('utf8') for x in items] if kind is str else items
            d = _tag(group.create_dataset(name, data=np.array(data), **opts), base, cls)
            if kind in (str, bytes):
                d.attrs['str_type'] = kind.__name__.encode()
        else:
            g = _tag(group.create_group(name), base, cls)
            for n, x in enumerate(items):
                _v4(x, g, 'data_%i' % n, opts)
    else:
        data = np.array(pickle.dumps(obj, protocol=3))
        d = group.create_dataset(name, data=data)
        d.attrs['base_type'] = b'pickle'
