"""fault injection at the h5py API boundary, and snapshots of process state"""
import contextlib, errno, gc, os, signal, sys, threading, warnings
import h5py, numpy as np


class Injected(Exception):
    pass


POINTS = {
    'create_dataset': (h5py.Group, 'create_dataset'),
    'create_group': (h5py.Group, 'create_group'),
    'require_group': (h5py.Group, 'require_group'),
    'require_dataset': (h5py.Group, 'require_dataset'),
    'group_get': (h5py.Group, 'get'),
    'group_getitem': (h5py.Group, '__getitem__'),
    'group_setitem': (h5py.Group, '__setitem__'),
    'group_items': (h5py.Group, 'items'),
    'attr_get': (h5py.AttributeManager, 'get'),
    'attr_getitem': (h5py.AttributeManager, '__getitem__'),
    'attr_setitem': (h5py.AttributeManager, '__setitem__'),
    'attr_create': (h5py.AttributeManager, 'create'),
    'data_read': (h5py.Dataset, '__getitem__'),
    'data_write': (h5py.Dataset, '__setitem__'),
    'flush': (h5py.File, 'flush'),
}


@contextlib.contextmanager
def inject(k=None, exc=None, points=POINTS):
    """the k-th call (1..) through any of the points raises exc; yields the list of calls seen"""
    seen = []
    saved = []
    state = {'depth': 0, 'fired': False}

    def wrap(name, orig):
        def call(*a, **kw):
            if state['depth']:
                return orig(*a, **kw)
            seen.append(name)
            if k is not None and len(seen) == k:
                state['fired'] = True
                raise exc
            # calls h5py makes to itself are not calls of the code under test
            state['depth'] += 1
            try:
                return orig(*a, **kw)
            finally:
                state['depth'] -= 1
        call.__name__ = orig.__name__
        return call
    for name, (cls, meth) in points.items():
        own = meth in cls.__dict__
        orig = getattr(cls, meth)
        saved.append((cls, meth, own, cls.__dict__.get(meth)))
        setattr(cls, meth, wrap(name, orig))
    try:
        yield seen
    finally:
        for cls, meth, own, orig in saved:
            if own:
                setattr(cls, meth, orig)
            else:
                delattr(cls, meth)


def fault_exceptions():
    return [OSError(errno.ENOSPC, 'No space left on device'), OSError(errno.EIO, 'Input/output error'), RuntimeError('injected fault'),
            MemoryError('injected'), KeyboardInterrupt('injected'), Injected('injected')]


def fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if not t.startswith('/proc/'):
            out[n] = t
    return out


def h5_files():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def h5_objects():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_ALL)


def state():
    """process state a library call has no business changing"""
    cfg = h5py.get_config()
    return dict(
        gc=gc.isenabled(), gc_threshold=gc.get_threshold(), filters=[tuple(map(str, f)) for f in warnings.filters], showwarning=id(warnings.showwarning),
        recursion=sys.getrecursionlimit(), cwd=os.getcwd(), path=list(sys.path), env=dict(os.environ), np_err=np.geterr(), np_print=repr(np.get_printoptions()),
        threads=threading.active_count(), sigint=signal.getsignal(signal.SIGINT), trace=sys.gettrace(), profile=sys.getprofile(),
        h5_track_order=cfg.track_order, h5_bool=cfg.bool_names, h5_complex=cfg.complex_names, umask=_umask(), hooks=(id(sys.excepthook), id(sys.unraisablehook)),
    )


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m
