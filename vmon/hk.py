"""thin wrappers around hickle used by the checks: every call is observed"""
import io, os, warnings
import h5py
import hickle
from hickle import lookup
from .core import Violation, violation
from . import oracle


def dump(ctx, obj, target, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            hickle.dump(obj, target, **kw)
        except Exception as e:
            raise Violation('dump(%s, %s) raised %s: %s' % (oracle.short(obj), kw, type(e).__name__, str(e)[:300]))
    ctx.event('dump')


def load(ctx, target, about=None, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            res = hickle.load(target, **kw)
        except Exception as e:
            raise Violation('load raised %s: %s (dumped: %s)' % (type(e).__name__, str(e)[:300], oracle.short(about)))
    ctx.event('load')
    return res


def try_dump(obj, target, **kw):
    """(True, None) or (False, exception)"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            hickle.dump(obj, target, **kw)
        except Exception as e:
            return False, e
    return True, None


def try_load(target, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return True, hickle.load(target, **kw)
        except Exception as e:
            return False, e


def observe_nodes(ctx, path, root='/', limit=2500):
    """monitor: count the nodes of a written file by kind (evidence of what was reached)"""
    n = 0
    addr = lambda node: h5py.h5o.get_info(node.id).addr
    with h5py.File(path, 'r') as f:
        g = f[root]
        tt = g.get('hickle_types_table')
        names = {addr(e): k for k, e in tt.items()} if tt is not None else {}
        base = {}
        for e in (tt.values() if tt is not None else ()):
            ref = e.attrs.get('base_type')
            base[addr(e)] = names.get(addr(f[ref]), '?') if isinstance(ref, h5py.Reference) else '?'
        stack = [v for k, v in g.items() if k != 'hickle_types_table']
        while stack and n < limit:
            node = stack.pop()
            n += 1
            ref = node.attrs.get('type')
            if isinstance(ref, h5py.Reference):
                kind = base.get(addr(f[ref]), '?')
            elif isinstance(node, h5py.Dataset) and h5py.check_ref_dtype(node.dtype):
                kind = 'reference'
            else:
                kind = 'pickle'
            isgroup = isinstance(node, h5py.Group)
            ctx.event('node:%s:%s' % (kind, 'group' if isgroup else 'dataset'))
            if isgroup:
                stack.extend(node.values())
    return n


def roundtrip(ctx, obj, path=None, observe=False, **kw):
    path = path or ctx.path()
    dump(ctx, obj, path, mode='w', **kw)
    if observe:
        try:
            ctx.event('nodes', observe_nodes(ctx, path))
        except Exception:
            ctx.event('observe-failed')
    return load(ctx, path, obj)


def check_roundtrip(ctx, obj, **kw):
    res = roundtrip(ctx, obj, **kw)
    d = oracle.diff(obj, res)
    if d:
        raise Violation('round trip of %s: %s' % (oracle.short(obj), d))
    ctx.event('compared')
    return res
