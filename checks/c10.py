"""C10: handles and process state are clean after every success or failure."""
import collections, gc, io, os, sys, warnings, weakref
import h5py, numpy as np
import hickle
from vmon import customs, faults, gen, hk, oracle, types_for_tests as T
from vmon.core import Violation

ID = 'C10'
LEVEL = 'fault_enumeration'
NCASES = {'quick': 200, 'thorough': 3000}
MIN_DISTINCT = {'quick': 600, 'thorough': 8000}
TARGETS = ('name', 'handle', 'group', 'fileobj', 'buffer')
CREATE_FAILS = ('create-before', 'create-after', 'subitems')
LOAD_FAILS = ('container-init', 'filter', 'append', 'convert')
REQUIRED = (['target:' + t for t in TARGETS] + ['fail:' + f for f in CREATE_FAILS + LOAD_FAILS]
            + ['dump-ok', 'dump-failed', 'load-ok', 'load-failed', 'state-compared', 'handle-usable', 'retry-dump', 'retry-load', 'retry-same-path', 'gc-off', 'gc-on', 'not-retained',
               'fault:create_dataset', 'fault:create_group', 'fault:attr_setitem', 'fault:flush', 'fault:data_read', 'fault:group_get', 'fail:unpicklable', 'fail:unpickle', 'fail:option', 'fail:kwargs', 'fail:cyclic', 'fail:occupied',
               'fail:nopath', 'fail:recursion', 'fail:badmode', 'fail:readonly', 'fail:nothickle', 'fail:damaged', 'exc:KeyboardInterrupt', 'exc:OSError', 'exc:MemoryError', 'exc:RuntimeError', 'exc:SystemExit'])
RULE = ('every dump/load is bracketed by monitors: open HDF5 files at the moment the call ends (exception still alive), open HDF5 objects, file descriptors, gc/warnings/recursion/cwd/env/h5py/NumPy state, refcounts and weak references of the '
        'objects involved, usability of handles passed in; faults: every (thorough) or sampled (quick) call the code makes into h5py (create, attribute, read, lookup, flush) raises one of 6 exceptions, plus unpicklable objects, '
        'failing user loaders at 7 points, unknown options, rejected keyword arguments, cycles, occupied and missing paths, foreign and damaged files; after each failure the same target is dumped to and loaded from again; '
        'distinct by target, failure, fault point and object structure')
ASSUMPTIONS = ['faults are raised at the h5py boundary or in user code; after a failed write() HDF5 itself may keep broken state (it segfaults), which hickle cannot repair: those are observed in separate processes by C11',
               'the exception of a fault in File.close itself is outside the property']

customs.register()
EXCS = (RuntimeError, OSError, MemoryError, KeyboardInterrupt, SystemExit, ValueError)


def obj_for(r):
    sh = [1, 'shared', None]
    return {'list': [1, 2.5, 'x', None, True], 'n': {'a': (1, 'b'), b'k': sh, (1, 2): {'deep': [sh]}}, 'arr': gen.fill_numeric(r, 'f8', (4, 3)),
            'obj': np.array([1, 'x', None], dtype=object), 's': {1, 2, 3}, 'str': 'text', 'sub': T.ListSub([1, 'y']), 'custom': T.Custom([1, 'z']), 'p': T.Data(1, 'd'), 'v': gen.rvalue(r, 2), 'decl': collections.defaultdict(list, a=[1]), 'dt': np.dtype([('a', 'i4')])}


class Target:
    """one target kind with existing content at 'keep'"""

    def __init__(self, ctx, kind, keep):
        self.ctx, self.kind, self.keep, self.r = ctx, kind, keep, ctx.rng
        self.fn = ctx.path()
        hk.dump(ctx, keep, self.fn, path='keep')
        self.h = self.f = None
        if kind in ('handle', 'group'):
            self.h = h5py.File(self.fn, 'r+')
            self.g = self.h.require_group('base') if kind == 'group' else None
        elif kind == 'fileobj':
            self.f = open(self.fn, 'r+b')
        elif kind == 'buffer':
            self.f = io.BytesIO(open(self.fn, 'rb').read())
        ctx.event('target:' + kind)

    def arg(self):
        return {'name': self.fn, 'handle': self.h, 'group': getattr(self, 'g', None), 'fileobj': self.f, 'buffer': self.f}[self.kind]

    def mode(self):
        return self.r.choice(('a', 'r+'))

    def usable(self):
        if self.h is not None and not self.h:
            return 'HDF5 handle was closed'
        if self.kind == 'group' and not self.g:
            return 'group handle was closed'
        if self.f is not None and self.f.closed:
            return 'file object was closed'
        if self.h is not None:
            try:
                self.h.attrs['probe'] = 1
                del self.h.attrs['probe']
                if 'keep' not in self.h:
                    return 'content vanished from handle'
            except Exception as e:
                return 'handle unusable: %r' % e
        return None

    def keep_ok(self):
        t = self.h if self.h is not None else self.fn if self.kind == 'name' else self.f
        d = oracle.diff(self.keep, hk.load(self.ctx, t, self.keep, path='keep'))
        if d:
            raise Violation('content at another path after the call: %s' % d)

    def close(self):
        if self.h is not None:
            self.h.close()
        if self.f is not None:
            self.f.close()


def monitored(ctx, what, call, tgt=None, label=''):
    """runs call() under the state monitors; returns (ok, result or exception type name)"""
    gc_on = ctx.rng.random() < .6
    gc.collect()
    (gc.enable if gc_on else gc.disable)()
    ctx.event('gc-on' if gc_on else 'gc-off')
    files0, objs0, fds0, st0 = faults.h5_files(), faults.h5_objects(), faults.fds(), faults.state()
    err = res = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            st1 = faults.state()
            try:
                res = call()
            except BaseException as e:
                if type(e).__name__ == 'CaseTimeout':
                    raise
                err = e
            # at the moment the call has ended, exception and traceback still alive
            files1, fds1, st2 = faults.h5_files(), faults.fds(), faults.state()
        ok = err is None
        name = None if ok else type(err).__name__
        text = '' if ok else str(err)[:200]
        ctx.event('%s-%s' % (what, 'ok' if ok else 'failed'))
        where = '%s %s (%s %s)' % (what, 'succeeded' if ok else 'raised ' + name, label, text)
        if files1 > files0:
            raise Violation('%s: %d HDF5 files left open' % (where, files1 - files0))
        if files1 < files0:
            raise Violation('%s: HDF5 file of the caller was closed' % where)
        if fds1 != fds0:
            raise Violation('%s: open files changed: %s' % (where, {k: v for k, v in {**fds1, **fds0}.items() if fds1.get(k) != fds0.get(k)}))
        for k in st1:
            if st1[k] != st2[k]:
                raise Violation('%s: process state %r changed' % (where, k))
    finally:
        if err is not None:
            err.__traceback__ = None
            c = err
            seen = set()
            while c is not None and id(c) not in seen:
                seen.add(id(c))
                c.__traceback__ = None
                c = c.__cause__ or c.__context__
        err = c = None
        gc.enable()
    gc.collect()
    if faults.h5_objects() != objs0:
        raise Violation('%s: %d HDF5 objects still open' % (where, faults.h5_objects() - objs0))
    if tgt is not None:
        u = tgt.usable()
        if u:
            raise Violation('%s: %s' % (where, u))
        ctx.event('handle-usable')
    ctx.event('state-compared')
    return ok, (res if ok else name)


def retry(ctx, tgt, obj, path):
    """the target must be usable again for dump and load, at another path and, for file names, at the same"""
    p2 = 'retry/%d' % ctx.rng.randrange(10**9)
    ok, e = monitored(ctx, 'dump', lambda: hickle.dump(obj, tgt.arg(), mode=tgt.mode(), path=p2), tgt, 'retry')
    if not ok:
        raise Violation('dump after a failure raised %s' % e)
    ctx.event('retry-dump')
    ok, x = monitored(ctx, 'load', lambda: hickle.load(tgt.arg(), path=p2), tgt, 'retry')
    if not ok:
        raise Violation('load after a failure raised %s' % x)
    d = oracle.diff(obj, x)
    if d:
        raise Violation('dump/load after a failure: %s' % d)
    ctx.event('retry-load')
    tgt.keep_ok()


def redo_same(ctx, tgt, obj, path):
    if tgt.kind != 'name':
        return
    fn = tgt.fn
    ok, e = monitored(ctx, 'dump', lambda: hickle.dump(obj, fn, mode='w', path=path), tgt, 'same file again')
    if not ok:
        raise Violation('dumping to the same file after a failure raised %s' % e)
    d = oracle.diff(obj, hk.load(ctx, fn, obj, path=path))
    if d:
        raise Violation('dumping to the same file after a failure: %s' % d)
    hk.dump(ctx, tgt.keep, fn, mode='a', path='keep2')
    ctx.event('retry-same-path')


def retention(ctx, r):
    """what is dumped or loaded is not kept alive by the library"""
    arr = np.arange(5.)
    pl = T.Plain(x=1)
    cu = T.Custom([1])
    obj = {'a': arr, 'p': [pl, cu], 'l': [pl, arr]}
    fn = ctx.path()
    n0 = [sys.getrefcount(x) for x in (obj, arr, pl, cu)]
    monitored(ctx, 'dump', lambda: hickle.dump(obj, fn), None, 'retention')
    n1 = [sys.getrefcount(x) for x in (obj, arr, pl, cu)]
    if n0 != n1:
        raise Violation('reference counts after dump: %s -> %s' % (n0, n1))
    bad = [obj, T.FailDump()]
    T.FailDump.EXC = TypeError
    monitored(ctx, 'dump', lambda: hickle.dump(bad, fn), None, 'retention after failure')
    bad = None
    n1 = [sys.getrefcount(x) for x in (obj, arr, pl, cu)]
    if n0 != n1:
        raise Violation('reference counts after failed dump: %s -> %s' % (n0, n1))
    hk.dump(ctx, obj, fn)
    ok, x = monitored(ctx, 'load', lambda: hickle.load(fn), None, 'retention')
    if not ok:
        raise Violation('load raised %s' % x)
    refs = [weakref.ref(x['a']), weakref.ref(x['p'][0]), weakref.ref(x['p'][1])]
    del x
    gc.collect()
    if any(w() is not None for w in refs):
        raise Violation('loaded objects are kept alive after load')
    ctx.event('not-retained')


def enumerate_faults(ctx, r, tgt, obj, what):
    """every call made into h5py fails once"""
    if what == 'load':
        hk.dump(ctx, obj, tgt.arg(), mode=tgt.mode(), path='obj')
        call0 = lambda p: hickle.load(tgt.arg(), path='obj')
    else:
        call0 = lambda p: hickle.dump(obj, tgt.arg(), mode=tgt.mode(), path=p)
    names = []

    def counted():
        with faults.inject() as seen:
            res = call0('count')
        names.extend(seen)
        return res
    ok, res = monitored(ctx, what, counted, tgt, 'counting')
    if not ok:
        raise Violation('%s raised %s without any fault' % (what, res))
    n = len(names)
    ks = list(range(1, n + 1))
    if not ctx.thorough:
        # all distinct kinds of calls, then random ones
        first = {}
        for k in ks:
            first.setdefault(names[k - 1], k)
        extra = [k for k in ks if names[k - 1] == 'flush']
        ks = sorted(set(list(first.values()) + extra + r.sample(ks, min(6, n))))
    elif n > 60:
        ks = sorted(r.sample(ks, 60))
    for k in ks:
        exc = r.choice(faults.fault_exceptions())

        def faulty():
            with faults.inject(k, exc):
                return call0('f%d' % k)
        ok, res = monitored(ctx, what, faulty, tgt, 'fault in call %d of %d (%s: %s)' % (k, n, names[k - 1], type(exc).__name__))
        ctx.event('fault:' + names[k - 1])
        ctx.event('exc:' + type(exc).__name__)
        ctx.evaluated('%s %s fault %s %s %d' % (tgt.kind, what, names[k - 1], type(exc).__name__, k), True, '%s to %s: call %d of %d (%s) raises %s -> %s' % (what, tgt.kind, k, n, names[k - 1], type(exc).__name__, 'ok' if ok else res))
        tgt.keep_ok()
        if what == 'load':
            d = oracle.diff(obj, hk.load(ctx, tgt.arg(), obj, path='obj'))
            if d:
                raise Violation('load after failed load: %s' % d)
            ctx.event('retry-load')
    retry(ctx, tgt, obj, 'f')
    if what == 'dump':
        redo_same(ctx, tgt, obj, 'f%d' % ks[0])


def user_failures(ctx, r, tgt, obj):
    T.FailDump.EXC = r.choice(EXCS + (TypeError,))
    kinds = ['unpicklable', 'option', 'kwargs', 'cyclic', 'recursion', 'occupied', 'badmode', 'readonly', 'create', 'load', 'unpickle', 'nopath', 'nothickle', 'damaged']
    for kind in r.sample(kinds, 6 if not ctx.thorough else len(kinds)):
        ev = kind
        p = 'u%d' % r.randrange(10**9)
        expect = False
        if kind == 'unpicklable':
            inner = T.FailDump()
            bad = r.choice((inner, [1, obj, inner], {'a': obj, 'k': (1, {'z': inner})}, {(1, 'a'): obj, (2, T.TupleSub((1,))): [inner, 2]}, np.array([1, inner, 'x'], dtype=object)))
            ctx.event('exc:' + T.FailDump.EXC.__name__)
            ok, e = monitored(ctx, 'dump', lambda: hickle.dump(bad, tgt.arg(), mode=tgt.mode(), path=p), tgt, 'unpicklable')
        elif kind == 'option':
            ok, e = monitored(ctx, 'dump', lambda: hickle.dump(obj, tgt.arg(), mode=tgt.mode(), path=p, options={'no such option': True}), tgt, 'unknown option')
            # nothing but an empty group may be left: the very same path can be dumped to
            ok2, e2 = monitored(ctx, 'dump', lambda: hickle.dump(obj, tgt.arg(), mode=tgt.mode(), path=p), tgt, 'after unknown option')
            if not ok2:
                raise Violation('dump after refused option raised %s' % e2)
            d = oracle.diff(obj, hk.load(ctx, tgt.arg(), obj, path=p))
            if d:
                raise Violation('after refused option: %s' % d)
        elif kind == 'kwargs':
            ok, e = monitored(ctx, 'dump', lambda: hickle.dump(obj, tgt.arg(), mode=tgt.mode(), path=p, **r.choice((dict(compression='no such filter'), dict(compression_opts=77, compression='gzip'), dict(no_such_keyword=1)))), tgt, 'rejected kwargs')
        elif kind == 'cyclic':
            c = [1, obj]
            c.append({'self': c})
            ok, e = monitored(ctx, 'dump', lambda: hickle.dump(c, tgt.arg(), mode=tgt.mode(), path=p), tgt, 'cyclic')
            c.clear()
        elif kind == 'recursion':
            deep = [1, 'x']
            for _ in range(1500):
                deep = [deep, 'x']
            ok, e = monitored(ctx, 'dump', lambda: hickle.dump(deep, tgt.arg(), mode=tgt.mode(), path=p), tgt, 'nested too deep')
        elif kind == 'badmode':
            fn = ctx.path()
            hk.dump(ctx, [1, 2], fn)
            f = None
            m = r.choice(('x', 'nonsense', 'missing', 'append'))
            if m == 'append':
                f = arg = open(fn, 'a+b')
                call = lambda: hickle.dump(obj, f, mode='a', path=p)
            else:
                call = {'x': lambda: hickle.dump(obj, fn, mode='x', path=p), 'nonsense': lambda: hickle.dump(obj, fn, mode='q', path=p), 'missing': lambda: hickle.load(fn + 'missing')}[m]
            try:
                ok, e = monitored(ctx, 'load' if m == 'missing' else 'dump', call, tgt, 'mode ' + m)
                if f is not None and f.closed:
                    raise Violation('file object was closed')
            finally:
                if f is not None:
                    f.close()
            if oracle.diff([1, 2], hk.load(ctx, fn, [1, 2])):
                raise Violation('file changed by a refused call')
        elif kind == 'readonly':
            fn = ctx.path()
            hk.dump(ctx, [1, 2], fn)
            with h5py.File(fn, 'r') as f:
                ok, e = monitored(ctx, 'dump', lambda: hickle.dump(obj, f, mode=r.choice('wa'), path=p), tgt, 'read-only file')
                if not f or oracle.diff([1, 2], hk.load(ctx, f, [1, 2])):
                    raise Violation('handle unusable after a refused call')
        elif kind == 'occupied':
            hk.dump(ctx, [1, 2], tgt.arg(), mode=tgt.mode(), path=p)
            ok, e = monitored(ctx, 'dump', lambda: hickle.dump(obj, tgt.arg(), mode=tgt.mode(), path=p), tgt, 'occupied path')
            if oracle.diff([1, 2], hk.load(ctx, tgt.arg(), [1, 2], path=p)):
                raise Violation('occupied path changed')
        elif kind in ('create', 'load'):
            where = r.choice(CREATE_FAILS if kind == 'create' else LOAD_FAILS)
            ev = where
            if kind == 'load':
                hk.dump(ctx, obj, tgt.arg(), mode=tgt.mode(), path=p)
            customs.FAIL.update(where=where, exc=r.choice(EXCS))
            ctx.event('exc:' + customs.FAIL['exc'].__name__)
            try:
                if kind == 'create':
                    ok, e = monitored(ctx, 'dump', lambda: hickle.dump(obj, tgt.arg(), mode=tgt.mode(), path=p), tgt, where)
                else:
                    ok, e = monitored(ctx, 'load', lambda: hickle.load(tgt.arg(), path=p), tgt, where)
            finally:
                customs.FAIL['where'] = None
            if kind == 'load':
                d = oracle.diff(obj, hk.load(ctx, tgt.arg(), obj, path=p))
                if d:
                    raise Violation('load after failing loader: %s' % d)
        elif kind == 'unpickle':
            o2 = [obj, T.FailLoad(3), {'x': T.FailLoad(4)}]
            hk.dump(ctx, o2, tgt.arg(), mode=tgt.mode(), path=p)
            T.FailLoad.ARMED, T.FailLoad.EXC = True, r.choice([e for e in EXCS])
            try:
                ok, e = monitored(ctx, 'load', lambda: hickle.load(tgt.arg(), path=p), tgt, 'failing __setstate__')
            finally:
                T.FailLoad.ARMED = False
            d = oracle.diff(o2, hk.load(ctx, tgt.arg(), o2, path=p))
            if d:
                raise Violation('load after failing __setstate__: %s' % d)
        elif kind == 'nopath':
            # no node, a dataset, an inner group, a group that holds no object
            hk.dump(ctx, {'a': [1, 'x'], 'n': 5}, tgt.arg(), mode=tgt.mode(), path=p)
            q = r.choice(('no/such/path', p + '/data/"n"', p + '/data/"a"', p + '/data', p + '/hickle_types_table', p + '/data/"n"/x'))
            ok, e = monitored(ctx, 'load', lambda: hickle.load(tgt.arg(), path=q), tgt, 'no object at ' + q)
        elif kind == 'nothickle':
            fn = ctx.path()
            k = r.randrange(4)
            if k == 0:
                open(fn, 'wb').write(b'no HDF5 file' * 50)
            elif k == 1:
                with h5py.File(fn, 'w') as f:
                    f['data'] = [1, 2]
            elif k == 2:
                with h5py.File(fn, 'w') as f:
                    f.attrs['HICKLE_VERSION'] = '5.0.3'
                    f.attrs['HICKLE_PYTHON_VERSION'] = '3.12.3'
            arg = fn
            if k in (0, 1) and r.random() < .5:
                arg = io.BytesIO(open(fn, 'rb').read())
            ok, e = monitored(ctx, 'load', lambda: hickle.load(arg), tgt, 'not a hickle file')
        else:
            fn = ctx.path()
            hk.dump(ctx, obj, fn)
            with h5py.File(fn, 'r+') as f:
                k = r.randrange(4)
                if k == 0:
                    del f['data'].attrs['type']
                elif k == 1:
                    del f['hickle_types_table']
                elif k == 2:
                    del f['data/"list"/data1']
                else:
                    f['data/"p"'][...] = 0
            ok, e = monitored(ctx, 'load', lambda: hickle.load(fn), tgt, 'damaged file %d' % k)
            # repaired by dumping again
            o2, e2 = monitored(ctx, 'dump', lambda: hickle.dump(obj, fn), tgt, 'over damaged file')
            if not o2:
                raise Violation('dump over damaged file raised %s' % e2)
            d = oracle.diff(obj, hk.load(ctx, fn, obj))
            if d:
                raise Violation('dump over damaged file: %s' % d)
            ok = False
        ctx.event('fail:' + ev)
        if ok:
            raise Violation('%s: call succeeded (%s)' % (kind, oracle.short(e)))
        ctx.evaluated('%s %s %s %s' % (tgt.kind, ev, e, oracle.signature(obj, 2)), True, '%s via %s -> %s' % (ev, tgt.kind, e))
        tgt.keep_ok()
    retry(ctx, tgt, obj, 'u')
    redo_same(ctx, tgt, obj, '/')


def case(ctx):
    r = ctx.rng
    obj = obj_for(r)
    # everything is imported before the first snapshot
    w = ctx.path()
    hk.dump(ctx, obj, w)
    hk.load(ctx, w, obj)
    if ctx.index % 10 == 9:
        return retention(ctx, r)
    kind = TARGETS[ctx.index % len(TARGETS)]
    tgt = Target(ctx, kind, [1, 'keep', {'k': gen.rvalue(r, 1)}])
    try:
        k = (ctx.index // len(TARGETS)) % 4
        if k == 0:
            enumerate_faults(ctx, r, tgt, obj if ctx.thorough else {k: obj[k] for k in r.sample(sorted(obj), 5)}, 'dump')
        elif k == 1:
            enumerate_faults(ctx, r, tgt, obj if ctx.thorough else {k: obj[k] for k in r.sample(sorted(obj), 5)}, 'load')
        else:
            user_failures(ctx, r, tgt, obj)
    finally:
        tgt.close()
