"""C11: dump returns only when the data is safely stored; faults never pass silently."""
import errno, io, json, os, pathlib, resource, select, signal, subprocess, sys, time, warnings
import h5py, numpy as np
import hickle
from vmon import core, customs, faults, gen, hk, oracle, types_for_tests as T
from vmon.core import Violation, HarnessError

ID = 'C11'
LEVEL = 'fault_enumeration'
NCASES = {'quick': 200, 'thorough': 3000}
MIN_DISTINCT = {'quick': 900, 'thorough': 15000}
CASE_TIMEOUT = 240
REQUIRED = ['died:_exit', 'died:SIGKILL', 'survived:name', 'survived:Path', 'survived:handle', 'survived:fileobj', 'survived:rawfile', 'survived:group', 'fresh-interpreter', 'fault:write', 'fault:read', 'fault:seek', 'fault:truncate', 'fault:flush',
            'faulty-dump', 'faulty-load', 'fault-raised', 'fault-once', 'fault-persistent', 'fsize-limit', 'fsize-raised', 'fsize-completed', 'cut', 'cut-raised', 'cut-equal', 'h5fault-dump-raised', 'h5fault-load-raised', 'h5fault-points', 'damaged-raised', 'cyclic-refused', 'acyclic-accepted']
RULE = ('(a) a child process dumps and dies (os._exit or SIGKILL) the moment dump returned, the file is loaded by this or a fresh process; (b) a file object whose k-th read, write, seek, truncate or flush fails (once or from then on), k '
        'enumerated (thorough) or sampled, in a child process each; (c) file size limits (EFBIG) on real files; (d) the k-th call into h5py fails; (e) files cut at sampled (quick) or all (thorough, small files) lengths; (f) objects '
        'containing themselves; (g) single bits of stored chunks flipped so that their checksum fails.  Oracle: raises, or the value is completely there and equal. Distinct by structure, fault kind and position')
ASSUMPTIONS = ['after a failed write the HDF5 library may crash when the process ends; the outcome of dump/load itself is reported by the child beforehand', 'death of the process is observed, death of the machine (power loss) is not',
               'file objects honour the io protocol: a write that stores fewer bytes than given raises']
customs.register()


def child(fn, timeout=60, want_result=True):
    """runs fn() in a forked process; returns (dict reported | None, how it ended)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.close(rd)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            os.dup2(devnull, 1)

            def report(d):
                os.write(wr, json.dumps(d).encode() + b'\n')
            fn(report)
        except BaseException as e:
            import traceback
            try:
                os.write(wr, json.dumps(dict(harness=repr(e) + traceback.format_exc()[-1500:])).encode() + b'\n')
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(wr)
    data = b''
    end = time.time() + timeout
    killed = False
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        if select.select([rd], [], [], min(left, 1))[0]:
            b = os.read(rd, 65536)
            if not b:
                break
            data += b
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    how = 'hung' if killed else ('signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit')
    lines = [l for l in data.split(b'\n') if l]
    res = json.loads(lines[-1]) if lines else None
    if res and 'harness' in res:
        raise HarnessError(res['harness'])
    return res, how, [json.loads(l) for l in lines]


def robj(r, small=False):
    k = r.randrange(5)
    if k == 0:
        return {'a': gen.fill_numeric(r, r.choice(('f8', 'i4', 'c16')), (r.choice((3, 40, 3000 if not small else 10)),)), 'b': ['x', None, {'k': (1, 'y')}]}
    if k == 1:
        return [gen.rstr(r, 2000) + 'x', gen.rbytes(r, 2000), list(range(r.choice((5, 500)))), {1: 'a', 'b': [1.5, 'c']}]
    if k == 2:
        sh = [1, 'shared']
        return {'x': sh, 'y': [sh, {'z': sh}], 'p': T.Data(1, 'q'), 'c': T.Custom([1, 'w'])}
    if k == 3:
        return gen.rvalue(r, 3)
    return {'big': gen.fill_numeric(r, 'u1', (r.choice((100, 200000 if not small else 100)),)), 'obj': np.array([1, 'x', None], dtype=object), 'sub': T.ListSub([1, 'y'])}


def same(ctx, obj, target, what, **kw):
    d = oracle.diff(obj, hk.load(ctx, target, obj, **kw))
    if d:
        raise Violation('%s: %s' % (what, d))


# (a) -------------------------------------------------------------------------------------------
def case_death(ctx, r):
    for kind in ('name', 'Path', 'handle', 'group', 'fileobj', 'rawfile'):
        obj = robj(r)
        fn = ctx.path()
        how = r.choice(('_exit', 'SIGKILL'))
        kw = r.choice(({}, dict(compression='gzip')))
        path = r.choice(('/', 'p/q'))
        keep = None
        if r.random() < .4 and kind != 'handle':
            keep = [1, 'kept']
            hk.dump(ctx, keep, fn, path='keep')
            path = 'p/q'

        def run(report):
            warnings.simplefilter('ignore')
            if kind == 'name':
                hickle.dump(obj, fn, mode='a' if keep else 'w', path=path, **kw)
            elif kind == 'Path':
                hickle.dump(obj, pathlib.Path(fn), mode='a' if keep else 'w', path=path, **kw)
            elif kind == 'handle':
                f = h5py.File(fn, 'w')
                hickle.dump(obj, f, path=path, **kw)
            elif kind == 'group':
                f = h5py.File(fn, 'a')
                g = f.require_group('p')
                hickle.dump(obj, g, path='q', **kw)
            else:
                f = open(fn, 'r+b' if keep else 'w+b', buffering=0 if kind == 'rawfile' else r.choice((-1, 10**7)))
                hickle.dump(obj, f, mode='a' if keep else 'w', path=path, **kw)
            report(dict(returned=True))
            if how == 'SIGKILL':
                os.kill(os.getpid(), signal.SIGKILL)
            os._exit(0)
        if kind == 'group':
            path = 'p/q'
        res, end, _ = child(run)
        if not res:
            raise Violation('dump (%s) did not return in the dumping process (%s)' % (kind, end))
        ctx.event('died:' + how)
        same(ctx, obj, fn, 'dumped via %s by a process which died right after dump' % kind, path=path)
        if keep:
            same(ctx, keep, fn, 'other content', path='keep')
        ctx.event('survived:' + kind)
        ctx.evaluated('death %s %s %s' % (kind, how, oracle.signature(obj, 2)), True, 'process dumps via %s, dies by %s, loaded elsewhere' % (kind, how))
        if ctx.index % 40 == 0 and kind in ('name', 'handle'):
            code = ('import sys; sys.path[:0]=[%r,%r]; sys.dont_write_bytecode=True\nimport warnings; warnings.simplefilter("ignore")\n'
                    'from vmon import customs, oracle; customs.register()\nimport pickle, hickle\nd = oracle.diff(pickle.load(open(%r,"rb")), hickle.load(%r, path=%r))\nprint("RESULT", d)'
                    % (core.VERIF, core.REPO, fn + '.pkl', fn, path))
            import pickle
            pickle.dump(obj, open(fn + '.pkl', 'wb'))
            p = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=100)
            if 'RESULT' not in p.stdout:
                if core.REPO + '/hickle' in p.stderr:
                    raise Violation('fresh interpreter cannot load: %s' % p.stderr[-600:])
                raise HarnessError(p.stderr[-600:])
            if 'RESULT None' not in p.stdout:
                raise Violation('fresh interpreter loads: %s' % p.stdout[-600:])
            ctx.event('fresh-interpreter')


# (b) -------------------------------------------------------------------------------------------
class FaultyFile(io.BytesIO):
    def __init__(self, data=b''):
        super().__init__(data)
        self.log, self.op, self.k, self.n, self.persistent, self.fired = [], None, 0, 0, False, False

    def _t(self, op):
        self.log.append(op)
        if self.op == op:
            self.n += 1
            if self.n == self.k or (self.persistent and self.n > self.k):
                self.fired = True
                raise OSError(errno.ENOSPC if op in ('write', 'truncate') else errno.EIO, 'injected %s failure' % op)

    def write(self, b):
        self._t('write')
        return super().write(b)

    def read(self, *a):
        self._t('read')
        return super().read(*a)

    def readinto(self, b):
        self._t('read')
        return super().readinto(b)

    def flush(self):
        self._t('flush')
        return super().flush()

    def truncate(self, *a):
        self._t('truncate')
        return super().truncate(*a)

    def seek(self, *a):
        self._t('seek')
        return super().seek(*a)


def case_faulty_file(ctx, r):
    obj = robj(r, not ctx.thorough)
    what = r.choice(('dump', 'load'))
    ctx.event('faulty-' + what)
    ref = io.BytesIO()
    hk.dump(ctx, obj, ref)
    data = ref.getvalue()
    keepdata = b''
    mode = 'w'
    if what == 'dump' and r.random() < .4:
        b = io.BytesIO()
        hk.dump(ctx, ['keep', 1], b, path='keep')
        keepdata, mode = b.getvalue(), 'a'
    path = 'p' if keepdata else '/'

    def run(f):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if what == 'dump':
                hickle.dump(obj, f, mode=mode, path=path)
            else:
                return hickle.load(f)

    f = FaultyFile(keepdata if what == 'dump' else data)
    run(f)
    import collections
    cnt = collections.Counter(f.log)
    cands = [(op, k) for op in sorted(cnt) for k in range(1, cnt[op] + 1)]
    if ctx.thorough:
        cands = r.sample(cands, min(len(cands), 120))
    else:
        pick = [(op, r.randint(1, cnt[op])) for op in sorted(cnt)] + [(op, cnt[op]) for op in sorted(cnt)]
        cands = sorted(set(pick + r.sample(cands, min(4, len(cands)))))
    for op, k in cands:
        persistent = r.random() < .4

        def go(report):
            f = FaultyFile(keepdata if what == 'dump' else data)
            f.op, f.k, f.persistent = op, k, persistent
            try:
                res = run(f)
            except BaseException as e:
                return report(dict(raised=type(e).__name__, fired=f.fired))
            f.op = None
            if what == 'dump':
                ok, res = hk.try_load(io.BytesIO(f.getvalue()), path=path)
                d = oracle.diff(obj, res) if ok else 'cannot be loaded: %r' % res
            else:
                d = oracle.diff(obj, res)
            report(dict(raised=None, fired=f.fired, diff=str(d) if d else None))
        res, end, _ = child(go)
        if res is None:
            raise Violation('%s with failing %s (call %d of %d): process ended by %s' % (what, op, k, cnt[op], end))
        ctx.event('fault:' + op)
        ctx.event('fault-persistent' if persistent else 'fault-once')
        if res['raised']:
            ctx.event('fault-raised')
        elif res['diff']:
            raise Violation('%s succeeded although %s %d of %d failed: %s' % (what, op, k, cnt[op], res['diff']))
        elif res['fired'] and op in ('write', 'truncate') and what == 'dump':
            raise Violation('dump succeeded silently although %s %d of %d failed' % (op, k, cnt[op]))
        ctx.evaluated('%s %s %d/%d %s %s' % (what, op, k, cnt[op], persistent, oracle.signature(obj, 2)), res['fired'], '%s: %s call %d of %d fails -> %s' % (what, op, k, cnt[op], res['raised'] or 'value complete'))


# (c) -------------------------------------------------------------------------------------------
def case_fsize(ctx, r):
    obj = robj(r)
    probe = ctx.path()
    kw = r.choice(({}, dict(compression='gzip')))
    hk.dump(ctx, obj, probe, **kw)
    size = os.path.getsize(probe)
    lims = sorted({r.randint(1, size) for _ in range(4 if not ctx.thorough else 12)} | {size - 1, size - 8, size // 2, size + 100000})
    for lim in lims:
        fn = ctx.path()
        kind = r.choice(('name', 'handle', 'fileobj'))

        def go(report):
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            warnings.simplefilter('ignore')
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
            try:
                if kind == 'name':
                    hickle.dump(obj, fn, **kw)
                elif kind == 'handle':
                    f = h5py.File(fn, 'w')
                    hickle.dump(obj, f, **kw)
                else:
                    f = open(fn, 'w+b')
                    hickle.dump(obj, f, **kw)
            except BaseException as e:
                return report(dict(raised=type(e).__name__))
            report(dict(raised=None))
        res, end, _ = child(go)
        if res is None:
            # the HDF5 library crashed before dump could end: loud, and no data is claimed to be stored
            ctx.event('fsize-crashed')
            continue
        ctx.event('fsize-limit')
        if res['raised']:
            ctx.event('fsize-raised')
        else:
            ctx.event('fsize-completed')
            ok, x = hk.try_load(fn)
            d = oracle.diff(obj, x) if ok else repr(x)[:300]
            if d:
                raise Violation('dump (%s) returned normally with the file size limited to %d of %d bytes but: %s' % (kind, lim, size, d))
        ctx.evaluated('fsize %s %d %d %s' % (kind, lim, size, oracle.signature(obj, 1)), True, 'file size limit %d of %d via %s -> %s' % (lim, size, kind, res['raised'] or 'complete'))


# (d) -------------------------------------------------------------------------------------------
def case_h5fault(ctx, r):
    obj = robj(r, True)
    for what in ('dump', 'load'):
        fn = ctx.path()
        hk.dump(ctx, obj, fn)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with faults.inject() as seen:
                (hickle.dump(obj, fn) if what == 'dump' else hickle.load(fn))
        names = list(seen)
        ks = list(range(1, len(names) + 1))
        if not ctx.thorough:
            ks = r.sample(ks, min(12, len(ks)))
        elif len(ks) > 100:
            ks = r.sample(ks, 100)
        for k in ks:
            exc = r.choice((OSError(errno.EIO, 'injected'), RuntimeError('injected'), OSError(errno.ENOSPC, 'injected'), MemoryError('injected')))
            ctx.event('h5fault-points')
            err = res = None
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with faults.inject(k, exc):
                    try:
                        res = hickle.dump(obj, fn) if what == 'dump' else hickle.load(fn)
                    except (OSError, RuntimeError, MemoryError, ValueError) as e:
                        err = type(e).__name__
            exc.__traceback__ = None
            if err:
                ctx.event('h5fault-%s-raised' % what)
            else:
                if what == 'dump':
                    ok, res = hk.try_load(fn)
                    if not ok:
                        raise Violation('dump returned normally although call %d (%s) failed with %r, load raises %r' % (k, names[k - 1], exc, res))
                d = oracle.diff(obj, res)
                if d:
                    raise Violation('%s returned normally although call %d (%s) failed with %r: %s' % (what, k, names[k - 1], exc, d))
                ctx.event('h5fault-harmless')
            ctx.evaluated('h5 %s %s %d %s %s' % (what, names[k - 1], k, type(exc).__name__, oracle.signature(obj, 2)), True)


# (e) -------------------------------------------------------------------------------------------
def case_cut(ctx, r):
    obj = robj(r, not ctx.thorough)
    fn = ctx.path()
    hk.dump(ctx, obj, fn, **r.choice(({}, {}, dict(compression='gzip'), dict(fletcher32=True))))
    data = open(fn, 'rb').read()
    n = len(data)
    if ctx.thorough:
        cuts = sorted({r.randrange(n) for _ in range(400)} | {0, 1, 8, 48, 96, n - 1, n - 2, n - 8})
    else:
        cuts = sorted({r.randrange(n) for _ in range(25)} | {n - r.randint(1, 200) for _ in range(8)} | {0, 8, 96, n - 1, n - 8})
    cuts = [c for c in cuts if 0 <= c < n]

    def go(report):
        import tempfile
        for c in cuts:
            report(dict(cut=c))
            t = fn + '.cut'
            with open(t, 'wb') as f:
                f.write(data[:c])
            ok, x = hk.try_load(t if c % 3 else io.BytesIO(data[:c]))
            d = oracle.diff(obj, x) if ok else None
            report(dict(cut=c, ok=ok, diff=str(d)[:500] if d else None, err=None if ok else type(x).__name__))
            x = None
    res, end, lines = child(go, timeout=100 + len(cuts))
    done = {l['cut']: l for l in lines if 'ok' in l}
    if len(done) < len(cuts):
        last = max(lines, key=lambda l: l['cut'])['cut'] if lines else None
        raise Violation('load of a file of %d bytes cut at %s: %s' % (n, last, 'did not return' if end == 'hung' else 'process ended (%s)' % end))
    for c, l in done.items():
        ctx.event('cut')
        if l['ok']:
            if l['diff']:
                raise Violation('file of %d bytes cut at %d loads silently as something else: %s' % (n, c, l['diff']))
            ctx.event('cut-equal')
        else:
            ctx.event('cut-raised')
        ctx.evaluated('cut %d/%d %s' % (c, n, oracle.signature(obj, 2)), True, 'file cut at %d of %d -> %s' % (c, n, 'equal' if l['ok'] else l['err']))
    # at full length the value is there
    same(ctx, obj, fn, 'uncut')
    ctx.event('cut-equal')


# (f) -------------------------------------------------------------------------------------------
def case_cyclic(ctx, r):
    for _ in range(6):
        kinds = r.sample(('list', 'dict', 'listsub', 'dictsub', 'objarr', 'custom', 'ordered'), r.randint(1, 3))

        def cont(k):
            if k == 'list':
                c = [1, 'x']
                return c, c.append
            if k == 'listsub':
                c = T.ListSub([1, 'x'])
                return c, c.append
            if k in ('dict', 'dictsub', 'ordered'):
                import collections
                c = {'dict': dict, 'dictsub': T.DictSub, 'ordered': collections.OrderedDict}[k]()
                key = r.choice(('k', b'k', 5, (1, 'a')))
                return c, lambda v: c.__setitem__(key, v)
            if k == 'custom':
                c = T.Custom(None)
                return c, lambda v: setattr(c, 'v', v)
            c = np.empty(3, dtype=object)
            c[0] = 'x'
            return c, lambda v: c.__setitem__(1, v)
        nodes = [cont(k) for k in kinds]
        link = r.choice((lambda v: v, lambda v: (1, v), lambda v: [v, 2], lambda v: {'in': v}))
        for (c, put), (d, _) in zip(nodes, nodes[1:]):
            put(link(d))
        fn = ctx.path()
        # the chain itself is fine
        hk.dump(ctx, nodes[0][0], fn)
        ctx.event('acyclic-accepted')
        nodes[-1][1](link(nodes[r.randrange(len(nodes))][0]))
        top = r.choice((lambda v: v, lambda v: [0, v], lambda v: {'t': (v, v)}))(nodes[0][0])
        hk.dump(ctx, [1, 'keep'], fn)

        def go(report):
            ok, e = hk.try_dump(top, fn + '.c')
            if not ok:
                return report(dict(raised=type(e).__name__))
            ok, e = hk.try_load(fn + '.c')
            report(dict(raised=None, loads=ok))
        res, end, _ = child(go, 60)
        if res is None:
            raise Violation('dump of an object containing itself (%s): %s' % (kinds, end))
        if not res['raised'] and not res['loads']:
            raise Violation('object containing itself (%s) was dumped without error but cannot be loaded' % kinds)
        ctx.event('cyclic-refused')
        ctx.evaluated('cyclic %s' % kinds, True, 'cycle through %s refused: %s' % (kinds, res['raised']))


# (g) -------------------------------------------------------------------------------------------
def case_checksum(ctx, r):
    """stored data damaged on disk: reading it fails for its checksum"""
    obj = [robj(r, True), gen.fill_numeric(r, r.choice(('f8', '>i2', 'c8', 'u1')), r.choice(((50,), (3, 7)))), gen.rsparse(r), np.ma.array(np.arange(9.), mask=[1, 0, 0] * 3), 'text' * 9, T.Data(2, 'pickled'), [1.5] * 40, 2 ** 90, np.array(['ab', 'c'])]
    fn = ctx.path()
    hk.dump(ctx, obj, fn, fletcher32=True, **r.choice(({}, dict(compression='gzip'), dict(shuffle=True))))
    spots = []
    with h5py.File(fn, 'r') as f:
        def look(name, n):
            if isinstance(n, h5py.Dataset) and n.chunks and n.fletcher32:
                for i in range(n.id.get_num_chunks()):
                    c = n.id.get_chunk_info(i)
                    spots.append((n.name, c.byte_offset, c.size))
        f.visititems(look)
    if not ctx.thorough:
        spots = r.sample(spots, min(len(spots), 14))
    with open(fn, 'rb') as f:
        data = f.read()
    for name, at, size in spots:
        k = at + r.randrange(size - 4)
        bad = data[:k] + bytes([data[k] ^ (1 << r.randrange(8))]) + data[k + 1:]
        with open(fn, 'wb') as f:
            f.write(bad)
        ok, res = hk.try_load(fn if k % 2 else io.BytesIO(bad))
        if ok:
            d = oracle.diff(obj, res)
            if d:
                raise Violation('load succeeded although data of %s is damaged: %s' % (name, d))
        ctx.event('damaged-raised' if not ok else 'damaged-equal')
        ctx.evaluated('damage %s %s' % (name, oracle.signature(obj, 2)), True, 'chunk of %s damaged -> %s' % (name, 'equal' if ok else type(res).__name__))


CASES = (case_death, case_faulty_file, case_cut, case_faulty_file, case_h5fault, case_fsize, case_cut, case_faulty_file)


def case(ctx):
    # everything is imported before faults, limits and forks
    w = ctx.path()
    hk.dump(ctx, [T.Custom([1]), T.Data(), np.array([1, 'x'], dtype=object), {1: 'a'}, {1, 2}, 'x', b'y', 1j], w)
    hk.load(ctx, w)
    if ctx.index % 17 == 16:
        return case_checksum(ctx, ctx.rng)
    if ctx.index % 25 == 24:
        return case_cyclic(ctx, ctx.rng)
    CASES[ctx.index % len(CASES)](ctx, ctx.rng)
