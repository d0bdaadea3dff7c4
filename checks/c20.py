"""C20: results depend on the arguments and the file only, not on history or other threads."""
import collections, gc, io, os, pickle, random, subprocess, sys, threading, time, warnings
import h5py, numpy as np
import hickle
from hickle import lookup
from hickle.lookup import LoaderManager
from checks import c05, c17
from vmon import core, customs, dyn, gen, hk, old_writers as W, oracle, sched, types_for_tests as T, work20
from vmon.core import Violation

ID = 'C20'
LEVEL = 'exploration'
NCASES = {'quick': 200, 'thorough': 2400}
MIN_DISTINCT = {'quick': 150, 'thorough': 1800}
CASE_TIMEOUT = 240
HISTORY = ('dump', 'load', 'failed-dump', 'failed-load', 'options', 'unknown-option', 'register', 'legacy3', 'legacy4', 'open-handle', 'closed-handle', 'junk', 'recursion-error', 'gc', 'failed-loader')
REQUIRED = (['history:' + h for h in HISTORY] + ['mode:threads', 'mode:first-threads', 'mode:history', 'mode:first-load', 'mode:first-dump', 'thread-op:name', 'thread-op:bytesio', 'thread-op:handle', 'thread-op:legacy', 'thread-op:failing', 'thread-op:options', 'thread-op:two-paths', 'thread-op:tiny', 'thread-op:themed',
             'switches', 'compared', 'files-compared', 'gc-on', 'managers-empty', 'gc-off-kept'] + ['first:' + k for k in work20.FIRST])
RULE = ('(a) up to 6 threads of a new process make their first use of hickle at once, for classes whose loaders are searched along their bases or loaded on demand; (b) threads of a warm process dump and load their own files, '
        'streams and handles, current and old formats, with failing calls in between, under random pauses at lines of hickle; (c) random histories of successful and failing calls, registrations and options around probes that '
        'are dumped before and after; (d) first dump or load of a new process in random order; results, errors, written content and collector state are compared with sequential runs; distinct by interleaving, structure or order')
ASSUMPTIONS = ['threads work on different files; the same file from several threads is outside', 'interleavings are sampled by random pauses, not enumerated', 'packages whose objects several threads load for the first time are imported already: concurrent imports are subject to deadlocks of the import system itself']
TECHNIQUE = 'runtime monitoring: schedule fuzzing with recorded interleavings, results compared with sequential reference runs by the round-trip oracle and a comparison of written files'
TREE = os.path.join(core.REPO, 'hickle')


def same(a, b):
    if type(a).__module__.startswith('astropy'):
        return c05.compare(a, b)
    if type(a).__module__.startswith('pandas'):
        return None if type(a) is type(b) and a.equals(b) else 'frame differs'
    return oracle.diff(a, b)


# ------------------------------------------------------------------ first use in a new process

def run_child(ctx, *args):
    env = dict(os.environ, PYTHONPATH=os.pathsep.join((core.REPO, core.VERIF, os.path.join(ctx.scratch, 'pkg'))))
    code = 'import sys; from vmon import work20; work20.child(sys.argv[1:])'
    p = subprocess.run([sys.executable, '-c', code] + [str(a) for a in args], env=env, cwd=ctx.scratch, capture_output=True, text=True, timeout=200)
    if p.returncode:
        raise Violation('process using hickle for the first time died (rc %d): %s' % (p.returncode, p.stderr[-1500:]))


def first_use(ctx, r, mode):
    pkg = os.path.join(ctx.scratch, 'pkg')
    work20.make_package(pkg)
    n = r.randint(3, 6) if mode == 'first-threads' else r.randint(2, 5)
    if mode == 'first-threads':
        # mostly the same kind or kinds of the same package: that is where they meet
        groups = (('masked', 'matrix', 'array', 'masked', 'objarray'), ('csr', 'csc', 'bsr', 'masked'), ('quantity', 'angle', 'constant', 'table', 'skycoord', 'time'), ('custom-package',), work20.FIRST)
        pool = groups[(ctx.index // 5) % len(groups)]
    else:
        pool = work20.FIRST
    kinds = [r.choice(pool) for _ in range(n)]
    if mode != 'first-threads':
        kinds[0] = work20.FIRST[(ctx.index // 5) % len(work20.FIRST)]
    seed = r.randrange(10 ** 9)
    what = 'load' if mode == 'first-load' else 'dump' if mode == 'first-dump' and r.random() < .5 else 'both'
    sys.path.insert(0, pkg)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            objs = [work20.first_value(random.Random('%d/%d' % (seed, i)), k) for i, k in enumerate(kinds)]
            if mode == 'first-threads' and r.random() < .3:
                what = 'load'
            # this process has a history: it writes the reference
            for i, o in enumerate(objs):
                hk.dump(ctx, o, os.path.join(ctx.scratch, 'ref%d.hkl' % i), mode='w')
            out = os.path.join(ctx.scratch, 'out.pickle')
            run_child(ctx, seed, ','.join(kinds), ctx.scratch, what, out, core.REPO, 'fuzz' if mode == 'first-threads' else 'plain')
            with open(out, 'rb') as f:
                res, info = pickle.load(f)
            expected = pickle.loads(pickle.dumps(objs))
            for i, k in enumerate(kinds):
                ok, got = res[i]
                if not ok:
                    raise Violation('%s: first use of %s failed: %s' % (mode, k, got))
                if what != 'dump':
                    d = same(expected[i], got)
                    if d:
                        raise Violation('%s of %s with %s: %s' % (mode, k, kinds, d))
                    ctx.event('compared')
                if what != 'load':
                    a, b = (work20.logical(os.path.join(ctx.scratch, '%s%d.hkl' % (w, i))) for w in ('ref', 'new'))
                    if a != b:
                        raise Violation('%s of %s with %s wrote different content: %s' % (mode, k, kinds, first_diff(a, b)))
                    d = same(objs[i], hk.load(ctx, os.path.join(ctx.scratch, 'new%d.hkl' % i), k))
                    if d:
                        raise Violation('%s of %s with %s wrote: %s' % (mode, k, kinds, d))
                    ctx.event('files-compared')
                ctx.event('first:' + k)
            if not info['gc']:
                raise Violation('%s: garbage collector left disabled' % mode)
            ctx.event('gc-on')
            ctx.event('switches', info.get('switches', 0))
    finally:
        sys.path.remove(pkg)
    ctx.evaluated('%s %s %s %s' % (mode, what, kinds, info.get('signature')), True, '%s %s %s switches=%s' % (mode, what, kinds, info.get('switches')))


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return '%.300s / %.300s' % (x, y)
    return '%d / %d nodes' % (len(a), len(b))


# ------------------------------------------------------------------ threads of a warm process

def thread_value(r):
    k = r.random()
    if k < .35:
        return gen.rvalue(r, 3)
    if k < .6:
        return gen.rnumpy(r)
    if k < .7:
        return [gen.rsparse(r), 'x', gen.rmasked(r)]
    if k < .8:
        s = ['shared', 1]
        return [s, {'s': s, 't': (s, 'y')}, T.Plain(x=s)]
    if k < .9:
        return [T.ListSub([1, 'a']), T.Point(1, [2]), T.StrSub('q'), frozenset({1, 'x'}), T.Custom([1])]
    return {('k', i): np.arange(i) for i in range(r.randint(1, 6))}


THEMES = ('sparse', 'masked', 'objarray', 'keys', 'subclass', 'text', 'shared', 'astropy', 'pickled', 'custom')


def themed(r, theme):
    """many objects of one kind: threads meet inside the same loader"""
    n = r.randint(4, 8)
    if theme == 'sparse':
        return [gen.rsparse(r) for _ in range(n)] + ['x']
    if theme == 'masked':
        return [gen.rmasked(r) for _ in range(n)] + ['x']
    if theme == 'objarray':
        return [np.array([r.randint(0, 99), 'x%d' % i, None, 1.5], dtype=object).reshape(2, 2) for i in range(n)] + [{'a': np.array([None, [r.randint(0, 9)]], dtype=object)}]
    if theme == 'keys':
        return {k: [r.randint(0, 99), 'v'] for k in [(i, 'k') for i in range(n)] + ['s%d' % r.randint(0, 9), b'b', r.random(), None, 'sl/ash']}
    if theme == 'subclass':
        return [f() for _ in range(n) for f in (lambda: T.ListSub([r.randint(0, 9), 'a']), lambda: T.Point(r.randint(0, 9), [2]), lambda: T.StrSub('q%d' % r.randint(0, 9)), lambda: T.DictSub2({'k': r.random()}))]
    if theme == 'text':
        return [r.choice(('t%d' % r.randint(0, 99), b'b%d' % r.randint(0, 99), np.str_('n%d' % r.randint(0, 9)), np.array(['u', 'vw%d' % r.randint(0, 9)]), np.array([b'u', b'vw']), 2 ** 70 + r.randint(0, 9), 1 + 2j)) for _ in range(3 * n)] + [1]
    if theme == 'shared':
        s, d = [r.randint(0, 99), 'shared'], {'d': r.random()}
        return [r.choice((s, d, (s, d), {'in': s}, [d, 'x'])) for _ in range(n)] + [s, d, 'x']
    if theme == 'astropy':
        return [work20.first_value(r, r.choice(('quantity', 'angle', 'skycoord', 'time', 'constant', 'table'))) for _ in range(n)]
    if theme == 'pickled':
        return [r.choice((T.Plain(x=r.randint(0, 99), l=[1, 'a']), T.Slots(r.randint(0, 9), 2), T.Color.RED)) for _ in range(n)]
    return [T.Custom([r.randint(0, 99), 'x%d' % i]) for i in range(n)]


class Worker(threading.Thread):
    theme = None

    def __init__(self, ctx, seed, i, ops):
        super().__init__(name='t%d' % i)
        self.r = random.Random('%s/%d' % (seed, i))
        self.dir = os.path.join(ctx.scratch, 'd%d' % i)
        os.mkdir(self.dir)
        self.ops, self.n, self.problem, self.events = ops, 0, None, collections.Counter()
        self.shared_dir = ctx.scratch

    def path(self, ext='.hkl'):
        self.n += 1
        # the same names in different folders
        return os.path.join(self.dir, 'f%d%s' % (self.n, ext))

    def run(self):
        try:
            self.barrier.wait()
            for _ in range(self.ops):
                op = 'tiny' if self.short else 'themed' if self.theme else self.r.choice(('name', 'name', 'bytesio', 'handle', 'legacy', 'failing', 'options', 'two-paths'))
                getattr(self, op.replace('-', '_'))()
                self.events['thread-op:' + op] += 1
        except Violation as e:
            self.problem = '%s: %s' % (op, e)
        except BaseException:
            import traceback
            self.problem = '%s: %s' % (op, traceback.format_exc()[-2500:])

    def value(self):
        return themed(self.r, self.theme) if self.theme else thread_value(self.r)

    def themed(self):
        obj, p = self.value(), self.path()
        single = self.theme != 'keys' and self.r.random() < .6
        if single:
            # h5py holds its lock while the items of a group are visited: threads meet in objects which are not inside of another
            obj = obj[0]
        hickle.dump(obj, p, mode='w')
        for _ in range(8 if single else 2):
            got = hickle.load(p)
            for a, b in zip(obj, got) if self.theme == 'astropy' and not single else [(obj, got)]:
                self.check(a, b)

    def check(self, obj, res):
        d = same(obj, res)
        if d:
            raise Violation('%s (dumped %s)' % (d, oracle.short(obj)))
        self.events['compared'] += 1

    def name(self):
        obj, p = self.value(), self.path()
        hickle.dump(obj, p, mode='w', **self.r.choice(({}, {}, dict(compression='gzip'))))
        for _ in range(self.r.randint(1, 2)):
            self.check(obj, hickle.load(p))

    def tiny(self):
        """many beginnings and ends of calls"""
        obj, b = self.r.choice((1, 'x', [1, 'y'], None)), self.path()
        hickle.dump(obj, b, mode='w')
        self.check(obj, hickle.load(b))

    def bytesio(self):
        obj, b = self.value(), io.BytesIO()
        hickle.dump(obj, b, mode='w')
        b.seek(0)
        self.check(obj, hickle.load(b))

    def handle(self):
        obj, p = self.value(), self.path()
        with h5py.File(p, 'w') as f:
            hickle.dump(obj, f, path=self.r.choice(('/', 'x/y')))
            self.check(obj, hickle.load(f, path='x/y' if 'x' in f else '/'))

    def two_paths(self):
        p = self.path()
        objs = {q: self.value() for q in ('a', 'b/c', 'b/d')}
        for q, o in objs.items():
            hickle.dump(o, p, mode='a', path=q)
        for q in self.r.sample(list(objs), 3):
            self.check(objs[q], hickle.load(p, path=q))

    def options(self):
        obj, p = [T.Custom([1, 'x']), gen.rvalue(self.r, 2)], self.path()
        hickle.dump(obj, p, mode='w', options={'custom': self.r.random() < .5})
        self.check(obj, hickle.load(p))

    def failing(self):
        p = self.path()
        for bad in (lambda: hickle.dump([1, T.Unpicklable()], p, mode='w'), lambda: hickle.load(os.path.join(self.dir, 'missing.hkl')), lambda: hickle.dump({'a': 1}, p, mode='w', options={'nonsense': True}),
                    lambda: hickle.load(p, path='/not/there')):
            try:
                bad()
            except Exception:
                continue
            raise Violation('call expected to fail succeeded')

    def legacy(self):
        fmt = self.r.choice(('v3', 'v4', 'v4'))
        obj = c17.value(self.r, fmt, 2, None, set())
        # names that differ in their extension only, in one folder used by all threads, or no name at all
        k = self.r.random()
        p = self.path() if k < .5 else os.path.join(self.shared_dir, 'same.%s%d' % (self.name_, self.n))
        self.n += 1
        with h5py.File(p, 'w') as f:
            (W.v3_dump if fmt == 'v3' else W.v4_dump)(obj, f)
        target = p
        if fmt == 'v4' and self.r.random() < .4:
            with open(p, 'rb') as f:
                target = io.BytesIO(f.read())
        d = c17.compare(obj, hickle.load(target), fmt)
        if d:
            raise Violation('%s file: %s (dumped %s)' % (fmt, d, oracle.short(obj)))
        self.events['compared'] += 1

    @property
    def name_(self):
        return threading.current_thread().name


def managers():
    return {c.__name__: len(c.__managers__) for c in (lookup.ReferenceManager, lookup.LoaderManager) if isinstance(getattr(c, '__managers__', None), dict)}


def threads(ctx, r):
    n = r.randint(2, 6)
    seed = r.randrange(10 ** 9)
    off = r.random() < .25
    was = managers()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        k = r.random()
        short = k < .25
        theme = THEMES[ctx.index // 2 % len(THEMES)] if k > .5 else None
        plan = (0.15, {'hickle.py'}) if short else (r.choice((0.05, 0.1)), None) if theme else (r.choice((0.0, 0.002, 0.01)), r.choice((None, None, {'lookup.py'}, {'hickle.py'})), r.choice((0, 4)), 3000, 0.01)
        with sched.Scheduler(seed, TREE, *plan) as s:
            ws = [Worker(ctx, seed, i, 12 if short else r.randint(2, 5)) for i in range(n)]
            for w in ws:
                w.short = short
                w.theme = theme
            barrier = threading.Barrier(n)
            if off:
                gc.disable()
            try:
                for w in ws:
                    w.barrier = barrier
                    w.start()
                for w in ws:
                    w.join()
                state = gc.isenabled()
            finally:
                gc.enable()
    for w in ws:
        if w.problem:
            raise Violation('thread of %d: %s' % (n, w.problem))
        ctx.events.update(w.events)
    if theme:
        ctx.event('theme:' + theme)
    if state == off:
        raise Violation('garbage collector was %s, is %s after %d threads used hickle' % ('off' if off else 'on', 'on' if state else 'off', n))
    ctx.event('gc-off-kept' if off else 'gc-on')
    gc.collect()
    if any(v > was.get(k, 0) for k, v in managers().items()):
        raise Violation('managers left behind: %s -> %s' % (was, managers()))
    ctx.event('managers-empty')
    ctx.event('switches', s.switches)
    ctx.evaluated('threads %d %s' % (n, s.signature), s.switches > n, '%d threads, %d switches in %d lines' % (n, s.switches, s.lines))


# ------------------------------------------------------------------ histories

_uid = [0]


def history_op(ctx, r, op):
    p = ctx.path()
    if op == 'dump':
        hk.try_dump(thread_value(r), p, mode='w')
    elif op == 'load':
        hk.try_dump(thread_value(r), p, mode='w')
        hk.try_load(p)
    elif op == 'failed-dump':
        hk.try_dump([thread_value(r), T.Unpicklable()], r.choice((p, io.BytesIO())), mode='w')
    elif op == 'failed-load':
        hk.try_dump(thread_value(r), p, mode='w')
        with h5py.File(p, 'r+') as f:
            del f['data']
        hk.try_load(p)
    elif op == 'options':
        hk.try_dump([T.Custom([1])], p, mode='w', options={'custom': True})
        hk.try_load(p)
    elif op == 'unknown-option':
        hk.try_dump([1, 'a'], p, mode='w', options={'nope': True})
    elif op == 'register':
        _uid[0] += 1
        cls = dyn.add(type('H%d_%d' % (os.getpid(), _uid[0]), (r.choice((object, list, dict, T.ListSub)),), {}))
        opt = r.choice((None, 'custom'))
        LoaderManager.register_class(cls, b'h%d' % _uid[0], lambda o, g, name, **kw: (g.create_dataset(name, data=1), ()), lambda n, b, t: t(), None, True, opt)
        hk.try_dump([cls()], p, mode='w', options={'custom': True})
        hk.try_load(p)
    elif op in ('legacy3', 'legacy4'):
        fmt = 'v' + op[-1]
        with h5py.File(p, 'w') as f:
            (W.v3_dump if fmt == 'v3' else W.v4_dump)(c17.value(r, fmt, 2, None, set()), f)
        hk.try_load(p)
    elif op == 'open-handle':
        f = h5py.File(p, 'w')
        hk.try_dump(thread_value(r), f)
        keep.append(f)
        if len(keep) > 3:
            keep.pop(0).close()
    elif op == 'closed-handle':
        f = h5py.File(p, 'w')
        f.close()
        hk.try_dump(1, f)
        hk.try_load(f)
    elif op == 'junk':
        with open(p, 'wb') as f:
            f.write(b'junk')
        hk.try_load(p)
    elif op == 'recursion-error':
        x = [1, 'x']
        for _ in range(3000):
            x = [x, 'x']
        try:
            hk.try_dump(x, p, mode='w')
        finally:
            while x and isinstance(x[0], list):
                x = x[0]
    elif op == 'gc':
        gc.collect()
    elif op == 'failed-loader':
        where = r.choice(('create-before', 'create-after', 'subitems', 'append', 'convert', 'container-init'))
        hk.try_dump(T.Custom([1, 'x']), p, mode='w')
        customs.FAIL['where'] = where
        try:
            hk.try_load(p)
            hk.try_dump([1, T.Custom([1, 'x'])], p, mode='w')
        finally:
            customs.FAIL['where'] = None
    ctx.event('history:' + op)


keep = []


def probe(ctx, i, obj, opts):
    p = ctx.path()
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        try:
            hickle.dump(obj, p, mode='w', **opts)
            res = hickle.load(p)
        except Exception as e:
            return ('error', type(e).__name__, str(e)[:200]), None
    told = sorted((w.category.__name__, str(w.message)[:60]) for w in seen if w.category.__module__.startswith('hickle'))
    content = work20.logical(p)
    os.remove(p)
    return (content, told), res


def history(ctx, r):
    probes = []
    for _ in range(r.randint(3, 6)):
        o = thread_value(r) if r.random() < .6 else work20.first_value(r, r.choice([k for k in work20.FIRST if k != 'custom-package']))
        probes.append((o, r.choice(({}, {}, dict(compression='gzip'), dict(options={'custom': True})))))
    before = []
    for i, (o, kw) in enumerate(probes):
        rep, res = probe(ctx, i, o, kw)
        if rep[0] == 'error':
            raise Violation('probe %s failed: %s' % (oracle.short(o), rep))
        before.append(rep)
    ops = []
    for _ in range(r.randint(2, 8)):
        ops.append(r.choice(HISTORY))
        history_op(ctx, r, ops[-1])
    for i, (o, kw) in enumerate(probes):
        rep, res = probe(ctx, i, o, kw)
        if rep[0] == 'error':
            raise Violation('after %s the probe %s failed: %s' % (ops, oracle.short(o), rep))
        if rep[0] != before[i][0]:
            raise Violation('after %s the probe %s is stored differently: %s' % (ops, oracle.short(o), first_diff(before[i][0], rep[0])))
        if rep[1] != before[i][1]:
            raise Violation('after %s the probe %s gives other warnings: %s, was %s' % (ops, oracle.short(o), rep[1], before[i][1]))
        ctx.event('files-compared')
        d = same(o, res)
        if d:
            raise Violation('after %s: %s' % (ops, d))
        ctx.event('compared')
    if not gc.isenabled():
        raise Violation('garbage collector disabled after %s' % ops)
    ctx.evaluated('history %s %s' % (ops, [oracle.signature(o, 2) for o, _ in probes]), True, 'history %s' % ops)


def case(ctx):
    r = ctx.rng
    customs.register()
    mode = ('threads', 'first-threads', 'history', 'threads', ('first-load', 'first-dump')[ctx.index // 5 % 2])[ctx.index % 5]
    ctx.event('mode:' + mode)
    try:
        if mode == 'threads':
            threads(ctx, r)
        elif mode == 'history':
            history(ctx, r)
        else:
            first_use(ctx, r, mode)
    finally:
        while keep:
            keep.pop().close()
