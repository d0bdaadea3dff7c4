"""C06: shared references stay shared, distinct objects stay distinct."""
import h5py, numpy as np
import collections
from vmon import gen, hk, oracle, ref_format, types_for_tests as T
from vmon.core import Violation

ID = 'C06'
LEVEL = 'exploration'
NCASES = {'quick': 420, 'thorough': 8000}
MIN_DISTINCT = {'quick': 250, 'thorough': 6000}
REQUIRED = ['far-apart', 'compared', 'shared-edges', 'reference-nodes', 'forward-reference', 'mutated-through-alias', 'stored-once', 'equal-but-distinct', 'temporaries', 'shared-instance', 'shared-key', 'shared-sparse', 'diamond', 'counted:str', 'counted:bytes', 'counted:list', 'counted:dict', 'counted:set', 'shared-empty']
RULE = ('random acyclic object graphs: a pool of 3-40 objects (lists, tuples, dicts, sets, strings, bytes, numeric, string and object arrays, masked arrays, sparse matrices, quantities, pickled instances, subclass instances) in which '
        'later ones contain earlier ones, arranged with multiplicity in lists of more than ten items, dicts, key/value pairs and object arrays; identity isomorphism between input and result is checked along all paths in both directions, '
        'mutations through one alias must show through all others, stored copies are counted in the file; distinct by alias structure; non-trivial if at least one object is shared')
ASSUMPTIONS = ['acyclic graphs', 'identity inside pickled objects and of numbers is not tracked', 'distinctness is required of mutable objects only (equal immutable ones may be merged by Python)']


def leaf(r, i):
    k = r.randrange(20)
    if k == 0:
        return 'string %d é' % i
    if k == 1:
        return b'bytes %d' % i
    if k in (2, 3):
        return np.arange(r.choice((1, 3, 30))) + i * 1000
    if k == 4:
        return np.array(['s%d' % i, 'x'])
    if k == 5:
        return [i, 'item', None]
    if k == 6:
        return [i, i + 1, 2.5]                 # numbers only
    if k == 7:
        return {'k': i, 'n': None}
    if k == 8:
        return {i, i + 1, 'x'}
    if k == 9:
        return (i, 'tuple', None)
    if k == 10:
        return T.Data(i, 'b')
    if k == 11:
        return T.ListSub([i, 'sub'])
    if k == 12:
        a = np.empty(2, object)
        a[0], a[1] = 'obj%d' % i, [i]
        return a
    if k == 13:
        return np.ma.array([i, i + 1], mask=[0, 1])
    if k == 14:
        from scipy import sparse
        return sparse.csr_matrix(np.array([[0, i + 1], [1, 0]]))
    if k == 16:
        return [[], {}, set(), np.empty((0, 2), 'U3'), np.empty(0, object), np.empty((2, 0)), np.array([], 'S4')][i % 7]
    if k == 17:
        return r.choice((b'a', b'', '', 'x', b'\0', 'é', b'z'))
    if k == 18:
        return r.choice((np.matrix([[i, 2.5]]), np.array('u%d' % i), np.array(i + .5), np.array([b'b%d' % i]), T.StrSub('s%d' % i), T.DictSub({'d': i}), T.SetSub({i, 'e'}), T.TupleSub((i, 'f'))))
    from astropy import units as u
    return u.Quantity([i, 1.5], 'm')


def build(ctx, r):
    pool = []
    n = r.choice((3, 6, 12, 40))
    for i in range(n):
        k = r.random()
        if k < .45 or not pool:
            pool.append(leaf(r, i))
        else:
            m = r.choice((1, 2, 3, 13))
            items = [r.choice(pool) for _ in range(m)]
            kind = r.randrange(7)
            if kind < 2:
                pool.append(items + ['end%d' % i])
            elif kind == 2:
                pool.append(tuple(items) + ('t%d' % i,))
            elif kind == 3:
                pool.append({'k%d' % j: v for j, v in enumerate(items)})
            elif kind == 4:
                pool.append({('pair', i, j): v for j, v in enumerate(items)})
            elif kind == 5:
                a = np.empty(len(items), object)
                for j, v in enumerate(items):
                    a[j] = v
                pool.append(a)
            else:
                pool.append(T.ListSub(items))
            ctx.event('diamond')
    top = [r.choice(pool) for _ in range(r.choice((2, 5, 12, 25, 110)))]
    k = r.randrange(4)
    if k == 0:
        return top, pool
    if k == 1:
        return {'a': top, 'b': tuple(top[:5]), 'c': {i: v for i, v in enumerate(top)}}, pool
    if k == 2:
        return {(i, 'key'): v for i, v in enumerate(top)}, pool
    return (top, list(top), top), pool


def special(ctx, r, which):
    if which == 0:          # reference met before the target is loaded (data10 sorts before data2)
        x = [1, 'shared', None]
        ctx.event('forward-reference')
        return ['pad'] * 2 + [x] + ['pad%d' % i for i in range(8)] + [x, {'k': x}, (x, x)] + [x] * 4
    if which == 1:          # equal but distinct objects
        ctx.event('equal-but-distinct')
        return [[1, 'a'], [1, 'a'], np.arange(4), np.arange(4), {'k': [0, None]}, {'k': [0, None]}, T.Data(1, 2), T.Data(1, 2), set('ab'), set('ab'), np.array(['a']), np.array(['a']), [[], []], {}, {}, set(), set(), np.array([]), np.array([])]
    if which == 2:          # temporaries: key/value pairs are created and dropped during the dump
        ctx.event('temporaries')
        n = r.choice((30, 120))
        return [{(i, 'x'): [i, None], (i, 'y'): (i, str(i)), frozenset({i}): {'v': [i]}} for i in range(n)]
    if which == 3:          # object arrays and matrices hand out temporary rows
        ctx.event('temporaries')
        a = np.empty((6, 5), object)
        for i in range(6):
            for j in range(5):
                a[i, j] = [i, j, None]
        return [a, np.array([['a%d%d' % (i, j) for j in range(4)] for i in range(20)]), a, [a[0, 0], a[5, 4]], np.ma.array([[1, 2], [3, 4]], mask=[[0, 1], [1, 0]])] + [np.array(['n%d' % i]) for i in range(40)]
    if which == 4:
        ctx.event('shared-key')
        k = ('key', 1, 'x')
        v = [k, k]
        return {k: v, 'other': k, 'v': v, 5: {k: {k: v}}}
    if which == 5:
        ctx.event('shared-instance')
        d = T.Data([1, 2], 'x')
        e = T.Plain(a=1)
        # objects declined by their loader are shared, too
        f = collections.defaultdict(list, {'k': [1]})
        g = np.dtype([('a', 'i4'), ('b', 'f8')])
        return [d, d, {'d': d}, (e, d), e, T.Data([1, 2], 'x'), d] + [e] * 12 + [f, {'f': f}, collections.defaultdict(list, {'k': [1]}), f, [g, (g,)], f]
    if which == 6:
        ctx.event('shared-sparse')
        from scipy import sparse
        m, q = sparse.csr_matrix(np.eye(3)), sparse.csc_matrix(np.eye(3))
        b = sparse.csr_matrix(np.eye(4)).tobsr((2, 2))
        return [m, m, q, {'m': m, 'b': b}, (q, b), m.copy(), [m] * 12]
    if which == 9:          # shared empty and tiny objects
        ctx.event('shared-empty')
        out = []
        for e in ([], {}, set(), np.empty((0, 2), 'U3'), np.empty(0, object), np.array([]), np.array([], 'S4'), np.zeros((0, 3), '>i4'), b'q', b'', '', 'q', (), np.array('q'), np.array(None), np.ma.array([]), T.ListSub(), T.DictSub(), T.StrSub(''), T.Data(0, 0)):
            out += [e, [e, 'x'], {'k': e, (1, 2): e}]
        r.shuffle(out)
        return out
    if which == 7:          # deep sharing: 2**30 paths, few objects
        x = ['leaf', None]
        for i in range(30):
            x = [x, x] if i % 2 else {'l': x, 'r': x}
        return x
    s, b, t = 'str%d' % r.randrange(99), b'by%d' % r.randrange(99), (1, 'x', None)
    return [s, s, b, b, t, t, [s, b, t] * 5, {s: s, 'x': b, t: t}, {s, 'q'}, np.array([s, 'z'], dtype=object), (), (), '', '', b'', b'']


def big_arrays(r):
    arrs = [np.arange(500) + 10 ** 6 * (i + 1) for i in range(4)]
    return arrs, [arrs[0], {'x': arrs[1], 'y': arrs[0]}, (arrs[2], arrs[2], [arrs[3]] * 12), {(1, 2): arrs[1]}, np.array([arrs[0], None, arrs[3]], dtype=object)]


def count_nodes(path):
    refs, datas = 0, []
    with h5py.File(path, 'r') as f:
        def visit(name, node):
            nonlocal refs
            if isinstance(node, h5py.Dataset):
                if h5py.check_ref_dtype(node.dtype):
                    refs += 1
                elif node.dtype.kind == 'i' and node.shape == (500,):
                    datas.append(int(node[0]))
        f.visititems(visit)
    return refs, datas


def _text(o):
    return ('str', o.encode('utf8', 'surrogatepass')) if isinstance(o, str) else ('bytes', bytes(o))


def distinct_objects(x):
    """how many distinct texts of each content, lists, dicts and sets there are to be stored"""
    seen, count, stack = {}, collections.Counter(), [x]
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, (str, bytes)):
            count[_text(o)] += 1
        elif isinstance(o, np.ndarray):
            if o.dtype.kind == 'U':             # the items are made on the fly
                count.update(_text(str(i)) for i in o.reshape(-1))
            if o.dtype.kind in 'UO':
                count['list'] += o.size if o.ndim > 1 else 0
            if o.dtype.kind == 'O':
                stack += list(o.reshape(-1))
        elif isinstance(o, (list, tuple, set)):
            count['list'] += isinstance(o, list)
            count['set'] += isinstance(o, set)
            stack += list(o)
        elif isinstance(o, dict):
            count['dict'] += 1
            stack += list(o.values()) + list(o)
    return count


def stored_objects(path):
    count = collections.Counter()
    with h5py.File(path, 'r') as f:
        dec = ref_format.Decoder(f)

        def visit(name, node):
            if 'type' in node.attrs:
                base = dec.resolve(node)[1]
                if base in ('str', 'bytes'):
                    count[base, node[()].tobytes()] += 1
                elif base in ('list', 'set', 'dict'):
                    count[base] += 1
        visit('data', f['data'])
        if isinstance(f['data'], h5py.Group):
            f['data'].visititems(visit)
    return count


def occurrences(x, limit=3000):
    """all (parent-path, object) of a structure, by identity, without expanding twice"""
    seen, out, stack = {}, [], [(x, 'obj')]
    while stack and len(out) < limit:
        o, p = stack.pop()
        out.append((o, p))
        if id(o) in seen:
            continue
        seen[id(o)] = o
        for s, c in oracle.children(o):
            stack.append((c, p + s))
    return out


def follow(root, path):
    import re
    for s in re.findall(r'[\[{](k?\d+)[\]}]', path[3:]):
        root = dict((a.strip('[]{}'), b) for a, b in oracle.children(root))[s]
    return root


def case(ctx):
    r, i = ctx.rng, ctx.index
    arrs = None
    if i == 3 or ctx.thorough and i == 18:      # thousands of objects between the occurrences of the shared ones
        x, d, a = ['far', 1], {'d': None}, np.arange(3)
        obj = [x, d, a] + [[j] for j in range(6000 if i == 3 else 20000)] + [a, (d, x), {'again': [a, x]}, d, x]
        ctx.event('far-apart')
    elif i % 5 == 4:
        obj = special(ctx, r, (i // 5) % 10)
        arrs = None
    elif i % 15 == 0:
        arrs, obj = big_arrays(r)
    else:
        obj, _ = build(ctx, r)
        arrs = None
    kw = {} if i % 7 else dict(compression='gzip')
    p = ctx.path()
    hk.dump(ctx, obj, p, **kw)
    refs, datas = count_nodes(p)
    ctx.event('reference-nodes', refs)
    if arrs is not None:
        for a in arrs:
            if datas.count(int(a[0])) != 1:
                raise Violation('a shared array is stored %d times' % datas.count(int(a[0])))
        ctx.event('stored-once')
    want, have = distinct_objects(obj), stored_objects(p)
    for k, n in have.items():
        if want[k] and n > want[k]:
            raise Violation('%d distinct objects %s are stored %d times' % (want[k], k, n))
        ctx.event('counted:' + (k if isinstance(k, str) else k[0]), n)
    res = hk.load(ctx, p, obj)
    deep = i % 5 == 4 and (i // 5) % 10 == 7
    if not deep:
        d = oracle.diff(obj, res)
        if d:
            raise Violation('values differ: %s' % d)
    msg, n = oracle.alias_diff(obj, res)
    if msg:
        raise Violation('%s; dumped %s' % (msg, oracle.short(obj) if not deep else 'deep diamond'))
    ctx.event('compared')
    ctx.event('shared-edges', n)
    # behaviour: a mutation through one alias shows through every other alias and nowhere else
    occ = occurrences(obj)
    by = {}
    for o, path in occ:
        if isinstance(o, (list, dict)) and not isinstance(o, tuple):
            by.setdefault(id(o), []).append(path)
    shared = [v for v in by.values() if len(v) > 1][:4]
    single = [v for v in by.values()][:40]
    for paths in shared:
        tgt = follow(res, paths[0])
        mark = object()
        if isinstance(tgt, list):
            tgt.append(mark)
            has = lambda o: isinstance(o, list) and bool(len(o)) and o[-1] is mark
        else:
            tgt[mark] = 1
            has = lambda o: isinstance(o, dict) and mark in o
        for q in paths[1:]:
            if not has(follow(res, q)):
                raise Violation('change through %s is not seen through %s' % (paths[0], q))
        for other in single:
            if other is not paths and other[0] not in paths:
                o = follow(res, other[0])
                if has(o):
                    raise Violation('change through %s is seen in the distinct object %s' % (paths[0], other[0]))
        ctx.event('mutated-through-alias', len(paths) - 1)
        tgt.pop() if isinstance(tgt, list) else tgt.pop(mark)
    ctx.evaluated('%s %d %s' % (oracle.signature(obj) if not deep else 'deep', n, sorted(map(len, by.values()))), n > 0, 'shared edges %d, reference nodes %d: %s' % (n, refs, oracle.signature(obj, 2)[:200] if not deep else 'deep diamond'))
