"""C01: built-in values and nested containers survive dump and load unchanged."""
from vmon import gen, hk, oracle

ID = 'C01'
LEVEL = 'exploration'
NCASES = {'quick': 200, 'thorough': 12000}
MIN_DISTINCT = {'quick': 250, 'thorough': 6000}
CASE_TIMEOUT = 500
REQUIRED = ['dump', 'load', 'compared', 'huge-list', 'node:list:group', 'node:list:dataset', 'node:tuple:group', 'node:tuple:dataset',
            'node:set:dataset', 'node:set:group', 'node:dict:group', 'node:int:dataset', 'node:str:dataset', 'node:bytes:dataset',
            'node:float:dataset', 'node:complex:dataset', 'node:None:dataset', 'node:bool:dataset']
RULE = ('seeded random nested values over the built-in types plus a catalogue of boundary scalars, long (up to 5000 items), '
        'deep (up to 120 levels) and homogeneous sequences; each is dumped, loaded and compared type-exactly; a case is '
        'non-trivial if it is not a single small scalar; distinct by structural signature')
ASSUMPTIONS = ['acyclic values']


def catalogue():
    out = [None, True, False, '', b'', [], (), set(), {}, [[]], ((),), [()], {'': ''}, {(): ()}]
    out += gen.INT_EDGES + gen.FLOAT_EDGES + gen.STR_CATALOG + gen.BYTES_CATALOG
    out += [1 << 15000, -1 << 15000, [1, -1 << 15000], (1 << 20001, 'x'), {1 << 15001, 2}, {1 << 15002: 1 << 15003}]    # more digits than str() converts
    out += [[x] for x in gen.INT_EDGES] + [(x, 0.5) for x in gen.INT_EDGES] + [[x, True] for x in gen.INT_EDGES]
    out += [[x, 1] for x in gen.FLOAT_EDGES] + [[x, 1j] for x in gen.FLOAT_EDGES] + [[x] for x in gen.STR_CATALOG] + [[x, x + x] for x in gen.BYTES_CATALOG]
    out += [[x, None] for x in (1, 1.5, True, b'a', 'a', 1j, [], ())]
    out += [[None], [None, None], [True, False], [True, 2], [1, b'a'], [b'a', 1], [b'a', b'b'], ['a', 'b'], [b'', b''], [[1], [2]], [[1], 'a'], [(1, 2), (3, 4)],
            {1, 2, 3}, {1, 'a'}, {b'a', b'b'}, {(1, 2), (3, 4)}, {None}, {True, 2}, {2 ** 70, 1}, {1.5, 2}, {'a', 'b'}, {(), (1,)}, {('a',), 'a'}, {0, '0', b'0', (0,)},
            [1, 2.5, 3j], [0.1, 1], [2 ** 53, 0.5], [2 ** 53 + 1, 0.5], [2 ** 63, 1.0], [-2 ** 63, 0.5], [2 ** 63 - 1, True], [10 ** 400, 1.5]]
    return out


CAT = catalogue()


def hashables(v):
    return {x for x in v if x == x}


LENGTHS = (4096, 1000, 2048, 1024, 1100, 8192, 2049, 4100, 512, 5000, 65536 // 8, 1023, 4095, 256)


def long_text(r):
    """text of some thousand characters containing everything that may be lost on the way"""
    parts = [r.choice(gen.STR_CATALOG) for _ in range(r.choice((300, 900, 2500)))] + ['\r\n', '\r', '\ufeff', '\x00', ' \n', '\t', '\x1a', '\u2028', '\x85', 'e\u0301']
    r.shuffle(parts)
    return ''.join(parts) + r.choice(('', ' ', '\n', '\r\n', '\x00', '\x00\x00', 'x'))


def odd_set(r):
    """large set in which the only item of other type is met late"""
    n = r.choice((1100, 1500, 3000))
    base = set(range(n)) if r.random() < .6 else {2 ** 53 + 2 * x + 1 for x in range(n)}
    f = r.choice((lambda: r.uniform(-1e6, 1e6), lambda: complex(r.random(), 1), lambda: 2 ** 63 + r.getrandbits(80), lambda: 'text %d' % r.getrandbits(30)))
    for _ in range(60):
        x = f()
        s = base | {x}
        if list(s).index(x) > n // 2:
            break
    return s


def value(ctx):
    r, i = ctx.rng, ctx.index
    if i < 40:                              # the catalogue, in slices, nested in a random place
        part = CAT[i::40]
        return [part, tuple(part)] if i % 2 else part
    if i == 46 or i == 47 and ctx.thorough:     # more items than 16 bit numbers can count
        ctx.event('huge-list')
        n = 66000
        return [None if j % 2 else j for j in range(n)]
    k = i % 40
    if k == 0:
        return gen.deep(r, r.choice((20, 60, 120)))
    if k == 1:                              # long mixed list: more than 10 / 100 / 1000 items
        n = r.choice((11, 12, 101, 1001, 3000))
        return [gen.rscalar(r) for _ in range(n)] + ['end']
    if k == 2:
        n = r.choice((11, 120, 1500))
        return tuple((j, gen.rscalar(r)) if r.random() < .2 else j if r.random() < .5 else None for j in range(n))
    if k == 3:
        n = r.choice((9, 70, 700))
        return gen.rset(r, n, False)
    if k == 4:
        if i % 80 == 4:
            return [gen.rstr(r) * r.choice((1, 1000, 70000)) + 'é🙂', long_text(r)]
        return [long_text(r), {'t': long_text(r), 'same length': 'x' * LENGTHS[i // 40 % len(LENGTHS)]}, long_text(r) + '\n']
    if k == 5:
        n = LENGTHS[i // 40 % len(LENGTHS)]
        return [gen.rbytes(r) * r.choice((1, 1000, 70000)) + b'\0', bytes(r.getrandbits(8) for _ in range(n)), b'\r\n' * (n // 2), bytes(n)]
    if k == 6:
        return gen.rdict(r, lambda r: gen.rvalue(r, 1), r.choice((40, 200, 900 if ctx.thorough else 300)))
    if k == 7:
        return [gen.rnumber(r) for _ in range(r.choice((200, 5000 if ctx.thorough else 1200)))]
    if k == 14:     # long sequences stored as datasets, with values at the limits of their type
        f = (lambda r: r.choice((1, -1)) * (2 ** 53 + r.getrandbits(60)), lambda r: r.choice([x for x in gen.INT_EDGES if abs(x) < 2 ** 63]), gen.rfloat, gen.rcomplex, lambda r: r.random() < .5, gen.rsmallint)[i // 40 % 6]
        n = LENGTHS[i // 40 % len(LENGTHS)]
        return [[f(r) for _ in range(n)], tuple(f(r) for _ in range(n)), {x for x in (f(r) for _ in range(n)) if x == x}]
    if k == 15:     # long sequences in which one item, possibly the last, does not fit the others
        f, odd = r.choice(((gen.rsmallint, (0.5, 2 ** 53 + 1, 2 ** 64, -2 ** 63, 1j, True, None, 'x')), (lambda r: 2 ** 53 + 1 + r.getrandbits(62), (0.5, 1j, 2 ** 64, True)), (gen.rfloat, (2 ** 53 + 1, 2 ** 62 + 1, True, 1, 1j, None)),
                           (lambda r: r.random() < .5, (2, 0.5, 0, None, 2 ** 64)), (lambda r: r.randint(2 ** 63, 2 ** 64 - 1), (-1, 0.5, 2 ** 64))))
        v = [f(r) for _ in range(r.choice((30, 290, 600, 1100, 2100)))]
        for _ in range(r.choice((1, 1, 3))):
            v.insert(r.choice((len(v), len(v), r.randint(0, len(v)))), r.choice(odd))
        if len(v) > 300 and r.random() < .4:
            v[0] = r.choice(odd)
            v[-1] = r.choice((2 ** 53 + 1, 2 ** 62 + 1))
        return [r.choice((list, tuple))(v), hashables(v), odd_set(r)]
    if k == 8:
        return {x for x in (gen.rint(r) for _ in range(200))}
    if k == 9:
        return gen.rscalar(r)
    if k == 10:     # lists that almost, but not quite, have a common number type
        base = [gen.rsmallint(r) for _ in range(gen.rlen(r, 30))]
        base.insert(r.randint(0, len(base)), r.choice((None, 'x', b'x', 0.5, 1j, 2 ** 64, -2 ** 63 - 1, True, [], (), {}, [1], '', b'', 2 ** 53 + 1, set())))
        return base
    if k == 11:     # sequences of equal-shaped sequences
        n = r.randint(1, 5)
        f = r.choice((gen.rint, gen.rfloat, gen.rstr, gen.rbytes, gen.rscalar))
        return [r.choice((list, tuple))(f(r) for _ in range(n)) for _ in range(r.randint(1, 15))]
    if k == 12:
        return [gen.rset(r) for _ in range(r.randint(1, 6))]
    if k == 13:
        return {'a': gen.rvalue(r, 2), 'b': [gen.rvalue(r, 2) for _ in range(12)], 'c': tuple(gen.rvalue(r, 1) for _ in range(25))}
    return gen.rvalue(r, r.choice((2, 3, 4)))


def case(ctx):
    for _ in range(3 if ctx.index >= 40 and ctx.index % 40 not in (1, 2, 6, 7, 14, 15) else 1):
        v = value(ctx)
        hk.check_roundtrip(ctx, v, observe=True)
        ctx.evaluated(oracle.signature(v), nontrivial=not (isinstance(v, (int, bool)) or v is None), sample=oracle.short(v))
