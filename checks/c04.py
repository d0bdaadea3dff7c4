"""C04: SciPy sparse matrices round trip exactly."""
import numpy as np
from scipy import sparse
from vmon import gen, hk, oracle
from vmon.core import Violation

ID = 'C04'
LEVEL = 'exploration'
NCASES = {'quick': 240, 'thorough': 6000}
MIN_DISTINCT = {'quick': 400, 'thorough': 6000}
REQUIRED = ['compared', 'csr', 'csc', 'bsr', 'empty', 'explicit-zero', 'unsorted', 'duplicates', 'int64-index', 'nested', 'compressed', 'dense-equal', 'catalogue', 'own-memory', 'shared']
RULE = ('CSR, CSC and BSR matrices of twelve dtypes, any shape incl. 0 rows or columns, with empty rows, explicit zeros, unsorted and duplicate entries, both index dtypes and block sizes 1x1..3x4, results of '
        'slicing, transposing and arithmetic; alone, nested, shared and with compression; compared by class, shape, dtype, block size and the three arrays bit by bit, plus dense value; distinct by class, dtype, shape, nnz')
ASSUMPTIONS = ['sparse arrays (csr_array ...) and other formats are pickled: covered by C12']


def catalogue():
    m = sparse.csr_matrix(np.array([[0, 1, 0], [2, 0, 3], [0, 0, 0], [4, 5, 6]], dtype='f8'))
    out = [m, m.T, m.tocsc(), m.tocsc().T, m.tobsr((2, 3)), m.tobsr((1, 1)), m[1:], m[:, 1:], m[0], m[2:3], -m, m * 0, m.astype('i1'), m.astype(bool), m.astype('c16'), sparse.csr_matrix((3, 4)),
           sparse.csc_matrix((0, 5)), sparse.csr_matrix((5, 0)), sparse.csr_matrix((0, 0)), sparse.csc_matrix((1, 1)), sparse.bsr_matrix((6, 6), blocksize=(2, 3)), sparse.eye(7).tocsr(), sparse.eye(7).tocsc(),
           sparse.csr_matrix((1, 1000)), sparse.csc_matrix((1000, 1)), sparse.random(100, 60, .1, format='csr', random_state=1), sparse.random(60, 100, .1, format='csc', random_state=2),
           sparse.random(60, 100, .1, format='csr', random_state=3).tobsr((3, 5)), sparse.csr_matrix(([1., 2., 3.], ([0, 0, 1], [1, 1, 0])), shape=(2, 2)), sparse.csr_matrix((2 ** 20, 2 ** 33))[:5]]
    return [x for x in out if type(x) in (sparse.csr_matrix, sparse.csc_matrix, sparse.bsr_matrix)]


def note(ctx, m):
    ctx.event(m.format)
    if m.nnz == 0:
        ctx.event('empty')
    if m.data.size and (m.data == 0).any():
        ctx.event('explicit-zero')
    if m.indices.dtype == np.int64:
        ctx.event('int64-index')
    for i in range(len(m.indptr) - 1):
        row = m.indices[m.indptr[i]:m.indptr[i + 1]]
        if len(row) > 1 and (np.diff(row) < 0).any():
            ctx.event('unsorted')
            break
    for i in range(len(m.indptr) - 1):
        row = m.indices[m.indptr[i]:m.indptr[i + 1]]
        if len(set(row.tolist())) < len(row):
            ctx.event('duplicates')
            break


def dense(m):
    return (m.tocsr() if m.format == 'bsr' else m).toarray()


def case(ctx):
    r = ctx.rng
    cat = catalogue()
    if ctx.index < 10:
        ms = cat[ctx.index::10]
        ctx.event('catalogue')
    else:
        ms = [gen.rsparse(r) for _ in range(4)]
        plain = ms[0].dtype.isnative and ms[0].dtype != 'f2' and max(ms[0].shape) < 10 ** 6
        if r.random() < .3 and plain and ms[0].format != 'bsr' and ms[0].shape[0] > 2:
            ms.append(ms[0][1:])
        if r.random() < .2 and plain:
            ms.append(ms[0].T)
    for m in ms:
        note(ctx, m)
        kw = {}
        if r.random() < .25:
            kw = r.choice((dict(compression='gzip'), dict(compression='lzf', shuffle=True), dict(compression='gzip', compression_opts=9, fletcher32=True)))
            ctx.event('compressed')
        before = [np.array(x) for x in (m.data, m.indices, m.indptr)]
        dt = [x.dtype for x in (m.data, m.indices, m.indptr)]
        p = ctx.path()
        hk.dump(ctx, m, p, **kw)
        res = hk.load(ctx, p, m)
        d = oracle.diff(m, res)
        if d:
            raise Violation('%s %s %s nnz=%d options %s: %s' % (type(m).__name__, m.shape, m.dtype, m.nnz, kw, d))
        for x, y, t in zip(before, (m.data, m.indices, m.indptr), dt):
            if x.tobytes() != np.array(y).tobytes() or y.dtype != t:
                raise Violation('dump altered the matrix')
        if m.shape[0] * m.shape[1] < 10 ** 5 and m.nnz and m.dtype.isnative and m.dtype.itemsize * (1 + (m.dtype.kind != 'f')) != 2:
            # (scipy has no operations for data of foreign byte order and float16)
            with np.errstate(all='ignore'):
                a, b = dense(m), dense(res)
            if a.tobytes() != b.tobytes() and not np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
                raise Violation('dense values differ')
            ctx.event('dense-equal')
        if res.data.size:
            if not (res.data.flags.writeable and res.indices.flags.writeable):
                raise Violation('loaded matrix is read-only')
            res.data[...] = 0
            ctx.event('own-memory')
        ctx.event('compared')
        ctx.evaluated('%s %s %s %d %s %s' % (m.format, m.shape, m.dtype, m.nnz, m.indices.dtype, m.indices[:8].tolist()), True, '%s %s %s nnz=%d' % (type(m).__name__, m.shape, m.dtype, m.nnz))
    obj = {'list': ms, 'one': ms[0], 'tuple': (1, ms[-1], 'x', ms[0]), ('k', 1): ms[0], 'data': ms[0].data, 'arr': np.arange(3)}
    res = hk.check_roundtrip(ctx, obj)
    if not (res['one'] is res['list'][0] and res['tuple'][3] is res['one'] and res[('k', 1)] is res['one']):
        raise Violation('shared sparse matrix is no longer shared')
    ctx.event('shared')
    ctx.event('nested')
