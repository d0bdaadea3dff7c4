"""writes golden/v5.zip: files written by the original revision of hickle, with the values they hold.

Run by hand as  python tools/mkgolden.py ORIG  where ORIG holds the original tree.  Only values the original
revision loads back unchanged are kept."""
import io, json, os, pickle, random, sys, tempfile, warnings, zipfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [sys.argv[1], V]
warnings.simplefilter('ignore')
import numpy as np, h5py
import hickle
assert hickle.__file__.startswith(sys.argv[1]), hickle.__file__
from vmon import gen, oracle, types_for_tests as T, customs
from checks import c05, c19
customs.register()
np.seterr(all='ignore')

W = tempfile.mkdtemp(prefix='golden-')
FN = os.path.join(W, 'g.hkl')


class Ctx:
    def event(self, *a): pass


def roundtrip(v, **kw):
    hickle.dump(v, FN, mode='w', **kw)
    return hickle.load(FN)


def good(v):
    try:
        if c19.same(v, roundtrip(v)):
            return False
        return not c19.same(v, pickle.loads(pickle.dumps(v, 5)))
    except Exception:
        return False


def pool(kind, r, n):
    out, tries = [], 0
    while len(out) < n and tries < 40 * n:
        tries += 1
        try:
            v = c19.golden_value(kind, r)
        except Exception:
            continue
        if good(v):
            out.append(v)
    return out


z = zipfile.ZipFile(os.path.join(V, 'golden', 'v5.zip'), 'w', zipfile.ZIP_DEFLATED, compresslevel=9)
index = []


def add(name, value, path='/', paths=None, **kw):
    try:
        hickle.dump(value, FN, mode='w', path=path, **kw)
        back = hickle.load(FN, path=path)
        d = c19.same(value, back)
    except Exception as e:
        d = repr(e)
    if d:
        print('skipped', name, kw, d[:150])
        return False
    info = zipfile.ZipInfo(name + '.hkl', (2024, 1, 1, 0, 0, 0)); info.compress_type = zipfile.ZIP_DEFLATED
    z.writestr(info, open(FN, 'rb').read())
    info = zipfile.ZipInfo(name + '.pkl', (2024, 1, 1, 0, 0, 0)); info.compress_type = zipfile.ZIP_DEFLATED
    z.writestr(info, pickle.dumps(value, 5))
    index.append(dict(name=name, path=path, kind=name.split('-')[0]))
    return True


for kind, files, per in c19.GOLDEN:
    for i in range(files):
        r = random.Random('golden/%s/%d' % (kind, i))
        vals = pool(kind, r, per)
        form = i % 4
        if form == 0:
            obj = vals
        elif form == 1:
            obj = {'item %d' % n: v for n, v in enumerate(vals)}
        elif form == 2:
            obj = {n: (v, n) for n, v in enumerate(vals)}
            obj['again'] = [vals[0], vals[-1], vals[0]]
        else:
            obj = tuple(vals) + ([vals[0]],)
        kw = {} if i % 3 else dict(compression='gzip')
        name, path, asdict = '%s-%d' % (kind, i), '/' if i % 5 else '/sub/group', {'item %d' % n: v for n, v in enumerate(vals)}
        add(name, obj, path, **kw) or add(name, asdict, path, **kw) or add(name, asdict, path)
z.writestr(zipfile.ZipInfo('index.json', (2024, 1, 1, 0, 0, 0)), json.dumps(index))
z.close()
print(len(index), 'files', os.path.getsize(os.path.join(V, 'golden', 'v5.zip')), 'bytes')
import shutil
shutil.rmtree(W)
