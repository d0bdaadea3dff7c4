"""C05: astropy objects keep value, unit, format, scale, frame, names and metadata."""
import warnings
import numpy as np
from astropy import constants as C, units as u
from astropy.coordinates import Angle, Latitude, Longitude, SkyCoord, EarthLocation, Distance
from astropy.table import Table, QTable, MaskedColumn
from astropy.time import Time, TimeDelta
from vmon import gen, hk, oracle
from vmon.core import Violation

ID = 'C05'
LEVEL = 'exploration'
NCASES = {'quick': 200, 'thorough': 5000}
MIN_DISTINCT = {'quick': 700, 'thorough': 8000}
REQUIRED = ['compared', 'quantity', 'angle', 'time', 'timedelta', 'skycoord', 'constant', 'table', 'nested', 'compressed', 'scalar', 'masked-table', 'unit-table', 'mixin-table', 'frame:icrs', 'frame:other',
            'distance', 'velocity', 'wrap', 'time-string', 'time-refused', 'scaled-unit', 'empty']
RULE = ('quantities over 40 units incl. scaled, fractional, logarithmic and user-defined ones, angles, times of 20 formats and 7 scales, sky coordinates of 8 frames with and without distance and velocity, all constants '
        'shipped with astropy and random ones, tables with numeric, byte-string and vector columns, masks, units, mixins and metadata; alone, nested in containers and with compression; compared attribute by attribute; '
        'distinct by class, shape, unit/format/frame/columns')
ASSUMPTIONS = ['times are compared by the value in their own format, i.e. at its precision', 'table metadata: scalar values; column format and description not part of the property']

UNITS = [u.m, u.km / u.s, u.deg, u.rad, u.arcsec, u.hourangle, u.Jy, u.Unit('erg / (s cm2 AA)'), u.dimensionless_unscaled, u.percent, u.mag, u.K, u.deg_C, u.solMass / u.yr, u.m ** 1.5, u.m ** -2, u.kg ** (1 / 3), u.Angstrom,
         u.micron, u.Unit('1e10 m'), u.Unit(1 / 3 * u.m), u.Unit(0.1234567891 * u.s), u.Unit('km / (Mpc s)'), u.Unit('m(3/2)'), u.bar, u.eV, u.pc, u.lyr, u.bit, u.byte, u.photon, u.ct, u.pix, u.beam, u.mJy / u.beam, u.Unit('kpc2 / Gyr'),
         u.def_unit('wibble'), u.def_unit('wobble', 3.3 * u.m), u.uas, u.Ohm, u.dB, u.STmag, u.ABmag, u.dex(u.cm / u.s ** 2)]
SCALES = ['utc', 'tai', 'tt', 'tdb', 'tcb', 'tcg', 'ut1', 'local']
NUMFMT = ['jd', 'mjd', 'cxcsec', 'unix', 'unix_tai', 'gps', 'decimalyear', 'byear', 'jyear', 'plot_date']
STRFMT = ['iso', 'isot', 'yday', 'fits', 'byear_str', 'jyear_str']
ODDFMT = ['datetime', 'ymdhms', 'datetime64']
FRAMES = ['icrs', 'icrs', 'icrs', 'fk5', 'fk4', 'galactic', 'geocentrictrueecliptic', 'supergalactic', 'cirs', 'barycentrictrueecliptic']


def reals(r, shape, lo=-1e3, hi=1e3):
    n = int(np.prod(shape))
    a = np.array([r.uniform(lo, hi) if r.random() < .8 else r.choice((lo, 0.0, hi, 1 / 3 * hi, 1e-9 * hi)) for _ in range(n)]).reshape(shape)
    return a if shape else float(a)


def shape(r):
    return r.choice(((), (), (1,), (3,), (0,), (2, 3), (4, 1, 2), (17,)))


def rquantity(r):
    s = shape(r)
    v = reals(r, s)
    k = r.random()
    if k < .12:
        v = np.round(v).astype('i4') if s else int(v)
    elif k < .2:
        v = np.asarray(v, 'f4')
    elif k < .24:
        v = np.array([r.choice((2 ** 53 + 1, 2 ** 63 - 1, 2 ** 60 + 7, 2 ** 53, 3, 2 ** 62)) for _ in range(int(np.prod(s)))], r.choice(('i8', 'u8', '>i8'))).reshape(s)
    elif k < .27:
        v = np.asarray(v, 'g') / 3
    elif k < .3 and s:
        v = np.asfortranarray(v)[::-1]
    elif k < .36 and s and np.size(v):
        v = np.array(v)
        v.reshape(-1)[0] = np.nan
    un = r.choice(UNITS)
    return u.Quantity(v, un, dtype=getattr(v, 'dtype', None)) if not isinstance(un, u.function.FunctionUnitBase) else v * un


def rangle(r):
    s = shape(r)
    k = r.randrange(4)
    un = r.choice((u.deg, u.rad, u.hourangle, u.arcmin, u.arcsec))
    if k == 0:
        return Angle(np.asarray(reals(r, s, -400, 400), 'g') / 3 if r.random() < .1 else reals(r, s, -400, 400), un)
    if k == 1:
        return Latitude(reals(r, s, -90, 90), u.deg).to(un) if r.random() < .5 else Latitude(reals(r, s, -1.5, 1.5), u.rad)
    if k == 2:
        return Longitude(reals(r, s, 0, 360), u.deg) if r.random() < .6 else Longitude(reals(r, s, 0, 24), u.hourangle)
    return Longitude(reals(r, s, -400, 400), u.deg, wrap_angle=r.choice((180, 90, 360)) * u.deg)


def rtime(r):
    s = r.choice(((), (), (3,), (1,), (2, 2), (0,), (11,)))
    scale = r.choice(SCALES)
    k = r.random()
    base = Time(reals(r, s, 50000.0, 60000.0), format='mjd', scale=scale)
    if scale == 'local':
        # not related to the other scales: formats counted in one of them have no value in it
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return Time(base, format=r.choice(('jd', 'mjd', 'iso', 'isot', 'yday', 'decimalyear', 'jyear', 'byear')))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if k < .45:
            f = r.choice(NUMFMT)
            t = Time(base, format=f) if r.random() < .5 else Time(base.to_value(f), format=f, scale=base.scale)
            return t
        if k < .8:
            if s and not base.size:
                base = base[:0]
            f = r.choice(STRFMT)
            t = Time(base, format=f)
            if r.random() < .3:
                t.precision = r.choice((0, 1, 6, 9))
            return t
        if k < .9:
            t = Time(base, format=r.choice(ODDFMT))
            return t
        t = Time(base, format='isot')
        if r.random() < .6:
            return Time(t, location=EarthLocation(lon=reals(r, (), -170, 170) * u.deg, lat=reals(r, (), -80, 80) * u.deg))
        return t


def rskycoord(r):
    s = r.choice(((), (3,), (1,), (2, 3), (0,)))
    fr = r.choice(FRAMES)
    kw = {}
    if r.random() < .25:
        kw['distance'] = reals(r, s, 1, 100) * u.kpc
    if r.random() < .2 and fr in ('icrs', 'fk5'):
        kw['pm_ra_cosdec'] = reals(r, s, -10, 10) * u.mas / u.yr
        kw['pm_dec'] = reals(r, s, -10, 10) * u.mas / u.yr
    if r.random() < .15 and fr in ('fk5', 'icrs'):
        kw['obstime'] = Time('2015-03-01')
    if fr == 'fk5' and r.random() < .5:
        kw['equinox'] = 'J1975'
    un = r.choice((u.deg, u.rad, (u.hourangle, u.deg)))
    if un is u.rad:
        a, b = reals(r, s, 0, 6.28), reals(r, s, -1.5, 1.5)
    elif not isinstance(un, tuple):
        a, b = reals(r, s, 0, 359.9), reals(r, s, -90, 90)
    else:
        a, b = reals(r, s, 0, 23.9), reals(r, s, -90, 90)
    ua, ub = un if isinstance(un, tuple) else (un, un)
    if r.random() < .08:
        a, b = np.asarray(a, 'g') / 3, np.asarray(b, 'g') / 7
    return SkyCoord(a * ua, b * ub, frame=fr, **kw)


CONSTS = [getattr(C, n) for n in sorted(dir(C)) if isinstance(getattr(C, n), C.Constant)] + [C.si.e, C.cgs.e.esu, C.si.G]


def rtable(r):
    n = r.choice((0, 1, 3, 12))
    names = r.sample(['a', 'b', 'ra', 'dec', 'flux', 'id', 'x y', 'Col', 'type', 'name', 'colnames', 'unit', 'z' * 40], r.randint(1, 6))
    cols = []
    for _ in names:
        k = r.random()
        if k < .6:
            cols.append(gen.fill_numeric(r, r.choice(['i1', 'i4', 'i8', 'u2', 'f4', 'f8', '?', 'c16', '>i4', '>f8']), (n,)))
        elif k < .75:
            cols.append(np.array([gen.rbytes(r, 6).rstrip(b'\0')[:8] for _ in range(n)], dtype='S8'))
        else:
            cols.append(gen.fill_numeric(r, 'f8', (n, r.randint(1, 3))))
    meta = {}
    for _ in range(r.randint(0, 5)):
        meta[r.choice(['x', 'author', 'n', 'EXPTIME', 'long name', 'é', 'item_index', 'type', 'base_type', 'key_idx', 'colnames', 'key_base_type', 'unit', 'item_count', 'key_', 'typename', 'base_type2', 'COLNAMES', 'HICKLE_VERSION', ' lead', 'trail '])] = r.choice((1, 2.5, 'text', 'é', True, 0, 0.0, False, '', -3, 10 ** 12, 1e-30, ''))
    t = Table(cols, names=names, meta=meta)
    k = r.random()
    if k < .2 and n:
        c = names[0]
        t[c] = MaskedColumn(t[c], mask=[(i % 2 == 0) if t[c].ndim == 1 else [(i % 2 == 0)] * t[c].shape[1] for i in range(n)])
    elif k < .4:
        t[names[-1]].unit = r.choice((u.m, u.Jy, u.deg))
    elif k < .5:
        t = QTable(t)
        t['q'] = np.arange(n) * u.m
    elif k < .6:
        t['time'] = Time(np.linspace(50000, 50100, n), format='mjd')
    return t


def gen_obj(ctx, r, k):
    if k == 0:
        ctx.event('quantity')
        q = rquantity(r)
        if q.unit in (UNITS[20], UNITS[21]):
            ctx.event('scaled-unit')
        return q
    if k == 1:
        ctx.event('angle')
        a = rangle(r)
        if isinstance(a, Longitude) and a.wrap_angle != 360 * u.deg:
            ctx.event('wrap')
        return a
    if k == 2:
        ctx.event('time')
        t = rtime(r)
        if t.format in STRFMT:
            ctx.event('time-string')
        return t
    if k == 3:
        ctx.event('timedelta')
        return TimeDelta(reals(r, shape(r), -1e4, 1e4), format=r.choice(('jd', 'sec')), scale=r.choice((None, 'tai', 'tt')))
    if k == 4:
        ctx.event('skycoord')
        s = rskycoord(r)
        ctx.event('frame:icrs' if s.frame.name == 'icrs' else 'frame:other')
        if s.data.differentials:
            ctx.event('velocity')
        elif 'distance' in s.data.components:
            ctx.event('distance')
        return s
    if k == 5:
        ctx.event('constant')
        if r.random() < .75:
            return r.choice(CONSTS)
        nm = 'K%d' % r.randrange(10 ** 9)
        return r.choice((C.Constant, C.EMConstant))(nm, r.choice(('Some constant %s', ' %s ', '%s\t', 'a  b %s')) % nm, r.choice((1.5, 6.626e-34, 0.0, -1e300, 1 / 3)), r.choice(('m / s', 'J s', 'kg', '')), r.choice((0.0, 1e-40, 0.25, 1 / 3)), reference=r.choice(('ref %s', '', ' %s', '%s\n')).replace('%s', nm),
                                                    system=r.choice((None, 'si', 'cgs', 'mine')))
    ctx.event('table')
    t = rtable(r)
    if t.has_masked_columns:
        ctx.event('masked-table')
    if any(getattr(c, 'unit', None) is not None for c in t.itercols()):
        ctx.event('unit-table')
    if t.has_mixin_columns:
        ctx.event('mixin-table')
    return t


def same_values(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return '%s: shape %s became %s' % (what, a.shape, b.shape)
    if a.dtype.kind in 'biufc':
        exact = a.dtype == b.dtype or not {a.dtype.kind, b.dtype.kind} & set('iu')
        x, y = (a, b) if exact else (a.astype(object), b.astype(object))        # Python compares integers and floats exactly
        if b.dtype.kind not in 'biufc' or not (np.array_equal(x, y, equal_nan=True) if exact else bool(np.all((x == y) | (x != x) & (y != y)))):
            return '%s: %s became %s' % (what, oracle.short(a), oracle.short(b))
        return None
    if not np.array_equal(a, b):
        return '%s: %s became %s' % (what, oracle.short(a), oracle.short(b))


def same_unit(a, b):
    if 'wibble' in a.to_string():       # astropy compares irreducible user-defined units by identity
        return None if a.to_string() == b.to_string() else 'unit %r became %r' % (a, b)
    if not (a == b) or (a.to_string() != b.to_string()):
        return 'unit %r became %r' % (a, b)


def compare(a, b):
    if type(a) is not type(b):
        return 'type %s became %s' % (type(a), type(b))
    if isinstance(a, C.Constant):
        for nm in ('name', 'abbrev', 'reference', 'uncertainty', 'system'):
            if getattr(a, nm) != getattr(b, nm):
                return '%s %r became %r' % (nm, getattr(a, nm), getattr(b, nm))
        return same_unit(a.unit, b.unit) or same_values(a.value, b.value, 'value')
    if isinstance(a, u.Quantity):
        d = same_unit(a.unit, b.unit) or same_values(a.value, b.value, 'value')
        if not d and isinstance(a, Longitude) and a.wrap_angle != b.wrap_angle:
            d = 'wrap_angle %s became %s' % (a.wrap_angle, b.wrap_angle)
        return d
    if isinstance(a, (Time, TimeDelta)):
        for nm in ('format', 'scale', 'shape'):
            if getattr(a, nm) != getattr(b, nm):
                return '%s %r became %r' % (nm, getattr(a, nm), getattr(b, nm))
        va, vb = np.asarray(a.value), np.asarray(b.value)
        d = same_values(va, vb, 'value')
        if d and va.dtype.kind == 'f' and va.shape == vb.shape:
            # converting value -> internal days -> value rounds: what astropy itself makes of the value is right
            if np.array_equal(type(a)(a.value, format=a.format, scale=a.scale).value, vb):
                d = None
        if not d and getattr(a, 'location', None) is not None and (b.location is None or not np.all(u.isclose(a.location.x, b.location.x))):
            d = 'location lost'
        return d
    if isinstance(a, SkyCoord):
        if a.frame.name != b.frame.name or a.shape != b.shape:
            return 'frame %s%s became %s%s' % (a.frame.name, a.shape, b.frame.name, b.shape)
        for nm in ('equinox', 'obstime'):
            x, y = getattr(a, nm, None), getattr(b, nm, None)
            if (x is None) != (y is None) or (x is not None and not np.all(x == y)):
                return '%s %s became %s' % (nm, x, y)
        if type(a.data) is not type(b.data) or set(a.data.differentials) != set(b.data.differentials):
            return 'representation %s became %s' % (type(a.data), type(b.data))
        for nm in a.data.components:
            x, y = getattr(a.data, nm), getattr(b.data, nm)
            d = same_unit(x.unit, y.unit) or same_values(x.value, y.value, nm)
            if d:
                return d
        if a.data.differentials:
            for nm in a.data.differentials['s'].components:
                x, y = getattr(a.data.differentials['s'], nm), getattr(b.data.differentials['s'], nm)
                if not np.allclose(x.to_value(y.unit), y.value, rtol=1e-15):
                    return '%s differs' % nm
        return None
    if isinstance(a, Table):
        if list(a.colnames) != list(b.colnames):
            return 'columns %s became %s' % (a.colnames, b.colnames)
        if len(a) != len(b):
            return 'length %d became %d' % (len(a), len(b))
        if set(a.meta) != set(b.meta):
            return 'meta keys %s became %s' % (sorted(a.meta), sorted(b.meta))
        for k, v in a.meta.items():
            w = b.meta[k]
            if not (bool(v == w) and isinstance(w, str) == isinstance(v, str) and isinstance(w, (bool, np.bool_)) == isinstance(v, bool)):
                return 'meta %s: %r became %r' % (k, v, w)
        for nm in a.colnames:
            x, y = a[nm], b[nm]
            if isinstance(x, (Time, u.Quantity)):
                d = compare(x, y)
                if d:
                    return 'column %s: %s' % (nm, d)
                continue
            if x.dtype.newbyteorder('=') != y.dtype.newbyteorder('='):   # pickling columns loses their byte order
                return 'column %s dtype %s became %s' % (nm, x.dtype, y.dtype)
            if x.unit != y.unit:
                return 'column %s unit %s became %s' % (nm, x.unit, y.unit)
            mx = getattr(x, 'mask', None)
            my = getattr(y, 'mask', None)
            if (mx is None) != (my is None) or (mx is not None and not np.array_equal(mx, my)):
                return 'column %s mask differs' % nm
            d = oracle.diff_array(np.asarray(x).astype(x.dtype.newbyteorder('=')), np.asarray(y).astype(x.dtype.newbyteorder('=')), 'column ' + nm)
            if d:
                return d
        return None
    return 'unknown type %s' % type(a)


def describe(o):
    if isinstance(o, Table):
        return 'Table %s %s meta %s' % (o.dtype.descr if not o.has_mixin_columns else o.colnames, len(o), oracle.short(o.meta))
    if isinstance(o, SkyCoord):
        return 'SkyCoord %s %s %s' % (o.frame.name, o.shape, sorted(o.data.components))
    if isinstance(o, (Time, TimeDelta)):
        return '%s %s %s %s' % (type(o).__name__, o.format, o.scale, o.shape)
    return '%s %s %s %s' % (type(o).__name__, getattr(o, 'shape', ''), getattr(o, 'unit', ''), oracle.short(o))


def case(ctx):
    r = ctx.rng
    objs = []
    for j in range(7):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = gen_obj(ctx, r, j)
            kw = {}
            if r.random() < .25:
                kw = r.choice((dict(compression='gzip'), dict(compression='lzf', shuffle=True)))
                ctx.event('compressed')
            p = ctx.path()
            ok, err = hk.try_dump(o, p, **kw)
            if not ok:
                plain = isinstance(o, (Angle, Time, TimeDelta, SkyCoord, C.Constant)) or (isinstance(o, u.Quantity) and not kw)
                if plain:
                    raise Violation('dump refused %s %s: %r' % (describe(o), kw, err))
                ctx.event('refused')
                continue
            ctx.event('dump')
            b = hk.load(ctx, p, describe(o))
            d = compare(o, b)
            if d:
                raise Violation('%s options %s: %s' % (describe(o), kw, d))
        if getattr(o, 'shape', None) == () and not isinstance(o, Table):
            ctx.event('scalar')
        if getattr(o, 'size', 1) == 0:
            ctx.event('empty')
        ctx.event('compared')
        ctx.evaluated(describe(o), True, describe(o))
        objs.append(o)
    if ctx.index % 2:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            obj = {'l': objs, 't': tuple(objs[:2]), 'd': {i: o for i, o in enumerate(objs)}}
            obj['l2'] = [objs[0], 1, 'x']
            p = ctx.path()
            hk.dump(ctx, obj, p)
            b = hk.load(ctx, p, 'nested')
            if list(b) != list(obj):
                raise Violation('nested structure differs')
            for x, y in list(zip(obj['l'], b['l'])) + list(zip(obj['t'], b['t'])) + list(zip(obj['d'].values(), b['d'].values())):
                d = compare(x, y)
                if d:
                    raise Violation('nested %s: %s' % (describe(x), d))
        ctx.event('nested')
    if ctx.index % 20 == 0:
        t = Time([50000., 50001.], format='mjd')
        t[1] = np.ma.masked
        ok, res = hk.try_dump(t, ctx.path())
        if not ok:
            ctx.event('time-refused')
        else:
            ok, b = hk.try_load(ctx.path())
            if ok and not np.any(b.mask):
                raise Violation('mask of Time lost silently')
            ctx.event('time-refused')
