"""Datasets, files and their encodings for the store checks."""
from c09 import *
from c09 import axis as timeaxis_rows
from gen import LazyVar, FileVar
import pygeode.axis as A
from pygeode.var import Var
from pygeode.dataset import Dataset, asdataset
from pygeode.formats import netcdf as N3, netcdf4 as N4
MODS = dict(netcdf=N3, netcdf4=N4)
def canon(x):
    if isinstance(x, (bytes, np.bytes_)): return 's' + x.decode('latin1')
    if isinstance(x, str): return 's' + x
    if isinstance(x, (bool, np.bool_)): return str(int(x))
    if isinstance(x, (int, np.integer)): return str(int(x))
    x = float(x)
    if x != x: return 'nan'
    if abs(x) < 2.**63 and x == int(x): return str(int(x))
    return x.hex() if abs(x) != float('inf') else str(x)
def canons(a): return [canon(x) for x in np.asarray(a).ravel().tolist()]
def txtv(x): return [x.decode('latin1') if isinstance(x, bytes) else str(x)]
def nums(a):
    """values as rationals; text as one-element lists"""
    a = np.asarray(a)
    if a.dtype.kind in 'SU': return [txtv(x) for x in a.ravel().tolist()]
    return [[0, 0] if x != x else rat(x, 64 if a.dtype.kind == 'f' and a.dtype.itemsize < 8 else MAXD, 3e-6 if a.dtype.kind == 'f' and a.dtype.itemsize < 8 else 1e-9) for x in a.ravel().tolist()]
def big(x):
    if isinstance(x, (list, tuple, np.ndarray)): return np.asarray(x).dtype.kind in 'iu' and np.asarray(x).dtype.itemsize > 4 or np.asarray(x).dtype.kind == 'u'
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool) and (abs(int(x)) >= 2**31 or isinstance(x, (np.int64, np.unsignedinteger)))
import re
def encatts(at, conv=canon, prefix=''):
    out = []
    for k in sorted(at):
        v = at[k]
        if k in ('coordinates', 'ancillary_variables') and isinstance(v, str):
            out.append(dict(k=k, t='w', v=[dict(w=w, s=w[len(prefix) + 1:] if prefix and w.startswith(prefix + '_') else w) for w in v.split()])); continue
        if k == 'units' and isinstance(v, str) and ' since ' in v: out.append(dict(k=k, t='q', v=[v])); continue
        if isinstance(v, str): out.append(dict(k=k, t='s', v=[v, v.lower()])); continue
        a = np.asarray(v)
        if a.dtype.kind in 'SU': out.append(dict(k=k, t='S', v=[txtv(x)[0] for x in a.ravel().tolist()])); continue
        out.append(dict(k=k, t='n', v=[conv(x) for x in a.ravel().tolist()]))
    return out
def enctm(ax):
    """what a time axis denotes, and its other associated arrays"""
    cal = TAG[type(ax)]; n = len(ax); nm = names(cal)
    for k in ax.auxarrays: assert len(np.asarray(ax.auxarrays[k])) == n, 'length of field'
    ks = [i + 1 for i, k in enumerate(nm) if k in ax.auxarrays]
    d = [[int(np.asarray(ax.auxarrays[nm[i]])[j]) if i < len(nm) and nm[i] in ax.auxarrays else NOF for i in range(6)] for j in range(n)]
    sd = ax.startdate
    return dict(cal=cal, keys=ks, d=d, start=[int(np.asarray(sd[k]).ravel()[0]) if k in sd else NOF for k in F6], unit=ax.units, back=inst(ax.values, ax.units)), [k for k in ax.auxarrays if k not in nm]
def encax(ax, conv, cf=True):
    if isinstance(ax, ta.Time):
        tm, more = enctm(ax)
        if not cf: tm = []
        return dict(n=str(ax.name), k='time', v=conv(ax.values), x=[dict(a=k, v=conv(ax.auxarrays[k])) for k in sorted(more)], at=encatts(ax.atts, conv1(conv), ax.name), tm=tm)
    k = 'DummyAxis' if isinstance(ax, A.DummyAxis) else type(ax).__name__
    for q in ax.auxarrays: assert len(np.asarray(ax.auxarrays[q])) == len(ax), 'length of array'
    return dict(n=str(ax.name), k=k, v=conv(ax.values), x=[dict(a=q, v=conv(ax.auxarrays[q])) for q in sorted(ax.auxarrays)], at=encatts(ax.atts, conv1(conv), ax.name), tm=[])
def conv1(conv): return canon if conv is canons else rat
def encds(ds, cf=True, data=None, conv=canons):
    data = data or [np.asarray(v.get()) for v in ds.vars]
    out = []
    for v, d in zip(ds.vars, data):
        assert d.shape == v.shape, 'shape'
        out.append(dict(n=str(v.name), c=list(v.name), t=str(np.dtype(v.dtype).name), ax=[str(a.name) for a in v.axes], v=conv(d), at=encatts(v.atts, conv1(conv))))
        if d.dtype.kind not in 'SUO' and d.dtype != v.dtype: out[-1]['t'] = 'data are %s' % d.dtype
    return dict(k='ok', ax=[encax(a, conv, cf) for a in ds.axes], vars=out, at=encatts(ds.atts, conv1(conv)))
# ---------------------------------------------------------------- datasets
def rint(rng, dt):
    i = np.iinfo(dt)
    return rng.choice([0, 1, -1 if i.min < 0 else 2, rng.randint(-100, 100) if i.min < 0 else rng.randint(0, 100), max(i.min, -2**53 + 1), min(i.max, 2**53 - 1)])
def rfloat(rng, nan=True):
    r = rng.random()
    if r < .12 and nan: return float('nan')
    if r < .16: return rng.choice([float('inf'), -float('inf'), 1e300, 5e-324, 1e-30, -1e30, 1e20, 9.96921e36])
    if r < .5: return float(rng.randint(-50, 50))
    return rng.gauss(0, 10) * 10 ** rng.randint(-3, 3)
def data(rng, shape, dt):
    n = int(np.prod(shape, dtype=int))
    if np.dtype(dt).kind in 'iu': return np.array([rint(rng, dt) for _ in range(n)], dt).reshape(shape)
    if np.dtype(dt).kind == 'S': return np.array([rng.choice('abcXYZ ') for _ in range(n)], 'S1').reshape(shape)
    return np.array([rfloat(rng) for _ in range(n)]).astype(dt).reshape(shape)
def coords(rng, n, lo, hi, ints=False):
    v = sorted(rng.sample(range(lo * 10, hi * 10), n))
    if rng.random() < .2: v.reverse()
    elif rng.random() < .1: rng.shuffle(v)
    if ints or rng.random() < .3: return np.array([x // 1 for x in v], rng.choice(['int64', 'int32', 'float64', 'float32']))
    return np.array(v, rng.choice(['float64', 'float64', 'float32'])) / rng.choice([10., 7.])
AK = ['Lat', 'Lat', 'Lon', 'Pres', 'Hybrid', 'XAxis', 'YAxis', 'ZAxis', 'TAxis', 'Height', 'SpectralM', 'SpectralN', 'NamedAxis', 'NamedAxis', 'Axis', 'Index', 'Freq', 'DummyAxis', 'Station', 'NonCoordinateAxis', 'time', 'time', 'time', 'time']
WORDS = ['abc', 'd', 'x y', 'Toronto', 'q1', 'Z', '']
def texts(rng, n):
    w = [rng.choice(WORDS[:-1]) + str(rng.randint(0, 99)) for _ in range(n)]
    if n > 1 and rng.random() < .2: w[rng.randint(1, n - 1)] = ''
    return w
def atts(rng, p=.5, wide=True):
    at = {}
    while rng.random() < p:
        k = rng.choice(['long_name', 'history', 'comment', 'valid', 'level', 'Title', 'source_file', 'n'])
        at[k] = rng.choice(['text', 'Some longer text, with; punctuation=1', 'multi\nline', 5, -3, 2.5, 1e-5, 0, np.float32(.1), np.int16(7), [1., 2.5], np.arange(3, dtype='i4'), np.array([.5, 1], 'f4')] + ([2**40, [1, 2], np.int64(2**33), np.uint8(200)] if wide else []))
    return at
def tax(rng, name=None):
    while 1:
        a = build(rng, *timeaxis_rows(rng, dup=.1))
        sd = a.startdate
        if 'year' not in a.auxarrays and not isinstance(a, ta.Yearless) and int(np.asarray(sd.get('year', 0)).ravel()[0]) != 0: continue
        if abs(np.asarray(a.values, 'd')).max(initial=0) > 1e9: continue
        if 'season' in type(a).allowed_fields: return a.rename(name) if name else a
        w = {} if rng.random() < .85 else dict(weights=np.arange(1., len(a) + 1))
        kw = {k: np.asarray(v) for k, v in a.auxarrays.items()}
        b = type(a)(units=a.units, startdate=dict(sd), atts=atts(rng, .2), **dict(kw, **w)) if w or rng.random() < .3 else a
        if name: b = b.rename(name)
        return b
def mkaxis(rng, k, n, name):
    kw = {}
    at = atts(rng, .25)
    if k not in ('DummyAxis', 'Hybrid', 'Station', 'NonCoordinateAxis', 'Freq') and rng.random() < .2: kw['weights'] = np.array([rng.randint(1, 9) / 4. for _ in range(n)])
    if k in ('NamedAxis', 'Axis', 'ZAxis', 'Height') and rng.random() < .4: at['units'] = rng.choice(['K', 'm', 'km', '1'])
    if k == 'time': return tax(rng, name)
    if k in ('Station', 'NonCoordinateAxis'):
        x = {}
        for q in rng.sample(['lat', 'lon', 'elev', 'l', 'code', 'la', 't', 'nm'], rng.randint(1, 4)): x[q] = np.array([rng.randint(-80, 80) + rng.choice([0, .5, .1]) for _ in range(n)], rng.choice(['f8', 'f8', 'f4']))
        if k == 'Station' or rng.random() < .5: x['station' if k == 'Station' else name or 'site'] = np.array(texts(rng, n))
        if rng.random() < .3: x['label'] = np.array(texts(rng, n))
        a = getattr(A, k)(name=name or 'station' if k == 'Station' else name or 'site', **x)
        return a
    if k == 'Lat': v = coords(rng, n, -90, 90)
    elif k == 'Lon': v = coords(rng, n, -180, 360)
    elif k == 'Pres': v = coords(rng, n, 1, 1000)
    elif k == 'Hybrid': v = coords(rng, n, 0, 50); kw.update(A=np.array([rng.random() for _ in range(n)]), B=np.array([rng.random() for _ in range(n)]))
    elif k == 'DummyAxis': return A.DummyAxis(np.arange(n), name=name or 'dim')
    elif k == 'NamedAxis': return A.NamedAxis(coords(rng, n, -40, 40), name or 'named', atts=at, **kw)
    elif k == 'Index': v = list(range(n)) if rng.random() < .5 else coords(rng, n, 0, 30, True)
    else: v = coords(rng, n, 0, 100)
    a = getattr(A, k)(v, atts=at, **kw)
    return a.rename(name) if name else a
VN = ['T', 'U', 'foo', 'B', 'A', 'weights', 'year', 'day', 'ps', 'u10', 'lat_weights', 'T-2', 'u wind', '2m', 'x_y', 'Z.500', 'station_name', 'q\u00fc']
def dataset(rng, small=False):
    na = rng.randint(0, 2 if small else 3); axs = []
    seen = set()
    for _ in range(na):
        k = rng.choice(AK) if na < 2 else rng.choice([q for q in AK if q != 'Axis']); n = rng.choice([1, 2, 3, 3, 4, 4, 5])
        a = mkaxis(rng, k, n, rng.choice([None, None, 'ax%d' % rng.randint(0, 9), rng.choice(['foo1', 'x', 'y2', 'level', 'pres', 'time'])]))
        mine = {str(a.name)} | ({q for q in a.auxarrays} if isinstance(a, A.NonCoordinateAxis) else {a.name + '_' + q for q in a.auxarrays})
        if isinstance(a, A.NonCoordinateAxis) and a.name in a.auxarrays: mine |= {a.name + '_name', a.name + '_strlen'}
        if isinstance(a, A.NonCoordinateAxis): mine |= {q + '_name' for q in a.auxarrays} | {q + '_strlen' for q in a.auxarrays}
        if mine & seen: continue
        seen |= mine; axs.append(a)
    nv = rng.randint(1, 3); vs = []
    used = []
    for i in range(nv):
        p = rng.sample(axs, rng.randint(0 if i or not axs else 1, len(axs)))
        if i == nv - 1 and not vs and axs and not p: p = axs[:1]
        name = rng.choice(VN)
        fixed = ''.join(c if c.isascii() and c.isalnum() else '_' for c in name); fixed = '_' + fixed if fixed[0].isdigit() else fixed
        if fixed in seen or name in seen: continue
        seen |= {name, fixed}
        dt = rng.choice(['float64'] * 4 + ['float32'] * 2 + ['int32', 'int16', 'int8', 'int64', 'uint8', 'uint16', 'uint32', 'uint64'])
        v = Var(p, values=data(rng, tuple(len(a) for a in p), dt), name=name, atts=dict(atts(rng), **({'units': rng.choice(['m', 'K', '', 'm s-1'])} if rng.random() < .5 else {})))
        c = rng.choice(['mem', 'mem', 'lazy', 'file'])
        if c == 'lazy': v = LazyVar(v)
        if c == 'file': v = FileVar(v)
        vs.append(v)
    if not vs: return dataset(rng, small)
    return Dataset(vs, atts=atts(rng, .4)), axs
def plain(ds):
    return True
def tame(v):
    a = np.asarray(v.get(), 'd'); a = a[np.isfinite(a)]
    if not np.all(np.isfinite(np.asarray(v.get(), 'd')) | np.isnan(np.asarray(v.get(), 'd'))): return False
    if not a.size: return True
    r = a.max() - a.min(); m = abs(a).max()
    return m < 1e30 and (r == 0 or r > m / 4) and (m == 0 or m > 1e-30)
def packs(packed, r):
    out = []
    for v in packed:
        a = np.asarray(v.get(), 'd').ravel(); f = a[np.isfinite(a)]
        lo, hi = (f.min(), f.max()) if f.size else (0., 0.)
        sc = 2.**24 / (hi - lo) if hi > lo else 2.**20 / abs(hi) if hi else 1.
        fix = ''.join(c if c.isascii() and c.isalnum() else '_' for c in v.name); fix = '_' + fix if fix[0].isdigit() else fix
        code = lambda x: [NOF if y != y else int(round((y) * sc)) if abs(y * sc) < 2**30 else 2**30 for y in np.asarray(x, 'd').ravel().tolist()]
        u = None
        if r is not None and fix in r: u = code(r[fix].get())
        out.append(dict(n=fix, s=code(a), u=u or [], lo=int(round(lo * sc)), hi=int(round(hi * sc))))
    return out
def num(q): return float('nan') if q[1] == 0 else q[0] / q[1]
def gatts(at): return {r['k']: (r['v'][0] if r['t'] == 's' else np.array([num(x) for x in r['v']]) if len(r['v']) != 1 else num(r['v'][0])) for r in at}
def gvals(v): return np.array([num(x) if isinstance(x, list) else x for x in v]) if v else np.array([])
def gaxis(a):
    """axis of a generated dataset"""
    x = {r['a']: gvals(r['v']) for r in a['x']}; at = gatts(a['at'])
    if a['k'] == 'time':
        tm = a['tm']; nm = names(tm['cal'])
        sd = {F6[i]: v for i, v in enumerate(tm['start']) if v != NOF}
        kw = {nm[i - 1]: np.array([d[i - 1] for d in tm['d']]) for i in tm['keys']}
        return ALLC[tm['cal']](units=tm['unit'], startdate=sd, name=a['n'], atts=at, **dict(kw, **x))
    if a['k'] == 'DummyAxis': return A.DummyAxis(np.arange(len(a['v'])), name=a['n'])
    if a['k'] in ('Station', 'NonCoordinateAxis'): return getattr(A, a['k'])(name=a['n'], **x)
    if a['k'] == 'NamedAxis': return A.NamedAxis(gvals(a['v']), a['n'], atts=at, **x)
    b = getattr(A, a['k'])(gvals(a['v']), atts=at, **x)
    return b if b.name == a['n'] else b.rename(a['n'])
def gdata(g):
    axs = {a['n']: gaxis(a) for a in g['ax']}
    vs = [Var([axs[n] for n in v['ax']], values=gvals(v['v']).reshape([len(axs[n]) for n in v['ax']]), name=v['n'], atts=gatts(v['at'])) for v in g['vars']]
    return Dataset(vs, atts=gatts(g['at']))
