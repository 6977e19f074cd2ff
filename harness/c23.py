"""C23: datasets handed to xarray and taken back, and datasets of xarray's own."""
from c10 import *
from store import *
import c16
import xarray as xr, dask
from pygeode.ext_xarray import to_xarray, from_xarray
class Recorder(Var):
    """a variable that counts how often each element is asked for"""
    def __init__(self, v):
        self._v = v; self.seen = np.zeros(v.shape, int); Var.__init__(self, v.axes, name=v.name, dtype=v.dtype, atts=v.atts)
    def getview(self, view, pbar):
        self.seen[np.ix_(*view.integer_indices)] += 1; pbar.update(100)
        return np.asarray(self._v.get())[np.ix_(*view.integer_indices)] if view.integer_indices else np.array(self._v.get())
def lim_(rng): return rng.choice([pyg.MAX_ARRAY_SIZE, 1, 2, 5, 7, 20])
def sched(rng, fn):
    with dask.config.set(scheduler=rng.choice(['threads', 'threads', 'sync'])): return fn()
def dates(c):
    out = []
    for t in c.values.ravel():
        if isinstance(t, np.datetime64):
            s = str((t.astype('datetime64[ms]') + 500).astype('datetime64[s]')); neg = s[0] == '-'; s = s.lstrip('-')
            d, h = s.split('T'); y, m, dd = d.split('-'); out.append([-int(y) if neg else int(y), int(m), int(dd)] + [int(q) for q in h.split(':')])
        else:
            import datetime; t = t + datetime.timedelta(milliseconds=500)
            out.append([t.year, t.month, t.day, t.hour, t.minute, t.second])
    return out
def istime(c): return c.dtype.kind == 'M' or c.dtype.kind == 'O' and c.size and hasattr(c.values.ravel()[0], 'month')
def encx(rng, X, recs):
    o = dict(k='ok', dims=[dict(n=str(n), l=int(l)) for n, l in X.sizes.items()], coords=[], vars=[])
    for n, c in X.coords.items(): o['coords'].append(dict(n=str(n), v=[] if c.dtype.kind in 'MO' else canons(c.values), d=dates(c) if istime(c) else []))
    for n, x in X.data_vars.items():
        r = recs.get(n); before = int(r.seen.sum()) if r is not None else 0; lazy = x.chunks is not None
        vals = sched(rng, lambda: x.values)
        o['vars'].append(dict(n=str(n), t=str(np.dtype(x.dtype).name), d=[str(d) for d in x.dims], v=canons(vals), lazy=lazy, chunks=[list(map(int, c)) for c in x.chunks] if lazy else [],
                              before=before, seen=r.seen.ravel().tolist() if r is not None else []))
    return o
def indomain(ds):
    for a in ds.axes:
        if isinstance(a, ta.Time):
            if isinstance(a, ta.Yearless) or 'year' not in a.auxarrays: return False
            if len(a) == 0 or not all(1 <= y <= 9999 for y in np.asarray(a.auxarrays['year'])): return False
            if not 1 <= int(np.asarray(a.startdate.get('year', 0)).ravel()[0]) <= 9999: return False
            if any(abs(d) > 90000 for d, _ in inst(a.values, a.units)): return False       # more nanoseconds than xarray can count
            if type(a).__name__ not in ('StandardTime', 'ModelTime365', 'ModelTime360'): return False
    return True
def trip(T, rng, ds):
    vs = []; recs = {}
    for v in ds.vars:
        if rng.random() < .5: v = Recorder(v); recs[''.join(c if c.isascii() and c.isalnum() else '_' for c in v.name)] = v
        vs.append(v)
    recs.update({'_' + n: v for n, v in recs.items() if n[0].isdigit()})
    ds = Dataset(vs, atts=ds.atts); before = encds(ds)
    for r in recs.values(): r.seen[...] = 0
    lim = lim_(rng); old = pyg.MAX_ARRAY_SIZE; pyg.MAX_ARRAY_SIZE = lim
    try: X, err = attempt(lambda: to_xarray(ds if len(vs) > 1 or rng.random() < .6 or ds.atts else vs[0]), 30)
    finally: pyg.MAX_ARRAY_SIZE = old
    O, err = attempt(lambda: encx(rng, X, recs), 60) if err is None else (None, err)
    T.emit(op='to', ds=before, aft=encds(ds), sh=[list(v.shape) for v in vs], lim=lim, obs=err or O)
    if err: return
    for n, x in X.data_vars.items():
        if rng.random() < .5 and x.ndim:
            rq, key = zip(*[sub(rng, k) for k in x.shape]); key = [np.array(k[0]) if isinstance(k, tuple) else k for k in key]
            P, e2 = attempt(lambda: sched(rng, lambda: x.isel({d: k for d, k in zip(x.dims, key)}).values), 30)
            T.emit(op='part', n=str(n), sh=list(x.shape), rq=[list(map(int, r)) for r in rq], v=canons(x.values), obs=e2 or dict(k='ok', dat=canons(P)))
    def back():
        if rng.random() < .3: X.load()
        R = from_xarray(X)
        return encds(R, True, limited(rng, lambda: [np.asarray(v.get()) for v in R.vars])), R
    R, e3 = attempt(back, 60)
    T.emit(op='back', ds=before, res=e3 or R[0], obs=e3 or dict(k='ok'))
    if e3: return
    parts(T, rng, R[1])
def gaps(rng, v):
    """points of every axis with uneven gaps, where the axis is long enough"""
    ixs = [sorted(rng.sample(range(n), rng.randint(2, n - 1))) if n > 2 else list(range(n)) for n in v.shape]
    if rng.random() < .5: [rng.shuffle(ix) for ix in ixs]
    return ixs, [(ix,) for ix in ixs]
def parts(T, rng, R):
    for v in R.vars:
        if v.dtype.kind in 'SUO' or rng.random() < .5: continue
        if any(a is not b and isinstance(a, type(b)) and type(b).__name__ not in ('NamedAxis', 'DummyAxis', 'NCDim') for a in v.axes for b in v.axes): continue
        if any(len(set(a.values.tolist())) < len(a) for a in v.axes if not isinstance(a, A.NonCoordinateAxis)): continue        # positions can't be told apart
        rq, key = gaps(rng, v) if rng.random() < .5 else zip(*[sub(rng, n) for n in v.shape]) if v.naxes else ((), ())
        P, e2 = attempt(lambda: limited(rng, lambda: np.asarray(v.slice[tuple(key)].get() if rng.random() < .5 else v[tuple(key)])), 30)
        T.emit(op='part', n=str(v.name), sh=list(v.shape), rq=[list(map(int, r)) for r in rq], v=canons(v.get()), obs=e2 or dict(k='ok', dat=canons(P)))
def other(T, rng, tmp, k):
    """a dataset made by xarray"""
    path, f, dims = c16.fileof(rng, tmp, k); dec = rng.random() < .5
    if any(v['d'].count(d) > 1 for v in f['vars'] for d in v['d']) or any(v['n'] in dims and v['d'] != [v['n']] for v in f['vars']): return
    import netCDF4
    with netCDF4.Dataset(path) as h: f['raw'] = {n: str(getattr(v, 'units', '')) for n, v in h.variables.items()}
    for v in f['vars']:
        if v['d'] == [v['n']] and dec:
            cal = [r['v'][1] for r in v['at'] if r['k'] == 'calendar']; q = [r for r in v['at'] if r['t'] == 'q']
            if cal and cal[0] in ('none', 'julian'): dec = False
            if q and (q[0]['v'][0]['d'][0] < 1583 or (cal and not q)): dec = False
            if any(r['k'] == 'units' and isinstance(r['v'][0], dict) for r in v['at']) and len([x for x in f['raw'][v['n']].split(' since ')[-1] if x in '-:T']) < 2 or (isinstance(q[0]['v'][0], dict) if q else False) and f['raw'][v['n']].endswith(' 10'): dec = False     # not a form
            if q and cal and cal[0] == '360_day' and q[0]['v'][0]['d'][2] > 30: dec = False
            # that xarray knows
        elif dec and any(r['k'] == 'units' and (r['t'] == 'q' or ' since ' in str(r['v'])) for r in v['at']): dec = False
    del f['raw']
    def go():
        X = xr.open_dataset(path, decode_cf=False, engine='netcdf4', chunks=None if rng.random() < .5 else {d: rng.randint(1, 2) for d in dims})
        try:
            if rng.random() < .5: X = X.load()
            Y = xr.decode_cf(X, decode_coords=False, mask_and_scale=False, concat_characters=False, decode_timedelta=False) if dec else X
            R = from_xarray(Y)
            D = encds(R, True, limited(rng, lambda: [np.asarray(v.get()) for v in R.vars]), nums)
            return D, R, X
        except: X.close(); raise
    D, err = attempt(go, 60)
    T.emit(op='from', f=f, o=dict(cf=True, ov=[], dt=[], vl=[], nm=[]), dec=dec, obs=err or D[0])
    if err is None: parts(T, rng, D[1]); D[2].close()
    os.remove(path)
def grid(T, rng, g):
    """the blocks of a shape under a limit"""
    sh = g['shape']; n = int(np.prod(sh, dtype=int)); d = np.arange(n, dtype=float).reshape(sh)
    v = Recorder(Var([A.NamedAxis(np.arange(k), 'abc'[i]) for i, k in enumerate(sh)], values=d, name='v'))
    old = pyg.MAX_ARRAY_SIZE; pyg.MAX_ARRAY_SIZE = g['lim']
    try: X, err = attempt(lambda: to_xarray(v), 30)
    finally: pyg.MAX_ARRAY_SIZE = old
    vals, err = attempt(lambda: sched(rng, lambda: X['v'].values), 30) if err is None else (None, err)
    T.emit(op='grid', sh=sh, lim=g['lim'], grid=[] if err else [list(map(int, c)) for c in X['v'].chunks], whole=bool(err is None and vals.shape == d.shape and (vals == d).all() and (v.seen == 1).all()), obs=err or dict(k='ok'))
def hollow(rng, ds):
    """a part of a dataset, at times an empty one"""
    vs = []
    for a in ds.axes:
        if not isinstance(a, (ta.Time, A.NonCoordinateAxis, A.DummyAxis)) and type(a) is not A.Axis and rng.random() < .3:
            try: return ds.slice(**{a.name: slice(0, 0)}) if hasattr(ds, 'slice') else Dataset([v.slice(**{'i_' + a.name: slice(0, 0)}) if v.hasaxis(a) else v for v in ds.vars], atts=ds.atts)
            except Exception: return ds
    return ds
def derived(rng, ds):
    vs = []
    for v in ds.vars:
        if v.dtype.kind == 'f' and rng.random() < .3: w = rng.choice([lambda: v * 2, lambda: v + v, lambda: v.sorted(*[a for a in v.axes if not isinstance(a, (A.NonCoordinateAxis, A.DummyAxis))][:1]) if v.naxes else v])(); w = w.rename(v.name); w.atts = dict(v.atts); vs.append(w)
        else: vs.append(v)
    return Dataset(vs, atts=ds.atts)
def drive(T, rng, tier, shard, nsh):
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix='c23_'); T.emit(op='begin')
    try:
        for g in behaviours(shard, nsh, 60 if tier == 'quick' else None): grid(T, rng, g)
        k = 0; want = 180 if tier == 'thorough' else 40
        while k < want:
            ds, _ = dataset(rng)
            if not indomain(ds): continue
            k += 1
            trip(T, rng, derived(rng, ds) if rng.random() < .4 else ds)
        for k in range(150 if tier == 'thorough' else 30): other(T, rng, tmp, k)
    finally: shutil.rmtree(tmp)
if __name__ == '__main__': main(drive)
