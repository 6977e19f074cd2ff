"""C15: datasets saved in every way a file can be written, and opened again."""
from c10 import *
from store import *
def roundtrip(T, rng, tmp, k):
    cf = rng.random() < .85
    ds, pool = dataset(rng)
    if not cf and (any(not v.name.isascii() for v in ds.vars) or any(isinstance(a, type(b)) for a in ds.axes for b in ds.axes if a is not b and type(b) not in (A.NamedAxis, A.DummyAxis))): return     # related axes are only kept apart by the conventions
    mod = rng.choice(['netcdf4', 'netcdf4', 'netcdf', '']); ver = rng.choice([3, 4]); comp = rng.random() < .2
    v3 = ver == 3 and not comp
    kw = {}
    if mod or rng.random() < .7: kw['version'] = ver
    else: v3 = False
    if comp: kw['compress'] = True
    if rng.random() < .3: kw['unlimited'] = rng.choice(ds.axes).name if ds.axes else None
    if v3 and kw.get('unlimited') and any(a.name == kw['unlimited'] for v in ds.vars for a in v.axes[1:]): del kw['unlimited']
    if not cf: kw['cfmeta'] = False
    if mod: kw['format'] = mod if rng.random() < .5 else MODS[mod]
    vs = list(ds.vars)
    ok1 = lambda v: v.dtype.name in ('float64', 'float32', 'int32', 'int16', 'int8')
    if v3 and mod != 'netcdf' and (not all(ok1(v) for v in vs) or any(a.values.dtype.name not in ('float64', 'float32', 'int32') for a in ds.axes) or any(x.dtype.kind in 'iu' and x.dtype.itemsize > 4 for a in ds.axes for x in map(np.asarray, a.auxarrays.values()))):
        kw['version'] = 4; v3 = False      # not representable in that version
    if v3 and mod != 'netcdf' and any(big(x) for d in [ds] + vs + list(ds.axes) for x in d.atts.values()): kw['version'] = 4; v3 = False
    packed = []
    if cf and rng.random() < .25:
        cand = [v for v in vs if v.dtype.kind in 'fi' and v.dtype.itemsize in (2, 4, 8) and v.size]
        if cand:
            if len(cand) == len(vs) and rng.random() < .5: kw['pack'] = True; packed = vs
            else: packed = rng.sample(cand, rng.randint(1, len(cand))); kw['pack'] = [v.name for v in packed]
            for v in packed:
                if not tame(v): return
    src = [v for v in packed]
    groups = mod == 'netcdf4' and not kw.get('unlimited') and cf and not packed and rng.random() < .2
    save_ds = ds
    if len(vs) == 1 and rng.random() < .4: save_ds = vs[0]
    elif rng.random() < .3 and not ds.atts: save_ds = vs
    if groups:
        ds2, _ = dataset(rng, small=True); save_ds = {'g1': ds, 'other group' if rng.random() < .3 else 'g2': ds2}
        if v3: kw['version'] = 4; v3 = False
    before = encds(ds, cf)
    if isinstance(save_ds, Var): before['at'] = []
    name = '%s/f%d%s' % (tmp, k, '.nc' if mod == '' or rng.random() < .7 else '.dat')
    def go():
        limited(rng, lambda: pyg.save(name, save_ds, **kw))
        fmt = mod or 'netcdf4'
        if mod == 'netcdf' and rng.random() < .4: fmt = 'netcdf4'
        elif mod == 'netcdf4' and not groups and rng.random() < .3 and plain(ds): fmt = 'netcdf'
        r = pyg.open(name, format=fmt, **({} if cf else dict(cfmeta=False)))
        if groups: return r
        return encds(r, cf, limited(rng, lambda: [np.asarray(v.get()) for v in r.vars])), r
    r, err = attempt(go, 30)
    after = encds(ds, cf)
    if isinstance(save_ds, Var): after['at'] = []
    if os.path.exists(name) and not groups and err is None and rng.random() < .5: pass
    if groups:
        T.emit(op='groups', want=sorted(save_ds), got=sorted(r) if r else [], obs=err or dict(k='ok'))
        for g, d in ((g, d) for g, d in save_ds.items() if r and g in r):
            b = encds(d, cf); res, e2 = attempt(lambda: encds(r[g], cf))
            T.emit(op='round', ds=b, aft=b, cf=cf, v3=v3, pack=[] if not packed or d is not ds else packs(packed, r[g]), res=e2 or res, obs=e2 or dict(k='ok'), opt=str(kw))
    else:
        T.emit(op='round', ds=before, aft=after, cf=cf, v3=v3, pack=packs(packed, r[1] if r else None), res=err or r[0], obs=err or dict(k='ok'), opt=mod + str(kw))
    if os.path.exists(name): os.remove(name)
def replay(T, rng, g, tmp, k):
    """a dataset of the specification, through a file"""
    ds = gdata(g['ds']); mod = ['netcdf4', 'netcdf'][k % 2]; ver = 3 + k // 2 % 2; name = '%s/g%d.nc' % (tmp, k)
    if mod == 'netcdf4' and any(a.values.dtype == 'int64' for a in ds.axes): ver = 4       # not in that version
    before = encds(ds)
    def go():
        pyg.save(name, ds, format=mod, version=ver)
        r = pyg.open(name, format=mod if k % 3 else 'netcdf4')
        return encds(r, True, limited(rng, lambda: [np.asarray(v.get()) for v in r.vars]))
    r, err = attempt(go, 30)
    T.emit(op='round', ds=before, aft=encds(ds), cf=True, v3=ver == 3, pack=[], res=err or r, obs=err or dict(k='ok'), opt='replayed ' + mod)
    if os.path.exists(name): os.remove(name)
def drive(T, rng, tier, shard, nsh):
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix='c15_'); T.emit(op='begin')
    try:
        gen = behaviours(shard, nsh)
        for k, g in enumerate(gen): replay(T, rng, g, tmp, k)
        for k in range(500 if tier == 'thorough' else 110): roundtrip(T, rng, tmp, 10000 + k)
    finally: shutil.rmtree(tmp)
if __name__ == '__main__': main(drive)
