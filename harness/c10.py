from c09 import *
from gen import LazyVar, FileVar, variant
from pygeode import climat as CL
FN = {}
for kind, pre in (('clim', 'clim'), ('diurnal', 'diurnal'), ('daily', 'daily'), ('monthly', 'monthly'), ('yearly', 'yearly'), ('seasonal', 'seasonal')):
    for st in ('mean', 'nanmean', 'stdev', 'nanstdev', 'count'):
        FN[kind, st] = getattr(CL, {('clim', 'mean'): 'climatology', ('clim', 'nanmean'): 'nanclimatology'}.get((kind, st), pre + st))
def succ(cal, f, unit, k):
    """k units later"""
    return from_dict(dummy(cal).val_as_date(float(k), startdate=as_dict(f), units=unit, allfields=True)) if cal != 'yearless' else \
        [NOF, NOF] + from_dict(dummy(cal).val_as_date(float(k), startdate=as_dict(f), units=unit))[2:]
def series(rng, cal, keys):
    """dates as data come: regular with gaps, several years of a few days, or anything"""
    m = rng.choice(['reg', 'reg', 'reg', 'years', 'years', 'any'])
    if m == 'any': rows = [list(r) for r in rand_rows(rng, cal, (1,2,3,4,5,6) if cal != 'yearless' else (3,4,5,6), rng.choice([1, 2, 6, 20]))]
    elif m == 'reg':
        f = rand_date(rng, cal)
        if rng.random() < .6: f[3:] = [0, 0, 0]
        unit, k = rng.choice([('hours', 1), ('hours', 3), ('hours', 6), ('hours', 6), ('hours', 12), ('days', 1), ('days', 1), ('days', 5), ('days', 15), ('days', 30), ('days', 31), ('days', 91), ('days', 365), ('minutes', 30), ('minutes', 1)])
        n = rng.choice([1, 2, 4, 12, 30]); rows = [succ(cal, f, unit, k * i) for i in range(n)]
        if rng.random() < .4: rows = [r for r in rows if rng.random() < .7] or rows[:1]
    else:
        y0 = rand_year(rng); ny = rng.randint(2, 5); rows = []
        days = [rand_date(rng, cal) for _ in range(rng.randint(1, 5))]
        if cal == 'std' and rng.random() < .4: days += [[0, 2, 28, 0, 0, 0], [0, 2, 29, 0, 0, 0], [0, 3, 1, 0, 0, 0]]
        for y in range(y0, y0 + ny):
            for d in days:
                if rng.random() < .12: continue
                r = list(d)
                if cal == 'yearless': r[2] += 365 * (y - y0)
                else:
                    r[0] = y
                    if r[2] > mlen(cal, y, r[1]): continue
                rows.append(r)
        rows = rows or [rand_date(rng, cal)]
        if cal != 'yearless' and rng.random() < .5:
            for r in rows: r[3:] = [0, 0, 0]
        rows = uniq(sorted(rows))
    rows = [[r[i] if i + 1 in keys else NOF for i in range(6)] for r in rows]
    if rng.random() < .8: rows = uniq(rows)
    c = rng.random()
    if c < .1: rows.sort(reverse=True)
    elif c < .2: rng.shuffle(rows)
    return rows
def keyset(rng, cal):
    return rng.choice([(3,4,5,6), (3,4,5,6), (3,4), (3,)]) if cal == 'yearless' else rng.choice([(1,2,3,4,5,6)] * 5 + [(1,2,3), (1,2,3,4), (1,2), (2,3), (2,3,4), (2,), (1,), (4,), (1,2,3,4,5), (3,4)])
def variable(rng, a, f32=True):
    """a variable on the time axis with others around it; data in half units"""
    P = rng.choice([0, 0, 2, 3]); S = rng.choice([0, 0, 2, 3]); T_ = len(a)
    axes = ([pyg.Lat(np.arange(P) * 10.)] if P else []) + [a] + ([rng.choice([lambda n: pyg.Lon(np.arange(n) * 30.), lambda n: pyg.Pres(np.arange(n) * 100. + 100)])(S)] if S else [])
    shape = tuple(len(x) for x in axes); big = T_ > 25
    h = np.array([rng.randint(-20, 20) * (2 if big else 1) for _ in range(int(np.prod(shape)))])
    if rng.random() < .15: h[:] = h[0]
    dt = rng.choice(['float64'] * 4 + ['float32' if f32 else 'float64', 'int64', 'int32'])
    if dt[0] == 'i': h = h - h % 2
    d = (h / 2.).astype(dt).reshape(shape); dat = [int(x) for x in h]
    if dt[0] == 'f' and rng.random() < .5:
        m = np.array([rng.random() < rng.choice([.1, .5]) for _ in dat])
        if rng.random() < .2: m[:] = True
        d.ravel()[m] = np.nan; dat = [NOF if b else x for b, x in zip(m, dat)]
    v = pyg.Var(axes, values=d, name=rng.choice(['v', '']))
    c = rng.choice(['mem', 'lazy', 'file', 'perm'])
    if c == 'lazy': v = LazyVar(v)
    if c == 'file': v = FileVar(v)
    return v, dat, max(P, 1), max(S, 1), P > 0, S > 0
def others(v, a): return [enc_axis(x) for x in v.axes if not isinstance(x, ta.Time) and x.name != 'coef']
def sub(rng, n):
    """positions requested along one axis, and the index expression"""
    r = rng.random()
    if r < .45 or n == 0: return list(range(n)), slice(None)
    if r < .6: i = rng.randint(0, n - 1); j = rng.randint(i + 1, n); return list(range(i, j)), slice(i, j)
    if r < .7: return list(range(n))[::-1], slice(None, None, -1)
    if r < .8: st = rng.choice([2, 3, -2]); return list(range(n))[::st], slice(None, None, st)
    ix = [rng.randint(0, n - 1) for _ in range(rng.randint(1, n))]
    return ix, (ix,)
def limited(rng, fn):
    """under a memory limit that forces the data to be read in pieces"""
    old = pyg.MAX_ARRAY_SIZE; pyg.MAX_ARRAY_SIZE = rng.choice([old, old, 1, 7, 40, 200])
    try: return fn()
    finally: pyg.MAX_ARRAY_SIZE = old
def request(rng, R, rolep, roles):
    """read part of R: -> positions before, middle..., after (1-based) and the values"""
    ix, key = zip(*[sub(rng, len(x)) for x in R.axes])
    how = rng.random()
    if how < .5: arr = limited(rng, lambda: np.asarray(R.slice[tuple(key)].get()))
    else: arr = limited(rng, lambda: np.asarray(R[tuple(key)]))
    ix = [[i + 1 for i in x] for x in ix]
    arr = arr.reshape([len(x) for x in ix])
    if not rolep: ix.insert(0, [1])
    if not roles: ix.append([1])
    return ix, arr
def bins(T, rng, a, ea):
    kind, stat = rng.choice(list(FN)); v, dat, P, S, hp, hs = variable(rng, a, 'stdev' not in stat)
    # tenths are not exact in floating point
    fac = rng.choice([1, 1, .1, 1000., rng.uniform(1, 900)]) if v.dtype == np.float64 else 1
    if fac != 1: v = (v * fac)
    def go():
        R = FN[kind, stat](v); ti = R.whichaxis(ta.Time)
        if rng.random() < .15 and not hp and not hs: pass
        rq, arr = request(rng, R, hp, hs)
        if stat != 'count': arr = arr / fac
        if 'stdev' in stat: arr = arr.astype('d') ** 2
        return ok(dict(ax=enc(R.axes[ti]), oth=others(R, None), dat=rats(arr))), rq
    r, err = attempt(go)
    T.emit(op='bin', kind=kind, stat=stat, a=ea, P=P, S=S, dat=dat, oth=others(v, a), rq=r[1] if r else [], obs=err or r[0])
def trend(T, rng, a, ea):
    v, dat, P, S, hp, hs = variable(rng, a, False)
    n = len(a); secs = [p[0] * 86400. + p[1] for p in ea['back']]
    def go():
        R = CL.climtrend(v); ti = R.whichaxis(ta.Time); assert R.axes[-1].name == 'coef' and R.naxes == v.naxes + 1
        c = limited(rng, lambda: np.asarray(R.get())).reshape(P, len(R.axes[ti]), S, 2)
        ax = enc(R.axes[ti]); ks = [k - 1 for k in ax['keys']]; fit = np.full((P, n, S), np.nan)
        for t, d in enumerate(ea['d']):
            b = [i for i, o in enumerate(ax['d']) if all(o[k] == d[k] for k in ks)][0]
            fit[:, t] = c[:, b, :, 0] + c[:, b, :, 1] * secs[t]
        return ok(dict(ax=ax, oth=others(R, None), fit=[NOF if x != x or abs(x) > 1e5 else int(round(x * 2000)) for x in fit.ravel()]))
    r, err = attempt(go)
    T.emit(op='trend', kind='clim', a=ea, P=P, S=S, dat=dat, oth=others(v, a), obs=err or r)
    if rng.random() < .6:
        def go():
            rc = rng.random() < .5
            D = CL.detrend(v, return_clim=rc)
            if rc: D, C = D
            y = limited(rng, lambda: np.asarray(D.transpose(*[x.name for x in v.axes]).get()))
            return ok(dict(ax=enc(D.axes[D.whichaxis(ta.Time)]), oth=sorted_oth(D, v), bins=enc(CL.Clim.get_outtime(a))['d'], dev=[NOF if x != x or abs(x) > 1e5 else int(round(x * 2000)) for x in y.ravel()]))
        r, err = attempt(go)
        T.emit(op='detrend', kind='clim', a=ea, P=P, S=S, dat=dat, oth=others(v, a), obs=err or r)
def sorted_oth(D, v): return [enc_axis(D.getaxis(x.name)) for x in v.axes if not isinstance(x, ta.Time)]
def tseries(rng, cal):
    y0 = rand_year(rng); rows = []
    days = [rand_date(rng, cal) for _ in range(rng.randint(1, 3))]
    for d in days:
        if cal != 'yearless' and rng.random() < .5: d[3:] = [0, 0, 0]
    ny = rng.randint(2, 5)
    for y in range(y0, y0 + ny):
        for d in days:
            if rng.random() < .2 or cal == 'yearless': continue
            r = [y] + d[1:]; r[2] = min(r[2], mlen(cal, y, r[1])) if r[2] < 29 or r[1] != 2 else r[2]
            if r[2] <= mlen(cal, y, r[1]): rows.append(r)
    rows = uniq(sorted(rows)) or [rand_date(rng, cal)]
    if rng.random() < .2: rng.shuffle(rows)
    return rows
def drive(T, rng, tier, shard, nsh):
    T.emit(op='begin')
    for b in behaviours(shard, nsh, 40):
        a = build(rng, b['cal'], b['d']); ea = enc(a)
        for _ in range(3): bins(T, rng, a, ea)
    for i in range(220 if tier == 'quick' else 3000):
        if i % 20 == 0: T.emit(op='begin')
        cal = rng.choice(['std'] * 3 + ['365', '360', 'yearless'])
        rows = series(rng, cal, keyset(rng, cal)); a = build(rng, cal, rows); ea = enc(a)
        for _ in range(4): bins(T, rng, a, ea)
        if rng.random() < .6:
            cal = rng.choice(['std', 'std', '365', '360'])
            rows = tseries(rng, cal); st = list(rows[0]); st[0] += rng.choice([0, 0, -1, -30]); a = build(rng, cal, rows, start=rng.choice([None, st]) if abs(rows[0][0] - 1) < 400 else st)
            trend(T, rng, a, enc(a))
if __name__ == '__main__': main(drive)
