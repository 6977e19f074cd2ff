from cal import *

def conv(T, rng, cal, start):
    ax = dummy(cal)
    unit = rng.choice(list(UF))
    whole = rng.random() < .4
    secs = [rand_off(rng, unit, whole) for _ in range(rng.choice([1, 3, 8]))]
    if rng.random() < .3:      # successive days
        b = rng.randint(-800, 800) * 86400 + rng.choice([0, 3600, 86399]); secs = [b + 86400 * i for i in range(12)]
    keys = list(F6 if cal != 'yearless' else F6[2:])
    st = list(start)
    if rng.random() < .3:
        for i in range(6):
            if rng.random() < .4: st[i] = NOF
    if cal == 'yearless': st[0] = st[1] = NOF
    al = rng.random() < .4 or all(x == NOF for x in st)
    rt = al or all(x != NOF for x in st[(2 if cal == 'yearless' else 0):])
    scalar = len(secs) == 1 and rng.random() < .5
    def go():
        v = values(rng, secs, unit)
        d = ax.val_as_date(v[0] if scalar else (list(v) if rng.random() < .2 else v), startdate=as_dict(st), units=unit, allfields=al)
        fs = [from_dict(d)] if scalar else rows(d, len(secs))
        if al:
            if sorted(d) != sorted(F6): raise Exception('missing fields')
        if scalar and any(hasattr(x, '__len__') for x in d.values()): raise Exception('arrays for a scalar')
        dd = d if cal != 'yearless' else {k: d[k] for k in d if k in F6[2:]}
        back = ax.date_as_val(dd, startdate=as_dict(st), units=unit) if rt else []
        if scalar and rt and hasattr(back, '__len__'): raise Exception('array for a scalar')
        if rng.random() < .2 and not scalar and rt:     # other unit
            u2 = rng.choice(list(UF)); return fs, inst(ax.date_as_val(dd, startdate=as_dict(st), units=u2), u2)
        return fs, inst(back, unit)
    r, err = attempt(go)
    T.emit(op='conv', cal=cal, start=st, unit=unit, offs=pairs(secs), all=al, rt=rt, obs=err or dict(k='ok', d=r[0], back=r[1]))

def over(rng, cal, f):
    """components out of range"""
    f = list(f)
    for i in range(6):
        if f[i] == NOF: continue
        if rng.random() < .35:
            if i == 1 and cal in ('std', '365', '360'): f[i] += rng.choice([12, -12, 24, -13, 1, -1, 13, 7])
            elif i == 2: f[i] += rng.choice([30, -31, 400, -3, 1])
            elif i >= 3: f[i] += rng.choice([24, -24, 60, -60, 100, -1, 1])
        elif i > 0 and rng.random() < .12: f[i] = NOF
    return f

def asval(T, rng, cal, start):
    ax = dummy(cal); unit = rng.choice(list(UF)); n = rng.choice([1, 2, 5])
    f0 = over(rng, cal, rand_date(rng, cal))
    fs = [f0] + [[NOF if a == NOF else b for a, b in zip(f0, over(rng, cal, rand_date(rng, cal)))] for _ in range(n - 1)]
    fs = [[(D if a == NOF and f0[i] != NOF else a) for i, (a, D) in enumerate(zip(f, (0, 1, 1, 0, 0, 0)))] for f in fs]
    if all(x == NOF for x in f0): return
    scalar = n == 1 and rng.random() < .6
    def go():
        d = as_dict(fs[0]) if scalar else arrays(fs, dt=rng.choice(['int32', 'int64', 'float64']))
        d0 = {k: np.array(v) for k, v in d.items()}
        how = rng.random()
        if how < .3 and scalar: v = tu.date_diff(ax, as_dict(start), d, unit)
        else: v = ax.date_as_val(d, startdate=as_dict(start), units=unit)
        if any(not np.array_equal(d0[k], d[k]) for k in d0): raise Exception('changed its argument')
        return inst(v, unit)
    r, err = attempt(go)
    T.emit(op='asval', cal=cal, start=start, unit=unit, f=fs, obs=err or dict(k='ok', back=r))

def axis(T, rng, cal, start):
    unit = rng.choice(list(UF)); n = rng.choice([1, 2, 5])
    st = list(start)
    for i in range(6):
        if rng.random() < .3: st[i] = NOF
    how = rng.choice(['values', 'fields', 'encoded'])
    if cal == 'yearless' and how == 'encoded': how = 'values'
    secs = [rand_off(rng, unit) for _ in range(n)]; fs = []
    if how == 'fields':
        fs = [rand_date(rng, cal) for _ in range(n)]
        drop = [i for i in range(6) if rng.random() < .3 and fs[0][i] != NOF]
        if len(drop) < sum(x != NOF for x in fs[0]):
            for f in fs:
                for i in drop: f[i] = NOF
        if rng.random() < .5: st = [NOF] * 6
    elif how == 'encoded':
        fs = [rand_date(rng, cal, False) for _ in range(n)]
        for f in fs: f[0] = abs(f[0])
        enc = rng.choice(['yyyymmdd', 'yyyymmddhh', 'YYYYMMDD'])
        if enc == 'yyyymmddhh':
            for f in fs: f[3] = rng.randint(0, 23)
        if rng.random() < .6: st = [NOF] * 6
    def go():
        if how == 'values': ax = CALS[cal](values=values(rng, secs, unit), startdate=as_dict(st), units=unit)
        else:
            kw = dict(units=unit)
            if any(x != NOF for x in st): kw['startdate'] = as_dict(st)
            if how == 'encoded':
                v = [f[0] * 10000 + f[1] * 100 + f[2] for f in fs]
                if enc == 'yyyymmddhh': v = [a * 100 + f[3] for a, f in zip(v, fs)]
                ax = CALS[cal](values=v, datefmt=enc, **kw)
            else: ax = CALS[cal](**dict(arrays(fs), **kw))
        if rng.random() < .2: ax = ax[:] if hasattr(ax, '__getitem__') and False else ax
        for k in ax.auxarrays: assert k in ax.allowed_fields
        return dict(k='ok', d=rows(ax.auxarrays, len(ax)), start=from_dict(ax.startdate), back=inst(ax.values, ax.units), unit=ax.units)
    r, err = attempt(go)
    T.emit(op='axis', cal=cal, how='values' if how == 'values' else 'fields', start=st, unit=unit, offs=pairs(secs), f=fs, obs=err or r)

def small(T, rng, cal):
    if cal != 'yearless':
        y, m = rand_year(rng), rng.randint(1, 12)
        def go(): return int(dummy(cal).days_in_month(y, m))
        r, err = attempt(go)
        T.emit(op='dim', cal=cal, y=y, m=m, obs=err or dict(k='ok', v=r))
        d = rand_date(rng, cal)
        def go():
            ax = CALS[cal](values=[0], startdate=as_dict(d), units=rng.choice(list(UF)))
            return int(ax.formatvalue(0, '$j'))
        r, err = attempt(go)
        T.emit(op='doy', cal=cal, d=d, obs=err or dict(k='ok', v=r))
        if cal in ('std', '365'):
            st = rand_date(rng, cal); st[rng.choice([1, 1, 1])] = rng.choice([0, 13, -1, 14])
            secs = [0, 86400 * 40]
            def go(): return CALS[cal](values=[0, 40], startdate=as_dict(st), units='days').auxarrays['month'].tolist()
            r, err = attempt(go)
            T.emit(op='badstart', cal=cal, start=st, obs=err or dict(k='ok', v=r))

def season(T, rng, cal, start):
    cls = {'std': ta.SeasonalStandardTime, '365': ta.SeasonalModelTime365}[cal]
    unit = rng.choice(list(UF)); n = rng.choice([1, 2, 6, 12])
    secs = [rand_off(rng, unit) for _ in range(n)]
    st = list(start)
    for i in range(1, 6):
        if rng.random() < .3: st[i] = NOF
    def enc(a): return [[int(y), int(s)] for y, s in zip(np.asarray(a.year).ravel(), np.asarray(a.season).ravel())]
    def go():
        ax = cls(values=values(rng, secs, unit), startdate=as_dict(st), units=unit)
        return dict(k='ok', d=enc(ax)), ax
    r, err = attempt(go)
    T.emit(op='season', cal=cal, start=st, unit=unit, offs=pairs(secs), obs=err or r[0])
    fs = [[rng.randint(1990, 2012), rng.randint(1, 4)] for _ in range(n)]
    def go():
        ax = cls(year=np.array([f[0] for f in fs], 'int32'), season=np.array([f[1] for f in fs], 'int32'), units=unit)
        return dict(k='ok', d=enc(ax), back=inst(ax.values, ax.units))
    r, err = attempt(go)
    T.emit(op='seasonax', cal=cal, f=fs, obs=err or r)

def drive(T, rng, tier, shard, nsh):
    T.emit(op='begin')
    for b in behaviours(shard, nsh, 60):      # dates enumerated by the specification
        start = [int(x) for x in b['d']]
        conv(T, rng, b['cal'], start); axis(T, rng, b['cal'], start)
    for i in range(500 if tier == 'quick' else 5000):
        if i % 20 == 0: T.emit(op='begin')
        cal = rng.choice(['std', 'std', '365', '360', 'yearless'])
        start = rand_date(rng, cal)
        conv(T, rng, cal, start); asval(T, rng, cal, start); axis(T, rng, cal, start); small(T, rng, cal)
        if cal in ('std', '365'): season(T, rng, cal, start)
if __name__ == '__main__': main(drive)
