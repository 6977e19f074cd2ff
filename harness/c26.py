from cal import *
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
DIRS = list('bBdDHIjmMpPSyaY') + ['$']

def mkaxis(rng, cal, start=None, n=1):
    st = start or rand_date(rng, cal)
    unit = rng.choice(list(UF))
    return CALS[cal](values=list(range(n)), startdate=as_dict(st), units=unit), st, unit

def fmt(T, rng, cal):
    start = rand_date(rng, cal); unit = rng.choice(list(UF))
    off = rand_off(rng, unit)
    keys = list(start)
    if rng.random() < .3:
        drop = [i for i in range(6) if rng.random() < .4]
        keys = [NOF if i in drop else k for i, k in enumerate(keys)]
    if all(k == NOF for k in keys): return
    parts = []
    for _ in range(rng.randint(1, 6)):
        if rng.random() < .4: parts.append(dict(dir=False, s=rng.choice([' ', ', ', '-', ':', 'day ', ' of ', '/'])))
        c = rng.choice(DIRS)
        if cal == 'yearless': c = rng.choice(['d', 'D', 'H', 'I', 'M', 'p', 'P', 'S', '$', 'Y', 'm', 'b', 'y', 'a', 'B'])
        parts.append(dict(dir=True, s=c))
        parts.append(dict(dir=False, s=rng.choice([' ', '.', ':', ''])))
    text = ''.join(('$' if p['s'] == '$' else '${%s}' % p['s'] if rng.random() < .3 else '$' + p['s']) if not p['dir'] or True and p['s'] != '$' and p['dir'] else p['s'] for p in parts) if False else ''
    for i, p in enumerate(parts):
        if not p['dir']: text += p['s']
        elif p['s'] == '$': text += '$$'
        else: text += '${%s}' % p['s'] if (rng.random() < .2 or (i + 1 < len(parts) and parts[i + 1]['s'] == '')) else '$' + p['s']
    def go():
        if keys == start: ax = CALS[cal](values=[0, 1], startdate=as_dict(start), units=unit)
        else:   # an axis without some of the components
            ax = CALS[cal](units=unit, **arrays([keys, keys]))
        return ax.formatvalue(off / UF[unit] if off % UF[unit] or rng.random() < .5 else off // UF[unit], text)
    r, err = attempt(go)
    T.emit(op='fmt', cal=cal, start=keys, keys=keys, off=[off // 86400, off % 86400], fmt=parts, obs=err or dict(k='ok', s=r))

def sfmt(T, rng):
    cal = rng.choice(['std', '365'])
    cls = {'std': ta.SeasonalStandardTime, '365': ta.SeasonalModelTime365}[cal]
    start = rand_date(rng, cal); unit = rng.choice(list(UF)); off = rand_off(rng, unit)
    def go(): return cls(values=[0, 1], startdate=as_dict(start), units=unit).formatvalue(off / UF[unit], '$s $Y $y')
    r, err = attempt(go)
    T.emit(op='sfmt', cal=cal, start=start, off=[off // 86400, off % 86400], obs=err or dict(k='ok', s=r))

def wild(rng, cal):
    """components that may not exist"""
    f = rand_date(rng, cal)
    if cal != 'yearless':
        f[0] = abs(f[0])
        if rng.random() < .3: f[1] = rng.choice([0, 13, 2, 12, 99, 1]) if rng.random() < .5 else f[1]
        if rng.random() < .4: f[2] = rng.choice([0, 28, 29, 30, 31, 32, 45])
    else: f[2] = abs(f[2])
    if rng.random() < .2: f[3] = rng.choice([24, 25, 23, 0])
    if rng.random() < .2: f[4] = rng.choice([60, 61, 59])
    if rng.random() < .2: f[5] = rng.choice([60, 99, 59])
    return f

def text_of(rng, cal, f):
    """a documented way of writing components f -> (text, components written, day of year)"""
    lv = rng.randint(0, 2)
    g = list(f)
    if lv < 2: g[5] = NOF
    if lv < 1: g[4] = g[3] = NOF
    hm = '' if lv == 0 else '%02d:%02d' % (f[3], f[4]) if lv == 1 else '%02d:%02d:%02d' % (f[3], f[4], f[5])
    if cal == 'yearless':
        if rng.random() < .5: return (hm + ' ' if hm else '') + '%d' % f[2], g, NOF
        return '%d' % f[2] + ('T' + hm if hm else ''), g, NOF
    k = rng.random()
    if k < .4 and 1 <= f[1] <= 12:
        m = rng.choice([str.lower, str.upper, str.title])(MON[f[1] - 1])
        if hm and f[3] < 10 and rng.random() < .3: hm = hm[1:]
        return (hm + ' ' if hm else '') + ('%d' if rng.random() < .7 else '%02d') % f[2] + ' %s %d' % (m, f[0]), g, NOF
    if k < .6:    # year and day of the year
        doy = rng.choice([0, 1, 59, 60, 61, 365, 366, 367, 360, 361, rng.randint(1, 366)])
        g[1] = g[2] = NOF
        return '%d-%03d' % (f[0], doy) + ('T' + hm if hm else ''), g, doy
    if k < .7: return '%d' % f[0], [f[0]] + [NOF] * 5, NOF
    if k < .8: return '%d-%02d' % (f[0], f[1]), f[:2] + [NOF] * 4, NOF
    return '%d-%02d-%02d' % (f[0], f[1], f[2]) + ('T' + hm if hm else ''), g, NOF

def garble(rng, cal, s):
    """not one of the documented forms"""
    bad = ['', 'abc', 'Jan', '1/2/2001', '2001/02/03', '2001-2-3', '2001-02-03 12:00', '2001-02-03T12', '2001-02-03T12:00:', '12 Smarch 2001', '1 Foo 2001', '1 2001', 'Jan 2001', '1 Jan', '1 Jan 20x1', '2001-02-', '1:2 1 Jan 2001', '12:00, 1 Jan 2001',
           'y5', '-5', '2001-02-03T12:00:00Z', '1.5', ' ', '2001-1', '01-Jan-2001', '12:00:00:00 1 Jan 2001', '1 Jan 2001 12:00', '2001-0203', '2001-02-03T1:00']
    if cal == 'yearless': bad = ['', 'abc', '1 Jan 2001', '5T', '5T6:00', '12:00', 'day 5', '5.5', '-3x', '12:00:0 5', '5 12:00', '2001-05-01']
    k = rng.random()
    if k < .7: return rng.choice(bad)
    if k < .85: return s + rng.choice(['x', ' ', ':', '-'])
    return rng.choice(['x', ':', '@']) + s

def parse(T, rng, cal):
    ax, start, unit = mkaxis(rng, cal)
    f = wild(rng, cal) if rng.random() < .6 else [abs(x) if x != NOF else x for x in rand_date(rng, cal)]
    s, g, doy = text_of(rng, cal, f)
    form = True
    if rng.random() < .2:
        s = garble(rng, cal, s); form = False; g = [NOF] * 6; doy = NOF
    def go():
        if rng.random() < .4: return inst(ax.date_as_val(ax.str_as_date('time', s)), unit)[0]
        return inst(ax.str_as_val('time', s), unit)[0]
    r, err = attempt(go)
    T.emit(op='parse', cal=cal, start=start, f=g, doy=doy, form=form, text=s, obs=err or dict(k='ok', v=r))

def rnd(T, rng, cal):
    """print, then read the text"""
    ax, start, unit = mkaxis(rng, cal)
    if cal == 'yearless': f, res = rng.choice([('$d', [3]), ('$H:$M $d', [3, 4, 5]), ('$H:$M:$S $d', [3, 4, 5, 6]), ('${d}T$H:$M:$S', [3, 4, 5, 6])])
    else: f, res = rng.choice([('$d $b $a', [1, 2, 3]), ('$D $b $a', [1, 2, 3]), ('$H:$M $d $b $a', [1, 2, 3, 4, 5]), ('$H:$M:$S $d $b $a', [1, 2, 3, 4, 5, 6]), ('$a', [1])])
    off = None
    for _ in range(20):
        o = rand_off(rng, unit)
        ser = 0
        if cal != 'yearless':
            d = ax.val_as_date(o / UF[unit], allfields=True)
            if int(d['year']) < 0: continue
        elif int(ax.val_as_date(o / UF[unit], allfields=True)['day']) < 0: continue
        off = o; break
    if off is None: return
    v = off / UF[unit]
    def go():
        s = ax.formatvalue(v, f)
        return inst(ax.str_as_val('time', s), unit)[0]
    r, err = attempt(go)
    T.emit(op='round', cal=cal, start=start, off=[off // 86400, off % 86400], res=res, text=f, obs=err or dict(k='ok', v=r))

def sel(T, rng, cal):
    n = rng.choice([1, 4, 8]); unit = rng.choice(['days', 'hours', 'seconds', 'minutes'])
    start = rand_date(rng, cal, rng.random() < .5)
    if cal != 'yearless': start[0] = abs(start[0]) + 1
    step = rng.choice([86400, 86400 * 20, 43200, 3600 * 6])
    order = list(range(n))
    if rng.random() < .3: order.reverse()
    secs = [i * step for i in order]
    fs = [[abs(x) if i == 2 and x != NOF else x for i, x in enumerate(rand_date(rng, cal, False))] for _ in range(2)]
    def go():
        ax = CALS[cal](values=np.array(secs) / UF[unit], startdate=as_dict(start), units=unit)
        ds = rows(ax.auxarrays, n)
        if any(x < 0 for d in ds for x in d if x != NOF): return None
        v = __import__('pygeode').Var((ax,), values=np.arange(float(n)))
        # strings near the axis
        pick = [list(rng.choice(ds)) for _ in range(2)]
        mode = rng.choice(['one', 'range', 'range', 'list'])
        if mode == 'range' and cal != 'yearless':
            for p in pick:
                if rng.random() < .5: p[2] = rng.randint(1, 28)
        def txt(d):
            if cal == 'yearless': return '%02d:%02d:%02d %d' % (d[3], d[4], d[5], d[2])
            k = rng.random()
            if k < .5: return '%d-%02d-%02dT%02d:%02d:%02d' % tuple(d)
            return '%02d:%02d:%02d %d %s %d' % (d[3], d[4], d[5], d[2], MON[d[1] - 1], d[0])
        if mode == 'one': q = [pick[0]]; key = dict(time=txt(pick[0]))
        elif mode == 'range': q = pick; key = dict(time=(txt(pick[0]), txt(pick[1])))
        else: q = [d for d in ds if rng.random() < .5] or [ds[0]]; key = dict(l_time=[txt(d) for d in q])
        w = v(**key) if rng.random() < .6 else None
        ix = [int(x) + 1 for x in w.get().ravel()] if w is not None else [i + 1 for i, x in enumerate(secs) if any(abs(x / UF[unit] - y) * UF[unit] < .5 for y in ax(**key).values.tolist())]
        return dict(k='ok', ix=ix), q, mode, ds, key
    r, err = attempt(go)
    if r is None and not err: return
    T.emit(op='sel', cal=cal, **(dict(sel=r[1], mode=r[2], ds=r[3], text=repr(r[4])) if r else dict(sel=[], mode='one', ds=[])), obs=err or r[0])

def drive(T, rng, tier, shard, nsh):
    for i in range(450 if tier == 'quick' else 4000):
        if i % 20 == 0: T.emit(op='begin')
        cal = rng.choice(['std', 'std', '365', '360', 'yearless'])
        fmt(T, rng, cal); parse(T, rng, cal); rnd(T, rng, cal); sel(T, rng, cal)
        if i % 4 == 0: sfmt(T, rng)
if __name__ == '__main__': main(drive)
