from cal import *
import pygeode as pyg
NF = 99     # no limit on the resolution
SEAS = {'S-std': ta.SeasonalStandardTime, 'S-365': ta.SeasonalModelTime365}
ALLC = dict(CALS, **SEAS)
TAG = {c: k for k, c in ALLC.items()}
FS = ('year', 'season')
def names(cal): return FS if cal in SEAS else F6
UNITS = list(UF)
def enc(ax):
    """a time axis as the specification sees it"""
    cal = TAG[type(ax)]; n = len(ax); nm = names(cal)
    for k in ax.auxarrays: assert k in nm, 'component ' + k
    ks = [i + 1 for i, k in enumerate(nm) if k in ax.auxarrays]
    d = []
    for j in range(n): d.append([int(np.asarray(ax.auxarrays[nm[i]])[j]) if i < len(nm) and nm[i] in ax.auxarrays else NOF for i in range(6)])
    for k in ax.auxarrays: assert len(np.asarray(ax.auxarrays[k])) == n, 'length of field'
    assert ax.units == ax.auxatts['units'] and ax.startdate == ax.auxatts['startdate'], 'unit or start date attribute'
    return dict(cal=cal, keys=ks, d=d, start=[int(np.asarray(ax.startdate[k]).ravel()[0]) if k in ax.startdate else NOF for k in F6], unit=ax.units, back=inst(ax.values, ax.units))
KEYSETS = [(1,2,3,4,5,6)] * 4 + [(1,2,3)] * 2 + [(1,2,3,4), (1,2), (1,), (2,3), (2,3,4), (2,), (4,), (3,), (1,3), (2,4), (1,2,3,4,5), (4,5,6), (1,4)]
def rand_rows(rng, cal, keys, n):
    """dates, mostly near each other so that pairs meet"""
    if cal in SEAS:
        y = rand_year(rng); return [[(y + rng.randint(0, 2)) if 1 in keys else NOF, rng.randint(1, 4) if 2 in keys else NOF] + [NOF] * 4 for _ in range(n)]
    b = rand_date(rng, cal); out = []
    if cal == 'yearless' and rng.random() < .2: b[2] += 200000
    for _ in range(n):
        f = list(b); m = rng.random()
        if m < .3: f = rand_date(rng, cal)
        else:
            for i in range(6):
                if f[i] == NOF or rng.random() < .5: continue
                f[i] = [f[i] + rng.choice([-1, 0, 1, 4]), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 6, 12, 18, 23]), rng.choice([0, 30, 59]), rng.choice([0, 1, 59])][i]
                if i == 2 and cal == 'yearless': f[i] = b[i] + rng.randint(-3, 3)
            if cal != 'yearless':
                f[2] = min(f[2], mlen(cal, f[0], f[1]))
                if rng.random() < .08 and cal == 'std': f[0] -= f[0] % 400; f[1], f[2] = 2, 29
        out.append([f[i] if (i + 1) in keys else NOF for i in range(6)])
    return out
def build(rng, cal, rows, unit=None, start=None):
    """an axis with these dates, written in some unit from some origin"""
    n = len(rows); keys = [i for i in range(6) if rows[0][i] != NOF]; nm = names(cal)
    kw = dict(units=unit or rng.choice(UNITS))
    if start is None and rng.random() < .6: start = rand_start(rng, cal)
    if start is not None: kw['startdate'] = as_dict(start)
    flds = {nm[i]: np.array([r[i] for r in rows], 'int32') for i in keys}
    if cal not in SEAS and start is not None and len(keys) == (4 if cal == 'yearless' else 6) and rng.random() < .5 and kw['units'] == 'seconds' and max(abs(r[0 if cal != 'yearless' else 2]) for r in rows) < 10000:
        ax = CALS[cal](values=[0], **kw)
        return CALS[cal](values=ax.date_as_val(flds), **kw)
    return ALLC[cal](**dict(flds, **kw))
def rand_start(rng, cal):
    c = dict([('S-std', 'std'), ('S-365', '365')]).get(cal, cal)
    s = rand_date(rng, c)
    for i in range(6):
        if rng.random() < .25: s[i] = NOF
    return s if any(x != NOF for x in s) else rand_date(rng, c)
def uniq(rows):
    out = []
    for r in rows:
        if r not in out: out.append(r)
    return out
def axis(rng, cal=None, keys=None, n=None, dup=.2):
    cal = cal or rng.choice(['std'] * 3 + ['365', '360', 'yearless', 'S-std', 'S-365'])
    if keys is None:
        keys = rng.choice(KEYSETS)
        if cal == 'yearless': keys = rng.choice([(3,4,5,6), (3,4,5,6), (3,), (3,4), (4,)])
        if cal in SEAS: keys = rng.choice([(1,2), (1,2), (2,)])
    rows = rand_rows(rng, cal, keys, n or rng.choice([1, 2, 3, 5, 8]))
    if rng.random() > dup: rows = uniq(rows)
    m = rng.random()
    if m < .6: rows.sort()
    elif m < .8: rows.sort(reverse=True)
    return cal, rows
def partner(rng, cal, rows):
    """another list of dates: the same ones, some of them, more, changed or coarser"""
    rows = [list(r) for r in rows]; m = rng.choice(['same', 'same', 'sub', 'perm', 'more', 'one', 'keys', 'cal', 'other', 'over', 'finer', 'apart'])
    ks = [i for i in range(6) if rows[0][i] != NOF]
    if m == 'sub': rows = rng.sample(rows, rng.randint(1, len(rows)))
    elif m == 'perm': rng.shuffle(rows)
    elif m in ('more', 'over'):
        if m == 'over': rows = rows[rng.randint(0, len(rows) - 1):]
        for r in rand_rows(rng, cal, [k + 1 for k in ks], rng.randint(1, 4)):
            if rng.random() < .8 and r in rows: continue
            rows.insert(rng.randint(0, len(rows)), r)
    elif m == 'one':
        r = rng.choice(rows); i = rng.choice(ks)
        if i == 0 or (i == 2 and cal == 'yearless'): r[i] += rng.choice([1, -1, 400, 1000])
        elif cal in SEAS: r[i] = r[i] % 4 + 1
        elif i == 2 and r[2] != 29: r[i] = r[i] % 28 + 1
        elif i == 1 and (2 not in ks or r[2] <= 28): r[i] = r[i] % 12 + 1
        elif i > 2: r[i] = (r[i] + 1) % (24 if i == 3 else 60)
    elif m == 'keys' and len(ks) > 1:
        drop = rng.sample(ks, rng.randint(1, len(ks) - 1))
        if rng.random() < .5: drop = ks[-len(drop):]
        elif rng.random() < .5: drop = [ks[0]]
        for r in rows:
            for i in drop: r[i] = NOF
        if rng.random() < .8: rows = uniq(rows)
        rng.shuffle(rows)
    elif m == 'finer' and cal not in SEAS:
        miss = [i for i in range(2 if cal == 'yearless' else 0, 6) if i not in ks]
        if miss:
            add = rng.sample(miss, rng.randint(1, len(miss))); rows = [list(r) for r in rows for _ in range(rng.choice([1, 1, 2]))]
            for r in rows:
                for i in add: r[i] = [rng.randint(1999, 2002), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 12]), 0, rng.choice([0, 30])][i]
                if r[1] == 2 and r[2] not in (NOF,) and r[2] > 28: r[0] = 2000 if r[0] != NOF else NOF
                if r[2] != NOF and r[1] != NOF and r[2] > 28 and cal != 'yearless': r[2] = 28
    elif m == 'cal': cal = rng.choice([c for c in (SEAS if cal in SEAS else ['std', '365', '360'])])
    elif m == 'apart':
        old = rows; rows = [r for r in uniq(rand_rows(rng, cal, [k + 1 for k in ks], rng.randint(1, 5))) if r not in old]
        if rng.random() < .7: rows.sort()
        if not rows: rows = old
    elif m == 'other': cal, rows = axis(rng)
    if cal in ('std', '365', '360'):
        for r in rows:
            if r[2] != NOF and r[1] != NOF: r[2] = min(r[2], mlen(cal, r[0] if r[0] != NOF else 2000, r[1]))
    return cal, rows
def ok(o): return dict(k='ok', **o)

def pair_ops(T, rng, a, b):
    ea, eb = enc(a), enc(b)
    r, err = attempt(lambda: ok(dict(eq=bool(a == b), ne=bool(a != b)))); T.emit(op='eq', a=ea, b=eb, obs=err or r)
    def mp():
        m = a.map_to(b)
        return ok(dict(none=m is None, ix=[] if m is None else [int(i) + 1 for i in m]))
    r, err = attempt(mp); T.emit(op='map', a=ea, b=eb, obs=err or r)
    ks = [k for k in ea['keys'] if k in eb['keys']]
    def dup(e):
        q = [tuple(d[k - 1] for k in ks) for d in e['d']]; return len(set(q)) < len(q)
    if not (dup(ea) and dup(eb)):
        def cm():
            i, j = a.common_map(b); return ok(dict(ia=[int(x) + 1 for x in i], ib=[int(x) + 1 for x in j]))
        r, err = attempt(cm); T.emit(op='cmap', a=ea, b=eb, obs=err or r)
    def cf():
        x, y = tu.conform_values(a, b); return ok(dict(x=enc(x), y=enc(y)))
    r, err = attempt(cf); T.emit(op='conf', a=ea, b=eb, obs=err or r)
    if not dup(ea) and not dup(eb) and len({tuple(d) for d in ea['d']}) == len(ea['d']) and len({tuple(d) for d in eb['d']}) == len(eb['d']):
        def ar():
            v = pyg.Var([a], values=1000. * np.arange(1, len(a) + 1), name='v'); w = pyg.Var([b], values=np.arange(1., len(b) + 1), name='w')
            s = v + w
            return ok(dict(ax=[enc(x) for x in s.axes], dat=[int(x) for x in np.asarray(s.get()).ravel()]))
        r, err = attempt(ar); T.emit(op='arith', a=ea, b=eb, obs=err or r)
    if ea['keys'] == eb['keys'] and not any(d in ea['d'] for d in eb['d']) and len({tuple(d) for d in ea['d']}) == len(ea['d']) and len({tuple(d) for d in eb['d']}) == len(eb['d']):
        how = rng.choice(['axis', 'var', 'var'])
        def ct():
            if how == 'axis': return ok(dict(ax=enc(pyg.axis.concat([a, b])), dat=[]))
            v = pyg.Var([a], values=np.arange(1., len(a) + 1), name='v'); w = pyg.Var([b], values=100 + np.arange(1., len(b) + 1), name='v')
            c = pyg.concatenate([v, w], iaxis=rng.choice([0, 'time', pyg.TAxis])); assert c.naxes == 1
            return ok(dict(ax=enc(c.axes[0]), dat=[int(x) for x in np.asarray(c.get())]))
        r, err = attempt(ct)
        T.emit(op='cat', **{'as': [ea, eb]}, dat=[] if how == 'axis' else list(range(1, len(a) + 1)) + list(range(101, len(b) + 101)), obs=err or r)
    if a == b:
        def c2():
            v = pyg.Var([a, pyg.Lat([0, 10.])], values=np.arange(2. * len(a)).reshape(len(a), 2), name='v'); w = pyg.Var([b, pyg.Lat([20.])], values=100 + np.arange(1. * len(a)).reshape(len(a), 1), name='v')
            c = pyg.concatenate([v, w]); assert c.naxes == 2 and c.shape[1] == 3
            return ok(dict(ax=enc(c.axes[0]), dat=[int(x) for x in np.asarray(c.get()).ravel()]))
        if len({tuple(d) for d in ea['d']}) == len(a):
            r, err = attempt(c2); T.emit(op='cat2', a=ea, b=eb, obs=err or r)
def single_ops(T, rng, a):
    ea = enc(a); cal = ea['cal']; base = dict([('S-std', 'std'), ('S-365', '365')]).get(cal, cal); unit = rng.choice(UNITS)
    st = rand_start(rng, cal); given = rng.random() < .6
    def rl():
        kw = {}
        if given: kw['startdate'] = as_dict(st)
        u = unit if rng.random() < .8 else None
        f = tu.reltime if rng.random() < .7 else (lambda ax, **k: ax.reltime(**k))
        return ok(dict(v=inst(f(a, units=u, **kw), u or a.units)))
    r, err = attempt(rl); T.emit(op='rel', a=ea, start=st, given=given, obs=err or r)
    def dl():
        f = tu.delta if multi or rng.random() < .7 else (lambda ax, units: ax.delta(units))
        return ok(dict(v=inst(f(a, units=unit, **(dict(allow_multiple=True) if multi else {})), unit)[0]))
    s = [p[0] * 86400 + p[1] for p in ea['back']]; ds = [y - x for x, y in zip(s, s[1:])]
    multi = rng.random() < .5
    clear = not ds or len(set(ds)) == 1 or max(abs(d - ds[0]) for d in ds) > 1e-3 * abs(ds[0])
    r, err = attempt(dl); T.emit(op='delta', a=ea, multi=multi, clear=bool(clear), obs=err or r)
    def re():
        kw = dict(units=unit)
        if given: kw['startdate'] = as_dict(st)
        f = {k: (v.copy() if rng.random() < .7 else list(v)) for k, v in a.auxarrays.items()}
        if rng.random() < .3: kw['values'] = a.values       # ignored in favour of the dates
        return ok(dict(ax=enc(type(a)(**dict(f, **kw)))))
    r, err = attempt(re); T.emit(op='re', a=ea, start=st, given=given, unit=unit, obs=err or r)
    n = len(a); m = rng.choice(['slice', 'list', 'rev', 'field'])
    nm = names(cal)
    if m == 'slice': i = rng.randint(0, n - 1); j = rng.randint(i + 1, n); sl = slice(i, j); ix = list(range(i, j))
    elif m == 'rev': sl = slice(None, None, -1); ix = list(range(n))[::-1]
    elif m == 'list': ix = sorted(rng.sample(range(n), rng.randint(1, n))); sl = ix
    else:
        k = rng.choice(ea['keys']); x = rng.choice(ea['d'])[k - 1]; ix = [i for i, d in enumerate(ea['d']) if d[k - 1] == x]
    def sb():
        if m == 'field': s = a(**{nm[k - 1]: x})
        elif rng.random() < .5: s = a._getitem_asvar((sl,))
        else: s = pyg.Var([a], values=np.zeros(n)).slice[sl if m != 'list' else ((sl,),)].axes[0]
        return ok(dict(ax=enc(s)))
    r, err = attempt(sb); T.emit(op='sub', a=ea, ix=[i + 1 for i in ix], obs=err or r)
    incl = [] if rng.random() < .6 else rng.sample(range(1, len(nm) + 1), rng.randint(1, len(nm)))
    excl = [] if rng.random() < .5 else rng.sample(range(1, len(nm) + 1), rng.randint(1, max(1, len(nm) // 2)))
    res = NF if rng.random() < .5 else rng.randint(3 if cal == 'yearless' else 1, len(nm))
    uq = rng.random() < .6
    def md():
        kw = {}
        if incl: kw['include'] = [nm[i - 1] for i in incl] if len(incl) > 1 or rng.random() < .5 else nm[incl[0] - 1]
        if excl: kw['exclude'] = [nm[i - 1] for i in excl] if len(excl) > 1 or rng.random() < .5 else nm[excl[0] - 1]
        if res != NF: kw['resolution'] = nm[res - 1]
        return ok(dict(ax=enc((tu.modify(a, uniquify=uq, **kw) if rng.random() < .7 else a.modify(uniquify=uq, **kw)))))
    r, err = attempt(md); T.emit(op='mod', a=ea, incl=incl, excl=excl, res=min(res, 6), uniq=uq, obs=err or r)
    if cal not in SEAS:
        f, g = rand_date(rng, cal), rand_date(rng, cal)
        for h in (f, g):
            for i in range(6):
                if rng.random() < .15: h[i] = NOF
                elif h[i] != NOF and i >= 2 and rng.random() < .3: h[i] += rng.choice([-40, 100, 25, -1])
        if any(x != NOF for x in f) and any(x != NOF for x in g):
            r, err = attempt(lambda: ok(dict(v=inst(tu.date_diff(a, as_dict(f), as_dict(g), unit), unit)[0]))); T.emit(op='diff', cal=cal, f=f, g=g, obs=err or r)
            al = rng.random() < .5
            def wr():
                d = (tu.wrapdate if rng.random() < .7 else type(a).wrapdate)(a, as_dict(f), allfields=al)
                return ok(dict(d=from_dict(d)))
            r, err = attempt(wr); T.emit(op='wrap', a=ea, f=f, all=al, obs=err or r)
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
def text(rng, f):
    t = '%d %s %d' % (f[2], MON[f[1] - 1], f[0]) if rng.random() < .7 else '%04d-%02d-%02d' % tuple(f[:3])
    if f[3:] == [0, 0, 0] and rng.random() < .5: return t
    if t[4] == '-': return '%d %s %d' % (f[2], MON[f[1] - 1], f[0]) if f[3:] == [0, 0, 0] else '%02d:%02d:%02d %d %s %d' % (f[3], f[4], f[5], f[2], MON[f[1] - 1], f[0])
    return '%02d:%02d:%02d %s' % (f[3], f[4], f[5], t)
def ranges(T, rng):
    cal = rng.choice(['std', 'std', '365', '360', 'yearless']); unit = rng.choice(UNITS)
    step = rng.choice([1, 1, 2, 3, 5, 7, 10, .5, .25, .1, .2, .3, .6, 1.5, 30, 6, -1, -2, -.5])
    if unit == 'seconds': step = int(step) or 3
    ss = round(step * UF[unit]); n = rng.choice([-1, rng.randint(1, 40)])
    f = rand_date(rng, cal); f[0] = abs(f[0]) % 9000 + 1 if cal != 'yearless' else NOF
    if cal != 'yearless': f[2] = min(f[2], mlen(cal, f[0], f[1]))
    hasref = cal != 'yearless' and rng.random() < .5; ref = rand_date(rng, 'std' if cal == 'yearless' else cal); ref[0] = abs(ref[0]) % 9000 + 1
    if unit == 'seconds': ref[0] = f[0] if f[0] != NOF else ref[0]
    if cal != 'yearless': ref[2] = min(ref[2], mlen(cal, ref[0], ref[1]))
    inc = False; g = f
    if cal == 'yearless':
        n = max(n, 1); f = [NOF, NOF, rng.choice([1, 1, 0, 100, -5]), NOF, NOF, NOF]
        def go(): return pyg.yearlessn(n, **dict([('start', f[2])] if f[2] != 1 or rng.random() < .5 else []), **(dict(step=step) if step != 1 or rng.random() < .5 else {}), units=unit)
    else:
        nm = dict(std='standardtime', **{'365': 'modeltime365', '360': 'modeltime360'})[cal]
        kw = dict(units=unit)
        if step != 1 or rng.random() < .5: kw['step'] = step
        if unit == 'days' and rng.random() < .5: kw.pop('units')
        if hasref: kw['ref'] = text(rng, ref)
        if n >= 0:
            def go(): return getattr(pyg, nm + 'n')(text(rng, f), n, **kw)
        else:
            k = rng.randint(0, 40); tot = k * ss; aligned = True
            if rng.random() < .3 and abs(ss) > 2: tot += rng.randint(1, abs(ss) - 1) * (1 if ss > 0 else -1); aligned = False
            g = from_dict(dummy(cal).val_as_date(float(tot), startdate=as_dict(f), units='seconds', allfields=True))
            if g[0] < 1: return
            inc = aligned and rng.random() < .4
            if inc: kw['inc'] = True
            if not inc and tot == 0: return
            def go(): return getattr(pyg, nm + 'range')(text(rng, f), text(rng, g), **kw)
    def run(): return ok(dict(ax=enc(go())))
    r, err = attempt(run)
    T.emit(op='range', cal=cal, f=f, g=g, n=n, hasref=hasref, ref=ref, step=[ss // 86400, ss % 86400], inc=inc, unit=unit, obs=err or r)
def drive(T, rng, tier, shard, nsh):
    T.emit(op='begin')
    for b in behaviours(shard, nsh, 60):
        a = build(rng, b['cal'], b['a']['d'], b['a']['u'], b['a']['s']); c = build(rng, b['cal'], b['b']['d'], b['b']['u'], b['b']['s'])
        pair_ops(T, rng, a, c); single_ops(T, rng, a)
    for i in range(170 if tier == 'quick' else 2500):
        if i % 20 == 0: T.emit(op='begin')
        cal, rows = axis(rng); a = build(rng, cal, rows)
        for _ in range(2):
            b = build(rng, *partner(rng, cal, rows)); pair_ops(T, rng, a, b)
            if rng.random() < .5: pair_ops(T, rng, b, a)
        if rng.random() < .1: pair_ops(T, rng, a, a)
        single_ops(T, rng, a); ranges(T, rng)
if __name__ == '__main__': main(drive)
