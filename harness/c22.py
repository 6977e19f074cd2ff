from c10 import *
TAG[tu.Lag] = 'yearless'
def field(rng, axes, ints=True):
    """a variable on these axes holding different numbers everywhere, some missing"""
    shape = tuple(len(x) for x in axes); n = int(np.prod(shape))
    h = list(range(1, n + 1)); rng.shuffle(h); h = np.array(h)
    dt = rng.choice(['float64'] * 3 + ['float32'] + (['int64', 'int32'] if ints else []))
    d = h.astype(dt).reshape(shape); dat = [int(x) for x in h]
    if dt[0] == 'f' and rng.random() < .4:
        m = np.array([rng.random() < .2 for _ in dat]); d.ravel()[m] = np.nan; dat = [NOF if b else x for b, x in zip(m, dat)]
    v = pyg.Var(axes, values=d, name=rng.choice(['v', '']))
    c = rng.choice(['mem', 'mem', 'lazy', 'file'])
    if c == 'lazy': v = LazyVar(v)
    if c == 'file': v = FileVar(v)
    return v, dat
def codes(a): return [NOF if x != x else int(round(x)) if abs(x) < 1e8 else 99999999 for x in np.asarray(a, 'd').ravel().tolist()]
def others(rng, kinds):
    """none, one or two other axes, and the number of their points"""
    L = [k(rng.choice([2, 3, 2, 1])) for k in rng.sample(kinds, rng.choice([0, 0, 1, 1, 1, 2]))]
    return L, int(np.prod([len(x) for x in L]))
def around(rng, a):
    pre, P = others(rng, [lambda n: pyg.Lat(np.arange(n) * 10.), lambda n: pyg.NamedAxis(np.arange(n) + 1., name='mem')])
    post, S = others(rng, [lambda n: pyg.Lon(np.arange(n) * 30.), lambda n: pyg.Pres(np.arange(n) * 100. + 100)])
    return pre, post, P, S
def ask(rng, R, have):
    """read part of R; have: which of the logical axes R has"""
    ix, key = zip(*[(([], slice(1, 1)) if rng.random() < .02 else sub(rng, len(x))) for x in R.axes])
    if rng.random() < .5: arr = limited(rng, lambda: np.asarray(R.slice[tuple(key)].get()))
    else: arr = limited(rng, lambda: np.asarray(R[tuple(key)]))
    arr = arr.reshape([len(x) for x in ix])
    it = iter([(i, len(x)) for i, x in zip(ix, R.axes)]); rq = []
    for h in have:      # several axes between are one in the specification
        flat = [0]
        for _ in range(h if isinstance(h, int) else len(h)):
            idx, n = next(it); flat = [f * n + i for f in flat for i in idx]
        rq.append([f + 1 for f in flat])
    return rq, codes(arr)
def oth(R, *skip): return [enc_axis(x) for i, x in enumerate(R.axes) if i not in skip]
def which(rng, v, i): return rng.choice([i, i, v.axes[i].name, type(v.axes[i])])
def lags(T, rng, a, ea):
    pre, post, P, S = around(rng, a); v, dat = field(rng, pre + [a] + post); it = len(pre)
    n = len(a); L = [rng.choice([0, 1, -1, 2, -2, n - 1, 1 - n, n, -n, n + 3, rng.randint(-n, n)]) for _ in range(rng.randint(1, 5))]
    if rng.random() < .3: L = list(range(rng.randint(-3, 0), rng.randint(1, 4)))
    rev = rng.random() < .3
    def go():
        R = tu.lag(v, which(rng, v, it), rng.choice([list, np.array, tuple])(L), reverse=rev)
        assert R.naxes == v.naxes + 1
        rq, d = ask(rng, R, [pre, 1, 1, post])
        g = R.axes[it + 1]
        return ok(dict(ax=enc(R.axes[it]), oth=oth(R, it, it + 1), lag=dict(cls=type(g).__name__, back=inst(g.values, g.units), unit=g.units), dat=d)), rq
    r, err = attempt(go)
    T.emit(op='lag', a=ea, P=P, S=S, dat=dat, lags=L, rev=rev, oth=oth(v, it), rq=r[1] if r else [], obs=err or r[0])
def split(T, rng, a, ea):
    if len({tuple(d) for d in ea['d']}) < len(ea['d']): return
    pre, post, P, S = around(rng, a); v, dat = field(rng, pre + [a] + post); it = len(pre)
    def go():
        R = tu.splittimeaxis(v, *([] if rng.random() < .4 else [which(rng, v, it)]))
        assert R.naxes == v.naxes + 1 and R.axes[it].name == 'year' and R.axes[it + 1].name == 'day'
        rq, d = ask(rng, R, [pre, 1, 1, post])
        return ok(dict(years=[int(y) for y in R.axes[it].values], days=enc(R.axes[it + 1]), oth=oth(R, it, it + 1), dat=d)), rq
    r, err = attempt(go)
    T.emit(op='split', a=ea, P=P, S=S, dat=dat, oth=oth(v, it), rq=r[1] if r else [], obs=err or r[0])
    if 1 in ea['keys'] and len(ea['keys']) > 1:
        def go():
            R = tu.jointimeaxes(tu.splittimeaxis(v, it)); assert R.naxes == v.naxes
            return ok(dict(ax=enc(R.axes[it]), dat=codes(limited(rng, lambda: R.get()))))
        r, err = attempt(go)
        T.emit(op='round', a=ea, P=P, S=S, dat=dat, obs=err or r)
def join(T, rng, a, ea):
    keys = [k for k in ea['keys'] if k != 1]
    if not keys or ea['cal'] == 'yearless' or ea['cal'] in SEAS: return
    rows = uniq([[NOF] + d[1:] for d in ea['d']]); rng.shuffle(rows)
    if rng.random() < .7: rows.sort()
    days = build(rng, ea['cal'], rows); ed = enc(days)
    y0 = rand_year(rng); ys = rng.sample(range(y0, y0 + 6), rng.randint(1, 4))
    if rng.random() < .7: ys.sort()
    years = pyg.NamedAxis(np.array(ys, rng.choice(['int32', 'int64', 'd'])), name=rng.choice(['year', 'year', 'yr']))
    days = days.rename(rng.choice(['day', 'doy', 'time'])) if rng.random() < .8 else days
    pre, post, P, S = around(rng, a); mid, M = others(rng, [lambda n: pyg.Height(np.arange(n) * 5.), lambda n: pyg.NamedAxis(np.arange(n) * 2., name='lev')])
    v, dat = field(rng, pre + [years] + mid + [days] + post); iy = len(pre); idd = iy + 1 + len(mid)
    def go():
        if years.name == 'year' and days.name == 'day' and rng.random() < .5: R = tu.jointimeaxes(v)
        else: R = tu.jointimeaxes(v, rng.choice([iy, years.name]), rng.choice([idd, days.name]))
        assert R.naxes == v.naxes - 1
        rq, d = ask(rng, R, [pre, 1, mid, post])
        return ok(dict(ax=enc(R.axes[iy]), oth=oth(R, iy), dat=d)), rq
    r, err = attempt(go)
    T.emit(op='join', years=ys, days=ed, P=P, M=M, S=S, dat=dat, oth=oth(v, iy, idd), rq=r[1] if r else [], obs=err or r[0])
def leap(T, rng, a, ea):
    if ea['cal'] not in ('std', '365', '360') or not {1, 2, 3} <= set(ea['keys']): return
    pre, post, P, S = around(rng, a); v, dat = field(rng, pre + [a] + post); it = len(pre)
    c = rng.random(); cal2 = '365'; lp = [60]; nl = []; kw = {}
    if c > .5:
        base = dict([('std', 365), ('365', 365), ('360', 360)])[ea['cal']]
        cal2 = rng.choice(['365', '360', 'std'] if base == 365 else ['360'])
        new = dict([('std', 365), ('365', 365), ('360', 360)])[cal2]
        doys = [k for k in range(1, base + 1)]
        nl = rng.sample(doys, base - new); lp = sorted(rng.sample(doys, base - new + 1)) if ea['cal'] == 'std' else [60]
        near = sorted({doy(ea['cal'], d) for d in ea['d']})
        if rng.random() < .7:
            if nl: nl = sorted(set((near + nl)[:len(nl)]), key=lambda x: rng.random())
            lp = sorted(set((rng.sample(near, 1) + lp)[:len(lp)]), key=lambda x: rng.random())
        kw = dict(omitdoy_leap=lp, omitdoy_noleap=nl, new_axis_type=CALS[cal2])
    def go():
        R = tu.removeleapyears(v, **kw); assert R.naxes == v.naxes
        rq, d = ask(rng, R, [pre, 1, post])
        return ok(dict(ax=enc(R.axes[it]), oth=oth(R, it), dat=d)), rq
    r, err = attempt(go)
    T.emit(op='leap', a=ea, P=P, S=S, dat=dat, lp=lp, nl=nl, cal2=cal2, oth=oth(v, it), rq=r[1] if r else [], obs=err or r[0])
def doy(cal, d): return sum(mlen(cal, d[0], m) for m in range(1, d[1])) + d[2]
def drive(T, rng, tier, shard, nsh):
    T.emit(op='begin')
    for b in behaviours(shard, nsh, 60):
        a = build(rng, b['cal'], b['d']); ea = enc(a)
        for f in (lags, split, join, leap): f(T, rng, a, ea)
    for i in range(150 if tier == 'quick' else 2500):
        if i % 20 == 0: T.emit(op='begin')
        cal = rng.choice(['std'] * 3 + ['365', '360', 'yearless'])
        rows = uniq(series(rng, cal, keyset(rng, cal)))
        if len(rows) > 14: rows = rows[:14]
        a = build(rng, cal, rows); ea = enc(a)
        for f in (lags, lags, split, join, leap): f(T, rng, a, ea)
if __name__ == '__main__': main(drive)
