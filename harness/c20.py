from gen import *

TYPES = ['linear', 'linear', 'linear', 'cspline', 'polynomial', 'akima', 'cspline_periodic', 'akima_periodic']

def out_axis(rng, w, i, lo, hi):
    """an axis to interpolate to: source points, points between and points outside"""
    n = rng.randint(0 if rng.random() < .05 else 1, 6)
    src = [float(x) for x in w.axes[i].values] if rng.random() < .6 else []
    c = set()
    while len(c) < n:
        r = rng.random()
        if src and r < .4: c.add(rng.choice(src))
        else: c.add(rng.randint(int(4 * lo) - 6, int(4 * hi) + 6) / 4.)
    c = sorted(c)
    q = rng.random()
    if q < .25: c.reverse()
    elif q < .4: rng.shuffle(c)
    others = [a for j, a in enumerate(w.axes) if j != i]
    cand = [k for k in (type(w.axes[i]), A.ZAxis, A.YAxis, A.XAxis, A.Pres, A.Lat, A.Lon) if k not in (A.Hybrid, A.Index, TA.ModelTime365, TA.StandardTime, A.NamedAxis)
            and not any(issubclass(k, type(o)) or issubclass(type(o), k) or any(issubclass(k, z) and isinstance(o, z) for z in (A.ZAxis, A.YAxis, A.XAxis)) for o in others)]
    if not cand or (isinstance(w.axes[i], A.NamedAxis) and rng.random() < .5): return A.NamedAxis(c, 'out')
    k = cand[0] if rng.random() < .5 else rng.choice(cand)
    return k(c) if k is not A.Lat else A.Lat(c, weights=np.ones(len(c)))

def field(rng, w, i, lines=False):
    """a coordinate field on axis i and some of the others, monotone along axis i"""
    o = rng.sample([a for j, a in enumerate(w.axes) if j != i], rng.randint(0, w.naxes - 1))
    ax = o[:]; ax.insert(rng.randint(0, len(o)), w.axes[i])
    k = [j for j, a in enumerate(ax) if a is w.axes[i]][0]
    sh = [len(a) for a in ax]
    st = np.array([rng.choice([.5, 1, 1, 2, 3]) for _ in range(int(np.prod(sh)))]).reshape(sh)
    d = np.cumsum(st, k)
    off = np.array([rng.randint(-4, 4) / 2. for _ in range(int(np.prod(sh)) // max(sh[k], 1))]).reshape([1 if j == k else s for j, s in enumerate(sh)])
    d = d + off
    sg = rng.choice(['up', 'up', 'down', 'mixed'])
    if sg == 'down': d = -d
    if sg == 'mixed': d = d * np.array([rng.choice([1, -1]) for _ in range(off.size)]).reshape(off.shape)
    q = rng.random()
    if q < .3: d[np.array([rng.random() < .2 for _ in range(d.size)]).reshape(d.shape)] = np.nan
    elif q < .4:    # not monotone
        ix = tuple(rng.randrange(s) for s in sh); d[ix] = rng.randint(-3, 6)
    return Var(ax, values=d, name='x')

def one(T, rng, h, w, i=None):
    i = rng.randrange(w.naxes) if i is None else i
    ty = rng.choice(TYPES)
    kw = {}
    if ty != 'cspline' or rng.random() < .5: kw['interp_type'] = ty
    hx = ho = 0; inx = None
    if rng.random() < .45:
        x0 = field(rng, w, i); kw['inx'] = variant(rng, x0); hx = T.step('new', [], enc_arr(x0)); inx = x0
    v = np.asarray((inx.get() if inx is not None else w.axes[i].values), float); v = v[np.isfinite(v)]
    lo, hi = (v.min(), v.max()) if v.size else (0., 1.)
    oax = out_axis(rng, w, i, lo, hi)
    if rng.random() < .25 and len(oax):
        # coordinates to interpolate to, given as a field on the new axis and some others
        o = rng.sample([a for j, a in enumerate(w.axes) if j != i], rng.randint(0, w.naxes - 1))
        ax = o[:]; ax.insert(rng.randint(0, len(o)), oax); sh = [len(a) for a in ax]
        y0 = Var(ax, values=np.array([rng.randint(int(4 * lo) - 4, int(4 * hi) + 4) / 4. for _ in range(int(np.prod(sh)))]).reshape(sh), name='y')
        kw['outx'] = y0 if rng.random() < .5 else variant(rng, y0); ho = T.step('new', [], enc_arr(y0))
    sl = [None, None]
    for j, nm in enumerate(['d_below', 'd_above']):
        if rng.random() < .5: sl[j] = rng.choice([0, 1, -2, .5]); kw[nm] = sl[j]
    om = inx is not None and rng.random() < .15
    if om: kw['omit_nonmonotonic'] = True
    if rng.random() < .2: kw['transpose'] = rng.choice([True, False])
    if kw.get('transpose') is False and len({type(a) for j, a in enumerate(w.axes) if j != i} | {type(oax)}) < w.naxes: del kw['transpose']
    idn = ident(rng, w, i)
    slope = lambda s: [0, 0] if s is None else rat(s)
    h2, r = observe(T, 'interp', [h], lambda: (w.interpolate if rng.random() < .7 else lambda *a, **k: pyg.interp.interpolate(w, *a, **k))(idn, oax, **kw),
                    i=i + 1, hx=hx, ho=ho, oax=enc_axis(oax), ty=ty, lo=slope(sl[0]), hi=slope(sl[1]), omit=om)
    if r is None: return
    for _ in range(rng.randint(0, 3)):
        es = [rand_ix(rng, len(a)) for a in r.axes]
        res, err = attempt(lambda: enc_vals(r[tuple((tuple([e]) if isinstance(e, list) else e) for e in es)]))
        T.step('iget', [h2], err or res, es=[enc_ix(e) for e in es])
    if rng.random() < .15: observe(T, 'fun', [], lambda: r + r, f='+', args=[dict(h=h2, c=[0, 1]), dict(h=h2, c=[0, 1])])

def drive(T, rng, tier, shard, nshards):
    for g in behaviours(shard, nshards, 40 if tier == 'quick' else None):
        T.begin()
        n = len(g['x']); x = np.array([a / b for a, b in g['x']]); d = np.array([a / b if b else np.nan for a, b in g['y']])
        if rng.random() < .4: x, d = x[::-1], d[::-1]
        ax = rng.choice([A.Lat, A.Pres, A.ZAxis])(x)
        o = rng.choice([[], [A.Lon([0., 10.])]])
        axs = o + [ax] if rng.random() < .5 else [ax] + o
        k = [j for j, a in enumerate(axs) if a is ax][0]
        v0 = Var(axs, values=np.broadcast_to(d.reshape([n if j == k else 1 for j in range(len(axs))]), [len(a) for a in axs]) * np.arange(1, 1 + int(np.prod([len(a) for a in o]))).reshape([1 if j == k else len(a) for j, a in enumerate(axs)]), name='v')
        h = T.step('new', [], enc_arr(v0)); one(T, rng, h, variant(rng, v0), k)
    for _ in range(130 if tier == 'quick' else 3000):
        T.begin()
        axes = pick_axes(rng, rng.choice([1, 2, 2, 3]), ['Lat', 'Lon', 'Pres', 'NamedAxis', 'ZAxis', 'Hybrid', 'Time365', 'Time'], maxn=rng.choice([3, 5, 7]), order=rng.choice(['inc', 'inc', 'dec', 'dec', 'perm']))
        v0 = make_var(rng, axes, dtype=rng.choice(['d', 'd', 'd', 'i', 'i2']), nan=rng.choice([0, 0, .2, .5]), lo=-6, hi=6)
        if rng.random() < .2:
            # straight lines along one axis
            i = rng.randrange(len(axes)); d = np.broadcast_to((axes[i].values * 2 - 1).reshape([-1 if j == i else 1 for j in range(len(axes))]), v0.shape)
            v0 = Var(axes, values=np.array(d), name='v')
        h = T.step('new', [], enc_arr(v0)); w = variant(rng, v0)
        for _ in range(rng.randint(1, 3)): one(T, rng, h, w)

if __name__ == '__main__': main(drive)
