from gen import *

KER = [[1, 2, 1], [1, 1, 1], [1, 2], [1, 0, 3], [2, 1, 1, 0], [1, 3, 1, 3], [1, 1, 2, 2, 1], [3, 4, 5, 0, 0, 1]]
HANN = {3: [0, 1, 0], 4: [0, 3, 3, 0], 5: [0, 1, 2, 1, 0], 7: [0, 1, 3, 4, 3, 1, 0]}

def coordinate(T, rng, w, i):
    """-> (how, handle, variable): the coordinate a derivative or an integral refers to"""
    c = rng.choice(['axis', 'axis', 'axis', 'order', 'array', 'array', 'bad'])
    if c == 'axis': return 'axis', 0, None
    n = w.shape[i]
    if c == 'bad':
        # not as long as the axis, or without it
        if rng.random() < .5 or w.naxes < 2: ax, by = [A.XAxis(np.arange(n + 1.))], 'order'
        else:
            o = [a for j, a in enumerate(w.axes) if j != i]
            if len(o) < 2: return 'axis', 0, None
            ax, by = o, 'array'
    elif c == 'order': ax, by = [rng.choice([w.axes[i], A.XAxis(np.arange(n) * 2.)])], 'order'
    else:
        o = rng.sample([a for j, a in enumerate(w.axes) if j != i], rng.randint(0, w.naxes - 1))
        ax = o[:]; ax.insert(rng.randint(0, len(o)), w.axes[i])
        by = 'array' if len(ax) > 1 else 'order'
    sh = [len(a) for a in ax]
    k = [j for j, a in enumerate(ax) if a is w.axes[i]] or [0]
    d = np.cumsum(np.array([rng.choice([.5, 1, 2, 4]) for _ in range(int(np.prod(sh)))]).reshape(sh), k[0]) * rng.choice([1, 1, -1])
    x0 = Var(ax, values=d, name='x'); x = variant(rng, x0)
    return by, T.step('new', [], enc_arr(x0)), x

def after(T, rng, h, r, h0, w):
    """read the result in other ways, and together with its source"""
    for _ in range(rng.randint(0, 2)):
        es = [rand_ix(rng, len(a)) for a in r.axes]
        res, err = attempt(lambda: enc_vals(r[tuple((tuple([e]) if isinstance(e, list) else e) for e in es)]))
        T.step('iget', [h], err or res, es=[enc_ix(e) for e in es])
    if rng.random() < .3 and r.naxes == w.naxes and all(len(a) == len(b) for a, b in zip(r.axes, w.axes)):
        s = rng.random() < .5
        observe(T, 'fun', [], lambda: (r + w) if s else (w + r), f='+', args=[dict(h=h if s else h0, c=[0, 1]), dict(h=h0 if s else h, c=[0, 1])])
    if rng.random() < .2 and r.naxes:
        k = rng.randrange(r.naxes)
        if len(r.axes[k]) > 2:
            es = [slice(None)] * r.naxes; es[k] = slice(rng.randint(0, 1), None, rng.choice([1, 2]))
            if rng.random() < .5: es = [slice(None, None, -1) if e == slice(None) and rng.random() < .5 else e for e in es]
            h2, r2 = observe(T, 'isel', [h], lambda: r.slice[tuple(es)], es=[enc_ix(e) for e in es])
            if r2 is not None: one(T, rng, h2, r2)

def one(T, rng, h, w, op=None, long=False):
    i = rng.randrange(w.naxes); n = w.shape[i]; idn = ident(rng, w, i)
    op = op or rng.choice(['diff', 'deriv', 'deriv', 'integ', 'integ', 'cumsum', 'smooth', 'smooth'])
    if op == 'diff':
        k = rng.choice([1, 1, 2, 3, 0]); kw = {} if k == 1 and rng.random() < .5 else dict(n=k)
        h2, r = observe(T, 'diff', [h], lambda: (w.diff(idn, **kw) if rng.random() < .7 else pyg.diff.diff(w, idn, **kw)), i=i + 1, n=k)
    elif op == 'deriv':
        by, hd, x = coordinate(T, rng, w, i); df = rng.choice(['left', 'right', 'centre', '2'])
        kw = {} if df == 'centre' and rng.random() < .5 else dict(df=df)
        if x is not None: kw['dx'] = x
        h2, r = observe(T, 'deriv', [h] + ([hd] if hd else []), lambda: w.deriv(idn, **kw), i=i + 1, by=by, df=df)
    elif op in ('integ', 'cumsum'):
        by, hd, x = ('axis', 0, None) if op == 'cumsum' else coordinate(T, rng, w, i)
        o = rng.choice([1, 1, -1]); ty = 'cumsum' if op == 'cumsum' else rng.choice(['trapz', 'rectl', 'rectr'])
        kw = {} if o == 1 and rng.random() < .5 else dict(order=o)
        c, hv = 0, 0
        q = rng.choice(['none', 'none', 'const', 'var', 'var', 'bad'])
        if q == 'const': c = rng.randint(-5, 5); kw['v0'] = rng.choice([c, float(c)])
        elif q != 'none':
            oax = [a for j, a in enumerate(w.axes) if j != i]
            oax = rng.sample(oax, rng.randint(min(1, len(oax)), len(oax)))
            if q == 'bad' and rng.random() < .2: oax.append(w.axes[i])
            if oax:
                u = make_var(rng, oax, name='v0', lo=-5, hi=5); kw['v0'] = variant(rng, u); hv = T.step('new', [], enc_arr(u))
        if op == 'integ':
            if x is not None: kw['dx'] = x
            if ty != 'trapz' or rng.random() < .5: kw['type'] = ty
        h2, r = observe(T, 'integ', [h], lambda: (w.cumsum if op == 'cumsum' else w.integrate)(idn, **kw), i=i + 1, by=by, hd=hd, hv=hv, c=[c, 1], ty=ty, ord=o)
    else:
        if rng.random() < .3: k = rng.choice([3, 4, 5, 7]); ker = k; spec = HANN[k]
        else: spec = rng.choice(KER); ker = rng.choice([list, tuple, np.array])(spec)
        kw = rng.choice([{}, dict(fft=False), dict(fft=True)])
        nan = bool(np.isnan(np.asarray(w.get(), float)).any())
        if nan: kw = dict(fft=False)
        lim = rng.choice([None, None, 1, 4, 10, 40])
        def go():
            old = pyg.MAX_ARRAY_SIZE
            try:
                pyg.MAX_ARRAY_SIZE = lim or old
                r = w.smooth(idn, kernel=ker, **kw); return r, enc_arr(r)
            finally: pyg.MAX_ARRAY_SIZE = old
        res, err = attempt(go)
        h2 = T.step('smooth', [h], err or res[1], i=i + 1, ker=[[q, 1] for q in spec]); r = None if err else res[0]
    if r is not None: after(T, rng, h2, r, h, w)

def drive(T, rng, tier, shard, nshards):
    for g in behaviours(shard, nshards, 30 if tier == 'quick' else None):
        T.begin()
        n = len(g['f']); x = np.array([a / b for a, b in g['x']]); d = np.array([a / b for a, b in g['f']])
        ax = rng.choice([A.Lat, A.Pres, A.YAxis])(x) if rng.random() < .7 else A.NamedAxis(x, 'foo')
        o = rng.choice([[], [A.Lon([0., 10.])], [A.Lon([5.])]])
        axs = o + [ax] if rng.random() < .5 else [ax] + o
        k = [j for j, a in enumerate(axs) if a is ax][0]
        v0 = Var(axs, values=np.broadcast_to(d.reshape([n if j == k else 1 for j in range(len(axs))]), [len(a) for a in axs]) * np.arange(1, 1 + int(np.prod([len(a) for a in o]))).reshape([1 if j == k else len(a) for j, a in enumerate(axs)]), name='v')
        h = T.step('new', [], enc_arr(v0)); w = variant(rng, v0)
        one(T, rng, h, w)
    for _ in range(110 if tier == 'quick' else 2500):
        T.begin()
        axes = pick_axes(rng, rng.choice([1, 2, 2, 3]), ['Lat', 'Lon', 'Pres', 'NamedAxis', 'ZAxis', 'Hybrid', 'Time365', 'Time', 'Index'], maxn=rng.choice([4, 6, 8]), long=.3)
        v0 = make_var(rng, axes, dtype=rng.choice(['d', 'd', 'i', 'i2', 'i8']), nan=rng.choice([0, 0, .15]), lo=-9, hi=9)
        h = T.step('new', [], enc_arr(v0)); w = variant(rng, v0)
        for _ in range(rng.randint(1, 4)): one(T, rng, h, w)

if __name__ == '__main__': main(drive)
