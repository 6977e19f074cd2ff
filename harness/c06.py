from gen import *
FS = ['sum', 'mean', 'min', 'max', 'variance', 'stdev', 'nansum', 'nanmean', 'nanmin', 'nanmax', 'nanvariance', 'nanstdev', 'argmin', 'argmax']
WF = ('sum', 'mean', 'variance', 'nansum', 'nanmean')

def red_obs(r, f, scalar, d):
    if scalar:
        a = np.asarray(r)
        if f.endswith('stdev'): a = a * a
        return enc_vals(a, maxd=d)
    o = enc_arr(r, maxd=d)
    if f.endswith('stdev'): o['dat'] = rats(np.asarray(r.get()) ** 2, maxd=d)
    return o

def reduce(T, rng, h, w, f, R, wt='none', wvar=None, hw=None, limit=None, ids=None, via=None):
    """one reduction; R: 0-based axes (in the order named)"""
    ids = ids if ids is not None else [ident(rng, w, i) for i in R]
    scalar = len(ids) == 0
    kw = {}
    if f in WF:
        # nansum's documented and actual defaults differ: always explicit there
        dfl = dict(mean=True, nanmean=True, sum=False, variance=False).get(f)
        want = dict(none=rng.choice([False, None]), default=True, var=wvar)[wt]
        if wt == 'var' or bool(want) != dfl or rng.random() < .5: kw = dict(weights=want)
    def go():
        old = pyg.MAX_ARRAY_SIZE
        if limit: pyg.MAX_ARRAY_SIZE = limit
        try:
            fn = getattr(w, f) if not via else getattr(pyg.reduce, f)
            r = fn(*ids, **kw) if not via else fn(w, *ids, **kw)
            return r, red_obs(r, f, scalar, MAXD)
        finally: pyg.MAX_ARRAY_SIZE = old
    res, err = attempt(go)
    allR = list(range(w.naxes)) if scalar else list(R)
    src = [h] + ([hw] if wt == 'var' else [])
    h2 = T.step('red', src, err or res[1], f=f, w=wt, R=sorted(set(i + 1 for i in allR)), scalar=scalar)
    return h2, (None if err else res[0])

def drive(T, rng, tier, shard, nshards):
    n = 170 if tier == 'quick' else 3000
    for g in behaviours(shard, nshards, 40 if tier == 'quick' else None):
        mk = [A.Lat, A.Lon, A.Pres]
        axes = []
        for i, k in enumerate(g['sh']):
            kw = dict(weights=np.array([(j % 2) + 1. for j in range(1, k + 1)])) if g['w'] else {}
            if i == 0 and not g['w']: axes.append(A.NamedAxis(np.arange(1., k + 1), 'foo'))
            else: axes.append(mk[i](np.arange(1., k + 1), **kw))
        v = Var(axes, values=np.array([np.nan if x[1] == 0 else x[0] / x[1] for x in g['dat']], float).reshape(g['sh']), name='v')
        T.begin()
        h = T.step('new', [], enc_arr(v))
        w = LazyVar(v)
        for f in rng.sample(FS[:12], 6):
            reduce(T, rng, h, w, f, [i - 1 for i in g['R']], wt=rng.choice(['none', 'default']) if f in WF else 'none', limit=g['max'])
    for _ in range(n):
        T.begin()
        dt = rng.choice(['d', 'd', 'd', 'f', 'i', 'i2', 'i8', 'bool'])
        axes = pick_axes(rng, rng.choice([1, 2, 2, 3, 3]), maxn=4)
        v = make_var(rng, axes, dtype=dt, nan=rng.choice([0, 0, .2, .6]), lo=-9, hi=9)
        if dt == 'bool': v = Var(v.axes, values=v.get() > 0, name='v')
        flat = dt == 'd' and rng.random() < .3
        if flat:    # the same value (not a dyadic one) everywhere: no spread at all, whatever the rounding
            d = np.array(v.get(), float); d[np.isfinite(d)] = rng.choice([.1, .3, .7, 1.1, 2.3, 9.9, 18.7, 33.3, -4.1]); v = Var(v.axes, values=d, name='v')
        h = T.step('new', [], enc_arr(v)); w = variant(rng, v) if rng.random() < .8 else LazyVar(v)
        if rng.random() < .15 and w.naxes > 1:
            p = rng.sample(range(w.naxes), w.naxes)
            w0, h0 = w, h
            h, w = observe(T, 'transpose', [h0], lambda: w0.transpose(*p), p=[i + 1 for i in p])
            if w is None: continue
        for _ in range(rng.randint(2, 5)):
            fs = FS if dt not in ('f',) else ['sum', 'min', 'max', 'nansum', 'nanmin', 'nanmax', 'argmin', 'argmax', 'mean', 'nanmean']
            f = rng.choice(fs if not flat else ['stdev', 'nanstdev', 'mean', 'nanmean', 'nanvariance', 'argmax'])
            lim = rng.choice([None, None, 1, 2, 3, 4, 7, 12])
            if f.startswith('arg'):
                reduce(T, rng, h, w, f, [rng.randrange(w.naxes)], limit=lim); continue
            k = rng.randint(0, w.naxes)
            R = rng.sample(range(w.naxes), k)
            ids = [ident(rng, w, i) for i in R]
            if rng.random() < .15 and R: ids.append(ident(rng, w, R[0]))
            wt, wv, hw = 'none', None, None
            if f in WF and dt != 'f':
                wt = rng.choice(['none', 'default', 'var'])
                if wt == 'var':
                    on = R if R else list(range(w.naxes))
                    on = rng.sample(on, rng.randint(1, len(on)))
                    if rng.random() < .06: on = [rng.randrange(w.naxes)]
                    wa = [w.axes[i] for i in on]
                    wv = Var(wa, values=np.array([rng.choice([.5, 1., 2., 3.]) for _ in range(int(np.prod([len(a) for a in wa])))]).reshape([len(a) for a in wa]), name='w')
                    hw, _x = observe(T, 'new', [], lambda: wv)
            h2, r = reduce(T, rng, h, w, f, R, wt, wv, hw, lim, ids, via=rng.random() < .1)
            # a reduction read in part, and reduced again
            if r is not None and isinstance(r, Var) and r.naxes and not f.endswith('stdev') and rng.random() < .5:
                es = [rand_slice(rng, len(a)) for a in r.axes]
                if all(len(np.arange(len(a))[e]) for a, e in zip(r.axes, es)):
                    observe(T, 'iget', [h2], lambda: r, es=[]) if False else None
                    old = pyg.MAX_ARRAY_SIZE; pyg.MAX_ARRAY_SIZE = lim or old
                    observe(T, 'isel', [h2], lambda: r.slice[tuple(es)], es=[enc_ix(e) for e in es])
                    pyg.MAX_ARRAY_SIZE = old
                if rng.random() < .3 and f in ('sum', 'min', 'max', 'nansum'):
                    reduce(T, rng, h2, r, rng.choice(['sum', 'max', 'nanmin']), [rng.randrange(r.naxes)], limit=lim)

if __name__ == '__main__': main(drive)
