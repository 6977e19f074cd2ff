from gen import *
from pygeode.dataset import Dataset

def key_of(rng, v, i):
    """a keyword designating axis i of v (the axis name, a class alias, or an associated array)"""
    ax = v.axes[i]
    ks = [ax.name]
    if rng.random() < .3: ks.append(type(ax).__name__.lower())
    aux = [k for k in ax.auxarrays if sum(k in a.auxarrays for a in v.axes) == 1 and not any(a.has_alias(k) for a in v.axes)]
    if aux and rng.random() < .35: return rng.choice(sorted(aux)), True
    k = rng.choice(ks)
    if v.whichaxis(k) != i: k = ax.name
    return k, False

def bound(rng, vals):
    """a value on, between or beyond the coordinates, as an integer number of eighths"""
    lo, hi = (min(vals), max(vals)) if len(vals) else (0, 1)
    r = rng.random()
    if len(vals) and r < .45: x = rng.choice(list(vals))
    else: x = rng.randint(int(lo * 8) - 16, int(hi * 8) + 16) / 8.
    return round(x * 8) / 8.

def no_tie(rng, vals):
    for _ in range(20):
        x = bound(rng, vals)
        d = sorted(abs(np.asarray(vals, float) - x))
        if len(d) < 2 or d[1] - d[0] > 1e-6: return x
    return float(vals[0])

def cond(rng, v):
    i = rng.randrange(v.naxes)
    k, aux = key_of(rng, v, i)
    ax = v.axes[i]
    vals = np.asarray(ax.auxarrays[k] if aux else ax.values)
    fl = vals.dtype.name.startswith('float')
    n = len(ax)
    pre, m, s = '', False, False
    if not aux:
        r = rng.random()
        if r < .15: m = True
        elif r < .3: s = True
        if m or s: k = ax.name
    if rng.random() < .25: pre += 'n'
    c = rng.random()
    sc = False
    if c < .3 and not aux:                                 # by index
        pre += 'i'
        q = rng.random()
        o = lambda: None if rng.random() < .2 else rng.randint(-n - 1, n + 1)
        if q < .3 and n: val = rng.randint(-n, n - 1); sc = True; ev = [[val]]
        elif q < .55: val = (o(), o()); ev = [[] if x is None else [x] for x in val]
        elif q < .7: val = (o(), o(), rng.choice([1, 2, -1, -2])); ev = [[] if x is None else [x] for x in val]
        elif n:
            val = [rng.randint(-n, n - 1) for _ in range(rng.choice([1, 2, 4, 5]))]
            if len(val) == 2: pre += 'l'
            ev = [[x] for x in val]
        else: val = (0, 1); ev = [[0], [1]]
    elif c < .55:
        sc = True
        val = no_tie(rng, vals) if fl and n else bound(rng, vals)
        if not fl: val = int(val) if val == int(val) else val
        ev = [[int(round(val * 8))]]
    elif c < .7:
        pre += 'l'
        val = [no_tie(rng, vals) if fl and n else bound(rng, vals) for _ in range(rng.randint(1, 4))]
        ev = [[int(round(x * 8))] for x in val]
    else:
        val = (bound(rng, vals), bound(rng, vals)); ev = [[int(round(x * 8))] for x in val]
        if rng.random() < .03: val = val + (1.,); ev = ev + [[8]]
    pre = ''.join(rng.sample(pre, len(pre)))
    full = ('m' if m else '') + ('s' if s else '') + pre
    kw = (full + '_' if full else '') + k
    return kw, val, dict(key=k, i='i' in pre, l='l' in pre, n='n' in pre, m=m, s=s, sc=sc, v=ev, fl=bool(fl))

def conds(rng, v):
    kws, cs = {}, []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        kw, val, c = cond(rng, v)
        if kw in kws: continue
        kws[kw] = val; cs.append(c)
    return kws, cs

def drive(T, rng, tier, shard, nshards):
    # behaviours generated by TLC from MC_Sel, replayed on the real code
    v0 = Var([A.Lat([1., 2.5, .5], weights=[1., .5, 2.]), A.NamedAxis([2., 1.], 'foo')],
             values=[[10. * i + j - 7 for j in range(2)] for i in range(3)], name='v')
    for i, cs in enumerate(behaviours(shard, nshards, 110 if tier == 'quick' else None)):
        kws, ok = {}, True
        for c in cs:
            pre = ('m' if c['m'] else '') + ('s' if c['s'] else '') + ('n' if c['n'] else '') + ('i' if c['i'] else '') + ('l' if c['l'] else '')
            k = (pre + '_' if pre else '') + c['key']
            if k in kws: ok = False
            z = [None if not x else x[0] if c['i'] else x[0] / 8. for x in c['v']]
            kws[k] = z[0] if c['sc'] else rng.choice([tuple, list])(z)
        if not ok: continue
        if T.h == 0 or T.h > 30:
            T.begin(); h = T.step('new', [], enc_arr(v0)); w = LazyVar(v0)
        o, err = attempt(lambda: enc_arr(w(**kws)))
        T.step('sel', [h], err or o, cs=cs, ignore=False)
    n = 160 if tier == 'quick' else 2500
    for _ in range(n):
        T.begin()
        axes = pick_axes(rng, rng.choice([1, 1, 2, 2, 3]), maxn=6, long=.5)
        if rng.random() < .3:
            j = rng.randrange(len(axes))
            if type(axes[j]) is A.NamedAxis: axes[j] = A.NamedAxis(rng.sample(range(max(9, 2 * len(axes[j]))), len(axes[j])), 'foo')   # integer coordinates
        v = make_var(rng, axes)
        h = T.step('new', [], enc_arr(v)); w = variant(rng, v)
        for _ in range(rng.randint(1, 3)):
            if w.naxes == 0 or any(len(a) == 0 for a in w.axes): break
            kws, cs = conds(rng, w)
            r = rng.random()
            ignore = False
            if r < .12:      # a keyword that matches nothing
                bad = rng.choice(['nosuch', 'i_nosuch', 'm_nosuch', 'lati'])
                kws[bad] = 1; ignore = rng.random() < .5
                cs.append(dict(key=bad.split('_')[-1], i=bad[:2] == 'i_', l=False, n=False, m=bad[:2] == 'm_', s=False, sc=True, v=[[1]], fl=False))
            if r > .9 and w.naxes >= 1:      # an axis by itself
                i = rng.randrange(w.naxes); x = w.axes[i]
                hx = T.step('axvar', [h], enc_arr(x), i=i + 1)
                kws = {k: z for k, z in kws.items()}
                keep = [(k, z, c) for (k, z), c in zip(list(kws.items()), cs) if not (c['m'] or c['s'])]
                res, err = attempt(lambda: enc_arr(x(**{k: z for k, z, c in keep})))
                # the axis call has no ignore option
                T.step('sel', [hx], err or res, cs=[c for k, z, c in keep], ignore=False)
                continue
            if r > .8:       # through a dataset: keywords that do not apply are ignored
                other = Var([A.Lon([1., 2.])], values=[5., 6.], name='zz')
                res, err = attempt(lambda: Dataset([w, ])(**kws)[w.name])
                ignore = True
            else:
                res, err = attempt(lambda: w(ignore_mismatch=ignore, **kws) if ignore else w(**kws))
            o, err = attempt(lambda: enc_arr(res)) if err is None else (None, err)
            dsig = r > .8
            h2 = T.step('sel', [h], err or o, cs=cs, ignore=bool(ignore))
            if err is not None: continue
            if rng.random() < .3:   # repeating conditions that already hold changes nothing (where no axis was dropped)
                if not ignore and not any(c['m'] or c['s'] or c['i'] or c['n'] for c in cs) and all(len(a) for a in res.axes):
                    res2, err2 = attempt(lambda: enc_arr(res(**kws)))
                    T.step('same', [h2], err2 or res2)
            h, w = h2, res

if __name__ == '__main__': main(drive)
