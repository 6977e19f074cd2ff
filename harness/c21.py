from gen import *

def regular_time(rng, n):
    k = rng.choice([TA.StandardTime, TA.ModelTime365, TA.ModelTime360])
    st = rng.choice([1, 1, 2, 5]) * rng.choice([1., 1., .5])
    return k(values=np.arange(n) * st + rng.choice([0, 3.]), units=rng.choice(['days', 'days', 'hours']), startdate=dict(year=rng.choice([1999, 2000]), month=rng.choice([1, 2, 12]), day=rng.randint(1, 27)))

def comp(T, rng, h, v, i, ev=None, W=None):
    n = v.shape[i]; ax = v.axes[i]
    if ev is None: ev = sorted(rng.sample(range(n), rng.randint(1, min(n, 4))))
    k = len(ev)
    if W is None:
        one = rng.random() < .5
        ln = [rng.randint(1, n + 2)] * k if one else [rng.randint(1, n + 2) for _ in ev]
        so = rng.random() < .5
        of = [rng.randint(-1, 3)] * k if so else [rng.randint(-1, 4) for _ in ev]
    else:
        one, ln, of = W['one'], list(W['len']), list(W['off']); so = len(set(of)) == 1 and rng.random() < .5
    bad = W is None and rng.random() < .04
    if bad:
        if one: one, ln = False, ln + [1]
        else: ln = ln + [2]
    how = rng.choice(['li', 'li', 'l', 'i', 'range', 'cls'])
    try: vals = [ax.values[p] for p in ev]; simple = not isinstance(ax, TA.Time)
    except Exception: simple = False
    key = 'li_' + ax.name; val = ev
    if how == 'l' and simple: key, val = 'l_' + ax.name, [float(x) for x in vals]
    elif how == 'i' and len(ev) == 1: key, val = 'i_' + ax.name, ev[0]
    elif how == 'range' and len(ev) > 1 and all(b - a == 1 for a, b in zip(ev, ev[1:])): key, val = 'i_' + ax.name, (ev[0], ev[-1] + 1)
    elif how == 'cls' and type(ax) not in (A.NamedAxis,) and not isinstance(ax, TA.Time): key = 'li_' + type(ax).__name__.lower()
    evlen = ln[0] if one else rng.choice([list, tuple, np.array])(ln)
    evoff = of[0] if so else rng.choice([list, tuple, np.array])(of)
    kw = {key: val, 'evlen': evlen}
    if not (so and of[0] == 0 and rng.random() < .5): kw['evoff'] = evoff
    return observe(T, 'composite', [h], lambda: v.composite(**kw), i=i + 1, ev=ev, w=dict(one=one, len=ln, off=of))

def reads(T, rng, h, r):
    for _ in range(rng.randint(1, 3)):
        es = [rand_ix(rng, len(a)) for a in r.axes]
        if rng.random() < .6: es = [e if rng.random() < .5 else slice(None) for e in es]
        if rng.random() < .6:
            res, err = attempt(lambda: enc_vals(r[tuple((tuple([e]) if isinstance(e, list) else e) for e in es)]))
            T.step('iget', [h], err or res, es=[enc_ix(e) for e in es])
        else:
            observe(T, 'isel', [h], lambda: r.slice[tuple((tuple([e]) if isinstance(e, list) else e) for e in es)], es=[enc_ix(e) for e in es])

def flat(T, rng, h, r, comp_at=None):
    if comp_at is not None and rng.random() < .5:
        return observe(T, 'flatten', [h], lambda: r.flatten(), i=comp_at + 2, given=False, comp=True, nax=dict(v=[]))
    if r.naxes < 2: return None, None
    i = rng.randint(1, r.naxes - 1); o = r.axes[i - 1]
    n = len(o) * len(r.axes[i])
    plain = not isinstance(o, (TA.Time, A.Hybrid, A.Index, A.Lat)) and n > 0
    if plain and rng.random() < .5: return observe(T, 'flatten', [h], lambda: r.flatten(i), i=i + 1, given=False, comp=False, nax=dict(v=[]))
    na = rng.choice([A.NamedAxis(np.arange(n) * .5, 'flat'), A.TAxis(np.arange(n) + 1.)])
    return observe(T, 'flatten', [h], lambda: (r.flatten(i, naxis=na) if rng.random() < .6 else r.flatten(inner=i, naxis=na)), i=i + 1, given=True, comp=False, nax=enc_axis(na))

def prog(T, rng, axes, i, ev=None, W=None):
    v0 = make_var(rng, axes, dtype=rng.choice(['d', 'd', 'f', 'i', 'i8']), nan=rng.choice([0, 0, .2]), lo=1, hi=60)
    h = T.step('new', [], enc_arr(v0)); w = variant(rng, v0)
    if i is None:
        h2, r = flat(T, rng, h, w); 
    else: h2, r = comp(T, rng, h, w, i, ev, W)
    if r is None: return
    reads(T, rng, h2, r)
    if i is not None and rng.random() < .6:
        if rng.random() < .2 and not any(isinstance(a, TA.Yearless) for a in r.axes):   # through another derivation first
            es = [slice(None, None, -1) if rng.random() < .3 else slice(None) for _ in r.axes]
            h3, r3 = observe(T, 'isel', [h2], lambda: r.slice[tuple(es)], es=[enc_ix(e) for e in es])
            if r3 is not None:
                h4, r4 = flat(T, rng, h3, r3)
                if r4 is not None: reads(T, rng, h4, r4)
        else:
            h4, r4 = flat(T, rng, h2, r, comp_at=i)
            if r4 is not None:
                reads(T, rng, h4, r4)
    elif i is None and rng.random() < .4:
        h4, r4 = flat(T, rng, h2, r)
        if r4 is not None: reads(T, rng, h4, r4)

def some_axes(rng, n):
    ax = rng.choice([lambda: A.Pres(coords(rng, n, rng.choice(['inc', 'dec', 'perm']))), lambda: A.NamedAxis(coords(rng, n), 'foo'), lambda: A.Lon(coords(rng, n, 'inc')), lambda: regular_time(rng, n), lambda: regular_time(rng, n)])()
    o = pick_axes(rng, rng.choice([0, 1, 1, 2]), [k for k in ['Lat', 'Lon', 'Pres', 'NamedAxis', 'Index'] if k != type(ax).__name__], maxn=3)
    i = rng.randint(0, len(o)); return o[:i] + [ax] + o[i:], i

def drive(T, rng, tier, shard, nshards):
    for g in behaviours(shard, nshards, 60 if tier == 'quick' else None):
        T.begin(); axes, i = some_axes(rng, g['n']); prog(T, rng, axes, i, g['ev'], g['w'])
    for _ in range(150 if tier == 'quick' else 4000):
        T.begin(); axes, i = some_axes(rng, rng.randint(2, 8)); prog(T, rng, axes, i)
    for _ in range(60 if tier == 'quick' else 1500):
        T.begin(); prog(T, rng, pick_axes(rng, rng.choice([2, 2, 3, 3]), ['Lat', 'Lon', 'Pres', 'NamedAxis', 'ZAxis', 'Hybrid', 'Time365', 'Time', 'Index'], maxn=5), None)

if __name__ == '__main__': main(drive)
