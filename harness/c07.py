from gen import *
from pygeode.dataset import Dataset

def ensax(n): return dict(k='Ensemble', n='ensemble', v=[SC * i for i in range(n)], x=[])

def rand_req(rng, w):
    return [rand_ix(rng, len(a), ints=False) for a in w.axes]

def distinct_ok(es, w):
    for z, e in zip(w.axes, es):
        r = np.arange(len(z))[np.array(e) if isinstance(e, list) else e]
        if len(r) == 0 or len(set(r)) < len(r): return False
    return True

def subread(T, rng, h, w, k=2):
    for _ in range(k):
        es = rand_req(rng, w)
        if rng.random() < .5:
            if distinct_ok(es, w): observe(T, 'isel', [h], lambda: w.slice[tuple(es)], es=[enc_ix(e) for e in es])
        else:
            def go():
                a = w[tuple(es)]; return a, enc_vals(a)
            res, err = attempt(go)
            T.step('iget', [h], err or res[1], es=[enc_ix(e) for e in es])

def cut_up(rng, n):
    k = rng.randint(1, min(n, 4))
    if rng.random() < .5:
        c = sorted(rng.choice(range(k)) for _ in range(n))
    else: c = [rng.choice(range(k)) for _ in range(n)]
    u = sorted(set(c))
    c = [u.index(x) for x in c]
    return c, len(u)

def drive(T, rng, tier, shard, nshards):
    n = 150 if tier == 'quick' else 2500
    for g in behaviours(shard, nshards, 60 if tier == 'quick' else None):
        T.begin()
        v = make_var(rng, [dec_axis(x) for x in g['ax']]); v = variant(rng, v)
        h0 = T.step('new', [], enc_arr(v))
        hs, ps = [], []
        for p in range(1, max(g['cut']) + 1):
            ix = [j for j, c in enumerate(g['cut']) if c == p]
            h, w = observe(T, 'isel', [h0], lambda: v.slice[:, (ix,)] if len(ix) > 1 else v.slice[:, ix[0]:ix[0] + 1],
                           es=[enc_ix(slice(None)), enc_ix(ix)])
            hs.append(h); ps.append(w)
        if any(p is None for p in ps): continue
        h, w = observe(T, 'concat', hs, lambda: pyg.concatenate(*ps), iaxis=0)
        if w is None: continue
        r = g['req']
        es = [slice(None), np.array([j in r for j in range(len(w.axes[1]))])]
        observe(T, 'isel', [h], lambda: w.slice[tuple(es)], es=[enc_ix(e) for e in es])
    for _ in range(n):
        c = rng.choice(['cut', 'cut', 'cut', 'ens', 'ens', 'dsens', 'dscat', 'bad', 'same'])
        T.begin()
        kinds = SPATIAL[:4] + ['Time365', 'Time', 'Hybrid', 'ZAxis']
        v0 = make_var(rng, pick_axes(rng, rng.choice([1, 2, 2, 3]), kinds, maxn=6), nan=rng.choice([0, 0, .3]), dtype=rng.choice(['d', 'd', 'f', 'i', 'i2']), lo=-9, hi=9)
        v = variant(rng, v0)
        h0 = T.step('new', [], enc_arr(v0))
        i = rng.randrange(v.naxes)
        if c in ('cut', 'dscat'):
            cc, k = cut_up(rng, len(v.axes[i]))
            hs, ps = [], []
            for p in range(k):
                es = [slice(None)] * v.naxes
                es[i] = [j for j, q in enumerate(cc) if q == p] if rng.random() < .8 else np.array([q == p for q in cc])
                h, w = observe(T, 'isel', [h0], lambda: v.slice[tuple(es)], es=[enc_ix(e) for e in es])
                if rng.random() < .4 and w is not None: w = w.load(pbar=None)
                hs.append(h); ps.append(w)
            if any(p is None for p in ps): continue
            if rng.random() < .2 and len(ps) > 1:
                o = rng.sample(range(len(ps)), len(ps)); hs = [hs[x] for x in o]; ps = [ps[x] for x in o]
            if c == 'cut':
                ia = 0; kw = {}
                if rng.random() < .3 and len(ps) > 1 and all(len(p.axes[i]) < len(v.axes[i]) for p in ps):
                    ia = i + 1; kw = dict(iaxis=rng.choice([i, v.axes[i].name if v.whichaxis(v.axes[i].name) == i else i]))
                f = rng.choice([lambda: pyg.concatenate(*ps, **kw), lambda: pyg.concatenate(list(ps), **kw), lambda: pyg.concat.concat(ps, **kw)])
                h, w = observe(T, 'concat', hs, f, iaxis=ia)
                if w is not None: subread(T, rng, h, w)
            else:
                # the same cut for a dataset; a second variable lives on the same axes
                u0 = make_var(rng, v0.axes, name='u'); hu = T.step('new', [], enc_arr(u0))
                us, hus = [], []
                for ip, p in enumerate(ps):
                    h, w = observe(T, 'uses', [hu, hs[ip]], lambda: u0.slice[tuple([np.array([x in set(p.axes[i].values) for x in z.values]) if q == i else slice(None) for q, z in enumerate(u0.axes)])], i=i + 1)
                    us.append(w); hus.append(h)
                if any(p is None for p in us): continue
                only = make_var(rng, pick_axes(rng, 1, ['XAxis' if not any(a.name in ('lon', 'xaxis') for a in v0.axes) else 'YAxis'], maxn=3), name='only') if rng.random() < .4 else None
                st = {}
                def go():
                    dss = [Dataset([p, q] + ([only] if only is not None and z == 0 else [])) for z, (p, q) in enumerate(zip(ps, us))]
                    st['d'] = (rng.choice([pyg.concatenate, pyg.dataset.concat]))(*dss) if rng.random() < .5 else pyg.concatenate(dss)
                    return st['d'][v0.name]
                if len(ps) > 1 and any(len(p.axes[i]) == len(v.axes[i]) for p in ps): continue
                # axes of two pieces with equal coordinates are one axis of a dataset: pieces differ here
                h, w = observe(T, 'concat', hs, go, iaxis=0)
                if w is not None:
                    subread(T, rng, h, w, 1)
                    h, w = observe(T, 'concat', hus, lambda: st['d']['u'], iaxis=0)
                    if w is not None: subread(T, rng, h, w, 1)
                    if only is not None:
                        ho = T.step('new', [], enc_arr(only))
                        observe(T, 'same', [ho], lambda: st['d']['only'])
        elif c in ('ens', 'dsens', 'same'):
            k = rng.randint(1 if c != 'same' else 2, 4)
            mem, hs = [v], [h0]
            for _ in range(k - 1):
                u0 = make_var(rng, v0.axes, nan=rng.choice([0, .3]), dtype=rng.choice([v0.dtype, 'd', 'f', 'i']), lo=-9, hi=9, name=v0.name)
                mem.append(variant(rng, u0)); hs.append(T.step('new', [], enc_arr(u0)))
            if rng.random() < .1 and k > 1:
                # a member on other points is rejected
                u0 = make_var(rng, pick_axes(rng, v0.naxes, kinds, maxn=6), name=v0.name)
                if len({str(a.startdate) for q in (v0, u0) for a in q.axes if hasattr(a, 'startdate')}) > 1: u0 = v0
                mem[-1] = u0; hs[-1] = T.step('new', [], enc_arr(u0))
            if c == 'ens': h, w = observe(T, 'stack', hs, lambda: pyg.ensemble(*mem), pos=0, ax=ensax(k))
            elif c == 'same':
                h, w = observe(T, 'concat', hs, lambda: pyg.concatenate(*mem), iaxis=0)
            else:
                x = rng.choice([lambda: pyg.ensemble(*[Dataset([m]) for m in mem])[v0.name], lambda: pyg.ensemble(*[[m] for m in mem])[0]])
                h, w = observe(T, 'stack', hs, x, pos=0, ax=ensax(k))
            if w is not None: subread(T, rng, h, w)
        else:
            # pieces that do not fit together
            u0 = make_var(rng, pick_axes(rng, rng.choice([v0.naxes, v0.naxes, 1, 2]), kinds, maxn=6), name=v0.name)
            # (time axes of different origins are matched by date: C09)
            if len({str(a.startdate) for q in (v0, u0) for a in q.axes if hasattr(a, 'startdate')}) > 1: continue
            hu = T.step('new', [], enc_arr(u0))
            h, w = observe(T, 'concat', [h0, hu], lambda: pyg.concatenate(v, u0), iaxis=0)

if __name__ == '__main__': main(drive)
