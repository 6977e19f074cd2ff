from gen import *

def source(rng, T):
    T.begin()
    v = make_var(rng, pick_axes(rng, rng.choice([1, 1, 2, 2, 3, 4]), maxn=rng.choice([3, 5, 7]), long=.25))
    h = T.step('new', [], enc_arr(v))
    return h, variant(rng, v)

def drive(T, rng, tier, shard, nshards):
    n = 60 if tier == 'quick' else 600
    # every slice of a short axis, exhaustively over this shard's share
    allsl = [slice(a, b, c) for N in [4] for a in [None] + list(range(-6, 7)) for b in [None] + list(range(-6, 7))
             for c in (None, 1, 2, 3, -1, -2, -3)]
    mine = [s for i, s in enumerate(allsl) if i % nshards == shard]
    T.begin()
    v = make_var(rng, [A.Lat([1., 2.5, 0.5, 7.], weights=[1, 2, .5, 1.]), A.Lon([10., 20.])])
    h = T.step('new', [], enc_arr(v))
    w = LazyVar(v)
    for s in mine:
        r, err = attempt(lambda: w[s])
        T.step('iget', [h], err or enc_vals(r), es=[enc_ix(s)])
        r, err = attempt(lambda: enc_arr(w.slice[s]))
        T.step('isel', [h], err or r, es=[enc_ix(s)])
        if T.h > 40: T.begin(); h = T.step('new', [], enc_arr(v))
    # chains generated by TLC from MC_Idx
    v = make_var(rng, [A.Lat([1., 2., 3.], weights=[.5, 1., 1.5]), A.Lon([2., 1.])])
    for i, chain in enumerate(behaviours(shard, nshards, 120 if tier == 'quick' else None)):
        T.begin()
        h = T.step('new', [], enc_arr(v)); w = LazyVar(v)
        for e in chain:
            r, err = attempt(lambda: w.slice[dec_ix(e)])
            o, err = attempt(lambda: enc_arr(r)) if err is None else (None, err)
            h = T.step('isel', [h], err or o, es=[e])
            if err is not None: break
            w = r
    for _ in range(n):
        h, v = source(rng, T)
        pool = [(h, v)]
        for _ in range(rng.randint(2, 6)):
            h, v = rng.choice(pool[-2:])
            c = rng.random()
            if c < .1:
                i = rng.randrange(v.naxes) if v.naxes else None
                if i is None: continue
                x = v.axes[i]
                r, err = attempt(lambda: enc_arr(x))
                h2 = T.step('axvar', [h], err or r, i=i + 1)
                if err is None: pool.append((h2, x))
                continue
            k = rng.randint(1, v.naxes) if v.naxes else 0
            if k == 0: continue
            es = [rand_ix(rng, len(a), ints=True) for a in v.axes[:k]]
            if rng.random() < .06: es[rng.randrange(k)] = rng.choice([len(v.axes[0]) + 9, -99])
            key = tuple(es) if k > 1 or rng.random() < .5 or not isinstance(es[0], (int, slice)) else es[0]
            if k < v.naxes and rng.random() < .3: key = (tuple(es) + (Ellipsis,))
            enc = [enc_ix(e) for e in es]
            if rng.random() < .2 and k < v.naxes:   # leading Ellipsis: aligned to the last axes
                es = [rand_ix(rng, len(a)) for a in v.axes[-k:]]
                key = (Ellipsis,) + tuple(es)
                enc = [enc_ix(slice(None))] * (v.naxes - k) + [enc_ix(e) for e in es]
            if c < .45:
                r, err = attempt(lambda: v[key])
                T.step('iget', [h], err or enc_vals(r), es=enc)
            else:
                r, err = attempt(lambda: v.slice[key])
                o, err = attempt(lambda: enc_arr(r)) if err is None else (None, err)
                h2 = T.step('isel', [h], err or o, es=enc)
                if err is None and all(len(a) for a in r.axes): pool.append((h2, r))

if __name__ == '__main__': main(drive)
