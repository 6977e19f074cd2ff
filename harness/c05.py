from gen import *

def newname(rng): return rng.choice(['alpha', 'beta', 'gam_ma', 'delta'])

def drive(T, rng, tier, shard, nshards):
    n = 150 if tier == 'quick' else 2500
    # every arrangement generated by TLC from MC_Restr
    for g in behaviours(shard, nshards, 60 if tier == 'quick' else None):
        T.begin()
        v = make_var(rng, [dec_axis(x) for x in g['ax']])
        h = T.step('new', [], enc_arr(v)); w = variant(rng, v)
        for s in g['ops']:
            if s['op'] == 'transpose': h, w2 = observe(T, 'transpose', [h], lambda: w.transpose(*[i - 1 for i in s['p']]), p=s['p'])
            elif s['op'] == 'sort':
                kw = {w.axes[i].name: o for i, o in enumerate(s['o']) if o != 9}
                h, w2 = observe(T, 'sort', [h], lambda: w.sorted(**kw), o=s['o'])
            else: h, w2 = observe(T, 'squeeze', [h], lambda: w.squeeze(*[i - 1 for i in s['s']]), s=s['s'])
            if w2 is None: break
            w = w2
    for _ in range(n):
        T.begin()
        kinds = SPATIAL[:4] + ['Time365', 'Time', 'Hybrid', 'Index', 'ZAxis']
        v = make_var(rng, pick_axes(rng, rng.choice([1, 2, 2, 3, 3]), kinds, maxn=4, long=.3), nan=rng.choice([0, 0, .3]),
                     dtype=rng.choice(['d', 'd', 'd', 'f', 'i', 'i2']), lo=-9, hi=9)
        if rng.random() < .4 and v.naxes:    # a degenerate axis
            v = v.slice[tuple(slice(1) if rng.random() < .5 else slice(None) for _ in v.axes)]
            v = Var(v.axes, values=v.get(), name='v')
        h = T.step('new', [], enc_arr(v)); w = variant(rng, v)
        for _ in range(rng.randint(2, 6)):
            if w.size == 0 or w.size > 500: break
            c = rng.choice(['transpose', 'transpose', 'squeeze', 'extend', 'sort', 'sort', 'rename', 'renameax', 'replaceax', 'cast', 'fill', 'unfill', 'isel', 'sortax', 'load'])
            nx = w.naxes
            if nx == 0 and c not in ('extend', 'rename', 'cast', 'fill', 'unfill'): continue
            h0, w0 = h, w
            if c == 'transpose':
                p = rng.sample(range(nx), rng.randint(1, nx))
                h, w = observe(T, c, [h0], lambda: w0.transpose(*[ident(rng, w0, i) for i in p]), p=[i + 1 for i in p])
                if w is not None and rng.random() < .3:   # transposing back restores the original
                    q = (p + [i for i in range(nx) if i not in p])
                    back = [q.index(i) for i in range(nx)]
                    observe(T, 'same', [h0], lambda: w.transpose(*back))
            elif c == 'squeeze':
                s = rng.choice([[], [], rng.sample(range(nx), 1)])
                args = [ident(rng, w0, i) for i in s]
                if s and rng.random() < .3: args = [args]
                h, w = observe(T, c, [h0], lambda: w0.squeeze(*args), s=[i + 1 for i in s])
            elif c == 'extend':
                pos = rng.randint(0, nx)
                names = [a.name for a in w0.axes]
                new = [A.NamedAxis(coords(rng, rng.randint(1, 2)), nm) for nm in rng.sample(['ext1', 'ext2', 'ext3'], rng.choice([1, 1, 2])) if nm not in names]
                if not new: continue
                enc = [enc_axis(a) for a in new]
                h, w = observe(T, c, [h0], (lambda: w0.extend(pos, *new)) if rng.random() < .6 else (lambda: w0.extend(pos, new)), pos=pos, ax=enc)
                if w is not None and all(len(a) == 1 for a in new):
                    observe(T, 'same', [h0], lambda: w.squeeze(*[a.name for a in new]))
            elif c == 'sort':
                o = [9] * nx; kw, pa = {}, []
                for i in rng.sample(range(nx), rng.randint(0, nx)):
                    if rng.random() < .5: pa.append(ident(rng, w0, i)); o[i] = 0
                    else: o[i] = rng.choice([1, -1, 0]); kw[w0.axes[i].name] = o[i]
                if all(x == 9 for x in o): o = [0] * nx
                if any(w0.whichaxis(k) != [a.name for a in w0.axes].index(k) for k in kw): continue
                h, w = observe(T, c, [h0], lambda: w0.sorted(*pa, **kw), o=o)
                if w is not None and rng.random() < .3 and not any(isinstance(k, A.Axis) for k in pa): observe(T, 'same', [h], lambda: w.sorted(*pa, **kw))
            elif c == 'sortax':
                i = rng.randrange(nx); x = w0.axes[i]; rev = rng.choice([None, True, False])
                hx, _r = observe(T, 'axvar', [h0], lambda: x, i=i + 1)
                observe(T, 'sort', [hx], lambda: x.sorted(reverse=rev), o=[0 if rev is None else -1 if rev else 1])
            elif c == 'rename':
                h, w = observe(T, 'same', [h0], lambda: w0.rename('other'))
            elif c == 'renameax':
                i = rng.randrange(nx); nm = newname(rng)
                if any(a.name == nm for a in w0.axes): continue
                h, w = observe(T, c, [h0], lambda: w0.rename_axes(**{w0.axes[i].name: nm}) if w0.whichaxis(w0.axes[i].name) == i else w0, i=i + 1, n=nm)
                if w is w0: break
            elif c == 'replaceax':
                new = [a if rng.random() < .5 else make_axis(rng, rng.choice(['Lat', 'Lon', 'Pres', 'NamedAxis']), len(a)) for a in w0.axes]
                if len(set(a.name for a in new)) < nx: continue
                if rng.random() < .05: new[0] = A.Lat(np.arange(len(new[0]) + 1.))
                h, w = observe(T, c, [h0], lambda: w0.replace_axes(newaxes=rng.choice([list, tuple])(new)), ax=[enc_axis(a) for a in new])
                if w is None: break
                if rng.random() < .3:
                    i = rng.randrange(nx); nx_ = make_axis(rng, 'Height' if False else 'NamedAxis', len(w.axes[i]), name='newax')
                    if any(a.name == 'newax' for a in w.axes): continue
                    w1, h1 = w, h
                    enc = [enc_axis(a) for a in w1.axes]; enc[i] = enc_axis(nx_)
                    k = ident(rng, w1, i)
                    try: hash(k)
                    except Exception: continue
                    h, w = observe(T, c, [h1], lambda: w1.replace_axes({k: nx_}, keep_old_name=False), ax=enc)
            elif c == 'cast':
                t = rng.choice(['float', 'float', 'int', 'bool'])
                if t != 'float' and (np.isnan(np.asarray(w0.get(), float)).any()): continue
                dt = dict(float=['d', 'float64', np.float64, 'f'], int=['i', 'int64', np.int32], bool=['bool'])[t]
                h, w = observe(T, c, [h0], lambda: w0.as_type(rng.choice(dt)), t=t)
            elif c == 'fill':
                x = rng.choice([0, -999, 7.5]) if w0.dtype.kind == 'f' else 3
                h, w = observe(T, c, [h0], lambda: w0.fill(x), c=rat(x))
            elif c == 'unfill':
                vals = np.asarray(w0.get(), float).ravel()
                x = float(rng.choice(list(vals[~np.isnan(vals)]) or [1.]))
                h, w = observe(T, c, [h0], lambda: w0.unfill(x), c=rat(x))
            elif c == 'load':
                h, w = observe(T, 'same', [h0], lambda: w0.load(pbar=None))
            else:
                es = [rand_ix(rng, len(z), ints=False) for z in w0.axes]
                if any(len(np.arange(len(z))[np.array(e) if isinstance(e, list) else e]) == 0 or len(set(np.arange(len(z))[np.array(e) if isinstance(e, list) else e])) < len(np.arange(len(z))[np.array(e) if isinstance(e, list) else e]) for z, e in zip(w0.axes, es)): continue
                h, w = observe(T, c, [h0], lambda: w0.slice[tuple(es)], es=[enc_ix(e) for e in es])
            if w is None: break

if __name__ == '__main__': main(drive)
