from kinds import *

SP = 2000000000
def ints(a, q):
    out = []
    for x in np.asarray(a).ravel().tolist():
        x = float(x)
        out.append(SP if x != x else SP + 1 if x == float('inf') else SP + 2 if x == -float('inf') else int(round(x * q)) if abs(x * q) < 1e9 else SP + 3)
    return out

def scale(a):
    f = np.abs(np.asarray(a, float)); f = f[np.isfinite(f)]
    return 1e6 / max(f.max() if f.size else 1, 1e-2)

def err(o): return dict(k=o['k'], ax=[], sh=[], dat=[], msg=o['msg'])

def enc_axes(v): return [enc_axis(a) for a in v.axes]

def with_limit(lim, fn):
    old = pyg.MAX_ARRAY_SIZE
    def go():
        pyg.MAX_ARRAY_SIZE = lim
        try: return fn()
        finally: pyg.MAX_ARRAY_SIZE = old
    return attempt(go)

def study(T, rng, name, nreads, requests=False, wrapped=None):
    """build one variable, read it whole, then in many other ways"""
    T.emit(op='begin', kind=name)
    K = Kit(rng)
    r, e = attempt(lambda: KINDS[name](K, name))
    if e: T.emit(op='truth', kind=name, srcs=K.srcs, built=0, reqs=[], obs=err(e)); return
    v, need = r
    if wrapped is None: wrapped = rng.random() < .3
    if wrapped:
        r, e = attempt(lambda: wrap(rng, v))
        if e: T.emit(op='truth', kind=name, srcs=K.srcs, built=0, reqs=[], obs=err(e)); return
        if r is not v: need = []
        v = r
    built = len(K.taken()) if requests and name not in EAGER else 0
    K.clear()
    r, e = attempt(lambda: np.array(v.get()))
    reqs = K.taken() if requests else []
    if e: T.emit(op='truth', kind=name, srcs=K.srcs, built=built, reqs=reqs, obs=err(e)); return
    q = scale(r)
    ax, e = attempt(lambda: enc_axes(v))
    T.emit(op='truth', kind=name, srcs=K.srcs, built=built, reqs=reqs, obs=err(e) if e else dict(k='arr', ax=ax, sh=list(r.shape), dat=ints(r, q), msg=''))
    if e: return
    for _ in range(nreads):
        lim = rng.choice([1, 2, 3, 4, 5, 7, 10, 10**8])
        es = [rand_ix(rng, n) for n in v.shape] if rng.random() < (.6 if name.startswith('red-') else .85) else [slice(None)] * v.naxes
        mode = rng.choice(['get', 'slice'])
        if mode == 'slice': es = [slice(i, i + 1 or None) if isinstance(i, int) and rng.random() < .5 else i for i in es]
        ix = tuple((tuple([i]) if isinstance(i, list) else i) for i in es)
        if mode == 'get':
            def go(): a = np.asarray(v[ix] if ix else v[()]); return dict(k='vals', ax=[], sh=list(a.shape), dat=ints(a, q), msg='')
        else:
            def go():
                w = v.slice[ix] if ix else v
                a = np.asarray(w.get()); return dict(k='arr', ax=enc_axes(w), sh=list(a.shape), dat=ints(a, q), msg='')
        o, e = with_limit(lim, go)
        full = all(isinstance(i, slice) and i == slice(None) for i in es)
        nd = [dict(s=x['s'], map=x['map'], once=full if x['once'] == 'full' else x['once'], lim=lim if x['stream'] else 0, p=x['p']) for x in need] if requests else []
        if e or 0 in o['sh']: nd = []
        if not requests: K.clear()
        T.emit(op='read', kind=name, mode=mode, es=[enc_ix(i) for i in es], lim=lim, reqs=K.taken(), need=nd, obs=err(e) if e else o)

def drive(T, rng, tier, shard, nshards):
    names = sorted(KINDS); 
    rounds = 2 if tier == 'quick' else 30
    for rd in range(rounds):
        for i, nm in enumerate(names):
            # the cheaper kinds are visited by every shard, the many binnings are shared out
            if nm.startswith('clim-') and tier == 'quick' and (i + rd + shard) % 4: continue
            for _ in range(2 if nm.startswith('red-') else 1): study(T, rng, nm, 5 if tier == 'quick' else 12)

if __name__ == '__main__': main(drive)
