from gen import *
KINDS = ['Lat', 'Lon', 'Pres', 'XAxis', 'YAxis', 'ZAxis', 'Height', 'NamedAxis', 'Index', 'Axis', 'DummyAxis', 'Hybrid', 'Coef', 'Freq']
PARENT = dict(Lat='YAxis', Lon='XAxis', Pres='ZAxis', Height='ZAxis', Hybrid='ZAxis')

class Ax:
    """description of an axis: integers on a lattice base + s * i, with noise far below the tolerance"""
    def __init__(self, k, n, v, x, s, base, noise=None, rtol=None, dt=None):
        self.k, self.n, self.v, self.x, self.s, self.base, self.noise, self.rtol, self.dt = k, n, v, x, s, base, noise or [0] * len(v), rtol, dt
    def clone(self, **kw):
        d = dict(k=self.k, n=self.n, v=list(self.v), x={a: list(b) for a, b in self.x.items()}, s=self.s, base=self.base, rtol=self.rtol, dt=self.dt)
        d.update(kw); return Ax(**d)
    def vals(self):
        f = np.array([self.base + self.s * i for i in self.v], float)
        return np.array([y * (1 + e) for y, e in zip(f, self.noise)], float).astype(self.dt or 'd')
    def real(self):
        kw = {a: np.array(b) for a, b in self.x.items()}
        if self.k == 'Hybrid':
            kw.setdefault('A', np.arange(len(self.v)) * 10.); kw.setdefault('B', np.arange(len(self.v)) / 4.)
            return A.Hybrid(self.vals(), kw.pop('A'), kw.pop('B'), **kw)
        if self.k == 'Lat' and 'weights' not in kw: kw['weights'] = np.ones(len(self.v))
        if self.rtol: kw['rtol'] = self.rtol
        if self.k in ('NamedAxis', 'DummyAxis'): return getattr(A, self.k)(self.vals(), self.n, **kw)
        if self.k in ('Index', 'Coef'): return getattr(A, self.k)(list(self.vals()), name=self.n, **kw)
        return getattr(A, self.k)(self.vals(), name=self.n, **kw)
    def enc(self, r):
        return dict(k=self.k, n=str(r.name), v=list(self.v), x=[dict(a=str(a), v=[str(z) if isinstance(z, str) else repr(float(z)) for z in np.asarray(b).ravel().tolist()]) for a, b in sorted(r.auxarrays.items())])

def gap(v):
    u = sorted(set(v)); return min([b - a for a, b in zip(u, u[1:])] or [0])

def loose(*axs):
    out = False
    for x in axs:
        m = max([abs(z) for z in x.vals().tolist()] or [0])
        if m * (x.rtol or (1e-3 if x.k == 'Lon' else 1e-5)) > 0.3 * abs(x.s): out = True
    return out

def ask(T, da, db, a, b, shared=None):
    """compare and map a pair, both ways"""
    def go():
        return None, dict(k='eq', ab=bool(a == b), ba=bool(b == a), aa=bool(a == a), bb=bool(b == b), ne=bool(a != b))
    ea, eb = da.enc(a), db.enc(b)
    lo = loose(da, db)
    r, err = attempt(go)
    T.emit(op='eq', a=ea, b=eb, loose=lo, obs=err or r[1])
    for x, y, ex, ey in ((a, b, ea, eb), (b, a, eb, ea)):
        def go():
            m = x.map_to(y)
            return None, dict(k='none') if m is None else dict(k='seq', ix=[int(i) for i in m])
        r, err = attempt(go)
        T.emit(op='map', a=ex, b=ey, loose=lo, obs=err or r[1])

def mutate(rng, d):
    n = len(d.v)
    c = rng.choice(['same', 'same', 'noise', 'perm', 'rev', 'shift', 'one', 'one', 'sub', 'super', 'kind', 'parent', 'name', 'aux', 'auxval', 'dtype', 'swap', 'fine'])
    v = list(d.v)
    if c == 'noise' and len(set(v)) == n: return d.clone(noise=[rng.choice([0, 1, -1]) * 1e-15 for _ in v])
    if c == 'perm': rng.shuffle(v)
    elif c == 'rev': v = v[::-1]
    elif c == 'shift':
        k = rng.choice([1, -1, 2, 5]); v = [x + k for x in v]
    elif c == 'one' and n: v[rng.randrange(n)] += rng.choice([1, -1, 2])
    elif c == 'swap' and n > 1:
        i = rng.randrange(n - 1); v[i], v[i + 1] = v[i + 1], v[i]
    elif c == 'sub' and n: v = [x for x in v if rng.random() < .6]
    elif c == 'super': v = sorted(set(v) | {rng.randint(-3, 8) for _ in range(2)})
    elif c == 'fine': v = [2 * x for x in v]
    x = {a: list(b) for a, b in d.x.items()}
    keep = len(v) == n
    if not keep: x = {}
    k, nm = d.k, d.n
    if c == 'kind': k = rng.choice([q for q in KINDS if q not in ('Hybrid', 'Axis')])
    elif c == 'parent': k = PARENT.get(k, k)
    elif c == 'name': nm = 'other'
    elif c == 'aux':
        if x and rng.random() < .5: x.pop(rng.choice(list(x)))
        else: x['extra'] = [float(i) for i in range(len(v))]
    elif c == 'auxval' and x and len(v):
        a = rng.choice(list(x)); i = rng.randrange(len(v)); z = x[a][i]
        x[a][i] = z + '?' if isinstance(z, str) else z + 1.
    e = d.clone(k=k, n=nm, v=v, x=x)
    if c == 'dtype' and np.array_equal(e.vals().astype('f').astype('d'), e.vals()): e.dt = 'f'
    return e

def station(rng):
    n = rng.randint(1, 4)
    names = [rng.choice(['to', 'ny', 'bj', 'rm']) + (str(i) if rng.random() < .7 else '') for i in range(n)]
    x = dict(station=names)
    if rng.random() < .5: x['elev'] = [float(rng.randint(0, 3)) for _ in range(n)]
    return rng.choice(['Station', 'NonCoordinateAxis']), x

class Non:
    def __init__(self, k, x): self.k, self.x, self.v, self.n = k, x, list(range(len(x['station']))), 'station'
    def real(self): return getattr(A, self.k)(name='station', **{a: np.array(b) for a, b in self.x.items()})
    def vals(self): return np.zeros(1)
    enc = Ax.enc
    s, rtol = 1, None

def drive(T, rng, tier, shard, nshards):
    n = 400 if tier == 'quick' else 6000
    def axis(v=None):
        k = rng.choice(KINDS)
        v = v if v is not None else rng.sample(range(-3, 8), rng.randint(0 if rng.random() < .05 else 1, 5))
        if rng.random() < .6: v = sorted(v)
        s = rng.choice([1, 1, .5, 2.5, 1e-3, 100, 1. / 3, .1])
        base = rng.choice([0, 0, 0, 10, -10, 1e3, 1e5, 1e6, 1e7, 5e8, 2.5e5]) * s
        x = {}
        for a in rng.sample(['weights', 'elev', 'label'], rng.choice([0, 0, 0, 1, 2])):
            x[a] = ['ab'[i % 2] for i in v] if a == 'label' else [float(abs(i) % 5 + 1) for i in v]
        nm = rng.choice(['foo', 'bar']) if k in ('NamedAxis', 'Axis', 'DummyAxis') else k.lower()
        rt = rng.choice([None] * 6 + [1e-3]) if base == 0 and k in ('Lon', 'Pres', 'XAxis') else None
        return Ax(k, nm, list(v), x, s, base, rtol=rt)
    for g in behaviours(shard, nshards, 100 if tier == 'quick' else None):
        T.emit(op='begin', obs=dict(k='none'))
        base = rng.choice([0, 0, 10, 1e3]); k = rng.choice(['Lat', 'Pres', 'NamedAxis'])
        da, db = Ax(k, 'foo', g['a'], {}, 1, base), Ax(k, 'foo', g['b'], {}, 1, base)
        ask(T, da, db, da.real(), db.real())
    for _ in range(n):
        T.emit(op='begin', obs=dict(k='none'))
        if rng.random() < .1:
            da = Non(*station(rng)); k, x = station(rng)
            db = Non(k, x) if rng.random() < .5 else Non(da.k if rng.random() < .8 else k, {a: list(b) for a, b in da.x.items()})
            if rng.random() < .3: db.x['elev'] = [1.] * len(db.v)
            ask(T, da, db, da.real(), db.real()); continue
        da = axis(); db = mutate(rng, da)
        if rng.random() < .1: db = mutate(rng, db)
        try: a, b = da.real(), db.real()
        except Exception: raise
        # (a plain Axis and a named one are not comparable in a defined way)
        if 'Axis' in (da.k, db.k) and da.k != db.k: continue
        if len(set(a.values.tolist())) < len(da.v) and len(set(da.v)) == len(da.v): continue
        ask(T, da, db, a, b)
        if rng.random() < .3 and len(da.v) > 1:
            # an axis and a cut of it share its tolerance
            ix = sorted(rng.sample(range(len(da.v)), rng.randint(1, len(da.v))))
            c = a.slice[tuple([ix])] if len(ix) > 1 else a.slice[ix[0]:ix[0] + 1]
            def go():
                return None, dict(k='seq', ix=[int(i) for i in a.map_to(c)])
            r, err = attempt(go)
            dc = da.clone(v=[da.v[i] for i in ix], x={q: [z[i] for i in ix] for q, z in da.x.items()})
            T.emit(op='map', a=da.enc(a), b=dc.enc(c), loose=loose(da), obs=err or r[1])

if __name__ == '__main__': main(drive)
