"""C25: statistics of fields compared with their definitions."""
from gen import *
from c03 import with_limit
from pygeode import stats as S

NAN = 2000000000
def enc(a, q):
    out = []
    for x in np.asarray(a, float).ravel().tolist():
        out.append(NAN if x != x else int(round(x * q)) if abs(x * q) < 1e8 else (NAN - 1 if x > 0 else 1 - NAN))
    return out
SCALE = dict(se=1000, sm=1000)

def field(rng, axes, missing, hi, name, lazy=True):
    sh = [len(a) for a in axes]
    v = np.array([rng.randint(-hi, hi) for _ in range(int(np.prod(sh)))], float).reshape(sh)
    if missing and rng.random() < .8:
        m = np.array([rng.random() < missing for _ in range(v.size)]).reshape(sh); v[m] = np.nan
    w = Var(axes, values=v, name=name)
    c = rng.random()
    if c < .1: w = w.as_type('f')
    if lazy and c > .5: w = variant(rng, w)
    return w

def dependent(xs, red):
    import xarray as xr
    b = xr.broadcast(*[xr.DataArray(x.get(), dims=[a.name for a in x.axes]) for x in xs])
    rest = [d for d in b[0].dims if d not in red]
    M = np.stack([x.transpose(*rest, *red).values.reshape(-1, int(np.prod([x.sizes[d] for d in red]))) for x in b], -1)
    return any(np.linalg.matrix_rank(m) < m.shape[1] or np.linalg.cond(m) > 200 for m in M)

class Axes:
    """the axes of one program, by number"""
    def __init__(self, rng):
        self.rng = rng; self.known = {}
    def new(self, i, n):
        v = coords(self.rng, n, self.rng.choice(['inc', 'inc', 'dec', 'perm']))
        nm = ['time', 'lat', 'lon', 'pres', 'foo'][i - 1]
        if nm == 'time': a = TA.ModelTime365(values=np.sort(v), units='days', startdate=dict(year=2000, month=1, day=1))
        elif nm == 'foo': a = A.NamedAxis(v, 'foo')
        else: a = getattr(A, nm.capitalize())(v)
        self.known[i] = (nm, [float(x) for x in a.values]); return a
    def enc(self, a):
        if a.name == 'regressor': return dict(id=8, lab=list(range(1, len(a) + 1)))
        if a.name == 'regressor2': return dict(id=9, lab=list(range(1, len(a) + 1)))
        for i, (nm, vals) in self.known.items():
            if nm == a.name: return dict(id=i, lab=[next((k + 1 for k, y in enumerate(vals) if abs(x - y) < 1e-6), 99) for x in a.values])
        return dict(id=7, lab=[1] * len(a))
    def arr(self, v, q=1): return dict(ax=[self.enc(a) for a in v.axes], v=enc(v.get(), q))

OUTS = dict(correlate=['r', 'r2', 'p'], regress=['m', 'b', 'r2', 'p', 'sm', 'se'], difference=['d', 'df', 'p', 'ci'], paired_difference=['d', 'df', 'p', 'ci'],
            isnonzero=['m', 'p', 'ci'], multiple_regress=['beta', 'r2', 'p', 'sb', 'covb', 'se'])
DEF = dict(correlate='r,p', regress='m,b,p', difference='d,p,ci', paired_difference='d,p,ci', isnonzero='m,p')

def call(T, rng, X, fn, fs, red, lim=10**8, axes=None, **kw):
    """one call, with the fields as they really are"""
    outs = OUTS[fn] if rng.random() < .7 else rng.sample(OUTS[fn], rng.randint(1, len(OUTS[fn])))
    if fn == 'multiple_regress': outs = ['beta', 'r2', 'p', 'sb', 'se'] + (['covb'] if rng.random() < .3 else [])
    a = dict(kw, output=','.join(outs))
    if fn in DEF and rng.random() < .15: a.pop('output'); outs = DEF[fn].split(',')
    if axes is not None: a['axes'] = axes
    f = getattr(S, fn)
    args = fs if fn != 'multiple_regress' else [fs[:-1], fs[-1]]
    def go():
        ds = f(*args, **a)
        return [dict(n=v.name, **X.arr(v, SCALE.get(v.name, 10000))) for v in ds.vars]
    xs = [X.arr(v) for v in fs]
    r, e = with_limit(lim, go)
    want = ['R2' if o == 'r2' and fn == 'multiple_regress' else o for o in outs]
    # (nearly) dependent regressors are outside the definition
    if fn == 'multiple_regress' and dependent(fs[:-1], [a.name for a in red]): return
    T.emit(fn=fn, xs=xs, red=[X.enc(a)['id'] for a in red], fac=kw.get('N_fac') or kw.get('Nx_fac') or 1, facy=kw.get('Ny_fac') or 1, alpha=int(round(kw.get('alpha', .05) * 10000)),
           lim=lim, k='err' if e else 'ok', outs=r or [], want=want, msg=e['msg'] if e else '')

def study(T, rng):
    X = Axes(rng)
    fn = rng.choice(['correlate', 'regress', 'difference', 'difference', 'paired_difference', 'isnonzero', 'multiple_regress'])
    nred = rng.choice([1, 1, 1, 2])
    ids = rng.sample([1, 2, 3, 4, 5], 5)
    lens = rng.choice([[3], [4], [5], [6], [7], [8], [9], [12]]) if nred == 1 else rng.choice([[2, 3], [3, 2], [2, 2], [3, 4], [2, 5]])
    if fn == 'difference' and max(lens) > 8: lens = [8]
    hi = 4 if fn == 'difference' else rng.choice([1, 3, 5])
    red = [X.new(ids[k], lens[k]) for k in range(nred)]
    rest = [X.new(ids[nred + k], rng.randint(1, 3)) for k in range(rng.randint(0, 2))]
    missing = rng.choice([0, 0, .15, .4, .7])
    if fn == 'multiple_regress': missing = 0
    def some(full):
        """the reduced axes and some of the others, in any order"""
        ax = red + (rest if full or rng.random() < .5 else rng.sample(rest, rng.randint(0, len(rest))))
        ax = list(ax)
        if rng.random() < .5: rng.shuffle(ax)
        return ax
    kw = {}
    lim = rng.choice([1, 2, 3, 5, 8, 13, 10**8, 10**8, 10**8])
    named = [rng.choice([a.name, a.name, a]) for a in red]
    axes = named
    if fn in ('isnonzero', 'difference', 'paired_difference') and rng.random() < .3: kw['alpha'] = rng.choice([.01, .1, .32, .5])
    if fn in ('isnonzero', 'paired_difference', 'regress') and rng.random() < .25: kw['N_fac'] = rng.choice([1, 2, 3])
    if fn == 'difference' and rng.random() < .25: kw['Nx_fac'] = rng.choice([1, 2]); kw['Ny_fac'] = rng.choice([1, 2, 3])
    if fn == 'isnonzero':
        f = field(rng, some(True), missing, hi, 'x'); fs = [f]
        if not rest and rng.random() < .5: axes = None
    elif fn == 'multiple_regress':
        k = rng.randint(1, 3); y = some(True)
        fs = []
        for i in range(k):
            ax = some(False)
            if nred == 2 and rng.random() < .3: ax = [a for a in ax if a is not red[rng.randrange(2)]]
            fs.append(field(rng, ax, 0, 3, 'x%d' % i))
        # all reduced axes must be found among the regressors
        if not all(any(f.hasaxis(a.name) for f in fs) for a in red): fs[0] = field(rng, some(False), 0, 3, 'x0')
        if k > 1 and rng.random() < .5: fs[-1] = Var(fs[-1].axes, values=np.ones(fs[-1].shape), name='one')
        fs.append(field(rng, y, 0, 3, 'y'))
        n = int(np.prod([len(a) for a in red]))
        if n <= k: return
        lim = max(lim, 1)
        if set(a.name for f in fs[:-1] for a in f.axes) & set(a.name for a in fs[-1].axes) == set(a.name for a in red) and rng.random() < .3: axes = None
    else:
        f = field(rng, some(True), missing, hi, rng.choice(['x', '']))
        if rng.random() < .12: g = Var(f.axes, values=np.array(f.get()) * rng.choice([1, -1, 2]) + rng.choice([0, 1]), name='y')
        elif rng.random() < .12: ax = some(True); g = Var(ax, values=np.full([len(a) for a in ax], float(rng.choice([0, 1, -2]))), name='y')
        else: g = field(rng, some(False), missing, hi, 'y')
        # a part of the points only
        if fn in ('correlate', 'regress') and rng.random() < .15 and lens[0] > 4:
            i = g.whichaxis(red[0].name); g = g.slice[tuple(slice(1, None) if j == i else slice(None) for j in range(g.naxes))]; axes = [a.name for a in red]
        fs = [f, g] if rng.random() < .5 else [g, f]
        if set(a.name for a in f.axes) & set(a.name for a in g.axes) == set(a.name for a in red) and rng.random() < .4: axes = None
        if fn == 'paired_difference' and int(np.prod([len(a) for a in red])) < 2: return
    call(T, rng, X, fn, fs, red, lim, axes, **kw)

def replay(T, rng, bs):
    """samples of MC_Stat: two at a time, side by side"""
    for i in range(0, len(bs) - 1, 2):
        X = Axes(rng); t = X.new(1, len(bs[i]['x'])); o = X.new(5, 2)
        def f(k, nm):
            v = np.array([[np.nan if z == NAN else float(z) for z in b[k]] for b in (bs[i], bs[i + 1])])
            return Var([o, t], values=v, name=nm) if rng.random() < .5 else Var([t, o], values=v.T.copy(), name=nm)
        x, y = f('x', 'x'), f('y', 'y'); lim = rng.choice([1, 3, 10**8])
        for fn in ('correlate', 'regress', 'difference', 'paired_difference'): call(T, rng, X, fn, [x, y], [t], lim, ['time'])
        call(T, rng, X, 'isnonzero', [x], [t], lim, ['time'])

def drive(T, rng, tier, shard, nsh):
    replay(T, rng, behaviours(shard, nsh, 40 if tier == 'quick' else None))
    for _ in range(150 if tier == 'quick' else 2500): study(T, rng)

if __name__ == '__main__': main(drive)
