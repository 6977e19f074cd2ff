"""Random labelled arrays for the drivers."""
import numpy as np
import pygeode as pyg
from pygeode.var import Var
from pygeode import axis as A
from pygeode import timeaxis as TA
from base import *

def coords(rng, n, order=None):
    """n distinct coordinates, multiples of 1/2"""
    start = rng.randint(-10, 10)
    steps = [rng.choice([1, 2, 2, 3, 4]) for _ in range(n)]
    vals = np.cumsum([start] + steps)[:n] / 2.
    order = order or rng.choice(['inc', 'inc', 'dec', 'perm', 'wrap'])
    if order == 'dec': vals = vals[::-1]
    elif order == 'wrap': vals = np.roll(vals, rng.randint(0, n)) if n else vals
    elif order == 'perm': vals = vals[rng.sample(range(n), n)]
    return np.array(vals, float)

SPATIAL = ['Lat', 'Lon', 'Pres', 'NamedAxis', 'XAxis', 'ZAxis', 'Hybrid', 'YAxis', 'Index']
SIMPLE = ['Lat', 'Lon', 'Pres', 'NamedAxis']

def make_axis(rng, kind, n, order=None, aux=True, name=None):
    v = coords(rng, n, order)
    kw = {}
    if kind == 'Hybrid':
        return A.Hybrid(v, A=np.arange(n) * 10. + rng.randint(0, 5), B=np.arange(n) / 4.)
    if kind == 'NamedAxis': return A.NamedAxis(v, name or rng.choice(['foo', 'bar']))
    if kind == 'Index': return A.Index(n)
    if kind == 'Lat':
        # default Lat weights are irrational; use dyadic ones
        w = np.array([rng.choice([0.5, 1., 1.5, 2.]) for _ in range(n)])
        ax = A.Lat(v, weights=w)
    elif kind == 'Time365':
        days = np.sort(rng.sample(range(0, 800), n)) if order != 'perm' else np.array(rng.sample(range(800), n))
        return TA.ModelTime365(values=days.astype(float), units='days', startdate=dict(year=rng.choice([1, 1999, 2001]), month=1, day=1))
    elif kind == 'Time':
        days = np.sort(rng.sample(range(0, 800), n)) if order != 'perm' else np.array(rng.sample(range(800), n))
        return TA.StandardTime(values=days.astype(float), units='days', startdate=dict(year=1999, month=1, day=1))
    else:
        if aux and rng.random() < 0.4: kw[rng.choice(['weights', 'elev'])] = np.array([rng.choice([0.5, 1., 2., 3.]) for _ in range(n)])
        ax = getattr(A, kind)(v, **kw)
    return ax

def pick_axes(rng, naxes, kinds=None, maxn=5, minn=1, order=None, aux=True, long=0):
    kinds = list(kinds or (SPATIAL[:4] + ['Time365', 'Time', 'Hybrid', 'Index']))
    # at most one axis of each family (z-axes and time axes are mutually related)
    fam = dict(Pres='z', Hybrid='z', ZAxis='z', Time='t', Time365='t', XAxis='x', Lon='x', Lat='y', YAxis='y')
    out, used = [], set()
    rng.shuffle(kinds)
    for k in kinds:
        if len(out) == naxes: break
        f = fam.get(k, k)
        if f in used: continue
        used.add(f)
        # now and then a long axis, alone
        n = rng.randint(12, 30) if naxes == 1 and rng.random() < long else rng.randint(minn, maxn)
        out.append(make_axis(rng, k, n, order, aux))
    return out

def make_var(rng, axes, dtype='d', nan=0., name='v', lo=-20, hi=20, atts=None):
    sh = tuple(len(a) for a in axes)
    n = int(np.prod(sh)) if sh else 1
    d = np.array([rng.randint(lo, hi) for _ in range(n)], dtype)
    if nan and np.dtype(dtype).kind == 'f':
        d[[i for i in range(n) if rng.random() < nan]] = np.nan
    return Var(axes, values=d.reshape(sh), name=name, atts=atts or {})

class LazyVar(Var):
    """a variable whose values are produced on demand, through getview"""
    def __init__(self, src, reqs=None):
        self._a = np.array(src.get()); self.reqs = reqs if reqs is not None else []
        Var.__init__(self, src.axes, dtype=src.dtype, name=src.name, atts=src.atts, plotatts=src.plotatts)
    def getview(self, view, pbar):
        self.reqs.append([list(map(int, i)) for i in view.integer_indices])
        pbar.update(100)
        return np.array(self._a[np.ix_(*view.integer_indices)]) if self.naxes else np.array(self._a)

class FileVar(Var):
    """a variable read in contiguous pieces, through getvalues"""
    def __init__(self, src, reqs=None):
        self._a = np.array(src.get()); self.reqs = reqs if reqs is not None else []
        Var.__init__(self, src.axes, dtype=src.dtype, name=src.name, atts=src.atts, plotatts=src.plotatts)
    def getvalues(self, start, count):
        self.reqs.append([list(range(s, s + c)) for s, c in zip(start, count)])
        return np.array(self._a[tuple(slice(s, s + c) for s, c in zip(start, count))])

def variant(rng, v):
    """the same variable in memory, or lazily derived in one of several ways"""
    c = rng.choice(['mem', 'lazy', 'file', 'ufunc', 'transpose', 'copy'])
    if c == 'lazy': return LazyVar(v)
    if c == 'file': return FileVar(v)
    if c == 'ufunc': return (LazyVar(v) + 0).rename(v.name)
    if c == 'transpose' and v.naxes > 1:
        p = list(range(v.naxes)); rng.shuffle(p)
        return LazyVar(v).transpose(*p).transpose(*[p.index(i) for i in range(v.naxes)])
    return v

def dec_axis(x):
    """a specified axis as a real one (no associated arrays)"""
    v = [c / 8. for c in x['v']]
    if x['k'] == 'NamedAxis': return A.NamedAxis(v, x['n'])
    if x['k'] == 'Index': return A.Index([int(c) for c in v])
    if x['k'] == 'Lat':
        return A.Lat(v, name=x['n'], weights=np.ones(len(v)))
    return getattr(A, x['k'])(v, name=x['n'])

# ---- python index expressions and their encoding
def enc_ix(e):
    if isinstance(e, slice):
        o = lambda x: [] if x is None else [int(x)]
        return dict(t='s', a=o(e.start), b=o(e.stop), c=o(e.step))
    if isinstance(e, (int, np.integer)): return dict(t='i', i=int(e))
    e = np.asarray(e)
    if e.dtype == bool: return dict(t='m', m=[bool(x) for x in e])
    return dict(t='l', ix=[int(x) for x in e])

def dec_ix(e):
    o = lambda x: x[0] if x else None
    if e['t'] == 's': return slice(o(e['a']), o(e['b']), o(e['c']))
    if e['t'] == 'i': return e['i']
    return (e['ix'],) if e['t'] == 'l' else (np.array(e['m']),)

def rand_slice(rng, n):
    o = lambda lo, hi, p: None if rng.random() < p else rng.randint(lo, hi)
    st = rng.choice([None, None, 1, 2, 3, -1, -1, -2, -3, 7, -7])
    return slice(o(-n - 2, n + 2, .35), o(-n - 2, n + 2, .35), st)

def rand_ix(rng, n, ints=True):
    r = rng.random()
    if r < .45: return rand_slice(rng, n)
    if n == 0: return slice(None)
    if r < .6 and ints: return rng.randint(-n, n - 1)
    if r < .85: return [rng.randint(-n, n - 1) for _ in range(rng.randint(1, n + 1))]
    return np.array([rng.random() < .6 for _ in range(n)])

def observe(T, op, src, fn, tag='', **args):
    """apply fn on the real objects, record its labelled result; -> (handle, result or None)"""
    def go():
        r = fn(); return r, enc_arr(r)
    res, err = attempt(go)
    h = T.step(op, src, err or res[1], tag=tag, **args)
    return h, (None if err else res[0])

def ident(rng, v, i):
    """some identifier of axis i of v: position, name, class, alias or the axis itself"""
    ax = v.axes[i]
    for _ in range(10):
        k = rng.choice([i, i - v.naxes if False else i, ax.name, type(ax), type(ax).__name__.lower(), ax])
        try:
            if v.whichaxis(k) == i: return k
        except Exception: pass
    return i
