"""Every kind of derived variable, built over instrumented sources."""
from gen import *
import pygeode.climat as CL
from pygeode import timeutils as TU
from pygeode.formats import PackVar

class Kit:
    """builds sources that record every request made of them"""
    def __init__(self, rng, fileprob=.35, memprob=.0, nan=0.):
        self.rng, self.srcs, self.reqs, self.vars = rng, [], [], []
        self.fileprob, self.memprob, self.nan = fileprob, memprob, nan
    def src(self, axes, dtype=None, lo=-20, hi=20, nan=None, name='v', atts=None):
        rng = self.rng
        v = make_var(rng, axes, dtype or rng.choice(['d', 'd', 'd', 'f']), nan=self.nan if nan is None else nan, name=name, lo=lo, hi=hi, atts=atts)
        if rng.random() < self.memprob: return v
        log = []
        w = (FileVar if rng.random() < self.fileprob else LazyVar)(v, log)
        self.srcs.append(dict(sh=[len(a) for a in axes])); self.reqs.append(log); self.vars.append(w)
        return w
    def clear(self):
        for r in self.reqs: del r[:]
    def taken(self):
        out = []
        for s, r in enumerate(self.reqs):
            out += [dict(s=s + 1, bx=b) for b in r]
        self.clear()
        return out

def taxis(rng, n=None, kind=None, step=None):
    n = n or rng.randint(4, 9)
    kind = kind or rng.choice([TA.StandardTime, TA.ModelTime365, TA.ModelTime365])
    step = step or rng.choice([1, 5, 11, 20])
    v = np.arange(n) * step
    if rng.random() < .3: v = np.sort(rng.sample(range(n * step), n))
    return kind(values=v.astype('d'), units='days', startdate=dict(year=rng.choice([1999, 2000, 2001]), month=rng.choice([1, 2, 12]), day=rng.randint(1, 20)))

def space(rng, k, maxn=4, order=None, minn=1):
    return pick_axes(rng, k, ['Lat', 'Lon', 'Pres', 'NamedAxis', 'Hybrid'], maxn=maxn, minn=minn, order=order)

def withaxis(rng, ax, k=None, maxn=3):
    """axes with ax somewhere among k others"""
    kinds = [q for q in ['Lat', 'Lon', 'Pres', 'NamedAxis'] if not (isinstance(ax, (A.ZAxis,)) and q == 'Pres') and not (isinstance(ax, A.YAxis) and q == 'Lat') and not (isinstance(ax, A.XAxis) and q == 'Lon') and not (isinstance(ax, A.NamedAxis) and q == 'NamedAxis')]
    o = pick_axes(rng, rng.randint(0, 2) if k is None else k, kinds, maxn=maxn)
    i = rng.randint(0, len(o)); return o[:i] + [ax] + o[i:], i

KINDS = {}
def kind(*names):
    def d(f):
        for n in names: KINDS[n] = f
        return f
    return d

# a builder returns (variable, need) where need lists, for sources of which the exact needed
# positions are known, [s, map, once]; result-position map per source axis (0: whole axis)
def ident_need(v, s=1, once=True): return [dict(s=s, map=[i + 1 for i in range(v.naxes)], once=once, stream=False, p=[])]

@kind('ufunc1')
def _(K, name):
    v = K.src(space(K.rng, K.rng.randint(1, 3)))
    return K.rng.choice([lambda v: -v, abs, lambda v: v * 2 + 1, lambda v: 3 - v, lambda v: v.as_type('d') ** 2, lambda v: v > 0, lambda v: pyg.exp(v / 10.), lambda v: v.map(np.cos)])(v), ident_need(v)
@kind('ufunc2')
def _(K, name):
    rng = K.rng; ax = space(rng, rng.randint(1, 3))
    a = K.src(ax); p = rng.sample(ax, rng.randint(0, len(ax)))
    if p and rng.random() < .4:
        i = rng.randrange(len(p)); n = len(p[i]); s = sorted(rng.sample(range(n), rng.randint(1, n)))
        p[i] = p[i].slice[s[0]:s[-1] + 1:max(1, s[-1] - s[0])] if rng.random() < .5 else p[i].slice[tuple([s])] if len(s) > 1 else p[i].slice[s[0]:s[0] + 1]
    b = K.src(p)
    if rng.random() < .3: return pyg.vsum(a, b, K.src(rng.sample(ax, rng.randint(0, len(ax))))), []
    return rng.choice([lambda a, b: a + b, lambda a, b: a * b, lambda a, b: b - a, lambda a, b: a > b])(a, b), []
@kind('ufuncax')
def _(K, name):
    v = K.src(space(K.rng, 2)); return v + v.axes[K.rng.randrange(2)], ident_need(v)
@kind('transpose')
def _(K, name):
    v = K.src(space(K.rng, K.rng.randint(2, 3))); p = list(range(v.naxes)); K.rng.shuffle(p)
    return v.transpose(*p), [dict(s=1, map=[p.index(i) + 1 for i in range(v.naxes)], once=True, stream=False, p=[])]
@kind('squeeze')
def _(K, name):
    ax = space(K.rng, 3); i = K.rng.randrange(3); ax[i] = ax[i].slice[:1]
    return K.src(ax).squeeze(), []
@kind('extend')
def _(K, name):
    ax = space(K.rng, 3); v = K.src(ax[:2]); i = K.rng.randint(0, 2); return v.extend(i, ax[2]), [dict(s=1, map=[j + 1 if j < i else j + 2 for j in range(2)], once=True, stream=False, p=[])]
@kind('sorted')
def _(K, name):
    v = K.src(space(K.rng, K.rng.randint(1, 3), order='perm')); return v.sorted(*K.rng.choice([[], [0]])), []
@kind('replace_axes')
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(1, 3)))
    i = rng.randrange(v.naxes)
    # (two axes of one family would be matched with each other)
    new = rng.choice([c for c in (A.XAxis, A.YAxis, A.ZAxis, A.TAxis) if not any(j != i and isinstance(a, c) for j, a in enumerate(v.axes))])(coords(rng, v.shape[i]))
    return v.replace_axes(newaxes=[a if j != i else new for j, a in enumerate(v.axes)]), ident_need(v)
@kind('rename')
def _(K, name):
    v = K.src(space(K.rng, 2)); return v.rename('z') if K.rng.random() < .5 else v.rename_axes(**{v.axes[0].name: 'qq'}), ident_need(v)
@kind('slices')
def _(K, name):
    v = K.src(space(K.rng, K.rng.randint(1, 3), maxn=5, minn=2))
    for _ in range(K.rng.randint(1, 2)):
        es = [K.rng.choice([slice(None), slice(None, None, -1), slice(None, None, 2), ([K.rng.randrange(n) for _ in range(n)],)]) for n in v.shape]
        v = v.slice[tuple(es)]
    return v, []
@kind('fill')
def _(K, name):
    v = K.src(space(K.rng, 2), dtype='d', nan=.3); return (v.fill(-1) if K.rng.random() < .5 else v.unfill(3)), ident_need(v)
@kind('cast')
def _(K, name):
    v = K.src(space(K.rng, 2)); return v.as_type(K.rng.choice(['f', 'i', 'd'])), ident_need(v)
@kind('concat')
def _(K, name):
    rng = K.rng; ax = space(rng, rng.randint(1, 3)); i = rng.randrange(len(ax)); k = rng.randint(2, 4)
    c = np.array(rng.sample(range(-200, 400), len(ax[i]) * k), 'd')
    if isinstance(ax[i], A.Hybrid): return KINDS['concat'](K, name)
    ps = []
    for q in range(k):
        n = rng.randint(1, len(ax[i])); a = type(ax[i])(c[q * len(ax[i]):][:n], ax[i].name) if isinstance(ax[i], A.NamedAxis) else type(ax[i])(c[q * len(ax[i]):][:n])
        ps.append(K.src(ax[:i] + [a] + ax[i + 1:], dtype='d'))
    return pyg.concatenate(*ps), []
@kind('ensemble')
def _(K, name):
    ax = space(K.rng, K.rng.randint(1, 2)); return pyg.ensemble(*[K.src(ax) for _ in range(K.rng.randint(1, 3))]), []
RED = ['sum', 'nansum', 'mean', 'nanmean', 'min', 'max', 'nanmin', 'nanmax', 'variance', 'nanvariance', 'stdev', 'nanstdev']
@kind(*['red-' + r for r in RED])
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(1, 3), minn=2), nan=.2 if 'nan' in name else 0.)
    r = rng.sample(range(v.naxes), min(v.naxes, rng.choice([1, 2, 2, 3])))
    kw = {}
    if name[4:] in ('sum', 'nansum', 'mean', 'nanmean', 'variance'): kw['weights'] = rng.choice([True, True, False])
    if name[4:] == 'nansum': kw['weights'] = False
    keep = [i for i in range(v.naxes) if i not in r]
    return getattr(v, name[4:])(*r, **kw), [dict(s=1, map=[keep.index(i) + 1 if i in keep else 0 for i in range(v.naxes)], once=True, stream=True, p=[])]
@kind('red-wvar')
def _(K, name):
    rng = K.rng; ax = space(rng, rng.randint(1, 3), minn=2); v = K.src(ax, dtype='d')
    w = K.src(rng.sample(ax, rng.randint(1, len(ax))), dtype='d', lo=1, hi=5)
    r = [ax.index(a) for a in []] or [i for i, a in enumerate(ax) if any(a is b for b in w.axes)]
    return getattr(v, rng.choice(['sum', 'mean', 'nanmean', 'variance', 'nansum']))(*r, weights=w), []
@kind('argmax', 'argmin')
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(1, 3), minn=2)); i = rng.randrange(v.naxes)
    keep = [j for j in range(v.naxes) if j != i]
    return getattr(v, name)(i), [dict(s=1, map=[keep.index(j) + 1 if j in keep else 0 for j in range(v.naxes)], once=True, stream=True, p=[i + 1])]
CLIM = [c for c in CL.__all__ if c != 'from_trend']
@kind(*['clim-' + c for c in CLIM])
def _(K, name):
    rng = K.rng; t = taxis(rng, rng.randint(4, 10)); ax, i = withaxis(rng, t)
    v = K.src(ax, dtype='d', nan=.2 if 'nan' in name else 0.)
    return getattr(CL, name[5:])(v), [dict(s=1, map=[0 if j == i else j + 1 for j in range(v.naxes)], once='full', stream=True, p=[])]
@kind('trend')
def _(K, name):
    rng = K.rng
    t = TA.ModelTime365(values=np.array([d + 365. * y for y in range(3) for d in (0, 40, 80)]), units='days', startdate=dict(year=2001, month=1, day=1))
    ax, i = withaxis(rng, t); v = K.src(ax, dtype='d')
    r = CL.detrend(v)
    return r, []
@kind('composite')
def _(K, name):
    rng = K.rng; ax, i = withaxis(rng, taxis(rng, rng.randint(5, 9), step=1) if rng.random() < .5 else A.Pres(coords(rng, rng.randint(5, 8), 'inc')))
    v = K.src(ax, dtype='d'); n = v.shape[i]; k = rng.randint(1, 3)
    ev = rng.sample(range(n), k)
    il = rng.random() < .5
    return v.composite(**{'li_' + ax[i].name: ev, 'evlen': [rng.randint(1, 4) for _ in ev] if il else rng.randint(1, 4), 'evoff': rng.choice([0, 1, 2])}), []
@kind('flatten')
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(2, 3), minn=2)); i = rng.randint(1, v.naxes - 1); return v.flatten(i, naxis=A.XAxis(np.arange(v.shape[i - 1] * v.shape[i]) * .5)), []
@kind('diff')
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(1, 3), minn=3, maxn=5)); return v.diff(rng.randrange(v.naxes), rng.randint(1, 2)), []
@kind('deriv-left', 'deriv-right', 'deriv-centre', 'deriv-2')
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(1, 3), minn=3, maxn=5), dtype='d'); i = rng.randrange(v.naxes)
    kw = {}
    if rng.random() < .4: kw['dx'] = K.src([v.axes[i]], dtype='d') * 0 + v.axes[i] ** 2 + 7 * v.axes[i]
    return v.deriv(i, df=name[6:], **kw), []
@kind('integrate', 'cumsum')
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(1, 3), minn=2, maxn=5), dtype='d'); i = rng.randrange(v.naxes)
    kw = dict(order=rng.choice([1, -1]))
    if rng.random() < .5: kw['v0'] = rng.choice([2., K.src([a for j, a in enumerate(v.axes) if j != i], dtype='d')])
    return (v.integrate(i, type=rng.choice(['trapz', 'rectl', 'rectr']), **kw) if name == 'integrate' else v.cumsum(i, **kw)), []
@kind('smooth')
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(1, 3), minn=4, maxn=6), dtype='d'); i = rng.randrange(v.naxes)
    return v.smooth(i, rng.choice([3, 4, [1, 2, 1], [1., 2., 3., 4.]]), fft=rng.choice([True, False])), []
@kind('interp')
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(1, 3), minn=4, maxn=5, order='inc'), dtype='d'); i = rng.randrange(v.naxes)
    o = np.linspace(v.axes[i].values.min(), v.axes[i].values.max(), rng.randint(2, 5))
    kw = dict(interp_type=rng.choice(['linear', 'cspline', 'akima' if v.shape[i] > 4 else 'linear', 'polynomial']), d_below=rng.choice([np.nan, 1.]))
    if rng.random() < .4:
        kw['inx'] = K.src(v.axes, dtype='d', lo=0, hi=1, nan=0.) * .25 + v.axes[i]
    return v.interpolate(i, A.ZAxis(o), **kw), []
@kind('lag')
def _(K, name):
    rng = K.rng; ax, i = withaxis(rng, taxis(rng, rng.randint(4, 8), step=1)); v = K.src(ax, dtype='d')
    return TU.lag(v, i, rng.choice([[0, 1], [-2, 0, 1], [-1], [3, 1]]), reverse=rng.choice([False, True])), []
@kind('splittime')
def _(K, name):
    rng = K.rng; t = TA.ModelTime365(values=np.sort(np.array(rng.sample([d + 365. * y for y in range(3) for d in (0, 40, 80)], rng.randint(4, 9)))), units='days', startdate=dict(year=2001, month=1, day=1))
    ax, i = withaxis(rng, t); v = K.src(ax, dtype='d'); return TU.splittimeaxis(v), []
@kind('jointime')
def _(K, name):
    rng = K.rng; t = TA.ModelTime365(values=np.sort(np.array(rng.sample([d + 365. * y for y in range(3) for d in (0, 40, 80)], rng.randint(4, 9)))), units='days', startdate=dict(year=2001, month=1, day=1))
    y, d = TU._splittime(t)
    o = space(rng, 1) if rng.random() < .5 else []
    o = [a for a in o if not isinstance(a, A.NamedAxis)]
    ax = rng.choice([[y, d] + o, o + [y, d], [y] + o + [d]])
    return TU.jointimeaxes(K.src(ax, dtype='d')), []
@kind('removeleap')
def _(K, name):
    rng = K.rng; t = TA.StandardTime(values=np.arange(rng.randint(3, 7)) + 0., units='days', startdate=dict(year=2000, month=2, day=rng.randint(26, 28)))
    ax, i = withaxis(rng, t); return TU.removeleapyears(K.src(ax, dtype='d')), []
@kind('concat-new')
def _(K, name):
    ax = space(K.rng, K.rng.randint(1, 2)); return pyg.concatenate(*[K.src(ax) for _ in range(K.rng.randint(2, 4))]), []
@kind('fft_smooth')
def _(K, name):
    rng = K.rng; v = K.src(space(rng, rng.randint(1, 3), minn=4, maxn=6), dtype='d'); i = rng.randrange(v.naxes)
    if v.shape[i] % 2: return v.smooth(i, 3), []      # (documented for even lengths only)
    return v.fft_smooth(i, rng.randint(1, 2)), []
@kind('map')
def _(K, name):
    rng = K.rng; ax = space(rng, rng.randint(1, 3)); v = K.src(ax, dtype='d'); c = rng.randint(0, 2)
    if c == 0: return v.map(np.clip, -5, 5), ident_need(v)
    if c == 1: return v.map(lambda x, y: np.where(x > y, x, y), K.src(rng.sample(ax, rng.randint(0, len(ax))), dtype='d')), []
    return v.map(np.clip, a_min=0, a_max=8) if rng.random() < .5 else v.map(lambda x, k=1: x * k, k=3), ident_need(v)
@kind('fromxarray')
def _(K, name):
    from pygeode.ext_xarray import to_xarray, from_xarray
    v = K.src(space(K.rng, K.rng.randint(1, 3)), dtype='d'); return from_xarray(to_xarray(pyg.Dataset([v])))[v.name], []
@kind('splitcoefs')
def _(K, name):
    from pygeode.tools import split_coefs
    rng = K.rng; ax = space(rng, rng.randint(1, 2)); i = rng.randint(0, len(ax)); k = rng.randint(1, 4)
    return rng.choice(split_coefs(K.src(ax[:i] + [A.Coef(k)] + ax[i:], dtype='d'))), []
@kind('pack')
def _(K, name):
    v = K.src(space(K.rng, 2), dtype='d'); return PackVar(v), []

# kinds documented to read while they are built: the packing range, the precomputed trend
EAGER = {'pack', 'trend'}

# operations stacked on top of another kind
def wrap(rng, v):
    c = rng.choice(['t', 'neg', 'slice', 'rename', 'sum', 'add', 'sq'])
    if c == 't' and v.naxes > 1: return v.transpose(*rng.sample(range(v.naxes), v.naxes))
    if c == 'neg' and np.dtype(v.dtype).kind != 'b': return 1 - v
    if c == 'slice' and v.naxes: return v.slice[tuple(rng.choice([slice(None), slice(None, None, -1), slice(1, None), slice(None, None, 2)]) if n > 2 else slice(None) for n in v.shape)]
    if c == 'sum' and v.naxes > 1 and min(v.shape) > 0: return v.mean(rng.randrange(v.naxes), weights=False)
    if c == 'add' and v.naxes and not any(a.isparentof(b) for i, a in enumerate(v.axes) for j, b in enumerate(v.axes) if i != j) and np.dtype(v.dtype).kind != 'b': return v + v
    if c == 'sq': return v.extend(0, A.XAxis([0.])) if not v.hasaxis(A.XAxis) else v
    return v
