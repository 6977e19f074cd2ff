"""What reaches the drawing library when variables are plotted."""
import os, tempfile
os.environ['MPLBACKEND'] = 'Agg'
from gen import *
import re, math
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from matplotlib.figure import Figure
import pygeode.plot as PL
from pygeode.plot import wrappers as wr, cnt_helpers as ch, pyg_helpers as ph
from pygeode.axis import AxisFormatter
MISS = 2000000000
K = 64
def num(x, k=K):
    try: x = float(x)
    except Exception: return BADI
    if np.ma.is_masked(x) or x != x: return MISS
    y = x * k
    return int(round(y)) if abs(y) < 2**30 and abs(y - round(y)) < 1e-6 * max(1, abs(y)) * .1 + 1e-7 else BADI
def nums(a, k=K):
    a = np.ma.asarray(a)
    m = np.ma.getmaskarray(a).ravel()
    return [MISS if m[i] else num(x, k) for i, x in enumerate(np.asarray(a.data).ravel().tolist())]
def grid(a): 
    a = np.ma.asarray(a)
    if a.ndim != 2: return [[BADI]]
    return [nums(a[i]) for i in range(a.shape[0])]
def lev(x):
    if x is None: return ''
    if np.ndim(x) == 0: return '%d' % x
    return ','.join('%.6g' % y for y in np.asarray(x).ravel().tolist())

# every call of a drawing method, in order
LOG = []
def spy(name):
    orig = getattr(Axes, name)
    def f(self, *a, **k):
        LOG.append((name, self, a, k))
        if name == 'streamplot':
            try: return orig(self, *a, **k)
            except ValueError: return None      # a grid the library refuses
        return orig(self, *a, **k)
    setattr(Axes, name, f)
for m in ('plot', 'contour', 'contourf', 'quiver', 'streamplot', 'scatter', 'hist', 'pcolor'): spy(m)

# maps: what reaches the axes of the map library, which draws nothing here
try:
    from cartopy.mpl.geoaxes import GeoAxes
    import cartopy.crs as ccrs
except Exception: GeoAxes = None
def spymap(name):
    def f(self, *a, **k):
        t = k.pop('transform', None)
        LOG.append(('%s:%s:%s' % (name, type(t).__name__, type(self.projection).__name__), self, a, k))
    setattr(GeoAxes, name, f)
if GeoAxes:
    for m in ('contour', 'contourf', 'quiver', 'streamplot', 'pcolor'): spymap(m)

def scaling(rng, neg=True):
    sf = rng.choice([None, None, None, 2, .5, -1, .25, 4] if neg else [None, None, .5, 2, 4])
    of = rng.choice([None, None, None, 1, -3, 2.5] if neg else [None, None, 1])
    return sf, of
def enc_s(*s):
    if len(s) == 3: return list(s)              # as the specification states it
    sf, of = s
    n, d = {None: (1, 1), 2: (2, 1), .5: (1, 2), -1: (-1, 1), .25: (1, 4), 4: (4, 1)}[sf]
    return [n, d, int(round((of or 0) * K))]
FAM = dict(Lat='Lat', Lon='Lon', Pres='Z', Hybrid='Z', ZAxis='Z', Height='Z')
def text(v):
    """what names a variable: as its creator gave it"""
    pa = v.plotatts
    u = v.units or v.atts.get('units', '') or ''
    if pa.get('plotunits') is not None: u = pa['plotunits']
    n = pa.get('plotname') if pa.get('plotname') is not None else (v.name or '')
    t = pa.get('plottitle')
    return dict(has=t is not None, title=t or '', name=n, units=u or '')

def an_axis(rng, kind, n):
    pos = kind in ('Pres', 'Hybrid')
    start = rng.randint(1, 20) if pos else rng.randint(-20, 20)
    v = np.cumsum([start] + [rng.choice([1, 2, 3, 6]) for _ in range(n)])[:n] / 4.
    if rng.random() < .3: v = v[::-1]
    if kind == 'Height' and False: pass
    d = {}
    if rng.random() < .25: d['plotname'] = rng.choice(['A name', 'p'])
    if rng.random() < .2: d['plottitle'] = rng.choice(['A title', ''])
    if rng.random() < .2: d['plotunits'] = rng.choice(['km', ''])
    if rng.random() < .3 and kind not in ('Time365',): d['plotorder'] = rng.choice([1, -1])
    sf, of = scaling(rng, not pos)
    if kind == 'Time365': sf = of = None
    if sf is not None: d['scalefactor'] = sf
    if of is not None: d['offset'] = of
    kw = dict(plotatts=d)
    if kind == 'Time365':
        ax = TA.ModelTime365(values=np.sort(np.array(rng.sample(range(0, 900), n), float)), units='days', startdate=dict(year=2001, month=1, day=1), plotatts=d)
    elif kind == 'NamedAxis': ax = A.NamedAxis(v, rng.choice(['foo', 'bar']), **kw)
    elif kind == 'Hybrid': ax = A.Hybrid(v, A=np.arange(n) * 10., B=np.arange(n) / 4., **kw)
    else: ax = getattr(A, kind)(v, **kw)
    if kind in ('NamedAxis', 'Height', 'XAxis', 'YAxis') and rng.random() < .4: ax.units = rng.choice(['m', 'km'])
    return ax, (sf, of)
def enc_ax(ax, s):
    return dict(f=FAM.get(type(ax).__name__, 'o'), v=nums(ax.values), s=enc_s(*s), o=ax.plotatts.get('plotorder', 1), t=text(ax))
KINDS = ['Lat', 'Lon', 'Pres', 'NamedAxis', 'Time365', 'Hybrid', 'ZAxis', 'Height', 'XAxis', 'YAxis']
GRP = dict(Pres='z', Hybrid='z', ZAxis='z', Height='z', Lon='x', XAxis='x', Lat='y', YAxis='y')
def some_axes(rng, nwide, kinds=None):
    ks, out, used = list(kinds or KINDS), [], set()
    if not kinds: rng.shuffle(ks)
    for k in ks:
        g = GRP.get(k, k)
        if g in used: continue
        used.add(g)
        if len([1 for a in out if len(a[0]) > 1]) < nwide: out.append(an_axis(rng, k, rng.randint(2, 5)))
        elif len(out) < nwide + 2 and rng.random() < .25 and not kinds: out.append(an_axis(rng, k, 1))
        elif len(out) >= nwide: break
    if not kinds: rng.shuffle(out)
    return out
def a_var(rng, axs, nan=.1, name=None, pos=False, dt=None):
    sh = tuple(len(a) for a, s in axs)
    n = int(np.prod(sh))
    dt = dt or rng.choice(['d', 'd', 'f', 'i'])
    d = np.array([rng.randint(-40, 40) for _ in range(n)], 'd')
    if dt in 'df': d /= 4.
    d = d.astype(dt)
    if dt in 'df' and n > 3:
        for i in range(n):
            if rng.random() < nan: d[i] = np.nan
        if np.isfinite(d).sum() < 2: d[:2] = [1, 2]
    sf, of = scaling(rng)
    if dt == 'i' and sf not in (None, 2, -1, 4) : pass
    p = {}
    if sf is not None: p['scalefactor'] = sf
    if of is not None: p['offset'] = of
    if rng.random() < .25: p['plotname'] = rng.choice(['Wind', 'w'])
    if rng.random() < .15: p['plottitle'] = rng.choice(['The title', ''])
    if rng.random() < .2: p['plotunits'] = rng.choice(['K', ''])
    v = Var([a for a, s in axs], values=d.reshape(sh), name=name or rng.choice(['v', 'temp']), plotatts=p)
    k = rng.random()
    if k < .3: v.units = 'm s**-1'
    elif k < .4: v.atts['units'] = 'Pa'
    elif k < .5: v.units = 'W'; v.atts['units'] = 'Pa'
    enc = dict(ax=[enc_ax(a, s) for a, s in axs], s=enc_s(sf, of), dat=nums(d))
    return v, enc
def lazy(rng, v):
    k = rng.random()
    if k < .7: return v
    w = LazyVar(v); w.plotatts = v.plotatts.copy(); w.units = v.units; w.name = v.name; w.atts = v.atts.copy()
    return w
def points(v): return [a.formatvalue(a.values[0]) for a in v.axes if len(a) == 1]
def text1(v, isvar):
    pa = v.plotatts
    g = lambda k: pa.get(k) or ''
    return dict(has=False, title=g('plottitle'), name=(v.name or ('Unnamed Var' if isvar == 2 else '')) if isvar else '', units=g('plotunits'), pn=g('plotname'))
def mesh(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.ndim != 2 or y.shape != x.shape or not (x == x[:1]).all() or not (y == y[:, :1]).all(): return [BADI], [BADI]
    return nums(x[0]), nums(y[:, 0])
def old(T, rng):
    """plotvar"""
    n = rng.choice([1, 2, 2])
    axs = some_axes(rng, n, rng.choice([None, None, ['Lat', 'Lon'], ['Lon', 'Lat'], ['Pres', 'Lat'], ['Lat', 'Pres']]) if n == 2 else None)
    v, enc = a_var(rng, axs)
    for a, (ax, s) in zip(enc['ax'], axs): a['t'] = text1(ax, 0)
    src = lazy(rng, v)
    wide = [a for a in enc['ax'] if len(a['v']) > 1]
    kw = dict(map=False) if n == 2 else {}
    if rng.random() < .5: kw['pbar'] = False
    z = n == 1 and wide[0]['f'] == 'Z'
    lx, ly = (True, True) if n == 2 else (not z, z)
    if rng.random() < .3: kw['lblx'] = lx = rng.random() < .5
    if rng.random() < .3: kw['lbly'] = ly = rng.random() < .5
    calls = [dict(m='contourf', lv='21')]
    around = False
    if n == 2:
        k = rng.random()
        if k < .3: kw['clevs'] = 5; calls = [dict(m='contourf', lv='5')]
        elif k < .5: kw['clevs'] = None; kw['clines'] = [-2, 0, 3]; calls = [dict(m='contour', lv='-2,0,3')]
        elif k < .7: kw['clines'] = 7; calls.append(dict(m='contour', lv='7'))
        elif k < .8: kw['pcolor'] = True; calls = [dict(m='pcolor', lv='')]; kw['antialiased'] = True
        around = rng.random() < .25
        if around: kw['perx'] = True
        if rng.random() < .3: kw['colorbar'] = False
    if rng.random() < .2: kw['ifig'] = 3
    def go():
        def f():
            if rng.random() < .2: kw['ax'] = plt.figure().add_subplot(111)
            pyg.plotvar(src, **kw)
            return plt.gcf()
        c = draw(f)
        if n == 1: return dict(k='ok', x=nums(c[0][2][0]), y=nums(c[0][2][1]), **frame(c[0][1]))
        out = []
        for m, mx, a, k in c:
            x, y = mesh(a[0], a[1])
            out.append(dict(m=m, x=x, y=y, z=[grid(a[2])], lv=lev(a[3]) if m != 'pcolor' else ''))
        return dict(k='ok', calls=out, **frame(c[0][1]))
    r, err = attempt(go)
    T.emit(op='oldline' if n == 1 else 'old', v=enc, t=text1(v, 2), pts=points(v), calls=calls, around=around, lblx=lx, lbly=ly, obs=err or r)

def layout(T, rng):
    ny, nx = rng.randint(1, 3), rng.randint(1, 3)
    sz = [[[] if rng.random() < .2 else [rng.randint(1, 12), rng.randint(1, 12)] for _ in range(nx)] for _ in range(ny)]
    if any(not any(r) for r in sz): return         # rows have something in them
    how = rng.choice(['grid', 'grid', 'colorbar'])
    def mk(s):
        a = wr.AxesWrapper(size=(s[0] / 4., s[1] / 4.)); a.plot([0, 1], [0, 1]); return a
    pos = rng.choice('lrbt')
    if how == 'colorbar':
        a0 = [rng.randint(1, 12), rng.randint(1, 12)]; k = rng.randint(1, 6)
        bar = [k, a0[1]] if pos in 'lr' else [a0[0], k]
        sz = {'r': [[a0, bar]], 'l': [[bar, a0]], 'b': [[a0], [bar]], 't': [[bar], [a0]]}[pos]
    def go():
        if how == 'grid': G = wr.grid([[mk(s) if s else None for s in r] for r in sz])
        else:
            a = mk(a0); a.contourf([0, 1], [0, 1], [[0, 1], [1, 2]])
            kw = {} if pos == 'r' and rng.random() < .5 else dict(pos=pos)
            G = wr.colorbar(a, a.plots[-1], **dict(kw, **{'width' if pos in 'lr' else 'height': k / 4.}))
        if rng.random() < .3:
            del LOG[:]; G.render(show=False); plt.close('all')
        W, H = G.size
        out = []
        for l, b, r, t in G.ax_boxes: out.append([int(round(q * 8)) if abs(q * 8 - round(q * 8)) < 1e-6 else BADI for q in (l * W, b * H, r * W, t * H)])
        return dict(k='ok', boxes=out, size=[num(W, 8), num(H, 8)])
    r, err = attempt(go)
    T.emit(op='grid', sz=sz, obs=err or r, tag=how)

def draw(fn, rng=None):
    """call, render without a window -> calls that reached the library, the frame of the first"""
    del LOG[:]
    try:
        ax = fn()
        if rng and rng.random() < .12:          # kept in a file
            wr.save(ax, 'plot.pkl'); ax = wr.load('plot.pkl'); os.remove('plot.pkl')
        fig = ax if isinstance(ax, Figure) else ax.render(show=False)
        return list(LOG)
    finally: plt.close('all')
def frame(mx):
    return dict(xl=nums(mx.get_xlim()), yl=nums(mx.get_ylim()), xlab=mx.get_xlabel(), ylab=mx.get_ylabel(), title=mx.get_title())

def line(T, rng, beh=None):
    axs = some_axes(rng, 1)
    v, enc = a_var(rng, axs)
    lx, ly = rng.random() < .85, rng.random() < .85
    tr = rng.random() < .35
    src = lazy(rng, v)
    how = rng.choice(['vplot', 'vplot', 'showvar', 'method', 'axes'])
    def go():
        kw = dict(lblx=lx, lbly=ly)
        if tr or rng.random() < .3: kw['transpose'] = tr
        if rng.random() < .3: kw['fmt'] = 'r-'
        if rng.random() < .3: kw['linewidth'] = 2.
        if how == 'axes': kw['axes'] = wr.AxesWrapper()
        f = {'vplot': pyg.vplot, 'axes': pyg.vplot, 'showvar': pyg.showvar, 'method': pyg.vplot}[how]
        c = draw(lambda: f(src, **kw), rng)
        assert len(c) == 1 and c[0][0] == 'plot', 'calls: %s' % [x[0] for x in c]
        a = c[0][2]
        return dict(k='ok', x=nums(a[0]), y=nums(a[1]), **frame(c[0][1]))
    r, err = attempt(go)
    T.emit(op='line', v=enc, t=text(v), pts=points(v), tr='yes' if tr else 'none', lim=1, lab=2, lblx=lx, lbly=ly, tag=how, obs=err or r)

def zs_of(encs): return [dict(dat=e['dat'], s=e['s']) for e in encs]
def surface(T, rng, beh=None):
    if beh:
        axs = []
        for i, a in enumerate(beh['ax']):
            kind = {'Z': 'ZAxis', 'Lat': 'Lat', 'Lon': 'Lon', 'o': ['NamedAxis', 'XAxis'][i]}[a['f']]
            if kind == 'ZAxis' and i == 1 and beh['ax'][0]['f'] == 'Z': kind = 'Hybrid'
            if [x['f'] for x in beh['ax']].count(a['f']) > 1 and a['f'] in ('Lat', 'Lon'): return
            n, d, b = a['s']
            kw = dict(plotatts=dict(plotorder=a['o']))
            if (n, d, b) != (1, 1, 0): kw['plotatts'].update(scalefactor=n / d, offset=b / K)
            val = np.array(a['v'], float) / K
            ax = A.NamedAxis(val, 'foo', **kw) if kind == 'NamedAxis' else A.Hybrid(val, A=val, B=val, **kw) if kind == 'Hybrid' else getattr(A, kind)(val, **kw)
            axs.append((ax, a['s']))
        n, d, b = beh['s']
        sh = tuple(len(a) for a, s in axs)
        dat = np.array([rng.randint(-40, 40) / 4. for _ in range(int(np.prod(sh)))]); dat[1] = np.nan
        v = Var([a for a, s in axs], values=dat.reshape(sh), name='v', plotatts={} if (n, d, b) == (1, 1, 0) else dict(scalefactor=n / d, offset=b / K))
        enc = dict(ax=[dict(f=FAM.get(type(a).__name__, 'o'), v=nums(a.values), s=s, o=a.plotatts['plotorder'], t=text(a)) for a, s in axs], s=beh['s'], dat=nums(dat))
        tr = {'none': None, 'yes': True, 'no': False}[beh['tr']]
        how = rng.choice(['vcontour', 'vquiver', 'showvar'])
        if any(len(a) == 1 for a, s in axs): return
    else:
        kinds = rng.choice([None, None, None, ['Lat', 'Lon'], ['Lon', 'Lat'], ['Pres', 'Lat'], ['Lat', 'Pres'], ['Time365', 'Pres'], ['Pres', 'Time365']])
        axs = some_axes(rng, 2, kinds)
        v, enc = a_var(rng, axs)
        tr = rng.choice([None, None, True, False])
        how = rng.choice(['vcontour', 'vcontour', 'showvar', 'vquiver', 'vquiverc', 'vstreamplot', 'showgrid', 'showcol'])
    lx, ly = rng.random() < .85, rng.random() < .85
    calls, encs, extra = [], [enc], {}
    lim, lab = 1, 2
    kw = dict(lblx=lx, lbly=ly, map=False)
    if tr is not None or rng.random() < .2: kw['transpose'] = tr
    src = lazy(rng, v)
    others = []
    def levels():
        k = rng.random()
        return int(rng.choice([3, 8, 21])) if k < .4 else sorted(rng.sample(range(-20, 20), rng.randint(2, 6)))
    if how in ('vcontour', 'showvar'):
        k = rng.random()
        if how == 'vcontour' and k < .3: calls = [dict(m='contourf', lv='21')]
        else:
            if k < .8: kw['clevs'] = levels(); calls.append(dict(m='contourf', lv=lev(kw['clevs'])))
            if k > .6 or not calls: kw['clines'] = levels(); calls.append(dict(m='contour', lv=lev(kw['clines'])))
        if how == 'showvar' and rng.random() < .5:
            kw.pop('clevs', None); kw.pop('clines', None)
            kw['type'] = rng.choice(['clf', 'cl']); kw['cdelt'] = rng.choice([.5, 1., 3.])
            D = (ch.clfdict if kw['type'] == 'clf' else ch.cldict)(kw['cdelt'])
            calls = [dict(m='contourf', lv=lev(D['clevs']))] if kw['type'] == 'clf' else []
            calls.append(dict(m='contour', lv=lev(D['clines'])))
        elif how == 'showvar' and not ('clevs' in kw or 'clines' in kw): return
        if how == 'showvar' and rng.random() < .3: kw['colorbar'] = False
        if rng.random() < .2 and len(calls) == 1: kw['cmap'] = 'viridis'; kw.pop('colors', None)
        if kw.get('type') == 'cl': kw.pop('cmap', None)
        if rng.random() < .3 and not (how == 'showvar'): kw['axes'] = wr.AxesWrapper()
    elif how in ('vquiver', 'vquiverc', 'vstreamplot'):
        m = how.rstrip('c') if how != 'vstreamplot' else how
        for _ in range(2 if how == 'vquiverc' else 1):
            w, we = a_var(rng, axs, nan=.05); others.append(lazy(rng, w)); encs.append(we)
        calls = [dict(m=m[1:], lv='')]
        # variables in another order of axes
        if how == 'vstreamplot' and rng.random() < .4: others = [o.transpose(*reversed(o.axes)) for o in others]
    if how == 'vcontour' and rng.random() < .1: kw['label'] = False; lim = 0; lab = 0
    if how in ('showgrid', 'showcol'):
        many = [(src, enc)]
        for _ in range(rng.randint(0, 2)):
            w, we = a_var(rng, axs); many.append((lazy(rng, w), we))
        kw.pop('lblx'); kw.pop('lbly')
        vs = [x[0] for x in many]; encs = [x[1] for x in many]
        lines = None
        if how == 'showgrid':
            if rng.random() < .5:
                lines = [a_var(rng, axs) for _ in range(rng.choice([1, len(vs)]))]
            ncol = rng.choice([1, 2, 3])
            kw['cdelt'] = 2.
            if rng.random() < .5: kw['colorbar'] = False
        else: ncol = 1
    def go():
        if how in ('showgrid', 'showcol'):
            if how == 'showgrid': c = draw(lambda: pyg.showgrid(vs, lines and [x[0] for x in lines] or [], ncol=ncol, **kw))
            else: c = draw(lambda: pyg.showcol(vs, **kw))
        else:
            f = {'vcontour': pyg.vcontour, 'showvar': pyg.showvar, 'vquiver': pyg.vquiver, 'vquiverc': pyg.vquiver, 'vstreamplot': pyg.vstreamplot}[how]
            c = draw(lambda: f(src, *others, **kw), rng)
        out = []
        for m, mx, a, k in c:
            nz = len(a) - 2 if m in ('quiver', 'streamplot') else 1
            out.append(dict(m=m, ax=mx, x=nums(a[0]), y=nums(a[1]), z=[grid(q) for q in a[2:2 + nz]], lv=lev(a[3]) if m in ('contour', 'contourf') else '', k=k))
        return dict(k='ok', calls=out)
    r, err = attempt(go)
    pts = points(v)
    tro = {None: 'none', True: 'yes', False: 'no'}[tr]
    def put(v, enc, es, want, cs, lx, ly, lim, lab, tag=how):
        if cs is None: ob = err
        else:
            ob = dict(k='ok', calls=[{q: c[q] for q in ('m', 'x', 'y', 'z', 'lv')} for c in cs])
            ob.update(frame(cs[0]['ax']) if cs else dict(xl=[], yl=[], xlab='', ylab='', title=''))
        T.emit(op='surface', v=enc, zs=zs_of(es), t=text(v), pts=points(v), tr=tro, calls=want, lim=lim, lab=lab, lblx=lx, lbly=ly, tag=tag, obs=ob)
    if how not in ('showgrid', 'showcol'):
        return put(v, enc, encs, calls, r and r['calls'], lx, ly, lim, lab)
    if err: return put(v, enc, encs[:1], [], None, True, True, 0, 0)
    if how == 'showcol': D = dict(clevs=21, clines=None)
    else: D = ch.clfdict(kw['cdelt'])
    # one drawing per variable, each in its own frame, in order
    frames = []
    for c in r['calls']:
        if c['ax'] not in frames: frames.append(c['ax'])
    nv = max(len(vs), len(lines or []))
    for i in range(max(nv, len(frames))):
        cs = [c for c in r['calls'] if i < len(frames) and c['ax'] is frames[i]]
        e = encs[i % len(encs)]
        lx, ly = (i // ncol == -(-nv // ncol) - 1, i % ncol == 0)
        if lines:
            fill, ln = [c for c in cs if c['m'] == 'contourf'], [c for c in cs if c['m'] == 'contour']
            put(vs[i % len(vs)], e, [e], [dict(m='contourf', lv=lev(D['clevs']))], fill, lx, ly, 1, 0, how)
            le = lines[i % len(lines)][1]
            put(lines[i % len(lines)][0], le, [le], [dict(m='contour', lv=lev(D['clines']))], ln, lx, ly, 0, 0, how)
        else:
            want = [dict(m='contourf', lv=lev(D['clevs']))] + ([dict(m='contour', lv=lev(D['clines']))] if D['clines'] is not None else [])
            put(vs[i % len(vs)], e, [e], want, cs, lx, ly, 1, 2, how)

def world(T, rng):
    """a surface over longitudes and latitudes is put on a map"""
    if not GeoAxes: return
    kinds = rng.choice([['Lat', 'Lon'], ['Lon', 'Lat']])
    axs = some_axes(rng, 2, kinds)
    v, enc = a_var(rng, axs)
    how = rng.choice(['vcontour', 'showvar', 'vquiver', 'vstreamplot'])
    kw, prj, frm = {}, 'PlateCarree', 'PlateCarree'
    if rng.random() < .6:
        kw['map'] = {}
        if rng.random() < .6:
            prj = rng.choice(['Mollweide', 'Robinson', 'Orthographic', 'Mercator'])
            kw['map']['projection'] = prj if rng.random() < .7 else getattr(ccrs, prj)()
        elif rng.random() < .4: kw['map']['prj_args'] = dict(central_longitude=0.)
        if rng.random() < .3: kw['map']['transform'] = ccrs.RotatedPole(20., 40.); frm = 'RotatedPole'
    if rng.random() < .7: kw['mapdecor'] = rng.choice([False, dict(coastlines=False), dict(gridlines=False)])
    if rng.random() < .2: kw['transpose'] = kinds == ['Lat', 'Lon']
    src, others, encs, calls = lazy(rng, v), [], [enc], []
    if how in ('vcontour', 'showvar'):
        k = rng.random()
        if k < .7: kw['clevs'] = [-4., 0., 2.5]; calls.append(dict(m='contourf', lv=lev(kw['clevs'])))
        if k > .4: kw['clines'] = [-3., 1.]; calls.append(dict(m='contour', lv=lev(kw['clines'])))
        if how == 'showvar': kw['colorbar'] = False
    else:
        w, we = a_var(rng, axs, nan=.05); others.append(lazy(rng, w)); encs.append(we)
        calls = [dict(m=how[1:], lv='')]
    for c in calls: c['m'] += ':%s:%s' % (frm, prj)
    def go():
        c = draw(lambda: getattr(pyg, how)(src, *others, **kw))
        out = []
        for m, mx, a, k in c:
            nz = 2 if others else 1
            out.append(dict(m=m, x=nums(a[0]), y=nums(a[1]), z=[grid(q) for q in a[2:2 + nz]], lv=lev(a[3]) if not others else ''))
        return dict(k='ok', calls=out, xl=[], yl=[], xlab='', ylab='', title=c[0][1].get_title() if c else '')
    r, err = attempt(go)
    T.emit(op='surface', v=enc, zs=zs_of(encs), t=text(v), pts=points(v), tr={None: 'none', True: 'yes', False: 'no'}[kw.get('transpose')], calls=calls, lim=0, lab=2, lblx=True, lbly=True,
           tag='map ' + how, obs=err or r)

def many_lines(T, rng):
    axs = some_axes(rng, 1)
    ve = [a_var(rng, axs) for _ in range(rng.randint(1, 3))]
    how = rng.choice(['showlines', 'showcol'])
    def go():
        if how == 'showlines': c = draw(lambda: pyg.showlines([v for v, e in ve]))
        else: c = draw(lambda: pyg.showcol([v for v, e in ve]))
        assert [x[0] for x in c] == ['plot'] * len(ve), 'calls: %s' % [x[0] for x in c]
        return [dict(k='ok', x=nums(x[2][0]), y=nums(x[2][1]), **frame(x[1])) for x in c]
    r, err = attempt(go)
    for i, (v, e) in enumerate(ve):
        T.emit(op='line', v=e, t=text(v), pts=points(v), tr='none', lim=0, lab=0, lblx=True, lbly=True, tag=how, obs=err or r[i])

def scat(T, rng):
    axs = some_axes(rng, rng.choice([1, 2]))
    v, e = a_var(rng, axs); w, f = a_var(rng, axs)
    lx, ly = rng.random() < .85, rng.random() < .85
    def go():
        c = draw(lambda: pyg.vscatter(lazy(rng, v), lazy(rng, w), lblx=lx, lbly=ly))
        a = c[0][2]
        return dict(k='ok', x=nums(a[0]), y=nums(a[1]), **frame(c[0][1]))
    r, err = attempt(go)
    tv, tw = text(v), text(w)
    T.emit(op='points', vx=dict(dat=e['dat'], s=e['s'], t=tv), vy=dict(dat=f['dat'], s=f['s'], t=tw), lim=1, lblx=lx, lbly=ly, obs=err or r)
    v, e = a_var(rng, axs, nan=0)
    def go():
        c = draw(lambda: pyg.vhist(lazy(rng, v), lblx=lx))
        return dict(k='ok', x=nums(c[0][2][0]), **frame(c[0][1]))
    r, err = attempt(go)
    T.emit(op='hist', vx=dict(dat=e['dat'], s=e['s'], t=text(v)), t=text(v), pts=points(v), lab=2, lblx=lx, obs=err or r)

NUMBER = re.compile(r'\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)(.*)$', re.S)
def texts(T, rng):
    kind = rng.choice(['Lat', 'Lon', 'Pres', 'NamedAxis', 'Height', 'XAxis'])
    q = rng.choice([rng.randint(-4000, 4000), rng.randint(-720, 720), rng.choice([0, 720, -720, 1440, 360, -360, 1])])
    if kind == 'Pres': q = abs(q) + 1
    x = q / 4.
    c = rng.choice(['g', 'g', 'f', 'd'])
    p = rng.choice([1, 2, 3, 4, 6]) if c == 'g' else rng.randint(0, 3)
    fmt = '%d' if c == 'd' else '%%.%d%s' % (p, c)
    hemi, top, brk = False, 180, 0
    if kind == 'Lat' and rng.random() < .7: hemi = True; fmt += rng.choice(['', ' ']) + 'N'
    if kind == 'Lon' and rng.random() < .7:
        hemi = True; fmt += rng.choice(['', ' ']) + 'E'
        if rng.random() < .5: top = rng.choice([360, 180, 270, 200]); fmt += '<%d' % top
    if kind == 'Pres' and rng.random() < .5: brk = rng.choice([1, 10, 100]); fmt += '<%d' % brk
    ax = A.NamedAxis([0., 1.], 'foo') if kind == 'NamedAxis' else getattr(A, kind)([1., 2.])
    if kind == 'NamedAxis' or rng.random() < .3: ax.units = 'qq'
    kw = {}
    units = kind not in ('Lat', 'Lon')
    if rng.random() < .6: units = kw['units'] = rng.random() < .5
    ustr = ax.units
    if rng.random() < .3: ustr = kw['unitstr'] = 'zz'
    how = rng.choice(['call', 'call', 'default', 'formatter', 'formatted'])
    def go():
        if how == 'default': ax.formatstr = fmt; s = ax.formatvalue(x, **kw)
        elif how == 'formatter':
            ax.plotatts = dict(ax.plotatts, plotfmt=fmt); s = ax.formatter()(x, 0)
        elif how == 'formatted': s = AxisFormatter(ax, fmt=fmt, units=units, unitstr=ustr)(x)
        else: s = ax.formatvalue(x, fmt, **kw)
        m = NUMBER.match(s)
        if not m: return dict(k='ok', num=0, suf=s.strip())
        return dict(k='ok', num=num(m.group(1), 10000), suf=m.group(2).strip() if hemi else m.group(2).rstrip())
    r, err = attempt(go)
    if how == 'formatter': units = False
    T.emit(op='text', f=kind if kind in ('Lat', 'Lon', 'Pres') else 'o', hemi=hemi, top=top * 10000, brk=brk * 10000, c=c, p=p, v=q * 2500, units=units, unitstr=ustr or '', tag=how, obs=err or r)

def mult(a, unit):
    if a is None: return []
    out = []
    for x in np.asarray(a).ravel().tolist():
        y = x / unit
        out.append(int(round(y)) if abs(y - round(y)) < 1e-4 and abs(y) < 2**30 else BADI)
    return out
def levels(T, rng):
    kind = rng.choice(['clf', 'clf', 'cl', 'log1', 'log2'])
    cd = rng.choice([.1, .25, 1., 3., 10., 50., 1e-3, .7, 2., 1e6])
    p = dict(style='none', hasmin=False, min=0, mid=0, d=60, nf=6, nl=2, ndiv=3, nozero=False, range=600, ci=0, bar=1)
    kw = {}
    def opt(key, val, pr=.5, real=None):
        if rng.random() < pr: p[key] = val; kw[key] = val if real is None else real
    u = cd / 60.
    if kind == 'clf':
        opt('nf', rng.choice([1, 2, 3, 4, 5, 6])); opt('nl', rng.choice([0, 1, 2, 3, 4])); opt('ndiv', rng.choice([1, 2, 3, 4, 5])); opt('nozero', True, .3)
        opt('style', rng.choice(['div', 'seq']), .4)
        k = rng.choice([0, 60, 120, -60, 30, -240, 600])
        if rng.random() < .4: p['hasmin'] = True; p['min'] = k; kw['min'] = k * u
        elif rng.random() < .5: p['mid'] = k; kw['mid'] = k * u
        st = p['style'] if p['style'] != 'none' else 'seq' if p['hasmin'] else 'div'
        if st == 'seq' and p['nozero']: p['nozero'] = False
    elif kind == 'cl':
        nr = rng.randint(2, 12)
        if rng.random() < .6: p['range'] = nr * 60; kw['range'] = nr * cd
        j = rng.random()
        if j < .25: p['nozero'] = True; kw['nozero'] = True
        elif j < .5: p['ci'] = rng.choice([10, 12, 15, 20, 30]); kw['cidelt'] = p['ci'] * u
        elif j < .75:
            k = rng.choice([0, 60, 120, -60, 30, -240])
            if rng.random() < .5: p['hasmin'] = True; p['min'] = k; kw['min'] = k * u
            else: p['mid'] = k; kw['mid'] = k * u
        p['nf'] = 0; p['bar'] = 0
    else:
        opt('nf', rng.choice([0, 1, 2, 3, 6])); opt('nl', rng.choice([0, 1, 2, 4])); opt('ndiv', rng.choice([2, 3, 4]) if kind == 'log2' else rng.choice([1, 2, 3, 5]))
        p['ndiv'] = kw.get('ndiv', 5 if kind == 'log1' else 3)
        if kind == 'log2': opt('nozero', True, .3)
    base = rng.choice([10., 10., 2., 5., 10]) 
    if kind.startswith('log') and rng.random() < .6: kw['cdelt'] = base
    else: base = 10.
    if kind != 'cl' and rng.random() < .25: kw['colorbar'] = False; p['bar'] = 0
    elif kind != 'cl' and rng.random() < .3: kw['colorbar'] = dict(orientation='horizontal')
    if kind == 'clf' and rng.random() < .15: kw['clr'] = False; p['bar'] = 0
    keep = dict(kw.get('colorbar') or {}) if kw.get('colorbar') is not False else None
    def expo(a, n):
        if a is None: return []
        return mult(np.log(np.asarray(a, float) / cd) / np.log(base), 1. / n) if np.all(np.asarray(a) > 0) else [BADI]
    def expo2(a, n):
        if a is None: return []
        out = []
        for x in np.asarray(a, float).tolist():
            y = abs(x) / cd
            w = y * n if y <= 1 + 1e-9 else n * (1 + math.log(y) / math.log(base))
            w = math.copysign(w, x)
            out.append(int(round(w)) if abs(w - round(w)) < 1e-4 else BADI)
        return out
    def go():
        f = dict(clf=ch.clfdict, cl=ch.cldict, log1=ch.log1sdict, log2=ch.log2sdict)[kind]
        d = f(cd, **kw)
        tk = d.get('colorbar') or {}
        tk = tk.get('ticks') if tk else None
        if keep is not None and kw.get('colorbar') is not None: assert dict(kw['colorbar']) == keep, 'the dictionary of the caller has changed'
        if kind in ('clf', 'cl'): return dict(k='ok', cf=mult(d['clevs'], u), cl=mult(d['clines'], u), tk=mult(tk, u))
        e = expo if kind == 'log1' else expo2
        return dict(k='ok', cf=e(d['clevs'], p['nf'] or 1), cl=e(d['clines'], p['nl'] or 1), tk=e(tk, 1))
    r, err = attempt(go)
    T.emit(op='levels', kind=kind, p=p, obs=err or r, tag=str(cd))

def norm(T, rng):
    k = rng.choice([2, 3, 4]); n = rng.choice([1, 2, 4]); vin = rng.choice([1., .1, 3.]); base = rng.choice([10., 2.])
    js = [rng.randint(-n * k, n * k) for _ in range(rng.randint(1, 8))]
    def val(j): return math.copysign(vin * (abs(j) / n if abs(j) <= n else base ** (abs(j) / n - 1)), j)
    x = np.array([val(j) for j in js])
    miss = [rng.random() < .15 for _ in js]
    how = rng.choice(['scalar', 'array', 'list', 'masked', 'float32'])
    if how != 'masked': miss = [False] * len(js)
    def go():
        if rng.random() < .5: N = ch.log2sdict(vin, cdelt=base, ndiv=k)['norm']
        else: N = ch.LogNorm2Sided(vmin=-vin * base ** (k - 1), vmax=vin * base ** (k - 1), vin=vin, cin=1. / (2 * k))
        if how == 'scalar': y = [N(float(t)) for t in x]; z = [N.inverse(t) for t in y]
        else:
            xx = {'array': x, 'list': x.tolist(), 'masked': np.ma.array(x, mask=miss), 'float32': x.astype('f')}[how]
            y = N(xx); z = N.inverse(y)
            assert len(y) == len(js) and len(z) == len(js)
        def code(t):
            if np.ma.is_masked(t): return MISS
            w = abs(float(t)) / vin
            w = w * n if w <= 1 + 1e-5 else n * (1 + math.log(w) / math.log(base))
            w = math.copysign(w, float(t))
            return int(round(w)) if abs(w - round(w)) < 1e-3 else BADI
        def pos(t):
            if np.ma.is_masked(t): return MISS
            w = float(t) * 2 * n * k
            return int(round(w)) if abs(w - round(w)) < 1e-3 else BADI
        return dict(k='ok', pos=[pos(t) for t in y], inv=[code(t) for t in z])
    r, err = attempt(go)
    T.emit(op='norm', n=n, k=k, js=[MISS if m else j for j, m in zip(js, miss)], tag=how, obs=err or r)

def guess(T, rng):
    n = rng.randint(8, 30)
    sgn = rng.choice(['both', 'pos', 'neg', 'zero'])
    hi = rng.choice([9, 20, 60, 300])
    lo_ = {'both': -hi, 'pos': 1, 'neg': -hi, 'zero': 0}[sgn]; hi_ = {'both': rng.choice([hi, hi // 3 + 3]), 'pos': hi, 'neg': -1, 'zero': hi}[sgn]
    z = [rng.randint(lo_, hi_) for _ in range(n)]
    if sgn == 'both': z[:6] = [lo_, lo_ // 2, lo_ // 3, hi_, hi_ // 2, hi_ // 3]
    if len(set(z)) < 4 or max(z) - min(z) < 4: return
    # no outliers: the ends near the rest
    m = np.percentile(z, [2, 50, 98])
    sc = rng.choice([1., 10., .01, 1000.])
    a = np.array(z) * sc
    sh = (n,) if n % 2 else (2, n // 2)
    kw = {}
    style = rng.choice(['none', 'none', 'none', 'div', 'seq'])
    if style != 'none': kw['style'] = style
    ndiv = rng.choice([0, 0, 2, 4, 5, 7])
    if ndiv: kw['ndiv'] = ndiv
    clf = rng.random() < .7
    if not clf: kw['clf'] = False
    a = a.reshape(sh)
    if rng.random() < .3: a = np.concatenate([a.ravel(), [np.nan, np.inf]])
    def go():
        s, d = ch.guessclimits(a, **kw)
        g = lambda t: num(t / sc, 20)
        return dict(k='ok', spc=g(s), ndiv=int(d.get('ndiv', -1)), style=d.get('style', ''), nf=int(d.get('nf', 0)), range=g(d['range']) if 'range' in d else -1, min=g(d['min']) if 'min' in d else MISS)
    r, err = attempt(go)
    T.emit(op='guess', z=[20 * q for q in z], style=style, ndiv=ndiv, clf=clf, obs=err or r, tag=str(sc))

def sig(T, rng):
    """significance masks: what is asked of the drawing library (before rendering)"""
    axs = some_axes(rng, 2)
    v, enc = a_var(rng, axs)
    tr = rng.choice([None, None, True, False])
    mj, mn = rng.choice([(.95, None), (.9, None), (.95, .9), (.99, .5)])
    if mn is None: want = [-1.1, -mj, mj, 1.1]; parts = [([0, 2], 'M'), ([1], 'n')]
    else: want = [-1.1, -mj, -mn, mn, mj, 1.1]; parts = [([0, 4], 'M'), ([1, 3], 'm'), ([2], 'n')]
    show = lambda lv, ps: lev(lv) + ';' + ';'.join('%s=%s' % (sorted(i), h) for i, h in ps)
    def go():
        ax = wr.AxesWrapper()
        kw = {} if tr is None else dict(transpose=tr)
        pyg.vsigmask(lazy(rng, v), ax, mjsig=mj, mnsig=mn, mjsigp=dict(hatch='M'), mnsigp=dict(hatch='m'), nsigp=dict(hatch='n'), **kw)
        c = [p for p in ax.plots if isinstance(p, wr.Contourf)]
        m = [p for p in ax.plots if isinstance(p, wr.ModifyContours)]
        assert len(c) == 1 and all(p.cnt is c[0] for p in m)
        x, y, z, lv = c[0].plot_args
        return dict(k='ok', calls=[dict(m='contourf', x=nums(x), y=nums(y), z=[grid(z)], lv=show(lv, [(p.ind, p.plot_kwargs['hatch']) for p in m]))], xl=[], yl=[], xlab='', ylab='', title='')
    r, err = attempt(go)
    T.emit(op='surface', v=enc, zs=zs_of([enc]), t=text(v), pts=points(v), tr={None: 'none', True: 'yes', False: 'no'}[tr], calls=[dict(m='contourf', lv=show(want, parts))],
           lim=0, lab=0, lblx=True, lbly=True, tag='vsigmask', obs=err or r)

def drive(T, rng, tier, shard, nsh):
    scratch = tempfile.mkdtemp(); os.chdir(scratch)
    for b in behaviours(shard, nsh): surface(T, rng, b)
    for i in range(50 if tier == 'quick' else 500):
        if i % 10 == 0: T.emit(op='begin')
        line(T, rng); surface(T, rng); surface(T, rng)
        if i % 3 == 0: scat(T, rng); many_lines(T, rng)
        for _ in range(6): texts(T, rng)
        for _ in range(3): levels(T, rng); guess(T, rng)
        norm(T, rng); layout(T, rng)
        world(T, rng)
        if i % 2: sig(T, rng)
        else: old(T, rng)
    os.chdir('/'); os.rmdir(scratch)
if __name__ == '__main__': main(drive)
