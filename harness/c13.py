"""C13: metadata of everything derived, and whether anything else changes."""
from gen import *
import operator
from pygeode import timeutils as TU
from pygeode import climat as CL

def enc(x):
    """attribute values as texts, equal just when they agree"""
    if isinstance(x, (list, np.ndarray)) and np.ndim(x) > 0: return 'a' + str(list(np.shape(x))) + ','.join(enc(y) for y in np.ravel(x).tolist())
    if isinstance(x, (bool, np.bool_)): return 'n%r' % float(x)
    if isinstance(x, (int, float, np.number)): return 'nan' if x != x else 'n%r' % float(x)
    if isinstance(x, str): return 's' + x
    return 'o' + repr(x)
def pairs(d): return sorted([str(k), enc(v)] for k, v in d.items())

VALS = [lambda: 'm', lambda: 'K', lambda: 3, lambda: 3., lambda: 4.5, lambda: np.nan, lambda: np.array([1., 2.]), lambda: [1, 2], lambda: np.array([1, 2, 3]), lambda: np.float32(3), lambda: '']
ATTK = ['long_name', 'units', 'cell', 'n']
PLK = ['plotname', 'plottitle', 'plotunits', 'plotorder', 'plotscale']
PLV = [lambda: 'a', lambda: 'b', lambda: -1, lambda: 'log']
# a plot attribute with its default value is as good as absent
DEFAULT = dict(plotscale='linear', plotorder=1)
def plv(rng, k): return rng.choice([-1, 2]) if k == 'plotorder' else rng.choice(PLV)()
def atts(rng, p=.6): return {k: rng.choice(VALS)() for k in ATTK if rng.random() < p}

class World:
    def __init__(self, T, rng):
        self.T, self.rng, self.objs, self.ids, self.cls = T, rng, {}, {}, []
        for c in (Var, A.Axis, A.Lat, A.Lon, A.Pres, A.NamedAxis, TA.StandardTime, TA.ModelTime365, A.ZAxis): self.cls.append(c)
        T.emit(op='begin', snap=self.snap())
    def reg(self, o):
        if id(o) not in self.ids: self.ids[id(o)] = len(self.objs) + 1; self.objs[len(self.objs) + 1] = o
        if not isinstance(o, A.Axis):
            for a in o.axes: self.reg(a)
        return self.ids[id(o)]
    def rec(self, i, o):
        d = {} if isinstance(o, type) else type(o).plotatts if isinstance(o, A.Axis) else DEFAULT
        pl = {k: v for k, v in o.plotatts.items() if not (k in d and enc(v) == enc(d[k]))}
        return dict(id=i, ax=int(isinstance(o, (A.Axis, type))), nm=str(o.name) if not isinstance(o, type) else '', un=str(getattr(o, 'units', '') or '') if not isinstance(o, type) else '', at=pairs(o.atts), pl=pairs(pl))
    def snap(self): return [self.rec(i, o) for i, o in self.objs.items()] + [self.rec(-i - 1, c) for i, c in enumerate(self.cls)]
    def vars(self): return [o for o in self.objs.values() if not isinstance(o, A.Axis)]
    def axes(self): return [o for o in self.objs.values() if isinstance(o, A.Axis)]
    def new(self, *os):
        for o in os: self.reg(o)
        self.T.emit(op='new', snap=self.snap())
    def derive(self, op, srcs, fn, new=(), ren={}, join=(), **kw):
        """one derivation; axes of the result come from those of the sources with the same name"""
        ids = [self.reg(s) for s in srcs]
        r, e = attempt(fn)
        if not e and not isinstance(r, Var): return None
        if not e and isinstance(r, A.Axis) != op.startswith('axis-'): e = dict(msg='axis and variable confused')
        ev = dict(op=op, srcs=ids, **kw)
        if e: self.T.emit(k='err', msg=e['msg'], out=0, axs=[], snap=self.snap(), **ev); return None
        out = self.reg(r); axs = []
        back = {n: o for o, n in ren.items()}
        if not isinstance(r, A.Axis):
            for a in r.axes:
                n = back.get(a.name, a.name)
                fr = [b for s in srcs for b in s.axes if b.name == n]
                how = 'join' if n in join else 'same' if fr and n not in new and all(type(b) is type(a) for b in fr) else 'new'
                axs.append(dict(id=self.reg(a), how=how, to=ren.get(n, ''), frm=[self.reg(b) for b in fr]))
        for a in axs: a['from'] = a.pop('frm')
        self.T.emit(k='ok', msg='', out=out, axs=axs, snap=self.snap(), **ev)
        return r
    def write(self, o=None, k=None, v=None):
        rng = self.rng; o = o if o is not None else rng.choice(list(self.objs.values())); i = self.reg(o)
        c = 'at' if k else rng.choice(['at', 'at', 'pl', 'pl', 'nm', 'un'])
        if isinstance(o, A.Axis) and c in ('nm', 'un'): c = 'at'
        ev = dict(op='write', id=i, what=c, k='', v='', to='', **{'del': 0})
        if c in ('nm', 'un'):
            ev['to'] = rng.choice(['T', 'U', 'w', 'a(b)']) if c == 'nm' else rng.choice(['K', 'm'])
            setattr(o, dict(nm='name', un='units')[c], ev['to'])
        else:
            d = o.atts if c == 'at' else o.plotatts
            key = k or rng.choice(ATTK if c == 'at' else PLK); ev['k'] = key
            if v == 0 or (v is None and key in d and rng.random() < .3 and c == 'at'): d.pop(key, None); ev['del'] = 1
            else:
                x = v if v is not None else rng.choice(VALS)() if c == 'at' else plv(rng, key); ev['v'] = enc(x); d[key] = x; ev['del'] = int(c == 'pl' and enc(x) == enc((type(o).plotatts if isinstance(o, A.Axis) else DEFAULT).get(key, ())))
        self.T.emit(snap=self.snap(), **ev)

# ---- the derivations of each kind; each returns the result or None where it does not apply ----
BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '**': operator.pow, '%': operator.mod, '>': operator.gt, '<': operator.lt, '>=': operator.ge, '<=': operator.le, '==': operator.eq, '!=': operator.ne}
def W_(o): return dict(v=1, s=o.name) if isinstance(o, Var) else dict(v=0, s=str(o))
def ufunc(W, v, rng, others):
    c = rng.choice(['inf1', 'inf1', 'inf2', 'inf2', 'around', 'call', 'calln', 'ax', 'map'])
    def go(form, sym, l, r, ws, fn):
        srcs = [o for o in ws if isinstance(o, Var)]
        return W.derive('ufunc', srcs, fn, form=form, sym=sym, l=l, r=r, ws=[W_(o) for o in ws])
    s = rng.choice([2, 2., -1, 0.5, np.float64(3.)])
    if c == 'inf1':
        sym = rng.choice(list(BIN))
        if rng.random() < .5 and sym in ('+', '-', '*', '/', '**', '%') and not isinstance(s, np.generic):
            return go('infix', sym, '', '', [s, v] if sym not in ('+', '*') or '(' in v.name or ')' in v.name else [v, s], lambda: BIN[sym](s, v)) if sym not in ('+', '*') else None
        return go('infix', sym, '', '', [v, s], lambda: BIN[sym](v, s))
    if c == 'inf2' or c == 'ax':
        w = rng.choice(others) if c == 'inf2' else rng.choice(v.axes)
        sym = rng.choice(['+', '*', '-', '/', '>', '<=', '=='] if c == 'inf2' else ['+', '*', '-'])
        if w is v and sym in ('==', '<=', '>'): sym = '+'
        return go('infix', sym, '', '', [v, w], lambda: BIN[sym](v, w))
    if c == 'around':
        l, r, f = rng.choice([('-', '', operator.neg), ('|', '|', abs), ('+', '', operator.pos)])
        return go('around', '', l, r, [v], lambda: f(v))
    if c == 'map':
        def my(x): return x * 2
        def my2(x, y): return x * y
        if rng.random() < .5: return go('call', 'my', '', '', [v], lambda: v.map(my))
        return go('call', 'my2', '', '', [v, 3], lambda: v.map(my2, 3))
    if c == 'call':
        n = rng.choice(['sqrt', 'exp', 'sin', 'sign', 'cosd', 'tand', 'log', 'sinh'])
        if rng.random() < .3: a = rng.choice(v.axes); return go('call', n, '', '', [a], lambda: getattr(pyg, n)(a)) if not isinstance(a, TA.Time) else None
        return go('call', n, '', '', [v], lambda: getattr(pyg, n)(v) if rng.random() < .5 else getattr(v, n)())
    ws = [v, rng.choice(others)]
    ws += [o for o in rng.sample(others, 1) if meet(o, ws[1])]
    n = rng.choice(['vsum', 'vprod', 'minimum', 'arctan2', 'clip'])
    if n == 'clip': return go('call', n, '', '', [v, -1, 2.5], lambda: pyg.clip(v, -1, 2.5))
    if n in ('minimum', 'arctan2'): ws = ws[:2]
    return go('call', n, '', '', ws, lambda: getattr(pyg, n)(*ws))

def keep(W, v, rng, others=None):
    """operations which keep everything"""
    ax = list(v.axes); i = rng.randrange(len(ax)); a = ax[i]; n = a.name
    c = rng.choice(['slice', 'select', 'select', 'squeeze', 'transpose', 'sorted', 'extend', 'replace-axes', 'rename-axes', 'fill', 'cast', 'load', 'time', 'dataset'])
    if c == 'slice':
        es = [rng.choice([slice(None), slice(None, None, -1), slice(None, None, 2), slice(0, 2), ([len(b) - 1, 0],)]) for b in ax]
        return W.derive('slice', [v], lambda: v.slice[tuple(es)])
    if c == 'select':
        if len(a) < 2: return None
        lo = float(min(a.values)); kw = rng.choice([{n: (lo, float(max(a.values)))}, {'i_' + n: (0, 2)}, {'i_' + n: 1}, {'si_' + n: 0}, {'s_' + n: float(a.values[0])}, {'l_' + n: [float(a.values[-1]), float(a.values[0])]}, {'li_' + n: [1, 0]}, {'n_' + n: (float(a.values[1]), float(a.values[1]))}])
        if isinstance(a, TA.Time) and not any(k.startswith(('i_', 'si_', 'li_')) for k in kw): kw = {'i_' + n: (1, 3)}
        return W.derive('select', [v], lambda: v(**kw))
    if c == 'squeeze': return W.derive('squeeze', [v], lambda: v.squeeze())
    if c == 'transpose': p = rng.sample([b.name for b in ax], len(ax)); return W.derive('transpose', [v], lambda: v.transpose(*p))
    if c == 'sorted': return W.derive('sorted', [v], lambda: v.sorted(**rng.choice([{}, {n: 1}, {n: -1}])))
    if c == 'extend':
        if v.hasaxis('pres') or v.hasaxis(A.ZAxis): return None
        return W.derive('extend', [v], lambda: v.extend(rng.randint(0, len(ax)), A.Pres([500., 200.])))
    if c == 'replace-axes':
        if v.hasaxis(A.ZAxis): return None
        return W.derive('replace-axes', [v], lambda: v.replace_axes({n: A.ZAxis(np.arange(len(a)) * 2., name='zz')}, keep_old_name=False), new=[n, 'zz'])
    if c == 'rename-axes':
        to = rng.choice(['phi', 'q'])
        if v.hasaxis(to): return None
        return W.derive('rename-axes', [v], lambda: v.rename_axes(**{n: to}), ren={n: to})
    if c == 'fill': f = rng.choice(['fill', 'unfill']); return W.derive(f, [v], lambda: getattr(v, f)(-1.))
    if c == 'cast': return W.derive('cast', [v], lambda: v.as_type(rng.choice(['f', 'd'])))
    if c == 'load': return W.derive('load', [v], lambda: v.load(pbar=False))
    if c == 'dataset':
        if not v.name or '(' in v.name: return None
        k = rng.choice(['sel', 'ren', 'as', 'mean'])
        if k == 'sel': return W.derive('select', [v], lambda: pyg.asdataset([v])(**{'i_' + n: (0, 2)})[v.name])
        if k == 'as': return W.derive('dataset', [v], lambda: pyg.Dataset([v])[v.name])
        if k == 'ren': return W.derive('rename', [v], lambda: pyg.asdataset([v]).rename_vars({v.name: 'zork'})['zork'], to='zork')
        return W.derive('reduce', [v], lambda: pyg.asdataset([v]).mean(n)[v.name]) if len(ax) > 1 else None
    if c == 'time' and v.hasaxis(TA.StandardTime) and 'year' in v.getaxis(TA.StandardTime).auxarrays: return W.derive('removeleap', [v], lambda: TU.removeleapyears(v), new=['time'])
    if c == 'time' and v.hasaxis(TA.CalendarTime) and not v.hasaxis('year') and {'year', 'month', 'day'} <= set(v.getaxis(TA.CalendarTime).auxarrays):
        r = W.derive('splittime', [v], lambda: TU.splittimeaxis(v), new=['time', 'year', 'day'])
        if r is not None and rng.random() < .6: W.derive('jointime', [r], lambda: TU.jointimeaxes(r), new=['time', 'year', 'day'])
        return r

CLIM = [(o, s) for o in ['clim', 'diurnal', 'daily', 'monthly', 'yearly', 'seasonal'] for s in ['mean', 'nanmean', 'stdev', 'nanstdev', 'nancount']] + [('clim', 'trend')]
def clim_fn(o, s):
    s2 = 'count' if s == 'nancount' else s
    if o == 'clim': return {'mean': 'climatology', 'nanmean': 'nanclimatology'}.get(s, 'clim' + s2)
    return o + s2
def own(W, v, rng, others=None):
    """operations on one variable with a rule of their own"""
    ax = list(v.axes); i = rng.randrange(len(ax)); a = ax[i]; n = a.name
    c = rng.choice(['reduce', 'reduce', 'smooth', 'fft', 'interp', 'lag', 'composite', 'flatten', 'deriv', 'deriv2', 'diff', 'integrate', 'cumsum', 'clim', 'clim', 'wsel'])
    mono = len(a) > 1 and (np.all(np.diff(a.values) > 0) or np.all(np.diff(a.values) < 0))
    if c == 'reduce':
        if len(ax) < 2: return None
        r = rng.sample([b.name for b in ax], rng.randint(1, len(ax) - 1)); f = rng.choice(['sum', 'mean', 'nanmean', 'nansum', 'min', 'max', 'nanmin', 'nanmax', 'variance', 'stdev', 'nanstdev', 'nanvariance', 'argmin', 'argmax'])
        if f.startswith('arg'): r = r[:1]
        kw = rng.choice([{}, {'weights': False}]) if f in ('sum', 'mean', 'nanmean', 'nansum', 'variance') else {}
        return W.derive('reduce', [v], lambda: getattr(v, f)(*r, **kw))
    if c == 'wsel': return W.derive('reduce', [v], lambda: v(**{'mi_' + n: (0, 2)})) if len(ax) > 1 else None
    if c == 'smooth': return W.derive('smooth', [v], lambda: v.smooth(n, 3)) if len(a) > 3 else None
    if c == 'fft': return W.derive('fft', [v], lambda: v.fft_smooth(n, 1)) if len(a) > 3 else None
    if c == 'interp': return W.derive('interp', [v], lambda: v.interpolate(n, A.ZAxis([1., 2.], name='zz'), interp_type='linear'), new=['zz']) if mono and not v.hasaxis(A.ZAxis) and np.all(np.diff(a.values) > 0) and not isinstance(a, TA.Time) else None
    t = [b for b in ax if isinstance(b, TA.Time)]
    if c == 'lag': return W.derive('lag', [v], lambda: TU.lag(v, t[0].name, [0, 1])) if t and len(t) == 1 and len(t[0]) > 3 and np.all(np.diff(t[0].values) > 0) and not v.hasaxis('lag') and not v.hasaxis('year') else None
    if c == 'composite': return W.derive('composite', [v], lambda: v.composite(**{'li_' + n: [1, 2], 'evlen': 2})) if len(a) > 4 and not v.hasaxis('event') and not v.hasaxis('offset') else None
    if c == 'flatten':
        if len(ax) < 2 or v.hasaxis(A.XAxis): return None
        i = rng.randrange(1, len(ax)); return W.derive('flatten', [v], lambda: v.flatten(i, naxis=A.XAxis(np.arange(len(ax[i - 1]) * len(ax[i])) * .5, name='xx')), new=[ax[i].name, ax[i - 1].name, 'xx'])
    if c == 'deriv': return W.derive('deriv', [v], lambda: v.deriv(n, df=rng.choice(['left', 'right', 'centre']))) if mono and len(a) > 2 else None
    if c == 'deriv2': return W.derive('deriv2', [v], lambda: v.deriv(n, df='2')) if mono and len(a) > 2 else None
    if c == 'diff': return W.derive('diff', [v], lambda: v.diff(n)) if len(a) > 2 else None
    if c == 'integrate': return W.derive('integrate', [v], lambda: v.integrate(n, type=rng.choice(['trapz', 'rectr', 'rectl']))) if mono else None
    if c == 'cumsum': return W.derive('cumsum', [v], lambda: v.cumsum(n)) if len(a) > 1 else None
    if c == 'clim' and len(t) == 1 and isinstance(t[0], TA.CalendarTime) and all(k in t[0].auxarrays for k in ('year', 'month', 'day')) and type(t[0]) in (TA.StandardTime, TA.ModelTime365) and np.all(np.diff(t[0].values) > 0):
        o, s = rng.choice(CLIM)
        return W.derive('clim', [v], lambda: getattr(CL, clim_fn(o, s))(v), over=o, stat=s)

def ren(W, v, rng, others=None):
    to = rng.choice(['T', 'U', 'new', 'a(b)', '']); return W.derive('rename', [v], lambda: v.rename(to), to=to)

def several(W, v, rng, others):
    c = rng.choice(['ufunc', 'ufunc', 'concat', 'ensemble'])
    if c == 'ufunc': return ufunc(W, v, rng, others)
    same = [o for o in others if o.naxes == v.naxes and all(type(a) is type(b) and a.name == b.name for a, b in zip(o.axes, v.axes))]
    if c == 'ensemble':
        vs = [v] + [o for o in same if all(a == b for a, b in zip(o.axes, v.axes)) and o is not v][:2]
        if v.hasaxis('ensemble'): return None
        return W.derive('ensemble', vs, lambda: pyg.ensemble(*vs)) if len(vs) > 1 and all(o.name == v.name for o in vs) else None
    i = rng.randrange(v.naxes); n = v.axes[i].name
    vs = []; N = len(v.axes[i])
    if N < 2 or len(set(v.axes[i].values.tolist())) < N: return None
    same = [o for o in same if all(a == b for a, b in zip(o.axes, v.axes))]
    k = rng.randint(2, min(3, N)); cut = [N * j // k for j in range(k + 1)]
    for j in range(k):
        o = rng.choice(same or [v]); p = W.derive('slice', [o], lambda: o.slice[tuple(slice(cut[j], cut[j + 1]) if q == i else slice(None) for q in range(o.naxes))])
        if p is None: return None
        if rng.random() < .3: W.write(rng.choice([p, p.axes[i]]))
        vs.append(p)
    return W.derive('concat', vs, lambda: pyg.concatenate(*vs), join=[n])

def on_axis(W, a, rng):
    c = rng.choice(['slice', 'sorted', 'rename', 'concat'])
    if c == 'slice': e = rng.choice([slice(0, 2), slice(None, None, -1), slice(None), ([0],)]); return W.derive('axis-slice', [a], lambda: a.slice[e if isinstance(e, tuple) else (e,)])
    if c == 'sorted': return W.derive('axis-sorted', [a], lambda: a.sorted())
    if c == 'rename': to = rng.choice(['yy', 'q2']); return W.derive('axis-rename', [a], lambda: a.rename(to), to=to)
    if len(a) < 2: return None
    k = rng.randint(1, len(a) - 1); p = W.derive('axis-slice', [a], lambda: a.slice[:k]); q = W.derive('axis-slice', [a], lambda: a.slice[k:])
    if p is None or q is None: return None
    if rng.random() < .7: W.write(p)
    if rng.random() < .5: W.write(q)
    from pygeode.axis import concat
    return W.derive('axis-concat', [p, q], lambda: concat([p, q]))

def scene(rng):
    def dress(a):
        a.atts.update(atts(rng, .5))
        for k in PLK:
            if rng.random() < .3: a.plotatts[k] = plv(rng, k)
        return a
    tc = rng.choice([TA.StandardTime, TA.ModelTime365])
    nt = rng.randint(5, 8); st = rng.choice([1., 20., 50.])
    def mk(which):
        if which == 't': return tc(values=np.arange(nt) * st, units='days', startdate=dict(year=2000, month=2, day=20))
        if which == 'lat': return A.Lat(np.array([-30., 0., 10., 50.]))
        if which == 'lon': return A.Lon(np.array([0., 90., 180., 270., 300.]))
        if which == 'pres': return A.Pres(np.array([10., 100., 500.]))
        return A.NamedAxis(np.array([3., 1., 2.]), 'foo')
    names = rng.sample(['t', 'lat', 'lon', 'pres', 'foo'], rng.randint(1, 3))
    ax = [dress(mk(n)) for n in names]
    vs = []
    common = atts(rng)
    for _ in range(rng.randint(1, 3)):
        mine = list(ax)
        if rng.random() < .3: i = rng.randrange(len(mine)); mine[i] = dress(mk(names[i]))
        if rng.random() < .3 and len(mine) > 1 and vs: mine = rng.sample(mine, rng.randint(1, len(mine)))
        at = dict(common) if rng.random() < .6 else atts(rng)
        if rng.random() < .4: at.update(atts(rng, .2))
        v = Var(mine, values=np.array([rng.randint(1, 9) for _ in range(int(np.prod([len(a) for a in mine])))], 'd').reshape([len(a) for a in mine]), name=rng.choice(['T', 'T', 'U', 'w', '', 'a(b)', '(x)']), atts=at)
        for k in PLK:
            if rng.random() < .25: v.plotatts[k] = plv(rng, k)
        if rng.random() < .7: v.units = rng.choice(['K', 'K', 'm'])
        vs.append(v)
    return vs

def meet(o, v):
    """operands whose axes are the same or equal"""
    return all(any(a == b for b in v.axes) if v.hasaxis(a.name) else not any(b.isparentof(a) or a.isparentof(b) for b in v.axes) for a in o.axes) and all(not o.hasaxis(b.name) or any(a == b for a in o.axes) for b in v.axes)
def ok(v): return not isinstance(v, A.Axis) and v.naxes > 0 and 0 < v.size < 3000 and len(set(a.name for a in v.axes)) == v.naxes and np.dtype(v.dtype).kind == 'f'
def program(T, rng, steps):
    W = World(T, rng); W.new(*scene(rng))
    for _ in range(steps):
        if len(W.objs) > 28: break
        c = rng.random()
        pool = [v for v in W.vars() if ok(v)]
        if c < .2 or not pool: W.write(); continue
        if c < .3: on_axis(W, rng.choice(W.axes()), rng); continue
        v = rng.choice(pool)
        if c < .55: keep(W, v, rng)
        elif c < .78: own(W, v, rng)
        elif c < .82: ren(W, v, rng)
        else:
            several(W, v, rng, [o for o in pool if meet(o, v)])

def replay(T, rng, b):
    """a behaviour of MC_Meta: each derivation by some operation of its kind"""
    W = World(T, rng); os = []
    lat, t = A.Lat(np.array([-30., 0., 10., 50.])), TA.ModelTime365(values=np.arange(6) * 30., units='days', startdate=dict(year=2000, month=1, day=1))
    names = ['p', 'q']
    for s in b['hist']:
        if s['op'] == 'new': os.append(Var([t, lat], values=np.ones((6, 4)), name=names[len(os)], atts={k: v for k, v in s['at']})); W.new(os[-1])
        elif s['op'] == 'write': W.write(os[s['i'] - 1], s['k'], s['v'])
        elif s['op'] == 'rename': os.append(ren(W, os[s['i'] - 1], rng))
        elif s['op'] == 'slice':
            v = os[s['i'] - 1]; r = None
            for _ in range(20):
                r = keep(W, v, rng) if rng.random() < .6 else own(W, v, rng)
                if r is not None and r is not v and ok(r) and r.shape == v.shape and [a.name for a in r.axes] == [a.name for a in v.axes] and all(a == b for a, b in zip(r.axes, v.axes)): break
            else: r = W.derive('load', [v], lambda: (v.rename('l')).load(pbar=False)) if False else ren(W, v, rng)
            os.append(r)
        else:
            x, y = os[s['i'] - 1], os[s['j'] - 1]
            os.append(W.derive('ufunc', [x, y], lambda: x + y, form='infix', sym='+', l='', r='', ws=[W_(x), W_(y)]))
        if os[-1] is None: break

def drive(T, rng, tier, shard, nsh):
    for b in behaviours(shard, nsh, 25 if tier == 'quick' else None): replay(T, rng, b)
    for _ in range(90 if tier == 'quick' else 900): program(T, rng, rng.randint(6, 14))

if __name__ == '__main__': main(drive)
