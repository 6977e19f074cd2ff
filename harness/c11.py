from kinds import *
import hashlib, inspect, types
from pygeode.dataset import Dataset, asdataset
from pygeode import timeutils as TU, climat as CL, stats as ST, tools
from pygeode.ext_xarray import to_xarray
import pygeode.axis, pygeode.timeaxis, tempfile, shutil

def h(*parts):
    m = hashlib.md5()
    for p in parts: m.update(p if isinstance(p, bytes) else repr(p).encode())
    return m.hexdigest()[:7]
def harr(a):
    a = np.asarray(a)
    if a.dtype == object or a.dtype.kind in 'US': return h(a.shape, a.tolist())
    return h(a.shape, str(a.dtype), np.ascontiguousarray(a).tobytes())
def hval(x):
    if isinstance(x, np.ndarray): return harr(x)
    if isinstance(x, dict): return hdict(x)
    if isinstance(x, (list, tuple)): return h(type(x).__name__, [hval(y) for y in x])
    if isinstance(x, (Var, Dataset)): return 'obj%d' % id(x)
    return h(type(x).__name__, repr(x))
def hdict(d): return h(sorted((str(k), hval(v)) for k, v in d.items()))

CLASSES = list(dict.fromkeys(c for m in (pygeode.axis, pygeode.timeaxis) for n, c in inspect.getmembers(m, inspect.isclass) if issubclass(c, Var)))
def mutables():
    """every mutable default argument of the library's functions"""
    out, seen = [], set()
    for nm, m in sorted(sys.modules.items()):
        if not nm.startswith('pygeode') or not isinstance(m, types.ModuleType): continue
        for n, o in sorted(vars(m).items()):
            fs = [o] if inspect.isfunction(o) else [f for f in vars(o).values() if inspect.isfunction(f)] if inspect.isclass(o) else []
            for f in fs:
                if id(f) in seen or not (f.__module__ or '').startswith('pygeode'): continue
                seen.add(id(f))
                ns = f.__code__.co_varnames[:f.__code__.co_argcount]
                for q, d in list(zip(ns[::-1], (f.__defaults__ or ())[::-1])) + list((f.__kwdefaults__ or {}).items()):
                    # not those meant to remember axes already made
                    if isinstance(d, (dict, list, set)) and q not in ('ensdict', 'dimdict', 'axis_dict', 'hosts'): out.append(d)
    return out
DEFAULTS = mutables()

class Pool:
    def __init__(self, T, rng):
        self.T, self.rng, self.objs, self.kind, self.seen = T, rng, [], [], {}
        T.emit(op='begin', st=[])
    def n(self, o): return self.seen.get(id(o), 0)
    def add(self, o, kind=None):
        if o is None or id(o) in self.seen: return
        k = kind or ('axis' if isinstance(o, A.Axis) else 'var' if isinstance(o, Var) else 'dataset' if isinstance(o, Dataset) else 'arg')
        if k == 'var':
            for a in o.axes: self.add(a)
        if k == 'dataset':
            for v in o.vars: self.add(v)
            for a in o.axes: self.add(a)
        self.objs.append(o); self.kind.append(k); self.seen[id(o)] = len(self.objs)
    def arg(self, x):
        """an argument of the caller's own: a list, dictionary or array"""
        self.add(x, 'arg'); return x
    def fp(self, o, k):
        if k == 'var':
            return [str(o.name), hdict(o.atts), hdict(o.plotatts), harr(np.asarray(o.get())), ','.join(str(self.n(a)) for a in o.axes), h(str(o.dtype), o.shape, o.naxes, type(o).__name__, getattr(o, 'units', ''))]
        if k == 'axis':
            return [str(o.name), hdict(o.atts), hdict(o.plotatts), harr(o.values), h(hdict(o.auxarrays), hdict(o.auxatts)), h(o.rtol, len(o), type(o).__name__, str(o.dtype), getattr(o, 'units', ''), str(o.formatstr))]
        if k == 'dataset':
            return [h([(n, self.n(v)) for n, v in o.vardict.items()], [self.n(v) for v in o.vars]), hdict(o.atts), h([self.n(a) for a in o.axes], [(n, self.n(a)) for n, a in o.axisdict.items()])]
        return [hval(o)]
    def state(self):
        st = [dict(k='class', s=[h([hdict(c.atts) for c in CLASSES]), h([hdict(c.plotatts) for c in CLASSES] + [hdict(c.auxarrays) + hdict(c.auxatts) for c in CLASSES if issubclass(c, A.Axis)])]),
              dict(k='arg', s=[h([hval(d) for d in DEFAULTS])])]
        for o, k in zip(self.objs, self.kind):
            try: s = self.fp(o, k)
            except Hang: raise
            except Exception as e: s = ['!' + type(e).__name__] * dict(var=6, axis=6, dataset=3, arg=1)[k]
            st.append(dict(k=k, s=s))
        return st
    def emit(self, op, t=0, f=0, want='', got='', hh=0, msg='', hang=0):
        st, e = attempt(self.state, 60)
        if e: st, hang = [], 1
        self.T.emit(op=op, t=t + 2 if t else 0, f=f, want=want, got=got, h=hh + 2 if hh else 0, st=st, msg=msg, hang=hang)
    def start(self):
        st, e = attempt(self.state, 60); self.T.emit(op='begin', st=st or [])
    def act(self, op, fn):
        """an operation of the library; what it returns joins the pool"""
        r, e = attempt(fn)
        for x in (r if isinstance(r, (list, tuple)) else [r]):
            if isinstance(x, (Var, Dataset)): self.add(x)
        self.emit(op, msg=(e or {}).get('msg', ''), hang=int((e or {}).get('k') == 'hang'))
        return None if e else r
    def of(self, kind): return [o for o, k in zip(self.objs, self.kind) if k == kind]
    def edit(self, o, what):
        rng, t = self.rng, self.n(o)
        k = self.kind[t - 1]
        if k == 'dataset': what = 'at'
        if what == 'n':
            nm = rng.choice(['zz', 'new', 'q1']); o.name = nm
            return self.emit('edit', t, 1, nm)
        d = o.atts if what == 'at' else o.plotatts
        new = dict(d); key = rng.choice(list(d) + ['k1', 'k2']) if d else 'k1'
        if key in d and rng.random() < .3: new.pop(key); d.pop(key)
        else: val = rng.choice([7, 'text', 2.5]) ; new[key] = val; d[key] = val
        self.emit('edit', t, 2 if what == 'at' else 3, hdict(new))
    def read(self, o):
        """read all or part, then write into what came back"""
        rng = self.rng
        how = rng.choice(['get', 'index', 'part', 'values', 'aux', 'load', 'weights', 'fields', 'misc'])
        t, k = self.n(o), self.kind[self.n(o) - 1]
        if k == 'dataset':
            r = self.act('list', lambda: [o.vars, o.axes] if 0 else list(o)); return
        if how == 'get' or (how in ('values', 'index') and k == 'var'):
            r, e = attempt(lambda: o.get() if how == 'get' else o[...] if o.naxes == 0 else o[(slice(None),) * o.naxes] if how == 'index' else getattr(o, 'values', None))
            if r is None: return self.emit('noread')
            self.emit('read', got=harr(r), hh=t); rs = [r]
        else:
            def go():
                if how == 'part' and o.naxes: return [o[tuple(rng.choice([slice(None), slice(1, None), slice(None, None, -1), 0, ([0],)]) for _ in range(o.naxes))]]
                if how == 'load': return [o.load().values if rng.random() < .5 else o.load().get()]
                if how == 'weights': return [o.getweights().get()]
                if k == 'axis' and how == 'aux': return list(o.auxarrays.values()) + [o.auxasvar(n).get() for n in o.auxarrays]
                if k == 'axis' and how == 'values': return [o.values, o.get(), np.asarray(list(o))]
                if k == 'axis' and how == 'fields': return [getattr(o, n) for n in list(o.auxarrays)]
                if isinstance(o, TA.Time) and how == 'misc': return list(o.val_as_date(allfields=True).values()) + [o.date_as_val(), o.reltime(), o.val_as_date(), o.reltime(units='hours')]
                if k == 'axis' and how == 'misc': return [o.argsort(), o.map_to(o), o.sorted().values, o.get_slice({o.name: (o.values.min(), o.values.max())}) if len(o) else 0]
                return [o.get()]
            r, e = attempt(go); rs = r or []
            self.emit('noread', msg=(e or {}).get('msg', ''))
        done = 0
        for r in rs:
            try:
                if isinstance(r, np.ndarray):
                    if not r.flags.writeable or r.dtype.kind in 'USO': continue
                    r[...] = 1 if r.dtype.kind == 'b' else 99
                elif isinstance(r, list): r.append(1)
                elif isinstance(r, dict): r.clear()
                done = 1
            except Exception: pass
        if done: self.emit('write')

class PoolKit(Kit):
    def __init__(self, P): Kit.__init__(self, P.rng, fileprob=.2, memprob=.55, nan=.1 if P.rng.random() < .3 else 0); self.P = P
    def src(self, *a, **k):
        rng = self.rng
        k['name'] = rng.choice(['T', 'U', 'v'])
        k['atts'] = {q: rng.choice([1, 'm', 2.5]) for q in ('units', 'long_name', 'q') if rng.random() < .5}
        v = Kit.src(self, *a, **k)
        if rng.random() < .3: v.plotatts['plotname'] = 'P'
        for x in v.axes:
            if rng.random() < .3: x.atts['q'] = rng.choice([1, 'm'])
            if rng.random() < .3: x.plotatts['plottitle'] = 'X'
        self.P.add(v); return v

def pick(P, f=lambda v: True):
    c = [v for v in P.of('var') if v.size < 400 and f(v)]
    return P.rng.choice(c) if c else None
def hast(v): return any(isinstance(a, TA.CalendarTime) and type(a).__name__ in ('StandardTime', 'ModelTime365', 'ModelTime360') for a in v.axes)

UN = {}
def un(*names):
    def d(f):
        for n in names: UN[n] = f
        return f
    return d
def anyaxis(P, v): return P.rng.randrange(v.naxes)
@un('arith')
def _(P, v): return P.rng.choice([lambda v: -v, lambda v: v * 2, lambda v: 1 + v, lambda v: v ** 2, lambda v: v > 1, lambda v: abs(v), lambda v: pyg.sin(v), lambda v: v.map(np.cos), lambda v: v / 3., lambda v: pyg.clip(v, 0, 5), lambda v: v.exp()])(v)
@un('subset')
def _(P, v):
    rng = P.rng; i = anyaxis(P, v); a = v.axes[i]; n = len(a)
    k = rng.choice(['val', 'rng', 'i', 'li', 'm', 'slice', 'n', 'l'])
    if k == 'slice': return v.slice[tuple(rng.choice([slice(None), slice(1, None), slice(None, None, -1), 0]) for _ in range(v.naxes))]
    x = float(rng.choice(a.values.tolist())); lo, hi = sorted([float(rng.choice(a.values.tolist())), x])
    if k in ('val',): d = {a.name: x}
    elif k in ('rng',): d = {a.name: P.arg([lo, hi])} if rng.random() < .5 else {a.name: (lo, hi)}
    elif k == 'i': d = {'i_' + a.name: (0, n)}
    elif k == 'li': d = {'li_' + a.name: P.arg([rng.randrange(n) for _ in range(2)])}
    elif k == 'l': d = {'l_' + a.name: P.arg([x, lo])}
    elif k == 'm': d = {'m_' + a.name: (lo, hi)}
    else: d = {'n_' + a.name: (lo, hi)}
    P.arg(d)
    return v(**d)
@un('shape')
def _(P, v):
    rng = P.rng; p = list(range(v.naxes)); rng.shuffle(p)
    k = rng.choice(['t', 's', 'e', 'sort', 'ren', 'renax', 'repl', 'flat', 'astype', 'fill', 'unfill'])
    if k == 't': return v.transpose(*P.arg(p))
    if k == 's': return v.squeeze()
    if k == 'e': return v.extend(0, A.XAxis([0., 1.]))
    if k == 'sort': return v.sorted()
    if k == 'ren': return v.rename('other')
    if k == 'renax': d = P.arg({v.axes[0].name: 'ax1'}); return v.rename_axes(axisdict=d) if rng.random() < .5 else v.rename_axes(**d)
    if k == 'repl':
        if rng.random() < .5: l = P.arg([A.XAxis(np.arange(n)) if i == p[0] else v.axes[i] for i, n in enumerate(v.shape)]); return v.replace_axes(newaxes=l)
        d = P.arg({v.axes[p[0]].name: A.XAxis(np.arange(v.shape[p[0]]) * 2.)}); return v.replace_axes(d, keep_old_name=rng.random() < .5)
    if k == 'flat': return v.flatten(1) if v.naxes > 1 else v.flatten()
    if k == 'astype': return v.as_type(rng.choice(['f', 'i']))
    if k == 'fill': return v.fill(-1)
    return v.unfill(2)
@un('reduce')
def _(P, v):
    rng = P.rng; i = rng.sample(range(v.naxes), rng.randint(1, v.naxes))
    f = rng.choice(['mean', 'sum', 'stdev', 'variance', 'min', 'max', 'nanmean', 'nansum', 'nanmin', 'nanmax', 'nanstdev', 'nanvariance', 'argmin', 'argmax'])
    if f.startswith('arg'): return getattr(v, f)(i[0])
    if f in ('mean', 'sum', 'nanmean') and rng.random() < .3:
        w = Var([v.axes[i[0]]], values=np.arange(v.shape[i[0]]) + 1.); P.add(w)
        return getattr(v, f)(i[0], weights=w)
    return getattr(v, f)(*i)
@un('calculus')
def _(P, v):
    rng = P.rng; i = anyaxis(P, v)
    k = rng.choice(['diff', 'deriv', 'integrate', 'cumsum', 'smooth', 'fft_smooth', 'composite', 'interp', 'lag'])
    if k == 'diff': return v.diff(i)
    if k == 'deriv': return v.deriv(i)
    if k == 'integrate': return v.integrate(i)
    if k == 'cumsum': return v.cumsum(i)
    if k == 'smooth': return v.smooth(i, P.arg([1., 2., 1.]) if rng.random() < .7 else P.arg(np.array([1., 2., 1.])))
    if k == 'fft_smooth': return v.fft_smooth(i, 2)
    if k == 'composite': return v.composite(**{'li_' + v.axes[i].name: P.arg([0, 1]), 'evlen': P.arg([1, 2]) if rng.random() < .5 else 2, 'evoff': 0})
    if k == 'interp': return v.interpolate(i, A.ZAxis(np.linspace(0, 3, 3)), interp_type='linear')
    return TU.lag(v, i, P.arg([0, 1]))
@un('clim')
def _(P, v):
    if not hast(v): return None
    f = P.rng.choice([c for c in CLIM] + ['splittimeaxis', 'removeleapyears'])
    if f == 'splittimeaxis': return TU.splittimeaxis(v)
    if f == 'removeleapyears': return TU.removeleapyears(v, P.arg([60]), P.arg([]))
    return getattr(CL, f)(v)
@un('ds')
def _(P, v):
    rng = P.rng
    o = pick(P); l = P.arg([v, o] if rng.random() < .5 else [v])
    at = P.arg({'title': 'x', 'n': 3})
    d = Dataset(l, atts=at) if rng.random() < .7 else asdataset(l)
    return d
@un('show')
def _(P, v):
    str(v), repr(v), dir(v), v.hasaxis('lat'), v.whichaxis(0), [a.name for a in v.axes], hash(type(v)), v.getweights()
    v.formatvalue(2.) if hasattr(v, 'formatvalue') else 0
    return None
@un('export')
def _(P, v):
    rng = P.rng
    if rng.random() < .4: to_xarray(Dataset([v])); return None
    d = tempfile.mkdtemp()
    try:
        if rng.random() < .5: pyg.save(d + '/a.nc', v, compress=False) if 0 else pyg.save(d + '/a.nc', v)
        else: pyg.save(d + '/a.nc', P.arg([v]), version=rng.choice([3, 4]))
        dt = P.arg({}); nm = P.arg({v.name: 'renamed'}); vl = P.arg([v.name])
        return None if rng.random() < .3 else [x.load() for x in pyg.open(d + '/a.nc', dimtypes=dt, namemap=nm).vars]
    finally: shutil.rmtree(d, ignore_errors=True)
@un('fail')
def _(P, v):
    rng = P.rng
    k = rng.randrange(7)
    if k == 0: return v(nosuch=3)
    if k == 1: return v + Var([A.NamedAxis(np.arange(v.shape[0] + 1.), 'other%d' % rng.randrange(3))], values=np.arange(v.shape[0] + 1.)) + 'text'
    if k == 2: return v.mean('nosuch')
    if k == 3: return v.replace_axes(newaxes=P.arg([A.XAxis([1.])] * (v.naxes + 1)))
    if k == 4: return v.transpose('nosuch')
    if k == 5: return Dataset(P.arg([v, 3]))
    return v[10000, 3, 4, 5, 6, 7]
@un('failread')
def _(P, v):
    class Bad(Var):
        def getview(self, view, pbar): raise IOError('cannot read')
    b = Bad(v.axes, dtype=v.dtype, name='bad')
    r = P.rng.choice([lambda: (v + b).get(), lambda: b.mean().get(), lambda: pyg.concatenate([b, v]).get(), lambda: Dataset([v, b]).load(), lambda: b.load()])
    return r()

def binary(P):
    rng = P.rng
    v = pick(P, lambda v: v.naxes > 0)
    if v is None: return None
    w = pick(P, lambda w: any(a in v.axes for a in w.axes) or w.naxes == 0) or v
    k = rng.choice(['op', 'op', 'vsum', 'ds', 'ens', 'concat', 'stats', 'where'])
    if k == 'op': return P.act('binary', lambda: rng.choice([lambda a, b: a + b, lambda a, b: a * b, lambda a, b: a - b, lambda a, b: a > b, lambda a, b: pyg.maximum(a, b), lambda a, b: a + v.axes[0]])(v, w))
    if k == 'vsum': return P.act('vsum', lambda: pyg.vsum(*P.arg([v, w, v])))
    if k == 'ens': return P.act('ensemble', lambda: pyg.ensemble(*P.arg([v, v])))
    if k == 'concat':
        i = rng.randrange(v.naxes)
        if v.shape[i] < 2: return None
        a = [slice(None)] * v.naxes; b = list(a); a[i] = slice(0, 1); b[i] = slice(1, None)
        return P.act('concat', lambda: pyg.concatenate(P.arg([v.slice[tuple(a)], v.slice[tuple(b)]])))
    if k == 'stats': return P.act('stats', lambda: rng.choice([lambda: ST.correlate(v, w), lambda: ST.regress(v, w, axes=P.arg([0])), lambda: ST.isnonzero(v, P.arg([0])), lambda: ST.difference(v, w), lambda: ST.paired_difference(v, v * 2), lambda: ST.multiple_regress(P.arg([w]), v)])())
    if k == 'where': return P.act('where', lambda: v.unfill(1) + w)
    return P.act('dataset', lambda: Dataset([v, w], atts=P.arg({'t': 1})))

def dsop(P):
    rng = P.rng; ds = P.of('dataset')
    if not ds: return None
    d = rng.choice(ds); v = pick(P)
    nm = d.vars[0].name if d.vars else 'x'
    k = rng.choice(['rename', 'remove', 'add', 'replace', 'map', 'sub', 'copy', 'concat', 'load', 'method', 'merge', 'xr', 'str', 'fail'])
    f = {'rename': lambda: d.rename_vars(P.arg({nm: 'new'})), 'remove': lambda: d.remove(nm), 'add': lambda: d + v, 'replace': lambda: d.replace_vars(P.arg({nm: v})),
         'map': lambda: d.map(lambda x: x * 2), 'sub': lambda: d(lat=(0, 5)), 'copy': d.copy, 'concat': lambda: pyg.concatenate([d, d]), 'load': d.load,
         'method': lambda: d.rename_axes(lat='la') if rng.random() < .5 else d.mean(), 'merge': lambda: asdataset(P.arg([d, v])), 'xr': lambda: to_xarray(d) is None and None, 'str': lambda: str(d) and None, 'fail': lambda: d.remove('nosuch')}[k]
    return P.act('ds-' + k, f)

def axop(P):
    rng = P.rng; a = rng.choice(P.of('axis')); b = rng.choice(P.of('axis'))
    k = rng.choice(['str', 'eq', 'map', 'sorted', 'concat', 'rename', 'slice', 'sel', 'new', 'fmt', 'loc', 'time', 'aux', 'modify', 'cmap'])
    if k in ('time', 'modify', 'cmap'):
        t = [x for x in P.of('axis') if isinstance(x, TA.CalendarTime)]
        if not t: return None
        a = rng.choice(t); b = rng.choice(t)
    def go():
        if k == 'str': str(a), repr(a)
        elif k == 'eq': a == b, a != b, a.alleq(b)
        elif k == 'map': return [] if a.map_to(b) is None else []
        elif k == 'sorted': return a.sorted()
        elif k == 'concat': return A.concat(P.arg([a, a]))
        elif k == 'rename': return a.rename('nm')
        elif k == 'slice': return a.slice[rng.choice([slice(1, None), slice(None, None, -1), slice(None)])]
        elif k == 'sel': return a(**P.arg({a.name: (float(a.values.min()), float(a.values.max()))}))
        elif k == 'new': return a.withnewvalues(P.arg(np.array(a.values) + 1))
        elif k == 'fmt': [a.formatvalue(x) for x in a.values[:3]]
        elif k == 'loc':
            f, l = a.formatter(), a.locator()
            if isinstance(a, TA.Time): l.tick_values(float(a.values.min()), float(a.values.max()) + 1)
        elif k == 'aux': return [a.auxasvar(n) for n in a.auxarrays]
        elif k == 'modify': return TU.modify(a, **rng.choice([dict(resolution='day'), dict(exclude=P.arg(['year'])), dict(include=P.arg(['hour'])), dict(uniquify=True)]))
        elif k == 'cmap': a.common_map(b), TU.conform_values(a, b)
        else:
            sd = P.arg(dict(a.startdate)); d = P.arg({n: np.array(x) for n, x in a.val_as_date().items()})
            r = rng.randrange(8)
            if r == 0: a.val_as_date(vals=P.arg(np.array(a.values)), startdate=sd, units='hours', allfields=True)
            elif r == 1: a.date_as_val(dates=d, startdate=sd)
            elif r == 2: return type(a)(values=P.arg(np.array(a.values)), units='days', startdate=sd)
            elif r == 3: return type(a)(startdate=sd, units='days', **d)
            elif r == 4: a.reltime(startdate=sd, units='hours')
            elif r == 5: a.wrapdate(P.arg({n: x[0] for n, x in d.items()})), a.date_diff(P.arg({n: x[0] for n, x in d.items()}), sd)
            elif r == 6: a.delta(), TU.delta(a, allow_multiple=True)
            else:
                S = TA.makeSeasonalAxis(rng.choice([TA.StandardTime, TA.ModelTime365])); top = rng.choice([4, 4, 6])
                return S(year=P.arg(np.array([2000, 2000, 2001])), season=P.arg(np.array([1, 2, top])), units='days', startdate=P.arg(dict(year=2000, month=1, day=1)))
    return P.act('ax-' + k, go)

def program(T, rng, n, acts=None):
    P = Pool(T, rng); K = PoolKit(P)
    nm = rng.choice(sorted(KINDS))
    ax = space(rng, rng.randint(1, 3), minn=2)
    K.src(ax); K.src(rng.sample(ax, rng.randint(1, len(ax))))
    if rng.random() < .4:
        t = taxis(rng, rng.randint(4, 8)); K.src(withaxis(rng, t)[0])
    P.start()
    for j in range(n if acts is None else len(acts)):
        kind = acts[j]['op'] if acts is not None else rng.choice(['derive'] * 8 + ['kind'] * 3 + ['combine'] * 4 + ['ds'] * 2 + ['ax'] * 3 + ['edit'] * 3 + ['read'] * 5 + ['fail'] * 2)
        if len(P.objs) > 45 and kind in ('derive', 'kind', 'combine', 'ds', 'ax'): kind = 'read'
        if kind == 'kind':
            nm = rng.choice(sorted(KINDS))
            P.act('kind-' + nm, lambda: KINDS[nm](K, nm)[0])
        elif kind == 'derive':
            v = pick(P, lambda v: v.naxes > 0)
            if v is None: continue
            op = rng.choice([k for k in UN if not k.startswith('fail')])
            P.act(op, lambda: UN[op](P, v))
        elif kind == 'fail':
            v = pick(P, lambda v: v.naxes > 0); op = rng.choice(['fail', 'failread'])
            if v is not None: P.act(op, lambda: UN[op](P, v))
        elif kind == 'combine': binary(P)
        elif kind == 'ds': dsop(P)
        elif kind == 'ax': axop(P)
        elif kind == 'edit':
            o = rng.choice(P.of(rng.choice(['var', 'var', 'axis', 'dataset'])) or P.of('var'))
            # renaming an axis of a variable by hand is not supported: metadata only
            P.edit(o, acts[j]['f'] if acts is not None and not isinstance(o, A.Axis) else rng.choice(['n', 'at', 'pa'] if P.kind[P.n(o) - 1] == 'var' else ['at', 'pa']))
        elif kind in ('read', 'write'):
            o = rng.choice(P.of(rng.choice(['var', 'var', 'axis'])) or P.of('var')); P.read(o)

def drive(T, rng, tier, shard, nsh):
    for b in behaviours(shard, nsh, 8 if tier == 'quick' else None): program(T, rng, 0, b['hist'])
    for _ in range(24 if tier == 'quick' else 300): program(T, rng, rng.choice([4, 8, 12, 16]))

if __name__ == '__main__': main(drive)
