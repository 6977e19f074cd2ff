"""Collections of files opened as one dataset: open_multi, openall, from_files, check_multi."""
from c10 import *
import tempfile, shutil, io, contextlib
from pygeode.formats import multifile as MF, data_scanner as DS
from pygeode import Var
from pygeode.dataset import Dataset, asdataset
from pygeode.formats import netcdf as N3, netcdf4 as N4
MODS = dict(netcdf=N3, netcdf4=N4)
GRAN = [('$Y$m', 2), ('$Y$m$d', 3), ('$Y$m$d$H', 4), ('$Y$m$d$H$M', 5)]
DEF = [1, 1, 1, 0, 0, 0]
def mins(ref, rows):
    d = {k: np.array([r[i] for r in rows], 'int64') for i, k in enumerate(F6)}
    return [int(round(x)) for x in np.atleast_1d(ref.date_as_val(d))]
def dates(ref, ms):
    return rows(ref.val_as_date(np.array(ms, float), allfields=True), len(ms))
class Coll: pass
COUNT = [0]
def newdir():
    """a scratch directory with no digits in its name (patterns are matched against whole paths)"""
    while True:
        COUNT[0] += 1
        d = os.path.join(tempfile.gettempdir(), 'multi_' + ''.join('abcdefghij'[int(c)] for c in '%d0%d' % (os.getpid(), COUNT[0])))
        try: os.mkdir(d); return d
        except FileExistsError: pass
def axes_of(rng):
    pool = [lambda: pyg.Lat(sorted(rng.sample(range(-80, 81, 10), rng.randint(1, 4)))), lambda: pyg.Lon(np.arange(rng.randint(1, 4)) * 30.), lambda: pyg.Pres(sorted(rng.sample([1000, 850, 500, 250, 100], rng.randint(1, 3)))), lambda: pyg.NamedAxis(np.arange(rng.randint(1, 3)) + 1., name='member')]
    return [f() for f in rng.sample(pool, rng.choice([0, 1, 1, 2]))]
def collection(rng, plan=None):
    C = Coll(); C.cal = rng.choice(['std'] * 3 + ['365', '360']); C.plan = plan
    y = rng.choice([1999, 2000, 2000, 2001, 1900, 2100, 1000, 9998, rng.randint(1850, 2100)]); b = rand_date(rng, C.cal); b[0] = y; b[2] = min(b[2], mlen(C.cal, y, b[1])); b[5] = 0
    if rng.random() < .5: b[3:] = [0, 0, 0]
    if rng.random() < .4: b[2] = 1
    C.base = b; C.ref = CALS[C.cal](values=[0.], units='minutes', startdate=as_dict(b))
    n = plan['n'] if plan else rng.choice([2, 3, 4, 6, 8, 12, 12, 24, 40])
    kind = rng.choice(['even'] * 5 + ['month', 'uneven'])
    if plan: kind = 'even'
    if kind == 'even':
        dt = rng.choice([60, 180, 360, 720, 1440, 1440, 1440, 7200, 30]); C.steps = [i * dt for i in range(n)]
    elif kind == 'month':
        fs = []; q = list(b); q[2] = min(q[2], 28)
        for i in range(n): m = q[1] - 1 + i; fs.append([q[0] + m // 12, m % 12 + 1] + q[2:])
        C.steps = mins(C.ref, fs); dt = None
    else:
        C.steps = sorted(rng.sample(range(0, 60 * 24 * 60, 60), n)); dt = None
    # which steps go to which file: contiguous stretches by default
    if plan:
        idx = {t: i for i, t in enumerate(sorted({3 * k for k in range(1, n + 1)}))}
        held = [[idx[t] for t in f['t']] for f in plan['files']]
        d = [f['d'] for f in plan['files']]
        # dates as in the plan, in thirds of a step
        C.steps = [s + dt for s in C.steps]; named = [int(x * dt / 3) for x in d]
    else:
        r = rng.random()
        if r < .3: cuts = list(range(0, n, rng.choice([1, 1, 2, 3, 5])))
        else: cuts = sorted({0} | {rng.randint(0, n - 1) for _ in range(rng.randint(1, 5))})
        held = [list(range(i, j)) for i, j in zip(cuts, cuts[1:] + [n])]
        named = None
    C.byname = rng.random() < .6 and not plan and 1000 <= y
    C.pattern, g = rng.choice(GRAN)
    first = [dates(C.ref, [C.steps[h[0]]])[0] if h else None for h in held]
    if named is None:
        if C.byname:
            keep = []; nm = []
            for h, f in zip(held, first):
                q = f[:g] + DEF[g:]
                if nm and nm[-1] == q: keep[-1] += h
                else: keep.append(list(h)); nm.append(q)
            held = keep
        else:
            lag = rng.choice([0, 0, 30, 60, 600]); nm = dates(C.ref, [C.steps[h[0]] - lag for h in held])
        named = mins(C.ref, nm)
    else: nm = dates(C.ref, named)
    if C.byname and rng.random() < .2 and len(held) > 2:      # gaps in the middle of a file's stretch are named alike: nothing to do
        pass
    # faults
    if not plan:
        if rng.random() < .25: h = rng.choice(held); [h.remove(x) for x in rng.sample(h, min(len(h) - 1, rng.randint(1, 2)))]
        if rng.random() < .2 and len(held) > 2: i = rng.randrange(1, len(held)); del held[i]; del nm[i]; del named[i]
        if rng.random() < .12 and len(held) > 1:
            i = rng.randrange(len(held) - 1)
            if len(held[i]) > 1: held[i + 1].insert(0, held[i].pop())
    nf = len(held)
    # variables
    k = rng.randint(1, 3); C.vars = []; shared = {a.name: a for a in axes_of(rng) + axes_of(rng)}
    for j in range(k):
        static = j == 2 and rng.random() < .6
        ax = [shared[x] for x in rng.sample(sorted(shared), rng.randint(0, min(2, len(shared))))]
        if static and not ax: ax = list(shared.values())[:1]
        if static and not ax: static = False
        w = int(np.prod([len(a) for a in ax], dtype=int)); ns = 1 if static else len(C.steps)
        dt_ = rng.choice(['f8', 'f8', 'f4', 'i4', 'i2']); half = 2 if dt_[0] == 'f' else 1
        vals = np.arange(ns * w).reshape(ns, w) * half + 1 + (half == 2) * rng.randint(0, 1)     # in halves
        vals = vals if half == 2 else vals * 2
        cells = vals.astype(object)
        num = vals / 2.
        if half == 2 and rng.random() < .3:
            m = np.random.RandomState(rng.randint(0, 9999)).rand(ns, w) < .2
            num[m] = np.nan; cells[m] = NOF
        C.vars.append(dict(n='TUV'[j], static=static, ax=ax, dt=dt_, num=num, cells=cells, at=rng.randint(0, len(ax)), units='K'))
    if any(q[0] > 9999 for q in nm): C.byname = False
    C.held, C.named, C.nm = held, named, nm
    C.miss = set()
    if rng.random() < .12 and not plan and nf > 1: C.miss.add((rng.randrange(nf), rng.randrange(k)))
    C.bad = {rng.randrange(nf)} if rng.random() < .08 and not plan and nf > 0 else set()
    C.store = rng.choice(['mem', 'mem', 'netcdf', 'netcdf4']) if not plan else rng.choice(['mem', 'mem', 'mem', 'netcdf'])
    # how each file writes its times
    if any(not h for h in held): C.store = "mem"
    C.unit = rng.choice(['minutes', 'hours', 'days']) if rng.random() < .8 else None
    C.start = rng.choice(['base', 'file', 'first', 'old'])
    C.tpos = rng.random() < .7        # same position of time in every file
    names_ = []
    for i in range(nf):
        s = C.pattern
        for key, q, w in (('$Y', 0, 4), ('$m', 1, 2), ('$d', 2, 2), ('$H', 3, 2), ('$M', 4, 2)): s = s.replace(key, '%0*d' % (w, nm[i][q]))
        names_.append(('run1_' + s if C.byname else 'f%02d_%s' % (rng.randint(0, 99), 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'[i])) + '.nc')
    C.dir = newdir(); C.files = [os.path.join(C.dir, x) for x in names_]
    C.mixed = C.unit is None
    C.mem = {}
    C.order = list(range(nf))
    for i in range(nf): write(rng, C, i)
    return C
def taxis(rng, C, i):
    ms = [C.steps[k] for k in C.held[i]]; u = C.unit or rng.choice(['minutes', 'hours', 'days']); f = UF[u] // 60
    st = dict(base=C.base, file=dates(C.ref, [ms[0]])[0] if ms else C.base, first=dates(C.ref, [C.steps[0]])[0], old=[max(C.base[0] - 40, 1), 1, 1, 0, 0, 0])[C.start]
    off = mins(C.ref, [st])[0]
    v = (np.array(ms, float) - off) * 60. / UF[u]
    return CALS[C.cal](values=v, units=u, startdate=as_dict(st), name='time')
def write(rng, C, i):
    t = taxis(rng, C, i); out = []
    for j, V in enumerate(C.vars):
        if (i, j) in C.miss: continue
        shape = tuple(len(a) for a in V['ax'])
        if V['static']: out.append(Var(list(V['ax']), values=V['num'][0].reshape(shape).astype(V['dt']), name=V['n'], atts=dict(units=V['units']))); continue
        d = V['num'][C.held[i]].reshape((len(t),) + shape).astype(V['dt']); p = V['at'] if C.tpos else rng.randint(0, len(shape))
        ax = list(V['ax']); ax.insert(p, t)
        out.append(Var(ax, values=np.ascontiguousarray(np.moveaxis(d, 0, p)), name=V['n'], atts=dict(units=V['units'])))
    fn = C.files[i]
    if os.path.exists(fn): os.remove(fn)
    if C.store == 'mem':
        open(fn, 'w').close(); C.mem[fn] = asdataset(out) if out else Dataset([])
        if out and rng.random() < .3: C.mem[fn] = asdataset([LazyVar(v) for v in out])
    elif i in C.bad: open(fn, 'w').write('not a data file')
    else: pyg.save(fn, asdataset(out), format=C.store)
    if C.store == 'mem' and i in C.bad: C.mem[fn] = None
def opener(C):
    def op(fn, **kw):
        fn = os.path.normpath(fn)
        if C.mem[fn] is None: raise IOError('unreadable')
        return C.mem[fn]
    return op
def encoll(C):
    return dict(cal=C.cal, base=C.base, steps=C.steps, mixed=C.mixed, turned=not C.tpos, files=[dict(d=C.named[i], bad=i in C.bad, t=[([] if (i, j) in C.miss or i in C.bad else [0] if V['static'] else [C.steps[k] for k in C.held[i]]) for j, V in enumerate(C.vars)]) for i in range(len(C.files))],
        vars=[dict(n=V['n'], static=V['static'], o=[coords(a) for a in V['ax']], rows=[[int(x) for x in r] for r in V['cells']]) for V in C.vars])
def coords(a, ix=None):
    v = np.asarray(a.values).tolist(); v = v if ix is None else [v[i] for i in ix]
    return dict(n=str(a.name), v=[int(round(x * 1000)) for x in v])
def split(C, v):
    """time axis of a variable, and its other axes in the order of the original"""
    V = [V for V in C.vars if V['n'] == v.name][0]
    extra = [a for a in v.axes if a.name not in [x.name for x in V['ax']]]
    assert len(extra) <= 1, 'axes %s' % [a.name for a in v.axes]
    return V, (extra[0] if extra else None), [v.getaxis(a.name) for a in V['ax']]
def dates_of(a):
    assert isinstance(a, ta.Time), 'no time axis'
    return [[int(np.asarray(a.auxarrays[k])[j]) if k in a.auxarrays else NOF for k in F6] for j in range(len(a))]
def enset(C, ds):
    out = []
    for v in ds.vars:
        V, t, o = split(C, v)
        out.append(dict(n=str(v.name), o=[coords(a) for a in o], t=[] if V['static'] else dates_of(t)))
    return out
def halves(a): return [NOF if x != x else int(round(x * 2)) if abs(x) < 1e8 else 88888888 for x in np.asarray(a, float).ravel().tolist()]
def ask(T, rng, C, how, ds):
    v = rng.choice(sorted(ds.vars, key=lambda v: v.name)); V, t, o = split(C, v)
    req = {}
    for a in o: req[a.name] = sub(rng, len(a))
    nt = len(t) if t is not None else 0
    if t is not None:
        r = rng.random()
        if r < .3: tp = list(range(nt)), slice(None)
        elif r < .5 and nt > 1: i = rng.randint(0, nt - 2); tp = [i, i + 1], slice(i, i + 2)
        elif r < .6 and nt: i = rng.randrange(nt); tp = [i], slice(i, i + 1)
        else: tp = sub(rng, nt)
        req[t.name] = tp
    keys = tuple(req[a.name][1] for a in v.axes)
    def go():
        x = v
        for a, k in zip(v.axes, keys):
            if isinstance(k, tuple): k = k[0]
            x = x.slice[tuple(k if b.name == a.name else slice(None) for b in x.axes)] if not isinstance(k, list) else x.slice[tuple((k,) if b.name == a.name else slice(None) for b in x.axes)] if False else listslice(x, a.name, k)
        r = limited(rng, lambda: np.asarray(x.get()))
        order = ([x.whichaxis(t.name)] if t is not None else []) + [x.whichaxis(a.name) for a in o]
        assert r.shape == x.shape, 'shape'
        return dict(k='ok', v=halves(np.transpose(r, order)))
    r, err = attempt(go)
    eo = [coords(a, req[a.name][0]) for a in o]
    if V['static']: T.emit(op='static', how=how, n=V['n'], o=eo, obs=err or r)
    else:
        dd = dates_of(t); T.emit(op='ask', how=how, n=V['n'], t=[dd[i] for i in tp[0]], o=eo, obs=err or r)
def listslice(x, name, k):
    ix = [slice(None)] * x.naxes; ix[x.whichaxis(name)] = k
    return x.slice[tuple(ix)]
def opening(T, rng, C, how, manifest=None):
    if how == 'scan' and not C.tpos and len(C.files) > 4: return     # (the number of combinations considered grows exponentially)
    kw = {}
    lst = [C.files[i] for i in C.order]
    arg = lst
    if rng.random() < .3 and how != 'all0': arg = os.path.join(C.dir, '*.nc')
    elif how == 'multi' and rng.random() < .1: arg = [os.path.join(C.dir, x + '*.nc') for x in sorted({os.path.basename(f)[0] for f in lst})]
    if how in ('multi', 'all', 'all0'):
        if C.store == 'mem': kw['opener'] = opener(C)
        elif rng.random() < .6: kw['format'] = rng.choice([C.store, MODS[C.store]])
    if isinstance(arg, list) and rng.random() < .2: arg = [C.dir + rng.choice(['//', '/./']) + os.path.basename(x) for x in arg]
    if how == 'multi' or how == 'check':
        if C.store == 'mem': kw['opener'] = opener(C)
        if C.byname and rng.random() < .7: kw['pattern'] = rng.choice(['', 'run1_']) + C.pattern
        else:
            table = {f: {k: v for k, v in zip(F6, C.nm[i])} for i, f in enumerate(C.files)}
            kw['file2date'] = lambda f: dict(table[os.path.normpath(f)])
    if how == 'multi':
        f = rng.choice([lambda: pyg.open_multi(arg, **kw)] * 3 + [lambda: MF.multifile(kw.get('opener') or MODS[C.store].open)(arg, pattern=kw.get('pattern'), file2date=kw.get('file2date'))])
    elif how == 'all': f = lambda: pyg.openall(arg, **kw)
    elif how == 'all0': f = lambda: pyg.openall(arg, sorted=False, **kw)
    elif how == 'scan':
        iface = opener(C) if C.store == 'mem' else rng.choice([C.store, MODS[C.store], MODS[C.store].open])
        f = lambda: quiet(lambda: DS.from_files(arg, iface, **({'manifest': manifest} if manifest else {})))
    elif how == 'check':
        def f():
            s = io.StringIO()
            with contextlib.redirect_stdout(s): MF.check_multi(arg, **kw)
            ok = 'Scan completed without any errors.' in s.getvalue()
            assert ok != ('One or more errors occurred' in s.getvalue()), 'no verdict'
            return dict(k='ok', ok=ok)
        r, err = attempt(f); T.emit(op='check', obs=err or r); return
    box = []
    def go():
        r = f(); sets = sorted(r, key=lambda d: (sorted(v.name for v in d.vars), sum(v.size for v in d.vars), sorted([float(x) for x in a.values] for a in d.axes))) if how == 'scan' else [r]; box.extend(sets)
        return dict(k='ok', sets=[enset(C, s) for s in sets])
    r, err = attempt(go)
    T.emit(op='open', how=how, obs=err or r)
    if err is None and any(s.vars for s in box):
        for _ in range(rng.randint(2, 5)): ask(T, rng, C, how, rng.choice([s for s in box if s.vars]))
        if C.plan and how == 'multi': asked(T, C, box[0])
def asked(T, C, ds):
    """the request of the generated behaviour"""
    dt = C.steps[1] - C.steps[0] if len(C.steps) > 1 else 0
    want = [C.steps[t // 3 - 1] for t in C.plan['req']]; v = ds.vars[0]; V, t, o = split(C, v); have = mins(C.ref, dates_of(t))
    if not all(w in have for w in want): return
    pos = [have.index(w) for w in want]
    def go():
        x = listslice(v, t.name, pos); r = np.asarray(x.get())
        return dict(k='ok', v=halves(np.transpose(r, [x.whichaxis(t.name)] + [x.whichaxis(a.name) for a in o])))
    r, err = attempt(go); dd = dates_of(t)
    T.emit(op='ask', how='multi', n=V['n'], t=[dd[i] for i in pos], o=[coords(a) for a in o], obs=err or r)
def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()): return fn()
def session(T, rng, plan=None):
    C = collection(rng, plan)
    try:
        nf = len(C.files)
        if nf < 2: return
        if plan is None: rng.shuffle(C.order)
        # the specification sees the files in the order they are listed
        def begin():
            e = encoll(C); e['files'] = [e['files'][i] for i in C.order]; T.emit(op='begin', **e)
        begin()
        hows = ['multi', 'all', 'scan', 'multi'] if plan is None else ['multi']
        tv = [j for j, V in enumerate(C.vars) if not V['static']]
        for how in hows: opening(T, rng, C, how) if how != 'all' else byname(T, rng, C, begin)
        if rng.random() < .3: opening(T, rng, C, 'all0')
        if rng.random() < .5 or plan: opening(T, rng, C, 'check')
        if rng.random() < .3 and not C.bad:      # a manifest kept between scans, while files change
            m = os.path.join(C.dir, 'manifest.gz'); full = (C.files, C.held, C.named, C.nm)
            opening(T, rng, C, 'scan', m)
            opening(T, rng, C, 'scan', m)
            i = rng.randrange(nf)
            if len(C.held[i]) > 1:
                C.held[i].pop(rng.randrange(len(C.held[i]))); write(rng, C, i)
                s = os.stat(C.files[i]); os.utime(C.files[i], (s.st_atime, s.st_mtime + 20))
                begin(); opening(T, rng, C, 'scan', m); opening(T, rng, C, 'scan')
    finally: shutil.rmtree(C.dir, ignore_errors=True)
def byname(T, rng, C, begin):
    """files sorted by name, as openall does"""
    opening(T, rng, C, 'all')
def drive(T, rng, tier, shard, nsh):
    T.emit(op='begin', **dict(cal='std', base=DEF, steps=[], mixed=False, turned=False, files=[], vars=[]))
    for b in behaviours(shard, nsh, 25 if tier == 'quick' else 300): session(T, rng, b)
    for i in range(45 if tier == 'quick' else 700): session(T, rng)
if __name__ == '__main__': main(drive)
