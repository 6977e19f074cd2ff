"""C18: everything done with progress bars while pygeode evaluates, loads, saves and compares."""
import os, tempfile, shutil
from kinds import *
from c03 import with_limit
import pygeode.progress as PG
from pygeode.dataset import Dataset

LOG = None; COUNT = 0; MOST = 600; MAKER = []; SAYING = []
class Shown:
    """stands in for the bar on the screen"""
    def __init__(self, **kw): self.v = 0; self.id = 0; self.done = 0
    def start(self, *a, **kw): return self
    def update(self, y, *a, **kw):
        self.v = y
        if LOG is not None and SAYING and len(LOG) <= MOST: LOG.append(dict(op='upd', id=SAYING[-1][0], x=mil(SAYING[-1][1]), y=mil(y), top=self.id))
    def finish(self, *a, **kw): self.done += 1
def mil(x):
    x = float(x)
    return int(round(x * 1e4)) if abs(x) < 1e4 else 99999999
PG.PygProgressBar = Shown
_init, _sub, _part, _upd = PG.PBar.__init__, PG.PBar.subset, PG.PBar.part, PG.PBar.update
def init(self, *a, **kw):
    _init(self, *a, **kw); self._id = 0
    if LOG is None: return
    global COUNT
    if len(LOG) > MOST: self._id = 0; return
    COUNT += 1; n = COUNT
    i = k = 0
    if isinstance(self.pbar, Shown) and self.pbar.id == 0: self.pbar.id = n; par = 0
    elif MAKER: par, i, k = MAKER[-1]
    else: par = self.pbar.id
    self._id = n
    LOG.append(dict(op='bar', id=n, par=par, i=i, n=k, lo=mil(self.lower), hi=mil(self.upper)))
def subset(self, *a, **kw):
    MAKER.append((self._id, 0, 0) if not (MAKER and MAKER[-1][0] == self._id and MAKER[-1][2]) else MAKER[-1])
    try: return _sub(self, *a, **kw)
    finally: MAKER.pop()
def part(self, i, n):
    MAKER.append((self._id, int(i), int(n)))
    try: return _part(self, i, n)
    finally: MAKER.pop()
def update(self, x):
    SAYING.append((self._id, x))
    try: return _upd(self, x)
    finally: SAYING.pop()
PG.PBar.__init__, PG.PBar.subset, PG.PBar.part, PG.PBar.update = init, subset, part, update

def replay(T, hist):
    """the steps of a behaviour of MC_Prog, done with the real bars"""
    global LOG, COUNT
    LOG = []; COUNT = 0; top = PG.PBar(); bars = [top]; seen = []
    for h in hist:
        b = bars[h['bar'] - 1]
        if h['op'] == 'update': b.update(h['i']); seen.append(mil(b.pbar.v))
        else:
            c = b.part(h['i'], h['n']) if h['op'] == 'part' else b.subset(h['i'], h['n'])
            bars.append(c); seen.append(mil(c.lower))
    T.emit(op='replay', hist=hist, seen=seen, last=mil(top.pbar.v)); LOG = None

def run(T, what, fn, quiet=0, lim=10**8):
    global LOG, COUNT
    LOG = []; COUNT = 0
    r, e = with_limit(lim, fn)
    log, LOG = LOG, None
    if len(log) > MOST: return r
    T.emit(op='run', what=what, lim=lim, log=log, ok=0 if e else 1, quiet=int(bool(quiet)), msg=e['msg'] if e else '')
    return r

def sub(rng, v):
    """a part of a variable, now and then nothing of it"""
    if not v.naxes or rng.random() < .4: return v
    c = rng.random()
    if c < .1: return v.slice[tuple([slice(0, 0)] + [slice(None)] * (v.naxes - 1))]
    return v.slice[tuple(rng.choice([slice(None), slice(None, None, -1), slice(1, None), slice(None, None, 2)]) if n > 2 else slice(None) for n in v.shape)]

def two(v, w, p):
    v.get(pbar=p.subset(0, 30)); w.get(pbar=p.subset(30, 100))

def study(T, rng, name):
    K = Kit(rng, memprob=.15)
    r, e = attempt(lambda: KINDS[name](K, name)[0])
    if e: return
    v = r
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        r, e = attempt(lambda: wrap(rng, v))
        if not e: v = r
    # a variable that cannot be read at all is not this property's business
    for _ in range(3):
        lim = rng.choice([1, 2, 3, 4, 6, 10, 10**8])
        w, e = attempt(lambda: sub(rng, v))
        if e: continue
        if with_limit(lim, lambda: w.get())[1]: continue
        c = rng.choice(['get', 'get', 'gettrue', 'load', 'loadp', 'two', 'part'])
        if c == 'get': run(T, name, lambda: w.get(pbar=PG.PBar()), lim=lim)
        elif c == 'gettrue': run(T, name, lambda: w.get(pbar=True), lim=lim)
        elif c == 'load': run(T, name, lambda: w.load(), quiet=hasattr(w, 'values'), lim=lim)
        elif c == 'loadp': run(T, name, lambda: w.load(pbar=PG.PBar()), quiet=hasattr(w, 'values'), lim=lim)
        elif c == 'two': run(T, name, lambda: two(w, v, PG.PBar()), lim=lim) if not with_limit(lim, lambda: v.get())[1] else None
        else:
            p = rng.randint(1, 4)
            def go():
                b = PG.PBar()
                for i in range(p): w.get(pbar=b.part(i, p))
            run(T, name, go, lim=lim)

def stats(T, rng):
    from pygeode import stats as S
    t = taxis(rng, rng.randint(5, 9)); ax, i = withaxis(rng, t, k=rng.randint(1, 2), maxn=3)
    K = Kit(rng, memprob=.2); X = K.src(ax, dtype='d'); Y = K.src(ax, dtype='d', name='w'); Z = K.src(ax, dtype='d', name='z')
    if rng.random() < .4: X = X * 2 + Y
    nm = rng.choice(['correlate', 'regress', 'multiple_regress', 'difference', 'paired_difference', 'isnonzero', 'difference'])
    tn = t.name
    f = dict(correlate=lambda **k: S.correlate(X, Y, axes=tn, **k), regress=lambda **k: S.regress(X, Y, axes=tn, **k), multiple_regress=lambda **k: S.multiple_regress([X, Z], Y, axes=tn, **k),
             difference=lambda **k: S.difference(X, Y, axes=tn, **k), paired_difference=lambda **k: S.paired_difference(X, Y, axes=tn, **k), isnonzero=lambda **k: S.isnonzero(X, axes=tn, **k))[nm]
    lim = rng.choice([1, 2, 3, 5, 8, 20, 10**8])
    if nm in ('regress', 'correlate', 'multiple_regress'): lim = max(lim, 3)
    if with_limit(lim, lambda: f())[1]: return
    c = rng.random()
    if c < .5: run(T, 'stats-' + nm, lambda: f(), lim=lim)
    elif c < .8: run(T, 'stats-' + nm, lambda: f(pbar=PG.PBar()), lim=lim)
    else:
        def go():
            b = PG.PBar(); f(pbar=b.part(0, 2)); f(pbar=b.part(1, 2))
        run(T, 'stats-' + nm, go, lim=lim)

def files(T, rng, names):
    """saving and loading files, several variables, several files"""
    d = tempfile.mkdtemp(prefix='c18_')
    try:
        fmt = rng.choice(['netcdf', 'netcdf4'])
        t = taxis(rng, rng.randint(3, 6)); ax, i = withaxis(rng, t, k=rng.randint(0, 2), maxn=3)
        K = Kit(rng, memprob=.3)
        vs = [K.src(rng.choice([ax, ax, [t], [a for a in ax if a is not t] or ax]), name='v%d' % j) for j in range(rng.randint(1, 4))]
        vs = [rng.choice([lambda v: v, lambda v: (v * 2).rename(v.name), lambda v: v.sorted().rename(v.name)])(v) for v in vs]
        for _ in range(rng.randint(0, 2)):
            r, e = attempt(lambda: KINDS[rng.choice(names)](K, None)[0].rename('k'))
        ds = Dataset(vs)
        lim = rng.choice([1, 2, 3, 5, 8, 20, 10**8]); p = os.path.join(d, 'a.nc')
        kw = dict(pack=True) if rng.random() < .15 else {}
        r = run(T, 'save-' + fmt, lambda: pyg.save(p, ds, format=fmt, **kw), lim=lim)
        if not os.path.exists(p): return
        f, e = attempt(lambda: pyg.open(p, format=fmt))
        if e: return
        run(T, 'load-' + fmt, lambda: f.load(), lim=lim)
        for v in f.vars:
            if rng.random() < .6: run(T, 'open-' + fmt, lambda: v.load(), quiet=hasattr(v, 'values'), lim=lim)
        # one file per step, opened together
        if rng.random() < .5 and type(t).__name__ == 'StandardTime':
            w = vs[0] if vs[0].hasaxis(t.name) else None
            if w is None: return
            fs = []
            for j in range(len(t)):
                q = os.path.join(d, 'm%d.nc' % j); fs.append(q)
                attempt(lambda: pyg.save(q, Dataset([w.slice[tuple(slice(j, j + 1) if a is t else slice(None) for a in w.axes)]]), format=fmt))
            m, e = attempt(lambda: pyg.openall(fs, format=fmt, sorted=False))
            if e: return
            for v in m.vars: 
                if not attempt(lambda: v.get())[1]: run(T, 'openall', lambda: v.load(), quiet=hasattr(v, 'values'), lim=lim)
    finally: shutil.rmtree(d, ignore_errors=True)

def drive(T, rng, tier, shard, nsh):
    for b in behaviours(shard, nsh, 60 if tier == 'quick' else None): replay(T, b['hist'])
    names = sorted(KINDS)
    for rd in range(1 if tier == 'quick' else 12):
        for i, nm in enumerate(names):
            if nm.startswith('clim-') and tier == 'quick' and (i + rd + shard) % 3: continue
            study(T, rng, nm)
    for _ in range(12 if tier == 'quick' else 100): stats(T, rng)
    for _ in range(8 if tier == 'quick' else 60): files(T, rng, names)

if __name__ == '__main__': main(drive)
