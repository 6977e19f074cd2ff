from gen import *
from pygeode.dataset import Dataset, asdataset
import pygeode.dataset as DS

W = [(A.YAxis, 1), (A.XAxis, 7), (A.ZAxis, 31), (A.TAxis, 3)]
def weight(ax):
    for c, w in W:
        if isinstance(ax, c): return w
    return 101

class Objs:
    """numbers for objects, which are kept alive so that no number is used twice"""
    def __init__(self): self.known = {}
    def __call__(self, o):
        if id(o) not in self.known: self.known[id(o)] = (len(self.known), o)
        return self.known[id(o)][0]

def atts(at):
    def val(x): return [type(x).__name__ if isinstance(x, str) else 'n'] + [str(x)]
    return sorted([str(k)] + [' '.join(val(v))] for k, v in at.items())

def ax_rec(I, ax): return dict(enc_axis(ax), id=I(ax))
def ints(a): return [int(round(float(x))) if abs(float(x)) < 2**31 - 1 else BADI for x in np.asarray(a).ravel().tolist()]

def var_rec(I, v):
    a = np.asarray(v.get())
    return dict(id=I(v), n=str(v.name), at=atts(v.atts), ax=[ax_rec(I, x) for x in v.axes], sh=list(a.shape), dat=ints(a))

def ds_rec(I, d):
    look = []
    for n in list(d.vardict) + list(d.axisdict) + ['nosuch']:
        try: o = I(d[n])
        except KeyError: o = -1
        look.append([n, o])
        if (n in d) != (o >= 0): look.append([n, -2])
        if n.isidentifier() and n not in Dataset.__dict__ and n not in ('vars', 'axes', 'atts', 'vardict', 'axisdict'):
            look.append([n, I(getattr(d, n)) if hasattr(d, n) else -1])
    str(d)
    return dict(k='ds', vars=[var_rec(I, v) for v in d.vars], axes=[ax_rec(I, a) for a in d.axes],
                vd=[[k, I(v)] for k, v in d.vardict.items()], ad=[[k, I(a)] for k, a in d.axisdict.items()],
                look=look, iter=[I(v) for v in d], at=atts(d.atts), msg='')

def fill(axes, t, f=1, c=0):
    a = np.zeros([len(x) for x in axes]) + t * 1000000 + c
    for i, x in enumerate(axes):
        a = a + weight(x) * np.round(np.array(x.values) * SC).reshape([-1 if j == i else 1 for j in range(len(axes))])
    return a * f

class Prog:
    def __init__(self, T, rng):
        self.T, self.rng, self.I = T, rng, Objs()
        self.objs, self.tag, self.pool = [], 0, {}
        T.emit(op='begin')
    def note(self, o): self.objs.append(o); return len(self.objs)
    def var(self, name, axes, at=None, lazy=None):
        self.tag += 1
        v = Var(axes, values=fill(axes, self.tag), name=name, atts=at or {})
        if lazy or (lazy is None and self.rng.random() < .2): v = LazyVar(v)
        self.T.emit(op='var', t=self.tag, obs=var_rec(self.I, v))
        return self.note(v)
    def ds(self, op, src, fn, **kw):
        def go():
            r = fn()
            if not isinstance(r, Dataset): return r, dict(k='other', msg=str(type(r)))
            return r, ds_rec(self.I, r)
        r, e = attempt(go)
        self.T.emit(op=op, src=src, obs=e or r[1], **kw)
        return self.note(None if e else r[0])
    def again(self, h):
        if isinstance(self.objs[h - 1], Dataset):
            o, e = attempt(lambda: ds_rec(self.I, self.objs[h - 1]))
            self.T.emit(op='again', src=[h], obs=e or o)

NAMES = ['T', 'T', 'T01', 'T02', 'U', 'U', '', 'lat', 'T01x', 'x y']
def lat(rng, n, near=None):
    base = np.arange(n) * 10. + rng.choice([0, 0, 0, 5])
    if rng.random() < .2: base = base[::-1]
    if rng.random() < .3: base = base * (1 + 1e-9)
    return A.Lat(base, weights=np.ones(n), name=rng.choice(['lat'] * 8 + ['lat01', 'y']))
def some_axis(P, fam):
    """an axis of the family: one already met, or a new one that may equal, nearly equal or clash with another"""
    rng = P.rng
    got = P.pool.setdefault(fam, [])
    if got and rng.random() < .45: return rng.choice(got)
    n = rng.choice([1, 2, 2, 3])
    if fam == 'y':
        r = rng.random()
        if r < .75: a = lat(rng, n)
        elif r < .9: a = A.YAxis(np.arange(n) * 10., name='lat')
        else: a = A.NamedAxis(np.arange(n) * 10., 'lat')
    elif fam == 'x':
        v = np.arange(n) * 20. + rng.choice([0, 0, 10])
        a = A.Lon(v) if rng.random() < .8 else A.XAxis(v, name=rng.choice(['lon', 'xaxis']))
    elif fam == 'z': a = A.Pres((np.arange(n) * 50. + 100)[::rng.choice([1, -1])], **({'w': np.ones(n) * rng.choice([1, 2])} if rng.random() < .3 else {}))
    else: a = A.NamedAxis(np.arange(n) * 1. + rng.choice([0, 0, 1]), rng.choice(['s', 's', 's01', 'T']))
    got.append(a)
    return a
def some_var(P):
    rng = P.rng
    fams = rng.sample(['y', 'x', 'z', 's'], rng.choice([0, 1, 1, 1, 2, 2, 3]))
    # one axis of each name in a variable
    axes = []
    for f in fams:
        a = some_axis(P, f)
        if a.name not in [b.name for b in axes]: axes.append(a)
    at = {k: rng.choice([1, 2, 'm']) for k in ('units', 'q', 'p') if rng.random() < .4}
    return P.var(rng.choice(NAMES), axes, at)

GAT = [{}, {'title': 'A', 'v': 1}, {'title': 'A', 'v': 2}, {'title': 'B'}]
def name_of(P, h, p=.92):
    d = P.objs[h - 1]
    return P.rng.choice([v.name for v in d.vars]) if d.vars and P.rng.random() < p else P.rng.choice(['nosuch', 'T', 'lat'])

def step(P, h):
    rng, d = P.rng, P.objs[h - 1]
    k = rng.choice(['rename', 'rename', 'remove', 'add', 'add', 'adddd', 'replace', 'replace', 'map', 'map', 'map', 'sub', 'sub', 'copy', 'asds', 'bad', 'merge', 'again'])
    names = [v.name for v in d.vars]
    if k == 'rename':
        mp = {name_of(P, h): rng.choice(NAMES + ['W']) for _ in range(rng.choice([1, 1, 2]))}
        if names and rng.random() < .2: a, b = rng.choice(names), rng.choice(names); mp = {a: b, b: a}
        kw = rng.random() < .4 and all(k.isidentifier() for k in mp)
        return P.ds('rename', [h], (lambda: d.rename_vars(**mp)) if kw else (lambda: d.rename_vars(mp)), mp=[[a, b] for a, b in mp.items()])
    if k == 'remove':
        ns = [name_of(P, h) for _ in range(rng.choice([1, 1, 2]))]
        s = rng.choice(['m', 'op', 'list'])
        return P.ds('remove', [h], lambda: d.remove(*ns) if s == 'm' or (s == 'op' and len(ns) > 1) else d - ns[0] if s == 'op' else d - ns, ns=ns)
    if k == 'add':
        new = [some_var(P) for _ in range(rng.choice([1, 1, 2]))]
        vs = [P.objs[x - 1] for x in new]
        s = rng.choice(['m', 'op', 'list', 'rlist'])
        return P.ds('add', [h] + new, lambda: d.add(*vs) if s == 'm' or (s == 'op' and len(vs) > 1) else d + vs[0] if s == 'op' else d + vs if s == 'list' else vs + d)
    if k == 'adddd':
        # members already there (or equal to these), and other datasets
        hs = [x for x in range(1, len(P.objs) + 1) if P.objs[x - 1] is not None]
        src = [rng.choice(hs) for _ in range(rng.choice([1, 2]))]
        os = [P.objs[x - 1] for x in src]
        if sum(len(o.vars) if isinstance(o, Dataset) else 1 for o in os) + len(d.vars) > 9: return None
        return P.ds('add', [h] + src, lambda: d.add(*os) if rng.random() < .6 else d + os)
    if k == 'replace':
        if rng.random() < .3 and len(names) > 1:
            ns, vs = [rng.choice(names)], None
            i = rng.randrange(len(names))
            new = [P.var(names[i], list(d.vars[i].axes))]
        else:
            ns = list(dict.fromkeys(name_of(P, h) for _ in range(rng.choice([1, 1, 2]))))
            new = [some_var(P) for _ in ns]
        mp = {n: P.objs[x - 1] for n, x in zip(ns, new)}
        return P.ds('replace', [h] + new, lambda: d.replace_vars(mp) if not all(n.isidentifier() for n in ns) or rng.random() < .5 else d.replace_vars(**mp), ns=ns)
    if k == 'map':
        f = rng.choice(['id', 'twice', 'times', 'load', 'sorted', 'squeeze', 'rename', 'pre', 'rename_axes'])
        drop = [rng.choice(names)] if names and rng.random() < .4 else []
        arg = []
        if f == 'id': g = lambda v: v
        elif f == 'twice': g = lambda v: v * 2
        elif f == 'times': arg = [3]; g = lambda v, k=1: v * k
        elif f == 'rename': arg = [rng.choice(['Q', 'T'])]; g = lambda v: v.rename(arg[0])
        elif f == 'pre': arg = [rng.choice(['_a', '01'])]; g = lambda v: v.rename(v.name + arg[0])
        elif f == 'rename_axes': arg = [rng.choice(['lat', 'lon', 's']), rng.choice(['y', 'lon', 'lat01', 's'])]
        if f == 'rename_axes':
            # no variable is left with two axes of one name
            for v in d.vars:
                ns = [arg[1] if a.has_alias(arg[0]) else a.name for a in v.axes]
                if len(set(ns)) < len(ns): return None
        if f in ('load', 'sorted', 'squeeze', 'rename_axes'):
            kw = {arg[0]: arg[1]} if f == 'rename_axes' else {}
            s = rng.choice(['method', 'map', 'str']); drop = []
            return P.ds('map', [h], lambda: getattr(d, f)(**kw) if s == 'method' else d.map(getattr(Var, f), **kw) if s == 'map' else d.map(f, **kw), f=f, arg=arg, drop=[])
        if drop: g2 = lambda v, **kw: None if v.name in drop else g(v, **kw)
        else: g2 = g
        return P.ds('map', [h], (lambda: d.map(g2, k=3)) if f == 'times' else (lambda: d.map(g2)), f=f, arg=arg, drop=drop)
    if k == 'sub':
        sel, kw = [], {}
        for key in rng.sample(['lat', 'lon', 'pres', 's', 'lat01', 'lat02'], rng.choice([1, 1, 2])):
            lo = rng.choice([0, 5, 10, 100, 1]); hi = lo + rng.choice([10, 20, 50, 1])
            if rng.random() < .4:
                lo = rng.choice([0, 0, 1]); hi = lo + rng.choice([1, 2, 3])
                sel.append(dict(key=key, how='i', lo=lo, hi=hi)); kw['i_' + key] = (lo, hi)
            else: sel.append(dict(key=key, how='v', lo=lo * SC, hi=hi * SC)); kw[key] = (lo, hi)
        return P.ds('sub', [h], lambda: d(**kw), sel=sel)
    if k == 'copy': return P.ds('copy', [h], lambda: d.copy() if rng.random() < .6 else asdataset(d, copy=rng.random() < .5))
    if k == 'asds':
        return mixed(P)
    if k == 'merge':
        hs = [x for x in range(1, len(P.objs) + 1) if isinstance(P.objs[x - 1], Dataset)]
        src = [h] + [rng.choice(hs)]
        if sum(len(P.objs[x - 1].vars) for x in src) > 9: return None
        return P.ds('asds', src, lambda: asdataset([P.objs[x - 1] for x in src]))
    if k == 'bad':
        r = rng.random()
        if r < .5: return P.ds('mapbad', [h], lambda: d.map(lambda v: 3))
        return P.ds('addbad', [h], lambda: d.add(rng.choice([3, 'T', None])))
    P.again(rng.choice(range(1, len(P.objs) + 1)))

def mixed(P):
    rng = P.rng
    src = [some_var(P) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    if len(src) == 1 and rng.random() < .5: return P.ds('asds', src, lambda: asdataset(P.objs[src[0] - 1]))
    if rng.random() < .3:
        hs = [x for x in range(1, len(P.objs) + 1) if isinstance(P.objs[x - 1], Dataset)]
        if hs and len(src) < 4: src.insert(rng.randrange(len(src) + 1), rng.choice(hs))
    return P.ds('asds', src, lambda: asdataset([P.objs[x - 1] for x in src]))

def joined(P):
    """datasets cut along one axis, some members in one of them only"""
    rng = P.rng
    m = rng.choice([2, 2, 3])
    cut = rng.choice(['y', 'z', 't'])
    def axis(i):
        if cut == 'y': return A.Lat(np.arange(2) * 10. + 20 * i, weights=np.ones(2))
        if cut == 'z': return A.Pres(np.arange(2) * 10. + 20 * i + 100)
        return A.NamedAxis(np.arange(2) * 1. + 2 * i, 's')
    ax = [axis(i) for i in range(m)]
    fix = A.Lon(np.arange(2) * 20.)
    hs = [[] for _ in range(m)]
    for nm in rng.sample(['T', 'U', 'T01', 'lat', 'V'], rng.choice([1, 2, 3])):
        P.tag += 1
        two = rng.random() < .5
        at = {k: rng.choice([1, 2]) for k in ('units', 'q') if rng.random() < .5}
        for i in range(m):
            axes = [ax[i]] if not two else [ax[i], A.Lon(np.arange(2) * 20.) if rng.random() < .3 else fix]
            if rng.random() < .25: continue
            a = dict(at) if rng.random() < .6 else {k: rng.choice([1, 2]) for k in ('units', 'q') if rng.random() < .5}
            v = Var(axes, values=fill(axes, P.tag), name=nm, atts=a)
            P.T.emit(op='var', t=P.tag, obs=var_rec(P.I, v))
            hs[i].append(P.note(v))
    if rng.random() < .4:
        i = rng.randrange(m); hs[i].append(P.var('static', [fix] if rng.random() < .5 else [A.Lat([0., 10.], weights=np.ones(2))]))
    src = []
    for h in hs:
        g = rng.choice(GAT)
        src.append(P.ds('new', h, lambda: Dataset([P.objs[x - 1] for x in h], atts=g), at=atts(g)))
    if any(P.objs[x - 1] is None for x in src): return None
    ds = [P.objs[x - 1] for x in src]
    s = rng.random()
    return P.ds('concat', src, lambda: DS.concat(*ds) if s < .3 else DS.concat(ds) if s < .6 else pyg.concatenate(ds) if s < .8 else pyg.concatenate(*ds))

def crowd(T, rng):
    """so many of one name that the numbers added run into three digits"""
    P = Prog(T, rng)
    n = rng.choice([99, 100, 101, 110])
    if rng.random() < .5: hs = [P.var('a', [], lazy=False) for _ in range(n)] + [P.var(rng.choice(['a1', 'a10', 'b']), [], lazy=False) for _ in range(2)]
    else: hs = [P.var('v%d' % i, [A.NamedAxis([float(i)], 'a')], lazy=False) for i in range(n)] + [P.var('w%d' % i, [A.NamedAxis([float(i)], 'a1')], lazy=False) for i in range(2)]
    P.ds('new', hs, lambda: Dataset([P.objs[x - 1] for x in hs]), at=[])

def program(T, rng, n):
    P = Prog(T, rng)
    if rng.random() < .25: joined(P)
    else:
        src = [some_var(P) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5]))]
        if src and rng.random() < .15: src.append(rng.choice(src))
        g = rng.choice(GAT)
        P.ds('new', src, lambda: Dataset([P.objs[x - 1] for x in src] if rng.random() < .7 else iter([P.objs[x - 1] for x in src]), atts=dict(g)) if g or rng.random() < .5 else Dataset([P.objs[x - 1] for x in src]), at=atts(g))
    for _ in range(n):
        hs = [x for x in range(1, len(P.objs) + 1) if isinstance(P.objs[x - 1], Dataset)]
        if not hs: return
        h = hs[-1] if rng.random() < .7 else rng.choice(hs)
        if len(P.objs[h - 1].vars) > 9: h = hs[0]
        step(P, h)
        if rng.random() < .3: P.again(h)
    for x in range(1, len(P.objs) + 1): P.again(x)

def dec_axes(s): return [A.Lat([c / 8. for c in x['v']], name=x['n'], weights=np.ones(len(x['v']))) if x['k'] == 'Lat' else dec_axis(x) for x in s]
def replay(T, rng, b):
    """one transition of the specification: the dataset before is built from its resolved members"""
    P = Prog(T, rng)
    hs = [P.var(v['n'], dec_axes(v['ax'])) for v in b['of']]
    d0 = P.ds('new', hs, lambda: Dataset([P.objs[x - 1] for x in hs]), at=[])
    d = P.objs[d0 - 1]
    if d is None: return
    names = [v.name for v in d.vars]
    op, of, want = b['op'], b['of'], b['want']
    if op == 'remove':
        ns = [v['n'] for v in of if v['n'] not in [w['n'] for w in want]]
        P.ds('remove', [d0], lambda: d.remove(*ns), ns=ns)
    elif op == 'rename':
        mp = {v['n']: w['n'] for v, w in zip(of, want) if v['n'] != w['n']}
        P.ds('rename', [d0], lambda: d.rename_vars(mp), mp=[[a, c] for a, c in mp.items()])
    elif op == 'add':
        h = P.var(want[-1]['n'], dec_axes(want[-1]['ax'])); P.ds('add', [d0, h], lambda: d + P.objs[h - 1])
    elif op == 'replace':
        i = [i for i, w in enumerate(want) if w['t'] == 8][0]
        h = P.var(want[i]['n'], dec_axes(want[i]['ax'])); P.ds('replace', [d0, h], lambda: d.replace_vars({of[i]['n']: P.objs[h - 1]}), ns=[of[i]['n']])
    elif op in ('sorted', 'squeeze'): P.ds('map', [d0], lambda: getattr(d, op)(), f=op, arg=[], drop=[])
    elif op == 'rename_axes':
        if not any(len({x['n'] for x in w['ax']}) < len(w['ax']) for w in want): P.ds('map', [d0], lambda: d.rename_axes(lat='s'), f=op, arg=['lat', 's'], drop=[])
    P.again(d0)

def drive(T, rng, tier, shard, nsh):
    for b in behaviours(shard, nsh, 60 if tier == 'quick' else None): replay(T, rng, b)
    for _ in range(1 if tier == 'quick' else 3): crowd(T, rng)
    for _ in range(45 if tier == 'quick' else 500): program(T, rng, rng.choice([2, 4, 6, 10]))

if __name__ == '__main__': main(drive)
