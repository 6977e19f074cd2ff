from kinds import *
from c03 import study, with_limit, err
from pygeode.view import View
from pygeode import stats as ST, ext_xarray as XR
import pygeode.formats.netcdf4

def loops(T, rng, axes, req, pres, lim, contig):
    """the pieces View.loop_mem / View.loop_contiguous cut a request into"""
    v = View(axes, tuple(np.array(i, dtype=int) for i in req))
    pos = lambda ix: [int(i) for i in ix]
    def go():
        if contig:
            ps, outs = [], []
            for o, start, count in v.loop_contiguous():
                ps.append([list(range(int(a), int(a) + int(c))) for a, c in zip(start, count)])
                outs.append([pos(np.atleast_1d(np.arange(len(ix))[z])) for ix, z in zip(req, o)])
            return dict(k='pieces', pieces=ps, outs=outs, msg='')
        return dict(k='pieces', pieces=[[pos(i) for i in w.integer_indices] for w in v.loop_mem(preserve=pres)], outs=[], msg='')
    o, e = with_limit(lim, go)
    T.emit(op='loop', req=[pos(i) for i in req], p=list(pres or []), lim=lim, contig=contig, obs=dict(k=e['k'], pieces=[], outs=[], msg=e['msg']) if e else o)

def stream(T, kind, K, need, lim, fn):
    K.clear()
    o, e = with_limit(lim, fn)
    T.emit(op='stream', kind=kind, lim=lim, srcs=K.srcs, reqs=K.taken(), need=need, obs=dict(k=e['k'], msg=e['msg']) if e else dict(k='done', msg=''))

def whole(K, lim, once=True, which=None):
    return [dict(s=s + 1, map=[0] * len(x['sh']), once=once, lim=lim, p=[]) for s, x in enumerate(K.srcs) if which is None or s in which]

def streams(T, rng):
    lim = rng.choice([1, 2, 3, 5, 7, 10, 1000])
    c = rng.choice(['save', 'save', 'xarray', 'correlate', 'regress', 'difference', 'paired', 'isnonzero', 'load', 'multiple'])
    K = Kit(rng, fileprob=0 if rng.random() < .6 else .4)
    T.emit(op='begin', kind=c)
    if c in ('save', 'xarray'):
        ax = space(rng, rng.randint(1, 3))
        ax = [a for a in ax if not isinstance(a, A.Hybrid)] or [A.Lat([0., 1., 2.])]
        vs = [K.src(rng.sample(ax, rng.randint(1, len(ax))), name='v%d' % i) for i in range(rng.randint(1, 3))]
        out = [v if rng.random() < .6 else (v * 2).rename(v.name) for v in vs]
        # a lazily read source is asked for whole pieces; one read through getvalues in their contiguous runs
        def go():
            if c == 'save':
                f = os.path.join(os.environ.get('SCRATCH', '/tmp'), 's.nc')
                if rng.random() < .3: pyg.save(f, {'g': pyg.asdataset(out)})
                else: pyg.save(f, pyg.asdataset(out), version=rng.choice([3, 4, 4]), compress=rng.random() < .2, cfmeta=rng.random() < .7)
                os.unlink(f)
            else:
                import dask
                x = XR.to_xarray(pyg.asdataset(out))
                with dask.config.set(scheduler='single-threaded'): x.load()
        return stream(T, c, K, whole(K, lim), lim, go)
    if c == 'load':
        v = K.src(space(rng, 2)); return stream(T, c, K, whole(K, 0), lim, lambda: (v + 1).load())
    ax = space(rng, rng.randint(1, 3), minn=3)
    ax = [a for a in ax if not isinstance(a, A.Hybrid)] or [A.Lat([0., 1., 2., 4.])]
    X = K.src(ax, dtype='d')
    if c == 'isnonzero':
        return stream(T, c, K, whole(K, lim), lim, lambda: ST.isnonzero(X, axes=rng.sample(range(len(ax)), rng.randint(1, len(ax)))))
    if c == 'multiple':
        Y = K.src(ax, dtype='d'); Z = K.src(ax, dtype='d')
        return stream(T, c, K, whole(K, lim), lim, lambda: ST.multiple_regress([X, Z], Y, axes=rng.sample(range(len(ax)), rng.randint(1, len(ax)))))
    Y = K.src(rng.sample(ax, len(ax)) if c in ('correlate', 'regress') else ax, dtype='d')
    fn = dict(correlate=ST.correlate, regress=ST.regress, difference=ST.difference, paired=ST.paired_difference)[c]
    stream(T, c, K, whole(K, lim), lim, lambda: fn(X, Y, axes=rng.sample(range(len(ax)), rng.randint(1, len(ax)))))

KS = [A.Lat, A.Lon, A.Pres]
def box(rng, sh): return [k(np.arange(n) + 1.) for k, n in zip(rng.sample(KS, len(sh)), sh)]

def replay(T, rng, g):
    """one behaviour of the evaluation machine in the real one"""
    ax = box(rng, g['sh']); u = [sorted(set(i)) for i in g['req']]
    T.emit(op='begin', kind='machine')
    if all(u):
        loops(T, rng, ax, u, [p - 1 for p in g['p']] or None, g['lim'], False)
        loops(T, rng, ax, u, None, g['lim'], True)
    K = Kit(rng, fileprob=.5); v = K.src(ax, dtype='d')
    a = v.get(); K.clear()
    T.emit(op='truth', kind='machine', srcs=K.srcs, built=0, reqs=[], obs=dict(k='arr', ax=[enc_axis(x) for x in ax], sh=list(a.shape), dat=[int(x) for x in a.ravel()], msg=''))
    def go(): r = np.asarray(v[tuple((tuple(i),) if len(i) != 1 else (tuple(i),) for i in g['req'])]); return dict(k='vals', ax=[], sh=list(r.shape), dat=[int(x) for x in r.ravel()], msg='')
    o, e = with_limit(g['lim'], go)
    nd = [] if e or not all(u) else ident_need(v)
    for n in nd: n['lim'] = 0
    T.emit(op='read', kind='machine', mode='get', es=[dict(t='l', ix=i) for i in g['req']], lim=g['lim'], reqs=K.taken(), need=nd, obs=err(e) if e else o)

def drive(T, rng, tier, shard, nshards):
    for g in behaviours(shard, nshards, 60 if tier == 'quick' else None): replay(T, rng, g)
    for _ in range(40 if tier == 'quick' else 1500):
        sh = [rng.randint(1, 6) for _ in range(rng.randint(1, 3))]
        u = [sorted(rng.sample(range(n), rng.randint(1, n))) for n in sh]; ax = box(rng, sh)
        T.emit(op='begin', kind='loop')
        loops(T, rng, ax, u, rng.choice([None, [rng.randrange(len(sh))], rng.sample(range(len(sh)), rng.randint(1, len(sh)))]), rng.randint(1, 40), False)
        loops(T, rng, ax, u, None, 1, True)
    names = sorted(KINDS)
    for rd in range(1 if tier == 'quick' else 20):
        for i, nm in enumerate(names):
            if nm.startswith('clim-') and tier == 'quick' and (i + rd + shard) % 4: continue
            study(T, rng, nm, 5 if tier == 'quick' else 12, requests=True)
    for _ in range(40 if tier == 'quick' else 1500): streams(T, rng)

if __name__ == '__main__': main(drive)
