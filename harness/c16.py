"""C16: files of every origin, opened with every combination of options."""
from c10 import *
from store import *
import netCDF4 as nc
DN = ['time', 'lat', 'lon', 'lev', 'x', 'y', 't', 'station', 'plev', 'Lat', 'n', 'level_2', 'Z']
REF = [('days', 'days since 2000-01-01', [2000, 1, 1, 0, 0, 0]), ('days', 'day since 2000-1-1', [2000, 1, 1, 0, 0, 0]), ('hours', 'hours since 1990-02-28T06:00:00', [1990, 2, 28, 6, 0, 0]),
       ('hours', 'hours since 1999', [1999, 1, 1, 0, 0, 0]), ('seconds', 'seconds since 1970-01-01 00:00:00.0', [1970, 1, 1, 0, 0, 0]), ('minutes', 'minute since 1980-12-31 23:59', [1980, 12, 31, 23, 59, 0]),
       ('days', 'days since 0000-01-01 00:00:00', [0, 1, 1, 0, 0, 0]), ('days', 'days  since 1850-03-05 12:30:15 UTC', [1850, 3, 5, 12, 30, 15]), ('hours', 'hours since 1-1-1 00:00:0.0', [1, 1, 1, 0, 0, 0]), ('days', 'Days since 2010-10-10 10', [2010, 10, 10, 10, 0, 0]),
       ('minutes', 'minutes since 2003-07-31 22:10', [2003, 7, 31, 22, 10, 0]), ('minutes', 'minutes since 1999-12-31', [1999, 12, 31, 0, 0, 0]), ('days', 'days since -4-02-28', [-4, 2, 28, 0, 0, 0])]
def quart(rng, dt, hi=400): return rng.randint(-hi, hi) if np.dtype(dt).kind in 'iu' else rng.randint(-hi, hi) / 4.
def coordinate(rng, d, n, tys):
    """values and attributes of a coordinate variable"""
    dt = rng.choice([t for t in tys if t[0] != 'u']); at = {}
    v = np.sort(np.array(rng.sample(range(-60, 60), n))) if n <= 120 else np.arange(n)
    if rng.random() < .3: v = v[::-1]
    v = (v if np.dtype(dt).kind in 'iu' else v / rng.choice([1., 4.])).astype(dt)
    kind = rng.choice(['', '', '', 'Lat', 'Lon', 'Pres', 'time', 'time', 'time', 'axis', 'Hybrid', 'station', 'units', 'long'])
    cs = lambda s: rng.choice([s, s, s.capitalize(), s.upper()])
    q = None
    if kind == 'Lat': at.update(rng.choice([dict(standard_name=cs('latitude')), dict(units='degrees_north'), dict(standard_name='latitude', units='degrees_north', axis='Y'), dict(long_name=cs('latitude'))]))
    if kind == 'Lon': at.update(rng.choice([dict(standard_name=cs('longitude')), dict(units='degrees_east'), dict(standard_name='longitude', units='degrees_east', axis='X'), dict(long_name='longitude', units='degrees_east')]))
    if kind == 'Pres': at.update(rng.choice([dict(standard_name='air_pressure', units='Pa'), dict(units='hPa', positive='down'), dict(units='mbar', axis='Z'), dict(standard_name=cs('air_pressure'), positive='down')]))
    if kind == 'Hybrid': at.update(standard_name='atmosphere_hybrid_sigma_pressure_coordinate')
    if kind == 'station': at.update(standard_name='station')
    if kind == 'axis': at.update(axis=rng.choice('XYZT'), **({'units': rng.choice(['K', 'm'])} if rng.random() < .4 else {}))
    if kind == 'units': at.update(units=rng.choice(['K', 'm', '1', 'level', 'days', 'Pa', 'degrees']))
    if kind == 'long': at.update(long_name=rng.choice(['some level', 'distance']), units='m')
    if kind == 'time':
        q = rng.choice(REF)
        at.update(units=q[1])
        # other spellings of units only count where something else says that it is a time
        if rng.random() < .6 or d == 'station' or d != 'time' and not q[1].startswith(q[0] + ' since'): at.update(standard_name='time', **({'axis': 'T'} if rng.random() < .5 else {}))
        c = rng.choice(['', 'standard', 'gregorian', 'proleptic_gregorian', '365_day', 'noleap', '360_day', 'none', 'julian'] if not q[1].startswith('x') else [''])
        if c: at['calendar'] = c
        m = {'days': 900, 'hours': 30000, 'minutes': 90000, 'seconds': 10**6}[q[0]]
        v = np.array(sorted(rng.sample(range(0 if q[2][0] < 2 or c == 'none' or rng.random() < .7 else -m // 9, m), n))) if q[2][0] else np.array(sorted(rng.sample(range(0, rng.choice([300, 900])), n)))
        v = (v / 4. if np.dtype(dt).kind == 'f' and q[0] == 'days' and rng.random() < .4 else v).astype('i4' if np.dtype(dt).itemsize < 4 or dt == 'f4' and m > 90000 else dt)
    if rng.random() < .3: at.update({k: w for k, w in atts(rng, .4, False).items() if k not in ('long_name',)})
    return v, at, q
def fileof(rng, tmp, k):
    """-> (path, description)"""
    fmt = rng.choice(['NETCDF3_CLASSIC', 'NETCDF4', 'NETCDF3_64BIT_OFFSET', 'NETCDF4_CLASSIC', 'NETCDF4'])
    tys = ['f8', 'f8', 'f4', 'i4', 'i2', 'i1'] + (['i8', 'u1', 'u2', 'u4'] if fmt == 'NETCDF4' else [])
    path = '%s/o%d.nc' % (tmp, k)
    dims = {}
    for d in rng.sample(DN, rng.randint(0, 4)):
        if any(d.lower() == e.lower() for e in dims): continue
        dims[d] = rng.choice([1, 2, 3, 3, 4, 4, 5])
    rec = rng.choice(list(dims)) if dims and rng.random() < .3 else None
    V = []      # (name, type, dims, values, atts, q, text)
    for d in dims:
        r = rng.random()
        if r < .72:
            v, at, q = coordinate(rng, d, dims[d], tys); V.append([d, v.dtype, [d], v, at, q, None])
            tied = at.get('standard_name', '').startswith('atmos') and rng.random() < .8
            if tied:
                pre = d + '_' if rng.random() < .6 else ''
                if not (pre == '' and any(x[0] in 'AB' for x in V)):
                    for a in 'AB': V.append([pre + a, np.dtype('f8'), [d], np.array([quart(rng, 'f8') for _ in range(dims[d])]), {}, None, None])
                    if rng.random() < .7: at['ancillary_variables'] = ' '.join(pre + a for a in 'AB')
            elif rng.random() < .15 and 'ancillary_variables' not in at and at.get('calendar') != 'julian':
                V.append([d + '_w', np.dtype('f8'), [d], np.array([quart(rng, 'f8') for _ in range(dims[d])]), {}, None, None]); at['ancillary_variables'] = d + '_w'
        elif r < .8 and len(dims) > 1:
            o = rng.choice([e for e in dims if e != d]); dd = rng.choice([[o], [d, o], [o, d], []]); dd = sorted(dd, key=lambda e: e != rec) if fmt != 'NETCDF4' else dd
            V.append([d, np.dtype('f8'), dd, np.array([quart(rng, 'f8') for _ in range(int(np.prod([dims[e] for e in dd], dtype=int)))]), {}, None, None])
    n0 = len(V); used = {x[0] for x in V} | set(dims)
    aux1 = []       # 1-D arrays that others may point to
    for d in dims:
        if rng.random() < .25:
            for nm in rng.sample(['elev', 'site_lat', 'code', 'q_name'], rng.randint(1, 2)):
                if nm in used: continue
                used.add(nm)
                if nm == 'q_name':
                    ln = rng.randint(5, 8); dims2 = 'q_strlen'
                    w = [rng.choice(['ab', 'cde', 'f g', '']) + str(i) for i in range(dims[d])]
                    V.append([nm, np.dtype('S1'), [d, (dims2, ln)], w, {'cf_role': 'timeseries_id'} if rng.random() < .5 else atts(rng, .3, False), None, 'q']); aux1.append(('q', d)); continue
                V.append([nm, np.dtype('f8'), [d], np.array([quart(rng, 'f8') for _ in range(dims[d])]), rng.choice([{}, {'units': 'degrees_north'}]), None, None]); aux1.append((nm, d))
    for nm in rng.sample(['T', 'U', 'ps', 'w', 'Q2', 'temp', 'mask', 'S', 'A', 'weights', 'x_name'], rng.randint(1, 4)):
        if nm in used: continue
        used.add(nm)
        dt = np.dtype(rng.choice(tys)); dd = rng.sample(list(dims), rng.randint(0, min(3, len(dims))))
        if rec in dd and not fmt == 'NETCDF4': dd = [rec] + [e for e in dd if e != rec]
        big1 = False; hi = 100 if dt.itemsize == 1 else 400
        sz = int(np.prod([dims[e] for e in dd], dtype=int))
        v = np.array([quart(rng, dt, hi) for _ in range(sz)])
        if dt.kind == 'u': v = abs(v)
        if dt.itemsize >= 4 and dt.kind in 'iu' and rng.random() < .4: v = v * 1000 + 16777217; big1 = True
        bigf = dt == 'f8' and rng.random() < .3
        if bigf: v = v + 2.**19 - 1 + .125
        v = v.astype(dt); at = {}
        if dt.kind == 'f' and rng.random() < .2 and sz: v[rng.randrange(sz)] = np.nan
        if rng.random() < .5: at['units'] = rng.choice(['m', 'K', '', 'hPa', 'days since 2000-01-01', 'degrees_north'])
        if rng.random() < .4: at['standard_name'] = rng.choice(['air_temperature', 'latitude', 'time'])
        if rng.random() < .5 and sz:
            for f in rng.sample(['_FillValue', 'missing_value', 'FillValue'], rng.choice([1, 1, 1, 2])):
                x = v[rng.randrange(sz)] if rng.random() < .7 else dt.type(rng.choice([0, 99, -99 if dt.kind != 'u' else 9]))
                if x == x: at[f] = dt.type(x) if f == '_FillValue' or rng.random() < .6 else float(x)
        if not bigf and rng.random() < .3: at['scale_factor'] = rng.choice([2., -1., 4] if big1 else [.5, 2., .25, -1., np.float32(.5), 4])
        if not bigf and rng.random() < .3: at['add_offset'] = rng.choice([10., 0., 3] if big1 else [10., -2.5, np.float32(100), 0., 3])
        at.update({k: w for k, w in atts(rng, .3, False).items()})
        refs = [a for a, d in aux1 if d in dd]
        if refs and rng.random() < .7: at[rng.choice(['coordinates', 'ancillary_variables'])] = ' '.join(rng.sample(refs, rng.randint(1, len(refs))) + (['nowhere'] if rng.random() < .1 else []))
        V.append([nm, dt, dd, v, at, None, None])
    rng.shuffle(V)
    gat = atts(rng, .5, False)
    with nc.Dataset(path, 'w', format=fmt) as f:
        alld = [(d, l) for d, l in dims.items()]
        alld += [e for e in {x[2][-1] for x in V if x[6]}]
        for d, l in alld: f.createDimension(d, None if d == rec else l)
        for x in V:
            dd = [e if isinstance(e, str) else e[0] for e in x[2]]
            v = f.createVariable(x[0], x[1], dd, fill_value=x[4].get('_FillValue'))
            v.set_auto_maskandscale(False)
            for kk, w in x[4].items():
                if kk != '_FillValue': v.setncattr(kk, w)
            vals = x[3]
            if x[6]: vals = np.array([list(s.ljust(x[2][-1][1], '\0')) for s in vals], 'S1')
            x.append(np.asarray(vals)); 
            if x[7].size: v[...] = x[7].reshape([dims[e] if e in dims else x[2][-1][1] for e in dd])
        f.setncatts(gat)
    fv = []; order = {}
    for x in V:
        dd = [e if isinstance(e, str) else e[0] for e in x[2]]
        for e in dd: order[e] = 1
        at = encatts(x[4], rat, x[0] if dd == [x[0]] else '')
        for r in at:
            if r['t'] == 'q' and x[5]: r['v'] = [dict(r=x[5][0], d=x[5][2])]
            elif r['t'] == 'q' and dd == [x[0]]: r['t'] = 's'; r['v'] = r['v'] * 2
        fv.append(dict(n=x[0], b=x[6] or '', t=np.dtype(x[1]).name.replace('bytes8', 'bytes8'), d=dd, v=nums(x[7]), sv=[[s] for s in x[3]] if x[6] else [], at=at))
    return path, dict(dims=[dict(n=d, lo=d.lower(), l=l) for d, l in alld if d in order], vars=fv, at=encatts(gat, rat)), dims
NEW = ['new1', 'new2', 'Foo', 'bar_3']
def options(rng, f, dims):
    """-> (keyword arguments, description)"""
    kw = {}; o = dict(cf=True, ov=[], dt=[], vl=[], nm=[])
    if rng.random() < .2: kw['cfmeta'] = False; o['cf'] = False
    coords = {v['n'] for v in f['vars'] if v['d'] == [v['n']]}
    used = {d for v in f['vars'] for d in v['d']}
    if rng.random() < .3:
        ov = {}
        for v in rng.sample(f['vars'], min(len(f['vars']), rng.randint(1, 2))):
            if v['b'] or any(r['k'] in ('_FillValue', 'missing_value', 'FillValue', 'scale_factor', 'add_offset') and r['t'] != 'n' for r in v['at']): continue
            if any(r['t'] == 'q' for r in v['at']): continue
            dt = np.dtype(rng.choice(['f8', 'i4'])); sh = [dims[d] for d in v['d']]; n = int(np.prod(sh, dtype=int))
            w = (np.array(rng.sample(range(200), n)) if n <= 200 else np.arange(n)).astype(dt).reshape(sh)
            ov[v['n']] = w if rng.random() < .7 else w.tolist(); w = np.asarray(ov[v['n']])
            o['ov'].append(dict(n=v['n'], t=w.dtype.name, v=nums(w)))
        if rng.random() < .1: ov['nothing'] = [1]
        if ov: kw['value_override'] = ov
    if rng.random() < .35 and used & set(dims):
        dt = {}
        for d in rng.sample(sorted(used & set(dims)), rng.randint(1, min(2, len(used & set(dims))))):
            n = dims[d]; w = rng.choice(['cls', 'ins', 'tup', 'fun'])
            K = rng.choice([A.Lat, A.Lon, A.Pres, A.XAxis, A.ZAxis, A.TAxis, A.Height])
            vals = np.arange(1, n + 1) * rng.choice([10, 2.5])
            c = [v for v in f['vars'] if v['n'] == d and v['d'] == [d]]
            c2 = [r for r in o['ov'] if r['n'] == d and c]
            own = c2[0]['v'] if c2 else c[0]['v'] if c else [[i, 1] for i in range(n)]
            if w == 'cls':
                dt[d] = K; g = dict(n=d, k=K.__name__, v=[], x=[], at=[], tm=[])
            elif w == 'ins':
                nm = rng.choice([d, d, 'ins_' + d]); a = K(vals, atts={'note': 'mine'} if rng.random() < .5 else {}).rename(nm)
                dt[d] = a; g = encax(a, nums)
            elif w == 'tup':
                nm = rng.choice([d, d, 'tup_' + d]); arg = dict(name=nm)
                if rng.random() < .5: arg['values'] = vals
                if rng.random() < .3: arg['atts'] = {'note': 'mine'}
                dt[d] = (K, arg)
                if rng.random() < .3 and c and all(q[1] == 1 for q in own):
                    arg = dict(startdate=dict(year=2001, month=2, day=3), units='days', name=nm); dt[d] = (ta.StandardTime, arg)
                g = encax(dt[d][0](**dict(dict(values=[q[0] / q[1] for q in own]), **arg)), nums)
            else:
                nm = rng.choice([d, 'fun_' + d])
                dt[d] = lambda ax, K=K, nm=nm: K(np.asarray(ax.values) * 2, name=nm)
                g = encax(K([2. * q[0] / q[1] for q in own], name=nm), nums)
            if g['k'] == 'time': g['tm'] = dict(g['tm'])
            g['x'] = [r for r in g['x'] if not (K is A.Lat and r['a'] == 'weights')]
            o['dt'].append(dict(n=d, w=w, ax=g))
        kw['dimtypes'] = dt
    names = [v['n'] for v in f['vars'] if v['d'] != [v['n']] and not v['b']]
    if rng.random() < .35 and names:
        vl = rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < .1: vl = vl + ['nothing']
        kw['varlist'] = vl; o['vl'] = list(vl)
    if rng.random() < .35:
        nm = {}
        for x in rng.sample(names + sorted(set(dims) & used), rng.randint(1, 2) if len(names) + len(set(dims) & used) > 1 else 0):
            if x in names and x in dims: continue        # a name for both
            if any(d['n'] == x and d['ax']['n'] != x for d in o['dt']): continue    # already has a new name
            t = rng.choice(NEW + [x])
            if t in nm.values(): continue
            nm[x] = t
        if rng.random() < .1: nm['nothing'] = 'n0'
        if nm: kw['namemap'] = nm; o['nm'] = [dict(o=a, n=b) for a, b in nm.items()]
    return kw, o
def opened(T, rng, path, f, dims):
    kw, o = options(rng, f, dims)
    mod = rng.choice(['netcdf4', 'netcdf4', 'netcdf', '']);
    if mod: kw['format'] = mod if rng.random() < .5 else MODS[mod]
    R, err = attempt(lambda: pyg.open(path, **kw), 30)
    D = e2 = None
    if err is None:
        def all_():
            d = limited(rng, lambda: [np.asarray(v.get()) for v in R.vars])
            return encds(R, True, d, nums)
        D, e2 = attempt(all_, 30)
    T.emit(op='open', f=f, o=o, obs=err or e2 or D, opt=str(kw)[:300])
    if err or e2: return
    for _ in range(2):
        if not R.vars: break
        v = rng.choice(list(R.vars))
        if v.dtype.kind in 'SUO': continue
        if any(a is not b and isinstance(a, type(b)) and type(b).__name__ not in ('NamedAxis', 'DummyAxis', 'NCDim') for a in v.axes for b in v.axes): continue   # of related kinds
        rq, key = zip(*[sub(rng, n) for n in v.shape]) if v.naxes else ((), ())
        def go():
            if rng.random() < .5: return limited(rng, lambda: np.asarray(v[tuple(key)]))
            return limited(rng, lambda: np.asarray(v.slice[tuple(key)].get()))
        a, e3 = attempt(go, 20)
        T.emit(op='ask', f=f, o=o, n=str(v.name), sh=list(v.shape), rq=[list(map(int, r)) for r in rq], obs=e3 or dict(k='ok', dat=nums(a)))
def replay(T, rng, g, tmp, k):
    """the file that the specification would write for a dataset"""
    f = g['f']; path = '%s/g%d.nc' % (tmp, k); dims = {d['n']: d['l'] for d in f['dims']}
    for v in f['vars']:     # text is as long as its dimension
        if v['b']:
            dims[v['d'][-1]] = max(len(s) for s in v['sv'])
    for d in f['dims']: d['l'] = dims[d['n']]
    def at(v):
        out = {}
        for r in v['at']:
            if r['t'] == 's': out[r['k']] = r['v'][0]
            elif r['t'] == 'w': out[r['k']] = ' '.join(w['w'] for w in r['v'])
            elif r['t'] == 'q': out[r['k']] = '%s since %d-%d-%d %02d:%02d:%02d' % ((r['v'][0]['r'],) + tuple(r['v'][0]['d']))
            else: out[r['k']] = np.array([num(x) for x in r['v']])
        return out
    for r in f['at'] + [r for v in f['vars'] for r in v['at']]:
        if r['t'] == 's': r['v'] = [r['v'][0], r['v'][0].lower()]
    with nc.Dataset(path, 'w', format=rng.choice(['NETCDF4', 'NETCDF3_CLASSIC'])) as h:
        for d in f['dims']: h.createDimension(d['n'], d['l'])
        for v in f['vars']:
            q = h.createVariable(v['n'], 'S1' if v['b'] else 'f8', v['d']); q.setncatts(at(v))
            if v['b']:
                c = np.array([list(s.ljust(dims[v['d'][-1]], '\0')) for s in v['sv']], 'S1'); q[...] = c
                v['v'] = nums(c); v['sv'] = [[s] for s in v['sv']]
            else: q[...] = gvals(v['v']).reshape([dims[d] for d in v['d']])
        h.setncatts(at(f))
    for _ in range(2): opened(T, rng, path, f, {d: n for d, n in dims.items() if not d.endswith('_strlen')})
    os.remove(path)
def drive(T, rng, tier, shard, nsh):
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix='c16_'); T.emit(op='begin')
    try:
        for k, g in enumerate(behaviours(shard, nsh, 25 if tier == 'quick' else None)): replay(T, rng, g, tmp, k)
        for k in range(250 if tier == 'thorough' else 45):
            path, f, dims = fileof(rng, tmp, k)
            for _ in range(3): opened(T, rng, path, f, dims)
            os.remove(path)
    finally: shutil.rmtree(tmp)
if __name__ == '__main__': main(drive)
