from gen import *
import operator, pygeode.ufunc as U
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '%': operator.mod, '**': operator.pow,
       '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne,
       'minimum': U.minimum, 'maximum': U.maximum, 'vprod': U.vprod, 'vsum': U.vsum, 'clip': U.clip}
TABLE = dict(exp=[0], cos=[0], cosh=[0], sin=[0], tan=[0], sinh=[0], tanh=[0], arcsin=[0], arctan=[0], arcsinh=[0], arctanh=[0],
             arccos=[1], arccosh=[1], log=[1], log10=[1, 10, 100, .1], cosd=[0, 60, -60, 120, 180], sind=[0, 30, -30, 90, 150, 270],
             tand=[0, 45, -45, 135], arccosd=[1, 0, .5, -1], arctand=[0, 1, -1], arcsind=[0], sqrt=[0, 1, 4, 9, .25, 144])
PLAIN = ['abs', 'neg', 'pos', 'sign', 'trunc', 'nan_to_num', 'real', 'imag', 'conj']

def derived_axis(rng, a):
    """an axis related to a -> (axis, which operand is the smaller)"""
    n = len(a)
    c = rng.choice(['same', 'same', 'copy', 'subset', 'subset', 'superset', 'perm', 'parent', 'overlap', 'disjoint'])
    istime = isinstance(a, TA.Time)
    if c == 'same': return a
    if c == 'copy': return a.slice[list(range(n))] if rng.random() < .5 else a.rename(a.name)
    if c == 'perm': return a.slice[rng.sample(range(n), n)]
    if c == 'subset': return a.slice[rng.sample(range(n), rng.randint(1, n))]
    if c == 'parent' and type(a) in (A.Lat, A.Lon, A.Pres, A.Hybrid):
        return {A.Lat: A.YAxis, A.Lon: A.XAxis, A.Pres: A.ZAxis, A.Hybrid: A.ZAxis}[type(a)](a.values)
    if istime or isinstance(a, (A.Index, A.Hybrid)) or type(a) is A.YAxis: return a
    top = float(max(a.values))
    kw = dict(name=a.name) if isinstance(a, A.NamedAxis) else {}
    if c == 'superset': v = list(a.values) + [top + 1, top + 3]
    elif c == 'overlap': v = list(a.values[1:]) + [top + 2]
    else: v = [top + 1 + i for i in range(rng.randint(1, 3))]
    if rng.random() < .5: rng.shuffle(v)
    return type(a)(v, **kw)

def partner(rng, v):
    axs = []
    for a in v.axes:
        if rng.random() < .7: axs.append(derived_axis(rng, a))
    fam = lambda a: 'z' if isinstance(a, A.ZAxis) else 't' if isinstance(a, A.TAxis) else 'x' if isinstance(a, A.XAxis) else 'y' if isinstance(a, A.YAxis) else 'i' if isinstance(a, A.Index) else 'n' + a.name
    have = set(fam(a) for a in v.axes)
    for a in pick_axes(rng, rng.choice([0, 0, 1]), maxn=3):
        if fam(a) not in have: axs.append(a)
    rng.shuffle(axs)
    return axs

def drive(T, rng, tier, shard, nshards):
    # operand pairs generated by TLC from MC_Fun
    for g in behaviours(shard, nshards, 70 if tier == 'quick' else None):
        T.begin()
        vs = []
        for axs in (g['a'], g['b']):
            v = make_var(rng, [dec_axis(x) for x in axs])
            vs.append((T.step('new', [], enc_arr(v)), variant(rng, v)))
        for x, y in ((0, 1), (1, 0)):
            f = rng.choice(['+', '-', '<', 'maximum'])
            h, r = observe(T, 'fun', [vs[x][0], vs[y][0]], lambda: OPS[f](vs[x][1], vs[y][1]), f=f,
                           args=[dict(h=vs[x][0], c=[0, 1]), dict(h=vs[y][0], c=[0, 1])])
    n = 130 if tier == 'quick' else 2500
    for _ in range(n):
        T.begin()
        a = make_var(rng, pick_axes(rng, rng.choice([0, 1, 2, 2, 3]), maxn=4), nan=rng.choice([0, 0, .1]), dtype=rng.choice(['d', 'd', 'd', 'i']))
        b = make_var(rng, partner(rng, a), nan=rng.choice([0, 0, .1]), dtype=rng.choice(['d', 'd', 'd', 'i']), lo=rng.choice([-9, 1]), hi=9)
        ha = T.step('new', [], enc_arr(a)); hb = T.step('new', [], enc_arr(b))
        pool = [(ha, variant(rng, a)), (hb, variant(rng, b))]
        if rng.random() < .3:
            c = make_var(rng, partner(rng, a), lo=1, hi=9); hc = T.step('new', [], enc_arr(c)); pool.append((hc, c))
        ax = [(h, v) for h, v in pool if v.naxes]
        if ax and rng.random() < .2:
            h, v = rng.choice(ax); i = rng.randrange(v.naxes)
            x = v.axes[i]; pool.append((T.step('axvar', [h], enc_arr(x), i=i + 1), x))
        fresh = list(pool)
        for k in range(rng.randint(1, 4)):
            r = rng.random()
            if r < .15:
                f = rng.choice(PLAIN); h, v = rng.choice(pool)
                if f == 'trunc' and np.isnan(np.asarray(v.get(), float)).any(): continue
                if f in ('neg', 'pos', 'sign') and v.dtype == bool: continue
                fn = {'neg': operator.neg, 'pos': operator.pos, 'trunc': lambda z: z.__trunc__(), 'abs': rng.choice([abs, U.abs])}.get(f) or getattr(U, f)
                if rng.random() < .3 and hasattr(v, f): fn = lambda z, f=f: getattr(z, f)()
                h2, r2 = observe(T, 'fun1', [h], lambda: fn(v), f=f)
                if r2 is not None and r2.naxes: pool.append((h2, r2))
                continue
            if r < .75: f = rng.choice(['+', '-', '*', '+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=', 'minimum', 'maximum', '%', '**'])
            else: f = rng.choice(['vprod', 'vsum', 'clip'])
            m = 3 if f == 'clip' else rng.choice([2, 3, 3, 1]) if f in ('vprod', 'vsum') else 2
            args, enc, src = [], [], []
            for q in range(m):
                # denominators, exponents and modulus only from fresh small operands
                if f == '**' and q == 1:
                    e = rng.choice([0, 1, 2, 3, 2.0]); args.append(e); enc.append(dict(h=0, c=rat(e))); continue
                den = q == 1 and f in ('/', '%')
                if rng.random() < .25 and any(isinstance(z, Var) for z in args) or (rng.random() < .2 and q < m - 1):
                    e = rng.choice([1, 2, 3, 0.5, -2, 7, np.float64(1.5), np.int64(3)] + ([] if den else [0, 2.25]))
                    args.append(e); enc.append(dict(h=0, c=rat(e))); continue
                h, v = rng.choice(fresh if den or f in ('**',) else pool)
                args.append(v); enc.append(dict(h=h, c=[0, 1])); src.append(h)
            if not any(isinstance(z, Var) for z in args): continue
            if f in ('/', '%', '**') :
                # integer operands have their own division rules; keep zero divisors to fresh floating zeros
                if any(isinstance(z, Var) and z.dtype.kind in 'ib' for z in args) and f != '/': continue
                if f == '/' and isinstance(args[1], Var) and (args[1].dtype.kind == 'b' or (np.asarray(args[1].get()) == 0).any()): continue
                if f == '%' and isinstance(args[1], Var) and (np.asarray(args[1].get()) == 0).any(): continue
            if f in ('-', '+', '*', 'vsum', 'vprod', '**') and any(isinstance(z, Var) and z.dtype == bool for z in args): continue
            if f in ('==', '!=') and any(isinstance(z, A.Axis) for z in args): continue
            big = any(isinstance(z, Var) and z.size and np.nanmax(np.abs(np.nan_to_num(np.asarray(z.get(), float)))) > 900 for z in args)
            if big and f in ('*', 'vprod', '/', '**', '%'): continue
            fine = any(isinstance(z, Var) and z.dtype.kind == 'f' and (np.asarray(np.nan_to_num(z.get())) * 4 % 1 != 0).any() for z in args)
            if fine and f in ('/', '%', '**', '*', 'vprod'): continue
            if any(isinstance(z, np.generic) for z in args[:1]) and isinstance(args[-1], Var) and f in OPS and m == 2 and f not in ('minimum', 'maximum', 'vprod', 'vsum'):
                args = [z.item() if isinstance(z, np.generic) else z for z in args]
            h2, r2 = observe(T, 'fun', src or [ha], lambda: OPS[f](*args), f=f, args=enc)
            if r2 is not None and isinstance(r2, Var) and all(len(z) for z in r2.axes) and r2.size < 400: pool.append((h2, r2))
            if r2 is not None and isinstance(r2, Var) and r2.naxes and rng.random() < .3:
                es = [rand_ix(rng, len(z), ints=False) for z in r2.axes]
                h3 = observe(T, 'isel', [h2], lambda: r2.slice[tuple(es)], es=[enc_ix(e) for e in es])
    # functions defined by a table of exact values
    for f in sorted(TABLE):
        T.begin()
        a = pick_axes(rng, 2, maxn=3)
        sh = tuple(len(x) for x in a)
        v = Var(a, values=np.array([float(rng.choice(TABLE[f])) for _ in range(int(np.prod(sh)))]).reshape(sh), name='v')
        h = T.step('new', [], enc_arr(v)); w = LazyVar(v)
        observe(T, 'fun1', [h], (lambda: getattr(U, f)(w)) if rng.random() < .5 else (lambda: getattr(w, f)()), f=f)

if __name__ == '__main__': main(drive)
