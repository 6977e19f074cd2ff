from cal import *
from pygeode import timeticker as tt
GEN = dict(year=tt.YearTickGen, month=tt.MonthTickGen, season=tt.SeasonTickGen, monthday=tt.DayOfMonthTickGen, day=tt.DayTickGen, hour=tt.HourTickGen, minute=tt.MinuteTickGen, second=tt.SecondTickGen)
LOC = dict(year=tt.YearLocator, month=tt.MonthLocator, monthday=tt.DayOfMonthLocator, day=tt.DayLocator, hour=tt.HourLocator, minute=tt.MinuteLocator, second=tt.SecondLocator)
MULT = dict(year=[1, 2, 3, 5, 10, 20, 30, 50, 100, 200, 300, 500], month=[1, 2, 3, 4, 6, 12], season=[1, 2, 4], monthday=[1, 2, 3, 5, 7, 10, 14, 15, 20], day=[1, 2, 3, 5, 10, 30, 100, 1000],
            hour=[1, 2, 3, 6, 12, 5, 7, 10], minute=[1, 2, 3, 5, 10, 15, 30, 7, 25], second=[1, 2, 3, 5, 10, 15, 30, 13, 40])
# longest interval (seconds) the specification enumerates per unit
SPAN = dict(year=86400 * 366 * 300, month=86400 * 366 * 6, season=86400 * 366 * 8, monthday=86400 * 150, day=86400 * 400, hour=86400 * 6, minute=86400, second=600)
NAMES = {'YearTickGen': 'year', 'MonthTickGen': 'month', 'SeasonTickGen': 'season', 'DayOfMonthTickGen': 'monthday', 'DayTickGen': 'day', 'HourTickGen': 'hour', 'MinuteTickGen': 'minute', 'SecondTickGen': 'second'}

class View:
    def __init__(self, a, b): self.w = (a, b)
    def get_view_interval(self): return self.w

def pick(rng, cal, unit, start, ax, span):
    """an interval: ends on ticks and boundaries of units as often as not; whole seconds from the start date"""
    def end(base):
        k = rng.random()
        if k < .35 or cal == 'yearless' and k < .6: return base + rng.randint(-span // 3, span // 3)
        d = ax.val_as_date(float(base) / UF[ax.units], allfields=True)
        f = {q: int(v) for q, v in d.items()}
        if cal != 'yearless' and 'season' not in f:
            if unit in ('year',) or rng.random() < .2: f['month'] = rng.choice([1, 12]); f['day'] = rng.choice([1, 31 if f['month'] == 12 and cal != '360' else 30])
            elif unit in ('month', 'monthday', 'season') or rng.random() < .3: f['day'] = rng.choice([1, 28, mlen(cal, f['year'], f['month']), mlen(cal, f['year'], f['month'])])
        f['hour'] = rng.choice([0, 0, 23, 12]); f['minute'] = rng.choice([0, 0, 59, 30]); f['second'] = rng.choice([0, 0, 59, 1])
        f.pop('season', None)
        if cal == 'yearless': f = {q: v for q, v in f.items() if q in F6[2:]}
        return int(round(float(super_asval(ax, f)) * UF[ax.units]))
    a = end(rng.choice([0, rng.randint(-span, span)]))
    ln = rng.choice([span, span // 4, span // 20, span // 100]) + 1
    b = end(a + rng.randint(0, ln))
    if b < a: a, b = b, a
    if b - a > span: b = a + span
    return a, b
def super_asval(ax, f): return ta.CalendarTime.date_as_val(ax, f)

def one(T, rng, cal, unit, mult=None):
    mult = mult or rng.choice(MULT[unit])
    start = rand_date(rng, cal, rng.random() < .5)
    if cal == 'yearless': start[2] = rng.randint(-300, 300)
    cls = CALS[cal] if unit != 'season' else {'std': ta.SeasonalStandardTime, '365': ta.SeasonalModelTime365}[cal]
    au = rng.choice(list(UF))
    ax = cls(values=[0, 1], startdate=as_dict(start), units=au)
    if rng.random() < .1: start = start
    a, b = pick(rng, cal, unit, start, ax, SPAN[unit])
    fr = rng.random() < .25      # between two seconds
    va, vb = (a + (.25 if fr else 0)) / UF[au], (b + (.25 if fr else 0)) / UF[au]
    spec = dict(cal=cal, start=[x if x != NOF else (0, 1, 1)[i] for i, x in enumerate(start)], unit=unit, mult=mult, a=[(a + fr) // 86400, (a + fr) % 86400], b=[(b + fr) // 86400, (b + fr) % 86400])
    gen = None
    def go():
        cnt = -1
        if unit in LOC and rng.random() < .25:
            L = LOC[unit](ax, mult); L.axis = View(va, vb); t = L()
        else:
            g = GEN[unit](ax, rng.choice([[mult], MULT[unit]]))
            if rng.random() < .5:
                n = g.nticks(va, vb, mult); cnt = int(round(float(n))) if abs(float(n) - round(float(n))) < 1e-6 else 999999
            t = list(g.ticks(va, vb, mult))
        return dict(k='ok', t=inst([float(x) for x in t], au), n=cnt)
    r, err = attempt(go)
    T.emit(op='ticks', obs=err or r, tag='count' if r and r['n'] >= 0 else '', **spec)
    if rng.random() < .3 and unit != 'season':
        def go():
            g = GEN[unit](ax, [mult])
            d = g.get_tick_prior(vb)
            f = [int(d.get(k, D)) for k, D in zip(F6, (0, 1, 1, 0, 0, 0))]
            return dict(k='ok', d=f)
        r, err = attempt(go)
        T.emit(op='prior', obs=err or r, **spec)

def auto(T, rng, cal, seasonal=False):
    start = rand_date(rng, cal)
    cls = CALS[cal] if not seasonal else {'std': ta.SeasonalStandardTime, '365': ta.SeasonalModelTime365}[cal]
    au = rng.choice(list(UF))
    ax = cls(values=[0, 1], startdate=as_dict(start), units=au)
    L = ax.locator()
    for _ in range(3):       # the locator keeps its choice from one view to the next
        unit = rng.choice([NAMES[type(g).__name__] for g in ax.tick_generators])
        a, b = pick(rng, cal, unit, start, ax, SPAN[unit])
        if b - a < 10: b = a + 10
        chosen = {}
        def go():
            L.axis = View(a / UF[au], b / UF[au])
            return dict(k='ok', t=inst([float(x) for x in L()], au))
        r, err = attempt(go)
        gens = [dict(unit=NAMES[type(g).__name__], mult=m) for g in ax.tick_generators for m in g.mults]
        # only units the specification can enumerate over this span
        g = [x for x in gens if b - a <= SPAN[x['unit']]]
        if len(g) < len(gens) and r and len(r['t']) > 60: continue
        T.emit(op='auto', cal=cal, start=[x if x != NOF else (0, 1, 1)[i] for i, x in enumerate(start)], a=[a // 86400, a % 86400], b=[b // 86400, b % 86400], gens=g, obs=err or r)

def drive(T, rng, tier, shard, nsh):
    for i in range(60 if tier == 'quick' else 700):
        if i % 10 == 0: T.emit(op='begin')
        for unit in ('year', 'month', 'monthday', 'hour', 'minute', 'second'):
            one(T, rng, rng.choice(['std', 'std', '365', '360']), unit)
        one(T, rng, rng.choice(['std', '365']), 'season')
        for unit in ('day', rng.choice(['hour', 'minute', 'second'])): one(T, rng, 'yearless', unit)
        if i % 3 == 0: auto(T, rng, rng.choice(['std', '365', '360', 'yearless']))
        if i % 12 == 0: auto(T, rng, rng.choice(['std', '365']), True)
if __name__ == '__main__': main(drive)
