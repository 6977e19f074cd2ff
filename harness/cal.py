"""Calendars: dates as lists of six components (NOF = not given), instants as [day, second]."""
from base import *
from pygeode import timeaxis as ta, timeutils as tu
NOF = -99999
F6 = ('year', 'month', 'day', 'hour', 'minute', 'second')
CALS = dict(std=ta.StandardTime, **{'365': ta.ModelTime365, '360': ta.ModelTime360}, yearless=ta.Yearless)
UF = dict(seconds=1, minutes=60, hours=3600, days=86400)
CUM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]

def mlen(cal, y, m):
    if cal == '360': return 30
    return CUM[m - 1] + (1 if m == 2 and cal == 'std' and y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 0)

def rand_year(rng):
    return rng.choice([rng.randint(1890, 2110), rng.randint(1890, 2110), rng.choice([1996, 1999, 2000, 2001, 2004, 2100, 1900, 1600, 400, 100, 4]), rng.randint(-450, 3000), rng.choice([-1, 0, 1, 2, -4, -100, -400, 9999])])

def rand_date(rng, cal, sec=True):
    """a valid date, biased to the ends of months, days and years"""
    if cal == 'yearless': y, m, d = NOF, NOF, rng.choice([0, 1, 2, rng.randint(-40, 400), rng.randint(-40000, 40000)])
    else:
        y, m = rand_year(rng), rng.choice([1, 2, 2, 3, 12, rng.randint(1, 12)])
        n = mlen(cal, y, m)
        d = rng.choice([1, n, max(n - 1, 1), rng.randint(1, n)])
    if not sec or rng.random() < .3: t = [0, 0, 0]
    else: t = [rng.choice([0, 23, 12, rng.randint(0, 23)]), rng.choice([0, 59, 30, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)])]
    return [y, m, d] + t

def as_dict(f): return {k: v for k, v in zip(F6, f) if v != NOF}
def from_dict(d):
    def one(v):
        a = np.asarray(v).ravel(); return int(a[0])
    return [one(d[k]) if k in d else NOF for k in F6]
def rows(d, n):
    """dictionary of arrays -> list of dates"""
    for k in d: assert len(np.asarray(d[k]).ravel()) == n, 'length of field'
    return [[int(np.asarray(d[k]).ravel()[i]) if k in d else NOF for k in F6] for i in range(n)]
def arrays(fs, keys=None, dt='int32'):
    return {k: np.array([f[i] for f in fs], dt) for i, k in enumerate(F6) if fs[0][i] != NOF and (keys is None or k in keys)}
def inst(v, unit):
    """axis values -> instants relative to the start date"""
    out = []
    for x in np.asarray(v, float).ravel().tolist():
        s = x * UF[unit]
        r = round(s) if s == s and abs(s) < 1e13 else 10**13
        if abs(s - r) > 1e-3 * UF[unit] / 60 + 2e-4: out.append([BADI, 0]); continue
        out.append([int(r // 86400), int(r % 86400)])
    return out
def rand_off(rng, unit, whole=False):
    """offset in seconds"""
    k = rng.random()
    if unit == 'seconds': s = rng.choice([rng.randint(-200, 200), rng.randint(-200000, 200000), rng.randint(-10**9, 10**9)])
    elif k < .25: s = rng.randint(-3, 3) * UF[unit]
    elif k < .6: s = rng.randint(-800, 800) * 86400
    elif k < .8: s = rng.randint(-200000, 200000) * 86400
    else: s = rng.randint(-10**6, 10**6)
    if whole: s -= s % UF[unit]
    elif rng.random() < .4: s += rng.choice([1, -1, 3600, 43200, 86399, 61])
    return s
def values(rng, secs, unit):
    """what a user passes: floats, or integers where the offsets are whole"""
    v = np.array(secs, 'float64') / UF[unit]
    if all(s % UF[unit] == 0 for s in secs) and rng.random() < .6: v = np.array([s // UF[unit] for s in secs], rng.choice(['int64', 'int32']) if max([abs(s // UF[unit]) for s in secs] or [0]) < 2**31 else 'int64')
    return v
def pairs(secs): return [[s // 86400, s % 86400] for s in secs]
def dummy(cal, start=None): return CALS[cal](values=[0], units='days', startdate=start or (dict(day=1) if cal == 'yearless' else dict(year=2001)))
