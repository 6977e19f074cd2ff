"""Shared driver machinery: encoding of observations, guarded calls, trace output.

Drivers run under /opt/venv/bin/python with PYTHONPATH pointing at a scratch
build of /repo.  A driver module defines  drive(T, rng, tier, shard, nshards).
"""
import sys, os, json, signal, random, warnings, traceback
import faulthandler
from fractions import Fraction
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')

SC = 8
IRR = [1, -1]          # "no small rational near this number"
BADI = 999999999
MAXD = 5040

def rat(x, maxd=MAXD, rel=1e-9):
    """nearest small rational of a float; specials as in Rat.tla"""
    if isinstance(x, (bool, np.bool_)): return [int(x), 1]
    if isinstance(x, (int, np.integer)):
        return [int(x), 1] if abs(int(x)) < 2**30 else IRR
    try: x = float(x)
    except Exception: return IRR
    if x != x: return [0, 0]
    if x in (float('inf'), float('-inf')): return [1 if x > 0 else -1, 0]
    if x == int(x) and abs(x) < 2**30: return [int(x), 1]
    if abs(x) > 2**20: return IRR
    f = Fraction(x).limit_denominator(maxd)
    if abs(float(f) - x) <= rel * max(abs(x), 1e-3) and abs(f.numerator) < 2**30:
        return [f.numerator, f.denominator]
    return IRR

def rats(a, maxd=MAXD, rel=None):
    a = np.asarray(a)
    if rel is None: rel = 1e-9 if a.dtype.itemsize >= 8 or a.dtype.kind in 'iub' else 3e-6
    if a.dtype.kind == 'f' and a.dtype.itemsize < 8 and maxd > 64: maxd = 64
    return [rat(x, maxd, rel) for x in a.ravel().tolist()]

def auxrat(x):
    if isinstance(x, (str, bytes, np.str_)): return [1, -2]
    if isinstance(x, (float, np.floating)) and x == x and abs(x) < 1000:
        r = rat(x, 720, 1e-6)
        if r != IRR: return r
        f = Fraction(round(x * 1000000), 1000000)
        return [f.numerator, f.denominator]
    return rat(x)

def scaled(x):
    x = float(x) * SC
    return int(round(x)) if x == x and abs(x) < 2**30 and abs(x - round(x)) < 1e-6 * max(1, abs(x)) * 1e-2 + 1e-7 else BADI

def enc_axis(ax):
    x = []
    for k in sorted(ax.auxarrays):
        x.append(dict(a=str(k), v=[auxrat(e) for e in np.asarray(ax.auxarrays[k]).ravel().tolist()]))
    return dict(k=type(ax).__name__, n=str(ax.name), v=[scaled(e) for e in np.asarray(ax.values).ravel().tolist()], x=x)

def enc_arr(v, maxd=MAXD):
    """full observation of a variable: labels and values"""
    a = np.asarray(v.get())
    return dict(k='arr', ax=[enc_axis(x) for x in v.axes], sh=list(a.shape), dat=rats(a, maxd), msg='')

def enc_vals(a, maxd=MAXD):
    a = np.asarray(a)
    return dict(k='vals', ax=[], sh=list(a.shape), dat=rats(a, maxd), msg='')

class Hang(Exception): pass
def _alarm(s, f): raise Hang('call did not return')
signal.signal(signal.SIGALRM, _alarm)
faulthandler.enable()

class Timeout:
    def __init__(self, s=20): self.s = s
    def __enter__(self): signal.alarm(self.s)
    def __exit__(self, *a): signal.alarm(0)

def attempt(fn, limit=20):
    """-> (result, None) or (None, error observation)"""
    try:
        with Timeout(limit): r = fn()
        return r, None
    except Hang: return None, dict(k='hang', ax=[], sh=[], dat=[], msg='hang')
    except (KeyboardInterrupt, SystemExit): raise
    except BaseException as e:
        return None, dict(k='err', ax=[], sh=[], dat=[], msg=(type(e).__name__ + ': ' + str(e))[:160])

class Trace:
    def __init__(self, path):
        self.f = open(path, 'w'); self.n = 0
        self.h = 0
    def emit(self, **ev):
        self.f.write(json.dumps(ev) + '\n'); self.n += 1
        self.f.flush()
    # registry-style events (one registry entry per event)
    def begin(self, **kw):
        self.h = 0
        self.emit(op='begin', src=[], tag='', obs=dict(k='none', ax=[], sh=[], dat=[], msg=''), **kw)
    def step(self, op, src, obs, tag='', **args):
        self.emit(op=op, src=src, tag=tag, obs=obs, **args)
        self.h += 1
        return self.h

def behaviours(shard, nshards, limit=None):
    """behaviours printed by TLC from the specification: this shard's share"""
    p = os.environ.get('GEN')
    if not p or not os.path.exists(p): return []
    out = [json.loads(x) for i, x in enumerate(open(p)) if i % nshards == shard]
    return out[:limit] if limit else out

def main(drive):
    out, seed, tier, shard, nshards = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    T = Trace(out)
    rng = random.Random('%d/%d' % (seed, shard))
    np.random.seed((seed * 1000 + shard) % (2**31))
    drive(T, rng, tier, shard, nshards)
    T.f.close()
    # drivers may use pygeode's global settings: end without interpreter teardown noise
    sys.stdout.flush(); os._exit(0)
