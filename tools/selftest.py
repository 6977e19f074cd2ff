#!/usr/bin/env python3
"""selftest.py [ID ...]   negative controls: the specifications and the binding can fail.

1. Specifications: configurations with a broken rule must be refuted by TLC.
2. Binding: one shard of every driver is recorded against /repo; in sampled events one
   leaf of the observation is changed (number, flag, name), and the
   trace specification is run on the changed trace: an event which is still accepted is
   counted, by the place of the leaf, as not bound."""
import sys, os, json, random, tempfile, shutil, re
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
from checks import CHECKS
OBS = ('obs', 'res', 'st', 'after', 'out', 'log', 'outs', 'snap')
CONTROLS = [('MC_Heap', 'MC_Heap.cfg', r'Shares = \{[^}]*\}', 'Shares = {"n", "at", "pa", "v", "ax"}'),
            ('MC_Prog', 'MC_Prog.cfg', r'Careless = FALSE', 'Careless = TRUE'),
            ('MC_Meta', 'MC_Meta.cfg', r'Careless = FALSE', 'Careless = TRUE')]

def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items(): yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x): yield from leaves(v, path + (i,))
    elif not path or path[-1] not in ('k', 'msg', 'id', 'op'): yield path       # (the kind of the outcome and the text of an error)

def change(x, path, rng):
    for k in path[:-1]: x = x[k]
    k = path[-1]
    v = x[k]
    if isinstance(v, bool): x[k] = not v
    elif isinstance(v, str): x[k] = v + 'x'
    elif v in (0, 1): x[k] = 1 - v
    else: x[k] = v + 1 if abs(v) < 100 else v + 100      # (approximate values are scaled)

def one(pid, d, m, work, scratch, rng):
    out = os.path.join(work, pid + '.ndjson'); gen = os.path.join(work, pid + '.gen'); open(gen, 'w').close()
    cwd = tempfile.mkdtemp(dir=work)
    env = dict(os.environ, PYTHONPATH=scratch + ':' + os.path.join(HERE, 'harness'), HOME=cwd, MPLBACKEND='Agg', MPLCONFIGDIR=cwd, SCRATCH=cwd,
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8', GEN=gen, VERIF_TIER='quick', VERIF_SEED='1')
    check.sh([check.VENV, os.path.join(HERE, 'harness', d + '.py'), out, '1', 'quick', '0', '8'], env=env, cwd=cwd)
    lines = [json.loads(x) for x in open(out)]
    changed = {}
    for i, e in enumerate(lines):
        k = [k for k in e if k in OBS]
        if e.get('op') in ('begin', 'new', 'truth', 'var') or not k or rng.random() > 0.15: continue
        ls = [(q,) + p for q in k for p in leaves(e[q])]
        # choose the place first, so that long lists of values don't hide the rest
        if not ls: continue
        places = sorted(set(tuple(s for s in p if not isinstance(s, int)) for p in ls))
        pl = rng.choice(places)
        p = rng.choice([p for p in ls if tuple(s for s in p if not isinstance(s, int)) == pl])
        old = json.loads(json.dumps(e)); change(e, p, rng); changed[i + 1] = (pl, old)
    stopped, bad = set(), set()
    new = list(lines)
    for i in changed: lines[i - 1] = changed[i][1]
    def judge(S):
        with open(out, 'w') as f:
            for i, e in enumerate(lines): f.write(json.dumps(new[i] if i + 1 in S else e) + '\n')
        rc, o = check.tlc(m, m + '.cfg', work, dict(TRACE=out), 1, 600, '3g')
        if rc == 0: bad.update(S & set(x['line'] for x in check.printed(o, '@@')))
        elif len(S) <= 1: stopped.update(S)       # an observation outside the vocabulary of the specification
        else:
            q = sorted(S); judge(set(q[::2])); judge(set(q[1::2]))
    judge(set(changed))
    bad |= stopped
    changed = dict((i, pl) for i, (pl, old) in changed.items())
    free = Counter((lines[i - 1].get('op') or lines[i - 1].get('fn'),) + pl for i, pl in changed.items() if i not in bad)
    return '%s: %d of %d changed events rejected; accepted: %s' % (pid, len(bad & set(changed)), len(changed),
        ', '.join('%s x%d' % ('/'.join(map(str, k)), n) for k, n in free.most_common(25)))

def main():
    ids = sys.argv[1:] or sorted(CHECKS)
    work = tempfile.mkdtemp(prefix='verif_self_')
    try:
        if not sys.argv[1:]:
            for m, cfg, old, new in CONTROLS:
                s = open(os.path.join(HERE, 'spec', cfg)).read(); t = re.sub(old, new, s); assert t != s, cfg
                c = os.path.join(work, m + '_bad.cfg'); open(c, 'w').write(t)
                rc, o = check.tlc(m, c, work, dict(VERIF_SEED='1'), 4, 300)
                print('%s with %s: %s' % (m, new, 'refuted' if 'is violated' in o else 'NOT REFUTED %s' % rc), flush=True)
        scratch = os.path.join(work, 'src'); os.makedirs(scratch)
        assert check.build(scratch) is None
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as pool:
            fs = [pool.submit(one, p, d, m, work, scratch, random.Random(7)) for p in ids for d, m in CHECKS[p]['drivers']]
            for f in fs: print(f.result(), flush=True)
    finally: shutil.rmtree(work, ignore_errors=True)
main()
