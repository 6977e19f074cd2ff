#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--keep]

Decides one property: builds /repo's working tree in a scratch directory, model
checks the property's specification with TLC (exhaustive small configuration,
which may also generate behaviours to replay), runs the drivers against the real
code, validates the recorded traces against the trace specification with TLC.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the machinery itself failed.
"""
import sys, os, json, subprocess, tempfile, shutil, time, ast, re, random, threading
from concurrent.futures import ThreadPoolExecutor
from collections import Counter
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, LEVEL
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = 8

class Machinery(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(scratch):
    """copy and build the working tree; returns None or the build log on failure"""
    shutil.copytree(os.path.join(REPO, 'pygeode'), os.path.join(scratch, 'pygeode'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
    shutil.copy(os.path.join(REPO, 'setup.py'), scratch)
    env = dict(os.environ, CFLAGS='-O1', PIP_NO_INDEX='1', HOME=scratch)
    r = sh([VENV, 'setup.py', 'build_ext', '--inplace', '-j8'], cwd=scratch, env=env, timeout=600)
    shutil.rmtree(os.path.join(scratch, 'build'), ignore_errors=True)
    return None if r.returncode == 0 else r.stdout[-3000:]

def tlc(module, cfg, work, env=None, workers=1, timeout=600, heap='2g', extra=()):
    meta = tempfile.mkdtemp(dir=work)
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC']
    if timeout <= 900 and workers == 1: cmd += ['-XX:TieredStopAtLevel=1']
    cmd += ['-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-seed', os.environ.get('VERIF_SEED', '1'), '-fp', '0', '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *extra, module + '.tla']
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=os.path.join(HERE, 'spec'), env=e)
        timer = threading.Timer(timeout, p.kill); timer.start()
        lines = []; cut = 0
        for ln in p.stdout:
            lines.append(ln)
            if 'The behavior up to this point' in ln: cut = 1      # (printing a long behaviour takes for ever)
            if cut:
                cut += 1
                if cut > 30: p.kill(); break
        p.stdout.close(); rc = p.wait(); late = not timer.is_alive(); timer.cancel()
        if cut: rc = 'error'
        elif late and rc != 0: rc = 'timeout'
        return rc, ''.join(lines)
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def printed(out, mark):
    res = []
    for ln in out.splitlines():
        if ln.startswith('"' + mark):
            try: res.append(json.loads(ast.literal_eval(ln.strip())[len(mark):]))
            except Exception: pass
    return res

def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) tag=(\S+) clause=(\S+) (.*)', ln)
            if m and m.group(1) == pid: out.append(dict(tag=m.group(2), clause=m.group(3), what=m.group(4).strip()))
    return out

def run(pid, tier, seed, keep=False):
    t0 = time.time()
    C = CHECKS[pid]
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    viol = []      # dicts: why, clauses, event(s), exp, tag
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, events_by_op={}, model_configs=[], samples=[])
    try:
        scratch = os.path.join(work, 'src'); os.makedirs(scratch)
        gen = os.path.join(work, 'gen.ndjson'); open(gen, 'w').close()
        pool = ThreadPoolExecutor(NCPU)
        fb = pool.submit(build, scratch)
        # ---- exhaustive model checking of the specification itself
        mcs = C.get('mc', []) + (C.get('mc_thorough', []) if tier == 'thorough' else [])
        lim = 300 if tier == 'quick' else 3600
        fm = [(m, pool.submit(tlc, m[0], m[1], work, dict(VERIF_SEED=str(seed)), m[2] if len(m) > 2 else 2, lim)) for m in mcs]
        genlines = []
        for m, f in fm:
            rc, out = f.result()
            if rc != 0: raise Machinery('specification %s (%s): TLC ended with %s\n%s' % (m[0], m[1], rc, out[-2500:]))
            g, d = counts(out)
            cov['states'] += d; cov['transitions'] += g
            cov['model_configs'].append(dict(module=m[0], config=m[1], states=d, transitions=g))
            genlines += printed(out, '@G')
        if genlines:
            genlines = [json.loads(x) for x in sorted(set(json.dumps(x, sort_keys=True) for x in genlines))]
            random.Random(seed).shuffle(genlines)
            with open(gen, 'w') as f:
                for x in genlines: f.write(json.dumps(x) + '\n')
            cov['behaviours_generated_by_TLC'] = len(genlines)
        log = fb.result()
        if log is not None:
            viol.append(dict(why='build', clauses=['does-not-build'], exp=None, event=None, detail=log))
        else:
            viol += drive(pid, C, tier, seed, work, scratch, gen, cov, pool)
        pool.shutdown()
        # ---- known findings
        kf = known(pid); quiet = Counter(); real = []
        for v in viol:
            hit = [k for k in kf if v.get('tag') == k['tag'] and set(v['clauses']) <= set(k['clause'].split(','))]
            if hit: quiet[hit[0]['what']] += 1
            else: real.append(v)
        for k in kf:
            print('KNOWN-FINDING: property=%s %s (%d occurrences)' % (pid, k['what'], quiet[k['what']]))
        cov['known_finding_occurrences'] = sum(quiet.values())
        ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, 'model_checking'), coverage=cov,
                  assumptions=C.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(real))
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        if real:
            path = os.path.join(HERE, 'evidence', 'replay', pid + '.json')
            with open(path, 'w') as f: json.dump(real[:50], f, indent=1)
            for v in real[:5]:
                e = v.get('event') or {}
                print('  %s op=%s clauses=%s %s' % (v['why'], e.get('op'), ','.join(v['clauses']),
                      str((e.get('obs') or {}).get('msg', '') if isinstance(e.get('obs'), dict) else '')[:160] + str(v.get('detail') or '')[-400:]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        print('%s %s: held; %d events in %d programs, %d model states, %.1fs' % (
              pid, tier, cov['events'], cov['traces_validated_against_impl'], cov['states'], time.time() - t0))
        return 0
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)

def drive(pid, C, tier, seed, work, scratch, gen, cov, pool):
    viol = []
    nsh = C.get('shards', NCPU) if tier == 'quick' else C.get('shards_thorough', C.get('shards', NCPU) * 2)
    home = os.path.join(work, 'home'); os.makedirs(home)
    env = dict(os.environ, PYTHONPATH=scratch + ':' + os.path.join(HERE, 'harness'), HOME=home, MPLBACKEND='Agg',
               MPLCONFIGDIR=os.path.join(home, 'mpl'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', GEN=gen, VERIF_TIER=tier, VERIF_SEED=str(seed))
    jobs = [(d, m, s) for (d, m) in C['drivers'] for s in range(nsh)]
    dlim = 420 if tier == 'quick' else 5400
    def one(job):
        d, module, s = job
        out = os.path.join(work, '%s_%d.ndjson' % (d, s))
        cwd = tempfile.mkdtemp(dir=work)
        e = dict(env, SCRATCH=cwd)
        try: r = sh([VENV, os.path.join(HERE, 'harness', d + '.py'), out, str(seed), tier, str(s), str(nsh)], env=e, cwd=cwd, timeout=dlim)
        except subprocess.TimeoutExpired: r = None
        shutil.rmtree(cwd, ignore_errors=True)
        try: n = sum(1 for _ in open(out))
        except OSError: n = 0
        bad = []
        if r is None or r.returncode != 0:
            why = 'timeout' if r is None else 'driver-died(%d)' % r.returncode
            tail = r.stdout[-1500:] if r is not None else ''
            if r is not None and 'DRIVER-MACHINERY' in tail: raise Machinery(tail)
            bad.append(dict(why=why, clauses=['library-failed-outside-a-checked-call'], exp=None, event=last_event(out), detail=tail))
            fix_tail(out)
            n = sum(1 for _ in open(out)) if os.path.exists(out) else 0
        if n == 0: return bad, 0, Counter(), 0, 0, []
        # trace validation
        rc, o = tlc(module, module + '.cfg', work, dict(TRACE=out), 1, 400 if tier == 'quick' else 5400, '3g')
        g, dd = counts(o)
        mism = printed(o, '@@')
        if (rc != 0 or g != n + 1) and not mism:
            txt = o[o.find('Error:'):][:2500] if 'Error:' in o else o[-2500:]
            if rc == 'timeout' or 'OutOfMemory' in o or 'evaluat' not in o.lower() and 'Attempted' not in o and 'TLC' not in txt:
                raise Machinery('trace validation failed: %s %s' % (rc, txt))
            if rc == 0: raise Machinery('trace not consumed: %d states for %d events' % (g, n))
            if bad or True:
                bad.append(dict(why='unclassifiable-observation', clauses=['outside-the-specified-domain'], exp=None, event=line(out, g), detail=txt))
        ops = Counter(); progs = 0; sample = []
        lines = open(out).read().splitlines()
        for i, ln in enumerate(lines):
            m = re.match(r'\{"op": "([^"]*)"', ln)
            e = {} if m else json.loads(ln)
            op = m.group(1) if m else str(e.get('op') or e.get('fn') or 'program')
            ops[op] += 1
            if op == 'begin': progs += 1
        if progs == 0: progs = n      # drivers whose every event is a behaviour of its own
        for x in mism:
            i = x['line'] - 1
            e = json.loads(lines[i])
            b = i
            while b > 0 and not lines[b].startswith('{"op": "begin"'): b -= 1
            bad.append(dict(why='mismatch', clauses=x['clauses'], exp=x.get('exp'), event=e, tag=e.get('tag'),
                            program=[json.loads(z) for z in lines[b:i + 1]][-40:]))
        for i in (len(lines) // 3, 2 * len(lines) // 3):
            if i < len(lines): sample.append(json.loads(lines[i]) if len(lines[i]) < 1500 else lines[i][:1500])
        return bad, n, ops, progs, g, sample
    res = list(pool.map(one, jobs))
    ops = Counter()
    for bad, n, o, p, g, sample in res:
        viol += bad; ops.update(o)
        cov['events'] += n; cov['traces_validated_against_impl'] += p
        cov['states'] += g; cov['transitions'] += max(g - 1, 0)
        if len(cov['samples']) < 4: cov['samples'] += sample[:2]
    cov['events_by_op'] = dict(ops)
    return viol

def line(path, i):
    try: return json.loads(open(path).read().splitlines()[i - 1])
    except Exception: return None
def last_event(path):
    try: return json.loads(open(path).read().splitlines()[-1])
    except Exception: return None
def fix_tail(path):
    """drop a partly written last line"""
    if not os.path.exists(path): return
    good = []
    for ln in open(path).read().split('\n'):
        try: json.loads(ln); good.append(ln)
        except Exception: pass
    open(path, 'w').write('\n'.join(good) + ('\n' if good else ''))

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try: rc = run(pid, tier, seed, '--keep' in sys.argv)
    except Machinery as e:
        print('MACHINERY FAILURE: %s' % e); rc = 2
    sys.exit(rc)
