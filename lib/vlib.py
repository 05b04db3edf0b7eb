'''Shared machinery of the checks: run TLC, run drivers against the real code,
validate recorded traces, report.  No PrivCount knowledge here.'''
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla'
CP = '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

class MachineryError(Exception):
    pass

class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = self.transitions = self.traces = self.lines = 0
        self.scenarios = 0
        self.models = []
        self.clauses = {}
        self.samples = []
        self.assumptions = []
        self.bad = []             # violations of this property
        self.other = []           # violations of other properties (ignored here)
        self.notes = {}
    def path(self, *a):
        return os.path.join(self.scratch, *a)
    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

def sh(cmd, env=None, timeout=800, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        if out is not None:
            with open(out, 'wb') as f:
                p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout,
                                   stdout=f, stderr=subprocess.STDOUT)
            with open(out, 'rb') as f:
                return p.returncode, f.read().decode('utf-8', 'replace')
        p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        raise MachineryError('timeout after %ss: %s' % (timeout, ' '.join(cmd)[:300]))

def tlc(ctx, module, cfg=None, env=None, workers=1, extra=(), timeout=800, heap='3g'):
    '''returns (exit code, output)'''
    meta = tempfile.mkdtemp(prefix='tlc-', dir=ctx.scratch)
    spec = os.path.join(VERIF, 'spec')
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-XX:TieredStopAtLevel=4', '-DTLA-Library=' + spec, '-cp', CP, 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers), '-deadlock']
    if cfg:
        cmd += ['-config', os.path.join(spec, cfg)]
    cmd += list(extra) + [os.path.join(spec, module + '.tla')]
    rc, out = sh(cmd, env=env, timeout=timeout, cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

STATS = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)

def model_check(ctx, module, cfg, env=None, workers=2, timeout=800, heap='6g', expect_violation=None):
    '''exhaustive exploration of a model; its properties hold or the machinery is broken'''
    rc, out = tlc(ctx, module, cfg, env=env, workers=workers, timeout=timeout, heap=heap)
    m = STATS.findall(out)
    if expect_violation:
        if expect_violation not in out:
            raise MachineryError('model %s %s: expected %r\n%s' % (module, cfg, expect_violation, out[-3000:]))
    elif rc != 0 or not m:
        raise MachineryError('model %s %s: rc %s\n%s' % (module, cfg, rc, out[-6000:]))
    if m:
        gen, dist = int(m[-1][0]), int(m[-1][1])
        ctx.transitions += gen
        ctx.states += dist
        ctx.models.append({'module': module, 'config': cfg, 'generated': gen, 'distinct': dist,
                           'expected_violation': expect_violation})
        ctx.log('TLC %s/%s: %d states, %d distinct%s' % (module, cfg, gen, dist,
                ' (reaches the expected attack: %s)' % expect_violation if expect_violation else ''))
    return out

def generate(ctx, module, cfg, env=None, extra=(), workers=1, timeout=800, tag='SCN'):
    '''behaviours printed by TLC as <<tag, json>>'''
    rc, out = tlc(ctx, module, cfg, env=env, workers=workers, extra=extra, timeout=timeout)
    if rc != 0:
        raise MachineryError('generator %s %s: rc %s\n%s' % (module, cfg, rc, out[-6000:]))
    m = STATS.findall(out)
    if m:
        ctx.transitions += int(m[-1][0])
        ctx.states += int(m[-1][1])
        ctx.models.append({'module': module, 'config': cfg, 'generated': int(m[-1][0]), 'distinct': int(m[-1][1])})
    res, seen = [], set()
    head = '<<"%s", "' % tag
    for l in out.splitlines():
        if l.startswith(head) and l.endswith('">>'):
            s = l[len(head):-3].replace('\\"', '"').replace('\\\\', '\\')
            if s not in seen:
                seen.add(s)
                res.append(json.loads(s))
    ctx.log('TLC generated %d behaviours from %s/%s' % (len(res), module, cfg))
    return res

def parallel(*fs):
    """run the given functions at the same time; the first failure is raised"""
    with ThreadPoolExecutor(max_workers=len(fs)) as ex:
        rs = [ex.submit(f) for f in fs]
        return [r.result() for r in rs]

def chunks(xs, n):
    n = max(1, min(n, len(xs)))
    return [xs[i::n] for i in range(n)]

def drive(ctx, driver, scenarios, env=None, jobs=None, timeout=700, per_min=20, tag=''):
    '''run scenarios against the real code, in parallel; returns the trace files'''
    jobs = jobs or JOBS
    for i, s in enumerate(scenarios):
        if isinstance(s, dict):
            s.setdefault('id', i)
    parts = chunks(scenarios, min(jobs, max(1, len(scenarios) // per_min)))
    def one(k):
        inp, outp = ctx.path('%s%s-%d.in' % (driver, tag, k)), ctx.path('%s%s-%d.ndjson' % (driver, tag, k))
        with open(inp, 'w') as f:
            for s in parts[k]:
                f.write(json.dumps(s) + '\n')
        e = {'VERIF_SCRATCH': ctx.path('%s%s-%d.d' % (driver, tag, k)), 'VERIF_REPO': REPO,
             'VERIF_SEED': str(ctx.seed)}
        e.update(env or {})
        rc, out = sh([os.path.join(VERIF, 'harness', 'jy.sh'),
                      os.path.join(VERIF, 'drivers', driver + '.py'), inp, outp],
                     env=e, timeout=timeout)
        shutil.rmtree(e['VERIF_SCRATCH'], ignore_errors=True)
        if rc != 0:
            # the drivers catch everything that the code under test can do once it is
            # imported; what is left is code that cannot be imported or a broken machine
            raise MachineryError('driver %s: rc %s\n%s' % (driver, rc, out[-4000:]))
        return outp
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        res = list(ex.map(one, range(len(parts))))
    ctx.log('drove %d scenarios of %s through the real code' % (len(scenarios), driver))
    ctx.scenarios += len(scenarios)
    return res

BAD = re.compile(r'^"BAD\|([^|]*)\|([^|]*)\|(\d+)\|([^"]*)"')
CNT = re.compile(r'^"CNT\|([^|]*)\|(\d+)"')

def validate(ctx, module, traces, cfg=None, env=None, timeout=800, split=1, jobs=None, prop_map=None):
    '''TLC decides whether recorded traces are behaviours of the specification'''
    files = []
    for t in traces:
        with open(t) as f:
            lines = f.readlines()
        if split > 1:       # only for traces whose lines are independent
            for k in range(split):
                part = lines[k::split]
                if part:
                    p = '%s.%d' % (t, k)
                    with open(p, 'w') as f:
                        f.writelines(part)
                    files.append((p, part))
        else:
            files.append((t, lines))
    def one(a):
        p, lines = a
        e = {'TRACE': p}
        e.update(env or {})
        rc, out = tlc(ctx, module, cfg or module + '.cfg', env=e, timeout=timeout)
        return p, lines, rc, out
    with ThreadPoolExecutor(max_workers=jobs or JOBS) as ex:
        res = list(ex.map(one, files))
    total = 0
    for p, lines, rc, out in res:
        done = re.search(r'^"DONE\|(\d+)"', out, re.M)
        for l in out.splitlines():
            m = BAD.match(l)
            if m:
                prop, scn, ln, clause = m.groups()
                rec = {'property': prop, 'scenario': scn, 'line': int(ln), 'clause': clause,
                       'module': module, 'trace': p}
                try:
                    rec['record'] = json.loads(lines[int(ln) - 1])
                except (ValueError, IndexError):
                    pass
                if prop == ctx.pid:
                    ctx.bad.append(rec)
                else:
                    ctx.other.append(rec)
            m = CNT.match(l)
            if m:
                ctx.clauses[m.group(1)] = ctx.clauses.get(m.group(1), 0) + int(m.group(2))
        if not done or int(done.group(1)) != len(lines):
            if 'java.lang.OutOfMemory' in out or rc in (137, -9):
                raise MachineryError('TLC ran out of memory on %s' % p)
            # the recorded behaviour has a shape that the specification cannot even
            # evaluate: not a behaviour of the specification
            if 'evaluat' in out or 'Attempted' in out:
                if not any(r['trace'] == p for r in ctx.bad):
                    ctx.bad.append({'property': ctx.pid, 'scenario': '?', 'line': 0, 'module': module,
                                    'clause': 'trace-not-evaluable', 'trace': p, 'tlc': out[max(0, out.find('Error:')):][:1500] + out[-3000:]})
                continue
            raise MachineryError('trace check %s on %s: rc %s\n%s' % (module, p, rc, out[-5000:]))
        total += len(lines)
        m = STATS.findall(out)
        if m:
            ctx.states += int(m[-1][1])
            ctx.transitions += int(m[-1][0])
    ctx.lines += total
    nscn = 0
    for p, lines, rc, out in res:
        nscn += sum(1 for l in lines if '"e": "reset"' in l or '"e":"reset"' in l) or len(lines)
    ctx.traces += nscn
    ctx.log('TLC validated %d trace lines (%d behaviours) against %s: %d disagreements here, %d elsewhere'
            % (total, nscn, module, len(ctx.bad), len(ctx.other)))

def known_findings():
    p = os.path.join(VERIF, 'known', 'findings.jsonl')
    res = []
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l and not l.startswith('#'):
                    res.append(json.loads(l))
    return res

def finish(ctx, level):
    known = [k for k in known_findings() if k.get('status') == 'known' and k['property'] == ctx.pid]
    new, seen_known = [], {}
    for b in ctx.bad:
        hit = None
        for k in known:
            if k['scenario'] == str(b['scenario']) and k['clause'] == b['clause']:
                hit = k
        if hit:
            seen_known[hit['id']] = hit
        else:
            new.append(b)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, seen_known[k]['what']), flush=True)
    rc = 0
    replay = os.path.join(VERIF, 'replay', '%s.json' % ctx.pid)
    if not new and os.path.exists(replay):
        os.remove(replay)
    if new:
        rc = 1
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, '%s.json' % ctx.pid)
        for b in new[:5]:
            t = b.get('trace')
            if t and os.path.exists(t) and b['line']:
                with open(t) as f:
                    lines = f.readlines()
                k = b['line'] - 1
                j = k
                while j > 0 and '"reset"' not in lines[j] and k - j < 200:
                    j -= 1
                b['behaviour'] = [json.loads(x) for x in lines[(j if '"reset"' in lines[j] else k):k + 1]]
        with open(replay, 'w') as f:
            json.dump({'property': ctx.pid, 'seed': ctx.seed, 'tier': ctx.tier, 'violations': new[:200],
                       'total': len(new)}, f, indent=1, default=str)
        byc = {}
        for b in new:
            byc.setdefault(b['clause'], []).append(b)
        for c in sorted(byc):
            print('  disagreement: %s (%d times, first in scenario %s)' % (c, len(byc[c]), byc[c][0]['scenario']))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, replay), flush=True)
    cov = {'states': ctx.states, 'transitions': ctx.transitions,
           'traces_validated_against_impl': ctx.traces,
           'trace_lines': ctx.lines, 'scenarios_driven': ctx.scenarios, 'models': ctx.models,
           'samples': ctx.samples[:5] or ['(none)']}
    if level in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = ctx.lines
        cov['distinct_nontrivial'] = ctx.notes.get('distinct_nontrivial', ctx.scenarios)
        cov['rule'] = ctx.notes.get('rule', '')
    if ctx.clauses:
        cov['clause_counts'] = ctx.clauses
    for k, v in ctx.notes.items():
        cov.setdefault(k, v)
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 1),
          'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    ctx.log('%s %s: %s' % (ctx.pid, ctx.tier, 'VIOLATED' if rc else 'held'))
    return rc

def sample_trace(ctx, path, n=12):
    with open(path) as f:
        ls = [l for _, l in zip(range(n), f)]
    for l in ls:
        ctx.samples.append(l.strip()[:600])
