"""Machinery shared by the checks: build, TLC, harness runs, trace validation."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VH_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
OUT = os.environ.get('VH_OUT', os.path.join(VERIF, 'out'))
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'

class CheckError(Exception):
    """The check itself failed (neither held nor violated)."""

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.quick = tier != 'thorough'
        self.violations = []
        self.hung = 0
        self.states = self.transitions = 0
        self.traces = 0        # scenarios whose trace was validated
        self.events = 0
        self.samples = []
        self.notes = []
        self.actions = {}
        self.distinct = 0
        self.work = tempfile.mkdtemp(prefix='vh-%s-' % pid)
        os.chmod(self.work, 0o755)
    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)
    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

def env():
    e = dict(os.environ)
    if not hasattr(env, 'cache'):
        p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE)
        env.cache = dict(x.split('=', 1) for x in p.stdout.decode().split('\0') if '=' in x)
    e.update(env.cache)
    e.setdefault('PETSC_DIR', '/opt/petsc-3.17.3')
    e['OMP_NUM_THREADS'] = '1'
    e['PETSC_OPTIONS'] = '-malloc_debug 0'   # the harness brings its own allocator
    e['OMPI_ALLOW_RUN_AS_ROOT'] = e['OMPI_ALLOW_RUN_AS_ROOT_CONFIRM'] = '1'
    e['OMPI_MCA_rmaps_base_oversubscribe'] = '1'
    return e

def stale(out):
    """Forgets objects whose sources differ from what they were built from (by
    content: file times may mislead)."""
    os.makedirs(out, exist_ok=True)
    now, heads = {}, hashlib.md5()
    for top in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness')):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(('.c', '.F90', '.h', '.inc')) and '/tests' not in d:
                    h = hashlib.md5(open(p, 'rb').read()).hexdigest()
                    if f.endswith(('.h', '.inc', '.F90')): heads.update((p + h).encode())
                    else: now[p] = h
    now['headers'] = heads.hexdigest()
    st = os.path.join(out, 'sources.json')
    try: old = json.load(open(st))
    except (OSError, ValueError): old = None
    if old is None or old.get('headers') != now['headers']:
        for x in ('obj', 'hobj', 'mod'): shutil.rmtree(os.path.join(out, x), ignore_errors=True)
        if os.path.exists(os.path.join(out, 'vh')): os.remove(os.path.join(out, 'vh'))
    else:
        for p, h in now.items():
            if p != 'headers' and old.get(p) != h:
                o = os.path.join(out, 'hobj', os.path.basename(p)[:-2] + '.o') if p.startswith(VERIF) else os.path.join(out, 'obj', os.path.relpath(p, REPO)[:-2] + '.o')
                if os.path.exists(o): os.remove(o)
        if set(old) - set(now) and os.path.exists(os.path.join(out, 'vh')): os.remove(os.path.join(out, 'vh'))
    with open(st, 'w') as f: json.dump(now, f)

def build(ctx):
    """Compiles /repo's working tree together with the harness."""
    out = os.environ.get('VH_BUILD', os.path.join(VERIF, 'build'))
    stale(out)
    p = subprocess.run(['make', '-s', '-C', os.path.join(VERIF, 'harness'), '-j8', 'REPO=' + REPO, 'OUT=' + out],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write(p.stdout.decode(errors='replace')[-4000:])
        raise CheckError('build failed')
    ctx.vh = os.path.join(out, 'vh')
    ctx.log('built', ctx.vh)

# ---------------------------------------------------------------- TLC ------
def tlc(ctx, module, cfg, workers=4, args=(), timeout=600, tenv=None, heap='4g', quiet=True):
    """Runs TLC; returns (rc, output)."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=ctx.work)
    cfgpath = os.path.join(d, module + '.cfg')
    with open(cfgpath, 'w') as f: f.write(cfg)
    e = dict(os.environ); e.update(tenv or {})
    cmd = ['tlc', '-config', cfgpath, '-workers', str(workers), '-metadir', os.path.join(d, 'm'),
           '-noGenerateSpecTE', *args, os.path.join(SPECS, module + '.tla')]
    e['JAVA_TOOL_OPTIONS'] = (e.get('JAVA_TOOL_OPTIONS', '') + ' -Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s' % (heap, d)).strip()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode(errors='replace')
    o = p.stdout.decode(errors='replace')
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, o

def model_check(ctx, module, cfg, what, workers=8, timeout=600, must_take=()):
    """Exhaustive check of the specification itself; its failure is our error."""
    rc, o = tlc(ctx, module, cfg, workers, ['-coverage', '1'] if must_take else [], timeout)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', o)
    if rc or 'No error has been found' not in o or not m:
        sys.stdout.write(o[max(0, o.find('Error:')):][:5000]); raise CheckError('model checking of %s failed (rc %d)' % (module, rc))
    gen, dist = int(m[-1][0]), int(m[-1][1])
    if must_take:
        seen = {}
        for a, d_, t_ in re.findall(r'<(\w+) line[^>]*>: (\d+):(\d+)', o): seen[a] = max(seen.get(a, 0), int(t_))
        ctx.actions.setdefault(what, {}).update(seen)
        for a in must_take:
            if not seen.get(a): raise CheckError('vacuous model %s: action %s never taken (%s)' % (module, a, seen))
    ctx.states += dist; ctx.transitions += gen; ctx.distinct += dist
    ctx.log('model %s: %d distinct states, %d transitions, invariants hold' % (what, dist, gen))

def generate(ctx, module, cfg, what, simulate=None, depth=60, seed=None, workers=1, timeout=600, limit=None, tenv=None):
    """Behaviours of the specification, as printed by its Emit operator."""
    args = []
    if simulate: args = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str((ctx.seed if seed is None else seed) + 1000)]
    rc, o = tlc(ctx, module, cfg, 1 if simulate or workers == 1 else workers, args, timeout, tenv)
    if rc and not (simulate and rc in (11, 12)) and 'No error has been found' not in o:
        if not simulate or 'Error:' in o:
            sys.stdout.write(o[-5000:]); raise CheckError('generation from %s failed (rc %d)' % (module, rc))
    res, seen = [], set()
    for line in o.splitlines():
        if line.startswith('"SCEN ') or line.startswith('SCEN '):
            if line.startswith('"'): line = json.loads(line)
            s = line[5:]
            h = hashlib.md5(s.encode()).digest()
            if h in seen: continue
            seen.add(h); res.append(json.loads(s))
            if limit and len(res) >= limit: break
    if not res:
        sys.stdout.write(o[-3000:]); raise CheckError('no behaviour generated from ' + module)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', o)
    if m: ctx.states += int(m[-1][1]); ctx.transitions += int(m[-1][0])
    ctx.log('%s: %d behaviours generated from %s' % (what, len(res), module))
    return res

# ------------------------------------------------------------- harness -----
def run_harness(ctx, mode, blocks, np=1, timeout=300, tag='', envx=None, extra_files=None, jobs=None):
    """As run_part, spread over several processes."""
    jobs = max(1, min(jobs or 8 // np, (len(blocks) + 3) // 4))
    ctx.part = {s: list(blocks) for s in blocks}
    if jobs <= 1: return run_part(ctx, mode, blocks, np, timeout, tag, envx, extra_files)
    import concurrent.futures as cf
    keys = list(blocks)
    nparts = jobs * ((len(keys) + 1200 * jobs - 1) // (1200 * jobs))
    parts = [{s: blocks[s] for s in keys[j::nparts]} for j in range(nparts)]
    ctx.part = {s: list(b) for b in parts for s in b}
    events, crashed = {}, {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for e, c in ex.map(lambda b: run_part(ctx, mode, b, np, timeout, tag, envx, extra_files), parts):
            events.update(e); crashed.update(c)
    return {s: events[s] for s in keys if s in events}, crashed

def run_part(ctx, mode, blocks, np=1, timeout=300, tag='', envx=None, extra_files=None):
    """blocks: {sid: script text}. Returns ({sid: [events]}, {sid: crash text}).
    A scenario during which the process dies is reported in the second map; the
    others are run again without it."""
    pending = list(blocks)
    events, crashed = {}, {}
    tries = 0
    while pending:
        tries += 1
        d = tempfile.mkdtemp(prefix='run-', dir=ctx.work)
        scr = os.path.join(d, 'scratch'); os.mkdir(scr)
        for name, data in (extra_files or {}).items():
            with open(os.path.join(d, name), 'wb') as f: f.write(data)
        script, trace, err = [os.path.join(d, x) for x in ('script', 'trace', 'stderr')]
        with open(script, 'w') as f:
            for s in pending: f.write('S %d\n%sE\n' % (s, blocks[s]))
        cmd = [ctx.vh, mode, script, trace, scr]
        if np > 1: cmd = ['mpiexec', '--allow-run-as-root', '--oversubscribe', '-n', str(np)] + cmd
        e = env(); e.update(envx or {})
        with open(err, 'wb') as fe:
            p = subprocess.Popen(cmd, env=e, cwd=scr, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=fe, start_new_session=True)
            rc = watch(ctx, p, trace, timeout)
        evs, cur, done, last = [], None, set(), None
        if os.path.exists(trace):
            for line in open(trace, errors='replace'):
                try: ev = json.loads(line)
                except ValueError: break
                if ev['e'] == 'Begin': cur = ev['s']; events[cur] = []; last = cur
                if cur is not None: events[cur].append(ev)
                if ev['e'] == 'Done': done.add(ev['s']); cur = None
                if ev['e'] == 'End': last = None
        errtxt = open(err, errors='replace').read()[-1500:]
        shutil.rmtree(d, ignore_errors=True)
        if rc == 0 and last is None:
            break
        if last is None:
            sys.stdout.write(errtxt); raise CheckError('harness failed outside scenarios (rc %s)' % rc)
        bad = last
        if bad in done:
            # everything up to and including it completed; the death belongs to teardown
            crashed[bad] = 'rc=%s after the scenario %s' % (rc, errtxt[-400:])
            pending = [s for s in pending if s not in done]
        else:
            crashed[bad] = 'rc=%s %s' % (rc, errtxt[-600:])
            pending = [s for s in pending if s not in done and s != bad]
        ctx.log('harness stopped in scenario %s (rc %s); %d left' % (bad, rc, len(pending)))
        if len(crashed) >= 3 or (rc == 'timeout' and ctx.hung >= 2): break
    return events, crashed

def watch(ctx, p, trace, timeout):
    """Waits for a run; one that writes nothing for a while is stopped."""
    t0, seen, size = time.time(), time.time(), -1
    while True:
        try: return p.wait(1)
        except subprocess.TimeoutExpired: pass
        n = os.path.getsize(trace) if os.path.exists(trace) else -1
        if n != size: seen, size = time.time(), n
        if time.time() - t0 > timeout or time.time() - seen > (30 if ctx.hung else 90):
            ctx.hung += 1
            os.killpg(p.pid, 15)   # (mpiexec passes it on)
            try: p.wait(5)
            except subprocess.TimeoutExpired: pass
            subprocess.run(['pkill', '-9', '-f', '--', trace])
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            p.wait()
            return 'timeout'

# ----------------------------------------------------- trace validation -----
def trace_cfg(consts=''):
    return 'SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Accepted\n' + consts

def validate(ctx, module, cfg, scen_events, tenv=None, timeout=600, chunk=20000, max_rej=5):
    """scen_events: {sid: [events]}. Returns list of (sid, index, event) rejected."""
    order = list(scen_events)
    total_ev = sum(len(scen_events[s]) for s in order)
    chunk = min(chunk, max(1500, total_ev // 8 + 1))
    batches, cur, n = [], [], 0
    for s in order:
        if cur and n + len(scen_events[s]) > chunk: batches.append(cur); cur, n = [], 0
        cur.append(s); n += len(scen_events[s])
    if cur: batches.append(cur)
    def one(k_batch):
        kb, batch = k_batch
        rej, st = [], [0, 0, 0, 0]
        while batch and len(rej) < max_rej:
            lines, where = [], []
            for s in batch:
                for i, ev in enumerate(scen_events[s]): lines.append(json.dumps(ev)); where.append((s, i))
            path = os.path.join(ctx.work, 'trace-%d.ndjson' % kb)
            with open(path, 'w') as f: f.write('\n'.join(lines) + '\n')
            te = {'TRACE': path}; te.update(tenv or {})
            rc, o = tlc(ctx, module, cfg, 1, [], timeout, te, heap='3g')
            m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', o)
            if not m:
                sys.stdout.write(o[-4000:]); raise CheckError('trace validation with %s failed (rc %s)' % (module, rc))
            k, total = int(m.group(1)), int(m.group(2))
            assert total == len(lines)
            mm = re.findall(r'(\d+) states generated, (\d+) distinct states found', o)
            if mm: st[0] += int(mm[-1][1]); st[1] += int(mm[-1][0])
            if k == total:
                st[2] += len(batch); st[3] += total
                break
            s, i = where[k]
            rej.append((s, i, scen_events[s][i]))
            good = batch.index(s)
            st[2] += good; st[3] += sum(len(scen_events[x]) for x in batch[:good])
            batch = batch[good + 1:]
        return rej, st
    rejected = []
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        for rej, st in ex.map(one, enumerate(batches)):
            rejected += rej
            ctx.states += st[0]; ctx.transitions += st[1]; ctx.traces += st[2]; ctx.events += st[3]
    return rejected[:max_rej]

def conform(ctx, mode, blocks, prepare, module, cfg, meta=None, np=1, tenv=None, timeout=300, key=None, chunk=20000, extra_files=None, envx=None):
    """Runs scenarios in the code, validates the traces, confirms every rejection
    by a second run, and records violations. prepare(sid, events) -> events given
    to TLC. meta: {sid: description written in the replay}."""
    t = time.time()
    if len(ctx.violations) >= 5 or (ctx.hung and ctx.violations): return {}
    ev, crashed = run_harness(ctx, mode, blocks, np, timeout, extra_files=extra_files, envx=envx)
    ctx.log('%d scenarios executed in the code (np=%d, %.1fs)' % (len(ev), np, time.time() - t))
    def failing(ev, crashed):
        bad = {}
        for s, why in crashed.items(): bad[s] = dict(kind='crash', why=why, events=ev.get(s, []))
        good = {s: prepare(s, e) for s, e in ev.items() if s not in crashed}
        if good:
            for s, i, x in validate(ctx, module, cfg, good, tenv, chunk=chunk):
                bad[s] = dict(kind='rejected', index=i, event=x, events=good[s])
        return bad
    part = ctx.part
    bad = failing(ev, crashed)
    for s in list(bad):
        if len(ctx.violations) >= 5: break
        before = []
        ev2, cr2 = run_part(ctx, mode, {s: blocks[s]}, np, timeout, extra_files=extra_files, envx=envx)
        b2 = failing(ev2, cr2)
        if s not in b2:   # it may need what ran before it in the same process
            before = part[s][:part[s].index(s)]
            ev2, cr2 = run_part(ctx, mode, {x: blocks[x] for x in before + [s]}, np, timeout, extra_files=extra_files, envx=envx)
            b2 = failing({x: e for x, e in ev2.items() if x == s}, {x: w for x, w in cr2.items() if x == s})
        if s in b2:
            b2[s].update(mode=mode, np=np, script=blocks[s], scenario=(meta or {}).get(s), spec=module, env=tenv)
            if before: b2[s]['run_before'] = [blocks[x] for x in before]
            k = key(s, b2[s]) if key else None
            violation(ctx, b2[s], k)
        else:
            ctx.notes.append('scenario %s failed once and passed on the second run' % s)
            ctx.log('NOT CONFIRMED', s, str(bad[s])[:300])
    for s in list(blocks)[:2]:
        if len(ctx.samples) < 6: ctx.samples.append(dict(scenario=blocks[s], trace=ev.get(s, [])[:40]))
    return ev

def known(ctx):
    res = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                x = json.loads(line)
                if x.get('kind') == 'known' and x['property'] == ctx.pid: res[x['key']] = x
    return res

def violation(ctx, info, key=None):
    if key is not None and key in known(ctx):
        if key not in getattr(ctx, 'known_hit', set()):
            ctx.known_hit = getattr(ctx, 'known_hit', set()) | {key}
            print('KNOWN-FINDING: property=%s %s' % (ctx.pid, known(ctx)[key]['what']), flush=True)
        return
    os.makedirs(os.path.join(OUT, ctx.pid), exist_ok=True)
    path = os.path.join(OUT, ctx.pid, 'violation-%d.json' % (len(ctx.violations) + 1))
    info = dict(info); info['property'] = ctx.pid; info['key'] = key
    with open(path, 'w') as f: json.dump(info, f, indent=1)
    ctx.violations.append(path)
    if info.get('kind') == 'rejected':
        ctx.log('the specification allows no such step: event %d: %s' % (info['index'], json.dumps(info['event'])[:600]))
    else:
        ctx.log('%s: %s' % (info.get('kind'), str(info.get('why'))[-700:]))
    print('VIOLATION property=%s replay=%s' % (ctx.pid, path), flush=True)

def short_samples(samples, limit=12000):
    """The sampled scenarios as they go into the evidence file, cut to a readable size."""
    out = []
    for x in samples:
        x = dict(x)
        for k, v in list(x.items()):
            if isinstance(v, list):
                keep, n = [], 0
                for e in v:
                    t = json.dumps(e)
                    n += min(len(t), 1500)
                    if n > limit: break
                    keep.append(e if len(t) <= 1500 else t[:1500] + ' ...')
                x[k] = keep
            elif isinstance(v, str) and len(v) > limit: x[k] = v[:limit] + ' ...'
        out.append(x)
    return out

def finish(ctx, level, level_extra=None):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=short_samples(ctx.samples), events_validated=ctx.events, model_distinct_states=ctx.distinct, violations=len(ctx.violations))
    if ctx.actions: cov['action_counts'] = ctx.actions
    if level_extra: cov.update(level_extra)
    e = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, wall_s=round(time.time() - ctx.t0, 2))
    if ctx.notes: e['notes'] = '; '.join(ctx.notes)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f: json.dump(e, f, indent=1)
    return 1 if ctx.violations else 0
