"""Seeded search over worlds, schedules and fault sequences; minimisation; replay; evidence."""
import base64, collections, hashlib, importlib, json, multiprocessing as mp, os, random, re, signal, sys, time, traceback, zlib
import build, simrun

VERIF = build.VERIF
TIERS = {'quick': {'wall': 35, 'minimise': 25}, 'thorough': {'wall': 600, 'minimise': 120}}

class V:
    """A violation: `sig` is what identifies it (and what minimisation preserves)."""
    def __init__(s, sig, msg): s.sig, s.msg = sig, msg

# ------------------------------------------------------------------ (de)serialisation of cases
def enc(x):
    if isinstance(x, bytes): return {'__b': base64.b64encode(x).decode()}
    if isinstance(x, dict): return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [enc(v) for v in x]
    return x
def dec(x):
    if isinstance(x, dict):
        if '__b' in x: return base64.b64decode(x['__b'])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list): return [dec(v) for v in x]
    return x

def load_prop(pid):
    sys.path.insert(0, os.path.join(VERIF, 'sim', 'props'))
    return importlib.import_module(pid.lower())

def rng_for(*parts):
    return random.Random(int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big'))

# ------------------------------------------------------------------ schedules
def sched_conf(rng, steps=20000, heavy=False):
    """A random scheduling strategy with its parameters."""
    c = {'seed': rng.randrange(1 << 40), 'ncpu': rng.choice([1, 2, 4, 8])}
    k = rng.random()
    if k < 0.35:
        c.update(strategy='geom', gap=int(10 ** rng.uniform(0.3, 3.3)), opsprob=rng.choice([0, 100, 500]))
    elif k < 0.65:
        c.update(strategy='ops', opsprob=rng.choice([50, 200, 500, 800, 1000]))
    elif k < 0.95:
        c.update(strategy='pct', pctd=rng.choice([1, 2, 3, 5, 9]), pctk=max(1000, int(steps * rng.uniform(0.5, 2))))
    else:
        c.update(strategy='none')
    if rng.random() < 0.2: c['spurious'] = rng.choice([20, 100, 300])
    if rng.random() < 0.15: c['clkjump'] = rng.choice([5, 50])
    return c

# ------------------------------------------------------------------ minimisation
def _same(vs, sig): return next((v for v in vs if v.sig == sig), None)

def minimise(mod, case, sig, runner, budget):
    t_end = time.time() + budget
    def fails(c):
        try: return _same(mod.judge(c, runner), sig) is not None
        except Exception: return False
    log = []
    def attempt(c, what):
        if time.time() > t_end: return False
        if fails(c): log.append(what); return True
        return False
    cur = json.loads(json.dumps(enc(case))); cur = dec(cur)
    def ddmin_list(get, put, what):
        nonlocal cur
        n = 2
        while time.time() < t_end:
            xs = get(cur)
            if not xs: break
            size = max(1, len(xs) // n); reduced = False
            for i in range(0, len(xs), size):
                ys = xs[:i] + xs[i + size:]
                c = put(dict(cur), ys)
                if c is not None and attempt(c, what): cur = c; reduced = True; n = max(2, n - 1); break
            if not reduced:
                if size == 1: break
                n = min(len(xs), n * 2)
    conf = lambda c: c.get('conf') or {}
    def with_conf(c, **kw):
        c = dict(c); k = dict(conf(c))
        for a, b in kw.items():
            if b is None: k.pop(a, None)
            else: k[a] = b
        c['conf'] = k
        return c
    def seq(c):
        c = with_conf(c, strategy='none')
        for k in ('replay', 'gap', 'opsprob', 'pctd', 'pctk', 'spurious', 'clkjump'): c = with_conf(c, **{k: None})
        return c
    # 1. is the schedule needed at all?
    if conf(cur).get('strategy', 'none') != 'none' or 'replay' in conf(cur):
        c = seq(cur)
        if attempt(c, 'sequential schedule'): cur = c
    for k in ('spurious', 'clkjump', 'space', 'ncpu', 'dseed'):
        if k in conf(cur):
            c = with_conf(cur, **{k: None})
            if attempt(c, 'without ' + k): cur = c
    # 2. faults, files, module-specific reductions
    if conf(cur).get('faults'):
        ddmin_list(lambda c: conf(c).get('faults', []), lambda c, ys: with_conf(c, faults=ys), 'fewer faults')
    if getattr(mod, 'files_reducible', True) and 'files' in cur:
        ddmin_list(lambda c: sorted(c['files']), lambda c, ys: dict(c, files={k: c['files'][k] for k in ys}), 'fewer files')
    for red in getattr(mod, 'reductions', []):
        for c in red(cur):
            if attempt(c, red.__name__): cur = c
    # 3. explicit schedule, then fewer preemptions
    if conf(cur).get('strategy', 'none') != 'none':
        try:
            mod.judge(cur, runner); r = mod.last_run(runner) if hasattr(mod, 'last_run') else getattr(runner, 'judged', None)
        except Exception: r = None
        if r is not None:
            c = with_conf(cur, replay=simrun.schedule_of(r), strategy='none', gap=None, opsprob=None, pctd=None, pctk=None, spurious=None)
            if attempt(c, 'explicit schedule'):
                cur = c
                ddmin_list(lambda c: conf(c).get('replay', []), lambda c, ys: with_conf(c, replay=ys), 'fewer preemptions')
    return cur, log

# ------------------------------------------------------------------ workers
def _worker(pid, tier, seed, idx, n, wall, q, stop, quota):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try: os.nice(5)
    except OSError: pass
    try:
        mod = load_prop(pid)
        runner = simrun.Runner(idx, top=simrun.TOP)
        t0 = time.time()
        cases = 0; nt = set(); kinds = collections.Counter(); known = collections.Counter(); samples = []
        k = idx
        done_quota = False
        while time.time() - t0 < wall and not stop.is_set():
            if quota and k >= quota: done_quota = True; break
            rng = rng_for(pid, seed, k)
            for case in mod.cases(rng, runner, tier, k):
                if time.time() - t0 > wall * 1.15 or stop.is_set(): break
                case['origin'] = {'seed': seed, 'world': k}
                runner.nontrivial = False; runner.tags = []
                vs = mod.judge(case, runner)
                cases += 1
                if runner.nontrivial: nt.add(zlib.crc32(repr((case.get('conf'), case.get('argv'), case.get('job'), k)).encode()) << 32 | (int(runner.judged.end.get('shash', '0'), 16) & 0xffffffff if getattr(runner, 'judged', None) is not None else 0))
                for t in runner.tags: kinds[t] += 1
                if len(samples) < 2 and runner.nontrivial and getattr(runner, 'judged', None) is not None:
                    r = runner.judged
                    samples.append({'world': k, 'argv': r.argv, 'conf': {a: b for a, b in r.conf.items() if a != 'replay'}, 'rc': r.rc, 'how': r.how, 'steps': r.end.get('steps'), 'switches': r.end.get('switches')})
                new = []
                for v in vs:
                    if v.sig in mod_known(pid): known[v.sig] += 1
                    else: new.append(v)
                if new:
                    q.put(('violation', idx, enc(case), new[0].sig, new[0].msg))
                    stop.set(); break
            k += n
        q.put(('done', idx, {'cases': cases, 'nontrivial': len(nt), 'kinds': dict(kinds), 'known': dict(known), 'samples': samples, 'worlds': (k - idx) // n,
                             'stats': runner.stats, 'shashes': list(runner.shashes)[:400000], 'quota': done_quota}))
    except Exception:
        q.put(('error', idx, traceback.format_exc()))

_known = {}
def mod_known(pid):
    if pid not in _known:
        d = {}
        try:
            for l in open(os.path.join(VERIF, 'known_findings.txt')):
                m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', l)
                if m and m.group(1) == pid: d[m.group(2)] = m.group(3)
        except FileNotFoundError: pass
        _known[pid] = d
    return _known[pid]

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif k in ('threads', 'edges'): a[k] = max(a.get(k, 0), v)
        else: a[k] = a.get(k, 0) + v

def check_determinism(mod, pid, seed, runner, tier):
    """Some executions of this property's own search are repeated; the recorded history must be identical."""
    n = 0
    for k in range(0, 40):
        for case in mod.cases(rng_for(pid, seed, k), runner, tier, k):
            try: mod.judge(case, runner)
            except Exception: raise
            r = getattr(runner, 'judged', None)
            if r is None: break
            a = (r.log, r.out, r.rc, simrun.key(r.fs))
            runner.memo.clear()
            mod.judge(case, runner)
            r = runner.judged
            b = (r.log, r.out, r.rc, simrun.key(r.fs))
            norm = lambda x: (re.sub(r' edges=\d+', '', x[0]), re.sub(rb'in \d+ ms', b'', x[1]), x[2], x[3])
            if norm(a) != norm(b): return n, 'run %d of world %d is not repeatable' % (n, k)
            n += 1
            break
        if n >= 3: break
    return n, None

def run_check(pid, tier, seed, wall=None, jobs=None, quota=None):
    t0 = time.time()
    mod = load_prop(pid)
    bt = build.build(driver=getattr(mod, 'needs_driver', False))
    cfg = TIERS[tier]
    wall = wall or float(os.environ.get('VERIF_WALL', 0)) or getattr(mod, 'wall', {}).get(tier) or cfg['wall']
    jobs = jobs or int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 4)
    simrun.scratch_top()
    main_runner = simrun.Runner(99)
    ndet, deterr = check_determinism(mod, pid, seed, main_runner, tier)
    if deterr:
        print('ERROR: simulator lost determinism: ' + deterr)
        return 3
    ctx = mp.get_context('fork')
    q = ctx.Queue(); stop = ctx.Event()
    t1 = time.time()
    ps = [ctx.Process(target=_worker, args=(pid, tier, seed, i, jobs, wall, q, stop, quota)) for i in range(jobs)]
    for p in ps: p.start()
    agg = {'cases': 0, 'nontrivial': 0, 'kinds': {}, 'known': {}, 'worlds': 0, 'stats': {}}
    hashes = set(); samples = []; viol = None; errors = []
    left = jobs
    deadline = time.time() + wall * 1.5 + 120
    while left and time.time() < deadline:
        try: m = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty(): break
            continue
        if m[0] == 'done':
            left -= 1
            d = m[2]; hashes.update(d.pop('shashes')); samples += d.pop('samples'); d.pop('quota')
            merge(agg, d)
        elif m[0] == 'violation':
            if viol is None: viol = m
        else: errors.append(m[2]); left -= 1; stop.set()
    for p in ps:
        p.join(5)
        if p.is_alive(): p.kill()
    search_s = time.time() - t1
    rc = 0
    nviol = 0
    for sig, what in mod_known(pid).items(): print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if viol:
        _, idx, case, sig, msg = viol
        case = dec(case)
        print('found in world %s: [%s] %s' % (case.get('origin'), sig, msg))
        case, how = minimise(mod, case, sig, main_runner, cfg['minimise'])
        vs = mod.judge(case, main_runner)
        v = _same(vs, sig)
        case['violation'] = {'property': pid, 'sig': sig, 'message': (v.msg if v else msg), 'minimised_by': how}
        r = getattr(main_runner, 'judged', None)
        if r is not None:
            case['trace'] = {'argv': r.argv, 'rc': r.rc, 'how': r.how, 'ops': r.ops()[:400], 'switches': len(r.switches()),
                             'stdout': r.out.decode('utf-8', 'replace')[-3000:], 'stderr': r.err.decode('utf-8', 'replace')[-2000:]}
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, hashlib.sha256(json.dumps(enc(case), sort_keys=True).encode()).hexdigest()[:12]))
        json.dump(enc(case), open(path, 'w'), indent=1, sort_keys=True)
        print('violation [%s] %s' % (sig, case['violation']['message']))
        print('world %s, minimised by: %s' % (case.get('origin'), ', '.join(collections.OrderedDict.fromkeys(how)) or 'nothing'))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1; nviol = 1
    elif errors or left:
        print('ERROR in the check:\n' + '\n'.join(errors) if errors else 'ERROR: workers did not finish')
        rc = 3
    write_evidence(mod, pid, tier, seed, agg, hashes, samples, search_s, bt, time.time() - t0, nviol, ndet, jobs)
    s = agg['stats']
    print('%s %s: %d cases (%d non-trivial) in %d worlds, %d simulated runs + %d reference runs, %d distinct interleavings, %.1f s search, %.1f s build'
          % (pid, tier, agg['cases'], agg['nontrivial'], agg['worlds'], s.get('runs', 0), s.get('ref_runs', 0), len(hashes), search_s, bt))
    if os.environ.get('VERIF_VERBOSE'): print(json.dumps(agg, indent=1))
    return rc

def write_evidence(mod, pid, tier, seed, agg, hashes, samples, search_s, bt, wall, nviol, ndet, jobs):
    s = agg['stats']
    runs = s.get('runs', 0) + s.get('ref_runs', 0)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'level', 'exploration'),
          'coverage': {
              'evaluations': agg['cases'], 'distinct_nontrivial': agg['nontrivial'], 'rule': mod.rule,
              'samples': samples[:6] or [{'note': 'no non-trivial case before the run ended'}],
              'simulated_runs': s.get('runs', 0), 'reference_runs': s.get('ref_runs', 0), 'worlds_seeds': agg['worlds'],
              'runs_per_hour': int(runs / max(search_s, 0.1) * 3600), 'seeds_per_hour': int(agg['worlds'] / max(search_s, 0.1) * 3600),
              'simulated_time_s': s.get('simns', 0) / 1e9, 'simulated_steps': s.get('steps', 0), 'operations_at_seams': s.get('ops', 0),
              'context_switches': s.get('switches', 0), 'distinct_interleavings': len(hashes),
              'distinct_measure': 'hash of (step, thread) of every context switch, total steps and the faults that fired',
              'max_threads': s.get('threads', 0), 'max_code_blocks_reached_in_one_run': s.get('edges', 0),
              'faults_injected': dict(s.get('faults', {}), **({'spurious-wakeup': s['spur']} if s.get('spur') else {}), **({'clock-jump': s['jumps']} if s.get('jumps') else {})),
              'strategies': s.get('strategies', {}), 'run_endings': s.get('how', {}), 'case_kinds': agg['kinds'],
              'known_findings_hit': agg['known'], 'determinism_selfcheck_runs': ndet, 'workers': jobs, 'build_s': round(bt, 1),
              'components_real': mod.__dict__.get('real', 'invader binary and all ringhopper crates, compiled from the working tree; std; kernel tmpfs for fault-free file effects'),
              'components_stubbed': mod.__dict__.get('stub', 'thread scheduler, futex wait queues, clocks, randomness, CPU count, directory order, injected file-operation results (libsim)')},
          'assumptions': getattr(mod, 'assumptions', []), 'wall_s': round(wall, 1), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)

def replay(pid, path):
    mod = load_prop(pid)
    build.build(driver=getattr(mod, 'needs_driver', False))
    case = dec(json.load(open(path)))
    runner = simrun.Runner(0)
    want = case.get('violation', {}).get('sig')
    vs = mod.judge(case, runner)
    for v in vs: print('[%s] %s' % (v.sig, v.msg))
    r = getattr(runner, 'judged', None)
    if r is not None:
        print('$ invader ' + ' '.join(r.argv), '->', r.rc, r.how)
        sys.stdout.write(r.out.decode('utf-8', 'replace')); sys.stdout.write(r.err.decode('utf-8', 'replace'))
        print('\n'.join(r.ops()[:200]))
    if _same(vs, want) or (want is None and vs):
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('not reproduced')
    return 0
