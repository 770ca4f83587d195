"""P15: every operation terminates, and spurious wake-ups, clock jumps and interrupted calls do not change its outcome."""
import importlib, re
import batch, build, graph, engine
from batch import V, sched_conf

needs_driver = True
rule = ('a case is one run of a tool (batch edits, moves, queries, archives, verification, comparison, corrupt inputs) or of a library client, taken from the worlds of the other properties, including cyclic references, a graph with few tags but very many paths, or a listing with an adversarial filter; '
        'with spurious wake-ups, clock jumps, interrupted and short reads and writes only, it must end with exactly the outcome of an undisturbed sequential run; with failing operations besides, it must end; both within twenty times the steps of the undisturbed run (plus two million); '
        'non-trivial: something disturbed the run, or more than one thread could run')
assumptions = ['a step is a basic block of the instrumented crates, a lock operation or a file operation; the bound on steps stands for "once faults stop, the tool finishes"']

# modules whose cases are runs of the tool, with how often they are taken
SOURCES = {'p01': 2, 'p03': 2, 'p04': 2, 'p05': 1, 'p08': 2, 'p09': 1, 'p14': 3, 'p17': 4, 'p18': 2, 'p22': 2, 'p24': 1, 'p11': 1, 'p13': 1, 'p19': 1, 'p20': 1, 'p21': 1, 'p25': 1}
class Captured(Exception): pass
class Probe:
    """Stands in for the runner, to learn what the last run of a case would be."""
    def __init__(s, runner): s.runner = runner; s.calls = []; s.nontrivial = False; s.tags = []; s.judged = None
    def run(s, files, argv, conf=None, ref=False, keep=False, binary=None, stdin=None): raise Captured(files, argv, conf, binary)
    def ref(s, files, argv, conf=None): return s.runner.ref(files, argv, conf)
    def __getattr__(s, n): return getattr(s.runner, n)

def capture(mod, case, runner):
    try: mod.judge(case, Probe(runner))
    except Captured as c: return c.args
    return None

def soft(rng):
    f = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        cls = rng.choice(['read', 'read', 'write', 'write', 'out'])
        if rng.random() < .6: f.append('%s:%d%s:short:%d:' % (cls, rng.randrange(12), rng.choice(['', '+']), rng.choice([1, 10, 300, 900])))
        else: f.append('%s:%d:EINTR:0:' % (cls, rng.randrange(12)))
    return f

def failing(rng):
    """Operations that fail, once or from some point on for ever; only interruptions must stop at some point."""
    f = []
    for _ in range(rng.choice([1, 1, 2])):
        cls, kinds = rng.choice([('read', ['eof', 'eof', 'EIO']), ('read', ['eof', 'eof', 'EIO']), ('open', ['ENOENT', 'EMFILE', 'EACCES']), ('write', ['ENOSPC', 'EIO']), ('rename', ['EACCES', 'EBUSY', 'EXDEV']), ('creat', ['EEXIST', 'ENOSPC', 'EACCES']),
                                 ('unlink', ['EACCES', 'EBUSY']), ('mkdir', ['EEXIST', 'ENOSPC']), ('rmdir', ['ENOTEMPTY', 'EBUSY']), ('opendir', ['EMFILE', 'EACCES']), ('stat', ['EACCES', 'EIO', 'ENOENT'])])
        f.append('%s:%d%s:%s:0:' % (cls, rng.randrange(12) if rng.random() < .8 else rng.randrange(80), rng.choice(['', '+', '+']), rng.choice(kinds)))
    return f

def stars(rng, runner):
    """Listings with filters that invite a lot of backtracking."""
    n = rng.choice([4, 8, 20, 60])
    names = ['a' * rng.randrange(1, n + 1) for _ in range(3)] + ['ab' * rng.randrange(1, n // 2 + 1)]
    from tagcodec import serialize, empty
    files = {'tags': None}
    for x in names: files['tags/' + x + '.wind'] = serialize('wind', empty('wind'))
    filt = ''.join(rng.choice(['*a', '*a', '*', '?*', '*?', 'a*', '*b']) for _ in range(rng.choice([2, 5, 12, 25]))) + rng.choice(['', '.wind', 'x', '*x'])
    return files, [rng.choice(['strip', 'bludgeon']), filt, '-t', 'tags'], None

def layers(rng):
    """Tags of which each refers to all of the next layer (and perhaps back), so that there are very many paths but few tags."""
    import tagcodec as tc
    n, w = rng.choice([(4, 2), (8, 2), (20, 2), (30, 2), (12, 3), (1, 6), (1, 14), (3, 5)])
    st = tc.OBJS[tc.GROUPS['tag_collection']['struct']]['fields'][0]['struct']
    name = lambda l, i: 't%d_%d' % (l, i)
    files = {'tags': None}
    back = rng.random() < .3
    for l in range(n):
        for i in range(w):
            to = [(l + 1, j) for j in range(w)] if l + 1 < n else []
            if n == 1: to = [(0, j) for j in range(w)]
            if back and l and rng.random() < .5: to.append((rng.randrange(l), rng.randrange(w)))
            t = tc.empty('tag_collection')
            items = []
            for a, b in to:
                x = tc.build_struct(st, rng, lambda al: ('tag_collection', name(a, b)), 0, 0, [0], 0)
                items.append(x)
            tc.put(t, 'tags', tc.Refl(st, items))
            files['tags/%s.tag_collection' % name(l, i)] = tc.serialize('tag_collection', t)
    if rng.random() < .3: del files['tags/%s.tag_collection' % name(n - 1, 0)]
    root = name(0, 0) + '.tag_collection'
    small = n * w <= 8
    argv = rng.choice([['dependency-tree', rng.choice([root, '*']), '-b'], ['dependency-tree', rng.choice([root, '*']), '-d', rng.choice(['0', '1', '2'])], ['dependency-list', root, '-r'],
                       ['dependency-list', root, '-R'], ['archive-tag', root, '-O', 'o.7z'], ['bludgeon', '*'], ['refactor-paths', 't', 'u', '--start'] if 0 else ['strip', '*']])
    if small and rng.random() < .3: argv = ['dependency-tree', root]
    if argv[-1] == '-b' and not small and 'tags/%s.tag_collection' % name(n - 1, 0) not in files: argv = argv[:2] + ['-b', '-d', '2']
    return files, argv + ['-t', 'tags'], None

def ambiguous(files):
    """Several tags would be converted into one file: which of them is first is up to the order of the listing."""
    stems = [f.rpartition('.')[0] for f, b in files.items() if b is not None and f.rpartition('.')[2] in batch.CONVERT_GROUPS]
    return len(stems) > len(set(stems))

def cases(rng, runner, tier, k):
    r = rng.random()
    if r < .05:
        files, argv, binary = layers(rng); src = 'layers'
        todo = [(files, argv, binary, sched_conf(rng)) for _ in range(2)]
    elif r < .1:
        files, argv, binary = stars(rng, runner); src = 'filter'
        confs = [sched_conf(rng) for _ in range(4)]
        todo = [(files, argv, binary, c) for c in confs]
    else:
        src = rng.choice([m for m, n in SOURCES.items() for _ in range(n)])
        mod = engine.load_prop(src.upper())
        todo = []
        for case in mod.cases(rng, runner, 'quick', k):
            c = capture(mod, case, runner)
            if c: todo.append((c[0], c[1], c[3], dict(c[2])))
            if len(todo) >= 8: break
    for files, argv, binary, conf in todo:
        if files is None: continue
        driver = binary is not None
        base = sched_conf(rng, 20000)
        base['spurious'] = rng.choice([0, 20, 100, 500]); base['clkjump'] = rng.choice([0, 5, 50])
        for x in ('space', 'logops'): conf.pop(x, None) if x == 'logops' else None
        if src in ('p20', 'p21'): hard = True    # their results may depend on the order of tags that share a file or are damaged
        else: hard = rng.random() < .35 and bool(conf.get('faults') or conf.get('space') is not None)
        if argv[0] == 'convert' and ambiguous(files): hard = True
        f = soft(rng) if rng.random() < .7 else []
        c = dict(base)
        if not hard and not driver and rng.random() < .2:
            hard = True; conf['faults'] = failing(rng)
        if hard:
            f = list(conf.get('faults', [])) + f
            if conf.get('space') is not None: c['space'] = conf['space']
        if f: c['faults'] = f
        yield {'files': files, 'argv': argv, 'driver': driver, 'src': src, 'hard': hard, 'conf': c}

def norm(run):
    # which of several problems is the one reported may depend on the order of hash tables
    f = lambda b: sorted(l if not l.startswith(b'Error executing') else b':'.join(l.split(b':')[:1]) for l in re.sub(rb'in \d+ ms', b'in N ms', b).splitlines())
    return {'exit status': run.rc, 'standard output': f(run.out), 'standard error': f(run.err), 'files': {p: b for p, b in run.fs.items()}}

def judge(case, runner):
    runner.judged = None
    files, argv, conf = case['files'], case['argv'], case['conf']
    if case['driver'] and 'script' not in files: return []
    if case['src'] == 'layers' and argv[0] == 'dependency-tree' and '-d' not in argv:
        # printing all paths takes as long as there are paths; that nothing is to be printed must be found out sooner
        tags = [f for f in files if files[f] is not None]
        if len(tags) > 8 and ('-b' not in argv or any('tags/%s.%s' % d not in files for f in tags for d in graph.deps(files[f], 'tag_collection') or ())): return []
    binary = build.DRIVER if case['driver'] else None
    base = None
    if not case['driver']:
        base = runner.ref(files, argv, {'maxsteps': 20000000})
        if base.how != 'exit': runner.judged = base; return [V('plain-' + base.how, 'undisturbed and sequential, the run ended with %s: %s' % (base.how, base.err.decode('utf-8', 'replace').strip()[-300:]))]
    limit = 2000000 + (20 * int(base.end['steps']) if base else 0)
    run = runner.run(files, argv, dict(conf, maxsteps=limit), binary=binary)
    runner.judged = run
    runner.tags = [case['src'], 'hard' if case['hard'] else 'soft']
    runner.nontrivial = int(run.end.get('multi', 0)) > 0 or int(run.end.get('spur', 0)) > 0 or int(run.end.get('jumps', 0)) > 0 or any(x[3] for x in run.faults_fired())
    if run.how == 'crash' and any(':crash' in f for f in conf.get('faults', [])): return []
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s after %s steps (%s undisturbed): %s' % (run.how, run.end.get('steps'), base.end['steps'] if base else '?', run.err.decode('utf-8', 'replace').strip()[-300:]))]
    if case['hard'] or case['driver']: return []
    if any(not re.search(r':(short|EINTR|eof):', f) for f in conf.get('faults', [])): return []
    a, b = norm(base), norm(run)
    for k in a:
        if a[k] != b[k]:
            d = (sorted(set(a[k]) ^ set(b[k]))[:4] if isinstance(a[k], list) else [p for p in set(a[k]) | set(b[k]) if a[k].get(p, 0) != b[k].get(p, 0)][:4] if isinstance(a[k], dict) else (a[k], b[k]))
            return [V('outcome', 'disturbances change the %s: %r' % (k, d))]
    return []
