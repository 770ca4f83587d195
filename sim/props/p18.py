"""P18: an archive holds exactly the needed tags, intact."""
import re
import batch, graph, p17, p24, sevenz
from batch import V, sched_conf

rule = ('a case is one archive of a tag or of a scenario, with an engine, compression level, output name and overwrite option, over a generated tree of tags (cycles, duplicate and shadowed references), a random listing order and hash seed, and '
        'sometimes short or interrupted reads and writes, a failing read, a damaged or missing tag, a failing or torn write of the archive or a kill; the archive on disk is unpacked by an independent reader and compared; '
        'non-trivial: an archive of at least two tags was written, or had to be refused')
assumptions = ['tags are in the form the tools save them in (an archive holds the tags as they would be saved)', 'with no overwrite option an existing file of that name is left alone, as the tool says', 'a killed run may leave a temporary file behind']

TEMP = re.compile(r'(^|/)\.[^/]*\.tmp$')

def cases(rng, runner, tier, k):
    kind = rng.choice(['archive', 'archive', 'scenario'])
    if kind == 'scenario':
        eng = rng.choice(sorted(graph.ENGINES)); w, root, st = graph.gen_map_world(rng, eng, n=rng.choice([2, 4]), p=rng.choice([0.1, 0.4]))
        q = {'kind': kind, 'engine': eng}
    else:
        w = graph.gen_graph(rng, missing=rng.choice([0, 0, 0, 0.05]), fill=rng.choice([0.02, 0.1, 0.3]))
        tags = batch.all_tags(w.files, w.dirs)
        if not tags: return
        if rng.random() < 0.6: graph.connect(rng, w.files, w.dirs, rng.choice([0.3, 0.7, 1]), fill=rng.choice([0.05, 0.3]))
        root = rng.choice(tags); q = {'kind': kind}
    q.update(root=list(root), dirs=w.dirs, level=rng.choice([0, 1, 3]) if rng.random() < .97 else 7, out=rng.choice([None, 'out/x.7z', 'o.7z']), over=rng.random() < .4)
    base = w.files
    tags = batch.all_tags(base, q['dirs'])
    if q['out'] == 'out/x.7z': base['out'] = None
    if rng.random() < .3: base[outfile(q)] = rng.choice([b'', b'old archive', b'x' * 5000])
    n_read = 40
    for _ in range(4 if tier == 'quick' else 12):
        f2 = dict(base); faults = []; un = set(); wf = False
        r = rng.random()
        if r < 0.2:
            faults, un = p17.read_faults(rng, f2, q['dirs'], rng.sample(tags, min(len(tags), rng.choice([1, 1, 2]))))
        elif r < 0.3:
            f = batch.where(f2, q['dirs'], *rng.choice(tags))
            if f2.get(f): f2[f] = p24.damage(rng, f2[f])[0]
        elif r < 0.45:
            faults = ['read:%d:%s:%d:tags' % (rng.randrange(n_read), *rng.choice([('short', rng.choice([1, 300, 999])), ('EINTR', 1)])) for _ in range(rng.choice([1, 3]))]
        elif r < 0.6:
            faults = ['write:0%s:short:%d:' % (rng.choice(['', '+']), rng.choice([1, 300, 999])), 'write:%d:EINTR:1:' % rng.randrange(3)][:rng.choice([1, 2])]
        elif r < 0.8:
            wf = True
            faults = [rng.choice(['creat:0:%s:1:', 'open:0:%s:1:7z', 'write:0:%s:1:', 'write:0+:%s:1:', 'mut:%d:%%s:1:' % rng.randrange(5), 'rename:0:%s:1:', 'rename:0:%s:1:']) % rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EROFS', 'EDQUOT'])]
            if rng.random() < .3 : faults = ['write:0:short:%d:' % rng.choice([1, 500, 999]), 'write:1:ENOSPC:1:']
        elif r < 0.92:
            wf = True
            faults = [rng.choice(['mut:%d:crash:500:' % rng.randrange(5), 'write:0:crash:%d:' % rng.choice([0, 300, 1000]), 'mut:%d:crashafter:1:' % rng.randrange(5)])]
        else: wf = True; faults = p17.fleeting(rng)
        conf = sched_conf(rng)
        if faults: conf['faults'] = faults
        yield {'files': f2, 'q': q, 'conf': conf, 'un': sorted(map(list, un)), 'wf': wf}

def outfile(q):
    return q['out'] or q['root'][0].replace('\\', '/').rpartition('/')[2] + '.7z'

def torn(o, b, want):
    """It was not reported as written: what is there must be what was there, or all of it."""
    try:
        if dict(sevenz.read(b)) == want: return []
    except Exception: pass
    return [V('torn', '%s was not reported as written, but has neither what it had before nor the whole archive: %s' % (o, batch.show(b)))]

def argv(q):
    a = ['archive-scenario', q['root'][0].replace('\\', '/'), '-e', q['engine']] if q['kind'] == 'scenario' else ['archive-tag', q['root'][0] + '.' + q['root'][1]]
    return a + graph.tflags(q['dirs']) + ['-l', str(q['level'])] + (['-O', q['out']] if q['out'] else []) + (['-o'] if q['over'] else [])

def want_of(files, q, un):
    root = (q['root'][0].replace('/', '\\'), q['root'][1])
    try:
        need = graph.for_map(files, q['dirs'], root, q['engine'], un) if q['kind'] == 'scenario' else set(graph.closure(files, q['dirs'], root, unreadable=un))
    except graph.Broken: return None
    # everything goes into the archive, so everything must be readable
    for t in need:
        if t in un or graph.deps(graph.look(files, q['dirs'], t), t[1]) is None: return None
    return {graph.show(t): graph.look(files, q['dirs'], t) for t in need}

def judge(case, runner):
    files, q = case['files'], case['q']
    runner.judged = None
    un = {tuple(x) for x in case['un']}
    if q['out'] == 'out/x.7z' and 'out' not in files: return []
    if batch.where(files, q['dirs'], q['root'][0].replace('\\', '/'), q['root'][1]) is None: return []
    if len(case['conf'].get('faults', [])) < len(un): return []
    want = want_of(files, q, un)
    run = runner.run(files, argv(q), case['conf'])
    runner.judged = run
    o = outfile(q); old = files.get(o)
    fired = [f for f in run.faults_fired() if f[3] and f[1] not in ('short', 'EINTR')]
    runner.tags = [q['kind'], 'refuse' if want is None else 'write'] + (['existing'] if old is not None else [])
    for p in set(files) | set(run.fs):
        if TEMP.search(p) and p not in files and (run.how == 'crash' or any('FAULT' in l and ' unlink ' in l for l in run.ops())): continue
        if p != o and run.fs.get(p, 0) != files.get(p, 0) and (files.get(p) is not None or p in run.fs and p not in _parents(files)) : return [V('elsewhere', '%s changed: %s before, %s after' % (p, batch.show(files.get(p)), batch.show(run.fs.get(p))))]
    if run.how not in ('exit', 'crash'): return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    lines = run.lines()
    wrote = any(l.startswith('Wrote ') for l in lines)
    if old is not None and not q['over']:
        if run.fs.get(o) != old: return [V('overwrote', '%s existed and was changed without the overwrite option' % o)]
        return []
    if run.how == 'crash':
        runner.nontrivial = True
        return [] if run.fs.get(o) == old else torn(o, run.fs.get(o), want)
    if want is None:
        runner.nontrivial = True
        if wrote or run.rc == 0: return [V('incomplete', 'an archive is reported as written although a needed tag cannot be read')]
        if run.fs.get(o) != old: return [V('incomplete-left', 'a needed tag cannot be read, but %s was written: %s' % (o, batch.show(run.fs.get(o))))]
        return []
    if case['wf'] and fired:
        runner.nontrivial = True
        if wrote != (run.rc == 0): return [V('status', 'says %r but exits with %d' % (lines, run.rc))]
    elif run.rc != 0: return [V('refused', 'fails although everything can be read and written: %s' % (run.err.decode('utf-8', 'replace').strip()[-300:] or lines))]
    if not wrote and run.rc == 0: return [V('silent', 'exits with 0 without saying that anything was written: %r' % lines)]
    if not wrote: return [] if run.fs.get(o) == old else torn(o, run.fs.get(o), want)
    runner.nontrivial |= len(want) > 1
    b = run.fs.get(o)
    if b is None: return [V('missing', '%s is reported as written, but it is not there' % o)]
    try: got = sevenz.read(b)
    except Exception as e: return [V('unreadable', '%s is reported as written, but cannot be unpacked: %s: %s' % (o, type(e).__name__, e))]
    names = [n for n, _ in got]
    if len(set(names)) != len(names): return [V('twice', 'an entry occurs twice: %r' % sorted(n for n in names if names.count(n) > 1)[:4])]
    if set(names) != set(want): return [V('wrong-set', 'in the archive but not needed: %r; needed but not in the archive: %r' % (sorted(set(names) - set(want))[:4], sorted(set(want) - set(names))[:4]))]
    for n, d in got:
        if d != want[n]: return [V('contents', '%s is %s in the archive, the tag is %s' % (n, batch.show(d), batch.show(want[n])))]
    ref = runner.ref(files, argv(q), {'seed': 99, 'dseed': 5})
    try: rn = [n for n, _ in sevenz.read(ref.fs[o])]
    except Exception: return []
    if rn != names: return [V('order', 'the order of entries depends on hashing or listing order: %r vs %r' % (names[:6], rn[:6]))]
    return []

def _parents(files):
    out = set()
    for p in files:
        while '/' in p: p = p.rpartition('/')[0]; out.add(p)
    return out
