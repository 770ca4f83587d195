"""P24: corrupt tag files are never accepted."""
import random, struct
import batch, graph, moves, sevenz, tagcodec as tc
from batch import V, sched_conf

rule = ('a case is one run of a tool over tags of which some are damaged, on disk or in what a read returns (a flipped bit, a burst of at most 32 bits, several random bits, zeroed or overwritten bytes, another checksum, a truncation, an empty file, a damaged '
        'checksum or header), where the same tags intact are accepted; each damaged tag the tool has to read must be rejected: not listed as good, copied, compared, archived, followed for references or rewritten; '
        'non-trivial: a damaged tag was one the tool accepts when intact')
assumptions = ['damage that sets the checksum to 0xFFFFFFFF (no checksum) cannot be told from a file that has none', 'damage to header bytes that mean nothing (0x00-0x24, 0x30-0x38) is none',
               'bludgeon is asked to read loosely and is left out']
BATCH = ['nudge', 'strip', 'undefault', 'recompress-vertices', 'refactor-groups', 'convert']

def damage_bits(rng, b):
    """Bit positions to flip; only meaningful ones."""
    n = len(b) * 8
    def ok(bit): y = bit // 8; return not (y < 0x24 or 0x30 <= y < 0x38)
    k = rng.random()
    if k < 0.45:
        while True:
            bit = rng.randrange(n) if rng.random() < .85 else rng.randrange(0x24 * 8, 0x40 * 8)
            if ok(bit): return [bit]
    if k < 0.75:
        ln = rng.randrange(2, 33); st = rng.randrange(0x40 * 8, max(0x40 * 8 + 1, n - ln))
        bits = [st] + [i for i in range(st + 1, st + ln - 1) if rng.random() < .5] + [st + ln - 1]
        return sorted({i for i in bits if i < n}) or [0x24 * 8]
    return sorted({rng.randrange(0x40 * 8, n) for _ in range(rng.choice([2, 3, 8, 40]))}) if n > 0x40 * 8 else [0x28 * 8]

def damage(rng, b):
    if rng.random() < .06: return batch.another(rng, b), 'wrong group'
    k = rng.random()
    if k < 0.12: return b[:rng.randrange(0, len(b))], 'cut'
    if k < 0.15: return b'', 'empty'
    c = bytearray(b)
    if k < 0.21:    # another checksum, one that is no particular one
        c[0x28:0x2c] = rng.choice([bytes(4), bytes(4), b'\0\0\0\1', b'\xff\xff\xff\xfe', b'\x7f\xff\xff\xff', b'\xde\xad\xbe\xef', b'blam', bytes(rng.randrange(256) for _ in range(4))])
        if rng.random() < .5 and len(b) > 0x40: c[rng.randrange(0x40, len(b))] ^= 1 << rng.randrange(8)
    elif k < 0.27 and len(b) > 0x40:    # a sector that was never written
        i = rng.randrange(0x40, len(b)) if rng.random() < .5 else max(0x40, rng.randrange(0x40, len(b)) & ~511); n = min(len(b) - i, rng.choice([4, 16, 512, 512, 4096, len(b)]))
        c[i:i + n] = bytes([rng.choice([0, 0, 0xff])]) * n
    if bytes(c) != b and c[0x28:0x2c] != b'\xff\xff\xff\xff': return bytes(c), 'overwritten'
    c = bytearray(b)
    for i in damage_bits(rng, b): c[i // 8] ^= 1 << (i % 8)
    if c[0x28:0x2c] == b'\xff\xff\xff\xff': return b[:-1], 'cut'
    return bytes(c), 'bits'

def cases(rng, runner, tier, k):
    mode = rng.choice(['batch'] * 3 + ['compare'] * 2 + ['archive', 'list', 'list-r', 'list-R', 'tree', 'recover', 'move', 'map'])
    case = {'mode': mode}
    if mode == 'batch':
        files, job = batch.gen_job(rng, verb=rng.choice(BATCH), n=rng.choice([1, 2, 3, 5, 8]), fill=rng.choice([0.05, 0.3]))
        job['filter'] = '*'
        case['job'] = job; dirs = job['dirs']
        tags = batch.all_tags(files, dirs)
    elif mode == 'compare':
        w = batch.gen_tags(rng, rng.choice([1, 2, 4, 8]), fill=0.1); files = w.files; dirs = w.dirs
        tags = batch.all_tags(files, dirs)
        for f in list(files):
            if files[f] is not None and rng.random() < .9: files['other' + f[4:]] = files[f] if rng.random() < .7 else tc.build(f.rpartition('.')[2], rng) if batch.is_tag(f) else b''
        files.setdefault('other', None)
        dirs = ['tags', 'other']
        case['opts'] = rng.choice([[], ['-v'], ['-r']])
    elif mode == 'map':
        eng = rng.choice(sorted(graph.ENGINES)); w, root, st = graph.gen_map_world(rng, eng, n=rng.choice([2, 4]))
        files, dirs = w.files, w.dirs
        case.update(engine=eng, root=list(root), verb=rng.choice(['list-scenario-tags', 'archive-scenario']))
        tags = batch.all_tags(files, dirs)
    elif mode == 'recover':
        w = batch.gen_tags(rng, rng.choice([1, 3, 6]), ['unicode_string_list', 'tag_collection', 'ui_widget_collection', 'scenario', 'bitmap', 'hud_message_text'], fill=0.4)
        files, dirs = w.files, w.dirs; files['data'] = None
        tags = batch.all_tags(files, dirs)
    elif mode == 'move':
        files, job = moves.gen_move(rng, n=rng.choice([2, 4, 8])); case['job'] = job; dirs = job['dirs']
        tags = batch.all_tags(files, dirs)
    else:
        w = graph.gen_graph(rng, missing=0); files, dirs = w.files, w.dirs
        tags = batch.all_tags(files, dirs)
        if not tags: return
        case['root'] = list(rng.choice(tags))
    if not tags: return
    case['dirs'] = dirs
    base = files
    for _ in range(5 if tier == 'quick' else 14):
        files = dict(base); faults = []; bad = []
        for t in rng.sample(tags, min(len(tags), rng.choice([1, 1, 1, 2]))):
            n = batch.tag_of(t)
            if mode == 'compare':
                k = rng.choice('abc'); fs = [d + '/' + n for d, on in (('tags', k in 'ac'), ('other', k in 'bc')) if on]
                fs = [f for f in fs if files.get(f)]
            else: fs = [f for f in [batch.where(files, dirs, *t)] if f]
            if not fs or len(files[fs[0]]) <= 0x40: continue
            if rng.random() < 0.3 and mode not in ('move',):
                for f in fs: faults.append('read:0+:flip:%d:%s' % (rng.randrange(0x40 * 8, len(files[f]) * 8), f))
                # the substring must name one file only
                if any(sum(f in g for g in files) > 1 for f in fs): faults = faults[:-len(fs)]; continue
            else:
                d, how = damage(rng, files[fs[0]])
                same = all(files[f] == files[fs[0]] for f in fs)
                for f in fs: files[f] = d if same else damage(rng, files[f])[0]
            bad.append(n)
        if not bad: continue
        conf = sched_conf(rng)
        if faults: conf['faults'] = faults
        yield dict(case, files=files, intact={f: base[f] for f in files if files[f] != base[f]}, bad=bad, conf=conf, jobs=batch.jobs_for(rng))

def argv(c):
    m = c['mode']; tf = graph.tflags(c['dirs'])
    if m == 'batch': return batch.argv(c['job'], jobs=c['jobs'])
    if m == 'compare': return ['compare', 'tags', 'other', '-s', 'all', '-j', str(c['jobs'])] + c['opts']
    if m == 'recover': return ['recover', '*', '-t', 'tags', '-d', 'data', '-j', str(c['jobs'])]
    if m == 'move': return moves.argv(c['job'], c['jobs'])
    if m == 'map':
        return [c['verb'], c['root'][0].replace('\\', '/') + ('.scenario' if c['verb'] == 'verify-scenario' else ''), '-e', c['engine']] + tf + (['-O', 'o.7z'] if c['verb'].startswith('archive') else []) + (['-j', str(c['jobs'])] if c['verb'].startswith('verify') else [])
    n = c['root'][0] + '.' + c['root'][1]
    if m == 'archive': return ['archive-tag', n, '-O', 'o.7z'] + tf
    if m == 'tree': return ['dependency-tree', n] + tf
    return ['dependency-list', n] + {'list': [], 'list-r': ['-r'], 'list-R': ['-R']}[m] + tf

def judge(case, runner):
    files = case['files']; m = case['mode']; dirs = case['dirs']
    runner.judged = None
    intact = dict(files, **case['intact'])
    run = runner.run(files, argv(case), case['conf'])
    runner.judged = run
    runner.tags = [m if m != 'map' else case['verb']]
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    bad = [n for n in case['bad'] if any(files.get(d + '/' + n) is not None for d in dirs)]
    # which of the damaged tags does this run have a wrong version of
    flipped = [f.split(':', 4)[4] for f in case['conf'].get('faults', []) if f.startswith('read')]
    for f in flipped:
        if sum(f in g for g in files) != 1: return []
    isbad = lambda f: f in flipped or f in case['intact']
    asked = lambda f: case['mode'] == 'batch' and case['job']['verb'] == 'convert' and case['job'].get('overwrite') and f.endswith('.' + case['job']['to'])    # to be replaced whatever it holds
    for n in bad:
        for d in dirs:
            f = d + '/' + n
            if f in files and isbad(f) and not asked(f) and f in run.fs and run.fs[f] != files[f]: return [V('rewritten', '%s is damaged and was replaced: %s' % (f, batch.show(run.fs[f])))]
            if f in files and isbad(f) and m != 'move' and f not in run.fs: return [V('removed', '%s is damaged and was removed' % f)]
    out = run.out.decode('utf-8', 'replace'); lines = run.lines()
    if m == 'batch':
        ref = runner.ref(intact, batch.argv(case['job'], jobs=1))
        st, _, _ = batch.report(ref); got, _, _ = batch.report(run)
        for n in bad:
            was = [s for s, l in st.get(n, []) if s == 'processed' or 'file on disk matches' in l]
            now = [s for s, _ in got.get(n, [])]
            if was: runner.nontrivial = True
            if was and now != ['failed']: return [V('accepted', '%s is damaged, but reported as %s' % (n, now or 'nothing'))]
            if 'processed' in now: return [V('accepted', '%s is damaged, but reported as processed' % n)]
            d = batch.dest(case['job'], n, files)
            shared = any(batch.dest(case['job'], batch.tag_of(t), files) == d for t in batch.matching(case['job'], files) if batch.tag_of(t) != n)
            if was and not shared and run.fs.get(d) != files.get(d): return [V('written', '%s is damaged, but %s was written from it' % (n, d))]
    elif m == 'compare':
        for n in bad:
            if not all(d + '/' + n in files for d in dirs): continue
            runner.nontrivial = True
            if 'Matched: ' + n in lines or 'Mismatched: ' + n in lines: return [V('compared', '%s is damaged, but compared: %s' % (n, [l for l in lines if n in l]))]
            if not any(l.startswith('Failed to process %s: ' % n) for l in lines): return [V('unreported', '%s is damaged, but nothing is reported' % n)]
    elif m == 'recover':
        ref = runner.ref(intact, argv(dict(case, jobs=1)))
        new = [p for p in run.fs if p not in files and run.fs[p] is not None]
        for n in bad:
            solo = runner.ref({p: b for p, b in intact.items() if not p.startswith('tags/') or p == 'tags/' + n}, ['recover', n, '-t', 'tags', '-d', 'data', '-j', '1'])
            made = [p for p in solo.fs if p not in intact and solo.fs[p] is not None]
            if not made: continue
            runner.nontrivial = True
            others = set()
            for p in files:
                if p.startswith('tags/') and files[p] is not None and p[5:] not in bad:
                    o = runner.ref({q: b for q, b in intact.items() if not q.startswith('tags/') or q == p}, ['recover', p[5:], '-t', 'tags', '-d', 'data', '-j', '1']) if batch.is_tag(p) else None
                    if o: others |= set(o.fs) - set(intact)
            for p in made:
                if p in new and p not in others: return [V('recovered', '%s is damaged, but %s was recovered from it' % (n, p))]
            if not any(l.startswith('Failed to recover %s: ' % n) for l in lines): return [V('unreported', '%s is damaged, but nothing is reported' % n)]
    elif m == 'move':
        bf = [f for f in files if f in case['intact']]
        pl = {graph.show(a): graph.show(b) for a, b in moves.plan(files, case['job']) or []}
        for f in bf:
            d, _, n = f.partition('/')
            at = f if f in run.fs else d + '/' + pl.get(n, n)
            if run.fs.get(at) != files[f]: return [V('rewritten', '%s is damaged; %s after the move' % (f, batch.show(run.fs.get(at))))]
        runner.nontrivial = True
    else:
        un = set()
        for n in bad:
            f = batch.where(files, dirs, *n.rsplit('.', 1))
            if f and isbad(f): un.add(graph.split(n.replace('/', '\\')))
        root = (case['root'][0].replace('/', '\\'), case['root'][1])
        try:
            if m == 'list':
                need = {root}
            elif m in ('list-r', 'tree'):
                need = {t for t in graph.closure(intact, dirs, root) if graph.can_refer(t[1])}
            elif m == 'archive': need = set(graph.closure(intact, dirs, root))
            elif m == 'list-R':
                need = {(p.replace('/', '\\'), g) for p, g in batch.all_tags(files, dirs) if root[1] in graph.can_refer(g)}
            else:
                need = graph.for_map(intact, dirs, root, case['engine'])
                if case['verb'] == 'list-scenario-tags': need = {t for t in need if graph.can_refer(t[1])}
        except graph.Broken: return []
        hit = need & un
        if not hit: return []
        runner.nontrivial = True
        if m == 'tree':
            for t in hit:
                s = graph.show(t)
                for l in lines:
                    x = l.lstrip(' │├└─')
                    if x in (s, s + ' (circular)', s + ' (minimized)') and t != root: return [V('followed', 'dependency-tree shows the damaged %s as good' % s)]
            return []
        if m == 'map' and case['verb'] == 'verify-scenario':
            if run.rc == 0 and not any(graph.show(t) in l and not l.startswith('Verified') for t in hit for l in lines): return [V('verified', '%s is damaged, but verification says: %s' % (graph.show(next(iter(hit))), out[:300]))]
            return []
        if 'o.7z' in run.fs: return [V('archived', 'an archive was written although %s is damaged' % graph.show(next(iter(hit))))]
        if run.rc == 0: return [V('accepted', '%s succeeds although %s is damaged: %r' % (' '.join(run.argv[:2]), graph.show(next(iter(hit))), lines[:5]))]
    return []
