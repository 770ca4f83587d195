"""P16: stacked tags folders act as one folder, in the given precedence."""
import batch, driver
from batch import V, sched_conf
from props import p11, p12
from props.p11 import fewer_calls

needs_driver = True
rule = ('a case is a script of listings with filters, lookups, opens and saves by one or two threads on one to four stacked tags folders, with or without a separate output folder, among files that are no tags, files whose names no tag can have, folders named like tags, '
        'names with dots and non-ASCII characters, directories listed in random order, and lookups, listings, opens and saves that fail; every answer and every file must be what one merged folder with the given precedence gives (a failing call may report an error or list less, never something else); '
        'non-trivial: a tag is in more than one folder, or a file that is no tag is in the way')
assumptions = ['names are in lower case, as tag paths are', 'threads share the tree through std::sync::RwLock']
real, stub = p11.real, p11.stub

NAMES = ['gust', 'x.y', 'wind', 't', 'é', 'zażółć', '日本', 'a b'.replace(' ', '_'), 'con.x', '.h', '-']
BASES = ['', 'a/', 'b/c/', 'dir.wind/', 'ü/', 'a/a/']
STRAY = ['readme.txt', 'noext', 'x.wind.bak', 'con.wind', 'aux.sound', 'a<b.wind', 'x:y.wind', 'tab\tx.wind', 'x..wind', 'dot./x.wind', 'q?.wind', 'wind', '.DS_Store', 'x.', 'a/lpt1.wind', 'con/x.wind', 'nul/deep/x.wind']
FILTERS = ['*', '*.wind', '?.wind', 'a*', '*a*', '??*.wind', 'é.wind', '*é*', 'ü?*', 'dir.wind*', '*.y.wind', '*.sound', '**', '*?', 'a\\*', 'b\\c\\*', 'zaż*', '*日*', '*本.wind', '?.?.wind']

def cases(rng, runner, tier, k, cow_share=.25, kind='plain'):
    dirs = ['tags', 'tags2', 'tags3', 'tags4'][:rng.choice([1, 2, 2, 3, 3, 4])]
    tags = sorted({rng.choice(BASES) + rng.choice(NAMES) + '.wind' for _ in range(rng.choice([1, 2, 3, 5, 8]))})
    files = {d: None for d in dirs}
    used = set()      # folders and files may not clash
    def place(f, b):
        if f in files or any(x.startswith(f + '/') for x in files) or any('/'.join(f.split('/')[:i]) in files and files['/'.join(f.split('/')[:i])] is not None for i in range(1, f.count('/') + 1)): return False
        files[f] = b; return True
    n = 0
    for t in tags:
        for d in rng.sample(dirs, rng.choice([0, 1, 1, 2, len(dirs)]) if len(dirs) > 1 else rng.choice([0, 1, 1])):
            n += 1
            b = driver.wind(n)
            place(d + '/' + t, b if rng.random() < .92 else b[:-rng.randrange(1, 100)])
    for _ in range(rng.choice([0, 0, 1, 2, 4])): place(rng.choice(dirs) + '/' + rng.choice(STRAY), rng.choice([b'', b'text', driver.wind(99)]))
    if rng.random() < .3: place(rng.choice(dirs) + '/' + rng.choice(tags), None)      # a folder named like a tag
    if rng.random() < .2: place(rng.choice(dirs) + '/empty.wind', None)
    cow = 'cow' if rng.random() < cow_share else None
    if cow:
        files['cow'] = None
        for t in tags:
            if rng.random() < .2: place('cow/' + t, driver.wind(rng.randrange(1, 50)))
    v = [0]
    def op():
        o = rng.choice(['list', 'list', 'walk', 'where', 'where', 'copy', 'copy', 'contains', 'write', 'write', 'writeto', 'bytes'])
        t = rng.choice(tags)
        if o in ('list', 'walk'): return o + ' ' + (rng.choice(FILTERS) if rng.random() < .6 else batch.blur(rng, t).replace('/', '\\'))
        if o == 'bytes': return 'bytes %s/%s' % (rng.choice(dirs + ([cow] if cow else [])), t)
        if o in ('write', 'writeto'):
            v[0] += 1
            return '%s %s %d' % (o, t, rng.choice([100 * v[0], 1, 2, 3])) + (' %d' % rng.randrange(len(dirs)) if o == 'writeto' else '')
        return o + ' ' + t
    case = {'dirs': dirs, 'kind': kind, 'files': files, 'before': [op() for _ in range(rng.choice([1, 2, 4, 8]))], 'threads': [[op() for _ in range(rng.choice([1, 2, 4]))] for _ in range(rng.choice([0, 0, 1, 2]))],
            'after': ['listall'] + [o + ' ' + t for t in tags for o in ('where', 'copy')], 'tags_': tags}
    if cow: case['cow'] = cow
    for _ in range(8 if tier == 'quick' else 30):
        conf = sched_conf(rng, 4000); conf['dseed'] = rng.randrange(1 << 30)
        f = []
        if rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                r = rng.random(); t = rng.choice(tags); n = rng.choice([0, 0, 1, 2, 3, 5, 8]); w = rng.choice([t, rng.choice(dirs), rng.choice(dirs) + '/' + t])
                if r < .5: f.append('stat:%d%s:%s:0:%s' % (n, rng.choice(['', '', '+']), rng.choice(['EIO', 'EACCES']), w))
                elif r < .65: f.append('opendir:%d:%s:0:%s' % (n, rng.choice(['EIO', 'EACCES', 'EMFILE']), rng.choice(dirs)))
                elif r < .75: f.append('readdir:%d:EIO:%d:%s' % (n, rng.randrange(3), rng.choice(dirs)))
                elif r < .9: f += p11.read_faults(rng, tags, dirs)
                else: f += p12.write_faults(rng, tags)
        if f: conf['faults'] = f
        yield dict(case, conf=conf)

def judge(case, runner):
    runner.judged = None
    run, ev = driver.run(runner, case)
    runner.judged = run
    seen = {}
    for f, b in case['files'].items():
        if b is not None and '/' in f: seen.setdefault(f.partition('/')[2], []).append(f)
    m = driver.Model(case)
    runner.nontrivial = any(len(x) > 1 for x in seen.values()) or bool(m.blocked)
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    if ev is None:
        if b'SETUP' in run.out: return [] if case['conf'].get('faults') else [V('refused', 'the folders are refused: %s' % run.out[-200:])]
        return [V('no-history', 'the history is incomplete: %s' % run.out[-300:])]
    ok, at = driver.linearize(ev, m, m.initial(case['files']), driver.final_files(m, run))
    if ok is None: runner.tags = ['undecided']
    if ok is False: return [V('not-explained', 'not what one merged folder gives; stuck at %s' % '; '.join(map(repr, at or ['the files at the end']))[:600])]
    return []

reductions = [fewer_calls, fewer_calls, fewer_calls]
