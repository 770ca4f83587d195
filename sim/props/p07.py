"""P07: read-only operations never modify anything."""
import re
import batch, engine
from batch import V, sched_conf
from props import p15, p18

rule = ('a case is one run of a read-only tool (dependency lists and trees, scenario tag lists, comparison, verification, map information, archives) on the worlds of the properties about them, including cyclic, damaged and unreadable tags, '
        'with failing, short and interrupted operations or a kill at any operation; every file and folder must be byte for byte as before, apart from the archive written, and no operation that changes anything may even be tried on another path; '
        'non-trivial: at least three tags exist and the tool read something')
assumptions = ['the output of an archive is not itself one of the tags']

READONLY = {'archive-scenario', 'archive-tag', 'compare', 'cmp', 'dependency-list', 'dependency-tree', 'info', 'list-engines', 'list-scenario-tags', 'verify-scenario', 'version'}
SOURCES = {'p14': 3, 'p17': 4, 'p18': 4, 'p22': 3, 'p24': 2}
MUT = ('creat', 'write', 'rename', 'mkdir', 'rmdir', 'unlink', 'link', 'trunc', 'chmod')

def any_faults(rng):
    f = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.random(); n = rng.randrange(40) if rng.random() < .7 else rng.randrange(300); plus = rng.choice(['', '', '+'])
        if k < .25: f.append('open:%d%s:%s:0:' % (n, plus, rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT'])))
        elif k < .45: f.append('read:%d%s:%s:0:' % (n, plus, rng.choice(['EIO', 'eof'])))
        elif k < .55: f.append('read:%d:%s:%d:' % (n, rng.choice(['short', 'EINTR']), rng.choice([1, 500])))
        elif k < .65: f.append('opendir:%d%s:%s:0:' % (rng.randrange(6), plus, rng.choice(['EIO', 'EACCES'])))
        elif k < .75: f.append('stat:%d%s:%s:0:' % (n, plus, rng.choice(['EIO', 'EACCES', 'ENOENT'])))
        elif k < .85: f.append('out:%d%s:%s:0:' % (rng.randrange(10), plus, rng.choice(['EIO', 'EPIPE', 'ENOSPC'])))
        else: f.append('any:%d:crash:0:' % n)
    return f

LEFT = ['.977-0.tmp', '.1-17.tmp', 'x.tmp', 'x.wind~', 'x.wind.bak', '.x.wind.swp', 'notes.txt', 'Thumbs.db', '.DS_Store', 'x', 'x.lock', 'empty.wind', 'core', 'x.7z', 'tags.txt']
def leftovers(rng, files):
    """The world with files in it that are no tags: what an earlier run that was killed left, backups, notes, empty folders."""
    files = dict(files)
    dirs = sorted({p.rpartition('/')[0] for p in files if '/' in p} | {p for p in files if files[p] is None})
    if not dirs: return files
    for _ in range(rng.choice([1, 2, 4])):
        p = rng.choice(dirs) + '/' + rng.choice(LEFT)
        if p in files or any(q.startswith(p + '/') for q in files) or any(files.get(p[:i]) is not None for i, c in enumerate(p) if c == '/'): continue
        files[p] = None if rng.random() < .15 else rng.choice([b'', b'left ' + p.encode(), rng.choice([b for b in files.values() if b] or [b'x'])])
    return files

def cases(rng, runner, tier, k):
    src = rng.choice([m for m, n in SOURCES.items() for _ in range(n)])
    mod = engine.load_prop(src.upper())
    m = 0
    for case in mod.cases(rng, runner, 'quick', k):
        c = p15.capture(mod, case, runner)
        if not c or c[0] is None or c[1][0] not in READONLY: continue
        conf = dict(c[2])
        if rng.random() < .6:
            f = any_faults(rng)
            if rng.random() < .7: conf['faults'] = f
            else: conf['faults'] = list(conf.get('faults', [])) + f
        files = c[0] if rng.random() < .6 else leftovers(rng, c[0])
        yield {'files': files, 'argv': c[1], 'src': src, 'conf': conf}
        m += 1
        if m >= 8: break

def output(argv):
    if not argv[0].startswith('archive'): return None
    if '-O' in argv: return argv[argv.index('-O') + 1]
    n = argv[1].replace('\\', '/')
    if argv[0] == 'archive-tag': n = n.rpartition('.')[0]
    return n.rpartition('/')[2] + '.7z'

def judge(case, runner):
    runner.judged = None
    files, argv = case['files'], case['argv']
    out = output(argv)
    run = runner.run(files, argv, case['conf'])
    runner.judged = run; runner.tags = [argv[0]]
    ops = [m.groups() for m in (re.match(r'O \d+ t\d+ (\S+) (.*) -?\d+ = (-?\d+)', o) for o in run.ops()) if m]
    def mine(p):      # the archive, or a temporary file next to it
        p = p.split(' -> ')[-1] if out is not None and p.split(' -> ')[-1].startswith(out) else p.split(' -> ')[0]
        if out is None: return False
        return p.startswith(out) or p not in files and p.rpartition('/')[0] == out.rpartition('/')[0] and bool(p18.TEMP.search(p))
    runner.nontrivial = sum(b is not None for b in files.values()) >= 3 and any(o[0] == 'open' for o in ops)
    if any('FAULT ESCAPE' in o for o in run.ops()): return [V('escaped', 'something outside the working folder would be changed: %s' % next(o for o in run.ops() if 'FAULT ESCAPE' in o))]
    want = dict(runner.put_view(files))
    got = {p: b for p, b in run.fs.items()}
    for d in (want, got):
        for p in [p for p in d if mine(p)]: d.pop(p)
    for p in sorted(set(want) | set(got)):
        if p not in got: return [V('gone', '%s is gone after %s' % (p, argv[0]))]
        if p not in want: return [V('new', '%s appears during %s' % (p, argv[0]))]
        if want[p] != got[p]: return [V('changed', '%s is changed by %s' % (p, argv[0]))]
    for o in ops:
        if o[0] in MUT and o[1] not in ('<stdout>', '<stderr>') and not mine(o[1]): return [V('tried', '%s tries to change something: %s' % (argv[0], ' '.join(o)))]
    return []
