"""P12: the deferred strategy writes nothing until committed, then everything; the immediate one has written before it returns."""
import batch, driver
from batch import V, sched_conf
from props import p11
from props.p11 import fewer_calls

needs_driver = True
rule = ('a case is a script of saves, edits, commits of one tag, commits of all, evictions and opens by one to three threads on one caching tree (either strategy, one or two folders, with or without a separate output folder), over real tag files, '
        'with failing, short and interrupted reads, creations, writes and renames, full disks and unwritable destinations; the history and every file must be explained by a reference model of cache and folders, and the operations that change something must belong to the right calls; '
        'non-trivial: at least one tag was saved or at least one save failed')
assumptions = ['the threads share the tree through std::sync::RwLock, since saving, committing and evicting need exclusive access by their signature', 'a failed save leaves the file as it was (P01)']
real, stub = p11.real, p11.stub

def write_faults(rng, tags):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        where = rng.choice(['', '.tmp', '', '.tmp', rng.choice(tags)])
        n = rng.choice([0, 0, 1, 1, 2, 3, 4, 6]); plus = '+' if rng.random() < .15 else ''
        k = rng.random()
        if k < .25: f = 'write:%d%s:%s:0:%s' % (n, plus, rng.choice(['EIO', 'ENOSPC']), where)
        elif k < .35: f = 'write:%d:%s:%d:%s' % (n, rng.choice(['short', 'EINTR']), rng.choice([1, 100, 500]), where)
        elif k < .55: f = 'creat:%d%s:%s:0:%s' % (n, plus, rng.choice(['EACCES', 'ENOSPC', 'EROFS', 'EMFILE']), where)
        elif k < .70: f = 'rename:%d%s:%s:0:%s' % (n, plus, rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EBUSY']), where)
        elif k < .78: f = 'mkdir:%d:%s:0:' % (rng.randrange(3), rng.choice(['EACCES', 'ENOSPC', 'EROFS']))
        elif k < .86: f = 'open:%d%s:%s:0:%s' % (n, plus, rng.choice(['EIO', 'EACCES', 'EMFILE']), rng.choice(tags))
        elif k < .94: f = 'read:%d:%s:0:%s' % (n, rng.choice(['EIO', 'EINTR']), rng.choice(tags))
        else: f = 'chmod:%d:EACCES:0:' % n
        out.append(f)
    return out

W = ['write'] * 4 + ['edit', 'incr', 'commit', 'commit', 'commitall', 'commitall', 'copy', 'shared', 'evict', 'get', 'bytes', 'bytes', 'readonly', 'contains', 'list']
def cases(rng, runner, tier, k):
    dirs, tags, files = p11.gen_world(rng)
    kind = rng.choice(['manual', 'manual', 'instant'])
    cow = 'cow' if rng.random() < .3 else None
    if cow:
        files['cow'] = None
        for t in tags:
            if rng.random() < .25: files['cow/' + t] = driver.wind(rng.randrange(1, 50))
    blocked = []
    if rng.random() < .2:
        for top in ('a', 'b', 'b/c'):
            f = (cow or dirs[0]) + '/' + top
            if rng.random() < .5 and not any(x == f or x.startswith(f + '/') for x in files) and not any(f.startswith(b + '/') for b in blocked):
                files[f] = b'in the way'; blocked.append(f)
    v = [0]
    loose = rng.random() < .45   # edits through handles, while others save
    ops = [o for o in W if o != 'bytes'] + ['hset', 'hset', 'hset', 'hold', 'commitall', 'release'] if loose else W
    def op():
        o = rng.choice(ops)
        if o == 'bytes': return 'bytes %s/%s' % (rng.choice(dirs + ([cow] if cow else [])), rng.choice(tags))
        if o == 'readonly': return o
        return p11.op(rng, tags, [o], v)
    threads = [[op() for _ in range(rng.choice([2, 3, 5, 8]))] for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    before = [op() for _ in range(rng.choice([0, 1, 3, 6]))]
    if loose: before += ['hold ' + t for t in tags if rng.random() < .7]
    after = ['bytes %s/%s' % (cow or d, t) for t in tags for d in dirs[:1 if cow else None]] if rng.random() < .6 else []
    after += ['commitall'] * rng.choice([0, 0, 1, 1, 2]) + ['get ' + t for t in tags]
    case = {'dirs': dirs, 'kind': kind, 'files': files, 'before': before, 'threads': threads, 'after': after, 'tags_': tags}
    if cow: case['cow'] = cow
    for _ in range(10 if tier == 'quick' else 40):
        conf = sched_conf(rng, 4000)
        f = write_faults(rng, tags) if rng.random() < .8 else []
        if f: conf['faults'] = f
        if rng.random() < .15: conf['space'] = rng.choice([0, 64, 128, 200, 256, 400, 700])
        yield dict(case, conf=conf)

def judge(case, runner):
    runner.judged = None
    run, ev = driver.run(runner, case)
    runner.judged = run
    runner.tags = [case['kind']]
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    if ev is None: return [V('no-history', 'the history is incomplete: %s' % run.out[-300:])]
    runner.nontrivial = any(e.mut or e.out.startswith('ERR ') for e in ev if e.op in ('write', 'commit', 'commitall'))
    m = driver.Model(case)
    for e in ev:
        if not e.mut: continue
        if m.manual and e.op not in ('commit', 'commitall'): return [V('written-early', 'something is written without a commit: %r does %r' % (e, e.mut[0]))]
        if e.op not in ('write', 'commit', 'commitall'): return [V('written-by-reader', 'something is written by a call that only reads: %r does %r' % (e, e.mut[0]))]
        if e.op != 'commitall':
            for cls, p, ret in e.mut:
                t = m.tagname(p.split(' -> ')[-1])
                if t and t != e.args[0] and ret >= 0: return [V('written-other', 'another tag is written: %r does %s %s' % (e, cls, p))]
    ok, at = driver.linearize(ev, m, m.initial(case['files']), driver.final_files(m, run))
    if ok is None: runner.tags.append('undecided')
    if ok is False: return [V('not-explained', 'no order of the calls explains the history and the files; stuck at %s' % '; '.join(map(repr, at or ['the files at the end']))[:600])]
    return []

reductions = [fewer_calls, fewer_calls, fewer_calls]
