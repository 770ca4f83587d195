"""P11: a caching tag tree hands every thread the same tag."""
import batch, driver
from batch import V, sched_conf

needs_driver = True
rule = ('a case is a script of opens, copies, edits and increments under the tag\'s lock, saves, commits and evictions by two to four threads sharing one caching tree (exclusive access only for saves, commits and evictions), over real tag files, '
        'some missing, damaged or appearing later, with opens and reads that fail; the recorded history must be explained by some order of the calls in which one cache entry per tag is the only copy anybody sees; '
        'non-trivial: at least two threads were runnable at once and they share a tag')
assumptions = ['the threads share the tree through std::sync::RwLock, since saving, committing and evicting need exclusive access by their signature']
real = 'ringhopper library (tag tree, caching tree, parser, writer) compiled from the working tree, std, kernel tmpfs for fault-free file effects'
stub = 'the program using the library (simdriver: runs the script and records the history), thread scheduler, futex wait queues, clocks, randomness, directory order, injected file-operation results (libsim)'

READS = ['copy', 'copy', 'shared', 'shared', 'edit', 'incr', 'incr', 'incr', 'hold', 'contains', 'list']

def gen_world(rng, dirs=None, n=None):
    dirs = ['tags', 'tags2', 'tags3'][:dirs or rng.choice([1, 1, 2])]
    tags = ['%s%s%d.wind' % (rng.choice(['', 'a/', 'b/c/']), rng.choice(['t', 'gust', 'x.y']), i) for i in range(n or rng.choice([1, 1, 2, 2, 3, 4]))]
    files = {d: None for d in dirs}
    for i, t in enumerate(tags):
        k = rng.random()
        if k < .12: continue
        for d in (rng.sample(dirs, rng.choice([1, len(dirs)]))):
            b = driver.wind(rng.randrange(1, 50))
            files[d + '/' + t] = b if k < .9 else b[:-rng.randrange(1, 100)]
    return dirs, tags, files

def read_faults(rng, tags, dirs, n=6):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        t = rng.choice(tags); p = '' if rng.random() < .15 else t
        k = rng.random()
        if k < .4: out.append('open:%d:%s:0:%s' % (rng.randrange(n), rng.choice(['EIO', 'EACCES', 'EMFILE']), t))
        elif k < .8: out.append('read:%d:EIO:0:%s' % (rng.randrange(n), t))
        else: out.append('read:%d%s:%s:%d:%s' % (rng.randrange(n), rng.choice(['', '+']), rng.choice(['EINTR', 'short']), rng.choice([1, 100, 700]), t))
        if out[-1].split(':')[2] == 'EINTR': out[-1] = out[-1].replace('+', '')
    return out

def op(rng, tags, ops, v):
    o = rng.choice(ops); t = rng.choice(tags)
    if o == 'hset' and rng.random() < .5: v[0] += 1; return '%s %s %d %d' % (o, t, 100 * v[0], rng.choice([1, 3, 10, 30]))     # and keeps it locked for some time
    if o in ('edit', 'write', 'hset') and v[0] and rng.random() < .15: return '%s %s %d' % (o, t, 100 * rng.randrange(max(1, v[0] - 3), v[0] + 1))    # once more what was there
    if o in ('edit', 'write', 'hset'): v[0] += 1; return '%s %s %d' % (o, t, 100 * v[0])
    if o == 'list': return 'list ' + rng.choice(['*', '*.wind', 'a*'])
    if o == 'commitall': return o
    return o + ' ' + t

def cases(rng, runner, tier, k):
    dirs, tags, files = gen_world(rng)
    kind = rng.choice(['manual', 'instant', 'manual'])
    v = [0]
    style = rng.choice(['reads', 'reads', 'mixed', 'mixed', 'churn'])
    ops = READS + {'reads': [], 'mixed': ['write', 'commit', 'evict', 'commitall', 'get', 'release'], 'churn': ['evict'] * 8 + ['write'] * 2}[style]
    before = [op(rng, tags, ops, v) for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < .3 and (len(dirs) == 1 or style == 'reads'):   # otherwise it could appear in another folder during a save
        t = rng.choice(tags); files['late.wind'] = driver.wind(77)
        late = 'mv late.wind %s/%s' % (dirs[0], t)
        if '/' in t: files[dirs[0] + '/' + t.rpartition('/')[0]] = None
    else: late = None
    if not late and rng.random() < .3:   # edits through handles
        ops = ops + ['hset', 'hset', 'hold']; before += ['hold ' + t for t in tags if rng.random() < .7]
    nt = rng.choice([2, 2, 3, 4])
    threads = [[op(rng, tags, ops, v) for _ in range(rng.choice([1, 2, 3, 4, 6, 8]))] for _ in range(nt)]
    if late: rng.choice(threads).insert(0, late)
    after = [o + ' ' + t for t in tags for o in rng.sample(['copy', 'shared', 'get', 'evict'], 2)]
    case = {'dirs': dirs, 'kind': kind, 'files': files, 'before': before, 'threads': threads, 'after': after, 'tags_': tags}
    for _ in range(10 if tier == 'quick' else 40):
        conf = sched_conf(rng, 4000)
        f = read_faults(rng, tags, dirs)
        if f: conf['faults'] = f
        yield dict(case, conf=conf)

def judge(case, runner):
    runner.judged = None
    run, ev = driver.run(runner, case)
    runner.judged = run
    runner.tags = [case['kind']]
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    if ev is None: return [V('no-history', 'the history is incomplete: %s' % run.out[-300:])]
    th = [{o.split(' ')[1] for o in t if ' ' in o} for t in case['threads']]
    runner.nontrivial = int(run.end['multi']) > 0 and any(th[i] & th[j] for i in range(len(th)) for j in range(i))
    torn = [e for e in ev if 'TORN' in e.out]
    if torn: return [V('torn', 'a half-made edit is seen: %r' % torn[0])]
    m = driver.Model(case)
    ok, at = driver.linearize(ev, m, m.initial(case['files']), driver.final_files(m, run))
    if ok is None: runner.tags.append('undecided')
    if ok is False: return [V('not-explained', 'no order of the calls explains the history; stuck at %s' % '; '.join(map(repr, at or []))[:600])]
    # the store is read once per tag, except again after a failed load, an eviction or a save
    if not any(o.split(' ')[0] in ('write', 'evict', 'commit', 'commitall', 'rm', 'mv') for t in [case['before'], case['after']] + case['threads'] for o in t):
        for t in case['tags_']:
            opens = sum(sum(p.partition('/')[2] == t for p in e.opens) for e in ev)
            fails = sum(1 for e in ev if e.args and e.args[0] == t and e.out.startswith('ERR ') and e.opens)
            if opens > fails + 1: return [V('read-again', '%s was read %d times, %d of which failed' % (t, opens, fails))]
    return []

def fewer_calls(c):
    for i in range(len(c['threads'])):
        if len(c['threads']) > 1: yield dict(c, threads=c['threads'][:i] + c['threads'][i + 1:])
    for i, t in enumerate(c['threads']):
        for j in range(len(t)): yield dict(c, threads=c['threads'][:i] + [t[:j] + t[j + 1:]] + c['threads'][i + 1:])
    for k in ('before', 'after'):
        for j in range(len(c.get(k, []))): yield dict(c, **{k: c[k][:j] + c[k][j + 1:]})
reductions = [fewer_calls, fewer_calls, fewer_calls]
