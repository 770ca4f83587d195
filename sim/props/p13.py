"""P13: a thread-shared tag tree behaves as if its calls were made one at a time."""
import batch, driver
from batch import V, sched_conf
from props import p11, p12
from props.p11 import fewer_calls

needs_driver = True
rule = ('a case is a script of opens, saves, existence checks and listings by two to four threads, each with its own clone of one thread-shared tree over tag folders (directly, or through a caching tree of either strategy), with or without a separate output folder, '
        'with failing, short and interrupted file operations and files that appear meanwhile; the recorded history, which includes reads of the files behind its back, and the final files must be explained by some order of the calls, consistent with real time, against a sequential reference model; '
        'non-trivial: at least two threads were runnable at once and one saves a tag that another uses')
assumptions = ['a failed save leaves the file as it was (P01)']
real, stub = p11.real, p11.stub

def cases(rng, runner, tier, k):
    dirs, tags, files = p11.gen_world(rng, n=rng.choice([1, 1, 1, 2, 2, 3]))
    kind = rng.choice(['atomic', 'atomic', 'atomic-instant', 'atomic-manual'])
    cow = 'cow' if rng.random() < .25 else None
    if cow:
        files['cow'] = None
        for t in tags:
            if rng.random() < .25: files['cow/' + t] = driver.wind(rng.randrange(1, 50))
    v = [0]
    ops = ['copy', 'copy', 'copy', 'shared', 'write', 'write', 'write', 'contains', 'list', 'readonly', 'bytes', 'bytes']
    if kind != 'atomic': ops += ['edit', 'incr', 'incr', 'hold']
    def op():
        o = rng.choice(ops)
        if o == 'bytes': return 'bytes %s/%s' % (rng.choice(dirs + ([cow] if cow else [])), rng.choice(tags))
        if o == 'readonly': return o
        if o == 'write' and rng.random() < .3: return 'write %s %d' % (rng.choice(tags), rng.choice([100, 200]))   # values may come back
        return p11.op(rng, tags, [o], v)
    threads = [[op() for _ in range(rng.choice([1, 2, 3, 4, 6]))] for _ in range(rng.choice([2, 2, 3, 4]))]
    # a file that appears in another folder while its tag is being saved is nothing the tree can exclude
    if rng.random() < .25 and (len(dirs) == 1 or not any(o.startswith('write') for th in threads for o in th)):
        t = rng.choice(tags); files['late.wind'] = driver.wind(77)
        if '/' in t: files[dirs[0] + '/' + t.rpartition('/')[0]] = None
        rng.choice(threads).insert(0, 'mv late.wind %s/%s' % (dirs[0], t))
    case = {'dirs': dirs, 'kind': kind, 'files': files, 'before': [op() for _ in range(rng.choice([0, 0, 1, 2]))], 'threads': threads, 'after': [o + ' ' + t for t in tags for o in ('copy', 'contains')] + ['list *'], 'tags_': tags}
    if cow: case['cow'] = cow
    for _ in range(10 if tier == 'quick' else 40):
        conf = sched_conf(rng, 4000)
        f = (p11.read_faults(rng, tags, dirs) if rng.random() < .5 else []) + (p12.write_faults(rng, tags) if rng.random() < .4 else [])
        if f: conf['faults'] = f
        if rng.random() < .08: conf['space'] = rng.choice([0, 64, 128, 200, 256, 400])
        yield dict(case, conf=conf)

def judge(case, runner):
    runner.judged = None
    run, ev = driver.run(runner, case)
    runner.judged = run
    runner.tags = [case['kind']]
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    if ev is None: return [V('no-history', 'the history is incomplete: %s' % run.out[-300:])]
    use = [{(o.split(' ')[0] == 'write', o.split(' ')[1]) for o in t if ' ' in o} for t in case['threads']]
    runner.nontrivial = int(run.end['multi']) > 0 and any(w and any(x[1] == t for j in range(len(use)) if j != i for x in use[j]) for i in range(len(use)) for w, t in use[i])
    torn = [e for e in ev if 'TORN' in e.out]
    if torn: return [V('torn', 'a half-made edit is seen: %r' % torn[0])]
    m = driver.Model(case)
    ok, at = driver.linearize(ev, m, m.initial(case['files']), driver.final_files(m, run))
    if ok is None: runner.tags.append('undecided')
    if ok is False: return [V('not-explained', 'no order of the calls explains the history and the files; stuck at %s' % '; '.join(map(repr, at or ['the files at the end']))[:600])]
    return []

reductions = [fewer_calls, fewer_calls, fewer_calls]
