"""P03: batch results do not depend on worker count or scheduling."""
from collections import Counter
import batch
from batch import V, sched_conf

rule = ('a case is one batch run of a tool over a random world (1-3 stacked tags folders, random tags of all groups, random filter) with a random worker count, '
        'schedule, listing order and hash seed, compared with the union of isolated single-tag runs; non-trivial: at least 2 matching tags, and more than one thread ran')
assumptions = ['worlds in which two matching tags would produce the same output file are skipped: the request itself is ambiguous there']

def cases(rng, runner, tier, k):
    files, job = batch.gen_job(rng)
    steps = 20000
    for _ in range(14 if tier == 'quick' else 30):
        jobs = batch.jobs_for(rng)
        conf = sched_conf(rng, steps)
        yield {'files': files, 'job': job, 'jobs': jobs, 'conf': conf}
        r = getattr(runner, 'judged', None)
        if r is not None and r.end: steps = int(r.end['steps'])

def files_diff(a, b):
    """First difference between two snapshots, files only."""
    for p in sorted(set(a) | set(b)):
        x, y = a.get(p), b.get(p)
        if x != y: return p, x, y
    return None

def short(x): return 'absent' if x is None else '%d bytes' % len(x)

def judge(case, runner):
    files, job = case['files'], case['job']
    refs, outs, conflict = batch.expected(runner, files, job)
    runner.judged = None
    if conflict: return []
    for r in refs:
        if r.bad: return [V('single-run:' + r.run.how + str(r.run.rc), '%s: %s' % (' '.join(r.run.argv), r.bad))]
    run = runner.run(files, batch.argv(job, jobs=case['jobs']), case['conf'])
    runner.judged = run
    runner.nontrivial = len(refs) >= 2 and int(run.end.get('threads', 1)) > 1
    runner.tags = [job['verb']]
    out = []
    if run.how != 'exit':
        return [V('ended-' + run.how, 'batch run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace')[-300:]))]
    rep, _ = batch.split_lines(run)
    want = Counter(l for r in refs for l in r.lines)
    got = Counter(l for l in rep if not l.startswith('Error executing'))
    if want != got:
        d = list((got - want).elements())[:3], list((want - got).elements())[:3]
        out.append(V('lines', '-j %d reports %r and lacks %r compared with processing each tag alone' % (case['jobs'], d[0], d[1])))
    viable = [r for r in refs if r.status != 'ignored']
    if (run.rc == 0) != bool(viable): out.append(V('exit', 'exit status %d with %d viable tags' % (run.rc, len(viable))))
    wantfs = {p: b for p, b in files.items() if b is not None}
    wantfs.update(outs)
    d = files_diff(wantfs, {p: b for p, b in run.fs.items() if b is not None})
    if d: out.append(V('files', '%s is %s after -j %d, but %s when each tag is processed alone' % (d[0], short(d[2]), case['jobs'], short(d[1]))))
    return out
