"""P23: rerunning after a crash converges."""
import batch, moves
from batch import V, sched_conf

level = 'fault_enumeration'
rule = ('a case is a chain of runs: a batch edit killed at a random point (up to three times in a row), run again to completion, and once more; compared with the uninterrupted run; '
        'non-trivial: the first run was really killed after its first change to the file system')
assumptions = ['requests in which two matching tags have the same output file are skipped',
               'conversions with overwriting on are judged only on the tags, not on what the last run reports']

def cases(rng, runner, tier, k):
    files, job = batch.gen_job(rng, n=rng.choice([1, 2, 3, 4, 6, 8]))
    base = runner.ref(files, batch.argv(job, jobs=1))
    nmut, nops = batch.count_ops(base)
    if not nmut: return
    steps = int(base.end['steps'])
    for _ in range(8 if tier == 'quick' else 30):
        chain = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            conf = sched_conf(rng, steps); conf['faults'] = [batch.crash_fault(rng, nmut, nops)]
            chain.append({'conf': conf, 'jobs': batch.jobs_for(rng)})
        for _ in range(2): chain.append({'conf': sched_conf(rng, steps), 'jobs': batch.jobs_for(rng)})
        yield {'files': files, 'job': job, 'chain': chain, 'conf': {}, 'jobs': 1}

def only(fs): return {p: b for p, b in fs.items() if b is not None and batch.is_tag(p)}

def judge(case, runner):
    files, job = case['files'], case['job']
    runner.judged = None
    refs, outs, conflict = batch.expected(runner, files, job)
    if conflict: return []
    for r in refs:
        if r.bad: runner.judged = r.run; return [V('single-run', r.bad)]
    want = only(files); want.update(outs)
    cur = files
    runner.tags = [job['verb']]
    for i, c in enumerate(case['chain']):
        run = runner.run(cur, batch.argv(job, jobs=c['jobs']), c['conf'])
        if i == 0 or len(case['chain']) - i <= 2: runner.judged = run
        if run.how not in ('exit', 'crash'): return [V('ended-' + run.how, 'run %d of the chain ended with %s: %s' % (i, run.how, run.err.decode('utf-8', 'replace')[-300:]))]
        if i == 0: runner.nontrivial = run.how == 'crash' and batch.count_ops(run)[0] > 0
        crashed = run.how == 'crash'
        before, cur = cur, run.fs
        last = len(case['chain']) - 1
        if i >= last - 1 and not crashed:
            got = only(cur)
            if got != want:
                p = next(p for p in sorted(set(got) | set(want)) if got.get(p) != want.get(p))
                return [V('diverged', '%s holds %s after the kill and rerun, %s after an uninterrupted run' % (p, batch.show(got.get(p)), batch.show(want.get(p))))]
        if i == last and not crashed:
            if only(before) != only(cur): return [V('not-stable', 'running it once more changed %s' % next(p for p in sorted(set(before) | set(cur)) if before.get(p) != cur.get(p)))]
            if not (job['verb'] == 'convert' and job.get('overwrite')):
                for n, ls in batch.report(run)[0].items():
                    if ls[0][0] == 'processed': return [V('not-stable-report', 'running it once more reports %r' % ls[0][1])]
    return []

def _chain(c):
    ch = c['chain']
    for i in range(len(ch) - 2): yield dict(c, chain=ch[:i] + ch[i + 1:])
def shorter_chain(c): yield from _chain(c)
def plain_schedules(c):
    yield dict(c, chain=[dict(x, jobs=1, conf={k: v for k, v in x['conf'].items() if k in ('seed', 'faults')}) for x in c['chain']])
reductions = [shorter_chain, plain_schedules]
