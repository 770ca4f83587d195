"""P01: a tag file on disk is always one complete version."""
import batch
from batch import V, sched_conf
import moves

level = 'fault_enumeration'
rule = ('a case is one editing run (batch edits, imports, conversions, moves) killed before, inside or after a mutating file operation, or with failing, short or torn writes, creates, renames or a full disk; '
        'every tag file found afterwards is compared with its old and its reference new bytes; non-trivial: the fault fired, or the disk filled up')
assumptions = ['the process is killed, the machine keeps running (page cache survives)', 'leftover files without a tag extension are allowed',
               'requests in which two matching tags have the same output file are skipped']

def cases(rng, runner, tier, k):
    if rng.random() < 0.2:
        yield from move_cases(rng, runner, tier)
        return
    files, job = batch.gen_job(rng, n=rng.choice([1, 2, 3, 4, 6, 8]))
    jobs = batch.jobs_for(rng)
    base = runner.ref(files, batch.argv(job, jobs=1))
    nmut, nops = batch.count_ops(base)
    if not nmut: return
    steps = int(base.end['steps'])
    pts = []
    # every mutating operation of the sequential run: killed before, torn, after; and failing
    for i in range(min(nmut, 30)):
        pts.append(('mut:%d:crash:0:' % i, 1)); pts.append(('mut:%d:crashafter:0:' % i, 1))
        pts.append(('mut:%d:ENOSPC:0:' % i, 1))
    nw = sum(1 for o in base.ops() if o.split(' ', 4)[3] == 'write')
    for i in range(min(nw, 30)):
        for a in (1, 500, 999): pts.append(('write:%d:crash:%d:' % (i, a), 1))
        pts.append(('write:%d:EIO:0:' % i, 1))
    rng.shuffle(pts)
    for f, j in pts[:8 if tier == 'quick' else 60]:
        yield {'files': files, 'job': job, 'jobs': 1, 'conf': {'seed': rng.randrange(1 << 30), 'faults': [f]}}
    for _ in range(8 if tier == 'quick' else 30):
        conf = sched_conf(rng, steps)
        r = rng.random()
        if r < 0.6: conf['faults'] = [batch.crash_fault(rng, nmut, nops)]
        elif r < 0.85: conf['faults'] = batch.write_faults(rng, nmut)
        else: conf['space'] = rng.choice([0, 1, 10, 64, 100, 300, 1000, 3000, 10000])
        if r < 0.2: conf['faults'] += batch.write_faults(rng, nmut)
        yield {'files': files, 'job': job, 'jobs': jobs, 'conf': conf}

def move_cases(rng, runner, tier):
    files, job = moves.gen_move(rng)
    base = moves.reference(runner, files, job)
    if base.how != 'exit': return
    nmut, nops = batch.count_ops(base)
    for _ in range(10 if tier == 'quick' else 40):
        conf = sched_conf(rng, int(base.end['steps']))
        conf['faults'] = [batch.crash_fault(rng, nmut, nops)] if rng.random() < 0.7 else batch.write_faults(rng, nmut)
        yield {'files': files, 'move': job, 'jobs': batch.jobs_for(rng), 'conf': conf}

def judge(case, runner):
    files = case['files']
    runner.judged = None
    if 'move' in case: return judge_move(case, runner)
    job = case['job']
    refs, outs, conflict = batch.expected(runner, files, job)
    if conflict: return []
    for r in refs:
        if r.bad: runner.judged = r.run; return [V('single-run', r.bad)]
    run = runner.run(files, batch.argv(job, jobs=case['jobs']), case['conf'])
    runner.judged = run
    runner.tags = [job['verb']]
    runner.nontrivial = any(f[3] for f in run.faults_fired()) or any(o.endswith('FAULT full') for o in run.ops())
    if run.how not in ('exit', 'crash'): return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace')[-300:]))]
    d = batch.check_versions(files, run.fs, batch.versions(files, refs))
    if d: return [V('torn', d[1])]
    return []

def judge_move(case, runner):
    files, job = case['files'], case['move']
    new = moves.model(files, job)
    if new is None: return []
    run = runner.run(files, moves.argv(job, case['jobs']), case['conf'])
    runner.judged = run
    runner.tags = ['refactor-paths']
    runner.nontrivial = any(f[3] for f in run.faults_fired())
    # complete versions of each tag: as it was, at its old or new place, with its references rewritten or not
    ok = moves.acceptable(files, job)
    for p, b in sorted(run.fs.items()):
        if b is None or not batch.is_tag(p): continue
        if b not in ok.get(p, ()): return [V('torn', '%s holds %s, no complete version of that tag' % (p, batch.show(b)))]
    return []
