"""P06: copy-on-write never touches the source folders."""
import re
import batch, driver
from batch import V, sched_conf
from props import p11, p16

rule = ('a case is one editing run with a copy-on-write folder, killed or with failing, short and torn operations; the source folder and data folder must be identical (folders included) afterwards, '
        'and every tag in the copy-on-write folder old or exactly what the same run without copy-on-write saves; a fifth of the cases are scripts of library calls on up to four source folders below one output folder; non-trivial: the run saved something or a fault fired')
real, stub = p11.real, p11.stub
def fewer_calls(c):
    if c.get('lib'): yield from p11.fewer_calls(c)
reductions = [fewer_calls, fewer_calls]
assumptions = ['a tag that would not change keeps whatever copy the copy-on-write folder already has', 'requests in which two matching tags have the same output file are skipped']

needs_driver = True

def lib_cases(rng, runner, tier, k):
    """The library's own calls, which can have several source folders below the output folder."""
    for c in p16.cases(rng, runner, tier, k, cow_share=1, kind='plain'):
        r = rng.random()
        if r < .2: c['conf'] = dict(c['conf'], faults=['mut:%d:crash:500:cow' % rng.randrange(12)])
        elif r < .4: c['conf'] = dict(c['conf'], faults=[f + 'cow' for f in batch.write_faults(rng, rng.choice([4, 12, 30]))])
        elif r < .5: c['conf'] = dict(c['conf'], space=rng.choice([0, 100, 1000]))
        yield dict(c, lib=True)

def lib_judge(case, runner):
    run, ev = driver.run(runner, case)
    runner.judged = run
    runner.tags = ['library']
    files = case['files']
    fired = any(f[3] for f in run.faults_fired())
    runner.nontrivial = fired or any(b is not None and files.get(p) != b for p, b in run.fs.items() if p.startswith('cow/'))
    if run.how not in ('exit', 'crash'): return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace')[-300:]))]
    return untouched(dict(files, script=driver.script(case)), run)

def cases(rng, runner, tier, k):
    if rng.random() < .2:
        yield from lib_cases(rng, runner, tier, k)
        return
    files, job = batch.gen_job(rng, cow=True, n=rng.choice([1, 2, 3, 5, 8]))
    if rng.random() < 0.2:
        for p in [p for p in files if p.startswith('cow')]: del files[p]
        files['cow'] = None
    base = runner.ref(files, batch.argv(job, jobs=1))
    nmut, nops = batch.count_ops(base)
    steps = int(base.end.get('steps', 20000))
    for _ in range((12 if tier == 'quick' else 40) if nmut else 3):
        conf = sched_conf(rng, steps)
        r = rng.random()
        if r < 0.25: pass
        elif r < 0.6: conf['faults'] = [batch.crash_fault(rng, nmut, nops)]
        elif r < 0.9: conf['faults'] = batch.write_faults(rng, nmut)
        else: conf['space'] = rng.choice([0, 10, 100, 1000])
        yield {'files': files, 'job': job, 'jobs': batch.jobs_for(rng), 'conf': conf}

def untouched(files, run):
    dirs = set()
    for p in files:
        while '/' in p: p = p.rpartition('/')[0]; dirs.add(p)
    for p in sorted(set(files) | set(run.fs)):
        if p == 'cow' or p.startswith('cow/') or p in dirs and p in run.fs and run.fs[p] is None: continue
        if p not in run.fs or (p not in files and p not in dirs) or files.get(p) != run.fs[p]:
            return [V('source', 'source file or folder %s: %s before, %s after a copy-on-write run' % (p, 'absent' if p not in files else 'folder' if files[p] is None else batch.show(files[p]),
                    'absent' if p not in run.fs else 'folder' if run.fs[p] is None else batch.show(run.fs[p])))]
    # nor may any step in between have changed a source folder
    for o in run.ops():
        w = o.split(' ', 4)
        if w[3] in ('creat', 'rename', 'unlink', 'rmdir', 'mkdir', 'trunc', 'link', 'chmod') and (w[4].startswith('tags') or w[4].startswith('data')):
            if not re.search(r' = \d+', w[4]) or ' FAULT ' in o: continue   # it failed
            return [V('source-op', 'the run tried to change a source folder: %s' % o)]
    return []

def judge(case, runner):
    runner.judged = None
    if case.get('lib'): return lib_judge(case, runner)
    files, job = case['files'], case['job']
    inplace = {k: v for k, v in job.items() if k != 'cow'}
    f2 = {p: b for p, b in files.items() if p != 'cow' and not p.startswith('cow/')}
    refs, outs, conflict = batch.expected(runner, f2, inplace)
    if conflict: return []
    for r in refs:
        if r.bad: runner.judged = r.run; return [V('single-run', r.bad)]
    run = runner.run(files, batch.argv(job, jobs=case['jobs']), case['conf'])
    runner.judged = run
    runner.tags = [job['verb']]
    fired = any(f[3] for f in run.faults_fired()) or any(o.endswith('FAULT full') for o in run.ops())
    runner.nontrivial = fired or bool(outs)
    if run.how not in ('exit', 'crash'): return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace')[-300:]))]
    v = untouched(files, run)
    if v: return v
    want = {'cow/' + p.partition('/')[2]: b for p, b in outs.items()}
    for p in sorted(set(files) | set(run.fs)):
        if not p.startswith('cow/') or not batch.is_tag(p): continue
        old, now = files.get(p), run.fs.get(p)
        if old == now: continue
        if p not in want: return [V('cow-extra', '%s changed (%s to %s), though its tag does not change' % (p, batch.show(old), batch.show(now)))]
        if now != want[p]: return [V('cow-content', '%s holds %s, an in-place run saves %s' % (p, batch.show(now), batch.show(want[p])))]
    if run.how == 'exit' and not fired:
        for p, b in want.items():
            if run.fs.get(p) != b: return [V('cow-missing', '%s holds %s after the run, an in-place run saves %s' % (p, batch.show(run.fs.get(p)), batch.show(b)))]
    per, _, _ = batch.report(run)
    for n, ls in per.items():
        if ls[0][0] == 'processed':
            d = batch.dest(job, n, files)
            if d not in want or run.fs.get(d) != want[d]: return [V('cow-report', '%s reported as processed, but %s holds %s' % (n, d, batch.show(run.fs.get(d))))]
    return []
