"""P10: a move never loses a tag, even when killed."""
import batch, moves
from batch import V, sched_conf

level = 'fault_enumeration'
rule = ('a case is one refactor-paths move killed before, inside or after any of its file operations, or with one or several operations failing (also persistently, also during the rollback); '
        'every tag must be there, complete, at its old or new path, and no other file touched; non-trivial: the kill or fault fired after the first tag had been moved')
assumptions = ['the process is killed, the machine keeps running', 'empty folders are not tags']
real = 'invader refactor-paths and the ringhopper library, compiled from the working tree'

def cases(rng, runner, tier, k):
    files, job = moves.gen_move(rng, n=rng.choice([2, 3, 4, 6, 8, 12]))
    base = moves.reference(runner, files, job)
    if base.how != 'exit' or base.rc != 0: return
    nmut, nops = batch.count_ops(base)
    steps = int(base.end['steps'])
    pts = [['mut:%d:%s:0:' % (i, x)] for i in range(min(nmut, 60)) for x in ('crash', 'crashafter', 'EIO', 'ENOSPC')]
    pts += [['mut:%d+:%s:0:' % (i, x)] for i in range(min(nmut, 60)) for x in ('EROFS', 'EIO')]
    for i in range(min(nmut, 60)):
        pts.append(['mut:%d:EIO:0:' % i, 'mut:%d:%s:0:' % (i + rng.randrange(1, 8), rng.choice(['crash', 'crashafter', 'EACCES']))])
        pts.append(['rename:%d:EIO:0:' % i, 'rename:%d:EACCES:0:' % (i + rng.randrange(1, 5))])
    rng.shuffle(pts)
    for f in pts[:14 if tier == 'quick' else 60]:
        conf = sched_conf(rng, steps)
        conf['faults'] = f
        yield {'files': files, 'job': job, 'jobs': batch.jobs_for(rng), 'conf': conf}

def judge(case, runner):
    files, job = case['files'], case['job']
    runner.judged = None
    pl = moves.plan(files, job)
    if not pl: return []
    ok = moves.acceptable(files, job)
    run = runner.run(files, moves.argv(job, case['jobs']), case['conf'])
    runner.judged = run
    fired = [k for c, k, s, f in run.faults_fired() if f]
    runner.tags = fired or ['none']
    if run.how not in ('exit', 'crash'): return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    fs = {p: b for p, b in run.fs.items() if b is not None}
    runner.nontrivial = bool(fired) and any(p not in fs for p, b in files.items() if b is not None)
    new = {}
    for a, b in pl:
        f = batch.where(files, job['dirs'], a[0].replace('\\', '/'), a[1])
        new[f] = f.partition('/')[0] + '/' + moves.disk(*b)
    seen = set()
    for f, b in sorted(files.items()):
        if b is None: continue
        at = [p for p in (f, new.get(f)) if p and p in fs]
        if not at: return [V('lost', '%s is neither there nor at %s (%s)' % (f, new.get(f), run.how))]
        if len(at) > 1: return [V('twice', '%s exists at its old and its new path' % f)]
        seen.add(at[0])
        g = fs[at[0]]
        if g != b and g not in ok.get(f, ()): return [V('damaged', '%s holds %s, neither as before nor with references rewritten' % (at[0], batch.show(g)))]
        if f not in new and not batch.is_tag(f) and g != b: return [V('unrelated', '%s changed' % f)]
    for p in fs:
        if p not in seen and batch.is_tag(p): return [V('appeared', '%s appeared' % p)]
    if run.how == 'exit' and run.rc == 0 and not any(l.startswith('ERROR ') for l in run.lines()):
        want = moves.model(files, job)
        got = {p: b for p, b in fs.items() if batch.is_tag(p)}
        want = {p: b for p, b in want.items() if batch.is_tag(p)}
        if got != want:
            d = next(p for p in sorted(set(got) | set(want)) if got.get(p) != want.get(p))
            return [V('hidden', 'reported as successful, but %s is %s, must be %s' % (d, batch.show(got.get(d)), batch.show(want.get(d))))]
    return []
