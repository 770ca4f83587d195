"""P09: a move that fails half-way is rolled back."""
import batch, moves
from batch import V, sched_conf

level = 'fault_enumeration'
rule = ('a case is one refactor-paths move in which one file operation of the move phase (a rename, a folder creation or a folder removal, each position of the fault-free run in turn) fails with some error, and sometimes a step of the rollback as well; '
        'if the failure stops the move, the exit status must be 1 and every tag file as before; non-trivial: the fault fired on a rename or folder creation')
assumptions = ['of the rollback itself at most one step fails', 'empty folders may be left or be missing']
real = 'invader refactor-paths and the ringhopper library, compiled from the working tree'

def cases(rng, runner, tier, k):
    files, job = moves.gen_move(rng, n=rng.choice([3, 4, 6, 8, 12]))
    base = moves.reference(runner, files, job)
    if base.how != 'exit' or base.rc != 0: return
    ops = [o.split(' ', 4) for o in base.ops()]
    # the move phase ends with the first worker thread; what comes later is saving
    nm = [len([o for o in ops if o[3] == c and not o[4].split(' ')[0].endswith('.tmp')]) for c in ('rename', 'mkdir', 'rmdir')]
    pts = []
    for c, n in zip(('rename', 'mkdir', 'rmdir'), nm):
        for i in range(min(n, 40)):
            for e in (('EIO', 'EACCES', 'ENOSPC') if c == 'rename' else ('EACCES', 'ENOSPC', 'EIO') if c == 'mkdir' else ('EACCES', 'EBUSY')):
                pts.append('%s:%d:%s:0:' % (c, i, e))
    pts = [[p] for p in pts]
    # a rename that fails for good, with everything failing that the rollback has no need of
    for i in range(min(nm[0], 40)):
        for e in ('write:%d+:ENOSPC:0:' % rng.choice([0, 0, 1]), 'unlink:0+:EACCES:0:', 'creat:0+:EACCES:0:', 'chmod:0+:EPERM:0:', 'read:%d+:EIO:0:' % rng.randrange(3)):
            pts.append(['rename:%d:%s:0:' % (i, rng.choice(['EXDEV', 'EXDEV', 'EACCES'])), e])
    # a rename that fails, and then one of the steps of the rollback as well
    both = []
    for i in range(1, min(nm[0], 40)):
        for j in {i + 1, i + 1 + rng.randrange(i)}:
            both.append(['rename:%d:%s:0:' % (i, rng.choice(['EXDEV', 'EACCES', 'EIO'])), 'rename:%d:%s:0:' % (j, rng.choice(['EACCES', 'EIO', 'ENOSPC']))])
    rng.shuffle(both); pts += both[:6 if tier == 'quick' else 40]
    ns = len([o for o in ops if o[3] == 'stat'])
    for i in rng.sample(range(ns), min(ns, 12)): pts.append(['stat:%d:EACCES:0:' % i])
    rng.shuffle(pts)
    for f in pts[:14 if tier == 'quick' else 60]:
        conf = sched_conf(rng, int(base.end['steps']))
        conf['faults'] = f
        yield {'files': files, 'job': job, 'jobs': batch.jobs_for(rng), 'conf': conf}

def tagfiles(fs): return {p: b for p, b in fs.items() if b is not None}

def judge(case, runner):
    files, job = case['files'], case['job']
    runner.judged = None
    want = moves.model(files, job)
    if want is None: return []
    run = runner.run(files, moves.argv(job, case['jobs']), case['conf'])
    runner.judged = run
    fired = [c for c, k, s, f in run.faults_fired() if f]
    runner.tags = fired or ['none']
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    hit = [o for o in run.ops() if ' FAULT ' in o]
    # once every tag has been moved, a failure belongs to the saving of one tag
    moved = 0; saving = False
    for o in run.ops():
        w = o.split(' ', 4)
        if w[3] == 'rename' and w[4].endswith(' = 0') and '.tmp' not in o: moved += 1
        if ' FAULT ' in o and moved >= len(moves.plan(files, job)): saving = True
        if w[3] == 'rename' and '.tmp' not in o and ' FAULT ' in o: break
    if any(f.startswith('stat') for f in case['conf']['faults']) and run.rc == 0: return []   # a tag it could not see is not part of the move
    stopped = any(o.split(' ', 4)[3] == 'rename' or (o.split(' ', 4)[3] == 'mkdir') for o in hit) and not saving
    runner.nontrivial = stopped
    before, got = tagfiles(files), tagfiles(run.fs)
    renamed = any(l.startswith('Renamed ') and ' to ' in l for l in run.lines())
    renames = [o for o in hit if o.split(' ', 4)[3] == 'rename']
    if len(renames) > 1 and not saving and run.rc != 0: return unrestored(files, job, run, before, got, renames[1])
    if run.rc != 0 or stopped:
        if stopped and run.rc == 0 and got != want: return [V('hidden', 'a failed %s is not reported: exit status 0' % hit[0])]
        if stopped and run.rc == 0: return []   # it was absorbed (for instance the folder existed already)
        if renamed: return [V('claims', 'reports renamed tags although it failed')]
        if got != before:
            d = next(p for p in sorted(set(got) | set(before)) if got.get(p) != before.get(p))
            return [V('not-rolled-back', '%s is %s after the failed move, before it %s (%s)' % (d, batch.show(got.get(d)), batch.show(before.get(d)), hit[0] if hit else ''))]
        return []
    if saving: return []
    if got != want:
        d = next(p for p in sorted(set(got) | set(want)) if got.get(p) != want.get(p))
        return [V('incomplete', 'the move succeeded, but %s is %s, must be %s (%s)' % (d, batch.show(got.get(d)), batch.show(want.get(d)), hit[0] if hit else 'no fault'))]
    return []

def unrestored(files, job, run, before, got, why):
    """A step of the rollback failed as well: the file it was for stays whole at its new path and is reported, every other one is back."""
    there = {}
    for (p, g), (n, g2) in moves.plan(files, job):
        f = batch.where(files, job['dirs'], p.replace('\\', '/'), g)
        there[f] = f.partition('/')[0] + '/' + moves.disk(n, g2)
    left = [f for f in sorted(before) if got.get(f) != before[f]]
    said = (run.out + run.err).decode('utf-8', 'replace').replace('\\', '/')
    for f in left:
        n = there.get(f)
        if n is None or got.get(n) != before[f]: return [V('lost', '%s is %s after a move whose rollback failed at %s' % (f, batch.show(got.get(f)), why))]
        if n.split('/', 1)[-1] not in said and f.split('/', 1)[-1] not in said: return [V('unreported', '%s was left at %s, which is not reported (%s)' % (f, n, why))]
    if len(left) > 1: return [V('rollback-stops', '%d files are not moved back although only one step of the rollback failed (%s): %s' % (len(left), why, ', '.join(left[:5])))]
    extra = set(got) - set(before) - {there[f] for f in left}
    if extra: return [V('extra', '%s is left behind by the failed move' % sorted(extra)[0])]
    return []
