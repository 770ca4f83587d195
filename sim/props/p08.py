"""P08: moving tags updates every reference to them, once, under any schedule."""
from collections import Counter
import batch, moves
from batch import V, sched_conf
from p03 import files_diff, short

rule = ('a case is one refactor-paths run (moving, or redirecting references with -N; whole-path or prefix replacement; with filters; 1-3 stacked folders; some tags unreadable) with random worker counts, schedules, listing orders and '
        'hash seeds, compared byte for byte with an independent model (Python codec) of the renamed and rewritten tags; requests the model says must be refused must leave everything alone; where saving a tag fails, exactly the reported tags keep their old references; '
        'non-trivial: a tag other than a renamed one has a reference that must change, or the request must be refused')
assumptions = ['a moved tag has no copy hidden in a lower folder (that copy would appear at the old path)', 'a tag that cannot be read keeps its references; that must be reported']
real = 'invader refactor-paths and the ringhopper library, compiled from the working tree'

def cases(rng, runner, tier, k):
    r = rng.random()
    files, job = moves.gen_nomove(rng) if r < 0.3 else moves.gen_move(rng, bad=0.15)
    damaged = rng.random() < 0.2
    if damaged:
        tags = [f for f in files if files[f] and batch.is_tag(f)]
        for f in rng.sample(tags, min(len(tags), rng.choice([1, 1, 2]))):
            b = bytearray(files[f])
            i = rng.randrange(64, len(b)) if len(b) > 64 else 40
            b[i] ^= 1 << rng.randrange(8)
            files[f] = bytes(b)
            if b[40:44] == b'\xff\xff\xff\xff': return
    steps = 20000
    for _ in range(8 if tier == 'quick' else 24):
        conf = sched_conf(rng, steps)
        if rng.random() < 0.1: conf['faults'] = [rng.choice(['write:%d+:short:%d:' % (rng.randrange(3), rng.choice([1, 30, 500])), 'read:%d+:short:%d:' % (rng.randrange(3), rng.choice([1, 30, 500])), 'read:%d:EINTR:0:' % rng.randrange(5), 'write:%d:EINTR:0:' % rng.randrange(5)])]
        case = {'files': files, 'job': job, 'jobs': batch.jobs_for(rng), 'conf': conf}
        if not damaged and rng.random() < .2:
            # a tag whose rewritten references cannot be saved
            conf['faults'] = [rng.choice(['creat:%d%s:EIO:0:.tmp', 'creat:%d%s:ENOSPC:0:.tmp', 'write:%d%s:ENOSPC:0:.tmp', 'write:%d%s:EIO:0:.tmp', 'rename:%d%s:EACCES:0:.tmp']) % (rng.choice([0, 0, 1, 2, 3]), rng.choice(['', '', '', '+']))]
            case['unsaved'] = 1
        yield case
        r = getattr(runner, 'judged', None)
        if r is not None and r.end: steps = int(r.end['steps'])

def fslash(p, g): return p + '.' + g

def judge(case, runner):
    files, job = case['files'], case['job']
    runner.judged = None
    pl = moves.plan(files, job)
    want = moves.model(files, job)
    run = runner.run(files, moves.argv(job, case['jobs']), case['conf'])
    runner.judged = run
    runner.tags = ['no-move' if job.get('nomove') else 'move', 'refused' if want is None else 'accepted']
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    lines = run.lines()
    got = {p: b for p, b in run.fs.items() if b is not None}
    had = {p: b for p, b in files.items() if b is not None}
    if want is None:
        runner.nontrivial = True
        if run.rc == 0: return [V('not-refused', 'a rename that cannot be done was accepted: %s' % ' '.join(run.argv))]
        d = files_diff(had, got)
        return [V('refused-changed', 'the rename was refused, but %s is %s, before %s' % (d[0], short(d[2]), short(d[1])))] if d else []
    ren = dict(pl)
    srcs = {moves.disk(*a) for a in ren}
    changed = [p for p in want if p in had and want[p] != had[p]]
    runner.nontrivial = bool(changed)
    if run.rc != 0: return [V('failed', 'exit status %d without any fault: %s' % (run.rc, run.out.decode('utf-8', 'replace')[-300:]))]
    d = files_diff(want, got)
    if case.get('unsaved'): return unsaved(run, files, job, pl, want, had, got)
    if d: return [V('files', '%s is %s after the rename, must be %s' % (d[0], short(d[2]), short(d[1])) + (' (contents differ)' if d[1] and d[2] else ''))]
    rl = Counter(l for l in lines if l.startswith('Renamed ') and ' to ' in l)
    wl = Counter('Renamed %s to %s' % (fslash(*a), fslash(*b)) for a, b in pl)
    norm = lambda c: Counter({k.replace('\\', '/'): v for k, v in c.items()})
    if norm(rl) != norm(wl): return [V('lines', 'reports %r, must be %r' % (sorted((rl - wl) or rl)[:3], sorted((wl - rl) or wl)[:3]))]
    # every tag that may hold such references but cannot be read is reported, and no other
    unread = []
    groups = {a[1] for a in ren}
    cur = {f: b for f, b in want.items()}
    for p, g in batch.all_tags(cur, job['dirs']):
        f = batch.where(cur, job['dirs'], p, g)
        if moves.can_refer(g) & groups and not valid(cur[f], g): unread.append(p + '.' + g)
    errs = sorted(l.split(': ', 1)[0][6:].replace('\\', '/') for l in lines if l.startswith('ERROR '))
    if errs != sorted(unread): return [V('unreadable', 'unreadable tags reported: %r, must be %r' % (errs, sorted(unread)))]
    return []

def unsaved(run, files, job, pl, want, had, got):
    """Saving some tags failed: those are reported and stay as they were, all others are updated."""
    base = dict(had)
    for a, b in pl:
        if job.get('nomove'): break
        f = next(d + '/' + moves.disk(*a) for d in job['dirs'] if d + '/' + moves.disk(*a) in had)
        base[f.partition('/')[0] + '/' + moves.disk(*b)] = base.pop(f)
    errs = {l.split(': ', 1)[0][6:].replace('\\', '/') for l in run.lines() if l.startswith('ERROR ')}
    for f in sorted(set(want) | set(got)):
        t = f.partition('/')[2]
        if got.get(f) == want.get(f) and (t not in errs or want.get(f) == base.get(f)): continue
        if t not in errs: return [V('unsaved', '%s is %s after the rename, must be %s, and no failure to save it is reported' % (f, short(got.get(f)), short(want.get(f))))]
        if got.get(f) != base.get(f): return [V('unsaved-changed', '%s is reported as not saved, but is %s, before %s' % (f, short(got.get(f)), short(base.get(f))))]
    return []

def valid(b, g):
    import tagcodec as tc
    try: return tc.parse(b)[0] == g
    except Exception: return False
