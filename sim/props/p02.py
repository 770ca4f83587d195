"""P02: what the tools report about a save is what is on disk."""
import batch, moves
from batch import V, sched_conf

rule = ('a case is one editing run with short, interrupted and failing writes, creates, renames, folder creations, reads or opens, or a full disk; each report line is compared with the file at its destination; '
        'non-trivial: a fault fired and some matching tag would be saved')
assumptions = ['the new contents of a tag are those that processing it alone, without faults, saves; for imports and conversions: those saved when the destination does not exist yet, '
               'and for refactor-groups: those computed by the independent codec', 'requests in which two matching tags have the same output file are skipped']

def cases(rng, runner, tier, k):
    verb = rng.choice(batch.EDIT_VERBS + ['refactor-groups', 'unicode-strings', 'tag-collection', 'strip', 'bludgeon'])
    files, job = batch.gen_job(rng, verb=verb, n=rng.choice([1, 2, 3, 4, 6, 8]))
    if verb in batch.GROUP_OF or verb == 'convert': tweak(rng, runner, files, job)
    base = runner.ref(files, batch.argv(job, jobs=1))
    nmut, nops = batch.count_ops(base)
    steps = int(base.end.get('steps', 20000))
    for _ in range((12 if tier == 'quick' else 40) if nmut else 3):
        conf = sched_conf(rng, steps)
        r = rng.random()
        if r < 0.15: pass
        elif r < 0.35: conf['faults'] = soft(rng, nmut)
        elif r < 0.75: conf['faults'] = batch.write_faults(rng, nmut)
        elif r < 0.88: conf['faults'] = [rng.choice(['open', 'open', 'read']) + ':%d:%s:0:' % (rng.randrange(0, max(3, 4 * len(files))), rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOMEM'])) for _ in range(rng.choice([1, 1, 2, 3]))] + \
            (batch.write_faults(rng, nmut) if rng.random() < .2 else [])
        else: conf['space'] = rng.choice([0, 1, 10, 64, 100, 300, 1000, 3000, 10000])
        yield {'files': files, 'job': job, 'jobs': batch.jobs_for(rng), 'conf': conf}

def soft(rng, nmut):
    out = []
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.random()
        if k < 0.6: out.append('write:%d%s:short:%d:' % (rng.randrange(0, max(2, nmut)), rng.choice(['', '+']), rng.choice([1, 7, 100, 500, 999])))
        elif k < 0.8: out.append('write:%d:EINTR:0:' % rng.randrange(0, max(2, nmut)))
        else: out.append('read:%d%s:short:%d:' % (rng.randrange(0, max(2, nmut)), rng.choice(['', '+']), rng.choice([1, 7, 100, 500, 999])))
    return out

def tweak(rng, runner, files, job):
    """Destinations that almost match what will be saved: same size, one byte different, or a piece of it."""
    for t in batch.matching(job, files):
        d = batch.dest(job, batch.tag_of(t), files)
        if job['verb'] == 'convert' and not job.get('overwrite'): continue
        if rng.random() < 0.5: continue
        b = intended(runner, files, job, t)
        if not b: continue
        k = rng.random()
        if k < 0.3: n = b
        elif k < 0.7:
            c = bytearray(b); i = rng.randrange(len(c)) if rng.random() < .5 else len(c) - 1 - rng.randrange(min(8, len(c))); c[i] ^= 1 << rng.randrange(8); n = bytes(c)
        elif k < 0.85: n = b[:rng.randrange(len(b))]
        else: n = b + b'\0'
        if job['verb'] == 'convert' and batch.dest(job, batch.tag_of(t), files).partition('.')[0] == batch.tag_of(t): continue
        files[d] = n

def intended(runner, files, job, tag):
    """New contents of the destination according to something that does not look at the destination, or None if unknown."""
    v = job['verb']; name = batch.tag_of(tag)
    d = batch.dest(job, name, files)
    if v in batch.GROUP_OF or (v == 'convert' and job['to'] != tag[1]):
        # save it where there is nothing yet
        f = {p: b for p, b in files.items() if p != d and not (v in batch.GROUP_OF and p.partition('/')[2] == name and p.partition('/')[0] in job['dirs'] + ['cow'])
             and not (v == 'convert' and p.partition('/')[2] == '%s.%s' % (tag[0], job['to']))}
        for x in job['dirs']: f.setdefault(x, None)
        if job.get('cow'): f.setdefault('cow', None)
        r = batch.isolated(runner, f, job, tag)
        return r.writes.get(d) or r.writes.get(job['dirs'][0] + '/' + d.partition('/')[2])
    if v == 'refactor-groups': return refactor(files, job, tag)
    return None

def refactor(files, job, tag):
    import tagcodec as tc
    f = batch.where(files, job['dirs'], *tag)
    try: g, t = tc.parse(files[f])
    except Exception: return None
    ch = False
    for r in tc.refs(t):
        if job['to'] not in tc.allowed(r.allowed) or r.group != job['from']: continue
        if r.path and not batch.where(files, job['dirs'], r.path.replace('\\', '/'), job['to']): continue
        r.group = job['to']; ch = True
    return tc.serialize(g, t) if ch else files[f]

def judge(case, runner):
    files, job = case['files'], case['job']
    runner.judged = None
    refs, outs, conflict = batch.expected(runner, files, job)
    if conflict: return []
    by = {}
    for r in refs:
        if r.bad: runner.judged = r.run; return [V('single-run', r.bad)]
        by[batch.tag_of(r.tag)] = r
    run = runner.run(files, batch.argv(job, jobs=case['jobs']), case['conf'])
    runner.judged = run
    runner.tags = [job['verb']]
    hard = batch.hard_faults(run)
    fired = hard or any(f[3] for f in run.faults_fired())
    runner.nontrivial = bool(fired and outs)
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace')[-300:]))]
    per, odd, summ = batch.report(run)
    odd = [l for l in odd if not l.startswith('Error executing')]
    if odd: return [V('stray-line', repr(odd[0]))]
    unexpected = 0
    for name, r in by.items():
        d = batch.dest(job, name, files)
        now, old = run.fs.get(d), files.get(d)
        got = per.get(name, [])
        if not got:
            if r.status != 'ignored': return [V('unreported', '%s is not reported' % name)]
            continue
        st, line = got[0]
        new = r.writes.get(d)
        if st == 'processed':
            if new is None: return [V('processed', '%s is reported as processed, but alone it is %s' % (name, r.status))]
            if now != new: return [V('processed-not-saved', '%s is reported as processed, but %s holds %s instead of the new %s' % (name, d, batch.show(now), batch.show(new)))]
            want = intended(runner, files, job, r.tag)
            if want is not None and now != want: return [V('processed-wrong', '%s is reported as processed, but %s does not hold what was to be saved (%s instead of %s)' % (name, d, batch.show(now), batch.show(want)))]
        elif st == 'skipped':
            if now != old: return [V('skipped-changed', '%s is reported as skipped, but %s changed' % (name, d))]
            if 'matches tag' in line:
                want = intended(runner, files, job, r.tag)
                src = batch.where(files, job['dirs'], *d.partition('/')[2].rsplit('.', 1)) if job.get('cow') else d
                if want is not None and want not in (now, files.get(src)): return [V('skipped-differs', '%s is said to match its file, but %s holds %s and the tag is %s' % (name, d, batch.show(now), batch.show(want)))]
            if new is not None: return [V('skipped', '%s is reported as skipped, but alone it is saved' % name)]
        else:
            if now != old: return [V('failed-changed', '%s is reported as failed, but %s changed: %s, before %s' % (name, d, batch.show(now), batch.show(old)))]
            if r.status != 'failed': unexpected += 1
    if unexpected > hard: return [V('spurious-failure', '%d tags failed although only %d operations failed for good' % (unexpected, hard))]
    # nothing else may have changed
    exp = {batch.dest(job, n, files) for n in by}
    for p in sorted(set(files) | set(run.fs)):
        if p in exp or not batch.is_tag(p): continue
        if files.get(p) != run.fs.get(p): return [V('other-file', '%s changed' % p)]
    return []
