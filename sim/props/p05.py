"""P05: one unreadable tag only affects its own result."""
from collections import Counter
import batch
from batch import V, sched_conf
from p03 import files_diff, short

rule = ('a case is one batch run in which some of the tags are damaged on disk (flipped, cut, replaced by garbage, or with the checksum switched off and the structure damaged) or '
        'persistently fail to open or to read, compared with the same tags processed one by one; non-trivial: at least one bad and one good matching tag')
assumptions = ['a folder that cannot be listed hides its tags; only the tags elsewhere are judged then',
               'contents without a checksum that still parse are legitimate input, whatever they say']

def cases(rng, runner, tier, k):
    files, job = batch.gen_job(rng, n=rng.choice([2, 3, 4, 6, 9, 12]), verb=rng.choice(batch.EDIT_VERBS + ['bludgeon', 'strip', 'nudge', 'convert', 'recompress-vertices', 'refactor-groups'] * 2))
    if rng.random() < 0.7: job['filter'] = '*'
    tags = batch.all_tags(files, job['dirs'])
    if not tags: return
    base = dict(files)
    steps = 20000
    for _ in range(6 if tier == 'quick' else 16):
        files = dict(base); faults = []; bad = []
        for t in rng.sample(tags, min(len(tags), rng.choice([1, 1, 2, 3]))):
            f = job['dirs'][0] + '/' + batch.tag_of(t)
            r = rng.random()
            if r < 0.62:
                files[f], how = batch.corrupt(rng, files[f])
            else:
                # the reading of the tag fails, or its text source does
                g = batch.GROUP_OF.get(job['verb'])
                if g == t[1]: f = 'data/%s.txt' % t[0]
                kind = rng.choice(['open:0+:EACCES', 'open:0+:EIO', 'open:0+:EMFILE', 'read:0+:EIO', 'read:1+:EIO', 'read:0+:EACCES'])
                faults.append('%s:0:%s' % (kind, f)); how = kind
            bad.append([batch.tag_of(t), how])
        if rng.random() < 0.1:
            ds = sorted({t[0].rpartition('/')[0] for t in tags if '/' in t[0]})
            if ds: faults.append('opendir:0+:EACCES:0:%s/%s' % (job['dirs'][0], rng.choice(ds)))
        for _ in range(2):
            conf = sched_conf(rng, steps)
            if faults: conf['faults'] = list(faults)
            yield {'files': files, 'job': job, 'jobs': batch.jobs_for(rng), 'conf': conf, 'bad': bad}
            r = getattr(runner, 'judged', None)
            if r is not None and r.end: steps = int(r.end['steps'])

def judge(case, runner):
    files, job = case['files'], case['job']
    faults = case['conf'].get('faults', [])
    fconf = {'faults': [f for f in faults if not f.startswith('opendir')]} if faults else None
    runner.judged = None
    refs, outs, conflict = batch.expected(runner, files, job, fconf)
    if conflict: return []
    runner.tags = [job['verb']]
    for r in refs:
        if r.bad:
            runner.judged = r.run
            return [V('single-run-' + r.run.how, '%s: %s' % (' '.join(r.run.argv), r.bad))]
    hidden = [f.split(':', 4)[4] for f in faults if f.startswith('opendir')]
    run = runner.run(files, batch.argv(job, jobs=case['jobs']), case['conf'])
    runner.judged = run
    if run.how != 'exit':
        return [V('ended-' + run.how, 'batch run aborted: %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    per, odd, summ = batch.report(run)
    hid = lambda r: any(h in '%s/%s' % (job['dirs'][0], batch.tag_of(r.tag)) for h in hidden)
    good = [r for r in refs if not hid(r)]
    st = {batch.tag_of(r.tag): r.status for r in refs}
    runner.nontrivial = 'failed' in st.values() and any(s in ('processed', 'skipped') for s in st.values())
    # reads that fail must have been reported as failures, alone or not
    for f in fconf['faults'] if fconf else []:
        cls, n, kind, arg, sub = f.split(':', 4)
        if kind == 'short': continue
        for r in good:
            src = '%s/%s' % (job['dirs'][0], batch.tag_of(r.tag)) if job['verb'] not in batch.GROUP_OF else 'data/%s.txt' % r.tag[0]
            if src == sub and r.status in ('processed', 'skipped') and any(c == cls and fired for c, _, _, fired in r.run.faults_fired()):
                return [V('read-error-ignored', '%s is %s although reading %s failed with %s' % (batch.tag_of(r.tag), r.status, sub, kind))]
    wrong = {n for n, how in case['bad'] if how == 'wrong group'}
    for r in good:
        n = batch.tag_of(r.tag)
        if n in wrong and batch.GROUP_OF.get(job['verb']) is None and r.status in ('processed', 'skipped') and batch.where(files, job['dirs'], *r.tag) == job['dirs'][0] + '/' + n:
            return [V('wrong-group', '%s is %s although the file holds a tag of another group' % (n, r.status))]
    out = []
    want = Counter(l for r in good for l in r.lines)
    got = Counter(l for n, ls in per.items() for _, l in ls if not any(h in job['dirs'][0] + '/' + n for h in hidden))
    if want != got:
        d = list((got - want).elements())[:3], list((want - got).elements())[:3]
        out.append(V('lines', 'reports %r and lacks %r compared with each tag alone' % d))
    if not hidden:
        wantfs = {p: b for p, b in files.items() if b is not None}
        wantfs.update(outs)
        d = files_diff(wantfs, {p: b for p, b in run.fs.items() if b is not None})
        if d: out.append(V('files', '%s is %s, but %s when each tag is processed alone' % (d[0], short(d[2]), short(d[1]))))
    else:
        for r in good:
            for p, b in r.writes.items():
                if run.fs.get(p) != b: out.append(V('files', '%s was not written as it is when each tag is processed alone' % p)); break
    for n, ls in per.items():
        if ls[0][0] == 'failed':
            f = job['dirs'][0] + '/' + n
            if job['verb'] != 'convert' and run.fs.get(f) != files.get(f): out.append(V('touched', '%s failed but its file changed' % n))
    return out
