"""P04: each matching tag is processed and reported exactly once, and counted exactly once."""
import re
import batch, tagcodec as tc
from batch import V, sched_conf

rule = ('a case is one batch run with a random filter over random tags (some of them corrupt, so that they fail), worker count, schedule and short or interrupted '
        'terminal writes; matching tags come from an independent enumeration and wildcard matcher; non-trivial: at least 2 matching tags and more than one thread, or no match at all')
assumptions = ['a tag may go unreported only under the tools that ignore whole groups (nudge, undefault, refactor-groups, recompress-vertices), when processing it alone reports nothing either']
NEVER_IGNORED = {'bludgeon', 'strip', 'convert', 'unicode-strings', 'tag-collection', 'ui-widget-collection'}

def cases(rng, runner, tier, k):
    files, job = batch.gen_job(rng, n=rng.choice([1, 2, 3, 5, 8, 12, 16, 24]))
    tags = batch.all_tags(files, job['dirs'])
    for t in tags:
        if rng.random() < 0.12:
            f = job['dirs'][0] + '/' + batch.tag_of(t)
            b = bytearray(files[f])
            if len(b) > 64: b[-1] ^= 0x55
            else: b = b[:10]
            files[f] = bytes(b)
    r = rng.random()
    if r < 0.08: job['filter'] = rng.choice(['zz*', '*.zz', '?', 'a?', '*.no_such'])
    elif r < 0.14 and tags:
        t = rng.choice(tags); job['filter'] = batch.tag_of(t)
    steps = 20000
    for _ in range(12 if tier == 'quick' else 24):
        jobs = batch.jobs_for(rng)
        conf = sched_conf(rng, steps)
        if rng.random() < 0.35:
            fl = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.7: fl.append('out:%d%s:short:%d:' % (rng.randrange(0, 8), rng.choice(['', '+']), rng.choice([1, 3, 100, 500, 900])))
                else: fl.append('out:%d:EINTR:0:' % rng.randrange(0, 8))
            conf['faults'] = fl
        yield {'files': files, 'job': job, 'jobs': jobs, 'conf': conf}
        r = getattr(runner, 'judged', None)
        if r is not None and r.end: steps = int(r.end['steps'])

def judge(case, runner):
    files, job = case['files'], case['job']
    want = batch.matching(job, files)
    runner.judged = None
    run = runner.run(files, batch.argv(job, jobs=case['jobs']), case['conf'])
    if run.rc != 0 and re.search(rb'Argument parse error|does not exist for --', run.out): raise batch.Invalid(run.out)
    runner.judged = run
    runner.tags = [job['verb']]
    if run.how != 'exit': return [V('ended-' + run.how, 'batch run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace')[-300:]))]
    per, odd, summ = batch.report(run)
    literal = not ('*' in job['filter'] or '?' in job['filter'])
    names = [batch.tag_of(t) for t in want]
    if literal and not names: return []
    runner.nontrivial = (len(names) >= 2 and int(run.end.get('threads', 1)) > 1) or not names
    errs = [l for l in odd if l.startswith('Error executing ')]
    odd = [l for l in odd if not l.startswith('Error executing ')]
    if odd: return [V('stray-line', 'output line %r is no whole report of any tag' % odd[0])]
    text = run.out.decode('utf-8', 'replace')
    if text and not text.endswith('\n'): return [V('cut-line', 'output ends in the middle of a line: %r' % text[-60:])]
    for n in per:
        if n not in names: return [V('foreign', '%r reported, but it does not match %r' % (n, job['filter']))]
        if len(per[n]) > 1: return [V('repeated', '%r reported %d times' % (n, len(per[n])))]
    for t, n in zip(want, names):
        if n not in per:
            if job['verb'] in NEVER_IGNORED: return [V('unreported', '%r matches %r but is not reported' % (n, job['filter']))]
            x = batch.isolated(runner, files, job, t)
            if x.status != 'ignored': return [V('unreported', '%r matches %r but is not reported; alone it is %s' % (n, job['filter'], x.status))]
    # a tag that is not matched must not have been touched
    if job['verb'] != 'convert':
        c = job.get('cow')
        for p in set(files) | set(run.fs):
            if files.get(p) == run.fs.get(p) or run.fs.get(p) is None and files.get(p) is None: continue
            d, _, rel = p.partition('/')
            if (d in job['dirs'] or d == c) and rel not in names: return [V('foreign-change', '%s changed, but it does not match %r' % (p, job['filter']))]
    st = [v[0][0] for v in per.values()]
    n = len(st)
    if n == 0:
        if run.rc == 0 or not any('No viable tags matched' in l for l in errs): return [V('no-match', 'nothing viable matched, yet exit status %d and %r' % (run.rc, text[-200:]))]
        if summ: return [V('summary', 'a summary though nothing matched: %r' % summ)]
        return []
    if run.rc != 0 or errs: return [V('exit', 'exit status %d (%r) although %d tags were viable' % (run.rc, errs, n))]
    s = batch.summary_of(summ)
    if n > 1 or summ:
        if len(summ) != 1 or s is None: return [V('summary', 'no single summary line for %d tags: %r' % (n, summ))]
        if s != (st.count('processed'), n, st.count('failed')): return [V('summary', 'summary %r, but the lines say %d processed, %d in all, %d failed' % (summ[0], st.count('processed'), n, st.count('failed')))]
    return []
