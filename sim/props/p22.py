"""P22: comparison results do not depend on scheduling or order."""
import re
import batch, graph, p17, p24, tagcodec as tc
from batch import V, sched_conf

rule = ('a case is one comparison of two tags folders (tags that are equal, differ in one field, in everything, or exist on one side only), with a filter, any display options, 1-5 workers, a random interleaving, listing order and hash seed, and '
        'sometimes tags damaged or unreadable on one side or short and interrupted reads; every common readable tag must be reported exactly once, with the verdict and details it gets when compared alone; '
        'non-trivial: at least two common tags, or an unreadable one')
assumptions = ['values that are not numbers (NaN) do not occur in the compared tags', 'a tag only one folder has is not part of the comparison (the tool says nothing about it)']

def cases(rng, runner, tier, k):
    w = batch.gen_tags(rng, rng.choice([1, 2, 4, 8, 14]), None if rng.random() < .8 else ['bitmap', 'sound', 'scenario'], 1, fill=rng.choice([0.02, 0.1, 0.3]), refp=rng.choice([0, 0.3, 0.8]), shadow=0, missing=0, budget=8)
    files = {'other': None}; muts = {}
    for f, b in w.files.items():
        files[f] = b
        if b is None or not batch.is_tag(f): continue
        o = 'other' + f[4:]; g = f.rpartition('.')[2]; n = f[5:]; r = rng.random()
        if r < 0.35: files[o] = b; muts[n] = 'same'
        elif r < 0.75:
            m = tc.mutate(b, rng)
            if m: files[o] = m[0]; muts[n] = m[1]
            else: files[o] = b; muts[n] = 'same'
        elif r < 0.85: files[o] = tc.build(g, rng, fill=0.3)
        elif r < 0.92: del files[f]; files[o] = b; files.setdefault(f.rpartition('/')[0], None)
    if 'tags' not in files: files['tags'] = None
    opts = rng.choice([[], ['-v'], ['-v', '-r'], ['-r'], ['-v', '-a'], ['-a'], ['-v', '-r', '-a']]) + ['-s', rng.choice(['all', 'all', 'matched', 'mismatched'])]
    tags = sorted(f[5:] for f in files if f.startswith('tags/') and batch.is_tag(f) and files[f] is not None)
    filt = rng.choice([None, None, None, '*', tags[0] if tags else '*', '*.' + (tags[-1].rpartition('.')[2] if tags else 'bitmap'), '?*'])
    base = files
    for _ in range(5 if tier == 'quick' else 14):
        f2 = dict(base); faults = []; un = []
        r = rng.random()
        if r < 0.4 and tags:
            for n in rng.sample(tags, min(len(tags), rng.choice([1, 1, 2]))):
                side = rng.choice(['tags/', 'other/']); f = side + n
                if not f2.get(f) or sum(f in g for g in f2) > 1: continue
                if rng.random() < .5: f2[f] = p24.damage(rng, f2[f])[0]
                else: faults.append(rng.choice(['open:0+:EACCES:1:', 'open:0+:EIO:1:', 'read:0+:EIO:1:', 'read:0+:eof:1:', 'open:0+:EMFILE:1:']) + f)
                un.append(n)
        elif r < 0.5: faults = ['read:%d:EINTR:1:' % rng.randrange(30), 'read:%d+:short:%d:' % (rng.randrange(6), rng.choice([1, 300, 999]))][:rng.choice([1, 2])]
        conf = sched_conf(rng)
        if faults: conf['faults'] = faults
        yield {'files': f2, 'opts': opts, 'filter': filt, 'muts': muts, 'un': un, 'conf': conf, 'jobs': batch.jobs_for(rng)}

def argv(opts, filt, jobs): return ['compare', 'tags', 'other'] + opts + (['-f', filt] if filt else []) + ['-j', str(jobs)]

def parse(lines):
    """({tag: (verdict, details)}, [failed], (matched, total) or None, odd lines, order)"""
    per, failed, tot, odd, cur, nf = [], [], None, [], None, None
    for l in lines:
        m = re.match(r'(Matched|Mismatched): (.+)$', l)
        if m: cur = [m.group(2), m.group(1), []]; per.append(cur); continue
        m = re.match(r'Failed to process (.+?\.[a-z_0-9]+): .+', l)
        if m: failed.append(m.group(1)); cur = None; continue
        m = re.match(r'Matched (\d+) / (\d+) tags?$', l)
        if m: tot = (int(m.group(1)), int(m.group(2))); cur = None; continue
        m = re.match(r'Failed to parse (\d+) tags?$', l)
        if m: nf = int(m.group(1)); cur = None; continue
        if cur is not None: cur[2].append(l)
        else: odd.append(l)
    return per, failed, tot, nf, odd

def judge(case, runner):
    files, opts, filt = case['files'], case['opts'], case['filter']
    runner.judged = None
    if 'tags' not in files and not any(f.startswith('tags/') for f in files): return []
    if 'other' not in files and not any(f.startswith('other/') for f in files): return []
    run = runner.run(files, argv(opts, filt, case['jobs']), case['conf'])
    runner.judged = run; runner.tags = list(opts)
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    want_tags = {p + '.' + g for p, g in batch.matching({'verb': 'compare', 'filter': filt or '*', 'dirs': ['tags']}, files)}
    per, failed, tot, nf, odd = parse(run.lines())
    if not want_tags:
        return [V('empty', 'nothing to compare, but exits with 0')] if run.rc == 0 else []
    if run.rc != 0: return [V('refused', 'exits with %d: %s' % (run.rc, run.err.decode('utf-8', 'replace')[-300:]))]
    if odd: return [V('odd', 'unexpected line %r' % odd[0])]
    mode = opts[opts.index('-s') + 1]
    common = {n for n in want_tags if 'tags/' + n in files and 'other/' + n in files}
    un = set()
    for n in case['un']:
        if n in common or 'other/' + n in files: un.add(n)
    faulted = {f.split(':', 4)[4] for f in case['conf'].get('faults', []) if f.split(':', 4)[4]}
    bad = {n for n in common if any(s + n in faulted or graph.deps(files[s + n], n.rpartition('.')[2]) is None for s in ('tags/', 'other/'))}
    runner.nontrivial = len(common) > 1 or bool(bad)
    ns = [p[0] for p in per]
    if len(set(ns)) != len(ns): return [V('twice', 'a tag is reported twice: %r' % sorted(ns))]
    for n in ns:
        if n not in common: return [V('extra', '%s is reported, but both folders do not have it' % n)]
        if n in bad: return [V('unreadable', '%s cannot be read, but is reported as compared' % n)]
    # an unreadable tag that the other side does not have may or may not be noticed
    if sorted(f for f in failed if f in common) != sorted(bad): return [V('failures', 'reported as failed: %r, unreadable: %r' % (sorted(failed), sorted(bad)))]
    if len(failed) != (nf or 0): return [V('count', '%d failures reported, summary says %r' % (len(failed), nf))]
    extra = [f for f in failed if f not in common]
    if extra: return [V('failures', 'reported as failed, but only one folder has it: %r' % extra)]
    verdicts = {}
    got = {p[0]: (p[1], p[2]) for p in per}
    v_opts = [o for o in opts if o in ('-v', '-r', '-a')] + ['-s', 'all']
    for n in sorted(common - bad):
        a, b = files['tags/' + n], files['other/' + n]
        solo = runner.ref({'tags/' + n: a, 'other/' + n: b}, argv(v_opts, n, 1))
        sp, sf, st, snf, so = parse(solo.lines())
        if len(sp) != 1 or sp[0][0] != n: return [V('solo', 'comparing %s alone says %r' % (n, solo.lines()[:4]))]
        verdicts[n] = (sp[0][1], sp[0][2] if '-v' in opts and mode != 'matched' else [])
        if a == b and sp[0][1] != 'Matched': return [V('wrong', '%s is the same on both sides, but is reported as different: %r' % (n, solo.lines()[:4]))]
        k = case['muts'].get(n)
        if a != b and sp[0][1] == 'Matched' and ('-r' in opts or k in ('reference', 'data', 'length')): return [V('wrong', '%s differs (%s), but is reported as matching' % (n, k))]
        shown = {'all': True, 'matched': sp[0][1] == 'Matched', 'mismatched': sp[0][1] == 'Mismatched'}[mode]
        if shown != (n in got): return [V('missing' if shown else 'extra', '%s is %s alone; in this run it is %s with -s %s' % (n, sp[0][1], got.get(n, ('not reported',))[0], mode))]
        if shown and got[n] != verdicts[n]: return [V('differs', '%s alone: %r; in this run: %r' % (n, verdicts[n], got[n]))]
    m = sum(v[0] == 'Matched' for v in verdicts.values())
    if tot != (m, len(common - bad)): return [V('count', 'summary says %r, %d of %d match' % (tot, m, len(common - bad)))]
    if not bad:
        ref = runner.ref(files, argv(opts, filt, 1), {'seed': 99, 'dseed': 5})
        if ref.lines() != run.lines(): return [V('order', 'the report depends on scheduling, hashing or listing order: %r vs %r' % (run.lines()[:5], ref.lines()[:5]))]
    return []
