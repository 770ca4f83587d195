"""P14: verification is complete and independent of scheduling."""
import collections, random, re, struct
import batch, graph, tagcodec as tc
from batch import V, sched_conf

rule = ('a case is one verify-scenario run over one to three scenarios with their reachable tags (chains and cycles of references included), several worker threads besides the two of each verification, a random schedule and hash seed, '
        'and possibly interrupted reads or tags that cannot be opened; its findings are compared, tag by tag, with those of each scenario verified by itself one thread after the other, and with defects planted by the generator '
        '(not-a-number values, unreadable tags, references to a group the field does not allow); non-trivial: more than one thread was runnable and there are findings')
assumptions = ['the order of the lines within one report follows the hash seed and is not judged']

def nan(rng, tree):
    # (the values of a pair of bounds or of an array are not looked at by the tool)
    c = [s for s in tc.slots(tree) if s[2]['type'] == 'float' and not s[2].get('bounds') and s[2].get('count', 1) == 1]
    if not c: return False
    s, i, f = rng.choice(c)
    s.f[i] = struct.pack('>f', float('nan'))
    return True

def wrong_ref(rng, tree, tags, group):
    """A reference to a group this field does not allow."""
    c = [s for s in tc.slots(tree) if isinstance(s[0].f[s[1]], tc.Ref)]
    rng.shuffle(c)
    for s, i, f in c:
        al = tc.allowed(f['groups'])
        t = [x for x in tags if x[1] not in al]
        if t:
            same = [x for x in t if x[1] == group]
            x = rng.choice(same if same and rng.random() < .5 else t); v = s.f[i]
            s.f[i] = tc.Ref(x[1], x[0], v.allowed, v.hidden)
            return f.get('name')
    return None

def supported(group, engine):
    e = tc.GROUPS[group].get('engines')
    while engine and e and engine not in e: engine = tc._D['parents'][engine]
    return not e or bool(engine)

def bad_refs(b, engine):
    """What a tag file must be blamed for on account of its references: Counter of ('kind', field, group). Written from the definitions."""
    out = collections.Counter()
    for s, i, f in tc.slots(tc.parse(b)[1]):
        v = s.f[i]
        if not isinstance(v, tc.Ref) or not v.path: continue
        if v.group not in tc.allowed(f['groups']): out['field', v.group] += 1
        elif not supported(v.group, engine): out['engine', v.group] += 1
    return out

def said_refs(s):
    out = collections.Counter()
    for l, m in s:
        r = re.search(r' references `([a-z_]+)`, which is not allowed for (this reference|engine `)', m)
        if r: out['field' if r.group(2)[0] == 't' else 'engine', r.group(1)] += 1
    return out

def cases(rng, runner, tier, k):
    eng = rng.choice(sorted(graph.ENGINES))
    w, roots = graph.gen_verify_world(rng, eng, scenarios=rng.choice([1, 1, 2, 3]), cycles=rng.random() < .5)
    files, dirs = w.files, w.dirs
    tags = [(p.replace('/', '\\'), g) for p, g in batch.all_tags(files, dirs)]
    planted = {}
    for t in rng.sample(tags, min(len(tags), rng.choice([0, 1, 2, 4]))):
        got = []
        def f(tree):
            if nan(rng, tree): got.append('nan')
        graph.edit(files, dirs, t, f)
        if got: planted[graph.show(t)] = 'nan'
    if rng.random() < .4:
        for t in rng.sample(tags, min(len(tags), rng.choice([1, 1, 2]))):
            if graph.show(t) in planted: continue
            got = []
            def f(tree): got.append(wrong_ref(rng, tree, tags, t[1]))
            graph.edit(files, dirs, t, f)
            if got[0]: planted[graph.show(t)] = 'ref'
    faults = []
    flat = [t for t in tags if not graph.can_refer(t[1])]
    if flat and rng.random() < .4:
        for t in rng.sample(flat, min(len(flat), rng.choice([1, 2]))):
            f = batch.where(files, dirs, graph.disk(*t).rpartition('.')[0], t[1])
            if sum(f in g for g in files) != 1: continue
            if rng.random() < .5: faults.append(rng.choice(['open:0+:EACCES:0:', 'read:0+:EIO:0:']) + f)
            else: files[f] = batch.corrupt(rng, files[f])[0]; 
            planted[graph.show(t)] = 'open' if faults and faults[-1].endswith(':' + f) else 'maybe-open'
    for _ in range(6 if tier == 'quick' else 20):
        conf = sched_conf(rng, 60000)
        fl = list(faults)
        if rng.random() < .2: fl.append('read:%d:%s:%d:' % (rng.randrange(60), rng.choice(['EINTR', 'short']), rng.choice([1, 300, 900])))
        if fl: conf['faults'] = fl
        which = rng.choice(['*', '*', None]) if len(roots) > 1 else rng.choice(['*', None])
        yield {'files': files, 'dirs': dirs, 'engine': eng, 'roots': [list(r) for r in roots], 'planted': planted, 'solid': faults, 'filter': which or graph.disk(*rng.choice(roots)), 'conf': conf, 'jobs': rng.choice([1, 1, 2, 3, 4])}

def argv(c, f, jobs): return ['verify-scenario', f, '-e', c['engine']] + graph.tflags(c['dirs']) + ['-j', str(jobs)]

def findings(run):
    """{scenario: Counter of findings, or the reason it could not be verified} and what was said besides; None if unreadable."""
    out, cur, left, odd = {}, None, 0, []
    for l in run.lines():
        m = re.match(r'Verified (\S.*\.scenario) and found (no issues|one issue:|(\d+) issues:)$', l)
        if m:
            if left: return None, 'a report ends early before %r' % l
            cur = collections.Counter(); left = int(m.group(3) or (1 if m.group(2).startswith('one') else 0))
            if m.group(1) in out: return None, '%s is reported twice' % m.group(1)
            out[m.group(1)] = cur; continue
        m = re.match(r'Failed to process (\S.*?\.scenario): (.*)$', l)
        if m: 
            if m.group(1) in out: return None, '%s is reported twice' % m.group(1)
            out[m.group(1)] = m.group(2); continue
        m = re.match(r'(WARNING \(minor\)|WARNING|ERROR) (.+?\.[a-z_]+): (.*)$', l)
        if m:
            if not left: return None, 'a finding belongs to no report: %r' % l
            cur[m.groups()] += 1; left -= 1; continue
        odd.append(l)
    if left: return None, 'the last report ends early'
    return out, odd

def judge(case, runner):
    files, dirs = case['files'], case['dirs']
    runner.judged = None
    roots = [tuple(r) for r in case['roots']]
    roots = [r for r in roots if graph.look(files, dirs, r) is not None]
    names = [graph.show(r) for r in roots]
    mine = [graph.split(n.replace('/', '\\')) for n in names if case['filter'] in ('*', n)]
    if not mine: return []
    if case['filter'] == '*' and any(p[1] == 'scenario' and graph.show((p[0].replace('/', '\\'), p[1])) not in names for p in batch.all_tags(files, dirs)): mine = [(p.replace('/', '\\'), g) for p, g in batch.all_tags(files, dirs) if g == 'scenario']
    runner.tags = ['%d scenarios' % len(mine)]
    want = {}
    for t in mine:
        r = runner.ref(files, argv(case, graph.show(t), 1), {'faults': case['solid']} if case['solid'] else None)
        if r.how != 'exit': runner.judged = r; return [V('alone-' + r.how, 'verifying %s by itself ended with %s: %s' % (graph.show(t), r.how, r.err.decode('utf-8', 'replace').strip()[-300:]))]
        f, odd = findings(r)
        if f is None or set(f) != {graph.show(t)}: runner.judged = r; return [V('alone-output', 'verifying %s by itself: %s' % (graph.show(t), odd if f is None else r.lines()[:5]))]
        want.update(f)
        if isinstance(f[graph.show(t)], str): continue
        said = collections.defaultdict(list)
        for lvl, p, m in f[graph.show(t)]: said[p].append((lvl, m))
        need = graph.reach(files, dirs, t, case['engine'])
        if need is None: runner.judged = r; return [V('incomplete', '%s is reported as verified though something it needs is missing' % graph.show(t))]
        for n in need:
            n = graph.show(n); k = case['planted'].get(n)
            s = said.get(n, [])
            runner.judged = r
            if k == 'nan' and not any(l == 'ERROR' and m.startswith('NaN float(s) detected') for l, m in s): return [V('missed-nan', '%s has a field that is not a number, but verifying %s alone says %s about it' % (n, graph.show(t), s))]
            if k == 'open' and case['solid'] and not any(l == 'ERROR' and m.startswith('Failed to open tag') for l, m in s): return [V('missed-unreadable', '%s cannot be opened, but verifying %s alone says %s about it' % (n, graph.show(t), s))]
            if k not in ('open', 'maybe-open'):
                a, b = bad_refs(graph.look(files, dirs, graph.split(n.replace('/', '\\'))), case['engine']), said_refs(s)
                if a != b: return [V('references', '%s must be blamed for %s references, but verifying %s alone says %s' % (n, dict(a), graph.show(t), dict(b)))]
            for l, m in s:
                x = re.match(r'(\S.*) has errors and could not be opened$', m)
                if x and not any(l == 'ERROR' for l, m in said.get(x.group(1).replace('\\', '/'), [])): return [V('innocent', '%s is blamed for errors in %s, which has none' % (n, x.group(1)))]
            if k == 'ref' and not any(l == 'ERROR' and 'which is not allowed for this reference' in m for l, m in s): return [V('missed-reference', '%s has a reference that is not allowed, but verifying %s alone says %s about it' % (n, graph.show(t), s))]
    run = runner.run(files, argv(case, case['filter'], case['jobs']), case['conf'])
    runner.judged = run
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    got, odd = findings(run)
    if got is None: return [V('torn', odd)]
    runner.nontrivial = int(run.end['multi']) > 0 and any(not isinstance(v, str) and v for v in want.values())
    if set(got) != set(want): return [V('unreported', 'verified: %s, should be %s' % (sorted(got), sorted(want)))]
    nfail = sum(isinstance(v, str) for v in want.values())
    say = [] if not nfail else ['Failed to parse %d tag%s' % (nfail, '' if nfail == 1 else 's')]
    if odd != say: return [V('odd', 'besides the findings, the tool says %r, should be %r' % (odd, say))]
    for n in sorted(want):
        a, b = want[n], got[n]
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) != isinstance(b, str): return [V('failed', '%s: %s, but alone: %s' % (n, b if isinstance(b, str) else 'verified', a if isinstance(a, str) else 'verified'))]
            continue
        if a != b:
            lost, more = a - b, b - a
            if lost: return [V('lost', '%s: %d finding(s) of %s missing, e.g. %s' % (n, sum(lost.values()), n, ' '.join(min(lost))))]
            return [V('extra', '%s: %d finding(s) more than alone, e.g. %s' % (n, sum(more.values()), ' '.join(min(more))))]
    if run.fs != files and any(run.fs.get(p) != files.get(p) for p in set(run.fs) | set(files) if run.fs.get(p) is not None or files.get(p) is not None): return [V('written', 'verification changed files')]
    return []
