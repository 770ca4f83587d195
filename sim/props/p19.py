"""P19: extraction is complete, faithful, schedule-independent and does not overwrite."""
import random, re
import batch, mapfile
from batch import V, sched_conf

rule = ('a case is one extraction from a generated cache file (three engines, with and without resource files and checksum) into a tags folder that already has some of the files, with 1-8 workers, a filter, '
        'a random interleaving, and often short or interrupted reads, failing writes, a full disk, or a kill at any operation; every extracted tag is compared with what was put into the map; '
        'non-trivial: at least two tags are due, or a fault fired')
assumptions = ['units, defaults and generated values that maps and tags hold in different forms are not compared with what was put into the map, but with what extracting the tag by itself gives',
               'a killed run may leave a temporary file behind']

def argv(c, filt=None, jobs=None, over=None):
    return ['extract', c['map'], '-t', 'tags', '-f', filt or c['filter']] + (['-o'] if (c['over'] if over is None else over) else []) + (['-n'] if c['globals'] else []) + ['-j', str(jobs or c['jobs'])]

def make(world): return mapfile.gen(random.Random(world[0]), world[1], prefix=world[2], groups=world[3], hostile=world[4] if len(world) > 4 else None, dense=len(world) > 5 and world[5])

def name(t): return t[0].replace('\\', '/') + '.' + t[1]

def cases(rng, runner, tier, k):
    while 1:
        world = [rng.getrandbits(40), rng.choice([1, 2, 3, 5, 8, 12, 20]), rng.choice(['', 'maps/', 'maps/']), rng.choice([None, None, None, None, ['globals', 'globals', 'weapon', 'bitmap', 'unicode_string_list'], ['font', 'hud_message_text', 'unicode_string_list', 'string_list', 'bitmap', 'sound']])]
        if rng.random() < .35:
            pool = sorted(mapfile.CONVERTED - {'object', 'unit', 'item', 'device', 'scenario'}) + ['detail_object_collection'] * 2
            world[1] = rng.choice([2, 4, 6]); world[3] = ['scenario_structure_bsp', 'detail_object_collection', 'detail_object_collection'] if rng.random() < .12 else rng.sample(pool, 5); world += [None, True]
        dense = len(world) > 5
        w = make(world)
        m = dict(w.files)
        # what each tag comes out as, on its own
        tags = [name(t) for t in w.tags]
        ref = dict(m); ref['tags'] = None
        c = {'map': w.map, 'over': False, 'globals': True, 'filter': '*', 'jobs': 1}
        whole = runner.ref(ref, argv(c))
        out = {n: whole.fs.get('tags/' + n) for n in tags}
        yield {'mode': 'faithful', 'files': ref, 'map': w.map, 'over': False, 'globals': True, 'filter': '*', 'jobs': batch.jobs_for(rng), 'conf': sched_conf(rng), 'world': world, 'tags': tags, 'mp': w.stype == 1}
        for _ in range((1 if dense else 6) if tier == 'quick' else 16):
            files = dict(m); files['tags'] = None
            for n in rng.sample(tags, min(len(tags), rng.choice([0, 0, 1, 2, 5]))):
                p = 'tags/' + n; r = rng.random()
                if r < .3 and out[n]: files[p] = out[n]
                elif r < .7: files[p] = rng.choice([b'mine', b'', (out[n] or b'x')[:70], (out[n] or b'x') + b'\0'])
                elif r < .8: files[p] = None
                elif p.count('/') > 1: files[p.rpartition('/')[0]] = b'in the way'
            for p in list(files):
                q = p.rpartition('/')[0]
                while q:
                    if files.get(q) is not None: files.pop(p, None); break
                    q = q.rpartition('/')[0]
            if rng.random() < .2: files['tags/other.txt'] = b'other'
            if rng.random() < .2: files['tags/not in map.weapon'] = b'other'
            pairs = [tuple(n.rpartition('.')[::2]) for n in tags]
            filt = '*' if rng.random() < .6 else batch.gen_filter(rng, pairs)
            if '*' not in filt and '?' not in filt: filt = '*'
            conf = sched_conf(rng)
            r = rng.random(); nm = max(2, len(tags) * 3)
            if r < .25: pass
            elif r < .35: conf['faults'] = [rng.choice(['write:%d+:short:%d:', 'read:%d+:short:%d:']) % (rng.randrange(5), rng.choice([1, 100, 500])), rng.choice(['read', 'write']) + ':%d:EINTR:0:' % rng.randrange(nm)]
            elif r < .65: conf['faults'] = batch.write_faults(rng, nm)
            elif r < .75: conf['faults'] = ['%s:%d%s:%s:0:tags/' % (rng.choice(['stat', 'stat', 'open', 'read']), rng.randrange(nm), rng.choice(['', '+']), rng.choice(['EIO', 'EACCES', 'EMFILE']))]
            elif r < .85: conf['space'] = rng.choice([0, 1, 50, 300, 1000, 5000, 20000])
            else: conf['faults'] = [batch.crash_fault(rng, nm, 60)]
            yield {'mode': 'batch', 'files': files, 'map': w.map, 'over': rng.random() < .4, 'globals': rng.random() < .5, 'filter': filt, 'jobs': batch.jobs_for(rng), 'conf': conf, 'tags': tags, 'mp': w.stype == 1}
        if tier == 'quick': return
        if rng.random() < .5: return

TEMP = re.compile(r'(^|/)\.[^/]*\.tmp$')

def judge(case, runner):
    files = case['files']
    runner.judged = None
    view = runner.put_view(files)
    if 'tags' not in view or case['map'] not in files: return []
    run = runner.run(files, argv(case), case['conf'])
    runner.judged = run
    pairs = [tuple(n.rpartition('.')[::2]) for n in case['tags']]
    due = [p + '.' + g for p, g in pairs if batch.matches(case['filter'], None, (p, g))]
    crashed = run.how == 'crash'
    hard = batch.hard_faults(run)
    runner.nontrivial = len(due) > 1 or hard > 0 or any(f[3] for f in run.faults_fired())
    runner.tags = [case['mode'], 'overwrite' if case['over'] else 'keep'] + (['crash'] if crashed else [])
    if run.how not in ('exit', 'crash'): return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    # what each tag should come out as: extracted by itself, into an empty folder, undisturbed
    base = {p: b for p, b in files.items() if not p.startswith('tags/') or b is None and 0}
    base['tags'] = None
    solo = {}
    for n in due:
        r = runner.ref(base, argv(dict(case, globals=True), filt=n, jobs=1, over=False))
        b = r.fs.get('tags/' + n)
        if r.how != 'exit' or b is None or 'Processed ' + n not in r.lines(): return [V('single', '%s cannot be extracted by itself: %s %s' % (n, r.how, (r.out + r.err).decode('utf-8', 'replace')[-300:]))]
        solo[n] = b
    if case.get('world'):
        w = make(case['world'])
        for t in w.tags:
            if name(t) in solo:
                d = mapfile.unfaithful(w, t, solo[name(t)])
                if d: return [V('unfaithful', '%s of the %s map is extracted wrongly: %s' % (name(t), w.engine, d))]
    # the file system
    changed = set()
    for p in sorted(set(view) | set(run.fs)):
        a, b = view.get(p, 'none'), run.fs.get(p, 'none')
        if a == b: continue
        if not p.startswith('tags/'): return [V('outside', '%s changed, which is outside of the tags folder' % p)]
        if b == 'none': return [V('gone', '%s disappeared' % p)]
        if b is None:
            if not any(('tags/' + q).startswith(p + '/') for q in due): return [V('folder', 'folder %s appeared for no reason' % p)]
            continue
        if TEMP.search(p) and (crashed or any(' unlink %s ' % p in o and 'FAULT' in o for o in run.ops())): continue
        n = p[5:]
        if n not in solo: return [V('extra', '%s appeared or changed for no reason' % p)]
        if a != 'none' and not case['over']: return [V('replaced', '%s existed, and was replaced although this was not asked for' % p)]
        if b != solo[n]: return [V('incomplete', '%s holds neither its old contents nor the complete tag: %s, before %s, should be %s' % (p, batch.show(b), 'absent' if a == 'none' else batch.show(a), batch.show(solo[n])))]
        if not case['globals'] and not case['mp'] and n.endswith('.globals'): return [V('globals', '%s was extracted from a map that is not multiplayer' % p)]
        changed.add(n)
    per, odd, summ = batch.report(run)
    if run.rc != 0 and not crashed:
        if not due and any('No viable tags' in l for l in odd): return []
        if hard and not changed: return []
        if hard and sum(len(v) for v in per.values()) == 0: return []
        if run.rc == 1 and any(s == 'failed' for v in per.values() for s, _ in v): pass
        else: return [V('refused', 'exits with %d: %s' % (run.rc, run.lines()[:3]))]
    for n in per:
        if n not in solo: return [V('odd-report', 'reports %s, which was not asked for' % n)]
        if len(per[n]) > 1: return [V('twice', '%s is reported %d times: %r' % (n, len(per[n]), per[n]))]
    unexpected = 0
    for n in due:
        p = 'tags/' + n
        st = per[n][0] if n in per else None
        if st is None:
            if crashed: continue
            return [V('missing', '%s is neither extracted nor reported' % n)]
        status, line = st
        blocked = (p in view and view[p] is None) or any(view.get(q) is not None for q in above(p))
        if status == 'processed':
            if run.fs.get(p) != solo[n]: return [V('not-there', '%s is reported as extracted, but %s is %s' % (n, p, batch.show(run.fs.get(p))))]
            if p in view and not case['over']: return [V('reported', '%s is reported as extracted, but existed' % n)]
        elif n in changed: return [V('reported-%s' % status, '%s was written, but the report is %r' % (n, line))]
        if status == 'skipped':
            why = line.split(': ', 1)[1]
            if why == 'file already exists': ok = not case['over'] and (view.get(p) is not None or any(' stat %s ' % p in o and 'FAULT' in o for o in run.ops()))     # if it cannot be told, it is left alone
            elif why == 'file on disk matches tag': ok = run.fs.get(p) == solo[n]
            elif why.startswith('refusing to extract a non-multiplayer globals'): ok = n.endswith('.globals') and not case['globals'] and not case['mp']
            else: ok = False
            if not ok: return [V('skipped', '%s is skipped for no reason: %r' % (n, line))]
        if status == 'failed':
            due_skip = not case['over'] and view.get(p) is not None or n.endswith('.globals') and not case['globals'] and not case['mp']
            if not blocked or due_skip: unexpected += 1
        if status == 'processed' and blocked: return [V('blocked', '%s is reported as extracted although something is in the way' % n)]
    if crashed: return []
    if unexpected > hard: return [V('spurious', '%d tags failed although only %d operations failed for good: %s' % (unexpected, hard, [l for v in per.values() for s, l in v if s == 'failed'][:3]))]
    s = batch.summary_of(summ)
    if s:
        nf = sum(v[0][0] == 'failed' for v in per.values()); np = sum(v[0][0] == 'processed' for v in per.values())
        if s[1] != len(due) or s[0] != np or s[2] != nf: return [V('summary', 'summary %r, but of %d tags %d are reported as extracted and %d as failed' % (s, len(due), np, nf))]
    return []

def above(p):
    q = p.rpartition('/')[0]
    while q:
        yield q
        q = q.rpartition('/')[0]
