"""P20: data recovery stays inside the data folder and is complete."""
import os, re, struct, zlib
import batch, graph, images, tagcodec as tc
from batch import V, sched_conf

rule = ('a case is one recovery of source data (color plates, string lists, scenario scripts, of which several tags may share a file and some are named so as to lead elsewhere) into a data folder that already has some of the files, with 1-8 workers, '
        'a random interleaving, and often failing, short or interrupted operations, a full disk, or a kill at any operation; contents are compared with what an independent decoder makes of the tags; '
        'non-trivial: at least two files are due, or a fault fired')
assumptions = ['a script whose name has a separator or a drive letter may be refused or be put anywhere below the data folder', 'of several tags that share a file, any may be the one that provides it',
               'a killed run may leave a temporary file behind']
kinds = ['bitmap', 'unicode_string_list', 'scenario']
EVIL = ['../../../evil', '../../tags/x', '/evil', '..\\..\\x', 'sub/x', 'c:x', '../x', '../../../../../../../../tmp/ev', '/tmp/vsim-evil', 'a/../../../../b']

def bitmap(rng):
    t = tc.empty('bitmap')
    w, h = rng.choice([(4, 4), (1, 1), (16, 9), (31, 40), (64, 64)])
    px = [tuple(rng.randrange(256) for _ in range(4)) for _ in range(w * h)] if rng.random() < .7 else [(1, 2, 3, 255)] * (w * h)
    raw = b''.join(struct.pack('<I', a << 24 | r << 16 | g << 8 | b) for r, g, b, a in px)
    k = rng.random()
    if k > .9: w = h = 0
    elif k > .85: raw = raw[:-4]
    z = zlib.compress(raw)
    if .8 < k <= .85: z = z[:len(z) // 2]
    cp = tc.get(t, 'color plate')
    tc.put(cp, 'width', struct.pack('>H', w)); tc.put(cp, 'height', struct.pack('>H', h))
    tc.put(cp, 'compressed data', tc.Data(struct.pack('>I', w * h * 4) + z))
    return tc.serialize('bitmap', t)

def strings(rng):
    t = tc.empty('unicode_string_list')
    its = []
    for _ in range(rng.choice([0, 1, 2, 5])):
        s = '\r\n'.join(''.join(rng.choice('abc xyzé!') for _ in range(rng.randrange(0, 20))) for _ in range(rng.choice([1, 1, 2, 3])))
        d = s.encode('utf-16-le') + b'\0\0'
        if rng.random() < .04: d = b'\0\xd8' + d
        its.append(tc.St('UnicodeStringListString', [tc.Data(d)]))
    tc.put(t, 'strings', tc.Refl('UnicodeStringListString', its))
    return tc.serialize('unicode_string_list', t)

def s32(s): b = s.encode()[:31]; return b + bytes(32 - len(b))

def scenario(rng, evil):
    t = tc.empty('scenario')
    its = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        n = rng.choice(['global_scripts', 'a', 'level', 'base_mission', 'v1.0', 'GLOBAL_SCRIPTS', ''])
        if rng.random() < evil: n = rng.choice(EVIL)
        b = b'; script %d\n' % rng.randrange(1000) + bytes(rng.choice(b'abc ()\n') for _ in range(rng.choice([0, 10, 300])))
        if rng.random() < .5: b += b'\0'
        if rng.random() < .1: b += b'rest' + b'\0' * rng.randrange(3)
        its.append(tc.St('ScenarioSourceFile', [s32(n), tc.Data(b)]))
    tc.put(t, 'source files', tc.Refl('ScenarioSourceFile', its))
    return tc.serialize('scenario', t)

def cases(rng, runner, tier, k):
    w = batch.gen_tags(rng, rng.choice([1, 2, 3, 5, 8, 12]), rng.choice([kinds, kinds + ['weapon'], ['scenario'], ['scenario', 'scenario', 'bitmap']]), 1, fill=0)
    files = w.files
    evil = rng.choice([0, 0, 0.1, 0.4])
    for f in list(files):
        if files[f] is None or not batch.is_tag(f): continue
        g = f.rpartition('.')[2]
        files[f] = bitmap(rng) if g == 'bitmap' else strings(rng) if g == 'unicode_string_list' else scenario(rng, evil) if g == 'scenario' else files[f]
    if rng.random() < .15:
        t = rng.choice([f for f in files if batch.is_tag(f)]); files[t] = batch.corrupt(rng, files[t])[0]
    files['data'] = None
    due = {}
    for n, (how, d) in plan(files, '*').items():
        for p, b in d.items(): due.setdefault(p, []).append(b)
    ps = sorted(due)
    for p in rng.sample(ps, min(len(ps), rng.choice([0, 0, 1, 2]))):
        if os.path.normpath(p) != p: continue
        r = rng.random()
        if r < .7: files[p] = rng.choice([b'mine', b'', due[p][0] if isinstance(due[p][0], bytes) else b'old'])
        elif r < .85: files[p] = None
        elif p.count('/') > 1: files[p.rpartition('/')[0]] = b'in the way'
    for p in list(files):       # nothing below a file
        q = p.rpartition('/')[0]
        while q:
            if files.get(q) is not None: files.pop(p, None); break
            q = q.rpartition('/')[0]
    if rng.random() < .3: files['data/other.txt'] = b'other'
    if rng.random() < .3: files['data/empty'] = None
    tags = batch.all_tags(files, ['tags'])
    for _ in range(8 if tier == 'quick' else 24):
        over = rng.random() < .35
        filt = rng.choice(['*', '*', '*', batch.gen_filter(rng, tags)])
        conf = sched_conf(rng)
        r = rng.random(); nm = max(2, len(ps) * 3)
        if r < .3: pass
        elif r < .4: conf['faults'] = [rng.choice(['write:%d+:short:%d:', 'read:%d+:short:%d:']) % (rng.randrange(5), rng.choice([1, 100, 500])), 'write:%d:EINTR:0:' % rng.randrange(nm)]
        elif r < .65: conf['faults'] = batch.write_faults(rng, nm)
        elif r < .75:
            op = rng.choice(['stat', 'open', 'creat', 'mkdir'])
            conf['faults'] = ['%s:%d%s:%s:0:%s' % (op, rng.randrange(nm), rng.choice(['', '+']), rng.choice(['EIO', 'EACCES', 'EMFILE']), rng.choice(['data/', 'data/', '' if op != 'stat' else 'data/']))]
        elif r < .85: conf['space'] = rng.choice([0, 1, 50, 300, 1000, 5000, 20000])
        else: conf['faults'] = [batch.crash_fault(rng, nm, 60)]
        yield {'files': files, 'over': over, 'filter': filt, 'jobs': batch.jobs_for(rng), 'conf': conf}

ANY = 'anything'

# ---------------------------------------------------------------- what is due
def due_of(name, b):
    """('ok', {path: contents or predicate}) / ('none', {}) / ('bad', {}) / ('odd', {...})"""
    p, g = name.rpartition('.')[0], name.rpartition('.')[2]
    try: gg, t = tc.parse(b)
    except Exception:       # damaged: whether it can be read all the same is P01's and P22's matter
        if len(b) < 64: return 'bad', {}
        return 'odd', {'data/%s.tif' % p: ANY} if g == 'bitmap' else {'data/%s.txt' % p: ANY} if g == 'unicode_string_list' else {}
    if gg != g: return 'bad', {}
    if g == 'bitmap':
        cp = tc.get(t, 'color plate')
        w, = struct.unpack('>H', tc.get(cp, 'width')); h, = struct.unpack('>H', tc.get(cp, 'height')); d = tc.get(cp, 'compressed data').b
        if w == 0 or h == 0 or len(d) < 4: return 'none', {}
        if struct.unpack('>I', d[:4])[0] != w * h * 4: return 'bad', {}
        try: z = zlib.decompressobj(); raw = z.decompress(d[4:])
        except zlib.error:      # the tool may stop before the trailing checksum
            z = zlib.decompressobj(-15); raw = b''
            try:
                for i in range(6, len(d)): raw += z.decompress(d[i:i + 1])
            except zlib.error: pass
            return ('odd', {'data/%s.tif' % p: ANY}) if len(raw) >= w * h * 4 else ('bad', {})
        if len(raw) < w * h * 4: return 'bad', {}
        if len(raw) > w * h * 4: return 'odd', {'data/%s.tif' % p: ANY}
        px = []
        for i in range(0, len(raw), 4):
            v, = struct.unpack_from('<I', raw, i); px.append((v >> 16 & 255, v >> 8 & 255, v & 255, v >> 24))
        return 'ok', {'data/%s.tif' % p: ('tiff', w, h, px)}
    if g == 'unicode_string_list':
        o = b'\xff\xfe'
        for s in tc.get(t, 'strings').items:
            d = s.f[0].b
            try: u = d.decode('utf-16-le')[:-1] if d[-2:] == b'\0\0' else None if d else ''
            except UnicodeDecodeError: return 'bad', {}
            if u is None or re.search('[\0-\x08\x0b\x0c\x0e-\x1f\x7f]|\r(?!\n)|(?<!\r)\n', u): return 'odd', {'data/%s.txt' % p: ANY}
            ls = u.split('\n') if u else []     # building a string list from it gives the same strings, blank lines at their ends included
            for l in ls: o += (l[:-1] if l.endswith('\r') else l).encode('utf-16-le') + '\r\n'.encode('utf-16-le')
            o += '###END-STRING###\r\n'.encode('utf-16-le')
        return 'ok', {'data/%s.txt' % p: o}
    if g == 'scenario':
        out = {}; odd = False
        for s in tc.get(t, 'source files').items:
            n = s.f[0].rstrip(b'\0')
            if b'\0' in n: odd = True
            try: n = n.decode()
            except UnicodeDecodeError: odd = True; continue
            if any(c in n for c in '/\\:'): odd = True
            q = 'data/global_scripts.hsc' if n == 'global_scripts' else 'data/%sscripts/%s.hsc' % (p.rpartition('/')[0] + '/' if '/' in p else '', n)
            out.setdefault(q, []).append(s.f[1].b.split(b'\0')[0])
        return ('odd' if odd else 'ok' if out else 'none'), out
    return 'none', {}

def plan(files, filt):
    """tag name -> (how, {path: contents}) of every tag that matches and can be recovered."""
    out = {}
    for p, g in batch.matching({'verb': 'recover', 'filter': filt, 'dirs': ['tags']}, files):
        if g not in kinds: continue
        n = p + '.' + g
        b = files.get('tags/' + n)
        out[n] = due_of(n, b) if b is not None else ('bad', {})
    return out

def same(want, b):
    if b is None: return False
    if want == ANY: return True
    if isinstance(want, list): return any(same(x, b) for x in want)
    if isinstance(want, tuple):
        try: return images.read_tiff(b) == (want[1], want[2], want[3])
        except ValueError: return False
    return want == b

def argv(c): return ['recover', c['filter'], '-t', 'tags', '-d', 'data'] + (['-o'] if c['over'] else []) + ['-j', str(c['jobs'])]

TEMP = re.compile(r'(^|/)\.[^/]*\.tmp$')
HARDK = batch.HARD + ('EISDIR', 'ENOTDIR')

def judge(case, runner):
    files = case['files']
    runner.judged = None
    if 'data' not in runner.put_view(files) or 'tags' not in runner.put_view(files): return []
    run = runner.run(files, argv(case), case['conf'])
    runner.judged = run
    view = runner.put_view(files)
    pl = plan(files, case['filter'])
    cand = {}
    for n, (how, d) in pl.items():
        for p, b in d.items(): cand.setdefault(os.path.normpath(p), []).append(b)
    odd = any(h == 'odd' for h, _ in pl.values())
    crashed = run.how == 'crash'
    hard = batch.hard_faults(run)
    runner.nontrivial = len(cand) > 1 or any(f[3] for f in run.faults_fired()) or hard > 0
    runner.tags = ['overwrite' if case['over'] else 'keep'] + (['odd'] if odd else []) + (['crash'] if crashed else [])
    esc = [o for o in run.ops() if 'FAULT ESCAPE' in o]
    if esc: return [V('escaped', 'writes outside of the working folder: %s' % esc[0])]
    if run.how not in ('exit', 'crash'): return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    # the file system
    for p in sorted(set(view) | set(run.fs)):
        a, b = view.get(p, 'none'), run.fs.get(p, 'none')
        if a == b: continue
        if not p.startswith('data/'): return [V('outside', '%s changed, which is outside of the data folder' % p)]
        if b == 'none': return [V('gone', '%s disappeared' % p)]
        if b is None:
            if not any(q.startswith(p + '/') for q in cand) and not odd: return [V('folder', 'folder %s appeared for no reason' % p)]
            continue
        if a != 'none' and not case['over']: return [V('replaced', '%s existed, and was replaced although this was not asked for' % p)]
        if TEMP.search(p) and (crashed or any(' unlink %s ' % p in o and 'FAULT' in o for o in run.ops())): continue
        if p not in cand:
            if odd and p.endswith('.hsc'): continue
            return [V('extra', '%s appeared for no reason' % p)]
        if odd and p.endswith('.hsc'): continue
        if not any(same(w, b) for w in cand[p]): return [V('incomplete', '%s holds neither its old contents nor complete recovered data: %s, before %s' % (p, batch.show(b), 'absent' if a == 'none' else batch.show(a)))]
    # the report
    lines = run.lines()
    if run.rc != 0 and not crashed:
        if hard and run.fs == view: return []
        if not pl and any('No viable tags' in l for l in lines): return []
        if not batch.matching({'verb': 'recover', 'filter': case['filter'], 'dirs': ['tags']}, files): return []
        return [V('refused', 'exits with %d: %s' % (run.rc, lines[:3]))]
    rec, skip, fail = [], [], []
    for l in lines:
        m = re.match(r'Skipping (.*); already exists$', l)
        if m: skip.append('data/' + m.group(1)); continue
        m = re.match(r'Failed to recover (.*?\.(?:%s)): ' % '|'.join(kinds), l)
        if m: fail.append(m.group(1)); continue
        m = re.match(r'Recovered (?!\d+ / )(.*)$', l)
        if m: rec.append('data/' + m.group(1)); continue
    rp = [os.path.normpath(p) for p in rec]
    for p in rp:
        if p not in run.fs or run.fs[p] is None: return [V('not-there', '%s is reported as recovered, but is not there' % p)]
        if p in cand and not any(same(w, run.fs[p]) for w in cand[p]) and not (odd and p.endswith('.hsc')): return [V('reported-incomplete', '%s is reported as recovered, but is not complete' % p)]
        if not case['over'] and p in view: return [V('reported', '%s is reported as recovered, but existed already' % p)]
    if not case['over'] and len(set(rp)) != len(rp): return [V('twice', 'recovered twice without being asked to overwrite: %r' % sorted(rp))]
    for p in skip:
        p = os.path.normpath(p)
        if case['over']: return [V('skipped', '%s is skipped although overwriting was asked for' % p)]
        if p not in view and p not in run.fs: return [V('skipped', '%s is skipped as existing, but does not exist' % p)]
    if crashed: return []
    for n in fail:
        if n not in pl: return [V('odd-failure', '%s is reported as failed but does not match' % n)]
    blocked = set()
    for n, (how, d) in pl.items():
        for p in d:
            q = p
            if view.get(p, 0) is None and case['over']: blocked.add(n)
            while '/' in q:
                q = q.rpartition('/')[0]
                if view.get(q) is not None: blocked.add(n)
    unexpected = 0
    for n, (how, d) in pl.items():
        if n in fail:
            if how in ('ok', 'none') and n not in blocked: unexpected += 1
            continue
        if how == 'bad': return [V('accepted', '%s cannot be recovered from, but that is not reported' % n)]
        if how == 'odd': continue
        if n in blocked and not case['over'] and all(view.get(p, 0) is None for p in d): continue
        if n in blocked: return [V('unreported', '%s cannot have been recovered (something is in the way), but no failure is reported' % n)]
        for p in d:
            c = rec.count(p) + skip.count(p)
            if not c: return [V('missing', '%s of %s is neither recovered nor reported' % (p, n))]
    if len(set(fail)) != len(fail): return [V('failed-twice', repr(fail))]
    if unexpected > hard: return [V('spurious', '%d tags failed although only %d operations failed for good: %s' % (unexpected, hard, [l for l in lines if l.startswith('Failed')][:3]))]
    if not odd:
        # every file once per tag that has it
        for p in sorted({q for _, d in pl.values() for q in d}):
            owners = [n for n, (h, d) in pl.items() if p in d and n not in fail]
            maybe = [n for n, (h, d) in pl.items() if p in d and n in fail]
            c = rec.count(p) + skip.count(p)
            if not len(owners) <= c <= len(owners) + len(maybe): return [V('count', '%s is reported %d times, %d tags have it' % (p, c, len(owners)))]
    s = [m for m in (re.match(r'Recovered (\d+) / (\d+) tags with (\d+) error', l) for l in lines) if m]
    if s and int(s[0].group(3)) != len(fail): return [V('summary', '%s, but %d failures are reported' % (s[0].group(0), len(fail)))]
    return []
