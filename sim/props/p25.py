"""P25: imports build tags only from completely read sources."""
import os, struct
import batch, images, tagcodec as tc
from batch import V, sched_conf

rule = ('a case is one import (string lists, tag collections, UI widget collections, or loose images to color plates) of generated sources, some malformed, into a folder with old, matching or no tags, with 1-8 workers, '
        'a random interleaving, hash seed and listing order, and often short, interrupted or failing reads, lookups or saves, a full disk or a kill; the result is compared with what an independent model makes of the sources; '
        'non-trivial: at least two imports are due, or a fault fired')
assumptions = ['images are PNG and TIFF (no JPEG XL encoder is at hand); damage to TIFF pixels cannot be detected and is not simulated', 'a killed run may leave a temporary file behind']
VERBS = ['unicode-strings', 'tag-collection', 'ui-widget-collection', 'plate']

# ---------------------------------------------------------------- sources
def text(rng):
    n = rng.choice([0, 1, 1, 2, 3, 6])
    nl = rng.choice(['\n', '\r\n'])
    if rng.random() < .2: nl = None
    e = lambda: nl or rng.choice(['\n', '\r\n'])
    t = ''
    for _ in range(n):
        for _ in range(rng.choice([0, 1, 1, 2, 4])): t += ''.join(rng.choice('abc xyzé!#|\t漢\U0001F600') for _ in range(rng.choice([0, 3, 20, 200]))) + e()
        t += '###END-STRING###' + e()
    if rng.random() < .2: t += e() * rng.randrange(4)
    if rng.random() < .15: t = t.rstrip('\r\n')
    if rng.random() < .1: t += rng.choice(['tail', ' ', '###END-STRING### ', '\r'])
    if rng.random() < .04: t = t[:len(t) // 2] + '\0' + t[len(t) // 2:]
    k = rng.choice(['u8', 'le', 'be'])
    b = t.encode() if k == 'u8' else b'\xff\xfe' + t.encode('utf-16-le') if k == 'le' else b'\xfe\xff' + t.encode('utf-16-be')
    r = rng.random()
    if r < .06 and b: b = b[:rng.randrange(len(b))]
    elif r < .09: b += b'\xff'
    elif r < .12 and k != 'u8': b += b'\x00\xd8' if k == 'le' else b'\xd8\x00'
    return b

GOOD = ['a\\b\\c.bitmap', 'x\\y.weapon', 'x/y/z.weapon', 'levels\\t.scenario', 'ui\\w.ui_widget_definition', 'A\\Mixed Case.bitmap', 'a\\\\b//c.sound', 'x.y.z.weapon', 'ünïcode\\p.bitmap', 'con1\\x.bitmap']
BAD = ['not a tag', 'x.nosuchgroup', '\\x.bitmap', '/x.bitmap', 'a:b.bitmap', 'a\\aux\\b.bitmap', '..\\..\\x.bitmap', 'a.\\b.bitmap', 'nul.bitmap', ' ', 'a*b.bitmap', 'x.bitmap ', '\tx', 'a\x01b.bitmap', '; weapons', ';', '# x', '// x', '[x]']
def paths(rng):
    ls = [rng.choice(GOOD + ['']) for _ in range(rng.choice([0, 1, 2, 5, 40]))]
    if rng.random() < .12: ls.insert(rng.randrange(len(ls) + 1), rng.choice(BAD))
    t = ''.join(l + rng.choice(['\n', '\n', '\r\n']) for l in ls)
    if rng.random() < .3: t = t.rstrip('\n')
    b = t.encode()
    if rng.random() < .05: b += rng.choice([b'\xff', b'\xc3'])
    return b

COL = [(0, 0, 255, 255), (255, 0, 255, 255), (255, 255, 255, 255), (0, 0, 0, 255), (0, 0, 0, 0), (0, 0, 255, 9), (1, 2, 3, 4)]
def image(rng):
    w, h = rng.choice([(1, 1), (2, 3), (4, 4), (7, 2), (16, 16), (40, 11)])
    k = rng.random()
    if k < .4: px = [tuple(rng.randrange(256) for _ in range(4)) for _ in range(w * h)]
    else: cs = rng.sample(COL, rng.choice([1, 2, 4])); px = [rng.choice(cs) for _ in range(w * h)]
    return w, h, px
def image_file(rng):
    """(extension, bytes)"""
    w, h, px = image(rng)
    ext = rng.choice(['png', 'png', 'tif', 'tiff'])
    if ext == 'png': b = images.png(w, h, px, rng.choice([6, 6, 2, 0, 4]))
    else: b = images.tiff(w, h, px, rng.choice([6, 6, 2]))
    r = rng.random()
    if r < .03: b = b[:rng.randrange(len(b) - 16)]      # the last bytes carry nothing
    elif r < .05 and ext == 'png':
        i = rng.randrange(b.index(b'IDAT') + 4, b.index(b'IEND') - 4)
        b = b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:]
    elif r < .06: b = b''
    return ext, b

PADS = [b'#000', b'#fff\n', b'  #0000FF ', b'#00f', b'#ff00ff\r\n', b'#F0F', b'#123456', b'#aBc']
BADPADS = [b'', b' ', b'000', b'#00', b'#0000', b'#00000g', b'#xyz', '#é0'.encode(), '#ééé'.encode(), '#ég'.encode(), b'\xff#000', b'##00000']
def loose(rng, files, d):
    n = rng.choice([1, 1, 2, 3]) if rng.random() < .96 else 11
    many = rng.randrange(n) if rng.random() < .05 else -1      # more than one digit
    for s in range(n):
        for i in range((12 if s == many else rng.choice([1, 1, 2, 4] if n < 11 else [1])) if s < n - 1 or rng.random() < .95 else 0):
            e, b = image_file(rng)
            files['%s/s%d_%d.%s' % (d, s, i, e)] = b
            if rng.random() < .05: e, b = image_file(rng); files['%s/s%d_%d.%s' % (d, s, i, e)] = b
            if rng.random() < .02: files['%s/s%d_%d.jxl' % (d, s, i)] = None if rng.random() < .7 else b'no'
    if rng.random() < .1: e, b = image_file(rng); files['%s/s%d_0.%s' % (d, n + 1, e)] = b      # after a gap
    if rng.random() < .1: files[d + '/notes.txt'] = b'x'
    if rng.random() < .35: files[d + '/padding.txt'] = rng.choice(PADS)
    elif rng.random() < .08: files[d + '/padding.txt'] = rng.choice(BADPADS)
    elif rng.random() < .03: files[d + '/padding.txt'] = None
    if rng.random() < .04: [files.pop(p) for p in list(files) if p.startswith(d + '/s')]; files[d] = None

# ---------------------------------------------------------------- what the sources mean
def lines(t):
    ls = t.split('\n')
    out = [l[:-1] if l.endswith('\r') else l for l in ls[:-1]]
    return out + ([ls[-1]] if ls[-1] else [])

BANNED = ['aux', 'con', 'nul', 'prn'] + ['com%d' % i for i in range(10)] + ['lpt%d' % i for i in range(10)]
def tag_path(s):
    p, dot, g = s.rpartition('.')
    if not dot or g not in tc.GROUPS: return None
    o = ''
    for c in p:
        if c == '/': c = '\\'
        if c in ':*?"<>|' or ord(c) < 32 or ord(c) == 127: return None
        if 'A' <= c <= 'Z': c = c.lower()
        if c == '\\' and o.endswith('\\'): continue
        o += c
    if o.startswith('\\') or any(d.endswith('.') or d in BANNED for d in o.split('\\')): return None
    return o, g

ANY = ('anything',)

def intend(verb, name, files):
    """('ok', path, contents) / ('bad',) / ('skip',)"""
    p, g = name.rsplit('.', 1)
    if verb == 'plate':
        d = 'data/' + p
        if not any(q == d and files[q] is None or q.startswith(d + '/') for q in files): return 'skip',
        pad = None
        b = files.get(d + '/padding.txt')
        if b is not None:
            try: s = b.decode().strip()
            except UnicodeDecodeError: return 'bad',
            h = s[1:]
            if s[:1] != '#' or len(h) not in (3, 6) or any(c not in '0123456789abcdefABCDEF' for c in h): return 'bad',
            if len(h) == 3: h = ''.join(c + c for c in h)
            pad = tuple(bytes.fromhex(h))
        def at(s, i):
            for e in ('jxl', 'tif', 'tiff', 'png'):
                b = files.get('%s/s%d_%d.%s' % (d, s, i, e))
                if b is not None: return e, b
        seqs = []
        while at(len(seqs), 0):
            s = []
            while at(len(seqs), len(s)):
                e, b = at(len(seqs), len(s))
                im = decode(e, b)
                if im is None: return 'bad',
                s.append(im)
            seqs.append(s)
        if not seqs and at(1, 0): return 'odd', 'data/%s.tif' % p, ANY      # only the first sequence is missing: said to end the plate, but taken for an empty one
        if not seqs: return 'bad',
        return 'ok', 'data/%s.tif' % p, ('plate',) + images.plate(seqs, pad)
    b = files.get('data/%s.txt' % p)
    if b is None: return 'bad',
    t = tc.empty(g)
    try:
        if verb == 'unicode-strings':
            if len(b) % 2 == 0 and b[:2] == b'\xff\xfe': s = b[2:].decode('utf-16-le')
            elif len(b) % 2 == 0 and b[:2] == b'\xfe\xff': s = b[2:].decode('utf-16-be')
            else: s = b.decode()
            if '\0' in s: return 'bad',
            ls = lines(s)
            while ls and not ls[-1]: ls.pop()
            if ls and ls[-1] != '###END-STRING###': return 'bad',
            its, cur = [], []
            for l in ls:
                if l == '###END-STRING###':
                    its.append(tc.St('UnicodeStringListString', [tc.Data('\r\n'.join(cur).encode('utf-16-le') + b'\0\0')])); cur = []
                else: cur.append(l)
            tc.put(t, 'strings', tc.Refl('UnicodeStringListString', its))
        else:
            its = []
            for l in lines(b.decode()):
                if not l: continue
                x = tag_path(l)
                if x is None: return 'bad',
                its.append(x)
            tc.put(t, 'tags', tc.Refl('TagCollectionTag', [tc.St('TagCollectionTag', [tc.Ref(q[1], q[0], '*')]) for q in its]))
    except UnicodeDecodeError: return 'bad',
    return 'ok', 'tag', tc.serialize(g, t)

def decode(ext, b):
    """(w, h, px) of an image made by this module, None if it is damaged."""
    return images.read_png(b) if ext == 'png' else images.read_tiff_any(b) if ext in ('tif', 'tiff') else None

def same(want, b):
    if b is None: return False
    if want is ANY: return True
    if isinstance(want, tuple):
        try: return images.read_tiff(b) == want[1:]
        except ValueError: return False
    return want == b

# ---------------------------------------------------------------- cases
def cases(rng, runner, tier, k):
    verb = rng.choice(VERBS)
    g = batch.GROUP_OF[verb]
    w = batch.gen_tags(rng, rng.choice([1, 2, 3, 5, 8]), [g] * 5 + ['weapon'], 1, fill=rng.choice([0, .3]))
    files = w.files; files['data'] = None
    job = {'verb': verb, 'dirs': ['tags'], 'data': 'data'}
    tags = batch.all_tags(files, ['tags'])
    job['filter'] = rng.choice(['*', '*', '*', batch.gen_filter(rng, tags, g)])
    if rng.random() < .15: job['filter'] = rng.choice(['new/place/t', 'a/new', 'brand new', 'v1.0/new.x']) + ('' if verb != 'plate' and rng.random() < .3 else '.' + g)
    if rng.random() < .25 and verb != 'plate': job['cow'] = 'cow'; files['cow'] = None
    due = batch.matching(job, files) if '*' not in job['filter'] and '?' not in job['filter'] else [t for t in tags if t[1] == g]
    for p, _ in due:
        if rng.random() < .1: continue
        if verb == 'plate': loose(rng, files, 'data/' + p)
        else: files['data/%s.txt' % p] = text(rng) if verb == 'unicode-strings' else paths(rng)
    for p, _ in due:
        i = intend(verb, p + '.' + g, files)
        if i[0] != 'ok' or rng.random() < .6: continue
        if verb == 'plate': files['data/%s.tif' % p] = rng.choice([b'old', b'', None])
        elif 'tags/%s.%s' % (p, g) in files: files['tags/%s.%s' % (p, g)] = rng.choice([i[2], i[2][:-1], i[2] + b'\0', b'old'])
    for p in list(files):       # nothing below a file
        q = p.rpartition('/')[0]
        while q:
            if files.get(q) is not None: files.pop(p, None); break
            q = q.rpartition('/')[0]
    nm = max(3, len(due) * 3)
    for _ in range(8 if tier == 'quick' else 24):
        conf = sched_conf(rng)
        r = rng.random()
        n, plus = rng.randrange(nm * 2), rng.choice(['', '', '+'])
        if r < .2: pass
        elif r < .38: conf['faults'] = [rng.choice(['read:%d+:short:%d:', 'write:%d+:short:%d:', 'read:%d:short:%d:data/']) % (rng.randrange(5), rng.choice([1, 100, 500, 999])), 'read:%d%s:EINTR:0:' % (rng.randrange(nm), rng.choice(['', '']))]
        elif r < .62: conf['faults'] = ['%s:%d%s:%s:0:data/' % (rng.choice(['read', 'read', 'open', 'stat']), n, plus, rng.choice(['EIO', 'EACCES', 'EMFILE', 'EIO']))]
        elif r < .8: conf['faults'] = batch.write_faults(rng, nm)
        elif r < .9: conf['space'] = rng.choice([0, 1, 50, 300, 1000, 5000, 20000])
        else: conf['faults'] = [batch.crash_fault(rng, nm, 80)]
        yield {'files': files, 'job': job, 'jobs': batch.jobs_for(rng), 'conf': conf}

def judge(case, runner):
    files, job = case['files'], case['job']
    runner.judged = None
    view = runner.put_view(files)
    if any(d not in view for d in ['data', 'tags'] + ([job['cow']] if job.get('cow') else [])): return []
    verb = job['verb']
    tags = batch.matching(job, files)
    run = runner.run(files, batch.argv(job, jobs=case['jobs']), case['conf'])
    runner.judged = run
    crashed = run.how == 'crash'
    hard = batch.hard_faults(run)
    runner.nontrivial = len(tags) > 1 or any(f[3] for f in run.faults_fired()) or hard > 0
    runner.tags = [verb] + (['crash'] if crashed else ['failing'] if hard else [])
    esc = [o for o in run.ops() if 'FAULT ESCAPE' in o]
    if esc: return [V('escaped', 'writes outside of the working folder: %s' % esc[0])]
    if run.how not in ('exit', 'crash'): return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    want, outs = {}, {}
    for t in tags:
        name = batch.tag_of(t)
        i = intend(verb, name, view)
        d = None
        if i[0] in ('ok', 'odd'):
            d = i[1] if verb == 'plate' else batch.dest(job, name, files)
            outs[d] = i[2]
        want[name] = (i, d)
    # the file system
    for p in sorted(set(view) | set(run.fs)):
        a, b = view.get(p, 'none'), run.fs.get(p, 'none')
        if a == b: continue
        if b == 'none': return [V('gone', '%s disappeared' % p)]
        if b is None:
            if not any(q.startswith(p + '/') for q in outs): return [V('folder', 'folder %s appeared for no reason' % p)]
            continue
        if p.rpartition('/')[2].startswith('.') and p.endswith('.tmp') and (crashed or any(' unlink %s ' % p in o and 'FAULT' in o for o in run.ops())): continue
        if p not in outs: return [V('changed', '%s %s, but no complete source for it exists: %s' % (p, 'appeared' if a == 'none' else 'changed', batch.show(b)))]
        if not same(outs[p], b): return [V('incomplete', '%s holds neither its old contents nor the whole of its source: %s, before %s' % (p, batch.show(b), 'absent' if a == 'none' else batch.show(a)))]
    per, odd, summ = batch.report(run)
    if run.rc != 0 and not crashed:
        if hard and all(b is None or view.get(p) == b for p, b in run.fs.items()): return []
        if not tags: return []
        return [V('refused', 'exits with %d: %s' % (run.rc, run.lines()[:3]))]
    unexpected = 0
    for name, got in per.items():
        if name not in want: return [V('extra-report', got[0][1])]
        if len(got) > 1: return [V('reported-twice', repr(got))]
    for name, (i, d) in want.items():
        st, line = per.get(name, [(None, None)])[0]
        if st is None:
            if not crashed: return [V('unreported', '%s is not reported' % name)]
            continue
        if st == 'processed':
            if i[0] not in ('ok', 'odd'): return [V('accepted', '%s is reported as processed, but its source is %s' % (name, 'malformed or missing' if i[0] == 'bad' else 'missing'))]
            if not same(i[2], run.fs.get(d)): return [V('not-saved', '%s is reported as processed, but %s does not hold its source' % (name, d))]
        elif st == 'skipped':
            if i[0] == 'bad': return [V('skipped', '%s: source is malformed or missing, but the tag is skipped: %s' % (name, line))]
            if i[0] == 'ok':
                if 'matches' not in line: return [V('skipped', '%s has a source, but is skipped: %s' % (name, line))]
                # with a folder for changes, a tag that is like the original's needs no file there
                src = d if not job.get('cow') or d in view else 'tags/' + name
                if not same(i[2], view.get(src)): return [V('skipped-differs', '%s is said to match its source, but does not' % name)]
        else:
            if d and not same(view.get(d), run.fs.get(d)) and view.get(d) != run.fs.get(d): return [V('failed-changed', '%s is reported as failed, but %s changed' % (name, d))]
            if i[0] == 'ok' and view.get(d, 0) is None: continue
            if i[0] not in ('bad', 'odd'): unexpected += 1
    if crashed: return []
    if unexpected > hard: return [V('spurious', '%d imports failed although only %d operations failed for good: %s' % (unexpected, hard, [l for l in run.lines() if l.startswith('Failed')][:3]))]
    return []

files_reducible = True
