"""P21: a damaged or unreadable map never yields wrong tags."""
import random, re, struct
import batch, mapfile, tagcodec as tc
from batch import V, sched_conf
from p19 import make, name

rule = ('a case is one extraction from (or one look at) a generated cache file with resource files, of which one or more are truncated, flipped, overwritten at counts, sizes and addresses, emptied, missing, have scripts no compiler makes, or fail, end early, '
        'return flipped bits, or come in short or interrupted pieces while they are read; the extracted tags are compared with those of the undamaged map; non-trivial: the map was damaged or a fault fired')
assumptions = ['where the format has no checksum (pixel and sample data, resource files, maps whose checksum is disabled) damage may go unnoticed; there the tool must end regularly and what it extracts must be complete tags, '
               'and tags that do not use the damaged part must come out as from the undamaged map',
               'memory is limited to 6 GB: an allocation that the damaged map asks for beyond that fails']
AS = 6 << 30
VALUES = [0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x10000000, 0x00FFFFFF, 0xFFFF, 0x10000, 0, 1, 2, 3, 0x40440000, 0x40440028, 0x800]

def has_raw(g, seen=None):
    "Do tags of this kind keep data outside of what the checksum covers?"
    def walk(n, seen):
        if n in seen: return False
        seen.add(n)
        for f in tc.OBJS[n].get('fields', []):
            if f['type'] == 'FileData': return True
            if f['type'] == 'Reflexive':
                if walk(f['struct'], seen): return True
            elif f['type'] in tc.OBJS and walk(f['type'], seen): return True
        return False
    return g == 'bitmap' or walk(tc.GROUPS[g]['struct'], set())
FOURCC = {struct.pack('<I', v) for v in tc.FOURCC.values()}
RAW = {g for g in tc.GROUPS if has_raw(g)}

def argv(c): return ['info', c['map']] if c['verb'] == 'info' else ['extract', c['map'], '-t', 'tags', '-n', '-j', str(c['jobs'])]

def damage(rng, b, spots, pointers=(), refs=(), ids=()):
    """-> (damaged contents, [(from, to) damaged ranges])"""
    k = rng.random()
    if k < .12: n = rng.choice([0, 1, 0x7ff, 0x800, 0x801, rng.randrange(len(b) + 1), len(b) - 1, len(b) - rng.randrange(1, 64)]); n = max(0, min(n, len(b) - 1)); return b[:n], [(n, len(b))]
    if k < .15: return b + bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 100]))), [(len(b), len(b) + 1)]
    c = bytearray(b); out = []
    if not c: return b, []
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        r = rng.random()
        if refs and r < .2:
            # a reference to another tag, perhaps of another group or the one that holds it
            lo = rng.choice(refs); w = struct.pack('<I', rng.choice(ids))
            if c[lo:lo + 4] != w: c[lo:lo + 4] = w; out.append((lo, lo + 4))
            continue
        if pointers and r < .5:
            # at what goes with an address: a count before it, an id after it, or an id of another tag instead
            p = rng.choice(pointers); lo = p + rng.choice([-4, -4, 0, 0, 4, 8, 8]); hi = lo + 4
            if rng.random() < .4:
                q = rng.choice(pointers) + rng.choice([0, 8, 8]) if rng.random() < .7 else rng.randrange(len(c) // 4) * 4
                if 0 <= lo and hi <= len(c) and 0 <= q <= len(c) - 4 and c[lo:hi] != c[q:q + 4]: c[lo:hi] = c[q:q + 4]; out.append((lo, hi))
                continue
            lo = max(lo, 0)
        elif r < .85: lo, hi = rng.choice(spots)
        else: lo, hi = 0, len(c)
        hi = min(hi, len(c))
        if lo >= hi: continue
        i = rng.randrange(lo, hi)
        if k < .5: c[i] ^= 1 << rng.randrange(8); out.append((i, i + 1))
        elif k < .9:
            i = i // 4 * 4; v = rng.choice(VALUES + [rng.randrange(1 << 32)])
            if rng.random() < .4: v = struct.unpack('<I', bytes(c[i:i + 4]).ljust(4, b'\0'))[0] + rng.choice([1, -1, 4, -4, 32, 0x800, -0x800, 0x10000]) & 0xFFFFFFFF
            w = struct.pack('<I', v)[:len(c) - i]
            if c[i:i + 4] != w: c[i:i + 4] = w; out.append((i, i + len(w)))
        else:
            n = min(len(c) - i, rng.choice([2, 16, 512]))
            for j in range(i, i + n): c[j] = rng.choice([0, 0xff, rng.randrange(256)])
            out.append((i, i + n))
    return bytes(c), out

def cases(rng, runner, tier, k):
    world = [rng.getrandbits(40), rng.choice([1, 2, 3, 5, 8, 12]), 'maps/', rng.choice([None, None, None, ['sound', 'bitmap', 'font', 'gbxmodel'], ['scenario_structure_bsp', 'bitmap', 'detail_object_collection', 'gbxmodel', 'model_animations'],
                                                                                         ['unicode_string_list', 'sound', 'hud_message_text', 'weapon']])]
    w = make(world)
    tags = [name(t) for t in w.tags]
    clean = dict(w.files); clean['tags'] = None
    o, e = w.builder.ranges['tags']
    n = max(w.slots) + 1
    xbox = w.builder.engine == 'xbox'
    h = 36 if xbox else 40
    spots = {w.map: [(0, 0x70), (0x7fc, 0x800), (o, o + h), (o, o + h), (o + h, o + h + 32 * n), (o + h, o + h + 32 * n), (o + h + 32 * n, e), (o + h + 32 * n, e), (0x800, o)] +
             [(a, a + 24) for a, b in w.builder.ranges['bsp']] + w.builder.ranges['bsp'] + [w.builder.ranges['model']] * (not xbox)}
    m = w.files[w.map]
    if xbox: m = mapfile.unpack(m)
    for i, (p, g) in enumerate(w.tags):
        if g == 'scenario':
            a, = struct.unpack_from('<I', m, o + h + 32 * w.slots[i] + 20); a -= w.builder.base
            spots[w.map] += [(o + a, o + a + tc.OBJS['Scenario']['size'])] * 2
    for f in w.files:
        if f != w.map:
            po, ao, c = struct.unpack_from('<III', w.files[f], 4)
            spots[f] = [(0, 16), (0, 16), (ao, len(w.files[f])), (ao, len(w.files[f])), (16, po), (po, ao)]
    if not xbox and rng.random() < .4: m = m[:0x64] + b'\xff' * 4 + m[0x68:]; w.files[w.map] = clean[w.map] = m
    checked = xbox or m[0x64:0x68] != b'\xff' * 4
    ids = [struct.unpack_from('<I', m, o + h + 32 * i + 12)[0] for i in w.slots]
    refs = {w.map: [i + 12 for i in range(0x800, len(m) - 15, 4) if m[i:i + 4] in FOURCC and struct.unpack_from('<I', m, i + 12)[0] in ids + [0xFFFFFFFF]]}
    pointers = {w.map: [i for i in range(0x800, len(m) - 3, 4) if w.builder.base <= struct.unpack_from('<I', m, i)[0] < w.builder.base + e - o]}
    for _ in range(10 if tier == 'quick' else 30):
        files = dict(clean); dam = []; conf = sched_conf(rng)
        conf['aslimit'] = AS
        mode = rng.choice(['damage'] * 8 + ['faults'] * 4 + ['benign'] * 2 + ['both'] * 2 + ['twice', 'past', 'hostile'])
        special = None
        if mode == 'twice':
            # two tags of the map with one path
            same = [(i, j) for i in range(len(tags)) for j in range(len(tags)) if i != j and w.tags[i][1] == w.tags[j][1]]
            if not same: continue
            i, j = (w.slots[x] for x in rng.choice(same)); c = bytearray(m)
            if not xbox: c[0x64:0x68] = b'\xff' * 4
            c[o + h + 32 * i + 16:o + h + 32 * i + 20] = c[o + h + 32 * j + 16:o + h + 32 * j + 20]
            files[w.map] = mapfile.pack(bytes(c)) if xbox else bytes(c)
            dam.append([w.map, o + h + 32 * i + 16, o + h + 32 * i + 20]); special = 'twice'
        if mode == 'hostile':
            # scripts no compiler makes: nested deep, nodes that are shared or in circles, odd names, a table of another size
            kind = [rng.choice(['deep', 'shared', 'wide', 'loop', 'loop', 'name', 'table']), rng.getrandbits(30)]
            bad = make(world + [kind])
            files = dict(bad.files); files['tags'] = None; conf['maxsteps'] = 400000000
            dam.append([w.map, 0x800, 1 << 30]); special = 'hostile'
        if mode == 'past':
            # a resource whose data goes on after the end of the file
            res = [f for f in w.files if f != w.map and struct.unpack_from('<I', w.files[f], 12)[0]]
            if not res: continue
            f = rng.choice(res); c = bytearray(files[f]); ao, cnt = struct.unpack_from('<II', c, 8)
            e1 = ao + 12 * rng.randrange(cnt); _, size, at = struct.unpack_from('<III', c, e1)
            if not size: continue
            if rng.random() < .5: struct.pack_into('<I', c, e1 + 4, len(c) - at + rng.choice([1, 2, 4, 64, 1 << 20])); dam.append([f, e1 + 4, e1 + 8])
            else: struct.pack_into('<I', c, e1 + 8, len(c) - rng.randrange(size)); dam.append([f, e1 + 8, e1 + 12])
            files[f] = bytes(c); special = 'past'
        if mode in ('damage', 'both'):
            for f in rng.sample(sorted(w.files), rng.choice([1, 1, 1, min(2, len(w.files))])):
                if f != w.map and rng.random() < .15: files.pop(f); dam.append([f, -1, -1]); continue
                if xbox and f == w.map:
                    # the compressed file itself, or what it says once it is decompressed
                    if rng.random() < .5: b, rs = damage(rng, files[f], [(0, 0x70), (0x800, 0x810), (0x800, len(files[f])), (0x800, len(files[f])), (len(files[f]) - 4, len(files[f]))])
                    else: b = mapfile.pack(damage(rng, m, spots[f], pointers[f], refs[f], ids)[0].ljust(0x800, b'\0')); rs = [[0, 0x800]]
                else: b, rs = damage(rng, files[f], spots[f], pointers.get(f, ()), refs.get(f, ()), ids)
                if b == files[f]: continue
                files[f] = b; dam += [[f, x, y] for x, y in rs]
        if mode in ('faults', 'both'):
            sub = rng.choice(['maps/', 'maps/', w.map] + sorted(w.files)); fs = []
            for _ in range(rng.choice([1, 1, 2])):
                r = rng.random(); i = rng.randrange(7)
                if r < .35: fs.append('read:%d%s:EIO:0:%s' % (i, rng.choice(['', '+']), sub))
                elif r < .55: fs.append('open:%d%s:%s:0:%s' % (rng.randrange(4), rng.choice(['', '+']), rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT']), sub))
                elif r < .75: fs.append('read:%d:eof:0:%s' % (i, sub))
                elif r < .95: fs.append('read:%d:flip:%d:%s' % (i, rng.randrange(1 << 17), sub))
                else: fs.append('stat:%d:EIO:0:%s' % (rng.randrange(3), sub))
            conf['faults'] = fs
        if mode in ('benign', 'both') or rng.random() < .2:
            conf['faults'] = conf.get('faults', []) + ['read:%d+:short:%d:maps/' % (rng.randrange(4), rng.choice([0, 1, 30, 2047, 5000])), 'read:%d:EINTR:0:maps/' % rng.randrange(6)][:rng.choice([1, 2])]
        if xbox: sure = not any(d[1] < 0x800 for d in dam) and not any(':flip:' in x for x in conf.get('faults', []))
        else: sure = checked and files[w.map][0x64:0x68] != b'\xff' * 4
        yield {'verb': 'info' if rng.random() < .14 else 'extract', 'files': files, 'clean': {p: b for p, b in clean.items()}, 'damaged': dam, 'checked': sure, 'map': w.map, 'jobs': batch.jobs_for(rng), 'conf': conf, 'special': special,
               'tags': tags, 'covered': [[0x800, 1 << 40]] if xbox else [[0, 0x800]] + [list(x) for x in w.builder.covered], 'external': [name(t) for t in w.external],
               'facts': mapfile.facts(w), 'order': None if xbox else [list(x) for x in w.builder.order]}

def told(case, run, files, troubled, bad):
    "Is what the tool says about a map true?"
    if run.rc: return []
    said = {}
    for l in run.lines(): said.setdefault(l[:19].strip().rstrip(':'), l[19:])
    if not troubled:
        for k, v in case['facts'].items():
            if not (said.get(k, 'nothing') + ' ').startswith(v + ' '): return [V('told', 'says %r about the %s of a map where it is %r' % (said.get(k), k or 'engine', v))]
    if case['order'] is None or bad or case.get('special'): return []
    m = files[case['map']]; crc = said.get('CRC32', ''); head, = struct.unpack_from('<I', m, 0x64)
    hit = [d for d in case['damaged'] if d[0] == case['map']]
    lo, hi = case['order'][-1]
    if any(d[1] < 0x800 and not (0x64 <= d[1] and d[2] <= 0x68) or d[1] < hi and lo < d[2] or d[1] >= hi for d in hit):
        # the header or the tags: what is covered may be another part than before, but it cannot still be right
        if 'matches' in crc and any(d[1] < hi and lo < d[2] for d in hit) and struct.unpack_from('<I', case['clean'][case['map']], 0x64)[0] == head: return [V('crc-match', 'damage went unnoticed: %s' % crc)]
        return []
    want = mapfile.crc_of(m, case['order'])
    if not crc.startswith('0x%08X ' % want) or ('matches' in crc) != (want == head) or want != head and 'header=0x%08X' % head not in crc:
        return [V('crc', 'says %r about a map with checksum 0x%08X whose header says 0x%08X' % (crc, want, head))]
    return []

BAD = ('EIO', 'EACCES', 'EMFILE', 'ENOENT', 'eof', 'flip')

def judge(case, runner):
    files = dict(case['files'], tags=None)
    runner.judged = None
    run = runner.run(files, argv(case), case['conf'])
    runner.judged = run
    fired = [f for f in run.faults_fired() if f[3]]
    bad = [f for f in fired if f[1] in BAD]
    runner.nontrivial = bool(case['damaged'] or fired)
    runner.tags = [case['verb'], 'damaged' if case['damaged'] else 'whole', 'checksum' if case['checked'] else 'no checksum'] + (['fault'] if fired else [])
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    view = runner.put_view(files)
    troubled = bool(case['damaged'] or bad)
    clean = runner.ref(case['clean'], argv(dict(case, jobs=1)), {'aslimit': AS})
    if clean.how != 'exit' or clean.rc: return [V('reference', 'the undamaged map cannot be used: %s %s' % (clean.how, clean.out[-300:]))]
    if case['verb'] == 'info':
        if run.fs != view: return [V('changed', 'looking at a map changed files')]
        if run.rc == 0 and not troubled and run.lines() != clean.lines(): return [V('info', 'other output than from an undisturbed load')]
        if run.rc and not troubled: return [V('refused', 'exits with %d: %s' % (run.rc, run.lines()[:3]))]
        return told(case, run, files, troubled, bad)
    sp = case.get('special')
    if sp == 'hostile':
        per, odd, summ = batch.report(run)
        for n in case['tags']:
            st = per.get(n); b = run.fs.get('tags/' + n)
            if n.endswith('.scenario') and st and st[0][0] == 'failed':
                if b is not None: return [V('failed-there', '%s is reported as failed, but is there' % n)]
                continue
            if not st or st[0][0] != 'processed' or b is None: return [V('missing', '%s was not extracted from a map that only has bad scripts' % n)]
            if n.endswith('.scenario'):
                try: tc.parse(b)
                except Exception as e: return [V('no-tag', '%s is not a complete tag: %r' % (n, e))]
            elif b != clean.fs.get('tags/' + n): return [V('wrong', '%s of a map with bad scripts was extracted with other contents' % n)]
        return []
    if sp == 'twice':
        if run.rc == 0 or run.fs != view: return [V('twice', 'a map that has two tags of the same path and group is accepted')]
        return []
    # which tags may come out differently, because no checksum covers what was damaged
    loose = lambda n: False
    if bad and any(f[1] in ('flip', 'eof') for f in bad) or not case['checked'] and any(d[0] == case['map'] for d in case['damaged']):
        if not case['checked']: loose = lambda n: True
        else: loose = lambda n: n.rpartition('.')[2] in RAW or n in case['external']
    else:
        inmap = [d for d in case['damaged'] if d[0] == case['map'] and not any(a <= d[1] and d[2] <= b for a, b in case['covered'])]
        inres = [d for d in case['damaged'] if d[0] != case['map']]
        if inmap or inres: loose = lambda n: n.rpartition('.')[2] in RAW or bool(inres) and n in case['external']
    for p in sorted(set(view) | set(run.fs)):
        a, b = view.get(p, 'none'), run.fs.get(p, 'none')
        if a == b: continue
        if not p.startswith('tags/'): return [V('outside', '%s changed' % p)]
        if b is None or b == clean.fs.get(p): continue
        n = p[5:]
        if sp == 'past': return [V('past-end', '%s was extracted with other contents although its data is beyond the end of the resource file' % n)]
        if not case['checked'] and loose(n):
            try: tc.parse(b)
            except Exception as e: return [V('no-tag', '%s is not a complete tag: %r' % (n, e))]
            continue
        if n not in case['tags']: return [V('extra', '%s, which the map does not have, was extracted' % n)]
        if not loose(n): return [V('wrong', '%s of a damaged map was extracted with other contents than it has in the undamaged one' % n)]
        try: tc.parse(b)
        except Exception as e: return [V('no-tag', '%s is not a complete tag: %r' % (n, e))]
        # (a damaged count in sounds.map itself cannot be told from a sound that is empty)
        if hollow(b) and not hollow(clean.fs[p]) and not any(d[0] == 'maps/sounds.map' and d[1] >= 0 for d in case['damaged']) and not any(f[1] in ('flip', 'eof') for f in bad): return [V('hollow', '%s was extracted without its pitch ranges, as if that were all of it' % n)]
    per, odd, summ = batch.report(run)
    if not troubled:
        if run.fs != clean_fs(view, clean.fs): return [V('benign', 'short or interrupted reads gave another result than an undisturbed load: %s' % run.lines()[:3])]
        return []
    if run.rc != 0 and not per:
        if any(p.startswith('tags/') and p not in view for p in run.fs): return [V('refused-wrote', 'refuses the map, but extracted something')]
        return []
    for n in case['tags']:
        st = per.get(n)
        if not st:
            if case['checked'] : return [V('missing', '%s is neither extracted nor reported' % n)]
            continue
        if len(st) > 1: return [V('twice', '%s is reported %d times' % (n, len(st)))]
        if st[0][0] == 'processed' and run.fs.get('tags/' + n) is None: return [V('not-there', '%s is reported as extracted, but is not there' % n)]
        if st[0][0] == 'skipped': return [V('skipped', st[0][1])]
        if st[0][0] == 'failed' and 'tags/' + n in run.fs: return [V('failed-there', '%s is reported as failed, but is there' % n)]
    return []

def hollow(b):
    try: g, t = tc.parse(b)
    except Exception: return False
    return g == 'sound' and not tc.get(t, 'pitch ranges').items

def clean_fs(view, fs):
    out = dict(view)
    out.update({p: b for p, b in fs.items() if p.startswith('tags/')})
    return out
