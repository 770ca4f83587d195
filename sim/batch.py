"""Worlds and reference results for the tools that process tags one by one (P01-P07, P23-P25)."""
import random, re, struct
import sense
import tagcodec as tc
from engine import V, sched_conf

GROUPS = sorted(tc.GROUPS)
# groups worth meeting often: they have special handling somewhere
HOT = ['bitmap', 'scenario', 'weapon', 'gbxmodel', 'model', 'scenario_structure_bsp', 'sound', 'unicode_string_list', 'effect', 'weapon_hud_interface',
       'shader_model', 'shader_environment', 'globals', 'hud_globals', 'biped', 'light', 'lens_flare', 'tag_collection', 'ui_widget_collection', 'damage_effect',
       'object', 'item_collection', 'equipment', 'garbage', 'sound_looping', 'contrail', 'particle', 'particle_system']
HOT = [g for g in HOT if g in tc.GROUPS]

# ------------------------------------------------------------------ worlds
DIRS = ['', '', 'a', 'b', 'a/b', 'c d', 'levels/test', 'weapons', 'a/a']
STEMS = ['t', 'x', 'pistol', 'my tag', 'v2.0', 'ab', 'b', 'long_name_of_a_tag', 'a']

def tag_name(rng, i):
    d = rng.choice(DIRS)
    return (d + '/' if d else '') + rng.choice(STEMS) + (str(i) if rng.random() < 0.75 else '')

class World:
    """tags: {(dir, path-without-ext, group): bytes}; extra: other files."""
    def __init__(w):
        w.dirs = ['tags']; w.names = []; w.files = {}; w.cow = None; w.data = None
    def file(w, d, path, group): return '%s/%s.%s' % (d, path, group)

def gen_tags(rng, n, groups=None, dirs=1, fill=None, refp=0.6, shadow=0.3, missing=0.1, budget=10, twins=None):
    w = World()
    w.dirs = ['tags', 'tags2', 'tags3'][:dirs]
    seen = set(); twins = rng.choice([0, 0, .3]) if twins is None else twins    # share of names, or names within a folder, that another tag has too
    for i in range(n):
        g = rng.choice(groups) if groups else (rng.choice(HOT) if rng.random() < 0.7 else rng.choice(GROUPS))
        p = tag_name(rng, i)
        if w.names and rng.random() < twins:
            p, g2 = rng.choice(w.names)
            if rng.random() < .5:
                p = rng.choice(['', 'a/', 'b/', 'a/a/', 'b/x y/']) + p.rpartition('/')[2]
                if rng.random() < .7: g = g2
        if (p, g) in seen: continue
        seen.add((p, g)); w.names.append((p, g))
    byg = {}
    for p, g in w.names: byg.setdefault(g, []).append(p)
    last = [None]
    large = rng.random() < .15    # the first tag that has opaque data is larger than any buffer
    def pick(al):
        if rng.random() > refp: return None
        c = [g for g in al if g in byg]
        if c and rng.random() > missing:
            g = rng.choice(c); same = [g for g in c if last[0] in byg[g]]
            if twins and same and rng.random() < .6: g = rng.choice(same); return g, last[0].replace('/', '\\')    # what goes together often has one name
            last[0] = rng.choice(byg[g]); return g, last[0].replace('/', '\\')
        if rng.random() < 0.5: return rng.choice(al), 'missing\\m%d' % rng.randrange(9)
        return None
    for p, g in w.names:
        ds = [rng.choice(w.dirs)]
        if dirs > 1 and rng.random() < shadow: ds = rng.sample(w.dirs, 2 if dirs == 2 or rng.random() < .7 else 3)
        for d in ds:
            fl = fill if fill is not None else rng.choice([0.05, 0.3, 0.6]); bu = rng.choice([0, 3, budget])
            t = tc.build_struct(tc.GROUPS[g]['struct'], rng, pick, fl, 0, [bu], 0.7)
            if fill != 0 and rng.random() < .6: sense.make(g, t, rng)
            if large and g in BULKY and tc.grow(t, rng, rng.choice([8200, 65536, 70000, 140000, 300000, 300000])): large = False
            w.files[w.file(d, p, g)] = tc.serialize(g, t)
    for d in w.dirs:
        if not any(f.startswith(d + '/') for f in w.files): w.files[d] = None
    if rng.random() < 0.4:
        d = rng.choice(w.dirs)
        for nm in rng.sample(['readme.txt', 'thumbs.db', 'noext', 'x.tif', '.hidden', 'a/notes.txt'], 2): w.files[d + '/' + nm] = b'stray ' + nm.encode()
    if rng.random() < 0.3: w.files[rng.choice(w.dirs) + '/empty dir'] = None
    return w

def where(files, dirs, path, group):
    """First folder that has the tag."""
    for d in dirs:
        f = '%s/%s.%s' % (d, path, group)
        if files.get(f) is not None: return f
    return None

def all_tags(files, dirs):
    out = {}
    for f, b in files.items():
        if b is None: continue
        d, _, r = f.partition('/')
        if d not in dirs: continue
        stem, dot, ext = r.rpartition('.')
        if dot and ext in tc.GROUPS: out.setdefault((stem, ext), None)
    return sorted(out)

# ------------------------------------------------------------------ filters (independent implementation)
def wild(f, s):
    r = ''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in f)
    return re.fullmatch(r, s, re.S) is not None

def matches(filt, group, tag):
    """filt uses / as separator."""
    p, g = tag
    if group:
        if g != group: return False
        if filt.endswith('.' + group) and len(filt) > len(group) + 1: filt = filt[:-len(group) - 1]
        return wild(filt, p)
    return wild(filt, p + '.' + g)

BULKY = {'bitmap', 'font', 'hud_message_text', 'scenario', 'scenario_structure_bsp', 'sound'}

def blur(rng, s):
    """A pattern made from a real name: characters and stretches replaced by wildcards, wildcards put in between and at both ends."""
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        i = rng.randrange(len(s) + 1); j = min(len(s), i + rng.choice([0, 0, 1, 1, 2, 5, 20]))
        if rng.random() < .25: i = j = len(s)
        elif rng.random() < .1: i = j = 0
        s = s[:i] + rng.choice(['*', '*', '?', '?', '*?', '?*', '**', '*' + s[i:j], s[i:j] + '*', '?' * (j - i)]) + s[j:]
    return s

def gen_filter(rng, tags, group=None):
    if not tags: return '*'
    p, g = rng.choice(tags)
    k = rng.random()
    if rng.random() < .15: return blur(rng, p if group and rng.random() < .6 else p + '.' + g).lstrip('-') or '*'
    if k < 0.45: return '*'
    if group:
        if k < .6: return '*.' + group
        if k < .8 and '/' in p: return p[:p.rindex('/') + 1] + '*'
        return p[:1] + '*'
    if k < 0.55: return '*.' + g
    if k < 0.7 and '/' in p: return p[:p.rindex('/') + 1] + '*'
    if k < 0.8: return '*' + p[-1] + '.*'
    if k < 0.9: return '?' * len(p) + '.' + g
    return p[0] + '*.' + g[:3] + '*'

# ------------------------------------------------------------------ jobs
# A job is the tool and its options, without worker count: {'verb','filter','dirs','cow','data','extra'}
def argv(job, filt=None, jobs=1, cow=None):
    v = job['verb']
    f = filt if filt is not None else job['filter']
    a = [v]
    if v == 'refactor-groups': a += [job['from'], job['to'], '-f', f]
    elif v == 'convert': a += [f, job['to']]
    else: a += [f]
    for d in job['dirs']: a += ['-t', d]
    c = job.get('cow') if cow is None else cow
    if c: a += ['-c', c]
    if job.get('data'): a += ['-d', job['data']]
    if job.get('overwrite'): a += ['-o']
    a += ['-j', str(jobs)]
    return a

GROUP_OF = {'unicode-strings': 'unicode_string_list', 'tag-collection': 'tag_collection', 'ui-widget-collection': 'ui_widget_collection', 'plate': 'bitmap'}

SUMMARY = re.compile(r'^(Processed (\d+) / (\d+) tags in \d+ ms(, with (\d+) errors?)?|Recovered (\d+) / (\d+) tags .*|Failed to parse (\d+) tags?)$')

def split_lines(run):
    """(report lines, summary lines)"""
    rep, summ = [], []
    for l in run.lines():
        (summ if SUMMARY.match(l) else rep).append(l)
    return rep, summ

def tag_of(t): return t[0] + '.' + t[1]

class Invalid(Exception):
    'The request itself is refused by the command line: a mistake of the generator (or a reduction gone too far).'

class Ref:
    """What processing one tag by itself does."""
    __slots__ = ('tag', 'lines', 'status', 'writes', 'run', 'bad')

def isolated(runner, files, job, tag, conf=None):
    """Single-tag run on the initial file system (conf: faults tied to paths)."""
    r = runner.ref(files, argv(job, filt=tag_of(tag)), conf)
    x = Ref(); x.tag = tag; x.run = r; x.bad = None
    x.lines, _ = split_lines(r)
    x.writes = {p: b for p, b in r.fs.items() if p not in files or files[p] != b}
    gone = [p for p in files if p not in r.fs]
    # parents that had to be created are not interesting
    x.writes = {p: b for p, b in x.writes.items() if b is not None}
    if r.how != 'exit': x.bad = 'single run ended with %s (%s)' % (r.how, r.err.decode('utf-8', 'replace').strip()[-200:])
    elif gone: x.bad = 'single run removed ' + gone[0]
    name = tag_of(tag)
    x.status = 'ignored'
    if x.bad: pass
    elif r.rc != 0 and any(l.startswith('Error executing') and 'No viable tags' in l for l in x.lines): x.lines = []
    elif r.rc != 0 and re.search(rb'Argument parse error|does not exist for --', r.out): raise Invalid(r.out)
    elif r.rc != 0: x.bad = 'single run failed: ' + r.out.decode('utf-8', 'replace')[-200:]
    else:
        for l in x.lines:
            if l == 'Processed ' + name: x.status = 'processed'
            elif l.startswith('Skipped ' + name + ': '): x.status = 'skipped'
            elif l.startswith('Failed to process ' + name + ': '): x.status = 'failed'
    return x

def expected(runner, files, job, conf=None):
    """Reference for the whole batch: every matching tag processed by itself.
    Returns None when the references themselves conflict (two tags with the same output)."""
    group = GROUP_OF.get(job['verb'])
    tags = matching(job, files)
    refs = [isolated(runner, files, job, t, conf) for t in tags]
    outs = {}
    conflict = False
    for r in refs:
        for p in r.writes:
            if p in outs: conflict = True
            outs[p] = r.writes[p]
    ds = [dest(job, tag_of(r.tag), files) for r in refs]
    if len(set(ds)) < len(ds): conflict = True
    # a tag that is both the result of one matching tag and the source of another has no order-free meaning either
    srcs = {f: r.tag for r in refs for d in job['dirs'] for f in ['%s/%s' % (d, tag_of(r.tag))]}
    for r in refs:
        if any(srcs.get(p, r.tag) != r.tag for p in r.writes): conflict = True
    return refs, outs, conflict

def status_of(lines, name):
    """Report lines of one tag -> list of statuses."""
    out = []
    for l in lines:
        if l == 'Processed ' + name: out.append('processed')
        elif l.startswith('Skipped ' + name + ': '): out.append('skipped')
        elif l.startswith('Failed to process ' + name + ': '): out.append('failed')
    return out

EDIT_VERBS = ['bludgeon', 'nudge', 'strip', 'undefault', 'recompress-vertices', 'refactor-groups', 'convert', 'unicode-strings', 'tag-collection', 'ui-widget-collection']
CONVERT_GROUPS = ['weapon', 'equipment', 'garbage', 'scenery', 'model', 'gbxmodel', 'device_machine', 'device_control', 'device_light_fixture', 'sound_scenery', 'placeholder', 'projectile', 'biped', 'vehicle']
CONVERT_GROUPS = [g for g in CONVERT_GROUPS if g in tc.GROUPS]

def text_for(rng, verb, w, bad=0.15):
    """Source text of a string list or collection."""
    if verb == 'unicode-strings':
        enc = rng.choice(['utf-16-le', 'utf-8', 'utf-16-le-bom', 'utf-16-be-bom'])
        items = [''.join(rng.choice('abc xyzé!') for _ in range(rng.randrange(0, 20))) for _ in range(rng.randrange(0, 6))]
        t = ''.join(i + '\r\n###END-STRING###\r\n' for i in items)
        if rng.random() < bad: t += 'unterminated'
        if enc == 'utf-8': return t.encode()
        if enc == 'utf-16-le': return t.encode('utf-16-le')
        if enc == 'utf-16-be-bom': return b'\xfe\xff' + t.encode('utf-16-be')
        return b'\xff\xfe' + t.encode('utf-16-le')
    ls = []
    for _ in range(rng.randrange(0, 8)):
        ls.append(rng.choice(['', 'a\\b\\c.bitmap', 'x\\y.weapon', 'levels\\t.scenario', 'ui\\w.ui_widget_definition']))
    if rng.random() < bad: ls.append(rng.choice(['not a tag', 'x.nosuchgroup', '..\\..\\x.bitmap']))
    t = '\n'.join(ls).encode()
    if rng.random() < bad / 2: t += b'\xff\xfe\xff'
    return t

def gen_job(rng, verb=None, n=None, dirs=None, cow=None, fill=None):
    """A random world with a tool to run over it -> (files, job)."""
    verb = verb or rng.choice(EDIT_VERBS + ['bludgeon', 'strip', 'undefault', 'nudge', 'convert'])
    n = n if n is not None else rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12])
    dirs = 1   # the editing tools take one tags folder
    groups = None
    models = verb == 'convert' and rng.random() < .35
    if models: groups = ['model', 'gbxmodel', 'gbxmodel', 'model', 'weapon']
    elif verb == 'convert' and rng.random() < 0.9: groups = CONVERT_GROUPS + ['bitmap']
    elif verb == 'recompress-vertices': groups = ['model', 'gbxmodel', 'scenario_structure_bsp', 'gbxmodel', 'bitmap']
    elif verb == 'bludgeon' and rng.random() < .5: groups = ['model', 'gbxmodel', 'scenario_structure_bsp', 'sound', 'unicode_string_list', 'scenario', 'light', 'weapon']
    elif verb == 'nudge' and rng.random() < .5: groups = ['biped', 'weapon', 'scenery', 'sound', 'light', 'projectile', 'point_physics', 'damage_effect', 'continuous_damage_effect', 'actor_variant', 'scenario', 'bitmap']
    elif verb in GROUP_OF: groups = [GROUP_OF[verb]] * 5 + ['bitmap', 'weapon']
    elif verb == 'refactor-groups' and rng.random() < 0.8: groups = ['weapon', 'biped', 'gbxmodel', 'model', 'scenery', 'vehicle', 'tag_collection', 'object', 'scenario', 'item_collection', 'effect']
    w = gen_tags(rng, n, [g for g in groups if g in tc.GROUPS] if groups else None, dirs, fill)
    job = {'verb': verb, 'dirs': w.dirs}
    tags = all_tags(w.files, w.dirs)
    if verb == 'convert':
        job['to'] = rng.choice(['model', 'gbxmodel'] if models else CONVERT_GROUPS)
        if rng.random() < 0.3: job['overwrite'] = 1
    if verb == 'refactor-groups':
        job['from'], job['to'] = rng.choice([('model', 'gbxmodel'), ('gbxmodel', 'model'), ('weapon', 'equipment'), ('equipment', 'weapon'), ('sound', 'sound_looping'), ('biped', 'vehicle'), ('shader_model', 'shader_environment')])
    if verb in GROUP_OF:
        job['data'] = 'data'
        w.files['data'] = None
        for p, g in tags:
            if g == GROUP_OF[verb] and rng.random() < 0.85: w.files['data/%s.txt' % p if '.' not in p.rsplit('/', 1)[-1] else 'data/%s.txt' % p] = text_for(rng, verb, w)
    job['filter'] = gen_filter(rng, tags, GROUP_OF.get(verb))
    if verb in GROUP_OF and rng.random() < 0.15:
        # a tag that does not exist yet
        p = rng.choice(['new/place/t', 'a/new', 'brand new', 'levels/test/x/y/z'])
        job['filter'] = p if rng.random() < .5 else p + '.' + GROUP_OF[verb]
        if rng.random() < .9: w.files['data/%s.txt' % p] = text_for(rng, verb, w)
    elif rng.random() < 0.05 and tags:
        p, g = rng.choice(tags); job['filter'] = rng.choice([p + '.' + g, 'no/such.' + g])
        if verb in GROUP_OF and g != GROUP_OF[verb]: job['filter'] = p
    if cow if cow is not None else rng.random() < 0.3:
        job['cow'] = 'cow'
        w.files['cow'] = None
        if rng.random() < 0.3 and tags:
            p, g = rng.choice(tags)
            w.files['cow/%s.%s' % (p, g)] = tc.build(g, rng)
    return w.files, job

def jobs_for(rng): return rng.choice([1, 2, 2, 3, 4, 4, 6, 8])

def describe(case): return ' '.join(case['argv']) if 'argv' in case else argv(case['job'], jobs=case['jobs'])

# ------------------------------------------------------------------ faults
ERRS_W = ['EIO', 'ENOSPC', 'EACCES', 'EROFS', 'EMFILE']
class Ops(int):
    """Number of mutating operations of a run, with the number of each kind."""
    kinds = {}

def write_faults(rng, nmut=12):
    """Some failing, short or interrupted mutating operations (nmut: how many there are, or an Ops)."""
    kinds = getattr(nmut, 'kinds', None)
    def at(cls, slack=1):
        if not kinds: return rng.randrange(0, max(2, nmut + slack))
        return rng.randrange(0, max(1, kinds.get(cls, 0) + (rng.random() < .1)))
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        for _ in range(8):
            k = rng.random()
            plus = '+' if rng.random() < 0.15 else ''
            if k < 0.30: f = 'write', '%s:%s:0:' % (plus, rng.choice(['EIO', 'ENOSPC']))
            elif k < 0.45: f = 'write', '%s:short:%d:' % (plus, rng.choice([1, 7, 100, 500]))
            elif k < 0.52: f = 'write', ':EINTR:0:'
            elif k < 0.70: f = 'creat', '%s:%s:0:' % (plus, rng.choice(ERRS_W))
            elif k < 0.78: f = 'mkdir', '%s:%s:0:' % (plus, rng.choice(['EACCES', 'ENOSPC', 'EROFS']))
            elif k < 0.92: f = 'rename', '%s:%s:0:' % (plus, rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EXDEV', 'EBUSY']))
            elif k < 0.94: f = 'fsync', '%s:EIO:0:' % plus
            elif k < 0.96: f = 'unlink', '%s:%s:0:' % (plus, rng.choice(['EIO', 'EACCES']))
            else: f = 'mut', ':%s:0:' % rng.choice(['EIO', 'ENOSPC'])
            if not kinds or f[0] == 'mut' or kinds.get(f[0]) or rng.random() < .05: break
        out.append('%s:%d%s' % (f[0], at(f[0]), f[1]))
    return out

def crash_fault(rng, nmut, nops):
    k = rng.random()
    if k < 0.30: return 'write:%d:crash:%d:' % (rng.randrange(0, max(1, nmut.kinds.get('write', 1)) if getattr(nmut, 'kinds', None) else max(2, nmut // 2 + 1)), rng.choice([0, 1, 50, 250, 500, 900, 999]))
    if k < 0.55: return 'mut:%d:crash:%d:' % (rng.randrange(0, max(2, nmut + 1)), rng.choice([0, 100, 500, 950]))
    if k < 0.85: return 'mut:%d:crashafter:0:' % rng.randrange(0, max(2, nmut + 1))
    return 'any:%d:crash:0:' % rng.randrange(0, max(2, nops + 1))

def count_ops(run):
    """(mutating operations, all operations) of a run, from its log."""
    mut, kinds = 0, {}
    for o in run.ops():
        op = o.split(' ', 4)[3]
        if '<stdout>' not in o and '<stderr>' not in o: kinds[op] = kinds.get(op, 0) + 1
        if op in ('creat', 'write', 'rename', 'mkdir', 'rmdir', 'unlink', 'link', 'trunc', 'fsync') and '<stdout>' not in o and '<stderr>' not in o: mut += 1
    mut = Ops(mut); kinds['mut'] = int(mut); mut.kinds = kinds
    return mut, len(run.ops())

def is_tag(p): return p.rpartition('.')[2] in tc.GROUPS and p.partition('/')[0] in ('tags', 'tags2', 'tags3', 'cow')

def show(b): return 'absent' if b is None else 'empty' if b == b'' else '%d bytes' % len(b)


def report(run):
    """Report lines of a batch run, parsed: ({tag name: [(status, line)]}, [lines that are no report of any tag], summary lines)."""
    per, odd = {}, []
    rep, summ = split_lines(run)
    for l in rep:
        m = re.match(r'(Processed) (.+)$', l) or re.match(r'(Skipped|Failed to process) (.+?\.[a-z_0-9]+): .+$', l)
        if m and m.group(2).rpartition('.')[2] in tc.GROUPS:
            per.setdefault(m.group(2), []).append(({'Processed': 'processed', 'Skipped': 'skipped'}.get(m.group(1), 'failed'), l))
        else: odd.append(l)
    return per, odd, summ

def matching(job, files):
    group = GROUP_OF.get(job['verb'])
    filt = job['filter']
    if '*' not in filt and '?' not in filt:   # names one tag, whether it exists or not
        if not group: return [tuple(filt.rsplit('.', 1))]
        return [(filt[:-len(group) - 1] if filt.endswith('.' + group) else filt, group)]
    return [t for t in all_tags(files, job['dirs']) if matches(job['filter'], group, t)]

def summary_of(summ):
    """(processed, total, errors) of 'Processed s / t tags ...' or None."""
    for l in summ:
        m = re.match(r'Processed (\d+) / (\d+) tags in \d+ ms(?:, with (\d+) errors?)?$', l)
        if m: return int(m.group(1)), int(m.group(2)), int(m.group(3) or 0)
    return None

def another(rng, b):
    """A good tag, but of another group than the one whose file this is."""
    try: g = tc.parse(b)[0]
    except Exception: g = None
    o = rng.choice([x for x in (HOT if rng.random() < .7 else GROUPS) if x != g])
    return tc.build(o, rng, lambda al: None, rng.choice([0.05, 0.3]), 3)

def corrupt(rng, b):
    """Damaged contents of a tag file, with a description."""
    if rng.random() < .08: return another(rng, b), 'wrong group'
    k = rng.random()
    if k < 0.08: return b'', 'empty'
    if k < 0.16: return bytes(rng.randrange(256) for _ in range(rng.choice([1, 63, 64, 65, 200, 1000]))), 'garbage'
    if k < 0.34 and len(b) > 1: return b[:rng.randrange(0, len(b))], 'truncated'
    if k < 0.42: return b + bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 100]))), 'extended'
    c = bytearray(b)
    if k < 0.55:
        for _ in range(rng.choice([1, 1, 2, 8])):
            i = rng.randrange(len(c)); c[i] ^= 1 << rng.randrange(8)
        return bytes(c), 'bits flipped'
    if k < 0.62:
        i = rng.randrange(len(c)); n = min(len(c) - i, rng.choice([2, 4, 16, 512]))
        for j in range(i, i + n): c[j] = rng.choice([0, 0xff, rng.randrange(256)])
        return bytes(c), 'burst'
    # no checksum, and damaged in places where counts, sizes and offsets are
    c[40:44] = b'\xff\xff\xff\xff'
    for _ in range(rng.choice([1, 1, 2, 4])):
        if len(c) <= 68: break
        i = 64 + rng.randrange((len(c) - 64) // 4) * 4
        v = rng.choice([0xffffffff, 0x7fffffff, 0x80000000, 0x10000000, 0x00ffffff, 1, 2, 0xffff, rng.randrange(1 << 32)])
        c[i:i + 4] = struct.pack('>I', v)[:len(c[i:i + 4])]
    if rng.random() < 0.2: c = c[:rng.randrange(64, len(c) + 1)]
    return bytes(c), 'no checksum and damaged'

def dest(job, name, files):
    """File a batch edit of this tag is saved to."""
    p, g = name.rsplit('.', 1)
    if job['verb'] == 'convert': g = job['to']
    if job.get('cow'): return '%s/%s.%s' % (job['cow'], p, g)
    return where(files, job['dirs'], p, g) or '%s/%s.%s' % (job['dirs'][0], p, g)

HARD = ('EIO', 'ENOSPC', 'EACCES', 'EROFS', 'EMFILE', 'EXDEV', 'EBUSY', 'ENOMEM', 'EPERM', 'EDQUOT')
def hard_faults(run):
    n = sum(fired for cls, kind, seen, fired in run.faults_fired() if kind in HARD)
    return n + sum(1 for o in run.ops() if o.endswith('FAULT full'))

def versions(files, refs):
    """path -> set of complete new contents the tool may save there."""
    out = {}
    for r in refs:
        for p, b in r.writes.items(): out.setdefault(p, set()).add(b)
    return out

def check_versions(files, fs, new):
    """Every tag file is an old or a complete new version (P01)."""
    for p in sorted(set(files) | set(fs)):
        if not is_tag(p): continue
        a, b = files.get(p), fs.get(p)
        if a == b or (p in fs and b is None): continue
        if p not in fs: return p, '%s disappeared' % p
        if b in new.get(p, ()): continue
        n = new.get(p)
        if a is None and not n: return p, '%s appeared (%s)' % (p, show(b))
        what = 'empty' if b == b'' else 'a part of the new version' if n and any(x.startswith(b) for x in n) else 'neither version'
        return p, '%s holds %s: %s, before %s, after %s' % (p, what, show(b), show(a), ', '.join(show(x) for x in n) if n else 'unchanged')
    return None
