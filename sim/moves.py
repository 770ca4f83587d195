"""Moves (refactor-paths): worlds and an independent model of what a move must do."""
import random
import batch, tagcodec as tc

BANNED = {'aux', 'con', 'nul', 'prn'} | {'com%d' % i for i in range(10)} | {'lpt%d' % i for i in range(10)}
def valid_path(p):
    """Internal form of a tag path (backslashes) or None."""
    out = ''
    for c in p:
        if c == '/': c = '\\'
        if c in ':*?"<>|' or ord(c) < 32 or ord(c) == 127: return None
        c = c.lower() if c.isascii() else c
        if out.endswith('\\') and c == '\\': continue
        out += c
    if out.startswith('\\') or any(d.endswith('.') or d in BANNED for d in out.split('\\')): return None
    return out

def argv(job, jobs=1):
    a = ['refactor-paths', job['from'], job['to']]
    for d in job['dirs']: a += ['-t', d]
    if job.get('type'): a += ['-r', job['type']]
    if job.get('nomove'): a += ['-N']
    if job.get('filter'): a += ['-f', job['filter']]
    return a + ['-j', str(jobs)]

def reference(runner, files, job): return runner.ref(files, argv(job))

def plan(files, job):
    """[(old tag, new tag)] with internal paths, or None if the request must be refused."""
    frm, to = job['from'].replace('/', '\\'), job['to'].replace('/', '\\')
    if frm == to: return []
    tags = [(p.replace('/', '\\'), g) for p, g in batch.all_tags(files, job['dirs'])]
    have = set(tags)
    out = []; seen = set()
    for p, g in tags:
        if not batch.wild(job.get('filter', '*').replace('/', '\\'), p + '.' + g): continue
        if frm not in p: continue
        if job.get('type') == 'all': n = p.replace(frm, to)
        elif p.startswith(frm): n = to + p[len(frm):]
        else: continue
        n = valid_path(n)
        if n is None: return None
        if job.get('nomove'):
            if (n, g) not in have: return None
        elif (n, g) in have or (n, g) in seen: return None
        seen.add((n, g)); out.append(((p, g), (n, g)))
    return out or None

_rw = {}
def rewrite(b, ren):
    """Tag file with every reference to a moved tag changed; None if the file is no valid tag; unchanged bytes if nothing to change."""
    k = (b, tuple(sorted(ren.items())))
    if k in _rw: return _rw[k]
    if len(_rw) > 2000: _rw.clear()
    try: g, t = tc.parse(b)
    except Exception: _rw[k] = None; return None
    ch = False
    for r in tc.refs(t):
        n = ren.get((r.path, r.group)) if r.path else None
        if n and n != (r.path, r.group): r.path, r.group = n; ch = True
    _rw[k] = tc.serialize(g, t) if ch else b
    return _rw[k]

def can_refer(g):
    return _refgroups(g)
_rg = {}
def _refgroups(g):
    if g not in _rg:
        out = set()
        def walk(name, seen):
            for f in tc.OBJS[name]['fields']:
                t = f['type']
                if t == 'TagReference': out.update(tc.allowed(f['groups']))
                elif t == 'Reflexive' and f['struct'] not in seen: walk(f['struct'], seen | {f['struct']})
                elif t in tc.OBJS and tc.OBJS[t]['t'] == 'struct' and t not in seen: walk(t, seen | {t})
        walk(tc.GROUPS[g]['struct'], set())
        _rg[g] = out
    return _rg[g]

def disk(p, g): return p.replace('\\', '/') + '.' + g

def model(files, job):
    """Files (no directories) after a successful move, or None if it must be refused."""
    pl = plan(files, job)
    if pl is None: return None
    ren = dict(pl)
    out = {f: b for f, b in files.items() if b is not None}
    if not job.get('nomove'):
        moved = {}
        for (p, g), (n, h) in pl:
            d = batch.where(files, job['dirs'], p.replace('\\', '/'), g).partition('/')[0]
            moved[d + '/' + disk(n, h)] = out.pop(d + '/' + disk(p, g))
        out.update(moved)
    # references: in the copy of each tag that is visible
    for p, g in batch.all_tags(out, job['dirs']):
        f = batch.where(out, job['dirs'], p, g)
        n = rewrite(out[f], ren)
        if n is not None: out[f] = n
    return out

def acceptable(files, job):
    """tag file -> complete versions it may have at any time during the move."""
    pl = plan(files, job) or []
    ren = dict(pl)
    ok = {}
    for f, b in files.items():
        if b is None: continue
        d, _, rel = f.partition('/')
        vs = {b}
        n = rewrite(b, ren)
        if n is not None: vs.add(n)
        ok.setdefault(f, set()).update(vs)
        stem, _, g = rel.rpartition('.')
        t = (stem.replace('/', '\\'), g)
        if d in job['dirs'] and t in ren and not job.get('nomove') and batch.where(files, job['dirs'], stem, g) == f:
            ok.setdefault(d + '/' + disk(*ren[t]), set()).update(vs)
    return ok

REFY = ['weapon', 'scenario', 'tag_collection', 'shader_model', 'gbxmodel', 'effect', 'biped', 'item_collection', 'ui_widget_collection', 'sound_looping', 'weapon_hud_interface',
        'particle', 'object', 'globals', 'actor_variant', 'projectile', 'bitmap', 'sound', 'unicode_string_list', 'string_list', 'damage_effect', 'model_animations']
REFY = [g for g in REFY if g in tc.GROUPS]

PAIRS = [('a/', 'z/'), ('a/', 'a/b/'), ('a', 'ab'), ('weapons/', 'guns/x/'), ('weapons/', 'a/'), ('a/b/', 'a/'), ('levels/test/', 'levels/prod/'), ('c d/', 'e f/'), ('t', 'u'),
         ('x', 'dir/x'), ('a/b/', 'q/w/e/'), ('b', 'bb'), ('levels/', 'l/'), ('pistol', 'rifle'), ('my tag', 'm'), ('a/a/', 'a/b/'), ('v2', 'w/v2')]

SHORTER = [('a/a/', 'a/'), ('a/b/', 'a/'), ('aa', 'a'), ('tt', 't'), ('bb', 'b')]
def gen_nomove(rng, n=None):
    """References are redirected to tags that exist already."""
    w = batch.gen_tags(rng, n or rng.choice([2, 3, 4, 6, 8]), REFY, rng.choice([1, 1, 2]), 0.1, shadow=0.15, budget=8)
    job = {'dirs': w.dirs, 'nomove': 1}
    tags = batch.all_tags(w.files, w.dirs)
    if rng.random() < 0.5:
        job['from'], job['to'] = rng.choice(SHORTER)
        # chains: one renamed path becomes another
        g = rng.choice(REFY); s = rng.choice(['x', 'q', 'tag'])
        for i in range(rng.choice([2, 3, 4])):
            p = (job['from'][:len(job['from']) - len(job['to'])] if job['from'].endswith(job['to']) else job['from']) * i
            w.files['%s/%s%s.%s' % (rng.choice(w.dirs), p + job['to'], s, g)] = tc.build(g, rng, lambda al: None, 0.1, 3)
    else:
        for _ in range(20):
            if rng.random() < 0.6: job['from'], job['to'] = rng.choice(PAIRS)
            else:
                p, g = rng.choice(tags); job['from'] = p; job['to'] = rng.choice(tags)[0]
            if job['from'] != job['to'] and any(p.startswith(job['from']) for p, g in tags): break
    if rng.random() < 0.3: job['type'] = 'all'
    if rng.random() < 0.15: job['filter'] = batch.gen_filter(rng, tags)
    # the paths that the references are to name
    missing = rng.random() < 0.15
    for _ in range(3):
        frm, to = job['from'].replace('/', '\\'), job['to'].replace('/', '\\')
        have = set(batch.all_tags(w.files, w.dirs))
        for p, g in sorted(have):
            q = p.replace('/', '\\')
            if frm not in q or (job.get('type') != 'all' and not q.startswith(frm)): continue
            n = valid_path(q.replace(frm, to) if job.get('type') == 'all' else to + q[len(frm):])
            if n and not n.startswith('\\') and n and (n.replace('\\', '/'), g) not in have and not missing and len(n) < 60 and n.rpartition('\\')[2]:
                w.files['%s/%s' % (rng.choice(w.dirs), disk(n, g))] = tc.build(g, rng, lambda al: None, 0.1, 3)
        if plan(w.files, job): break
    relink(rng, w.files, job, [t for t, _ in plan(w.files, job) or []] or [(p.replace('/', '\\'), g) for p, g in tags])
    return w.files, job

def relink(rng, files, job, targets):
    """Makes references to the given tags likely."""
    for f in list(files):
        if files[f] is None or rng.random() < 0.4: continue
        g = f.rpartition('.')[2]
        if g not in tc.GROUPS: continue
        ok = [t for t in targets if t[1] in can_refer(g)]
        if not ok: continue
        def pick(al):
            c = [t for t in ok if t[1] in al]
            if c and rng.random() < 0.8: t = rng.choice(c); return t[1], t[0]
            return None
        files[f] = tc.build(g, rng, pick, 0.2, 8)

def unhide(files, job):
    # a moved tag that is hidden in a lower folder would reappear there: not these properties' business
    for (p, g), _ in plan(files, job) or []:
        fs = [f for f in ('%s/%s' % (d, disk(p, g)) for d in job['dirs']) if files.get(f) is not None]
        for f in fs[1:]: del files[f]
    for d in job['dirs']:
        if not any(f.startswith(d + '/') for f in files): files[d] = None

def gen_move(rng, n=None, dirs=None, bad=0.0):
    dirs = dirs or rng.choice([1, 1, 2, 3])
    n = n or rng.choice([2, 3, 4, 6, 8, 10, 14])
    w = batch.gen_tags(rng, n, REFY if rng.random() < .9 else None, dirs, rng.choice([0.05, 0.3]), refp=rng.choice([0.3, 0.8, 1.0]), shadow=0.15, missing=0.05, budget=8)
    job = {'dirs': w.dirs}
    tags = batch.all_tags(w.files, w.dirs)
    for _ in range(20):
        if rng.random() < 0.6: job['from'], job['to'] = rng.choice(PAIRS)
        else:
            p, g = rng.choice(tags)
            if '/' in p and rng.random() < 0.7: job['from'] = p.rpartition('/')[0] + '/'; job['to'] = rng.choice(['new/', 'n/m/', job['from'] + 'sub/', 'a/', ''])
            else: job['from'] = p; job['to'] = rng.choice([p + 'x', 'n/' + p, 'x' + p, 'deep/er/' + p])
        if rng.random() < 0.3: job['from'] = job['from'].replace('/', '\\'); job['to'] = job['to'].replace('/', '\\')
        job.pop('type', None); job.pop('filter', None)
        if rng.random() < 0.3: job['type'] = 'all'
        if rng.random() < 0.15: job['filter'] = batch.gen_filter(rng, tags)
        pl = plan(w.files, job)
        if pl: break
    if pl:
        unhide(w.files, job)
        relink(rng, w.files, job, [t for t, _ in pl])
    if bad and rng.random() < bad and pl:
        # the destination of one tag exists already, or two tags collide
        if rng.random() < .5:
            job['type'] = 'all'; job.pop('filter', None)
            frm, to, g = job['from'].replace('\\', '/'), job['to'].replace('\\', '/'), rng.choice(pl)[0][1]
            for x in rng.sample([frm + to, to + frm, frm + frm], rng.choice([2, 2, 3])):
                n = valid_path(x + 'same')
                if n: w.files.setdefault('%s/%s' % (rng.choice(w.dirs), disk(n, g)), tc.build(g, rng, lambda al: None, 0.1, 3))
            unhide(w.files, job)
            return w.files, job
        (p, g), (q, h) = rng.choice(pl)
        w.files['%s/%s' % (rng.choice(w.dirs), disk(q, h))] = tc.build(h, rng, lambda al: None, 0.1, 3)
        unhide(w.files, job)
    for d in w.dirs:
        if not any(f.startswith(d + '/') for f in w.files): w.files[d] = None
    return w.files, job
