"""P17: dependency answers are exact and reproducible."""
import batch, graph, tagcodec as tc
from batch import V, sched_conf
import p24

rule = ('a case is one dependency question (direct, recursive or reverse list, dependency tree, tags of a scenario) put to a generated tree of tags that refer to each other, with cycles, duplicate, dangling and shadowed references, '
        'a random listing order and hash seed, and sometimes a tag that is damaged or whose open or read fails, or short and interrupted reads; the answer is compared with the one computed from the tag files by an independent reader; '
        'non-trivial: the answer names at least two tags or must be a failure')
assumptions = ['a folder that cannot be listed hides its tags from the reverse list and from wildcards (the tool has no way of reporting this)', 'the order of the root tags of a dependency tree follows the listing order and is not judged']

KINDS = ['list', 'list-r', 'list-R', 'tree', 'tree', 'map']

def gen(rng):
    kind = rng.choice(KINDS)
    if kind == 'map':
        eng = rng.choice(sorted(graph.ENGINES)); w, root, st = graph.gen_map_world(rng, eng, n=rng.choice([2, 4, 8]), p=rng.choice([0.1, 0.4, 0.8]))
        q = {'kind': kind, 'engine': eng, 'root': list(root), 'dirs': w.dirs}
        if rng.random() < .3:       # something an engine needs is missing
            need = [graph.disk(*graph.split(x)) for x in graph.ENGINES[eng]['all'] + graph.ENGINES[eng].get(st, [])]
            n = rng.choice(need)
            for f in list(w.files):
                if f.endswith('/' + n): del w.files[f]
        return w.files, q
    w = graph.gen_graph(rng)
    tags = batch.all_tags(w.files, w.dirs)
    if not tags: return None, None
    q = {'kind': kind, 'root': list(rng.choice(tags)), 'dirs': w.dirs}
    if rng.random() < 0.5: graph.connect(rng, w.files, w.dirs, rng.choice([0.3, 0.7, 1]))
    if kind == 'tree':
        if len(tags) > 8: return None, None
        q['filter'] = rng.choice(['*', '*', q['root'][0] + '.' + q['root'][1], '*.' + q['root'][1], q['root'][0][:2] + '*'])
        q['opts'] = (['-b'] if rng.random() < .4 else []) + (['-d', str(rng.choice([0, 1, 2, 3, 9]))] if rng.random() < .6 else [])
    return w.files, q

def argv(q):
    t = graph.tflags(q['dirs']); n = q['root'][0] + '.' + q['root'][1]; k = q['kind']
    if k == 'map': return ['list-scenario-tags', q['root'][0].replace('\\', '/'), '-e', q['engine']] + t
    if k == 'tree': return ['dependency-tree', q['filter']] + t + q['opts']
    return ['dependency-list', n] + {'list': [], 'list-r': ['-r'], 'list-R': ['-R']}[k] + t

def tree(files, q, unreadable, limit=4000):
    """(roots that must be shown, {root: block}) where a block is a list of (depth, line)."""
    dirs = q['dirs']
    alltags = sorted((p.replace('/', '\\'), g) for p, g in batch.matching({'verb': 'x', 'filter': q['filter'], 'dirs': dirs}, files))
    res = {}
    for t in alltags: res.update(graph.closure(files, dirs, t, True, unreadable))
    def reach(t):
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x not in res: return True
            todo += res[x]
        return False
    o = q['opts']; broken = {t for t in res if reach(t)} if '-b' in o else None
    md = int(o[o.index('-d') + 1]) if '-d' in o else 1 << 32
    budget = [limit]
    def show(t, depth, stack, out):
        budget[0] -= 1
        if budget[0] < 0: raise OverflowError
        s = graph.show(t)
        if t not in res: out.append((depth, s + ' (BROKEN)')); return
        if t in stack: out.append((depth, s + ' (circular)')); return
        if depth == md and res[t]: out.append((depth, s + ' (minimized)')); return
        out.append((depth, s))
        for d in sorted(res[t]):
            if broken is None or d in broken or d not in res: show(d, depth + 1, stack | {t}, out)
    blocks, loops = {}, {}
    shown = [t for t in alltags if broken is None or t in broken]
    for t in shown:
        inner = any(t in v for v in res.values())
        b = []; show(t, 0, frozenset(), b); (loops if inner else blocks)[graph.show(t)] = b
    below = {}
    for t in shown:
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x not in seen: seen.add(x); todo += res.get(x, ())
        below[graph.show(t)] = {graph.show(x) for x in seen}
    return blocks, loops, below

def parse_tree(lines):
    out = []
    for l in lines:
        s = l.lstrip(' │├└─'); n = len(l) - len(s)
        item = (n // 3, s)
        if n == 0: out.append([item])
        elif out: out[-1].append(item)
        else: return None
    return out

def answer(files, q, unreadable=()):
    """Expected answer: set of shown names, 'fail', or (for trees) blocks."""
    dirs = q['dirs']; root = (q['root'][0].replace('/', '\\'), q['root'][1]); k = q['kind']
    try:
        if k == 'list':
            b = graph.look(files, dirs, root)
            d = None if b is None or root in unreadable else graph.deps(b, root[1])
            if d is None: raise graph.Broken(root)
            return {graph.show(t) for t in d}
        if k == 'list-r':
            out = set()
            for v in graph.closure(files, dirs, root, unreadable=unreadable).values(): out |= v
            return {graph.show(t) for t in out}
        if k == 'list-R':
            out = set()
            for p, g in batch.all_tags(files, dirs):
                t = (p.replace('/', '\\'), g)
                if root[1] not in graph.can_refer(g): continue
                d = None if t in unreadable else graph.deps(graph.look(files, dirs, t), g)
                if d is None: raise graph.Broken(t)
                if root in d: out.add(graph.show(t))
            return out
        if k == 'map': return {graph.show(t) for t in graph.for_map(files, dirs, root, q['engine'], unreadable)}
        return tree(files, q, unreadable)
    except graph.Broken: return 'fail'

def read_faults(rng, files, dirs, tags):
    """Persistent faults on reading some tags -> (faults, unreadable)."""
    faults, un = [], set()
    for t in tags:
        f = batch.where(files, dirs, *t)
        if f is None or sum(f in g for g in files) > 1: continue
        faults.append(rng.choice(['open:0+:EACCES:1:', 'open:0+:EIO:1:', 'read:0+:EIO:1:', 'read:0+:eof:1:', 'open:0+:EMFILE:1:']) + f)
        un.add((t[0].replace('/', '\\'), t[1]))
    return faults, un

def fleeting(rng):
    """Something cannot be read now, but could be later."""
    return ['%s:%d:%s:0:%s' % (rng.choice(['open', 'read']), rng.choice([0, 1, 2, 3, 5, 8, 13, 25]), rng.choice(['EIO', 'EACCES', 'EMFILE']), rng.choice(['tags', 'tags', 'tags/', 'tags2']))]

def cases(rng, runner, tier, k):
    files, q = gen(rng)
    if not files: return
    tags = batch.all_tags(files, q['dirs'])
    for _ in range(4 if tier == 'quick' else 12):
        f2 = dict(files); faults = []; un = set()
        r = rng.random()
        if r < 0.3:
            faults, un = read_faults(rng, f2, q['dirs'], rng.sample(tags, min(len(tags), rng.choice([1, 1, 2]))))
        elif r < 0.45:
            f = batch.where(f2, q['dirs'], *rng.choice(tags))
            if f2.get(f): f2[f] = p24.damage(rng, f2[f])[0]
        elif r < 0.6:
            for _ in range(rng.choice([1, 3])): faults.append('read:%d+:%s:%d:tags' % (rng.randrange(6), *rng.choice([('short', rng.choice([1, 300, 999])), ('EINTR', 1)])) if rng.random() < .7 else 'read:%d:EINTR:1:tags' % rng.randrange(30))
            faults = [x for x in faults if 'EINTR' not in x or '+' not in x]
        elif r < 0.75 and q['kind'] != 'tree': faults = fleeting(rng)
        conf = sched_conf(rng)
        if faults: conf['faults'] = faults
        yield {'files': f2, 'q': q, 'conf': conf, 'un': sorted(map(list, un))}

def judge(case, runner):
    files, q = case['files'], case['q']
    runner.judged = None
    un = {tuple(x) for x in case['un']}
    if {f.split(':', 4)[4] for f in case['conf'].get('faults', []) if ':tags' in f and f.split(':', 4)[4] != 'tags'} != {batch.where(files, q['dirs'], a.replace('\\', '/'), b) for a, b in un}: return []
    if batch.where(files, q['dirs'], q['root'][0].replace('\\', '/'), q['root'][1]) is None: return []
    try: want = answer(files, q, un)
    except OverflowError: return []
    run = runner.run(files, argv(q), case['conf'])
    runner.judged = run; runner.tags = [q['kind'], 'fail' if want == 'fail' else 'answer']
    if run.how != 'exit': return [V('ended-' + run.how, 'run ended with %s: %s' % (run.how, run.err.decode('utf-8', 'replace').strip()[-300:]))]
    lines = run.lines()
    runner.nontrivial = want == 'fail' or len(want[2] if isinstance(want, tuple) else want) > 1
    if run.rc != 0 and want != 'fail' and any(f[3] and f[1] not in ('short', 'EINTR') for f in run.faults_fired()) and not un:
        runner.tags.append('fleeting')
        if lines and any(batch.is_tag(l) and l in {graph.show((p.replace('/', '\\'), g)) for p, g in batch.all_tags(files, q['dirs'])} for l in lines): return [V('short-answer', 'an answer is printed before failing: %r' % lines[:5])]
        return [] if run.err.strip() or lines else [V('silent', 'fails without saying why')]
    if want == 'fail':
        if run.rc == 0: return [V('short-answer', '%s succeeds with %d lines although a needed tag cannot be read' % (' '.join(run.argv[:2]), len(lines)))]
        if any(batch.is_tag(l) and l in {graph.show((p.replace('/', '\\'), g)) for p, g in batch.all_tags(files, q['dirs'])} for l in lines): return [V('short-answer', 'an answer is printed before failing: %r' % lines[:5])]
        if not (run.err.strip() or lines): return [V('silent', 'fails without saying why')]
        return []
    if run.rc != 0: return [V('refused', 'fails although everything needed can be read: %s' % (run.err.decode('utf-8', 'replace').strip()[-300:] or lines))]
    if q['kind'] == 'tree':
        got = parse_tree(lines)
        if got is None: return [V('tree', 'not a tree: %r' % lines[:5])]
        roots = [b[0][1].replace(' (minimized)', '').replace(' (BROKEN)', '') for b in got]
        if len(set(roots)) != len(roots): return [V('tree-root-twice', 'a root is shown twice: %r' % roots)]
        g = dict(zip(roots, got))
        roots, loops, below = want
        for r in roots:
            if r not in g: return [V('tree-root-missing', 'nothing refers to %s, but it is not shown as a root' % r)]
        for r in g:
            if r not in roots and r not in loops: return [V('tree-root-extra', '%s is shown as a root' % r)]
            if g[r] != roots.get(r, loops.get(r)): return [V('tree', 'tree of %s is %r, expected %r' % (r, g[r][:12], roots.get(r, loops.get(r))[:12]))]
            if r in loops and any(r in below[x] for x in g if x != r): return [V('tree-root-extra', '%s is shown as a root, but also below another one' % r)]
        for r in below:
            if not any(r in below[x] for x in g): return [V('tree-missing', '%s is not shown at all' % r)]
        ref = runner.ref(files, argv(q), {'seed': 99, 'dseed': 5})
        rg = parse_tree(ref.lines())
        if rg is None or not un and sorted(rg) != sorted(got): return [V('tree-order', 'which trees are shown depends on hashing or listing order')]
        return []
    if len(set(lines)) != len(lines): return [V('twice', 'a tag is listed twice: %r' % sorted(l for l in lines if lines.count(l) > 1)[:4])]
    if set(lines) != want: return [V('wrong', 'listed but not implied: %r; implied but not listed: %r' % (sorted(set(lines) - want)[:4], sorted(want - set(lines))[:4]))]
    ref = runner.ref(files, argv(q), {'seed': 99, 'dseed': 5})
    if ref.lines() != lines and not un: return [V('order', 'the order of the answer depends on hashing or listing order: %r vs %r' % (lines[:6], ref.lines()[:6]))]
    return []
