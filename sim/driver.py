"""Histories of the tag tree interfaces: scripts for simdriver, their histories with the file operations of each call, a
reference model of the trees, and a search for an order of the calls that explains the history (P11, P12, P13, P16)."""
import re
import batch, build, tagcodec as tc

def _wind(v):
    t = tc.empty('wind')
    import struct
    x = struct.pack('>f', float(v))
    for n in ('velocity', 'local variation weight', 'local variation rate', 'damping'):
        s, i = tc.slot(t, n); s.f[i] = x
        if n == 'velocity': s.f[i + 1] = x
    return tc.serialize('wind', t)
_w = {}
def wind(v):
    v = float(v)
    if v not in _w: _w[v] = _wind(v)
    return _w[v]
_back = {}
def content(b):
    """A file's contents, as the model knows it: a number, or something that is not readable."""
    if b is None: return None
    if b not in _back:
        if len(_back) > 5000: _back.clear()
        r = 'bad'
        try:
            g, t = tc.parse(b)
            import struct
            if g == 'wind':
                v = struct.unpack('>f', tc.get(t, 'damping'))[0]
                if v == int(v) and wind(v) == b: r = float(v)
        except Exception: pass
        _back[b] = r if r != 'bad' else 'bad:%d' % len(_back)
    return _back[b]

def script(case):
    l = ['tree %s%s' % (','.join(case['dirs']), ' ' + case['cow'] if case.get('cow') else ''), 'kind ' + case['kind']]
    l += case.get('before', [])
    for t in case['threads']: l += ['thread'] + t
    l += ['end'] + case.get('after', [])
    return ('\n'.join(l) + '\n').encode()

class Event:
    __slots__ = ('inv', 'res', 'thread', 'op', 'args', 'out', 'fs', 'hard', 'mut', 'opens')
    def __repr__(e): return '[%d-%d t%d] %s %s -> %s' % (e.inv, e.res, e.thread, e.op, ' '.join(e.args), e.out)

BANNED = {'aux', 'con', 'nul', 'prn'} | {x + str(n) for x in ('com', 'lpt') for n in range(10)}
def tagname_ok(rest):
    p, dot, g = rest.rpartition('.')
    return bool(dot) and g in tc.GROUPS and not any(c in ':*?"<>|\\' or ord(c) < 32 or ord(c) == 127 for c in p) and not any(x.endswith('.') or x in BANNED for x in p.split('/'))
MUT = ('creat', 'write', 'rename', 'mkdir', 'rmdir', 'unlink', 'link', 'trunc', 'chmod')
SOFT = ('EINTR', 'short')
def run(runner, case):
    """-> (run, events or None). Each event knows its own file operations, those that failed and those that change something."""
    conf = dict(case['conf']); conf['logops'] = 2
    r = runner.run(dict(case['files'], script=script(case)), ['script'], conf, binary=build.DRIVER)
    ev = {}
    done = False
    for l in r.lines():
        m = re.match(r'(\d+) (\d+) t(\d+) \| (\S+)((?: \S+)*) \| (.*)$', l)
        if m:
            e = Event(); e.inv, e.res, e.thread, e.op, e.args, e.out = int(m[1]), int(m[2]), int(m[3]), m[4], m[5].split(), m[6]
            e.fs, e.hard, e.mut, e.opens = [], [], [], []
            ev[e.inv] = e
        elif l == 'DONE': done = True
    cur = {}
    for o in r.ops():
        m = re.match(r'O (\d+) t(\d+) (\S+) (.*) = (-?\d+)(?: FAULT (\S+))?$', o)
        if not m: continue
        m2 = re.match(r'mark-(begin|end)-(\d+)-(\d+) ', m[4])
        if m2:
            if m2[1] == 'begin': cur[m[2]] = int(m2[2])
            else: cur.pop(m[2], None)
            continue
        e = ev.get(cur.get(m[2]))
        if e is None: continue
        p = m[4].rsplit(' ', 1)[0]
        e.fs.append((m[3], p, int(m[5]), m[6]))
        if m[6] and m[6] not in SOFT and int(m[5]) < 0: e.hard.append((m[3], p, m[6]))
        if m[3] in MUT: e.mut.append((m[3], p, int(m[5])))
        if m[3] == 'open' and int(m[5]) >= 0: e.opens.append(p)
    return r, ([ev[k] for k in sorted(ev)] if done else None)

# ------------------------------------------------------------------ model
# state: (files, cache, objects): files = sorted tuple of (file, content); cache = of (tag, object); objects = of (object, value).
# An object is a shared tag: a number if an answer has named it, otherwise (tag, inv) of the call that loaded it.
# Calls that open a tag and then use it have two steps, since somebody else can change the tag or the files in between.
class Model:
    def __init__(m, case):
        m.dirs, m.cow, m.kind = case['dirs'], case.get('cow'), case['kind']
        m.blocked = [f for f, b in case['files'].items() if b is not None and not m.known(f)]
        m.folders = {f for f, b in case['files'].items() if b is None} | {'/'.join(f.split('/')[:i]) for f in case['files'] for i in range(1, f.count('/') + 1)}
        m.caching = m.kind.split('-')[-1] in ('instant', 'manual')
        m.manual = m.kind.endswith('manual')
        # tags may be edited through handles while everything is being committed, so that each has its own moment in that
        m.loose = any(o.startswith('hset ') or o.startswith('bytes ') and len(case['threads']) > 1 for t in case['threads'] for o in t)   # somebody may see it half-way
        m.tags = sorted(case.get('tags_', ()))
    def initial(m, files):
        return (tuple(sorted((f, content(b)) for f, b in files.items() if b is not None and m.known(f))), (), ())
    def phases(m, e):
        if e.op == 'commitall' and m.loose: return len(m.tags)
        if not m.caching or e.op not in ('copy', 'shared', 'edit', 'incr', 'hold') or e.out.startswith('ERR '): return 1
        return 1 if e.op == 'copy' and m.kind.startswith('atomic') else 2
    @staticmethod
    def oid(e): return int(e.out.rsplit('#', 1)[1]) if '#' in e.out else None
    def named(m, cache, objs, tag, o):
        """The cached object of the tag turns out to be o."""
        c = dict(cache)[tag]
        if c == o: return cache, objs
        if isinstance(c, int) or o in dict(objs): return None
        v = dict(objs)[c]
        return m.put(cache, tag, o), m.put(m.put(objs, c, None), o, v)
    def fresh(m, e, cache, objs, tag, v):
        o = (tag, e.inv)
        old = dict(cache).get(tag)
        if old is not None and not isinstance(old, int): objs = m.put(objs, old, None)
        return m.put(cache, tag, o), m.put(objs, o, v)
    def known(m, f):
        """Only a file whose name can be a tag's is a tag."""
        d, _, rest = f.partition('/')
        if not _: return d.endswith('.wind')
        return (d in m.dirs or d == m.cow) and tagname_ok(rest)
    @staticmethod
    def put(t, k, v):
        d = dict(t)
        if v is None: d.pop(k, None)
        else: d[k] = v
        return tuple(sorted(d.items(), key=lambda x: repr(x[0])))
    def visible(m, files, tag):
        d = dict(files)
        for i, x in enumerate(m.dirs):
            if x + '/' + tag in d: return i, x + '/' + tag, d[x + '/' + tag]
        return None
    def cannot(m, files, tag, v, into=0):
        """Nothing can be saved below a file."""
        vis = m.visible(files, tag)
        if vis and vis[2] == v: return False
        if m.cow is None and vis: return False
        if (m.cow or m.dirs[into]) + '/' + tag in m.folders: return True
        return any(((m.cow or m.dirs[into]) + '/' + tag).startswith(b + '/') for b in m.blocked)
    def tagname(m, p):
        d, _, t = p.partition('/')
        return t if (d in m.dirs or d == m.cow) and tagname_ok(t) else None
    def failing(m, e):
        """-> (tags whose save may fail because of the faults of this call, folders below which saves may fail).
        A failed operation on a temporary file belongs to the tag before or after it."""
        may, below, last, open_ = set(), set(), None, False
        for cls, p, ret, fault in e.fs:
            t = m.tagname(p.split(' -> ')[-1])
            if t:
                last = t
                if open_: may.add(t); open_ = False
            if fault and fault not in SOFT and ret < 0:
                if cls == 'mkdir': below.add('/' + p.partition('/')[2] if '/' in p else '')
                elif t: may.add(t)
                else:
                    if last: may.add(last)
                    open_ = True
        return may, below
    def save(m, files, tag, v, into=0):
        """-> (files, result)"""
        d = dict(files); vis = m.visible(files, tag)
        if vis and vis[2] == v: return files, 'false'
        if m.cow:
            f = m.cow + '/' + tag
            if d.get(f) == v: return files, 'false'
        else: f = vis[1] if vis else m.dirs[into] + '/' + tag
        return m.put(files, f, v), 'true'
    def step(m, state, e, phase=0):
        """All states this call can lead to from here, given what it answered."""
        files, cache, objs = state
        op, a, out = e.op, e.args, e.out
        err = out.startswith('ERR ')
        cached = dict(cache); value = dict(objs)
        if op in ('copy', 'shared', 'edit', 'incr', 'hold'):
            tag = a[0]; o = None if err else m.oid(e); val = out.split(' #')[0]
            if phase == 0:
                if m.caching and tag in cached:
                    if err: return []
                    if o is not None:
                        n = m.named(cache, objs, tag, o)
                        if n is None: return []
                        cache, objs = n
                else:
                    vis = m.visible(files, tag)
                    bad = vis is None or not isinstance(vis[2], float)
                    if err: return [state] if bad or e.hard else []
                    if bad: return []
                    if not m.caching: return [state] if val == fmt(vis[2]) else []
                    if o is not None:
                        if o in value: return []
                        cache, objs = m.put(cache, tag, o), m.put(objs, o, vis[2])
                    else: cache, objs = m.fresh(e, cache, objs, tag, vis[2])
                if m.phases(e) == 2: return [(files, cache, objs)]
            if o is None: o = dict(cache).get(tag)
            v = dict(objs).get(o)
            if v is None or val != fmt(v): return []
            if op == 'edit': v = float(a[1])
            elif op == 'incr': v += 1
            return [(files, cache, m.put(objs, o, v))]
        if op in ('write', 'writeto'):
            tag, v = a[0], float(a[1])
            if m.manual: return [(files,) + m.fresh(e, cache, objs, tag, v)] if out == 'true' else []
            into = int(a[2]) if op == 'writeto' else 0
            if err: return [state] if e.hard or m.cannot(files, tag, v, into) else []
            if m.cannot(files, tag, v, into): return []
            nf, r = m.save(files, tag, v, into)
            if m.caching: return [(nf,) + m.fresh(e, cache, objs, tag, v)] if out == 'true' else []
            return [(nf, cache, objs)] if out == r or e.hard and (out, r) == ('true', 'false') else []
        if op == 'commit':
            if a[0] not in cached: return [state] if err else []
            if err: return [state] if e.hard or m.cannot(files, a[0], value[cached[a[0]]]) else []
            if m.cannot(files, a[0], value[cached[a[0]]]): return []
            nf, r = m.save(files, a[0], value[cached[a[0]]])
            return [(nf, cache, objs)] if out == r or e.hard and (out, r) == ('true', 'false') else []
        if op == 'commitall':
            failed = [f.replace('\\', '/') for f in re.findall(r'\[(\S+) ERR ', out)]
            n = len(failed); failed = set(failed)
            if n != len(failed) or failed - set(cached): return []
            may, below = m.failing(e)
            for k, c in cache:
                if m.loose and k != m.tags[phase]: continue
                if k not in failed:
                    if m.cannot(files, k, value[c]): return []
                    files, _ = m.save(files, k, value[c])
                elif not (k in may or any(('/' + k).startswith(b + '/') for b in below) or m.cannot(files, k, value[c])): return []
            return [(files, cache, objs)]
        if op == 'evict':
            c = cached.get(a[0])
            if out != (fmt(value[c]) if c is not None else 'none'): return []
            if c is not None and not isinstance(c, int): objs = m.put(objs, c, None)
            return [(files, m.put(cache, a[0], None), objs)]
        if op == 'get':
            if a[0] not in cached: return [state] if out == 'none' else []
            o = m.oid(e)
            n = None if o is None else m.named(cache, objs, a[0], o)
            if n is None or out.split(' #')[0] != fmt(dict(n[1])[o]): return []
            return [(files,) + n]
        if op == 'contains': return [state] if out == ('true' if m.visible(files, a[0]) else 'false') or e.hard and out == 'true' else []
        if op == 'where':
            v = m.visible(files, a[0])
            if e.hard and out.partition(' ')[2] in {p for c, p, f in e.hard if c == 'stat'}: return [state]   # cannot tell, and does not skip it
            return [state] if out == ('%d %s' % (v[0], v[1]) if v else 'none') else []
        if op in ('list', 'walk', 'listall'):
            filt = a[0].replace('\\', '/') if a else '*'
            names = sorted({f.partition('/')[2] for f, _ in files if f.partition('/')[0] in m.dirs})
            want = [n for n in names if batch.wild(filt, n)]
            want = ' '.join(sorted((n.replace('/', '\\') for n in want), key=lambda n: (n.rpartition('.')[0])))
            got = sorted(out.split(' '))
            if e.hard: return [state] if len(set(got)) == len(got) and set(got) - {''} <= set(want.split(' ')) else []
            return [state] if got == sorted(want.split(' ')) else []
        if op == 'release': return [state]
        if op == 'hset':
            if out == 'none': return [state]
            o = m.oid(e); v = value.get(o)
            return [(files, cache, m.put(objs, o, float(a[1])))] if v is not None and out.split(' #')[0] == fmt(v) else []
        if op == 'readonly': return [state] if out == ('true' if m.manual else 'false') else []
        if op == 'rm':
            d = dict(files)
            if a[0] not in d: return [state] if err else []
            return [(m.put(files, a[0], None), cache, objs)] if out == 'ok' else []
        if op == 'mv':
            d = dict(files)
            if out != 'ok': return [state]
            if a[0] not in d: return []
            c = d[a[0]]
            return [(m.put(m.put(files, a[0], None) if m.known(a[0]) else files, a[1], c), cache, objs)]
        if op == 'bytes':
            if out == 'none': got = None
            elif err: return [state] if e.hard or any(a[0].startswith(b + '/') for b in m.blocked) or a[0] in m.folders else []
            else: got = content(bytes.fromhex(out.split(' ')[1] if ' ' in out and out.split(' ')[1] else ''))
            return [state] if dict(files).get(a[0]) == got else []
        raise ValueError(op)

def fmt(v): return '%d' % v if v == int(v) else repr(v)

def linearize(events, model, start, final=None, limit=200000):
    """Is there an order of the calls, consistent with real time, that explains every answer (and the files at the end)?
    -> (True/False/None if the search was cut short, longest explained prefix)"""
    steps = [(e, p) for e in events for p in range(model.phases(e))]
    n = len(steps)
    seen = set(); best = [0, None]; count = [0]
    full = (1 << n) - 1
    stack = [(0, start)]
    while stack:
        done, st = stack.pop()
        if (done, st) in seen: continue
        seen.add((done, st)); count[0] += 1
        if count[0] > limit: return None, best[1]
        if done == full:
            if final is None or final(st): return True, None
            continue
        todo = [i for i in range(n) if not done >> i & 1]
        end = min(steps[i][0].res for i in todo)
        k = bin(done).count('1')
        if k >= best[0]: best[0] = k; best[1] = [steps[i][0] for i in todo if steps[i][0].inv < end]
        for i in todo:
            e, p = steps[i]
            if e.inv > end or p and e.op != 'commitall' and not done >> i - 1 & 1: continue
            for s in model.step(st, e, p): stack.append((done | 1 << i, s))
    return False, best[1]

def final_files(model, run):
    got = dict((f, content(b)) for f, b in run.fs.items() if b is not None and model.known(f))
    return lambda st: dict(st[0]) == got
