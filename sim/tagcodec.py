"""Independent model of the tag file format (written from the published layout, sharing no code with the repository).

A tag is a tree of structs; `build` makes random canonical tags, `parse` and `serialize` convert to and from files,
`refs` walks the tag references. The oracles use it to know what a file refers to and what a rewritten file must be."""
import json, os, struct, zlib

_D = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'defs.json')))
OBJS, GROUPS, FOURCC = _D['objs'], _D['groups'], _D['fourcc']
FCC_NAME = {v: k for k, v in FOURCC.items()}
FCC_NAME[0] = FCC_NAME[0xFFFFFFFF] = '<unset>'

PRIM = {'float': 4, 'Angle': 4, 'uint32': 4, 'int32': 4, 'Address': 4, 'ColorARGBInt': 4, 'ID': 4, 'TagID': 4,
        'CompressedVector2D': 4, 'CompressedVector3D': 4, 'uint16': 2, 'int16': 2, 'Index': 2, 'CompressedFloat': 2,
        'uint8': 1, 'int8': 1, 'Rectangle': 8, 'Vector2DInt': 4, 'ScenarioScriptNodeValue': 4, 'TagGroup': 4,
        'Vector2D': 8, 'Vector3D': 12, 'Plane2D': 12, 'Plane3D': 16, 'Quaternion': 16, 'Matrix3x3': 36,
        'ColorRGBFloat': 12, 'Euler2D': 8, 'Euler3D': 12, 'ColorARGBFloat': 16, 'String32': 32}
FLOATY = {'float', 'Angle', 'Vector2D', 'Vector3D', 'Plane2D', 'Plane3D', 'Quaternion', 'Matrix3x3', 'ColorRGBFloat',
          'Euler2D', 'Euler3D', 'ColorARGBFloat'}
DATA = {'Data', 'FileData', 'BSPVertexData', 'UTF16String'}

_children = {}
for _g, _v in GROUPS.items():
    _p = _v['super']
    while _p:
        _children.setdefault(_p, []).append(_g)
        _p = GROUPS[_p]['super']

def allowed(groups):
    out = []
    for g in groups:
        if g == '*':
            out += list(GROUPS)
            continue
        out.append(g)
        if g == 'model':
            out.append('gbxmodel')
        out += _children.get(g, [])
    return out

class Ref:
    __slots__ = ('group', 'path', 'allowed', 'hidden')
    def __init__(s, group, path, allowed_=(), hidden=False):
        s.group, s.path, s.allowed, s.hidden = group, path, allowed_, hidden

class Refl:
    __slots__ = ('sname', 'items')
    def __init__(s, sname, items):
        s.sname, s.items = sname, items

class Data:
    __slots__ = ('b',)
    def __init__(s, b):
        s.b = b

class St:
    __slots__ = ('name', 'f')
    def __init__(s, name, f):
        s.name, s.f = name, f

def fsize(f):
    t = f['type']
    if t == 'pad':
        return f['size']
    n = 2 if f.get('bounds') else f.get('count', 1)
    return n * tsize(t)

def tsize(t):
    if t in PRIM: return PRIM[t]
    if t == 'Reflexive': return 12
    if t == 'TagReference': return 16
    if t in DATA: return 20
    o = OBJS[t]
    return 2 if o['t'] == 'enum' else o['w'] // 8 if o['t'] == 'bits' else o['size']

for _n, _o in OBJS.items():
    if _o['t'] == 'struct':
        assert sum(map(fsize, _o['fields'])) == _o['size'], _n

# ---------------------------------------------------------------- parse / serialize (tag file format, big endian)
def _parse_struct(name, b, at, cur):
    out = []
    for f in OBJS[name]['fields']:
        t = f['type']
        if t == 'pad':
            out.append(bytes(b[at:at + f['size']])); at += f['size']; continue
        for _ in range(2 if f.get('bounds') else f.get('count', 1)):
            if t == 'TagReference':
                g, _a, ln, _i = struct.unpack('>IIII', b[at:at + 16])
                path = ''
                if ln:
                    path = bytes(b[cur[0]:cur[0] + ln]).decode()
                    if b[cur[0] + ln] != 0 or len(path) == 0: raise ValueError('bad reference')
                    cur[0] += ln + 1
                out.append(Ref(FCC_NAME[g], path, f['groups'], bool(f.get('cache_only') or f.get('exclude'))))
                at += 16
            elif t == 'Reflexive':
                n, = struct.unpack('>I', b[at:at + 4])
                at += 12
                sz = OBJS[f['struct']]['size']
                pos = cur[0]
                cur[0] += n * sz
                if cur[0] > len(b): raise ValueError('reflexive out of bounds')
                items = []
                for i in range(n):
                    items.append(_parse_struct(f['struct'], b, pos + i * sz, cur))
                out.append(Refl(f['struct'], items))
            elif t in DATA:
                n, = struct.unpack('>I', b[at:at + 4])
                at += 20
                if cur[0] + n > len(b): raise ValueError('data out of bounds')
                out.append(Data(bytes(b[cur[0]:cur[0] + n]))); cur[0] += n
            elif t in OBJS and OBJS[t]['t'] == 'struct':
                out.append(_parse_struct(t, b, at, cur)); at += OBJS[t]['size']
            else:
                s = tsize(t)
                out.append(bytes(b[at:at + s])); at += s
    return St(name, out)

def parse(file):
    if len(file) < 0x40: raise ValueError('short')
    g, crc, hs = struct.unpack('>III', file[0x24:0x30])
    ver, u255, blam = struct.unpack('>HHI', file[0x38:0x40])
    if blam != 0x626C616D or hs != 0x40 or u255 != 255: raise ValueError('header')
    body = file[0x40:]
    if crc != 0xFFFFFFFF and crc != (zlib.crc32(body) ^ 0xFFFFFFFF): raise ValueError('crc')
    name = FCC_NAME[g]
    st = GROUPS[name]['struct']
    if ver != GROUPS[name]['version']: raise ValueError('version')
    cur = [OBJS[st]['size']]
    tree = _parse_struct(st, body, 0, cur)
    if cur[0] != len(body): raise ValueError('leftover')
    return name, tree

def _ser_struct(st, buf, at):
    i = 0
    vals = st.f
    for f in OBJS[st.name]['fields']:
        t = f['type']
        if t == 'pad':
            buf[at:at + f['size']] = vals[i]; at += f['size']; i += 1; continue
        for _ in range(2 if f.get('bounds') else f.get('count', 1)):
            v = vals[i]; i += 1
            if isinstance(v, Ref):
                buf[at:at + 16] = struct.pack('>IIII', FOURCC[v.group] if v.group in FOURCC else 0, 0, len(v.path.encode()), 0xFFFFFFFF)
                at += 16
                if v.path:
                    buf += v.path.encode() + b'\0'
            elif isinstance(v, Refl):
                buf[at:at + 12] = struct.pack('>III', len(v.items), 0, 0)
                at += 12
                sz = OBJS[v.sname]['size']
                pos = len(buf)
                buf += bytes(sz * len(v.items))
                for k, x in enumerate(v.items):
                    _ser_struct(x, buf, pos + k * sz)
            elif isinstance(v, Data):
                buf[at:at + 20] = struct.pack('>IIIII', len(v.b), 0, 0, 0, 0)
                at += 20
                buf += v.b
            elif isinstance(v, St):
                _ser_struct(v, buf, at); at += OBJS[v.name]['size']
            else:
                buf[at:at + len(v)] = v; at += len(v)

def header(group, body, crc=None):
    h = bytearray(0x40)
    h[0x24:0x28] = struct.pack('>I', FOURCC[group])
    h[0x28:0x2C] = struct.pack('>I', (zlib.crc32(body) ^ 0xFFFFFFFF) if crc is None else crc)
    h[0x2C:0x30] = struct.pack('>I', 0x40)
    h[0x38:0x3A] = struct.pack('>H', GROUPS[group]['version'])
    h[0x3A:0x3C] = struct.pack('>H', 255)
    h[0x3C:0x40] = b'blam'
    return bytes(h)

def serialize(group, tree, crc=None):
    st = GROUPS[group]['struct']
    body = bytearray(OBJS[st]['size'])
    _ser_struct(tree, body, 0)
    return header(group, bytes(body), crc) + bytes(body)

def refs(tree):
    """All references of the tag in file order (hidden ones included)."""
    for v in tree.f:
        if isinstance(v, Ref): yield v
        elif isinstance(v, St): yield from refs(v)
        elif isinstance(v, Refl):
            for x in v.items: yield from refs(x)

def set_refs(file):
    """(group, path) of every set, visible reference in a tag file."""
    _, t = parse(file)
    return [(r.group, r.path) for r in refs(t) if r.path and not r.hidden]

# ---------------------------------------------------------------- random canonical tags
def _prim(t, rng, fill):
    s = tsize(t)
    if rng.random() > fill:
        return bytes(s)
    if t in FLOATY:
        return b''.join(struct.pack('>f', rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-4, 4), rng.uniform(-1e4, 1e4), 0.1, 29.97]))
                        for _ in range(s // 4))
    if t == 'String32':
        n = rng.randrange(0, 12)
        x = bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz_ 0123456789') for _ in range(n))
        return x + bytes(32 - len(x))
    if t in OBJS and OBJS[t]['t'] == 'enum':
        return struct.pack('>H', rng.choice([i for i in range(OBJS[t]['n']) if i not in OBJS[t]['ex']] or [0]))
    if t in OBJS and OBJS[t]['t'] == 'bits':
        o = OBJS[t]
        v = 0
        for i in range(min(o['n'], o['w'])):
            if i not in o['co'] and rng.random() < 0.3:
                v |= 1 << i
        return v.to_bytes(s, 'big')
    if t == 'TagGroup':
        return struct.pack('>I', FOURCC[rng.choice(sorted(GROUPS))])
    return bytes(rng.randrange(256) for _ in range(s))

def build_struct(name, rng, pick, fill=0.5, depth=0, budget=None, reflp=0.7):
    """`pick(groups)` returns (group, path) or None for a null reference."""
    out = []
    for f in OBJS[name]['fields']:
        t = f['type']
        if t == 'pad':
            out.append(bytes(f['size'])); continue
        dead = f.get('cache_only') or f.get('exclude')
        for _ in range(2 if f.get('bounds') else f.get('count', 1)):
            if t == 'TagReference':
                al = allowed(f['groups'])
                r = None if dead else pick(al)
                out.append(Ref(r[0], r[1], f['groups']) if r else Ref(al[0] if f['groups'][0] != '*' else 'bitmap', '', f['groups'], bool(dead)))
            elif t == 'Reflexive':
                items = []
                if not dead and budget[0] > 0 and rng.random() < reflp / (1 + depth):
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        if budget[0] <= 0: break
                        budget[0] -= 1
                        items.append(build_struct(f['struct'], rng, pick, fill, depth + 1, budget, reflp))
                out.append(Refl(f['struct'], items))
            elif t in DATA:
                if dead or rng.random() > fill * 0.5: out.append(Data(b''))
                elif t == 'UTF16String': out.append(Data((''.join(rng.choice('abcdeé ') for _ in range(rng.randrange(0, 12))) + '\0').encode('utf-16-le')))
                else: out.append(Data(bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40)))))
            elif t in OBJS and OBJS[t]['t'] == 'struct':
                out.append(build_struct(t, rng, pick, 0 if dead else fill, depth, budget if not dead else [0], reflp))
            elif dead:
                out.append(bytes(tsize(t)))
            else:
                v = _prim(t, rng, fill)
                out.append(v[::-1] if f.get('little_endian') and t in OBJS else v)
    return St(name, out)

def build(group, rng, pick=lambda a: None, fill=0.5, budget=12, reflp=0.7, crc=None):
    tree = build_struct(GROUPS[group]['struct'], rng, pick, fill, 0, [budget], reflp)
    return serialize(group, tree, crc)

# ---------------------------------------------------------------- fields by name
def slot(st, name):
    """(struct value, index) of the field with this name (searching inherited structs)."""
    i = 0
    for f in OBJS[st.name]['fields']:
        n = 1 if f['type'] == 'pad' else 2 if f.get('bounds') else f.get('count', 1)
        if f.get('name') == name and f['type'] != 'pad': return st, i
        if f.get('name') == '' and f['type'] in OBJS and OBJS[f['type']]['t'] == 'struct':
            r = slot(st.f[i], name)
            if r: return r
        i += n
    return None

def get(st, name):
    s, i = slot(st, name)
    return s.f[i]

def put(st, name, v):
    s, i = slot(st, name)
    s.f[i] = v

def empty(group): return build_struct(GROUPS[group]['struct'], _Zero(), lambda a: None, 0, 0, [0], 0)
class _Zero:
    def random(self): return 1.0
    def choice(self, x): return x[0]
    def randrange(self, *a): return a[0] if len(a) > 1 else 0

# ---------------------------------------------------------------- small changes
def slots(st, out=None):
    """(struct value, index, field definition) of every field of the tree that a tool can see."""
    if out is None: out = []
    i = 0
    for f in OBJS[st.name]['fields']:
        n = 1 if f['type'] == 'pad' else 2 if f.get('bounds') else f.get('count', 1)
        dead = f['type'] == 'pad' or f.get('cache_only') or f.get('exclude')
        for _ in range(n):
            v = st.f[i]
            if not dead:
                if isinstance(v, St): slots(v, out)
                else:
                    out.append((st, i, f))
                    if isinstance(v, Refl):
                        for x in v.items: slots(x, out)
            i += 1
    return out

def mutate(file, rng, pick=lambda al: None, only=None):
    """(changed file, kind of the changed field) with one field of the tag changed; None if that did not work out."""
    g, t = parse(file)
    cand = slots(t)
    if only: cand = [c for c in cand if only(c)]
    if not cand: return None
    if rng.random() < .6:       # rare kinds of values as often as common ones
        kind = rng.choice(sorted({c[2]['type'] for c in cand})); cand = [c for c in cand if c[2]['type'] == kind]
    s, i, f = rng.choice(cand); v = s.f[i]
    if isinstance(v, Ref):
        al = allowed(f['groups'])
        if rng.random() < .3 and len(al) > 1: r = rng.choice([x for x in al if x != v.group] or al), v.path     # only the group
        else: r = pick(al) or (v.group, (v.path or 'a\\b') + 'x')
        s.f[i] = Ref(r[0], r[1], v.allowed, v.hidden); kind = 'reference'
    elif isinstance(v, Refl):
        if rng.random() < .5 and v.items: v.items.pop()
        elif len(v.items) < 2: v.items.append(build_struct(f['struct'], rng, lambda al: None, .5, 1, [0], 0))
        else: return None
        kind = 'length'
    elif isinstance(v, Data):
        b = v.b
        if f['type'] == 'UTF16String': return None
        s.f[i] = Data(b + b'\1' if rng.random() < .5 or not b else bytes([b[0] ^ 1]) + b[1:]); kind = 'data'
    else:
        x = _prim(f['type'], rng, 1); kind = f['type']
        if kind in FLOATY and len(x) > 4 and rng.random() < .7:      # only one of its numbers
            k = rng.randrange(0, len(x), 4); x = v[:k] + x[k:k + 4] + v[k + 4:]
        s.f[i] = x
    new = serialize(g, t)
    return None if new == file else (new, kind)

BULK = {'processed pixel data', 'pixels', 'text data', 'editor scenario data', 'cluster data', 'sound pas data', 'samples', 'mouth data'}
def grow(st, rng, size):
    """Makes one of the tag's stretches of opaque data large, if it has one."""
    c = [(s, i) for s, i, f in slots(st) if isinstance(s.f[i], Data) and f.get('name') in BULK]
    if not c: return False
    s, i = rng.choice(c)
    b = bytes(rng.randrange(256) for _ in range(251))
    s.f[i] = Data((b * (size // 251 + 1))[:size])
    return True
