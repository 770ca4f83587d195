"""Makes random tags make sense to the tools that look at what is in them (indices that exist, counts that fit the data, values near round ones)."""
import struct
import tagcodec as tc
from tagcodec import Data, Refl

B16 = lambda v: struct.pack('>H', v & 0xFFFF)
F = lambda v: struct.pack('>f', v)

def blank(name): return tc.build_struct(name, tc._Zero(), lambda a: None, 0, 0, [0], 0)
def some(refl, rng, counts):
    for _ in range(rng.choice(counts) - len(refl.items)): refl.items.append(blank(refl.sname))
    return refl.items
def index(rng, n, none=.3): return B16(0xFFFF) if not n or rng.random() < none else B16(rng.randrange(n))
def unit(rng, k):
    v = [rng.uniform(-1, 1) for _ in range(k)]; l = sum(x * x for x in v) ** .5 or 1
    if rng.random() < .5: l = l / rng.choice([1, 1.0005, 1.02, 3, .4])       # not quite, or not at all, of length one
    return b''.join(F(x / l) for x in v)
def name(rng, s): return s.encode().ljust(32, b'\0')

def put(t, n, v):
    """Sets a field, unless tools drop it from tag files anyway."""
    s, i = tc.slot(t, n)
    f = next(f for f in tc.OBJS[s.name]['fields'] if f.get('name') == n)
    if not (f.get('cache_only') or f.get('exclude')): s.f[i] = v

def has(t, n): return tc.slot(t, n) is not None

def model(t, rng, gbx):
    nodes = some(tc.get(t, 'nodes'), rng, [1, 2, 3]); n = len(nodes)
    shaders = len(some(tc.get(t, 'shaders'), rng, [0, 1, 2]))
    geos = some(tc.get(t, 'geometries'), rng, [1, 1, 2])
    for x in nodes:
        for f in ('next sibling node index', 'first child node index', 'parent node index'): put(x, f, index(rng, n))
        put(x, 'default rotation', unit(rng, 4))
    spots = []
    for i, r in enumerate(some(tc.get(t, 'regions'), rng, [1, 1, 2])):
        for j, p in enumerate(some(tc.get(r, 'permutations'), rng, [1, 2])):
            spots.append((i, j))
            for f in ('super low', 'low', 'medium', 'high', 'super high'): put(p, f, index(rng, len(geos)))
            for m in tc.get(p, 'markers').items: put(m, 'node index', index(rng, n)); put(m, 'rotation', unit(rng, 4))
    rt = tc.get(t, 'runtime markers'); rt.items.clear()
    for k in range(rng.choice([0, 1, 2])):
        m = blank('ModelMarker'); put(m, 'name', name(rng, 'marker %d' % k))
        for _ in range(rng.choice([0, 1, 1, 2])):
            x = blank('ModelMarkerInstance'); a, b = rng.choice(spots)
            for f, v in (('region index', a), ('permutation index', b), ('node index', rng.randrange(n))): put(x, f, bytes([v]))
            put(x, 'rotation', unit(rng, 4)); tc.get(m, 'instances').items.append(x)
        rt.items.append(m)
    local = gbx and rng.random() < .3
    if gbx:
        fl = bytearray(tc.get(t, 'flags')); fl[-1] = fl[-1] & ~2 | (2 if local else 0); put(t, 'flags', bytes(fl))
    for g in geos:
        for p in some(tc.get(g, 'parts'), rng, [1, 1, 2]):
            put(p, 'shader index', index(rng, shaders, 0))
            if not shaders: tc.get(g, 'parts').items.clear(); break
            for f in ('centroid primary node', 'centroid secondary node'): put(p, f, index(rng, n))
            m = n
            fl = bytearray(tc.get(p, 'flags')); fl[-1] = fl[-1] & ~2 | (2 if local and rng.random() < .95 else 0); put(p, 'flags', bytes(fl))
            if local:
                c = rng.randrange(1, n + 1); m = c
                s, i = tc.slot(p, 'local node indices')
                for k, v in enumerate(rng.sample(range(n), c)): s.f[i + k] = bytes([v])
                put(p, 'local node count', bytes([c]))
            us = tc.get(p, 'uncompressed vertices'); cs = tc.get(p, 'compressed vertices'); which = rng.choice(['u', 'u', 'uc', 'c', ''])
            us.items.clear(); cs.items.clear()
            for _ in range(rng.choice([1, 3])):
                if 'u' in which:
                    v = blank(us.sname); us.items.append(v)
                    for f in ('normal', 'binormal', 'tangent'): put(v, f, unit(rng, 3))
                    put(v, 'position', b''.join(F(rng.uniform(-9, 9)) for _ in range(3))); put(v, 'texture coords', F(rng.uniform(-1, 1)) + F(rng.uniform(-1, 1)))
                    put(v, 'node0 index', index(rng, m, .1)); put(v, 'node1 index', index(rng, m, .5))
                    w = rng.choice([1.0, .5, .25, .3]); put(v, 'node0 weight', F(w)); put(v, 'node1 weight', F(1 - w))
                if 'c' in which:
                    v = blank(cs.sname); cs.items.append(v)
                    for f in ('normal', 'binormal', 'tangent'): put(v, f, struct.pack('>I', rng.getrandbits(32)))
                    for f in ('node0 index', 'node1 index'): put(v, f, bytes([rng.randrange(m) * 3 if rng.random() < .8 else 253]))

def bsp(t, rng):
    for lm in some(tc.get(t, 'lightmaps'), rng, [0, 1, 2]):
        for m in some(tc.get(lm, 'materials'), rng, [1, 2]):
            a, b = rng.choice([(1, 0), (1, 1), (3, 0), (3, 3)])
            full = b''.join(b''.join(struct.pack('<f', rng.uniform(-9, 9)) for _ in range(3)) + unit(rng, 3)[::-1] + b''.join(struct.pack('<f', rng.uniform(-1, 1)) for _ in range(8)) for _ in range(a))
            full += b''.join(struct.pack('<f', rng.uniform(-1, 1)) for _ in range(5 * b))
            small = rng.randbytes(32 * a + 8 * b); which = rng.choice(['u', 'uc', 'uc', 'c'])
            put(m, 'uncompressed vertices', Data(full if 'u' in which else b'')); put(m, 'compressed vertices', Data(small if 'c' in which else b''))
            for f, n in (('rendered vertices', a), ('lightmap vertices', b)): put(tc.get(m, f), 'vertex count', struct.pack('>I', n))

NEAR = [1, 10, .1, .25, .01, 33.3333, 7.5, 30, -1, .5, 100, .0100098, 1234.5, 99999.95, 1 / 3]
def near(rng): return F(rng.choice(NEAR) * rng.choice([1, 1 + 3e-8, 1 - 5e-8, 1 + 3e-7, 1 - 3e-7, 1 + rng.uniform(0, 1e-5)]))

def change_colors(t, rng):
    for cc in some(tc.get(t, 'change colors'), rng, [0, 1, 1, 2]):
        ps = some(tc.get(cc, 'permutations'), rng, [0, 1, 2, 3])
        even = rng.random() < .5
        for p in ps: put(p, 'weight', F((1 / len(ps)) * rng.choice([1, 1, 1.0004, .9996]) if even else rng.choice([0, .1, .25, 1 / 3, .5, 1, 1])))

def sound(t, rng):
    t_ch = rng.randrange(2)
    for r in some(tc.get(t, 'pitch ranges'), rng, [0, 1, 1, 2]):
        ps = some(tc.get(r, 'permutations'), rng, [0, 1, 2, 3])
        for k, p in enumerate(ps):
            put(p, 'format', B16(rng.choice([0, 0, 1, 1])))
            n = 36 * (1 + t_ch) * rng.choice([0, 1, 2]) if tc.get(p, 'format') == B16(1) else 2 * (1 + t_ch) * rng.choice([0, 1, 5])
            put(p, 'samples', Data(rng.randbytes(n))); put(p, 'buffer size', struct.pack('>I', rng.choice([n, n, 0, 7])))
            put(p, 'next permutation index', index(rng, len(ps), .5))
        put(r, 'actual permutation count', B16(rng.choice([0, len(ps), 1])))
    put(t, 'channel count', B16(t_ch)); put(t, 'maximum bend rate', near(rng))

def make(group, t, rng):
    if group in ('model', 'gbxmodel'): model(t, rng, group == 'gbxmodel')
    elif group == 'scenario_structure_bsp': bsp(t, rng)
    elif group == 'sound': sound(t, rng)
    elif group == 'unicode_string_list':
        for x in some(tc.get(t, 'strings'), rng, [0, 1, 3]):
            s = rng.choice(['', 'abc', 'long ' * 9, '\U0001F600 x', 'é\r\nz']).encode('utf-16-le') + b'\0\0'
            if rng.random() < .3: k = rng.randrange(0, len(s) - 1, 2); s = s[:k] + rng.choice([b'\x00\xd8', b'\x00\xdc', b'\xff\xff']) + s[k + 2:]
            if rng.random() < .1: s = s[:-1]
            put(x, 'string', Data(s))
    elif has(t, 'change colors'): change_colors(t, rng)
    elif group in ('actor_variant', 'continuous_damage_effect', 'damage_effect', 'point_physics', 'light', 'projectile', 'scenario'): pass
    else: return t
    for n in ('wobble period', 'air friction', 'water friction', 'minimum velocity', 'initial velocity', 'final velocity', 'duration', 'grenade velocity'):
        for st, i, f in tc.slots(t):
            if f.get('name') == n and f['type'] == 'float': st.f[i] = near(rng)
    return t
