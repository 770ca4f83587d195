"""Builds cache files (and the resource files beside them) out of tags: the independent model of what a map holds.

Written from the published layout of the map structures, sharing no code with the repository. `build` takes tag trees
(tagcodec) and lays them out the way the game's own tools do."""
import random, re, struct, zlib
import tagcodec as tc
from tagcodec import OBJS, GROUPS, FOURCC, St, Refl, Data, Ref

BASE = 0x40440000
NONE = 0xFFFFFFFF
ENGINES = {  # name: (cache version, build, base address, external tags, tag space)
    'pc-custom': (609, b'01.00.10.0621', 0x40440000, True, 0x1700000),
    'pc-retail': (7, b'01.00.10.0621', 0x40440000, False, 0x1700000),
    'mcc-cea': (13, b'01.03.43.0000', 0x50000000, False, 0x4000000),
    'pc-demo': (6, b'01.00.00.0578', 0x4BF10000, False, 0x1700000),
    'xbox': (5, b'01.10.12.2276', 0x803A6000, False, 0x1600000),
}
HALF = {'uint16', 'int16', 'Index', 'CompressedFloat', 'Rectangle', 'Vector2DInt'}
BYTES = {'uint8', 'int8', 'String32'}

def swap(b, n):
    return b if n == 1 else b''.join(b[i:i + n][::-1] for i in range(0, len(b), n))

def word(t):
    """Size of the words a field of this type consists of."""
    if t in BYTES: return 1
    if t in HALF: return 2
    if t in tc.PRIM: return 4
    o = OBJS[t]
    return 2 if o['t'] == 'enum' else o['w'] // 8

class Area:
    """A piece of memory with an address, to which data is added."""
    def __init__(s, base): s.base, s.b = base, bytearray()
    def take(s, n, align=4):
        while len(s.b) % align: s.b.append(0)
        at = len(s.b); s.b += bytes(n)
        return at
    def addr(s, at): return s.base + at

class Builder:
    def __init__(s, engine='pc-custom'):
        s.engine = engine
        s.version, s.build, s.base, s.indexed, s.space = ENGINES[engine]
        s.ids = {}              # (path, group) -> index
        s.raw = bytearray()     # file contents after the header
        s.tagarea = Area(s.base)
        s.verts, s.tris = bytearray(), bytearray()
        s.ext = {'bitmaps': [], 'sounds': [], 'loc': []}     # resource files: (path, data)
        s.bspvert = b''
        s.rawloc = None         # where raw data goes: None = map, 'sounds' = the resource file
        s.resfile = {'bitmaps': bytearray(16), 'sounds': bytearray(16), 'loc': bytearray(16)}
        s.big = 0x800
        s.share, s.shared, s.drawn = 0.0, 0, None       # part of the blocks of a BSP that lies in tag data instead (which a BSP's addresses also reach)

    def where(s, area):
        if s.share and area is not s.tagarea and area.base and s.drawn is not None:
            if s.drawn.random() < s.share: s.shared += 1; return s.tagarea
        return area

    def id(s, g, p):
        i = s.ids.get((p, g))
        return NONE if i is None else (0xE174 + i & 0xFFFF) << 16 | i

    # -------------------------------------------------------------- values
    def put(s, st, area, at):
        i = 0
        for f in OBJS[st.name]['fields']:
            t = f['type']
            if t == 'pad':
                area.b[at:at + f['size']] = st.f[i]; at += f['size']; i += 1; continue
            for _ in range(2 if f.get('bounds') else f.get('count', 1)):
                v = st.f[i]; i += 1
                gone = f.get('non_cached')
                if isinstance(v, Ref):
                    g = FOURCC.get(v.group, NONE)
                    path = 0
                    if v.path and not gone:
                        n = s.id(v.group, v.path)
                        path = s.pathaddr.get((v.path, v.group), 0)
                    else: n = NONE
                    area.b[at:at + 16] = struct.pack('<IIII', g, path, 0, n); at += 16
                elif isinstance(v, Refl):
                    n = 0 if gone else len(v.items)
                    a = 0
                    if n:
                        sz = OBJS[v.sname]['size']
                        to = s.where(area)
                        pos = to.take(sz * n)
                        a = to.addr(pos)
                        for k, x in enumerate(v.items): s.put(x, to, pos + k * sz)
                    area.b[at:at + 12] = struct.pack('<III', n, a, 0); at += 12
                elif isinstance(v, Data):
                    flags = off = a = 0
                    b = b'' if gone else v.b
                    if t == 'BSPVertexData' and s.engine == 'mcc-cea':      # these lie outside of the BSP
                        area.b[at:at + 20] = struct.pack('<IIIII', len(b), 0, 0, 0, 0); at += 20; continue
                    if b and t == 'FileData':
                        if s.rawloc == 'sounds':
                            flags = 1; off = len(s.resfile['sounds']); s.resfile['sounds'] += b
                        else: off = s.big + len(s.raw); s.raw += b
                    elif b:
                        to = s.where(area)
                        pos = to.take(len(b)); to.b[pos:pos + len(b)] = b; a = to.addr(pos)
                    area.b[at:at + 20] = struct.pack('<IIIII', len(b), flags, off, a, 0); at += 20
                elif isinstance(v, St):
                    if not gone: s.put(v, area, at)
                    at += OBJS[v.name]['size']
                else:
                    b = bytes(len(v)) if gone else v
                    if f.get('shifted_by_one'): b = struct.pack('>H', struct.unpack('>H', b)[0] - 1 & 0xFFFF)
                    area.b[at:at + len(v)] = swap(b, 1 if f.get('little_endian') and t in ('uint16', 'uint32') or f.get('little_endian') and t in OBJS else word(t)); at += len(v)

    # -------------------------------------------------------------- the whole map
    def make(s, tags, name='test', scenario_type=1, external=(), bsp=None, crc=True, scenario=None, pad=0, gaps=()):
        """tags: [(path, group, tree)] in order. external: indexes of tags that live in a resource file (Custom Edition).
        bsp: {index of the scenario_structure_bsp tag}. Returns {'x.map' name: bytes} of the map and its resource files."""
        # external and gaps are positions in the tag array; nothing is at a gap
        order = list(tags)
        for i in sorted(gaps): order.insert(i, (None, None, None))
        for i, (p, g, t) in enumerate(order): s.ids[(p, g)] = i
        sc = [i for i, (p, g, t) in enumerate(order) if g == 'scenario'] if scenario is None else [scenario]
        ta = s.tagarea
        hdr = ta.take(40 if s.engine != 'xbox' else 36)
        arr = ta.take(32 * len(order))
        s.pathaddr = {}
        for i, (p, g, t) in enumerate(order):
            if p is None: continue
            b = p.encode() + b'\0'
            at = ta.take(len(b), 1); ta.b[at:at + len(b)] = b
            s.pathaddr[(p, g)] = ta.addr(at)
        s.parts = 0
        bsps = []
        for i, (p, g, t) in enumerate(order):
            if g == 'scenario_structure_bsp':
                bsps.append(i)
        addrs = {}
        bspblocks = {}
        verts = {}
        for i in bsps:
            area = Area(0)
            area.take(24)
            p, g, t = order[i]
            if s.engine == 'mcc-cea':
                v = verts[i] = bytearray(b'\0' * 8)
                for lm in tc.get(t, 'lightmaps').items:
                    for m in tc.get(lm, 'materials').items:
                        b = tc.get(m, 'uncompressed vertices').b; n, = struct.unpack('>I', tc.get(tc.get(m, 'rendered vertices'), 'vertex count'))
                        for nm, x in (('lightmap vertices', b[56 * n:]), ('rendered vertices', b[:56 * n])):
                            tc.put(tc.get(m, nm), 'offset', struct.pack('>I', len(v))); v += x
            at = area.take(OBJS['ScenarioStructureBSP']['size'])
            # the block lies at the end of the tag space; its size is only known afterwards, so lay it out twice
            keep = (bytes(s.raw),)
            s.put(t, area, at)
            area.take(0, 32)
            base = s.base + s.space - len(area.b)
            s.raw = bytearray(keep[0])
            area = Area(base); area.take(24); at = area.take(OBJS['ScenarioStructureBSP']['size'])
            s.drawn = random.Random(i)
            s.put(t, area, at)
            s.drawn = None
            area.take(0, 32)
            area.b[0:4] = struct.pack('<I', area.addr(at)); area.b[20:24] = b'psbs'
            bspblocks[i] = area
        placed = {}
        cea = {}
        for i in bsps:
            while len(s.raw) % 4: s.raw.append(0)
            if i in verts:
                cea[i] = s.big + len(s.raw), s.big + len(s.raw) + len(verts[i])
                s.raw += verts[i]
                struct.pack_into('<II', bspblocks[i].b, 4, len(verts[i]), cea[i][0])
                while len(s.raw) % 4: s.raw.append(0)
            placed[i] = s.big + len(s.raw)
            s.raw += bspblocks[i].b
        for i, (p, g, t) in enumerate(order):
            if i in bsps or p is None: addrs[i] = 0; continue
            if g == 'bitmap': s.pixels(t, i in external)
            if i in external and g != 'sound':
                area = Area(0); st = GROUPS[g]['struct']
                at = area.take(OBJS[st]['size'])
                s.put(t, area, at)
                kind = 'bitmaps' if g == 'bitmap' else 'loc'
                addrs[i] = len(s.ext[kind]); s.ext[kind].append((p, bytes(area.b)))
                continue
            if i in external:
                # the base struct is in the map, pitch ranges in the resource file, whose addresses start after its own base struct
                area = Area(0); n = OBJS['Sound']['size']
                area.take(n)
                sub = Area(-n); sub.b = area.b
                s.rawloc = 'sounds'; s.put(t, sub, 0); s.rawloc = None
                area.b = sub.b
                s.ext['sounds'].append((p, bytes(area.b)))
                at = ta.take(n)
                ta.b[at:at + n] = area.b[:n]
                ta.b[at + 152:at + 164] = bytes(12)
                if len(p) % 2: ta.b[at + 6:at + 8] = bytes(2); ta.b[at + 108:at + 112] = bytes(4)        # these count in the resource file
                addrs[i] = ta.addr(at); continue
            if g in ('model', 'gbxmodel'): s.model(t, g)
            if g == 'scenario':
                tc.put(t, 'structure bsps', t_bsps(t, order, bsps, bspblocks, placed))
            at = ta.take(OBJS[GROUPS[g]['struct']]['size'])
            s.put(t, ta, at)
            addrs[i] = ta.addr(at)
        for i, (p, g, t) in enumerate(order):
            if p is None: ta.b[arr + 32 * i:arr + 32 * i + 32] = struct.pack('<IIIIIIII', NONE, NONE, NONE, NONE, 0, 0, 0, 0); continue
            sup = GROUPS[g]['super']; sup2 = GROUPS[sup]['super'] if sup else None
            ta.b[arr + 32 * i:arr + 32 * i + 32] = struct.pack('<IIIIIIII', FOURCC[g], FOURCC[sup] if sup else NONE, FOURCC[sup2] if sup2 else NONE,
                                                          s.id(g, p), s.pathaddr[(p, g)], addrs[i], 1 if i in external else 0, 0)
        while len(s.raw) % 4: s.raw.append(0)
        model_off = s.big + len(s.raw)
        s.raw += s.verts + s.tris
        ta.take(0, 4)
        ta.b[0:20] = struct.pack('<IIIII', ta.addr(arr), s.id(order[sc[0]][1], order[sc[0]][0]) if sc else NONE, 0x12345678, len(order), s.parts)
        if s.engine == 'xbox': ta.b[20:36] = struct.pack('<IIII', 0, s.parts, 0, 0x74616773)
        else: ta.b[20:40] = struct.pack('<IIIII', model_off, s.parts, len(s.verts), len(s.verts) + len(s.tris), 0x74616773)
        while len(s.raw) % 4: s.raw.append(0)
        off = s.big + len(s.raw)
        h = bytearray(0x800)
        c = 0
        for i in bsps: c = zlib.crc32(bspblocks[i].b, zlib.crc32(verts.get(i, b''), c))
        c = zlib.crc32(s.verts + s.tris, c); c = zlib.crc32(ta.b, c)
        c ^= 0xFFFFFFFF
        total = off + len(ta.b)
        struct.pack_into('<IIIIII', h, 0, 0x68656164, s.version, total, 0, off, len(ta.b))
        h[0x20:0x20 + len(name)] = name.encode()
        h[0x40:0x40 + len(s.build)] = s.build
        struct.pack_into('<HHI', h, 0x60, scenario_type, 0, c if crc else NONE)
        struct.pack_into('<I', h, 0x7FC, 0x666F6F74)
        out = {name + '.map': bytes(h + s.raw + ta.b)}
        if s.engine == 'xbox': out = {name + '.map': pack(out[name + '.map'], pad)}
        s.ranges = {'tags': (off, total), 'bsp': [(placed[i], placed[i] + len(bspblocks[i].b)) for i in bsps], 'model': (model_off, model_off + len(s.verts) + len(s.tris))}
        s.order = [r for i in bsps for r in ([cea[i]] if i in cea else []) + [(placed[i], placed[i] + len(bspblocks[i].b))]] + [s.ranges['model'], (off, total)]     # in the order of the checksum
        s.covered = [(off, total)] + s.ranges['bsp'] + [s.ranges['model']] + list(cea.values())
        for kind in s.ext:
            if s.ext[kind] or len(s.resfile[kind]) > 16: out[kind + '.map'] = s.resource(kind)
        return out

    def resource(s, kind):
        """type, path data offset, array offset, count; data; paths; array of (path offset, size, data offset)."""
        b = s.resfile[kind]
        ents = []
        for p, d in s.ext[kind]:
            while len(b) % 4: b.append(0)
            ents.append((p, len(b), len(d))); b += d
        po = len(b); paths = bytearray(); items = []
        for p, o, n in ents:
            items.append((len(paths), n, o)); paths += p.encode() + b'\0'
        b += paths
        ao = len(b)
        for x in items: b += struct.pack('<III', *x)
        b[0:16] = struct.pack('<IIII', {'bitmaps': 1, 'sounds': 2, 'loc': 3}[kind], po, ao, len(items))
        return bytes(b)

    # -------------------------------------------------------------- tags with data elsewhere
    def pixels(s, t, outside):
        """Puts the pixel data of the bitmap where the map expects it (each bitmap data entry has its own piece)."""
        px = tc.get(t, 'processed pixel data').b
        seqs = tc.get(t, 'bitmap group sequence').items
        if tc.get(t, 'type') == b'\0\3':
            # for whatever reason these are not in maps; they follow from the sprites
            for q in seqs: tc.put(q, 'bitmap count', bytes(2)); tc.put(q, 'first bitmap index', bytes(2))
        for d in tc.get(t, 'bitmap data').items:
            o, = struct.unpack('>I', tc.get(d, 'pixel data offset'))
            n = d.pixels
            piece = d.stored if d.stored is not None else px[o:o + n]
            n = len(piece)
            if d.stored is not None: tc.put(d, 'mipmap count', struct.pack('>H', d.mips))
            if d.swizzled: tc.put(d, 'flags', struct.pack('>H', struct.unpack('>H', tc.get(d, 'flags'))[0] | 8))     # only in maps
            if outside or d.outside:
                off = len(s.resfile['bitmaps']); s.resfile['bitmaps'] += piece
                v, = struct.unpack('>H', tc.get(d, 'flags')); tc.put(d, 'flags', struct.pack('>H', v | 0x100))
            else: off = s.big + len(s.raw); s.raw += piece
            tc.put(d, 'pixel data offset', struct.pack('>I', off)); tc.put(d, 'pixel data size', struct.pack('>I', n))

    def model(s, t, g):
        for geo in tc.get(t, 'geometries').items:
            for part in tc.get(geo, 'parts').items:
                s.parts += 1
                n, tri, vb, ib = part.mesh
                tc.put(part, 'triangle count', struct.pack('>I', tri))
                if s.engine == 'xbox':
                    ta = s.tagarea
                    v = ta.take(len(vb)); ta.b[v:v + len(vb)] = vb
                    q = ta.take(12); ta.b[q:q + 12] = struct.pack('<III', 0, ta.addr(v), 0)
                    i = ta.take(len(ib)); ta.b[i:i + len(ib)] = ib
                    s.setmesh(part, n, ta.addr(q), ta.addr(i)); continue
                # offsets within the model data; see ModelGeometryPart
                s.setmesh(part, n, len(s.verts), len(s.tris))
                s.verts += vb; s.tris += ib
                while len(s.tris) % 4: s.tris.append(0)

def t_bsps(t, order, bsps, blocks, placed):
    items = []
    for i in bsps:
        x = tc.build_struct('ScenarioBSP', tc._Zero(), lambda a: None, 0, 0, [0], 0)
        tc.put(x, 'bsp start', struct.pack('>I', placed[i])); tc.put(x, 'bsp size', struct.pack('>I', len(blocks[i].b)))
        tc.put(x, 'bsp address', struct.pack('>I', blocks[i].base))
        tc.put(x, 'structure bsp', Ref('scenario_structure_bsp', order[i][0], ['scenario_structure_bsp']))
        items.append(x)
    return Refl('ScenarioBSP', items)

# ---------------------------------------------------------------- tags as a map holds them
# kinds that are converted on the way into or out of a map; the others come out as they went in
CONVERTED = {'actor_variant', 'bitmap', 'continuous_damage_effect', 'damage_effect', 'gbxmodel', 'light', 'model_animations', 'model', 'point_physics',
             'projectile', 'scenario', 'scenario_structure_bsp', 'sound', 'unicode_string_list', 'weapon', 'object', 'unit', 'item', 'device',
             'biped', 'vehicle', 'equipment', 'garbage', 'scenery', 'device_machine', 'device_control', 'device_light_fixture', 'sound_scenery', 'placeholder',
             # values that tools round or default in their own way
             'particle', 'light_volume', 'shader_model', 'shader_transparent_chicago', 'shader_transparent_chicago_extended', 'shader_transparent_generic',
             'lens_flare', 'sound_looping'}

def bare(st):
    """The tag as the map stores it: what only exists in tag files is gone, values that equal their default are zero."""
    i = 0
    for f in OBJS[st.name]['fields']:
        t = f['type']
        if t == 'pad': st.f[i] = bytes(f['size']); i += 1; continue
        n = 2 if f.get('bounds') else f.get('count', 1)
        vals = st.f[i:i + n]
        for k, v in enumerate(vals):
            if f.get('non_cached') or f.get('exclude') or f.get('cache_only'): st.f[i + k] = zero(v)
            elif isinstance(v, St): bare(v)
            elif isinstance(v, Refl):
                for x in v.items: bare(x)
        if 'default' in f:
            d = default_bytes(f)
            if b''.join(st.f[i:i + n]) == d: st.f[i:i + n] = [bytes(len(v)) for v in vals]
        i += n
    return st

def zero(v):
    if isinstance(v, Ref): return Ref(tc.allowed(v.allowed)[0] if v.allowed and v.allowed[0] != '*' else v.group, '', v.allowed, v.hidden)
    if isinstance(v, Refl): return Refl(v.sname, [])
    if isinstance(v, Data): return Data(b'')
    if isinstance(v, St): return tc.build_struct(v.name, tc._Zero(), lambda a: None, 0, 0, [0], 0)
    return bytes(len(v))

def default_bytes(f):
    import math
    d = f['default'] if isinstance(f['default'], list) else [f['default']]
    if f['type'] in ('int16', 'uint16'): return b''.join(struct.pack('>H', x & 0xFFFF) for x in d)
    if f['type'] == 'Angle': return b''.join(struct.pack('>f', math.radians(x)) for x in d)
    n = tc.fsize(f) // 4
    if len(d) == 1: d = d * n
    return b''.join(struct.pack('>f', x) for x in d)

def scripts(n=0, rng=None):
    """An empty script table as a map has it."""
    return struct.pack('<32sHHBxxxIxxHHHI', b'script node', n, 20, 1, 0x64407440, 0, 0, 0, 0) + bytes(20 * n)

VALUE_TYPES = ('unparsed special_form function_name passthrough void boolean real short long string script trigger_volume cutscene_flag cutscene_camera_point cutscene_title cutscene_recording device_group ai ai_command_list '
    'starting_profile conversation navpoint hud_message object_list sound effect damage looping_sound animation_graph actor_variant damage_effect object_definition game_difficulty team ai_default_state actor_type hud_corner '
    'object unit vehicle weapon device scenery object_name unit_name vehicle_name weapon_name device_name scenery_name').split()
SCRIPT_TYPES = ['startup', 'dormant', 'continuous', 'static', 'stub']
TABLE, NODE = '32sHHBxxxIxxHHHI', 'HHHHIII'

def make_scripts(t, rng):
    """Put compiled scripts into a scenario."""
    strings = bytearray(rng.choice([b'', b'\0', b'unused\0'])); where = {}; nodes = []
    def text(x):
        b = x if isinstance(x, bytes) else x.encode()
        if b not in where or rng.random() < .1: where[b] = len(strings); strings.extend(b + b'\0')
        return where[b]
    def node(ty, flags, string, data):
        nodes.append([0xE373 + len(nodes) & 0xFFFF | 0x8000, rng.randrange(0x400), ty, flags, 0xFFFFFFFF, text(string), data])
        return nodes[-1]
    def value(depth):
        """a node; its children come right after it"""
        r = rng.random()
        if r < .35 and depth < 6 and len(nodes) < 400: return call(rng.choice(['begin', 'if', 'sleep', 'print', '+', '=', 'set', 'my_script', 'object_create']), depth)
        g = 8 * (rng.random() < .2)
        if r < .42: return node(rng.choice([5, 6, 7, 8, 9]), 1 | 4 | g, rng.choice(['the_global', 'x', 'global 2']), rng.randrange(1 << 32))
        if r < .46: return node(rng.choice([5, 6, 7, 8, 9]), 1 | 16 | g, rng.choice(['local', 'par1']), 0)
        ty = rng.choice([4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, rng.randrange(10, 49)])
        data = {5: rng.choice([0, 1]), 6: struct.unpack('<I', struct.pack('<f', rng.choice([0, 1, -1, .5, 30, 1e-5, 1e10, 3.14159, rng.uniform(-1000, 1000)])))[0],
                7: rng.choice([0, 1, 30, 0x7fff, 0x8000, 0xffff]), 8: rng.choice([0, 1, 100000, 0x7fffffff, 0xffffffff, 0x80000000])}.get(ty, rng.choice([0, 0xFFFFFFFF]))
        if ty == 5 and rng.random() < .3: data |= 0x100 * rng.randrange(1 << 24)     # one byte of it counts
        if ty == 7 and rng.random() < .3: data |= 0x10000 * rng.randrange(1 << 16)
        return node(ty, 1 | g, rng.choice(['0', '1', 'true', 'word', 'two words', '', 'say "hi"', '(paren)', 'a\\b', 'x.y-z', b'caf\xe9', 'q' * 40]), data)
    def call(name, depth):
        n = node(rng.choice([3, 4, 5, 9]), rng.choice([0, 0, 2, 8]), name, 0)
        first = node(2, 1 | 8 * (rng.random() < .5), name, 0)
        n[6] = ident(first)
        prev = first
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            if rng.random() < .1: node(0, 1, 'orphan', 0)
            x = value(depth + 1); prev[4] = ident(x); prev = x
        return n
    def ident(x): return x[0] << 16 | nodes.index(x)
    for fn, sn in (('globals', 'ScenarioGlobal'), ('scripts', 'ScenarioScript')):
        out = []
        for k in range(rng.choice([0, 1, 1, 2, 4])):
            g = tc.build_struct(sn, rng, lambda a: None, 0, 1, [0], 0); bare(g)
            tc.put(g, 'name', (rng.choice(['%s%d', '%s%d', '%s %d', '(%s%d']) % (fn[:-1], k)).encode().ljust(32, b'\0'))
            if fn == 'globals':
                tc.put(g, 'type', struct.pack('>H', rng.randrange(4, 49))); tc.put(g, 'initialization expression index', struct.pack('>I', ident(value(3))))
            else:
                st = rng.randrange(5)
                tc.put(g, 'script type', struct.pack('>H', st)); tc.put(g, 'return type', struct.pack('>H', rng.randrange(4, 49)))
                if st > 2 and rng.random() < .5:
                    ps = []
                    for j in range(rng.choice([1, 2])):
                        q = bare(tc.build_struct(tc.get(g, 'parameters').sname, rng, lambda a: None, 0, 1, [0], 0))
                        tc.put(q, 'name', rng.choice([b'par%d', b'par %d']).replace(b'%d', b'%d' % j).ljust(32, b'\0')); tc.put(q, 'return type', struct.pack('>H', rng.randrange(4, 49)))
                        ps.append(q)
                    tc.put(g, 'parameters', Refl(tc.get(g, 'parameters').sname, ps))
                r = rng.random()
                root = call('begin', 0) if r < .6 else call('sleep', 0) if r < .8 else value(0)
                tc.put(g, 'root expression index', struct.pack('>I', ident(root)))
            out.append(g)
        tc.put(t, fn, Refl(sn, out))
    spare = rng.choice([0, 0, 3, 20])
    table = struct.pack('<' + TABLE, b'script node', len(nodes) + spare, 20, 1, 0x64407440, len(nodes), len(nodes), 0xE373 + len(nodes) & 0xFFFF, rng.randrange(1 << 32))
    tc.put(t, 'script syntax data', Data(table + b''.join(struct.pack('<' + NODE, *n) for n in nodes) + rng.randbytes(20 * spare)))
    tc.put(t, 'script string data', Data(bytes(strings) + bytes(rng.choice([0, 1, 50]))))

def hostile_scripts(t, rng, kind):
    """Put scripts into a scenario that no compiler makes."""
    nodes, strings = [], b'begin\0x\0'
    def node(ty, flags, string, data, nxt=0xFFFFFFFF): nodes.append([0x8000, 0, ty, flags, nxt, string, data]); return len(nodes) - 1
    count = rng.choice([1, 1, 3]); name = '%s%d'; only = rng.random() < .4
    if kind == 'deep':
        for i in range(rng.choice([300, 3000, 10000, 32000])):
            node(4, 0, 0, 2 * i + 1); node(2, 1, 0, 0, 2 * i + 2)
        node(6, 1, 6, 0)
    elif kind == 'shared':
        for i in range(rng.choice([24, 40, 1000])):
            a = 3 * i
            node(4, 0, 0, a + 3, a + 1); node(4, 0, 0, a + 3, a + 2); node(4, 1, 0, 0)
        node(2, 1, 0, 0)
    elif kind == 'wide':
        for i in range(rng.choice([3000, 60000])): node(6, 1, 6, 0, i + 1)
        nodes[-1][4] = 0xFFFFFFFF; count = rng.choice([8, 500])
    elif kind == 'loop':
        node(4, 0, 0, 1, rng.choice([0xFFFFFFFF, 0])); node(2, 1, 0, 0, rng.choice([0, 1, 2, 0xFFFF, 7])); node(rng.randrange(49), rng.choice([0, 1, 5, 17]), rng.choice([0, 6, 7, 8, 9, 1 << 20]), rng.choice([0, 1, 2, 3, 0xFFFF, 0xFFFFFFFF, 7]), rng.choice([0, 1, 0xFFFFFFFF]))
    elif kind == 'name':
        node(6, 1, 6, 0); name = rng.choice(['(', ')', '((', ')%d', 'a b', '', '"', '))', 'script', '%d)'])
    syntax = struct.pack('<' + TABLE, b'script node', len(nodes), 20, 1, 0x64407440, len(nodes), len(nodes), 0, 0) + b''.join(struct.pack('<' + NODE, *n) for n in nodes)
    if kind == 'table':
        a = bytearray(syntax + bytes(20 * 5)); struct.pack_into('<H', a, 32, 5)
        for _ in range(rng.choice([1, 2])): struct.pack_into('<H', a, rng.choice([32, 34, 44, 46]), rng.choice([0, 1, 4, 6, 19, 21, 0xFFFF]))
        syntax = bytes(a)[:rng.choice([len(a), 20, 55, 56, 57, 76, len(a) - 1])]
    for fn, sn in (('globals', 'ScenarioGlobal'), ('scripts', 'ScenarioScript')):
        out = []
        for k in range(count if fn == 'globals' or rng.random() < .5 else 0):
            g = bare(tc.build_struct(sn, tc._Zero(), lambda a: None, 0, 1, [0], 0))
            if fn == 'scripts' and only: break
            n = name.replace('%s', fn[:-1]).replace('%d', str(k))
            tc.put(g, 'name', n.encode()[:31].ljust(32, b'\0'))
            tc.put(g, 'initialization expression index' if fn == 'globals' else 'root expression index', bytes(4))
            out.append(g)
        tc.put(t, fn, Refl(sn, out))
    tc.put(t, 'script syntax data', Data(syntax)); tc.put(t, 'script string data', Data(strings))

def decompiled(t):
    """What the scripts of a scenario of a map are in words: a list of words, numbers as numbers."""
    syn = tc.get(t, 'script syntax data').b; st = tc.get(t, 'script string data').b
    count = struct.unpack_from('<' + TABLE, syn)[5]
    nodes = [struct.unpack_from('<' + NODE, syn, 56 + 20 * i) for i in range(count)]
    def text(n): return st[n[5]:st.index(b'\0', n[5])].decode('utf-8', 'replace').replace('\ufffd', '?')
    def quoted(x):
        if not x: return '""'
        x = x.replace('"', '\\"')
        return '"%s"' % x if any(c in x for c in '() ') else x
    def words(i, top=False):
        out = []
        while i != 0xFFFFFFFF and i & 0xFFFF != 0xFFFF:
            n = nodes[i & 0xFFFF]; i = n[4]; ty, fl, d = n[2], n[3], n[6]
            if not fl & 1:
                f = nodes[d & 0xFFFF]
                if top and text(f) == 'begin': out += words(f[4])
                else: out += ['('] + words(d) + [')']
            elif fl & 20: out.append(quoted(text(n)))
            elif ty == 5: out.append('true' if d & 0xFF else 'false')
            elif ty == 6: out.append(struct.unpack('<f', struct.pack('<I', d))[0])
            elif ty == 7: out.append((d & 0xFFFF) - 0x10000 * (d >> 15 & 1))
            elif ty == 8: out.append(d - (d >> 31 << 32))
            elif ty != 4: out.append(quoted(text(n)))
        return out
    def name(x, f='name'): return tc.get(x, f).rstrip(b'\0').decode()
    def num(x, f): return int.from_bytes(tc.get(x, f), 'big')
    out = []
    for g in tc.get(t, 'globals').items: out += ['(', 'global', VALUE_TYPES[num(g, 'type')], quoted(name(g))] + words(num(g, 'initialization expression index')) + [')']
    for g in tc.get(t, 'scripts').items:
        k = num(g, 'script type'); ps = tc.get(g, 'parameters').items
        out += ['(', 'script', SCRIPT_TYPES[k]] + ([VALUE_TYPES[num(g, 'return type')]] if k > 2 else [])
        if ps:
            out += ['(', quoted(name(g))]
            for q in ps: out += ['(', VALUE_TYPES[num(q, 'return type')], quoted(name(q)), ')']
            out.append(')')
        else: out.append(quoted(name(g)))
        out += words(num(g, 'root expression index'), True) + [')']
    return out

WORD = re.compile(r'[()]|"(?:\\.|[^"\\])*"|[^\s()]+')
def conv_scenario(a, b):
    syn = tc.get(a, 'script syntax data').b; h = struct.unpack_from('<' + TABLE, syn); n = h[5]
    want = struct.pack('>' + TABLE, *h) + b''.join(struct.pack('>' + NODE, *struct.unpack_from('<' + NODE, syn, 56 + 20 * i)) for i in range(n)) + bytes(len(syn) - 56 - 20 * n)
    if tc.get(b, 'script syntax data').b != want: return 'Scenario has other script nodes'
    src = tc.get(b, 'source files').items; old = tc.get(a, 'source files').items; want = decompiled(a)
    if not want:
        if len(src) != len(old): return 'Scenario has %d source files instead of %d' % (len(src), len(old))
        for x, y in zip(old, src):
            d = diff(x, y)
            if d: return d
        return
    x = ''.join(re.sub(r'^;\*.*?\*;', '', tc.get(s, 'source').b.rstrip(b'\0').decode(), flags=re.S) for s in src)
    got = WORD.findall(x)
    if re.sub(r'\s', '', x) != re.sub(r'\s', '', ''.join(got)): return 'Scenario has a source file that is no script'
    for i in range(max(len(got), len(want))):
        u = want[i] if i < len(want) else None; v = got[i] if i < len(got) else None
        if u == v: continue
        if isinstance(u, (int, float)) and v is not None and re.fullmatch(r'-?[0-9.]+(e-?[0-9]+)?', v):
            if struct.pack('<f', float(v)) == struct.pack('<f', u) if isinstance(u, float) else int(v) == u: continue
        return 'Scenario has %r in its decompiled scripts instead of %r (%s)' % (v, u, ' '.join(map(str, want[max(0, i - 5):i + 3])))

def anim_layout(a):
    """The words of one frame, and those of the default data, of an animation."""
    n, = struct.unpack('>H', tc.get(a, 'node count'))
    bits = {}
    for nm in ('rotation', 'transform', 'scale'):
        s, i = tc.slot(a, 'node %s flag data' % nm)
        bits[nm] = struct.unpack('>I', s.f[i])[0] | struct.unpack('>I', s.f[i + 1])[0] << 32
    out = [], []
    for k in range(n):
        for nm, ws in (('rotation', [2] * 4), ('transform', [4] * 3), ('scale', [4])): out[not bits[nm] >> k & 1].extend(ws)
    return out

def anim_tag(a):
    """What an animation of a map is in a tag."""
    frame, rest = anim_layout(a)
    n, = struct.unpack('>H', tc.get(a, 'frame count'))
    def flip(b, ws):
        out, i = [], 0
        for w in ws: out.append(b[i:i + w][::-1]); i += w
        return b''.join(out)
    tc.put(a, 'frame info', Data(swap(tc.get(a, 'frame info').b, 4)))
    if tc.get(a, 'flags')[1] & 1:
        size = sum(frame) * n
        tc.put(a, 'frame data', Data(bytes(size) + tc.get(a, 'frame data').b)); tc.put(a, 'offset to compressed data', struct.pack('>I', size))
        tc.put(a, 'default data', Data(bytes(sum(rest))))
    else:
        tc.put(a, 'frame data', Data(flip(tc.get(a, 'frame data').b, frame * n))); tc.put(a, 'default data', Data(flip(tc.get(a, 'default data').b, rest)))

# lists whose elements are converted one by one
RICH = {'material response', 'pitch ranges', 'permutations', 'change colors', 'geometries', 'parts', 'detail objects', 'cells', 'z reference vectors', 'lightmaps', 'materials', 'animations',
        'cutscene titles', 'regions', 'nodes', 'triggers', 'detail object collection palette'}
def enrich(t, rng, pick, fill):
    done = set()
    for _ in range(5):
        for st, i, f in tc.slots(t):
            r = st.f[i]
            if not isinstance(r, Refl) or f['name'] not in RICH or id(r) in done: continue
            done.add(id(r))
            for _ in range(rng.choice([0, 1, 2, 3])):
                if len(r.items) < 4: r.items.append(tc.build_struct(r.sname, rng, pick, fill, 1, [2], .5))

def make_tag(g, rng, pick, engine, fill, budget, dense=False):
    t = tc.build_struct(GROUPS[g]['struct'], rng, pick, fill, 0, [budget], rng.choice([.7, .7, .3, .1]))
    if dense: enrich(t, rng, pick, fill)
    bare(t)
    for st, i, f in tc.slots(t):
        if (st.name, f.get('name')) in FACTOR and rng.random() < .6 and any(st.f[i]):
            st.f[i] = struct.pack('>f', rng.choice([1, 10, 100, 1000, 2, 5, 20, .1, .25, .01, 33, 7.5, -1, -100]) * rng.choice([1, 1, 1, 1 + 3e-8, 1 - 5e-8, 1 + rng.uniform(0, 1e-5)]) / FACTOR[st.name, f['name']])
    if g == 'scenario':
        for n in ('scripts', 'globals', 'structure bsps', 'references'): s, i = tc.slot(t, n); s.f[i] = Refl(s.f[i].sname, [])
        tc.put(t, 'script syntax data', Data(scripts(rng.choice([0, 0, 5]))))
        if rng.random() < .5: make_scripts(t, rng)
        tc.put(t, 'type', struct.pack('>H', rng.choice([0, 1, 1, 2])))
        r = tc.get(t, 'cutscene titles')
        if rng.random() < .5: r.items += [bare(tc.build_struct('ScenarioCutsceneTitle', rng, pick, fill, 1, [0], 0)) for _ in range(rng.choice([1, 2, 3]))]
        for x in r.items:
            for nm in ('fade in time', 'up time', 'fade out time'): tc.put(x, nm, struct.pack('>f', rng.choice([0, 15, 30, 45, 90, 100, 1000])))
    elif g == 'bitmap':
        items = []; px = b''
        for _ in range(rng.choice([0, 1, 1, 2])):
            d, data = bitmap_piece(rng, engine)
            tc.put(d, 'pixel data offset', struct.pack('>I', len(px)))
            px += data; items.append(d)
        tc.put(t, 'bitmap data', Refl('BitmapData', items)); tc.put(t, 'processed pixel data', Data(px))
        ty = rng.choice([0, 0, 1, 2, 3, 3, 4])
        tc.put(t, 'type', struct.pack('>H', ty))
        if ty == 3:
            r = tc.get(t, 'bitmap group sequence')
            if not r.items and rng.random() < .7: r.items += [bare(tc.build_struct('BitmapGroupSequence', rng, pick, fill, 1, [6], .7)) for _ in range(rng.choice([1, 2]))]
            for q in r.items:
                sp = tc.get(q, 'sprites').items
                ix = [v for v in (struct.unpack('>H', tc.get(x, 'bitmap index'))[0] for x in sp) if v != 0xFFFF]
                tc.put(q, 'bitmap count', struct.pack('>H', len(sp) == 1)); tc.put(q, 'first bitmap index', struct.pack('>H', min(ix) if ix else 0xFFFF))
    elif g in ('model', 'gbxmodel'):
        s, i = tc.slot(t, 'runtime markers'); s.f[i] = Refl('ModelMarker', [])
        nodes = len(tc.get(t, 'nodes').items); spots = [(x, y) for x, r in enumerate(tc.get(t, 'regions').items) for y, _ in enumerate(tc.get(r, 'permutations').items)]
        if nodes and spots:
            for _ in range(rng.choice([0, 1, 2])):
                m = bare(tc.build_struct('ModelMarker', rng, pick, fill, 1, [0], 0))
                for _ in range(rng.choice([0, 1, 2])):
                    x = bare(tc.build_struct('ModelMarkerInstance', rng, pick, fill, 1, [0], 0)); y = rng.choice(spots)
                    for nm, v in (('node index', rng.randrange(nodes)), ('region index', y[0]), ('permutation index', y[1])): tc.put(x, nm, bytes([v]))
                    tc.get(m, 'instances').items.append(x)
                s.f[i].items.append(m)
        for geo in tc.get(t, 'geometries').items:
            r = tc.get(geo, 'parts')
            for k, part in enumerate(r.items):
                n = rng.choice([0, 1, 3, 4]); tri = rng.choice([0, 1, 2]) if n else 0
                if engine == 'xbox': vb = b''.join(struct.pack('<3f3I2hBBh', rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(-9, 9), rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32), rng.randrange(-32767, 32767), rng.randrange(-32767, 32767), 3 * rng.randrange(3), rng.choice([255, 253, 0, 3, 6]), rng.choice([32767, 32767, 0, rng.randrange(32767)])) for _ in range(n))
                else: vb = b''.join(struct.pack('<14fHHff', *([rng.uniform(-1, 1) for _ in range(14)] + [rng.randrange(3), 0xFFFF, 1.0, 0.0])) for _ in range(n))
                ib = b''.join(struct.pack('<H', rng.randrange(n)) for _ in range(tri + 2 if tri else 0))
                q = Piece(part.name, part.f); q.mesh = (n, tri, vb, ib); r.items[k] = q
    elif g == 'sound':
        for r in tc.get(t, 'pitch ranges').items:
            for p in tc.get(r, 'permutations').items:
                b = tc.get(p, 'samples').b
                tc.put(p, 'samples', Data(b + b'\0' if len(b) % 2 else b))
        tc.put(t, 'maximum bend rate', struct.pack('>f', rng.choice([1.0, 1.0, 1.05, .9, 1.001])))
    elif g == 'model_animations':
        for a in tc.get(t, 'animations').items:
            n, frames, kind, small = rng.choice([0, 1, 3, 33, 64]), rng.choice([0, 1, 2, 5]), rng.randrange(4), rng.random() < .4
            for nm, v in (('node count', n), ('frame count', frames), ('frame info type', kind), ('flags', small | rng.choice([0, 2]))): tc.put(a, nm, struct.pack('>H', v))
            for nm in ('rotation', 'transform', 'scale'):
                s, i = tc.slot(a, 'node %s flag data' % nm)
                for k in (0, 1): s.f[i + k] = struct.pack('>I', rng.choice([0, rng.getrandbits(32), rng.getrandbits(32) & rng.getrandbits(32), 0xFFFFFFFF]))
            floats = lambda k: b''.join(struct.pack('<f', rng.uniform(-9, 9)) for _ in range(k))
            frame, rest = anim_layout(a)
            values = lambda ws: b''.join(floats(1) if w == 4 else rng.randbytes(2) for w in ws)
            tc.put(a, 'frame info', Data(floats((0, 2, 3, 4)[kind] * frames)))
            tc.put(a, 'frame data', Data(rng.randbytes(rng.choice([0, 1, 50])) if small else b''.join(values(frame) for _ in range(frames))))
            tc.put(a, 'default data', Data(b'' if small else values(rest)))
    elif g == 'scenario_structure_bsp':
        for d in tc.get(t, 'detail objects').items:
            z = tc.get(d, 'z reference vectors').items
            for c in tc.get(d, 'cells').items:
                n = rng.randrange(len(z) + 1); at = rng.randrange(len(z) - n + 1)
                fl = sum(1 << x for x in rng.sample([0, 1, 2, 3, 7, 15, 16, 17, 20, 30, 31], min(n, 11)))
                tc.put(c, 'valid layers flags', struct.pack('>I', fl)); tc.put(c, 'count index', struct.pack('>I', at))
        for lm in tc.get(t, 'lightmaps').items:
            for m in tc.get(lm, 'materials').items:
                a, b = rng.choice([(1, 0), (1, 1), (3, 0), (3, 3)])
                full = b''.join(struct.pack('<f', rng.uniform(-1, 1) if rng.random() < .9 else rng.choice([0, -.0, 1, -1, .0002, -.0002, -.00001, -.004])) for _ in range(14 * a + 5 * b))
                small = b''.join(struct.pack('<3f3I2f', *([rng.uniform(-9, 9) for _ in range(3)] + [rng.getrandbits(32) for _ in range(3)] + [.5, -.25])) for _ in range(a)) + b''.join(struct.pack('<I2h', rng.getrandbits(32), 5, -7) for _ in range(b))
                tc.put(m, 'uncompressed vertices', Data(b'' if engine == 'xbox' else full))
                tc.put(m, 'compressed vertices', Data(small if engine == 'xbox' else b''))
                for nm, n in (('rendered vertices', a), ('lightmap vertices', b)): tc.put(tc.get(m, nm), 'vertex count', struct.pack('>I', n))
    elif tc.slot(t, 'change colors'):
        for cc in tc.get(t, 'change colors').items:
            ps = tc.get(cc, 'permutations').items
            even = rng.random() < .4; w = sorted(rng.choice([0, .1, .25, .3, .5, .7, .9, 1]) for _ in ps)
            for k, p in enumerate(ps): tc.put(p, 'weight', struct.pack('>f', 1.0 if k + 1 == len(ps) else (k + 1) / len(ps) if even else w[k]))
    return t

def pack(m, pad=0):
    """The way the Xbox keeps a map: everything after the header is compressed."""
    h = bytearray(m[:0x800]); struct.pack_into('<II', h, 8, len(m), pad)
    return bytes(h) + zlib.compress(m[0x800:]) + bytes(pad)

def unpack(m):
    d = zlib.decompressobj()
    return m[:0x800] + d.decompress(m[0x800:])

class Piece(St):
    __slots__ = ('pixels', 'mesh', 'outside', 'stored', 'mips', 'swizzled')

FORMATS = {0: (1, 1), 1: (1, 1), 2: (1, 1), 3: (1, 2), 6: (1, 2), 8: (1, 2), 9: (1, 2), 10: (1, 4), 11: (1, 4), 14: (4, 8), 15: (4, 16), 16: (4, 16), 17: (1, 1)}     # pixels and bytes of a block

def morton(w, h, z):
    """Where in the swizzled texture each pixel of it lies."""
    def spread(v, k):
        r = 0
        for i in range(16): r |= (v >> i & 1) << (k * i)
        return r
    if z > 1: return [spread(x, 3) | spread(y, 3) << 1 | spread(c, 3) << 2 for c in range(z) for y in range(h) for x in range(w)]
    n = min(w, h)       # squares one after the other
    return [(y // n + x // n) * n * n + (spread(x % n, 2) | spread(y % n, 2) << 1) for y in range(h) for x in range(w)]

def bitmap_piece(rng, engine):
    """One bitmap: (its entry, the pixels as the tag has them); the entry knows how a map stores them."""
    xbox = engine == 'xbox'
    d = tc.build_struct('BitmapData', tc._Zero(), lambda a: None, 0, 0, [0], 0)
    fm = rng.choice(sorted(FORMATS)); bl, bb = FORMATS[fm]
    kind = rng.choice([0, 0, 0, 0, 1, 2])
    w, h = rng.choice([(1, 1), (2, 2), (4, 4), (8, 4), (4, 8), (16, 16), (2, 8), (32, 4), (1, 4), (12, 8), (5, 3)])
    if kind == 2: h = w
    z = rng.choice([1, 2, 4, 8]) if kind == 1 else 1
    swiz = xbox and bl == 1 and rng.random() < .6 and not w & w - 1 and not h & h - 1
    if swiz and kind == 1: w = h = z
    if xbox and bl > 1: w, h = (w + 3) // 4 * 4, (h + 3) // 4 * 4
    faces = 6 if kind == 2 else 1
    levels = []
    x, y, c = w, h, z
    most = rng.choice([0, 0, 1, 2, 9])
    while 1:
        levels.append((x, y, c))
        if x == y == c == 1 or len(levels) > most: break
        x, y, c = max(x // 2, 1), max(y // 2, 1), max(c // 2, 1)
    mips = len(levels) - 1
    if xbox and bl > 1:
        k = 0
        while k < len(levels) and levels[k][0] % bl == 0 and levels[k][1] % bl == 0: k += 1
        levels = levels[:k]
    data, face = [], [[] for _ in range(faces)]
    for x, y, c in levels:
        n = (x + bl - 1) // bl * ((y + bl - 1) // bl) * c
        for f in range(faces):
            b = rng.randbytes(n * bb); data.append(b)
            if swiz:
                v = [None] * n
                for i, m in enumerate(morton(x, y, c)): v[m] = b[i * bb:i * bb + bb]
                b = b''.join(v)
            face[f].append(b)
    data = b''.join(data)
    pad = lambda b: b + bytes(-len(b) % 128)
    d = Piece(d.name, d.f); d.pixels = len(data); d.outside = not xbox and rng.random() < .3; d.stored = None; d.mips = mips; d.swizzled = swiz
    if xbox:
        if kind == 2: d.stored = b''.join(pad(b''.join(face[f])) for f in (0, 2, 1, 3, 4, 5))
        else: d.stored = pad(b''.join(face[0])) + (rng.randbytes(128) if rng.random() < .3 else b'')
    fl = (2 if bl > 1 else 0) | (1 if not (w & w - 1 or h & h - 1) else 0)
    for k, v in (('width', w), ('height', h), ('depth', z), ('format', fm), ('type', kind), ('flags', fl), ('mipmap count', len(levels) - 1)): tc.put(d, k, struct.pack('>H', v))
    tc.put(d, 'signature', b'bitm')
    return d, data

def clone(v):
    if isinstance(v, St):
        x = Piece(v.name, [clone(y) for y in v.f]) if isinstance(v, Piece) else St(v.name, [clone(y) for y in v.f])
        for k in Piece.__slots__:
            if hasattr(v, k): setattr(x, k, getattr(v, k))
        return x
    if isinstance(v, Refl): return Refl(v.sname, [clone(y) for y in v.items])
    if isinstance(v, Data): return Data(v.b)
    if isinstance(v, Ref): return Ref(v.group, v.path, v.allowed, v.hidden)
    return v

def setmesh(part, n, voff, toff):
    tc.put(part, 'triangle pointer', struct.pack('>I', toff)); tc.put(part, 'triangle pointer 2', struct.pack('>I', toff))
    v = tc.get(part, 'vertices')
    tc.put(v, 'vertex count', struct.pack('>I', n)); tc.put(v, 'vertex pointer', struct.pack('>I', voff))
Builder.setmesh = staticmethod(setmesh)

MAPGROUPS = [g for g in sorted(GROUPS) if g not in ('scenario', 'object', 'unit', 'item', 'device', 'shader', 'preferences_network_game', 'spheroid')]

# tags that are changed when a campaign map is built
PATCHED = {'weapon': ['weapons\\pistol\\pistol', 'weapons\\plasma rifle\\plasma rifle', 'weapons\\pistol\\plasma rifle'], 'damage_effect': ['weapons\\pistol\\bullet']}

class World:
    """files: the map and its resource files, by name; tags: [(path, group)]; want: {(path, group): tag file} where the map stores it unconverted."""

def gen(rng, n, engine=None, groups=None, crc=None, prefix='', scenario_type=None, name='test', hostile=None, dense=False):
    engine = engine or rng.choice(['pc-custom', 'pc-custom', 'pc-retail', 'mcc-cea', 'xbox'])
    seen, order = set(), []
    import batch
    order.append(('levels\\test\\' + rng.choice(['test', 'a', 'long scenario']), 'scenario'))
    seen.add(order[0])
    for i in range(n):
        g = rng.choice(groups) if groups else rng.choice(batch.HOT + ['globals', 'font', 'glow']) if rng.random() < .6 else rng.choice(MAPGROUPS)
        if g not in MAPGROUPS: continue
        if g == 'gbxmodel' and engine == 'xbox': continue
        p = batch.tag_name(rng, i).replace('/', '\\')
        if g in PATCHED and rng.random() < .2: p = rng.choice(PATCHED[g])
        LOC = ('font', 'hud_message_text', 'unicode_string_list', 'string_list', 'bitmap', 'sound')
        if g in LOC and rng.random() < .15: p = rng.choice([q for q, h in order if h in LOC] or [p])      # tags of several groups with one path
        if (p, g) in seen: continue
        seen.add((p, g)); order.append((p, g))
    if rng.random() < .5: rng.shuffle(order)
    byg = {}
    for p, g in order: byg.setdefault(g, []).append(p)
    def pick(al):
        c = [g for g in al if g in byg]
        if not c or rng.random() > .6: return None
        g = rng.choice(c); return g, rng.choice(byg[g])
    trees = []; w = World(); w.want = {}; w.tree = {}; w.engine = engine; w.tags = order
    for p, g in order:
        t = make_tag(g, rng, pick, engine, rng.choice([.1, .4, .7]), rng.choice([0, 3, 10]), dense)
        if g == 'scenario' and hostile: hostile_scripts(t, random.Random(hostile[1]), hostile[0])
        if g == 'scenario' and scenario_type is not None: tc.put(t, 'type', struct.pack('>H', scenario_type))
        if g == 'scenario': w.stype, = struct.unpack('>H', tc.get(t, 'type'))
        if g not in CONVERTED: w.want[(p, g)] = tc.serialize(g, clone(t))
        w.tree[(p, g)] = clone(t)
        trees.append((p, g, t))
    # what follows from other places
    zero = [0.0] * 32; sc = [t for p, g, t in trees if g == 'scenario'][0]
    pal = tc.get(sc, 'detail object collection palette').items
    if 'detail_object_collection' in byg and rng.random() < .7:
        del pal[:]
        for _ in range(rng.choice([1, 3, 8, 33, 33] if dense else [1, 3, 8, 33])):
            x = tc.build_struct('ScenarioDetailObjectCollectionPalette', tc._Zero(), lambda a: None, 0, 0, [0], 0)
            r = tc.get(x, 'reference')
            if rng.random() < .8: r.group, r.path = 'detail_object_collection', rng.choice(byg['detail_object_collection'])
            pal.append(x)
        tc.put(w.tree[[k for k in order if k[1] == 'scenario'][0]], 'detail object collection palette', clone(tc.get(sc, 'detail object collection palette')))
    for i, x in enumerate(pal[:32]):
        r = tc.get(x, 'reference')
        if r.path: zero[i] = f32(tc.get(w.tree[r.path, r.group], 'global z offset')) * .125
    for k, t in w.tree.items():
        if k[1] == 'scenario_structure_bsp':
            for d in tc.get(t, 'detail objects').items:
                z = tc.get(d, 'z reference vectors').items; v = [f32(tc.get(x, 'z reference l')) for x in z]
                for c in tc.get(d, 'cells').items:
                    at, fl = (struct.unpack('>I', tc.get(c, n))[0] for n in ('count index', 'valid layers flags'))
                    for bit in range(32):
                        if fl >> bit & 1: v[at] -= zero[bit]; at += 1
                for x, y in zip(z, v): tc.put(x, 'z reference l', struct.pack('>f', y))
        elif k[1] == 'model_animations':
            for a in tc.get(t, 'animations').items: anim_tag(a)
        elif k[1] in ('model', 'gbxmodel'):
            rt = tc.get(t, 'runtime markers')
            for m in rt.items:
                for x in tc.get(m, 'instances').items:
                    q = tc.build_struct('ModelRegionPermutationMarker', tc._Zero(), lambda a: None, 0, 0, [0], 0)
                    tc.put(q, 'name', tc.get(m, 'name')); tc.put(q, 'node index', b'\0' + tc.get(x, 'node index'))
                    for n in ('rotation', 'translation'): tc.put(q, n, tc.get(x, n))
                    r = tc.get(t, 'regions').items[tc.get(x, 'region index')[0]]
                    tc.get(tc.get(r, 'permutations').items[tc.get(x, 'permutation index')[0]], 'markers').items.append(q)
            rt.items = []
    if w.stype == 0 and not struct.unpack('>H', tc.get(sc, 'flags'))[0] & 8:
        import math
        for (p, g), t in w.tree.items():
            if p not in PATCHED.get(g, ()): continue
            if g == 'damage_effect': tc.put(tc.get(tc.get(t, 'damage'), 'modifiers'), 'elite energy shield', struct.pack('>f', 1.0))
            elif not p.endswith('pistol\\plasma rifle'):
                for x in tc.get(t, 'triggers').items[:1]:
                    s, i = tc.slot(x, 'error angle'); s.f[i:i + 2] = [struct.pack('>f', math.radians(v)) for v in ((.2, 2.0) if 'pistol' in p else (.5, 5.0))]
                    if 'pistol' in p: tc.put(x, 'minimum error', bytes(4))
    b = Builder(engine)
    if rng.random() < .3: b.share = rng.choice([.1, .5, 1])
    ext = [i for i, (p, g) in enumerate(order) if b.indexed and g in ('bitmap', 'font', 'hud_message_text', 'unicode_string_list', 'sound', 'string_list') and rng.random() < .4]
    w.external = [order[i] for i in ext]
    for i in ext:
        p, g, t = trees[i]
        if g == 'font' or g == 'hud_message_text':      # a resource file knows no tags, so nothing in it can refer to one
            for r in tc.refs(t): r.path = ''
            if g not in CONVERTED: w.want[(p, g)] = tc.serialize(g, clone(t))
    gaps = [rng.randrange(len(order) + 1) for _ in range(rng.choice([1, 2, 5]))] if rng.random() < .15 else []
    w.slots = list(range(len(order)))
    for i in sorted(gaps): w.slots = [x + (x >= i) for x in w.slots]
    ext = [w.slots[i] for i in ext]
    w.files = {prefix + k: v for k, v in b.make(trees, name, w.stype, ext, gaps=gaps, crc=rng.random() < .8 if crc is None else crc, pad=rng.choice([0, 0, 1, 500, 2048])).items()}
    w.builder = b; w.map = prefix + name + '.map'
    return w

SHOWN = {'xbox': 'xbox-us'}
def facts(w):
    "What is to be said about the map: lines by their label."
    b = w.builder; m = w.files[w.map]
    if b.engine == 'xbox': m = unpack(m)
    o, e = b.ranges['tags']
    space = e - o + (0 if b.engine == 'mcc-cea' else max([y - x for x, y in b.ranges['bsp']], default=0))
    mib = lambda n: '%.2f MiB' % (n // 1024 / 1024)
    return {'Scenario name': w.map.rpartition('/')[2][:-4], '': '(%s)' % SHOWN.get(b.engine, b.engine), 'Build string': b.build.decode(), 'Map type': ['singleplayer', 'multiplayer', 'user_interface'][w.stype],
            'Tags': str(len(w.tags)), 'Uncompressed size': mib(len(m)), 'Tag space used': mib(space)}

def crc_of(m, order):
    c = 0
    for x, y in order: c = zlib.crc32(m[x:y], c)
    return c ^ 0xFFFFFFFF

# ---------------------------------------------------------------- what may become of a stored value
# fields that tools convert between a map and a tag, so that they come out in other units or another form
T = 30.0
CONV = {('ActorVariantGrenades', 'grenade velocity'): lambda x: x * T, ('ContinuousDamageCameraShaking', 'wobble period'): lambda x: x / T, ('DamageEffectCameraShaking', 'wobble period'): lambda x: x / T,
        ('PointPhysics', 'air friction'): lambda x: x / 10000, ('PointPhysics', 'water friction'): lambda x: x / 10000,
        ('Projectile', 'minimum velocity'): lambda x: x * T, ('Projectile', 'initial velocity'): lambda x: x * T, ('Projectile', 'final velocity'): lambda x: x * T,
        ('ProjectileMaterialResponse', 'potential and'): lambda x: x * T, ('LightEffectParameters', 'duration'): lambda x: x / T,
        ('ScenarioCutsceneTitle', 'fade in time'): lambda x: x / T, ('ScenarioCutsceneTitle', 'fade out time'): lambda x: x / T,
        ('Sound', 'maximum bend rate'): lambda x: x ** T}

FACTOR = {k: f(1.0) for k, f in CONV.items() if k[0] != 'Sound'}

def f32(b): return struct.unpack('>f', b)[0]

def near(want, v, d=None):
    """Values are rounded to some significant digits on the way; a value that equals its default may be left out."""
    import math
    got = f32(v)
    if not math.isfinite(want) or abs(want) > 1e30 or 0 < abs(want) < 1e-12: return True
    if abs(got - want) <= 3e-5 * abs(want): return True
    return got == 0 and d is not None and abs(want - d) <= 3e-5 * abs(d)

# what some structures as a whole become
def conv_title(a, b):
    i, u, o = (f32(tc.get(a, n)) for n in ('fade in time', 'up time', 'fade out time'))
    if not near((u - i) / T, tc.get(b, 'up time')): return 'cutscene title with up time %g and fade in time %g (ticks) becomes one of %g seconds' % (u, i, f32(tc.get(b, 'up time')))

def conv_cutoff(a, b):
    for x, y in (('super low', 'super high'), ('low', 'high'), ('high', 'low'), ('super high', 'super low')):
        if tc.get(a, x) != tc.get(b, y) and not (not any(tc.get(b, y))): return 'detail cutoff %s is %s instead of %s' % (y, tc.get(b, y).hex(), tc.get(a, x).hex())

def conv_colors(a, b):
    p = [f32(tc.get(x, 'weight')) for x in tc.get(a, 'permutations').items]; q = [tc.get(x, 'weight') for x in tc.get(b, 'permutations').items]
    if len(p) != len(q): return
    w = [1.0] if len(p) == 1 else [y - x for x, y in zip([0.0] + p, p)]
    if all(abs(x * len(w) - 1) <= .001 for x in w): w = [1.0] * len(w)
    for x, y in zip(w, q):
        if abs(x - f32(y)) > 1e-5: return 'change color weights are %r instead of %r' % ([f32(y) for y in q], w)

def conv_samples(a, b):
    x, y = tc.get(a, 'samples').b, tc.get(b, 'samples').b
    if y != (swap(x, 2) if not any(tc.get(a, 'format')) else x): return 'sound has other samples (%d bytes, should be %d)' % (len(y), len(x))

def unpack_normal(v):
    def f(x, n):
        m = 1 << n - 1; k = x & m - 1
        return -(m - k) / m if x & m else k / (m - 1)
    return f(v, 11), f(v >> 11, 11), f(v >> 22, 10)

def unpack16(h): return h / 32768 if h < 0 else h / 32767

def conv_bsp_vertices(nm, full, small, n, k):
    """Both forms of the same vertices, as close as the compressed one can be."""
    for i in range(n):
        u, c = struct.unpack_from('<14f', full, 56 * i), struct.unpack_from('<3f3I2f', small, 32 * i)
        for j, what in enumerate(('normal', 'binormal', 'tangent')):
            x, y = u[3 + 3 * j:6 + 3 * j], unpack_normal(c[3 + j])
            if any(abs(p - q) > .0015 for p, q in zip(x, y)): return '%s of a BSP material have another %s than what they are made from: %r, %r' % (nm, what, x, y)
        if u[12:] != c[6:]: return '%s of a BSP material have other texture coordinates than what they are made from' % nm
    for i in range(k):
        u, c = struct.unpack_from('<5f', full, 56 * n + 20 * i), struct.unpack_from('<I2h', small, 32 * n + 8 * i)
        x, y = u, (*unpack_normal(c[0]), *map(unpack16, c[1:]))
        if any(abs(p - q) > .0015 for p, q in zip(x, y)): return '%s of a BSP material have another lightmap vertex than what they are made from: %r, %r' % (nm, x, y)

def conv_bsp(a, b):
    n, k = (struct.unpack('>I', tc.get(tc.get(a, x), 'vertex count'))[0] for x in ('rendered vertices', 'lightmap vertices'))
    for nm, other, x, y, p, q in (('uncompressed vertices', 'compressed vertices', 56, 20, 32, 8), ('compressed vertices', 'uncompressed vertices', 32, 8, 56, 20)):
        u = tc.get(a, nm).b
        if not u: continue
        if tc.get(b, nm).b != u: return '%s of a BSP material differ' % nm
        v = tc.get(b, other).b
        if len(v) != n * p + k * q: return '%s of a BSP material have %d bytes instead of %d' % (other, len(v), n * p + k * q)
        for i in range(n):
            if v[i * p:i * p + 12] != u[i * x:i * x + 12]: return '%s of a BSP material have another position than its %s' % (other, nm)
        d = conv_bsp_vertices(other, *((u, v) if x == 56 else (v, u)), n, k)
        if d: return d

WHOLE = {'Scenario': conv_scenario, 'ScenarioStructureBSPMaterial': conv_bsp, 'ScenarioCutsceneTitle': conv_title, 'ModelDetailCutoff': conv_cutoff, 'ObjectChangeColors': conv_colors, 'SoundPermutation': conv_samples}

FREE = {('ScenarioCutsceneTitle', 'up time'), ('ActorVariantGrenades', 'grenade velocity'), ('Object', 'render bounding radius'), ('ObjectChangeColorsPermutation', 'weight'),
        ('ContinuousDamageCameraShaking', 'wobble period'), ('DamageEffectCameraShaking', 'wobble period'), ('GBXModel', 'flags'), ('Model', 'flags'),
        ('ModelDetailCutoff', 'high'), ('ModelDetailCutoff', 'low'), ('ModelDetailCutoff', 'super high'), ('ModelDetailCutoff', 'super low'),
        ('ModelGeometryPart', 'uncompressed vertices'), ('ModelGeometryPart', 'compressed vertices'), ('ModelGeometryPart', 'triangle data'),
        ('LightEffectParameters', 'duration'), ('Particle', 'radius animation'), ('PointPhysics', 'air friction'), ('PointPhysics', 'water friction'),
        ('Projectile', 'final velocity'), ('Projectile', 'initial velocity'), ('Projectile', 'minimum velocity'), ('ProjectileMaterialResponse', 'potential and'),
        ('Scenario', 'script syntax data'), ('Scenario', 'source files'), ('Scenario', 'structure bsps'), ('ScenarioStructureBSPMaterial', 'compressed vertices'), ('ScenarioStructureBSPMaterial', 'uncompressed vertices'),
        ('Sound', 'distance bounds'), ('Sound', 'one gain modifier'), ('Sound', 'one pitch modifier'), ('Sound', 'zero pitch modifier'), ('Sound', 'random pitch bounds'), ('Sound', 'zero gain modifier'),
        ('SoundLooping', 'zero detail sound period'), ('SoundLooping', 'one detail sound period'), ('LightVolume', 'perpendicular brightness scale'), ('LightVolume', 'parallel brightness scale'),
        ('LensFlare', 'rotation function scale'), ('Particle', 'fade start size'), ('Particle', 'fade end size'), ('ModelGeometryPart', 'prev filthy part index'), ('ModelGeometryPart', 'next filthy part index'),
        ('LightColor', 'color'),  ('Sound', 'zero skip fraction modifier'), ('Sound', 'one skip fraction modifier'),
        ('SoundPermutation', 'gain'),
        ('ShaderModelMaps', 'map u scale'), ('ShaderModelMaps', 'map v scale'), ('ShaderTransparentMapParameters', 'map u scale'), ('ShaderTransparentMapParameters', 'map v scale'), ('SoundPermutation', 'samples'), ('SoundPitchRange', 'bend bounds')}

# values with a default of their own, which leave a tag as zero
DEFAULTED = {x for x in FREE if x[0] in ('LensFlare', 'LightColor', 'LightVolume', 'Object', 'Particle', 'ShaderModelMaps', 'ShaderTransparentMapParameters', 'Sound', 'SoundLooping', 'SoundPermutation', 'SoundPitchRange') and x[1] not in ('samples', 'bend bounds', 'radius animation')}
FREE -= DEFAULTED

def diff(a, b):
    """First way in which tag tree b is not what tree a becomes when extracted, or None."""
    if a.name != b.name: return '%s instead of %s' % (b.name, a.name)
    if hasattr(a, 'mesh'):
        n, tri, vb, ib = a.mesh
        q = b if b.name == 'ModelGeometryPart' else b.f[0]
        if n and len(vb) == 32 * n:
            cs = tc.get(q, 'compressed vertices').items
            if len(cs) != n: return '%s has %d vertices instead of %d' % (b.name, len(cs), n)
            us = tc.get(q, 'uncompressed vertices').items
            if len(us) != n: return '%s has %d uncompressed vertices instead of %d' % (b.name, len(us), n)
            for k, v in enumerate(cs):
                y = vb[32 * k:32 * k + 32]; y = swap(y[:24], 4) + swap(y[24:28], 2) + y[28:30] + swap(y[30:32], 2)
                if b''.join(v.f) != y: return '%s has a wrong vertex %d' % (b.name, k)
                u = b''.join(us[k].f)
                if u[:12] != y[:12]: return '%s has a wrong uncompressed vertex %d' % (b.name, k)
                if [*u[56:60]] != [z for q in y[28:30] for z in ((255, 255) if q >= 253 else (0, q // 3))]: return '%s has other nodes in its uncompressed vertex %d' % (b.name, k)
                (w,), z = struct.unpack('>h', y[30:32]), struct.unpack('>2f', u[60:68])
                if abs(z[0] - w / 32767) > 1e-3 or abs(z[1] - 1 + w / 32767) > 1e-3: return '%s has other weights (%g, %g) in its uncompressed vertex %d' % (b.name, *z, k)
                for m in (0, 1):
                    if abs(struct.unpack('>f', u[48 + 4 * m:52 + 4 * m])[0] - struct.unpack('>h', y[24 + 2 * m:26 + 2 * m])[0] / 32767) > 1e-3: return '%s has other texture coordinates in its uncompressed vertex %d' % (b.name, k)
            n = 0
        vs = tc.get(q, 'uncompressed vertices').items
        if n and len(vs) != n: return '%s has %d vertices instead of %d' % (b.name, len(vs), n)
        for k, v in enumerate(vs if n else []):
            x = b''.join(v.f); y = swap(vb[68 * k:68 * k + 56], 4)
            if x[:56] != y or x[60:] != swap(vb[68 * k + 60:68 * k + 68], 4): return '%s has a wrong vertex %d' % (b.name, k)
        got = b''.join(b''.join(t.f) for t in tc.get(q, 'triangle data').items)
        if got.rstrip(b'\xff') != swap(ib, 2): return '%s has wrong triangles' % b.name
    if a.name in WHOLE:
        d = WHOLE[a.name](a, b)
        if d: return d
    i = 0
    for f in OBJS[a.name]['fields']:
        n = 1 if f['type'] == 'pad' else 2 if f.get('bounds') else f.get('count', 1)
        dead = f['type'] == 'pad' or f.get('cache_only') or f.get('exclude')
        for k in range(n):
            u, v = a.f[i], b.f[i]; i += 1
            if not dead and (a.name, f.get('name')) in CONV:
                try: x = CONV[a.name, f['name']](f32(u))
                except (OverflowError, TypeError): continue
                if isinstance(x, float) and not near(x, v, f.get('default')): return '%s %s %g becomes %g instead of %g' % (a.name, f['name'], f32(u), f32(v), x)
                continue
            if not dead and (a.name, f.get('name')) in (('GBXModel', 'flags'), ('Model', 'flags')):
                w = len(u); x, y = int.from_bytes(u, 'big'), int.from_bytes(v, 'big')
                if y != x & ~1: return '%s flags are %x instead of %x' % (a.name, y, x & ~1)
                continue
            if dead or (a.name, f.get('name')) in FREE: continue
            if (a.name, f.get('name')) in DEFAULTED:
                if u != v and any(v): return '%s %s is %s instead of %s' % (a.name, f['name'], v.hex(), u.hex())
                continue
            what = '%s %s' % (a.name, f['name'])
            if isinstance(u, St):
                d = diff(u, v)
                if d: return d
            elif isinstance(u, Refl):
                if len(u.items) != len(v.items): return '%s has %d elements instead of %d' % (what, len(v.items), len(u.items))
                for x, y in zip(u.items, v.items):
                    d = diff(x, y)
                    if d: return d
            elif isinstance(u, Data):
                if u.b != v.b: return '%s has other data (%d bytes, should be %d)' % (what, len(v.b), len(u.b))
            elif isinstance(u, Ref):
                if (u.group, u.path) != (v.group, v.path): return '%s refers to %s.%s instead of %s.%s' % (what, v.path, v.group, u.path, u.group)
            elif u != v and not (f.get('default') is not None and not any(v)): return '%s is %s instead of %s' % (what, v.hex(), u.hex())
    return None

def unfaithful(w, key, b):
    """What is wrong with tag file b as the extraction of this tag of the map, or None."""
    if key in w.want: return None if w.want[key] == b else diff_of(w.tree[key], key[1], b) or 'other bytes'
    return diff_of(w.tree[key], key[1], b)

def diff_of(tree, g, b):
    try: gg, t = tc.parse(b)
    except Exception as e: return 'not readable as a tag file (%r)' % e
    if gg != g: return 'a %s tag instead of %s' % (gg, g)
    return diff(tree, t)
