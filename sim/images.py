"""Small independent reader and writer of the image files the tools use: uncompressed 8-bit TIFF and PNG."""
import struct, zlib

def png(w, h, px, mode=6):
    """px: list of (r, g, b, a)."""
    def chunk(t, d): return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    raw = b''
    for y in range(h):
        raw += b'\0'
        for r, g, b, a in px[y * w:(y + 1) * w]: raw += bytes({6: (r, g, b, a), 2: (r, g, b), 0: (r,), 4: (r, a)}[mode])
    return b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, mode, 0, 0, 0)) + chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b'')

def tiff(w, h, px, mode=6):
    n = {6: 4, 2: 3}[mode]
    data = b''.join(bytes(p[:n]) for p in px)
    off = 8
    bits = off + len(data)
    ents = [(256, 4, 1, w), (257, 4, 1, h), (258, 3, n, bits), (259, 3, 1, 1), (262, 3, 1, 2), (273, 4, 1, off), (277, 3, 1, n), (278, 4, 1, h), (279, 4, 1, len(data)), (284, 3, 1, 1)]
    if n == 4: ents.append((338, 3, 1, 2))
    ifd = bits + 2 * n
    out = b'II*\0' + struct.pack('<I', ifd) + data + struct.pack('<H', 8) * n + struct.pack('<H', len(ents))
    for t, ty, c, v in ents: out += struct.pack('<HHI', t, ty, c) + (struct.pack('<HH', v, 0) if ty == 3 and c == 1 else struct.pack('<I', v))
    return out + struct.pack('<I', 0)

def read_tiff(b):
    """(w, h, [(r, g, b, a)]) of an uncompressed 8-bit RGBA TIFF; ValueError if it is not a complete one."""
    try:
        if b[:4] != b'II*\0': raise ValueError('magic')
        p, = struct.unpack_from('<I', b, 4)
        n, = struct.unpack_from('<H', b, p)
        e = {}
        for i in range(n):
            t, ty, c, v = struct.unpack_from('<HHII', b, p + 2 + 12 * i)
            sz = {1: 1, 3: 2, 4: 4}.get(ty)
            if not sz: continue
            at = p + 2 + 12 * i + 8 if sz * c <= 4 else v
            e[t] = [struct.unpack_from({1: '<B', 3: '<H', 4: '<I'}[ty], b, at + sz * k)[0] for k in range(c)]
        if e[258] != [8, 8, 8, 8] or e[259] != [1] or e[277] != [4]: raise ValueError('format')
        w, h = e[256][0], e[257][0]
        data = b''
        for o, l in zip(e[273], e[279]):
            if o + l > len(b): raise ValueError('strip cut off')
            data += b[o:o + l]
        if len(data) != w * h * 4: raise ValueError('size %d of %d' % (len(data), w * h * 4))
        return w, h, [tuple(data[i:i + 4]) for i in range(0, len(data), 4)]
    except (struct.error, KeyError, IndexError) as x: raise ValueError(str(x))

def read_tiff_any(b):
    """(w, h, px) of a TIFF written by tiff(), None if it is not a whole one."""
    try:
        p, = struct.unpack_from('<I', b, 4); n, = struct.unpack_from('<H', b, p)
        if b[:4] != b'II*\0': return None
        e = {}
        for i in range(n):
            t, ty, c, v = struct.unpack_from('<HHII', b, p + 2 + 12 * i)
            e[t] = v & 0xffff if ty == 3 else v
        w, h, c = e[256], e[257], e[277]
        d = b[e[273]:e[273] + e[279]]
        if len(d) != w * h * c or p + 2 + 12 * n + 4 > len(b): return None
        return w, h, [tuple(d[i:i + c]) + ((255,) if c == 3 else ()) for i in range(0, len(d), c)]
    except (struct.error, KeyError): return None

def read_png(b):
    """(w, h, px) of a PNG written by png(), None if it is not a whole one."""
    try:
        if b[:8] != b'\x89PNG\r\n\x1a\n': return None
        p, ch = 8, {}
        while p < len(b):
            n, = struct.unpack_from('>I', b, p); t, d = b[p + 4:p + 8], b[p + 8:p + 8 + n]
            if len(d) < n or struct.unpack_from('>I', b, p + 8 + n)[0] != zlib.crc32(t + d): return None
            ch[t] = d; p += 12 + n
        w, h, _, mode = struct.unpack_from('>IIBB', ch[b'IHDR'])
        raw = zlib.decompress(ch[b'IDAT']); c = {6: 4, 2: 3, 0: 1, 4: 2}[mode]
        if b'IEND' not in ch or len(raw) != h * (1 + w * c): return None
        px = []
        for y in range(h):
            for x in range(w):
                v = raw[y * (1 + w * c) + 1 + x * c:][:c]
                px.append(tuple(v) if c == 4 else tuple(v) + (255,) if c == 3 else (v[0],) * 3 + ((v[1],) if c == 2 else (255,)))
        return w, h, px
    except (struct.error, KeyError, zlib.error): return None

def plate(seqs, pad=None):
    """Color plate of [[(w, h, px)]] according to the format's description: (w, h, px)."""
    used = {(r, g, b) for s in seqs for _, _, px in s for r, g, b, a in px}
    blue, magenta = (0, 0, 255), (255, 0, 255)
    def first(ex, rev):
        for n in range(1 << 24):
            c = (n >> 16, n >> 8 & 255, n & 255)
            if rev: c = tuple(255 - x for x in c)
            if c not in ex and c not in used: return c
    bg = blue
    if pad == bg or bg in used: bg = first({pad, magenta}, True)
    dv = magenta
    if pad == dv or dv in used: dv = first({pad, bg}, False)
    w = max([4] + [sum(i[0] + 2 for i in s) for s in seqs])
    hs = [max([0] + [i[1] for i in s]) + 3 for s in seqs]
    h = 1 + sum(hs)
    out = [bg + (255,)] * (w * h)
    out[1] = dv + (255,)
    if pad: out[2] = pad + (255,)
    y = 3
    for s, sh in zip(seqs, hs):
        for x in range(w): out[(y - 2) * w + x] = dv + (255,)
        x = 1
        for iw, ih, px in s:
            for j in range(ih):
                for i in range(iw): out[x + i + (y + j) * w] = px[i + j * iw]
            x += iw + 2
        y += sh
    return w, h, out
