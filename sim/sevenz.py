"""Minimal reader of 7z archives (LZMA, LZMA2 and copy coders, any folder/substream layout) for judging archives."""
import lzma, struct, zlib

class Bad(Exception): pass

class _R:
    def __init__(s, b): s.b, s.i = b, 0
    def byte(s):
        if s.i >= len(s.b): raise Bad('header ends early')
        s.i += 1; return s.b[s.i - 1]
    def take(s, n):
        if s.i + n > len(s.b): raise Bad('header ends early')
        s.i += n; return s.b[s.i - n:s.i]
    def num(s):
        f = s.byte(); m = 0x80; v = 0
        for i in range(8):
            if not f & m: return v | ((f & (m - 1)) << (8 * i))
            v |= s.byte() << (8 * i); m >>= 1
        return v
    def bits(s, n):
        out = []; m = 0
        for _ in range(n):
            if m == 0: b = s.byte(); m = 0x80
            out.append(bool(b & m)); m >>= 1
        return out
    def defined(s, n): return [True] * n if s.byte() else s.bits(n)
    def u32(s): return struct.unpack('<I', s.take(4))[0]

def _digests(r, n):
    d = r.defined(n)
    return [r.u32() if x else None for x in d]

def _streams(r):
    pack = []; folders = []; pos = 0; sub = None
    while True:
        t = r.num()
        if t == 0: break
        if t == 6:
            pos = r.num(); n = r.num(); pack = [0] * n
            while True:
                k = r.num()
                if k == 0: break
                if k == 9: pack = [r.num() for _ in range(n)]
                elif k == 10: _digests(r, n)
                else: raise Bad('pack info %d' % k)
        elif t == 7:
            if r.num() != 11: raise Bad('folder')
            n = r.num()
            if r.byte(): raise Bad('external')
            for _ in range(n):
                coders = []
                nc = r.num()
                for _ in range(nc):
                    f = r.byte(); cid = r.take(f & 15)
                    ni = no = 1
                    if f & 16: ni, no = r.num(), r.num()
                    props = r.take(r.num()) if f & 32 else b''
                    coders.append((cid, props))
                    if (ni, no) != (1, 1): raise Bad('complex coder')
                if nc != 1: raise Bad('%d coders' % nc)
                folders.append({'coders': coders})
            if r.num() != 12: raise Bad('sizes')
            for f in folders: f['size'] = r.num()
            while True:
                k = r.num()
                if k == 0: break
                if k == 10:
                    for f, d in zip(folders, _digests(r, n)): f['crc'] = d
                else: raise Bad('unpack info %d' % k)
        elif t == 8:
            nums = [1] * len(folders); sub = True; sizes = None; crcs = None
            k = r.num()
            if k == 13: nums = [r.num() for _ in folders]; k = r.num()
            sizes = []
            for f, n in zip(folders, nums):
                s = []
                if n:
                    for _ in range(n - 1): s.append(r.num() if k == 9 else 0)
                    s.append(f['size'] - sum(s))
                sizes.append(s)
            if k == 9: k = r.num()
            need = [(i, j) for i, s in enumerate(sizes) for j in range(len(s)) if not (len(s) == 1 and folders[i].get('crc') is not None)]
            crcs = [[folders[i].get('crc')] * len(s) for i, s in enumerate(sizes)]
            while k != 0:
                if k == 10:
                    for (i, j), d in zip(need, _digests(r, len(need))): crcs[i][j] = d
                else: raise Bad('substreams %d' % k)
                k = r.num()
            for f, s, c in zip(folders, sizes, crcs): f['sub'] = s; f['subcrc'] = c
        else: raise Bad('streams %d' % t)
    for f in folders:
        if 'sub' not in f: f['sub'] = [f['size']]; f['subcrc'] = [f.get('crc')]
    return pos, pack, folders

def _decode(cid, props, data, size):
    if cid == b'\x21': filt = {'id': lzma.FILTER_LZMA2, 'dict_size': 1 << 26 if props[0] > 30 else (2 | (props[0] & 1)) << (props[0] // 2 + 11)}
    elif cid == b'\x03\x01\x01':
        d = props[0]; filt = {'id': lzma.FILTER_LZMA1, 'lc': d % 9, 'lp': d // 9 % 5, 'pb': d // 45, 'dict_size': max(4096, struct.unpack('<I', props[1:5])[0])}
    elif cid == b'\0': return data[:size]
    else: raise Bad('coder %r' % cid)
    try: out = lzma.LZMADecompressor(lzma.FORMAT_RAW, filters=[filt]).decompress(data, size)
    except lzma.LZMAError as e: raise Bad('lzma: %s' % e)
    if len(out) != size: raise Bad('stream is short')
    return out

def _unpack(b, pos, pack, folders):
    at = 32 + pos; out = []
    for f, n in zip(folders, pack):
        if at + n > len(b): raise Bad('packed stream is cut')
        out.append(_decode(*f['coders'][0], b[at:at + n], f['size'])); at += n
        if f.get('crc') is not None and zlib.crc32(out[-1]) != f['crc']: raise Bad('folder checksum')
    return out

def read(b):
    """[(name, bytes)] in the order of the archive; Bad if it is damaged in any way."""
    if len(b) < 32 or b[:6] != b"7z\xbc\xaf'\x1c": raise Bad('signature')
    if zlib.crc32(b[12:32]) != struct.unpack('<I', b[8:12])[0]: raise Bad('start header checksum')
    off, size, crc = struct.unpack('<QQI', b[12:32])
    if size == 0: return []
    h = b[32 + off:32 + off + size]
    if len(h) != size: raise Bad('archive is cut')
    if zlib.crc32(h) != crc: raise Bad('header checksum')
    r = _R(h)
    t = r.num()
    while t == 23:
        h = _unpack(b, *_streams(r))[0]
        r = _R(h); t = r.num()
    if t != 1: raise Bad('header')
    pos = pack = None; folders = []; names = []; empty = []
    while True:
        t = r.num()
        if t == 0: break
        if t == 4: pos, pack, folders = _streams(r)
        elif t == 5:
            n = r.num()
            while True:
                k = r.num()
                if k == 0: break
                sz = r.num(); body = _R(r.take(sz))
                if k == 17:
                    if body.byte(): raise Bad('external')
                    names = body.b[1:].decode('utf-16-le').split('\0')[:-1]
                elif k == 14: empty = body.bits(n)
            if len(names) != n: raise Bad('names')
            empty = empty or [False] * n
        else: raise Bad('header %d' % t)
    data = []
    if folders:
        for f, raw in zip(folders, _unpack(b, pos, pack, folders)):
            i = 0
            for s, c in zip(f['sub'], f['subcrc']):
                x = raw[i:i + s]; i += s
                if c is not None and zlib.crc32(x) != c: raise Bad('file checksum')
                data.append(x)
    out = []; k = 0
    for nm, e in zip(names, empty):
        if e: out.append((nm, b''))
        else:
            if k >= len(data): raise Bad('missing stream')
            out.append((nm, data[k])); k += 1
    if k != len(data): raise Bad('extra stream')
    return out
