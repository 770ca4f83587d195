"""Runs the real tool inside the simulator in a scratch directory and records everything observable."""
import atexit, ctypes, hashlib, os, re, shutil, subprocess, tempfile, zlib
import build

# no address space randomisation in the simulated processes (inherited): one source of nondeterminism less
try: ctypes.CDLL(None).personality(0x0040000)
except Exception: pass

BASE = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
TOP = None

def scratch_top():
    global TOP
    if TOP is None:
        TOP = os.path.join(BASE, 'vsim-%07d' % os.getpid())
        shutil.rmtree(TOP, ignore_errors=True)
        os.makedirs(TOP)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(TOP, ignore_errors=True))
    return TOP

class Run:
    """One simulated execution."""
    __slots__ = ('argv', 'conf', 'rc', 'out', 'err', 'log', 'fs', 'end', '_ops', '_sw', '_faults', 'timeout')
    def _parse(s):
        s.end, s._ops, s._sw, s._faults = {}, [], [], []
        for l in s.log.split('\n'):
            if not l: continue
            c = l[0]
            if c == 'S': _, a, b = l.split(' '); s._sw.append((int(a), int(b)))
            elif c == 'O': s._ops.append(l)
            elif l.startswith('END '):
                p = l.split(' '); s.end = dict(x.split('=', 1) for x in p[2:] if '=' in x); s.end['how'] = p[1]
            elif l.startswith('FAULT '): s._faults.append(l)
    @property
    def how(s): return s.end.get('how', 'none')
    def ops(s): return s._ops
    def switches(s): return s._sw
    def faults_fired(s):
        out = []
        for l in s._faults:
            m = re.match(r'FAULT (\S+) (\S+) (\S+) (\S+) .* seen=(\d+) fired=(\d+)$', l)
            out.append((m.group(1), m.group(3), int(m.group(5)), int(m.group(6))))
        return out
    def lines(s): return s.out.decode('utf-8', 'replace').splitlines()

def snapshot(root):
    """path -> bytes (files) / None (directories), relative to root."""
    out = {}
    stack = ['']
    while stack:
        d = stack.pop()
        with os.scandir(os.path.join(root, d) if d else root) as it:
            for e in it:
                p = d + '/' + e.name if d else e.name
                if e.is_symlink(): out[p] = b'-> ' + os.readlink(e.path).encode()
                elif e.is_dir(): out[p] = None; stack.append(p)
                else:
                    with open(e.path, 'rb') as f: out[p] = f.read()
    return out

def key(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, dict):
            for k in sorted(p): h.update(repr(k).encode()); v = p[k]; h.update(v if isinstance(v, bytes) else repr(v).encode()); h.update(b'\1')
        else: h.update(repr(p).encode())
        h.update(b'\0')
    return h.hexdigest()

REPLAY_KEYS = ('strategy', 'gap', 'opsprob', 'pctd', 'pctk', 'spurious')

class Runner:
    def __init__(s, index, top=None, binary=None):
        s.top = top or scratch_top()
        s.index = index
        s.root = os.path.join(s.top, 'w%02d' % index, 'r')
        s.side = os.path.join(s.top, 'w%02d' % index, 's')
        os.makedirs(s.root, exist_ok=True); os.makedirs(s.side, exist_ok=True)
        s.binary = binary or build.INVADER
        s.memo = {}
        s.nontrivial = False; s.tags = []; s.judged = None
        s.cur = None        # what is on disk now, if known
        s.stats = {'runs': 0, 'ref_runs': 0, 'steps': 0, 'switches': 0, 'ops': 0, 'simns': 0, 'spur': 0, 'jumps': 0, 'multi': 0,
                   'threads': 0, 'edges': 0, 'faults': {}, 'strategies': {}, 'how': {}}
        s.shashes = set()

    # ---- file system of the run
    def put(s, files):
        """Makes the scratch root hold exactly `files` (path -> bytes, None for a directory)."""
        root = s.root
        cur = s.cur
        if cur is None:
            for e in os.scandir(root):
                if e.is_dir(follow_symlinks=False): shutil.rmtree(e.path)
                else: os.unlink(e.path)
            cur = {}
        want = dict(files)
        for p in list(files):
            d = os.path.dirname(p)
            while d and d not in want: want[d] = None; d = os.path.dirname(d)
        for p in sorted(cur, key=len, reverse=True):
            if p not in want or (want[p] is None) != (cur[p] is None):
                fp = root + '/' + p
                if cur[p] is None: os.rmdir(fp)
                else: os.unlink(fp)
        for p in sorted(want, key=len):
            v = want[p]
            if p in cur and (cur[p] is None) == (v is None) and cur[p] == v: continue
            fp = root + '/' + p
            if v is None: os.makedirs(fp, exist_ok=True)
            else:
                with open(fp, 'wb') as f: f.write(v)
        s.cur = want

    @staticmethod
    def put_view(files):
        """What put() makes of the files: with the folders above them."""
        want = dict(files)
        for p in list(files):
            d = os.path.dirname(p)
            while d and d not in want: want[d] = None; d = os.path.dirname(d)
        return want

    def run(s, files, argv, conf=None, ref=False, keep=False, binary=None, stdin=None):
        """files=None continues on the file system the previous run left."""
        if files is not None: s.put(files)
        conf = dict(conf or {})
        c = {'seed': 1, 'shuffle': 1, 'strategy': 'none', 'maxsteps': 60000000}
        c.update(conf)
        faults = c.pop('faults', [])
        cf, lf, of, ef = (s.side + '/' + x for x in ('conf', 'log', 'out', 'err'))
        with open(cf, 'w') as f:
            f.write('root=%s\nlog=%s\n' % (s.root, lf))
            for k, v in c.items():
                if k == 'replay':
                    if v is not None: f.write('replay=%s\n' % ','.join('%d:%d' % tuple(x) for x in v))
                else: f.write('%s=%s\n' % (k, v))
            for x in faults: f.write('fault=%s\n' % x)
        try: os.unlink(lf)
        except FileNotFoundError: pass
        env = {'SIM_CONF': cf, 'LD_PRELOAD': build.LIBSIM, 'PATH': '/usr/bin:/bin', 'LANG': 'C', 'RUST_BACKTRACE': '0'}
        r = Run(); r.argv = argv; r.conf = conf; r.timeout = False
        with open(of, 'wb') as o, open(ef, 'wb') as e:
            p = subprocess.Popen([binary or s.binary] + argv, cwd=s.root, env=env, stdin=subprocess.DEVNULL, stdout=o, stderr=e, close_fds=False)
            try: r.rc = p.wait(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); r.rc = -9; r.timeout = True
        with open(of, 'rb') as f: r.out = f.read()
        with open(ef, 'rb') as f: r.err = f.read()
        try:
            with open(lf) as f: r.log = f.read()
        except FileNotFoundError: r.log = ''
        r._parse()
        s.cur = None
        r.fs = snapshot(s.root)
        s.cur = r.fs
        st = s.stats
        st['ref_runs' if ref else 'runs'] += 1
        e = r.end
        if e:
            st['steps'] += int(e['steps']); st['switches'] += int(e['switches']); st['ops'] += int(e['ops']); st['simns'] += int(e['simns'])
            st['spur'] += int(e['spur']); st['jumps'] += int(e['jumps']); st['multi'] += int(e['multi'])
            st['threads'] = max(st['threads'], int(e['threads'])); st['edges'] = max(st['edges'], int(e['edges']))
            s.shashes.add(int(e['shash'], 16) ^ zlib.crc32(repr([x[:3] for x in r.faults_fired()]).encode()) ^ (int(e['steps']) << 20))
        st['how'][r.how] = st['how'].get(r.how, 0) + 1
        if not ref:
            k = 'replay' if conf.get('replay') is not None else c['strategy']
            st['strategies'][k] = st['strategies'].get(k, 0) + 1
        for cls, kind, seen, fired in r.faults_fired():
            if fired:
                k = cls + ':' + kind
                st['faults'][k] = st['faults'].get(k, 0) + 1
        if c.get('space') is not None and ' ENOSPC' in r.log and any('FAULT ENOSPC' in o or 'nospace' in o for o in r.ops()):
            st['faults']['disk-full'] = st['faults'].get('disk-full', 0) + 1
        return r

    def ref(s, files, argv, conf=None):
        """Fault-free sequential reference run, remembered."""
        k = key(files, argv, conf or {})
        v = s.memo.get(k)
        if v is None:
            if len(s.memo) > 4000: s.memo.clear()
            v = s.memo[k] = s.run(files, argv, conf, ref=True)
        return v

def schedule_of(run):
    """The scheduling decisions of a run, for exact replay."""
    return [list(x) for x in run.switches()]
