"""Builds the simulator, the instrumented tool and the library driver from /repo's current working tree.

cargo decides by modification time; a copied tree can carry old times with new contents, so a content hash of the
sources forces a rebuild (by touching nothing in /repo: the target directory's fingerprints are dropped instead)."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_B') or os.path.join(VERIF, '.build')
TARGET = os.path.join(B, 'target')
LIBSIM = os.path.join(B, 'libsim.so')
INVADER = os.path.join(TARGET, 'debug', 'invader')
DRIVER = os.path.join(TARGET, 'debug', 'simdriver')
OUR = ('ringhopper', 'invader', 'simdriver')

def tree_hash(top, skip=('target', '.git')):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, top).encode() + b'\0')
            try:
                with open(p, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
            except OSError: pass
    return h.hexdigest()

def build(driver=False, quiet=True):
    os.makedirs(B, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(VERIF, 'sim', 'libsim.c')
        sh = hashlib.sha256(open(src, 'rb').read()).hexdigest()
        stamp = os.path.join(B, 'libsim.stamp')
        if not (os.path.exists(LIBSIM) and os.path.exists(stamp) and open(stamp).read() == sh):
            subprocess.check_call(['gcc', '-O2', '-Wall', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fPIC', '-shared',
                                   '-Wl,-soname,libsim.so', '-o', LIBSIM + '.new', src, '-ldl', '-lpthread'])
            os.rename(LIBSIM + '.new', LIBSIM)
            open(stamp, 'w').write(sh)
        h = tree_hash(REPO)
        wrap = open(os.path.join(VERIF, 'sim', 'rustc-wrap.sh'), 'rb').read()
        h = hashlib.sha256((h + sh).encode() + wrap).hexdigest()
        hd = hashlib.sha256((h + tree_hash(os.path.join(VERIF, 'simdriver'))).encode()).hexdigest() if driver else None
        env = {k: v for k, v in os.environ.items() if not k.startswith('CARGO') and k not in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'LD_PRELOAD', 'SIM_CONF')}
        for k in ('CARGO_HOME',):
            if k in os.environ: env[k] = os.environ[k]
        env.update(SIM_LIB=LIBSIM, RUSTC_WRAPPER=os.path.join(VERIF, 'sim', 'rustc-wrap.sh'), CARGO_INCREMENTAL='0')
        def cargo(cwd, args, stampname, want, binary, locked=True, forget=('ringhopper', 'invader', 'simdriver')):
            st = os.path.join(B, stampname)
            if os.path.exists(binary) and os.path.exists(st) and open(st).read() == want: return
            fp = os.path.join(TARGET, 'debug', '.fingerprint')
            if os.path.isdir(fp):
                # forget what cargo believes about the crates of the repository
                for x in os.listdir(fp):
                    n = x.rsplit('-', 1)[0]
                    if n.startswith(forget): shutil.rmtree(os.path.join(fp, x))
            if os.path.exists(st): os.unlink(st)
            r = subprocess.run(['cargo', 'build', '--offline'] + (['--locked'] if locked else []) + ['--target-dir', TARGET] + args, cwd=cwd, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                sys.stdout.write(r.stdout[-6000:])
                print('BUILD FAILED')
                sys.exit(2)
            open(st, 'w').write(want)
        cargo(REPO, ['-p', 'invader'], 'invader.stamp', h, INVADER)
        if driver:
            # a copy, with the dependency versions of the repository and the repository that is meant
            d = os.path.join(B, 'simdriver')
            os.makedirs(os.path.join(d, 'src'), exist_ok=True)
            t = open(os.path.join(VERIF, 'simdriver', 'Cargo.toml')).read().replace('"/repo/', '"%s/' % REPO)
            open(os.path.join(d, 'Cargo.toml'), 'w').write(t)
            shutil.copyfile(os.path.join(VERIF, 'simdriver', 'src', 'main.rs'), os.path.join(d, 'src', 'main.rs'))
            shutil.copyfile(os.path.join(REPO, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
            cargo(d, [], 'driver.stamp', hd, DRIVER, locked=False, forget=('simdriver',))   # the rest is what the tool was just built from
    if not quiet: print('build %.1f s' % (time.time() - t0))
    return time.time() - t0

if __name__ == '__main__':
    build(driver='driver' in sys.argv[1:], quiet=False)
