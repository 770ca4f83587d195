/*
 * libsim: deterministic simulator for an unmodified, multi-threaded Linux process.
 *
 * Linked in front of libc, it owns every source of nondeterminism the program under test has:
 *   - threads:   pthread_create/join are wrapped; real threads exist but exactly one holds the baton, and a seeded
 *                scheduler decides who runs at every basic block of the instrumented crates
 *                (__sanitizer_cov_trace_pc_guard), every futex operation and every file operation;
 *   - locks:     all Rust std synchronisation is syscall(SYS_futex); wait queues are modelled here, so a deadlock is
 *                "nobody runnable" and a lost wake-up cannot hide; spurious wake-ups can be injected;
 *   - clocks:    clock_gettime/nanosleep run on a simulated clock that advances with steps and jumps on demand;
 *   - randomness: getrandom is a PRNG (so HashMap iteration order is a function of the seed);
 *   - disk:      open/read/write/rename/mkdir/... below SIM root are logged, are scheduling points and can fail,
 *                be short, be torn, run out of space or crash the process; readdir order is a seeded permutation.
 *
 * Everything is a pure function of the configuration (SIM_CONF, a file), so one configuration is one execution.
 */
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 256
#define MAXFD 4096
#define MAXFAULT 64
#define MAXSCHED 200000

/* ------------------------------------------------------------------ raw system calls */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long ret(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* ------------------------------------------------------------------ PRNG (splitmix64), one stream per purpose */
typedef struct { uint64_t s; } rng_t;
static uint64_t rnext(rng_t *r) {
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t rbelow(rng_t *r, uint64_t n) { return n ? rnext(r) % n : 0; }

/* ------------------------------------------------------------------ configuration */
enum { ST_NONE = 0, ST_GEOM, ST_OPS, ST_PCT };
static int on;                       /* simulator active */
static char root[PATH_MAX];          /* prefix of the simulated file system */
static size_t rootlen;
static char logpath[PATH_MAX];
static int strategy = ST_NONE;
static uint64_t gap = 1000;          /* mean steps between preemptions */
static int opsprob = 0;              /* per mille: switch at an operation */
static uint64_t maxsteps = 2000000000ull;
static int ncpu = 4;
static uint64_t clk = 1000000000ull; /* simulated ns */
static uint64_t clk_start;
static uint64_t clkstep = 50;        /* ns per step */
static uint64_t clkjump = 0;         /* per mille: chance of a forward jump at an operation */
static int spurious = 0;             /* per mille: spurious futex wake-up */
static int64_t space = -1;           /* bytes until ENOSPC */
static int shuffle_dirs = 1;
static int log_ops = 1;
static int pct_d = 0;
static uint64_t pct_k = 100000;
static rng_t r_sched, r_rand, r_dir, r_misc;

struct fault { char cls[16]; long n; int plus; char kind[16]; long arg; char sub[256]; long seen; long fired; };
static struct fault faults[MAXFAULT];
static int nfaults;

/* replay: explicit scheduling decisions */
static int replay;
static struct { uint64_t step; int tid; } *sch;
static int nsch, isch;

/* ------------------------------------------------------------------ log */
static char *lg; static size_t lgn, lgcap;
static void lgw(const char *s, size_t n) {
    if (lgn + n + 1 > lgcap) {
        size_t nc = lgcap ? lgcap * 2 : 1 << 18;
        while (nc < lgn + n + 1) nc *= 2;
        /* grow with mmap so that the program's heap is not disturbed */
        char *p = (char *)RAW(SYS_mmap, 0, nc, 3, 0x22, -1, 0);
        if (lg) { memcpy(p, lg, lgn); RAW(SYS_munmap, lg, lgcap); }
        lg = p; lgcap = nc;
    }
    memcpy(lg + lgn, s, n); lgn += n;
}
static void lgf(const char *fmt, ...) {
    char b[PATH_MAX * 2 + 256];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    lgw(b, n);
}

/* ------------------------------------------------------------------ threads */
enum { T_FREE = 0, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
struct thr {
    int state;
    uint32_t go;              /* futex word: 1 when this thread has the baton */
    uint32_t *faddr; uint32_t fbits; uint64_t deadline; int woken; int timed;
    int joinee;
    pthread_t pt; int ptset;
    uint64_t prio;
    void *(*fn)(void *); void *arg;
};
static struct thr T[MAXT];
static int nthr = 1;
static int cur = 0;
static __thread int me = -1;
static pthread_key_t dtor_key;
static uint64_t step_;            /* scheduling points passed */
static uint64_t next_pre = ~0ull; /* next preemption step */
static uint64_t nswitch, nops, nblocked, npoints_multi;
static uint64_t shash = 1469598103934665603ull;  /* hash of the interleaving */
static uint64_t edges_hit;
static uint64_t nspur, njump;
static int exiting;

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static DIR *(*real_opendir)(const char *);
static struct dirent64 *(*real_readdir)(DIR *);
static int (*real_closedir)(DIR *);

static void finish_log(const char *how, int code) {
    lgf("END %s code=%d steps=%llu switches=%llu ops=%llu blocked=%llu threads=%d simns=%llu shash=%016llx edges=%llu spur=%llu jumps=%llu multi=%llu\n",
        how, code, (unsigned long long)step_, (unsigned long long)nswitch, (unsigned long long)nops,
        (unsigned long long)nblocked, nthr, (unsigned long long)(clk - clk_start), (unsigned long long)shash,
        (unsigned long long)edges_hit, (unsigned long long)nspur, (unsigned long long)njump, (unsigned long long)npoints_multi);
    for (int i = 0; i < nfaults; i++)
        lgf("FAULT %s %ld%s %s %ld %s seen=%ld fired=%ld\n", faults[i].cls, faults[i].n, faults[i].plus ? "+" : "",
            faults[i].kind, faults[i].arg, faults[i].sub[0] ? faults[i].sub : "-", faults[i].seen, faults[i].fired);
    if (!logpath[0]) return;
    long fd = RAW(SYS_open, logpath, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    size_t o = 0;
    while (o < lgn) { long w = RAW(SYS_write, fd, lg + o, lgn - o); if (w <= 0) break; o += w; }
    RAW(SYS_close, fd);
}
static void die(const char *how, int code) {
    exiting = 1;
    finish_log(how, code);
    RAW(SYS_exit_group, code);
    __builtin_unreachable();
}

static void give(int t) {
    __atomic_store_n(&T[t].go, 1, __ATOMIC_SEQ_CST);
    RAW(SYS_futex, &T[t].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void await_baton(int t) {
    while (!__atomic_load_n(&T[t].go, __ATOMIC_SEQ_CST))
        RAW(SYS_futex, &T[t].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&T[t].go, 0, __ATOMIC_SEQ_CST);
}

static void new_gap(void) {
    if (strategy == ST_GEOM || strategy == ST_PCT) {
        uint64_t g = strategy == ST_PCT ? pct_k / (pct_d + 1) + 1 : gap;
        /* uniform in [1, 2g]: mean g */
        next_pre = step_ + 1 + rbelow(&r_sched, 2 * g);
    } else next_pre = ~0ull;
}

static int runnable(int t) { return T[t].state == T_RUN; }
static int count_runnable(void) { int n = 0; for (int i = 0; i < nthr; i++) n += runnable(i); return n; }

/* wake timed sleepers when nobody can run */
static int advance_time(void) {
    uint64_t best = ~0ull; int who = -1;
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_SLEEP || (T[i].state == T_FUTEX && T[i].timed)) && T[i].deadline < best) { best = T[i].deadline; who = i; }
    if (who < 0) return 0;
    if (best > clk) clk = best;
    T[who].state = T_RUN; T[who].woken = 0;
    return 1;
}

/* choose who runs next. `must` = the current thread cannot continue. */
static int choose(int must) {
    int n = count_runnable();
    while (n == 0) {
        if (!advance_time()) {
            lgf("DEADLOCK");
            for (int i = 0; i < nthr; i++)
                if (T[i].state == T_FUTEX || T[i].state == T_JOIN) lgf(" t%d:%s", i, T[i].state == T_FUTEX ? "lock" : "join");
            lgf("\n");
            die("deadlock", 86);
        }
        n = count_runnable();
    }
    if (replay) {
        if (isch < nsch && sch[isch].step == step_) {
            int t = sch[isch++].tid;
            if (t < nthr && runnable(t)) return t;
        }
        if (!must && runnable(cur)) return cur;
        for (int i = 0; i < nthr; i++) if (runnable(i)) return i;
    }
    if (strategy == ST_NONE) {
        if (!must && runnable(cur)) return cur;
        for (int i = 0; i < nthr; i++) if (runnable(i)) return i;
    }
    if (strategy == ST_PCT) {
        int b = -1;
        for (int i = 0; i < nthr; i++) if (runnable(i) && (b < 0 || T[i].prio > T[b].prio)) b = i;
        return b;
    }
    int k = rbelow(&r_sched, n);
    for (int i = 0; i < nthr; i++) if (runnable(i) && k-- == 0) return i;
    return cur;
}

static void switch_to(int t, int from_blocks) {
    int self = me;
    if (t == self && !from_blocks) return;
    if (t != self) {
        nswitch++;
        lgf("S %llu %d\n", (unsigned long long)step_, t);
        shash = (shash ^ (step_ * 131 + t)) * 1099511628211ull;
        cur = t;
        give(t);
        await_baton(self);
    }
}

/* a decision point at which the current thread stays runnable */
static void decide(void) {
    int t = choose(0);
    if (t != me) switch_to(t, 0);
}
/* the current thread has been put into a blocked state */
static void block(void) {
    nblocked++;
    step_++;
    int t = choose(1);
    if (t != me) switch_to(t, 1);
    else if (replay == 0) { /* unblocked by time advance */ }
}

static void bump(void) {
    step_++;
    clk += clkstep;
    if (step_ > maxsteps) { lgf("LIVELOCK\n"); die("livelock", 87); }
}

static int active(void) { return on && me >= 0 && !exiting; }

/* point inside straight-line code */
static inline void code_point(void) {
    bump();
    if (nthr < 2) return;
    if (replay) {
        if (isch < nsch && sch[isch].step == step_) decide();
        return;
    }
    if (step_ >= next_pre) {
        new_gap();
        npoints_multi++;
        if (strategy == ST_PCT) {
            /* priority change point: the running thread drops to the bottom */
            static uint64_t low = 1ull << 40;
            T[me].prio = --low;
        }
        decide();
    }
}
/* point at an operation (file system, lock, thread) */
static void op_point(void) {
    bump();
    nops++;
    if (clkjump && rbelow(&r_misc, 1000) < clkjump) { clk += 1000000ull * (1 + rbelow(&r_misc, 10000000)); njump++; }
    if (nthr < 2) return;
    if (replay) {
        if (isch < nsch && sch[isch].step == step_) decide();
        return;
    }
    if (strategy == ST_PCT) { decide(); return; }
    if (strategy != ST_NONE && opsprob && (int)rbelow(&r_sched, 1000) < opsprob) decide();
}

EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    static uint32_t n;
    if (a == b || *a) return;
    for (uint32_t *p = a; p < b; p++) *p = ++n;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!on || me < 0 || exiting) return;
    if (*g) {
        /* coverage measure: distinct instrumented blocks reached */
        if (!(*g & 0x80000000u)) { *g |= 0x80000000u; edges_hit++; }
    }
    code_point();
}

/* ------------------------------------------------------------------ configuration parsing */
static void parse_conf(const char *path) {
    long fd = RAW(SYS_open, path, O_RDONLY, 0);
    if (fd < 0) return;
    struct stat st;
    static char small[65536];
    char *b = small; size_t cap = sizeof small, n = 0;
    (void)st;
    for (;;) {
        if (n + 1 >= cap) {
            char *p = (char *)RAW(SYS_mmap, 0, cap * 2, 3, 0x22, -1, 0);
            memcpy(p, b, n); b = p; cap *= 2;
        }
        long r = RAW(SYS_read, fd, b + n, cap - 1 - n);
        if (r <= 0) break;
        n += r;
    }
    RAW(SYS_close, fd);
    b[n] = 0;
    uint64_t seed = 1, rseed = 0, dseed = 0; int have_r = 0, have_d = 0;
    for (char *l = b; *l;) {
        char *e = strchr(l, '\n');
        if (e) *e = 0;
        char *v = strchr(l, '=');
        if (v) {
            *v++ = 0;
            if (!strcmp(l, "seed")) seed = strtoull(v, 0, 10);
            else if (!strcmp(l, "rseed")) { rseed = strtoull(v, 0, 10); have_r = 1; }
            else if (!strcmp(l, "dseed")) { dseed = strtoull(v, 0, 10); have_d = 1; }
            else if (!strcmp(l, "root")) { snprintf(root, sizeof root, "%s", v); rootlen = strlen(root); }
            else if (!strcmp(l, "log")) snprintf(logpath, sizeof logpath, "%s", v);
            else if (!strcmp(l, "strategy")) strategy = !strcmp(v, "geom") ? ST_GEOM : !strcmp(v, "ops") ? ST_OPS : !strcmp(v, "pct") ? ST_PCT : ST_NONE;
            else if (!strcmp(l, "gap")) gap = strtoull(v, 0, 10);
            else if (!strcmp(l, "opsprob")) opsprob = atoi(v);
            else if (!strcmp(l, "maxsteps")) maxsteps = strtoull(v, 0, 10);
            else if (!strcmp(l, "aslimit")) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = strtoull(v, 0, 10); setrlimit(RLIMIT_AS, &rl); }
            else if (!strcmp(l, "ncpu")) ncpu = atoi(v);
            else if (!strcmp(l, "clkstep")) clkstep = strtoull(v, 0, 10);
            else if (!strcmp(l, "clkjump")) clkjump = strtoull(v, 0, 10);
            else if (!strcmp(l, "spurious")) spurious = atoi(v);
            else if (!strcmp(l, "space")) space = strtoll(v, 0, 10);
            else if (!strcmp(l, "shuffle")) shuffle_dirs = atoi(v);
            else if (!strcmp(l, "logops")) log_ops = atoi(v);
            else if (!strcmp(l, "pctd")) pct_d = atoi(v);
            else if (!strcmp(l, "pctk")) pct_k = strtoull(v, 0, 10);
            else if (!strcmp(l, "fault") && nfaults < MAXFAULT) {
                /* cls:n[+]:kind:arg:substring */
                struct fault *f = &faults[nfaults++];
                char nb[32] = "0", ab[32] = "0";
                sscanf(v, "%15[^:]:%31[^:]:%15[^:]:%31[^:]:%255[^\n]", f->cls, nb, f->kind, ab, f->sub);
                f->n = atol(nb); f->plus = strchr(nb, '+') != 0; f->arg = atol(ab);
            }
            else if (!strcmp(l, "replay")) {
                replay = 1;
                size_t c = 1; for (char *q = v; *q; q++) c += *q == ',';
                sch = (void *)RAW(SYS_mmap, 0, (c + 1) * sizeof *sch, 3, 0x22, -1, 0);
                for (char *q = v; *q;) {
                    char *en; uint64_t s = strtoull(q, &en, 10);
                    if (*en != ':') break;
                    int t = (int)strtol(en + 1, &en, 10);
                    sch[nsch].step = s; sch[nsch++].tid = t;
                    q = *en == ',' ? en + 1 : en;
                    if (!*en) break;
                }
            }
        }
        if (!e) break;
        l = e + 1;
    }
    r_sched.s = seed * 0x9e3779b97f4a7c15ull + 1;
    r_rand.s = (have_r ? rseed : seed) * 0xd1342543de82ef95ull + 77;
    r_dir.s = (have_d ? dseed : seed) * 0xaf251af3b0f025b5ull + 3;
    r_misc.s = seed * 0x2545f4914f6cdd1dull + 9;
    clk += rbelow(&r_misc, 1000000000ull);
    clk_start = clk;
    on = 1;
}

static void thread_dtor(void *v) {
    long n = (long)v;
    if (n < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(dtor_key, (void *)(n + 1)); return; }
    /* last thing this thread does under the baton */
    int self = me;
    if (self < 0 || exiting) return;
    T[self].state = T_DONE;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_JOIN && T[i].joinee == self) T[i].state = T_RUN;
    step_++;
    int t = choose(1);
    nswitch++;
    lgf("S %llu %d\n", (unsigned long long)step_, t);
    shash = (shash ^ (step_ * 131 + t)) * 1099511628211ull;
    me = -1;
    cur = t;
    give(t);
}

__attribute__((constructor)) static void init(void) {
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    real_opendir = dlsym(RTLD_NEXT, "opendir");
    real_readdir = dlsym(RTLD_NEXT, "readdir64");
    real_closedir = dlsym(RTLD_NEXT, "closedir");
    const char *c = getenv("SIM_CONF");
    if (!c) return;
    pthread_key_create(&dtor_key, thread_dtor);
    T[0].state = T_RUN; T[0].pt = pthread_self(); T[0].ptset = 1;
    parse_conf(c);
    if (!on) return;
    me = 0;
    T[0].prio = (1ull << 41) + rbelow(&r_sched, 1ull << 40);
    new_gap();
}
static void on_abort(void);
__attribute__((destructor)) static void fini(void) {
    if (on && !exiting) { exiting = 1; finish_log("exit", 0); }
}
EXPORT void abort(void) {
    on_abort();
    RAW(SYS_exit_group, 134);
    __builtin_unreachable();
}
static void on_abort(void) {
    if (on && !exiting) { exiting = 1; lgf("ABORT t%d\n", me); finish_log("abort", 134); }
}

static void *tramp(void *p) {
    struct thr *t = p;
    int id = (int)(t - T);
    me = id;
    await_baton(id);
    pthread_setspecific(dtor_key, (void *)1);
    return t->fn(t->arg);
}
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!active()) return real_create(pt, a, fn, arg);
    /* a fault class of its own: the kernel refuses another thread */
    if (nthr >= MAXT) return EAGAIN;
    int id = nthr;
    T[id].fn = fn; T[id].arg = arg; T[id].state = T_RUN; T[id].go = 0;
    T[id].prio = (1ull << 41) + rbelow(&r_sched, 1ull << 40);
    int r = real_create(pt, a, tramp, &T[id]);
    if (r) { T[id].state = T_FREE; return r; }
    T[id].pt = *pt; T[id].ptset = 1;
    nthr++;
    if (nthr == 2) new_gap();
    op_point();
    return 0;
}
EXPORT int pthread_join(pthread_t pt, void **rv) {
    if (active()) {
        op_point();
        for (int i = 0; i < nthr; i++)
            if (T[i].ptset && pthread_equal(T[i].pt, pt) && i != me) {
                /* pthread_t values can be reused: prefer the live one */
                int live = i;
                for (int j = i + 1; j < nthr; j++) if (pthread_equal(T[j].pt, pt)) live = j;
                i = live;
                if (T[i].state != T_DONE) { T[me].state = T_JOIN; T[me].joinee = i; block(); }
                T[i].ptset = 0;
                break;
            }
    }
    return real_join(pt, rv);
}

/* ------------------------------------------------------------------ futex */
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t *addr2, uint32_t val3) {
    int cmd = op & FUTEX_CMD_MASK;
    (void)addr2;
    switch (cmd) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
        op_point();
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        if (spurious && (int)rbelow(&r_misc, 1000) < spurious) { nspur++; return 0; }
        struct thr *t = &T[me];
        t->faddr = addr; t->fbits = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u; t->woken = 0; t->timed = 0;
        if (to) {
            uint64_t ns = (uint64_t)to->tv_sec * 1000000000ull + to->tv_nsec;
            t->deadline = cmd == FUTEX_WAIT ? clk + ns : ns;
            t->timed = 1;
        }
        t->state = T_FUTEX;
        block();
        if (t->timed && !t->woken) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
        uint32_t bits = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
        int want = val > INT_MAX ? INT_MAX : (int)val, done = 0;
        while (done < want) {
            int c[MAXT], n = 0;
            for (int i = 0; i < nthr; i++)
                if (T[i].state == T_FUTEX && T[i].faddr == addr && (T[i].fbits & bits)) c[n++] = i;
            if (!n) break;
            int k = c[(replay || strategy == ST_NONE) ? 0 : rbelow(&r_sched, n)];
            /* which waiter is woken is a decision too; in replay it is taken from the wake list */
            if (n > 1) {
                if (replay) { if (isch < nsch && sch[isch].step == step_ && sch[isch].tid >= 1000) { int w = sch[isch++].tid - 1000; for (int q = 0; q < n; q++) if (c[q] == w) k = w; } }
                else if (k != c[0]) lgf("S %llu %d\n", (unsigned long long)step_, 1000 + k);
            }
            T[k].state = T_RUN; T[k].woken = 1; done++;
        }
        op_point();
        return done;
    }
    default:
        break;
    }
    return ret(raw6(SYS_futex, (long)addr, op, val, (long)to, (long)addr2, val3));
}

static long sim_getrandom(void *buf, size_t n) {
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(rnext(&r_rand) >> 24);
    return (long)n;
}

EXPORT long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active()) {
        if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
        if (n == SYS_getrandom) return sim_getrandom((void *)a, (size_t)b);
        if (n == SYS_copy_file_range || n == SYS_sendfile) { errno = ENOSYS; return -1; }
    }
    return ret(raw6(n, a, b, c, d, e, f));
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (on) return sim_getrandom(buf, n);
    return ret(RAW(SYS_getrandom, buf, n, fl));
}
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    if (active()) { errno = ENOSYS; return -1; }
    return ret(RAW(SYS_copy_file_range, a, b, c, d, n, f));
}
EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (active()) { errno = ENOSYS; return -1; }
    return ret(RAW(SYS_sendfile, o, i, off, n));
}
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }

/* ------------------------------------------------------------------ time, cpu */
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!on) return (int)ret(RAW(SYS_clock_gettime, id, ts));
    uint64_t v = clk + ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? 1500000000000000000ull : 0);
    ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
    return 0;
}
static void sim_sleep(uint64_t until) {
    op_point();
    T[me].state = T_SLEEP; T[me].deadline = until;
    block();
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
    if (!active()) return -(int)RAW(SYS_clock_nanosleep, id, flags, rq, rm);
    uint64_t ns = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
    sim_sleep((flags & TIMER_ABSTIME) ? ns : clk + ns);
    return 0;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!active()) return (int)ret(RAW(SYS_nanosleep, rq, rm));
    sim_sleep(clk + (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec);
    return 0;
}
EXPORT int sched_yield(void) {
    if (!active()) return (int)ret(RAW(SYS_sched_yield));
    bump();
    if (nthr > 1 && (replay ? (isch < nsch && sch[isch].step == step_) : 1)) {
        if (strategy == ST_NONE && !replay) return 0;
        decide();
    }
    return 0;
}
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    if (!on) return (int)ret(RAW(SYS_sched_getaffinity, p, n, s)) < 0 ? -1 : 0;
    memset(s, 0, n);
    for (int i = 0; i < ncpu; i++) CPU_SET_S(i, n, s);
    return 0;
}
EXPORT long sysconf(int name) {
    static long (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "sysconf");
    if (on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return ncpu;
    return real(name);
}

/* ------------------------------------------------------------------ file system */
static char fdp[MAXFD][256];      /* path of a tracked descriptor, relative to root */
/* absolute path with "." and ".." resolved (the worlds have no symbolic links) */
static void normal(const char *p, char *out) {
    size_t n = 0;
    while (*p) {
        while (*p == '/') p++;
        size_t l = strcspn(p, "/");
        if (!l) break;
        if (l == 1 && p[0] == '.') ;
        else if (l == 2 && p[0] == '.' && p[1] == '.') { while (n && out[--n] != '/'); }
        else if (n + l + 2 < PATH_MAX) { out[n++] = '/'; memcpy(out + n, p, l); n += l; }
        p += l;
    }
    out[n] = 0;
}
static const char *under(const char *full, char *buf) {
    char nb[PATH_MAX * 2];
    normal(full, nb);
    if (strncmp(nb, root, rootlen) || (nb[rootlen] && nb[rootlen] != '/')) { snprintf(buf, PATH_MAX, "%s", nb); return 0; }
    snprintf(buf, PATH_MAX, "%s", nb + rootlen + (nb[rootlen] == '/'));
    return buf;
}
/* path relative to the scratch root; 0 if outside it, and then buf has the absolute path */
static const char *relat(int dfd, const char *p, char *buf) {
    buf[0] = 0;
    if (!on || !p || !rootlen) return 0;
    char full[PATH_MAX * 2];
    if (p[0] == '/') return under(p, buf);
    if (dfd == AT_FDCWD || dfd < 0) {
        static char cwd[PATH_MAX]; static int have;
        if (!have) { if (RAW(SYS_getcwd, cwd, sizeof cwd) <= 0) cwd[0] = 0; have = 1; }
        snprintf(full, sizeof full, "%s/%s", cwd, p);
        return under(full, buf);
    }
    if (dfd >= 0 && dfd < MAXFD && fdp[dfd][0]) { snprintf(full, sizeof full, "%s/%s/%s", root, fdp[dfd], p); return under(full, buf); }
    return 0;
}
/* a change outside the scratch root is recorded and refused: the tool under test must not be what protects the sandbox */
static void lgop(const char *op, const char *p, const char *p2, long arg, long r, const char *ft);
static int escape(const char *op, const char *p) {
    if (!active() || !p[0] || !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6)) return 0;
    op_point();
    lgop(op, p, 0, 0, -EPERM, "ESCAPE");
    errno = EPERM;
    return 1;
}

static int err_of(const char *k) {
    static const struct { const char *n; int e; } m[] = {
        {"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EACCES", EACCES}, {"EINTR", EINTR}, {"EMFILE", EMFILE}, {"EPERM", EPERM},
        {"EROFS", EROFS}, {"EXDEV", EXDEV}, {"EBUSY", EBUSY}, {"ENOTEMPTY", ENOTEMPTY}, {"EPIPE", EPIPE}, {"ENOENT", ENOENT},
        {"EDQUOT", EDQUOT}, {"EEXIST", EEXIST}, {"ENOMEM", ENOMEM}, {0, 0}};
    for (int i = 0; m[i].n; i++) if (!strcmp(m[i].n, k)) return m[i].e;
    return 0;
}
/* the fault (if any) for this operation; several rules may count it, the first that fires wins */
static struct fault *fault_for(const char *cls, const char *path, const char *path2) {
    struct fault *hit = 0;
    for (int i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        int any = !strcmp(f->cls, "any") && strcmp(cls, "out");
        int mut = !strcmp(f->cls, "mut") && (!strcmp(cls, "creat") || !strcmp(cls, "write") || !strcmp(cls, "rename") ||
                  !strcmp(cls, "mkdir") || !strcmp(cls, "rmdir") || !strcmp(cls, "unlink") || !strcmp(cls, "trunc") || !strcmp(cls, "chmod") || !strcmp(cls, "close"));
        if (!any && !mut && strcmp(f->cls, cls)) continue;
        if (f->sub[0] && !strstr(path, f->sub) && !(path2 && strstr(path2, f->sub))) continue;
        long k = f->seen++;
        if (!hit && (k == f->n || (f->plus && k >= f->n))) { hit = f; f->fired++; }
    }
    return hit;
}
static void lgop(const char *op, const char *p, const char *p2, long arg, long r, const char *ft) {
    if (!log_ops && !ft) return;
    lgf("O %llu t%d %s %s%s%s %ld = %ld%s%s\n", (unsigned long long)step_, me, op, *p ? p : ".", p2 ? " -> " : "", p2 ? p2 : "", arg, r, ft ? " FAULT " : "", ft ? ft : "");
}
static void crash_now(const char *op, const char *p) {
    lgop(op, p, 0, 0, 0, "crash");
    die("crash", 137);
}

/* ---- open */
static int do_open(int dfd, const char *p, int fl, mode_t mode) {
    char buf[PATH_MAX];
    const char *r = relat(dfd, p, buf);
    if (on && p && !strcmp(p, "/proc/self/cgroup")) { errno = ENOENT; return -1; }
    if (!r && ((fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY) && escape("creat", buf)) return -1;
    if (!active() || !r) return (int)ret(RAW(SYS_openat, dfd, p, fl, mode));
    op_point();
    const char *cls = (fl & (O_CREAT | O_TRUNC)) ? "creat" : "open";
    struct fault *f = fault_for(cls, r, 0);
    if (f) {
        if (!strcmp(f->kind, "crash")) crash_now(cls, r);
        int e = err_of(f->kind);
        if (e) { lgop(cls, r, 0, 0, -e, f->kind); errno = e; return -1; }
    }
    if (space == 0 && (fl & O_CREAT)) {
        struct stat st;
        if (RAW(SYS_newfstatat, dfd, p, &st, 0) < 0) { lgop(cls, r, 0, 0, -ENOSPC, "full"); errno = ENOSPC; return -1; }
    }
    int fd = (int)ret(RAW(SYS_openat, dfd, p, fl, mode));
    if (fd >= 0 && fd < MAXFD) snprintf(fdp[fd], sizeof fdp[fd], "%s", *r ? r : ".");
    lgop(cls, r, 0, fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR | O_APPEND | O_EXCL), fd < 0 ? -errno : 0, 0);
    if (f && fd >= 0 && !strcmp(f->kind, "crashafter")) crash_now(cls, r);
    return fd;
}
EXPORT int open64(const char *p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(AT_FDCWD, p, fl, m);
}
EXPORT int open(const char *p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(AT_FDCWD, p, fl, m);
}
EXPORT int openat64(int d, const char *p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(d, p, fl, m);
}
EXPORT int openat(int d, const char *p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(d, p, fl, m);
}
EXPORT int close(int fd) {
    if (active() && fd >= 0 && fd < MAXFD && fdp[fd][0]) {
        op_point();
        struct fault *f = fault_for("close", fdp[fd], 0);
        if (f && !strcmp(f->kind, "crash")) crash_now("close", fdp[fd]);
        lgop("close", fdp[fd], 0, 0, 0, 0);
        fdp[fd][0] = 0;
    }
    return (int)ret(RAW(SYS_close, fd));
}

/* ---- read */
static ssize_t do_read(int fd, void *b, size_t n, int64_t off) {
    if (!active() || fd < 0 || fd >= MAXFD || !fdp[fd][0])
        return ret(off < 0 ? RAW(SYS_read, fd, b, n) : RAW(SYS_pread64, fd, b, n, off));
    op_point();
    const char *p = fdp[fd];
    struct fault *f = n ? fault_for("read", p, 0) : 0;
    size_t want = n;
    const char *ft = 0;
    if (f) {
        if (!strcmp(f->kind, "crash")) crash_now("read", p);
        int e = err_of(f->kind);
        if (e) { lgop("read", p, 0, n, -e, f->kind); errno = e; return -1; }
        if (!strcmp(f->kind, "short") && n > 1) { want = 1 + (size_t)f->arg % (n - 1 ? n - 1 : 1); ft = "short"; }
        if (!strcmp(f->kind, "eof")) { lgop("read", p, 0, n, 0, "eof"); return 0; }
    }
    long r = off < 0 ? RAW(SYS_read, fd, b, want) : RAW(SYS_pread64, fd, b, want, off);
    if (f && r > 0 && !strcmp(f->kind, "flip")) { /* bit rot on the wire: one bit of the returned data */
        uint64_t bit = (uint64_t)f->arg % ((uint64_t)r * 8);
        ((unsigned char *)b)[bit / 8] ^= 1 << (bit % 8); ft = "flip";
    }
    lgop("read", p, 0, n, r, ft);
    return ret(r);
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}

/* ---- write */
static ssize_t raw_write(int fd, const void *b, size_t n, int64_t off) {
    return off < 0 ? RAW(SYS_write, fd, b, n) : RAW(SYS_pwrite64, fd, b, n, off);
}
static ssize_t do_write(int fd, const void *b, size_t n, int64_t off) {
    int isout = fd == 1;
    if (!active() || fd < 0 || fd >= MAXFD || (!isout && !fdp[fd][0])) return ret(raw_write(fd, b, n, off));
    op_point();
    const char *p = isout ? "<stdout>" : fdp[fd];
    struct fault *f = n ? fault_for(isout ? "out" : "write", p, 0) : 0;
    const char *ft = 0;
    size_t want = n;
    if (f) {
        if (!strcmp(f->kind, "crash")) { /* torn write: arg per mille of the bytes reach the disk */
            size_t k = (size_t)((double)n * (f->arg % 1001) / 1000.0);
            if (k) raw_write(fd, b, k, off);
            crash_now("write", p);
        }
        int e = err_of(f->kind);
        if (e) {
            /* arg per mille of the bytes are written before the failure shows (reported on the next call by a real
               kernel as a short write followed by the error; here: the error, with the prefix on disk) */
            lgop("write", p, 0, n, -e, f->kind); errno = e; return -1;
        }
        if (!strcmp(f->kind, "short") && n > 1) { want = 1 + (size_t)f->arg % (n - 1 ? n - 1 : 1); ft = "short"; }
    }
    if (!isout && space >= 0) {
        if (space == 0 && n) { lgop("write", p, 0, n, -ENOSPC, "full"); errno = ENOSPC; return -1; }
        if ((int64_t)want > space) { want = (size_t)space; ft = "full"; }
    }
    long r = raw_write(fd, b, want, off);
    if (!isout && space >= 0 && r > 0) space -= r;
    lgop("write", p, 0, n, r, ft);
    if (f && !strcmp(f->kind, "crashafter")) crash_now("write", p);
    return ret(r);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!active()) return ret(RAW(SYS_writev, fd, v, c));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
EXPORT int ftruncate64(int fd, off64_t n) {
    if (active() && fd >= 0 && fd < MAXFD && fdp[fd][0]) {
        op_point();
        struct fault *f = fault_for("trunc", fdp[fd], 0);
        if (f) { if (!strcmp(f->kind, "crash")) crash_now("trunc", fdp[fd]); int e = err_of(f->kind); if (e) { errno = e; return -1; } }
        lgop("trunc", fdp[fd], 0, n, 0, 0);
    }
    return (int)ret(RAW(SYS_ftruncate, fd, n));
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int fsync(int fd) {
    if (active() && fd >= 0 && fd < MAXFD && fdp[fd][0]) {
        op_point();
        struct fault *f = fault_for("fsync", fdp[fd], 0);
        if (f) { if (!strcmp(f->kind, "crash")) crash_now("fsync", fdp[fd]); int e = err_of(f->kind); if (e) { lgop("fsync", fdp[fd], 0, 0, -e, f->kind); errno = e; return -1; } }
        lgop("fsync", fdp[fd], 0, 0, 0, 0);
        return 0;
    }
    return (int)ret(RAW(SYS_fsync, fd));
}
EXPORT int fdatasync(int fd) { return fsync(fd); }

/* ---- namespace operations */
static int path_op(const char *cls, int dfd, const char *p, const char *p2, long (*fn)(int, const char *, const char *, long), long arg) {
    char buf[PATH_MAX], buf2[PATH_MAX];
    const char *r = relat(dfd, p, buf);
    const char *r2 = p2 ? relat(AT_FDCWD, p2, buf2) : 0;
    if (!r && escape(cls, buf)) return -1;
    if (p2 && !r2 && escape(cls, buf2)) return -1;
    if (!active() || (!r && !r2)) return (int)ret(fn(dfd, p, p2, arg));
    if (!r) r = p;
    op_point();
    struct fault *f = fault_for(cls, r, p2 ? (r2 ? r2 : p2) : 0);
    if (f) {
        if (!strcmp(f->kind, "crash")) crash_now(cls, r);
        int e = err_of(f->kind);
        if (e) { lgop(cls, r, p2 ? (r2 ? r2 : p2) : 0, arg, -e, f->kind); errno = e; return -1; }
    }
    if (space == 0 && !strcmp(cls, "mkdir")) { lgop(cls, r, 0, arg, -ENOSPC, "full"); errno = ENOSPC; return -1; }
    long v = fn(dfd, p, p2, arg);
    lgop(cls, r, p2 ? (r2 ? r2 : p2) : 0, arg, v, 0);
    if (f && v >= 0 && !strcmp(f->kind, "crashafter")) crash_now(cls, r);
    return (int)ret(v);
}
static long f_rename(int d, const char *a, const char *b, long x) { (void)x; return RAW(SYS_renameat, d, a, AT_FDCWD, b); }
static long f_link(int d, const char *a, const char *b, long x) { return RAW(SYS_linkat, d, a, AT_FDCWD, b, x); }
static long f_mkdir(int d, const char *a, const char *b, long x) { (void)b; return RAW(SYS_mkdirat, d, a, x); }
static long f_rmdir(int d, const char *a, const char *b, long x) { (void)b; (void)x; return RAW(SYS_unlinkat, d, a, AT_REMOVEDIR); }
static long f_unlink(int d, const char *a, const char *b, long x) { (void)b; (void)x; return RAW(SYS_unlinkat, d, a, 0); }
static long f_chmod(int d, const char *a, const char *b, long x) { (void)b; return RAW(SYS_fchmodat, d, a, x); }
EXPORT int chmod(const char *a, mode_t m) { return path_op("chmod", AT_FDCWD, a, 0, f_chmod, m); }
EXPORT pid_t getpid(void) { return active() ? 4242 : (pid_t)RAW(SYS_getpid); }
EXPORT int rename(const char *a, const char *b) { return path_op("rename", AT_FDCWD, a, b, f_rename, 0); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { (void)e; return path_op("rename", d, a, b, f_rename, 0); }
EXPORT int link(const char *a, const char *b) { return path_op("link", AT_FDCWD, a, b, f_link, 0); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int fl) { (void)e; return path_op("link", d, a, b, f_link, fl); }
EXPORT int mkdir(const char *a, mode_t m) { return path_op("mkdir", AT_FDCWD, a, 0, f_mkdir, m); }
EXPORT int rmdir(const char *a) { return path_op("rmdir", AT_FDCWD, a, 0, f_rmdir, 0); }
EXPORT int unlink(const char *a) { return path_op("unlink", AT_FDCWD, a, 0, f_unlink, 0); }
EXPORT int unlinkat(int d, const char *a, int fl) { return path_op((fl & AT_REMOVEDIR) ? "rmdir" : "unlink", d, a, 0, (fl & AT_REMOVEDIR) ? f_rmdir : f_unlink, 0); }

EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *sx) {
    char buf[PATH_MAX];
    const char *volatile q = p;      /* declared nonnull, but std probes with a null path */
    const char *r = q && *q ? relat(d, q, buf) : 0;
    if (active() && r) {
        op_point();
        struct fault *f = fault_for("stat", r, 0);
        if (f) {
            if (!strcmp(f->kind, "crash")) crash_now("stat", r);
            int e = err_of(f->kind);
            if (e) { lgop("stat", r, 0, 0, -e, f->kind); errno = e; return -1; }
        }
    }
    long v = RAW(SYS_statx, d, p, fl, mask, sx);
    if (active() && r && log_ops > 1) lgop("stat", r, 0, 0, v, 0);
    return (int)ret(v);
}
EXPORT int stat64(const char *p, struct stat64 *st) {
    char buf[PATH_MAX];
    const char *r = relat(AT_FDCWD, p, buf);
    if (active() && r) op_point();
    return (int)ret(RAW(SYS_newfstatat, AT_FDCWD, p, st, 0));
}
EXPORT int lstat64(const char *p, struct stat64 *st) {
    char buf[PATH_MAX];
    const char *r = relat(AT_FDCWD, p, buf);
    if (active() && r) op_point();
    return (int)ret(RAW(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW));
}

/* ---- directory listing, in a seeded order */
struct dl { DIR *d; int n, i; int err; struct dirent64 *e; };
static struct dl DL[256];
static int ent_cmp(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
static void dl_load(DIR *d, const char *r) {
    int s = -1;
    for (int i = 0; i < 256; i++) if (!DL[i].d) { s = i; break; }
    if (s < 0) return;
    int cap = 16, n = 0;
    struct dirent64 *v = malloc(cap * sizeof *v), *e;
    while ((e = real_readdir(d))) {
        if (n == cap) v = realloc(v, (cap *= 2) * sizeof *v);
        memset(&v[n], 0, sizeof v[n]);
        v[n].d_ino = e->d_ino; v[n].d_type = e->d_type; v[n].d_off = n; v[n].d_reclen = sizeof *v;
        snprintf(v[n].d_name, sizeof v[n].d_name, "%s", e->d_name);
        n++;
    }
    qsort(v, n, sizeof *v, ent_cmp);
    if (shuffle_dirs) for (int i = n - 1; i > 0; i--) {
        int j = (int)rbelow(&r_dir, i + 1);
        struct dirent64 t = v[i]; v[i] = v[j]; v[j] = t;
    }
    DL[s].d = d; DL[s].n = n; DL[s].i = 0; DL[s].e = v; DL[s].err = -1;
    struct fault *f = fault_for("readdir", r, 0);
    if (f) { if (!strcmp(f->kind, "crash")) crash_now("readdir", r); int er = err_of(f->kind); if (er && n) { DL[s].err = f->arg % n; lgop("readdir", r, 0, DL[s].err, -er, f->kind); } }
}
EXPORT DIR *opendir(const char *p) {
    char buf[PATH_MAX];
    const char *r = relat(AT_FDCWD, p, buf);
    if (!active() || !r) return real_opendir(p);
    op_point();
    struct fault *f = fault_for("opendir", r, 0);
    if (f) {
        if (!strcmp(f->kind, "crash")) crash_now("opendir", r);
        int e = err_of(f->kind);
        if (e) { lgop("opendir", r, 0, 0, -e, f->kind); errno = e; return 0; }
    }
    DIR *d = real_opendir(p);
    lgop("opendir", r, 0, 0, d ? 0 : -errno, 0);
    if (d) { int e = errno; dl_load(d, r); errno = e; }
    return d;
}
EXPORT struct dirent64 *readdir64(DIR *d) {
    for (int i = 0; i < 256; i++)
        if (DL[i].d == d) {
            if (DL[i].err >= 0 && DL[i].i == DL[i].err) { DL[i].err = -1; DL[i].i = DL[i].n; errno = EIO; return 0; }
            if (DL[i].i >= DL[i].n) return 0;
            return &DL[i].e[DL[i].i++];
        }
    return real_readdir(d);
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) {
    for (int i = 0; i < 256; i++)
        if (DL[i].d == d) { free(DL[i].e); memset(&DL[i], 0, sizeof DL[i]); break; }
    return real_closedir(d);
}

/* ------------------------------------------------------------------ for harness code linked against the simulator */
EXPORT void sim_note(const char *s, size_t n) {
    if (!on) return;
    lgf("N %llu t%d ", (unsigned long long)step_, me);
    lgw(s, n); lgw("\n", 1);
}
EXPORT uint64_t sim_step(void) { return step_; }
EXPORT void sim_yield(void) { if (active()) op_point(); }
EXPORT int sim_tid(void) { return me; }
