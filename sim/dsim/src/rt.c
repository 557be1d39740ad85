/* dsim runtime: a deterministic scheduler for real OS threads.
 *
 * Linked into each harness binary, it defines the libc entry points through
 * which Rust's std (and crates such as crossbeam) reach the outside world:
 * syscall(SYS_futex..), clock_gettime, nanosleep, sched_yield, getrandom,
 * pthread_create/join. It also defines the __tsan_atomic* functions that rustc
 * emits under -Zsanitizer=thread, which makes every atomic operation in the
 * code under test a possible preemption point. No ThreadSanitizer runtime is
 * linked.
 *
 * Exactly one simulated thread holds the baton at any time; all state below is
 * touched only by the baton holder. Every decision is drawn from rt_choose().
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>

#define MAXT 64
#define NOBODY (-1)
#define FOREVER UINT64_MAX
#define CAP_CHOICES (1u << 20)
#define NCNT 160

/* ---- shared with the parent process ---- */
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_OVERFLOW = 3 };
struct counter { char name[48]; uint32_t kind; uint32_t pad; uint64_t n; };
struct shared {
    uint32_t status;
    uint32_t nchoices;
    uint64_t hash;        /* events + context switches */
    uint64_t sched_hash;  /* context switches only */
    uint64_t event_hash;  /* workload events only */
    uint64_t points, atomics, switches, fine_preempts, simtime, nevents;
    uint32_t nontrivial, nthreads;
    char cls[128];
    char msg[4096];
    char panic_msg[1024];
    char summary[1024];
    struct counter cnt[NCNT];
    uint32_t choices[CAP_CHOICES];
};
static struct shared *sh;

/* ---- raw syscalls (never interposed) ---- */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
static void raw_wait(volatile uint32_t *w, uint32_t val) {
    raw6(SYS_futex, (long)w, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, val, 0, 0, 0);
}
static void raw_wake(volatile uint32_t *w) {
    raw6(SYS_futex, (long)w, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
void rt_exit(int code) {
    raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
    for (;;) ;
}

/* ---- choices ---- */
static uint64_t rng_s;
static int replaying;
static const uint32_t *rp_seq;
static uint32_t rp_len;
static uint64_t hash_rng = 0x9e3779b97f4a7c15ull;

static uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static void record(uint32_t v) {
    if (sh->nchoices >= CAP_CHOICES) { sh->status = ST_OVERFLOW; rt_exit(0); }
    sh->choices[sh->nchoices++] = v;
}
/* Uniform in 0..n. 0 is always the most ordinary alternative. */
uint32_t rt_choose(uint32_t n) {
    uint32_t v;
    if (n <= 1) return 0;
    if (replaying) {
        v = sh->nchoices < rp_len ? rp_seq[sh->nchoices] % n : 0;
    } else {
        v = (uint32_t)(((splitmix(&rng_s) >> 32) * (uint64_t)n) >> 32);
    }
    record(v);
    return v;
}
/* A gap until the next preemption: log-uniform, 0 (only on replay) = never. */
static uint64_t choose_gap(uint32_t maxlog) {
    uint32_t v;
    if (replaying) {
        v = sh->nchoices < rp_len ? rp_seq[sh->nchoices] & 0xffffff : 0;
    } else {
        uint64_t r = splitmix(&rng_s);
        uint32_t e = (uint32_t)(r >> 40) % (maxlog + 1);
        v = (1u << e) + (uint32_t)(r & ((1u << e) - 1));
    }
    record(v);
    return v ? v : FOREVER;
}

/* ---- configuration of one run, set by the workload ---- */
struct rt_config {
    uint32_t policy;         /* 0 sticky, 1 random, 2 priorities */
    uint32_t switch_pct;     /* sticky: chance (percent) to switch at a coarse point */
    uint32_t fine_log;       /* >0: preempt at atomics, gaps up to 2^fine_log */
    uint32_t step_ns;        /* clock advance per coarse point */
    uint32_t fine_ns;        /* clock advance per atomic */
    uint32_t spurious_pm;    /* per mille, spurious futex wake-ups */
    uint32_t eintr_pm;       /* per mille, EINTR from futex waits and sleeps */
    uint32_t stall_pm;       /* per mille, thread stalls at coarse points */
    uint32_t stall_max_us;
    uint32_t jump_pm;        /* per mille, clock jumps forward at coarse points */
    uint32_t jump_max_ms;
    uint32_t pct_log;        /* priorities: gap between priority changes 2^pct_log points */
    uint64_t max_points, max_atomics;
};
static struct rt_config cfg;

/* ---- threads ---- */
enum { RUNNABLE, ON_FUTEX, SLEEPING, JOINING, FINISHED };
struct th {
    int state;
    volatile uint32_t baton;
    uint32_t *addr;
    uint32_t bitset;
    uint64_t deadline;
    int wake; /* 0 woken, 1 timed out */
    uint64_t stall_until;
    int join_target;
    uint32_t prio;
    void *(*fn)(void *);
    void *arg;
    pthread_t pt;
    uint64_t yields;
    uint32_t hot; /* atomics after a timer, where preemption is likelier */
    uint64_t blocked_ns; /* simulated time spent blocked, in total */
};
static struct th T[MAXT];
static int nT;
static int current = NOBODY;
static uint64_t now_ns;
static int active;
static int verbose_fd = -1;
static __thread int self_tid = NOBODY;
static __thread int nopreempt;
static uint64_t fine_gap = FOREVER, prio_gap = FOREVER;
static uint32_t prio_low = 0x3fffffffu;
static pthread_key_t exit_key;

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);

static void h8(uint64_t *h, uint64_t v) {
    for (int i = 0; i < 8; i++) { *h ^= (v >> (8 * i)) & 0xff; *h *= 0x100000001b3ull; }
}
static void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static void tracef(const char *fmt, ...) {
    if (verbose_fd < 0) return;
    char b[1024];
    int n = snprintf(b, sizeof b, "[%12llu ns] ", (unsigned long long)now_ns);
    va_list ap;
    va_start(ap, fmt);
    int m = vsnprintf(b + n, sizeof b - n - 1, fmt, ap);
    va_end(ap);
    n += m;
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    raw6(SYS_write, verbose_fd, (long)b, n, 0, 0, 0);
}

void rt_count(const char *name, size_t len, uint32_t kind, uint64_t n) {
    if (!sh) return;
    if (len > 47) len = 47;
    for (int i = 0; i < NCNT; i++) {
        struct counter *c = &sh->cnt[i];
        if (!c->name[0]) { memcpy(c->name, name, len); c->name[len] = 0; c->kind = kind; }
        if (!strncmp(c->name, name, len) && !c->name[len] && c->kind == kind) { c->n += n; return; }
    }
}
#define FAULT(s) rt_count(s, sizeof(s) - 1, 0, 1)

void rt_violation(const char *cls, size_t cl, const char *msg, size_t ml) {
    if (!sh) { rt_exit(99); }
    if (sh->status == ST_RUNNING) {
        if (cl > sizeof sh->cls - 1) cl = sizeof sh->cls - 1;
        if (ml > sizeof sh->msg - 1) ml = sizeof sh->msg - 1;
        memcpy(sh->cls, cls, cl); sh->cls[cl] = 0;
        memcpy(sh->msg, msg, ml); sh->msg[ml] = 0;
        sh->status = ST_VIOLATION;
        sh->simtime = now_ns;
        tracef("VIOLATION %s: %s", sh->cls, sh->msg);
    }
    rt_exit(0);
}
static void viol(const char *cls, const char *msg) { rt_violation(cls, strlen(cls), msg, strlen(msg)); }

/* ---- the scheduler ---- */
static void fire_timers(void) {
    for (int i = 0; i < nT; i++) {
        struct th *t = &T[i];
        if ((t->state == ON_FUTEX || t->state == SLEEPING) && t->deadline <= now_ns) {
            t->state = RUNNABLE;
            t->wake = 1;
            t->hot = cfg.fine_log ? 48 : 0;
            tracef("timer fires for thread %d", i);
        }
    }
}
static void describe_blocked(char *b, size_t n) {
    size_t k = 0;
    static const char *names[] = {"runnable", "waiting on futex", "sleeping", "joining", "finished"};
    for (int i = 0; i < nT && k + 64 < n; i++)
        k += snprintf(b + k, n - k, " thread %d: %s;", i, names[T[i].state]);
}
/* Picks who runs next. `may_stay`: the current thread can go on. */
static int pick(int me, int may_stay, int force_other) {
    for (;;) {
        int cand[MAXT], n = 0;
        fire_timers();
        if (may_stay && T[me].state == RUNNABLE && T[me].stall_until <= now_ns) cand[n++] = me;
        for (int k = 1; k <= nT; k++) {
            int i = (me + k) % nT;
            if (i == me && may_stay) continue;
            if (T[i].state == RUNNABLE && T[i].stall_until <= now_ns) cand[n++] = i;
        }
        if (n == 0) {
            uint64_t d = FOREVER;
            for (int i = 0; i < nT; i++) {
                if (T[i].state == RUNNABLE && T[i].stall_until < d) d = T[i].stall_until;
                if ((T[i].state == ON_FUTEX || T[i].state == SLEEPING) && T[i].deadline < d) d = T[i].deadline;
            }
            if (d == FOREVER) {
                char b[1024] = "no thread can ever run again:";
                describe_blocked(b + strlen(b), sizeof b - strlen(b));
                viol("deadlock", b);
            }
            /* Timers may be late, so that several of them expire at once. */
            static const uint32_t late[] = {0, 0, 2000, 50000};
            if (cfg.fine_log && d != FOREVER) d += late[rt_choose(4)];
            if (d > now_ns) now_ns = d;
            continue;
        }
        if (n == 1) return cand[0];
        int can_stay = cand[0] == me && may_stay;
        if (cfg.policy == 2) {
            int best = cand[0];
            for (int i = 1; i < n; i++) if (T[cand[i]].prio > T[best].prio) best = cand[i];
            if (force_other && best == me) {
                T[me].prio = prio_low--;
                continue;
            }
            return best;
        }
        if (can_stay && cfg.policy == 0 && !force_other) {
            uint32_t r = rt_choose(100);
            if (r < 100 - cfg.switch_pct) return me;
            return cand[1 + rt_choose(n - 1)];
        }
        if (can_stay && force_other) return cand[1 + rt_choose(n - 1)];
        return cand[rt_choose(n)];
    }
}
static void wait_baton(int me) {
    while (__atomic_load_n(&T[me].baton, __ATOMIC_ACQUIRE) == 0) raw_wait(&T[me].baton, 0);
    __atomic_store_n(&T[me].baton, 0, __ATOMIC_RELEASE);
}
static void give(int to) {
    sh->switches++;
    h8(&sh->sched_hash, (uint64_t)to << 32 | (sh->points & 0xffffffff));
    h8(&sh->hash, (uint64_t)to << 48 | now_ns);
    current = to;
    __atomic_store_n(&T[to].baton, 1, __ATOMIC_RELEASE);
    raw_wake(&T[to].baton);
}
static void switch_to(int me, int to, const char *why) {
    if (to == me) return;
    tracef("switch %d -> %d (%s)", me, to, why);
    give(to);
    wait_baton(me);
}
static void maybe_stall(int me) {
    if (cfg.stall_pm && rt_choose(1000) >= 1000 - cfg.stall_pm) {
        uint64_t us = 1 + rt_choose(cfg.stall_max_us);
        T[me].stall_until = now_ns + us * 1000;
        FAULT("thread_stall");
        tracef("thread %d stalls for %llu us", me, (unsigned long long)us);
    }
    if (cfg.jump_pm && rt_choose(1000) >= 1000 - cfg.jump_pm) {
        uint64_t ms = 1 + rt_choose(cfg.jump_max_ms);
        now_ns += ms * 1000000;
        FAULT("clock_jump");
        tracef("clock jumps by %llu ms", (unsigned long long)ms);
    }
}
static int in_sim(void) { return active && self_tid >= 0; }

/* Coarse scheduling point. */
static void point(const char *why, int force_other) {
    int me = self_tid;
    sh->points++;
    now_ns += cfg.step_ns;
    if (sh->points > cfg.max_points) viol("no-progress", "run exceeded its step bound without finishing");
    if (nopreempt) return;
    if (cfg.policy == 2 && prio_gap != FOREVER && --prio_gap == 0) {
        T[me].prio = prio_low--;
        prio_gap = choose_gap(cfg.pct_log);
    }
    maybe_stall(me);
    switch_to(me, pick(me, 1, force_other), why);
}
void rt_point(void) { if (in_sim()) point("point", 0); }
static void block(const char *why) {
    int me = self_tid;
    sh->points++;
    now_ns += cfg.step_ns;
    uint64_t t0 = now_ns;
    int to = pick(me, 0, 0);
    if (to != me) switch_to(me, to, why);
    T[me].blocked_ns += now_ns - t0;
}
static inline void atomic_point(void) {
    if (!active || self_tid < 0 || nopreempt) return;
    sh->atomics++;
    now_ns += cfg.fine_ns;
    if (sh->atomics > cfg.max_atomics) viol("no-progress", "run exceeded its atomic-operation bound without finishing");
    int due = fine_gap != FOREVER && --fine_gap == 0;
    if (T[self_tid].hot) {
        T[self_tid].hot--;
        due |= rt_choose(8) == 7;
    }
    if (due) {
        int me = self_tid;
        fine_gap = choose_gap(cfg.fine_log);
        if (cfg.policy == 2) {
            T[me].prio = prio_low--;
        }
        maybe_stall(me);
        int to = pick(me, 1, 1);
        if (to != me) {
            sh->fine_preempts++;
            switch_to(me, to, "preempt");
        }
    }
}
void rt_nopreempt(int d) { nopreempt += d; }
uint64_t rt_now(void) { return now_ns; }
uint64_t rt_points(void) { return sh->points; }
int rt_self(void) { return self_tid; }
int rt_verbose(void) { return verbose_fd >= 0; }
int rt_in_sim(void) { return in_sim(); }
void rt_advance(uint64_t ns) { now_ns += ns; }

void rt_event(const char *s, size_t n) {
    if (!in_sim()) return;
    sh->nevents++;
    uint64_t h = sh->hash, e = sh->event_hash;
    for (size_t i = 0; i < n; i++) {
        h ^= (unsigned char)s[i]; h *= 0x100000001b3ull;
        e ^= (unsigned char)s[i]; e *= 0x100000001b3ull;
    }
    h ^= now_ns; h *= 0x100000001b3ull;
    e ^= (uint64_t)self_tid + 0x100; e *= 0x100000001b3ull;
    sh->hash = h; sh->event_hash = e;
    if (verbose_fd >= 0) tracef("t%d: %.*s", self_tid, (int)n, s);
}
void rt_summary(const char *s, size_t n) {
    if (n > sizeof sh->summary - 1) n = sizeof sh->summary - 1;
    memcpy(sh->summary, s, n); sh->summary[n] = 0;
}
void rt_panic_msg(const char *s, size_t n) {
    if (!sh) return;
    if (n > sizeof sh->panic_msg - 1) n = sizeof sh->panic_msg - 1;
    memcpy(sh->panic_msg, s, n); sh->panic_msg[n] = 0;
    tracef("panic: %s", sh->panic_msg);
}
void rt_finish(void) {
    sh->simtime = now_ns;
    if (sh->status == ST_RUNNING) sh->status = ST_OK;
    tracef("run ends early");
    rt_exit(0);
}
uint64_t rt_blocked_ns(void) { return self_tid >= 0 ? T[self_tid].blocked_ns : 0; }
void rt_nontrivial(void) { sh->nontrivial = 1; }
void rt_set_config(const struct rt_config *c) {
    cfg = *c;
    if (!cfg.max_points) cfg.max_points = 400000;
    if (!cfg.max_atomics) cfg.max_atomics = 40000000;
    fine_gap = cfg.fine_log ? choose_gap(cfg.fine_log) : FOREVER;
    prio_gap = cfg.policy == 2 ? choose_gap(cfg.pct_log) : FOREVER;
    for (int i = 0; i < nT; i++) T[i].prio = 0x40000000u + rt_choose(1000);
}

/* ---- interposed: futex ---- */
static long futex_wait(uint32_t *addr, uint32_t val, uint64_t deadline, uint32_t bitset) {
    int me = self_tid;
    point("futex wait", 0);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    if (cfg.spurious_pm && rt_choose(1000) >= 1000 - cfg.spurious_pm) {
        FAULT("spurious_wakeup");
        tracef("spurious wake-up of thread %d", me);
        return 0;
    }
    if (cfg.eintr_pm && rt_choose(1000) >= 1000 - cfg.eintr_pm) {
        FAULT("eintr");
        return -EINTR;
    }
    if (deadline <= now_ns) return -ETIMEDOUT;
    struct th *t = &T[me];
    t->state = ON_FUTEX; t->addr = addr; t->bitset = bitset; t->deadline = deadline; t->wake = 0;
    block("blocks on futex");
    t->addr = 0;
    return t->wake ? -ETIMEDOUT : 0;
}
static long futex_wake(uint32_t *addr, int n, uint32_t bitset) {
    long woken = 0;
    while (woken < n) {
        int cand[MAXT], k = 0;
        for (int i = 0; i < nT; i++)
            if (T[i].state == ON_FUTEX && T[i].addr == addr && (T[i].bitset & bitset)) cand[k++] = i;
        if (!k) break;
        int i = cand[n >= k ? 0 : rt_choose(k)];
        T[i].state = RUNNABLE;
        T[i].wake = 0;
        woken++;
    }
    point("futex wake", 0);
    return woken;
}
static uint64_t ts_ns(const struct timespec *t) {
    if (t->tv_sec < 0) return 0;
    unsigned __int128 v = (unsigned __int128)t->tv_sec * 1000000000u + t->tv_nsec;
    return v >= FOREVER ? FOREVER - 1 : (uint64_t)v;
}
static uint64_t sat_add(uint64_t a, uint64_t b) { return a + b < a ? FOREVER - 1 : a + b; }

static void fill_random(unsigned char *b, size_t n) {
    for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(splitmix(&hash_rng) >> 24);
}

long rt_syscall(long n, long a, long b, long c, long d, long e, long f) __asm__("syscall");
long rt_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    if (n == SYS_getrandom) { fill_random((unsigned char *)a, (size_t)b); return b; }
    if (n == SYS_futex && in_sim()) {
        int op = (int)b & FUTEX_CMD_MASK;
        const struct timespec *ts = (const struct timespec *)d;
        switch (op) {
        case FUTEX_WAIT:
            r = futex_wait((uint32_t *)a, (uint32_t)c, ts ? sat_add(now_ns, ts_ns(ts)) : FOREVER, ~0u);
            break;
        case FUTEX_WAIT_BITSET:
            r = futex_wait((uint32_t *)a, (uint32_t)c, ts ? ts_ns(ts) : FOREVER, (uint32_t)f);
            break;
        case FUTEX_WAKE: r = futex_wake((uint32_t *)a, (int)c, ~0u); break;
        case FUTEX_WAKE_BITSET: r = futex_wake((uint32_t *)a, (int)c, (uint32_t)f); break;
        default: r = raw6(n, a, b, c, d, e, f);
        }
    } else {
        r = raw6(n, a, b, c, d, e, f);
    }
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) { (void)fl; fill_random(b, n); return (ssize_t)n; }
int getentropy(void *b, size_t n) { fill_random(b, n); return 0; }

/* ---- interposed: time ---- */
#define EPOCH 1600000000ull
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!in_sim()) {
        long r = raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
        if (r < 0) { errno = (int)-r; return -1; }
        return 0;
    }
    uint64_t t = now_ns;
    ts->tv_sec = t / 1000000000ull + (id == CLOCK_REALTIME ? EPOCH : 0);
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}
static int do_sleep(uint64_t deadline, int absolute, struct timespec *rem) {
    struct th *t = &T[self_tid];
    point("sleep", 0);
    if (cfg.eintr_pm && !absolute && rem && deadline > now_ns && rt_choose(1000) >= 1000 - cfg.eintr_pm) {
        uint64_t left = deadline - now_ns;
        rem->tv_sec = left / 1000000000ull;
        rem->tv_nsec = left % 1000000000ull;
        FAULT("eintr");
        return EINTR;
    }
    if (deadline <= now_ns) return 0;
    t->state = SLEEPING; t->deadline = deadline; t->wake = 0;
    block("sleeps");
    return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
    int r;
    if (!in_sim()) { r = (int)-raw6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0); }
    else r = do_sleep(sat_add(now_ns, ts_ns(req)), 0, rem);
    if (r) { errno = r; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *req, struct timespec *rem) {
    if (!in_sim()) return (int)-raw6(SYS_clock_nanosleep, id, fl, (long)req, (long)rem, 0, 0);
    if (fl & TIMER_ABSTIME) return do_sleep(ts_ns(req), 1, rem);
    return do_sleep(sat_add(now_ns, ts_ns(req)), 0, rem);
}
void rt_sleep_ns(uint64_t ns) {
    if (in_sim()) do_sleep(sat_add(now_ns, ns), 1, 0);
}
int usleep(unsigned us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; return nanosleep(&t, 0); }
int sched_yield(void) {
    if (!in_sim()) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    T[self_tid].yields++;
    point("yield", 1);
    return 0;
}

/* ---- interposed: threads ---- */
static void thread_exit_hook(void *v) {
    /* Runs after Rust's TLS destructors; postponed to the last round of key destructors. */
    uintptr_t n = (uintptr_t)v;
    if (n < 3) { pthread_setspecific(exit_key, (void *)(n + 1)); return; }
    int me = self_tid;
    if (!active || me < 0) return;
    T[me].state = FINISHED;
    for (int i = 0; i < nT; i++)
        if (T[i].state == JOINING && T[i].join_target == me) T[i].state = RUNNABLE;
    sh->points++;
    tracef("thread %d ends", me);
    int to = pick(me, 0, 0);
    self_tid = NOBODY;
    give(to);
}
static void *tramp(void *p) {
    int me = (int)(intptr_t)p;
    self_tid = me;
    pthread_setspecific(exit_key, (void *)1);
    wait_baton(me);
    return T[me].fn(T[me].arg);
}
static void resolve(void) {
    if (!real_pthread_create) {
        real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
        real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
    }
}
int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    resolve();
    if (!in_sim()) return real_pthread_create(pt, attr, fn, arg);
    if (nT >= MAXT) return EAGAIN;
    int t = nT;
    memset(&T[t], 0, sizeof T[t]);
    T[t].fn = fn; T[t].arg = arg; T[t].state = RUNNABLE; T[t].deadline = FOREVER;
    int r = real_pthread_create(&T[t].pt, attr, tramp, (void *)(intptr_t)t);
    if (r) return r;
    *pt = T[t].pt;
    nT++;
    sh->nthreads = nT;
    T[t].prio = cfg.policy == 2 ? 0x40000000u + rt_choose(1000) : 0;
    tracef("thread %d starts thread %d", self_tid, t);
    point("spawn", 0);
    return 0;
}
int pthread_join(pthread_t pt, void **ret) {
    resolve();
    if (in_sim()) {
        point("join", 0);
        for (int i = 0; i < nT; i++)
            if (T[i].fn && pthread_equal(T[i].pt, pt)) {
                if (T[i].state != FINISHED) {
                    T[self_tid].state = JOINING;
                    T[self_tid].join_target = i;
                    block("joins");
                }
                T[i].fn = 0;
                break;
            }
    }
    return real_pthread_join(pt, ret);
}

/* ---- one run, inside a freshly forked process ---- */
static void (*root_fn)(void);
static void *root_main(void *p) {
    (void)p;
    self_tid = 0;
    active = 1;
    root_fn();
    sh->simtime = now_ns;
    if (sh->status == ST_RUNNING) sh->status = ST_OK;
    tracef("run ends");
    rt_exit(0);
    return 0;
}
void rt_run(struct shared *s, uint64_t seed, const uint32_t *seq, uint32_t len, int is_replay, int vfd, void (*fn)(void)) {
    sh = s;
    sh->status = ST_RUNNING;
    sh->hash = sh->sched_hash = sh->event_hash = 0xcbf29ce484222325ull;
    rng_s = seed;
    replaying = is_replay;
    rp_seq = seq; rp_len = len;
    verbose_fd = vfd;
    root_fn = fn;
    now_ns = 1000000000ull;
    memset(T, 0, sizeof T);
    nT = 1;
    T[0].state = RUNNABLE; T[0].deadline = FOREVER;
    current = 0;
    cfg.max_points = 400000; cfg.max_atomics = 40000000;
    cfg.step_ns = 1000;
    resolve();
    pthread_key_create(&exit_key, thread_exit_hook);
    hash_rng = 0x1234567 + (uint64_t)rt_choose(1u << 16) * 0x9e3779b97f4a7c15ull;
    pthread_t pt;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8 << 20);
    if (real_pthread_create(&pt, &at, root_main, 0)) rt_exit(98);
    for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}
struct shared *rt_map_shared(void) {
    void *p = mmap(0, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return p == MAP_FAILED ? 0 : p;
}
void rt_reset_shared(struct shared *s) {
    memset(s, 0, offsetof(struct shared, choices));
}
/* fork+wait from a single-threaded parent; returns the wait status */
extern int fork(void);
extern int waitpid(int, int *, int);
extern unsigned alarm(unsigned);
int rt_fork_run(struct shared *s, uint64_t seed, const uint32_t *seq, uint32_t len, int is_replay, int vfd, unsigned timeout_s, void (*fn)(void)) {
    rt_reset_shared(s);
    int pid = fork();
    if (pid < 0) return -1;
    if (pid == 0) {
        alarm(timeout_s);
        struct itimerval cpu = {{0, 0}, {timeout_s / 3 + 1, 0}};
        setitimer(ITIMER_PROF, &cpu, 0);
        rt_run(s, seed, seq, len, is_replay, vfd, fn);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) return -1;
    return st;
}

/* ---- atomics emitted under -Zsanitizer=thread ---- */
#define ATOMICS(B, TY)                                                                                       \
    TY __tsan_atomic##B##_load(const volatile TY *p, int mo) { (void)mo; atomic_point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile TY *p, TY v, int mo) { (void)mo; atomic_point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int mo) { (void)mo; atomic_point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int mo) { (void)mo; atomic_point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int mo) { (void)mo; atomic_point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int mo) { (void)mo; atomic_point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int mo) { (void)mo; atomic_point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int mo) { (void)mo; atomic_point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY *p, TY v, int mo) { (void)mo; atomic_point(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int mo, int f) { (void)mo; (void)f; atomic_point(); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int mo, int f) { (void)mo; (void)f; atomic_point(); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY c, TY v, int mo, int f) { (void)mo; (void)f; atomic_point(); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; atomic_point(); __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define NOP1(n) void n(void *p) { (void)p; }
NOP1(__tsan_read1) NOP1(__tsan_read2) NOP1(__tsan_read4) NOP1(__tsan_read8) NOP1(__tsan_read16)
NOP1(__tsan_write1) NOP1(__tsan_write2) NOP1(__tsan_write4) NOP1(__tsan_write8) NOP1(__tsan_write16)
NOP1(__tsan_unaligned_read2) NOP1(__tsan_unaligned_read4) NOP1(__tsan_unaligned_read8) NOP1(__tsan_unaligned_read16)
NOP1(__tsan_unaligned_write2) NOP1(__tsan_unaligned_write4) NOP1(__tsan_unaligned_write8) NOP1(__tsan_unaligned_write16)
void __tsan_read_range(void *p, size_t n) { (void)p; (void)n; }
void __tsan_write_range(void *p, size_t n) { (void)p; (void)n; }
void __tsan_vptr_read(void *p) { (void)p; }
void __tsan_vptr_update(void *p, void *q) { (void)p; (void)q; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
