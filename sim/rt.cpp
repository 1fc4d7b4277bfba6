// Deterministic simulation runtime.  See rt.h.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <assert.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <initializer_list>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define PC() ((uint64_t)__builtin_return_address(0))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

int rt_verbose = 0;
int (*rt_on_race)(const char *) = nullptr;

// ------------------------------------------------------------------ raw system calls
static long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

// ------------------------------------------------------------------ arena
static const uint64_t ARENA_BASE = 0x200000000000ull;
static const uint64_t ARENA_SIZE = 1ull << 33;
static uint64_t arena_next = 0;
static uint64_t *sh_cells = nullptr; // 4 per granule
static uint32_t *sh_pcs = nullptr;
static bool arena_ready = false;

static void *raw_mmap(size_t n, void *at = nullptr) {
    void *p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (at && p != at)) {
        static const char m[] = "rt: mmap failed\n";
        raw_syscall(SYS_write, 2, (long)m, sizeof(m) - 1);
        raw_syscall(SYS_exit_group, 3);
    }
    return p;
}

EXPORT void *rt_raw_alloc(size_t n) { return raw_mmap((n + 4095) & ~4095ull); }

static void arena_init() {
    if (arena_ready)
        return;
    arena_ready = true;
    raw_mmap(ARENA_SIZE, (void *)ARENA_BASE);
    arena_next = ARENA_BASE + 4096;
    sh_cells = (uint64_t *)raw_mmap(ARENA_SIZE * 4);
    sh_pcs = (uint32_t *)raw_mmap(ARENA_SIZE * 2);
}

// ------------------------------------------------------------------ state
struct VClock {
    uint32_t c[RT_MAXT];
};

enum { B_NONE, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_SEM, B_RW, B_FUTEX, B_GUARD };
static const char *const block_names[] = {"none", "mutex", "condvar", "join", "sleep", "semaphore", "rwlock", "futex", "guard"};

struct Obj {
    uint64_t addr;
    uint32_t id;
    int owner;      // mutex: tid or -1; rwlock writer
    int count;      // recursion / semaphore value / readers
    int state;      // guard/once
    bool inited;
    VClock vc;
};

struct TlsDtor {
    void (*fn)(void *);
    void *arg;
    TlsDtor *next;
};

struct Thr {
    int id;
    uint64_t sp;
    uint64_t fs;
    pthread_t ptid;
    bool used, runnable, finished, detached, joined;
    int bkind;
    Obj *bobj;
    uint64_t bval;
    uint64_t bseq;
    uint64_t wake_ns; // UINT64_MAX: none
    bool timed_out, signalled;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    uint32_t prio;
    uint64_t stalled_until;
    uint64_t last_pc;
    TlsDtor *dtors;
    VClock vc;
    VClock fence_rel, acq_pending;
    bool has_fence_rel;
    Obj *exitobj;
    volatile int arrived;
};

static Thr thr[RT_MAXT];
static int nthr = 1;
static Thr *cur = &thr[0];
static bool g_active = false;
static int g_nopreempt = 0;
static RtCfg cfg;
static RtResult *res = nullptr;
static RtResult *res_dummy = nullptr;
static uint64_t g_step = 0, g_slow = 0;
static uint64_t g_next_mem = UINT64_MAX;
static uint64_t g_shared = 0, g_next_shared = UINT64_MAX;
static uint64_t g_now = 0;
static uint64_t g_hash = 1469598103934665603ull, g_shash = 1469598103934665603ull;
static uint64_t g_seq = 0;
static uint64_t dec_pos = 0;
static bool g_fair = false;
static uint64_t pct_points[32];
static int pct_npoints = 0;
static uint32_t pct_low = 0;
static const uint64_t MONO_BASE = 1000ull * 1000000000ull;
static const uint64_t REAL_OFF = 1700000000ull * 1000000000ull - MONO_BASE;

static uint64_t rng_s[2];
static inline uint64_t rng() {
    uint64_t s1 = rng_s[0];
    const uint64_t s0 = rng_s[1];
    uint64_t r = s0 + s1;
    rng_s[0] = s0;
    s1 ^= s1 << 23;
    rng_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline double rngf() { return (double)(rng() >> 11) * (1.0 / 9007199254740992.0); }
static inline bool chance(double p) { return p > 0 && rngf() < p; }
static uint64_t gap(double mean) {
    if (mean <= 0)
        return UINT64_MAX / 4;
    // geometric-ish without libm: sum of two uniforms keeps it cheap and deterministic
    double u = rngf() * 2.0 * mean;
    return 1 + (uint64_t)u;
}
static inline void mix(uint64_t v) {
    g_hash = (g_hash ^ v) * 1099511628211ull;
    g_hash ^= g_hash >> 29;
}

EXPORT void rt_count(int c, uint64_t n) {
    if (res)
        res->cnt[c] += n;
}
EXPORT uint64_t rt_now_ns() { return g_now; }
EXPORT int rt_tid() { return cur->id; }
EXPORT int rt_active() { return g_active; }
EXPORT uint64_t rt_steps() { return g_step; }
EXPORT void rt_nopreempt(int d) { g_nopreempt += d; }
EXPORT int rt_live_threads() {
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (thr[i].used && !thr[i].finished)
            n++;
    return n;
}

// ------------------------------------------------------------------ end of a run
static void fill_result() {
    if (!res)
        return;
    res->hash = g_hash;
    res->switch_hash = g_shash;
    res->steps = g_step;
    res->slow = g_slow;
    res->simns = g_now - MONO_BASE;
    res->nthreads = nthr;
}
EXPORT void rt_describe_pc(uint64_t pc, char *buf, size_t n) {
    Dl_info i;
    if (pc && dladdr((void *)(pc - 1), &i) && i.dli_fname) {
        const char *b = strrchr(i.dli_fname, '/');
        snprintf(buf, n, "%s+0x%lx(%s)", b ? b + 1 : i.dli_fname, (unsigned long)(pc - 1 - (uint64_t)i.dli_fbase), i.dli_sname ? i.dli_sname : "?");
    } else
        snprintf(buf, n, "0x%lx", (unsigned long)pc);
}
static bool g_failing = false;
EXPORT void rt_fail(const char *kind, const char *fmt, ...) {
    bool was = g_failing;
    g_failing = true;
    g_active = false;
    if (res && !was) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(res->msg, sizeof(res->msg), fmt, ap);
        va_end(ap);
        snprintf(res->kind, sizeof(res->kind), "%s", kind);
        fill_result();
        if (res->outcome == RT_RUNNING)
            res->outcome = RT_VIOLATION;
        if (rt_verbose)
            dprintf(2, "[fail] %s: %s\n", kind, res->msg);
    }
    raw_syscall(SYS_exit_group, 10);
    __builtin_unreachable();
}
EXPORT void rt_inconclusive(const char *fmt, ...) {
    g_active = false;
    if (res) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(res->msg, sizeof(res->msg), fmt, ap);
        va_end(ap);
        snprintf(res->kind, sizeof(res->kind), "inconclusive");
        fill_result();
        if (res->outcome == RT_RUNNING)
            res->outcome = RT_INCONCLUSIVE;
        if (rt_verbose)
            dprintf(2, "[inconclusive] %s\n", res->msg);
    }
    raw_syscall(SYS_exit_group, 11);
    __builtin_unreachable();
}
EXPORT void rt_finish_ok() {
    g_active = false;
    if (res) {
        fill_result();
        if (res->outcome == RT_RUNNING)
            res->outcome = RT_OK;
    }
    raw_syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
EXPORT void rt_note(const char *fmt, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    for (const char *p = b; *p; p++)
        mix((uint8_t)*p);
    if (rt_verbose > 1)
        dprintf(2, "[%lu t%d %lu.%06lums] %s\n", (unsigned long)g_step, cur->id, (unsigned long)((g_now - MONO_BASE) / 1000000), (unsigned long)((g_now - MONO_BASE) % 1000000), b);
}

static void describe_threads(char *out, size_t n) {
    size_t o = 0;
    for (int i = 0; i < nthr && o + 200 < n; i++) {
        Thr &t = thr[i];
        if (!t.used)
            continue;
        char pc[160];
        rt_describe_pc(t.last_pc, pc, sizeof(pc));
        o += snprintf(out + o, n - o, " t%d:%s", i, t.finished ? "finished" : t.runnable ? "runnable" : block_names[t.bkind]);
        if (!t.finished)
            o += snprintf(out + o, n - o, "@%s", pc);
        if (!t.finished && !t.runnable && t.bkind == B_MUTEX && t.bobj)
            o += snprintf(out + o, n - o, "(held by t%d)", t.bobj->owner);
    }
}

EXPORT void rt_describe_threads(char *out, size_t n) {
    out[0] = 0;
    describe_threads(out, n);
}

// ------------------------------------------------------------------ sync object table
static const uint32_t OBJ_CAP = 1 << 19;
static uint32_t *obj_idx = nullptr;
static Obj *obj_pool = nullptr;
static uint32_t nobj = 0;
static Obj *obj_get(const void *a) {
    if (unlikely(!obj_idx)) {
        obj_idx = (uint32_t *)raw_mmap(OBJ_CAP * 4);
        obj_pool = (Obj *)raw_mmap((size_t)OBJ_CAP * sizeof(Obj));
    }
    uint64_t x = (uint64_t)a;
    uint64_t h = (x >> 2) * 0x9E3779B97F4A7C15ull;
    uint32_t i = (uint32_t)(h >> 40) & (OBJ_CAP - 1);
    while (obj_idx[i]) {
        Obj *o = &obj_pool[obj_idx[i]];
        if (o->addr == x)
            return o;
        i = (i + 1) & (OBJ_CAP - 1);
    }
    if (nobj >= OBJ_CAP / 2)
        rt_inconclusive("too many synchronisation objects");
    nobj++;
    obj_idx[i] = nobj;
    Obj *o = &obj_pool[nobj];
    o->addr = x;
    o->id = nobj;
    o->owner = -1;
    return o;
}
static void obj_reset(const void *a) {
    Obj *o = obj_get(a);
    o->owner = -1;
    o->count = 0;
    o->state = 0;
    o->inited = false;
    memset(&o->vc, 0, sizeof(o->vc));
}

static inline void vc_join(VClock &d, const VClock &s) {
    for (int i = 0; i < nthr; i++)
        if (s.c[i] > d.c[i])
            d.c[i] = s.c[i];
}
static inline void hb_acquire(Obj *o) { vc_join(cur->vc, o->vc); }
static inline void hb_release(Obj *o) {
    vc_join(o->vc, cur->vc);
    cur->vc.c[cur->id]++;
}
static inline void hb_release_store(Obj *o) {
    memcpy(&o->vc, &cur->vc, sizeof(uint32_t) * nthr);
    cur->vc.c[cur->id]++;
}

// ------------------------------------------------------------------ fibers
extern "C" void rt_switch_asm(uint64_t *save_sp, uint64_t new_sp, uint64_t new_fs);
__asm__(R"(
.text
.globl rt_switch_asm
.type rt_switch_asm,@function
rt_switch_asm:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $16, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    wrfsbase %rdx
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $16, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size rt_switch_asm,.-rt_switch_asm
)");

static void fiber_main();
static void prepare_stack(Thr *t, uint64_t top) {
    uint64_t *sp = (uint64_t *)(top & ~63ull);
    *--sp = 0; // alignment: at entry of fiber_main rsp % 16 == 8
    *--sp = (uint64_t)&fiber_main;
    for (int i = 0; i < 6; i++)
        *--sp = 0;
    sp -= 2;
    uint32_t mx;
    uint16_t cw;
    __asm__ volatile("stmxcsr %0" : "=m"(mx));
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t *)sp)[0] = mx;
    ((uint32_t *)sp)[1] = cw;
    t->sp = (uint64_t)sp;
}

static inline uint64_t rdfs() {
    uint64_t v;
    __asm__ volatile("rdfsbase %0" : "=r"(v));
    return v;
}

static void record(uint32_t kind, uint32_t arg) {
    if (!res)
        return;
    if (res->ndec < RT_MAXDEC) {
        res->dec[res->ndec].step = g_step;
        res->dec[res->ndec].kind = kind;
        res->dec[res->ndec].arg = arg;
    }
    res->ndec++;
}
// replay: is there a decision of this kind at this step?
static bool take(uint32_t kind, uint32_t *arg) {
    while (dec_pos < cfg.ndec && cfg.dec[dec_pos].step < g_step)
        dec_pos++;
    if (dec_pos < cfg.ndec && cfg.dec[dec_pos].step == g_step && cfg.dec[dec_pos].kind == kind) {
        *arg = cfg.dec[dec_pos].arg;
        dec_pos++;
        return true;
    }
    return false;
}
static void set_next_mem() {
    if (cfg.replay) {
        uint64_t p = dec_pos;
        while (p < cfg.ndec && cfg.dec[p].step <= g_step)
            p++;
        g_next_mem = p < cfg.ndec ? cfg.dec[p].step : cfg.hard_steps;
    }
}

static inline bool can_run(Thr *t) { return t->used && !t->finished && (t->runnable || t->wake_ns <= g_now); }

static void do_switch(Thr *to, uint64_t pc) {
    if (!to->runnable) { // its timeout has passed
        to->runnable = true;
        to->timed_out = true;
        to->bkind = B_NONE;
        to->wake_ns = UINT64_MAX;
    }
    if (to == cur)
        return;
    res->switches++;
    uint64_t h = ((pc * 0x9E3779B97F4A7C15ull) ^ (to->last_pc * 0xC2B2AE3D27D4EB4Full));
    h = (h >> 20) & (RT_COVBITS - 1);
    res->cov[h >> 3] |= 1 << (h & 7);
    mix(0x5117c4 ^ ((uint64_t)to->id << 32) ^ g_step);
    g_shash = (g_shash ^ (0x100 + to->id)) * 1099511628211ull;
    Thr *from = cur;
    from->last_pc = pc;
    cur = to;
    rt_switch_asm(&from->sp, to->sp, to->fs);
}

static Thr *default_next() { // next runnable in cyclic order after cur
    for (int k = 1; k <= nthr; k++) {
        Thr *t = &thr[(cur->id + k) % nthr];
        if (can_run(t))
            return t;
    }
    return nullptr;
}

static int collect(Thr **out, bool unstalled_only) {
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (can_run(&thr[i]) && !(unstalled_only && thr[i].stalled_until > g_slow))
            out[n++] = &thr[i];
    return n;
}

static Thr *search_pick(bool forced) {
    Thr *c[RT_MAXT];
    int n = collect(c, true);
    if (!n)
        n = collect(c, false);
    if (!n)
        return nullptr;
    if (cfg.mode == 1) {
        Thr *b = c[0];
        for (int i = 1; i < n; i++)
            if (c[i]->prio > b->prio)
                b = c[i];
        return b;
    }
    (void)forced;
    return c[rng() % n];
}

static void check_caps(bool end = false) {
    if (g_slow > cfg.soft_slow || g_step > cfg.soft_steps)
        g_fair = true;
    if (g_slow > cfg.hard_slow || g_step > cfg.hard_steps || end) {
        char d[4000];
        describe_threads(d, sizeof(d));
        rt_fail("livelock", "no completion after %lu steps (%lu scheduling points, the last %lu of them scheduled fairly);%s", (unsigned long)g_step, (unsigned long)g_slow,
                (unsigned long)(g_slow > cfg.soft_slow ? g_slow - cfg.soft_slow : 0), d);
    }
}

// cur cannot continue: find somebody else
static void block_switch(uint64_t pc) {
    cur->last_pc = pc;
    g_step++;
    g_slow++;
    mix(0xb10c ^ ((uint64_t)cur->bkind << 8) ^ ((uint64_t)cur->id << 16) ^ ((cur->bobj ? (uint64_t)cur->bobj->id : 0ull) << 24));
    check_caps();
    Thr *def = default_next();
    if (!def) {
        uint64_t best = UINT64_MAX;
        for (int i = 0; i < nthr; i++)
            if (thr[i].used && !thr[i].finished && !thr[i].runnable && thr[i].wake_ns < best)
                best = thr[i].wake_ns;
        if (best == UINT64_MAX) {
            char d[4000];
            describe_threads(d, sizeof(d));
            rt_fail("deadlock", "no thread can make progress:%s", d);
        }
        g_now = best;
        rt_count(RC_TIMEADV, 1);
        def = default_next();
    }
    Thr *to = def;
    if (cfg.replay) {
        uint32_t a;
        if (take('T', &a) && a < (uint32_t)nthr && can_run(&thr[a]))
            to = &thr[a];
        set_next_mem();
    } else if (!g_fair) {
        to = search_pick(true);
        if (to != def)
            record('T', to->id);
    }
    do_switch(to, pc);
}

static void spurious(uint64_t) {
    Thr *c[RT_MAXT];
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (thr[i].used && !thr[i].finished && !thr[i].runnable && thr[i].bkind == B_COND)
            c[n++] = &thr[i];
    if (cfg.replay) {
        uint32_t a;
        if (take('W', &a) && a < (uint32_t)nthr && thr[a].used && !thr[a].finished && !thr[a].runnable && thr[a].bkind == B_COND) {
            thr[a].runnable = true;
            thr[a].bkind = B_NONE;
            thr[a].wake_ns = UINT64_MAX;
            rt_count(RC_SPURIOUS, 1);
        }
        return;
    }
    if (n && !g_fair && res->cnt[RC_SPURIOUS] < 1500 && chance(cfg.p_spurious)) { // finitely many, or idle threads could keep time from passing
        Thr *t = c[rng() % n];
        record('W', t->id);
        t->runnable = true;
        t->bkind = B_NONE;
        t->wake_ns = UINT64_MAX;
        rt_count(RC_SPURIOUS, 1);
    }
}

// a scheduling point of a running thread; sync: at a synchronisation operation
static void sched_point(uint64_t pc, bool sync, bool force_preempt) {
    g_slow++;
    g_now += cfg.tick_ns;
    check_caps();
    if (cfg.replay) {
        uint32_t a;
        if (take('J', &a)) {
            g_now += (uint64_t)a * 1000;
            rt_count(RC_JUMP, 1);
        }
        spurious(pc);
        Thr *to = cur;
        if (g_fair) {
            Thr *d = default_next();
            if (d)
                to = d;
        }
        if (take('T', &a) && a < (uint32_t)nthr && can_run(&thr[a]))
            to = &thr[a];
        set_next_mem();
        if (to != cur)
            res->preemptions++;
        do_switch(to, pc);
        return;
    }
    if (g_nopreempt)
        return;
    if (sync && !g_fair && chance(cfg.p_jump)) {
        uint32_t j = 1 + (uint32_t)(rng() % cfg.max_jump_us);
        if (rng() & 1)
            j = 1 + j / 100;
        record('J', j);
        g_now += (uint64_t)j * 1000;
        rt_count(RC_JUMP, 1);
    }
    if (sync)
        spurious(pc);
    Thr *to = cur;
    if (g_fair) {
        Thr *d = default_next();
        if (d)
            to = d;
    } else {
        if (chance(cfg.p_stall)) {
            cur->stalled_until = g_slow + 1 + rng() % cfg.stall_len;
            rt_count(RC_STALL, 1);
            force_preempt = true;
        }
        if (cfg.mode == 1) {
            while (pct_npoints && pct_points[pct_npoints - 1] <= g_slow) {
                pct_npoints--;
                cur->prio = --pct_low;
            }
            to = search_pick(false);
        } else if (force_preempt || chance(cfg.p_sync))
            to = search_pick(false);
        if (!to)
            to = cur;
        if (to != cur) {
            record('T', to->id);
            res->preemptions++;
        }
    }
    do_switch(to, pc);
}

// a possible preemption between two memory accesses; nothing changes unless there is a switch, so that
// a replay needs to know only about the switches
static void mem_switch(uint64_t pc) {
    Thr *to = cur;
    if (cfg.replay) {
        uint32_t a;
        if (take('T', &a) && a < (uint32_t)nthr && can_run(&thr[a]))
            to = &thr[a];
        set_next_mem();
    } else {
        if (g_nopreempt || g_fair)
            return;
        rt_count(RC_PREEMPT_MEM, 1);
        to = search_pick(false);
        if (to && to != cur)
            record('T', to->id);
    }
    if (!to || to == cur)
        return;
    g_slow++;
    g_now += cfg.tick_ns;
    check_caps();
    res->preemptions++;
    do_switch(to, pc);
}

static inline void sync_point(uint64_t pc, int op, Obj *o) {
    if (!g_active)
        return;
    g_step++;
    mix(((uint64_t)op << 56) ^ ((uint64_t)cur->id << 48) ^ (o ? o->id : 0));
    g_shash = (g_shash ^ (((uint64_t)op << 8) | cur->id)) * 1099511628211ull;
    sched_point(pc, true, false);
}
EXPORT void rt_yield_point() { sync_point(PC(), 1, nullptr); }

static void block_on(int kind, Obj *o, uint64_t wake, uint64_t pc) {
    cur->runnable = false;
    cur->bkind = kind;
    cur->bobj = o;
    cur->wake_ns = wake;
    cur->timed_out = false;
    cur->bseq = ++g_seq;
    block_switch(pc);
}
static void wake_all(int kind, Obj *o) {
    for (int i = 0; i < nthr; i++) {
        Thr &t = thr[i];
        if (t.used && !t.finished && !t.runnable && t.bkind == kind && t.bobj == o) {
            t.runnable = true;
            t.bkind = B_NONE;
            t.wake_ns = UINT64_MAX;
        }
    }
}

EXPORT void rt_sleep_ns(uint64_t ns) {
    if (!g_active)
        return;
    g_step++;
    mix(0x51ee9);
    block_on(B_SLEEP, nullptr, g_now + ns, PC());
}

// ------------------------------------------------------------------ race detector
static const uint64_t F_W = 1, F_A = 2, F_REDZONE = 0x40, F_FREED = 0x80;
static inline uint64_t mkcell(uint32_t ep, int tid, uint32_t mask, uint64_t fl) { return ((uint64_t)ep << 32) | ((uint64_t)tid << 16) | ((uint64_t)mask << 8) | fl; }

struct GRange {
    uint64_t lo, hi;
    uint64_t *cells;
    uint32_t *pcs;
};
static GRange granges[16];
static int ngranges = 0;

static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    const char *n = i->dlpi_name;
    if (!n || (!strstr(n, "libvapoursynth") && !strstr(n, "libvspipe") && !strstr(n, "vsscript") && !strstr(n, "simplug")))
        return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) &p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD || !(p.p_flags & PF_W))
            continue;
        uint64_t lo = (i->dlpi_addr + p.p_vaddr) & ~63ull, hi = (i->dlpi_addr + p.p_vaddr + p.p_memsz + 63) & ~63ull;
        bool have = false;
        for (int g = 0; g < ngranges; g++)
            if (granges[g].lo == lo && granges[g].hi == hi)
                have = true;
        if (have || ngranges >= 16)
            continue;
        GRange &g = granges[ngranges++];
        g.lo = lo;
        g.hi = hi;
        g.cells = (uint64_t *)rt_raw_alloc((hi - lo) / 8 * 32);
        g.pcs = (uint32_t *)rt_raw_alloc((hi - lo) / 8 * 16);
    }
    return 0;
}
EXPORT void rt_add_globals() { dl_iterate_phdr(phdr_cb, nullptr); }

static uint64_t mod_pc(uint32_t lowpc) { // reconstruct a full pc from its low 32 bits
    uint64_t found = 0;
    struct A {
        uint32_t l;
        uint64_t *f;
    } a{lowpc, &found};
    dl_iterate_phdr(
        [](struct dl_phdr_info *i, size_t, void *v) -> int {
            A *a = (A *)v;
            for (int k = 0; k < i->dlpi_phnum; k++) {
                const ElfW(Phdr) &p = i->dlpi_phdr[k];
                if (p.p_type != PT_LOAD || !(p.p_flags & PF_X))
                    continue;
                uint64_t lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
                uint64_t c = (lo & ~0xffffffffull) | a->l;
                if (c < lo)
                    c += 1ull << 32;
                if (c >= lo && c < hi) {
                    *a->f = c;
                    return 1;
                }
            }
            return 0;
        },
        &a);
    return found;
}

struct BlockHdr {
    uint64_t size;
    uint64_t magic;
    uint64_t alloc_pc;
    uint32_t base_len; // total length including padding, for reuse
    uint32_t align;
    uint64_t user;     // address handed out
    uint64_t prev;     // previous block ever laid out (reused blocks keep their place)
};
static const uint64_t MAGIC_LIVE = 0x1badb002cafef00dull, MAGIC_FREE = 0xdeadf4eedeadf4eeull;

static struct {
    uint32_t a, b;
} seen_races[512];
static int nseen = 0;

static void report_race(uint64_t addr, uint64_t cell, uint32_t pc1, uint64_t pc2, uint64_t fl) {
    uint32_t p2 = (uint32_t)pc2;
    for (int i = 0; i < nseen; i++)
        if ((seen_races[i].a == pc1 && seen_races[i].b == p2) || (seen_races[i].a == p2 && seen_races[i].b == pc1))
            return;
    if (nseen < 512) {
        seen_races[nseen].a = pc1;
        seen_races[nseen].b = p2;
        nseen++;
    }
    rt_count(RC_RACES, 1);
    char d1[200], d2[200], buf[700];
    rt_describe_pc(mod_pc(pc1), d1, sizeof(d1));
    rt_describe_pc(pc2, d2, sizeof(d2));
    snprintf(buf, sizeof(buf), "data race: t%d %s%s at %s and t%d %s%s at %s, neither ordered before the other", (int)((cell >> 16) & 0xff), cell & F_A ? "atomic " : "", cell & F_W ? "write" : "read", d1, cur->id,
             fl & F_A ? "atomic " : "", fl & F_W ? "write" : "read", d2);
    (void)addr;
    if (rt_verbose)
        dprintf(2, "[race] %s\n", buf);
    bool a = g_active;
    g_active = false;
    int fatal = rt_on_race ? rt_on_race(buf) : 0;
    g_active = a;
    if (fatal)
        rt_fail("race", "%s", buf);
}
static void report_uaf(uint64_t addr, uint64_t cell, uint32_t fpc, uint64_t pc, uint64_t fl) {
    char d1[200], d2[200];
    rt_describe_pc(mod_pc(fpc), d1, sizeof(d1));
    rt_describe_pc(pc, d2, sizeof(d2));
    rt_count(RC_UAF, 1);
    if (cell & F_REDZONE)
        rt_fail("overflow", "%s outside a heap block at %s by t%d", fl & F_W ? "write" : "read", d2, cur->id);
    rt_fail("use-after-free", "%s of freed memory by t%d at %s; freed by t%d at %s", fl & F_W ? "write" : "read", cur->id, d2, (int)((cell >> 16) & 0xff), d1);
    (void)addr;
}

static uint32_t evict_rot = 0;
// returns true when the granule was last touched by another thread
static inline bool check_granule(uint64_t *cells, uint32_t *pcs, uint64_t addr, uint32_t mask, uint64_t fl, uint64_t pc) {
    uint64_t mine = mkcell(cur->vc.c[cur->id], cur->id, mask, fl);
    uint64_t c0 = cells[0];
    if (c0 == mine)
        return false;
    if (unlikely(c0 & (F_FREED | F_REDZONE))) {
        report_uaf(addr, c0, pcs[0], pc, fl);
        return false;
    }
    bool shared = false;
    int slot = -1, old = -1;
    for (int i = 0; i < 4; i++) {
        uint64_t c = cells[i];
        if (c == mine) {
            return shared;
        }
        if (!c) {
            if (slot < 0)
                slot = i;
            continue;
        }
        int ct = (c >> 16) & 0xff;
        uint32_t cm = (c >> 8) & 0xff;
        if (ct == cur->id) {
            // same thread: replace if we cover it with an access at least as strong
            if ((cm & ~mask) == 0 && (fl & F_W || !(c & F_W)) && (!(fl & F_A) || (c & F_A)))
                slot = slot < 0 ? i : (cells[i] = 0, pcs[i] = 0, slot);
            continue;
        }
        shared = true;
        bool ordered = (uint32_t)(c >> 32) <= cur->vc.c[ct];
        if ((cm & mask) && !ordered && ((c | fl) & F_W) && !((c & F_A) && (fl & F_A)))
            report_race(addr, c, pcs[i], pc, fl);
        if (ordered && (cm & ~mask) == 0 && ((fl & F_W) || !(c & F_W)) && !(fl & F_A))
            old = i;
    }
    if (slot < 0)
        slot = old >= 0 ? old : (int)(evict_rot++ & 3);
    // keep the most recent access in slot 0 for the fast path
    if (slot != 0) {
        cells[slot] = cells[0];
        pcs[slot] = pcs[0];
    }
    cells[0] = mine;
    pcs[0] = (uint32_t)pc;
    return shared;
}

static inline bool shadow_of(uint64_t a, uint64_t **c, uint32_t **p) {
    uint64_t off = a - ARENA_BASE;
    if (likely(off < ARENA_SIZE)) {
        *c = sh_cells + (off >> 3) * 4;
        *p = sh_pcs + (off >> 3) * 4;
        return true;
    }
    for (int i = 0; i < ngranges; i++)
        if (a >= granges[i].lo && a < granges[i].hi) {
            *c = granges[i].cells + ((a - granges[i].lo) >> 3) * 4;
            *p = granges[i].pcs + ((a - granges[i].lo) >> 3) * 4;
            return true;
        }
    return false;
}

static void mem_preempt(uint64_t pc, bool by_shared) {
    if (!cfg.replay) {
        if (by_shared)
            g_next_shared = g_shared + gap(cfg.shared_gap);
        else
            g_next_mem = g_step + gap(cfg.mem_gap);
    }
    if (unlikely(g_step >= cfg.hard_steps)) // a loop without scheduling points
        check_caps(true);
    mem_switch(pc);
}

static inline bool shadow_access(uint64_t a, size_t size, uint64_t fl, uint64_t pc) {
    uint64_t *c;
    uint32_t *p;
    bool shared = false;
    while (size) {
        uint32_t o = a & 7;
        uint32_t n = 8 - o;
        if (n > size)
            n = (uint32_t)size;
        if (shadow_of(a, &c, &p))
            shared |= check_granule(c, p, a, ((1u << n) - 1) << o, fl, pc);
        a += n;
        size -= n;
    }
    return shared;
}

static inline void mem_access(uint64_t a, size_t size, uint64_t fl, uint64_t pc) {
    if (!g_active)
        return;
    g_step++;
    if (cfg.race && shadow_access(a, size, fl, pc)) {
        if (unlikely(++g_shared >= g_next_shared) && !cfg.replay) {
            mem_preempt(pc, true);
            return;
        }
    }
    if (unlikely(g_step >= g_next_mem))
        mem_preempt(pc, false);
}
EXPORT void rt_read_range(const void *p, size_t n) { mem_access((uint64_t)p, n, 0, PC()); }
EXPORT void rt_write_range(const void *p, size_t n) { mem_access((uint64_t)p, n, F_W, PC()); }

#define ACC(n)                                                                                                     \
    EXPORT void __tsan_read##n(void *a) { mem_access((uint64_t)a, n, 0, PC()); }                                     \
    EXPORT void __tsan_write##n(void *a) { mem_access((uint64_t)a, n, F_W, PC()); }                                  \
    EXPORT void __tsan_unaligned_read##n(void *a) { mem_access((uint64_t)a, n, 0, PC()); }                           \
    EXPORT void __tsan_unaligned_write##n(void *a) { mem_access((uint64_t)a, n, F_W, PC()); }                        \
    EXPORT void __tsan_volatile_read##n(void *a) { mem_access((uint64_t)a, n, 0, PC()); }                            \
    EXPORT void __tsan_volatile_write##n(void *a) { mem_access((uint64_t)a, n, F_W, PC()); }                         \
    EXPORT void __tsan_read_write##n(void *a) { mem_access((uint64_t)a, n, F_W, PC()); }                             \
    EXPORT void __tsan_unaligned_read_write##n(void *a) { mem_access((uint64_t)a, n, F_W, PC()); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXPORT void __tsan_read_range(void *a, unsigned long n) { mem_access((uint64_t)a, n, 0, PC()); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { mem_access((uint64_t)a, n, F_W, PC()); }
EXPORT void __tsan_vptr_read(void **a) { mem_access((uint64_t)a, 8, 0, PC()); }
EXPORT void __tsan_vptr_update(void **a, void *v) {
    if (*a == v)
        return;
    mem_access((uint64_t)a, 8, F_W, PC());
}
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
    uint64_t pc = PC();
    if (n) {
        mem_access((uint64_t)s, n, 0, pc);
        mem_access((uint64_t)d, n, F_W, pc);
    }
    return memcpy(d, s, n);
}
EXPORT void *__tsan_memmove(void *d, const void *s, unsigned long n) {
    uint64_t pc = PC();
    if (n) {
        mem_access((uint64_t)s, n, 0, pc);
        mem_access((uint64_t)d, n, F_W, pc);
    }
    return memmove(d, s, n);
}
EXPORT void *__tsan_memset(void *d, int c, unsigned long n) {
    if (n)
        mem_access((uint64_t)d, n, F_W, PC());
    return memset(d, c, n);
}

// ------------------------------------------------------------------ atomics
// memory orders as passed by clang: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline bool mo_acq(int m) { return m == 1 || m == 2 || m == 4 || m == 5; }
static inline bool mo_rel(int m) { return m == 3 || m == 4 || m == 5; }

static void atomic_pre(const volatile void *a, int size, uint64_t fl, uint64_t pc) {
    // an atomic operation is a preemption point of its own
    if (!g_active)
        return;
    g_step++;
    bool shared = cfg.race && shadow_access((uint64_t)a, size, fl | F_A, pc);
    if (cfg.replay) {
        if (g_step >= g_next_mem)
            mem_preempt(pc, false);
        return;
    }
    if (shared && ++g_shared >= g_next_shared)
        mem_preempt(pc, true);
    else if (g_step >= g_next_mem)
        mem_preempt(pc, false);
    else if (shared && cfg.mode == 0 && !g_fair && chance(cfg.p_sync * 0.3)) {
        mem_switch(pc);
    }
}
static void hb_load(const volatile void *a, int mo) {
    if (!g_active)
        return;
    Obj *o = obj_get((const void *)a);
    if (mo_acq(mo))
        vc_join(cur->vc, o->vc);
    else
        vc_join(cur->acq_pending, o->vc);
}
static void hb_store(const volatile void *a, int mo) {
    if (!g_active)
        return;
    Obj *o = obj_get((const void *)a);
    if (mo_rel(mo))
        hb_release_store(o);
    else if (cur->has_fence_rel)
        memcpy(&o->vc, &cur->fence_rel, sizeof(uint32_t) * nthr);
    else
        memset(&o->vc, 0, sizeof(uint32_t) * nthr);
}
static void hb_rmw(const volatile void *a, int mo) {
    if (!g_active)
        return;
    Obj *o = obj_get((const void *)a);
    if (mo_acq(mo))
        vc_join(cur->vc, o->vc);
    else
        vc_join(cur->acq_pending, o->vc);
    if (mo_rel(mo))
        hb_release(o);
    else if (cur->has_fence_rel)
        vc_join(o->vc, cur->fence_rel);
}

typedef unsigned __int128 u128;
#define ATOMIC(bits, T)                                                                                            \
    EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                              \
        atomic_pre(a, bits / 8, 0, PC());                                                                           \
        hb_load(a, mo);                                                                                             \
        return *a;                                                                                                  \
    }                                                                                                               \
    EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                           \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        hb_store(a, mo);                                                                                            \
        *a = v;                                                                                                     \
    }                                                                                                               \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                           \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        hb_rmw(a, mo);                                                                                              \
        T o = *a;                                                                                                   \
        *a = v;                                                                                                     \
        return o;                                                                                                   \
    }                                                                                                               \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) {                                          \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        hb_rmw(a, mo);                                                                                              \
        T o = *a;                                                                                                   \
        *a = o + v;                                                                                                 \
        return o;                                                                                                   \
    }                                                                                                               \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) {                                          \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        hb_rmw(a, mo);                                                                                              \
        T o = *a;                                                                                                   \
        *a = o - v;                                                                                                 \
        return o;                                                                                                   \
    }                                                                                                               \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) {                                          \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        hb_rmw(a, mo);                                                                                              \
        T o = *a;                                                                                                   \
        *a = o & v;                                                                                                 \
        return o;                                                                                                   \
    }                                                                                                               \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) {                                           \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        hb_rmw(a, mo);                                                                                              \
        T o = *a;                                                                                                   \
        *a = o | v;                                                                                                 \
        return o;                                                                                                   \
    }                                                                                                               \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) {                                          \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        hb_rmw(a, mo);                                                                                              \
        T o = *a;                                                                                                   \
        *a = o ^ v;                                                                                                 \
        return o;                                                                                                   \
    }                                                                                                               \
    EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) {                                         \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        hb_rmw(a, mo);                                                                                              \
        T o = *a;                                                                                                   \
        *a = ~(o & v);                                                                                              \
        return o;                                                                                                   \
    }                                                                                                               \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {           \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        T o = *a;                                                                                                   \
        if (o == *c) {                                                                                              \
            hb_rmw(a, mo);                                                                                          \
            *a = v;                                                                                                 \
            return 1;                                                                                               \
        }                                                                                                           \
        hb_load(a, fmo);                                                                                            \
        *c = o;                                                                                                     \
        return 0;                                                                                                   \
    }                                                                                                               \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {             \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                                     \
    }                                                                                                               \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                 \
        atomic_pre(a, bits / 8, F_W, PC());                                                                         \
        T o = *a;                                                                                                   \
        if (o == c) {                                                                                               \
            hb_rmw(a, mo);                                                                                          \
            *a = v;                                                                                                 \
        } else                                                                                                      \
            hb_load(a, fmo);                                                                                        \
        return o;                                                                                                   \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
ATOMIC(128, u128)
EXPORT void __tsan_atomic_thread_fence(int mo) {
    if (!g_active)
        return;
    if (mo_acq(mo))
        vc_join(cur->vc, cur->acq_pending);
    if (mo_rel(mo)) {
        memcpy(&cur->fence_rel, &cur->vc, sizeof(VClock));
        cur->has_fence_rel = true;
        cur->vc.c[cur->id]++;
    }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ allocator
static uint64_t live_bytes = 0, live_blocks = 0, live_aligned = 0;
static const uint64_t RUN_BASE = ARENA_BASE + (512ull << 20); // heap addresses inside a run do not depend on what happened before it
static uint64_t run_mark = 0;
struct FreeNode {
    FreeNode *next;
    uint64_t len;
};
static const int NBINS = 64;
static FreeNode *bins[NBINS];
static int bin_of(uint64_t len) {
    return (int)((len / 16) % NBINS);
}

static void mark_shadow(uint64_t a, uint64_t n, uint64_t cell, uint32_t pc) {
    uint64_t lo = (a + 7) >> 3, hi = (a + n) >> 3;
    for (uint64_t g = lo; g < hi; g++) {
        uint64_t off = g * 8 - ARENA_BASE;
        uint64_t *c = sh_cells + (off >> 3) * 4;
        c[0] = c[1] = c[2] = c[3] = cell;
        sh_pcs[(off >> 3) * 4] = pc;
    }
}

static uint64_t g_last_block = 0;
static void *arena_alloc(size_t align, size_t size, uint64_t pc, bool zero = false) {
    arena_init();
    if (align < 16)
        align = 16;
    if (size > ARENA_SIZE / 2) {
        errno = ENOMEM;
        return nullptr;
    }
    uint64_t hdr = sizeof(BlockHdr) + 16; // header plus redzone
    static uint64_t last_block = 0;
    bool reused = false;
    uint64_t user = 0, len = 0;
    if (cfg.reuse && g_active && size < 65536) {
        // exact-size LIFO reuse, so that recycled addresses are seen as well
        uint64_t want = (size + 31) & ~15ull;
        FreeNode **pp = &bins[bin_of(want)];
        while (*pp) {
            FreeNode *f = *pp;
            if (f->len == want && ((uint64_t)f & (align - 1)) == 0) {
                *pp = f->next;
                user = (uint64_t)f;
                len = want;
                reused = true;
                mark_shadow(user, want, 0, 0);
                break;
            }
            pp = &f->next;
        }
    }
    if (!user) {
        uint64_t p = arena_next + hdr;
        p = (p + align - 1) & ~(align - 1);
        user = p;
        len = (size + 31) & ~15ull; // at least 16 bytes of trailing redzone
        arena_next = user + len;
        static uint64_t touched; // the shadow makes this seven times as much real memory
        touched += hdr + (len < 65536 ? len : 65536);
        if (arena_next > ARENA_BASE + ARENA_SIZE - (64ull << 20) || touched > (400ull << 20))
            rt_inconclusive("simulated heap exhausted");
    }
    BlockHdr *h = (BlockHdr *)(user - sizeof(BlockHdr));
    h->size = size;
    h->magic = MAGIC_LIVE;
    h->alloc_pc = pc;
    h->base_len = (uint32_t)(len > 0xffffffffu ? 0xffffffffu : len);
    h->user = user;
    if (!reused) {
        h->prev = last_block;
        last_block = user;
        g_last_block = user;
    }
    h->align = (uint32_t)align;
    live_bytes += size;
    live_blocks++;
    if (align >= 64)
        live_aligned += size;
    if (g_active) {
        rt_count(RC_ALLOCS, 1);
        mark_shadow(user - 16, 16, F_REDZONE, 0);
        mark_shadow(user + ((size + 7) & ~7ull), 8, F_REDZONE, 0);
        if (zero) {
            if (cfg.reuse)
                memset((void *)user, 0, size);
        } else if (size <= 65536)
            memset((void *)user, 0xCD, size);
        else
            memset((void *)user, 0xCD, 4096);
    }
    return (void *)user;
}

static inline BlockHdr *hdr_of(const void *p) { return (BlockHdr *)((uint64_t)p - sizeof(BlockHdr)); }

EXPORT int rt_is_live(const void *p) {
    if ((uint64_t)p - ARENA_BASE >= ARENA_SIZE)
        return -1;
    BlockHdr *h = hdr_of(p);
    return h->magic == MAGIC_LIVE ? 1 : h->magic == MAGIC_FREE ? 0 : -1;
}
// 1: [p, p+n) lies inside one live block
EXPORT int rt_heap_fits(const void *p, size_t n) {
    uint64_t a = (uint64_t)p;
    for (uint64_t u = g_last_block; u;) {
        BlockHdr *h = (BlockHdr *)(u - sizeof(BlockHdr));
        if (a >= u && a < u + h->size)
            return h->magic == MAGIC_LIVE && a + n <= u + h->size;
        u = h->prev;
    }
    return 0;
}
EXPORT uint64_t rt_heap_live_bytes() { return live_bytes; }
EXPORT uint64_t rt_heap_live_blocks() { return live_blocks; }
EXPORT uint64_t rt_heap_live_aligned() { return live_aligned; }
EXPORT uint64_t rt_heap_mark() { return g_last_block; }
// live blocks allocated from fresh memory after the mark, described by allocation site
EXPORT int rt_heap_list(uint64_t mark, char *buf, size_t n, int (*skip)(const void *, size_t, const char *)) {
    int found = 0;
    size_t o = 0;
    if (n)
        buf[0] = 0;
    for (uint64_t u = g_last_block; u && u != mark;) {
        BlockHdr *h = (BlockHdr *)(u - sizeof(BlockHdr));
        if (h->magic == MAGIC_LIVE) {
            char d[200];
            rt_describe_pc(h->alloc_pc, d, sizeof(d));
            if (!skip || !skip((void *)u, h->size, d)) {
                found++;
                if (o + 240 < n)
                    o += snprintf(buf + o, n - o, " [%lu bytes from %s]", (unsigned long)h->size, d);
            }
        }
        u = h->prev;
    }
    return found;
}
// all other threads are blocked for good (nothing will run until this thread does something)
EXPORT int rt_others_blocked() {
    for (int i = 0; i < nthr; i++)
        if (&thr[i] != cur && thr[i].used && !thr[i].finished && (thr[i].runnable || thr[i].wake_ns != UINT64_MAX))
            return 0;
    return 1;
}
EXPORT int rt_quiesce() {
    for (int i = 0; i < 200000; i++) {
        if (rt_others_blocked())
            return 1;
        rt_sleep_ns(2000);
    }
    return 0;
}
EXPORT void rt_set_limits(uint64_t soft_slow, uint64_t hard_slow) { (void)soft_slow; (void)hard_slow; }

static void arena_free(void *p, uint64_t pc) {
    if (!p || (uint64_t)p - ARENA_BASE >= ARENA_SIZE)
        return;
    BlockHdr *h = hdr_of(p);
    if (h->magic != MAGIC_LIVE) {
        if (!g_active)
            return;
        char d[200];
        rt_describe_pc(pc, d, sizeof(d));
        if (h->magic == MAGIC_FREE)
            rt_fail("double-free", "heap block freed twice, second time by t%d at %s", cur->id, d);
        rt_fail("bad-free", "free of something that is not a heap block by t%d at %s", cur->id, d);
    }
    h->magic = MAGIC_FREE;
    live_bytes -= h->size;
    live_blocks--;
    if (h->align >= 64)
        live_aligned -= h->size;
    if (g_active && !g_failing) {
        uint64_t n = h->size;
        if (cfg.race)
            shadow_access((uint64_t)p, n > 4096 ? 4096 : n, F_W, pc);
        mark_shadow((uint64_t)p, n > 65536 ? 4096 : (n + 7) & ~7ull, mkcell(1, cur->id, 0xff, F_FREED), (uint32_t)pc);
        memset(p, 0xDD, n > 65536 ? 4096 : n);
        if (cfg.reuse && n < 65536) {
            FreeNode *f = (FreeNode *)p;
            if (h->base_len >= sizeof(FreeNode)) {
                f->len = h->base_len;
                f->next = bins[bin_of(f->len)];
                bins[bin_of(f->len)] = f;
            }
        }
    }
}

EXPORT void *malloc(size_t n) { return arena_alloc(16, n, PC()); }
EXPORT void free(void *p) { arena_free(p, PC()); }
EXPORT void cfree(void *p) { arena_free(p, PC()); }
EXPORT void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return arena_alloc(16, n, PC(), true); // fresh arena memory is zero
}
EXPORT void *realloc(void *p, size_t n) {
    if (!p)
        return arena_alloc(16, n, PC());
    if ((uint64_t)p - ARENA_BASE >= ARENA_SIZE)
        return nullptr;
    if (!n) {
        arena_free(p, PC());
        return nullptr;
    }
    BlockHdr *h = hdr_of(p);
    void *q = arena_alloc(16, n, PC());
    if (q) {
        memcpy(q, p, h->size < n ? h->size : n);
        arena_free(p, PC());
    }
    return q;
}
EXPORT void *reallocarray(void *p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return realloc(p, n);
}
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
    void *p = arena_alloc(al, n, PC());
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return arena_alloc(al, n, PC()); }
EXPORT void *memalign(size_t al, size_t n) { return arena_alloc(al, n, PC()); }
EXPORT void *valloc(size_t n) { return arena_alloc(4096, n, PC()); }
EXPORT void *pvalloc(size_t n) { return arena_alloc(4096, (n + 4095) & ~4095ull, PC()); }
EXPORT size_t malloc_usable_size(void *p) { return p ? hdr_of(p)->size : 0; }

// operator new/delete are taken over as well: the free/alloc site is then the caller in the code
// under test rather than libstdc++
#include <new>
__attribute__((visibility("default"))) void *operator new(size_t n) {
    return arena_alloc(16, n, PC());
}
__attribute__((visibility("default"))) void *operator new[](size_t n) { return arena_alloc(16, n, PC()); }
__attribute__((visibility("default"))) void operator delete(void *p) noexcept { arena_free(p, PC()); }
__attribute__((visibility("default"))) void operator delete[](void *p) noexcept { arena_free(p, PC()); }
__attribute__((visibility("default"))) void operator delete(void *p, size_t) noexcept { arena_free(p, PC()); }
__attribute__((visibility("default"))) void operator delete[](void *p, size_t) noexcept { arena_free(p, PC()); }
__attribute__((visibility("default"))) void *operator new(size_t n, const std::nothrow_t &) noexcept { return arena_alloc(16, n, PC()); }
__attribute__((visibility("default"))) void *operator new[](size_t n, const std::nothrow_t &) noexcept { return arena_alloc(16, n, PC()); }
__attribute__((visibility("default"))) void operator delete(void *p, const std::nothrow_t &) noexcept { arena_free(p, PC()); }
__attribute__((visibility("default"))) void operator delete[](void *p, const std::nothrow_t &) noexcept { arena_free(p, PC()); }
__attribute__((visibility("default"))) void *operator new(size_t n, std::align_val_t a) { return arena_alloc((size_t)a, n, PC()); }
__attribute__((visibility("default"))) void *operator new[](size_t n, std::align_val_t a) { return arena_alloc((size_t)a, n, PC()); }
__attribute__((visibility("default"))) void operator delete(void *p, std::align_val_t) noexcept { arena_free(p, PC()); }
__attribute__((visibility("default"))) void operator delete[](void *p, std::align_val_t) noexcept { arena_free(p, PC()); }
__attribute__((visibility("default"))) void operator delete(void *p, size_t, std::align_val_t) noexcept { arena_free(p, PC()); }
__attribute__((visibility("default"))) void operator delete[](void *p, size_t, std::align_val_t) noexcept { arena_free(p, PC()); }

// ------------------------------------------------------------------ threads
typedef int (*real_create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static real_create_t real_create() {
    static real_create_t f = nullptr;
    if (!f)
        f = (real_create_t)dlsym(RTLD_NEXT, "pthread_create");
    return f;
}

static void *park_entry(void *a) {
    Thr *t = (Thr *)a;
    t->fs = rdfs();
    t->ptid = pthread_self();
    __atomic_store_n(&t->arrived, 1, __ATOMIC_SEQ_CST);
    raw_syscall(SYS_futex, (long)&t->arrived, FUTEX_WAKE, 1);
    // this kernel thread only exists to own a TLS block, the fiber does the work
    static int never = 0;
    for (;;)
        raw_syscall(SYS_futex, (long)&never, FUTEX_WAIT, 0, 0);
    return nullptr;
}

static void run_tls_dtors(Thr *t) {
    while (t->dtors) {
        TlsDtor *d = t->dtors;
        t->dtors = d->next;
        d->fn(d->arg);
        arena_free(d, PC());
    }
}

static void finish_thread() {
    run_tls_dtors(cur);
    hb_release(cur->exitobj);
    cur->finished = true;
    cur->runnable = false;
    for (int i = 0; i < nthr; i++) {
        Thr &t = thr[i];
        if (t.used && !t.finished && !t.runnable && t.bkind == B_JOIN && t.bval == (uint64_t)cur->id) {
            t.runnable = true;
            t.bkind = B_NONE;
        }
    }
    block_switch(PC());
    __builtin_unreachable();
}

static void fiber_main() {
    cur->ret = cur->fn(cur->arg);
    finish_thread();
}
EXPORT void pthread_exit(void *r) {
    cur->ret = r;
    finish_thread();
    __builtin_unreachable();
}

size_t rt_stack_size = 1 << 20;

EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!g_active)
        return real_create()(out, attr, fn, arg);
    Obj *o = nullptr;
    sync_point(PC(), 2, o);
    if (nthr >= RT_MAXT)
        rt_inconclusive("too many threads");
    Thr *t = &thr[nthr];
    memset(t, 0, sizeof(*t));
    t->id = nthr;
    t->fn = fn;
    t->arg = arg;
    t->wake_ns = UINT64_MAX;
    if (attr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    // real thread for the TLS block
    uint64_t kst = (arena_next + 4095) & ~4095ull;
    arena_next = kst + 65536 + rt_stack_size;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, (void *)kst, 65536);
    pthread_t pt;
    bool act = g_active;
    g_active = false;
    int r = real_create()(&pt, &a, park_entry, t);
    pthread_attr_destroy(&a);
    if (r)
        rt_inconclusive("pthread_create failed: %d", r);
    while (!__atomic_load_n(&t->arrived, __ATOMIC_SEQ_CST))
        raw_syscall(SYS_futex, (long)&t->arrived, FUTEX_WAIT, 0, 0);
    g_active = act;
    prepare_stack(t, kst + 65536 + rt_stack_size - 64);
    nthr++;
    t->used = true;
    t->runnable = true;
    memcpy(&t->vc, &cur->vc, sizeof(VClock));
    t->vc.c[t->id] = 1;
    cur->vc.c[cur->id]++;
    t->exitobj = obj_get(t);
    if (!cfg.replay)
        t->prio = (uint32_t)((rng() % 1000000) + 1000000);
    rt_count(RC_THREADS, 1);
    *out = t->ptid;
    sync_point(PC(), 3, nullptr);
    return 0;
}
static Thr *thr_of(pthread_t p) {
    for (int i = 0; i < nthr; i++)
        if (thr[i].used && thr[i].ptid == p)
            return &thr[i];
    return nullptr;
}
EXPORT int pthread_join(pthread_t p, void **ret) {
    if (!g_active)
        return 0;
    Thr *t = thr_of(p);
    if (!t)
        return ESRCH;
    sync_point(PC(), 4, nullptr);
    while (!t->finished) {
        cur->bval = t->id;
        block_on(B_JOIN, nullptr, UINT64_MAX, PC());
    }
    hb_acquire(t->exitobj);
    if (ret)
        *ret = t->ret;
    t->joined = true;
    return 0;
}
EXPORT int pthread_detach(pthread_t p) {
    Thr *t = thr_of(p);
    if (t)
        t->detached = true;
    return 0;
}
EXPORT int __cxa_thread_atexit_impl(void (*fn)(void *), void *arg, void *) {
    if (!g_active && cur->id == 0) {
        // main thread outside a run: destructors of the main thread are never run
        return 0;
    }
    TlsDtor *d = (TlsDtor *)arena_alloc(16, sizeof(TlsDtor), PC());
    d->fn = fn;
    d->arg = arg;
    d->next = cur->dtors;
    cur->dtors = d;
    return 0;
}

// ------------------------------------------------------------------ mutexes
static inline bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static int mutex_lock_impl(pthread_mutex_t *m, uint64_t pc, uint64_t until, bool point) {
    Obj *o = obj_get(m);
    if (point)
        sync_point(pc, 5, o);
    if (o->owner == cur->id) {
        if (is_recursive(m)) {
            o->count++;
            return 0;
        }
        if (g_active) {
            char d[200];
            rt_describe_pc(pc, d, sizeof(d));
            rt_fail("deadlock", "t%d locks a non-recursive mutex it already holds at %s", cur->id, d);
        }
    }
    while (o->owner != -1) {
        if (!g_active)
            rt_fail("deadlock", "mutex contended outside a run");
        rt_count(RC_MUTEX_BLOCK, 1);
        block_on(B_MUTEX, o, until, pc);
        if (cur->timed_out && o->owner != -1)
            return ETIMEDOUT;
    }
    o->owner = cur->id;
    o->count = 1;
    hb_acquire(o);
    return 0;
}
static int mutex_unlock_impl(pthread_mutex_t *m, uint64_t pc) {
    Obj *o = obj_get(m);
    if (g_active && o->owner != cur->id) {
        char d[200];
        rt_describe_pc(pc, d, sizeof(d));
        rt_fail("bad-unlock", "t%d unlocks a mutex held by t%d at %s", cur->id, o->owner, d);
    }
    if (--o->count > 0)
        return 0;
    o->owner = -1;
    o->count = 0;
    hb_release_store(o);
    wake_all(B_MUTEX, o);
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock_impl(m, PC(), UINT64_MAX, true); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
    sync_point(PC(), 6, obj_get(m));
    return mutex_unlock_impl(m, PC());
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
    Obj *o = obj_get(m);
    sync_point(PC(), 7, o);
    if (o->owner == cur->id && is_recursive(m)) {
        o->count++;
        return 0;
    }
    if (o->owner != -1) {
        rt_count(RC_TRYLOCK_FAIL, 1);
        return EBUSY;
    }
    o->owner = cur->id;
    o->count = 1;
    hb_acquire(o);
    return 0;
}
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
static uint64_t abs_to_mono(const struct timespec *t) {
    uint64_t v = ts_ns(t);
    return v > 1000000000ull * 1000000000ull ? v - REAL_OFF : v;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return mutex_lock_impl(m, PC(), abs_to_mono(t), true); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *t) { return mutex_lock_impl(m, PC(), abs_to_mono(t), true); }
EXPORT int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    memset(m, 0, sizeof(*m));
    if (a) {
        int k = 0;
        pthread_mutexattr_gettype(a, &k);
        m->__data.__kind = k;
    }
    obj_reset(m);
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) {
    Obj *o = obj_get(m);
    if (g_active && o->owner != -1) {
        char d[200];
        rt_describe_pc(PC(), d, sizeof(d));
        rt_fail("bad-destroy", "mutex destroyed while held by t%d at %s", o->owner, d);
    }
    obj_reset(m);
    return 0;
}

// ------------------------------------------------------------------ condition variables
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, uint64_t until, uint64_t pc) {
    if (!g_active)
        rt_fail("deadlock", "condition wait outside a run");
    Obj *co = obj_get(c), *mo = obj_get(m);
    sync_point(pc, 8, co);
    if (mo->owner != cur->id)
        rt_fail("bad-wait", "condition wait without holding the mutex");
    rt_count(RC_COND_WAIT, 1);
    int depth = mo->count;
    mo->owner = -1;
    mo->count = 0;
    hb_release_store(mo);
    wake_all(B_MUTEX, mo);
    block_on(B_COND, co, until, pc);
    bool to = cur->timed_out;
    while (mo->owner != -1)
        block_on(B_MUTEX, mo, UINT64_MAX, pc);
    mo->owner = cur->id;
    mo->count = depth;
    hb_acquire(mo);
    return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait_impl(c, m, UINT64_MAX, PC()); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_wait_impl(c, m, abs_to_mono(t), PC()); }
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return cond_wait_impl(c, m, abs_to_mono(t), PC()); }
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
    Obj *o = obj_get(c);
    sync_point(PC(), 9, o);
    if (!g_active)
        return 0;
    Thr *w[RT_MAXT];
    int n = 0;
    for (int i = 0; i < nthr; i++) {
        Thr &t = thr[i];
        if (t.used && !t.finished && !t.runnable && t.bkind == B_COND && t.bobj == o)
            w[n++] = &t;
    }
    if (!n) {
        rt_count(RC_COND_SIGNAL_NOWAITER, 1);
        return 0;
    }
    for (int i = 1; i < n; i++) // longest waiting first
        for (int j = i; j > 0 && w[j]->bseq < w[j - 1]->bseq; j--) {
            Thr *x = w[j];
            w[j] = w[j - 1];
            w[j - 1] = x;
        }
    uint32_t k = 0;
    if (cfg.replay) {
        uint32_t a;
        if (take('S', &a) && a < (uint32_t)n)
            k = a;
    } else if (!g_fair && n > 1) {
        k = rng() % n;
        if (k)
            record('S', k);
    }
    w[k]->runnable = true;
    w[k]->bkind = B_NONE;
    w[k]->wake_ns = UINT64_MAX;
    mix(0x516 ^ w[k]->id);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
    Obj *o = obj_get(c);
    sync_point(PC(), 10, o);
    if (g_active)
        wake_all(B_COND, o);
    return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
    memset(c, 0, sizeof(*c));
    obj_reset(c);
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *c) {
    Obj *o = obj_get(c);
    if (g_active)
        for (int i = 0; i < nthr; i++)
            if (thr[i].used && !thr[i].finished && !thr[i].runnable && thr[i].bkind == B_COND && thr[i].bobj == o)
                rt_fail("bad-destroy", "condition variable destroyed while t%d waits on it", i);
    obj_reset(c);
    return 0;
}

// ------------------------------------------------------------------ rwlocks
static int rw_rd(pthread_rwlock_t *l, uint64_t pc, bool tryonly) {
    Obj *o = obj_get(l);
    sync_point(pc, 11, o);
    while (o->owner != -1) {
        if (tryonly)
            return EBUSY;
        if (!g_active)
            return 0;
        block_on(B_RW, o, UINT64_MAX, pc);
    }
    o->count++;
    hb_acquire(o);
    return 0;
}
static int rw_wr(pthread_rwlock_t *l, uint64_t pc, bool tryonly) {
    Obj *o = obj_get(l);
    sync_point(pc, 12, o);
    while (o->owner != -1 || o->count) {
        if (tryonly)
            return EBUSY;
        if (!g_active)
            return 0;
        block_on(B_RW, o, UINT64_MAX, pc);
    }
    o->owner = cur->id;
    hb_acquire(o);
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw_rd(l, PC(), false); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw_rd(l, PC(), true); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw_wr(l, PC(), false); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw_wr(l, PC(), true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    Obj *o = obj_get(l);
    sync_point(PC(), 13, o);
    if (o->owner == cur->id)
        o->owner = -1;
    else if (o->count > 0)
        o->count--;
    hb_release(o);
    if (g_active)
        wake_all(B_RW, o);
    return 0;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) {
    memset(l, 0, sizeof(*l));
    obj_reset(l);
    return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *l) {
    obj_reset(l);
    return 0;
}

// ------------------------------------------------------------------ spinlocks, barriers: unused here
// ------------------------------------------------------------------ semaphores
EXPORT int sem_init(sem_t *s, int, unsigned v) {
    obj_reset(s);
    obj_get(s)->count = (int)v;
    return 0;
}
EXPORT int sem_destroy(sem_t *s) {
    obj_reset(s);
    return 0;
}
static int sem_wait_impl(sem_t *s, uint64_t until, uint64_t pc) {
    Obj *o = obj_get(s);
    sync_point(pc, 14, o);
    while (o->count <= 0) {
        if (!g_active)
            rt_fail("deadlock", "semaphore wait outside a run");
        block_on(B_SEM, o, until, pc);
        if (cur->timed_out && o->count <= 0) {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    o->count--;
    hb_acquire(o);
    return 0;
}
EXPORT int sem_wait(sem_t *s) { return sem_wait_impl(s, UINT64_MAX, PC()); }
EXPORT int sem_timedwait(sem_t *s, const struct timespec *t) { return sem_wait_impl(s, abs_to_mono(t), PC()); }
EXPORT int sem_clockwait(sem_t *s, clockid_t, const struct timespec *t) { return sem_wait_impl(s, abs_to_mono(t), PC()); }
EXPORT int sem_trywait(sem_t *s) {
    Obj *o = obj_get(s);
    sync_point(PC(), 15, o);
    if (o->count <= 0) {
        errno = EAGAIN;
        return -1;
    }
    o->count--;
    hb_acquire(o);
    return 0;
}
EXPORT int sem_post(sem_t *s) {
    Obj *o = obj_get(s);
    sync_point(PC(), 16, o);
    o->count++;
    hb_release(o);
    if (g_active)
        wake_all(B_SEM, o);
    return 0;
}
EXPORT int sem_getvalue(sem_t *s, int *v) {
    *v = obj_get(s)->count;
    return 0;
}

// ------------------------------------------------------------------ once, static guards
EXPORT int pthread_once(pthread_once_t *oc, void (*fn)(void)) {
    if (*(volatile int *)oc == 2)
    {
        if (g_active)
            hb_acquire(obj_get(oc));
        return 0;
    }
    Obj *o = obj_get(oc);
    sync_point(PC(), 17, o);
    while (o->state == 1 && g_active)
        block_on(B_GUARD, o, UINT64_MAX, PC());
    if (*(volatile int *)oc == 2) {
        hb_acquire(o);
        return 0;
    }
    o->state = 1;
    struct G { // a throwing initialiser resets the flag
        Obj *o;
        bool done = false;
        ~G() {
            o->state = done ? 2 : 0;
            wake_all(B_GUARD, o);
        }
    } g{o};
    fn();
    g.done = true;
    *(volatile int *)oc = 2;
    hb_release(o);
    return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t *g) {
    if (*(volatile uint8_t *)g) {
        if (g_active)
            hb_acquire(obj_get(g));
        return 0;
    }
    Obj *o = obj_get(g);
    sync_point(PC(), 18, o);
    while (o->state == 1 && g_active)
        block_on(B_GUARD, o, UINT64_MAX, PC());
    if (*(volatile uint8_t *)g) {
        hb_acquire(o);
        return 0;
    }
    o->state = 1;
    return 1;
}
EXPORT void __cxa_guard_release(uint64_t *g) {
    Obj *o = obj_get(g);
    *(volatile uint8_t *)g = 1;
    o->state = 2;
    hb_release(o);
    if (g_active)
        wake_all(B_GUARD, o);
}
EXPORT void __cxa_guard_abort(uint64_t *g) {
    Obj *o = obj_get(g);
    o->state = 0;
    if (g_active)
        wake_all(B_GUARD, o);
}

// ------------------------------------------------------------------ futex via syscall() (std::atomic::wait)
EXPORT long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && g_active) {
        int op = (int)b & 127;
        Obj *o = obj_get((void *)a);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point(PC(), 19, o);
            if (*(volatile int *)a != (int)c) {
                errno = EAGAIN;
                return -1;
            }
            uint64_t until = UINT64_MAX;
            if (d) {
                uint64_t v = ts_ns((const struct timespec *)d);
                until = op == FUTEX_WAIT ? g_now + v : abs_to_mono((const struct timespec *)d);
            }
            block_on(B_FUTEX, o, until, PC());
            if (cur->timed_out) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sync_point(PC(), 20, o);
            int woken = 0;
            for (int i = 0; i < nthr && woken < (int)c; i++) {
                Thr &t = thr[i];
                if (t.used && !t.finished && !t.runnable && t.bkind == B_FUTEX && t.bobj == o) {
                    t.runnable = true;
                    t.bkind = B_NONE;
                    t.wake_ns = UINT64_MAX;
                    woken++;
                }
            }
            return woken;
        }
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ------------------------------------------------------------------ time
EXPORT int clock_gettime(clockid_t id, struct timespec *t) {
    if (!g_active) {
        long r = raw_syscall(SYS_clock_gettime, id, (long)t);
        if (r < 0) {
            errno = (int)-r;
            return -1;
        }
        return 0;
    }
    uint64_t v = g_now;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)
        v += REAL_OFF;
    t->tv_sec = (time_t)(v / 1000000000ull);
    t->tv_nsec = (long)(v % 1000000000ull);
    return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t *o) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (o)
        *o = t.tv_sec;
    return t.tv_sec;
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (!g_active)
        return (int)raw_syscall(SYS_nanosleep, (long)t, (long)rem);
    rt_sleep_ns(ts_ns(t));
    return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
    if (!g_active)
        return (int)-raw_syscall(SYS_clock_nanosleep, id, flags, (long)t, (long)rem);
    if (flags & TIMER_ABSTIME) {
        uint64_t u = abs_to_mono(t);
        rt_sleep_ns(u > g_now ? u - g_now : 0);
    } else
        rt_sleep_ns(ts_ns(t));
    return 0;
}
EXPORT int usleep(useconds_t us) {
    if (g_active)
        rt_sleep_ns((uint64_t)us * 1000);
    else {
        struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
        raw_syscall(SYS_nanosleep, (long)&t, 0);
    }
    return 0;
}
EXPORT unsigned sleep(unsigned s) {
    if (g_active)
        rt_sleep_ns((uint64_t)s * 1000000000ull);
    return 0;
}
EXPORT int sched_yield() {
    sync_point(PC(), 21, nullptr);
    return 0;
}

// ------------------------------------------------------------------ machine
EXPORT int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
    if (!g_active) {
        long r = raw_syscall(SYS_sched_getaffinity, pid, (long)n, (long)set);
        if (r < 0) {
            errno = (int)-r;
            return -1;
        }
        if ((size_t)r < n)
            memset((char *)set + r, 0, n - r);
        return 0;
    }
    memset(set, 0, n);
    for (int i = 0; i < cfg.ncpu; i++)
        CPU_SET_S(i, n, set);
    return 0;
}
#include <sys/sysinfo.h>
EXPORT int sysinfo(struct sysinfo *i) {
    memset(i, 0, sizeof(*i));
    i->totalram = 8ull << 30;
    i->freeram = 4ull << 30;
    i->mem_unit = 1;
    i->procs = 100;
    return 0;
}
EXPORT int get_nprocs() { return g_active ? cfg.ncpu : 4; }
EXPORT int get_nprocs_conf() { return g_active ? cfg.ncpu : 4; }

// ------------------------------------------------------------------ abnormal ends
EXPORT void abort() {
    if (!g_active || g_failing) {
        raw_syscall(SYS_exit_group, 134);
        __builtin_unreachable();
    }
    char d[200];
    rt_describe_pc(PC(), d, sizeof(d));
    rt_fail("abort", "process aborted by t%d at %s", cur->id, d);
}
EXPORT void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    const char *b = strrchr(f, '/');
    (void)fn;
    if (!g_active)
        dprintf(2, "assertion %s failed at %s:%u\n", e, f, l);
    rt_fail("assert", "assertion '%s' failed at %s:%u in t%d", e, b ? b + 1 : f, l, cur->id);
}
static void on_signal(int sig, siginfo_t *si, void *uc) {
    ucontext_t *u = (ucontext_t *)uc;
    char d[200];
    g_active = false;
    rt_describe_pc((uint64_t)u->uc_mcontext.gregs[REG_RIP], d, sizeof(d));
    rt_fail("crash", "signal %d (address %p) in t%d at %s", sig, si->si_addr, cur->id, d);
}

EXPORT void rt_set_result(RtResult *r) { res = r; }
EXPORT void rt_init(RtResult *r) {
    arena_init();
    res = r;
    if (!res) {
        res_dummy = (RtResult *)rt_raw_alloc(sizeof(RtResult));
        res = res_dummy;
    }
    static char *alt = (char *)rt_raw_alloc(65536);
    stack_t ss = {};
    ss.ss_sp = alt;
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE})
        sigaction(s, &sa, nullptr);
    rt_add_globals();
}

static void (*run_fn)(void *);
static void *run_arg;
static uint64_t host_sp;
static void *main_entry(void *) {
    run_fn(run_arg);
    g_active = false;
    uint64_t dummy;
    rt_switch_asm(&dummy, host_sp, thr[0].fs);
    __builtin_unreachable();
}

EXPORT void rt_run(const RtCfg *c, void (*fn)(void *), void *arg) {
    cfg = *c;
    uint64_t s = cfg.seed;
    rng_s[0] = splitmix(s);
    rng_s[1] = splitmix(s) | 1;
    Thr *t = &thr[0];
    t->used = true;
    t->runnable = true;
    t->wake_ns = UINT64_MAX;
    t->fs = rdfs();
    t->ptid = pthread_self();
    t->vc.c[0] = 1;
    t->exitobj = obj_get(t);
    t->prio = 1500000;
    t->fn = main_entry;
    g_now = MONO_BASE;
    if (cfg.replay) {
        g_next_mem = cfg.ndec ? cfg.dec[0].step : cfg.hard_steps;
    } else {
        g_next_mem = gap(cfg.mem_gap);
        g_next_shared = gap(cfg.shared_gap);
        if (cfg.mem_gap <= 0)
            g_next_mem = cfg.hard_steps;
        if (cfg.shared_gap <= 0)
            g_next_shared = UINT64_MAX;
        if (cfg.mode == 1) {
            pct_low = 1000000;
            pct_npoints = cfg.pct_depth > 32 ? 32 : cfg.pct_depth;
            for (int i = 0; i < pct_npoints; i++)
                pct_points[i] = rng() % cfg.pct_len;
            for (int i = 0; i < pct_npoints; i++) // descending, consumed from the back
                for (int j = i + 1; j < pct_npoints; j++)
                    if (pct_points[j] > pct_points[i]) {
                        uint64_t x = pct_points[i];
                        pct_points[i] = pct_points[j];
                        pct_points[j] = x;
                    }
        }
    }
    if (arena_next < RUN_BASE)
        arena_next = RUN_BASE;
    (void)run_mark;
    uint64_t st = (arena_next + 4095) & ~4095ull;
    arena_next = st + (4 << 20);
    prepare_stack(t, st + (4 << 20) - 64);
    run_fn = fn;
    run_arg = arg;
    g_active = true;
    rt_switch_asm(&host_sp, t->sp, t->fs);
    g_active = false;
}
