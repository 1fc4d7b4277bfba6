// Deterministic simulation runtime: scheduler, clock, allocator, race detector.
// All threads of the program under test run as fibers on one OS thread; exactly one runs at a
// time and every switch is decided by a seeded PRNG (or by a recorded schedule).
#pragma once
#include <stddef.h>
#include <stdint.h>

enum { RT_MAXT = 64, RT_MAXDEC = 1 << 18, RT_NCNT = 192, RT_COVBITS = 1 << 18 };

struct RtDecision {
    uint64_t step;
    uint32_t kind; // 'T' run thread arg, 'W' spurious wakeup of thread arg, 'S' signal picks arg-th waiter, 'J' clock jumps arg us
    uint32_t arg;
};

enum RtOutcome { RT_RUNNING = 0, RT_OK = 1, RT_VIOLATION = 2, RT_INCONCLUSIVE = 3 };

// lives in memory shared with the parent process
struct RtResult {
    volatile int outcome;
    char kind[32];
    char msg[6000];
    uint64_t hash;
    uint64_t switch_hash; // hash of (kind of operation, thread) sequence at synchronisation operations
    uint64_t steps, slow, simns, switches, preemptions;
    uint32_t nthreads;
    uint64_t cnt[RT_NCNT];
    uint64_t ndec;
    RtDecision dec[RT_MAXDEC];
    uint8_t cov[RT_COVBITS / 8]; // context switch pairs (pc switched away from, pc resumed)
    uint64_t dbg_n;
    char foreign[2000];
};

struct RtCfg {
    uint64_t seed = 1;
    bool replay = false;
    const RtDecision *dec = nullptr;
    uint64_t ndec = 0;
    // execution parameters (part of the scenario)
    uint64_t tick_ns = 1000;
    int ncpu = 4;
    bool reuse = false;
    // search parameters
    int mode = 0;          // 0 random walk, 1 PCT
    double p_sync = 0.1;   // chance of a switch at a synchronisation operation
    double mem_gap = 0;    // mean number of memory accesses between preemptions, 0 = none
    double shared_gap = 0; // the same, counting only accesses to memory last touched by another thread
    int pct_depth = 3;
    uint64_t pct_len = 20000;
    double p_spurious = 0;
    double p_jump = 0;
    uint64_t max_jump_us = 3000000;
    double p_stall = 0;
    uint64_t stall_len = 5000;
    uint64_t soft_steps = 40000000, hard_steps = 120000000;
    uint64_t soft_slow = 3000000, hard_slow = 6000000;
    bool race = true;
};

// counters 0..31 belong to the runtime
enum RtCounter {
    RC_SPURIOUS, RC_JUMP, RC_STALL, RC_PREEMPT_MEM, RC_PREEMPT_SYNC, RC_COND_WAIT, RC_COND_SIGNAL_NOWAITER, RC_MUTEX_BLOCK,
    RC_THREADS, RC_RACES, RC_UAF, RC_ALLOCS, RC_TIMEADV, RC_TRYLOCK_FAIL, RC_USER0 = 32
};

extern "C" {
void rt_init(RtResult *res);              // in the child, before rt_run
void rt_set_result(RtResult *res);
void rt_run(const RtCfg *cfg, void (*fn)(void *), void *arg);
[[noreturn]] void rt_fail(const char *kind, const char *fmt, ...);
[[noreturn]] void rt_inconclusive(const char *fmt, ...);
[[noreturn]] void rt_finish_ok();
void rt_note(const char *fmt, ...);       // append to trace hash (and verbose log)
void rt_count(int c, uint64_t n);
void rt_sleep_ns(uint64_t ns);            // simulated sleep of the calling fiber
uint64_t rt_now_ns();
void rt_yield_point();                    // a scheduling point
int rt_tid();
int rt_active();
int rt_live_threads();                    // started and not finished
uint64_t rt_steps();
void rt_nopreempt(int delta);
void rt_read_range(const void *p, size_t n);
void rt_write_range(const void *p, size_t n);
void rt_describe_pc(uint64_t pc, char *buf, size_t n);
void rt_add_globals();                    // (re)scan writable segments of instrumented libraries
// called on each distinct race; return non-zero to make it fatal
extern int (*rt_on_race)(const char *desc);
extern int rt_verbose;
void *rt_raw_alloc(size_t n);             // memory outside the simulated arena
int rt_is_live(const void *p);            // 1 live heap block start.., 0 freed, -1 unknown
int rt_heap_fits(const void *p, size_t n); // the range lies inside one live block
uint64_t rt_heap_live_bytes();
uint64_t rt_heap_live_blocks();
uint64_t rt_heap_live_aligned();          // bytes in live blocks allocated with alignment >= 64 (frame buffers)
uint64_t rt_heap_mark();
int rt_heap_list(uint64_t mark, char *buf, size_t n, int (*skip)(const void *, size_t, const char *));
void rt_describe_threads(char *buf, size_t n);
int rt_others_blocked();
int rt_quiesce();                         // wait until every other thread is blocked; 0: gave up
}
