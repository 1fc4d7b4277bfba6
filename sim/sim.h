// Shared by the drivers: scenarios, oracles, properties.
#pragma once
#include "rt.h"
#include <stdint.h>
#include <string>
#include <vector>

struct Scenario {
    std::vector<std::string> lines;
    // "cfg key value" lines hold the parameters of the execution
    const char *get(const char *key, const char *def) const;
    long geti(const char *key, long def) const;
    double getf(const char *key, double def) const;
    void set(const std::string &key, const std::string &value);
    void add(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double f() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
};
static inline uint64_t hmix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// user counters, RC_USER0 + x
enum UserCounter {
    UC_REQ_ASYNC, UC_REQ_SYNC, UC_REQ_NESTED, UC_REQ_CHAINED, UC_REQ_INVALID, UC_ANS_FRAME, UC_ANS_ERROR, UC_FILTER_CALLS, UC_FAIL_INJECTED, UC_AR_ERROR,
    UC_THREADS_CHANGE, UC_MEM_CHANGE, UC_CACHE_CHANGE, UC_CACHE_CLEAR, UC_SLEEP, UC_NODES, UC_DYN_NODES, UC_NODE_DROPS, UC_FRAME_OPS, UC_LOGS, UC_HANDLER_CHANGES,
    UC_OVERLIMIT, UC_FLUSH, UC_EVICTIONS, UC_CACHE_HITS, UC_QUIESCE, UC_OVERLAP, UC_MERGED, UC_LINEAR_SKIP, UC_ZOMBIE, UC_POOL_REUSE, UC_SAMPLES,
    UC_WRITES, UC_WFAULT_ENOSPC, UC_WFAULT_EIO, UC_WFAULT_SHORT, UC_WFAULT_EINTR, UC_WFAULT_FLUSH, UC_WFAULT_CLOSE, UC_BYTES, UC_OUTFRAMES, UC_SCRIPT_FAIL, UC_PARSE_FAIL,
    UC_PLUG_GOOD, UC_PLUG_BAD, UC_PLUG_DIRERR, UC_PLUG_SHORTREAD, UC_PLUG_MANIFEST, UC_PLUG_DLFAIL, UC_PLUG_LOADS, UC_SLOW_CALL, UC_RACE_SEEN, UC_FOREIGN, UC_VALUE_CHECKS, UC_REORDERED,
    UC_STDOUT, UC_TIMECODES, UC_JSON, UC_NESTED_BLOCK, UC_API3_FILTER, UC_MAX
};
static_assert(RC_USER0 + UC_MAX <= RT_NCNT, "too many counters");
extern const char *const user_counter_names[];
static inline void count(UserCounter c, uint64_t n = 1) { rt_count(RC_USER0 + c, n); }

// report a violation of property `prop`: fatal if that is the property being checked, otherwise only noted
extern std::string g_prop;
void oracle(const char *prop, const char *kind, const char *fmt, ...) __attribute__((format(printf, 3, 4)));

struct Family {
    const char *prop;
    void (*gen)(Rng &r, int tier, Scenario &s); // 0 quick, 1 thorough
    void (*run)(const Scenario &s);
    void (*warm)();
    double weight;
};
extern const Family families[];
void fill_rtcfg(const Scenario &s, RtCfg &c);
// random choice of search parameters common to all families
void gen_search(Rng &r, Scenario &s);
