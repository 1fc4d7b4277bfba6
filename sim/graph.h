// The world a graph simulation runs in: nodes with executable models, clients, oracles.
#pragma once
#include "VapourSynth4.h"
#include "sim.h"
#include <map>
#include <pthread.h>
#include <set>
#include <string>
#include <vector>

struct Val {
    uint64_t plane[3] = {0, 0, 0};
    uint64_t prop = 0;
    bool operator==(const Val &o) const { return plane[0] == o.plane[0] && plane[1] == o.plane[1] && plane[2] == o.plane[2] && prop == o.prop; }
};

struct NodeInfo;
struct Prod { // one production of one frame
    NodeInfo *N;
    int n;
    VSFrameContext *ctx;
    int attempt;
    int round; // request rounds made so far
    int failphase;
    int failed_inputs = 0;
    std::vector<std::pair<NodeInfo *, int>> req; // requested since the last activation
    std::vector<std::pair<NodeInfo *, int>> all;
    uint64_t start;
    uint64_t cookie;
};
struct Tok {
    NodeInfo *N;
    int n;
    bool alive;
    bool aside; // handed to cacheFrame
    VSNode *node = nullptr; // released together with the function object
};
struct FailSpec {
    int n, attempt, phase;
};

struct NodeInfo {
    int id = 0;
    std::string kind, pat, out, bi;
    std::vector<long> args;
    int mode = 0, frames = 1, cost = 0, failp = 0, fetchp = 0;
    long sleepus = 0, trans = 0;
    bool rel = false, api3 = false;
    uint64_t salt = 0;
    std::vector<std::pair<NodeInfo *, int>> deps; // request pattern
    std::vector<FailSpec> fails;
    VSNode *node = nullptr; // the registry's reference
    VSNode *raw = nullptr;  // for comparisons only
    std::vector<VSNode *> own; // references held by the instance
    bool created = false, observed_free = false; // observed_free: our free callback reports destruction
    int freed = 0;
    // P03/P06
    int inside = 0, inside_produce = 0, max_inside = 0;
    VSFrameContext *fs_owner = nullptr;
    std::map<int, int> attempts;
    int live_tok = 0;
    // cache settings made by the owning client
    int cmode = -1, cfixed = 0, cmax = 20;
    bool cknown = true;
    // linear
    int look = 0, last = -1;
    uint64_t ops = 0;                    // insertions into the cache and requests so far
    std::map<int, uint64_t> aside_at;    // ops count when frame m was handed to cacheFrame
    std::map<int, uint64_t> aside_seq;
    std::map<int, std::multiset<uint64_t>> pending; // outstanding requests: when they were made
    int v3prev = -1;
    uint64_t v3forgets = 0;
    int funcs_live = 0;
    int evals_inside = 0;
    bool is_sim() const { return kind != "bi"; }
};

struct Req {
    NodeInfo *N;
    VSNode *ref;
    int n;
    int epoch;
    uint64_t seq;
    int answers = 0;
    int client;
    int chain = 0;
    int nested_n = -1;
    NodeInfo *nested = nullptr;
    int slow = 0;
    bool hold = false, keepref = false;
    uint64_t magic = 0x5eed;
};
struct Held {
    const VSFrame *f;
    Val v;
    Tok *tok;
};

struct World {
    VSCore *core = nullptr;
    const VSAPI *api = nullptr;
    VSVideoFormat fmt;
    int w = 32, h = 4;
    std::map<int, NodeInfo *> nodes;
    pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER; // registry references
    pthread_mutex_t waitlock = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t waitcond = PTHREAD_COND_INITIALIZER;
    int outstanding[16] = {0};
    int nclients = 0;
    int epoch = 0;
    uint64_t seq = 0;
    uint64_t forgets = 0; // cache clears begun and ended
    std::set<Prod *> live;
    std::map<VSFrameContext *, Prod *> by_ctx;
    std::map<std::pair<int, int>, Val> memo;
    struct Fail {
        int epoch;
        uint64_t seq;
    };
    std::map<std::string, Fail> failures;
    int inside = 0, limit_hi = 1;
    uint64_t limit_gen = 0;
    int changing = 0;
    std::map<int, std::pair<uint64_t, int>> grace; // worker -> generation, call starts in it while over the limit
    int in_callback = 0;
    std::vector<Held> held[16];
    std::vector<Tok *> toks;
    int live_toks = 0;
    long carry = 0;   // percentage of frames that own a node
    int carried = 0;  // such nodes that are alive
    bool shutting = false;
    bool memchanged = false;
    uint64_t settle_rounds = 0;
    bool pressure_possible = false;
    int next_id = 1000;
};
extern World *W;

Val model(NodeInfo *N, int n);
void inputs(NodeInfo *N, int n, std::vector<std::pair<NodeInfo *, int>> &r1, std::vector<std::pair<NodeInfo *, int>> &r2);
