// Simulation of the frame engine: clients, quiescence checks, shutdown, scenario generation.
#include "graph.h"
#include <algorithm>
#include <array>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

const VSFrame *VS_CC sim_get_frame(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *);
const char *check_frame(const VSFrame *f, const Val &v);
void fill_plane(VSFrame *f, int p, uint64_t sig);
Tok *tok_of(const VSFrame *f);
void closure(NodeInfo *N, int n, std::set<std::pair<int, int>> &out);
NodeInfo *parse_node(const std::string &line);
bool create_node(NodeInfo *N, std::vector<VSNode *> refs);
void linear_request(NodeInfo *d, int m, bool start, uint64_t seq);

static const Scenario *SC;

// a reference of one's own to the registry's node, or nullptr
static VSNode *grab(int id, NodeInfo **N) {
    pthread_mutex_lock(&W->lock);
    auto it = W->nodes.find(id);
    VSNode *r = nullptr;
    if (it != W->nodes.end() && it->second->node) {
        *N = it->second;
        r = W->api->addNodeRef(it->second->node);
    }
    pthread_mutex_unlock(&W->lock);
    return r;
}

// ------------------------------------------------------------------ answers
static void check_error(const char *how, NodeInfo *N, int n, int epoch, const char *msg, bool truncated) {
    if (!msg || !*msg) {
        oracle("P01", "empty-error", "%s request for frame %d of node %d failed without a message", how, n, N->id);
        return;
    }
    if (n < 0 || n >= N->frames) {
        if (!truncated && !strstr(msg, std::to_string(n).c_str()))
            oracle("P01", "invalid-message", "message for invalid frame %d: %s", n, msg);
        return;
    }
    int a, b, c;
    if (sscanf(msg, "E %d.%d.%d", &a, &b, &c) != 3) {
        if (!truncated)
            oracle("P05", "unknown-error", "%s request for frame %d of node %d failed with a message no filter set: %s", how, n, N->id, msg);
        return;
    }
    if (truncated)
        return;
    auto it = W->failures.find(msg);
    if (it == W->failures.end()) {
        oracle("P05", "unknown-error", "%s request for frame %d of node %d failed with a message no filter set: %s", how, n, N->id, msg);
        return;
    }
    std::set<std::pair<int, int>> cl;
    closure(N, n, cl);
    if (!cl.count({a, b}))
        oracle("P05", "unrelated-error", "%s request for frame %d of node %d failed because of frame %d of node %d, which it does not need", how, n, N->id, b, a);
    if (it->second.epoch < epoch)
        oracle("P05", "old-error", "%s request for frame %d of node %d failed with an error from before the request was made: %s", how, n, N->id, msg);
}
static void check_answer(const char *how, NodeInfo *N, int n, const VSFrame *f) {
    count(UC_ANS_FRAME);
    const char *e = check_frame(f, model(N, n));
    if (e) {
        oracle(N->kind == "bi" ? "P18" : "P02", "wrong-frame", "%s request for frame %d of node %d got a frame with a wrong %s", how, n, N->id, e);
        oracle("P02", "wrong-frame", "%s request for frame %d of node %d got a frame with a wrong %s", how, n, N->id, e);
        if (N->kind == "lin")
            oracle("P16", "wrong-frame", "%s request for frame %d of linear node %d got a frame with a wrong %s", how, n, N->id, e);
    }
}
static void keep(int client, NodeInfo *N, int n, const VSFrame *f) {
    Held h{f, model(N, n), tok_of(f)};
    pthread_mutex_lock(&W->lock); // completion callbacks run on other threads
    W->held[client].push_back(h);
    pthread_mutex_unlock(&W->lock);
}
static void check_held(const Held &h) {
    const char *e = check_frame(h.f, h.v);
    if (e)
        oracle("P10", "held-frame-changed", "a frame held by the application changed: %s", e);
}

static void blocking(int client, NodeInfo *N, VSNode *ref, int n, bool hold, int bufsize) {
    char buf[300];
    memset(buf, 'x', sizeof(buf));
    int epoch = W->epoch;
    uint64_t seq = ++W->seq;
    if (n >= 0 && n < N->frames)
        linear_request(N, n, true, seq);
    const VSFrame *f = W->api->getFrame(n, ref, bufsize ? buf : nullptr, bufsize);
    if (n >= 0 && n < N->frames)
        linear_request(N, n, false, seq);
    rt_note("sync %d %d %d", N->id, n, f != nullptr);
    if (bufsize && buf[bufsize] != 'x')
        oracle("P01", "message-overrun", "getFrame wrote beyond its message buffer of %d bytes", bufsize);
    if (f) {
        if (n < 0 || n >= N->frames)
            oracle("P01", "invalid-answered", "blocking request for frame %d of node %d with %d frames got a frame", n, N->id, N->frames);
        if (bufsize && buf[0])
            oracle("P01", "both", "blocking request for frame %d of node %d got both a frame and an error", n, N->id);
        check_answer("blocking", N, n, f);
        if (hold)
            keep(client, N, n, f);
        else
            W->api->freeFrame(f);
    } else {
        count(UC_ANS_ERROR);
        if (bufsize) {
            if (!memchr(buf, 0, (size_t)bufsize))
                oracle("P01", "message-unterminated", "message of a blocking request is not terminated");
            check_error("blocking", N, n, epoch, buf, strlen(buf) == (size_t)bufsize - 1);
        }
    }
}

static void start_async(Req *r);
static void VS_CC done(void *ud, const VSFrame *f, int n, VSNode *node, const char *err) {
    Req *r = (Req *)ud;
    rt_note("done %d %d %d", r->magic == 0x5eed ? r->N->id : -1, n, f != nullptr);
    if (r->magic != 0x5eed)
        oracle("P01", "answered-twice", "an asynchronous request was answered more than once or with a wrong user pointer");
    NodeInfo *N = r->N;
    if (++r->answers != 1)
        oracle("P01", "answered-twice", "request for frame %d of node %d was answered %d times", r->n, N->id, r->answers);
    if (++W->in_callback != 1)
        oracle("P01", "callbacks-overlap", "%d completion callbacks are running at once", W->in_callback);
    if (n != r->n || node != r->ref)
        oracle("P01", "wrong-identity", "request for frame %d of node %d was answered with frame number %d%s", r->n, N->id, n, node != r->ref ? " and another node" : "");
    bool valid = n >= 0 && n < N->frames;
    if (valid)
        linear_request(N, n, false, r->seq);
    if (!f == !err)
        oracle("P01", f ? "both" : "neither", "request for frame %d of node %d got %s", n, N->id, f ? "both a frame and an error" : "neither a frame nor an error");
    if (f) {
        if (!valid)
            oracle("P01", "invalid-answered", "request for frame %d of node %d with %d frames got a frame", n, N->id, N->frames);
        else
            check_answer("asynchronous", N, n, f);
        if (r->hold && valid)
            keep(r->client, N, n, f);
        else
            W->api->freeFrame(f);
    } else if (err) {
        count(UC_ANS_ERROR);
        check_error("asynchronous", N, n, r->epoch, err, false);
    }
    for (int i = 0; i < r->slow; i++)
        rt_yield_point();
    if (r->slow > 40)
        rt_sleep_ns((uint64_t)r->slow * 1000);
    if (r->chain > 0 && valid) {
        Req *c = new Req(*r);
        c->answers = 0;
        c->chain--;
        c->n = (n + 1) % N->frames;
        c->ref = W->api->addNodeRef(r->ref);
        c->nested = nullptr;
        count(UC_REQ_CHAINED);
        start_async(c);
    }
    if (r->nested) {
        NodeInfo *M = nullptr;
        VSNode *x = grab(r->nested->id, &M);
        if (x) {
            count(UC_REQ_NESTED);
            blocking(r->client, M, x, r->nested_n, false, 200);
            W->api->freeNode(x);
        }
    }
    W->api->freeNode(r->ref);
    W->in_callback--;
    int client = r->client;
    r->magic = 0xdead;
    pthread_mutex_lock(&W->waitlock);
    W->outstanding[client]--;
    pthread_cond_broadcast(&W->waitcond);
    pthread_mutex_unlock(&W->waitlock);
}
static void start_async(Req *r) {
    count(UC_REQ_ASYNC);
    r->epoch = W->epoch;
    r->seq = ++W->seq;
    if (r->n < 0 || r->n >= r->N->frames)
        count(UC_REQ_INVALID);
    else
        linear_request(r->N, r->n, true, r->seq);
    pthread_mutex_lock(&W->waitlock);
    W->outstanding[r->client]++;
    pthread_mutex_unlock(&W->waitlock);
    rt_note("async %d %d", r->N->id, r->n);
    W->api->getFrameAsync(r->n, r->ref, done, r);
}
static void wait_until(int client, int k) {
    pthread_mutex_lock(&W->waitlock);
    while (W->outstanding[client] > k)
        pthread_cond_wait(&W->waitcond, &W->waitlock);
    pthread_mutex_unlock(&W->waitlock);
}

// ------------------------------------------------------------------ client operations
struct ClientArg {
    int id;
    std::vector<std::string> ops;
};
static std::vector<std::string> words(const std::string &s) {
    std::vector<std::string> r;
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && s[i] == ' ')
            i++;
        size_t j = i;
        while (j < s.size() && s[j] != ' ')
            j++;
        if (j > i)
            r.push_back(s.substr(i, j - i));
        i = j;
    }
    return r;
}
static long argl(const std::vector<std::string> &w, size_t i, long d = 0) { return i < w.size() ? atol(w[i].c_str()) : d; }
static long keyv(const std::vector<std::string> &w, const char *key, long d) {
    size_t n = strlen(key);
    for (auto &x : w)
        if (!x.compare(0, n, key) && x.size() > n && x[n] == '=')
            return atol(x.c_str() + n + 1);
    return d;
}
static void set_threads(int k) {
    count(UC_THREADS_CHANGE);
    // while a change is under way either value may be in force; calls of several clients may overlap
    W->changing++;
    int got = W->api->setThreadCount(k, W->core);
    W->changing--;
    if (k > 0 && got != k && !W->changing)
        oracle("P06", "thread-count", "setThreadCount(%d) returned %d", k, got);
    VSCoreInfo2 ci;
    rt_nopreempt(1);
    W->api->getCoreInfo2(W->core, &ci);
    W->limit_hi = ci.numThreads;
    rt_nopreempt(-1);
    W->limit_gen++;
}
static void mk(const std::string &spec, bool dynamic) {
    NodeInfo *N;
    std::vector<VSNode *> refs;
    pthread_mutex_lock(&W->lock);
    N = parse_node(spec);
    bool ok = N != nullptr;
    if (ok)
        for (auto &d : N->deps)
            ok = ok && d.first->node;
    if (ok) {
        for (auto &d : N->deps)
            refs.push_back(W->api->addNodeRef(d.first->node));
    }
    pthread_mutex_unlock(&W->lock);
    if (!ok)
        return;
    if (dynamic)
        count(UC_DYN_NODES);
    bool made = create_node(N, refs);
    pthread_mutex_lock(&W->lock);
    if (made)
        W->nodes[N->id] = N;
    pthread_mutex_unlock(&W->lock);
}
static void rmn(int id) {
    pthread_mutex_lock(&W->lock);
    VSNode *x = nullptr;
    auto it = W->nodes.find(id);
    if (it != W->nodes.end()) {
        x = it->second->node;
        it->second->node = nullptr;
    }
    pthread_mutex_unlock(&W->lock);
    if (x) {
        count(UC_NODE_DROPS);
        W->api->freeNode(x);
    }
}
static void lin_forget(NodeInfo *N) {
    W->forgets++;
    if (N)
        N->aside_at.clear();
    else
        for (auto &x : W->nodes)
            x.second->aside_at.clear();
}
static void info(int client, int id, int what) {
    const VSAPI *api = W->api;
    VSCoreInfo2 ci;
    NodeInfo *N = nullptr;
    VSNode *x = grab(id, &N);
    switch (what % 7) {
    case 0:
        api->getCoreInfo2(W->core, &ci);
        break;
    case 1:
        if (x) {
            const VSVideoInfo *vi = api->getVideoInfo(x);
            if (vi->numFrames != N->frames)
                oracle("P02", "video-info", "node %d reports %d frames instead of %d", id, vi->numFrames, N->frames);
            api->getNodeName(x);
            api->getNodeType(x);
            api->getNodeFilterMode(x);
        }
        break;
    case 2: {
        VSPlugin *p = nullptr;
        int k = 0;
        while ((p = api->getNextPlugin(p, W->core)) && k++ < 8) {
            api->getPluginName(p);
            if (k == 1)
                api->getNextPluginFunction(nullptr, p);
        }
        VSPlugin *s = api->getPluginByNamespace("std", W->core);
        if (s)
            api->getPluginFunctionByName("Trim", s);
        break;
    }
    case 3: {
        VSVideoFormat vf;
        api->queryVideoFormat(&vf, cfYUV, stInteger, 8 + (id % 9), id % 3, id % 2, W->core);
        api->getVideoFormatByID(&vf, api->queryVideoFormatID(cfRGB, stInteger, 10, 0, 0, W->core), W->core);
        break;
    }
    case 4:
        if (x) { // a node made and dropped at once
            VSPlugin *s = api->getPluginByID("com.vapoursynth.std", W->core);
            VSMap *in = api->createMap();
            api->mapSetNode(in, "clip", x, maReplace);
            VSMap *out = api->invoke(s, "Reverse", in);
            api->freeMap(in);
            api->freeMap(out);
        }
        break;
    case 5: {
        pthread_mutex_lock(&W->lock);
        bool none = W->held[client].empty();
        Held h{};
        if (!none)
            h = W->held[client][(size_t)id % W->held[client].size()];
        pthread_mutex_unlock(&W->lock);
        if (none)
            break;
        VSFrame *c = api->copyFrame(h.f, W->core);
        VSMap *m = api->getFramePropertiesRW(c);
        api->mapSetInt(m, "arr", 5, maAppend);
        api->mapSetInt(m, "sig", 1, maReplace);
        fill_plane(c, 0, 12345 + (uint64_t)id);
        check_held(h);
        api->freeFrame(c);
        break;
    }
    case 6:
        api->logMessage(mtDebug, "a message", W->core);
        if (x) {
            api->getNodeProcessingTime(x, 0);
            api->getCoreNodeTiming(W->core);
        }
        break;
    }
    if (x)
        api->freeNode(x);
}
static void run_op(int client, const std::string &line) {
    auto w = words(line);
    if (w.empty())
        return;
    const VSAPI *api = W->api;
    const std::string &o = w[0];
    if (o == "async" || o == "sync") {
        NodeInfo *N = nullptr;
        VSNode *ref = grab((int)argl(w, 1), &N);
        if (!ref)
            return;
        int n = (int)argl(w, 2);
        if (o == "sync") {
            count(UC_REQ_SYNC);
            blocking(client, N, ref, n, keyv(w, "hold", 0) != 0, (int)keyv(w, "buf", 200));
            api->freeNode(ref);
            return;
        }
        Req *r = new Req;
        r->N = N;
        r->ref = ref;
        r->n = n;
        r->client = client;
        r->chain = (int)keyv(w, "chain", 0);
        r->slow = (int)keyv(w, "slow", 0);
        r->hold = keyv(w, "hold", 0) != 0;
        long nn = keyv(w, "nest", -1);
        if (nn >= 0) {
            auto it = W->nodes.find((int)nn);
            if (it != W->nodes.end()) {
                r->nested = it->second;
                r->nested_n = (int)keyv(w, "nestn", 0);
            }
        }
        start_async(r);
    } else if (o == "range") { // many at once: node first count step
        for (long i = 0; i < argl(w, 3); i++)
            run_op(client, "async " + w[1] + " " + std::to_string(argl(w, 2) + i * argl(w, 4, 1)));
    } else if (o == "wait")
        wait_until(client, (int)argl(w, 1));
    else if (o == "sleep") {
        count(UC_SLEEP);
        rt_sleep_ns((uint64_t)argl(w, 1) * 1000);
    } else if (o == "threads")
        set_threads((int)argl(w, 1));
    else if (o == "mem") {
        count(UC_MEM_CHANGE);
        W->memchanged = true;
        api->setMaxCacheSize(argl(w, 1), W->core);
    } else if (o == "cmode" || o == "copt" || o == "cclr") {
        NodeInfo *N = nullptr;
        VSNode *ref = grab((int)argl(w, 1), &N);
        if (!ref)
            return;
        count(o == "cclr" ? UC_CACHE_CLEAR : UC_CACHE_CHANGE);
        if (o == "cmode") {
            api->setCacheMode(ref, (int)argl(w, 2));
            N->cmode = (int)argl(w, 2);
            N->cfixed = 0;
            N->cmax = 20;
        } else if (o == "copt") {
            api->setCacheOptions(ref, (int)argl(w, 2), (int)argl(w, 3), (int)argl(w, 4));
            if (argl(w, 2) >= 0)
                N->cfixed = argl(w, 2) != 0;
            if (argl(w, 3) >= 0)
                N->cmax = (int)argl(w, 3);
            else if (N->cfixed)
                N->cmax = 1 << 20;
        } else {
            lin_forget(N);
            api->clearNodeCache(ref);
            lin_forget(N);
        }
        api->freeNode(ref);
    } else if (o == "cclrall") {
        count(UC_CACHE_CLEAR);
        lin_forget(nullptr);
        api->clearCoreCaches(W->core);
        lin_forget(nullptr);
    } else if (o == "rel") {
        auto &h = W->held[client];
        for (long i = argl(w, 1); i > 0; i--) {
            pthread_mutex_lock(&W->lock);
            if (h.empty()) {
                pthread_mutex_unlock(&W->lock);
                break;
            }
            Held x = h.back();
            h.pop_back();
            pthread_mutex_unlock(&W->lock);
            check_held(x);
            api->freeFrame(x.f);
        }
    } else if (o == "chk") {
        pthread_mutex_lock(&W->lock);
        std::vector<Held> v(W->held[client]);
        pthread_mutex_unlock(&W->lock);
        for (auto &h : v)
            check_held(h);
    } else if (o == "info")
        info(client, (int)argl(w, 1), (int)argl(w, 2));
    else if (o == "timing")
        api->setCoreNodeTiming(W->core, (int)argl(w, 1));
    else if (o == "mk")
        mk(line.substr(3), true);
    else if (o == "rmn")
        rmn((int)argl(w, 1));
    else if (o == "log")
        api->logMessage((int)argl(w, 1) % 4, "a log message", W->core);
}
static void *client_fn(void *p) {
    ClientArg *a = (ClientArg *)p;
    for (auto &o : a->ops)
        run_op(a->id, o);
    wait_until(a->id, 0);
    return nullptr;
}

// ------------------------------------------------------------------ checks while nothing is going on
static std::map<NodeInfo *, int> held_counts() {
    std::map<NodeInfo *, int> r;
    std::set<Tok *> seen;
    for (auto &h : W->held)
        for (auto &x : h)
            if (x.tok && seen.insert(x.tok).second)
                r[x.tok->N]++;
    return r;
}
static std::set<NodeInfo *> expected_alive() {
    std::set<NodeInfo *> r;
    std::vector<NodeInfo *> todo;
    for (auto &x : W->nodes)
        if (x.second->node)
            todo.push_back(x.second);
    while (!todo.empty()) {
        NodeInfo *N = todo.back();
        todo.pop_back();
        if (!r.insert(N).second)
            continue;
        for (auto &d : N->deps)
            todo.push_back(d.first);
    }
    return r;
}
static bool passes(NodeInfo *N) { return (N->kind == "bi" && N->bi != "modf") || N->out == "pass"; }
static const int INF = 1 << 28;
static int cache_bound(NodeInfo *N) {
    if (N->kind == "lin" || !N->cknown)
        return INF;
    if (N->cmode == 0)
        return 0;
    return N->cfixed ? N->cmax : INF;
}
// frames made by N that caches may hold
static int bound(NodeInfo *N, const std::set<NodeInfo *> &alive) {
    long b = cache_bound(N);
    for (NodeInfo *c : alive)
        if (passes(c))
            for (auto &d : c->deps)
                if (d.first == N) {
                    b += bound(c, alive);
                    break;
                }
    return (int)std::min<long>(b, INF);
}
static int64_t used_bytes() {
    VSCoreInfo2 ci;
    W->api->getCoreInfo2(W->core, &ci);
    return ci.usedFramebufferSize;
}
static void quiescent_checks(bool clear) {
    count(UC_QUIESCE);
    if (!rt_quiesce())
        oracle("P07", "not-quiet", "worker threads keep running although no request is outstanding");
    for (int c = 0; c < W->nclients; c++)
        if (W->outstanding[c])
            oracle("P01", "unanswered", "%d requests are unanswered", W->outstanding[c]);
    if (!W->live.empty()) {
        Prod *p = *W->live.begin();
        oracle("P04", "abandoned", "the production of frame %d of node %d was started and never finished although no request is outstanding", p->n, p->N->id);
    }
    W->epoch++;
    auto alive = expected_alive();
    for (auto &x : W->nodes) {
        NodeInfo *N = x.second;
        if (!N->observed_free)
            continue;
        bool a = alive.count(N) != 0;
        if (a && N->freed)
            oracle("P11", "freed-early", "node %d was freed although it is still referenced", N->id);
        if (!a && !N->freed)
            oracle("P11", "not-freed", "node %d was not freed although nothing refers to it", N->id);
    }
    auto held = held_counts();
    for (auto &x : W->nodes) {
        NodeInfo *N = x.second;
        int b = N->freed ? 0 : bound(N, alive);
        if (b < INF && N->live_tok > b + held[N]) {
            if (rt_verbose) for (Tok *t : W->toks) if (t->alive && t->N == N) dprintf(2, "alive %d\n", t->n);
            oracle("P09", "cache-too-big", "%d frames of node %d are alive, %d of them held by the application, with cache sizes adding up to %d", N->live_tok, N->id, held[N], b);
        }
    }
    for (auto &h : W->held)
        for (auto &x : h)
            check_held(x);
    // memory accounting: with a tiny limit nothing is held back for reuse
    int64_t old = W->api->setMaxCacheSize(0, W->core);
    // the pool is trimmed when a large buffer comes back
    VSVideoFormat g8;
    W->api->queryVideoFormat(&g8, cfGray, stInteger, 8, 0, 0, W->core);
    W->api->freeFrame(W->api->newVideoFrame(&g8, 1024, 1200, nullptr, W->core));
    uint64_t live = rt_heap_live_aligned();
    int64_t u = used_bytes();
    if (u > (int64_t)live)
        oracle("P08", "overreported", "%ld bytes are reported in use but only %lu are allocated", (long)u, (unsigned long)live);
    if ((uint64_t)u < live && (int64_t)live > old)
        oracle("P08", "pool-over-limit", "%lu bytes are allocated for frames with %ld in use and a limit of %ld", (unsigned long)live, (long)u, (long)old);
    W->api->setMaxCacheSize(1, W->core);
    live = rt_heap_live_aligned();
    u = used_bytes();
    if ((uint64_t)u != live)
        oracle("P08", "misreported", "%ld bytes are reported in use and %lu are allocated after the pool was emptied", (long)u, (unsigned long)live);
    W->api->setMaxCacheSize(old, W->core);
    if (clear) {
        lin_forget(nullptr);
        W->api->clearCoreCaches(W->core);
        for (auto &x : W->nodes)
            if (x.second->live_tok != held[x.second])
                oracle("P09", "clear-incomplete", "%d frames of node %d are alive after all caches were cleared, %d of them held by the application", x.second->live_tok, x.second->id, held[x.second]);
    }
}
// keeps memory use over the limit and expects every cache that may be emptied to give way
static void settle(long limit) {
    NodeInfo *any = nullptr;
    for (auto &x : W->nodes)
        if (x.second->node)
            any = x.second;
    if (!any)
        return;
    auto evictable = [&]() {
        auto held = held_counts();
        auto alive = expected_alive();
        long n = 0;
        for (auto &x : W->nodes) {
            NodeInfo *N = x.second;
            bool fixed = N->kind == "lin" || N->cfixed || !N->cknown;
            for (NodeInfo *c : alive) // its frames may sit in the fixed cache of a filter passing them through
                fixed |= passes(c) && (c->cfixed || !c->cknown);
            if (!fixed)
                n += N->live_tok - held[N];
        }
        return n;
    };
    int64_t old = W->api->setMaxCacheSize(0, W->core);
    W->api->setMaxCacheSize(limit, W->core);
    W->memchanged = true;
    int same = 0;
    long before = evictable();
    std::map<NodeInfo *, int> fixed; // what no eviction may touch: without requests their number stays
    {
        auto alive = expected_alive();
        for (NodeInfo *N : alive) {
            bool own = N->observed_free && (N->kind == "lin" || (N->cfixed && N->cknown && N->cmode != 0));
            for (NodeInfo *c : alive)
                if (passes(c))
                    for (auto &d : c->deps)
                        own &= d.first != N;
            if (own)
                fixed[N] = N->live_tok;
        }
    }
    if (used_bytes() > limit)
        count(UC_OVERLIMIT);
    for (int i = 0; i < 4000 && used_bytes() > limit && before > 0; i++) {
        VSCoreInfo2 ci;
        W->api->getCoreInfo2(W->core, &ci);
        W->api->setThreadCount(ci.numThreads, W->core); // keeps the pipeline flush of last resort away
        rt_sleep_ns(160000000);
        Req *r = new Req;
        r->N = any;
        r->ref = W->api->addNodeRef(any->node);
        r->n = -1;
        r->client = 15;
        start_async(r);
        wait_until(15, 0);
        rt_quiesce();
        long now = evictable();
        same = now == before ? same + 1 : 0;
        if (now < before)
            count(UC_EVICTIONS, (uint64_t)(before - now));
        before = now;
        // a sweep that only drops one of several references to the same frame frees nothing yet
        long patience = 3 + 40 * (long)W->nodes.size();
        if (same >= patience && now > 0 && used_bytes() > limit)
            oracle("P09", "no-eviction", "memory use of %ld bytes stays over the limit of %ld although %ld frames are only held by caches that are not fixed", (long)used_bytes(), limit, now);
        if (same >= patience)
            break;
    }
    for (auto &x : fixed)
        if (x.first->live_tok < x.second)
            oracle("P09", "fixed-evicted", "%d of %d frames of node %d, whose cache is fixed, are gone although no request was made and only nodes that are not fixed may be evicted", x.second - x.first->live_tok, x.second, x.first->id);
    W->api->setMaxCacheSize(old, W->core);
}

// as many filter calls must be possible at once as the modes and the thread count allow: calls that wait for each other
struct Meet {
    int want, inside = 0, most = 0, limit, answered = 0, errors = 0, callback_waits = 0;
    bool one;
    VSNode *nested = nullptr;
    int nested_n = 0;
};
struct MeetNode {
    Meet *m;
    int mode, plain; // frames from `plain` on don't wait
};
static const VSFrame *VS_CC meet_get(int n, int ar, void *inst, void **, VSFrameContext *, VSCore *core, const VSAPI *api) {
    MeetNode *x = (MeetNode *)inst;
    if (ar != arInitial)
        return nullptr;
    Meet *m = x->m;
    count(UC_FILTER_CALLS);
    m->inside++;
    if (m->inside > m->limit)
        oracle("P06", "over-limit", "%d filter calls are running with a thread count of %d", m->inside, m->limit);
    if (n < x->plain) {
        m->most = std::max(m->most, m->inside);
        for (int i = 0; m->most < m->want; i++) {
            if (i == 8000) {
                static const char *const mn[] = {"fmParallel", "fmParallelRequests", "fmUnordered", "fmFrameState"};
                const char *p = g_prop == "P03" ? "P03" : "P06";
                oracle(p, "not-parallel", "at least %d frames of %s are requested with a thread count of %d%s but never more than %d of the calls run at once", m->want, m->one ? (std::string("one node with mode ") + mn[x->mode]).c_str() : "different nodes", m->limit,
                       m->callback_waits ? " and a completion callback waiting for one of them" : "", m->most);
                break;
            }
            rt_sleep_ns(2000000);
        }
        count(UC_OVERLAP);
    }
    const VSFrame *f = api->newVideoFrame(&W->fmt, 32, 4, nullptr, core);
    m->inside--;
    return f;
}
static void VS_CC meet_free(void *inst, VSCore *, const VSAPI *) { delete (MeetNode *)inst; }
static void VS_CC meet_done(void *u, const VSFrame *f, int, VSNode *, const char *) {
    Meet *m = (Meet *)u;
    if (m->nested) {
        VSNode *x = m->nested;
        m->nested = nullptr;
        m->callback_waits = 1;
        char b[100];
        const VSFrame *g = W->api->getFrame(m->nested_n, x, b, sizeof(b));
        m->errors += !g;
        W->api->freeFrame(g);
        m->callback_waits = 0;
        count(UC_NESTED_BLOCK);
    }
    W->api->freeFrame(f);
    pthread_mutex_lock(&W->waitlock);
    m->answered++;
    m->errors += !f;
    pthread_cond_broadcast(&W->waitcond);
    pthread_mutex_unlock(&W->waitlock);
}
static void meet(int frames, int threads, int mode, bool one, bool nest, int twice) {
    const VSAPI *api = W->api;
    int64_t old = 0;
    if (W->memchanged)
        old = api->setMaxCacheSize(1 << 30, W->core);
    for (int round = 0; round <= twice; round++) {
        set_threads(round ? std::max(1, threads - round) : threads);
        Meet m;
        m.limit = W->limit_hi;
        m.want = std::min(frames, m.limit);
        m.one = one;
        std::vector<VSNode *> nodes;
        VSVideoInfo vi{W->fmt, 25, 1, 32, 4, one ? frames + 40 : 2};
        auto make = [&]() { nodes.push_back(api->createVideoFilter2("Meet", &vi, meet_get, meet_free, mode, nullptr, 0, new MeetNode{&m, mode, vi.numFrames - 1}, W->core)); };
        for (int i = 0; i < (one ? 1 : frames); i++)
            make();
        auto at = [&](int i) { return one ? i : 0; };
        auto node = [&](int i) { return one ? nodes[0] : nodes[(size_t)i]; };
        int first = 0, asked = 0;
        if (nest) {
            m.nested = node(0);
            m.nested_n = at(0);
            first = 1;
            asked++;
            api->getFrameAsync(vi.numFrames - 1, nodes.back(), meet_done, &m);
        }
        for (int i = first; i < frames; i++, asked++)
            api->getFrameAsync(at(i), node(i), meet_done, &m);
        auto answered = [&]() {
            pthread_mutex_lock(&W->waitlock);
            int n = m.answered;
            pthread_mutex_unlock(&W->waitlock);
            return n;
        };
        // a worker may have been on its way to sleep when it was called for; another request calls again
        for (int i = 0, extra = 0; answered() < asked; i++) {
            rt_sleep_ns(1000000);
            if (i % 100 == 99 && m.most < m.want && extra < 30) {
                extra++;
                if (!one)
                    make();
                api->getFrameAsync(one ? frames + extra : 0, nodes.back(), meet_done, &m);
                asked++;
            }
        }
        if (m.errors)
            oracle("P05", "unknown-error", "%d requests fail although no filter does", m.errors);
        for (VSNode *x : nodes)
            api->freeNode(x);
        rt_quiesce();
    }
    if (old)
        api->setMaxCacheSize(old, W->core);
}

static int leak_skip(const void *, size_t, const char *d) { return strncmp(d, "libvapoursynth", 14) != 0; }

// ------------------------------------------------------------------ one execution
static void core_run(const Scenario &sc) {
    SC = &sc;
    W = new World;
    W->api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    const VSAPI *api = W->api;
    uint64_t mark = rt_heap_mark();
    W->core = api->createCore((int)(ccfDisableAutoLoading | sc.geti("flags", 0)));
    static const int fmts[][4] = {{cfGray, 8, 0, 0}, {cfYUV, 8, 0, 0}, {cfYUV, 8, 1, 1}, {cfGray, 16, 0, 0}, {cfYUV, 16, 0, 0}};
    const int *fm = fmts[sc.geti("fmt", 0) % 5];
    api->queryVideoFormat(&W->fmt, fm[0], stInteger, fm[1], fm[2], fm[3], W->core);
    W->carry = sc.geti("carry", 0);
    W->w = (int)sc.geti("w", 32);
    W->h = (int)sc.geti("h", 4);
    int threads = (int)sc.geti("threads", 2);
    api->setThreadCount(threads, W->core);
    W->limit_hi = threads;
    if (sc.geti("mem", 0) > 0) {
        api->setMaxCacheSize(sc.geti("mem", 0), W->core);
        W->memchanged = true;
    }
    W->nclients = (int)sc.geti("clients", 1);
    std::vector<ClientArg> cl((size_t)W->nclients);
    auto run_clients = [&]() {
        std::vector<pthread_t> th;
        bool any = false;
        for (auto &c : cl)
            any |= !c.ops.empty();
        if (any) {
            for (size_t i = 0; i < cl.size(); i++) {
                cl[i].id = (int)i;
                if (cl[i].ops.empty())
                    continue;
                pthread_t t;
                pthread_create(&t, nullptr, client_fn, &cl[i]);
                th.push_back(t);
            }
            for (auto t : th)
                pthread_join(t, nullptr);
        }
        for (auto &c : cl)
            c.ops.clear();
    };
    bool dirty = false;
    for (auto &l : sc.lines) {
        if (!l.compare(0, 5, "node "))
            mk(l.substr(5), false);
        else if (!l.compare(0, 3, "op ")) {
            char *e;
            long c = strtol(l.c_str() + 3, &e, 10);
            if (c >= 0 && c < W->nclients) {
                cl[(size_t)c].ops.push_back(e + (*e == ' '));
                dirty = true;
            }
        } else if (!l.compare(0, 7, "barrier")) {
            run_clients();
            quiescent_checks(strstr(l.c_str(), "clear") != nullptr);
            dirty = false;
        } else if (!l.compare(0, 7, "settle ")) {
            run_clients();
            quiescent_checks(false);
            settle(atol(l.c_str() + 7));
            quiescent_checks(false);
            dirty = false;
        } else if (!l.compare(0, 5, "meet ")) {
            run_clients();
            quiescent_checks(false);
            int k = 2, t = 2, m = 0, o = 1, n = 0, w = 0;
            sscanf(l.c_str() + 5, "%d %d %d %d %d %d", &k, &t, &m, &o, &n, &w);
            meet(k, t, m, o != 0, n != 0, w);
            quiescent_checks(false);
            dirty = false;
        }
    }
    if (dirty) {
        run_clients();
        quiescent_checks(false);
    }
    // shutdown
    W->shutting = true;
    long endmode = sc.geti("end", 0);
    uint64_t before_end = rt_now_ns();
    (void)before_end;
    bool frames_outlive = endmode & 1, nodes_outlive = (endmode & 2) != 0, reverse = (endmode & 4) != 0;
    auto drop_frames = [&]() {
        for (auto &h : W->held) {
            for (auto &x : h) {
                check_held(x);
                api->freeFrame(x.f);
            }
            h.clear();
        }
    };
    auto drop_nodes = [&]() {
        std::vector<VSNode *> v;
        for (auto &x : W->nodes)
            if (x.second->node) {
                v.push_back(x.second->node);
                x.second->node = nullptr;
            }
        if (reverse)
            std::reverse(v.begin(), v.end());
        for (VSNode *x : v)
            api->freeNode(x);
    };
    if (!frames_outlive)
        drop_frames();
    if (!nodes_outlive)
        drop_nodes();
    if (!frames_outlive && !nodes_outlive) {
        if (used_bytes() != 0)
            oracle("P08", "not-zero", "%ld bytes are reported in use after every frame was released", (long)used_bytes());
        if (W->live_toks)
            oracle("P11", "frames-left", "%d frames are alive after every node and frame was released", W->live_toks);
    } else
        count(UC_ZOMBIE);
    api->freeCore(W->core);
    drop_nodes();
    drop_frames();
    for (auto &x : W->nodes)
        if (x.second->observed_free && x.second->freed != 1)
            oracle("P11", "freed-count", "node %d was freed %d times in all", x.first, x.second->freed);
    if (W->carried)
        oracle("P11", "nodes-left", "%d nodes which frame properties referred to are alive after everything was released", W->carried);
    for (Tok *t : W->toks)
        if (t->alive) {
            oracle("P11", "frame-leaked", "frame %d of node %d is still alive after everything was released", t->n, t->N->id);
            oracle("P05", "frame-leaked", "frame %d of node %d is still alive after everything was released", t->n, t->N->id);
        }
    char buf[1500];
    int leaks = rt_heap_list(mark, buf, sizeof(buf), leak_skip);
    if (leaks) {
        oracle("P11", "leak", "%d blocks are left allocated after everything was released:%s", leaks, buf);
        oracle("P08", "leak", "%d blocks are left allocated after everything was released:%s", leaks, buf);
        oracle("P05", "leak", "%d blocks are left allocated after everything was released:%s", leaks, buf);
    }
    if (rt_live_threads() > 1) {
        oracle("P07", "threads-left", "%d threads are left after the core was freed", rt_live_threads() - 1);
        oracle("P11", "threads-left", "%d threads are left after the core was freed", rt_live_threads() - 1);
    }
}
void core_warm() {
    static bool done_;
    if (done_)
        return;
    done_ = true;
    const VSAPI *api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    VSCore *c = api->createCore(ccfDisableAutoLoading | ccfDisableLibraryUnloading);
    api->freeCore(c);
    rt_add_globals();
}

// ------------------------------------------------------------------ generation
struct Emph {
    const char *name;
    int maxnodes = 6, maxframes = 14, clients = 3, ops = 10, segments = 3;
    double fail = 0.25, mem = 0.25, threads = 0.2, nest = 0.08, chain = 0.15, invalid = 0.05, sync = 0.25, cache = 0.12, dyn = 0.06, hold = 0.15, info = 0.1, big = 0.15, slow = 0.15, lin = 0.1, bi = 0.25, settle = 0.0, clear = 0.2, range = 0.2, meet = 0.02, carry = 0.08;
    double modes[4] = {0.4, 0.2, 0.2, 0.2};
};
struct GenNode {
    int id, frames;
    bool lin, bi;
    int owner;
};
static std::string gen_node(Rng &r, const Emph &e, std::vector<GenNode> &ns, int id, bool dyn) {
    char b[600];
    size_t o = 0;
    GenNode g{id, (int)r.range(1, e.maxframes), false, false, 0};
    std::string deps;
    bool src = ns.empty() || r.chance(0.15);
    int mode = 0;
    double x = r.f();
    for (mode = 0; mode < 3 && x >= e.modes[mode]; mode++)
        x -= e.modes[mode];
    auto pick = [&](bool nolin) -> GenNode * {
        for (int k = 0; k < 20; k++) {
            GenNode &d = ns[r.chance(0.5) ? ns.size() - 1 - (size_t)r.below(std::min<size_t>(2, ns.size())) : (size_t)r.below(ns.size())];
            if (!nolin || !d.lin)
                return &d;
        }
        return nullptr;
    };
    auto dep = [&](GenNode *d, int rp) {
        if (!deps.empty())
            deps += ',';
        deps += std::to_string(d->id) + ":" + std::to_string(rp);
    };
    uint64_t salt = r.next() >> 8;
    if (!src && r.chance(e.bi)) {
        GenNode *d = pick(true);
        if (d) {
            static const char *const bis[] = {"trim", "rev", "loop", "splice", "inter", "sel", "dup", "del", "freeze", "feval", "fevalp", "modf"};
            const char *bi = bis[r.below(12)];
            std::string a;
            auto arg = [&](long v) { a += (a.empty() ? "" : ",") + std::to_string(v); };
            int f = d->frames;
            std::string k = bi;
            dep(d, 0);
            if (k == "trim") {
                long first = (long)r.below((uint64_t)f), len = r.range(1, f - first);
                arg(first);
                arg(len);
                g.frames = (int)len;
            } else if (k == "rev")
                g.frames = f;
            else if (k == "loop") {
                long t = r.range(1, 3);
                arg(t);
                g.frames = f * (int)t;
            } else if (k == "splice" || k == "inter") {
                int n = (int)r.range(1, 2);
                std::vector<int> fr{f};
                for (int i = 0; i < n; i++) {
                    GenNode *d2 = pick(true);
                    dep(d2, 0);
                    fr.push_back(d2->frames);
                }
                int kx = (int)fr.size();
                if (k == "splice") {
                    g.frames = 0;
                    for (int v : fr)
                        g.frames += v;
                } else {
                    long ext = (long)r.below(2);
                    arg(ext);
                    g.frames = 0;
                    for (int i = 0; i < kx; i++)
                        g.frames = std::max(g.frames, ext ? fr[(size_t)i] * kx : (fr[(size_t)i] - 1) * kx + i + 1);
                }
            } else if (k == "sel") {
                long cyc = r.range(2, 5);
                arg(cyc);
                std::vector<long> off;
                int n = (int)r.range(1, 4);
                for (int i = 0; i < n; i++)
                    off.push_back((long)r.below((uint64_t)cyc));
                bool any = false;
                int out = 0;
                for (long c = 0; c * cyc < f; c++)
                    for (long v : off)
                        out += c * cyc + v < f;
                any = out > 0;
                if (!any) {
                    off[0] = 0;
                    out = 0;
                    for (long c = 0; c * cyc < f; c++)
                        for (long v : off)
                            out += c * cyc + v < f;
                }
                for (long v : off)
                    arg(v);
                g.frames = out;
            } else if (k == "dup") {
                int n = (int)r.range(1, 4);
                for (int i = 0; i < n; i++)
                    arg((long)r.below((uint64_t)f));
                g.frames = f + n;
            } else if (k == "del") {
                std::set<long> s;
                int n = (int)r.range(1, 4);
                for (int i = 0; i < n; i++)
                    s.insert((long)r.below((uint64_t)f));
                while ((int)s.size() >= f)
                    s.erase(s.begin());
                if (s.empty()) {
                    k = "rev";
                    g.frames = f;
                } else {
                    std::vector<long> v(s.begin(), s.end());
                    for (size_t i = v.size(); i > 1; i--)
                        std::swap(v[i - 1], v[r.below(i)]);
                    for (long q : v)
                        arg(q);
                    g.frames = f - (int)s.size();
                }
            } else if (k == "freeze") {
                long at = 0;
                std::vector<std::array<long, 3>> v;
                while (at < f && v.size() < 3) {
                    long a0 = at + (long)r.below(3), b0 = a0 + (long)r.below(4);
                    if (b0 >= f)
                        break;
                    v.push_back(r.chance(0.2) ? std::array<long, 3>{b0, a0, (long)r.below((uint64_t)f)} : std::array<long, 3>{a0, b0, (long)r.below((uint64_t)f)});
                    at = b0 + 1;
                }
                if (v.empty())
                    v.push_back({0, 0, f - 1});
                if (r.chance(0.5))
                    std::reverse(v.begin(), v.end());
                for (auto &t : v)
                    for (long q : t)
                        arg(q);
                g.frames = f;
            } else if (k == "feval" || k == "fevalp") {
                g.frames = f;
                int n = (int)r.range(1, 2) + (k == "fevalp");
                for (int i = 0; i < n; i++)
                    dep(pick(true), 0);
            } else {
                g.frames = f;
                int n = (int)r.range(1, 2);
                for (int i = 0; i < n; i++)
                    dep(pick(true), 0);
            }
            g.bi = true;
            o += (size_t)snprintf(b + o, sizeof(b) - o, "%d kind=bi bi=%s frames=%d args=%s deps=%s", id, k.c_str(), g.frames, a.empty() ? "0" : a.c_str(), deps.c_str());
            if (r.chance(0.3))
                o += (size_t)snprintf(b + o, sizeof(b) - o, " cost=%ld", r.range(1, 6));
            if (g.frames > 200)
                return "";
        } else
            src = true;
    }
    if (!g.bi) {
        bool lin = src && r.chance(e.lin);
        g.lin = lin;
        if (lin) {
            mode = r.chance(0.7) ? 2 : 3;
            g.frames = (int)r.range(4, 60);
        }
        o += (size_t)snprintf(b + o, sizeof(b) - o, "%d kind=%s mode=%d", id, src ? (lin ? "lin" : "src") : "flt", mode);
        if (r.chance(lin ? 0.4 : 0.15))
            o += (size_t)snprintf(b + o, sizeof(b) - o, " api=3");
        if (!src) {
            static const char *const pats[] = {"same", "same", "win", "hash", "wide", "dep", "dup", "past", "multi", "rev", "last"};
            std::string p = pats[r.below(11)];
            GenNode *d = pick(false);
            int rp = 0;
            if (p == "same" || p == "rev") {
                rp = p == "same" ? (int)r.below(3) : (int)r.below(2);
                g.frames = rp ? (int)r.range(1, d->frames) : g.frames;
            } else if (p == "last")
                rp = 3;
            dep(d, rp);
            if (p == "hash" || p == "wide" || p == "dep" || p == "multi") {
                int n = (int)r.range(0, 2);
                for (int i = 0; i < n; i++)
                    dep(pick(false), 0);
            }
            static const char *const outs[] = {"new", "new", "mod", "mod", "prop", "share", "pass"};
            o += (size_t)snprintf(b + o, sizeof(b) - o, " pat=%s out=%s deps=%s", p.c_str(), outs[r.below(7)], deps.c_str());
            if (r.chance(0.2))
                o += (size_t)snprintf(b + o, sizeof(b) - o, " rel=1");
        }
        o += (size_t)snprintf(b + o, sizeof(b) - o, " frames=%d", g.frames);
        if (r.chance(0.7))
            o += (size_t)snprintf(b + o, sizeof(b) - o, " cost=%ld", r.range(1, 8));
        if (r.chance(e.slow))
            o += (size_t)snprintf(b + o, sizeof(b) - o, " sleep=%ld", r.chance(0.3) ? r.range(1000, 200000) : r.range(10, 2000));
        if (r.chance(0.2))
            o += (size_t)snprintf(b + o, sizeof(b) - o, " trans=1");
    }
    if (r.chance(e.fail)) {
        if (r.chance(0.5))
            o += (size_t)snprintf(b + o, sizeof(b) - o, " failp=%ld", r.range(20, 400));
        else
            o += (size_t)snprintf(b + o, sizeof(b) - o, " fail=%ld:%ld:%ld,%ld:1:1", (long)r.below((uint64_t)g.frames), r.range(0, 2), r.range(1, 2), (long)r.below((uint64_t)g.frames));
    }
    o += (size_t)snprintf(b + o, sizeof(b) - o, " salt=%lu", (unsigned long)salt);
    (void)dyn;
    ns.push_back(g);
    return b;
}
static void gen_core(Rng &r, int tier, Scenario &s, const Emph &e) {
    std::vector<GenNode> ns;
    bool big = r.chance(e.big);
    int fmt = (int)r.below(5);
    s.add("cfg fmt %d", fmt);
    int w = 32, h = 4;
    if (big) {
        w = 1024;
        h = (int)r.range(1030, 1100);
        if (fmt == 2)
            h = 2080;
    }
    s.add("cfg w %d", w);
    s.add("cfg h %d", h & ~1);
    long framebytes = (long)w * h * (fmt == 1 ? 3 : fmt == 2 ? 2 : fmt == 3 ? 2 : fmt == 4 ? 6 : 1) + 192;
    s.add("cfg threads %ld", r.chance(0.2) ? 1L : r.range(1, tier ? 8 : 5));
    bool mem = r.chance(e.mem);
    auto memval = [&]() -> long { return r.chance(0.1) ? 1L : framebytes * r.range(1, 24); };
    if (mem && r.chance(0.6))
        s.add("cfg mem %ld", memval());
    int clients = (int)r.range(1, e.clients + tier);
    s.add("cfg clients %d", clients);
    s.add("cfg end %ld", r.chance(0.5) ? 0L : (long)r.below(8));
    if (r.chance(0.15))
        s.add("cfg flags %ld", r.chance(0.5) ? 1L : 0L);
    if (r.chance(e.carry))
        s.add("cfg carry %ld", r.chance(0.5) ? 100L : r.range(5, 60));
    int nn = (int)r.range(1, e.maxnodes + tier * 3);
    for (int i = 0; i < nn; i++) {
        std::string l = gen_node(r, e, ns, i, false);
        if (l.empty())
            continue;
        ns.back().owner = (int)r.below((uint64_t)clients);
        s.lines.push_back("node " + l);
    }
    if (ns.empty())
        return;
    int nextid = 100;
    int segs = (int)r.range(1, e.segments);
    for (int g = 0; g < segs; g++) {
        int total = (int)r.range(2, (e.ops + tier * 6) * clients);
        std::vector<int> removed;
        int focus = (int)r.below(ns.size()); // one node gets most of the requests
        bool seqscan = r.chance(0.3);
        int at = 0;
        for (int i = 0; i < total; i++) {
            int c = (int)r.below((uint64_t)clients);
            GenNode &N = ns[r.chance(0.6) ? (size_t)focus : (size_t)r.below(ns.size())];
            double x = r.f();
            // control operations take at most half of all operations
            double ctl = e.threads * 0.5 + (mem ? 0.08 : 0) + e.cache + e.dyn + e.info + 0.05 + 0.05 + 0.08;
            x = r.chance(std::min(0.5, ctl)) ? x * ctl : ctl + x;
            auto under = [&](double p) {
                if (x < p)
                    return true;
                x -= p;
                return false;
            };
            if (under(e.threads * 0.5)) {
                s.add("op %d threads %ld", c, r.chance(0.3) ? 1L : r.range(1, 6));
            } else if (mem && under(0.08)) {
                s.add("op %d mem %ld", c, memval());
            } else if (under(e.cache)) {
                // one client owns the cache settings of a node, so that the outcome is known
                switch (r.below(5)) {
                case 0:
                case 1:
                    s.add("op %d cmode %d %ld", N.owner, N.id, r.range(-1, 1));
                    break;
                case 2:
                case 3:
                    if (N.lin)
                        s.add("op %d cclr %d", c, N.id);
                    else
                        s.add("op %d copt %d %ld %ld %ld", N.owner, N.id, r.range(-1, 1), r.chance(0.2) ? -1L : r.range(0, 12), r.range(-1, 10));
                    break;
                default:
                    if (r.chance(0.5))
                        s.add("op %d cclr %d", c, N.id);
                    else
                        s.add("op %d cclrall", c);
                }
            } else if (under(e.dyn)) {
                if (r.chance(0.6)) {
                    std::string l = gen_node(r, e, ns, nextid, true);
                    if (!l.empty()) {
                        nextid++;
                        ns.back().owner = c;
                        s.add("op %d mk %s", c, l.c_str());
                    }
                } else
                    s.add("op %d rmn %d", c, N.id);
            } else if (under(e.info)) {
                s.add("op %d info %d %ld", c, N.id, r.range(0, 6));
            } else if (under(0.05)) {
                if (r.chance(0.5))
                    s.add("op %d rel %ld", c, r.range(1, 4));
                else
                    s.add("op %d chk", c);
            } else if (under(0.05)) {
                s.add("op %d sleep %ld", c, r.chance(0.25) ? r.range(100000, 2500000) : r.range(1, 5000));
            } else if (under(0.08)) {
                s.add("op %d wait %ld", c, (long)r.below(4));
            } else if (under(e.range * 0.6)) {
                int k = (int)r.range(2, 10);
                s.add("op %d range %d %ld %d 1", c, N.id, (long)r.below((uint64_t)std::max(1, N.frames - k)), std::min(k, N.frames));
            } else {
                long n = seqscan ? (at++) % N.frames : (long)r.below((uint64_t)N.frames);
                if (r.chance(e.invalid))
                    n = r.chance(0.5) ? -(long)r.range(1, 3) : N.frames + (long)r.below(3);
                bool sync = r.chance(e.sync);
                std::string extra;
                if (r.chance(e.hold))
                    extra += " hold=1";
                if (sync) {
                    if (r.chance(0.2))
                        extra += r.chance(0.5) ? " buf=0" : " buf=9";
                    s.add("op %d sync %d %ld%s", c, N.id, n, extra.c_str());
                } else {
                    if (r.chance(e.chain))
                        extra += " chain=" + std::to_string(r.range(1, 6));
                    if (r.chance(0.2))
                        extra += " slow=" + std::to_string(r.chance(0.3) ? r.range(41, 3000) : r.range(1, 20));
                    if (r.chance(e.nest)) {
                        GenNode &M = ns[(size_t)r.below(ns.size())];
                        extra += " nest=" + std::to_string(M.id) + " nestn=" + std::to_string(r.below((uint64_t)M.frames));
                    }
                    s.add("op %d async %d %ld%s", c, N.id, n, extra.c_str());
                }
            }
        }
        if (r.chance(e.meet)) {
            bool one = r.chance(0.6);
            s.add("meet %ld %ld %ld %d %d %ld", r.range(2, 7), r.range(1, tier ? 8 : 6), one ? r.range(0, 1) : r.range(0, 3), one ? 1 : 0, r.chance(0.35) ? 1 : 0, r.chance(0.3) ? r.range(1, 3) : 0L);
        }
        if (r.chance(e.settle))
            s.add("settle %ld", memval());
        else if (g + 1 < segs || r.chance(0.5))
            s.add("barrier%s", r.chance(e.clear) ? " clear" : "");
    }
}
static Emph emph(const char *p) {
    Emph e;
    e.name = p;
    std::string q = p;
    if (q == "P01") {
        e.chain = 0.3;
        e.nest = 0.15;
        e.invalid = 0.12;
        e.threads = 0.15;
        e.sync = 0.3;
    } else if (q == "P02") {
        e.fail = 0.1;
        e.mem = 0.4;
        e.cache = 0.2;
        e.range = 0.5;
        e.maxnodes = 8;
        e.maxframes = 24;
    } else if (q == "P03") {
        e.modes[0] = 0.1;
        e.modes[1] = e.modes[2] = e.modes[3] = 0.3;
        e.range = 0.6;
        e.bi = 0.1;
        e.clients = 2;
        e.fail = 0.3;
        e.meet = 0.25;
    } else if (q == "P04") {
        e.fail = 0.4;
        e.bi = 0.1;
        e.range = 0.5;
    } else if (q == "P05") {
        e.fail = 0.6;
        e.segments = 5;
        e.ops = 7;
        e.invalid = 0.02;
    } else if (q == "P06") {
        e.threads = 0.5;
        e.nest = 0.15;
        e.range = 0.8;
        e.meet = 0.3;
        e.modes[0] = 0.7;
        e.modes[1] = e.modes[2] = e.modes[3] = 0.1;
        e.bi = 0.1;
    } else if (q == "P07") {
        e.threads = 0.4;
        e.mem = 0.5;
        e.nest = 0.2;
        e.slow = 0.3;
        e.range = 0.4;
    } else if (q == "P08") {
        e.big = 0.7;
        e.mem = 0.7;
        e.hold = 0.3;
        e.maxnodes = 4;
    } else if (q == "P09") {
        e.cache = 0.35;
        e.mem = 0.3;
        e.settle = 0.5;
        e.hold = 0.25;
        e.dyn = 0.12;
        e.clear = 0.4;
        e.fail = 0.1;
        e.range = 0.6;
    } else if (q == "P10") {
        e.hold = 0.5;
        e.info = 0.2;
        e.fail = 0.1;
    } else if (q == "P11") {
        e.dyn = 0.3;
        e.hold = 0.3;
        e.fail = 0.35;
        e.chain = 0.2;
        e.segments = 4;
    } else if (q == "P12") {
        e.info = 0.35;
        e.dyn = 0.15;
        e.cache = 0.2;
        e.threads = 0.2;
        e.mem = 0.4;
        e.hold = 0.3;
        e.clients = 4;
    } else if (q == "P16") {
        e.lin = 1.0;
        e.mem = 0;
        e.bi = 0;
        e.cache = 0.04;
        e.range = 0.3;
        e.fail = 0.1;
        e.maxnodes = 3;
        e.ops = 18;
    } else if (q == "P18") {
        e.bi = 0.85;
        e.maxnodes = 7;
        e.maxframes = 20;
        e.range = 0.6;
        e.fail = 0.2;
    }
    if (q == "P07" || q == "P11" || q == "P12")
        e.carry = 0.25;
    return e;
}
#define GEN(P) void gen_core_##P(Rng &r, int tier, Scenario &s) { gen_core(r, tier, s, emph(#P)); }
GEN(P01) GEN(P02) GEN(P03) GEN(P04) GEN(P05) GEN(P06) GEN(P07) GEN(P08) GEN(P09) GEN(P10) GEN(P11) GEN(P12) GEN(P16) GEN(P18)
void run_core(const Scenario &s) { core_run(s); }
