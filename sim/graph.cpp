// Frame contents, executable models and the simulated filters.
#include "graph.h"
#include "VSHelper4.h"
#include "VapourSynth3.h"
#include <algorithm>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

World *W;

// ------------------------------------------------------------------ contents
static void sample_rows(const VSFrame *f, int p, int rows[3]) {
    int h = W->api->getFrameHeight(f, p);
    rows[0] = 0;
    rows[1] = h / 2;
    rows[2] = h - 1;
}
void fill_plane(VSFrame *f, int p, uint64_t sig) {
    uint8_t *d = W->api->getWritePtr(f, p);
    ptrdiff_t st = W->api->getStride(f, p);
    int w = W->api->getFrameWidth(f, p) * W->fmt.bytesPerSample;
    int rows[3];
    sample_rows(f, p, rows);
    for (int i = 0; i < 3; i++) {
        uint64_t a = hmix(sig, (uint64_t)rows[i] * 2), b = hmix(sig, (uint64_t)rows[i] * 2 + 1);
        uint8_t *r = d + rows[i] * st;
        rt_write_range(r, 8);
        memcpy(r, &a, 8);
        rt_write_range(r + w - 8, 8);
        memcpy(r + w - 8, &b, 8);
    }
}
bool check_plane(const VSFrame *f, int p, uint64_t sig) {
    const uint8_t *d = W->api->getReadPtr(f, p);
    ptrdiff_t st = W->api->getStride(f, p);
    int w = W->api->getFrameWidth(f, p) * W->fmt.bytesPerSample;
    int rows[3];
    sample_rows(f, p, rows);
    for (int i = 0; i < 3; i++) {
        uint64_t a = hmix(sig, (uint64_t)rows[i] * 2), b = hmix(sig, (uint64_t)rows[i] * 2 + 1), x, y;
        const uint8_t *r = d + rows[i] * st;
        rt_read_range(r, 8);
        memcpy(&x, r, 8);
        rt_read_range(r + w - 8, 8);
        memcpy(&y, r + w - 8, 8);
        if (x != a || y != b)
            return false;
    }
    return true;
}
static void set_props(VSFrame *f, uint64_t sig) {
    const VSAPI *api = W->api;
    VSMap *m = api->getFramePropertiesRW(f);
    api->mapSetInt(m, "sig", (int64_t)(sig >> 1), maReplace);
    int64_t arr[4];
    int n = 1 + (int)(sig & 3);
    for (int i = 0; i < n; i++)
        arr[i] = (int64_t)(hmix(sig, (uint64_t)i + 7) >> 1);
    api->mapSetIntArray(m, "arr", arr, n);
    char b[40];
    int l = snprintf(b, sizeof(b), "d%016lx", (unsigned long)hmix(sig, 99));
    api->mapSetData(m, "dat", b, l, dtUtf8, maReplace);
    api->mapSetFloat(m, "flt", (double)(sig >> 20), maReplace);
}
static const char *check_props(const VSFrame *f, uint64_t sig) {
    const VSAPI *api = W->api;
    const VSMap *m = api->getFramePropertiesRO(f);
    int err = 0;
    if (api->mapGetInt(m, "sig", 0, &err) != (int64_t)(sig >> 1) || err)
        return "property sig";
    int n = 1 + (int)(sig & 3);
    if (api->mapNumElements(m, "arr") != n)
        return "length of property arr";
    for (int i = 0; i < n; i++)
        if (api->mapGetInt(m, "arr", i, &err) != (int64_t)(hmix(sig, (uint64_t)i + 7) >> 1) || err)
            return "property arr";
    char b[40];
    int l = snprintf(b, sizeof(b), "d%016lx", (unsigned long)hmix(sig, 99));
    const char *d = api->mapGetData(m, "dat", 0, &err);
    if (err || !d || api->mapGetDataSize(m, "dat", 0, &err) != l || memcmp(d, b, (size_t)l))
        return "property dat";
    if (api->mapGetFloat(m, "flt", 0, &err) != (double)(sig >> 20) || err)
        return "property flt";
    return nullptr;
}
// nullptr if the frame has the contents v
const char *check_frame(const VSFrame *f, const Val &v) {
    count(UC_SAMPLES);
    if (W->api->getFrameWidth(f, 0) != W->w || W->api->getFrameHeight(f, 0) != W->h)
        return "dimensions";
    static const char *const pn[3] = {"plane 0", "plane 1", "plane 2"};
    for (int p = 0; p < W->fmt.numPlanes; p++)
        if (!check_plane(f, p, v.plane[p]))
            return pn[p];
    return check_props(f, v.prop);
}

// ------------------------------------------------------------------ tokens: one per produced frame
static void VS_CC tok_call(const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}
static void look_around() { // what any thread may do at any time
    VSCoreInfo ci;
    W->api->getCoreInfo(W->core, &ci);
}
static void VS_CC tok_free(void *p) {
    Tok *t = (Tok *)p;
    if (W->carry && !W->shutting)
        look_around();
    if (!t->alive)
        oracle("P11", "function-freed-twice", "user data of a function object was freed twice (frame %d of node %d)", t->n, t->N->id);
    t->alive = false;
    t->N->live_tok--;
    W->live_toks--;
    if (t->node)
        W->api->freeNode(t->node);
}
// nodes that only exist as long as a frame does, in its properties or in the user data of a function there
struct Carried {
    int freed = 0;
};
static const VSFrame *VS_CC carried_get(int, int, void *, void **, VSFrameContext *ctx, VSCore *, const VSAPI *v) {
    v->setFilterError("not requested by anybody", ctx);
    return nullptr;
}
static void VS_CC carried_free(void *p, VSCore *, const VSAPI *) {
    Carried *c = (Carried *)p;
    if (c->freed++)
        oracle("P11", "freed-twice", "a node which a frame property refers to was freed twice");
    W->carried--;
    if (!W->shutting)
        look_around();
    rt_yield_point();
    delete c;
}
static VSNode *carried_node(uint64_t h) {
    VSVideoInfo vi = {W->fmt, 24, 1, W->w, W->h, 5};
    VSNode *x = nullptr;
    for (uint64_t k = 0; k <= h % 3; k++) {
        VSFilterDependency d = {x, rpGeneral};
        VSNode *y = W->api->createVideoFilter2("Carried", &vi, carried_get, carried_free, fmParallel, &d, x ? 1 : 0, new Carried, W->core);
        W->carried++;
        W->api->freeNode(x);
        x = y;
    }
    return x;
}
static Tok *set_tok(VSFrame *f, NodeInfo *N, int n) {
    Tok *t = new Tok{N, n, true, false};
    int64_t id = (int64_t)W->toks.size();
    W->toks.push_back(t);
    N->live_tok++;
    W->live_toks++;
    VSFunction *fn = W->api->createFunction(tok_call, t, tok_free, W->core);
    VSMap *m = W->api->getFramePropertiesRW(f);
    W->api->mapConsumeFunction(m, "tok", fn, maReplace);
    W->api->mapSetInt(m, "tid", id, maReplace);
    uint64_t h = hmix((uint64_t)id + 1, (uint64_t)(N->id * 1000 + n));
    if ((long)(h % 100) < W->carry) {
        count(UC_NODES);
        if (h >> 20 & 1)
            t->node = carried_node(h >> 32);
        else
            W->api->mapConsumeNode(m, "nod", carried_node(h >> 32), maReplace);
    }
    return t;
}
Tok *tok_of(const VSFrame *f) {
    int err = 0;
    int64_t id = W->api->mapGetInt(W->api->getFramePropertiesRO(f), "tid", 0, &err);
    if (err || id < 0 || (size_t)id >= W->toks.size())
        return nullptr;
    return W->toks[(size_t)id];
}

// ------------------------------------------------------------------ models
static int clampn(NodeInfo *d, int n) { return n < 0 ? 0 : n >= d->frames ? d->frames - 1 : n; }

static std::pair<int, int> bi_map(NodeInfo *N, int n) { // output frame -> dependency, frame
    const std::vector<long> &a = N->args;
    auto f0 = [&]() { return N->deps[0].first->frames; };
    if (N->bi == "trim")
        return {0, n + (int)a[0]};
    if (N->bi == "rev")
        return {0, f0() - 1 - n};
    if (N->bi == "loop")
        return {0, n % f0()};
    if (N->bi == "splice") {
        int i = 0;
        while (i + 1 < (int)N->deps.size() && n >= N->deps[(size_t)i].first->frames)
            n -= N->deps[(size_t)i++].first->frames;
        return {i, n};
    }
    if (N->bi == "inter") {
        int k = (int)N->deps.size();
        return {n % k, clampn(N->deps[(size_t)(n % k)].first, n / k)};
    }
    if (N->bi == "sel") { // cycle, offsets: source frame cycle*c+offset, if it exists
        int out = 0;
        for (int c = 0;; c++)
            for (size_t j = 1; j < a.size(); j++)
                if (c * a[0] + a[j] < f0()) {
                    if (out == n)
                        return {0, (int)(c * a[0] + a[j])};
                    out++;
                } else if (c * a[0] >= f0())
                    return {0, 0};
    }
    if (N->bi == "dup") { // every listed source frame appears once more
        int out = 0;
        for (int s = 0; s < f0(); s++)
            for (long k = std::count(a.begin(), a.end(), (long)s); k >= 0; k--)
                if (out++ == n)
                    return {0, s};
    }
    if (N->bi == "del") {
        int out = 0;
        for (int s = 0; s < f0(); s++)
            if (!std::count(a.begin(), a.end(), (long)s))
                if (out++ == n)
                    return {0, s};
    }
    if (N->bi == "freeze") {
        for (size_t j = 0; j + 2 < a.size(); j += 3)
            if (n >= std::min(a[j], a[j + 1]) && n <= std::max(a[j], a[j + 1]))
                return {0, (int)a[j + 2]};
        return {0, n};
    }
    return {0, n};
}
static int bi_frames(NodeInfo *N) {
    const std::vector<long> &a = N->args;
    int f0 = N->deps[0].first->frames;
    if (N->bi == "trim")
        return (int)a[1];
    if (N->bi == "loop")
        return f0 * (int)a[0];
    if (N->bi == "splice") {
        int t = 0;
        for (auto &d : N->deps)
            t += d.first->frames;
        return t;
    }
    if (N->bi == "inter") {
        int k = (int)N->deps.size(), m = 0;
        for (int i = 0; i < k; i++) // without extend the last frame is the last one that exists
            m = std::max(m, a[0] ? N->deps[(size_t)i].first->frames * k : (N->deps[(size_t)i].first->frames - 1) * k + i + 1);
        return m;
    }
    if (N->bi == "sel") {
        int out = 0;
        for (int c = 0; c * a[0] < f0; c++)
            for (size_t j = 1; j < a.size(); j++)
                out += c * a[0] + a[j] < f0;
        return out;
    }
    if (N->bi == "dup")
        return f0 + (int)a.size();
    if (N->bi == "del")
        return f0 - (int)a.size();
    return f0;
}
static int fe_choice(NodeInfo *N, int n) { // which clip FrameEval's function returns; deps: [clip][prop sources..] choices
    size_t first = N->bi == "fevalp" ? 2 : 1;
    size_t k = N->deps.size() - first;
    if (N->bi == "fevalp")
        return (int)(first + (hmix(N->salt, model(N->deps[1].first, clampn(N->deps[1].first, n)).prop) % k));
    return (int)(first + hmix(N->salt, (uint64_t)n) % k);
}
void inputs(NodeInfo *N, int n, std::vector<std::pair<NodeInfo *, int>> &r1, std::vector<std::pair<NodeInfo *, int>> &r2) {
    auto add = [&](NodeInfo *d, long m) { r1.push_back({d, (int)std::max(0L, m)}); };
    if (N->kind == "bi") {
        if (N->bi == "feval" || N->bi == "fevalp") {
            if (N->bi == "fevalp")
                r1.push_back({N->deps[1].first, n});
            r2.push_back({N->deps[(size_t)fe_choice(N, n)].first, n});
        } else if (N->bi == "modf") {
            for (size_t i = 1; i < N->deps.size(); i++)
                r1.push_back({N->deps[i].first, n});
        } else {
            auto p = bi_map(N, n);
            r1.push_back({N->deps[(size_t)p.first].first, p.second});
        }
        return;
    }
    if (N->deps.empty())
        return;
    NodeInfo *d0 = N->deps[0].first;
    const std::string &p = N->pat;
    if (p == "win") {
        for (int k = -1; k <= 1; k++)
            add(d0, std::min((long)n + k, (long)N->frames + 2));
    } else if (p == "hash") {
        int k = 1 + (int)(hmix(N->salt, (uint64_t)n) % 3);
        for (int i = 0; i < k; i++) {
            NodeInfo *d = N->deps[hmix(N->salt, (uint64_t)n * 8 + (uint64_t)i + 1) % N->deps.size()].first;
            add(d, (long)(hmix(N->salt, (uint64_t)n * 16 + (uint64_t)i) % (uint64_t)d->frames));
        }
    } else if (p == "wide") { // more requests than the engine keeps without allocating
        for (int i = 0; i < 14; i++) {
            NodeInfo *d = N->deps[(size_t)i % N->deps.size()].first;
            add(d, (n + i) % d->frames);
        }
    } else if (p == "dep") {
        add(d0, n);
        NodeInfo *d1 = N->deps[N->deps.size() > 1 ? 1 : 0].first;
        uint64_t s = model(d0, clampn(d0, n)).prop;
        r2.push_back({d1, (int)(hmix(s, N->salt) % (uint64_t)d1->frames)});
    } else if (p == "dup") {
        add(d0, n);
        add(d0, n);
    } else if (p == "past") {
        add(d0, (long)n + d0->frames);
        add(d0, n);
    } else if (p == "multi") {
        for (auto &d : N->deps)
            add(d.first, n);
    } else if (p == "rev") {
        add(d0, d0->frames - 1 - clampn(d0, n));
    } else
        add(d0, n);
}
static uint64_t mix_inputs(NodeInfo *N, int n, const std::vector<Val> &in, int part) {
    uint64_t x = hmix(N->salt, (uint64_t)n * 4 + (uint64_t)part);
    for (auto &v : in)
        x = hmix(x, hmix(v.prop, v.plane[part < 3 ? part : 0]));
    return x;
}
Val model(NodeInfo *N, int n) {
    auto it = W->memo.find({N->id, n});
    if (it != W->memo.end())
        return it->second;
    std::vector<std::pair<NodeInfo *, int>> r1, r2;
    inputs(N, n, r1, r2);
    std::vector<Val> in;
    for (auto &x : r1)
        in.push_back(model(x.first, clampn(x.first, x.second)));
    for (auto &x : r2)
        in.push_back(model(x.first, clampn(x.first, x.second)));
    Val v;
    if (N->kind == "bi" && N->bi != "modf")
        v = in.back();
    else if (N->out == "pass")
        v = in[0];
    else {
        bool copy = N->out == "mod" || N->out == "prop" || N->kind == "bi";
        for (int p = 0; p < W->fmt.numPlanes; p++)
            v.plane[p] = mix_inputs(N, n, in, p);
        v.prop = mix_inputs(N, n, in, 3);
        if (copy) {
            for (int p = N->out == "prop" ? 0 : 1; p < W->fmt.numPlanes; p++)
                v.plane[p] = in[0].plane[p];
        } else if (N->out == "share") {
            // plane 0 new, the others taken from the last input; with three equal planes they are swapped
            const Val &s = in.back();
            for (int p = 1; p < W->fmt.numPlanes; p++)
                v.plane[p] = s.plane[W->fmt.subSamplingW ? 3 - p : (p + 1) % 3];
        }
    }
    W->memo[{N->id, n}] = v;
    return v;
}
void closure(NodeInfo *N, int n, std::set<std::pair<int, int>> &out) {
    if (!out.insert({N->id, n}).second)
        return;
    if (N->kind == "lin" && N->api3) // frames passed over are made first
        for (int i = 0; i < n; i++)
            out.insert({N->id, i});
    std::vector<std::pair<NodeInfo *, int>> r1, r2;
    inputs(N, n, r1, r2);
    for (auto &x : r1)
        closure(x.first, clampn(x.first, x.second), out);
    for (auto &x : r2)
        closure(x.first, clampn(x.first, x.second), out);
}

// ------------------------------------------------------------------ filters
static uint64_t fd_cookie(const Prod *p, int k) { return hmix(p->cookie, (uint64_t)k) | 1; }
static void *const FINISHED = (void *)(uintptr_t)0xf1415ed0f1415ed0ull;

struct Enter { // the span during which a filter call is inside
    NodeInfo *N;
    bool produce;
    Enter(NodeInfo *N, int n, int ar, bool produce, bool more = false) : N(N), produce(produce) {
        count(UC_FILTER_CALLS);
        rt_note("gf %d %d %d", N->id, n, ar);
        if (N->freed)
            oracle("P11", "call-after-free", "the frame function of node %d was called after the filter had been freed", N->id);
        N->inside++;
        N->max_inside = std::max(N->max_inside, N->inside);
        if (N->inside > 1)
            count(UC_OVERLAP);
        if (produce)
            N->inside_produce++;
        static const char *const mn[] = {"fmParallel", "fmParallelRequests", "fmUnordered", "fmFrameState"};
        if (N->mode >= 2 && N->inside > 1)
            oracle("P03", "reentered", "%d threads are inside node %d, which is %s", N->inside, N->id, mn[N->mode]);
        if (N->mode == 1 && N->inside_produce > 1)
            oracle("P03", "produce-reentered", "%d threads are in the produce step of node %d, which is fmParallelRequests", N->inside_produce, N->id);
        W->inside++;
        if (W->inside > W->limit_hi && !W->changing && !more) { // more: still the same call of the engine
            auto &g = W->grace[rt_tid()];
            if (g.first != W->limit_gen)
                g = {W->limit_gen, 0};
            if (++g.second > 1 || W->limit_gen == 0)
                oracle("P06", "over-limit", "%d filter calls are running with a thread count of %d (call of node %d frame %d)", W->inside, W->limit_hi, N->id, n);
        }
    }
    ~Enter() {
        W->inside--;
        N->inside--;
        if (produce)
            N->inside_produce--;
    }
};
static void work(NodeInfo *N) {
    for (int i = 0; i < N->cost; i++)
        rt_yield_point();
    if (N->sleepus) {
        count(UC_SLOW_CALL);
        rt_sleep_ns((uint64_t)N->sleepus * 1000);
    }
}
static int fail_phase(NodeInfo *N, int n, int attempt) {
    for (auto &f : N->fails)
        if (f.n == n && (f.attempt == attempt || f.attempt == 0))
            return f.phase;
    if (N->failp && hmix(hmix(N->salt, 0xfa11), (uint64_t)n * 1000 + (uint64_t)attempt) % 1000 < (uint64_t)N->failp)
        return 1 + (int)(hmix(N->salt, (uint64_t)n * 77 + (uint64_t)attempt) & 1);
    return 0;
}
std::string fail_message(NodeInfo *N, int n, int attempt) {
    char b[64];
    snprintf(b, sizeof(b), "E %d.%d.%d", N->id, n, attempt);
    std::string s = b;
    if (hmix(N->salt, (uint64_t)n) & 4)
        s += " the filter could not produce the frame, with a message long enough to need memory of its own";
    return s;
}
static void finish(Prod *p, void **fd) {
    W->live.erase(p);
    W->by_ctx.erase(p->ctx);
    if (p->N->mode == 3 && p->N->fs_owner == p->ctx)
        p->N->fs_owner = nullptr;
    fd[0] = FINISHED;
    delete p;
}
static const VSFrame *fail(Prod *p, void **fd) {
    count(UC_FAIL_INJECTED);
    std::string m = fail_message(p->N, p->n, p->attempt);
    W->failures[m] = {W->epoch, ++W->seq};
    W->api->setFilterError(m.c_str(), p->ctx);
    finish(p, fd);
    return nullptr;
}
void linear_request(NodeInfo *d, int m, bool start, uint64_t seq) {
    if (d->kind != "lin")
        return;
    m = clampn(d, m);
    if (start) {
        d->ops++;
        d->pending[m].insert(seq);
    } else {
        auto &s = d->pending[m];
        auto it = s.find(seq);
        if (it != s.end())
            s.erase(it);
    }
}
// some functions return their argument when there is nothing to do, so two nodes of the scenario may be one
static bool same_frame(const std::pair<NodeInfo *, int> &a, const std::pair<NodeInfo *, int> &b) { return a.first->raw == b.first->raw && clampn(a.first, a.second) == clampn(b.first, b.second); }
static void request(Prod *p, const std::vector<std::pair<NodeInfo *, int>> &r) {
    p->req = r;
    for (auto &x : r) {
        linear_request(x.first, x.second, true, p->start);
        p->all.push_back(x);
        W->api->requestFrameFilter(x.second, x.first->raw, p->ctx);
    }
    p->round++;
}
static VSFrame *new_frame(const VSFrame *props) { return W->api->newVideoFrame(&W->fmt, W->w, W->h, props, W->core); }

// builds the frame from the inputs
static const VSFrame *build(NodeInfo *N, int n, std::vector<const VSFrame *> &in) {
    const VSAPI *api = W->api;
    Val v = model(N, n);
    VSFrame *f;
    if (N->trans) { // temporary memory, as large filters use
        VSFrame *t = api->newVideoFrame(&W->fmt, W->w, W->h, nullptr, W->core);
        fill_plane(t, 0, hmix(N->salt, 3));
        rt_yield_point();
        if (!check_plane(t, 0, hmix(N->salt, 3)))
            oracle("P08", "buffer-shared", "a frame buffer changed while only its owner knew it");
        api->freeFrame(t);
    }
    if (!in.empty() && N->out == "pass")
        return api->addFrameRef(in[0]);
    if (!in.empty() && (N->out == "mod" || N->out == "prop")) {
        f = api->copyFrame(in[0], W->core);
        if (N->out == "mod")
            fill_plane(f, 0, v.plane[0]);
    } else if (!in.empty() && N->out == "share" && W->fmt.numPlanes == 3) {
        const VSFrame *src[3] = {nullptr, in.back(), in.back()};
        int pl[3] = {0, 0, 0};
        for (int p = 1; p < 3; p++)
            pl[p] = W->fmt.subSamplingW ? 3 - p : (p + 1) % 3;
        f = api->newVideoFrame2(&W->fmt, W->w, W->h, src, pl, in[0], W->core);
        fill_plane(f, 0, v.plane[0]);
    } else {
        f = new_frame(in.empty() ? nullptr : in[0]);
        for (int p = 0; p < W->fmt.numPlanes; p++)
            fill_plane(f, p, v.plane[p]);
    }
    set_props(f, v.prop);
    set_tok(f, N, n);
    return f;
}

static Prod *begin(NodeInfo *N, int n, void **fd, VSFrameContext *ctx) {
    for (int k = 0; k < 4; k++)
        if (fd[k])
            oracle("P04", fd[k] == FINISHED ? "call-after-finish" : "stale-frame-data", "node %d frame %d: initial activation with per-frame data left over", N->id, n);
    if (W->by_ctx.count(ctx))
        oracle("P04", "initial-twice", "node %d frame %d: second initial activation for one production", N->id, n);
    Prod *p = new Prod;
    p->N = N;
    p->n = n;
    p->ctx = ctx;
    p->attempt = ++N->attempts[n];
    p->round = 0;
    p->failphase = fail_phase(N, n, p->attempt);
    p->start = ++W->seq;
    p->cookie = hmix(p->start, (uint64_t)N->id);
    W->live.insert(p);
    W->by_ctx[ctx] = p;
    fd[0] = p;
    for (int k = 1; k < 4; k++)
        fd[k] = (void *)fd_cookie(p, k);
    if (N->mode == 3) {
        if (N->fs_owner)
            oracle("P03", "frame-state-overlap", "node %d keeps per-frame state and starts frame %d before the previous frame was finished", N->id, n);
        N->fs_owner = ctx;
    }
    return p;
}
static Prod *resume(NodeInfo *N, int n, int ar, void **fd, VSFrameContext *ctx) {
    if (fd[0] == FINISHED)
        oracle("P04", "call-after-finish", "node %d frame %d: activated with reason %d after the production had ended", N->id, n, ar);
    Prod *p = (Prod *)fd[0];
    if (!W->live.count(p)) {
        oracle("P04", "unknown-production", "node %d frame %d: activation with reason %d without an initial one, or with per-frame data changed", N->id, n, ar);
        return nullptr;
    }
    if (p->N != N || p->n != n || p->ctx != ctx)
        oracle("P04", "wrong-frame-data", "node %d frame %d: got the per-frame data of node %d frame %d", N->id, n, p->N->id, p->n);
    for (int k = 1; k < 4; k++)
        if (fd[k] != (void *)fd_cookie(p, k))
            oracle("P04", "frame-data-changed", "node %d frame %d: per-frame pointer %d changed between activations", N->id, n, k);
    if (N->mode == 3 && N->fs_owner != ctx)
        oracle("P03", "frame-state-overlap", "node %d keeps per-frame state and continues frame %d while another frame is in progress", N->id, n);
    for (auto &x : p->req)
        linear_request(x.first, x.second, false, p->start);
    return p;
}

const VSFrame *VS_CC sim_get_frame(int n, int ar, void *inst, void **fd, VSFrameContext *ctx, VSCore *, const VSAPI *api) {
    NodeInfo *N = (NodeInfo *)inst;
    bool first = ar == arInitial || (ar == arError && !fd[0]);
    Enter guard(N, n, ar, N->mode == 1 && !first);
    if (n < 0 || n >= N->frames) {
        if (ar != arError || fd[0])
            oracle("P01", "invalid-frame-produced", "node %d was asked to produce frame %d of %d", N->id, n, N->frames);
        return nullptr;
    }
    if (ar == arInitial) {
        Prod *p = begin(N, n, fd, ctx);
        if (N->kind == "lin") {
            auto it = N->aside_at.find(n);
            if (it != N->aside_at.end()) {
                bool ambiguous = false;
                for (uint64_t s : N->pending[n])
                    ambiguous |= s < N->aside_seq[n];
                if (!ambiguous && !W->memchanged && N->ops - it->second < (uint64_t)N->look)
                    oracle("P16", "cached-frame-rerun", "linear node %d was run for frame %d, which it had handed to the cache %lu insertions and requests ago (look-ahead %d)", N->id, n, (unsigned long)(N->ops - it->second), N->look);
                N->aside_at.erase(it);
            }
        }
        work(N);
        if (p->failphase == 1 || (p->failphase && N->deps.empty()))
            return fail(p, fd);
        if (N->deps.empty()) {
            std::vector<const VSFrame *> none;
            if (N->kind == "lin") {
                if (N->last < n && n - N->last < N->look && N->last >= 0) {
                    for (int m = N->last + 1; m < n; m++) {
                        const VSFrame *x = build(N, m, none);
                        uint64_t forgets = W->forgets; // a clear may come right after the insertion
                        api->cacheFrame(x, m, ctx);
                        api->freeFrame(x);
                        N->ops++;
                        if (W->forgets == forgets) {
                            N->aside_at[m] = N->ops;
                            N->aside_seq[m] = ++W->seq;
                        }
                        count(UC_LINEAR_SKIP);
                        rt_yield_point();
                    }
                }
                N->last = n;
                N->ops++;
            }
            const VSFrame *f = build(N, n, none);
            finish(p, fd);
            return f;
        }
        std::vector<std::pair<NodeInfo *, int>> r1, r2;
        inputs(N, n, r1, r2);
        request(p, r1);
        return nullptr;
    }
    Prod *p = resume(N, n, ar, fd, ctx);
    if (!p)
        return nullptr;
    if (ar == arError) {
        count(UC_AR_ERROR);
        bool missing = false;
        for (auto &x : p->req) {
            const VSFrame *f = api->getFrameFilter(x.second, x.first->raw, ctx);
            // a frame of an earlier round is still available when it was requested again and failed this time
            auto again = [&](const std::pair<NodeInfo *, int> &y) { return same_frame(x, y); };
            if (!f || std::count_if(p->all.begin(), p->all.end(), again) > std::count_if(p->req.begin(), p->req.end(), again))
                missing = true;
            api->freeFrame(f);
        }
        if (!missing)
            oracle("P04", "spurious-error", "node %d frame %d: error activation although every requested frame is available", N->id, n);
        finish(p, fd);
        return nullptr;
    }
    if (ar != arAllFramesReady)
        oracle("P04", "unknown-reason", "node %d frame %d: activation reason %d", N->id, n, ar);
    if (p->req.empty())
        oracle("P04", "no-requests", "node %d frame %d: told that all frames are ready without having requested any", N->id, n);
    // every requested frame must be there and be the right one, and frames of earlier rounds must have stayed
    std::vector<const VSFrame *> in;
    bool bad = false;
    for (auto &x : p->all) {
        const VSFrame *f = api->getFrameFilter(x.second, x.first->raw, ctx);
        if (!f) {
            oracle("P04", "requested-frame-missing", "node %d frame %d: frame %d of node %d was requested but cannot be fetched", N->id, n, x.second, x.first->id);
            oracle("P05", "error-swallowed", "node %d frame %d was told that all frames are ready although frame %d of node %d is missing", N->id, n, x.second, x.first->id);
            bad = true;
            continue;
        }
        const char *e = check_frame(f, model(x.first, clampn(x.first, x.second)));
        if (e)
            oracle("P02", "wrong-input", "node %d frame %d received frame %d of node %d with a wrong %s", N->id, n, x.second, x.first->id, e);
        in.push_back(f);
    }
    work(N);
    auto drop = [&]() {
        for (auto f : in)
            api->freeFrame(f);
    };
    if (bad || p->failphase == 2) {
        drop();
        return fail(p, fd);
    }
    if (N->rel && N->pat != "dep" && !p->all.empty()) { // give back the first frame early and look at the others again
        auto &x = p->all[0];
        api->releaseFrameEarly(x.first->raw, clampn(x.first, x.second), ctx);
        for (size_t i = 1; i < p->all.size(); i++) {
            auto &y = p->all[i];
            if (same_frame(x, y))
                continue;
            const VSFrame *f = api->getFrameFilter(y.second, y.first->raw, ctx);
            if (!f)
                oracle("P04", "lost-after-release", "node %d frame %d: releasing frame %d of node %d also took away frame %d of node %d", N->id, n, x.second, x.first->id, y.second, y.first->id);
            api->freeFrame(f);
        }
    }
    std::vector<std::pair<NodeInfo *, int>> r1, r2;
    inputs(N, n, r1, r2);
    if (!r2.empty() && p->round == 1) {
        drop();
        request(p, r2);
        return nullptr;
    }
    const VSFrame *f = build(N, n, in);
    rt_yield_point();
    for (size_t i = 0; i < in.size(); i++) {
        auto &x = p->all[i];
        const char *e = check_frame(in[i], model(x.first, clampn(x.first, x.second)));
        if (e)
            oracle("P10", "input-changed", "%s of frame %d of node %d changed while node %d was writing to its copy", e, x.second, x.first->id, N->id);
    }
    drop();
    finish(p, fd);
    return f;
}
// the same filter written for API 3, through the compatibility layer
static const VSFrame *VS_CC sim_get_frame3(int n, int ar, void **inst, void **fd, VSFrameContext *ctx, VSCore *core, const vs3::VSAPI3 *api3) {
    if (api3 != (const vs3::VSAPI3 *)getVapourSynthAPI(0x30006))
        oracle("P01", "wrong-api", "a filter made for API 3 was called with another function table");
    if (ar == vs3::arFrameReady || ar > vs3::arAllFramesReady)
        oracle("P04", "wrong-reason", "node %d frame %d: a filter made for API 3 was called with activation reason %d", ((NodeInfo *)*inst)->id, n, ar);
    return sim_get_frame(n, ar == vs3::arAllFramesReady ? (int)arAllFramesReady : ar == vs3::arError ? (int)arError : (int)arInitial, *inst, fd, ctx, core, W->api);
}
// A linear source written for API 3: the compatibility layer calls it once for every frame it has to pass over and hands
// those frames to the cache itself.
static const VSFrame *VS_CC sim_linear3(int n, int ar, void **inst, void **fd, VSFrameContext *ctx, VSCore *, const vs3::VSAPI3 *) {
    NodeInfo *N = (NodeInfo *)*inst;
    Enter guard(N, n, ar, false, fd[0] == N);
    if (ar != vs3::arInitial || n < 0 || n >= N->frames) {
        oracle("P01", "invalid-frame-produced", "linear node %d was called with reason %d for frame %d of %d", N->id, ar, n, N->frames);
        return nullptr;
    }
    if (fd[0] == N) { // the frame before, made for the same request, is in the cache now
        if (n != N->v3prev + 1)
            oracle("P16", "fill-order", "linear node %d was called for frame %d right after frame %d while passing over frames", N->id, n, N->v3prev);
        if (W->forgets == N->v3forgets) {
            N->aside_at[N->v3prev] = N->ops;
            N->aside_seq[N->v3prev] = ++W->seq;
        }
        count(UC_LINEAR_SKIP);
    } else if (fd[0]) {
        oracle("P04", "stale-frame-data", "linear node %d frame %d: first call with per-frame data left over", N->id, n);
    }
    if (N->last >= 0 && n > N->last + 1 && n - N->last <= 6)
        oracle("P16", "not-sequential", "linear node %d was called for frame %d after frame %d", N->id, n, N->last);
    auto it = N->aside_at.find(n);
    if (it != N->aside_at.end()) {
        bool ambiguous = false;
        for (uint64_t s : N->pending[n])
            ambiguous |= s < N->aside_seq[n];
        ambiguous |= fd[0] || n > N->last; // may only be passed over again
        if (!ambiguous && !W->memchanged && N->ops - it->second < (uint64_t)N->look)
            oracle("P16", "cached-frame-rerun", "linear node %d was run for frame %d, which had been put into the cache %lu insertions and requests ago", N->id, n, (unsigned long)(N->ops - it->second));
        N->aside_at.erase(it);
    }
    fd[0] = N;
    work(N);
    int attempt = ++N->attempts[n];
    if (fail_phase(N, n, attempt)) {
        count(UC_FAIL_INJECTED);
        std::string m = fail_message(N, n, attempt);
        W->failures[m] = {W->epoch, ++W->seq};
        W->api->setFilterError(m.c_str(), ctx);
        N->aside_at.clear(); // it starts over from the last request that succeeded
        N->last = -1;
        return nullptr;
    }
    std::vector<const VSFrame *> none;
    const VSFrame *f = build(N, n, none);
    N->last = N->v3prev = n;
    N->v3forgets = W->forgets;
    N->ops++;
    return f;
}
static void VS_CC init3(VSMap *, VSMap *, void **inst, VSNode *node, VSCore *core, const vs3::VSAPI3 *api3) {
    NodeInfo *N = (NodeInfo *)*inst;
    int cf = W->fmt.colorFamily == cfGray ? vs3::cmGray : W->fmt.colorFamily == cfRGB ? vs3::cmRGB : vs3::cmYUV;
    vs3::VSVideoInfo vi = {api3->registerFormat(cf, W->fmt.sampleType, W->fmt.bitsPerSample, W->fmt.subSamplingW, W->fmt.subSamplingH, core), 24, 1, W->w, W->h, N->frames, 0};
    api3->setVideoInfo(&vi, 1, node);
}
void VS_CC sim_free(void *inst, VSCore *, const VSAPI *api) {
    NodeInfo *N = (NodeInfo *)inst;
    rt_note("free %d", N->id);
    if (N->freed++)
        oracle("P11", "filter-freed-twice", "node %d was freed %d times", N->id, N->freed);
    if (N->inside)
        oracle("P11", "freed-while-running", "node %d was freed while %d of its frame functions were running", N->id, N->inside);
    for (Prod *p : W->live)
        if (p->N == N)
            oracle("P11", "freed-in-production", "node %d was freed while frame %d was being produced", N->id, p->n);
    for (VSNode *x : N->own)
        api->freeNode(x);
    N->own.clear();
}

// ------------------------------------------------------------------ functions of FrameEval and ModifyFrame
static void fe_enter(NodeInfo *N, int n) {
    rt_note("fe %d %d", N->id, n);
    N->evals_inside++;
    if (N->freed)
        oracle("P11", "function-after-free", "the function of node %d was called after it had been freed", N->id);
}
static void VS_CC fe_call(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *api) {
    NodeInfo *N = (NodeInfo *)ud;
    int err = 0;
    int n = (int)api->mapGetInt(in, "n", 0, &err);
    fe_enter(N, n);
    int attempt = ++N->attempts[n];
    work(N);
    if (n < 0 || n >= N->frames)
        oracle("P18", "bad-number", "the function of node %d was called for frame %d of %d", N->id, n, N->frames);
    bool mod = N->bi == "modf";
    size_t nf = mod ? N->deps.size() - 1 : N->bi == "fevalp" ? 1 : 0;
    std::vector<const VSFrame *> f;
    if (api->mapNumElements(in, "f") != (nf ? (int)nf : -1))
        oracle("P18", "bad-arguments", "the function of node %d got %d frames instead of %zu", N->id, api->mapNumElements(in, "f"), nf);
    for (size_t i = 0; i < nf; i++) {
        const VSFrame *x = api->mapGetFrame(in, "f", (int)i, &err);
        NodeInfo *d = N->deps[i + 1].first;
        if (!x) {
            oracle("P18", "bad-arguments", "the function of node %d got no frame %zu", N->id, i);
            continue;
        }
        const char *e = check_frame(x, model(d, clampn(d, n)));
        if (e)
            oracle("P18", "wrong-argument", "the function of node %d was given a frame with wrong %s as frame %d of node %d", N->id, e, n, d->id);
        f.push_back(x);
    }
    if (fail_phase(N, n, attempt)) {
        count(UC_FAIL_INJECTED);
        std::string m = fail_message(N, n, attempt);
        W->failures[m] = {W->epoch, ++W->seq};
        api->mapSetError(out, m.c_str());
    } else if (mod) {
        Val v = model(N, n);
        VSFrame *x = api->copyFrame(f[0], W->core);
        fill_plane(x, 0, v.plane[0]);
        set_props(x, v.prop);
        set_tok(x, N, n);
        api->mapConsumeFrame(out, "val", x, maAppend);
    } else {
        api->mapSetNode(out, "val", N->deps[(size_t)fe_choice(N, n)].first->raw, maAppend);
    }
    for (auto x : f)
        api->freeFrame(x);
    if (--N->evals_inside)
        oracle("P18", "function-reentered", "the function of node %d was called by two threads at once", N->id);
}
static void VS_CC fe_free(void *ud) {
    NodeInfo *N = (NodeInfo *)ud;
    rt_note("free %d", N->id);
    if (N->freed++)
        oracle("P11", "function-freed-twice", "the function of node %d was freed %d times", N->id, N->freed);
    for (VSNode *x : N->own)
        W->api->freeNode(x);
    N->own.clear();
}

// ------------------------------------------------------------------ creation
static std::vector<long> numbers(const char *s) {
    std::vector<long> r;
    while (s && *s) {
        char *e;
        long v = strtol(s, &e, 10);
        if (e == s)
            break;
        r.push_back(v);
        s = *e ? e + 1 : e;
    }
    return r;
}
// parses "ID key=value ..."; returns nullptr if a dependency is missing
NodeInfo *parse_node(const std::string &line) {
    NodeInfo *N = new NodeInfo;
    const char *p = line.c_str();
    N->id = (int)strtol(p, (char **)&p, 10);
    bool ok = true;
    std::string depstr;
    while (*p) {
        while (*p == ' ')
            p++;
        const char *eq = strchr(p, '=');
        if (!eq)
            break;
        const char *e = eq;
        while (*e && *e != ' ')
            e++;
        std::string k(p, eq), v(eq + 1, e);
        p = e;
        if (k == "kind") N->kind = v;
        else if (k == "pat") N->pat = v;
        else if (k == "out") N->out = v;
        else if (k == "bi") N->bi = v;
        else if (k == "args") N->args = numbers(v.c_str());
        else if (k == "mode") N->mode = atoi(v.c_str());
        else if (k == "frames") N->frames = atoi(v.c_str());
        else if (k == "cost") N->cost = atoi(v.c_str());
        else if (k == "sleep") N->sleepus = atol(v.c_str());
        else if (k == "failp") N->failp = atoi(v.c_str());
        else if (k == "trans") N->trans = atol(v.c_str());
        else if (k == "api") N->api3 = atoi(v.c_str()) == 3;
        else if (k == "rel") N->rel = atoi(v.c_str()) != 0;
        else if (k == "salt") N->salt = strtoull(v.c_str(), nullptr, 10);
        else if (k == "deps") depstr = v;
        else if (k == "fail") {
            auto x = numbers(v.c_str());
            for (size_t i = 0; i + 2 < x.size(); i += 3)
                N->fails.push_back({(int)x[i], (int)x[i + 1], (int)x[i + 2]});
        }
    }
    auto x = numbers(depstr.c_str());
    for (size_t i = 0; i + 1 < x.size(); i += 2) {
        auto it = W->nodes.find((int)x[i]);
        if (it == W->nodes.end())
            ok = false;
        else
            N->deps.push_back({it->second, (int)x[i + 1]});
    }
    if (W->nodes.count(N->id) || (N->kind != "src" && N->kind != "lin" && N->deps.empty()))
        ok = false;
    if (N->out == "share" && W->fmt.numPlanes != 3)
        N->out = "new";
    if (!ok) {
        delete N;
        return nullptr;
    }
    return N;
}
static VSNode *take(const VSMap *out, NodeInfo *N) {
    const VSAPI *api = W->api;
    int err = 0;
    if (api->mapGetError(out)) {
        rt_note("create failed: %s", api->mapGetError(out));
        return nullptr;
    }
    return api->mapGetNode(out, "clip", 0, &err);
}
// refs: references to the dependencies, consumed
bool create_node(NodeInfo *N, std::vector<VSNode *> refs) {
    const VSAPI *api = W->api;
    count(UC_NODES);
    VSVideoInfo vi = {W->fmt, 24, 1, W->w, W->h, N->frames};
    std::vector<VSFilterDependency> deps;
    for (size_t i = 0; i < refs.size(); i++)
        deps.push_back({refs[i], N->deps[i].second});
    char name[24];
    snprintf(name, sizeof(name), "N%d", N->id);
    if (N->kind == "src" || N->kind == "flt" || N->kind == "lin") {
        N->observed_free = true;
        N->own = refs;
        if (N->api3) {
            const vs3::VSAPI3 *api3 = (const vs3::VSAPI3 *)getVapourSynthAPI(0x30006);
            static const int modes[] = {vs3::fmParallel, vs3::fmParallelRequests, vs3::fmUnordered, vs3::fmFrameState};
            VSMap *in = api->createMap(), *out = api->createMap();
            bool nocache = !refs.empty();
            for (size_t i = 0; i < refs.size(); i++) {
                api->mapSetNode(in, i & 1 ? "others" : "clip", refs[i], maAppend);
                nocache &= N->deps[i].second == rpNoFrameReuse || N->deps[i].second == rpStrictSpatial;
            }
            api3->createFilter(in, out, name, init3, N->kind == "lin" ? sim_linear3 : sim_get_frame3, sim_free, modes[N->mode], N->kind == "lin" ? vs3::nfMakeLinear : nocache ? vs3::nfNoCache : 0, N, W->core);
            N->node = take(out, N);
            api->freeMap(in);
            api->freeMap(out);
            count(UC_API3_FILTER);
        } else if (N->id & 1) {
            N->node = api->createVideoFilter2(name, &vi, sim_get_frame, sim_free, N->mode, deps.data(), (int)deps.size(), N, W->core);
        } else {
            VSMap *out = api->createMap();
            api->createVideoFilter(out, name, &vi, sim_get_frame, sim_free, N->mode, deps.data(), (int)deps.size(), N, W->core);
            N->node = take(out, N);
            api->freeMap(out);
        }
        N->raw = N->node;
        if (N->kind == "lin" && N->api3)
            N->look = 10; // not told to the filter; the compatibility layer keeps at least twice that many frames
        else if (N->kind == "lin" && N->node) {
            N->look = api->setLinearFilter(N->node);
            if (N->look < 1)
                oracle("P16", "no-lookahead", "setLinearFilter returned %d", N->look);
        }
    } else {
        VSPlugin *std_ = api->getPluginByID("com.vapoursynth.std", W->core);
        VSMap *in = api->createMap(), *out = nullptr;
        const char *fn = nullptr;
        auto clip = [&](const char *key, size_t i) { api->mapSetNode(in, key, refs[i], maAppend); };
        auto ints = [&](const char *key, size_t from) {
            for (size_t i = from; i < N->args.size(); i++)
                api->mapSetInt(in, key, N->args[i], maAppend);
        };
        if (N->bi == "trim") {
            fn = "Trim";
            clip("clip", 0);
            if (N->args[0] || (N->salt & 1))
                api->mapSetInt(in, "first", N->args[0], maReplace);
            if (N->salt & 2)
                api->mapSetInt(in, "length", N->args[1], maReplace);
            else
                api->mapSetInt(in, "last", N->args[0] + N->args[1] - 1, maReplace);
        } else if (N->bi == "rev") {
            fn = "Reverse";
            clip("clip", 0);
        } else if (N->bi == "loop") {
            fn = "Loop";
            clip("clip", 0);
            api->mapSetInt(in, "times", N->args[0], maReplace);
        } else if (N->bi == "splice" || N->bi == "inter") {
            fn = N->bi == "splice" ? "Splice" : "Interleave";
            for (size_t i = 0; i < refs.size(); i++)
                clip("clips", i);
            if (N->bi == "inter") {
                api->mapSetInt(in, "extend", N->args[0], maReplace);
                if (N->salt & 1)
                    api->mapSetInt(in, "modify_duration", 0, maReplace);
            }
        } else if (N->bi == "sel") {
            fn = "SelectEvery";
            clip("clip", 0);
            api->mapSetInt(in, "cycle", N->args[0], maReplace);
            ints("offsets", 1);
            if (N->salt & 1)
                api->mapSetInt(in, "modify_duration", 0, maReplace);
        } else if (N->bi == "dup" || N->bi == "del") {
            fn = N->bi == "dup" ? "DuplicateFrames" : "DeleteFrames";
            clip("clip", 0);
            ints("frames", 0);
        } else if (N->bi == "freeze") {
            fn = "FreezeFrames";
            clip("clip", 0);
            for (size_t i = 0; i + 2 < N->args.size(); i += 3) {
                api->mapSetInt(in, "first", N->args[i], maAppend);
                api->mapSetInt(in, "last", N->args[i + 1], maAppend);
                api->mapSetInt(in, "replacement", N->args[i + 2], maAppend);
            }
        } else { // feval, fevalp, modf
            fn = N->bi == "modf" ? "ModifyFrame" : "FrameEval";
            clip("clip", 0);
            for (VSNode *r : refs)
                N->own.push_back(api->addNodeRef(r));
            N->observed_free = true;
            VSFunction *f = api->createFunction(fe_call, N, fe_free, W->core);
            if (N->bi == "modf")
                for (size_t i = 1; i < refs.size(); i++)
                    clip("clips", i);
            if (N->bi == "fevalp")
                clip("prop_src", 1);
            if (N->bi != "modf" && (N->salt & 1))
                for (size_t i = N->bi == "fevalp" ? 2 : 1; i < refs.size(); i++)
                    clip("clip_src", i);
            api->mapConsumeFunction(in, N->bi == "modf" ? "selector" : "eval", f, maReplace);
        }
        out = api->invoke(std_, fn, in);
        api->freeMap(in);
        N->node = take(out, N);
        api->freeMap(out);
        for (VSNode *r : refs)
            api->freeNode(r);
        if (N->node)
            N->frames = bi_frames(N);
        N->raw = N->node;
        for (auto &d : N->deps)
            if (N->node && d.first->raw == N->node) // nothing to do: the argument itself was returned, so both share one cache
                N->cknown = d.first->cknown = false;
        if (N->node && api->getVideoInfo(N->node)->numFrames != N->frames)
            oracle("P18", "length", "%s has %d frames instead of %d", fn, api->getVideoInfo(N->node)->numFrames, N->frames);
    }
    N->created = N->node != nullptr;
    return N->created;
}
