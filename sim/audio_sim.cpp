// Audio clip editing: trimming, splicing, looping, reversing and channel shuffling on simulated sources that fail, wait and
// are shared, compared sample by sample with the documented mapping. Decides the audio part of P18.
#include "VapourSynth4.h"
#include "sim.h"
#include <algorithm>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

namespace {
const int64_t FS = VS_AUDIO_FRAME_SAMPLES;
struct ANode {
    int id = 0;
    std::string kind;
    std::vector<ANode *> deps;
    std::vector<long> args;             // trim: first length; shuffle: input channel (index) per output channel
    int64_t samples = 1;
    int ch = 1;
    uint64_t layout = 1, salt = 0;
    int mode = 0, cost = 0;
    std::map<int, int> fails;           // frame -> number of attempts that fail, -1: all
    std::map<int, int> attempts;
    VSNode *node = nullptr;
    int64_t frames() const { return (samples + FS - 1) / FS; }
};
struct AReq {
    ANode *N;
    int n;
    int answers = 0;
};
struct AWorld {
    const VSAPI *api;
    VSCore *core;
    VSAudioFormat fmt;
    std::map<int, ANode *> nodes;
    pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
    long outstanding = 0;
    int bytes = 2;
};
AWorld *A;
#define API A->api
struct AClient {
    int id;
    std::vector<std::string> ops;
};

uint32_t sample(const ANode *src, int ch, int64_t i) { return (uint32_t)hmix(src->salt * 64 + (uint64_t)ch, (uint64_t)i) | 1; }
// where sample i of channel ch of a clip comes from; null: silence
const ANode *resolve(const ANode *N, int &ch, int64_t &i) {
    while (N->kind != "src") {
        if (N->kind == "trim") {
            i += N->args[0];
            N = N->deps[0];
        } else if (N->kind == "rev") {
            i = N->samples - 1 - i;
            N = N->deps[0];
        } else if (N->kind == "loop") {
            N = N->deps[0];
            i %= N->samples;
        } else if (N->kind == "splice") {
            size_t k = 0;
            while (i >= N->deps[k]->samples)
                i -= N->deps[k++]->samples;
            N = N->deps[k];
        } else { // shuffle: channels of the result, lowest first, and what they are taken from
            const ANode *d = N->deps[std::min((size_t)N->args[(size_t)ch * 2], N->deps.size() - 1)];
            ch = (int)N->args[(size_t)ch * 2 + 1];
            N = d;
            if (i >= N->samples)
                return nullptr;
        }
    }
    return N;
}
typedef std::set<std::pair<const ANode *, int>> Need;
// the source frames frame n of a clip is made of
void need(const ANode *N, int64_t n, Need &out, int depth = 0) {
    if (N->kind == "src") {
        out.insert({N, (int)n});
        return;
    }
    if (N->kind == "shuf") {
        for (auto *d : N->deps)
            need(d, std::min(n, d->frames() - 1), out, depth + 1);
        return;
    }
    int64_t b = n * FS, e = std::min(b + FS, N->samples);
    auto span = [&](const ANode *d, int64_t x, int64_t y) { // samples x..y-1
        for (int64_t f = x / FS; f <= (y - 1) / FS; f++)
            need(d, f, out, depth + 1);
    };
    if (N->kind == "trim")
        span(N->deps[0], b + N->args[0], e + N->args[0]);
    else if (N->kind == "rev")
        span(N->deps[0], N->samples - e, N->samples - b);
    else if (N->kind == "loop") {
        int64_t s = N->deps[0]->samples;
        while (b < e) {
            int64_t o = b % s, l = std::min(e - b, s - o);
            span(N->deps[0], o, o + l);
            b += l;
        }
    } else {
        for (auto *d : N->deps) {
            int64_t l = std::min(e, d->samples) - b;
            if (b < d->samples && l > 0) {
                span(d, b, b + l);
                b += l;
            }
            b -= d->samples;
            e -= d->samples;
            if (b >= e)
                break;
        }
    }
}

const VSFrame *VS_CC src_frame(int n, int ar, void *inst, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *api) {
    ANode *N = (ANode *)inst;
    if (ar != arInitial)
        return nullptr;
    count(UC_FILTER_CALLS);
    pthread_mutex_lock(&A->lock);
    int attempt = N->attempts[n]++;
    auto it = N->fails.find(n);
    bool fail = it != N->fails.end() && (it->second < 0 || attempt < it->second);
    pthread_mutex_unlock(&A->lock);
    if (N->cost)
        rt_sleep_ns((uint64_t)N->cost * 1000);
    if (fail) {
        count(UC_FAIL_INJECTED);
        char b[60];
        snprintf(b, sizeof b, "source %d frame %d", N->id, n);
        api->setFilterError(b, ctx);
        return nullptr;
    }
    const VSAudioInfo *ai = api->getAudioInfo(N->node);
    int len = (int)std::min<int64_t>(FS, N->samples - n * FS);
    VSFrame *f = api->newAudioFrame(&ai->format, len, nullptr, core);
    for (int c = 0; c < N->ch; c++) {
        uint8_t *p = api->getWritePtr(f, c);
        rt_write_range(p, (size_t)(len * A->bytes));
        for (int i = 0; i < len; i++) {
            uint32_t v = sample(N, c, n * FS + i);
            if (A->bytes == 2)
                ((uint16_t *)p)[i] = (uint16_t)v;
            else
                ((uint32_t *)p)[i] = v;
        }
    }
    return f;
}
void VS_CC src_free(void *, VSCore *, const VSAPI *) {}

void check_answer(ANode *N, int n, const VSFrame *f, const char *err) {
    if (n < 0 || n >= N->frames()) {
        if (f)
            oracle("P18", "audio-invalid", "audio clip %d of %ld frames delivers frame %d", N->id, (long)N->frames(), n);
        return;
    }
    Need nd;
    need(N, n, nd);
    bool mustfail = false, mayfail = false;
    for (auto &x : nd) {
        auto it = x.first->fails.find(x.second);
        if (it != x.first->fails.end()) {
            mayfail = true;
            mustfail |= it->second < 0;
        }
    }
    if (!f) {
        count(UC_ANS_ERROR);
        if (!mayfail)
            oracle("P18", "audio-error", "frame %d of audio clip %d (%s) fails although no source frame it is made of does: %.200s", n, N->id, N->kind.c_str(), err ? err : "");
        int s = -1, k = -1;
        bool known = false;
        if (err && sscanf(err, "source %d frame %d", &s, &k) == 2)
            for (auto &x : nd)
                known |= x.first->id == s && x.second == k && x.first->fails.count(k);
        if (!known)
            oracle("P18", "audio-error", "frame %d of audio clip %d fails with an unrelated message: %.200s", n, N->id, err ? err : "(none)");
        return;
    }
    count(UC_ANS_FRAME);
    if (mustfail)
        oracle("P18", "audio-frame", "frame %d of audio clip %d (%s) is delivered although a source frame it is made of fails", n, N->id, N->kind.c_str());
    int len = (int)std::min<int64_t>(FS, N->samples - n * FS);
    const VSAudioFormat *af = API->getAudioFrameFormat(f);
    if (API->getFrameLength(f) != len || af->numChannels != N->ch || af->channelLayout != N->layout || af->bytesPerSample != A->bytes) {
        oracle("P18", "audio-shape", "frame %d of audio clip %d (%s) has %d samples of %d channels instead of %d of %d", n, N->id, N->kind.c_str(), API->getFrameLength(f), af->numChannels, len, N->ch);
        return;
    }
    count(UC_SAMPLES, (uint64_t)len * (uint64_t)N->ch);
    for (int c = 0; c < N->ch; c++) {
        const uint8_t *p = API->getReadPtr(f, c);
        rt_read_range(p, (size_t)(len * A->bytes));
        for (int i = 0; i < len; i++) {
            int ch = c;
            int64_t k = n * FS + i;
            const ANode *s = resolve(N, ch, k);
            uint32_t want = s ? sample(s, ch, k) : 0, got = A->bytes == 2 ? ((const uint16_t *)p)[i] : ((const uint32_t *)p)[i];
            if (A->bytes == 2)
                want &= 0xffff;
            if (got != want) {
                oracle("P18", "audio-sample", "sample %ld of channel %d of audio clip %d (%s) is not sample %ld of its source", (long)(n * FS + i), c, N->id, N->kind.c_str(), (long)k);
                return;
            }
        }
    }
}
void VS_CC done(void *ud, const VSFrame *f, int n, VSNode *node, const char *err) {
    AReq *r = (AReq *)ud;
    if (r->answers++ || n != r->n || node != r->N->node || !f == !err)
        oracle("P01", "answer", "a request for audio frame %d is answered wrongly or twice", r->n);
    check_answer(r->N, r->n, f, err);
    if (f)
        API->freeFrame(f);
    pthread_mutex_lock(&A->lock);
    A->outstanding--;
    pthread_cond_broadcast(&A->cond);
    pthread_mutex_unlock(&A->lock);
}
int pick(ANode *N, int how, unsigned long r) {
    int64_t f = N->frames();
    switch (how) {
    case 0: return (int)(r % (unsigned long)std::min<int64_t>(f, 10));
    case 1: return (int)(f - 1 - (int64_t)(r % (unsigned long)std::min<int64_t>(f, 6)));
    case 2: return (int)(r % (unsigned long)f);
    default: return r & 1 ? -1 - (int)(r % 7) : f + (int64_t)(r % 5) > INT32_MAX ? -1 : (int)(f + (int64_t)(r % 5));
    }
}
void *client(void *p) {
    AClient *C = (AClient *)p;
    for (auto &l : C->ops) {
        char op[16] = "";
        long a = 0, b = 0;
        unsigned long c = 0;
        sscanf(l.c_str(), "%15s %ld %ld %lu", op, &a, &b, &c);
        ANode *N = A->nodes.count((int)a) ? A->nodes[(int)a] : nullptr;
        if (N && !N->node)
            N = nullptr;
        if (!strcmp(op, "get") && N) {
            int n = pick(N, (int)b, c);
            char err[300] = "";
            count(UC_REQ_SYNC);
            const VSFrame *f = API->getFrame(n, N->node, err, sizeof err);
            check_answer(N, n, f, f ? nullptr : err);
            if (f)
                API->freeFrame(f);
        } else if (!strcmp(op, "async") && N) {
            int n = pick(N, (int)b, c);
            if (n < 0)
                continue;
            AReq *r = new AReq{N, n};
            count(UC_REQ_ASYNC);
            pthread_mutex_lock(&A->lock);
            A->outstanding++;
            pthread_mutex_unlock(&A->lock);
            API->getFrameAsync(n, N->node, done, r);
        } else if (!strcmp(op, "wait")) {
            pthread_mutex_lock(&A->lock);
            while (A->outstanding)
                pthread_cond_wait(&A->cond, &A->lock);
            pthread_mutex_unlock(&A->lock);
        } else if (!strcmp(op, "threads")) {
            count(UC_THREADS_CHANGE);
            API->setThreadCount((int)a, A->core);
        } else if (!strcmp(op, "mem")) {
            count(UC_MEM_CHANGE);
            API->setMaxCacheSize(a, A->core);
        } else if (!strcmp(op, "cache") && N) {
            count(UC_CACHE_CHANGE);
            API->setCacheMode(N->node, (int)b);
        } else if (!strcmp(op, "clear")) {
            count(UC_CACHE_CLEAR);
            API->clearCoreCaches(A->core);
        } else if (!strcmp(op, "sleep"))
            rt_sleep_ns((uint64_t)a * 1000);
    }
    return nullptr;
}

std::string fld(const std::string &l, const char *key, const char *def) {
    std::string k = std::string(" ") + key + "=";
    size_t i = l.find(k);
    if (i == std::string::npos)
        return def;
    i += k.size();
    size_t j = l.find(' ', i);
    return l.substr(i, j == std::string::npos ? j : j - i);
}
std::vector<long> nums(const std::string &s) {
    std::vector<long> r;
    for (const char *p = s.c_str(); *p;) {
        char *e;
        r.push_back(strtol(p, &e, 10));
        p = *e ? e + 1 : e;
    }
    return r;
}
void make_node(const std::string &l) {
    std::unique_ptr<ANode> N(new ANode);
    N->id = atoi(l.c_str() + 6);
    N->kind = fld(l, "kind", "src");
    N->salt = strtoull(fld(l, "salt", "1").c_str(), nullptr, 10);
    N->args = nums(fld(l, "args", ""));
    N->mode = atoi(fld(l, "mode", "0").c_str());
    N->cost = atoi(fld(l, "cost", "0").c_str());
    for (long d : nums(fld(l, "deps", ""))) {
        if (!A->nodes.count((int)d) || !A->nodes[(int)d]->node)
            return;
        N->deps.push_back(A->nodes[(int)d]);
    }
    auto fs = nums(fld(l, "fails", ""));
    for (size_t i = 0; i + 1 < fs.size(); i += 2)
        N->fails[(int)fs[i]] = (int)fs[i + 1];
    if (N->kind == "src") {
        N->samples = std::max(1L, atol(fld(l, "samples", "1").c_str()));
        N->layout = strtoull(fld(l, "layout", "1").c_str(), nullptr, 10);
        VSAudioInfo ai = {};
        if (!API->queryAudioFormat(&ai.format, A->fmt.sampleType, A->fmt.bitsPerSample, N->layout, A->core))
            return;
        N->ch = ai.format.numChannels;
        ai.sampleRate = 48000;
        ai.numSamples = N->samples;
        static const int modes[] = {fmParallel, fmParallelRequests, fmUnordered, fmFrameState};
        N->node = API->createAudioFilter2("source", &ai, src_frame, src_free, modes[N->mode & 3], nullptr, 0, N.get(), A->core);
        if (!N->node)
            oracle("P18", "audio-create", "no source can be made");
        int id = N->id;
        A->nodes[id] = N.release();
        return;
    }
    if (N->deps.empty())
        return;
    ANode *d = N->deps[0];
    N->ch = d->ch;
    N->layout = d->layout;
    VSMap *in = API->createMap();
    const char *fn = nullptr;
    const char *key = "clip";
    bool bad = false;
    if (N->kind == "splice" || N->kind == "shuf")
        key = "clips";
    for (auto *x : N->deps)
        API->mapSetNode(in, key, x->node, maAppend);
    if (N->kind == "trim") {
        fn = "AudioTrim";
        N->args.resize(3);
        long first = N->args[0], len = N->args[1];
        if (first || (N->args[2] & 4))
            API->mapSetInt(in, "first", first, maReplace);
        if (len > 0 && (N->args[2] & 1))
            API->mapSetInt(in, "last", first + len - 1, maReplace);
        else if (len > 0)
            API->mapSetInt(in, "length", len, maReplace);
        N->samples = len > 0 ? len : d->samples - first;
        bad = first < 0 || first >= d->samples || (len > 0 && first + len > d->samples);
    } else if (N->kind == "rev") {
        fn = "AudioReverse";
        N->samples = d->samples;
    } else if (N->kind == "loop") {
        fn = "AudioLoop";
        N->args.resize(1);
        int64_t max = INT32_MAX * FS;
        bad = N->args[0] < 0 || (N->args[0] > 0 && d->samples > max / N->args[0]);
        if (N->args[0] || (N->salt & 1))
            API->mapSetInt(in, "times", N->args[0], maReplace);
        N->samples = N->args[0] > 0 ? d->samples * N->args[0] : max;
    } else if (N->kind == "splice") {
        fn = "AudioSplice";
        N->samples = 0;
        for (auto *x : N->deps) {
            N->samples += x->samples;
            bad |= N->samples > INT32_MAX * FS || x->layout != d->layout;
        }
    } else if (N->kind == "shuf") { // args: clip, channel index pairs per output channel
        fn = "ShuffleChannels";
        size_t k = N->args.size() / 2;
        if (!k || N->deps.size() > k)
            k = 0;
        N->layout = 0;
        N->samples = 0;
        N->args.resize(2 * k);
        // documented: the i-th channel comes from the i-th clip, from the last one if there are fewer
        std::vector<size_t> outs;
        for (size_t i = 0; i < k; i++) {
            size_t c = std::min(i, N->deps.size() - 1);
            ANode *x = N->deps[c];
            int idx = (int)(N->args[2 * i + 1] % x->ch);
            N->args[2 * i] = (long)c;
            N->args[2 * i + 1] = idx;
            int bit = 0, seen = 0; // by name or by position
            for (; bit < 64; bit++)
                if ((x->layout >> bit & 1) && seen++ == idx)
                    break;
            API->mapSetInt(in, "channels_in", (N->salt >> i & 1) ? bit : -1 - idx, maAppend);
            N->samples = std::max(N->samples, x->samples);
        }
        // output channels are given in an order of their own
        std::vector<int> bits;
        for (int b = 0; bits.size() < k; b += 1 + (int)(hmix(N->salt, (uint64_t)b) % 2))
            bits.push_back(b);
        std::vector<size_t> perm(k);
        for (size_t i = 0; i < k; i++)
            perm[i] = i;
        for (size_t i = k; i > 1; i--)
            std::swap(perm[i - 1], perm[hmix(N->salt, 100 + i) % i]);
        std::vector<long> src(2 * k);
        for (size_t i = 0; i < k; i++) {
            API->mapSetInt(in, "channels_out", bits[perm[i]], maAppend);
            N->layout |= 1ull << bits[perm[i]];
            src[2 * perm[i]] = N->args[2 * i];
            src[2 * perm[i] + 1] = N->args[2 * i + 1];
        }
        N->args = src;
        N->ch = (int)k;
        if (!k) {
            API->freeMap(in);
            return;
        }
    }
    if (!fn) {
        API->freeMap(in);
        return;
    }
    VSMap *out = API->invoke(API->getPluginByID("com.vapoursynth.std", A->core), fn, in);
    const char *e = API->mapGetError(out);
    if (!e != !bad)
        oracle("P18", "audio-create", "%s (clip %d) %s: %.200s", fn, N->id, bad ? "is made with invalid arguments" : "can't be made", e ? e : "");
    if (!e && !bad) {
        N->node = API->mapGetNode(out, "clip", 0, nullptr);
        const VSAudioInfo *ai = API->getAudioInfo(N->node);
        if (ai->numSamples != N->samples || ai->numFrames != N->frames() || ai->format.numChannels != N->ch || ai->format.channelLayout != N->layout)
            oracle("P18", "audio-info", "%s (clip %d) has %ld samples and %d frames instead of %ld and %ld", fn, N->id, (long)ai->numSamples, ai->numFrames, (long)N->samples, (long)N->frames());
        int id = N->id;
        A->nodes[id] = N.release();
    }
    API->freeMap(in);
    API->freeMap(out);
}

void audio_run(const Scenario &sc) {
    A = new AWorld;
    A->api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    A->core = API->createCore(ccfDisableAutoLoading);
    API->setThreadCount((int)sc.geti("threads", 2), A->core);
    if (sc.geti("mem", 0))
        API->setMaxCacheSize(sc.geti("mem", 0), A->core);
    int bits = (int)sc.geti("bits", 16);
    API->queryAudioFormat(&A->fmt, bits < 0 ? stFloat : stInteger, abs(bits), 1, A->core);
    A->bytes = A->fmt.bytesPerSample;
    std::vector<std::unique_ptr<AClient>> cl;
    for (long i = 0; i < sc.geti("clients", 1); i++)
        cl.emplace_back(new AClient{(int)i, {}});
    for (auto &l : sc.lines) {
        if (!l.compare(0, 6, "anode "))
            make_node(l);
        else if (!l.compare(0, 3, "op ")) {
            char *e;
            long t = strtol(l.c_str() + 3, &e, 10);
            if (t >= 0 && t < (long)cl.size())
                cl[(size_t)t]->ops.push_back(e + (*e == ' '));
        }
    }
    std::vector<pthread_t> th;
    for (size_t i = 1; i < cl.size(); i++) {
        pthread_t x;
        pthread_create(&x, nullptr, client, cl[i].get());
        th.push_back(x);
    }
    client(cl[0].get());
    for (auto x : th)
        pthread_join(x, nullptr);
    pthread_mutex_lock(&A->lock);
    while (A->outstanding)
        pthread_cond_wait(&A->cond, &A->lock);
    pthread_mutex_unlock(&A->lock);
    for (auto &x : A->nodes)
        if (x.second->node)
            API->freeNode(x.second->node);
    API->freeCore(A->core);
}
} // namespace

void gen_audio_P18(Rng &r, int tier, Scenario &s) {
    gen_search(r, s);
    s.add("cfg threads %ld", r.range(1, 5));
    static const int bits[] = {16, 24, 32, -32};
    s.add("cfg bits %d", bits[r.below(4)]);
    if (r.chance(0.3))
        s.add("cfg mem %ld", r.range(10, 400) * 1000);
    long nc = r.range(1, 3);
    s.add("cfg clients %ld", nc);
    std::vector<int64_t> len; // lengths of the clips so far
    std::vector<uint64_t> layout;
    long ns = r.range(1, 3), nn = r.range(1, tier ? 7 : 5);
    uint64_t lay = r.chance(0.5) ? 1 : r.chance(0.5) ? 3 : 1 | (1ull << r.range(1, 9)) | (1ull << r.range(1, 9));
    for (long i = 0; i < ns; i++) {
        int64_t n = r.chance(0.3) ? FS * r.range(1, 5) : r.chance(0.3) ? r.range(1, 300) : r.chance(0.3) ? FS * r.range(1, 4) + r.range(-2, 2) : r.range(1, FS * 6);
        std::string f;
        if (r.chance(0.35))
            for (long k = r.range(1, 2); k > 0; k--)
                f += (f.empty() ? "" : ",") + std::to_string(r.below((uint64_t)((n + FS - 1) / FS))) + "," + (r.chance(0.7) ? "-1" : std::to_string(r.range(1, 2)));
        uint64_t l = r.chance(0.9) ? lay : 3;
        s.add("anode %ld kind=src samples=%ld layout=%lu salt=%lu mode=%ld cost=%ld%s%s", i, (long)n, (unsigned long)l, (unsigned long)(r.next() >> 12), r.chance(0.6) ? 0 : r.range(1, 3), r.chance(0.3) ? r.range(1, 3000) : 0, f.empty() ? "" : " fails=", f.c_str());
        len.push_back(n);
        layout.push_back(l);
    }
    const int64_t MAX = INT32_MAX * FS;
    for (long i = ns; i < ns + nn; i++) {
        size_t d = r.chance(0.6) ? len.size() - 1 : r.below(len.size());
        int64_t n = len[d], m = n;
        uint64_t l = layout[d];
        int k = (int)r.below(10);
        std::string t = "anode " + std::to_string(i), salt = " salt=" + std::to_string(r.next() >> 20);
        if (k < 3) {
            int64_t first = r.chance(0.3) ? 0 : r.chance(0.3) ? FS * (int64_t)r.below((uint64_t)(n / FS + 1)) : (int64_t)r.below((uint64_t)n);
            if (r.chance(0.04))
                first = r.chance(0.5) ? -1 : n;
            int64_t rest = n - first, x = rest <= 0 ? 1 : r.chance(0.3) ? 0 : r.chance(0.3) ? std::min(rest, FS * r.range(1, 3)) : r.chance(0.5) ? std::min<int64_t>(rest, 1 + (int64_t)r.below((uint64_t)FS * 4)) : 1 + (int64_t)r.below((uint64_t)rest);
            if (r.chance(0.04))
                x = rest + 1;
            t += " kind=trim deps=" + std::to_string(d) + " args=" + std::to_string(first) + "," + std::to_string(x) + "," + std::to_string(r.below(8));
            m = x ? x : rest;
            if (first < 0 || first >= n || x > rest)
                m = 0;
        } else if (k < 5)
            t += " kind=rev deps=" + std::to_string(d);
        else if (k < 7) {
            int64_t times = r.chance(0.15) ? 0 : r.chance(0.05) ? -1 : r.chance(0.1) ? r.range(1000, 1000000) : r.range(1, 6);
            t += " kind=loop deps=" + std::to_string(d) + " args=" + std::to_string(times);
            m = times == 0 ? MAX : times < 0 || n > MAX / times ? 0 : n * times;
        } else if (k < 9) {
            std::string ds;
            m = 0;
            for (long q = r.range(1, 4); q > 0; q--) {
                size_t x = r.below(len.size());
                if (layout[x] != l && r.chance(0.9))
                    x = d;
                ds += (ds.empty() ? "" : ",") + std::to_string(x);
                if (layout[x] != l)
                    m = -MAX;
                m += len[x];
            }
            if (m > MAX || m < 0)
                m = 0;
            l = layout[(size_t)atoi(ds.c_str())];
            t += " kind=splice deps=" + ds;
        } else {
            std::string ds = std::to_string(d), as;
            m = n;
            if (r.chance(0.6)) {
                size_t x = r.below(len.size());
                ds += "," + std::to_string(x);
                m = std::max(m, len[x]);
            }
            long ch = r.range(ds.find(',') != std::string::npos ? 2 : 1, 4);
            for (long q = 0; q < ch; q++)
                as += (q ? ",0," : "0,") + std::to_string(r.below(4));
            t += " kind=shuf deps=" + ds + " args=" + as;
            l = ~0ull; // not used with others
        }
        s.lines.push_back(t + salt);
        if (m <= 0)
            continue; // can't be made
        // ids are positions in the list of clips that can be made
        std::string &line = s.lines.back();
        line = "anode " + std::to_string(len.size()) + line.substr(line.find(" kind"));
        len.push_back(m);
        layout.push_back(l);
    }
    long no = r.range(3, tier ? 30 : 18);
    for (long i = 0; i < no; i++) {
        long c = (long)r.below((uint64_t)nc);
        size_t x = r.chance(0.6) ? len.size() - 1 : r.below(len.size());
        int how = r.chance(0.5) ? 0 : r.chance(0.6) ? 1 : r.chance(0.9) ? 2 : 3;
        int k = (int)r.below(20);
        if (k < 11)
            s.add("op %ld async %ld %d %lu", c, (long)x, how, (unsigned long)(r.next() >> 30));
        else if (k < 15)
            s.add("op %ld get %ld %d %lu", c, (long)x, how, (unsigned long)(r.next() >> 30));
        else if (k < 16)
            s.add("op %ld wait", c);
        else if (k < 17)
            s.add("op %ld threads %ld", c, r.range(1, 6));
        else if (k < 18)
            s.add("op %ld cache %ld %ld", c, (long)x, r.range(-1, 1));
        else if (k < 19)
            s.add("op %ld clear", c);
        else
            s.add("op %ld mem %ld", c, r.range(10, 400) * 1000);
    }
}
void run_audio(const Scenario &s) { audio_run(s); }
