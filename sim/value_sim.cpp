// Frames, maps and functions as values: several threads create, share, copy, edit and release them, each
// object shadowed by a model. Decides P10 and P08, and contributes to P11 and P12.
#include "VapourSynth4.h"
#include "sim.h"
#include <algorithm>
#include <map>
#include <memory>
#include <pthread.h>
#include <string.h>

namespace {
struct Func {
    int id = 0;
    int refs_known = 0;
    bool freed = false;
    int frees = 0;
    uint64_t magic = 0xf00d;
};
struct FrameM;
struct Val1 {
    int64_t i = 0;
    double d = 0;
    std::string s;
    Func *fn = nullptr;
    const VSFrame *fr = nullptr;
    std::shared_ptr<const FrameM> fm;
};
struct Arr {
    int type = ptUnset;
    std::vector<Val1> v;
};
typedef std::map<std::string, Arr> MapM;
struct PlaneM {
    long id = 0;
    std::vector<int16_t> b; // bytes at the sample positions, -1: not written yet
};
struct FrameM {
    bool audio = false;
    VSVideoFormat vf{};
    VSAudioFormat af{};
    int w = 0, h = 0; // w: samples for audio
    std::vector<PlaneM> p;
    MapM props;
};
struct LF {
    VSFrame *f;
    bool writable;
    std::shared_ptr<FrameM> m;
};
struct LM {
    VSMap *map;
    MapM m;
};
struct Shared {
    const VSFrame *f = nullptr;
    std::shared_ptr<const FrameM> m;
};
struct SharedMap {
    const VSMap *map = nullptr;
    std::shared_ptr<const MapM> m;
    int readers = 0;
};
struct SharedFn {
    VSFunction *f = nullptr;
    Func *fn = nullptr;
};
struct Thr {
    int id = 0;
    std::vector<std::string> ops;
    std::vector<LF> f;
    std::vector<LM> maps;
    std::vector<std::pair<VSFunction *, Func *>> fns;
    uint64_t rng = 0;
};
const int NSH = 6, NSM = 3;
struct VWorld {
    const VSAPI *api = nullptr;
    VSCore *core = nullptr;
    pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
    Shared sh[NSH];
    SharedMap sm[NSM];
    SharedFn sf[NSM];
    LF give[NSM] = {};
    std::vector<std::unique_ptr<Func>> funcs;
    std::vector<VSVideoFormat> fmts;
    std::vector<std::pair<int, int>> dims;
    long next_id = 1;
    int next_func = 1;
};
VWorld *V;
#define API V->api

void positions(const FrameM &m, int plane, std::vector<size_t> &off, ptrdiff_t stride) {
    size_t row;
    int h;
    if (m.audio) {
        row = (size_t)m.w * (size_t)m.af.bytesPerSample;
        h = 1;
    } else {
        row = (size_t)(m.w >> (plane ? m.vf.subSamplingW : 0)) * (size_t)m.vf.bytesPerSample;
        h = m.h >> (plane ? m.vf.subSamplingH : 0);
    }
    int rows[4] = {0, h / 3, h / 2, h - 1};
    size_t cols[4] = {0, 1, row / 2, row - 1};
    for (int r : rows)
        for (size_t c : cols)
            off.push_back((size_t)r * (size_t)stride + c);
}
const int NPOS = 16;
ptrdiff_t stride_of(const LF &x, int p) { return x.m->audio ? 0 : API->getStride(x.f, p); }

void check_map(const VSMap *map, const MapM &m, const char *what, int depth);
void check_frame(const VSFrame *f, const FrameM &m, const char *what, int depth = 0) {
    count(UC_VALUE_CHECKS);
    if (API->getFrameType(f) != (m.audio ? mtAudio : mtVideo)) {
        oracle("P10", "frame-type", "%s: media type of a frame changed", what);
        return;
    }
    if (m.audio) {
        if (API->getFrameLength(f) != m.w || memcmp(API->getAudioFrameFormat(f), &m.af, sizeof(VSAudioFormat)))
            oracle("P10", "frame-format", "%s: length or format of an audio frame changed", what);
    } else if (API->getFrameWidth(f, 0) != m.w || API->getFrameHeight(f, 0) != m.h || memcmp(API->getVideoFrameFormat(f), &m.vf, sizeof(VSVideoFormat)))
        oracle("P10", "frame-format", "%s: dimensions or format of a frame changed", what);
    for (size_t p = 0; p < m.p.size(); p++) {
        const uint8_t *r = API->getReadPtr(f, (int)p);
        std::vector<size_t> off;
        positions(m, (int)p, off, m.audio ? 0 : API->getStride(f, (int)p));
        for (int k = 0; k < NPOS; k++) {
            if (m.p[p].b[k] < 0)
                continue;
            rt_read_range(r + off[k], 1);
            if (r[off[k]] != m.p[p].b[k]) {
                oracle("P10", "frame-changed", "%s: byte at offset %lu of plane %d is 0x%02x but the last value written to this frame is 0x%02x", what, (unsigned long)off[k], (int)p, r[off[k]], m.p[p].b[k]);
                return;
            }
        }
    }
    check_map(API->getFramePropertiesRO(f), m.props, what, depth + 1);
}
void check_map(const VSMap *map, const MapM &m, const char *what, int depth) {
    count(UC_VALUE_CHECKS);
    int n = API->mapNumKeys(map);
    if (n != (int)m.size()) {
        oracle("P10", "map-keys", "%s: a map has %d keys, %d were set", what, n, (int)m.size());
        return;
    }
    for (auto &kv : m) {
        // a copy: the shadow itself is no business of the race detector
        char k[80] = {0};
        for (size_t i = 0; i < kv.first.size() && i < sizeof k - 1; i++)
            k[i] = kv.first[i];
        int t = API->mapGetType(map, k);
        if (t != kv.second.type) {
            oracle("P10", "map-type", "%s: key %s has type %d, expected %d", what, k, t, kv.second.type);
            continue;
        }
        int c = API->mapNumElements(map, k);
        if (c != (int)kv.second.v.size()) {
            oracle("P10", "map-length", "%s: key %s has %d elements, expected %d", what, k, c, (int)kv.second.v.size());
            continue;
        }
        for (int j = 0; j < c; j++) {
            const Val1 &v = kv.second.v[(size_t)j];
            int e = 0;
            if (t == ptInt) {
                int64_t x = API->mapGetInt(map, k, j, &e);
                if (e || x != v.i)
                    oracle("P10", "map-value", "%s: element %d of key %s is %ld, expected %ld", what, j, k, (long)x, (long)v.i);
            } else if (t == ptFloat) {
                double x = API->mapGetFloat(map, k, j, &e);
                if (e || x != v.d)
                    oracle("P10", "map-value", "%s: element %d of key %s is %g, expected %g", what, j, k, x, v.d);
            } else if (t == ptData) {
                const char *x = API->mapGetData(map, k, j, &e);
                int sz = API->mapGetDataSize(map, k, j, nullptr);
                if (e || sz != (int)v.s.size())
                    oracle("P10", "map-value", "%s: element %d of key %s has %d bytes, expected %d", what, j, k, sz, (int)v.s.size());
                else {
                    rt_read_range(x, v.s.size());
                    if (memcmp(x, v.s.data(), v.s.size()))
                        oracle("P10", "map-value", "%s: element %d of key %s has other bytes than were stored", what, j, k);
                }
            } else if (t == ptFunction) {
                VSFunction *fn = API->mapGetFunction(map, k, j, &e);
                if (!fn)
                    oracle("P10", "map-value", "%s: element %d of key %s is not a function", what, j, k);
                else {
                    VSMap *in = API->createMap(), *out = API->createMap();
                    if (v.fn->freed)
                        oracle("P11", "function-freed-early", "function %d was freed while a map still refers to it", v.fn->id);
                    API->callFunction(fn, in, out);
                    if (API->mapGetInt(out, "id", 0, &e) != v.fn->id)
                        oracle("P10", "map-value", "%s: element %d of key %s is another function", what, j, k);
                    API->freeMap(in);
                    API->freeMap(out);
                    API->freeFunction(fn);
                }
            } else if (t == ptVideoFrame || t == ptAudioFrame) {
                const VSFrame *x = API->mapGetFrame(map, k, j, &e);
                if (e || !x)
                    oracle("P10", "map-value", "%s: element %d of key %s is not a frame", what, j, k);
                else {
                    if (depth < 3)
                        check_frame(x, *v.fm, what, depth);
                    API->freeFrame(x);
                }
            }
        }
    }
}

void VS_CC func_call(const VSMap *, VSMap *out, void *ud, VSCore *, const VSAPI *api) {
    Func *f = (Func *)ud;
    if (f->freed)
        oracle("P11", "function-used-after-free", "function %d is called after its user data was freed", f->id);
    api->mapSetInt(out, "id", f->id, maReplace);
}
void VS_CC func_free(void *ud) {
    Func *f = (Func *)ud;
    f->frees++;
    f->freed = true;
    rt_note("ffree %d", f->id);
    if (f->frees > 1)
        oracle("P11", "function-freed-twice", "user data of function %d was freed twice", f->id);
}

LF *pick(Thr *t, long k, bool writable) {
    std::vector<LF *> c;
    for (auto &x : t->f)
        if (!writable || x.writable)
            c.push_back(&x);
    return c.empty() ? nullptr : c[(size_t)k % c.size()];
}
bool isbig(int w, int h) { return (long)w * h > 600000; }

FrameM blank_video(const VSVideoFormat &vf, int w, int h, const FrameM *props) {
    FrameM m;
    m.vf = vf;
    m.w = w;
    m.h = h;
    for (int p = 0; p < vf.numPlanes; p++)
        m.p.push_back({V->next_id++, std::vector<int16_t>(NPOS, -1)});
    if (props)
        m.props = props->props;
    return m;
}
void write_plane(LF &x, int p, uint64_t seed, int from, int to) {
    uint8_t *w = API->getWritePtr(x.f, p);
    std::vector<size_t> off;
    positions(*x.m, p, off, stride_of(x, p));
    std::map<size_t, int16_t> val; // positions may coincide
    for (int k = from; k < to; k++)
        val[off[(size_t)k]] = (int16_t)(uint8_t)hmix(seed, (uint64_t)k);
    for (auto &v : val) {
        rt_write_range(w + v.first, 1);
        w[v.first] = (uint8_t)v.second;
    }
    PlaneM &pm = x.m->p[(size_t)p];
    for (int k = 0; k < NPOS; k++) {
        auto it = val.find(off[(size_t)k]);
        if (it != val.end())
            pm.b[(size_t)k] = it->second;
    }
    if (x.m->audio) { // all channels share one buffer
        long id = V->next_id++;
        for (auto &q : x.m->p)
            q.id = id;
    } else
        pm.id = V->next_id++;
}
const char *keys[] = {"a", "b", "cc", "data_long_key_name_0123456789", "z"};
// one edit of a map that only this thread knows
void edit_map(Thr *t, VSMap *map, MapM &m, uint64_t seed) {
    std::string k = keys[hmix(seed, 1) % 5];
    int kind = (int)(hmix(seed, 2) % 13);
    int append = hmix(seed, 3) & 1 ? maAppend : maReplace;
    Val1 v;
    v.i = (int64_t)(hmix(seed, 4) >> 8);
    v.d = (double)(int32_t)hmix(seed, 5) / 7;
    v.s.assign(hmix(seed, 6) % 3 ? 1 + hmix(seed, 7) % 20 : 40 + hmix(seed, 7) % 30, (char)('a' + hmix(seed, 8) % 26));
    v.s[0] = (char)hmix(seed, 9);
    auto put = [&](int type, int rc) {
        Arr &a = m[k];
        bool ok = true;
        if (append == maReplace)
            a = Arr{type, {v}};
        else if (a.type == ptUnset)
            a = Arr{type, {v}};
        else if (a.type == type)
            a.v.push_back(v);
        else
            ok = false;
        if (ok != !rc)
            oracle("P10", "map-set", "setting key %s with mode %d returned %d", k.c_str(), append, rc);
    };
    switch (kind) {
    case 0: case 1: case 2:
        put(ptInt, API->mapSetInt(map, k.c_str(), v.i, append));
        break;
    case 3:
        put(ptFloat, API->mapSetFloat(map, k.c_str(), v.d, append));
        break;
    case 4: case 5:
        put(ptData, API->mapSetData(map, k.c_str(), v.s.data(), (int)v.s.size(), dtBinary, append));
        break;
    case 6: case 7:
        if (!t->fns.empty()) {
            auto fn = t->fns[hmix(seed, 10) % t->fns.size()];
            v.fn = fn.second;
            put(ptFunction, API->mapSetFunction(map, k.c_str(), fn.first, append));
        }
        break;
    case 8: { // a frame as a value: from now on it must not be written any more
        LF *x = pick(t, (long)(hmix(seed, 11) >> 1), false);
        if (x && x->f && map != nullptr) {
            bool self = false;
            for (auto &y : t->f)
                self |= API->getFramePropertiesRO(y.f) == map;
            int depth = 0;
            for (auto &kv : x->m->props)
                depth |= kv.second.type == ptVideoFrame || kv.second.type == ptAudioFrame;
            if (self || depth)
                break;
            x->writable = false;
            v.fm = x->m;
            v.fr = x->f;
            put(x->m->audio ? ptAudioFrame : ptVideoFrame, API->mapSetFrame(map, k.c_str(), x->f, append));
        }
        break;
    }
    case 9: {
        int64_t a[12];
        int n = (int)(hmix(seed, 12) % 12);
        Arr r;
        r.type = ptInt;
        for (int i = 0; i < n; i++) {
            a[i] = (int64_t)hmix(seed, 20 + (uint64_t)i) >> 3;
            Val1 y;
            y.i = a[i];
            r.v.push_back(y);
        }
        API->mapSetIntArray(map, k.c_str(), a, n);
        m[k] = r;
        break;
    }
    case 10: case 11: {
        int rc = API->mapDeleteKey(map, k.c_str());
        if (rc != (int)m.erase(k))
            oracle("P10", "map-delete", "deleting key %s returned %d", k.c_str(), rc);
        break;
    }
    default:
        if (hmix(seed, 13) % 3 == 0) {
            API->clearMap(map);
            m.clear();
        } else
            put(ptInt, API->mapSetInt(map, k.c_str(), v.i, append));
    }
}

void free_local(LF &x) {
    API->freeFrame(x.f);
    x.f = nullptr;
}

void do_op(Thr *t, const std::string &line) {
    char name[16];
    long a = 0, b = 0, c = 0, d = 0;
    if (sscanf(line.c_str(), "%15s %ld %ld %ld %ld", name, &a, &b, &c, &d) < 1)
        return;
    std::string op = name;
    count(UC_FRAME_OPS);
    rt_note("v %s %ld %ld", name, a, b);
    size_t maxf = 8;
    if (op == "nv" || op == "np") {
        if (t->f.size() >= maxf)
            return;
        const VSVideoFormat &vf = V->fmts[(size_t)a % V->fmts.size()];
        auto dm = V->dims[(size_t)b % V->dims.size()];
        LF *ps = d & 1 ? pick(t, d >> 1, false) : nullptr;
        LF n;
        if (op == "nv") {
            n.f = API->newVideoFrame(&vf, dm.first, dm.second, ps ? ps->f : nullptr, V->core);
            n.m = std::make_shared<FrameM>(blank_video(vf, dm.first, dm.second, ps ? ps->m.get() : nullptr));
        } else {
            n.m = std::make_shared<FrameM>(blank_video(vf, dm.first, dm.second, ps ? ps->m.get() : nullptr));
            const VSFrame *src[3] = {};
            int pl[3] = {};
            for (int p = 0; p < vf.numPlanes; p++) {
                if (hmix((uint64_t)c, (uint64_t)p) % 4 == 0)
                    continue;
                std::vector<std::pair<LF *, int>> cand;
                for (auto &x : t->f) {
                    if (x.m->audio || x.m->vf.bytesPerSample != vf.bytesPerSample)
                        continue;
                    for (int q = 0; q < x.m->vf.numPlanes; q++)
                        if ((x.m->w >> (q ? x.m->vf.subSamplingW : 0)) == (dm.first >> (p ? vf.subSamplingW : 0)) && (x.m->h >> (q ? x.m->vf.subSamplingH : 0)) == (dm.second >> (p ? vf.subSamplingH : 0)))
                            cand.push_back({&x, q});
                }
                if (cand.empty())
                    continue;
                auto s = cand[hmix((uint64_t)c, 10 + (uint64_t)p) % cand.size()];
                src[p] = s.first->f;
                pl[p] = s.second;
                n.m->p[(size_t)p] = s.first->m->p[(size_t)s.second];
            }
            n.f = API->newVideoFrame2(&vf, dm.first, dm.second, src, pl, ps ? ps->f : nullptr, V->core);
        }
        n.writable = true;
        t->f.push_back(n);
    } else if (op == "na" || op == "nq") {
        if (t->f.size() >= maxf)
            return;
        VSAudioFormat af;
        int ch = 1 + (int)((size_t)a % 3);
        API->queryAudioFormat(&af, stInteger, 16 + 8 * (int)(b & 1), (1ull << ch) - 1, V->core);
        int len = b & 2 ? VS_AUDIO_FRAME_SAMPLES : 37;
        LF *ps = d & 1 ? pick(t, d >> 1, false) : nullptr;
        LF n;
        n.m = std::make_shared<FrameM>();
        n.m->audio = true;
        n.m->af = af;
        n.m->w = len;
        long id = V->next_id++;
        for (int p = 0; p < ch; p++)
            n.m->p.push_back({id, std::vector<int16_t>(NPOS, -1)});
        if (ps)
            n.m->props = ps->m->props;
        if (op == "na")
            n.f = API->newAudioFrame(&af, len, ps ? ps->f : nullptr, V->core);
        else {
            const VSFrame *src[3] = {};
            int pl[3] = {};
            for (int p = 0; p < ch; p++) {
                std::vector<std::pair<LF *, int>> cand;
                for (auto &x : t->f)
                    if (x.m->audio && x.m->af.bytesPerSample == af.bytesPerSample && x.m->w == len)
                        for (int q = 0; q < (int)x.m->p.size(); q++)
                            cand.push_back({&x, q});
                if (cand.empty() || hmix((uint64_t)c, (uint64_t)p) % 4 == 0)
                    continue;
                auto s = cand[hmix((uint64_t)c, 10 + (uint64_t)p) % cand.size()];
                src[p] = s.first->f;
                pl[p] = s.second;
                n.m->p[(size_t)p].b = s.first->m->p[(size_t)s.second].b;
            }
            n.f = API->newAudioFrame2(&af, len, src, pl, ps ? ps->f : nullptr, V->core);
        }
        n.writable = true;
        t->f.push_back(n);
    } else if (op == "cp") {
        LF *x = pick(t, a, false);
        if (!x || t->f.size() >= maxf)
            return;
        LF n;
        n.m = std::make_shared<FrameM>(*x->m);
        n.f = API->copyFrame(x->f, V->core);
        n.writable = true;
        t->f.push_back(n);
    } else if (op == "gv") { // give a copy away, then both owners write: each must keep its own contents
        LF *x = pick(t, a, true);
        if (!x)
            return;
        size_t ix = (size_t)(x - t->f.data());
        LF n;
        n.m = std::make_shared<FrameM>(*x->m);
        n.f = API->copyFrame(x->f, V->core);
        n.writable = true;
        pthread_mutex_lock(&V->lock);
        std::swap(n, V->give[(size_t)b % NSM]);
        pthread_cond_broadcast(&V->cond);
        pthread_mutex_unlock(&V->lock);
        if (n.f)
            API->freeFrame(n.f);
        if (d & 4)
            write_plane(t->f[ix], (int)((size_t)d % t->f[ix].m->p.size()), (uint64_t)c, 0, 1 + (int)((size_t)c % NPOS));
        if (d & 8)
            edit_map(t, API->getFramePropertiesRW(t->f[ix].f), t->f[ix].m->props, (uint64_t)c);
    } else if (op == "gt") {
        if (t->f.size() >= maxf)
            return;
        LF n{nullptr, false, nullptr};
        pthread_mutex_lock(&V->lock);
        std::swap(n, V->give[(size_t)b % NSM]);
        pthread_mutex_unlock(&V->lock);
        if (!n.f)
            return;
        if (d & 4)
            write_plane(n, (int)((size_t)d % n.m->p.size()), (uint64_t)c, 0, 1 + (int)((size_t)c % NPOS));
        if (d & 8)
            edit_map(t, API->getFramePropertiesRW(n.f), n.m->props, (uint64_t)c);
        t->f.push_back(n);
    } else if (op == "wr" || op == "wp") {
        LF *x = pick(t, a, true);
        if (!x)
            return;
        int p = (int)((size_t)b % x->m->p.size());
        int from = 0, to = NPOS;
        if (op == "wp") {
            from = (int)((size_t)d % NPOS);
            to = std::min(NPOS, from + 1 + (int)((size_t)d / NPOS % 4));
        }
        write_plane(*x, p, (uint64_t)c, from, to);
    } else if (op == "ps") {
        LF *x = pick(t, a, true);
        if (!x)
            return;
        size_t ix = (size_t)(x - t->f.data());
        edit_map(t, API->getFramePropertiesRW(x->f), t->f[ix].m->props, (uint64_t)b);
    } else if (op == "pm") { // map to map, in any combination
        LF *x = pick(t, a, true), *y = pick(t, b, false);
        if (c & 1) {
            if (!x || t->maps.empty())
                return;
            LM &l = t->maps[(size_t)b % t->maps.size()];
            API->copyMap(l.map, API->getFramePropertiesRW(x->f));
            for (auto &kv : l.m)
                x->m->props[kv.first] = kv.second;
        } else if (c & 2) {
            if (!y || t->maps.empty())
                return;
            LM &l = t->maps[(size_t)a % t->maps.size()];
            API->copyMap(API->getFramePropertiesRO(y->f), l.map);
            for (auto &kv : y->m->props)
                l.m[kv.first] = kv.second;
        } else {
            if (!x || !y)
                return;
            MapM src = y->m->props;
            API->copyMap(API->getFramePropertiesRO(y->f), API->getFramePropertiesRW(x->f));
            for (auto &kv : src)
                x->m->props[kv.first] = kv.second;
        }
    } else if (op == "pub") {
        LF *x = pick(t, a, false);
        if (!x)
            return;
        x->writable = false;
        const VSFrame *r = c & 1 ? API->addFrameRef(x->f) : x->f;
        std::shared_ptr<const FrameM> m = x->m;
        if (!(c & 1))
            t->f.erase(t->f.begin() + (x - t->f.data()));
        pthread_mutex_lock(&V->lock);
        Shared &s = V->sh[(size_t)b % NSH];
        const VSFrame *old = s.f;
        s.f = r;
        s.m = m;
        pthread_mutex_unlock(&V->lock);
        API->freeFrame(old);
    } else if (op == "take") {
        if (t->f.size() >= maxf)
            return;
        pthread_mutex_lock(&V->lock);
        Shared &s = V->sh[(size_t)b % NSH];
        LF n{nullptr, false, nullptr};
        if (s.f) {
            n.f = (VSFrame *)API->addFrameRef(s.f);
            n.m = std::const_pointer_cast<FrameM>(s.m);
        }
        pthread_mutex_unlock(&V->lock);
        if (n.f)
            t->f.push_back(n);
    } else if (op == "drop") {
        pthread_mutex_lock(&V->lock);
        Shared &s = V->sh[(size_t)b % NSH];
        const VSFrame *old = s.f;
        s.f = nullptr;
        s.m = nullptr;
        pthread_mutex_unlock(&V->lock);
        API->freeFrame(old);
    } else if (op == "ck") {
        LF *x = pick(t, a, false);
        if (x)
            check_frame(x->f, *x->m, "a frame held by a thread");
    } else if (op == "fr") {
        LF *x = pick(t, a, false);
        if (!x)
            return;
        LF y = *x;
        t->f.erase(t->f.begin() + (x - t->f.data()));
        if (b & 1)
            check_frame(y.f, *y.m, "a frame about to be released");
        free_local(y);
    } else if (op == "mk") {
        if (t->maps.size() < 4)
            t->maps.push_back({API->createMap(), {}});
    } else if (op == "me") {
        if (!t->maps.empty()) {
            LM &l = t->maps[(size_t)a % t->maps.size()];
            edit_map(t, l.map, l.m, (uint64_t)b);
        }
    } else if (op == "mc") {
        if (t->maps.size() > 1) {
            LM &l = t->maps[(size_t)a % t->maps.size()], &r = t->maps[(size_t)b % t->maps.size()];
            MapM src = l.m;
            API->copyMap(l.map, r.map);
            for (auto &kv : src)
                r.m[kv.first] = kv.second;
        }
    } else if (op == "mf") {
        if (!t->maps.empty()) {
            size_t k = (size_t)a % t->maps.size();
            check_map(t->maps[k].map, t->maps[k].m, "a map about to be freed", 0);
            VSMap *m = t->maps[k].map;
            t->maps.erase(t->maps.begin() + (long)k);
            API->freeMap(m);
        }
    } else if (op == "mp") { // publish a map for reading by everybody
        if (t->maps.empty())
            return;
        size_t k = (size_t)a % t->maps.size();
        LM l = t->maps[k];
        t->maps.erase(t->maps.begin() + (long)k);
        pthread_mutex_lock(&V->lock);
        SharedMap &s = V->sm[(size_t)b % NSM];
        while (s.readers)
            pthread_cond_wait(&V->cond, &V->lock);
        const VSMap *old = s.map;
        s.map = l.map;
        s.m = std::make_shared<MapM>(l.m);
        pthread_mutex_unlock(&V->lock);
        API->freeMap((VSMap *)old);
    } else if (op == "mr") { // read or copy a shared map while others do the same
        pthread_mutex_lock(&V->lock);
        SharedMap &s = V->sm[(size_t)b % NSM];
        if (!s.map) {
            pthread_mutex_unlock(&V->lock);
            return;
        }
        s.readers++;
        const VSMap *m = s.map;
        std::shared_ptr<const MapM> mm = s.m;
        pthread_mutex_unlock(&V->lock);
        if (c & 1)
            check_map(m, *mm, "a shared map", 0);
        else if (!t->maps.empty()) {
            LM &l = t->maps[(size_t)a % t->maps.size()];
            API->copyMap(m, l.map);
            for (auto &kv : *mm)
                l.m[kv.first] = kv.second;
        } else {
            LF *x = pick(t, a, true);
            if (x) {
                API->copyMap(m, API->getFramePropertiesRW(x->f));
                for (auto &kv : *mm)
                    x->m->props[kv.first] = kv.second;
            }
        }
        pthread_mutex_lock(&V->lock);
        if (--s.readers == 0)
            pthread_cond_broadcast(&V->cond);
        pthread_mutex_unlock(&V->lock);
    } else if (op == "fn") {
        if (t->fns.size() >= 3) {
            auto fn = t->fns[(size_t)a % t->fns.size()];
            t->fns.erase(t->fns.begin() + (long)((size_t)a % t->fns.size()));
            if (fn.second->freed)
                oracle("P11", "function-freed-early", "function %d was freed while its creator still refers to it", fn.second->id);
            API->freeFunction(fn.first);
            return;
        }
        Func *f = new Func;
        pthread_mutex_lock(&V->lock);
        f->id = V->next_func++;
        V->funcs.emplace_back(f);
        pthread_mutex_unlock(&V->lock);
        t->fns.push_back({API->createFunction(func_call, f, func_free, V->core), f});
    } else if (op == "fs") { // hand a reference to everybody, or use the one that is there
        pthread_mutex_lock(&V->lock);
        SharedFn &s = V->sf[(size_t)b % NSM];
        VSFunction *mine = nullptr;
        Func *mf = nullptr;
        if (s.f && (c & 3)) {
            mine = API->addFunctionRef(s.f);
            mf = s.fn;
        } else if (!t->fns.empty()) {
            mine = s.f;
            mf = s.fn;
            auto fn = t->fns[(size_t)a % t->fns.size()];
            s.f = API->addFunctionRef(fn.first);
            s.fn = fn.second;
        }
        pthread_mutex_unlock(&V->lock);
        if (!mine)
            return;
        VSMap *out = API->createMap(), *in = API->createMap();
        if (d & 1)
            API->callFunction(mine, in, out);
        if (mf->freed)
            oracle("P11", "function-freed-early", "function %d was freed while a thread still refers to it", mf->id);
        API->freeMap(in);
        API->freeMap(out);
        if (t->fns.size() < 3 && (d & 2))
            t->fns.push_back({mine, mf});
        else
            API->freeFunction(mine);
    } else if (op == "lim") {
        API->setMaxCacheSize(a, V->core);
        count(UC_MEM_CHANGE);
    } else if (op == "info") {
        VSCoreInfo2 ci;
        API->getCoreInfo2(V->core, &ci);
    }
}
void *thread_fn(void *p) {
    Thr *t = (Thr *)p;
    for (auto &o : t->ops)
        do_op(t, o);
    t->ops.clear();
    return nullptr;
}
int64_t used() {
    VSCoreInfo2 ci;
    API->getCoreInfo2(V->core, &ci);
    return ci.usedFramebufferSize;
}
void quiescent(std::vector<Thr> &th) {
    count(UC_QUIESCE);
    struct Buf {
        const uint8_t *lo, *hi;
        long id;
    };
    std::vector<Buf> bufs;
    std::map<long, size_t> bytes;
    auto add = [&](const VSFrame *f, const FrameM &m) {
        for (size_t p = 0; p < m.p.size(); p++) {
            const uint8_t *r = API->getReadPtr(f, (int)p);
            size_t n = m.audio ? (size_t)m.w * (size_t)m.af.bytesPerSample : (size_t)API->getStride(f, (int)p) * (size_t)API->getFrameHeight(f, (int)p);
            if (!rt_heap_fits(r, n))
                oracle("P08", "too-small", "plane %d of a live frame has %lu bytes but its buffer ends before that", (int)p, (unsigned long)n);
            bufs.push_back({r, r + n, m.audio ? -(long)(m.p[p].id * 8 + (long)p) : m.p[p].id});
            bytes[m.p[p].id] += 0;
            if (bytes[m.p[p].id] < n)
                bytes[m.p[p].id] = n;
        }
    };
    for (auto &t : th) {
        for (auto &x : t.f) {
            check_frame(x.f, *x.m, "a frame held by a thread");
            add(x.f, *x.m);
        }
        for (auto &l : t.maps)
            check_map(l.map, l.m, "a map held by a thread", 0);
    }
    for (auto &s : V->sh)
        if (s.f) {
            check_frame(s.f, *s.m, "a shared frame");
            add(s.f, *s.m);
        }
    for (auto &s : V->sm)
        if (s.map)
            check_map(s.map, *s.m, "a shared map", 0);
    for (auto &g : V->give)
        if (g.f) {
            check_frame(g.f, *g.m, "a frame handed over");
            add(g.f, *g.m);
        }
    std::sort(bufs.begin(), bufs.end(), [](const Buf &x, const Buf &y) { return x.lo < y.lo; });
    for (size_t i = 0; i + 1 < bufs.size(); i++)
        for (size_t j = i + 1; j < bufs.size() && bufs[j].lo < bufs[i].hi; j++)
            if (bufs[i].id != bufs[j].id)
                oracle("P08", "overlap", "two live frame buffers overlap");
    size_t need = 0;
    for (auto &x : bytes)
        need += x.second;
    int64_t u0 = used();
    (void)need;
    int64_t old = API->setMaxCacheSize(0, V->core);
    uint64_t live = rt_heap_live_aligned();
    int64_t u = used();
    if (u != u0)
        oracle("P08", "unstable", "reported memory use went from %ld to %ld without any frame being made or released", (long)u0, (long)u);
    if (u > (int64_t)live)
        oracle("P08", "overreported", "%ld bytes are reported in use but only %lu are allocated", (long)u, (unsigned long)live);
    API->setMaxCacheSize(1, V->core);
    live = rt_heap_live_aligned();
    u = used();
    if ((uint64_t)u != live)
        oracle("P08", "misreported", "%ld bytes are reported in use and %lu are allocated after the pool was emptied", (long)u, (unsigned long)live);
    API->setMaxCacheSize(old > 0 ? old : 1, V->core);
}
// what is held back for reuse: only decided when nothing else runs
void pool_check(int64_t limit) {
    // the pool is trimmed when a large buffer comes back
    VSVideoFormat g8;
    API->queryVideoFormat(&g8, cfGray, stInteger, 8, 0, 0, V->core);
    API->freeFrame(API->newVideoFrame(&g8, 1024, 1200, nullptr, V->core));
    uint64_t live = rt_heap_live_aligned();
    int64_t u = used();
    if ((uint64_t)u < live && (int64_t)live > limit)
        oracle("P08", "pool-over-limit", "%lu bytes are allocated for frames with %ld in use and a limit of %ld", (unsigned long)live, (long)u, (long)limit);
}
int leak_skip(const void *, size_t, const char *d) { return strncmp(d, "libvapoursynth", 14) != 0; }

void value_run(const Scenario &sc) {
    V = new VWorld;
    V->api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    uint64_t mark = rt_heap_mark();
    V->core = API->createCore((int)(ccfDisableAutoLoading | sc.geti("flags", 0)));
    static const int fm[][5] = {{cfGray, 8, 0, 0, stInteger}, {cfYUV, 8, 1, 1, stInteger}, {cfGray, 16, 0, 0, stInteger}, {cfRGB, 8, 0, 0, stInteger}, {cfYUV, 32, 0, 0, stFloat}};
    long nf = sc.geti("nfmt", 3);
    for (long i = 0; i < nf; i++) {
        VSVideoFormat f;
        const int *x = fm[i % 5];
        API->queryVideoFormat(&f, x[0], x[4], x[1], x[2], x[3], V->core);
        V->fmts.push_back(f);
    }
    if (sc.geti("big", 0))
        V->dims = {{1024, 1020}, {1024, 1100}, {1024, 1200}, {1152, 1100}, {1280, 1300}, {1024, 1030}, {64, 64}, {1536, 1200}, {1024, 1204}, {1024, 1197}, {1024, 1104}, {1024, 1024}, {1024, 1019}};
    else
        V->dims = {{32, 4}, {32, 4}, {64, 6}, {48, 8}};
    int nt = (int)sc.geti("nthr", 2);
    int64_t limit = sc.geti("mem", 0);
    if (limit > 0)
        API->setMaxCacheSize(limit, V->core);
    std::vector<Thr> th((size_t)nt);
    for (int i = 0; i < nt; i++)
        th[(size_t)i].id = i;
    auto run = [&]() {
        std::vector<pthread_t> p;
        std::vector<Thr *> act;
        for (auto &t : th)
            if (!t.ops.empty())
                act.push_back(&t);
        for (Thr *t : act) {
            pthread_t x;
            pthread_create(&x, nullptr, thread_fn, t);
            p.push_back(x);
        }
        for (auto x : p)
            pthread_join(x, nullptr);
        int64_t lim = API->setMaxCacheSize(0, V->core);
        pool_check(lim);
        quiescent(th);
    };
    bool dirty = false;
    for (auto &l : sc.lines) {
        if (!l.compare(0, 3, "op ")) {
            char *e;
            long c = strtol(l.c_str() + 3, &e, 10);
            if (c >= 0 && c < nt) {
                th[(size_t)c].ops.push_back(e + (*e == ' '));
                dirty = true;
            }
        } else if (!l.compare(0, 7, "barrier")) {
            run();
            dirty = false;
        }
    }
    if (dirty)
        run();
    // single threaded from here on
    long endmode = sc.geti("end", 0);
    bool outlive = endmode & 1;
    auto drop = [&]() {
        Rng r((uint64_t)sc.geti("order", 1));
        std::vector<LF> all;
        for (auto &t : th) {
            for (auto &x : t.f)
                all.push_back(x);
            t.f.clear();
        }
        for (auto &s : V->sh)
            if (s.f) {
                all.push_back({(VSFrame *)s.f, false, std::const_pointer_cast<FrameM>(s.m)});
                s.f = nullptr;
            }
        for (auto &g : V->give)
            if (g.f) {
                all.push_back(g);
                g.f = nullptr;
            }
        for (size_t i = all.size(); i > 1; i--)
            std::swap(all[i - 1], all[r.below(i)]);
        std::vector<VSMap *> maps;
        for (auto &t : th) {
            for (auto &l : t.maps)
                maps.push_back(l.map);
            t.maps.clear();
        }
        for (auto &s : V->sm)
            if (s.map) {
                maps.push_back((VSMap *)s.map);
                s.map = nullptr;
            }
        while (!all.empty() || !maps.empty()) {
            if (maps.empty() || (!all.empty() && r.below(all.size() + maps.size()) < all.size())) {
                check_frame(all.back().f, *all.back().m, "a frame released last");
                API->freeFrame(all.back().f);
                all.pop_back();
            } else {
                API->freeMap(maps.back());
                maps.pop_back();
            }
        }
    };
    auto dropfn = [&]() {
        for (auto &s : V->sf) {
            API->freeFunction(s.f);
            s.f = nullptr;
        }
        for (auto &t : th) {
            for (auto &f : t.fns)
                API->freeFunction(f.first);
            t.fns.clear();
        }
    };
    if (!outlive) {
        drop();
        dropfn();
        int64_t u = used();
        if (u != 0)
            oracle("P08", "not-zero", "%ld bytes are reported in use after every frame was released", (long)u);
    }
    API->freeCore(V->core);
    drop();
    dropfn();
    for (auto &f : V->funcs)
        if (f->frees != 1)
            oracle("P11", "function-frees", "user data of function %d was freed %d times", f->id, f->frees);
    char buf[1500];
    int leaks = rt_heap_list(mark, buf, sizeof(buf), leak_skip);
    if (leaks) {
        oracle("P11", "leak", "%d blocks are left allocated after everything was released:%s", leaks, buf);
        oracle("P08", "leak", "%d blocks are left allocated after everything was released:%s", leaks, buf);
    }
    uint64_t live = rt_heap_live_aligned();
    if (live)
        oracle("P08", "pool-leak", "%lu bytes of frame memory are left after the core and all frames are gone", (unsigned long)live);
}

void gen(Rng &r, Scenario &s, bool big, bool maps) {
    gen_search(r, s);
    s.add("cfg nfmt %ld", big ? r.range(1, 2) : r.range(1, 5));
    s.add("cfg big %d", big ? 1 : 0);
    long nt = r.chance(0.15) ? 1 : r.range(2, 4);
    s.add("cfg nthr %ld", nt);
    if (r.chance(big ? 0.7 : 0.2))
        s.add("cfg mem %ld", big ? r.range(1, 12) * 1000000 : r.range(1, 50) * 1000);
    s.add("cfg end %ld", r.range(0, 1));
    if (r.chance(0.15) && !big)
        s.add("cfg flags %ld", (long)ccfEnableGraphInspection);
    s.add("cfg order %ld", r.range(1, 1000000));
    long phases = r.range(1, 3);
    static const char *base[] = {"nv", "np", "na", "nq", "cp", "wr", "wp", "ps", "pm", "pub", "take", "drop", "ck", "fr", "mk", "me", "mc", "mf", "mp", "mr", "fn", "fs", "gv", "gt", "lim", "info"};
    int w[] = {8, 4, 3, 2, 8, 8, 4, 8, 3, 7, 9, 2, 4, 7, 3, 6, 1, 1, 2, 5, 3, 4, 5, 6, 0, 1};
    const int NO = sizeof(w) / sizeof(w[0]);
    for (int i = 0; i < NO; i++) // emphasis differs from run to run
        if (r.chance(0.25))
            w[i] = r.chance(0.5) ? 0 : w[i] * 4;
    if (big) {
        w[0] = 14;
        w[2] = w[3] = 1;
        w[13] = 12;
        w[24] = 3;
        w[25] = 2;
    }
    if (!maps)
        for (int i = 14; i <= 21; i++)
            w[i] = 0;
    int tot = 0;
    for (int i = 0; i < NO; i++)
        tot += w[i];
    if (!tot)
        w[0] = w[4] = tot = 1, tot = 2;
    for (long ph = 0; ph < phases; ph++) {
        long n = r.range(4, big ? 25 : 60);
        for (long k = 0; k < n; k++) {
            long x = (long)r.below((uint64_t)tot);
            int o = 0;
            while (x >= w[o])
                x -= w[o++];
            long a = (long)r.below(1 << 20), b = (long)r.below(1 << 30), c = (long)r.below(1 << 20), d = (long)r.below(1 << 16);
            if (!strcmp(base[o], "lim"))
                a = big ? r.range(0, 10) * 1200000 + 1 : r.range(1, 60) * 1000;
            if (r.chance(0.4) && (!strcmp(base[o], "take") || !strcmp(base[o], "pub") || !strcmp(base[o], "mr") || !strcmp(base[o], "mp")))
                b = 0; // everybody meets at the same place
            s.add("op %ld %s %ld %ld %ld %ld", (long)r.below((uint64_t)nt), base[o], a, b, c, d);
        }
        if (ph + 1 < phases)
            s.add("barrier");
    }
}
void warm() {
    const VSAPI *api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    (void)api;
}
} // namespace
void gen_value_P08(Rng &r, int, Scenario &s) { gen(r, s, r.chance(0.8), false); }
void gen_value_P10(Rng &r, int, Scenario &s) { gen(r, s, r.chance(0.05), r.chance(0.7)); }
void gen_value_P11(Rng &r, int, Scenario &s) { gen(r, s, r.chance(0.1), r.chance(0.8)); }
void gen_value_P12(Rng &r, int, Scenario &s) { gen(r, s, r.chance(0.05), r.chance(0.7)); }
void run_value(const Scenario &s) { value_run(s); }
void value_warm() { warm(); }
