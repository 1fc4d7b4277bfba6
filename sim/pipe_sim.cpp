// The command-line renderer: the real vspipe main(), engine, thread pool and trim filter, with a simulated script
// environment and simulated files below stdio. Decides P14 and P15.
#include "sim.h"
#include "VapourSynth4.h"
#include "VSHelper4.h"
#include "VSScript4.h"
#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <map>
#include <string>
#include <vector>

int vspipe_main(int argc, char **argv);

namespace {
const VSAPI *API;

// ------------------------------------------------------------------ simulated files
enum FaultKind { FK_NONE, FK_ENOSPC, FK_EIO, FK_EIO_ONCE, FK_EPIPE, FK_CLOSE };
struct SimFile {
    std::string name;
    std::string disk;             // what has reached the medium
    std::string exp;              // what should be there in the end (main output only)
    bool exact = false;
    FaultKind fault = FK_NONE;
    size_t at = 0;                // offset at which the fault strikes
    bool hit = false;             // a fault was reported to the program
    bool open = false, opened = false;
    uint64_t chunk = 0;           // seed of the short writes, 0 = whole
    int buf = 4096;
    FILE *fp = nullptr;
    size_t headskip = 0;          // bytes at the start which are judged by meaning
};
struct World {
    std::map<std::string, SimFile *> files;
    SimFile *out = nullptr, *tc = nullptr, *json = nullptr;
    SimFile err;
    std::string openfail;
    long wsleep = 0;
    const Scenario *sc = nullptr;
    bool in_wrap = false;
};
World *W;

void bad_output(const char *kind, const char *fmt, ...) {
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    oracle("P14", kind, "%s", b);
    oracle("P15", "not-a-prefix", "%s", b);
}
void to_disk(SimFile *f, const char *b, size_t n) {
    count(UC_BYTES, n);
    rt_note("disk %s %lu+%lu", f->name.c_str(), (unsigned long)f->disk.size(), (unsigned long)n);
    if (f->exact) {
        size_t o = f->disk.size();
        for (size_t i = 0; i < n; i++) {
            if (o + i >= f->exp.size()) {
                bad_output("output-too-long", "%s: more than the expected %lu bytes are written", f->name.c_str(), (unsigned long)f->exp.size());
                break;
            }
            if (o + i >= f->headskip && b[i] != f->exp[o + i]) {
                bad_output("output-differs", "%s: byte %lu of %lu is 0x%02x, expected 0x%02x", f->name.c_str(), (unsigned long)(o + i), (unsigned long)f->exp.size(), (uint8_t)b[i], (uint8_t)f->exp[o + i]);
                break;
            }
        }
    }
    f->disk.append(b, n);
}
// write(2)
ssize_t sim_write(SimFile *f, const char *b, size_t n) {
    count(UC_WRITES);
    size_t o = f->disk.size();
    if (f->fault != FK_NONE && f->fault != FK_CLOSE && o + n > f->at) {
        if (o < f->at) { // up to the fault
            count(UC_WFAULT_SHORT);
            to_disk(f, b, f->at - o);
            return (ssize_t)(f->at - o);
        }
        f->hit = true;
        count(f->fault == FK_ENOSPC ? UC_WFAULT_ENOSPC : UC_WFAULT_EIO);
        rt_note("fault %s at %lu", f->name.c_str(), (unsigned long)o);
        errno = f->fault == FK_ENOSPC ? ENOSPC : f->fault == FK_EPIPE ? EPIPE : EIO;
        if (f->fault == FK_EIO_ONCE)
            f->fault = FK_NONE;
        return -1;
    }
    if (f->chunk && n > 1) {
        f->chunk = hmix(f->chunk, 1);
        if (f->chunk % 3 == 0) {
            n = 1 + (size_t)(f->chunk >> 8) % (n - 1);
            count(UC_WFAULT_SHORT);
        }
    }
    to_disk(f, b, n);
    return (ssize_t)n;
}
ssize_t ck_write(void *c, const char *b, size_t n) {
    SimFile *f = (SimFile *)c;
    if (f == &W->err) {
        f->disk.append(b, n);
        return (ssize_t)n;
    }
    size_t d = 0; // as stdio does with a file descriptor
    while (d < n) {
        ssize_t r = sim_write(f, b + d, n - d);
        if (r < 0)
            break;
        d += (size_t)r;
    }
    return (ssize_t)d;
}
int ck_close(void *c) {
    SimFile *f = (SimFile *)c;
    f->open = false;
    if (f->fault == FK_CLOSE) {
        f->hit = true;
        count(UC_WFAULT_CLOSE);
        rt_note("close fault %s", f->name.c_str());
        if (f->disk.size() > f->at)
            f->disk.resize(f->at); // what had only been accepted is lost
        errno = EIO;
        return -1;
    }
    return 0;
}
FILE *open_sim(SimFile *f) {
    cookie_io_functions_t io = {nullptr, ck_write, nullptr, ck_close};
    f->open = f->opened = true;
    FILE *fp = fopencookie(f, "w", io);
    if (f == &W->err)
        setvbuf(fp, nullptr, _IONBF, 0);
    else
        setvbuf(fp, nullptr, _IOFBF, (size_t)f->buf);
    f->fp = fp;
    return fp;
}
void before_io() {
    rt_yield_point();
    if (W->wsleep) {
        static uint64_t k;
        if ((k = hmix(k, 5)) % 7 == 0)
            rt_sleep_ns((uint64_t)W->wsleep * 1000 * (1 + (k >> 8) % 20));
    }
}
} // namespace

#define X extern "C" __attribute__((visibility("default")))
FILE *plug_fopen(const char *name);
int plug_active();
X FILE *__wrap_fopen(const char *name, const char *) {
    if (plug_active())
        return plug_fopen(name);
    if (!W) {
        errno = ENOENT;
        return nullptr;
    }
    before_io();
    auto it = W->files.find(name);
    if (it == W->files.end() || W->openfail == name) {
        errno = EACCES;
        return nullptr;
    }
    return open_sim(it->second);
}
X FILE *__wrap_fopen64(const char *name, const char *m) { return __wrap_fopen(name, m); }
X size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) {
    before_io();
    size_t r = fwrite(p, s, n, f);
    int e = errno;
    rt_yield_point();
    errno = e;
    return r;
}
X int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) {
    before_io();
    int r = vfprintf(f, fmt, ap);
    int e = errno;
    rt_yield_point();
    errno = e;
    return r;
}
X int __wrap_fprintf(FILE *f, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = __wrap_vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
X int __wrap_printf(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = __wrap_vfprintf(stdout, fmt, ap);
    va_end(ap);
    return r;
}
X int __wrap_fputs(const char *s, FILE *f) {
    before_io();
    return fputs(s, f);
}
X int __wrap_fputc(int c, FILE *f) {
    before_io();
    return fputc(c, f);
}
X int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
X int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
X int __wrap_puts(const char *s) {
    before_io();
    return puts(s);
}
X int __wrap_fflush(FILE *f) {
    before_io();
    int r = fflush(f);
    int e = errno;
    rt_yield_point();
    errno = e;
    return r;
}
X int __wrap_fclose(FILE *f) {
    before_io();
    for (auto &x : W->files)
        if (x.second->fp == f)
            x.second->fp = nullptr;
    return fclose(f);
}
X int __wrap_sigaction(int, const void *, void *) { return 0; }

// ------------------------------------------------------------------ simulated script
namespace {
struct ClipCfg {
    uint64_t seed = 1;
    VSVideoInfo vi = {};
    VSAudioInfo ai = {};
    bool audio = false;
    int mode = fmParallel;
    long slow = 0;
    int index = 0; // 0 colour, 1 alpha
    const Scenario *sc = nullptr;
    std::vector<int> fails;
    std::vector<int> nodur;
    long badur = 0; // what these frames have instead: nothing, or a value that can't be
    VSNode *in = nullptr; // for stages
    int durk = 0;
};
uint8_t pixel(uint64_t seed, int n, int plane, int y, int x) { return (uint8_t)hmix(seed ^ ((uint64_t)n << 32) ^ ((uint64_t)plane << 28), (uint64_t)y * 4096 + (uint64_t)x); }
void duration(const ClipCfg &c, int n, int64_t &num, int64_t &den) {
    static const int64_t d[][2] = {{1001, 30000}, {1, 25}, {1001, 24000}, {7, 90000}, {1, 1000}, {3, 7}};
    uint64_t k = c.durk == 0 ? 0 : hmix(c.seed, (uint64_t)n / 2) % (uint64_t)(c.durk + 1);
    num = d[k % 6][0];
    den = d[k % 6][1];
}
void nap(const ClipCfg &c, int n, int salt) {
    if (!c.slow)
        return;
    uint64_t k = hmix(c.seed + (uint64_t)salt * 77, (uint64_t)n);
    if (k % 3)
        rt_sleep_ns((k >> 8) % (uint64_t)(c.slow * 1000) + 1);
}
// integer properties in a shape that can be written down in JSON
void put_props(const ClipCfg &c, int n, VSMap *m) {
    API->mapSetInt(m, "n", n, maReplace);
    API->mapSetInt(m, "neg", -(int64_t)(hmix(c.seed, (uint64_t)n) >> 5), maReplace);
    API->mapSetFloat(m, "fl", (double)n / 8 + 0.5, maReplace);
    int64_t a[3] = {n, n * 2, -n};
    API->mapSetIntArray(m, "arr", a, 3);
    char s[64];
    snprintf(s, sizeof s, "q\"%d\\x", n);
    API->mapSetData(m, "str", s, (int)strlen(s), dtUtf8, maReplace);
    bool bad = std::find(c.nodur.begin(), c.nodur.end(), n) != c.nodur.end();
    if (!bad || c.badur) {
        int64_t num, den;
        duration(c, n, num, den);
        if (bad)
            (c.badur < 3 ? num : den) = c.badur % 2 ? 0 : -1;
        API->mapSetInt(m, "_DurationNum", num, maReplace);
        API->mapSetInt(m, "_DurationDen", den, maReplace);
    }
}
const VSFrame *VS_CC src_get(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *api) {
    ClipCfg &c = *(ClipCfg *)inst;
    if (reason != arInitial)
        return nullptr;
    count(UC_FILTER_CALLS);
    nap(c, n, 1);
    if (std::find(c.fails.begin(), c.fails.end(), n) != c.fails.end()) {
        count(UC_FAIL_INJECTED);
        char b[60];
        snprintf(b, sizeof b, "frame %d cannot be had", n);
        api->setFilterError(b, ctx);
        return nullptr;
    }
    VSFrame *f;
    if (c.audio) {
        int64_t left = c.ai.numSamples - (int64_t)n * VS_AUDIO_FRAME_SAMPLES;
        int len = (int)std::min<int64_t>(left, VS_AUDIO_FRAME_SAMPLES);
        f = api->newAudioFrame(&c.ai.format, len, nullptr, core);
        for (int ch = 0; ch < c.ai.format.numChannels; ch++) {
            uint8_t *w = api->getWritePtr(f, ch);
            int bps = c.ai.format.bytesPerSample;
            for (int i = 0; i < len; i++)
                for (int b = 0; b < bps; b++)
                    w[i * bps + b] = pixel(c.seed, n, ch, i, b);
        }
    } else {
        f = api->newVideoFrame(&c.vi.format, c.vi.width, c.vi.height, nullptr, core);
        for (int p = 0; p < c.vi.format.numPlanes; p++) {
            uint8_t *w = api->getWritePtr(f, p);
            ptrdiff_t st = api->getStride(f, p);
            int rw = api->getFrameWidth(f, p) * c.vi.format.bytesPerSample, h = api->getFrameHeight(f, p);
            for (int y = 0; y < h; y++) {
                for (int x = 0; x < rw; x++)
                    w[y * st + x] = pixel(c.seed, n, p, y, x);
                for (ptrdiff_t x = rw; x < st; x++)
                    w[y * st + x] = 0xEE;
            }
        }
    }
    put_props(c, n, api->getFramePropertiesRW(f));
    return f;
}
const VSFrame *VS_CC pass_get(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *, const VSAPI *api) {
    ClipCfg &c = *(ClipCfg *)inst;
    if (reason == arInitial) {
        nap(c, n, 2);
        api->requestFrameFilter(n, c.in, ctx);
        return nullptr;
    }
    if (reason != arAllFramesReady)
        return nullptr;
    nap(c, n, 3);
    return api->getFrameFilter(n, c.in, ctx);
}
void VS_CC clip_free(void *inst, VSCore *, const VSAPI *api) {
    ClipCfg *c = (ClipCfg *)inst;
    api->freeNode(c->in);
    delete c;
}
std::vector<int> intlist(const char *s) {
    std::vector<int> r;
    for (; *s;) {
        char *e;
        long v = strtol(s, &e, 10);
        if (e == s)
            break;
        r.push_back((int)v);
        s = *e ? e + 1 : e;
    }
    return r;
}
struct Fmt {
    int cf, st, bits, sw, sh;
    const char *y4m;
};
const Fmt fmts[] = {
    {cfGray, stInteger, 8, 0, 0, "mono"}, {cfYUV, stInteger, 8, 1, 1, "420"}, {cfRGB, stInteger, 8, 0, 0, nullptr}, {cfYUV, stInteger, 10, 1, 0, "422p10"}, {cfYUV, stInteger, 16, 0, 0, "444p16"},
    {cfYUV, stFloat, 32, 0, 0, "444ps"}, {cfRGB, stFloat, 32, 0, 0, nullptr}, {cfYUV, stInteger, 8, 2, 2, "410"}, {cfYUV, stInteger, 8, 2, 0, "411"}, {cfYUV, stInteger, 8, 0, 1, "440"}, {cfGray, stInteger, 16, 0, 0, "mono16"}, {cfRGB, stInteger, 16, 0, 0, nullptr},
    {cfYUV, stFloat, 16, 1, 1, "420ph"}, {cfYUV, stInteger, 8, 0, 0, "444"}};
const int NF = sizeof fmts / sizeof fmts[0];
struct AFmt {
    int st, bits, ch;
};
const AFmt afmts[] = {{stInteger, 16, 2}, {stInteger, 16, 1}, {stInteger, 24, 2}, {stInteger, 32, 1}, {stFloat, 32, 2}, {stInteger, 20, 2}, {stInteger, 24, 6}};
const int NA = sizeof afmts / sizeof afmts[0];

ClipCfg base_cfg(const Scenario &sc, int index) {
    ClipCfg c;
    c.sc = &sc;
    c.index = index;
    c.seed = hmix((uint64_t)sc.geti("content", 1), (uint64_t)index);
    c.audio = sc.geti("audio", 0) && !index;
    c.slow = sc.geti("slow", 0);
    c.durk = (int)sc.geti("durk", 0);
    c.fails = intlist(sc.get(index ? "afails" : "fails", ""));
    if (!index)
        c.nodur = intlist(sc.get("nodur", ""));
        c.badur = sc.geti("badur", 0);
    return c;
}
// filled in without a core, for the expectation
void shape(const Scenario &sc, ClipCfg &c) {
    if (c.audio) {
        const AFmt &f = afmts[(size_t)sc.geti("fmt", 0) % NA];
        uint64_t mask = f.ch == 1 ? 4 : f.ch == 2 ? 3 : 0x3f;
        c.ai.format = {f.st, f.bits, f.bits == 16 ? 2 : 4, f.ch, mask};
        c.ai.sampleRate = 44100;
        c.ai.numSamples = std::max(1l, sc.geti("samples", 5000));
        c.ai.numFrames = (int)((c.ai.numSamples + VS_AUDIO_FRAME_SAMPLES - 1) / VS_AUDIO_FRAME_SAMPLES);
    } else {
        const Fmt &f = fmts[(size_t)sc.geti("fmt", 0) % NF];
        if (c.index) // the alpha clip is gray with the same sample format
            c.vi.format = {cfGray, f.st, f.bits, f.bits <= 8 ? 1 : f.bits <= 16 ? 2 : 4, 0, 0, 1};
        else
            c.vi.format = {f.cf, f.st, f.bits, f.bits <= 8 ? 1 : f.bits <= 16 ? 2 : 4, f.sw, f.sh, f.cf == cfGray ? 1 : 3};
        c.vi.width = (int)std::max(1l, sc.geti("w", 12)) * 4;
        c.vi.height = (int)std::max(1l, sc.geti("h", 2)) * 4;
        c.vi.fpsNum = 30000;
        c.vi.fpsDen = 1001;
        c.vi.numFrames = (int)std::max(1l, sc.geti("frames", 5));
    }
}

struct Script {
    VSCore *core;
    std::string error;
    int code = 0;
    VSNode *node = nullptr, *alpha = nullptr;
    int index = 0;
};
int VS_CC s_ver() noexcept { return VSSCRIPT_API_VERSION; }
const VSAPI *VS_CC s_api(int v) noexcept { return getVapourSynthAPI(v); }
VSScript *VS_CC s_create(VSCore *core) noexcept {
    Script *s = new Script;
    s->core = core ? core : API->createCore(0);
    return (VSScript *)s;
}
VSCore *VS_CC s_core(VSScript *h) noexcept { return ((Script *)h)->core; }
VSNode *make(const Scenario &sc, int index, VSCore *core) {
    ClipCfg *c = new ClipCfg(base_cfg(sc, index));
    shape(sc, *c);
    int mode = (int)sc.geti("mode0", 0) & 3;
    VSNode *n;
    VSVideoInfo var = c->vi;
    if (sc.geti("varfmt", 0) && !index)
        var.width = var.height = 0;
    if (c->audio)
        n = API->createAudioFilter2("SimSource", &c->ai, src_get, clip_free, mode, nullptr, 0, c, core);
    else
        n = API->createVideoFilter2("SimSource", &var, src_get, clip_free, mode, nullptr, 0, c, core);
    for (long k = 0; n && k < sc.geti("stages", 0); k++) {
        ClipCfg *p = new ClipCfg(*c);
        p->seed = hmix(p->seed, (uint64_t)k + 50);
        p->in = n;
        VSFilterDependency d = {n, rpStrictSpatial};
        int m = (int)(hmix((uint64_t)sc.geti("content", 1), (uint64_t)k) % 3);
        if (p->audio)
            n = API->createAudioFilter2("SimPass", &p->ai, pass_get, clip_free, m, &d, 1, p, core);
        else
            n = API->createVideoFilter2("SimPass", &var, pass_get, clip_free, m, &d, 1, p, core);
    }
    return n;
}
int VS_CC s_eval(VSScript *h, const char *) noexcept {
    Script *s = (Script *)h;
    const Scenario &sc = *W->sc;
    if (sc.geti("threads", 0))
        API->setThreadCount((int)sc.geti("threads", 0), s->core);
    if (sc.geti("mem", 0))
        API->setMaxCacheSize(sc.geti("mem", 0), s->core);
    rt_sleep_ns(2000000);
    if (sc.geti("scriptfail", 0)) {
        count(UC_SCRIPT_FAIL);
        s->error = "script error";
        s->code = (int)sc.geti("scriptfail", 0) - 1;
        return 1;
    }
    s->index = (int)sc.geti("index", 0);
    s->node = make(sc, 0, s->core);
    if (sc.geti("alpha", 0) && !sc.geti("audio", 0))
        s->alpha = make(sc, 1, s->core);
    return 0;
}
int VS_CC s_evalbuf(VSScript *, const char *, const char *) noexcept { return 1; }
const char *VS_CC s_err(VSScript *h) noexcept { return ((Script *)h)->error.empty() ? nullptr : ((Script *)h)->error.c_str(); }
int VS_CC s_code(VSScript *h) noexcept { return ((Script *)h)->code; }
int VS_CC s_getvar(VSScript *, const char *, VSMap *) noexcept { return 1; }
int VS_CC s_setvar(VSScript *, const VSMap *) noexcept { return 0; }
VSNode *VS_CC s_node(VSScript *h, int i) noexcept {
    Script *s = (Script *)h;
    return i == s->index && s->node ? API->addNodeRef(s->node) : nullptr;
}
VSNode *VS_CC s_alpha(VSScript *h, int i) noexcept {
    Script *s = (Script *)h;
    return i == s->index && s->alpha ? API->addNodeRef(s->alpha) : nullptr;
}
int VS_CC s_alt(VSScript *, int) noexcept { return 0; }
void VS_CC s_free(VSScript *h) noexcept {
    Script *s = (Script *)h;
    API->freeNode(s->node);
    API->freeNode(s->alpha);
    API->freeCore(s->core);
    delete s;
}
void VS_CC s_cwd(VSScript *, int) noexcept {}
int VS_CC s_avail(VSScript *h, int size, int *dst) noexcept {
    Script *s = (Script *)h;
    if (size > 0)
        dst[0] = s->index;
    return 1;
}
VSSCRIPTAPI sapi = {s_ver, s_api, s_create, s_core, s_evalbuf, s_eval, s_err, s_code, s_getvar, s_setvar, s_node, s_alpha, s_alt, s_free, s_cwd, s_avail};
} // namespace
X const VSSCRIPTAPI *getVSScriptAPI(int) noexcept { return &sapi; }
X const VSSCRIPTAPI *getVSScriptAPI2(int, char *e, int n) noexcept {
    if (n > 0)
        *e = 0;
    return &sapi;
}
X const char *getVSScriptAPILastError() noexcept { return ""; }

// ------------------------------------------------------------------ what should be written
namespace {
void le(std::string &s, uint64_t v, int n) {
    for (int i = 0; i < n; i++)
        s += (char)(uint8_t)(v >> (8 * i));
}
// the frames [a, b] of the clip, one by one
void one_frame(std::string &o, const ClipCfg &c, int n) {
    static const int rgb[] = {1, 2, 0};
    for (int k = 0; k < c.vi.format.numPlanes; k++) {
        int p = c.vi.format.colorFamily == cfRGB ? rgb[k] : k;
        int w = c.vi.width >> (p ? c.vi.format.subSamplingW : 0), h = c.vi.height >> (p ? c.vi.format.subSamplingH : 0);
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w * c.vi.format.bytesPerSample; x++)
                o += (char)pixel(c.seed, n, p, y, x);
    }
}
struct Expect {
    bool refuse = false; // nothing may be written, exit status not zero
    int first = 0, last = -1; // frames
    int fail = INT32_MAX;     // first frame that cannot be had
    int nodur = INT32_MAX;
};
void expected(const Scenario &sc, Expect &e, std::string &o, size_t &headskip, int upto) {
    ClipCfg c = base_cfg(sc, 0), a = base_cfg(sc, 1);
    shape(sc, c);
    shape(sc, a);
    std::string cont = sc.get("container", "none");
    headskip = 0;
    if (c.audio) {
        int64_t s = std::max(0l, sc.geti("start", 0)), t = sc.geti("end", -1) < 0 ? c.ai.numSamples - 1 : sc.geti("end", -1);
        int bytes = (c.ai.format.bitsPerSample + 7) / 8, ch = c.ai.format.numChannels;
        uint64_t data = (uint64_t)(t - s + 1) * (uint64_t)(bytes * ch);
        std::string fmtx;
        le(fmtx, 0xfffe, 2);
        le(fmtx, (uint64_t)ch, 2);
        le(fmtx, (uint64_t)c.ai.sampleRate, 4);
        le(fmtx, (uint64_t)(c.ai.sampleRate * bytes * ch), 4);
        le(fmtx, (uint64_t)(bytes * ch), 2);
        le(fmtx, (uint64_t)bytes * 8, 2);
        le(fmtx, 22, 2);
        le(fmtx, (uint64_t)c.ai.format.bitsPerSample, 2);
        le(fmtx, c.ai.format.channelLayout, 4);
        le(fmtx, c.ai.format.sampleType == stFloat ? 3 : 1, 2);
        const char sub[] = "\x00\x00\x00\x00\x10\x00\x80\x00\x00\xAA\x00\x38\x9B\x71";
        fmtx.append(sub, 14);
        if (cont == "wav") {
            o += "RIFF";
            le(o, 4 + 8 + fmtx.size() + 8 + data, 4);
            o += "WAVEfmt ";
            le(o, fmtx.size(), 4);
            o += fmtx;
            o += "data";
            le(o, data, 4);
        } else if (cont == "w64") {
            const char g[] = "\xF3\xAC\xD3\x11\x8C\xD1\x00\xC0\x4F\x8E\xDB\x8A";
            o += "riff";
            o.append("\x2E\x91\xCF\x11\xA5\xD6\x28\xDB\x04\xC1\x00\x00", 12);
            le(o, 24 + 16 + 24 + fmtx.size() + 24 + data, 8);
            o += "wave";
            o.append(g, 12);
            o += "fmt ";
            o.append(g, 12);
            le(o, 24 + fmtx.size(), 8);
            o += fmtx;
            o += "data";
            o.append(g, 12);
            le(o, 24 + data, 8);
        }
        int bps = c.ai.format.bytesPerSample;
        for (int64_t i = s; i <= t; i++) {
            if ((i - s) / VS_AUDIO_FRAME_SAMPLES >= upto)
                break;
            for (int k = 0; k < ch; k++)
                for (int b = bps - bytes; b < bps; b++)
                    o += (char)pixel(c.seed, (int)(i / VS_AUDIO_FRAME_SAMPLES), k, (int)(i % VS_AUDIO_FRAME_SAMPLES), b);
        }
        return;
    }
    if (cont == "y4m") {
        const Fmt &f = fmts[(size_t)sc.geti("fmt", 0) % NF];
        char b[300];
        snprintf(b, sizeof b, "YUV4MPEG2 C%s W%d H%d F%ld:%ld Ip A0:0 XLENGTH=%d\n", f.y4m ? f.y4m : "", c.vi.width, c.vi.height, (long)c.vi.fpsNum, (long)c.vi.fpsDen, e.last - e.first + 1);
        o += b;
    }
    for (int n = e.first; n <= e.last && n - e.first < upto; n++) {
        if (cont == "y4m")
            o += "FRAME\n";
        one_frame(o, c, n);
        if (sc.geti("alpha", 0))
            one_frame(o, a, n);
    }
}
Expect expect(const Scenario &sc) {
    Expect e;
    ClipCfg c = base_cfg(sc, 0), a = base_cfg(sc, 1);
    shape(sc, c);
    shape(sc, a);
    std::string cont = sc.get("container", "none");
    long s = std::max(0l, sc.geti("start", 0)), t = sc.geti("end", -1);
    int64_t len = c.audio ? c.ai.numSamples : c.vi.numFrames;
    if (t < 0)
        t = len - 1;
    if (s > t || t >= len)
        e.refuse = true;
    if (sc.geti("scriptfail", 0) || sc.geti("wantindex", sc.geti("index", 0)) != sc.geti("index", 0))
        e.refuse = true;
    if (c.audio ? cont == "y4m" : cont == "wav" || cont == "w64")
        e.refuse = true;
    if (!c.audio && cont == "y4m" && (!fmts[(size_t)sc.geti("fmt", 0) % NF].y4m || sc.geti("alpha", 0)))
        e.refuse = true;
    if (!c.audio && sc.geti("varfmt", 0))
        e.refuse = true;
    std::string of = sc.get("openfail", "");
    if ((of == "out.bin" && !sc.geti("stdout", 0) && !sc.geti("noout", 0)) || (of == "tc.txt" && sc.geti("tc", 0)) || (of == "props.json" && sc.geti("json", 0)))
        e.refuse = true;
    e.first = (int)(c.audio ? s / VS_AUDIO_FRAME_SAMPLES : s);
    e.last = (int)(c.audio ? t / VS_AUDIO_FRAME_SAMPLES : t);
    for (int f : c.fails)
        if (f >= e.first && f <= e.last)
            e.fail = std::min(e.fail, f);
    if (sc.geti("alpha", 0) && !c.audio)
        for (int f : a.fails)
            if (f >= e.first && f <= e.last)
                e.fail = std::min(e.fail, f);
    if (!c.audio && sc.geti("tc", 0))
        for (int f : c.nodur)
            if (f >= e.first && f <= e.last)
                e.nodur = std::min(e.nodur, f);
    return e;
}

// ------------------------------------------------------------------ side files
struct JP {
    const char *p, *e;
    bool ok = true;
    void ws() {
        while (p < e && (*p == ' ' || *p == '\t'))
            p++;
    }
    bool eat(char c) {
        ws();
        if (p < e && *p == c) {
            p++;
            return true;
        }
        return false;
    }
    std::string str() {
        std::string s;
        if (!eat('"')) {
            ok = false;
            return s;
        }
        while (p < e && *p != '"') {
            if (*p == '\\' && p + 1 < e) {
                p++;
                switch (*p) {
                case 'n': s += '\n'; break;
                case 't': s += '\t'; break;
                case 'r': s += '\r'; break;
                case 'b': s += '\b'; break;
                case 'f': s += '\f'; break;
                case 'u':
                    if (p + 4 < e) {
                        s += (char)strtol(std::string(p + 1, 4).c_str(), nullptr, 16);
                        p += 4;
                    }
                    break;
                default: s += *p;
                }
                p++;
            } else
                s += *p++;
        }
        if (p >= e)
            ok = false;
        p++;
        return s;
    }
    // a value in normal form: i123, f1.5, "text", [..]
    std::string val() {
        ws();
        if (p < e && *p == '"')
            return "\"" + str();
        if (eat('[')) {
            std::string r = "[";
            do
                r += val() + ",";
            while (ok && eat(','));
            if (!eat(']'))
                ok = false;
            return r + "]";
        }
        const char *b = p;
        while (p < e && (isalnum((unsigned char)*p) || strchr("+-.", *p)))
            p++;
        if (b == p)
            ok = false;
        char t[80];
        snprintf(t, sizeof t, "%.15g", strtod(std::string(b, p).c_str(), nullptr));
        std::string raw(b, p);
        return raw.find_first_of(".eE") == std::string::npos ? "i" + raw : std::string("f") + t;
    }
    std::map<std::string, std::string> obj() {
        std::map<std::string, std::string> m;
        if (!eat('{')) {
            ok = false;
            return m;
        }
        if (eat('}'))
            return m;
        do {
            std::string k = str();
            if (!eat(':'))
                ok = false;
            if (m.count(k))
                ok = false;
            m[k] = val();
        } while (ok && eat(','));
        if (!eat('}'))
            ok = false;
        return m;
    }
};
std::vector<std::string> lines_of(const std::string &s, std::string &rest) {
    std::vector<std::string> r;
    size_t b = 0;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '\n') {
            r.push_back(s.substr(b, i - b));
            b = i + 1;
        }
    rest = s.substr(b);
    return r;
}
void check_tc(const Scenario &sc, const Expect &e, bool complete) {
    ClipCfg c = base_cfg(sc, 0);
    shape(sc, c);
    std::string rest;
    auto ls = lines_of(W->tc->disk, rest);
    int n = e.last - e.first + 1;
    if (e.nodur != INT32_MAX)
        n = std::min(n, e.nodur - e.first + 1);
    if ((int)ls.size() > n + 1)
        bad_output("timecodes-too-many", "%lu lines of timecodes for %d frames", (unsigned long)ls.size(), n);
    if (!ls.empty() && ls[0].compare(0, 22, "# timecode format v2\n", 20))
        bad_output("timecodes-header", "the timecodes start with '%s'", ls[0].substr(0, 60).c_str());
    long double t = 0;
    for (size_t i = 1; i < ls.size(); i++) {
        char *end;
        double v = strtod(ls[i].c_str(), &end);
        if (ls[i].empty() || *end || fabs(v - (double)(t * 1000)) > 1e-6 * (1 + fabs(v)))
            bad_output("timecodes-value", "timecode %lu is '%s', expected %.9Lf", (unsigned long)i - 1, ls[i].substr(0, 60).c_str(), t * 1000);
        int64_t num, den;
        duration(c, e.first + (int)i - 1, num, den);
        t += (long double)num / (long double)den;
    }
    if (complete && ((int)ls.size() != n + 1 || !rest.empty())) {
        oracle("P15", "lost-output", "exit status 0 with %lu of %d lines of timecodes", (unsigned long)ls.size(), n + 1);
        oracle("P14", "timecodes-missing", "%lu of %d lines of timecodes", (unsigned long)ls.size(), n + 1);
    }
}
void check_json(const Scenario &sc, const Expect &e, bool complete) {
    ClipCfg c = base_cfg(sc, 0);
    shape(sc, c);
    std::string rest;
    auto ls = lines_of(W->json->disk, rest);
    int n = e.last - e.first + 1;
    if ((int)ls.size() > n + 2)
        bad_output("json-too-many", "%lu lines of properties for %d frames", (unsigned long)ls.size(), n);
    auto trim = [](const std::string &s) {
        size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
        return a == std::string::npos ? std::string() : s.substr(a, b - a + 1);
    };
    for (size_t i = 0; i < ls.size(); i++) {
        std::string l = trim(ls[i]);
        if (i == 0 || (int)i == n + 1) {
            if (l != (i ? "]" : "["))
                bad_output("json-frame", "line %lu of the properties is '%s'", (unsigned long)i, l.substr(0, 80).c_str());
            continue;
        }
        int f = e.first + (int)i - 1;
        bool last = (int)i == n;
        if (last == (l.empty() || l.back() == ','))
            bad_output("json-comma", "the line of frame %d of %d ends in '%s'", f, n, l.empty() ? "" : l.substr(l.size() - 1).c_str());
        JP j{l.data(), l.data() + l.size()};
        auto m = j.obj();
        std::map<std::string, std::string> x;
        char b[120];
        x["n"] = "i" + std::to_string(f);
        x["neg"] = "i" + std::to_string(-(int64_t)(hmix(c.seed, (uint64_t)f) >> 5));
        snprintf(b, sizeof b, "%.15g", (double)f / 8 + 0.5);
        x["fl"] = b;
        x["arr"] = "[i" + std::to_string(f) + ",i" + std::to_string(f * 2) + ",i" + std::to_string(-f) + ",]";
        snprintf(b, sizeof b, "\"q\"%d\\x", f);
        x["str"] = b;
        bool bad = std::find(c.nodur.begin(), c.nodur.end(), f) != c.nodur.end();
        if (!bad || c.badur) {
            int64_t num, den;
            duration(c, f, num, den);
            if (bad)
                (c.badur < 3 ? num : den) = c.badur % 2 ? 0 : -1;
            x["_DurationNum"] = "i" + std::to_string(num);
            x["_DurationDen"] = "i" + std::to_string(den);
        }
        if (!m.count("fl") || strtod(m["fl"].c_str() + 1, nullptr) != strtod(x["fl"].c_str(), nullptr))
            j.ok = false;
        m.erase("fl");
        x.erase("fl");
        if (!j.ok || m != x)
            bad_output("json-props", "the properties written for frame %d are %s", f, l.substr(0, 300).c_str());
    }
    if (complete && ((int)ls.size() != n + 2 || !rest.empty())) {
        oracle("P15", "lost-output", "exit status 0 with %lu of %d lines of properties", (unsigned long)ls.size(), n + 2);
        oracle("P14", "json-missing", "%lu of %d lines of properties", (unsigned long)ls.size(), n + 2);
    }
}

FaultKind kind_of(const std::string &s) {
    return s == "enospc" ? FK_ENOSPC : s == "eio" ? FK_EIO : s == "once" ? FK_EIO_ONCE : s == "epipe" ? FK_EPIPE : s == "close" ? FK_CLOSE : FK_NONE;
}

void pipe_run(const Scenario &sc) {
    W = new World;
    W->sc = &sc;
    API = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    W->wsleep = sc.geti("wsleep", 0);
    W->openfail = sc.get("openfail", "");
    bool to_stdout = sc.geti("stdout", 0);
    std::string what = sc.get("what", "render");
    bool audio = sc.geti("audio", 0);
    auto mk = [&](const char *name) {
        SimFile *f = new SimFile;
        f->name = name;
        f->buf = (int)std::max(16l, sc.geti("buf", 4096));
        f->chunk = (uint64_t)sc.geti("chunk", 0);
        W->files[name] = f;
        return f;
    };
    W->out = mk("out.bin");
    W->tc = mk("tc.txt");
    W->json = mk("props.json");
    // fault FILE KIND OFFSET
    for (auto &l : sc.lines) {
        char f[40], k[40];
        long at;
        if (sscanf(l.c_str(), "fault %39s %39s %ld", f, k, &at) == 3) {
            SimFile *x = !strcmp(f, "out") ? W->out : !strcmp(f, "tc") ? W->tc : W->json;
            x->fault = kind_of(k);
            x->at = (size_t)std::max(0l, at);
        }
    }
    Expect e = expect(sc);
    bool render = what == "render";
    if (render && !e.refuse) {
        int upto = INT32_MAX;
        if (e.fail != INT32_MAX)
            upto = e.fail - e.first; // no later frame is written
        if (e.nodur != INT32_MAX)
            upto = std::min(upto, e.nodur - e.first + 1);
        if (audio && e.fail != INT32_MAX) { // frames of the trimmed clip may span two of the source
            int64_t s = std::max(0l, sc.geti("start", 0));
            upto = std::max(0, (int)(((int64_t)e.fail * VS_AUDIO_FRAME_SAMPLES - s) / VS_AUDIO_FRAME_SAMPLES));
        }
        expected(sc, e, W->out->exp, W->out->headskip, upto);
    }
    W->out->exact = render;
    std::vector<std::string> av = {"vspipe"};
    auto opt = [&](const char *o, const std::string &v) {
        av.push_back(o);
        av.push_back(v);
    };
    if (sc.geti("start", 0) > 0)
        opt("-s", std::to_string(sc.geti("start", 0)));
    if (sc.geti("end", -1) >= 0)
        opt("-e", std::to_string(sc.geti("end", -1)));
    if (sc.geti("wantindex", sc.geti("index", 0)))
        opt("-o", std::to_string(sc.geti("wantindex", sc.geti("index", 0))));
    if (sc.geti("requests", 0))
        opt("-r", std::to_string(sc.geti("requests", 0)));
    if (strcmp(sc.get("container", "none"), "none"))
        opt("-c", sc.get("container", "none"));
    bool tc = sc.geti("tc", 0), js = sc.geti("json", 0);
    if (tc)
        opt("-t", "tc.txt");
    if (js)
        opt("-j", "props.json");
    if (sc.geti("progress", 0))
        av.push_back("-p");
    if (sc.geti("ftime", 0))
        av.push_back("--filter-time");
    if (what == "info")
        av.push_back("-i");
    av.push_back("script.vpy");
    bool none = sc.geti("noout", 0);
    av.push_back(none ? "--" : to_stdout ? "-" : "out.bin");
    std::vector<char *> argv;
    for (auto &a : av)
        argv.push_back(a.data());
    argv.push_back(nullptr);
    FILE *real_out = stdout, *real_err = stderr;
    if (to_stdout)
        stdout = open_sim(W->out);
    stderr = open_sim(&W->err);
    int rc = vspipe_main((int)av.size(), argv.data());
    rt_note("exit %d", rc);
    // the process ends: what stdio still holds is written now, whatever becomes of it
    for (auto &x : W->files)
        if (x.second->fp)
            fflush(x.second->fp);
    stdout = real_out;
    stderr = real_err;
    if (rt_verbose)
        dprintf(2, "[exit %d] %s\n", rc, W->err.disk.c_str());
    std::string last = W->err.disk.substr(0, 300);
    bool hit = W->out->hit || W->tc->hit || W->json->hit;
    bool out_open = !none && (W->out->opened);
    if (!render) {
        if (hit && !rc)
            oracle("P15", "lost-output", "exit status 0 although writing to %s failed", W->out->name.c_str());
        if (!hit && rc && !e.refuse)
            oracle("P14", "failed", "exit status %d without a reason: %s", rc, last.c_str());
        count(UC_STDOUT, to_stdout);
        return;
    }
    count(UC_OUTFRAMES, (uint64_t)std::max(0, e.last - e.first + 1));
    if (tc && !audio)
        count(UC_TIMECODES);
    if (js && !audio)
        count(UC_JSON);
    count(UC_STDOUT, to_stdout);
    if (e.refuse) {
        if (!rc && !hit)
            oracle("P14", "not-refused", "exit status 0 for a request that cannot be fulfilled");
        if (!rc)
            oracle("P15", "lost-output", "exit status 0 for a request that cannot be fulfilled");
        return;
    }
    bool mustfail = e.fail != INT32_MAX || e.nodur != INT32_MAX;
    if (!rc) {
        if (hit)
            oracle("P15", "lost-output", "exit status 0 although writing to %s failed", W->out->hit ? "the output" : W->tc->hit ? "the timecodes" : "the property file");
        if (mustfail)
            oracle("P14", "exit-status", "exit status 0 although frame %d could not be had", std::min(e.fail, e.nodur));
        if (mustfail)
            oracle("P15", "lost-output", "exit status 0 although frame %d could not be had", std::min(e.fail, e.nodur));
        if (out_open && W->out->disk.size() != W->out->exp.size() && !mustfail) {
            oracle("P15", "lost-output", "exit status 0 with %lu of %lu bytes written", (unsigned long)W->out->disk.size(), (unsigned long)W->out->exp.size());
            oracle("P14", "output-missing", "exit status 0 with %lu of %lu bytes written", (unsigned long)W->out->disk.size(), (unsigned long)W->out->exp.size());
        }
    } else if (!mustfail && !hit) {
        oracle("P14", "failed", "exit status %d without a reason: %s", rc, last.c_str());
        oracle("P15", "failed", "exit status %d without a reason: %s", rc, last.c_str());
    }
    if (!audio && tc)
        check_tc(sc, e, !rc);
    if (!audio && js)
        check_json(sc, e, !rc);
}

void gen(Rng &r, Scenario &s, bool faults) {
    gen_search(r, s);
    bool audio = r.chance(0.25);
    s.add("cfg content %ld", r.range(1, 1000000));
    s.add("cfg audio %d", audio);
    long frames = r.chance(0.3) ? r.range(1, 3) : r.range(2, 24);
    long samples = r.chance(0.3) ? r.range(1, 400) : r.range(1, 8 * VS_AUDIO_FRAME_SAMPLES);
    if (audio && r.chance(0.3))
        samples = r.range(1, 5) * VS_AUDIO_FRAME_SAMPLES;
    long len = audio ? samples : frames;
    bool y4m = false, alpha = false;
    if (audio) {
        s.add("cfg samples %ld", samples);
        s.add("cfg fmt %ld", r.range(0, NA - 1));
        s.add("cfg container %s", r.chance(0.35) ? "wav" : r.chance(0.5) ? "w64" : r.chance(0.05) ? "y4m" : "none");
    } else {
        s.add("cfg frames %ld", frames);
        long f = r.range(0, NF - 1);
        s.add("cfg fmt %ld", f);
        s.add("cfg w %ld", r.range(1, 12));
        s.add("cfg h %ld", r.range(1, 5));
        alpha = r.chance(0.3);
        y4m = r.chance(0.4) && ((fmts[f].y4m && !alpha) || r.chance(0.05));
        if (alpha)
            s.add("cfg alpha 1");
        s.add("cfg container %s", y4m ? "y4m" : r.chance(0.01) ? "wav" : "none");
        if (r.chance(0.5))
            s.add("cfg tc 1");
        if (r.chance(0.5))
            s.add("cfg json 1");
        s.add("cfg durk %ld", r.range(0, 5));
    }
    long a = 0, b = len - 1;
    if (r.chance(0.35)) {
        a = r.range(0, len - 1);
        b = r.range(a, len - 1);
        if (r.chance(0.06))
            (r.chance(0.5) ? a : b) += r.range(1, len);
        if (a || r.chance(0.2))
            s.add("cfg start %ld", a);
        if (b != len - 1 || r.chance(0.3))
            s.add("cfg end %ld", b);
    }
    if (r.chance(0.8))
        s.add("cfg requests %ld", r.chance(0.3) ? r.range(1, 2) : r.range(1, 12));
    s.add("cfg threads %ld", r.range(1, 5));
    s.add("cfg mode0 %ld", r.range(0, 3));
    s.add("cfg stages %ld", r.range(0, 2));
    if (r.chance(0.6))
        s.add("cfg slow %ld", r.chance(0.5) ? 50L : 5000L);
    if (r.chance(0.3))
        s.add("cfg wsleep %ld", r.range(1, 300));
    if (r.chance(0.3))
        s.add("cfg progress 1");
    if (r.chance(0.1))
        s.add("cfg ftime 1");
    if (r.chance(0.35))
        s.add("cfg stdout 1");
    else if (r.chance(0.05))
        s.add("cfg noout 1");
    static const long bufs[] = {64, 512, 4096, 4096, 65536};
    s.add("cfg buf %ld", bufs[r.below(5)]);
    if (r.chance(0.4))
        s.add("cfg chunk %ld", r.range(1, 1000000));
    if (r.chance(0.1))
        s.add("cfg mem %ld", r.range(1, 40) * 1000);
    if (r.chance(0.05))
        s.add("cfg index %ld", r.range(1, 3));
    if (r.chance(0.02))
        s.add("cfg wantindex 7");
    if (r.chance(0.02))
        s.add("cfg varfmt 1");
    if (r.chance(0.02))
        s.add("cfg scriptfail %ld", r.range(1, 3));
    if (r.chance(0.02))
        s.add("cfg openfail %s", r.chance(0.4) ? "out.bin" : r.chance(0.5) ? "tc.txt" : "props.json");
    if (!faults && r.chance(0.25)) {
        long nf = audio ? (len - 1) / VS_AUDIO_FRAME_SAMPLES : len - 1;
        std::string l;
        for (long k = r.range(1, 3); k > 0; k--)
            l += (l.empty() ? "" : ",") + std::to_string(r.range(0, nf));
        s.add("cfg %s %s", alpha && r.chance(0.5) ? "afails" : "fails", l.c_str());
    }
    if (!audio && r.chance(0.04))
        s.add("cfg nodur %ld", r.range(0, len - 1)), s.add("cfg badur %ld", r.range(0, 4));
    if (faults && r.chance(0.06))
        s.add("cfg what info");
    if (faults && r.chance(0.85)) {
        Expect e = expect(s);
        long tot = 2000;
        if (!e.refuse) {
            std::string o;
            size_t h;
            expected(s, e, o, h, INT32_MAX);
            tot = (long)o.size();
        }
        long nfl = r.chance(0.8) ? 1 : 2;
        static const char *ks[] = {"enospc", "eio", "once", "epipe", "close"};
        for (long k = 0; k < nfl; k++) {
            int w = (int)r.below(audio ? 1 : 3);
            const char *kd = ks[r.below(5)];
            long size = w == 0 ? tot : w == 1 ? 22 + 25 * (b - a + 1) : 4 + 120 * (b - a + 1);
            long at = r.chance(0.25) ? size - 1 - (long)r.below(300) : r.chance(0.15) ? (long)r.below(60) : (long)r.below((uint64_t)size + 1);
            s.add("fault %s %s %ld", w == 0 ? "out" : w == 1 ? "tc" : "json", kd, std::max(0l, at));
        }
    }
}
} // namespace

void gen_pipe_P14(Rng &r, int, Scenario &s) {
    API = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    gen(r, s, false);
}
void gen_pipe_P15(Rng &r, int, Scenario &s) {
    API = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    gen(r, s, true);
}
void run_pipe(const Scenario &sc) { pipe_run(sc); }
