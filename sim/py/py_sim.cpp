// The Python module on the simulated engine: an embedded interpreter whose threads, locks and timed waits
// (and with them the global interpreter lock) are the simulator's. driver.py runs the scenario.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "../sim.h"
#include "VapourSynth4.h"
#include "cpufeatures.h"
#include <dlfcn.h>
#include <map>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>

extern size_t rt_stack_size;
#define X extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------------ requests made by the module
namespace {
struct Acc { // requests made through one "tap" node
    long issued = 0, answered = 0, delivered = 0;
    long prefetch = -1, backlog = -1; // limits of the iterator using it
    bool in_next = false;
    int node_frames = 0;
};
std::map<VSNode *, long> tap_of;
std::map<long, Acc> taps;
long total_issued, total_answered;
const VSAPI *real_api;
VSAPI api;

struct Req {
    VSFrameDoneCallback cb;
    void *ud;
    long tap;
    int n;
    bool answered = false;
};
void VS_CC on_done(void *ud, const VSFrame *f, int n, VSNode *node, const char *msg) {
    Req *r = (Req *)ud;
    if (r->answered)
        oracle("P17", "answered-twice", "request %d is answered twice", r->n);
    r->answered = true;
    total_answered++;
    count(f ? UC_ANS_FRAME : UC_ANS_ERROR);
    if (r->tap >= 0)
        taps[r->tap].answered++;
    r->cb(r->ud, f, n, node, msg);
    delete r;
}
void VS_CC get_frame_async(int n, VSNode *node, VSFrameDoneCallback cb, void *ud) noexcept {
    auto it = tap_of.find(node);
    Req *r = new Req{cb, ud, it == tap_of.end() ? -1 : it->second, n};
    total_issued++;
    count(UC_REQ_ASYNC);
    if (r->tap >= 0) {
        Acc &a = taps[r->tap];
        if (a.prefetch > 0) {
            if (n != a.issued)
                oracle("P17", "request-order", "iterator %ld requests frame %d after %ld requests", r->tap, n, a.issued);
            a.issued++;
            if (a.issued - a.answered > a.prefetch)
                oracle("P17", "prefetch-exceeded", "iterator %ld has %ld requests outstanding, its prefetch is %ld", r->tap, a.issued - a.answered, a.prefetch);
            if (a.issued - a.delivered - (a.in_next ? 1 : 0) > a.backlog)
                oracle("P17", "backlog-exceeded", "iterator %ld has %ld frames requested or waiting, its backlog is %ld", r->tap, a.issued - a.delivered, a.backlog);
        } else
            a.issued++;
    }
    real_api->getFrameAsync(n, node, on_done, r);
}

// ------------------------------------------------------------------ the filters of the simulation
struct Src {
    VSVideoInfo vi;
    int id;
    long cost, text, chat, alpha;
    std::vector<int> fails, slow;
    VSNode *hold;
};
// Filters and the functions in the properties of frames may log when they are freed, wherever that happens.
struct Chat {
    const VSAPI *v;
    VSCore *core;
    VSNode *hold; // functions don't keep the core, nodes do
    int id, n;
};
const VSFrame *VS_CC hold_get(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) { return nullptr; }
void VS_CC hold_free(void *, VSCore *, const VSAPI *) {}
void VS_CC chat_call(const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}
void VS_CC func_call(const VSMap *in, VSMap *out, void *p, VSCore *core, const VSAPI *v) {
    int e;
    long x = (long)v->mapGetInt(in, "x", 0, &e);
    v->logMessage(mtInformation, ("simchat call of " + std::to_string(*(long *)p)).c_str(), core);
    v->mapSetInt(out, "val", *(long *)p + x, maReplace);
}
void VS_CC func_free(void *p) { delete (long *)p; }
void VS_CC chat_free(void *p) {
    Chat *c = (Chat *)p;
    count(UC_LOGS);
    c->v->logMessage(mtInformation, ("simchat function of frame " + std::to_string(c->n) + " of source " + std::to_string(c->id)).c_str(), c->core);
    c->v->freeNode(c->hold);
    delete c;
}
const VSFrame *VS_CC src_get(int n, int ar, void *inst, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *v) {
    Src *s = (Src *)inst;
    if (ar != arInitial)
        return nullptr;
    count(UC_FILTER_CALLS);
    if (s->chat & 4) {
        count(UC_LOGS);
        v->logMessage(mtInformation, ("simchat frame " + std::to_string(n) + " of source " + std::to_string(s->id)).c_str(), core);
    }
    if (s->cost) {
        long c = (long)(hmix((uint64_t)n * 31 + (uint64_t)s->id, 5) % (uint64_t)(s->cost * 2000));
        for (int x : s->slow)
            if (x == n)
                c += s->cost * 20000;
        rt_sleep_ns((uint64_t)c);
    }
    for (int f : s->fails)
        if (f == n) {
            count(UC_FAIL_INJECTED);
            std::string b = "simfail " + std::to_string(s->id) + " " + std::to_string(n) + " ";
            if (s->text == 1) // nothing says that these are utf-8
                b += "\xe9t\xe9\xff \xc3";
            else if (s->text >= 2) // longer than the buffers, which end within a character
                for (b.append((size_t)s->text, '.'); b.size() < 6000;)
                    b += "\xe2\x82\xac";
            v->setFilterError(b.c_str(), ctx);
            return nullptr;
        }
    VSFrame *f = v->newVideoFrame(&s->vi.format, s->vi.width, s->vi.height, nullptr, core);
    for (int p = 0; p < s->vi.format.numPlanes; p++) {
        uint8_t *d = v->getWritePtr(f, p);
        ptrdiff_t st = v->getStride(f, p);
        int h = v->getFrameHeight(f, p), w = v->getFrameWidth(f, p) * s->vi.format.bytesPerSample;
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++)
                d[y * st + x] = (uint8_t)(s->id * 101 + n * 7 + p * 3 + y * 5 + x);
    }
    VSMap *m = v->getFramePropertiesRW(f);
    v->mapSetInt(m, "SimSrc", s->id, maReplace);
    v->mapSetInt(m, "SimN", n, maReplace);
    if (s->alpha == 3)
        v->mapSetInt(m, "_Alpha", 3, maReplace);
    else if (s->alpha) { // not always as big as the frame
        VSVideoFormat gray;
        v->queryVideoFormat(&gray, cfGray, stInteger, 8, 0, 0, core);
        VSFrame *a = v->newVideoFrame(&gray, s->alpha == 1 ? s->vi.width : s->alpha == 2 ? s->vi.width + 40 : s->vi.width / 2, s->alpha == 1 ? s->vi.height : s->alpha == 2 ? s->vi.height * 3 : 1, nullptr, core);
        for (int y = 0; y < v->getFrameHeight(a, 0); y++)
            for (int x = 0; x < v->getFrameWidth(a, 0); x++)
                v->getWritePtr(a, 0)[y * v->getStride(a, 0) + x] = (uint8_t)(s->id * 101 + n * 7 + 50 + y * 5 + x);
        v->mapConsumeFrame(m, "_Alpha", a, maReplace);
    }
    if (s->chat & 8)
        v->mapConsumeFunction(m, "SimCall", v->createFunction(func_call, new long(s->id * 1000000L + n * 1000L), func_free, core), maReplace);
    if (s->chat & 2)
        v->mapConsumeFunction(m, "SimFn", v->createFunction(chat_call, new Chat{v, core, v->addNodeRef(s->hold), s->id, n}, chat_free, core), maReplace);
    return f;
}
void VS_CC src_free(void *inst, VSCore *core, const VSAPI *v) {
    Src *s = (Src *)inst;
    if (s->chat & 1) {
        count(UC_LOGS);
        v->logMessage(mtInformation, ("simchat end of source " + std::to_string(s->id)).c_str(), core);
    }
    v->freeNode(s->hold);
    delete s;
}
void VS_CC src_create(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *v) {
    Src *s = new Src;
    int e;
    s->id = v->mapGetIntSaturated(in, "id", 0, nullptr);
    s->cost = (long)v->mapGetInt(in, "cost", 0, &e);
    s->text = (long)v->mapGetInt(in, "text", 0, &e);
    s->chat = (long)v->mapGetInt(in, "chat", 0, &e);
    s->alpha = (long)v->mapGetInt(in, "alpha", 0, &e);
    for (int i = 0; i < v->mapNumElements(in, "fails"); i++)
        s->fails.push_back((int)v->mapGetInt(in, "fails", i, nullptr));
    for (int i = 0; i < v->mapNumElements(in, "slow"); i++)
        s->slow.push_back((int)v->mapGetInt(in, "slow", i, nullptr));
    memset(&s->vi, 0, sizeof(s->vi));
    v->getVideoFormatByID(&s->vi.format, (uint32_t)v->mapGetInt(in, "format", 0, nullptr), core);
    s->vi.fpsNum = 25;
    s->vi.fpsDen = 1;
    s->vi.width = v->mapGetIntSaturated(in, "width", 0, nullptr);
    s->vi.height = v->mapGetIntSaturated(in, "height", 0, nullptr);
    s->vi.numFrames = v->mapGetIntSaturated(in, "frames", 0, nullptr);
    s->hold = s->chat & 2 ? v->createVideoFilter2("SimHold", &s->vi, hold_get, hold_free, fmParallel, nullptr, 0, nullptr, core) : nullptr;
    v->createVideoFilter(out, "SimSource", &s->vi, src_get, src_free, (int)v->mapGetInt(in, "mode", 0, nullptr), nullptr, 0, s, core);
}
struct Tap {
    VSNode *node;
    VSNode *self;
    long id;
};
const VSFrame *VS_CC tap_get(int n, int ar, void *inst, void **, VSFrameContext *ctx, VSCore *, const VSAPI *v) {
    Tap *t = (Tap *)inst;
    if (ar == arInitial)
        v->requestFrameFilter(n, t->node, ctx);
    else if (ar == arAllFramesReady)
        return v->getFrameFilter(n, t->node, ctx);
    return nullptr;
}
void VS_CC tap_free(void *inst, VSCore *, const VSAPI *v) {
    Tap *t = (Tap *)inst;
    auto it = tap_of.find(t->self);
    if (it != tap_of.end() && it->second == t->id)
        tap_of.erase(it);
    v->freeNode(t->node);
    delete t;
}
void VS_CC tap_create(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *v) {
    Tap *t = new Tap;
    t->node = v->mapGetNode(in, "clip", 0, nullptr);
    t->id = (long)v->mapGetInt(in, "id", 0, nullptr);
    VSFilterDependency d = {t->node, rpStrictSpatial};
    VSNode *n = v->createVideoFilter2("SimTap", v->getVideoInfo(t->node), tap_get, tap_free, fmParallel, &d, 1, t, core);
    t->self = n;
    tap_of[n] = t->id;
    taps[t->id] = Acc();
    v->mapConsumeNode(out, "clip", n, maReplace);
}
void VS_CC log_call(const VSMap *in, VSMap *, void *, VSCore *core, const VSAPI *v) { v->logMessage(mtInformation, v->mapGetData(in, "msg", 0, nullptr), core); }
void VS_CC plugin_init(VSPlugin *p, const VSPLUGINAPI *v) {
    v->configPlugin("sim.sim", "sim", "simulated sources", 1, VAPOURSYNTH_API_VERSION, 0, p);
    v->registerFunction("Source", "id:int;frames:int;width:int;height:int;format:int;cost:int:opt;fails:int[]:opt;slow:int[]:opt;mode:int;text:int:opt;chat:int:opt;alpha:int:opt;", "clip:vnode;", src_create, nullptr, p);
    v->registerFunction("Tap", "clip:vnode;id:int;", "clip:vnode;", tap_create, nullptr, p);
    v->registerFunction("Log", "msg:data;", "", log_call, nullptr, p);
}
char plugin_handle;
long plugin_uses; // cores that have loaded it and still exist
} // namespace

X const VSAPI *getVapourSynthAPI(int) noexcept {
    if (!real_api) {
        typedef const VSAPI *(*fn)(int);
        real_api = ((fn)dlsym(RTLD_NEXT, "getVapourSynthAPI"))(VAPOURSYNTH_API_VERSION);
        api = *real_api;
        api.getFrameAsync = get_frame_async;
    }
    return &api;
}
long py_cores() { return plugin_uses; }
X int __wrap_system(const char *c) {
    oracle("P23", "system", "a command is run: %s", c);
    return -1;
}
X FILE *__wrap_fopen(const char *n, const char *m) { return fopen(n, m); }
X void *__wrap_dlopen(const char *path, int mode) { return path && strstr(path, "simsource.so") ? (plugin_uses++, (void *)&plugin_handle) : dlopen(path, mode); }
X void *__wrap_dlsym(void *h, const char *name) {
    if (h == &plugin_handle)
        return strcmp(name, "VapourSynthPluginInit2") ? nullptr : (void *)plugin_init;
    return dlsym(h, name);
}
X int __wrap_dlclose(void *h) { return h == &plugin_handle ? (plugin_uses--, 0) : dlclose(h); }
X char *__wrap_dlerror() { return dlerror(); }
X int __wrap_doGetX86ABILevel() { return 1; }
X const void *__wrap_getCPUFeatures() {
    static CPUFeatures none = []() {
        CPUFeatures f = {};
        f.can_run_vs = 1;
        return f;
    }();
    return &none;
}

// ------------------------------------------------------------------ module used by driver.py
static PyObject *h_oracle(PyObject *, PyObject *a) {
    const char *p, *k, *m;
    if (!PyArg_ParseTuple(a, "sss", &p, &k, &m))
        return nullptr;
    char d[3000];
    rt_describe_threads(d, sizeof(d));
    oracle(p, k, "%s; threads:%s", m, d);
    Py_RETURN_NONE;
}
static PyObject *h_note(PyObject *, PyObject *a) {
    const char *m;
    if (!PyArg_ParseTuple(a, "s", &m))
        return nullptr;
    rt_note("%s", m);
    Py_RETURN_NONE;
}
static PyObject *h_count(PyObject *, PyObject *a) {
    const char *n;
    long k = 1;
    if (!PyArg_ParseTuple(a, "s|l", &n, &k))
        return nullptr;
    for (int i = 0; i < UC_MAX; i++)
        if (!strcmp(user_counter_names[i], n))
            count((UserCounter)i, (uint64_t)k);
    Py_RETURN_NONE;
}
static PyObject *h_sleep(PyObject *, PyObject *a) {
    long us;
    if (!PyArg_ParseTuple(a, "l", &us))
        return nullptr;
    Py_BEGIN_ALLOW_THREADS
    rt_sleep_ns((uint64_t)us * 1000);
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}
static std::map<long, long> marks;
long py_marks(long id) { return marks.count(id) ? marks[id] : 0; }
static PyObject *h_mark(PyObject *, PyObject *a) {
    long id;
    if (!PyArg_ParseTuple(a, "l", &id))
        return nullptr;
    marks[id]++;
    Py_RETURN_NONE;
}
static PyObject *h_now(PyObject *, PyObject *) { return PyLong_FromUnsignedLongLong(rt_now_ns()); }
static PyObject *h_cores(PyObject *, PyObject *) { return PyLong_FromLong(plugin_uses); }
static PyObject *h_limits(PyObject *, PyObject *a) {
    long id, p, b;
    if (!PyArg_ParseTuple(a, "lll", &id, &p, &b))
        return nullptr;
    taps[id].prefetch = p;
    taps[id].backlog = b;
    Py_RETURN_NONE;
}
static PyObject *h_next(PyObject *, PyObject *a) { // the iterator is about to be asked for a frame (1) or has just delivered one (0) or has ended (-1)
    long id, what;
    if (!PyArg_ParseTuple(a, "ll", &id, &what))
        return nullptr;
    Acc &t = taps[id];
    t.in_next = what == 1;
    if (what == 0)
        t.delivered++;
    Py_RETURN_NONE;
}
static PyObject *h_stats(PyObject *, PyObject *a) {
    long id;
    if (!PyArg_ParseTuple(a, "l", &id))
        return nullptr;
    if (id < 0)
        return Py_BuildValue("ll", total_issued, total_answered);
    Acc &t = taps[id];
    return Py_BuildValue("ll", t.issued, t.answered);
}
static PyMethodDef methods[] = {{"oracle", h_oracle, METH_VARARGS, ""}, {"note", h_note, METH_VARARGS, ""}, {"count", h_count, METH_VARARGS, ""}, {"sleep", h_sleep, METH_VARARGS, ""}, {"now", h_now, METH_NOARGS, ""}, {"mark", h_mark, METH_VARARGS, ""},
                                {"cores", h_cores, METH_NOARGS, ""}, {"limits", h_limits, METH_VARARGS, ""}, {"next", h_next, METH_VARARGS, ""}, {"stats", h_stats, METH_VARARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static PyModuleDef moddef = {PyModuleDef_HEAD_INIT, "_simhost", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};
static PyObject *mod_init() { return PyModule_Create(&moddef); }

// ------------------------------------------------------------------ allocations are preemption points
static PyMemAllocatorEx base_alloc;
static void *al_malloc(void *, size_t n) {
    rt_read_range(&base_alloc, 1);
    return base_alloc.malloc(base_alloc.ctx, n);
}
static void *al_calloc(void *, size_t n, size_t m) {
    rt_read_range(&base_alloc, 1);
    return base_alloc.calloc(base_alloc.ctx, n, m);
}
static void *al_realloc(void *, void *p, size_t n) { return base_alloc.realloc(base_alloc.ctx, p, n); }
static void al_free(void *, void *p) { base_alloc.free(base_alloc.ctx, p); }

static PyObject *driver;
static void die(const char *what) {
    PyErr_Print();
    fprintf(stderr, "pysim: %s failed\n", what);
    exit(3);
}
void py_warm() {
    static bool done = false;
    if (done)
        return;
    done = true;
    rt_stack_size = 4 << 20;
    const VSAPI *v = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    VSCore *c = v->createCore(ccfDisableAutoLoading | ccfDisableLibraryUnloading);
    v->freeCore(c);
    PyImport_AppendInittab("_simhost", mod_init);
    PyConfig cfg;
    PyConfig_InitIsolatedConfig(&cfg);
    cfg.use_hash_seed = 1;
    cfg.hash_seed = 0;
    cfg.site_import = 0;
    cfg.write_bytecode = 0;
    cfg.install_signal_handlers = 0;
    PyConfig_SetString(&cfg, &cfg.program_name, L"/usr/bin/python3");
    PyConfig_SetString(&cfg, &cfg.executable, L"/usr/bin/python3");
    if (PyStatus_Exception(Py_InitializeFromConfig(&cfg)))
        die("Py_Initialize");
    std::string boot = "import sys\nsys.path.insert(0, '" SIM_ROOT "/sim/py')\nSIM_REPO, SIM_EXT = '" SIM_REPO "', '" SIM_BUILD "/pyext'\n";
    PyObject *m = PyImport_AddModule("__main__");
    PyObject *d = PyModule_GetDict(m);
    PyObject *r = PyRun_String(boot.c_str(), Py_file_input, d, d);
    if (!r)
        die("start");
    driver = PyImport_ImportModule("driver");
    if (!driver)
        die("import of the driver");
    PyMem_GetAllocator(PYMEM_DOMAIN_OBJ, &base_alloc);
    PyMemAllocatorEx al = {nullptr, al_malloc, al_calloc, al_realloc, al_free};
    PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &al);
    rt_add_globals();
}
void run_py(const Scenario &s) {
    PyObject *l = PyList_New(0);
    for (auto &x : s.lines) {
        PyObject *u = PyUnicode_FromString(x.c_str());
        PyList_Append(l, u);
    }
    PyObject *r = PyObject_CallMethod(driver, "run", "sO", g_prop.c_str(), l);
    if (!r) {
        PyErr_Print();
        rt_inconclusive("the driver raised an exception");
    }
}
