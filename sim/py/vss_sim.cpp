// VSScript: an application that creates, evaluates, queries and frees scripts from several threads at once. The
// real src/vsscript and the real Python module run on the simulated engine; the scripts are generated with a model.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "../sim.h"
#include "VSScript4.h"
#include "VapourSynth4.h"
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <filesystem>
#include <map>
#include <math.h>
#include <pthread.h>
#include <set>
#include <sstream>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

long py_marks(long id);
long py_cores(); // cores that loaded the simulated plugin and still exist

namespace {
typedef std::vector<std::string> Words;
Words split(const std::string &s, char c) {
    Words r;
    std::stringstream ss(s);
    for (std::string x; std::getline(ss, x, c);)
        if (c != ' ' || !x.empty())
            r.push_back(x);
    return r;
}
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char *f, ...) {
    char b[1000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof(b), f, ap);
    va_end(ap);
    return b;
}

// ------------------------------------------------------------------ model of what scripts define
struct Clip {
    std::string kind; // src, eval, modf
    int src = 0, frames = 0, k = 0;
    std::set<int> fails;
    int dep = -1;
};
struct Out {
    int clip, alpha, mode;
};
enum State { NONE, READY, FAILED, BUSY, FREED };
struct Script {
    int id = 0;
    VSScript *h = nullptr;
    VSCore *core = nullptr;
    State state = NONE;
    int users = 0;
    bool appcore = false, evaluated = false;
    std::vector<Clip> clips;
    std::map<int, Out> outs;
    std::map<std::string, std::string> vars; // "i5", "f1.5", "sabc", "L1,2,3", "c0"
    std::string error;
    int exitcode = 0, evals = 0;
    std::map<int, int> marks; // registered destruction callbacks
    std::map<std::string, int> logs; // expected messages
    std::map<std::string, int> logged;
    int handler_frees = 0, functions = 0, function_frees = 0;
};
struct Held {
    const VSFrame *f;
    Script *s;
    int clip, n;
};
struct Vss {
    const Scenario *sc;
    const VSAPI *api = nullptr;
    std::map<int, Script *> scripts;
    pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
    std::vector<Held> held;
    std::string cwd;
};
Vss *V;

// "" and the expected properties, or the text of the error
std::string result(Script *s, int c, int n, std::map<std::string, long> &props) {
    const Clip &x = s->clips[(size_t)c];
    if (x.kind == "src") {
        if (x.fails.count(n))
            return fmt("simfail %d %d", x.src, n);
        props["SimSrc"] = x.src;
        props["SimN"] = n;
        return "";
    }
    std::string e;
    if (x.kind == "modf" && !(e = result(s, x.dep, n, props)).empty())
        return e;
    if (x.fails.count(n))
        return fmt("evfail %d %d %d", s->id, x.k, n);
    if (x.kind == "eval" && !(e = result(s, x.dep, n, props)).empty())
        return e;
    props[fmt("Tag%d", x.k)] = s->id * 1000 + n;
    return "";
}
void check_frame(Script *s, int c, int n, const VSFrame *f, const char *how) {
    std::map<std::string, long> p;
    std::string e = result(s, c, n, p);
    count(UC_VALUE_CHECKS);
    if (!e.empty()) {
        oracle("P23", "frame-instead-of-error", "%s request for frame %d of clip %d of script %d got a frame instead of: %s", how, n, c, s->id, e.c_str());
        return;
    }
    const VSMap *m = V->api->getFramePropertiesRO(f);
    for (auto &x : p) {
        int err = 0;
        int64_t v = V->api->mapGetInt(m, x.first.c_str(), 0, &err);
        if (err || v != x.second)
            oracle("P23", "wrong-frame", "%s request for frame %d of clip %d of script %d got a frame whose property %s is %ld instead of %ld", how, n, c, s->id, x.first.c_str(), err ? -1L : (long)v, x.second);
    }
    uint8_t want = (uint8_t)(p["SimSrc"] * 101 + n * 7);
    if (V->api->getReadPtr(f, 0)[0] != want)
        oracle("P23", "wrong-frame", "%s request for frame %d of clip %d of script %d got wrong pixels", how, n, c, s->id);
}
void check_failure(Script *s, int c, int n, const char *msg, const char *how) {
    std::map<std::string, long> p;
    std::string e = result(s, c, n, p);
    if (e.empty())
        oracle("P23", "unexpected-error", "%s request for frame %d of clip %d of script %d failed: %s", how, n, c, s->id, msg);
    else if (!strstr(msg, e.c_str()))
        oracle("P23", "wrong-error", "%s request for frame %d of clip %d of script %d failed with \"%s\" instead of \"%s\"", how, n, c, s->id, msg, e.c_str());
}

// ------------------------------------------------------------------ scripts
const char *const PROLOGUE = "import vapoursynth as vs\nfrom vapoursynth import core\nimport _simhost, warnings, logging, os, sys\n";
// appends to the model what the script does up to its end or failure; returns the text
std::string script_text(Script *s, const Words &w, const char *file) {
    std::string t = PROLOGUE;
    s->error.clear();
    if (!s->evaluated)
        t += "core.std.LoadPlugin('/simulated/simsource.so')\n";
    t += fmt("core.max_cache_size = %d\n", 1000 + s->id);
    t += fmt("def me(what):\n    try: m = vs.core.max_cache_size - 1000\n    except vs.Error: m = 'none'\n    if m != %d:\n        _simhost.oracle('P23', 'wrong-core', what + ' of script %d runs with the core of script %%s' %% m)\n", s->id, s->id);
    t += "me('the text')\n";
    s->evaluated = true;
    bool dead = false;
    for (auto &word : w) {
        Words a = split(word, ':');
        const std::string &k = a[0];
        auto I = [&](size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; };
        auto ints = [&](size_t i) {
            std::set<int> r;
            if (i < a.size() && a[i] != "-")
                for (auto &x : split(a[i], ','))
                    r.insert(atoi(x.c_str()));
            return r;
        };
        auto has = [&](int c) { return c >= 0 && c < (int)s->clips.size(); };
        int nc = (int)s->clips.size();
        if (k == "src") { // src:frames:cost:fails
            Clip c;
            c.kind = k;
            c.src = (s->id * 10 + nc) % 20000;
            c.frames = I(1);
            c.fails = ints(3);
            std::string l;
            for (int x : c.fails)
                l += fmt("%s%d", l.empty() ? "" : ", ", x);
            t += fmt("c%d = core.sim.Source(id=%d, frames=%d, width=16, height=4, format=vs.GRAY8, cost=%d, mode=%d, text=%d%s)\n", nc, c.src, c.frames, I(2), nc % 3, I(2) % 8 < 5 ? I(2) % 8 : 0, l.empty() ? "" : (", fails=[" + l + "]").c_str());
            if (!dead)
                s->clips.push_back(c);
        } else if ((k == "eval" || k == "modf") && has(I(1))) { // eval:dep:fails
            Clip c;
            c.kind = k;
            c.dep = I(1);
            c.k = nc;
            c.frames = s->clips[(size_t)c.dep].frames;
            c.fails = ints(2);
            std::string l = "(";
            for (int x : c.fails)
                l += fmt("%d,", x);
            l += ")";
            t += fmt("def fe%d(n%s):\n    me('a function for frames')\n    if n in %s: raise %s('evfail %d %d %%d%s' %% n)\n", nc, k == "modf" ? ", f" : "", l.c_str(), nc % 4 == 3 ? "KeyboardInterrupt" : "ValueError", s->id, nc, (s->id + nc) % 3 ? "" : " \\udce9");
            if (k == "modf")
                t += fmt("    g = f.copy()\n    g.props['Tag%d'] = %d + n\n    return g\nc%d = core.std.ModifyFrame(c%d, c%d, fe%d)\n", nc, s->id * 1000, nc, c.dep, c.dep, nc);
            else
                t += fmt("    return core.std.SetFrameProps(c%d, Tag%d=%d + n)\nc%d = core.std.FrameEval(c%d, fe%d)\n", c.dep, nc, s->id * 1000, nc, c.dep, nc);
            if (!dead)
                s->clips.push_back(c);
        } else if (k == "out" && has(I(2))) { // out:index:clip:alpha:mode
            int al = a.size() > 3 && has(I(3)) && s->clips[(size_t)I(3)].frames == s->clips[(size_t)I(2)].frames ? I(3) : -1;
            t += al >= 0 ? fmt("c%d.set_output(%d, alpha=c%d, alt_output=%d)\n", I(2), I(1), al, I(4)) : fmt("c%d.set_output(%d)\n", I(2), I(1));
            if (!dead)
                s->outs[I(1)] = {I(2), al, al >= 0 ? I(4) : 0};
        } else if (k == "clear") {
            t += I(1) < 0 ? "vs.clear_outputs()\n" : fmt("vs.clear_output(%d)\n", I(1));
            if (!dead) {
                if (I(1) < 0)
                    s->outs.clear();
                else
                    s->outs.erase(I(1));
            }
        } else if (k == "get" && has(I(1))) { // get:clip:n
            int n = I(2) % s->clips[(size_t)I(1)].frames;
            std::map<std::string, long> p;
            std::string e = result(s, I(1), n, p);
            t += fmt("with c%d.get_frame(%d) as f:\n    g = f.props['SimN']\n", I(1), n);
            if (!dead && !e.empty()) {
                s->error = e;
                dead = true;
            } else if (!dead)
                s->vars["g"] = fmt("i%d", n);
        } else if (k == "async" && has(I(1))) { // async:clip:n:how
            int n = I(2) % s->clips[(size_t)I(1)].frames;
            t += I(3) ? fmt("c%d.get_frame_async(%d, lambda f, e: me('a completion function'))\n", I(1), n) : fmt("fut = c%d.get_frame_async(%d)\n", I(1), n);
        } else if (k == "iter" && has(I(1))) { // an iterator that is left standing
            std::map<std::string, long> p;
            std::string e = result(s, I(1), 0, p);
            t += fmt("it = c%d.frames(prefetch=%d)\ng = next(it).props['SimN']\n", I(1), 1 + I(2) % 4);
            if (!dead && !e.empty()) {
                s->error = e;
                dead = true;
            } else if (!dead)
                s->vars["g"] = "i0";
        } else if (k == "var") { // var:name:value
            const std::string &v = a[2];
            std::string r = v[0] == 's' ? "'" + v.substr(1) + "'" : v[0] == 'L' ? "[" + v.substr(1) + "]" : v.substr(1);
            t += a[1] + " = " + r + "\n";
            if (!dead)
                s->vars[a[1]] = v;
        } else if (k == "use") {
            t += "u = sv + 1\n";
            auto it = s->vars.find("sv");
            if (!dead && it == s->vars.end()) {
                s->error = "name 'sv' is not defined";
                dead = true;
            } else if (!dead)
                s->vars["u"] = fmt("i%d", atoi(it->second.c_str() + 1) + 1);
        } else if (k == "log" || k == "warn" || k == "pylog") {
            std::string m = fmt("%s %d.%d", k.c_str(), s->id, I(1));
            t += k == "log" ? fmt("core.log_message(vs.MESSAGE_TYPE_WARNING, '%s')\n", m.c_str()) : fmt("%s('%s%s')\n", k == "warn" ? "warnings.warn" : "logging.warning", m.c_str(), I(1) == 3 ? " \\udce9" : "");
            if (!dead)
                s->logs[m]++;
        } else if (k == "cwd") {
            t += "cwd = os.getcwd()\n";
            if (!dead)
                s->vars["cwd"] = "s" + (!strcmp(file, "/usr/x.vpy") ? std::string("/usr") : !strcmp(file, "/proc/self/fd/") ? fmt("/proc/%d/fd", (int)getpid()) : V->cwd);
        } else if (k == "sleep") {
            t += fmt("_simhost.sleep(%d)\n", I(1));
        } else if (k == "thread") { // a thread of the script's own, without an environment
            t += "import threading\nbox = []\ndef tf():\n    try:\n        vs.core.num_threads\n        box.append(1)\n    except Exception:\n        pass\n    with env.use():\n        me('a thread')\n    logging.debug('from a thread')\n    box.append(2)\n"
                 "env = vs.get_current_environment()\nth = threading.Thread(target=tf)\nth.start()\nth.join()\nbox = sum(box)\n";
            if (!dead)
                s->vars["box"] = "i2";
        } else if (k == "fn") { // a function for the application
            t += fmt("def fn(x):\n    me('a function called by the application')\n    if x == 7: raise ValueError('fnfail %d')\n    if x == 8: raise ValueError('fnfail %d \\udce9')\n    return x * 2 + %d\n", s->id, s->id, s->id);
            if (!dead)
                s->vars["fn"] = "F";
        } else if (k == "fv" && has(I(1))) { // a frame for the application
            int n = I(2) % s->clips[(size_t)I(1)].frames;
            std::map<std::string, long> p;
            std::string e = result(s, I(1), n, p);
            t += fmt("fv = c%d.get_frame(%d)\n", I(1), n);
            if (!dead && !e.empty()) {
                s->error = e;
                dead = true;
            } else if (!dead)
                s->vars["fv"] = fmt("v%d,%d", I(1), n);
        } else if (k == "sn") { // uses a clip that the application has put there
            t += "snf = sn.num_frames\nwith sn.get_frame(0) as f:\n    sng = f.props['SimN']\n";
            auto it = s->vars.find("sn");
            if (!dead && it == s->vars.end()) {
                s->error = "name 'sn' is not defined";
                dead = true;
            } else if (!dead) {
                int c = atoi(it->second.c_str() + 1);
                s->vars["snf"] = fmt("i%d", s->clips[(size_t)c].frames);
                std::map<std::string, long> p;
                std::string e = result(s, c, 0, p);
                if (!e.empty()) {
                    s->error = e;
                    dead = true;
                } else
                    s->vars["sng"] = "i0";
            }
        } else if (k == "af" && has(I(1))) { // calls a function of the application that waits for a frame
            int n = I(2) % s->clips[(size_t)I(1)].frames;
            t += fmt("afv = af(clip=c%d, n=%d)\n", I(1), n);
            std::map<std::string, long> p;
            std::string e = result(s, I(1), n, p);
            if (!dead && (!s->vars.count("af") || !e.empty())) {
                s->error = s->vars.count("af") ? e : "name 'af' is not defined";
                dead = true;
            } else if (!dead)
                s->vars["afv"] = fmt("i%ld", p["SimN"]);
        } else if (k == "other") {
            t += "if 'other' in globals(): other(x=3)\nme('the text after the call of another script')\n";
        } else if (k == "del") { // a finalizer that defines a variable
            t += "class Del:\n    def __del__(self): globals()['late'] = 1\ndl = Del()\n";
        } else if (k == "ondestroy") {
            t += fmt("def od%d():\n    me('a destruction callback')\n    _simhost.mark(%d)\n%svs.register_on_destroy(od%d)\n", I(1), s->id * 100 + I(1), I(2) == 1 ? "    raise ValueError('in a destruction callback')\n" : I(2) == 2 && nc ? fmt("    c%d.get_frame_async(0, lambda f, e: _simhost.mark(%d))\n", nc - 1, s->id * 100 + 50 + I(1)).c_str() : "", I(1));
            if (!dead) {
                s->marks[I(1)]++;
                if (I(2) == 2 && nc)
                    s->marks[50 + I(1)]++;
            }
        } else if (k == "stdout") { // process-wide, which must not be another script's problem
            t += fmt("class Broken:\n    def write(self, s): raise OSError('simulated')\n    def flush(self): raise OSError('simulated')\nsys.stdout = %s\n", I(1) == 0 ? "None" : I(1) == 1 ? "Broken()" : "sys.__stdout__");
            count(UC_WFAULT_FLUSH, !dead && I(1) < 2);
        } else if (k == "raise") {
            // the text may be anything, file names that are not utf-8 for instance
            if (I(1) == 2)
                t += "class Fails(Exception):\n    def __str__(self): raise OSError(super().__str__())\n";
            t += fmt("raise %s('scriptfail %d %d%s')\n", I(1) == 2 ? "Fails" : "RuntimeError", s->id, s->evals, I(1) == 1 ? " \\udce9" : "");
            if (!dead)
                s->error = fmt("scriptfail %d %d", s->id, s->evals);
            dead = true;
        } else if (k == "exit") {
            static const char *const codes[] = {"None", "'text'", "10**30", "True", "-1", "False", "'text \\udce9'"};
            static const char *const shown[] = {"None", "text", "1000000000000", "True", "-1", "False", "text"};
            static const int meaning[] = {0, 1, 1, 1, -1, 0, 1};
            int x = I(1);
            t += x > 35 ? fmt("sys.exit(%s)\n", codes[x - 36]) : fmt("sys.exit(%d)\n", x);
            if (!dead) {
                s->error = x > 35 ? fmt("Python exit with code %s", shown[x - 36]) : fmt("Python exit with code %d", x);
                s->exitcode = x > 35 ? meaning[x - 36] : x;
            }
            dead = true;
        } else if (k == "syntax") {
            t += "def (:\n";
        }
    }
    return t;
}

// ------------------------------------------------------------------ operations
// no thread of the application or of the core belongs to a script once the script is done with it
void no_environment(const char *where, int id) {
    if (PyGILState_Check())
        return; // called by a script
    PyGILState_STATE g = PyGILState_Ensure();
    PyObject *vs = PyImport_ImportModule("vapoursynth"), *e = vs ? PyObject_CallMethod(vs, "get_current_environment", nullptr) : nullptr;
    if (e)
        oracle("P23", "environment-left", "the thread is still in the environment of a script %s script %d", where, id);
    PyErr_Clear();
    Py_XDECREF(e);
    Py_XDECREF(vs);
    PyGILState_Release(g);
}
const VSSCRIPTAPI *S;

void VS_CC log_handler(int, const char *msg, void *ud) {
    Script *s = (Script *)ud;
    count(UC_LOGS);
    const char *p = strpbrk(msg, "0123456789");
    for (const char *k : {"pylog ", "warn ", "log "})
        if ((p = strstr(msg, k))) {
            p += strlen(k);
            int id = atoi(p);
            if (id != s->id)
                oracle("P23", "message-of-another", "the core of script %d got a message of script %d: %s", s->id, id, msg);
            s->logged[fmt("%s%d.%d", k, id, strchr(p, '.') ? atoi(strchr(p, '.') + 1) : -1)]++;
            break;
        }
}
void VS_CC log_free(void *ud) { ((Script *)ud)->handler_frees++; }

// uses of a script that need it to be in a certain state
Script *enter(int id, bool ready) {
    pthread_mutex_lock(&V->lock);
    Script *s = V->scripts[id];
    bool ok = s->h && (s->state == READY || (!ready && s->state == FAILED));
    if (ok)
        s->users++;
    pthread_mutex_unlock(&V->lock);
    return ok ? s : nullptr;
}
void leave(Script *s) {
    pthread_mutex_lock(&V->lock);
    s->users--;
    pthread_cond_broadcast(&V->cond);
    pthread_mutex_unlock(&V->lock);
}
// exclusive use: waits for the other users; false if the script is gone
Script *own(int id, bool ready) {
    pthread_mutex_lock(&V->lock);
    Script *s = V->scripts[id];
    while (s->state == BUSY || (s->users && s->state != FREED))
        pthread_cond_wait(&V->cond, &V->lock);
    bool ok = s->h && (s->state == READY || (!ready && s->state == FAILED));
    if (ok)
        s->state = BUSY;
    pthread_mutex_unlock(&V->lock);
    return ok ? s : nullptr;
}
void disown(Script *s, State st) {
    pthread_mutex_lock(&V->lock);
    s->state = st;
    pthread_cond_broadcast(&V->cond);
    pthread_mutex_unlock(&V->lock);
}

void op_create(int id, const Words &w) {
    pthread_mutex_lock(&V->lock);
    Script *s = V->scripts[id];
    bool go = s->state == NONE;
    if (go)
        s->state = BUSY;
    pthread_mutex_unlock(&V->lock);
    if (!go)
        return;
    VSCore *core = nullptr;
    if (w.size() > 4 && w[4] == "core") {
        core = V->api->createCore(ccfDisableAutoLoading);
        V->api->setThreadCount(w.size() > 5 ? atoi(w[5].c_str()) : 2, core);
        V->api->addLogHandler(log_handler, log_free, s, core);
        s->appcore = true;
    }
    VSScript *h = S->createScript(core);
    rt_note("created %d", id);
    if (!h) {
        oracle("P23", "not-created", "script %d could not be created", id);
        return;
    }
    s->h = h;
    s->core = S->getCore(h);
    if (!s->core || (core && s->core != core))
        oracle("P23", "wrong-core", "script %d does not have the core it was given", id);
    pthread_mutex_lock(&V->lock);
    for (auto &x : V->scripts)
        if (x.second != s && x.second->core == s->core && x.second->state != FREED)
            oracle("P23", "shared-core", "scripts %d and %d have the same core", id, x.first);
    pthread_mutex_unlock(&V->lock);
    if (S->getError(h))
        oracle("P23", "error-without-cause", "script %d has an error before anything was evaluated: %s", id, S->getError(h));
    disown(s, READY);
}
void op_eval(int id, const Words &w) { // op C eval ID how pieces...
    Script *s = own(id, true);
    if (!s)
        return;
    Words pieces(w.begin() + 5, w.end());
    const std::string &how = w[4];
    std::string file = how == "dir" ? "/usr/x.vpy" : how == "named" ? "/nowhere/script.vpy" : how == "angle" ? "<script>" : how == "fdir" ? "/proc/self/fd/" : "";
    bool syntax = std::count(pieces.begin(), pieces.end(), "syntax") > 0;
    std::string text;
    if (syntax) {
        text = std::string(PROLOGUE) + "def (:\n";
        s->error = "invalid syntax";
    } else if (how != "missing") {
        text = script_text(s, pieces, file.c_str());
    }
    s->evals++;
    std::string want = s->error;
    S->evalSetWorkingDir(s->h, how == "dir" || how == "fdir");
    int r, fd = -1;
    rt_note("eval %d", id);
    if (how == "file" || how == "fdir") {
        fd = memfd_create("script", 0);
        if (write(fd, text.data(), text.size()) != (ssize_t)text.size())
            rt_inconclusive("memfd");
        r = S->evaluateFile(s->h, fmt("/proc/self/fd/%d", fd).c_str());
        close(fd);
    } else if (how == "missing") {
        r = S->evaluateFile(s->h, "/nowhere/script.vpy");
        want = "No such file";
    } else {
        r = S->evaluateBuffer(s->h, text.c_str(), file.empty() ? nullptr : file.c_str());
    }
    rt_note("evaluated %d %d", id, r);
    no_environment("after evaluating", id);
    count(UC_SCRIPT_FAIL, r != 0);
    count(UC_VALUE_CHECKS);
    const char *e = S->getError(s->h);
    if (!r && !want.empty())
        oracle("P23", "failure-not-reported", "evaluating script %d succeeded although it fails with: %s", id, want.c_str());
    if (r && want.empty())
        oracle("P23", "evaluation-failed", "evaluating script %d failed (%d): %s", id, r, e ? e : "without a message");
    if (!r && e)
        oracle("P23", "error-without-cause", "script %d has an error after it was evaluated: %s", id, e);
    if (r && (!e || !strstr(e, want.c_str())))
        oracle("P23", "wrong-error", "script %d failed with \"%s\" instead of \"%s\"", id, e ? e : "", want.c_str());
    if (S->getExitCode(s->h) != s->exitcode)
        oracle("P23", "exit-code", "script %d has exit code %d instead of %d", id, S->getExitCode(s->h), s->exitcode);
    if (s->appcore && !syntax && how != "missing")
        for (auto &x : s->logs)
            if (s->logged[x.first] != x.second)
                oracle("P23", "message-lost", "the core of script %d got its message \"%s\" %d times instead of %d", id, x.first.c_str(), s->logged[x.first], x.second);
    char cwd[500];
    if (getcwd(cwd, sizeof(cwd)) && V->cwd != cwd && (how == "dir" || how == "fdir"))
        oracle("P23", "working-directory", "the working directory is %s after script %d was evaluated", cwd, id);
    disown(s, r ? FAILED : READY);
}
void op_free(int id) {
    Script *s = own(id, false);
    if (!s)
        return;
    rt_note("free %d", id);
    S->freeScript(s->h);
    rt_note("freed %d", id);
    for (auto &x : s->marks)
        if (py_marks(id * 100 + x.first) != x.second)
            oracle("P23", "destruction-callback", "destruction callback %d of script %d was called %ld times instead of %d", x.first, id, py_marks(id * 100 + x.first), x.second);
    s->h = nullptr;
    s->core = nullptr;
    disown(s, FREED);
}
void op_outs(int id, int size) {
    Script *s = enter(id, true);
    if (!s)
        return;
    std::vector<int> dst((size_t)size + 1, -77777);
    int n = S->getAvailableOutputNodes(s->h, size, size ? dst.data() : nullptr);
    count(UC_VALUE_CHECKS);
    if (n != (int)s->outs.size())
        oracle("P23", "outputs", "script %d has %d outputs instead of %d", id, n, (int)s->outs.size());
    for (int i = 0; i < size; i++) {
        if (i < n && (!s->outs.count(dst[(size_t)i]) || std::count(dst.begin(), dst.begin() + i, dst[(size_t)i])))
            oracle("P23", "outputs", "output %d of script %d is listed as %d", i, id, dst[(size_t)i]);
        if (i >= n && dst[(size_t)i] != -77777)
            oracle("P23", "outputs", "the list of the outputs of script %d is longer than their number", id);
    }
    if (dst[(size_t)size] != -77777)
        oracle("P23", "outputs", "the list of the outputs of script %d overruns its buffer", id);
    leave(s);
}
struct Pend {
    Script *s;
    int clip, n;
    bool hold;
    int *left;
};
void keep(Script *s, int clip, int n, const VSFrame *f) {
    pthread_mutex_lock(&V->lock);
    V->held.push_back({f, s, clip, n});
    pthread_mutex_unlock(&V->lock);
}
void VS_CC done(void *ud, const VSFrame *f, int n, VSNode *, const char *msg) {
    Pend *p = (Pend *)ud;
    no_environment("when it delivers a frame of", p->s->id);
    if (n != p->n)
        oracle("P23", "wrong-answer", "a request for frame %d was answered as frame %d", p->n, n);
    if (f)
        check_frame(p->s, p->clip, n, f, "asynchronous");
    else
        check_failure(p->s, p->clip, n, msg ? msg : "", "asynchronous");
    if (f && p->hold)
        keep(p->s, p->clip, n, f);
    else if (f)
        V->api->freeFrame(f);
    pthread_mutex_lock(&V->lock);
    --*p->left;
    pthread_cond_broadcast(&V->cond);
    pthread_mutex_unlock(&V->lock);
    delete p;
}
void op_frames(int id, const Words &w) { // op C frames ID index first count how hold alpha
    Script *s = enter(id, true);
    if (!s)
        return;
    int index = atoi(w[4].c_str()), first = atoi(w[5].c_str()), cnt = atoi(w[6].c_str());
    bool async = w[7] == "async", hold = w[8] == "1", alpha = w[9] == "1";
    VSNode *node = alpha ? S->getOutputAlphaNode(s->h, index) : S->getOutputNode(s->h, index);
    auto it = s->outs.find(index);
    int clip = it == s->outs.end() ? -1 : alpha ? it->second.alpha : it->second.clip;
    int mode = S->getAltOutputMode(s->h, index);
    count(UC_VALUE_CHECKS);
    if (mode != (it == s->outs.end() ? 0 : it->second.mode))
        oracle("P23", "outputs", "the alternative mode of output %d of script %d is %d", index, id, mode);
    if (!node != (clip < 0))
        oracle("P23", "outputs", "%s %d of script %d is %s", alpha ? "alpha output" : "output", index, id, node ? "there although it was not set" : "missing");
    if (node && clip >= 0) {
        const VSVideoInfo *vi = V->api->getVideoInfo(node);
        if (vi->numFrames != s->clips[(size_t)clip].frames)
            oracle("P23", "outputs", "output %d of script %d has %d frames instead of %d", index, id, vi->numFrames, s->clips[(size_t)clip].frames);
        int left = 0;
        for (int i = 0; i < cnt; i++) {
            int n = (first + i) % vi->numFrames;
            if (async) {
                pthread_mutex_lock(&V->lock);
                left++;
                pthread_mutex_unlock(&V->lock);
                V->api->getFrameAsync(n, node, done, new Pend{s, clip, n, hold, &left});
            } else {
                char buf[4000];
                buf[0] = 0;
                const VSFrame *f = V->api->getFrame(n, node, buf, sizeof(buf));
                count(UC_REQ_SYNC);
                if (f)
                    check_frame(s, clip, n, f, "blocking");
                else
                    check_failure(s, clip, n, buf, "blocking");
                if (f && hold)
                    keep(s, clip, n, f);
                else
                    V->api->freeFrame(f);
            }
        }
        pthread_mutex_lock(&V->lock);
        while (left)
            pthread_cond_wait(&V->cond, &V->lock);
        pthread_mutex_unlock(&V->lock);
    }
    V->api->freeNode(node);
    leave(s);
}
void op_getvar(int id, const std::string &name) {
    Script *s = enter(id, true);
    if (!s)
        return;
    VSMap *m = V->api->createMap();
    int r = S->getVariable(s->h, name.c_str(), m);
    auto it = s->vars.find(name);
    std::string v = it == s->vars.end() ? "" : it->second;
    if (v.empty() && name[0] == 'c' && isdigit(name[1]) && atoi(name.c_str() + 1) < (int)s->clips.size())
        v = "c";
    count(UC_VALUE_CHECKS);
    int err = 0;
    bool ok = v.empty() ? r != 0 : r == 0;
    if (ok && !v.empty()) {
        const VSAPI *a = V->api;
        const char *n = name.c_str();
        if (v[0] == 'i')
            ok = a->mapGetInt(m, n, 0, &err) == atoll(v.c_str() + 1) && !err;
        else if (v[0] == 'f')
            ok = a->mapGetFloat(m, n, 0, &err) == atof(v.c_str() + 1) && !err;
        else if (v[0] == 's') {
            const char *d = a->mapGetData(m, n, 0, &err);
            ok = !err && !strcmp(d, v.c_str() + 1);
        } else if (v[0] == 'L') {
            Words l = split(v.substr(1), ',');
            ok = a->mapNumElements(m, n) == (int)l.size();
            for (size_t i = 0; ok && i < l.size(); i++)
                ok = a->mapGetInt(m, n, (int)i, &err) == atoll(l[i].c_str()) && !err;
        } else if (v[0] == 'F') {
            VSFunction *x = a->mapGetFunction(m, n, 0, &err);
            ok = x != nullptr;
            a->freeFunction(x);
        } else if (v[0] == 'v') {
            const VSFrame *x = a->mapGetFrame(m, n, 0, &err);
            ok = x != nullptr;
            int clip = atoi(v.c_str() + 1), k = atoi(strchr(v.c_str(), ',') + 1);
            if (x) {
                check_frame(s, clip, k, x, "a variable instead of a");
                keep(s, clip, k, x);
            }
        } else {
            VSNode *x = a->mapGetNode(m, n, 0, &err);
            ok = x && a->getVideoInfo(x)->numFrames == s->clips[(size_t)atoi(v[1] ? v.c_str() + 1 : n + 1)].frames;
            a->freeNode(x);
        }
    }
    if (!ok)
        oracle("P23", "variable", "variable %s of script %d is wrong (result %d, should be %s)", name.c_str(), id, r, v.empty() ? "missing" : v.c_str());
    V->api->freeMap(m);
    leave(s);
}
void op_call(int id, int x) { // calls the function of the script
    Script *s = enter(id, true);
    if (!s)
        return;
    const VSAPI *a = V->api;
    if (s->vars.count("fn")) {
        VSMap *m = a->createMap(), *in = a->createMap(), *out = a->createMap();
        int err = 0;
        VSFunction *f = S->getVariable(s->h, "fn", m) ? nullptr : a->mapGetFunction(m, "fn", 0, &err);
        a->freeMap(m);
        if (!f) {
            oracle("P23", "variable", "function fn of script %d is missing", id);
        } else {
            a->mapSetInt(in, "x", x, maReplace);
            a->callFunction(f, in, out);
            count(UC_VALUE_CHECKS);
            const char *e = a->mapGetError(out);
            std::string want = fmt("fnfail %d", id);
            if (x == 7 || x == 8 ? !e || !strstr(e, want.c_str()) : e || a->mapGetInt(out, "val", 0, &err) != x * 2 + id)
                oracle("P23", "function", "the function of script %d has returned %ld for %d (%s)", id, e ? -1L : (long)a->mapGetInt(out, "val", 0, &err), x, e ? e : "no error");
            a->freeFunction(f);
        }
        a->freeMap(in);
        a->freeMap(out);
    }
    leave(s);
}
void VS_CC app_function(const VSMap *in, VSMap *out, void *ud, VSCore *core, const VSAPI *a) {
    Script *s = (Script *)ud;
    if (core != s->core)
        oracle("P23", "wrong-core", "a function of the application is called with another core than that of script %d", s->id);
    VSNode *n = a->mapGetNode(in, "clip", 0, nullptr);
    char buf[1000] = "";
    const VSFrame *f = a->getFrame((int)a->mapGetInt(in, "n", 0, nullptr), n, buf, sizeof(buf));
    a->freeNode(n);
    if (f)
        a->mapSetInt(out, "val", a->mapGetInt(a->getFramePropertiesRO(f), "SimN", 0, nullptr), maReplace);
    else
        a->mapSetError(out, buf);
    a->freeFrame(f);
}
void VS_CC app_function_free(void *ud) { ((Script *)ud)->function_frees++; }
void op_setfn(int id) {
    Script *s = own(id, true);
    if (!s)
        return;
    const VSAPI *a = V->api;
    VSMap *m = a->createMap();
    a->mapConsumeFunction(m, "af", a->createFunction(app_function, s, app_function_free, s->core), maReplace);
    s->functions++;
    if (S->setVariables(s->h, m))
        oracle("P23", "variable", "the variables of script %d could not be set", id);
    s->vars["af"] = "F";
    a->freeMap(m);
    disown(s, READY);
}
struct Other {
    VSFunction *f;
    Script *s;
};
void VS_CC other_function(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *a) {
    Other *o = (Other *)ud;
    long x = (long)a->mapGetInt(in, "x", 0, nullptr);
    if (enter(o->s->id, false)) {
        VSMap *in2 = a->createMap(), *out2 = a->createMap();
        a->mapSetInt(in2, "x", x, maReplace);
        a->callFunction(o->f, in2, out2);
        int err = 0;
        if (x != 7 && (a->mapGetError(out2) || a->mapGetInt(out2, "val", 0, &err) != x * 2 + o->s->id))
            oracle("P23", "function", "the function of script %d does not work when another script calls it: %s", o->s->id, a->mapGetError(out2) ? a->mapGetError(out2) : "wrong value");
        a->freeMap(in2);
        a->freeMap(out2);
        leave(o->s);
    }
    a->mapSetInt(out, "val", x, maReplace);
}
void VS_CC other_free(void *ud) {
    Other *o = (Other *)ud;
    V->api->freeFunction(o->f);
    delete o;
}
void op_link(int id, int from) { // gives script id the function of another one
    if (id == from || !V->scripts.count(from))
        return;
    Script *b = enter(from, true);
    if (!b)
        return;
    const VSAPI *a = V->api;
    VSMap *m = a->createMap();
    VSFunction *f = !b->vars.count("fn") || S->getVariable(b->h, "fn", m) ? nullptr : a->mapGetFunction(m, "fn", 0, nullptr);
    leave(b);
    Script *s = f ? own(id, true) : nullptr;
    if (s) {
        a->clearMap(m);
        a->mapConsumeFunction(m, "other", a->createFunction(other_function, new Other{f, b}, other_free, s->core), maReplace);
        if (S->setVariables(s->h, m))
            oracle("P23", "variable", "the variables of script %d could not be set", id);
        s->vars["other"] = "F";
        disown(s, READY);
    } else
        a->freeFunction(f);
    a->freeMap(m);
}
void op_setnode(int id, int c) {
    Script *s = own(id, true);
    if (!s)
        return;
    const VSAPI *a = V->api;
    if (c < (int)s->clips.size()) {
        VSMap *m = a->createMap();
        VSNode *n = S->getVariable(s->h, fmt("c%d", c).c_str(), m) ? nullptr : a->mapGetNode(m, fmt("c%d", c).c_str(), 0, nullptr);
        a->clearMap(m);
        if (!n) {
            oracle("P23", "variable", "clip %d of script %d is missing", c, id);
        } else {
            a->mapConsumeNode(m, "sn", n, maReplace);
            if (S->setVariables(s->h, m))
                oracle("P23", "variable", "the variables of script %d could not be set", id);
            s->vars["sn"] = fmt("c%d", c);
        }
        a->freeMap(m);
    }
    disown(s, READY);
}
void op_setvar(int id, long value) {
    Script *s = own(id, true);
    if (!s)
        return;
    VSMap *m = V->api->createMap();
    V->api->mapSetInt(m, "sv", value, maReplace);
    V->api->mapSetData(m, "sd", "text", -1, dtUtf8, maReplace);
    V->api->mapSetFloat(m, "sf", (double)value / 4, maReplace);
    if (S->setVariables(s->h, m))
        oracle("P23", "variable", "the variables of script %d could not be set", id);
    V->api->freeMap(m);
    s->vars["sv"] = fmt("i%ld", value);
    s->vars["sd"] = "stext";
    s->vars["sf"] = fmt("f%.17g", (double)value / 4);
    disown(s, READY);
}
void op_misc(int id) {
    if (S->getAPIVersion() >> 16 != VSSCRIPT_API_MAJOR)
        oracle("P23", "version", "wrong API version");
    Script *s = enter(id, false);
    if (!s)
        return;
    const char *e = S->getError(s->h);
    if ((e != nullptr) != (s->state == FAILED))
        oracle("P23", "error-state", "script %d has the error \"%s\"", id, e ? e : "none");
    if (s->state == READY && S->getCore(s->h) != s->core)
        oracle("P23", "wrong-core", "script %d has got another core", id);
    leave(s);
}

void run_op(const Words &w) {
    const std::string &o = w[2];
    int id = w.size() > 3 ? atoi(w[3].c_str()) : 0;
    if (o == "sleep")
        rt_sleep_ns((uint64_t)id * 1000);
    else if (!V->scripts.count(id))
        return;
    else if (o == "create")
        op_create(id, w);
    else if (o == "eval" && w.size() > 4)
        op_eval(id, w);
    else if (o == "free")
        op_free(id);
    else if (o == "outs")
        op_outs(id, w.size() > 4 ? atoi(w[4].c_str()) : 4);
    else if (o == "frames" && w.size() > 9)
        op_frames(id, w);
    else if (o == "getvar" && w.size() > 4)
        op_getvar(id, w[4]);
    else if (o == "setvar" && w.size() > 4)
        op_setvar(id, atol(w[4].c_str()));
    else if (o == "call" && w.size() > 4)
        op_call(id, atoi(w[4].c_str()));
    else if (o == "link" && w.size() > 4)
        op_link(id, atoi(w[4].c_str()));
    else if (o == "setfn")
        op_setfn(id);
    else if (o == "setnode" && w.size() > 4)
        op_setnode(id, atoi(w[4].c_str()));
    else if (o == "misc")
        op_misc(id);
}
void *client(void *p) {
    long c = (long)p;
    const VSSCRIPTAPI *x = getVSScriptAPI(VSSCRIPT_API_VERSION);
    if (!x) {
        oracle("P23", "not-initialised", "VSScript could not be initialised: %s", getVSScriptAPILastError() ? getVSScriptAPILastError() : "no message");
        return nullptr;
    }
    pthread_mutex_lock(&V->lock);
    if (S && S != x)
        oracle("P23", "not-initialised", "there are two VSScript APIs");
    S = x;
    V->api = x->getVSAPI(VAPOURSYNTH_API_VERSION);
    pthread_mutex_unlock(&V->lock);
    for (auto &l : V->sc->lines) {
        Words w = split(l, ' ');
        if (w.size() > 2 && w[0] == "op" && atoi(w[1].c_str()) == c)
            run_op(w);
    }
    return nullptr;
}
} // namespace

void vss_warm() {
    void py_warm();
    py_warm();
    static bool done = false;
    if (done)
        return;
    done = true;
    // the configuration by which VSScript finds Python
    Dl_info info = {}, py = {};
    dladdr((void *)getVSScriptAPI, &info);
    dladdr((void *)Py_IsInitialized, &py);
    std::string name = info.dli_fname;
    auto pos = name.find("/lib64/");
    if (pos != std::string::npos)
        name.replace(pos, 7, "/lib/");
    name = std::filesystem::path(name).lexically_normal();
    struct stat st = {};
    stat("/usr/bin/python3", &st);
    std::string dir = SIM_BUILD "/vsscript-config", f = dir + "/vapoursynth/vapoursynth.toml", tmp = f + fmt(".%d", (int)getpid());
    std::filesystem::create_directories(dir + "/vapoursynth");
    if (FILE *o = fopen(tmp.c_str(), "w")) {
        fprintf(o, "\"%s\" = [\"/usr/bin/python3\", \"%s\", \"%lld\"]\n", name.c_str(), py.dli_fname, (long long)st.st_mtime);
        fclose(o);
        rename(tmp.c_str(), f.c_str());
    }
    setenv("XDG_CONFIG_HOME", dir.c_str(), 1);
}
void run_vss(const Scenario &sc) {
    Vss v;
    V = &v;
    v.sc = &sc;
    char cwd[500];
    v.cwd = getcwd(cwd, sizeof(cwd)) ? cwd : "/";
    PyObject *sys = PyImport_ImportModule("sys");
    Py_XDECREF(PyObject_CallMethod(sys, "setswitchinterval", "d", sc.getf("switch", 0.005)));
    Py_XDECREF(PyRun_String("import sys, driver\nsys.stderr = driver.Stderr()\n", Py_file_input, PyModule_GetDict(PyImport_AddModule("__main__")), PyModule_GetDict(PyImport_AddModule("__main__"))));
    if (PyErr_Occurred())
        PyErr_Print();
    Py_XDECREF(sys);
    for (auto &l : sc.lines) {
        Words w = split(l, ' ');
        if (w.size() > 1 && w[0] == "scr") {
            Script *s = new Script;
            s->id = atoi(w[1].c_str());
            v.scripts[s->id] = s;
        }
    }
    PyThreadState *ts = PyEval_SaveThread();
    int clients = (int)sc.geti("clients", 1);
    std::vector<pthread_t> t((size_t)clients);
    for (long c = 0; c < clients; c++)
        pthread_create(&t[(size_t)c], nullptr, client, (void *)c);
    for (auto &x : t)
        pthread_join(x, nullptr);
    if (S) {
        for (auto &x : v.scripts)
            op_free(x.first);
        for (auto &h : v.held) {
            check_frame(h.s, h.clip, h.n, h.f, "held");
            v.api->freeFrame(h.f);
        }
    }
    for (int i = 0; i < 200 && py_cores(); i++)
        rt_sleep_ns(1000000);
    if (py_cores())
        oracle("P23", "core-leaked", "%ld cores of scripts still exist after all scripts were freed", py_cores());
    for (auto &x : v.scripts)
        if (x.second->appcore && x.second->handler_frees != 1)
            oracle("P23", "core-leaked", "the core given to script %d has released its message handler %d times", x.first, x.second->handler_frees);
    for (auto &x : v.scripts)
        if (x.second->functions != x.second->function_frees)
            oracle("P23", "core-leaked", "%d of the %d functions given to script %d were released", x.second->function_frees, x.second->functions, x.first);
    PyEval_RestoreThread(ts);
}

// ------------------------------------------------------------------ generator
void gen_vss(Rng &r, int tier, Scenario &s) {
    s.add("cfg race 0");
    static const double sw[] = {0.000001, 0.000001, 0.00001, 0.0005, 0.005};
    s.add("cfg switch %.6f", sw[r.below(5)]);
    static const double g[] = {15, 60, 250, 1500};
    s.add("cfg memgap %g", g[r.below(4)]);
    s.add("cfg softslow 200000");
    s.add("cfg hardslow 600000");
    s.add("cfg softsteps 12000000");
    s.add("cfg hardsteps 30000000");
    int clients = (int)r.range(1, tier ? 5 : 4), scripts = (int)r.range(1, tier ? 5 : 4);
    s.add("cfg clients %d", clients);
    bool fails = r.chance(0.5);
    for (int i = 1; i <= scripts; i++)
        s.add("scr %d", i);
    auto list = [&](int frames, double p) {
        std::string l;
        if (fails && r.chance(p))
            for (long k = r.range(1, 2); k > 0; k--)
                l += (l.empty() ? "" : ",") + std::to_string(r.below((uint64_t)frames));
        return l.empty() ? std::string("-") : l;
    };
    bool givesfn = false, linked = false;
    auto text = [&](int evalno) {
        std::string t;
        auto add = [&](const std::string &x) { t += " " + x; };
        int clips = evalno ? (int)r.range(1, 2) : 0;
        int frames = (int)r.range(1, 12);
        if (!evalno || r.chance(0.5))
            for (long k = r.range(1, 2); k > 0; k--, clips++)
                add(fmt("src:%ld:%ld:%s", r.chance(0.5) ? frames : r.range(1, 12), r.chance(0.3) ? 0L : r.range(1, 300), list(frames, 0.4).c_str()));
        for (long k = r.range(0, 3); k > 0; k--, clips++)
            add(fmt("%s:%ld:%s", r.chance(0.7) ? "eval" : "modf", (long)r.below((uint64_t)clips), list(frames, 0.3).c_str()));
        for (long k = r.range(0, 6); k > 0; k--) {
            long c = (long)r.below((uint64_t)clips), n = r.range(0, 11);
            switch (r.below(23)) {
            case 21: case 22: add(linked ? "other" : "fn"); break;
            case 20: if (r.chance(givesfn ? 0.9 : 0.1)) add(fmt("af:%ld:%ld", c, n)); break;
            case 17: add("fn"); break;
            case 18: add(r.chance(0.5) ? fmt("fv:%ld:%ld", c, n) : "fn"); break;
            case 19: add(evalno ? "sn" : "fn"); break;
            case 14: add(fmt("ondestroy:%ld:%ld", r.range(0, 3), r.range(0, 3))); break;
            case 15: add(r.chance(0.3) ? fmt("stdout:%ld", r.range(0, 2)) : "del"); break;
            case 16: add(fmt("async:%ld:%ld:%ld", c, n, r.range(0, 1))); break;
            case 0: case 1: add(fmt("get:%ld:%ld", c, n)); break;
            case 2: case 3: add(fmt("async:%ld:%ld:%ld", c, n, r.range(0, 1))); break;
            case 4: add(fmt("iter:%ld:%ld", c, n)); break;
            case 5: add(fmt("var:x:i%ld", r.range(-5, 5))); break;
            case 6: add(r.chance(0.5) ? "var:y:f1.25" : "var:y:stext"); break;
            case 7: add("var:z:L1,2,3"); break;
            case 8: add("use"); break;
            case 9: add(fmt("%s:%ld", r.chance(0.4) ? "log" : r.chance(0.5) ? "warn" : "pylog", r.range(0, 3))); break;
            case 10: add("cwd"); break;
            case 11: add(fmt("sleep:%ld", r.range(1, 2000))); break;
            case 12: add(r.chance(0.5) ? "thread" : fmt("clear:%ld", r.range(-1, 2))); break;
            default: add(fmt("out:%ld:%ld", r.range(0, 5), c));
            }
        }
        for (long k = r.range(r.chance(0.9), 3); k > 0; k--) {
            std::string o = fmt("out:%ld:%ld", r.chance(0.5) ? 0L : r.range(0, 4), (long)r.below((uint64_t)clips));
            if (r.chance(0.4))
                o += fmt(":%ld:%ld", (long)r.below((uint64_t)clips), r.range(0, 2));
            add(o);
        }
        double x = r.f();
        if (fails && x < 0.3)
            add(x < 0.1 ? fmt("raise:%ld", r.range(0, 2)) : x < 0.17 ? fmt("exit:%ld", r.chance(0.5) ? r.range(0, 35) : r.range(36, 42)) : x < 0.22 ? "syntax" : x < 0.26 ? "var:y:i1" : "raise");
        return t;
    };
    static const char *const hows[] = {"buf", "buf", "named", "angle", "dir", "file", "fdir"};
    std::vector<std::vector<std::string>> ops((size_t)clients);
    for (int i = 1; i <= scripts; i++) {
        auto &o = ops[(size_t)r.below((uint64_t)clients)];
        o.push_back(fmt("create %d%s", i, r.chance(0.5) ? fmt(" core %ld", r.range(1, 4)).c_str() : ""));
        if (r.chance(0.4))
            o.push_back(fmt("setvar %d %ld", i, r.range(-100, 100)));
        if ((givesfn = r.chance(0.5)))
            o.push_back(fmt("setfn %d", i));
        if ((linked = r.chance(0.4)))
            o.push_back(fmt("link %d %ld", i, r.range(1, scripts)));
        auto query = [&](int id) {
            switch (r.below(10)) {
            case 8: case 9: return fmt("call %d %ld", id, r.range(0, 9));
            case 0: return fmt("outs %d %ld", id, r.range(0, 6));
            case 1: {
                static const char *const vars[] = {"x", "y", "z", "u", "g", "c0", "c1", "cwd", "sv", "sd", "sf", "box", "nosuch", "fn", "fv", "fv", "sn", "snf", "sng"};
                return fmt("getvar %d %s", id, vars[r.below(19)]);
            }
            case 2: return fmt("misc %d", id);
            default: return fmt("frames %d %ld %ld %ld %s %d %d", id, r.chance(0.5) ? 0L : r.range(0, 4), r.range(0, 11), r.range(1, 6), r.chance(0.6) ? "async" : "sync", r.chance(0.2), r.chance(0.2));
            }
        };
        for (long e = 0, ne = r.chance(0.3) ? 2 : 1; e < ne; e++) {
            o.push_back(fmt("eval %d %s", i, fails && r.chance(0.04) ? "missing" : hows[r.below(7)]) + text((int)e));
            for (long k = r.range(0, 4); k > 0; k--) {
                auto &q = r.chance(0.7) ? o : ops[(size_t)r.below((uint64_t)clients)];
                q.push_back(query(i));
            }
            if (r.chance(0.2))
                o.push_back(fmt("setvar %d %ld", i, r.range(-100, 100)));
            if (r.chance(0.2))
                o.push_back(fmt("link %d %ld", i, r.range(1, scripts)));
            if (r.chance(0.3))
                o.push_back(fmt("setnode %d %ld", i, r.range(0, 2)));
        }
        if (r.chance(0.2))
            o.push_back(fmt("sleep %ld", r.range(1, 5000)));
        if (r.chance(0.7))
            (r.chance(0.8) ? o : ops[(size_t)r.below((uint64_t)clients)]).push_back(fmt("free %d", i));
        for (auto &q : ops)
            if (r.chance(0.3))
                q.push_back(query((int)r.range(1, scripts)));
    }
    for (int c = 0; c < clients; c++)
        for (auto &x : ops[(size_t)c])
            s.add("op %d %s", c, x.c_str());
}
