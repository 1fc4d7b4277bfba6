// Plugin discovery and loading: the real core constructor, directory scan, manifest reader and plugin registry over a
// simulated file system (directory entries, symlinks, unreadable and partly readable directories and manifests) and a
// simulated dynamic loader. Decides P19, and P12 for plugin registration.
#include "VapourSynth3.h"
#define VS_TARGET_CPU_X86
#include "cpufeatures.h"
#include "sim.h"
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
const char *const ROOT = "/simfs";
enum { MAXF = 96 };
struct VFile { // a file system object
    std::string path, name;
    char type = 'f'; // f file, d directory, l link, m manifest, p fifo
    std::string target;
    std::string content;
    // directories
    std::vector<VFile *> entries;
    int open_err = 0, read_err_after = -1, read_err = 0;
    bool dtype = true; // readdir tells the type
    int stat_err = 0;
    // manifests
    long cut = -1;
    int cut_err = 0;
    // libraries
    int index = -1;
    std::string kind, id, ns;
    int nfn = 1;
    bool modif = false;
    int slow = 0;
    int failures = 0;             // number of attempts to load that fail
    int handles = 0;              // references of the loader
    int inits = 0;
    bool sound() const { return kind == "good" || kind == "api3" || kind == "misuse"; }
};
struct DirStream {
    VFile *d;
    size_t pos = 0;
    struct dirent ent;
};
struct LoadCall {
    std::string path, ns, id;
    bool ok = false;
    std::string error;
};
struct PWorld {
    const VSAPI *api = nullptr;
    VSCore *core = nullptr;
    std::map<std::string, std::unique_ptr<VFile>> fs;
    std::map<int, VFile *> fds;   // open directories
    std::set<DirStream *> streams;
    VFile *libs[MAXF] = {};
    int nlibs = 0;
    std::string libdir;           // where the library really is; its "plugins" is ROOT/plugins
    bool dlnull = false, unload = true;
    int abi = 1;
    std::vector<std::string> log;
    pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
    std::vector<std::vector<std::string>> ops;
    std::vector<LoadCall> calls;
    std::map<std::string, std::set<std::string>> reg; // functions added later, by plugin id
    std::vector<std::string> alls; // directories loaded on request
    std::vector<std::string> complaints; // manifests that have to be reported
};
PWorld *P;
#define API P->api

std::string virt(const char *p) {
    std::string s = p;
    std::string pl = P->libdir + "/plugins";
    if (!s.compare(0, pl.size(), pl) && (s.size() == pl.size() || s[pl.size()] == '/'))
        return ROOT + std::string("/plugins") + s.substr(pl.size());
    return s;
}
bool mine(const char *p) { return P && p && !virt(p).compare(0, strlen(ROOT), ROOT); }
// path lookup with symbolic links; sets errno
VFile *lookup(const std::string &p, bool follow, int *links = nullptr) {
    int own = 0;
    if (!links)
        links = &own;
    if (p.compare(0, strlen(ROOT), ROOT)) {
        errno = ENOENT;
        return nullptr;
    }
    std::vector<std::string> part;
    size_t i = strlen(ROOT);
    while (i < p.size()) {
        while (i < p.size() && p[i] == '/')
            i++;
        size_t j = i;
        while (j < p.size() && p[j] != '/')
            j++;
        if (j > i)
            part.push_back(p.substr(i, j - i));
        i = j;
    }
    if (p.size() > 4000) {
        errno = ENAMETOOLONG;
        return nullptr;
    }
    std::string cur = ROOT;
    VFile *f = P->fs[cur].get();
    for (size_t k = 0; k < part.size(); k++) {
        if (f->type != 'd') {
            errno = ENOTDIR;
            return nullptr;
        }
        if (part[k].size() > 255) {
            errno = ENAMETOOLONG;
            return nullptr;
        }
        if (part[k] == ".")
            continue;
        if (part[k] == "..") {
            if (cur != ROOT)
                cur.erase(cur.rfind('/'));
            f = P->fs[cur].get();
            continue;
        }
        auto it = P->fs.find(cur + "/" + part[k]);
        if (it == P->fs.end()) {
            errno = ENOENT;
            return nullptr;
        }
        f = it->second.get();
        cur = f->path;
        if (f->type == 'l' && (follow || k + 1 < part.size())) {
            if (++*links > 40) {
                errno = ELOOP;
                return nullptr;
            }
            f = lookup(f->target, true, links);
            if (!f)
                return nullptr;
            cur = f->path;
        }
        if (f->stat_err && (f->type != 'd' || k + 1 < part.size() || f->stat_err != EACCES)) {
            errno = f->stat_err;
            return nullptr;
        }
    }
    return f;
}
int sim_stat(const char *path, struct stat *st, bool follow) {
    rt_yield_point();
    VFile *f = lookup(virt(path), follow);
    rt_note("stat %s %s", virt(path).c_str(), f ? "ok" : strerror(errno));
    if (!f) {
        if (errno != ENOENT)
            count(UC_PLUG_DIRERR);
        return -1;
    }
    memset(st, 0, sizeof(*st));
    st->st_mode = (f->type == 'd' ? S_IFDIR | 0755 : f->type == 'l' ? S_IFLNK | 0777 : f->type == 'p' ? S_IFIFO | 0644 : S_IFREG | 0644);
    st->st_size = (off_t)f->content.size();
    st->st_nlink = 1;
    st->st_ino = (ino_t)(hmix(1, std::hash<std::string>()(f->path)) | 1);
    return 0;
}

// ------------------------------------------------------------------ plugins
void VS_CC fn_call(const VSMap *, VSMap *out, void *ud, VSCore *, const VSAPI *api) {
    long x = (long)(intptr_t)ud;
    VFile *f = P->libs[x / 1000];
    if (f->handles <= 0)
        oracle("P19", "called-after-unload", "a function of %s is called after the library was unloaded", f->path.c_str());
    rt_yield_point();
    api->mapSetInt(out, "who", x, maReplace);
}
void VS_CC fn_call3(const VSMap *in, VSMap *out, void *ud, VSCore *core, const vs3::VSAPI3 *) { fn_call(in, out, ud, core, P->api); }
// names of the functions a sound plugin must have in the end
std::set<std::string> functions(const VFile *f) {
    std::set<std::string> s;
    for (int i = 0; i < f->nfn; i++)
        s.insert("Fn" + std::to_string(i));
    return s;
}
void init_enter(VFile *f) {
    f->inits++;
    count(UC_PLUG_LOADS);
    if (f->handles <= 0)
        oracle("P19", "init-without-load", "%s is initialised while it is not loaded", f->path.c_str());
    if (f->slow)
        rt_sleep_ns((uint64_t)f->slow * 1000);
    rt_yield_point();
}
void init4(int k, VSPlugin *plugin, const VSPLUGINAPI *vp) {
    VFile *f = P->libs[k];
    init_enter(f);
    int ver = f->kind == "v5" ? VS_MAKE_VERSION(5, 0) : f->kind == "minor" ? VS_MAKE_VERSION(VAPOURSYNTH_API_MAJOR, 200) : f->kind == "v2" ? VS_MAKE_VERSION(2, 0) : VAPOURSYNTH_API_VERSION;
    if (f->kind != "noconf")
        vp->configPlugin(f->id.c_str(), f->ns.c_str(), ("name of " + f->name).c_str(), VS_MAKE_VERSION(1, k), ver, f->modif ? pcModifiable : 0, plugin);
    for (int i = 0; i < f->nfn; i++) {
        std::string n = "Fn" + std::to_string(i);
        vp->registerFunction(n.c_str(), "x:int:opt;", "who:int;", fn_call, (void *)(intptr_t)(k * 1000 + i), plugin);
        if (f->kind == "misuse") {
            vp->registerFunction(n.c_str(), "x:int:opt;", "who:int;", fn_call, (void *)(intptr_t)(k * 1000 + 900), plugin);
            vp->registerFunction("0bad name", "", "", fn_call, (void *)(intptr_t)(k * 1000 + 901), plugin);
            vp->registerFunction(("Bad" + n).c_str(), "x:int:opt;y:unicorn;", "who:int;", fn_call, (void *)(intptr_t)(k * 1000 + 902), plugin);
        }
    }
}
void init3(int k, vs3::VSConfigPlugin config, vs3::VSRegisterFunction reg, VSPlugin *plugin) {
    VFile *f = P->libs[k];
    init_enter(f);
    config(f->id.c_str(), f->ns.c_str(), ("name of " + f->name).c_str(), (3 << 16) | 6, 1, plugin);
    for (int i = 0; i < f->nfn; i++)
        reg(("Fn" + std::to_string(i)).c_str(), "x:int:opt;", fn_call3, (void *)(intptr_t)(k * 1000 + i), plugin);
}
template <int K> void VS_CC tramp4(VSPlugin *p, const VSPLUGINAPI *v) { init4(K, p, v); }
template <int K> void VS_CC tramp3(vs3::VSConfigPlugin c, vs3::VSRegisterFunction r, VSPlugin *p) { init3(K, c, r, p); }
void *tab4[MAXF], *tab3[MAXF];
template <int K> void fill() {
    tab4[K] = (void *)tramp4<K>;
    tab3[K] = (void *)tramp3<K>;
    if constexpr (K > 0)
        fill<K - 1>();
}

// ------------------------------------------------------------------ dynamic loader
thread_local std::string dlerr;
thread_local bool have_dlerr;
void set_dlerr(const std::string &e) {
    dlerr = e; // per thread as in the C library
    have_dlerr = !P->dlnull;
    count(UC_PLUG_DLFAIL);
}
void *sim_dlopen(const char *path) {
    rt_yield_point();
    std::string v = virt(path);
    VFile *f = lookup(v, true);
    rt_note("dlopen %s", v.c_str());
    if (!f) {
        set_dlerr(v + ": cannot open shared object file: " + strerror(errno));
        return nullptr;
    }
    if (f->type != 'f' || f->index < 0 || f->kind == "trunc") {
        set_dlerr(v + (f->type == 'd' ? ": cannot read file data: Is a directory" : ": file too short"));
        return nullptr;
    }
    if (f->failures > 0) {
        f->failures--;
        set_dlerr(v + ": failed to map segment from shared object: Cannot allocate memory");
        return nullptr;
    }
    f->handles++;
    rt_yield_point();
    return f;
}
bool is_handle(void *h) {
    if (!P)
        return false;
    for (int i = 0; i < P->nlibs; i++)
        if (P->libs[i] == h)
            return true;
    return false;
}
} // namespace

#define X extern "C" __attribute__((visibility("default")))
X void *__wrap_dlopen(const char *path, int mode) {
    if (!mine(path))
        return dlopen(path, mode);
    return sim_dlopen(path);
}
X void *__wrap_dlsym(void *h, const char *name) {
    if (!is_handle(h))
        return dlsym(h, name);
    VFile *f = (VFile *)h;
    if (f->handles <= 0)
        oracle("P19", "symbol-after-unload", "a symbol of %s is looked up after it was unloaded", f->path.c_str());
    if (f->kind == "nosym")
        return nullptr;
    if (!strcmp(name, "VapourSynthPluginInit2"))
        return f->kind == "api3" ? nullptr : tab4[f->index];
    if (!strcmp(name, "VapourSynthPluginInit"))
        return f->kind == "api3" ? tab3[f->index] : nullptr;
    return nullptr;
}
X int __wrap_dlclose(void *h) {
    if (!is_handle(h))
        return dlclose(h);
    rt_yield_point();
    VFile *f = (VFile *)h;
    rt_note("dlclose %s", f->path.c_str());
    if (!P->unload)
        oracle("P19", "unloaded", "%s is unloaded although the core was told not to unload libraries", f->path.c_str());
    if (--f->handles < 0)
        oracle("P19", "unloaded-twice", "%s is unloaded more often than it was loaded", f->path.c_str());
    return 0;
}
X char *__wrap_dlerror() {
    if (!P)
        return dlerror();
    if (!have_dlerr)
        return nullptr;
    have_dlerr = false;
    return &dlerr[0];
}
X int __wrap_doGetX86ABILevel() { return P ? P->abi : 1; }
X const void *__wrap_getCPUFeatures() { // no optional features, on every machine
    static CPUFeatures none = []() {
        CPUFeatures f = {};
        f.can_run_vs = 1;
        return f;
    }();
    return &none;
}
struct ManifestReader {
    VFile *f;
    size_t pos;
};
static ssize_t mr_read(void *c, char *buf, size_t n) {
    ManifestReader *m = (ManifestReader *)c;
    size_t end = m->f->cut >= 0 ? std::min((size_t)m->f->cut, m->f->content.size()) : m->f->content.size();
    if (m->pos >= end) {
        if (m->f->cut >= 0 && m->f->cut_err) {
            count(UC_PLUG_SHORTREAD);
            errno = m->f->cut_err;
            return -1;
        }
        return 0;
    }
    n = std::min(n, end - m->pos);
    memcpy(buf, m->f->content.data() + m->pos, n);
    m->pos += n;
    return (ssize_t)n;
}
static int mr_seek(void *c, off64_t *off, int whence) {
    ManifestReader *m = (ManifestReader *)c;
    off64_t p = *off + (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)m->pos : (off64_t)m->f->content.size());
    if (p < 0)
        return -1;
    m->pos = (size_t)p;
    *off = p;
    return 0;
}
static int mr_close(void *c) {
    delete (ManifestReader *)c;
    return 0;
}
FILE *plug_fopen(const char *name) {
    rt_yield_point();
    VFile *f = lookup(virt(name), true);
    rt_note("open %s %s", virt(name).c_str(), f ? "ok" : "fails");
    if (!f)
        return nullptr;
    if (f->type == 'd' || f->open_err) {
        count(UC_PLUG_DIRERR);
        errno = f->open_err ? f->open_err : EISDIR;
        return nullptr;
    }
    count(UC_PLUG_MANIFEST);
    cookie_io_functions_t io = {mr_read, nullptr, mr_seek, mr_close};
    return fopencookie(new ManifestReader{f, 0}, "rb", io);
}
int plug_active() { return P != nullptr; }

// directory functions as used by the C++ library; everything else passes through
X int openat(int dfd, const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    if (!mine(path))
        return (int)syscall(SYS_openat, dfd, path, flags, mode);
    rt_yield_point();
    VFile *f = lookup(virt(path), !(flags & O_NOFOLLOW));
    rt_note("opendir %s %s", virt(path).c_str(), f ? "ok" : strerror(errno));
    if (!f)
        return -1;
    if (f->type != 'd') {
        errno = ENOTDIR;
        return -1;
    }
    if (f->open_err) {
        count(UC_PLUG_DIRERR);
        errno = f->open_err;
        return -1;
    }
    int fd = 100000;
    while (P->fds.count(fd))
        fd++;
    P->fds[fd] = f;
    return fd;
}
X int __openat_2(int dfd, const char *path, int flags) { return openat(dfd, path, flags, 0); }
X int __openat64_2(int dfd, const char *path, int flags) { return openat(dfd, path, flags, 0); }
X DIR *fdopendir(int fd) {
    if (P && P->fds.count(fd)) {
        DirStream *s = new DirStream{P->fds[fd], 0, {}};
        P->fds.erase(fd);
        P->streams.insert(s);
        return (DIR *)s;
    }
    static DIR *(*real)(int) = (DIR * (*)(int)) dlsym(RTLD_NEXT, "fdopendir");
    return real(fd);
}
X DIR *opendir(const char *name) {
    if (mine(name)) {
        int fd = openat(AT_FDCWD, name, O_RDONLY | O_DIRECTORY);
        return fd < 0 ? nullptr : fdopendir(fd);
    }
    static DIR *(*real)(const char *) = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    return real(name);
}
X struct dirent *readdir(DIR *d) {
    DirStream *s = (DirStream *)d;
    if (!P || !P->streams.count(s)) {
        static struct dirent *(*real)(DIR *) = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
        return real(d);
    }
    rt_yield_point();
    VFile *v = s->d;
    if (v->read_err && (long)s->pos >= v->read_err_after + 2) {
        count(UC_PLUG_DIRERR);
        errno = v->read_err;
        return nullptr;
    }
    if (s->pos >= v->entries.size() + 2)
        return nullptr;
    memset(&s->ent, 0, sizeof(s->ent));
    s->ent.d_ino = 1 + s->pos;
    s->ent.d_reclen = sizeof(s->ent);
    if (s->pos < 2) {
        strcpy(s->ent.d_name, s->pos ? ".." : ".");
        s->ent.d_type = DT_DIR;
    } else {
        VFile *e = v->entries[s->pos - 2];
        strncpy(s->ent.d_name, e->name.c_str(), 255);
        s->ent.d_type = !v->dtype ? DT_UNKNOWN : e->type == 'd' ? DT_DIR : e->type == 'l' ? DT_LNK : e->type == 'p' ? DT_FIFO : DT_REG;
    }
    s->pos++;
    return &s->ent;
}
X int closedir(DIR *d) {
    DirStream *s = (DirStream *)d;
    if (P && P->streams.erase(s)) {
        delete s;
        return 0;
    }
    static int (*real)(DIR *) = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    return real(d);
}
X int dirfd(DIR *d) noexcept {
    if (P && P->streams.count((DirStream *)d))
        return 99999;
    static int (*real)(DIR *) = (int (*)(DIR *))dlsym(RTLD_NEXT, "dirfd");
    return real(d);
}
X int stat(const char *path, struct stat *st) noexcept {
    if (mine(path))
        return sim_stat(path, st, true);
    return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}
X int lstat(const char *path, struct stat *st) noexcept {
    if (mine(path))
        return sim_stat(path, st, false);
    return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW);
}

namespace {
// ------------------------------------------------------------------ what has to be loaded
struct Cand {
    std::string path; // as the engine names it
    VFile *f;         // nullptr: nothing there
    bool must;        // has to be loaded if sound and nothing else holds its identifier or namespace
    bool declared;    // by a manifest
};
bool ends(const std::string &s, const char *x) { return s.size() >= strlen(x) && !s.compare(s.size() - strlen(x), strlen(x), x); }
VFile *look_quiet(const std::string &p) { return lookup(p, true); }
// with a library for this kind of processor next to it that one is meant
void optimised(const std::string &path, std::vector<Cand> &out, bool must, bool declared) {
    static const char *ext[] = {"", "", ".avx2", ".avx512", ".zn4"};
    std::string stem = path.substr(0, path.size() - 3);
    for (int l = P->abi; l > 1; l--) {
        std::string q = stem + ext[l] + ".so";
        errno = 0;
        VFile *f = look_quiet(q);
        if (f) {
            out.push_back({q, f, must, declared});
            return;
        }
        if (errno != ENOENT && errno != ENOTDIR) // can't tell
            must = false;
    }
    out.push_back({path, look_quiet(path), must, declared});
}
void walk(const std::string &dir, bool root, bool must, std::vector<Cand> &out, int depth = 0) {
    if (depth > 45 || out.size() > 40000)
        return;
    VFile *d = look_quiet(dir);
    if (!root) {
        VFile *m = look_quiet(dir + "/manifest.vs");
        if (m && m->type != 'd' && !m->open_err) {
            size_t end = m->cut >= 0 ? std::min((size_t)m->cut, m->content.size()) : m->content.size();
            std::string c = m->content.substr(0, end);
            bool partial = end < m->content.size();
            if (c.empty() || (m->cut >= 0 && m->cut_err))
                P->complaints.push_back(dir + "/manifest.vs");
            if (m->cut >= 0 && m->cut_err)
                must = false;
            size_t i = 0;
            bool head = false, ok = true;
            while (i < c.size()) {
                size_t j = c.find_first_of("\r\n", i);
                bool whole = j != std::string::npos || !partial;
                std::string line = c.substr(i, j == std::string::npos ? std::string::npos : j - i);
                i = j == std::string::npos ? c.size() : j + 1;
                if (line.empty())
                    continue;
                if (!head) {
                    head = true;
                    ok = line == "[VapourSynth Manifest V1]";
                    if (!ok)
                        P->complaints.push_back(dir + "/manifest.vs");
                    continue;
                }
                if (ok)
                    optimised(dir + "/" + line + ".so", out, must && whole, true);
            }
            if (!head && !c.empty())
                P->complaints.push_back(dir + "/manifest.vs");
            return;
        }
        if (m)
            must = false; // there is one which can't be read
        else if (errno != ENOENT && errno != ENOTDIR)
            must = false;
    }
    if (!d || d->type != 'd' || d->open_err)
        return;
    long k = 0;
    for (VFile *e : d->entries) {
        if (d->read_err && k >= d->read_err_after)
            return;
        k++;
        std::string p = dir + "/" + e->name;
        VFile *t = look_quiet(p);
        if (!t)
            continue;
        if (t->type == 'f' && ends(e->name, ".so") && e->name.size() > 3)
            out.push_back({p, t, must, false});
        else if (t->type == 'd')
            walk(p, false, must, out, depth + 1);
    }
}

std::string clean(const std::string &p) { return virt(p.c_str()); }
void VS_CC on_log(int, const char *msg, void *) {
    pthread_mutex_lock(&P->lock);
    P->log.push_back(msg);
    pthread_mutex_unlock(&P->lock);
    rt_note("log %s", msg);
}
VSPlugin *any_plugin(long r) {
    std::vector<VSPlugin *> v;
    for (VSPlugin *p = API->getNextPlugin(nullptr, P->core); p; p = API->getNextPlugin(p, P->core))
        if (!std::string(API->getPluginID(p)).compare(0, 4, "sim."))
            v.push_back(p);
    return v.empty() ? nullptr : v[(size_t)r % v.size()];
}
void call_one(VSPlugin *p, const std::string &fn) {
    VSMap *in = API->createMap();
    VSMap *out = API->invoke(p, fn.c_str(), in);
    int e = 0;
    const char *err = API->mapGetError(out);
    if (err)
        oracle("P19", "function-unusable", "function %s of plugin %s can't be called: %.200s", fn.c_str(), API->getPluginID(p), err);
    else {
        int64_t who = API->mapGetInt(out, "who", 0, &e);
        VFile *f = P->libs[who / 1000];
        std::string path = clean(API->getPluginPath(p));
        if (e || look_quiet(path) != f || (who % 1000 < 800 && fn != "Fn" + std::to_string(who % 1000)))
            oracle("P19", "wrong-function", "function %s of %s reaches function %ld of %s", fn.c_str(), path.c_str(), (long)(who % 1000), f->path.c_str());
    }
    API->freeMap(in);
    API->freeMap(out);
}
void do_op(const std::string &l) {
    char op[16] = "", a[1200] = "";
    long n = 0;
    sscanf(l.c_str(), "%15s %1199s %ld", op, a, &n);
    if (!strcmp(op, "load")) {
        LoadCall c;
        c.path = !strcmp(a, "-") ? "" : a;
        char ns[40] = "", id[40] = "";
        const char *q = strstr(l.c_str(), "ns=");
        if (q)
            sscanf(q, "ns=%39s", ns);
        q = strstr(l.c_str(), "id=");
        if (q)
            sscanf(q, "id=%39s", id);
        c.ns = ns;
        c.id = id;
        VSPlugin *std_ = API->getPluginByID("com.vapoursynth.std", P->core);
        VSMap *in = API->createMap();
        API->mapSetData(in, "path", c.path.c_str(), -1, dtUtf8, maReplace);
        if (*ns)
            API->mapSetData(in, "forcens", ns, -1, dtUtf8, maReplace);
        if (*id)
            API->mapSetData(in, "forceid", id, -1, dtUtf8, maReplace);
        VSMap *out = API->invoke(std_, "LoadPlugin", in);
        const char *e = API->mapGetError(out);
        c.ok = !e;
        c.error = e ? e : "";
        API->freeMap(in);
        API->freeMap(out);
        rt_note("load %s %d", c.path.c_str(), c.ok);
        pthread_mutex_lock(&P->lock);
        P->calls.push_back(c);
        pthread_mutex_unlock(&P->lock);
    } else if (!strcmp(op, "all")) {
        VSPlugin *std_ = API->getPluginByID("com.vapoursynth.std", P->core);
        VSMap *in = API->createMap();
        API->mapSetData(in, "path", !strcmp(a, "-") ? "" : a, -1, dtUtf8, maReplace);
        VSMap *out = API->invoke(std_, "LoadAllPlugins", in);
        API->freeMap(in);
        API->freeMap(out);
        pthread_mutex_lock(&P->lock);
        P->alls.push_back(!strcmp(a, "-") ? "" : a);
        pthread_mutex_unlock(&P->lock);
    } else if (!strcmp(op, "call")) {
        VSPlugin *p = any_plugin(n);
        if (p)
            call_one(p, "Fn0");
    } else if (!strcmp(op, "list")) {
        for (VSPlugin *p = API->getNextPlugin(nullptr, P->core); p; p = API->getNextPlugin(p, P->core)) {
            API->getPluginNamespace(p);
            for (VSPluginFunction *f = API->getNextPluginFunction(nullptr, p); f; f = API->getNextPluginFunction(f, p)) {
                API->getPluginFunctionName(f);
                API->getPluginFunctionArguments(f);
            }
        }
    } else if (!strcmp(op, "get")) {
        VSPlugin *p = API->getPluginByNamespace(a, P->core);
        if (p && strcmp(API->getPluginNamespace(p), a))
            oracle("P19", "wrong-plugin", "looking for namespace %s finds %s", a, API->getPluginNamespace(p));
        if (p)
            API->getPluginFunctionByName("Fn0", p);
    } else if (!strcmp(op, "reg")) { // a plugin that may be extended later
        VSPlugin *p = any_plugin(n);
        if (!p)
            return;
        std::string path = clean(API->getPluginPath(p));
        VFile *f = look_quiet(path);
        if (!f || !f->modif || f->kind == "api3")
            return;
        static const VSPLUGINAPI *vp = nullptr;
        (void)vp;
        char name[40];
        snprintf(name, sizeof name, "Late%ld", n % 7);
        int ok = API->registerFunction(name, "x:int:opt;", "who:int;", fn_call, (void *)(intptr_t)(f->index * 1000 + 900 + n % 7), p);
        pthread_mutex_lock(&P->lock);
        bool fresh = !ok || P->reg[API->getPluginID(p)].insert(name).second; // a refused call may return before the one that succeeded
        pthread_mutex_unlock(&P->lock);
        if (ok && !fresh)
            oracle("P19", "registered-twice", "function %s of %s is registered twice", name, path.c_str());
        if (ok)
            call_one(p, name);
    }
}
void *thread_fn(void *p) {
    auto *ops = (std::vector<std::string> *)p;
    for (auto &l : *ops)
        do_op(l);
    ops->clear();
    return nullptr;
}
std::string field(const std::string &l, const char *key, const char *def) {
    std::string k = std::string(" ") + key + "=";
    size_t i = l.find(k);
    if (i == std::string::npos)
        return def;
    i += k.size();
    size_t j = l.find(' ', i);
    return l.substr(i, j == std::string::npos ? j : j - i);
}
int err_of(const std::string &s) {
    return s == "eacces" ? EACCES : s == "eio" ? EIO : s == "enoent" ? ENOENT : s == "emfile" ? EMFILE : s == "eloop" ? ELOOP : s == "enomem" ? ENOMEM : 0;
}
VFile *make(const std::string &path, char type) {
    auto &p = P->fs[path];
    if (p)
        return p.get();
    p.reset(new VFile);
    VFile *f = p.get();
    f->path = path;
    f->name = path.substr(path.rfind('/') + 1);
    f->type = type;
    if (path != ROOT) {
        VFile *d = make(path.substr(0, path.rfind('/')), 'd');
        d->entries.push_back(f);
    }
    return f;
}
void build_fs(const Scenario &sc) {
    make(ROOT, 'd');
    for (auto &l : sc.lines) {
        char what[16] = "", path[1500] = "";
        if (sscanf(l.c_str(), "%15s %1499s", what, path) < 2)
            continue;
        std::string w = what, p = path;
        if (w == "dir") {
            VFile *f = make(p, 'd');
            f->open_err = err_of(field(l, "open", ""));
            f->read_err = err_of(field(l, "read", ""));
            f->read_err_after = atoi(field(l, "after", "0").c_str());
            f->dtype = field(l, "dtype", "1") == "1";
            f->stat_err = err_of(field(l, "stat", ""));
        } else if (w == "lib") {
            if (P->nlibs >= MAXF || P->fs.count(p))
                continue;
            VFile *f = make(p, 'f');
            f->kind = field(l, "kind", "good");
            f->id = field(l, "id", "sim.x");
            f->ns = field(l, "ns", "simx");
            f->nfn = atoi(field(l, "fn", "1").c_str());
            f->modif = field(l, "modif", "0") == "1";
            f->slow = atoi(field(l, "slow", "0").c_str());
            f->failures = atoi(field(l, "fails", "0").c_str());
            f->stat_err = err_of(field(l, "stat", ""));
            f->index = P->nlibs;
            P->libs[P->nlibs++] = f;
        } else if (w == "file" || w == "fifo") {
            make(p, w == "file" ? 'f' : 'p')->stat_err = err_of(field(l, "stat", ""));
        } else if (w == "link") {
            make(p, 'l')->target = field(l, "to", ROOT);
        } else if (w == "manifest") {
            if (P->fs.count(p + "/manifest.vs"))
                continue;
            VFile *f = make(p + "/manifest.vs", 'f');
            f->open_err = err_of(field(l, "open", ""));
            f->cut = atol(field(l, "cut", "-1").c_str());
            f->cut_err = err_of(field(l, "cuterr", ""));
            std::string nl = field(l, "nl", "n"), sep = nl == "n" ? "\n" : nl == "r" ? "\r\n" : "\n\n";
            std::string c = field(l, "head", "ok") == "ok" ? "[VapourSynth Manifest V1]" + sep : field(l, "head", "ok") == "bad" ? "[VapourSynth Manifest V9]" + sep : "";
            std::string e = field(l, "names", "");
            for (size_t i = 0; i < e.size();) {
                size_t j = e.find(',', i);
                if (j == std::string::npos)
                    j = e.size();
                c += e.substr(i, j - i) + sep;
                i = j + 1;
            }
            long pad = atol(field(l, "pad", "0").c_str()); // names of plugins that are not there
            std::string padding;
            for (long k = 0; (long)padding.size() < pad; k++)
                padding += "missing_plugin_" + std::to_string(k) + sep;
            if (pad) {
                size_t h = c.find(sep);
                c.insert(h == std::string::npos ? 0 : h + sep.size(), padding);
            }
            std::string lead = field(l, "lead", "0");
            for (int k = atoi(lead.c_str()); k > 0; k--)
                c = (k % 2 ? "\n" : "\r") + c;
            if (field(l, "tail", "1") == "0")
                while (!c.empty() && (c.back() == '\n' || c.back() == '\r'))
                    c.pop_back();
            f->content = c;
        }
    }
}

void check_all(const Scenario &sc, bool autoload) {
    std::vector<Cand> c;
    if (autoload) {
        walk(std::string(ROOT) + "/plugins", true, true, c);
        std::string extra = sc.get("extra", "");
        if (!extra.empty() && extra != "-")
            walk(extra, true, true, c);
    }
    size_t nauto = c.size();
    for (auto &a : P->alls)
        walk(a, false, true, c);
    std::map<std::string, std::string> got_id, got_ns; // loaded plugins
    std::set<std::string> paths;
    std::map<VFile *, int> live;
    for (VSPlugin *p = API->getNextPlugin(nullptr, P->core); p; p = API->getNextPlugin(p, P->core)) {
        std::string id = API->getPluginID(p), ns = API->getPluginNamespace(p), path = clean(API->getPluginPath(p) ? API->getPluginPath(p) : "");
        if (got_id.count(id) || got_ns.count(ns))
            oracle("P19", "twice", "identifier %s or namespace %s is loaded twice", id.c_str(), ns.c_str());
        got_id[id] = path;
        got_ns[ns] = path;
        if (path.compare(0, strlen(ROOT), ROOT))
            continue; // built in
        if (API->getPluginByID(id.c_str(), P->core) != p || API->getPluginByNamespace(ns.c_str(), P->core) != p)
            oracle("P19", "lookup", "plugin %s can't be found by its identifier and namespace", id.c_str());
        VFile *f = look_quiet(path);
        if (!f || !f->sound()) {
            oracle("P19", "bogus-plugin", "%s is listed as a plugin", path.c_str());
            continue;
        }
        live[f]++;
        const LoadCall *by = nullptr;
        bool named = false;
        for (auto &k : P->calls)
            if (k.ok) {
                std::vector<Cand> o;
                optimised(k.path, o, true, false);
                for (auto &x : o)
                    if (x.f == f)
                        by = &k;
            }
        for (auto &x : c)
            if (x.f == f)
                named = true;
        if (!by && !named)
            oracle("P19", "not-asked-for", "%s is loaded but nothing names it", path.c_str());
        if (id != f->id || ns != f->ns) {
            bool forced = false;
            for (auto &k : P->calls)
                if (k.ok && (k.id.empty() ? f->id : k.id) == id && (k.ns.empty() ? f->ns : k.ns) == ns)
                    forced = true;
            if (!forced)
                oracle("P19", "identity", "%s is loaded as %s in namespace %s", path.c_str(), id.c_str(), ns.c_str());
        }
        std::set<std::string> have, want = functions(f);
        for (VSPluginFunction *fn = API->getNextPluginFunction(nullptr, p); fn; fn = API->getNextPluginFunction(fn, p))
            have.insert(API->getPluginFunctionName(fn));
        for (auto &r : P->reg[id])
            want.insert(r);
        if (have != want)
            oracle("P19", "functions", "plugin %s has %lu functions instead of %lu", path.c_str(), (unsigned long)have.size(), (unsigned long)want.size());
        for (auto &n : have)
            call_one(p, n);
        count(UC_PLUG_GOOD);
    }
    if (!got_id.count("com.vapoursynth.std") || !got_id.count("com.vapoursynth.resize") || !got_id.count("com.vapoursynth.text"))
        oracle("P19", "builtin", "the built-in functions are missing");
    std::string logs;
    for (auto &m : P->log)
        logs += m + "\n";
    for (size_t i = 0; i < c.size(); i++) {
        Cand &x = c[i];
        bool ok = x.f && x.f->type == 'f' && x.f->index >= 0 && x.f->sound();
        if (ok && x.must && !atoi(sc.get("flaky", "0"))) {
            if (!got_id.count(x.f->id) && !got_ns.count(x.f->ns))
                oracle("P19", "not-loaded", "%s is sound and not loaded", x.path.c_str());
        }
        if (!ok)
            count(UC_PLUG_BAD);
        if (!ok && x.must && x.declared && P->log.size() < 400 && i < nauto) {
            std::string base = x.path.substr(x.path.rfind('/') + 1);
            base = base.substr(0, base.find('.'));
            if (logs.find(base) == std::string::npos)
                oracle("P19", "not-reported", "%s is declared by a manifest and can't be loaded, which is not reported", x.path.c_str());
        }
    }
    if (P->log.size() < 400)
        for (auto &m : P->complaints)
            if (logs.find(m) == std::string::npos && logs.find(P->libdir + m.substr(strlen(ROOT))) == std::string::npos)
                oracle("P19", "not-reported", "%s can't be used, which is not reported", m.c_str());
    std::map<std::pair<std::string, std::string>, int> succ;
    for (auto &k : P->calls) {
        std::vector<Cand> o;
        optimised(k.path, o, true, false);
        VFile *f = o[0].f;
        bool sound = o[0].must && f && f->type == 'f' && f->index >= 0 && f->sound();
        std::string id = !k.id.empty() ? k.id : f ? f->id : "", ns = !k.ns.empty() ? k.ns : f ? f->ns : "";
        if (k.ok) {
            if (o[0].must && !sound)
                oracle("P19", "false-success", "loading %s succeeds", k.path.c_str());
            if (++succ[{id, ns}] > 1)
                oracle("P19", "twice", "loading %s succeeds twice", k.path.c_str());
            if (o[0].must && (!got_id.count(id) || got_id[id] != o[0].path))
                oracle("P19", "false-success", "loading %s succeeds but it is not there", k.path.c_str());
        } else {
            if (sound && !got_id.count(id) && !got_ns.count(ns) && !atoi(sc.get("flaky", "0")))
                oracle("P19", "not-loaded", "%s is sound and can't be loaded: %.200s", k.path.c_str(), k.error.c_str());
            if (k.error.empty())
                oracle("P19", "no-message", "loading %s fails without a message", k.path.c_str());
        }
    }
    for (int i = 0; i < P->nlibs; i++) {
        VFile *f = P->libs[i];
        if (P->unload && f->handles != live[f])
            oracle("P19", "handles", "%s is held by the loader %d times and registered %d times", f->path.c_str(), f->handles, live[f]);
        if (!P->unload && f->handles < live[f])
            oracle("P19", "handles", "%s is held by the loader %d times and registered %d times", f->path.c_str(), f->handles, live[f]);
    }
    if (!P->fds.empty() || !P->streams.empty())
        oracle("P19", "open-directory", "a directory is left open");
}

void plug_run(const Scenario &sc) {
    P = new PWorld;
    P->api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    Dl_info di = {};
    dladdr((void *)getVapourSynthAPI, &di);
    P->libdir = di.dli_fname;
    P->libdir.erase(P->libdir.rfind('/'));
    fill<MAXF - 1>();
    P->abi = (int)sc.geti("abi", 1);
    P->dlnull = sc.geti("dlnull", 0);
    bool autoload = sc.geti("autoload", 1);
    P->unload = !sc.geti("nounload", 0);
    build_fs(sc);
    std::string extra = sc.get("extra", "");
    if (extra.empty())
        unsetenv("VAPOURSYNTH_EXTRA_PLUGIN_PATH");
    else
        setenv("VAPOURSYNTH_EXTRA_PLUGIN_PATH", extra == "-" ? "" : extra.c_str(), 1);
    P->core = API->createCore((autoload ? 0 : ccfDisableAutoLoading) | (P->unload ? 0 : ccfDisableLibraryUnloading));
    if (!P->core)
        oracle("P19", "no-core", "no core is created");
    API->addLogHandler(on_log, nullptr, nullptr, P->core);
    long nt = sc.geti("nthr", 1);
    P->ops.resize((size_t)nt);
    for (auto &l : sc.lines)
        if (!l.compare(0, 3, "op ")) {
            char *e;
            long t = strtol(l.c_str() + 3, &e, 10);
            if (t >= 0 && t < nt)
                P->ops[(size_t)t].push_back(e + (*e == ' '));
        }
    if (nt == 1)
        thread_fn(&P->ops[0]);
    else {
        std::vector<pthread_t> th;
        for (auto &o : P->ops)
            if (!o.empty()) {
                pthread_t x;
                pthread_create(&x, nullptr, thread_fn, &o);
                th.push_back(x);
            }
        for (auto x : th)
            pthread_join(x, nullptr);
    }
    check_all(sc, autoload);
    API->freeCore(P->core);
    for (int i = 0; i < P->nlibs; i++)
        if (P->unload && P->libs[i]->handles != 0)
            oracle("P19", "handles", "%s is held by the loader %d times after the core is gone", P->libs[i]->path.c_str(), P->libs[i]->handles);
}

// ------------------------------------------------------------------ generation
void gen(Rng &r, Scenario &s, bool race) {
    gen_search(r, s);
    s.add("cfg autoload %d", r.chance(race ? 0.5 : 0.85));
    if (r.chance(0.2))
        s.add("cfg nounload 1");
    if (r.chance(0.4))
        s.add("cfg abi %ld", r.range(2, 4));
    if (r.chance(0.15))
        s.add("cfg dlnull 1");
    std::vector<std::string> dirs = {"/simfs/plugins"}, libs;
    static const char *errs[] = {"eacces", "eio", "emfile", "enomem", "enoent"};
    bool faults = !race && r.chance(0.6);
    bool extra = r.chance(0.3);
    int ids = 0;
    long nd = r.range(0, 5);
    if (extra)
        dirs.push_back("/simfs/extra"), s.add("cfg extra /simfs/extra");
    else if (r.chance(0.1))
        s.add("cfg extra %s", r.chance(0.5) ? "-" : "/simfs/nowhere");
    if (r.chance(0.5))
        dirs.push_back("/simfs/other");
    auto dirline = [&](const std::string &d) {
        std::string l = "dir " + d;
        if (faults && r.chance(0.12))
            l += std::string(" open=") + errs[r.below(5)];
        if (faults && r.chance(0.2))
            l += std::string(" read=") + errs[r.below(5)] + " after=" + std::to_string(r.range(0, 5));
        if (r.chance(0.4))
            l += " dtype=0";
        if (faults && r.chance(0.05))
            l += " stat=eio";
        s.lines.push_back(l);
    };
    for (auto &d : dirs)
        if (!r.chance(0.05))
            dirline(d);
    for (long i = 0; i < nd; i++) {
        std::string d = dirs[r.below(dirs.size())] + "/" + (r.chance(0.1) ? "x.so" : "d" + std::to_string(i));
        if (std::find(dirs.begin(), dirs.end(), d) != dirs.end())
            continue;
        dirs.push_back(d);
        dirline(d);
    }
    bool flaky = false;
    int dirlinks = 0;
    long nl = r.range(1, race ? 6 : 14);
    auto lib = [&](const std::string &path) {
        static const char *bad[] = {"trunc", "nosym", "v5", "minor", "v2", "noconf"};
        std::string kind = r.chance(race ? 0.1 : 0.3) ? bad[r.below(6)] : r.chance(0.12) ? "api3" : r.chance(0.12) ? "misuse" : "good";
        int k = ids++;
        if (r.chance(0.12) && k)
            k = (int)r.below((uint64_t)k);
        int kn = r.chance(0.08) && k ? (int)r.below((uint64_t)k) : k;
        std::string l = "lib " + path + " kind=" + kind + " id=" + (r.chance(0.02) ? std::string("com.vapoursynth.std") : "sim.p" + std::to_string(k)) + " ns=" + (r.chance(0.02) ? std::string("std") : "simp" + std::to_string(kn)) +
                        " fn=" + std::to_string(r.range(1, 4));
        if (r.chance(race ? 0.7 : 0.2))
            l += " modif=1";
        if (r.chance(0.2))
            l += " slow=" + std::to_string(r.range(1, 2000));
        if (!race && r.chance(0.04)) {
            l += " fails=1";
            flaky = true;
        }
        if (faults && r.chance(0.05))
            l += std::string(" stat=") + (r.chance(0.5) ? "eacces" : "eio");
        s.lines.push_back(l);
        libs.push_back(path);
    };
    for (long i = 0; i < nl; i++) {
        std::string p = dirs[r.below(dirs.size())] + "/lib" + std::to_string(i);
        if (faults && r.chance(0.03))
            p += std::string((size_t)r.range(200, 245), 'n');
        int n = (int)r.below(20);
        if (n == 0)
            s.lines.push_back("file " + p + ".so");
        else if (n == 1)
            s.lines.push_back("file " + p + ".txt");
        else if (n == 2)
            s.lines.push_back("fifo " + p + ".so");
        else if (n == 3)
            s.lines.push_back("link " + p + (r.chance(0.7) ? ".so" : "") + " to=" + (libs.empty() || r.chance(0.3) ? "/simfs/missing.so" : !dirlinks && r.chance(0.3) ? (dirlinks++, dirs[r.below(dirs.size())]) : libs[r.below(libs.size())]));
        else if (n == 4 && !dirlinks && r.chance(0.15) && ++dirlinks) // one: two make an exponential number of paths
            s.lines.push_back("link " + p + " to=" + p.substr(0, p.rfind('/')));
        else {
            lib(p + ".so");
            if (r.chance(0.15))
                lib(p + (r.chance(0.34) ? ".avx2.so" : r.chance(0.5) ? ".avx512.so" : ".zn4.so"));
        }
    }
    // manifests: in some directories, naming some of the libraries and others
    for (auto &d : dirs)
        if (r.chance(0.3)) {
            std::string names;
            int k = 0;
            std::vector<std::string> in;
            for (auto &l : libs)
                if (!l.compare(0, d.size() + 1, d + "/"))
                    in.push_back(l);
            std::vector<std::string> pick;
            for (auto &l : in)
                if (r.chance(0.75))
                    pick.push_back(l.substr(d.size() + 1, l.size() - d.size() - 4));
            if (r.chance(0.3))
                pick.push_back("absent" + std::to_string(r.below(9)));
            if (r.chance(0.1))
                pick.push_back("../plugins/lib" + std::to_string(r.below(9)));
            if (faults && r.chance(0.08))
                pick.push_back(std::string((size_t)r.range(245, 300), 'q'));
            if (!pick.empty() && r.chance(0.2))
                pick.push_back(pick[r.below(pick.size())]);
            for (size_t i = pick.size(); i > 1; i--)
                std::swap(pick[i - 1], pick[r.below(i)]);
            for (auto &x : pick)
                names += (k++ ? "," : "") + x;
            static const char *nls[] = {"n", "n", "r", "nn"};
            std::string l = "manifest " + d + " names=" + names + " nl=" + nls[r.below(4)];
            if (r.chance(0.12))
                l += r.chance(0.5) ? " head=bad" : " head=none";
            if (r.chance(0.4))
                l += " tail=0";
            if (r.chance(0.1))
                l += " lead=" + std::to_string(r.range(1, 3));
            if (faults && r.chance(0.25))
                l += " pad=" + std::to_string(dirlinks || r.chance(0.5) ? r.range(50, 3000) : r.range(9000, 25000));
            if (faults && r.chance(0.25)) {
                l += " cut=" + std::to_string(r.range(0, r.chance(0.5) ? 40 : 200));
                if (r.chance(0.6))
                    l += " cuterr=eio";
            }
            if (faults && r.chance(0.08))
                l += " open=eacces";
            s.lines.push_back(l);
        }
    if (flaky)
        s.add("cfg flaky 1");
    long nt = race ? r.range(2, 4) : r.chance(0.7) ? 1 : r.range(2, 3);
    s.add("cfg nthr %ld", nt);
    long no = r.range(0, race ? 30 : 8);
    for (long i = 0; i < no; i++) {
        long t = (long)r.below((uint64_t)nt);
        int k = (int)r.below(12);
        if (k < 4 && !libs.empty()) {
            std::string p = r.chance(0.04) ? (r.chance(0.5) ? "-" : "/simfs/none.so") : libs[r.below(libs.size())];
            std::string l = "op " + std::to_string(t) + " load " + p;
            if (r.chance(0.15))
                l += " ns=forced" + std::to_string(r.below(3));
            if (r.chance(0.15))
                l += " id=sim.forced" + std::to_string(r.below(3));
            s.lines.push_back(l);
        } else if (k < 6)
            s.lines.push_back("op " + std::to_string(t) + " all " + (r.chance(0.05) ? "-" : r.chance(0.05) ? "/simfs/none" : dirs[r.below(dirs.size())]));
        else if (k < 8)
            s.add("op %ld call x %ld", t, (long)r.below(20));
        else if (k < 9)
            s.add("op %ld list", t);
        else if (k < 10)
            s.add("op %ld get simp%ld", t, (long)r.below(8));
        else
            s.add("op %ld reg x %ld", t, (long)r.below(200));
    }
}
} // namespace
void gen_plug_P19(Rng &r, int, Scenario &s) { gen(r, s, r.chance(0.1)); }
void gen_plug_P12(Rng &r, int, Scenario &s) { gen(r, s, true); }
void run_plug(const Scenario &s) { plug_run(s); }
