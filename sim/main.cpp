// Search, replay and minimisation of simulated runs.
#include "sim.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <set>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

std::string g_prop;
const char *const user_counter_names[] = {
    "requests_async", "requests_blocking", "requests_nested_blocking", "requests_from_callback", "requests_invalid_frame", "answers_frame", "answers_error", "filter_calls", "fault_filter_failure", "error_activations",
    "thread_count_changes", "memory_limit_changes", "cache_setting_changes", "cache_clears", "sim_sleeps", "nodes_created", "nodes_created_while_running", "node_references_dropped_early", "frame_and_map_operations", "messages_logged", "handler_changes",
    "memory_over_limit", "pipeline_flushes", "evictions_seen", "cache_hits_seen", "quiescent_points", "overlapping_filter_calls", "merged_requests", "linear_frames_cached_aside", "cores_freed_with_objects_alive", "buffers_recycled", "samples_checked",
    "writes", "fault_write_enospc", "fault_write_eio", "fault_write_short", "fault_write_eintr", "fault_flush_fails", "fault_close_fails", "bytes_written", "frames_output", "fault_script_fails", "bad_arguments",
    "plugins_good", "plugins_damaged", "fault_directory_error", "fault_short_read", "manifests", "fault_library_load", "plugin_loads", "fault_slow_call", "races_seen", "findings_of_other_properties", "value_checks", "out_of_order_completions",
    "runs_to_stdout", "runs_with_timecodes", "runs_with_json", "nested_blocking_waits", "filters_of_api3",
};
static_assert(sizeof(user_counter_names) / sizeof(*user_counter_names) == UC_MAX, "names");
static const char *const rt_counter_names[] = {"spurious_wakeups", "clock_jumps", "thread_stalls", "preempt_mem", "preempt_sync", "condvar_waits", "signals_without_waiter", "mutex_contention", "threads_started", "race_reports", "use_after_free_reports", "allocations", "idle_time_advances", "trylock_failures"};

// ------------------------------------------------------------------ scenario
const char *Scenario::get(const char *key, const char *def) const {
    size_t n = strlen(key);
    for (size_t i = lines.size(); i-- > 0;) {
        const std::string &l = lines[i];
        if (l.compare(0, 4, "cfg ") == 0 && l.compare(4, n, key) == 0 && l.size() > 4 + n && l[4 + n] == ' ')
            return l.c_str() + 5 + n;
    }
    return def;
}
long Scenario::geti(const char *key, long def) const {
    const char *v = get(key, nullptr);
    return v ? atol(v) : def;
}
double Scenario::getf(const char *key, double def) const {
    const char *v = get(key, nullptr);
    return v ? atof(v) : def;
}
void Scenario::set(const std::string &key, const std::string &value) { lines.push_back("cfg " + key + " " + value); }
void Scenario::add(const char *fmt, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    lines.push_back(b);
}

void fill_rtcfg(const Scenario &s, RtCfg &c) {
    c.seed = strtoull(s.get("seed", "1"), nullptr, 10);
    c.tick_ns = (uint64_t)s.geti("tick", 1000);
    c.ncpu = (int)s.geti("ncpu", 4);
    c.reuse = s.geti("reuse", 0) != 0;
    c.mode = (int)s.geti("mode", 0);
    c.p_sync = s.getf("psync", 0.1);
    c.mem_gap = s.getf("memgap", 0);
    c.shared_gap = s.getf("sharedgap", 0);
    c.pct_depth = (int)s.geti("pctdepth", 3);
    c.pct_len = (uint64_t)s.geti("pctlen", 20000);
    c.p_spurious = s.getf("pspurious", 0);
    c.p_jump = s.getf("pjump", 0);
    c.max_jump_us = (uint64_t)s.geti("maxjump", 3000000);
    c.p_stall = s.getf("pstall", 0);
    c.stall_len = (uint64_t)s.geti("stalllen", 3000);
    c.race = s.geti("race", 1) != 0;
    c.soft_slow = (uint64_t)s.geti("softslow", 300000);
    c.hard_slow = (uint64_t)s.geti("hardslow", 900000);
    c.soft_steps = (uint64_t)s.geti("softsteps", 60000000);
    c.hard_steps = (uint64_t)s.geti("hardsteps", 200000000);
}
void gen_search(Rng &r, Scenario &s) {
    s.add("cfg seed %lu", (unsigned long)(r.next() >> 1));
    s.add("cfg ncpu %ld", r.range(1, 6));
    if (r.chance(0.3))
        s.add("cfg reuse 1");
    static const double ps[] = {0.02, 0.05, 0.1, 0.2, 0.35, 0.6};
    s.add("cfg psync %g", ps[r.below(6)]);
    int m = (int)r.below(10);
    if (m < 3) {
        s.add("cfg mode 1");
        s.add("cfg pctdepth %ld", r.range(1, 8));
        s.add("cfg pctlen %ld", r.chance(0.5) ? 2000L : 15000L);
    }
    if (r.chance(0.45)) {
        static const double g[] = {20, 100, 400, 2000};
        s.add("cfg sharedgap %g", g[r.below(4)]);
    }
    if (r.chance(0.15)) {
        static const double g[] = {300, 3000, 20000};
        s.add("cfg memgap %g", g[r.below(3)]);
    }
    if (r.chance(0.3))
        s.add("cfg pspurious %g", r.chance(0.5) ? 0.003 : 0.03);
    if (r.chance(0.25))
        s.add("cfg pjump %g", r.chance(0.5) ? 0.0005 : 0.005);
    if (r.chance(0.3))
        s.add("cfg pstall %g", r.chance(0.5) ? 0.0005 : 0.004);
    static const long ticks[] = {200, 1000, 1000, 5000, 50000};
    s.add("cfg tick %ld", ticks[r.below(5)]);
}

void oracle(const char *prop, const char *kind, const char *fmt, ...) {
    char b[4000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    if (g_prop == prop) {
        char k[32];
        snprintf(k, sizeof(k), "%s.%s", prop, kind);
        rt_fail(k, "%s", b);
    }
    count(UC_FOREIGN);
    extern void note_foreign(const char *, const char *);
    note_foreign(prop, kind);
    if (rt_verbose)
        dprintf(2, "[foreign] %s.%s: %s\n", prop, kind, b);
}

// ------------------------------------------------------------------ running one execution in a child
static RtResult *shared;
static const Family *fam;
static int watchdog_s = 60;

void note_foreign(const char *prop, const char *kind) {
    char b[100];
    snprintf(b, sizeof(b), "%s.%s;", prop, kind);
    size_t n = strlen(shared->foreign);
    if (!strstr(shared->foreign, b) && n + strlen(b) + 1 < sizeof(shared->foreign))
        strcpy(shared->foreign + n, b);
}

struct Out {
    int outcome = 0;
    std::string kind, msg;
    uint64_t hash = 0;
    std::vector<RtDecision> dec;
    bool dec_overflow = false;
};

static void reset_shared() {
    size_t used = std::min<uint64_t>(shared->ndec, RT_MAXDEC);
    (void)used;
    shared->outcome = RT_RUNNING;
    shared->kind[0] = 0;
    shared->msg[0] = 0;
    shared->foreign[0] = 0;
    shared->hash = shared->switch_hash = shared->steps = shared->slow = shared->simns = shared->switches = shared->preemptions = 0;
    shared->nthreads = 0;
    memset(shared->cnt, 0, sizeof(shared->cnt));
    shared->ndec = 0;
    memset(shared->cov, 0, sizeof(shared->cov));
}

static int on_race(const char *desc) {
    count(UC_RACE_SEEN);
    if (g_prop == "P12")
        return 1;
    note_foreign("P12", "race");
    (void)desc;
    return 0;
}
static void child_fn(void *p) { fam->run(*(const Scenario *)p); }

static Out run_one(const Scenario &sc, const std::vector<RtDecision> *replay) {
    reset_shared();
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(3);
    }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        RtCfg c;
        fill_rtcfg(sc, c);
        if (replay) {
            c.replay = true;
            c.dec = replay->data();
            c.ndec = replay->size();
        }
        rt_init(shared);
        rt_on_race = on_race;
        if (!rt_verbose) {
            int fd = open("/dev/null", O_WRONLY);
            if (fd >= 0) {
                dup2(fd, 2);
                dup2(fd, 1);
            }
        }
        rt_run(&c, child_fn, (void *)&sc);
        rt_finish_ok();
    }
    int st = 0;
    // the watchdog only guards against simulator bugs and endless loops without scheduling points
    sigset_t ss;
    sigemptyset(&ss);
    sigaddset(&ss, SIGCHLD);
    struct timespec to = {watchdog_s, 0};
    bool killed = false;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid)
            break;
        int r = sigtimedwait(&ss, nullptr, &to);
        if (r < 0 && errno == EAGAIN) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            killed = true;
            break;
        }
    }
    Out o;
    o.outcome = shared->outcome;
    if (killed || o.outcome == RT_RUNNING) {
        if (killed) {
            o.outcome = RT_INCONCLUSIVE;
            o.kind = "watchdog";
            o.msg = "run did not end in " + std::to_string(watchdog_s) + " s of real time";
        } else {
            o.outcome = RT_VIOLATION;
            o.kind = "exit";
            o.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "process exited unexpectedly with status " + std::to_string(WEXITSTATUS(st));
        }
    } else {
        o.kind = shared->kind;
        o.msg = shared->msg;
    }
    o.hash = shared->hash;
    o.dec_overflow = shared->ndec > RT_MAXDEC;
    o.dec.assign(shared->dec, shared->dec + std::min<uint64_t>(shared->ndec, RT_MAXDEC));
    return o;
}

static double real_now() {
    struct timespec t;
    // rt interposes clock_gettime only while a simulation is active, which it never is in the parent
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ JSON helpers
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += (char)c;
        } else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else
            r += (char)c;
    }
    return r + "\"";
}
static void write_replay(const std::string &path, const std::string &prop, uint64_t seed, const Scenario &sc, const Out &o) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f)
        return;
    fprintf(f, "{\"property\": \"%s\",\n \"seed\": %lu,\n \"kind\": %s,\n \"violation\": %s,\n \"hash\": \"%016lx\",\n \"scenario\": [\n", prop.c_str(), (unsigned long)seed, jstr(o.kind).c_str(), jstr(o.msg).c_str(), (unsigned long)o.hash);
    for (size_t i = 0; i < sc.lines.size(); i++)
        fprintf(f, "  %s%s\n", jstr(sc.lines[i]).c_str(), i + 1 < sc.lines.size() ? "," : "");
    fprintf(f, " ],\n \"schedule_format\": \"[step, kind, arg]: T run thread arg, W spurious wakeup of thread arg, S signal picks waiter arg, J clock jumps arg microseconds; anything not listed follows the default schedule\",\n \"schedule\": [");
    for (size_t i = 0; i < o.dec.size(); i++)
        fprintf(f, "%s[%lu, \"%c\", %u]", i ? ", " : "", (unsigned long)o.dec[i].step, (char)o.dec[i].kind, o.dec[i].arg);
    fprintf(f, "]\n}\n");
    fclose(f);
}
// reads the files written by write_replay
static bool read_replay(const char *path, std::string &prop, Scenario &sc, std::vector<RtDecision> &dec, std::string &kind, uint64_t &hash) {
    FILE *f = fopen(path, "r");
    if (!f)
        return false;
    std::string t;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof(b), f)) > 0)
        t.append(b, n);
    fclose(f);
    auto str_at = [&](size_t p, size_t &end) {
        std::string r;
        p = t.find('"', p);
        for (p++; p < t.size() && t[p] != '"'; p++) {
            if (t[p] == '\\') {
                p++;
                if (t[p] == 'u') {
                    r += (char)strtol(t.substr(p + 1, 4).c_str(), nullptr, 16);
                    p += 4;
                } else if (t[p] == 'n')
                    r += '\n';
                else
                    r += t[p];
            } else
                r += t[p];
        }
        end = p + 1;
        return r;
    };
    size_t p, e;
    if ((p = t.find("\"property\":")) == std::string::npos)
        return false;
    prop = str_at(p + 11, e);
    if ((p = t.find("\"kind\":")) != std::string::npos)
        kind = str_at(p + 7, e);
    if ((p = t.find("\"hash\":")) != std::string::npos)
        hash = strtoull(str_at(p + 7, e).c_str(), nullptr, 16);
    if ((p = t.find("\"scenario\":")) == std::string::npos)
        return false;
    p = t.find('[', p) + 1;
    for (;;) {
        size_t q = t.find_first_of("\"]", p);
        if (q == std::string::npos || t[q] == ']')
            break;
        sc.lines.push_back(str_at(q, p));
    }
    if ((p = t.find("\"schedule\":")) == std::string::npos)
        return false;
    p = t.find('[', p) + 1;
    for (;;) {
        size_t q = t.find_first_of("[]", p);
        if (q == std::string::npos || t[q] == ']')
            break;
        RtDecision d;
        char *x;
        d.step = strtoull(t.c_str() + q + 1, &x, 10);
        while (*x && *x != '"')
            x++;
        d.kind = (uint32_t)x[1];
        x += 3;
        while (*x && (*x == ',' || *x == ' '))
            x++;
        d.arg = (uint32_t)strtoul(x, &x, 10);
        dec.push_back(d);
        p = t.find(']', q) + 1;
    }
    return true;
}

static const Family *find_family(const std::string &prop, uint64_t pick) {
    double tot = 0;
    const Family *last = nullptr;
    for (const Family *f = families; f->prop; f++)
        if (prop == f->prop)
            tot += f->weight;
    if (tot <= 0)
        return nullptr;
    double x = (double)(pick % 1000003) / 1000003.0 * tot;
    for (const Family *f = families; f->prop; f++)
        if (prop == f->prop) {
            last = f;
            if (x < f->weight)
                return f;
            x -= f->weight;
        }
    return last;
}
static const Family *nth_family(const std::string &prop, int n) {
    for (const Family *f = families; f->prop; f++)
        if (prop == f->prop && n-- == 0)
            return f;
    return nullptr;
}
static int family_index(const Family *x) {
    int n = 0;
    for (const Family *f = families; f != x; f++)
        if (!strcmp(f->prop, x->prop))
            n++;
    return n;
}

// ------------------------------------------------------------------ minimisation
static bool same_kind(const Out &o, const std::string &kind) { return o.outcome == RT_VIOLATION && o.kind == kind; }

static void minimise(Scenario &sc, Out &best, double budget) {
    double end = real_now() + budget;
    std::string kind = best.kind;
    auto attempt = [&](const Scenario &cand, Out &res) -> bool {
        Out o = run_one(cand, &best.dec);
        if (same_kind(o, kind)) {
            res = o;
            res.dec = best.dec;
            return true;
        }
        for (int k = 0; k < 6 && real_now() < end; k++) {
            Scenario c2 = cand;
            if (k)
                c2.add("cfg seed %d", 1000 + k);
            o = run_one(c2, nullptr);
            if (same_kind(o, kind) && !o.dec_overflow) {
                Out r2 = run_one(c2, &o.dec);
                if (same_kind(r2, kind)) {
                    res = r2;
                    res.dec = o.dec;
                    return true;
                }
            }
        }
        return false;
    };
    // 1. scenario lines
    double end1 = real_now() + budget * 0.6;
    for (size_t chunk = std::max<size_t>(1, sc.lines.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < sc.lines.size() && real_now() < end1;) {
            Scenario cand;
            bool removed = false;
            for (size_t k = 0; k < sc.lines.size(); k++) {
                if (k >= i && k < i + chunk && sc.lines[k].compare(0, 4, "cfg ") != 0) {
                    removed = true;
                    continue;
                }
                cand.lines.push_back(sc.lines[k]);
            }
            Out r;
            if (removed && attempt(cand, r)) {
                sc = cand;
                best = r;
            } else
                i += chunk;
        }
        if (chunk == 1)
            break;
    }
    // 2. schedule decisions
    for (size_t chunk = std::max<size_t>(1, best.dec.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < best.dec.size() && real_now() < end;) {
            std::vector<RtDecision> cand(best.dec.begin(), best.dec.begin() + (long)i);
            if (i + chunk < best.dec.size())
                cand.insert(cand.end(), best.dec.begin() + (long)(i + chunk), best.dec.end());
            Out o = run_one(sc, &cand);
            if (same_kind(o, kind)) {
                o.dec = cand;
                best = o;
            } else
                i += chunk;
        }
        if (chunk == 1)
            break;
    }
    Out fin = run_one(sc, &best.dec);
    if (same_kind(fin, kind)) {
        fin.dec = best.dec;
        best = fin;
    }
}

// ------------------------------------------------------------------ main
static const char *arg(int argc, char **argv, const char *name, const char *def) {
    for (int i = 2; i + 1 < argc; i++)
        if (!strcmp(argv[i], name))
            return argv[i + 1];
    return def;
}
static bool flag(int argc, char **argv, const char *name) {
    for (int i = 2; i < argc; i++)
        if (!strcmp(argv[i], name))
            return true;
    return false;
}

static Scenario make(const Family *f, uint64_t seed, int tier) {
    Scenario s;
    Rng r(hmix(seed, 0x7e57));
    s.add("cfg family %d", family_index(f));
    gen_search(r, s);
    f->gen(r, tier, s);
    return s;
}

int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOFBF, 65536);
    if (argc < 2) {
        fprintf(stderr, "usage: vssim search|one|replay ...\n");
        return 2;
    }
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VSSIM_REEXEC")) {
        setenv("VSSIM_REEXEC", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0)
            execv("/proc/self/exe", argv);
    }
    sigset_t ss;
    sigemptyset(&ss);
    sigaddset(&ss, SIGCHLD);
    sigprocmask(SIG_BLOCK, &ss, nullptr);
    shared = (RtResult *)mmap(nullptr, sizeof(RtResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string mode = argv[1];
    if (flag(argc, argv, "-v"))
        rt_verbose = 1;
    if (flag(argc, argv, "-vv"))
        rt_verbose = 2;
    watchdog_s = atoi(arg(argc, argv, "--watchdog", "60"));
    int cpu = atoi(arg(argc, argv, "--cpu", "-1"));
    if (cpu >= 0) {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(cpu, &cs);
        sched_setaffinity(0, sizeof(cs), &cs);
    }
    int tier = !strcmp(arg(argc, argv, "--tier", "quick"), "thorough");

    if (mode == "replay") {
        Scenario sc;
        std::vector<RtDecision> dec;
        std::string kind;
        uint64_t hash = 0;
        if (argc < 3 || !read_replay(argv[2], g_prop, sc, dec, kind, hash)) {
            fprintf(stderr, "cannot read the replay file\n");
            return 2;
        }
        fam = nth_family(g_prop, (int)sc.geti("family", 0));
        if (!fam)
            return 2;
        if (fam->warm)
            fam->warm();
        Out o = run_one(sc, &dec);
        bool same = o.outcome == RT_VIOLATION && o.kind == kind;
        printf("{\"outcome\": %d, \"kind\": %s, \"msg\": %s, \"hash\": \"%016lx\", \"same\": %s, \"hash_equal\": %s}\n", o.outcome, jstr(o.kind).c_str(), jstr(o.msg).c_str(), (unsigned long)o.hash, same ? "true" : "false", o.hash == hash ? "true" : "false");
        return o.outcome == RT_VIOLATION ? 1 : 0;
    }

    g_prop = arg(argc, argv, "--prop", "P01");
    if (mode == "one") {
        uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
        fam = find_family(g_prop, hmix(seed, 77));
        const char *fi = arg(argc, argv, "--family", nullptr);
        if (fi)
            fam = nth_family(g_prop, atoi(fi));
        if (!fam)
            return 2;
        if (fam->warm)
            fam->warm();
        Scenario sc = make(fam, seed, tier);
        if (flag(argc, argv, "--show"))
            for (auto &l : sc.lines)
                printf("%s\n", l.c_str());
        double t0 = real_now();
        Out o = run_one(sc, nullptr);
        double t1 = real_now();
        printf("outcome %d kind %s msg %s\nhash %016lx steps %lu slow %lu sim %.3f ms threads %u switches %lu dec %lu real %.1f ms\n", o.outcome, o.kind.c_str(), o.msg.c_str(), (unsigned long)o.hash, (unsigned long)shared->steps, (unsigned long)shared->slow, (double)shared->simns * 1e-6, shared->nthreads, (unsigned long)shared->switches, (unsigned long)shared->ndec, (t1 - t0) * 1e3);
        for (int i = 0; i < RC_USER0; i++)
            if (shared->cnt[i])
                printf("  %s=%lu", i < (int)(sizeof(rt_counter_names) / sizeof(char *)) ? rt_counter_names[i] : "?", (unsigned long)shared->cnt[i]);
        for (int i = 0; i < UC_MAX; i++)
            if (shared->cnt[RC_USER0 + i])
                printf("  %s=%lu", user_counter_names[i], (unsigned long)shared->cnt[RC_USER0 + i]);
        printf("\n");
        Out o2 = run_one(sc, &o.dec);
        printf("replayed: outcome %d kind %s hash %s\n", o2.outcome, o2.kind.c_str(), o2.hash == o.hash ? "equal" : "DIFFERENT");
        Out o3 = run_one(sc, nullptr);
        printf("again: outcome %d kind %s hash %s\n", o3.outcome, o3.kind.c_str(), o3.hash == o.hash ? "equal" : "DIFFERENT");
        return o.outcome == RT_VIOLATION;
    }

    if (mode != "search")
        return 2;
    // --worker i/n: seeds first+i, first+i+n, ...
    int wi = 0, wn = 1;
    sscanf(arg(argc, argv, "--worker", "0/1"), "%d/%d", &wi, &wn);
    uint64_t first = strtoull(arg(argc, argv, "--first", "1"), nullptr, 10);
    uint64_t maxruns = strtoull(arg(argc, argv, "--runs", "1000000000"), nullptr, 10);
    double budget = atof(arg(argc, argv, "--time", "10"));
    double minbudget = atof(arg(argc, argv, "--minimise", "20"));
    std::string outdir = arg(argc, argv, "--out", "/tmp");
    int det_every = atoi(arg(argc, argv, "--determinism-every", "50"));
    const char *fi = arg(argc, argv, "--family", nullptr);
    bool keep_going = flag(argc, argv, "--keep-going");

    for (const Family *f = families; f->prop; f++)
        if (g_prop == f->prop && f->warm)
            f->warm();

    double t0 = real_now();
    uint64_t runs = 0, viol = 0, inconc = 0, steps = 0, slow = 0, switches = 0, preempt = 0, simns = 0, det = 0, nondet = 0, maxthreads = 0, fork_reruns = 0;
    std::vector<uint64_t> cnt(RT_NCNT, 0);
    std::set<uint64_t> inter;
    std::vector<uint8_t> cov(RT_COVBITS / 8, 0);
    std::map<std::string, std::string> inc_example;
    std::map<std::string, int> vkinds;
    std::map<std::string, std::pair<int, uint64_t>> foreign;
    std::vector<std::string> nondet_seeds, samples;
    std::set<uint64_t> nontrivial;
    (void)fork_reruns;
    for (uint64_t k = 0; k < maxruns && real_now() - t0 < budget; k++) {
        uint64_t seed = first + (uint64_t)wi + k * (uint64_t)wn;
        fam = fi ? nth_family(g_prop, atoi(fi)) : find_family(g_prop, hmix(seed, 77));
        if (!fam) {
            fprintf(stderr, "no such property\n");
            return 2;
        }
        Scenario sc = make(fam, seed, tier);
        Out o = run_one(sc, nullptr);
        runs++;
        steps += shared->steps;
        slow += shared->slow;
        switches += shared->switches;
        preempt += shared->preemptions;
        simns += shared->simns;
        maxthreads = std::max<uint64_t>(maxthreads, shared->nthreads);
        for (int i = 0; i < RT_NCNT; i++)
            cnt[i] += shared->cnt[i];
        if (inter.size() < 4000000)
            inter.insert(hmix(shared->switch_hash, seed * 0));
        for (size_t i = 0; i < cov.size(); i++)
            cov[i] |= shared->cov[i];
        for (char *q = shared->foreign; *q;) {
            char *e = strchr(q, ';');
            if (!e)
                break;
            auto &fx = foreign[std::string(q, (size_t)(e - q))];
            if (!fx.first++)
                fx.second = seed;
            q = e + 1;
        }
        if (samples.size() < 2 && o.outcome == RT_OK && sc.lines.size() > 12 && sc.lines.size() < 60) {
            std::string t = "{\"seed\": " + std::to_string(seed) + ", \"scenario\": [";
            for (size_t i = 0; i < sc.lines.size(); i++)
                t += (i ? ", " : "") + jstr(sc.lines[i]);
            t += "], \"scheduling_points\": " + std::to_string(shared->slow) + ", \"switches\": " + std::to_string(shared->switches) + ", \"threads\": " + std::to_string(shared->nthreads) + ", \"non_default_decisions\": " + std::to_string(o.dec.size()) + ", \"hash\": \"" + std::to_string(o.hash) + "\"}";
            samples.push_back(t);
        }
        if (shared->switches >= 8 || shared->nthreads <= 1)
            nontrivial.insert(hmix(shared->switch_hash, shared->hash * 0));
        if (o.outcome == RT_INCONCLUSIVE) {
            inconc++;
            if (inc_example.size() < 20)
                inc_example.emplace(o.kind + ": " + o.msg.substr(0, 200), std::to_string(seed));
        }
        if (o.outcome == RT_VIOLATION) {
            viol++;
            vkinds[o.kind]++;
            if (keep_going) {
                if (vkinds[o.kind] <= 2) {
                    printf("{\"found\": %s, \"seed\": %lu, \"msg\": %s}\n", jstr(o.kind).c_str(), (unsigned long)seed, jstr(o.msg).c_str());
                    fflush(stdout);
                }
                continue;
            }
            Out rep = run_one(sc, &o.dec);
            bool reproduced = same_kind(rep, o.kind);
            Out best = o;
            Scenario msc = sc;
            if (reproduced) {
                rep.dec = o.dec;
                best = rep;
                if (minbudget > 0)
                    minimise(msc, best, minbudget);
            }
            std::string path = outdir + "/" + g_prop + "-seed" + std::to_string(seed) + ".json";
            write_replay(path, g_prop, seed, msc, best);
            printf("{\"violation\": %s, \"seed\": %lu, \"msg\": %s, \"replay\": %s, \"reproduced\": %s, \"lines\": %zu, \"decisions\": %zu, \"orig_decisions\": %zu}\n", jstr(best.kind).c_str(), (unsigned long)seed, jstr(best.msg).c_str(), jstr(path).c_str(), reproduced ? "true" : "false", msc.lines.size(), best.dec.size(), o.dec.size());
            fflush(stdout);
            if (reproduced)
                break;
            continue;
        }
        if (det_every > 0 && k % (uint64_t)det_every == 0 && o.outcome == RT_OK) {
            Out o2 = run_one(sc, nullptr);
            Out o3 = o.dec_overflow ? o2 : run_one(sc, &o.dec);
            det++;
            if (o2.hash != o.hash || (!o.dec_overflow && o3.hash != o.hash)) {
                nondet++;
                if (nondet_seeds.size() < 5)
                    nondet_seeds.push_back(std::to_string(seed) + (o2.hash != o.hash ? "(again)" : "(replay)"));
            }
        }
    }
    double dt = real_now() - t0;
    uint64_t covn = 0;
    for (uint8_t b : cov)
        covn += (uint64_t)__builtin_popcount(b);
    std::string cf = outdir + "/cov." + std::to_string(wi);
    FILE *f = fopen(cf.c_str(), "w");
    if (f) {
        fwrite(cov.data(), 1, cov.size(), f);
        fclose(f);
    }
    f = fopen((outdir + "/inter." + std::to_string(wi)).c_str(), "w");
    if (f) {
        for (uint64_t x : nontrivial)
            fwrite(&x, 8, 1, f);
        fclose(f);
    }
    printf("{\"summary\": 1, \"runs\": %lu, \"violations\": %lu, \"inconclusive\": %lu, \"seconds\": %.3f, \"steps\": %lu, \"scheduling_points\": %lu, \"switches\": %lu, \"preemptions\": %lu, \"sim_seconds\": %.6f, \"interleavings\": %zu, \"switch_pairs\": %lu, \"max_threads\": %lu, \"determinism_checked\": %lu, \"determinism_failed\": %lu, \"nondet\": [", (unsigned long)runs, (unsigned long)viol, (unsigned long)inconc, dt, (unsigned long)steps, (unsigned long)slow, (unsigned long)switches, (unsigned long)preempt, (double)simns * 1e-9, inter.size(), (unsigned long)covn, (unsigned long)maxthreads, (unsigned long)det, (unsigned long)nondet);
    for (size_t i = 0; i < nondet_seeds.size(); i++)
        printf("%s%s", i ? ", " : "", jstr(nondet_seeds[i]).c_str());
    printf("], \"counters\": {");
    bool firstc = true;
    for (int i = 0; i < RT_NCNT; i++) {
        const char *n = i < (int)(sizeof(rt_counter_names) / sizeof(char *)) ? rt_counter_names[i] : i >= RC_USER0 && i < RC_USER0 + UC_MAX ? user_counter_names[i - RC_USER0] : nullptr;
        if (n && cnt[i]) {
            printf("%s\"%s\": %lu", firstc ? "" : ", ", n, (unsigned long)cnt[i]);
            firstc = false;
        }
    }
    printf("}, \"inconclusive_examples\": {");
    firstc = true;
    for (auto &x : inc_example) {
        printf("%s%s: %s", firstc ? "" : ", ", jstr(x.first).c_str(), jstr(x.second).c_str());
        firstc = false;
    }
    printf("}, \"samples\": [");
    for (size_t i = 0; i < samples.size(); i++)
        printf("%s%s", i ? ", " : "", samples[i].c_str());
    printf("], \"foreign\": {");
    firstc = true;
    for (auto &x : foreign) {
        printf("%s%s: [%d, %lu]", firstc ? "" : ", ", jstr(x.first).c_str(), x.second.first, (unsigned long)x.second.second);
        firstc = false;
    }
    printf("}, \"kinds\": {");
    firstc = true;
    for (auto &x : vkinds) {
        printf("%s%s: %d", firstc ? "" : ", ", jstr(x.first).c_str(), x.second);
        firstc = false;
    }
    printf("}}\n");
    return 0;
}
