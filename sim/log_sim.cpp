// Message logging: threads log, add and remove handlers; handlers are slow and log themselves. Decides P13.
#include "VapourSynth3.h"
#include "sim.h"
#include <algorithm>
#include <map>
#include <memory>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

namespace {
struct Msg {
    int id, thread, seq, depth;   // depth: logged by a handler while it handles a message
    int level;
    std::string text;
    uint64_t start = 0, end = UINT64_MAX;
    bool to3 = false;             // logged with the old interface
    int delivered = 0;            // to a handler of the current interface
    int epoch_none = 0;           // surely logged while there was no handler
    int within = 0;               // logged by this handler
};
struct Arr {
    int msg; // -1: not one of ours
    uint64_t at;
    int tid;
    bool replay;
    std::string text;
    int level;
};
struct Hand {
    int id;
    bool old = false;             // registered with the old interface
    bool has_free = true;
    int nest = 0;                 // logs n messages itself
    long slow = 0;
    uint64_t as = 0, ae = UINT64_MAX, rs = UINT64_MAX, re = UINT64_MAX;
    int adder = -1;
    int frees = 0, removers = 0, removed_ok = 0;
    uint64_t freed_at = 0;
    VSLogHandle *h = nullptr;
    int h3 = -1;
    std::vector<Arr> got;
    uint64_t magic = 0xfeedface;
};
struct LThr {
    int id;
    std::vector<std::string> ops;
    int seq[4] = {0, 0, 0, 0};
    int depth = 0;
};
struct LWorld {
    const VSAPI *api;
    const vs3::VSAPI3 *api3;
    VSCore *core;
    bool core_gone = false;
    uint64_t clock = 0;
    pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
    std::vector<std::unique_ptr<Hand>> hands;
    std::vector<std::unique_ptr<Msg>> msgs;
    std::vector<Hand *> live;
    std::map<int, LThr *> thr; // by simulated thread
    long maxh = 3;
};
LWorld *L;
uint64_t tick() { return ++L->clock; }
void do_log(LThr *t, int level, size_t pad, bool to3, int within = 0);

int level3(int l) {
    return l == mtDebug ? vs3::mtDebug : l == mtInformation || l == mtWarning ? vs3::mtWarning : vs3::mtCritical;
}
void VS_CC handler(int type, const char *msg, void *ud) {
    Hand *h = (Hand *)ud;
    count(UC_LOGS);
    uint64_t now = tick();
    if (h->frees)
        oracle("P13", "called-after-free", "handler %d is called with \"%.40s\" after its user data was freed", h->id, msg);
    if (now > h->re)
        oracle("P13", "called-after-removal", "handler %d is called with \"%.40s\" after its removal had returned", h->id, msg);
    Arr a{-1, now, rt_tid(), false, "", type};
    int id = -1;
    if (sscanf(msg, "#%d ", &id) == 1 && id >= 0 && id < (int)L->msgs.size()) {
        Msg &m = *L->msgs[(size_t)id];
        a.msg = id;
        if (m.text != msg)
            oracle("P13", "text", "handler %d gets message %d as \"%.60s\" instead of \"%.60s\"", h->id, id, msg, m.text.c_str());
        int want = h->old ? m.to3 ? m.level : level3(m.level) : m.level;
        if (want != type)
            oracle("P13", "level", "handler %d gets message %d with level %d instead of %d", h->id, id, type, want);
        if (m.to3 && !h->old)
            oracle("P13", "wrong-kind", "handler %d gets message %d which was not logged to this core", h->id, id);
        a.replay = m.end != UINT64_MAX || L->thr[rt_tid()] == nullptr || L->thr[rt_tid()]->id != m.thread;
        if (a.replay) {
            if (now > h->ae || h->adder != rt_tid())
                oracle("P13", "late", "handler %d gets message %d outside of the call that logged it", h->id, id);
            if (h->old)
                oracle("P13", "late", "handler %d gets message %d outside of the call that logged it", h->id, id);
        }
        if (!h->old)
            m.delivered++;
    } else {
        a.text = msg;
    }
    h->got.push_back(a);
    rt_note("handler %d message %d", h->id, a.msg);
    if (h->slow) {
        count(UC_SLEEP);
        rt_sleep_ns((uint64_t)h->slow * 1000);
    } else
        rt_yield_point();
    auto it = L->thr.find(rt_tid());
    if (h->nest && it != L->thr.end() && it->second && !h->old && a.msg >= 0) {
        LThr *t = it->second;
        if (L->msgs[(size_t)a.msg]->depth < 2 && t->depth < 2) {
            int pick = a.msg % 4;
            if (pick < h->nest) {
                t->depth++;
                do_log(t, a.msg % 4, 3, pick == 1 && a.msg % 3 == 0, h->id);
                t->depth--;
            }
        }
    }
    if (h->frees || tick() > h->re)
        oracle("P13", "freed-while-called", "the user data of handler %d was freed or its removal returned while it was running", h->id);
}
void VS_CC hfree(void *ud) {
    Hand *h = (Hand *)ud;
    if (++h->frees > 1)
        oracle("P13", "double-free", "the user data of handler %d is freed %d times", h->id, h->frees);
    h->freed_at = tick();
    rt_yield_point();
}
void VS_CC hfree3(void *ud) { hfree(ud); }
void do_log(LThr *t, int level, size_t pad, bool to3, int within) {
    static const int lv[] = {mtDebug, mtInformation, mtWarning, mtCritical};
    level = to3 ? level % 3 : lv[level % 4];
    std::string text;
    int id = (int)L->msgs.size();
    char b[80];
    int d = t->depth > 2 ? 2 : t->depth;
    snprintf(b, sizeof b, "#%d thread %d depth %d number %d %%s %%n", id, t->id, d, t->seq[d]);
    text = b;
    text.append(pad, 'x');
    L->msgs.emplace_back(new Msg{id, t->id, t->seq[d]++, d, level, text});
    Msg *m = L->msgs.back().get();
    m->to3 = to3;
    m->within = within;
    char *own = (char *)malloc(text.size() + 1); // the caller's buffer is gone after the call
    memcpy(own, text.c_str(), text.size() + 1);
    m->start = tick();
    if (to3)
        L->api3->logMessage(level, own);
    else
        L->api->logMessage(level, own, L->core);
    m->end = tick();
    memset(own, '!', text.size());
    free(own);
}
void add_handler(LThr *t, long kind, long flags) {
    pthread_mutex_lock(&L->lock);
    bool full = (long)L->live.size() >= L->maxh;
    pthread_mutex_unlock(&L->lock);
    if (full)
        return;
    L->hands.emplace_back(new Hand);
    Hand *h = L->hands.back().get();
    h->id = (int)L->hands.size();
    h->old = kind % 5 == 0;
    h->has_free = flags % 8 != 0;
    h->nest = flags & 16 ? (int)(flags / 32 % 4) : 0;
    h->slow = flags & 128 ? 1 + flags / 256 % 3000 : 0;
    h->adder = rt_tid();
    count(UC_HANDLER_CHANGES);
    h->as = tick();
    if (h->old)
        h->h3 = L->api3->addMessageHandler((vs3::VSMessageHandler)handler, h->has_free ? hfree3 : nullptr, h);
    else
        h->h = L->api->addLogHandler(handler, h->has_free ? hfree : nullptr, h, L->core);
    h->ae = tick();
    if (h->frees)
        oracle("P13", "freed-early", "the user data of handler %d is freed when it is added", h->id);
    pthread_mutex_lock(&L->lock);
    L->live.push_back(h);
    pthread_mutex_unlock(&L->lock);
}
void rem_handler(LThr *t, long which, bool twice) {
    pthread_mutex_lock(&L->lock);
    Hand *h = L->live.empty() ? nullptr : L->live[(size_t)which % L->live.size()];
    if (h) {
        h->removers++;
        if (!twice || h->removers > 1 || h->old)
            L->live.erase(std::find(L->live.begin(), L->live.end(), h));
    }
    pthread_mutex_unlock(&L->lock);
    if (!h)
        return;
    count(UC_HANDLER_CHANGES);
    uint64_t s = tick();
    if (s < h->rs)
        h->rs = s;
    int r = h->old ? L->api3->removeMessageHandler(h->h3) : L->api->removeLogHandler(h->h, L->core);
    if (r) {
        h->re = tick();
        if (++h->removed_ok > 1)
            oracle("P13", "removed-twice", "removing handler %d succeeds twice", h->id);
        if (h->has_free && h->frees != 1)
            oracle("P13", "not-freed", "the user data of handler %d was freed %d times when its removal returned", h->id, h->frees);
    } else if (h->removers < 2)
        oracle("P13", "not-removed", "handler %d could not be removed", h->id);
}
void do_op(LThr *t, const std::string &line) {
    char op[8] = "";
    long a = 0, b = 0;
    sscanf(line.c_str(), "%7s %ld %ld", op, &a, &b);
    if (!strcmp(op, "log"))
        do_log(t, (int)a, (size_t)b, false);
    else if (!strcmp(op, "log3"))
        do_log(t, (int)a, (size_t)b, true);
    else if (!strcmp(op, "many"))
        for (long k = 0; k < a; k++)
            do_log(t, (int)(k % 4), (size_t)(k % 7), false);
    else if (!strcmp(op, "add"))
        add_handler(t, a, b);
    else if (!strcmp(op, "rem"))
        rem_handler(t, a, false);
    else if (!strcmp(op, "rem2"))
        rem_handler(t, a, true);
    else if (!strcmp(op, "frame")) { // the engine at work
        VSVideoFormat f;
        L->api->queryVideoFormat(&f, cfGray, stInteger, 8, 0, 0, L->core);
        L->api->freeFrame(L->api->newVideoFrame(&f, 32, 2, nullptr, L->core));
    } else if (!strcmp(op, "sleep"))
        rt_sleep_ns((uint64_t)a * 1000);
}
void *thread_fn(void *p) {
    LThr *t = (LThr *)p;
    L->thr[rt_tid()] = t;
    for (auto &o : t->ops)
        do_op(t, o);
    t->ops.clear();
    L->thr[rt_tid()] = nullptr;
    return nullptr;
}

// everything that was observed, against what must have happened in every possible order of the calls
void judge(uint64_t freed_start) {
    const int KEEP = 200, BOUND = 2000;
    std::map<int, int> replayed;
    size_t logged = 0;
    for (auto &m : L->msgs)
        logged += !m->to3;
    for (auto &hp : L->hands) {
        Hand &h = *hp;
        std::map<int, int> n;
        std::map<std::pair<int, int>, int> last;
        size_t rep = 0;
        for (auto &a : h.got) {
            if (a.msg < 0)
                continue;
            Msg &m = *L->msgs[(size_t)a.msg];
            if (n[a.msg]++)
                oracle("P13", "twice", "handler %d gets message %d more than once", h.id, a.msg);
            if (m.start > h.re)
                oracle("P13", "after-removal", "handler %d gets message %d which was logged after its removal", h.id, a.msg);
            auto k = std::make_pair(m.thread, m.depth);
            auto it = last.find(k);
            if (it != last.end() && it->second > m.seq)
                oracle("P13", "order", "handler %d gets message %d of thread %d before message %d", h.id, it->second, m.thread, m.seq);
            last[k] = m.seq;
            if (a.replay) {
                rep++;
                if (replayed[a.msg]++)
                    oracle("P13", "replayed-twice", "message %d is replayed to more than one handler", a.msg);
                if (m.delivered > 1)
                    oracle("P13", "replayed-delivered", "message %d is replayed although it had been delivered", a.msg);
            }
        }
        if (rep > BOUND)
            oracle("P13", "unbounded", "%lu messages were kept without a handler", (unsigned long)rep);
        for (auto &mp : L->msgs) {
            Msg &m = *mp;
            if (m.to3 && !h.old)
                continue;
            if (m.start > h.ae && m.end < h.rs && !n[m.id])
                oracle("P13", "lost", "handler %d never gets message %d which was logged while it was registered", h.id, m.id);
            if (m.within == h.id && m.end < h.rs && !m.delivered)
                oracle("P13", "lost", "message %d which handler %d logs while it is called is delivered to nobody", m.id, h.id);
            if (m.end < h.as && h.old && n[m.id])
                oracle("P13", "early", "handler %d gets message %d from before it was added", h.id, m.id);
        }
    }
    // kept messages: those that surely found no handler
    for (auto &mp : L->msgs) {
        Msg &m = *mp;
        if (m.to3)
            continue;
        bool none = true, later = false;
        Hand *first = nullptr;
        for (auto &hp : L->hands) {
            Hand &h = *hp;
            if (h.old)
                continue;
            if (h.as < m.end && h.re > m.start)
                none = false;
            if (h.as > m.end) {
                later = true;
                if (!first || h.as < first->as)
                    first = &h;
            }
        }
        m.epoch_none = none && later ? 1 : 0;
        if (none && m.delivered > 1)
            oracle("P13", "replayed-twice", "message %d was logged without a handler and is delivered %d times", m.id, m.delivered);
    }
    // which of them may have been dropped: only ones logged when many others were being kept
    for (auto &mp : L->msgs) {
        Msg &m = *mp;
        if (!m.epoch_none || m.delivered)
            continue;
        int others = 0;
        for (auto &o : L->msgs)
            if (!o->to3 && o->start < m.end)
                others++;
        if (others <= KEEP)
            oracle("P13", "kept-lost", "message %d was logged while no handler existed and is never delivered, with only %d messages before it", m.id, others - 1);
        for (auto &o : L->msgs) // no later one of the same thread is kept when it was dropped, as long as no handler took the kept ones
            if (o->epoch_none && o->thread == m.thread && o->start > m.end && o->delivered) {
                bool taken = false;
                for (auto &hp : L->hands)
                    if (!hp->old && hp->ae > m.start && hp->as < o->end)
                        taken = true;
                if (!taken)
                    oracle("P13", "kept-gap", "message %d is dropped although the later message %d is kept", m.id, o->id);
            }
    }
    (void)freed_start;
    (void)logged;
    // messages of the engine itself: whoever was registered throughout gets the same
    std::vector<std::string> ref;
    bool have = false;
    for (auto &hp : L->hands) {
        Hand &h = *hp;
        if (h.old || h.rs != UINT64_MAX)
            continue;
        std::vector<std::string> own;
        for (auto &a : h.got)
            if (a.msg < 0 && a.at > freed_start)
                own.push_back(a.text);
        if (have && own != ref)
            oracle("P13", "engine-message", "handler %d does not get the same messages of the engine as the others", h.id);
        ref = own;
        have = true;
    }
}

void log_run(const Scenario &sc) {
    L = new LWorld;
    L->api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    L->api3 = (const vs3::VSAPI3 *)getVapourSynthAPI(0x30006);
    L->core = L->api->createCore(ccfDisableAutoLoading);
    L->maxh = sc.geti("maxh", 3);
    int nt = (int)sc.geti("nthr", 2);
    std::vector<LThr> th((size_t)nt);
    for (int i = 0; i < nt; i++)
        th[(size_t)i].id = i;
    const VSFrame *held = nullptr;
    if (sc.geti("hold", 0)) {
        VSVideoFormat f;
        L->api->queryVideoFormat(&f, cfGray, stInteger, 8, 0, 0, L->core);
        held = L->api->newVideoFrame(&f, 32, 2, nullptr, L->core);
    }
    auto run = [&]() {
        std::vector<pthread_t> p;
        for (auto &t : th)
            if (!t.ops.empty()) {
                pthread_t x;
                pthread_create(&x, nullptr, thread_fn, &t);
                p.push_back(x);
            }
        for (auto x : p)
            pthread_join(x, nullptr);
    };
    auto purge = [&]() { // what has been removed, by handle, must not be named again: the address may come back
        for (size_t i = L->live.size(); i-- > 0;)
            if (L->live[i]->removers)
                L->live.erase(L->live.begin() + (long)i);
    };
    for (auto &l : sc.lines) {
        if (!l.compare(0, 3, "op ")) {
            char *e;
            long c = strtol(l.c_str() + 3, &e, 10);
            if (c >= 0 && c < nt)
                th[(size_t)c].ops.push_back(e + (*e == ' '));
        } else if (!l.compare(0, 7, "barrier"))
            run(), purge();
    }
    run();
    uint64_t fs = tick();
    L->api->freeCore(L->core);
    uint64_t fe = tick();
    L->core_gone = true;
    for (auto &hp : L->hands) {
        Hand &h = *hp;
        if (h.old)
            continue;
        if (h.has_free && h.frees != 1)
            oracle("P13", "not-freed", "the user data of handler %d was freed %d times by the time the core is gone", h.id, h.frees);
        if (h.re == UINT64_MAX)
            h.re = fe;
        for (auto &a : h.got)
            if (a.at > h.re)
                oracle("P13", "after-core", "handler %d is called after the core was freed", h.id);
    }
    L->api->freeFrame(held);
    for (auto &hp : L->hands)
        if (hp->old && !hp->removed_ok) {
            uint64_t s = tick();
            if (s < hp->rs)
                hp->rs = s;
            L->api3->removeMessageHandler(hp->h3);
            if (hp->has_free && hp->frees != 1)
                oracle("P13", "not-freed", "the user data of handler %d was freed %d times by the time it is removed", hp->id, hp->frees);
        }
    judge(fs);
}

void gen(Rng &r, int, Scenario &s) {
    gen_search(r, s);
    long nt = r.chance(0.1) ? 1 : r.range(2, 4);
    s.add("cfg nthr %ld", nt);
    s.add("cfg maxh %ld", r.range(1, 4));
    if (r.chance(0.3))
        s.add("cfg hold 1");
    bool old = r.chance(0.3);
    int padmax = r.chance(0.2) ? 3000 : 20;
    long phases = r.range(1, 4);
    for (long ph = 0; ph < phases; ph++) {
        int kind = (int)r.below(4); // 0 everything, 1 only logging, 2 logging and removing, 3 many without handlers
        if (ph == 0 && r.chance(0.25))
            kind = 1;
        long n = r.range(3, 30);
        double pl = r.chance(0.3) ? 0.3 : 0.65;
        if (kind == 3 && r.chance(0.15))
            s.add("op %ld many %ld", (long)r.below((uint64_t)nt), r.chance(0.3) ? 2500L : r.range(30, 700));
        for (long k = 0; k < n; k++) {
            long t = (long)r.below((uint64_t)nt);
            if (kind == 1 || r.chance(pl))
                s.add("op %ld %s %ld %ld", t, old && r.chance(0.2) ? "log3" : "log", (long)r.below(4), r.chance(0.1) ? r.range(0, padmax) : r.range(0, 8));
            else if (r.chance(0.06))
                s.add("op %ld sleep %ld", t, r.range(1, 3000));
            else if (r.chance(0.05))
                s.add("op %ld frame", t);
            else if (kind == 2)
                s.add("op %ld %s %ld", t, r.chance(0.6) ? "rem2" : "rem", (long)r.below(16));
            else if (r.chance(0.55))
                s.add("op %ld add %ld %ld", t, old ? (long)r.below(10) : 1L, (long)r.below(1 << 20));
            else
                s.add("op %ld rem %ld", t, (long)r.below(16));
        }
        if (ph + 1 < phases)
            s.add("barrier");
    }
}
} // namespace
void gen_log_P13(Rng &r, int t, Scenario &s) { gen(r, t, s); }
void run_log(const Scenario &s) { log_run(s); }
