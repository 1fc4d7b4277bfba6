#include "../sim.h"
#include <utility>
static std::string list(Rng &r, int frames, double p, int most) {
    std::string s;
    if (r.chance(p))
        for (long k = r.range(1, most); k > 0; k--)
            s += (s.empty() ? "" : ",") + std::to_string(r.below((uint64_t)frames));
    return s.empty() ? "-" : s;
}
struct PyEmph {
    double fail = 0.4, derived = 0.5;
    int maxops = 4, maxframes = 20;
    double w[9] = {3, 1, 1, 1, 0.6, 0.3, 0.2, 0.2, 0.3}; // iter get async acb output clear gc log/handler sleep
};
static void gen_search_py(Rng &r, Scenario &s) {
    s.add("cfg race 0");
    static const double sw[] = {0.000001, 0.000001, 0.00001, 0.0005, 0.005};
    s.add("cfg switch %.6f", sw[r.below(5)]);
    static const double g[] = {15, 60, 250, 1500};
    s.add("cfg memgap %g", g[r.below(4)]);
    s.add("cfg softslow 200000");
    s.add("cfg hardslow 600000");
    s.add("cfg softsteps 12000000");
    s.add("cfg hardsteps 30000000");
}
static int gen_nodes(Rng &r, Scenario &s, const PyEmph &e, int id = 0, int world = 0) {
    int ns = (int)r.range(1, 2), id0 = id;
    ns += id0;
    bool fails = r.chance(e.fail), chat = r.chance(0.35);
    for (; id < ns; id++) {
        int f = (int)r.range(1, r.chance(0.3) ? 3 : e.maxframes);
        bool yuv = r.chance(0.15);
        s.add("node %d world=%d kind=src frames=%d w=%d h=%d fmt=%d cost=%ld mode=%ld fails=%s slow=%s text=%ld chat=%ld alpha=%ld", id, world, f, r.chance(0.5) ? 8 : 64, yuv ? 4 : 2, yuv ? 805830913 : 268959744, r.chance(0.3) ? 0L : r.range(1, 400), r.chance(0.6) ? 0L : r.range(1, 2),
              fails ? list(r, f, 0.7, 3).c_str() : "-", list(r, f, 0.3, 2).c_str(), r.chance(0.7) ? 0L : r.range(1, 4), chat ? r.range(0, 15) : 0L, r.chance(0.85) ? 0L : r.range(1, 4));
    }
    if (r.chance(e.derived))
        for (long k = r.range(1, 2); k > 0; k--, id++) {
            std::string deps = std::to_string(r.range(id0, id - 1));
            if (r.chance(0.5))
                deps += "," + std::to_string(r.range(id0, id - 1));
            s.add("node %d world=%d kind=%s deps=%s fails=%s nest=%ld base=%d exc=%ld text=%ld", id, world, r.chance(0.6) ? "eval" : "modify", deps.c_str(), fails ? list(r, e.maxframes, 0.6, 3).c_str() : "-", r.chance(0.3) ? r.range(1, 5) : 0L, r.chance(0.3), r.chance(0.6) ? 0L : r.range(1, 3), r.chance(0.7) ? 0L : r.range(1, 4));
        }
    if (!id0)
        s.add("cfg nnodes %d", id);
    return id;
}
static void gen_ops(Rng &r, Scenario &s, const PyEmph &e, int clients, int nn) {
    double tot = 0;
    for (double x : e.w)
        tot += x;
    for (int c = 1; c <= clients; c++) {
        s.add("thr %d env=%d", c, !r.chance(0.12));
        for (long k = r.range(1, e.maxops); k > 0; k--) {
            double x = r.f() * tot;
            int w = 0;
            while (w < 8 && x >= e.w[w])
                x -= e.w[w++];
            int nd = (int)r.below((uint64_t)nn);
            if (r.chance(0.4))
                nd = nn - 1;
            switch (w) {
            case 0: {
                long p = r.chance(0.15) ? (r.chance(0.5) ? 0 : -1) : r.chance(0.5) ? r.range(1, 2) : r.range(1, 9);
                long b = r.chance(0.25) ? (r.chance(0.5) ? -1 : -2) : r.chance(0.3) ? 0 : r.chance(0.5) ? p + r.range(0, 2) : r.range(1, 30);
                s.add("op %d iter %d %ld %ld %d %ld %s %ld", c, nd, p, b, r.chance(0.5), r.chance(0.6) ? -1L : r.range(0, 6), r.chance(0.4) ? "close" : r.chance(0.5) ? "del" : "keep", r.chance(0.7) ? 0L : r.range(1, 300));
                break;
            }
            case 1: s.add("op %d get %d %ld", c, nd, r.range(0, 40)); break;
            case 2:
                for (long q = r.range(1, 5); q > 0; q--)
                    s.add("op %d async %d %ld", c, nd, r.range(0, 40));
                if (r.chance(0.4))
                    s.add("op %d wait", c);
                break;
            case 3: s.add("op %d acb %d %ld %ld", c, nd, r.range(0, 40), r.chance(0.5) ? 0L : r.range(1, 4)); break;
            case 4: s.add("op %d output %d %ld %ld %d %ld %ld %ld", c, nd, r.range(0, 4), r.range(-1, 9), r.chance(0.5), r.chance(0.7) ? -1L : r.range(0, 12), r.chance(0.7) ? 0L : r.range(1, 200), r.chance(0.5) ? 0L : r.range(1, r.chance(0.3) ? 7 : 3)); break;
            case 5: s.add("op %d clear %d", c, nd); break;
            case 6: s.add("op %d gc", c); break;
            case 7:
                if (r.chance(0.5))
                    s.add("op %d log m%ld", c, k);
                else
                    s.add("op %d handler %d", c, r.chance(0.7));
                break;
            default: s.add("op %d sleep %ld", c, r.chance(0.5) ? r.range(1, 2000) : 600000L); break;
            }
        }
    }
}
void gen_py_P17(Rng &r, int tier, Scenario &s) {
    PyEmph e;
    if (tier) {
        e.maxops = 8;
        e.maxframes = 40;
    }
    gen_search_py(r, s);
    s.add("cfg threads %ld", r.range(1, 6));
    s.add("cfg single %d", r.chance(0.4));
    if (r.chance(0.35)) { // one iterator, nothing else: the sharpest setting for its own interleavings
        e.maxops = 1;
        e.derived = 0.1;
        for (double &x : e.w)
            x = 0;
        e.w[0] = 1;
        gen_nodes(r, s, e);
        gen_ops(r, s, e, 1, (int)s.geti("nnodes", 1));
        return;
    }
    gen_nodes(r, s, e);
    gen_ops(r, s, e, (int)r.range(1, 3), (int)s.geti("nnodes", 1));
}

// environments that end while requests are under way
void gen_py_P21(Rng &r, int tier, Scenario &s) {
    PyEmph e;
    e.maxframes = 12;
    e.fail = 0.25;
    if (tier) {
        e.maxops = 8;
        e.maxframes = 30;
    }
    gen_search_py(r, s);
    s.add("cfg threads %ld", r.range(1, 5));
    int single = r.chance(0.3), worlds = single ? 1 : (int)r.range(1, 3), nn = 0;
    s.add("cfg single %d", single);
    s.add("cfg worlds %d", worlds);
    s.add("cfg uses %d", r.chance(0.5));
    s.add("cfg inspect %d", r.chance(0.3));
    s.add("cfg logger %d", r.chance(0.5));
    s.add("cfg unregister %d", r.chance(0.3));
    std::vector<int> lo, hi;
    for (int w = 0; w < worlds; w++) {
        lo.push_back(nn);
        nn = gen_nodes(r, s, e, nn, w);
        hi.push_back(nn);
        static const char *const kinds[] = {"plain", "raise", "get", "async", "register", "destroy"};
        if (r.chance(0.5))
            for (long k = r.range(1, 3); k > 0; k--)
                s.add("world %d callback %s %ld", w, kinds[r.below(6)], r.range(lo[w], hi[w] - 1));
    }
    int clients = (int)r.range(1, 4), doomed = 0;
    for (int w = 0; w < worlds; w++)
        if (r.chance(0.7))
            doomed |= 1 << w;
    if (!doomed)
        doomed = 1;
    std::vector<std::pair<int, int>> who; // which client destroys which environment
    for (int w = 0; w < worlds; w++)
        if (doomed >> w & 1)
            for (long k = r.chance(0.2) ? 2 : 1; k > 0; k--)
                who.push_back({(int)r.range(0, clients), w});
    for (int c = 0; c <= clients; c++) {
        int w = (int)r.below((uint64_t)worlds);
        s.add("thr %d env=%d world=%d", c, c && !r.chance(0.2), w);
        auto destroy = [&]() {
            for (auto &p : who)
                if (p.first == c) {
                    if (r.chance(0.6))
                        s.add("op %d sleep %ld", c, r.chance(0.7) ? r.range(1, 3000) : r.range(1, 60000));
                    if (worlds > 1 && r.chance(0.25))
                        s.add("op %d nest %d %ld 0 1", c, p.second, r.range(0, worlds - 1));
                    else
                        s.add("op %d destroy %d", c, p.second);
                    p.first = -1;
                    break;
                }
        };
        int nops = c ? (int)r.range(1, e.maxops + 2) : 0;
        for (int i = 0; i < nops; i++) {
            int x = r.chance(0.75) ? w : (int)r.below((uint64_t)worlds), nd = (int)r.range(lo[x], hi[x] - 1);
            switch (r.below(14)) {
            case 11: s.add("op %d make %d %ld", c, nd, r.range(0, 4)); break;
            case 12:
                if (r.chance(0.5))
                    s.add("op %d output %d %ld %ld %d %ld %ld %ld", c, nd, r.range(0, 4), r.range(-1, 9), r.chance(0.5), r.chance(0.7) ? -1L : r.range(0, 12), r.chance(0.3) ? 0L : r.range(1, 200), r.chance(0.5) ? 0L : r.range(1, 3));
                else if (r.chance(0.5))
                    s.add("op %d log m%d", c, i);
                else
                    s.add("op %d handler %d", c, r.chance(0.7));
                break;
            case 0: case 1: s.add("op %d get %d %ld", c, nd, r.range(0, 40)); break;
            case 2: case 3: case 4:
                for (long q = r.range(1, 6); q > 0; q--)
                    s.add("op %d async %d %ld", c, nd, r.range(0, 40));
                if (r.chance(0.3))
                    s.add("op %d wait", c);
                break;
            case 5: case 6: s.add("op %d acb %d %ld %ld", c, nd, r.range(0, 40), r.chance(0.4) ? 0L : r.range(1, 5)); break;
            case 7: case 8: {
                long p = r.chance(0.5) ? r.range(1, 2) : r.range(1, 6), b = r.chance(0.5) ? p + r.range(0, 2) : r.range(1, 20);
                s.add("op %d iter %d %ld %ld %d %ld %s %ld", c, nd, p, b, r.chance(0.5), r.chance(0.4) ? -1L : r.range(0, 6), r.chance(0.2) ? "close" : r.chance(0.4) ? "del" : "keep", r.chance(0.6) ? 0L : r.range(1, 300));
                break;
            }
            case 9:
                if (r.chance(0.5))
                    s.add("op %d cross %ld %d %ld", c, r.range(0, worlds - 1), nd, r.range(0, 40));
                else
                    s.add("op %d nest %ld %ld %ld 0", c, r.range(0, worlds - 1), r.range(0, worlds - 1), r.chance(0.3) ? 0L : r.range(1, 60000));
                break;
            case 10:
                if (r.chance(0.5))
                    s.add("op %d outputs %d", c, nd);
                else if (r.chance(0.5))
                    s.add("op %d call %ld %ld", c, r.range(0, worlds - 1), r.range(0, 3));
                else
                    s.add("op %d clear %d", c, nd);
                break;
            default:
                if (r.chance(0.5))
                    s.add("op %d use %ld %ld", c, r.range(0, worlds - 1), r.range(0, 200));
                else
                    s.add("op %d sleep %ld", c, r.chance(0.7) ? r.range(1, 2000) : 600000L);
            }
            if (r.chance(0.15))
                destroy();
        }
        for (size_t i = 0; i < who.size(); i++)
            destroy();
    }
}

// frames, views and properties in the hands of Python code
void gen_py_P24(Rng &r, int, Scenario &s) {
    PyEmph e;
    e.fail = 0;
    e.derived = 0.3;
    e.maxframes = 5;
    gen_search_py(r, s);
    s.add("cfg threads %ld", r.range(1, 3));
    s.add("cfg single %d", r.chance(0.4));
    s.add("cfg latekeep %d", r.chance(0.4));
    gen_nodes(r, s, e);
    static const char *const ops[] = {"new", "get", "copy", "view", "wview", "views", "ptr", "read", "set", "setframe", "getframe", "del", "update", "iterdel", "iterkeep", "next", "gen", "close", "drop", "share", "steal"};
    double w[] = {2, 2, 3, 3, 4, 1, 1.5, 2, 4, 1, 1, 1, 0.7, 0.5, 0.5, 1, 0.5, 0.6, 1, 0.3, 0};
    int clients = (int)r.range(1, 3);
    bool shared = clients > 1 && r.chance(0.5), doom = r.chance(0.35);
    w[19] = shared ? 1 : 0;
    w[20] = shared ? 3 : 0;
    for (double &x : w)
        if (r.chance(0.2))
            x = x * 4;
    double tot = 0;
    for (double x : w)
        tot += x;
    for (int c = 1; c <= clients; c++) {
        s.add("thr %d env=%d", c, !r.chance(0.12));
        int n = (int)r.range(10, 60), end = doom && c == 1 ? (int)r.range(0, n) : -1;
        for (int i = 0; i < n; i++) {
            if (i == end)
                s.add("op %d destroy 0", c);
            if (r.chance(0.03))
                s.add("op %d sleep %ld", c, r.range(1, 300));
            double x = r.f() * tot;
            int k = 0;
            while (k < 20 && x >= w[k])
                x -= w[k++];
            if (i < 2)
                k = (int)r.range(0, 1);
            s.add("op %d fr %s %ld %ld %ld %ld", c, ops[k], r.range(0, 30), r.range(0, 60), r.range(0, 60), r.range(0, 300));
        }
    }
}
