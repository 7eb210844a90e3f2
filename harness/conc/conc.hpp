// Program loop of the concurrent drivers: a program is a set-up, some threads and a finale; it is run
// under many schedules and every distinct history of calls, returns and results is printed once.
#pragma once
#include "../contents.hpp"
#include "rt.h"
#include <set>
#include <typeinfo>

namespace conc {
using namespace h;

struct event { uint64_t s = 0, e = 0; };

struct world
{
    virtual ~world() = default;
    // performs one operation: words from i on are its arguments; fills in what happened
    virtual void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) = 0;
};
world *make(const std::map<std::string, std::string> &cfg);

template<class F> void call(event &ev, F f)
{
    ev.s = rt::op_begin();
    f();
    ev.e = rt::op_end();
}

inline int main_loop()
{
    std::vector<line> sc;
    while (next_script(sc))
    {
        std::map<std::string, std::string> cfg;
        std::vector<line> before, after; std::vector<std::vector<line>> threads;
        for (auto &l : sc)
        {
            if (l.op() == "cfg") for (auto &w : l.w) { auto p = w.find('='); if (p != std::string::npos) cfg[w.substr(0, p)] = w.substr(p + 1); }
            if (l.op() == "S") before.push_back(l);
            if (l.op() == "F") after.push_back(l);
            if (l.op() == "T")
            {
                std::size_t t = l.n(1);
                if (threads.size() <= t) threads.resize(t + 1);
                threads[t].push_back(l);
            }
        }
        auto num = [&](const char *k, long long d) { return cfg.count(k) ? std::strtoll(cfg[k].c_str(), nullptr, 10) : d; };
        long long runs = num("runs", 100), seed = num("seed", 1), most = num("max", 1000), only = num("only", -1);
        std::set<std::string> seen;
        unsigned expect = 200;
        // first the schedules with at most one switch away from a thread that could go on (all of them if
        // there is room for that, otherwise a sample), then random ones
        struct one_switch { int first; unsigned at; int to; };
        std::vector<one_switch> sys;
        long long nsys = num("sys", runs / 2);
        if (threads.size() > 1 && nsys > 0)
            for (int t = 0; t < (int)threads.size(); ++t) sys.push_back(one_switch{t, 0, 0});
        std::size_t plain = sys.size(), next = 0;
        for (long long r = 0; r < runs && (long long)seen.size() < most; ++r)
        {
            rt::config c;
            static const unsigned den[] = {2, 6, 3, 20, 10, 60};
            bool given = next < sys.size() && r < nsys;
            if (given)
            {
                c.strategy = 2;
                c.first = sys[next].first; c.at[0] = sys[next].at; c.to[0] = sys[next].to;
            }
            else
                c.strategy = (r % 3 == 2) ? 1 : 0;
            c.denom = den[(r / 3) % 6];
            c.depth = 1 + (int)((r / 3) % 4);
            c.expect = expect;
            c.seed = (uint64_t)seed * 1000003ull + (uint64_t)r;
            c.quarantine = cfg["mem"] != "reuse";
            // given schedules twice, with the memory handed out in either way
            c.pick = r % 2;
            bool last = c.quarantine || c.pick;
            rt::on_crash("\"prog\":" + cfg["prog"] + ",\"run\":" + std::to_string(r));
            rt::reset(c);
            std::string hist;
            const char *fault;
            {
                std::unique_ptr<world> w(make(cfg));
                struct rec { int t; std::size_t k; event ev; obj o; };
                std::vector<rec> evs;
                auto one = [&](const line &l, std::size_t i, int t) {
                    event ev; obj o;
                    o("op", l.s(i))("th", t);
                    w->exec(l.s(i), l, i + 1, ev, o);
                    evs.push_back(rec{t, evs.size(), ev, o});
                };
                for (auto &l : before) one(l, 1, -1);
                for (std::size_t t = 0; t < threads.size(); ++t)
                    rt::spawn([&, t] { for (auto &l : threads[t]) one(l, 2, (int)t); });
                fault = rt::run();
                if (fault)
                {
                    std::printf("[{\"fault\":%s,\"prog\":%s,\"run\":%lld}]\n", quote(fault).c_str(), cfg["prog"].c_str(), r);
                    std::fflush(stdout);
                    _Exit(3);
                }
                expect = (expect * 3 + rt::steps()) / 4 + 1;
                if (given && last && next < plain)
                    for (unsigned k = 1; k <= rt::steps(); ++k)
                        for (int t = 0; t < (int)threads.size(); ++t)
                            if (t != sys[next].first) sys.push_back(one_switch{sys[next].first, k, t});
                if (given && last && ++next == plain)
                {   // in an order of their own, so that a sample is spread out
                    uint64_t x = (uint64_t)seed * 0x9e3779b97f4a7c15ull + 1;
                    for (std::size_t k = sys.size(); k > plain + 1; --k)
                    {
                        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                        std::swap(sys[k - 1], sys[plain + x % (k - plain)]);
                    }
                }
                for (auto &l : after) one(l, 1, -2);
                // e: how many calls had returned, this one included; s: how many had returned when it was made;
                // a precedes b exactly if a.e <= b.s
                std::vector<uint64_t> ends;
                for (auto &x : evs) ends.push_back(x.ev.e);
                std::sort(ends.begin(), ends.end());
                auto rank = [&](uint64_t v) { return (unsigned long)(std::upper_bound(ends.begin(), ends.end(), v) - ends.begin()); };
                auto key = [](const rec &r) { return r.t == -1 ? -1 : r.t == -2 ? 1000 : r.t; };
                std::stable_sort(evs.begin(), evs.end(), [&](const rec &a, const rec &b) { return key(a) < key(b); });
                for (auto &x : evs) { x.o("s", rank(x.ev.s))("e", rank(x.ev.e)); hist += ","; hist += x.o.str(); }
            }
            rt::release_arena();
            if (seen.insert(hist).second)
            {
                std::printf("[{\"op\":\"cfg\",\"prog\":%s,\"run\":%lld,\"kind\":%s", cfg["prog"].c_str(), r, quote(cfg["kind"]).c_str());
                for (const char *k : {"cap", "ty"}) if (cfg.count(k)) std::printf(",\"%s\":%s", k, std::isdigit((unsigned char)cfg[k][0]) ? cfg[k].c_str() : quote(cfg[k]).c_str());
                std::printf("}%s]\n", hist.c_str());
            }
        }
        std::printf("#done %s %lld %zu\n", cfg["prog"].c_str(), runs, seen.size());
        std::fflush(stdout);
    }
    return 0;
}
} // namespace conc
