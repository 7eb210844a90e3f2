// Driver for combining total, average, meter and timer snapshots.
#include "h.hpp"
#include <cxxmetrics/snapshots.hpp>
using namespace cxxmetrics;
using namespace h;

std::string ld(const metric_value &v) { char b[64]; std::snprintf(b, sizeof b, "%La", static_cast<long double>(v)); return b; }
metric_value val(const std::string &ty, const std::string &v)
{
    if (ty == "i") return metric_value((int64_t)std::strtoll(v.c_str(), nullptr, 10));
    if (ty == "u8") return metric_value((uint8_t)std::strtoll(v.c_str(), nullptr, 10));
    if (ty == "i32") return metric_value((int32_t)std::strtoll(v.c_str(), nullptr, 10));
    if (ty == "ld") return metric_value(std::strtold(v.c_str(), nullptr));
    return metric_value(std::strtod(v.c_str(), nullptr));
}
struct box
{
    std::unique_ptr<cumulative_value_snapshot> c; std::unique_ptr<average_value_snapshot> a; std::unique_ptr<meter_snapshot> m; std::unique_ptr<timer_snapshot> t;
};
const std::chrono::steady_clock::duration windows[] = {std::chrono::seconds(1), std::chrono::minutes(1), std::chrono::milliseconds(1500)};
int main()
{
    std::vector<line> sc; trace tr;
    while (next_script(sc))
    {
        std::map<int, box> o;
        for (auto &l : sc)
        {
            obj ev; const std::string &op = l.op(); ev("op", op);
            int hd = (int)l.n(1);
            if (op == "cfg") { }
            else if (op == "make")
            {   // make h kind type value rates...
                std::vector<std::string> v; for (std::size_t i = 4; i < l.w.size(); ++i) v.push_back(l.s(i));
                std::unordered_map<std::chrono::steady_clock::duration, metric_value> rates;
                for (std::size_t i = 1; i < v.size(); ++i) rates.emplace(windows[i - 1], val(l.s(3), v[i]));
                box b; metric_value x = val(l.s(3), v[0]);
                const std::string &k = l.s(2);
                if (k == "cum") b.c.reset(new cumulative_value_snapshot(std::move(x)));
                else if (k == "avg") b.a.reset(new average_value_snapshot(std::move(x)));
                else if (k == "meter") b.m.reset(new meter_snapshot(std::move(x), std::move(rates)));
                else { int64_t one[] = {1}; b.t.reset(new timer_snapshot(histogram_snapshot(reservoir_snapshot(one, 1), 1), meter_snapshot(std::move(x), std::move(rates)))); }
                o[hd] = std::move(b);
                ev("h", hd)("kind", k)("vals", v);
            }
            else if (op == "merge")
            {
                int g = (int)l.n(2); box &a = o[hd], &b = o[g];
                if (a.c) a.c->merge(*b.c); else if (a.a) a.a->merge(*b.a); else if (a.m) a.m->merge(*b.m); else a.t->merge(*b.t);
                ev("h", hd)("g", g);
            }
            else if (op == "move")
            {
                int g = (int)l.n(2); box &a = o[hd], &b = o[g];
                if (l.n(3) && !a.c)
                {
                    if (a.a) *b.a = std::move(*a.a); else if (a.m) *b.m = std::move(*a.m); else *b.t = std::move(*a.t);
                }
                else if (a.c) b.c.reset(new cumulative_value_snapshot(std::move(*a.c)));
                else if (a.a) b.a.reset(new average_value_snapshot(std::move(*a.a)));
                else if (a.m) b.m.reset(new meter_snapshot(std::move(*a.m)));
                else b.t.reset(new timer_snapshot(std::move(*a.t)));
                o.erase(hd);
                ev("h", hd)("g", g);
            }
            else if (op == "look")
            {
                box &b = o[hd];
                const meter_snapshot *m = b.m ? b.m.get() : b.t ? &b.t->rate() : nullptr;
                std::vector<std::string> out;
                out.push_back(ld(b.c ? b.c->value() : b.a ? b.a->value() : m->value()));
                if (m)
                {
                    std::map<std::chrono::steady_clock::duration, metric_value> w(m->begin(), m->end());
                    for (auto &d : windows) { auto f = w.find(d); if (f != w.end()) { out.push_back(ld(f->second)); w.erase(f); } }
                    for (auto &x : w) out.push_back(ld(x.second));
                }
                ev("h", hd)("out", out);
            }
            else std::abort();
            tr.add(ev);
        }
        tr.flush();
    }
}
