// Driver for snapshots: statistics, sampling, merging.
#include "h.hpp"
#include <cxxmetrics/snapshots.hpp>
using namespace cxxmetrics;
using namespace h;

using getter = metric_value (*)(const reservoir_snapshot &);
template<long long Q> metric_value at(const reservoir_snapshot &s) { return s.template value<Q>(); }
template<long long... Q> struct qtable
{
    static getter get(std::size_t i) { static const getter g[] = {&at<Q>...}; return g[i]; }
    static std::size_t size() { return sizeof...(Q); }
    static long long code(std::size_t i) { static const long long c[] = {Q...}; return c[i]; }
};
using table = qtable<0, 1, 1000, 42949673LL, 85899346LL, 214748365LL, 429496730LL, 477218588LL, 536870912LL, 613566757LL,
    715827883LL, 858993459LL, 1073741824LL, 1431655765LL, 1717986918LL, 2147483647LL, 2147483648LL, 2576980377LL,
    2863311530LL, 3221225471LL, 3435973836LL, 3758096384LL, 3865470566LL, 4080218931LL, 4209067950LL, 4252017623LL,
    4290672329LL, 4294537799LL, 4294967294LL, 4294967295LL>;

std::string ld(const metric_value &v)
{
    char b[64]; std::snprintf(b, sizeof b, "%La", static_cast<long double>(v)); return b;
}
std::string ldv(long double v) { char b[64]; std::snprintf(b, sizeof b, "%La", v); return b; }

template<class T> reservoir_snapshot build(const line &l, std::size_t from, bool iter, T (*get)(const line &, std::size_t))
{
    std::vector<T> v;
    for (std::size_t i = from; i < l.w.size(); ++i) v.push_back(get(l, i));
    if (iter) return reservoir_snapshot(v.begin(), v.end(), v.size());
    return reservoir_snapshot(v.data(), v.size());
}
template<class T> T geti(const line &l, std::size_t i) { return static_cast<T>(l.n(i)); }
template<class T> T getu(const line &l, std::size_t i) { return static_cast<T>(l.u(i)); }
template<class T> T getf(const line &l, std::size_t i) { return static_cast<T>(l.ld(i)); }
std::chrono::nanoseconds getn(const line &l, std::size_t i) { return std::chrono::nanoseconds(l.n(i)); }

reservoir_snapshot make(const line &l, std::size_t from, const std::string &ty, bool it)
{
    if (ty == "i8") return build<int8_t>(l, from, it, geti<int8_t>);
    if (ty == "u8") return build<uint8_t>(l, from, it, getu<uint8_t>);
    if (ty == "i16") return build<int16_t>(l, from, it, geti<int16_t>);
    if (ty == "i32") return build<int32_t>(l, from, it, geti<int32_t>);
    if (ty == "u32") return build<uint32_t>(l, from, it, getu<uint32_t>);
    if (ty == "i64") return build<int64_t>(l, from, it, geti<int64_t>);
    if (ty == "u64") return build<uint64_t>(l, from, it, getu<uint64_t>);
    if (ty == "f") return build<float>(l, from, it, getf<float>);
    if (ty == "d") return build<double>(l, from, it, getf<double>);
    if (ty == "ld") return build<long double>(l, from, it, getf<long double>);
    if (ty == "ns") return build<std::chrono::nanoseconds>(l, from, it, getn);
    std::abort();
}

struct box
{
    std::string kind;
    std::unique_ptr<reservoir_snapshot> r;
    std::unique_ptr<histogram_snapshot> hs;
    std::unique_ptr<timer_snapshot> ts;
    reservoir_snapshot &s() { return ts ? *ts : hs ? *hs : *r; }
    histogram_snapshot *hist() { return ts ? ts.get() : hs.get(); }
};

int main()
{
    std::vector<line> sc; trace tr;
    while (next_script(sc))
    {
        std::map<int, box> o;
        for (auto &l : sc)
        {
            obj ev; const std::string &op = l.op(); ev("op", op);
            int hd = (int)l.n(1);
            if (op == "cfg") { }
            else if (op == "make")
            {   // make h kind type count samples...
                box b; b.kind = l.s(2);
                bool it = b.kind == "ri";
                auto rs = make(l, 5, l.s(3), it);
                if (b.kind == "hist") b.hs.reset(new histogram_snapshot(std::move(rs), l.u(4)));
                else if (b.kind == "timer")
                    b.ts.reset(new timer_snapshot(histogram_snapshot(std::move(rs), l.u(4)), meter_snapshot(metric_value(1.0), {})));
                else b.r.reset(new reservoir_snapshot(std::move(rs)));
                o[hd] = std::move(b);
                std::vector<std::string> v; for (std::size_t i = 5; i < l.w.size(); ++i) v.push_back(l.s(i));
                ev("h", hd)("samples", v)("count", l.s(4));
            }
            else if (op == "merge")
            {
                int g = (int)l.n(2);
                if (o[hd].ts) o[hd].ts->merge(*o[g].ts); else o[hd].hs->merge(*o[g].hs);
                ev("h", hd)("g", g);
            }
            else if (op == "move")
            {
                int g = (int)l.n(2); bool assign = l.n(3) != 0 && o.count(g);
                box &a = o[hd];
                if (assign)
                {
                    if (a.ts) *o[g].ts = std::move(*a.ts); else if (a.hs) *o[g].hs = std::move(*a.hs); else *o[g].r = std::move(*a.r);
                }
                else
                {
                    box b; b.kind = a.kind;
                    if (a.ts) b.ts.reset(new timer_snapshot(std::move(*a.ts)));
                    else if (a.hs) b.hs.reset(new histogram_snapshot(std::move(*a.hs)));
                    else b.r.reset(new reservoir_snapshot(std::move(*a.r)));
                    o[g] = std::move(b);
                }
                o.erase(hd);
                ev("h", hd)("g", g);
            }
            else if (op == "stats")
            {
                auto &s = o[hd].s();
                ev("h", hd)("size", s.size())("min", ld(s.min()))("max", ld(s.max()))("mean", ld(s.mean()));
                if (o[hd].hist()) ev("count", std::to_string(o[hd].hist()->count()));
            }
            else if (op == "quant")
            {
                std::size_t i = l.u(2) % table::size();
                ev("h", hd)("code", std::to_string(table::code(i)))("val", ld(table::get(i)(o[hd].s())));
            }
            else if (op == "sample")
            {
                std::vector<raw> out;
                o[hd].s().sample(l.u(2), [&](const metric_value &v, long double p) {
                    out.push_back(raw{js(std::vector<std::string>{ld(v), ldv(p)})});
                });
                ev("h", hd)("max", l.u(2))("out", out);
            }
            else std::abort();
            tr.add(ev);
        }
        tr.flush();
    }
}
