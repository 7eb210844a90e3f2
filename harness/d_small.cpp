// Driver for counters, gauges and metric paths.
#include "h.hpp"
#include <cxxmetrics/counter.hpp>
#include <cxxmetrics/gauge.hpp>
#include <cxxmetrics/metric_path.hpp>
#include <cxxmetrics/metrics_registry.hpp>
using namespace cxxmetrics;
using namespace h;

std::string hex(long double v) { char b[64]; std::snprintf(b, sizeof b, "%La", v); return b; }
std::string hexs(const std::string &s)
{
    if (s.empty()) return "-";
    std::string r; for (unsigned char c : s) { char b[4]; std::snprintf(b, sizeof b, "%02x", c); r += b; }
    return r;
}

// ---- counters ------------------------------------------------------------------------------------
struct cnt
{
    virtual ~cnt() = default;
    virtual std::string run(const line &l) = 0;
    virtual cnt *copy() = 0;
    virtual cnt *move() = 0;
    virtual void assign(cnt &o) = 0;
    virtual void massign(cnt &o) = 0;
    virtual std::string value(int how) = 0;
    virtual std::string snap() = 0;
};
template<class T> struct cnt_of : cnt
{
    using C = counter<T>;
    C c;
    explicit cnt_of(T v) : c(v) { }
    cnt_of() { }
    explicit cnt_of(const C &o) : c(o) { }
    explicit cnt_of(C &&o) : c(std::move(o)) { }
    static std::string str(T v) { return std::to_string(+v); }
    static T amount(const line &l, int i) { return std::is_signed<T>::value ? (T)l.n(i) : (T)l.u(i); }
    std::string run(const line &l) override
    {   // op h amount
        const std::string &o = l.op(); T by = amount(l, 2);
        if (o == "incr") return str(c.incr(by));
        if (o == "preinc") return str((T)++c);
        if (o == "postinc") return str(c++);
        if (o == "predec") return str((T)--c);
        if (o == "addas") return str((T)(c += by));
        if (o == "subas") return str((T)(c -= by));
        if (o == "set") return str((T)(c = by));
        std::abort();
    }
    cnt *copy() override { return new cnt_of(c); }
    cnt *move() override { return new cnt_of(std::move(c)); }
    void assign(cnt &o) override { c = static_cast<cnt_of &>(o).c; }
    void massign(cnt &o) override { c = std::move(static_cast<cnt_of &>(o).c); }
    std::string value(int how) override { return str(how % 2 ? (T)c : c.value()); }
    std::string snap() override { return hex(static_cast<long double>(c.snapshot().value())); }
};
template<class T> cnt *mk(const line &l) { return l.s(3) == "none" ? new cnt_of<T>() : new cnt_of<T>(cnt_of<T>::amount(l, 3)); }
cnt *make_counter(const line &l)
{
    const std::string &t = l.s(2);
    if (t == "i8") return mk<int8_t>(l);
    if (t == "u8") return mk<uint8_t>(l);
    if (t == "i16") return mk<int16_t>(l);
    if (t == "u16") return mk<uint16_t>(l);
    if (t == "i32") return mk<int32_t>(l);
    if (t == "u32") return mk<uint32_t>(l);
    if (t == "i64") return mk<int64_t>(l);
    if (t == "u64") return mk<uint64_t>(l);
    std::abort();
}

// ---- gauges ----------------------------------------------------------------------------------------
template<class V> struct value_of;
template<> struct value_of<double> { static double in(const line &l, int i) { return l.d(i); } static std::string out(double v) { return hex(v); } static std::string snap(const metric_value &v) { return hex(static_cast<long double>(v)); } };
template<> struct value_of<int64_t> { static int64_t in(const line &l, int i) { return l.n(i); } static std::string out(int64_t v) { return hex((long double)v); } static std::string snap(const metric_value &v) { return hex(static_cast<long double>(v)); } };
template<> struct value_of<std::string> { static std::string in(const line &l, int i) { return l.s(i) + "-a-long-enough-text"; }
    static std::string out(const std::string &v) { return hex((long double)std::strtold(v.c_str(), nullptr)) + (v.find("-a-long-enough-text") == std::string::npos ? "?" : ""); }
    static std::string snap(const metric_value &v) { return out(static_cast<std::string>(v)); } };
double src_d[8]; int64_t src_i[8]; std::string src_s[8];
template<class V> V *src(int i);
template<> double *src<double>(int i) { return src_d + i; }
template<> int64_t *src<int64_t>(int i) { return src_i + i; }
template<> std::string *src<std::string>(int i) { return src_s + i; }

const char *kind_of(const cumulative_value_snapshot &) { return "cum"; }
const char *kind_of(const average_value_snapshot &) { return "avg"; }

struct gau
{
    virtual ~gau() = default;
    virtual std::string get(int how) = 0;
    virtual void snap(obj &ev) = 0;
    virtual gau *copy() = 0;
    virtual gau *move() = 0;
    virtual void assign(gau &o) = 0;
    virtual void massign(gau &o) = 0;
    virtual void set(const line &l, int i, int how) = 0;
};
template<class G, class V, class = void> struct setter { static void set(G &, const V &, int) { std::abort(); } };
template<class G, class V> struct setter<G, V, decltype(void(std::declval<G &>().set(std::declval<V>())))>
{ static void set(G &g, const V &v, int how) { if (how % 2) g.set(v); else g = v; } };
template<class G, class V> struct gau_of : gau
{
    G g;
    template<class... A> explicit gau_of(A &&... a) : g(std::forward<A>(a)...) { }
    std::string get(int how) override { const G &c = g; return value_of<V>::out(how % 2 ? g.get() : c.get()); }
    void snap(obj &ev) override { const G &c = g; auto s = c.snapshot(); ev("k", kind_of(s))("v", value_of<V>::snap(s.value())); }
    gau *copy() override { const G &c = g; return new gau_of(c); }
    gau *move() override { return new gau_of(std::move(g)); }
    void assign(gau &o) override { const G &c = static_cast<gau_of &>(o).g; g = c; }
    void massign(gau &o) override { g = std::move(static_cast<gau_of &>(o).g); }
    void set(const line &l, int i, int how) override { setter<G, V>::set(g, value_of<V>::in(l, i), how); }
};
template<class V, gauges::gauge_aggregation_type A> gau *mk_gauge(const line &l)
{   // gnew g kind value-type agg init/src
    const std::string &k = l.s(2);
    if (k == "plain") { if (l.s(5) == "none") return new gau_of<gauge<V, A>, V>(); V v = value_of<V>::in(l, 5); return new gau_of<gauge<V, A>, V>(v); }
    V *p = src<V>((int)l.n(5));
    if (k == "fn") { std::function<V()> f = [p] { return *p; }; if (l.n(6) % 2) return new gau_of<gauge<std::function<V()>, A>, V>(std::move(f)); return new gau_of<gauge<std::function<V()>, A>, V>(f); }
    if (k == "ptr") return new gau_of<gauge<V *, A>, V>(p);
    if (k == "ref") return new gau_of<gauge<V &, A>, V>(*p);
    std::abort();
}
template<class V> gau *mk_gauge(const line &l)
{ return l.s(4) == "sum" ? mk_gauge<V, gauges::aggregation_sum>(l) : mk_gauge<V, gauges::aggregation_average>(l); }
gau *make_gauge(const line &l)
{
    const std::string &t = l.s(3);
    return t == "d" ? mk_gauge<double>(l) : t == "i" ? mk_gauge<int64_t>(l) : mk_gauge<std::string>(l);
}

// ---- paths -------------------------------------------------------------------------------------------
using namespace cxxmetrics_literals;
metric_path lit(const std::string &s, int how)
{
    bool nul = s.find('\0') != std::string::npos;
    if (nul)
    {   // names with null characters: by text, by pointer and length, or as a literal
        if (how == 2 || how == 5) return metric_path(s.c_str(), s.size());
        if (how == 3 || how == 6) return cxxmetrics_literals::operator""_m(s.c_str(), s.size());
        if (how == 7 && s == std::string("a\0b", 3)) return "a\0b"_m;
        return metric_path(s);
    }
    switch (how)
    {
    case 0: return metric_path(s);
    case 1: return metric_path(s.c_str());
    case 2: return metric_path(s.c_str(), s.size());
    case 3: return cxxmetrics_literals::operator""_m(s.c_str(), s.size());
    case 4: { metric_path p = s; return p; }
    case 5: { metric_path a(s); metric_path b(std::move(a)); return b; }
    case 6: { metric_path a("zz"); metric_path b(s); a = b; return a; }
    // literals proper
    case 7: if (s == "a") return "a"_m; if (s == "") return ""_m; if (s == "ab") return "ab"_m; return metric_path(s);
    case 8: if (s == "a") return metric_path("a"); if (s == "") return metric_path(""); if (s == "ab") return metric_path("ab"); return metric_path(s);
    }
    return metric_path((const char *)s.c_str());
}
metric_path join(const metric_path &a, const std::string &text, int side, int how)
{
    if (text.find('\0') == std::string::npos)
        switch (how)
        {
        case 0: return side ? metric_path(std::string(text)) / a : a / std::string(text);
        case 1: return side ? metric_path(text) / a : a / text.c_str();
        case 2:
            if (text == "a") return side ? "a" / a : a / "a";
            if (text == "") return side ? "" / a : a / "";
            if (text == "ab") return side ? "ab" / a : a / "ab";
            if (text == "x y") return side ? "x y" / a : a / "x y";
            break;
        case 3: if (text == "a") return side ? "a"_m / a : a / "a"_m; break;
        }
    else if (how == 1) { metric_path t(text.c_str(), text.size()); return side ? t / a : a / t; }
    return side ? metric_path(text) / a : a / metric_path(text);
}

int main()
{
    std::vector<line> sc; trace tr;
    while (next_script(sc))
    {
        std::map<int, std::unique_ptr<cnt>> c; std::map<int, std::unique_ptr<gau>> g; std::map<int, metric_path> p;
        for (int i = 0; i < 8; ++i) { src_d[i] = 0; src_i[i] = 0; src_s[i] = "0-a-long-enough-text"; }
        int n = 0;
        for (auto &l : sc)
        {
            obj ev; const std::string &op = l.op(); ev("op", op); ++n;
            if (op == "cfg") { }
            // counters
            else if (op == "cnew") { c[(int)l.n(1)].reset(make_counter(l)); ev("h", l.n(1))("ty", l.s(2))("init", l.s(3) == "none" ? "0" : l.s(3)); }
            else if (op == "incr" || op == "preinc" || op == "postinc" || op == "predec" || op == "addas" || op == "subas" || op == "set")
                ev("h", l.n(1))("by", l.s(2).empty() ? "1" : l.s(2))("ret", c[(int)l.n(1)]->run(l));
            else if (op == "ccopy") { c[(int)l.n(2)].reset(c[(int)l.n(1)]->copy()); ev("h", l.n(1))("g", l.n(2)); }
            else if (op == "cmove") { c[(int)l.n(2)].reset(c[(int)l.n(1)]->move()); ev("h", l.n(1))("g", l.n(2)); }
            else if (op == "cassign") { c[(int)l.n(2)]->assign(*c[(int)l.n(1)]); ev("h", l.n(1))("g", l.n(2)); }
            else if (op == "cmassign") { c[(int)l.n(2)]->massign(*c[(int)l.n(1)]); ev("h", l.n(1))("g", l.n(2)); }
            else if (op == "cval") ev("h", l.n(1))("ret", c[(int)l.n(1)]->value(n));
            else if (op == "csnap") ev("h", l.n(1))("ret", c[(int)l.n(1)]->snap());
            // gauges
            else if (op == "gnew") { g[(int)l.n(1)].reset(make_gauge(l)); ev("g", l.n(1))("kind", l.s(2))("agg", l.s(4));
                                     if (l.s(2) == "plain") ev("v", l.s(5) == "none" ? "0" : l.s(5))("src", 0); else ev("v", "0")("src", l.n(5)); }
            else if (op == "gset") { g[(int)l.n(1)]->set(l, 2, n); ev("g", l.n(1))("v", l.s(2)); }
            else if (op == "gsrc") { int i = (int)l.n(1); src_d[i] = l.d(2); src_i[i] = l.n(2); src_s[i] = l.s(2) + "-a-long-enough-text"; ev("s", i)("v", l.s(2)); }
            else if (op == "gget") ev("g", l.n(1))("ret", g[(int)l.n(1)]->get(n));
            else if (op == "gsnap") { ev("g", l.n(1)); g[(int)l.n(1)]->snap(ev); }
            else if (op == "gcopy") { g[(int)l.n(2)].reset(g[(int)l.n(1)]->copy()); ev("g", l.n(1))("h", l.n(2)); }
            else if (op == "gmove") { g[(int)l.n(2)].reset(g[(int)l.n(1)]->move()); ev("g", l.n(1))("h", l.n(2)); }
            else if (op == "gassign") { g[(int)l.n(2)]->assign(*g[(int)l.n(1)]); ev("g", l.n(1))("h", l.n(2)); }
            else if (op == "gmassign") { g[(int)l.n(2)]->massign(*g[(int)l.n(1)]); ev("g", l.n(1))("h", l.n(2)); }
            // paths
            else if (op == "plit") { p.erase((int)l.n(1)); p.emplace((int)l.n(1), lit(l.x(2), (int)l.n(3))); ev("p", l.n(1))("t", codes(l.x(2))); }
            else if (op == "pjoin") { metric_path r = p.at((int)l.n(1)) / p.at((int)l.n(2)); p.erase((int)l.n(3)); p.emplace((int)l.n(3), r); ev("p", l.n(1))("q", l.n(2))("r", l.n(3)); }
            else if (op == "ptext")
            {   // ptext p text side how r
                metric_path r = join(p.at((int)l.n(1)), l.x(2), (int)l.n(3), (int)l.n(4)); p.erase((int)l.n(5)); p.emplace((int)l.n(5), r);
                ev("p", l.n(1))("t", codes(l.x(2)))("side", l.n(3))("r", l.n(5));
            }
            else if (op == "plist") { std::vector<std::vector<int>> v; for (auto &x : p.at((int)l.n(1))) v.push_back(codes(x)); ev("p", l.n(1))("ret", v); }
            else if (op == "pstr") ev("p", l.n(1))("d", codes(l.x(2)))("ret", codes(p.at((int)l.n(1)).join(l.x(2))));
            else if (op == "peq")
            {
                auto &a = p.at((int)l.n(1)); auto &b = p.at((int)l.n(2)); std::hash<metric_path> h;
                metrics_registry<> r; auto x = r.counter<int64_t>(a), y = r.counter<int64_t>(b);
                ev("p", l.n(1))("q", l.n(2))("eq", a == b)("ne", a != b)("hash", h(a) == h(b))("same", x.get() == y.get());
            }
            else std::abort();
            tr.add(ev);
        }
        tr.flush();
    }
}
