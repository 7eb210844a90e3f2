// Driver for metric_value: comparison, arithmetic, conversion.
#include "h.hpp"
#include <cxxmetrics/snapshots.hpp>
using namespace cxxmetrics;
using namespace h;

std::string out(long double v) { char b[64]; std::snprintf(b, sizeof b, "%La", v); return b; }
std::string out(const metric_value &v) { return out(static_cast<long double>(v)); }

metric_value mk(const std::string &ty, const line &l, std::size_t i)
{
    if (ty == "i8") return metric_value((int8_t)l.n(i));
    if (ty == "u8") return metric_value((uint8_t)l.u(i));
    if (ty == "i16") return metric_value((int16_t)l.n(i));
    if (ty == "u16") return metric_value((uint16_t)l.u(i));
    if (ty == "i32") return metric_value((int32_t)l.n(i));
    if (ty == "u32") return metric_value((uint32_t)l.u(i));
    if (ty == "i64") return metric_value((int64_t)l.n(i));
    if (ty == "u64") return metric_value((uint64_t)l.u(i));
    if (ty == "f") return metric_value((float)l.ld(i));
    if (ty == "d") return metric_value((double)l.ld(i));
    if (ty == "ld") return metric_value(l.ld(i));
    if (ty == "ns") return metric_value(std::chrono::nanoseconds(l.n(i)));
    if (ty == "us") return metric_value(std::chrono::microseconds(l.n(i)));
    if (ty == "ms") return metric_value(std::chrono::milliseconds(l.n(i)));
    if (ty == "s") return metric_value(std::chrono::seconds(l.n(i)));
    if (ty == "m") return metric_value(std::chrono::minutes(l.n(i)));
    if (ty == "ps") return metric_value(std::chrono::duration<long long, std::pico>(l.n(i)));
    if (ty == "dy") return metric_value(std::chrono::duration<long long, std::ratio<86400>>(l.n(i)));
    if (ty == "fns") return metric_value(std::chrono::duration<double, std::nano>(l.d(i)));
    if (ty == "h") return metric_value(std::chrono::hours(l.n(i)));
    if (ty == "str") return metric_value(l.s(i));
    std::abort();
}

int main()
{
    std::vector<line> sc; trace tr;
    while (next_script(sc))
    {
        std::map<int, metric_value> o;
        auto put = [&](int k, metric_value &&v) { o.erase(k); o.emplace(k, std::move(v)); };
        for (auto &l : sc)
        {
            obj ev; const std::string &op = l.op();
            if (op == "cfg") { ev("op", op); }
            else if (op == "set")
            {   // set i ty lit
                int i = (int)l.n(1);
                put(i, mk(l.s(2), l, 3));
                ev("op", op)("i", i)("ty", l.s(2))("num", l.s(3))("got", out(o.at(i)));
            }
            else if (op == "copy") { int k = (int)l.n(1), i = (int)l.n(2); metric_value c(o.at(i)); put(k, std::move(c)); ev("op", op)("k", k)("i", i)("got", out(o.at(k))); }
            else if (op == "assign") { int k = (int)l.n(1), i = (int)l.n(2); if (!o.count(k)) put(k, metric_value(0)); o.at(k) = metric_value(o.at(i)); ev("op", op)("k", k)("i", i)("got", out(o.at(k))); }
            else if (op == "move") { int k = (int)l.n(1), i = (int)l.n(2); metric_value c(std::move(o.at(i))); o.erase(i); put(k, std::move(c)); ev("op", op)("k", k)("i", i)("got", out(o.at(k))); }
            else if (op == "neg") { int k = (int)l.n(1), i = (int)l.n(2); auto r = -o.at(i); put(k, std::move(r)); ev("op", op)("k", k)("i", i)("res", out(o.at(k))); }
            else if (op == "bin")
            {   // bin f k i j inplace
                const std::string &f = l.s(1); int k = (int)l.n(2), i = (int)l.n(3), j = (int)l.n(4); bool inp = l.n(5) != 0;
                auto &a = o.at(i); auto &b = o.at(j);
                if (inp)
                {
                    if (f == "add") a += b; else if (f == "sub") a -= b; else if (f == "mul") a *= b; else a /= b;
                    k = i;
                }
                else
                {
                    auto r = f == "add" ? a + b : f == "sub" ? a - b : f == "mul" ? a * b : a / b;
                    put(k, std::move(r));
                }
                ev("op", op)("f", f)("k", k)("i", i)("j", j)("res", out(o.at(k)));
            }
            else if (op == "cmp")
            {
                int i = (int)l.n(1), j = (int)l.n(2);
                auto &a = o.at(i); auto &b = o.at(j);
                cumulative_value_snapshot sa{metric_value(a)}, sb{metric_value(b)};
                average_value_snapshot va{metric_value(a)}, vb{metric_value(b)};
                ev("op", op)("i", i)("j", j)("lt", a < b)("le", a <= b)("gt", a > b)("ge", a >= b)("eq", a == b)("ne", a != b)
                    ("seq", sa == sb)("sne", sa != sb)("veq", va == b)("vne", va != b);
            }
            else if (op == "conv")
            {
                int i = (int)l.n(1); auto &a = o.at(i);
                long double v = static_cast<long double>(a);
                ev("op", op)("i", i)("told", out(v))("tod", out((long double)static_cast<double>(a)));
                bool str = l.s(2) == "str", num = l.s(2) != "str";
                if (v >= -9223372036854775808.0L && v < 18446744073709551616.0L)
                {
                    ev("toi64", std::to_string(static_cast<int64_t>(a)))("tou64", std::to_string(static_cast<uint64_t>(a)));
                    if (!str) ev("toi8", std::to_string((int)static_cast<int8_t>(a)))("tou8", std::to_string((int)static_cast<uint8_t>(a)))
                        ("toi16", std::to_string(static_cast<int16_t>(a)))("tou16", std::to_string(static_cast<uint16_t>(a)))
                        ("toi32", std::to_string(static_cast<int32_t>(a)))("tou32", std::to_string(static_cast<uint32_t>(a)));
                    if (v < 9223372036854775808.0L) { std::chrono::nanoseconds ns = a; ev("tons", std::to_string(ns.count())); }
                }
                ev("str", static_cast<std::string>(a));
            }
            else std::abort();
            tr.add(ev);
        }
        tr.flush();
    }
}
