// Registries, their visits and publisher data under many threads.
#define FEW_TYPES
#include "conc.hpp"
#include "../registry.hpp"

void define_few()
{
    using ns = std::chrono::steady_clock::duration;
    add_counter<int64_t>("c64"); add_counter<int32_t>("c32");
    add_ewma<ct::minutes(1), ct::seconds(1)>("e1");
    add_gauge<int64_t, gauges::aggregation_average>("gi"); add_gauge<double, gauges::aggregation_sum>("gs");
    add_hist<simple_reservoir<int64_t, 4>>("hl");
    add_meter<ct::seconds(1), ct::minutes(1), ct::minutes(5)>("m1", "m1");
    add_meter<ct::seconds(1), ct::minutes(5), ct::minutes(1), ct::minutes(5)>("m1b", "m1");
    add_timer<simple_reservoir<ns, 4>, ct::seconds(1), ct::minutes(1)>("t2");
}

namespace conc {
struct registries : world
{
    std::unique_ptr<registry> regs[3];
    std::map<long long, any> handle; std::map<long long, std::string> hty;
    std::map<void *, int> ids, dids;
    registries() { steady_ns = 5000000000LL; system_ns = 1700000000000000000LL; for (auto &r : regs) r.reset(new registry()); }
    int id_of(void *p, std::map<void *, int> &m)
    {
        if (!p) return 0;
        auto f = m.find(p);
        if (f == m.end()) f = m.emplace(p, (int)m.size() + 1).first;
        return f->second;
    }
    void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) override
    {
        auto R = [&](std::size_t k) -> registry & { o("r", l.n(k)); return regs[l.n(k)].get()[0]; };
        auto refused = [&](const metric_type_mismatch &x) { o("res", "throw")("ex", label(x.existing_metric_type()))("want", label(x.desired_metric_type())); };
        if (op == "get")
        {   // get h r path tags type init how
            long long hd = l.n(i); int how = (int)l.n(i + 6); auto &r = R(i + 1); const std::string &ty = l.s(i + 4);
            auto p = path(l.s(i + 2), how); auto t = tags(l.s(i + 3), how); long long init = l.n(i + 5);
            o("p", comps(l.s(i + 2)))("t", taglist_js(l.s(i + 3)))("ty", ty)("init", l.s(i + 5));
            any m; bool thrown = false; auto &T = *types[ty];
            call(ev, [&] {
                try { m = T.get(r, p, t, init); }
                catch (metric_type_mismatch &x) { rt::quiet q; thrown = true; refused(x); } });
            if (!thrown) { handle[hd] = m; hty[hd] = T.canon; o("res", "ok")("id", id_of(m.get(), ids)); }
        }
        else if (op == "make")
        {   // make h type init
            auto &T = *types[l.s(i + 1)]; any m; long long init = l.n(i + 2);
            call(ev, [&] { m = T.make(init); });
            handle[l.n(i)] = m; hty[l.n(i)] = T.canon;
            o("ty", l.s(i + 1))("init", l.s(i + 2))("id", id_of(m.get(), ids));
        }
        else if (op == "reg")
        {   // reg r path tags h how
            auto &r = R(i); int how = (int)l.n(i + 4); auto p = path(l.s(i + 1), how); auto t = tags(l.s(i + 2), how);
            any m = handle.count(l.n(i + 3)) ? handle[l.n(i + 3)] : nullptr;
            auto &T = *types[m ? hty[l.n(i + 3)] : "c64"];
            o("p", comps(l.s(i + 1)))("t", taglist_js(l.s(i + 2)))("id", id_of(m.get(), ids));
            bool ok = false, thrown = false;
            call(ev, [&] {
                try { ok = T.reg(r, p, t, m); }
                catch (metric_type_mismatch &x) { rt::quiet q; thrown = true; refused(x); } });
            if (!thrown) o("res", ok ? "ok" : "no");
        }
        else if (op == "upd")
        {   // upd h v
            if (!handle.count(l.n(i))) { call(ev, [] { }); o("id", 0)("amt", "0")("skip", true); return; }
            any m = handle[l.n(i)]; auto &T = *types[hty[l.n(i)]]; long long v = l.n(i + 1);
            o("id", id_of(m.get(), ids))("amt", l.s(i + 1))("skip", false);
            call(ev, [&] { T.upd(m, v); });
        }
        else if (op == "look")
        {   // look r how path
            auto &r = R(i); pub p(r); auto mp = path(l.s(i + 2), 0); bool all = l.s(i + 1) == "all";
            std::vector<obj> out;
            auto hnd = [&](const metric_path &name, basic_registered_metric &m) {
                std::vector<raw> ts;
                m.visit([&](const tag_collection &t, const auto &) { rt::quiet q; ts.push_back(raw{js(taglist_js(t))}); });
                rt::quiet q;
                obj e; e("p", comps(name))("type", label(m.type()))("tags", ts); out.push_back(e);
            };
            call(ev, [&] { if (all) r.visit_registered_metrics(hnd); else p.visit_one(mp, hnd); });
            o("all", all)("out", out)("p", comps(l.s(i + 2)));
        }
        else if (op == "agg")
        {   // agg r path: what it yields meanwhile is not judged
            auto &r = R(i); pub p(r); auto mp = path(l.s(i + 1), 0);
            call(ev, [&] { p.visit_one(mp, [&](const metric_path &, basic_registered_metric &m) { m.aggregate([&](const auto &) { }); }); });
        }
        else if (op == "vthrow")
        {   // vthrow r level
            auto &r = R(i); bool tag = l.s(i + 1) == "tag";
            call(ev, [&] {
                try { r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) {
                        if (!tag) throw thrown();
                        m.visit([&](const tag_collection &, const auto &) { throw thrown(); }); }); }
                catch (thrown &) { } });
        }
        else if (op == "data" || op == "datafor")
        {   // data r type arg / datafor r type arg path visiting
            auto &r = R(i); pub p(r); const std::string &t = l.s(i + 1), &a = l.s(i + 2);
            auto mp = path(op == "datafor" ? l.s(i + 3) : "-", 0); bool v = op == "datafor" && l.n(i + 4);
            void *ptr = nullptr; std::string got = "throw";
            call(ev, [&] {
                try {
                    auto d = op == "data" ? (t == "1" ? data<1>(p, a) : data<2>(p, a)) : (t == "1" ? data_for<1>(p, mp, a, v) : data_for<2>(p, mp, a, v));
                    rt::quiet q; ptr = d.first; got = d.second;
                } catch (std::runtime_error &) { } });
            if (op == "datafor") o("p", comps(l.s(i + 3)));
            o("ty", t)("arg", a)("id", id_of(ptr, dids))("got", got);
        }
        else if (op == "has" || op == "hasm")
        {   // has r type path visiting / hasm r path
            auto &r = R(i); pub p(r); bool h = op == "has"; auto mp = path(l.s(i + (h ? 2 : 1)), 0); const std::string &t = l.s(i + 1);
            bool res = false, v = h && l.n(i + 3);
            call(ev, [&] { res = !h ? p.has_metric(mp) : t == "1" ? has_data<1>(p, mp, v) : has_data<2>(p, mp, v); });
            if (h) o("ty", t);
            o("p", comps(l.s(i + (h ? 2 : 1))))("res", res);
        }
        else if (op == "visit")
        {   // visit r: everything, with values
            auto &r = R(i); pub p(r); std::vector<obj> out;
            call(ev, [&] {
                rt::quiet q;
                r.visit_registered_metrics([&](const metric_path &mp, basic_registered_metric &m) {
                    std::vector<obj> entries;
                    m.visit([&](const tag_collection &t, const auto &s) { obj e; e("t", taglist_js(t))("snap", snap_js(s)); entries.push_back(e); });
                    obj e; e("p", comps(mp))("type", label(m.type()))("opts", opts_js(p.effective_options(m)))("entries", entries);
                    out.push_back(e); }); });
            o("how", "all")("mode", "full")("out", out);
        }
        else std::abort();
    }
};
world *make(const std::map<std::string, std::string> &) { return new registries; }
}
int main() { define_few(); return conc::main_loop(); }
