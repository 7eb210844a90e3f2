// Driver for registries, their visitors, publish options and publisher data.
#include "registry.hpp"

int main()
{
    define_types();
    std::vector<line> sc; trace tr;
    while (next_script(sc))
    {
        steady_ns = 5000000000LL; system_ns = 1700000000000000000LL;
        std::unique_ptr<registry> regs[3];
        for (auto &r : regs) r.reset(new registry());
#ifdef WITH_PROMETHEUS
        std::unique_ptr<cxxmetrics_prometheus::prometheus_publisher<default_repository>> publishers[3];
        for (int k = 0; k < 3; ++k) { registry *q = regs[k].get(); publishers[k].reset(new cxxmetrics_prometheus::prometheus_publisher<default_repository>(*q)); }
#endif
        std::vector<any> inst{nullptr}; std::vector<std::string> ity{""};
        std::map<void *, int> ids, dids;
        std::fill(sources, sources + 8, 0.0);
        int n = 0;
        auto dump = [](registry &r) {
            std::vector<obj> out; pub p(r);
            p.visit_all([&](const metric_path &mp, basic_registered_metric &m) {
                std::vector<obj> entries;
                m.visit([&](const tag_collection &t, const auto &s) { obj e; e("t", taglist_js(t))("snap", snap_js(s)); entries.push_back(e); });
                obj e; e("p", comps(mp))("type", label(m.type()))("opts", opts_js(p.effective_options(m)))("entries", entries);
                out.push_back(e);
            });
            return out;
        };
        auto id_of = [&](const any &m, const std::string &ty) {
            auto f = ids.find(m.get());
            if (f != ids.end()) return f->second;
            ids[m.get()] = (int)inst.size(); inst.push_back(m); ity.push_back(types[ty]->canon);
            return (int)inst.size() - 1;
        };
        for (auto &l : sc)
        {
            obj ev; const std::string &op = l.op(); ev("op", op); ++n;
            registry *rp = regs[l.n(1) >= 1 && l.n(1) <= 2 ? l.n(1) : 1].get(); registry &r = *rp;
            auto refused = [&](const metric_type_mismatch &x) { ev("res", "throw")("ex", label(x.existing_metric_type()))("want", label(x.desired_metric_type())); };
            if (op == "cfg") ev("srcs", 4);
            else if (op == "get")
            {   // get r path tags type init how
                int how = (int)l.n(6);
                ev("r", l.n(1))("p", comps(l.s(2)))("t", taglist_js(l.s(3)))("ty", l.s(4))("init", l.s(5));
                try { auto m = types[l.s(4)]->get(r, path(l.s(2), how), tags(l.s(3), how), l.n(5)); ev("res", "ok")("id", id_of(m, l.s(4))); }
                catch (metric_type_mismatch &x) { refused(x); }
            }
            else if (op == "make") { auto m = types[l.s(1)]->make(l.n(2)); ev("ty", l.s(1))("init", l.s(2))("id", id_of(m, l.s(1))); }
            else if (op == "reg")
            {   // reg r path tags id how type
                int how = (int)l.n(5), id = (int)l.n(4);
                ev("r", l.n(1))("p", comps(l.s(2)))("t", taglist_js(l.s(3)))("id", id);
                try
                {
                    bool ok = types[id ? ity[id] : l.s(6)]->reg(r, path(l.s(2), how), tags(l.s(3), how), inst[id]);
                    ev("res", ok ? "ok" : "no");
                }
                catch (metric_type_mismatch &x) { refused(x); }
            }
            else if (op == "upd") { types[ity[l.n(1)]]->upd(inst[l.n(1)], l.n(2)); ev("id", l.n(1))("amt", l.s(2)); }
            else if (op == "setsrc") { sources[l.n(1)] = l.d(2); ev("s", l.n(1))("v", l.s(2)); }
            else if (op == "snap") ev("id", l.n(1))("snap", types[ity[l.n(1)]]->snap(inst[l.n(1)]));
            else if (op == "visit")
            {   // visit r how mode path
                std::vector<obj> out; pub p(r);
                const std::string &how = l.s(2), &mode = l.s(3);
                auto hnd = [&](const metric_path &mp, basic_registered_metric &m) {
                    std::vector<obj> entries;
                    if (mode == "full")
                        m.visit([&](const tag_collection &t, const auto &s) { obj e; e("t", taglist_js(t))("snap", snap_js(s)); entries.push_back(e); });
                    else
                    {
                        struct some
                        {
                            std::vector<obj> &out;
                            void operator()(const tag_collection &t, const histogram_snapshot &s) const { obj e; e("t", taglist_js(t))("snap", snap_js(s)); out.push_back(e); }
                            void operator()(const tag_collection &t, const meter_snapshot &s) const { obj e; e("t", taglist_js(t))("snap", snap_js(s)); out.push_back(e); }
                            void operator()(const tag_collection &, const cumulative_value_snapshot &) const { }
                            void operator()(const tag_collection &, const average_value_snapshot &) const { }
                            void operator()(const tag_collection &t, const timer_snapshot &s) const { (*this)(t, static_cast<const histogram_snapshot &>(s)); (*this)(t, s.rate()); }
                        };
                        m.visit(some{entries});
                    }
                    obj e; e("p", comps(mp))("type", label(m.type()))("opts", opts_js(p.effective_options(m)))("entries", entries);
                    out.push_back(e);
                };
                if (how == "one") p.visit_one(path(l.s(4), n), hnd);
                else if (n % 2) p.visit_all(hnd);
                else r.visit_registered_metrics(hnd);
                ev("r", l.n(1))("how", how)("mode", mode)("out", out);
                if (how == "one") ev("p", comps(l.s(4)));
            }
            else if (op == "vthrow")
            {   // vthrow r k level
                int k = (int)l.n(2), calls = 0; bool caught = false;
                try
                {
                    r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) {
                        if (l.s(3) == "path") { if (++calls == k) throw thrown(); }
                        else m.visit([&](const tag_collection &, const auto &) { if (++calls == k) throw thrown(); });
                    });
                }
                catch (thrown &) { caught = true; }
                ev("r", l.n(1))("k", k)("level", l.s(3))("calls", calls)("caught", caught);
            }
            else if (op == "crowd")
            {   // crowd n
                registry big; long long visited = 0; std::set<std::string> distinct; long double sum = -1;
                for (long long k = 0; k < l.n(1); ++k)
                    ++*big.counter<int64_t>("crowd", tag_collection{std::pair<const std::string, metric_value>("k", (int64_t)k)});
                big.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) {
                    m.visit([&](const tag_collection &t, const auto &) { ++visited; distinct.insert(js(taglist_js(t))); });
                    m.aggregate(total_of{sum});
                });
                ev("n", l.n(1))("visited", visited)("distinct", distinct.size())("sum", (long long)sum);
            }
            else if (op == "agg")
            {
                std::vector<obj> out; pub p(r);
                p.visit_one(path(l.s(2), n), [&](const metric_path &, basic_registered_metric &m) { m.aggregate([&](const auto &s) { out.push_back(snap_js(s)); }); });
                ev("r", l.n(1))("p", comps(l.s(2)))("out", out);
            }
            else if (op == "opts") { ev("r", l.n(1)); r.publish_options(build_opts(l, 3, (int)l.n(2), ev)); }
            else if (op == "optsfor") { ev("r", l.n(1))("p", comps(l.s(2))); auto o = build_opts(l, 4, (int)l.n(3), ev); r.publish_options(path(l.s(2), n), std::move(o)); }
            else if (op == "ropts") ev("r", l.n(1))("out", opts_js(r.publish_options()));
            else if (op == "eff")
            {
                std::vector<obj> out; pub p(r);
                p.visit_one(path(l.s(2), n), [&](const metric_path &, basic_registered_metric &m) { out.push_back(opts_js(p.effective_options(m))); });
                ev("r", l.n(1))("p", comps(l.s(2)))("out", out);
            }
            else if (op == "data" || op == "datafor")
            {   // data r type arg / datafor r type arg path visiting
                pub p(r); std::pair<void *, std::string> d{nullptr, "throw"}; const std::string &t = l.s(2), &a = l.s(3);
                try {
                if (op == "data") d = t == "1" ? data<1>(p, a) : t == "2" ? data<2>(p, a) : data<3>(p, a);
                else
                {
                    auto m = path(l.s(4), n); bool v = l.n(5) != 0;
                    d = t == "1" ? data_for<1>(p, m, a, v) : t == "2" ? data_for<2>(p, m, a, v) : data_for<3>(p, m, a, v);
                }
                } catch (std::runtime_error &) { }
                if (op == "datafor") ev("p", comps(l.s(4)));
                int id = 0;
                if (d.first) { auto f = dids.find(d.first); if (f == dids.end()) { id = (int)dids.size() + 1; dids[d.first] = id; } else id = f->second; }
                ev("r", l.n(1))("ty", t)("arg", a)("id", id)("got", d.second);
            }
            else if (op == "has")
            {   // has r type path visiting
                pub p(r); auto m = path(l.s(3), n); const std::string &t = l.s(2); bool v = l.n(4) != 0;
                ev("r", l.n(1))("ty", t)("p", comps(l.s(3)))("res", t == "1" ? has_data<1>(p, m, v) : t == "2" ? has_data<2>(p, m, v) : has_data<3>(p, m, v));
            }
            else if (op == "hasm") { pub p(r); ev("r", l.n(1))("p", comps(l.s(2)))("res", p.has_metric(path(l.s(2), n))); }
            else if (op == "mtype") { pub p(r); ev("r", l.n(1))("p", comps(l.s(2)))("res", p.metric_type(path(l.s(2), n))); }
#ifdef WITH_PROMETHEUS
            else if (op == "publish")
            {   // publish r before
                ev("r", l.n(1));
                if (l.n(2)) ev("before", dump(r));
                std::ostringstream os;
                auto *p = publishers[l.n(1)].get();
                cxxmetrics_prometheus::prometheus_publisher<default_repository> mine(r);
                if (n % 2) p->write(os); else mine.write(os);
                auto parts = split(os.str(), '\n');
                ev("whole", parts.back().empty()); parts.pop_back();
                std::vector<std::vector<int>> lines;
                for (auto &x : parts) lines.push_back(codes(x));
                ev("lines", lines)("after", dump(r));
            }
            else if (op == "adv") { steady_ns += l.n(1); ev("ns", l.s(1)); }
#endif
            else std::abort();
            tr.add(ev);
        }
        tr.flush();
    }
}
