// Shared by all drivers: script reader, JSON trace writer, virtual clock, sample extraction.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace h {

// ---- virtual time: the process-wide std::chrono clocks read these ------------------------------
extern long long steady_ns;
extern long long system_ns;

// ---- JSON -----------------------------------------------------------------------------------------
inline std::string quote(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline std::string js(const std::string &s) { return quote(s); }
inline std::string js(const char *s) { return quote(s); }
inline std::string js(bool b) { return b ? "true" : "false"; }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(unsigned v) { return std::to_string(v); }
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(unsigned long v) { return std::to_string(v); }
inline std::string js(long long v) { return std::to_string(v); }
inline std::string js(unsigned long long v) { return std::to_string(v); }
template<class T> std::string js(const std::vector<T> &v)
{
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += js(v[i]); }
    return r + "]";
}
struct raw { std::string s; };
inline std::string js(const raw &r) { return r.s; }

inline std::vector<int> codes(const std::string &s)
{
    std::vector<int> r;
    for (unsigned char c : s) r.push_back(c);
    return r;
}

// one JSON object
struct obj
{
    std::string s = "{";
    template<class T> obj &operator()(const char *k, const T &v)
    {
        if (s.size() > 1) s += ",";
        s += quote(k); s += ":"; s += js(v);
        return *this;
    }
    std::string str() const { return s + "}"; }
};
inline std::string js(const obj &o) { return o.str(); }

// one trace
struct trace
{
    std::string s = "[";
    void add(const obj &o) { if (s.size() > 1) s += ","; s += o.str(); }
    void flush() { s += "]\n"; std::fputs(s.c_str(), stdout); std::fflush(stdout); s = "["; }
};

// ---- script: lines of blank separated words between BEGIN and END ----------------------------------
struct line
{
    std::vector<std::string> w;
    const std::string &s(std::size_t i) const { static const std::string e; return i < w.size() ? w[i] : e; }
    long long n(std::size_t i) const { return i < w.size() ? std::strtoll(w[i].c_str(), nullptr, 10) : 0; }
    unsigned long long u(std::size_t i) const { return i < w.size() ? std::strtoull(w[i].c_str(), nullptr, 10) : 0; }
    long double ld(std::size_t i) const { return std::strtold(w[i].c_str(), nullptr); }
    double d(std::size_t i) const { return std::strtod(w[i].c_str(), nullptr); }
    // strings travel as hex, "-" is the empty string
    std::string x(std::size_t i) const
    {
        std::string r; const std::string &t = s(i);
        if (t == "-") return r;
        for (std::size_t k = 0; k + 1 < t.size(); k += 2) r += (char)std::strtol(t.substr(k, 2).c_str(), nullptr, 16);
        return r;
    }
    const std::string &op() const { return s(0); }
};

// reads one trace worth of script; false at the end of input
inline bool next_script(std::vector<line> &out)
{
    out.clear();
    std::string l; bool in = false;
    while (std::getline(std::cin, l))
    {
        if (l.compare(0, 5, "BEGIN") == 0) { in = true; continue; }
        if (l == "END") return true;
        if (!in) continue;
        line ln; std::istringstream is(l); std::string w;
        while (is >> w) ln.w.push_back(w);
        if (!ln.w.empty()) out.push_back(ln);
    }
    return false;
}

} // namespace h
