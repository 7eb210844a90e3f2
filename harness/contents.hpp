// The sorted samples of a snapshot, read through the public quantile interface: the value at
// quantile i/(n+1) of n samples is the i-th smallest one.
#pragma once
#include "h.hpp"
#include <cmath>
#include <cxxmetrics/snapshots.hpp>

namespace h {
constexpr int max_contents = 16;

constexpr long long qcode(int n, int i) { return ((long long)0xffffffffLL * i + n) / (n + 1); }

using getter = long double (*)(const cxxmetrics::reservoir_snapshot &);
template<int N, int I> long double get_one(const cxxmetrics::reservoir_snapshot &s)
{ return static_cast<long double>(s.template value<qcode(N, I)>()); }

template<int N, class S> struct row;
template<int N, int... I> struct row<N, std::integer_sequence<int, I...>>
{
    static const getter *get() { static const getter g[] = {&get_one<N, I + 1>...}; return g; }
};
template<int... N> const getter *table(int n, std::integer_sequence<int, N...>)
{
    using row_t = const getter *(*)();
    static const row_t rows[] = {&row<N + 1, std::make_integer_sequence<int, N + 1>>::get...};
    return rows[n - 1]();
}

inline std::vector<long long> contents(const cxxmetrics::reservoir_snapshot &s)
{
    std::vector<long long> r;
    int n = (int)s.size();
    if (n == 0) return r;
    if (n > max_contents) { r.assign(n, 0); return r; }
    auto t = table(n, std::make_integer_sequence<int, max_contents>());
    for (int i = 0; i < n; ++i) r.push_back((long long)llroundl(t[i](s)));
    return r;
}
}
