// What a reservoir fed the same recordings may hold
#ifndef TWIN_HPP
#define TWIN_HPP

#include "snap.hpp"
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>

using cxxmetrics::reservoir_snapshot;
using cxxmetrics::uniform_reservoir;

// what is known about a reservoir's content, kind by kind
template<typename T, typename R>
struct Twin // deterministic reservoirs: an identical one fed the same
{
    R r;
    Twin(R&& init) : r(init) { }
    void update(const T& v) { r.update(v); }
    void check(pbt::Ctx& ctx, const reservoir_snapshot& s, const char* what)
    {
        auto mine = r.snapshot();
        snap::check_contents<T>(ctx, s, snap::contents<T>(mine), what);
    }
};
template<typename T, std::size_t N>
struct Twin<T, uniform_reservoir<T, N>> // random: everything until full, then one replacement per recording
{
    std::multiset<T> all;
    std::vector<T> held; // as of the last snapshot, sorted
    std::vector<T> since;
    std::size_t n = 0;
    Twin(uniform_reservoir<T, N>&& init)
    {
        held = snap::contents<T>(init.snapshot());
        all.insert(held.begin(), held.end());
        n = held.size();
    }
    void update(const T& v)
    {
        all.insert(v);
        since.push_back(v);
        ++n;
    }
    void check(pbt::Ctx& ctx, const reservoir_snapshot& s, const char* what)
    {
        CHECK_EQ(ctx, s.size(), std::min(n, N), what, ": number of values");
        auto now = snap::contents<T>(s);
        auto left = all;
        for (auto& v : now)
        {
            auto f = left.find(v);
            CHECK_THAT(ctx, f != left.end(), what, ": holds ", v, " more often than it was recorded");
            left.erase(f);
        }
        if (n <= N)
            CHECK_THAT(ctx, left.empty(), what, ": a recorded value is missing although the reservoir is not full");
        // each further recording replaces at most one value
        std::vector<T> come, known = held;
        std::set_difference(now.begin(), now.end(), held.begin(), held.end(), std::back_inserter(come));
        CHECK_THAT(ctx, come.size() <= since.size(), what, ": ", come.size(), " values came in by ", since.size(), " recordings");
        held = now;
        since.clear();
    }
};


#endif
