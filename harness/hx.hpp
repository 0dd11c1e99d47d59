// Shared helpers of the bounded stand-in / replay harnesses. Output protocol read by mkv/driver.py.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
#include <limits>
namespace hx
{
    inline uint64_t s = 0x9E3779B97F4A7C15ull;
    inline uint64_t next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull >> 11;
    }
    inline int rnd(int n) { return static_cast<int>(next() % static_cast<uint64_t>(n)); } // [0,n)
    inline double rndd() { return static_cast<double>(next() % 1000003u) / 1000003.0; }
    inline bool thorough()
    {
        const char* t = std::getenv("VERIF_TIER");
        return t && std::string(t) == "thorough";
    }
    inline void init()
    {
        const char* t = std::getenv("VERIF_SEED");
        uint64_t v = t ? std::strtoull(t, nullptr, 10) : 1;
        s = 0x9E3779B97F4A7C15ull ^ (v * 0xD1B54A32D192ED03ull);
        for (int i = 0; i < 8; ++i) next();
        setvbuf(stdout, nullptr, _IOLBF, 0);
    }
    inline long evals = 0;
    inline std::set<std::string> distinct;
    inline std::map<std::string, int> failed;
    inline void eval() { ++evals; }
    inline void shape(const std::string& k)
    {
        if (distinct.size() < 200000) distinct.insert(k);
    }
    inline void fail(const std::string& key, const std::string& desc)
    {
        int& n = failed[key];
        if (n++ < 3) std::printf("FAIL %s :: %s\n", key.c_str(), desc.c_str());
    }
    inline bool check(bool ok, const std::string& key, const std::function<std::string()>& d)
    {
        ++evals;
        if (!ok) fail(key, d());
        return ok;
    }
    inline int nsamples = 0;
    inline void sample(const std::string& d)
    {
        if (nsamples++ < 6) std::printf("SAMPLE %s\n", d.c_str());
    }
    inline void cover(const std::string& d)
    {
        static std::set<std::string> seen;
        if (seen.insert(d).second) std::printf("COVER %s\n", d.c_str());
    }
    inline void kase(const std::string& d)
    {
        std::printf("CASE %s\n", d.c_str());
        std::fflush(stdout);
    }
    inline int done()
    {
        std::printf("STAT evaluations %ld\nSTAT distinct %ld\n", evals, (long)distinct.size());
        std::fflush(stdout);
        return failed.empty() ? 0 : 1;
    }
    template <typename... A>
    std::string cat(const A&... a)
    {
        std::ostringstream o;
        o.precision(17);
        (o << ... << a);
        return o.str();
    }
} // namespace hx
