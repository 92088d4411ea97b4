// Shared pieces of the conformance drivers: script reader, event writer, fixed-point encoding,
// fake clock, polynomial coefficient hash W (mirrors spec/Fns.tla).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <condition_variable>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace hx
{
    // sentinels (mirrors spec/Enc.tla); every other logged value v satisfies |v| < 1900000000
    constexpr long INFV = 2000000000, NANV = 2000000001, BIGV = 2000000002, INEXACT = 2000000003;

    inline long enc(double v, double mult, double tol = 1e-6)
    {
        if (std::isnan(v)) return NANV;
        if (std::isinf(v)) return v > 0 ? INFV : -INFV;
        double w = v * mult;
        if (std::fabs(w) > 1.9e9) return v > 0 ? BIGV : -BIGV;
        double r = std::nearbyint(w);
        if (std::fabs(w - r) > tol) return INEXACT;
        return (long)r;
    }
    // exact: no tolerance at all
    inline long encx(double v, double mult) { return enc(v, mult, 0.0); }
    // rounded
    inline long encr(double v, double mult) { return enc(v, mult, 1.0); }
    inline double dec(long v)
    {
        if (v == INFV) return std::numeric_limits<double>::infinity();
        if (v == -INFV) return -std::numeric_limits<double>::infinity();
        if (v == NANV) return std::numeric_limits<double>::quiet_NaN();
        return (double)v;
    }
    inline std::string bits(double v)
    {
        if (std::isnan(v)) return "nan";
        if (v == 0) v = 0;      // the sign of a zero says nothing
        uint64_t b;
        std::memcpy(&b, &v, 8);
        char s[20];
        std::snprintf(s, sizeof s, "%016llx", (unsigned long long)b);
        return s;
    }

    // up to rounding: sums may be taken in another order. The quantum keeps values the scripts can
    // produce exactly (multiples of 1/64) away from where the rounding changes.
    inline std::string digits(double v)
    {
        if (std::isnan(v)) return "nan";
        char s[40];
        std::snprintf(s, sizeof s, std::fabs(v) < 1e9 ? "%.0f" : "%.4e", std::fabs(v) < 1e9 ? std::nearbyint(v * 1009 + 0.3) + 0.0 : v);
        return s[0] == '-' && s[1] == '0' && !s[2] ? "0" : s;
    }

    // ---- event writer
    struct Ev
    {
        std::string s = "{";
        bool first = true;
        void key(const char *k)
        {
            if (!first) s += ",";
            first = false;
            s += "\"";
            s += k;
            s += "\":";
        }
        Ev &i(const char *k, long v) { key(k); s += std::to_string(v); return *this; }
        Ev &str(const char *k, const std::string &v)
        {
            key(k);
            s += "\"";
            for (char c : v)
            {
                if (c == '"' || c == '\\') { s += '\\'; s += c; }
                else if (c == '\n') s += "\\n";
                else if (c == '\t') s += "\\t";
                else if ((unsigned char)c < 32) s += "?";
                else s += c;
            }
            s += "\"";
            return *this;
        }
        Ev &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
        Ev &v(const char *k, const std::vector<long> &a) { return raw(k, arr(a)); }
        static std::string arr(const std::vector<long> &a)
        {
            std::string r = "[";
            for (size_t j = 0; j < a.size(); j++) { if (j) r += ","; r += std::to_string(a[j]); }
            return r + "]";
        }
        static std::string list(const std::vector<std::string> &a)
        {
            std::string r = "[";
            for (size_t j = 0; j < a.size(); j++) { if (j) r += ","; r += a[j]; }
            return r + "]";
        }
        std::string end() const { return s + "}"; }
    };
    inline FILE *&out() { static FILE *f = nullptr; return f; }
    inline void emit(const Ev &e) { std::fprintf(out(), "%s\n", e.end().c_str()); std::fflush(out()); }

    // ---- script reader: one op per line, "name int int ..."
    struct Line
    {
        std::string op;
        std::vector<long> a;
        size_t p = 0;
        long next()
        {
            if (p >= a.size()) { std::fprintf(stderr, "script: op %s short\n", op.c_str()); std::exit(77); }
            return a[p++];
        }
        std::vector<long> take(size_t n) { std::vector<long> r; for (size_t k = 0; k < n; k++) r.push_back(next()); return r; }
    };
    inline bool readLine(std::istream &in, Line &l)
    {
        std::string t;
        while (std::getline(in, t))
        {
            if (t.empty() || t[0] == '#') continue;
            std::istringstream ss(t);
            l = Line();
            ss >> l.op;
            long v;
            while (ss >> v) l.a.push_back(v);
            return true;
        }
        return false;
    }

    // ---- the blocks of memory in use after running a script again and again, the controllers destroyed at the end of every
    // round (kind 0), or kept, configured and solved again (kind 1, up to the first destruction), then destroyed (kind 2)
    template <class S, class D> void rounds(const std::vector<Line> &all, S step, D drop, long (*blocks)())
    {
        const int R = 5;
        long got[2][R], last;
        size_t n = 0;
        while (n < all.size() && all[n].op != "free") n++;
        FILE *keep = out();
        out() = std::fopen("/dev/null", "w");
        for (int r = 0; r < R; r++)
        {
            for (auto &l : all) step(l);
            drop();
            got[0][r] = blocks();
        }
        for (int r = 0; r < R; r++)
        {
            for (size_t k = 0; k < n; k++) if (!r || all[k].op != "new") step(all[k]);
            got[1][r] = blocks();
        }
        drop();
        last = blocks();
        std::fclose(out());
        out() = keep;
        auto ev = [](long kind, long r, long b) { Ev e; e.str("op", "round").i("i", 0).i("kind", kind).i("n", r + 1).i("blocks", b); emit(e); };
        for (int k = 0; k < 2; k++) for (int r = 0; r < R; r++) ev(k, r, got[k][r]);
        ev(2, 0, last);
    }

    // ---- one thread per controller, one of them running at a time: whoever reaches a pass() may have to hand over.
    // Which, and where, follows from the script.
    struct Baton
    {
        std::mutex m;
        std::condition_variable cv;
        std::vector<long> ready;
        long holder = 0;
        unsigned long long rng = 88172645463325252ULL;
        bool on = false;
    };
    inline Baton &baton() { static Baton b; return b; }
    inline long &self() { static thread_local long s = 0; return s; }
    inline void give(long to)
    {
        Baton &b = baton();
        std::unique_lock<std::mutex> k(b.m);
        b.holder = to;
        b.cv.notify_all();
        if (self()) b.cv.wait(k, [&] { return b.holder == self(); });
    }
    inline void pass(unsigned each = 6)
    {
        Baton &b = baton();
        if (!b.on || !self()) return;
        b.rng ^= b.rng << 13; b.rng ^= b.rng >> 7; b.rng ^= b.rng << 17;
        if ((b.rng >> 20) % each) return;
        const long to = b.ready[(b.rng >> 33) % b.ready.size()];
        if (to != self()) give(to);
    }
    template <class S> void threads(const std::vector<Line> &all, S step)
    {
        Baton &b = baton();
        std::map<long, std::vector<Line>> of;
        for (auto &l : all)
        {
            of[l.a.at(0)].push_back(l);
            for (long v : l.a) b.rng = b.rng * 6364136223846793005ULL + (unsigned long long)v + 1442695040888963407ULL;
        }
        if (of.empty()) return;
        if (!b.rng) b.rng = 1;
        for (auto &kv : of) b.ready.push_back(kv.first);
        b.holder = b.ready[0];
        b.on = true;
        std::vector<std::thread> run;
        for (auto &kv : of)
            run.emplace_back([&b, &step, id = kv.first, lines = &kv.second] {
                self() = id;
                { std::unique_lock<std::mutex> k(b.m); b.cv.wait(k, [&] { return b.holder == id; }); }
                for (auto &l : *lines) { step(l); pass(3); }
                for (size_t k = 0; k < b.ready.size(); k++) if (b.ready[k] == id) { b.ready.erase(b.ready.begin() + (long)k); break; }
                self() = 0;
                if (!b.ready.empty()) give(b.ready[0]);
            });
        for (auto &t : run) t.join();
        b.on = false;
    }

    // ---- coefficient hash, in -2..2
    inline long W(long s, long a, long b, long c)
    {
        long h = s * 37 + a * 13 + b * 29 + c * 53 + a * b * 7 + s * c * 3 + s * a * 5;
        return ((h % 101) % 5) - 2;
    }

    inline long long &tick() { static long long t = 1000000LL; return t; }     // nanoseconds per scripted time unit
    inline long long &clockNs() { static thread_local long long t = 1000000000000LL; return t; }     // every thread has its time
}
