// Nonlinear-controller conformance driver: interface shared by the per-shape translation units.
#pragma once
#include "hx.hpp"
#include <memory>
#include <set>

struct Dims { int nx, nu, ny, ph, ch, ni, ne; };

// what the wrapped nlopt_optimize plays and records; one per optimize call
struct Probe { long flags; std::vector<long> z; };     // flags: 1 gradient, 2 reverse order, 4 don't record calls
struct Play
{
    std::vector<Probe> probes;
    long ret = 1, f = 0, advMs = 0;
    std::vector<long> rz;
    long thrKind = 0, thrProbe = 0, thrType = 0;        // thrProbe 0: after nlopt_optimize returned
    // recorded
    int calls = 0;
    long acc = 0;
    std::string lb, ub, st, par, neq, nin, probesOut;
    long hasobj = 0;
};
extern thread_local Play *gPlay;
extern bool gPy;                   // the run is compared with one through the Python bindings
extern bool gRaw, gReal;
extern double gT;                  // the unit of time (of the sampling time and of time derivatives)
extern double gU;                  // the unit every quantity of the run is measured in
extern thread_local long gThrowNow, gThrowType;
extern thread_local bool gRecord;
extern thread_local std::set<std::string> gCalls;

std::string num(double v, double mult, double tol = 1e-6);
template <class F> std::string nums(size_t n, F f, double mult, double tol = 1e-6)
{
    std::string r = "[";
    for (size_t k = 0; k < n; k++) { if (k) r += ","; r += num(f(k), mult, tol); }
    return r + "]";
}
inline void maybeThrow(long kind)
{
    hx::pass(40);
    if (gThrowNow == kind)
    {
        if (gPy) throw std::runtime_error("user function failed");
        if (gThrowType == 1) throw 42;
        if (gThrowType == 2) throw std::invalid_argument("user invalid argument");
        throw std::runtime_error("user function failed");
    }
}

struct ICtl
{
    virtual ~ICtl() = default;
    virtual void exec(hx::Line &l, long id) = 0;
};
ICtl *makeDyn(const Dims &d);
ICtl *makeStatic(int shape, const Dims &d);
