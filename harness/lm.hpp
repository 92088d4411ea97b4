// Linear-controller conformance driver: what the stand-in solver plays and records.
#pragma once
#include "hx.hpp"
#include <memory>

struct Dims { int nx, nu, ndu, ny, ph, ch; };
struct Play
{
    std::vector<double> uz;         // units of the decision variables
    double uw = 1;                  // and of the cost
    long mode = 0;                  // 0 setup works, 1 refused (workspace untouched), 2 fails half built
    long status = 1, obj = 0, seed = 0, advMs = 0;
    // recorded
    int nset = 0, nok = 0, nsolve = 0, nwarm = 0, nsol = 0;
    bool warm = false, refused = false;
    std::string par, P, q, rows, wx = "[]", wy = "[]";
    long n = 0, m = 0, wf = 1;      // wf: the matrices are well formed
};
extern thread_local Play *gPlay;
extern bool gPy;                   // the run is compared with one through the Python bindings
extern bool gRaw;
extern long gUnits;                // 0: plain numbers; else every kind of quantity is measured in a unit of its own
extern long gBad;                   // uses and releases of memory that is not the solver's
extern long gLive;                  // workspaces alive
extern long gAlloc;                 // blocks from the solver's allocator alive
std::string num(double v, double mult, double tol = 1e-9);
template <class F> std::string nums(size_t n, F f, double mult, double tol = 1e-9)
{
    std::string r = "[";
    for (size_t k = 0; k < n; k++) { if (k) r += ","; r += num(f(k), mult, tol); }
    return r + "]";
}
// entry i (from 1) of the vector number s (mirrors spec/Lm.tla)
inline long Z(long s, long i) { return (s * 7 + i * 13 + (i * i * s) % 17) % 13 - 6; }

struct ICtl
{
    virtual ~ICtl() = default;
    virtual void exec(hx::Line &l, long id) = 0;
};
ICtl *makeDyn(const Dims &d);
ICtl *makeStatic(int shape, const Dims &d);
