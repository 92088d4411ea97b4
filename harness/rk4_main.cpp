// Integrator conformance driver.  usage: rk4_driver SCRIPT TRACE
#include "hx.hpp"
#include <mpc/Integrator.hpp>
#include <fstream>
#include <map>
#include <memory>

static long mod(long v, long m) { return ((v % m) + m) % m; }
// field s (mirrors spec/Rk4.tla) in units of 1/u
static long F(long s, long j, long t, const std::vector<long> &x)
{
    const long n = (long)x.size();
    if (s < 100)
    {
        long h = hx::W(s, j, 1, 31) * t + mod(t * t, 11) + mod(x[0] * x[j % n], 13);
        for (long i = 1; i <= n; i++) h += (hx::W(s, j, i, 32) + 3) * x[i - 1];
        return mod(h, 9) - 4;
    }
    if (s < 200) return hx::W(s, j, 0, 33) + hx::W(s, j, 1, 33) * t + hx::W(s, j, 2, 33) * t * t + hx::W(s, j, 3, 33) * t * t * t;
    return hx::W(s, j, 0, 34) + (j < n ? x[j] : 0);
}

static bool gBad;
struct IRk { virtual ~IRk() = default; virtual void run(const std::vector<long> &a) = 0; };
template <unsigned N> struct Rk : IRk
{
    long s;
    double u;
    mpc::RK4<N> rk;
    Rk(long s, double u) : s(s), u(u), rk([s, u](double t, const mpc::cvec<N> &x) {
        std::vector<long> X(N);
        auto near = [](double v) { double r = std::nearbyint(v); if (!(std::fabs(v - r) < 1e-3)) gBad = true; return (long)std::min(std::max(r, -4e18), 4e18); };
        for (unsigned k = 0; k < N; k++) X[k] = near(x(k) * u);
        long T = near(t * u);
        mpc::cvec<N> d;
        for (unsigned k = 0; k < N; k++) d(k) = gBad ? 0.0 : (double)F(s, k + 1, T, X);
        return d;
    }) {}
    void run(const std::vector<long> &a) override
    {
        mpc::cvec<N> x;
        for (unsigned k = 0; k < N; k++) x(k) = a[6 + k] / u;
        gBad = false;
        const double t = a[5] / u, h = a[3] / u;
        mpc::cvec<N> r = a[4] == 1 && a[5] % 2 ? rk.run(t, x, h) : rk.run(t, x, h, (int)a[4]);
        hx::Ev e;
        std::vector<long> R, X;
        for (unsigned k = 0; k < N; k++) { R.push_back(gBad ? hx::INEXACT : hx::enc(r(k), u, 1e-3)); X.push_back(hx::enc(x(k), u)); }
        e.str("op", "run").i("i", 0).v("a", a).v("r", R).v("in", X);
        hx::emit(e);
    }
};

int main(int argc, char **argv)
{
    if (argc < 3) return 77;
    std::ifstream in(argv[1]);
    hx::out() = std::fopen(argv[2], "w");
    std::map<std::vector<long>, std::unique_ptr<IRk>> objs;
    hx::Line l;
    while (hx::readLine(in, l))
    {
        auto &o = objs[{l.a[0], l.a[1], l.a[2]}];
        double u = l.a[2] == 0 ? 0.5 : l.a[2] < 0 ? std::ldexp(1.0, (int)l.a[2]) : (double)l.a[2];
        if (!o)
            switch (l.a[1])
            {
            case 1: o.reset(new Rk<1>(l.a[0], u)); break;
            case 2: o.reset(new Rk<2>(l.a[0], u)); break;
            case 3: o.reset(new Rk<3>(l.a[0], u)); break;
            case 4: o.reset(new Rk<4>(l.a[0], u)); break;
            case 7: o.reset(new Rk<7>(l.a[0], u)); break;
            default: return 77;
            }
        o->run(l.a);
    }
    hx::Ev e;
    e.str("op", "end").i("i", 0);
    hx::emit(e);
    return 0;
}
