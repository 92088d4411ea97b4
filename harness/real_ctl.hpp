// One controller of the closed-loop driver: linear-quadratic problems, solved by the real solver.
#pragma once
#include "nl.hpp"
#include "mk.hpp"
#include <mpc/NLMPC.hpp>
#include <map>

std::vector<long> &gFree();

template <int NX, int NU, int NY, int PH, int CH, int NI, int NE>
struct Ctl : ICtl
{
    using M = mpc::NLMPC<NX, NU, NY, PH, CH, NI, NE>;
    using CX = mpc::cvec<NX>; using CU = mpc::cvec<NU>; using CY = mpc::cvec<NY>; using CI = mpc::cvec<NI>; using CE = mpc::cvec<NE>;
    static constexpr int H = PH < 0 ? -1 : PH + 1;
    using MX = mpc::mat<H, NX>; using MU = mpc::mat<H, NU>; using MY = mpc::mat<H, NY>;
    Dims d;
    std::unique_ptr<M> m;
    long kind = 0;
    std::map<std::string, std::vector<long>> p;      // the current problem
    Ctl(const Dims &d, long kind) : d(d), kind(kind)
    {
        if constexpr (NX < 0) m.reset(new M(d.nx, d.nu, d.ny, d.ph, d.ch, d.ni, d.ne));
        else m.reset(new M());
        const int nx = d.nx, nu = d.nu, ny = d.ny, ph = d.ph;
        if (kind == 1) m->setDiscretizationSamplingTime(2.0);
        m->setStateSpaceFunction([this, nx, nu](CX &o, const CX &x, const CU &u, const unsigned int &k) {
            for (int i = 0; i < nx; i++)
            {
                double v = p["d"][k * nx + i] + p["bil"][i] * x(i) * u((i + 1) % nu);
                for (int j = 0; j < nx; j++) v += p["A"][i * nx + j] * x(j);
                for (int j = 0; j < nu; j++) v += p["B"][i * nu + j] * u(j);
                o(i) = v;
            }
        });
        m->setOutputFunction([this, nx, nu, ny](CY &o, const CX &x, const CU &u, const unsigned int &) {
            for (int i = 0; i < ny; i++)
            {
                double v = 0;
                for (int j = 0; j < nx; j++) v += p["C"][i * nx + j] * x(j);
                for (int j = 0; j < nu; j++) v += p["Dm"][i * nu + j] * u(j);
                o(i) = v;
            }
        });
        m->setObjectiveFunction([this](const MX &X, const MY &Y, const MU &U, const double &e) { return cost(X, Y, U, e); });
        if (d.ni > 0)
            m->setIneqConFunction([this, nx, nu, ph](CI &g, const MX &X, const MY &, const MU &U, const double &e) {
                for (int q = 0; q < g.size(); q++) g(q) = row("igx", "igu", q, X, U) + p["io"][q] - e;
            }, 1e-6f);
        if (d.ne > 0)
            m->setEqConFunction([this](CE &g, const MX &X, const MU &U) {
                for (int q = 0; q < g.size(); q++) g(q) = row("egx", "egu", q, X, U) + p["eo"][q];
            }, 1e-6f);
    }
    double row(const char *gx, const char *gu, int q, const MX &X, const MU &U)
    {
        double v = 0;
        for (int k = 0; k <= d.ph; k++)
        {
            for (int i = 0; i < d.nx; i++) v += p[gx][(q * (d.ph + 1) + k) * d.nx + i] * X(k, i);
            for (int i = 0; i < d.nu; i++) v += p[gu][(q * (d.ph + 1) + k) * d.nu + i] * U(k, i);
        }
        return v;
    }
    double cost(const MX &X, const MY &Y, const MU &U, double e)
    {
        double v = e * e;
        auto sq = [](double a) { return a * a; };
        for (int k = 0; k <= d.ph; k++)
        {
            for (int i = 0; i < d.nx; i++) v += sq(X(k, i) - p["a"][k * d.nx + i]);
            for (int i = 0; i < d.nu; i++) v += sq(U(k, i) - p["b"][k * d.nu + i]);
            for (int i = 0; i < d.ny; i++) v += sq(Y(k, i) - p["c"][k * d.ny + i]);
        }
        return v / 2;
    }
    void exec(hx::Line &l, long id) override
    {
        using hx::Ev;
        const int nx = d.nx, nu = d.nu, ny = d.ny, ph = d.ph, ch = d.ch, ni = d.ni, ne = d.ne, h = ph + 1;
        auto rd = [&](const char *k, int n) { p[k] = l.take(n); };
        rd("opt", 4); rd("sx", nx); rd("su", nu); rd("A", nx * nx); rd("B", nx * nu); rd("d", ph * nx); rd("bil", nx); rd("C", ny * nx); rd("Dm", ny * nu);
        rd("a", h * nx); rd("b", h * nu); rd("c", h * ny); rd("xlo", ph * nx); rd("xhi", ph * nx); rd("ulo", ch * nu); rd("uhi", ch * nu);
        rd("igx", ni * h * nx); rd("igu", ni * h * nu); rd("io", ni); rd("egx", ne * h * nx); rd("egu", ne * h * nu); rd("eo", ne); rd("x0", nx); rd("u0", nu);
        mpc::NLParameters q;
        q.maximum_iteration = 3000; q.relative_ftol = -1;
        q.relative_xtol = 1e-9;
        
        q.absolute_xtol = 1e-8;
        q.enable_warm_start = p["opt"][1] != 0;
        q.hard_constraints = p["opt"][2] != 0;
        m->setOptimizerParameters(q);
        m->setStateScale(mkv<CX>(p["sx"], 2, nx));
        m->setInputScale(mkv<CU>(p["su"], 2, nu));
        using MB = mpc::mat<NX, PH>;
        using UB = mpc::mat<NU, CH>;
        m->setStateBounds(mkm<MB>(p["xlo"], 1, nx, ph), mkm<MB>(p["xhi"], 1, nx, ph));
        m->setInputBounds(mkm<UB>(p["ulo"], 1, nu, ch), mkm<UB>(p["uhi"], 1, nu, ch));
        auto r = m->optimize(mkv<CX>(p["x0"], 1, nx), mkv<CU>(p["u0"], 1, nu));
        auto s = m->getOptimalSequence();
        Ev e;
        e.str("op", "solve").i("i", id).v("a", l.a).i("st", (long)r.status).i("code", r.solver_status).i("feas", r.is_feasible);
        e.i("cost", hx::encr(r.cost, 1000)).i("jseq", hx::encr(cost(s.state, s.output, s.input, 0), 1000));
        std::vector<long> c;
        for (int k = 0; k < r.cmd.size(); k++) c.push_back(hx::encr(r.cmd(k), 1000));
        e.v("cmd", c);
        auto put = [&](const char *k, const auto &A) {
            std::vector<long> v;
            for (int a = 0; a < A.rows(); a++) for (int b = 0; b < A.cols(); b++) v.push_back(hx::encr(A(a, b), 1000));
            e.v(k, v);
        };
        put("x", s.state);
        put("u", s.input);
        put("y", s.output);
        hx::emit(e);
    }
};
